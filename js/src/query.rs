//! C26 coalesce, stackAndCoalesce and stackable as JavaScript calls them.
use crate::side::*;
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use mc::ctx::*;
use mc::model::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

/// One subquery, as JavaScript writes it.
#[derive(Clone, Debug)]
struct JSub {
    store: usize,
    idx: u16,
    mask: u32,
    weight: f64,
    excl: Vec<u16>,
    id: u32,
    phrase: MatchPhrase,
    langs: Langs,
    nearby: Option<bool>,
    text: String,
}

impl JSub {
    fn new(store: usize, idx: u16, mask: u32, weight: f64, id: u32, phrase: MatchPhrase) -> JSub {
        JSub { store, idx, mask, weight, excl: vec![], id, phrase, langs: Langs::List(vec![0]), nearby: None, text: "main".into() }
    }
}

struct World {
    confs: Vec<Option<Conf>>,
    paths: Vec<Rc<Scratch>>,
    /// the library's own, for the answers to compare with
    stores: Vec<GridStore>,
}

impl World {
    fn new(parts: Vec<(Content, Option<Conf>)>) -> Result<World, String> {
        let mut w = World { confs: vec![], paths: vec![], stores: vec![] };
        for (c, conf) in parts {
            let s = build(&c, &[])?;
            w.stores.push(match &conf {
                Some(conf) => open(&s, conf)?,
                None => GridStore::new(s.path()).map_err(es("GridStore::new"))?,
            });
            w.paths.push(Rc::new(s));
            w.confs.push(conf);
        }
        Ok(w)
    }

    /// one store, opened once with each of these settings
    fn one(c: &Content, confs: &[Option<Conf>]) -> Result<World, String> {
        let mut w = World { confs: confs.to_vec(), paths: vec![], stores: vec![] };
        let s = Rc::new(build(c, &[])?);
        for conf in confs {
            w.stores.push(match conf {
                Some(conf) => open(&s, conf)?,
                None => GridStore::new(s.path()).map_err(es("GridStore::new"))?,
            });
            w.paths.push(s.clone());
        }
        Ok(w)
    }

    fn open_js(&self) -> Result<Vec<Js>, String> {
        self.paths.iter().zip(&self.confs).map(|(s, c)| open_js(s, c.as_ref())).collect()
    }

    fn direct(&self, subs: &[JSub]) -> Vec<PhrasematchSubquery<&GridStore>> {
        subs.iter()
            .map(|s| PhrasematchSubquery {
                store: &self.stores[s.store],
                idx: s.idx,
                non_overlapping_indexes: s.excl.iter().map(|e| *e as usize).collect::<FixedBitSet>(),
                weight: s.weight,
                mask: s.mask,
                match_keys: vec![MatchKeyWithId {
                    key: MatchKey { match_phrase: s.phrase.clone(), lang_set: s.langs.set() },
                    id: s.id,
                    nearby_only: s.nearby.unwrap_or(false),
                    phrase_length: s.text.len(),
                }],
            })
            .collect()
    }

    /// coalesce of one subquery takes its options at the zoom of the store
    fn fit(&self, f: &str, subs: &[JSub], o: &MatchOpts) -> MatchOpts {
        match subs {
            [s] if f == "coalesce" => MatchOpts { zoom: self.confs[s.store].as_ref().map_or(6, |c| c.zoom), ..o.clone() },
            _ => o.clone(),
        }
    }

    /// what the library answers
    fn ask(&self, f: &str, subs: &[JSub], o: &MatchOpts) -> Result<Val, String> {
        let r = match f {
            "coalesce" => coalesce(self.direct(subs), o),
            _ => stack_and_coalesce(&self.direct(subs), o),
        };
        Ok(Val::Arr(r.map_err(|e| e.to_string())?.iter().map(context_val).collect()))
    }
}

fn context_val(c: &CoalesceContext) -> Val {
    obj(&[
        ("mask", Val::Num(c.mask as f64)),
        ("relev", Val::Num(c.relev)),
        (
            "entries",
            Val::Arr(
                c.entries
                    .iter()
                    .map(|e| {
                        obj(&[
                            ("grid_entry", ent_val(&e.grid_entry)),
                            ("matches_language", Val::Bool(e.matches_language)),
                            ("idx", Val::Num(e.idx as f64)),
                            ("tmp_id", Val::Num(e.tmp_id as f64)),
                            ("mask", Val::Num(e.mask as f64)),
                            ("distance", Val::Num(e.distance)),
                            ("scoredist", Val::Num(e.scoredist)),
                            ("phrasematch_id", Val::Num(e.phrasematch_id as f64)),
                        ])
                    })
                    .collect(),
            ),
        ),
    ])
}

fn jphrase(p: &MatchPhrase) -> Js {
    match p {
        MatchPhrase::Exact(v) => js::object(&[("Exact", num(*v))]),
        MatchPhrase::Range { start, end } => {
            js::object(&[("Range", js::object(&[("start", num(*start)), ("end", num(*end))]))])
        }
    }
}

fn jsub(s: &JSub, stores: &[Js]) -> Js {
    let key = js::object(&[("match_phrase", jphrase(&s.phrase))]);
    s.langs.put(key);
    let excl: Vec<Js> = s.excl.iter().map(|e| num(*e)).collect();
    let o = js::object(&[
        ("store", stores[s.store]),
        ("weight", num(s.weight)),
        ("match_key", key),
        ("idx", num(s.idx)),
        ("non_overlapping_indexes", js::array(&excl)),
        ("mask", num(s.mask)),
        ("id", num(s.id)),
        ("phrase", js::string(&s.text)),
    ]);
    if let Some(n) = s.nearby {
        js::set(o, "nearby_only", js::boolean(n));
    }
    o
}

fn jsubs(subs: &[JSub], stores: &[Js]) -> Js {
    let v: Vec<Js> = subs.iter().map(|s| jsub(s, stores)).collect();
    js::array(&v)
}

fn jopts(o: &MatchOpts) -> Js {
    let v = js::object(&[("zoom", num(o.zoom))]);
    if let Some(p) = o.proximity {
        js::set(v, "proximity", js::array(&p.map(|c| num(c))));
    }
    if let Some(b) = o.bbox {
        js::set(v, "bbox", js::array(&b.map(|c| num(c))));
    }
    v
}

/// A callback and what it was called with.
#[derive(Clone)]
struct Heard(Rc<RefCell<Vec<Vec<Val>>>>);
impl Heard {
    fn new() -> (Heard, Js) {
        let h = Heard(Rc::new(RefCell::new(Vec::new())));
        let h2 = h.clone();
        let f = js::function(move |args| h2.0.borrow_mut().push(args.iter().map(|a| js::look(*a)).collect()));
        (h, f)
    }
    fn calls(&self) -> Vec<Vec<Val>> {
        self.0.borrow().clone()
    }
    /// it was called once, with this
    fn check(&self, want: &Result<Val, String>) -> Result<(), String> {
        let calls = self.calls();
        if calls.len() != 1 {
            return Err(format!("the callback was called {} times", calls.len()));
        }
        match (want, calls[0].as_slice()) {
            (Ok(w), [Val::Null, got]) => same("the result", got, w),
            (Err(_), [Val::Error(..)]) => Ok(()),
            (_, got) => Err(format!("the callback got {:.400}, expected {:.400}", format!("{:?}", got), format!("{:?}", want))),
        }
    }
}

/// calls, waits for the callback, compares
fn ask(f: &str, w: &World, stores: &[Js], subs: &[JSub], o: &MatchOpts) -> Result<(), String> {
    let o = &w.fit(f, subs, o);
    let want = w.ask(f, subs, o);
    let (heard, cb) = Heard::new();
    must_do(|| f.into(), js::call(f, &[jsubs(subs, stores), jopts(o), cb]))?;
    if !heard.calls().is_empty() {
        return Err("the callback was called before the call returned".into());
    }
    if js::tasks() != 1 {
        return Err(format!("{} tasks were queued", js::tasks()));
    }
    let p = js::perform(js::take_task(0));
    if !heard.calls().is_empty() {
        return Err("the callback was called from a thread of the pool".into());
    }
    js::complete(p);
    heard.check(&want).map_err(|e| format!("{}: {}", f, e))
}

const BOTH: [&str; 2] = ["coalesce", "stackAndCoalesce"];

fn grid(parts: &[(u32, Vec<Ent>)]) -> Content {
    parts.iter().map(|(p, v)| ((*p, 1u128), v.iter().cloned().collect::<BTreeSet<_>>())).collect()
}

/// three nested stores, the first opened without settings (zoom 6, type 0)
fn nested() -> Result<World, String> {
    let e = |rq: u8, score: u8, x: u16, y: u16, id: u32, h: u8| Ent::new(rq, score, x, y, id, h);
    let mut a = grid(&[
        (1, vec![e(3, 3, 1, 1, 1, 1), e(2, 1, 0, 1, 2, 2)]),
        (2, vec![e(3, 1, 1, 1, 1, 1), e(3, 7, 5, 5, 9, 9)]),
    ]);
    a.insert((3, 0), [e(3, 2, 1, 1, 12, 0)].into_iter().collect());
    let b = grid(&[
        (1, vec![e(3, 3, 4, 4, 1, 0), e(3, 3, 5, 5, 2, 0), e(1, 7, 6, 6, 3, 3)]),
        (2, vec![e(0, 1, 4, 5, 4, 1), e(3, 0, 40, 40, 0xFF_FFFF, 255)]),
        (4, vec![e(3, 3, 4, 4, 8, 1)]),
    ]);
    let c = grid(&[(1, vec![e(3, 3, 8, 8, 1, 0), e(2, 2, 9, 8, 5, 0), e(3, 1, 40, 3, 6, 0)]), (5, vec![e(2, 0, 11, 11, 7, 1)])]);
    World::new(vec![
        (a, None),
        (b, Some(Conf { type_id: 1, radius: 200.0, ..Conf::at(8) })),
        (c, Some(Conf { type_id: 2, max_score: 3.0, ..Conf::at(9) })),
    ])
}

fn exact(p: u32) -> MatchPhrase {
    MatchPhrase::Exact(p)
}
fn range(a: u32, b: u32) -> MatchPhrase {
    MatchPhrase::Range { start: a, end: b }
}

pub fn c26(ctx: &mut Ctx) {
    ctx.assume("The bindings run on stand-ins for neon 0.7 and neon-serde (/verif/shims/neon, neon-serde); a task may be performed by any thread at any time and is completed on the main thread, in any order, as libuv may do.");
    ctx.assume("What the library itself answers is judged by C15 to C24; here it is the reference. Phrases are ASCII, where bytes and characters are the same.");
    answers(ctx);
    fields(ctx);
    settings_reach(ctx);
    letters(ctx);
    schedules(ctx);
    exclusions(ctx);
    wrong_calls(ctx);
    large(ctx);
    numbers(ctx);
    same_path(ctx);
}

/// one to three subqueries over nested stores
fn answers(ctx: &mut Ctx) {
    let phrases = [exact(1), exact(2), range(1, 3), exact(77), range(1, 6)];
    let opts: Vec<MatchOpts> = vec![
        MatchOpts { zoom: 9, bbox: None, proximity: None },
        MatchOpts { zoom: 9, bbox: None, proximity: Some([8, 9]) },
        MatchOpts { zoom: 8, bbox: Some([4, 4, 5, 5]), proximity: None },
        MatchOpts { zoom: 6, bbox: Some([0, 0, 63, 63]), proximity: Some([7, 0]) },
        MatchOpts { zoom: 16, bbox: None, proximity: Some([65535, 0]) },
    ];
    let np = phrases.len();
    ctx.family(
        "answers",
        &format!("0 to 3 subqueries over three nested stores (the first opened without settings), {} phrases each, masks that overlap or not, one or several indexes, {} options, in coalesce and stackAndCoalesce, each in its own process", np, opts.len()),
        (4 * np * np * np * opts.len() * 2 * 3) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let f = BOTH[d.below(2) as usize];
            let n = d.below(4) as usize;
            let masks = d.below(3);
            let o = d.pick(&opts);
            let subs: Vec<JSub> = (0..n)
                .map(|i| {
                    let p = d.pick(&phrases).clone();
                    let mask = match masks {
                        0 => 1 << i,
                        1 => 3,
                        _ => 1 << (i % 2),
                    };
                    JSub::new(i, i as u16 * 3 + 1, mask, [0.5, 0.25, 0.3][i], 10 + i as u32, p)
                })
                .collect();
            let w = nested()?;
            let _session = Session::new();
            let stores = w.open_js()?;
            t.state(&(n, masks, subs.iter().map(|s| format!("{:?}", s.phrase)).collect::<Vec<_>>()));
            t.trace(1);
            t.sample(|| format!("{} {:?} {:?}", f, subs, o));
            ask(f, &w, &stores, &subs, o)
        },
    );
}

/// each field of a subquery, through its values
fn fields(ctx: &mut Ctx) {
    let values: [usize; 10] = [3, 4, 5, 4, 4, 4, 5, 3, 3, 5];
    let two: Vec<(usize, usize)> =
        (0..10).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
    let total: usize = two.iter().map(|(i, j)| values[*i] * values[*j]).sum();
    let pick = |mut c: usize| -> Vec<(usize, usize)> {
        for (i, j) in &two {
            let n = values[*i] * values[*j];
            if c < n {
                return vec![(*i, c % values[*i]), (*j, c / values[*i])];
            }
            c -= n;
        }
        unreachable!()
    };
    let nopts = 8u64;
    ctx.family(
        "fields",
        "a pair of subqueries, one with two of its fields at each of 3 to 5 values: store, index, mask, weight, exclusions, id, phrase, languages, nearby_only, text; 8 options with and without proximity and box",
        total as u64 * nopts * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let f = BOTH[d.below(2) as usize];
            let on = d.below(nopts);
            let o = MatchOpts {
                zoom: [9, 8][(on & 1) as usize],
                proximity: if on & 2 != 0 { Some([4, 4]) } else { None },
                bbox: if on & 4 != 0 { Some([0, 0, 20, 20]) } else { None },
            };
            let mut s = JSub::new(1, 4, 2, 0.5, 20, range(1, 3));
            let set = pick(d.rest() as usize);
            for (field, v) in &set {
                let v = *v;
                match field {
                    0 => s.store = [1, 2, 0][v],
                    1 => s.idx = [4, 0, 127, 1][v],
                    2 => s.mask = [2, 1, 3, 1 << 31, 0x7FFF_FFFE][v],
                    3 => s.weight = [0.5, 0.0, 1.0, 1.0 / 3.0][v],
                    4 => s.excl = [vec![], vec![1], vec![2, 3], vec![0, 127]][v].clone(),
                    5 => s.id = [20, 0, u32::MAX, 0x8000_0000][v],
                    6 => s.phrase = [range(1, 3), exact(2), range(2, 1 << 31), exact(4), range(0, u32::MAX)][v].clone(),
                    7 => s.langs = [Langs::List(vec![0]), Langs::Null, Langs::List(vec![5, 127])][v].clone(),
                    8 => s.nearby = [None, Some(true), Some(false)][v],
                    _ => s.text = ["main", "", "m", "mn", "a longer phrase than most"][v].into(),
                }
            }
            let subs = vec![JSub::new(0, 1, 1, 0.5, 10, range(1, 4)), s];
            let w = nested()?;
            let _session = Session::new();
            let stores = w.open_js()?;
            t.state(&set);
            t.trace(1);
            t.sample(|| format!("{} {:?} {:?}", f, subs, o));
            ask(f, &w, &stores, &subs, &o)?;
            // and alone, and the other way about
            ask(f, &w, &stores, &subs[1..], &o)?;
            let back: Vec<JSub> = subs.iter().rev().cloned().collect();
            ask(f, &w, &stores, &back, &o)
        },
    );
}

/// which subqueries may stand together
fn exclusions(ctx: &mut Ctx) {
    let at = ctx.by(vec![0u16, 1, 31, 32, 63, 64, 65, 96, 127], vec![0, 1, 7, 8, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97, 126, 127]);
    let n = at.len() as u64;
    ctx.family(
        "exclusions",
        &format!("a pair of subqueries, each of an index of {:?} and excluding none, one of these indexes, or one of them and the last", at),
        n * n * (n + 1) * (n + 1) * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let both = d.flag();
            let idx = [*d.pick(&at), *d.pick(&at)];
            let mut list = || match d.below(n + 1) {
                0 => vec![],
                i if both => vec![at[i as usize - 1], *at.last().unwrap()],
                i => vec![at[i as usize - 1]],
            };
            let excl = [list(), list()];
            if idx[0] == idx[1] {
                return Ok(());
            }
            let a = grid(&[(1, vec![Ent::new(3, 3, 1, 1, 1, 0)])]);
            let b = grid(&[(1, vec![Ent::new(3, 3, 4, 4, 2, 0)])]);
            let w = World::new(vec![(a, Some(Conf::at(3))), (b, Some(Conf { type_id: 1, ..Conf::at(5) }))])?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let subs: Vec<JSub> = (0..2)
                .map(|i| JSub { excl: excl[i].clone(), ..JSub::new(i, idx[i], 1 << i, 0.5, 10 + i as u32, exact(1)) })
                .collect();
            t.state(&(idx, &excl));
            t.trace(1);
            t.sample(|| format!("{:?}", subs));
            ask("stackAndCoalesce", &w, &stores, &subs, &MatchOpts { zoom: 5, bbox: None, proximity: None })
        },
    );
}

/// the settings of a store, each through its values
fn settings_reach(ctx: &mut Ctx) {
    let confs: Vec<Option<Conf>> = {
        let mut v = vec![None];
        for zoom in [5u16, 6, 14] {
            for type_id in [0u16, 1, 65535] {
                for radius in [0.5, 40.0, 1000.0] {
                    for bboxes in [vec![], vec![world(zoom)], vec![[0, 0, 1, 1]], vec![[9, 9, 10, 10], [0, 0, 3, 3]]] {
                        for max_score in [0.0, 1.0, 15.0] {
                            v.push(Some(Conf { zoom, type_id, radius, bboxes: bboxes.clone(), max_score }));
                        }
                    }
                }
            }
        }
        v
    };
    ctx.family(
        "settings",
        &format!("{} settings of a store (none, zoom, type, radius, boxes, highest score) in a pair of subqueries, against another of fixed settings; 3 options", confs.len()),
        confs.len() as u64 * 3 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let f = BOTH[d.below(2) as usize];
            let o = [
                MatchOpts { zoom: 6, bbox: None, proximity: None },
                MatchOpts { zoom: 6, bbox: None, proximity: Some([3, 3]) },
                MatchOpts { zoom: 14, bbox: Some([0, 0, 2048, 2048]), proximity: Some([0, 0]) },
            ][d.below(3) as usize]
                .clone();
            let conf = d.pick(&confs);
            let e = |x: u16, y: u16, id: u32, sc: u8| Ent::new(3, sc, x, y, id, 0);
            let a = grid(&[(1, vec![e(1, 1, 1, 1), e(2, 2, 2, 1), e(0, 0, 3, 0)])]);
            let b = grid(&[(1, vec![e(1, 1, 4, 1), e(9, 9, 5, 3), e(4, 4, 6, 0), e(700, 700, 7, 2)])]);
            let w = World::new(vec![(a, Some(Conf::at(5))), (b, conf.clone())])?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let subs = vec![JSub::new(0, 1, 1, 0.5, 10, exact(1)), JSub::new(1, 2, 2, 0.5, 11, exact(1))];
            t.state(&format!("{:?}", conf));
            t.trace(2);
            ask(f, &w, &stores, &subs, &o)?;
            ask(f, &w, &stores, &subs[1..], &o)
        },
    );
}

/// the length of the phrase decides about quotas for ranges
fn letters(ctx: &mut Ctx) {
    ctx.family(
        "letters",
        "5 to 12 subqueries for ranges over one store, of phrases of 0 to 3 letters, that stack with one over another; both orders",
        8 * 4 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = d.below(8) as usize + 5;
            let len = d.below(4) as usize;
            let rev = d.flag();
            let a = grid(&[(1, vec![Ent::new(3, 3, 1, 1, 1, 0)])]);
            let b: Content = (0..n as u32 + 2).map(|p| ((p, 1u128), [Ent::new(3, (p % 8) as u8, 4, 4, p, 0)].into_iter().collect())).collect();
            let w = World::new(vec![(a, Some(Conf::at(3))), (b, Some(Conf { type_id: 1, ..Conf::at(5) }))])?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let mut subs = vec![JSub::new(0, 1, 1, 0.5, 10, exact(1))];
            for i in 0..n as u32 {
                let text = "abc"[..len].to_string();
                subs.push(JSub { text, ..JSub::new(1, 2 + i as u16, 2, 0.3, 100 + i, range(i, i + 2)) });
            }
            if rev {
                subs.reverse();
            }
            t.state(&(n, len, rev));
            t.trace(1);
            ask("stackAndCoalesce", &w, &stores, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None })
        },
    );
}

/// Several calls at once: queued, performed on other threads and completed in every order, while
/// the program changes what it passed and drops its stores.
fn schedules(ctx: &mut Ctx) {
    let ntasks = 3usize;
    let ctx_kinds = ctx.by(2u64, 8);
    // the orders of 3 x (call, perform, complete), each task's own steps in order
    let orders: Vec<Vec<usize>> = {
        fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if left.iter().all(|l| *l == 0) {
                out.push(cur.clone());
                return;
            }
            for i in 0..left.len() {
                if left[i] > 0 {
                    left[i] -= 1;
                    cur.push(i);
                    go(left, cur, out);
                    cur.pop();
                    left[i] += 1;
                }
            }
        }
        let mut out = Vec::new();
        go(&mut vec![3; ntasks], &mut Vec::new(), &mut out);
        out
    };
    ctx.family(
        "schedules",
        &format!("3 calls, {} choices of their functions, {} orders of their calls, their performance on other threads and their completion; after each call its arguments stay, are changed, or are taken apart; the stores stay or are collected after the last call", ctx_kinds, orders.len()),
        orders.len() as u64 * ctx_kinds * 3 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let order = d.pick(&orders);
            let kinds = [5, 2, 7, 0, 1, 3, 4, 6][d.below(ctx_kinds) as usize];
            let change = d.below(3);
            let collect = d.flag();
            let w = nested()?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let f = |i: usize| BOTH[(kinds >> i & 1) as usize];
            let o = [
                MatchOpts { zoom: 9, bbox: None, proximity: Some([8, 8]) },
                MatchOpts { zoom: 8, bbox: None, proximity: None },
                MatchOpts { zoom: 9, bbox: Some([0, 0, 20, 20]), proximity: None },
            ];
            let asked: Vec<Vec<JSub>> = vec![
                vec![JSub::new(0, 1, 1, 0.5, 10, exact(1)), JSub::new(1, 2, 2, 0.5, 11, exact(1))],
                vec![JSub { excl: vec![3], ..JSub::new(1, 2, 2, 0.5, 12, range(1, 3)) }, JSub::new(2, 3, 1, 0.5, 13, exact(1))],
                vec![JSub::new(0, 1, 2, 0.25, 14, range(1, 3))],
            ];
            let o: Vec<MatchOpts> = (0..ntasks).map(|i| w.fit(f(i), &asked[i], &o[i])).collect();
            let want: Vec<Result<Val, String>> = (0..ntasks).map(|i| w.ask(f(i), &asked[i], &o[i])).collect();
            let mut stage = vec![0; ntasks];
            let mut waiting: Vec<usize> = Vec::new();
            let mut done: Vec<Option<neon::js::Performed>> = (0..ntasks).map(|_| None).collect();
            let mut heard: Vec<Option<Heard>> = vec![None; ntasks];
            for i in order {
                let i = *i;
                match stage[i] {
                    0 => {
                        let (h, cb) = Heard::new();
                        heard[i] = Some(h);
                        let (a, b) = (jsubs(&asked[i], &stores), jopts(&o[i]));
                        must_do(|| f(i).into(), js::call(f(i), &[a, b, cb]))?;
                        waiting.push(i);
                        if change == 1 {
                            // the same objects, used for something else
                            for k in 0..asked[i].len() {
                                let s = js::get(a, &k.to_string());
                                js::set(s, "store", stores[2 - asked[i][k].store]);
                                js::set(s, "weight", num(0.01));
                                js::set(s, "mask", num(64));
                                js::set(s, "id", num(99));
                                js::set(s, "idx", num(9));
                                js::set(s, "nearby_only", js::boolean(true));
                                let key = js::get(s, "match_key");
                                js::set(key, "match_phrase", jphrase(&exact(5)));
                                js::set(key, "lang_set", js::array(&[]));
                            }
                            js::set(b, "zoom", num(2));
                            js::set(b, "bbox", js::array(&[num(0), num(0), num(0), num(0)]));
                        } else if change == 2 {
                            for k in 0..asked[i].len() {
                                let s = js::get(a, &k.to_string());
                                for n in js::names(s) {
                                    js::remove(s, &n);
                                }
                            }
                            js::truncate(a, 0);
                            js::remove(b, "zoom");
                        }
                        if collect && stage.iter().filter(|s| **s > 0).count() == ntasks - 1 {
                            for s in &stores {
                                js::collect(*s);
                            }
                        }
                    }
                    1 => {
                        let at = waiting.iter().position(|x| *x == i).unwrap();
                        waiting.remove(at);
                        let task = js::take_task(at);
                        let p = std::thread::scope(|s| s.spawn(move || Sent(js::perform(task))).join())
                            .unwrap_or_else(|p| std::panic::resume_unwind(p));
                        done[i] = Some(p.0);
                    }
                    _ => {
                        js::complete(done[i].take().unwrap());
                        heard[i].as_ref().unwrap().check(&want[i]).map_err(|e| format!("call {}: {}", i, e))?;
                    }
                }
                stage[i] += 1;
                if js::tasks() != waiting.len() {
                    return Err(format!("{} tasks wait, expected {}", js::tasks(), waiting.len()));
                }
                for j in 0..ntasks {
                    let n = heard[j].as_ref().map_or(0, |h| h.calls().len());
                    if n != (stage[j] == 3) as usize {
                        return Err(format!("the callback of call {} has been called {} times at its stage {}", j, n, stage[j]));
                    }
                }
                t.state(&(stage.clone(), kinds, change, collect));
            }
            t.trace(9);
            t.sample(|| format!("{:?}", order));
            Ok(())
        },
    );
}

struct Sent(neon::js::Performed);
unsafe impl Send for Sent {}

/// Wrong arguments: an exception at once, no task, no callback.
fn wrong_calls(ctx: &mut Ctx) {
    type Way = (String, Vec<Js>);
    fn ways(f: &str, w: &World) -> Result<Vec<Way>, String> {
        let stores = w.open_js()?;
        let sub = || jsub(&JSub::new(0, 1, 1, 0.5, 10, exact(1)), &stores);
        let opts = || jopts(&MatchOpts { zoom: 6, bbox: Some([0, 0, 9, 9]), proximity: Some([1, 1]) });
        let cb = || js::function(|_| panic!("the callback was called"));
        let mut v: Vec<Way> = Vec::new();
        let alone = f == "stackable";
        let mut put = |n: String, subs: Js, o: Js, c: Option<Js>| {
            let mut a = vec![subs];
            if !alone {
                a.push(o);
                a.extend(c);
            }
            v.push((n, a));
        };
        for (n, x) in wrong(&["array"]) {
            put(format!("subqueries {}", n), x, opts(), Some(cb()));
        }
        if !alone {
            for (n, x) in wrong(&[]) {
                put(format!("options {}", n), js::array(&[sub()]), x, Some(cb()));
            }
            for (n, x) in wrong(&["function"]) {
                put(format!("callback {}", n), js::array(&[sub()]), opts(), Some(x));
            }
            put("no callback".into(), js::array(&[sub()]), opts(), None);
            let with = |f: &str, x: Js| {
                let o = opts();
                js::set(o, f, x);
                o
            };
            let list = |v: &[f64]| {
                let v: Vec<Js> = v.iter().map(|x| num(*x)).collect();
                js::array(&v)
            };
            let o = opts();
            js::remove(o, "zoom");
            put("no zoom".into(), js::array(&[sub()]), o, Some(cb()));
            for f in ["zoom", "bbox", "proximity"] {
                let o = opts();
                js::set_throwing(o, f);
                put(format!("{} throws", f), js::array(&[sub()]), o, Some(cb()));
                let but: &[&str] = if f == "zoom" { &["number"] } else { &["undefined", "null"] };
                for (n, x) in wrong(but) {
                    put(format!("{} {}", f, n), js::array(&[sub()]), with(f, x), Some(cb()));
                }
            }
            for bad in [-1.0, 65536.0, 0.5, f64::NAN] {
                put(format!("zoom {}", bad), js::array(&[sub()]), with("zoom", num(bad)), Some(cb()));
                put(format!("bbox with {}", bad), js::array(&[sub()]), with("bbox", list(&[0.0, 0.0, bad, 1.0])), Some(cb()));
                put(format!("proximity with {}", bad), js::array(&[sub()]), with("proximity", list(&[bad, 1.0])), Some(cb()));
            }
            put("three sides".into(), js::array(&[sub()]), with("bbox", list(&[0.0, 0.0, 1.0])), Some(cb()));
            put("half a point".into(), js::array(&[sub()]), with("proximity", list(&[1.0])), Some(cb()));
        }
        // a subquery that is none, alone or after a good one
        let mut subs: Vec<(String, Js)> = Vec::new();
        for (n, x) in wrong(&[]) {
            subs.push((format!("subquery {}", n), x));
        }
        let changed = |f: &str, x: Option<Js>| {
            let s = sub();
            match x {
                Some(x) => js::set(s, f, x),
                None => js::remove(s, f),
            }
            s
        };
        let builder = js::construct("GridStoreBuilder", &[js::string(Scratch::new().path().to_str().unwrap())])
            .map_err(thrown("new GridStoreBuilder"))?;
        subs.push(("store is a builder".into(), changed("store", Some(builder))));
        for f in ["store", "weight", "mask", "match_key", "id", "idx", "non_overlapping_indexes", "phrase"] {
            subs.push((format!("no {}", f), changed(f, None)));
            let s = sub();
            js::set_throwing(s, f);
            subs.push((format!("{} throws", f), s));
            let but: &[&str] = match f {
                "weight" | "mask" | "id" | "idx" => &["number"],
                "phrase" => &["string"],
                _ => &[],
            };
            for (n, x) in wrong(but) {
                subs.push((format!("{} {}", f, n), changed(f, Some(x))));
            }
        }
        for (n, x) in wrong(&["undefined", "boolean"]) {
            subs.push((format!("nearby_only {}", n), changed("nearby_only", Some(x))));
        }
        let s = sub();
        js::set_throwing(s, "nearby_only");
        subs.push(("nearby_only throws".into(), s));
        for (f, over) in [("mask", 4294967296.0), ("id", 4294967296.0), ("idx", 65536.0)] {
            for bad in [over, -1.0, 0.5, f64::NAN] {
                subs.push((format!("{} {}", f, bad), changed(f, Some(num(bad)))));
            }
        }
        for (n, x) in wrong(&["number"]) {
            subs.push((format!("exclusion {}", n), changed("non_overlapping_indexes", Some(js::array(&[num(1), x])))));
        }
        let key = |f: &str, x: Option<Js>| {
            let s = sub();
            let k = js::get(s, "match_key");
            match x {
                Some(x) => js::set(k, f, x),
                None => js::remove(k, f),
            }
            s
        };
        subs.push(("no match_phrase".into(), key("match_phrase", None)));
        for (n, x) in wrong(&[]) {
            subs.push((format!("match_phrase {}", n), key("match_phrase", Some(x))));
        }
        for (n, x) in wrong(&["number"]) {
            subs.push((format!("Exact {}", n), key("match_phrase", Some(js::object(&[("Exact", x)])))));
        }
        for (n, x) in wrong(&["array"]) {
            subs.push((format!("Range {}", n), key("match_phrase", Some(js::object(&[("Range", x)])))));
        }
        for (n, x) in [("start", num(1)), ("end", num(1))] {
            subs.push((format!("Range with {} alone", n), key("match_phrase", Some(js::object(&[("Range", js::object(&[(n, x)]))])))));
        }
        subs.push((
            "Exact and Range".into(),
            key("match_phrase", Some(js::object(&[("Exact", num(1)), ("Range", js::object(&[("start", num(1)), ("end", num(2))]))]))),
        ));
        for bad in [-1.0, 4294967296.0, 0.5] {
            subs.push((format!("Exact {}", bad), key("match_phrase", Some(js::object(&[("Exact", num(bad))])))));
        }
        for (n, x) in wrong(&["undefined", "null", "array"]) {
            subs.push((format!("lang_set {}", n), key("lang_set", Some(x))));
        }
        for (n, x) in wrong(&["number"]) {
            subs.push((format!("language {}", n), key("lang_set", Some(js::array(&[num(0), x])))));
        }
        for (n, s) in subs {
            put(format!("{}, alone", n), js::array(&[s]), opts(), Some(cb()));
            put(format!("{}, after a good one", n), js::array(&[sub(), s]), opts(), Some(cb()));
            put(format!("{}, before a good one", n), js::array(&[s, sub()]), opts(), Some(cb()));
        }
        let l = js::array(&[sub(), sub()]);
        js::set_throwing(l, "1");
        put("a subquery throws".into(), l, opts(), Some(cb()));
        v.push(("no argument".into(), vec![]));
        if !alone {
            v.push(("one argument".into(), vec![js::array(&[sub()])]));
        }
        Ok(v)
    }
    let fs = ["coalesce", "stackAndCoalesce", "stackable"];
    let counts: Vec<usize> = {
        let _session = Session::new();
        let w = nested().unwrap();
        fs.iter().map(|f| ways(f, &w).unwrap().len()).collect()
    };
    let total: usize = counts.iter().sum();
    ctx.family(
        "wrong-calls",
        &format!("{} ways to call coalesce, stackAndCoalesce and stackable wrongly: an exception, no task, no callback; a good call after it answers", total),
        total as u64,
        |case, t| {
            let mut c = case as usize;
            let mut f = 0;
            while c >= counts[f] {
                c -= counts[f];
                f += 1;
            }
            let w = nested()?;
            let _session = Session::new();
            let (n, a) = ways(fs[f], &w)?.swap_remove(c);
            t.state(&(f, &n));
            t.trace(2);
            t.sample(|| format!("{}: {}", fs[f], n));
            must_throw(|| format!("{}, {}", fs[f], n), js::call(fs[f], &a))?;
            if js::tasks() != 0 {
                return Err(format!("{}, {}: a task was queued", fs[f], n));
            }
            let stores = w.open_js()?;
            let subs = vec![JSub::new(0, 1, 1, 0.5, 10, exact(1)), JSub::new(1, 2, 2, 0.5, 11, exact(1))];
            ask(BOTH[f % 2], &w, &stores, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None })?;
            must_do(|| "stackable".into(), js::call("stackable", &[jsubs(&subs, &stores)]))?;
            must_do(|| "stackable of nothing".into(), js::call("stackable", &[js::array(&[])]))
        },
    );
}

/// answers at the limits of their number
fn large(ctx: &mut Ctx) {
    let ns = ctx.by(vec![39usize, 40, 41, 300], vec![1, 10, 39, 40, 41, 300, 5000]);
    ctx.family(
        "large",
        &format!("{:?} features under one phrase, alone or under another, with or without proximity", ns),
        (ns.len() * 2 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let f = BOTH[d.below(2) as usize];
            let pair = d.flag();
            let prox = d.flag();
            let a = grid(&[(1, vec![Ent::new(3, 3, 1, 1, 1, 0)])]);
            let b = grid(&[(1, (0..n).map(|i| Ent::new((i % 4) as u8, (i % 7) as u8, 4 + (i % 4) as u16, 4 + (i / 4 % 4) as u16, i as u32, i as u8)).collect())]);
            let w = World::new(vec![(a, Some(Conf::at(3))), (b, Some(Conf { type_id: 1, ..Conf::at(5) }))])?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let mut subs = vec![JSub::new(1, 2, 2, 0.5, 11, exact(1))];
            if pair {
                subs.push(JSub::new(0, 1, 1, 0.5, 10, exact(1)));
            }
            t.state(&(n, pair, prox));
            t.trace(1);
            ask(f, &w, &stores, &subs, &MatchOpts { zoom: 5, bbox: None, proximity: if prox { Some([5, 5]) } else { None } })
        },
    );
    let ns: Vec<usize> = ctx.by(vec![1, 2, 5, 7, 19, 20, 21, 30], (1..=30).collect());
    ctx.family(
        "results",
        &format!("{} numbers of phrases up to {} of 40 features each, so that there are up to 800 results and beyond; weights falling or rising; alone or under another; 65,537 letters or one", ns.len(), ns.last().unwrap()),
        (ns.len() * 2 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns) as u32;
            let rising = d.flag();
            let pair = d.flag();
            let long = d.flag();
            let a = grid(&[(1, vec![Ent::new(3, 3, 0, 0, 1, 0)])]);
            let b: Content = (0..n)
                .map(|p| ((p, 1u128), (0..40).map(|i| Ent::new(3, (i % 8) as u8, (i % 8) as u16, (i / 8) as u16, p * 100 + i, p as u8)).collect()))
                .collect();
            let w = World::new(vec![(a, Some(Conf::at(3))), (b, Some(Conf { type_id: 1, ..Conf::at(6) }))])?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let mut subs: Vec<JSub> = (0..n)
                .map(|p| {
                    let weight = 0.5 + 0.01 * if rising { p } else { n - 1 - p } as f64;
                    let s = JSub::new(1, 1, 2, weight, p, exact(p));
                    if long { JSub { text: "y".repeat(65_537), ..s } } else { s }
                })
                .collect();
            if pair {
                subs.push(JSub::new(0, 0, 1, 0.25, 5000, exact(1)));
            }
            t.state(&(n, rising, pair));
            t.trace(n as u64);
            ask("stackAndCoalesce", &w, &stores, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None })
                .map_err(|e| format!("{} phrases: {:.600}", n, e))
        },
    );
}

/// how many of everything there may be in one call
fn numbers(ctx: &mut Ctx) {
    let lens: Vec<usize> = ctx.by(vec![0, 1, 2, 128, 129, 255, 256, 257, 511, 512, 513, 65_535, 65_536, 65_537], (0..=300).chain([511, 512, 513, 65_535, 65_536, 65_537, 131_073]).collect());
    let counts = [1u32, 7, 8, 9, 12, 39, 40, 41, 45];
    ctx.family(
        "lengths",
        &format!("{:?} ranges, each with a phrase of {} lengths up to {} letters, or only the first or the last of them so long and the others of two; in one store or two", counts, lens.len(), lens.last().unwrap()),
        (lens.len() * counts.len() * 3 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let len = *d.pick(&lens);
            let n = *d.pick(&counts);
            let which = d.below(3);
            let two = d.flag() as usize;
            let c = || -> Content { (0..n).map(|p| ((2 * p, 1u128), [Ent::new(3, (p % 8) as u8, 4, 4, p, 0)].into_iter().collect())).collect() };
            let w = World::new(vec![(c(), Some(Conf::at(6))), (c(), Some(Conf { type_id: 1, ..Conf::at(6) }))])?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let subs: Vec<JSub> = (0..n)
                .map(|p| {
                    let long = which == 0 || which == 1 && p == 0 || which == 2 && p == n - 1;
                    let at = if two == 1 { (p % 2) as usize } else { 0 };
                    JSub { text: "y".repeat(if long { len } else { 2 }), ..JSub::new(at, at as u16, 1, 0.5, p, range(2 * p, 2 * p + 2)) }
                })
                .collect();
            t.state(&(len, n, which, two));
            t.trace(1);
            ask("stackAndCoalesce", &w, &stores, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None })
                .map_err(|e| format!("{} letters: {:.600}", len, e))
        },
    );

    let ns: Vec<usize> = ctx.by(
        vec![0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 513, 1000, 1025],
        (0..=130).chain([255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 1990]).collect(),
    );
    let what = ["subqueries of one store and index", "subqueries of one store, an index each", "stores", "letters of a phrase", "exclusions", "languages"];
    ctx.family(
        "numbers",
        &format!("{} numbers up to {} of each of {:?}; in one order and the other", ns.len(), ns.last().unwrap(), what),
        (ns.len() * what.len() * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let f = BOTH[d.below(2) as usize];
            let rev = d.flag();
            let kind = d.below(what.len() as u64) as usize;
            let n = *d.pick(&ns);
            // no more indexes, exclusions and languages than there can be
            if kind == 1 && n > 128 || kind == 4 && n > 127 || kind == 5 && n > 128 {
                return Ok(());
            }
            let a = grid(&[(1, vec![Ent::new(3, 3, 1, 1, 1, 0)])]);
            let b: Content = (0..n.max(1) as u32).map(|p| ((p, 1u128), [Ent::new(3, (p % 8) as u8, 4, 4, p, 0)].into_iter().collect())).collect();
            let mut parts = vec![(a, Some(Conf::at(3))), (b, Some(Conf { type_id: 1, ..Conf::at(5) }))];
            if kind == 2 {
                for i in 0..n as u32 {
                    parts.push((grid(&[(1, vec![Ent::new(3, (i % 8) as u8, 4, 4, 1000 + i, 0)])]), Some(Conf { type_id: 2 + (i % 3) as u16, ..Conf::at(5) })));
                }
            }
            let w = World::new(parts)?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let mut subs = vec![JSub::new(0, 0, 1, 0.5, 5000, exact(1))];
            match kind {
                0 => subs.extend((0..n as u32).map(|p| JSub::new(1, 1, 2, 0.25, p, exact(p)))),
                1 => subs.extend((0..n as u32).map(|p| JSub::new(1, p as u16, 2, 0.25, p, exact(p)))),
                2 => subs.extend((0..n).map(|i| JSub::new(2 + i, 1 + (i % 100) as u16, 2, 0.25, i as u32, exact(1)))),
                3 => subs.extend((0..3).map(|p| JSub { text: "x".repeat(n), ..JSub::new(1, 1, 2, 0.25, p, range(p, p + 2)) })),
                4 => subs.push(JSub { excl: (1..=n as u16).collect(), ..JSub::new(1, 127, 2, 0.25, 6000, exact(0)) }),
                _ => subs.push(JSub { langs: Langs::List((0..n as u32).collect()), ..JSub::new(1, 1, 2, 0.25, 6000, exact(0)) }),
            }
            if rev {
                subs.reverse();
            }
            t.state(&(kind, n, rev));
            t.trace(1);
            ask(f, &w, &stores, &subs, &MatchOpts { zoom: 5, bbox: None, proximity: None })
                .map_err(|e| format!("{} {}: {}", n, what[kind], e))
        },
    );
}

/// one index on disk, opened several times
fn same_path(ctx: &mut Ctx) {
    let conf = |type_id: u16, zoom: u16, radius: f64, max_score: f64| Some(Conf { type_id, radius, max_score, ..Conf::at(zoom) });
    let confs = [None, conf(1, 6, 40.0, 7.0), conf(2, 6, 40.0, 7.0), conf(1, 6, 400.0, 7.0), conf(1, 6, 40.0, 3.0), conf(2, 8, 40.0, 7.0), conf(0, 5, 0.0, 1.0)];
    let n = confs.len() as u64;
    ctx.family(
        "same-path",
        &format!("two subqueries over one index on disk, opened with each pair of {} settings, or the same store object twice; 3 options", n),
        n * n * 2 * 2 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let f = BOTH[d.below(2) as usize];
            let same = d.flag();
            let (i, j) = (d.below(n) as usize, d.below(n) as usize);
            let o = [
                MatchOpts { zoom: 8, bbox: None, proximity: None },
                MatchOpts { zoom: 8, bbox: None, proximity: Some([5, 5]) },
                MatchOpts { zoom: 6, bbox: Some([0, 0, 3, 3]), proximity: Some([1, 2]) },
            ][d.below(3) as usize].clone();
            let c = grid(&[
                (1, vec![Ent::new(3, 3, 1, 1, 1, 1), Ent::new(3, 7, 3, 2, 2, 2), Ent::new(2, 1, 5, 5, 3, 0)]),
                (2, vec![Ent::new(3, 2, 1, 1, 4, 1), Ent::new(3, 5, 4, 5, 5, 2)]),
            ]);
            let w = World::one(&c, &[confs[i].clone(), confs[j].clone()])?;
            let _session = Session::new();
            let stores = w.open_js()?;
            let second = if same { 0 } else { 1 };
            let subs = vec![JSub::new(0, 0, 1, 0.5, 1, exact(1)), JSub::new(second, 1, 2, 0.5, 2, exact(2))];
            t.state(&(i, j, same));
            t.trace(1);
            ask(f, &w, &stores, &subs, &o).map_err(|e| format!("{:?} {:?}: {}", confs[i], confs[if same { i } else { j }], e))
        },
    );
}
