//! C25 stores as JavaScript builds and reads them.
use crate::side::*;
use carmen_core::gridstore::*;
use mc::ctx::*;
use mc::model::*;
use rocksdb::sim;

#[derive(Clone, Debug)]
enum Op {
    Insert(Key, Vec<Ent>),
    Append(Key, Vec<Ent>),
    /// key, relevance, score, id, hash, places
    Compact(Key, u8, u8, u32, u8, Vec<(u16, u16)>),
    Renumber(Vec<u32>),
    Bounds(Vec<u32>),
    Finish,
    /// a call that must be refused: method, which of its ways to be wrong
    Wrong(&'static str, usize),
}

fn name(o: &Op) -> &'static str {
    match o {
        Op::Insert(..) => "insert",
        Op::Append(..) => "append",
        Op::Compact(..) => "compactAppend",
        Op::Renumber(_) => "renumber",
        Op::Bounds(_) => "loadBinBoundaries",
        Op::Finish => "finish",
        Op::Wrong(m, _) => m,
    }
}

fn args(o: &Op) -> Vec<Js> {
    let key = |k: &Key| jkey(k.0, &if k.1 == u128::MAX { Langs::Null } else { Langs::of(k.1) });
    match o {
        Op::Insert(k, v) | Op::Append(k, v) => vec![key(k), jents(v)],
        Op::Compact(k, rq, score, id, hash, at) => {
            let at: Vec<Js> = at.iter().map(|p| js::array(&[num(p.0), num(p.1)])).collect();
            vec![key(k), num(RELEVS[*rq as usize]), num(*score), num(*id), num(*hash), js::array(&at)]
        }
        Op::Renumber(m) | Op::Bounds(m) => vec![js::words(m)],
        Op::Finish => vec![],
        Op::Wrong(m, which) => {
            let mut v = wrongs(m);
            v.swap_remove(*which).1
        }
    }
}

/// what the call does to the content, or None if it has to be refused
fn effect(c: &Content, o: &Op) -> Option<Content> {
    let mut c = c.clone();
    match o {
        Op::Insert(k, v) => {
            c.insert(*k, v.iter().map(|e| e.kept()).collect());
        }
        Op::Append(k, v) => c.entry(*k).or_default().extend(v.iter().map(|e| e.kept())),
        Op::Compact(k, rq, score, id, hash, at) => c
            .entry(*k)
            .or_default()
            .extend(at.iter().map(|p| Ent::new(*rq, *score, p.0, p.1, *id, *hash).kept())),
        Op::Renumber(m) => {
            let mut moved = Content::new();
            for (k, v) in &c {
                let n = *m.get(k.0 as usize)?;
                if moved.insert((n, k.1), v.clone()).is_some() {
                    return None;
                }
            }
            c = moved;
        }
        Op::Bounds(_) | Op::Finish => {}
        Op::Wrong(..) => return None,
    }
    Some(c)
}

/// a good object with one property changed
fn with(o: Js, key: &str, v: Option<Js>) -> Js {
    match v {
        Some(v) => js::set(o, key, v),
        None => js::remove(o, key),
    }
    o
}
fn throwing(o: Js, key: &str) -> Js {
    js::set_throwing(o, key);
    o
}

/// the ways in which the first argument of most methods can be no key
fn wrong_keys() -> Vec<(String, Js)> {
    let good = || jkey(0, &Langs::List(vec![1]));
    let mut v: Vec<(String, Js)> = Vec::new();
    for (n, x) in wrong(&[]) {
        v.push((format!("key {}", n), x));
    }
    v.push(("key without phrase_id".into(), with(good(), "phrase_id", None)));
    for (n, x) in wrong(&["number"]) {
        v.push((format!("phrase_id {}", n), with(good(), "phrase_id", Some(x))));
    }
    v.push(("phrase_id throws".into(), throwing(good(), "phrase_id")));
    for (n, x) in wrong(&["undefined", "null", "array"]) {
        v.push((format!("lang_set {}", n), with(good(), "lang_set", Some(x))));
    }
    for (n, x) in wrong(&["number"]) {
        v.push((format!("language {}", n), with(good(), "lang_set", Some(js::array(&[num(1), x])))));
    }
    v.push(("lang_set throws".into(), throwing(good(), "lang_set")));
    let langs = js::array(&[num(0), num(1)]);
    js::set_throwing(langs, "1");
    v.push(("a language throws".into(), with(good(), "lang_set", Some(langs))));
    v
}

/// the ways in which the second argument of insert and append can be no list of entries
fn wrong_entries() -> Vec<(String, Js)> {
    let one = || jent(&Ent::new(3, 9, 9, 9, 99, 9).grid());
    let mut v: Vec<(String, Js)> = Vec::new();
    for (n, x) in wrong(&["array"]) {
        v.push((format!("entries {}", n), x));
    }
    let mut entries: Vec<(String, Js)> = Vec::new();
    for (n, x) in wrong(&[]) {
        entries.push((format!("entry {}", n), x));
    }
    for f in ["relev", "score", "x", "y", "id", "source_phrase_hash"] {
        entries.push((format!("entry without {}", f), with(one(), f, None)));
        for (n, x) in wrong(&["number"]) {
            entries.push((format!("{} {}", f, n), with(one(), f, Some(x))));
        }
        entries.push((format!("{} throws", f), throwing(one(), f)));
        let over = match f {
            "score" | "source_phrase_hash" => 256.0,
            "x" | "y" => 65536.0,
            _ => 4294967296.0,
        };
        if f != "relev" {
            for bad in [over, -1.0, 0.5, f64::NAN, f64::INFINITY] {
                entries.push((format!("{} {}", f, bad), with(one(), f, Some(num(bad)))));
            }
        }
    }
    for (n, e) in entries {
        v.push((format!("{}, alone", n), js::array(&[e])));
        v.push((format!("{}, after a good one", n), js::array(&[one(), e])));
    }
    let list = js::array(&[one(), one()]);
    js::set_throwing(list, "1");
    v.push(("an entry throws".into(), list));
    v
}

/// every way to call the method wrongly
fn wrongs(method: &str) -> Vec<(String, Vec<Js>)> {
    let good = || jkey(0, &Langs::List(vec![1]));
    let list = || jents(&[Ent::new(3, 9, 9, 9, 99, 9)]);
    let mut v: Vec<(String, Vec<Js>)> = Vec::new();
    match method {
        "insert" | "append" => {
            v.push(("no argument".into(), vec![]));
            v.push(("one argument".into(), vec![good()]));
            v.extend(wrong_keys().into_iter().map(|(n, k)| (n, vec![k, list()])));
            v.extend(wrong_entries().into_iter().map(|(n, l)| (n, vec![good(), l])));
        }
        "get" => {
            v.push(("no argument".into(), vec![]));
            v.extend(wrong_keys().into_iter().map(|(n, k)| (n, vec![k])));
        }
        "compactAppend" => {
            let all = || {
                vec![good(), num(1), num(9), num(99), num(9), js::array(&[js::array(&[num(9), num(9)])])]
            };
            for n in 0..6 {
                v.push((format!("{} arguments", n), all()[..n].to_vec()));
            }
            let mut put = |n: String, i: usize, x: Js| {
                let mut a = all();
                a[i] = x;
                v.push((n, a));
            };
            for (n, k) in wrong_keys() {
                put(n, 0, k);
            }
            for i in 1..5 {
                for (n, x) in wrong(&["number"]) {
                    put(format!("argument {} {}", i, n), i, x);
                }
            }
            for (n, x) in wrong(&["array"]) {
                put(format!("places {}", n), 5, x);
            }
            for (n, x) in wrong(&[]) {
                put(format!("place {}", n), 5, js::array(&[js::array(&[num(9), num(9)]), x]));
            }
            put("a place of one number".into(), 5, js::array(&[js::array(&[num(9)])]));
            for (n, x) in wrong(&["number"]) {
                put(format!("x {}", n), 5, js::array(&[js::array(&[x, num(9)])]));
                put(format!("y {}", n), 5, js::array(&[js::array(&[num(9), x])]));
            }
            for bad in [65536.0, -1.0, 0.5, f64::NAN] {
                put(format!("x {}", bad), 5, js::array(&[js::array(&[num(bad), num(9)])]));
                put(format!("y {}", bad), 5, js::array(&[js::array(&[num(9), num(bad)])]));
            }
            let at = js::array(&[js::array(&[num(9), num(9)]), num(0)]);
            js::set_throwing(at, "1");
            put("a place throws".into(), 5, at);
        }
        "renumber" | "loadBinBoundaries" => {
            v.push(("no argument".into(), vec![]));
            v.extend(wrong(&[]).into_iter().map(|(n, x)| (n.to_string(), vec![x])));
        }
        _ => unreachable!(),
    }
    v
}

/// One builder through its life, next to the model.
fn life(ops: &[&Op], t: &mut Tally) -> Result<(), String> {
    let _session = Session::new();
    let s = Scratch::new();
    let b = js::construct("GridStoreBuilder", &[js::string(s.path().to_str().unwrap())])
        .map_err(thrown("new GridStoreBuilder"))?;
    let mut c = Content::new();
    let mut finished = false;
    for (i, o) in ops.iter().enumerate() {
        let what = || format!("step {}, {}", i, name(o));
        let r = js::method(b, name(o), &args(o));
        match effect(&c, o) {
            Some(next) if !finished => {
                must_do(what, r)?;
                c = next;
                finished = matches!(o, Op::Finish);
                if finished {
                    check_both(&s, &c).map_err(|e| format!("after finish(): {}", e))?;
                }
            }
            _ => must_throw(what, r)?,
        }
        t.state(&(&c, finished));
    }
    t.trace(ops.len() as u64 + 1);
    if !finished {
        must_do(|| "finish".into(), js::method(b, "finish", &[]))?;
        must_throw(|| "a second finish()".into(), js::method(b, "finish", &[]))?;
    }
    check_both(&s, &c)
}

fn ops() -> Vec<Op> {
    let e = |rq: u8, score: u8, id: u32| Ent::new(rq, score, (id % 5) as u16, (id / 5) as u16, id, id as u8 & 3);
    let k = |p: u32, l: u128| (p, l);
    vec![
        Op::Insert(k(0, 2), vec![e(3, 1, 1), e(1, 7, 2)]),
        Op::Insert(k(1, u128::MAX), vec![e(0, 0, 3)]),
        Op::Insert(k(2, 1 << 127 | 1), vec![]),
        Op::Append(k(0, 2), vec![e(3, 1, 1), e(2, 15, 4)]),
        Op::Append(k(1, 0), vec![e(2, 5, 6), e(2, 5, 7)]),
        Op::Compact(k(0, 2), 2, 3, 5, 1, vec![(1, 1), (65535, 0)]),
        Op::Compact(k(2, 1 << 127 | 1), 3, 15, 1 << 23, 255, vec![(0, 65535)]),
        Op::Compact(k(1, u128::MAX), 1, 0, 9, 0, vec![]),
        Op::Renumber(vec![2, 1, 0]),
        Op::Renumber(vec![1, 1, 2]),
        Op::Renumber(vec![5]),
        Op::Renumber(vec![]),
        Op::Bounds(vec![0, 2, 3]),
        Op::Finish,
        Op::Wrong("insert", 1),
        Op::Wrong("append", 0),
        Op::Insert(k(0, 2), vec![]),
        Op::Append(k(0, 2), vec![]),
        Op::Append(k(1, u128::MAX), vec![]),
        Op::Compact(k(0, 2), 2, 3, 5, 1, vec![]),
    ]
}

pub fn c25(ctx: &mut Ctx) {
    ctx.assume("The bindings run on stand-ins for neon 0.7 and neon-serde (/verif/shims/neon, neon-serde): values, exceptions, borrows of array buffers and objects, and conversions follow the published sources; V8 itself is not run.");
    let all = ops();
    let n = all.len() as u64;
    let depth = ctx.by(4, 5);
    ctx.family(
        "histories",
        &format!("every sequence of {} calls out of {} (insert, append, compactAppend, renumber, loadBinBoundaries, finish, and calls that must be refused)", depth, n),
        n.pow(depth as u32),
        |case, t| {
            let mut d = Digits::new(case);
            let list: Vec<&Op> = (0..depth).map(|_| d.pick(&all)).collect();
            t.sample(|| format!("{:?}", list));
            life(&list, t)
        },
    );

    // every way to call wrongly, between good calls
    let methods = ["insert", "append", "compactAppend", "renumber", "loadBinBoundaries"];
    let counts: Vec<(&'static str, usize)> = {
        let _s = Session::new();
        methods.iter().map(|m| (*m, wrongs(m).len())).collect()
    };
    let ways: Vec<Op> = counts.iter().flat_map(|(m, n)| (0..*n).map(move |i| Op::Wrong(m, i))).collect();
    let places = 4;
    ctx.family(
        "wrong-calls",
        &format!("{} ways to call the builder wrongly (missing, of another type, out of range, throwing when read), first, between two good calls, after a renumbering, after finish()", ways.len()),
        (ways.len() * places) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let w = d.pick(&ways);
            let list: Vec<&Op> = match d.below(places as u64) {
                0 => vec![w, &all[0], w, &all[3]],
                1 => vec![&all[0], w, &all[3]],
                2 => vec![&all[1], &all[0], &all[8], w, &all[5]],
                _ => vec![&all[0], &all[13], w],
            };
            t.sample(|| {
                let _s = Session::new();
                if let Op::Wrong(m, i) = w { format!("{}: {}", m, wrongs(m)[*i].0) } else { String::new() }
            });
            life(&list, t)
        },
    );

    let gets = {
        let _s = Session::new();
        wrongs("get").len()
    };
    ctx.family(
        "wrong-reads",
        &format!("{} wrong calls of get(), and wrong arguments of the constructors; a store that is not finished", gets),
        gets as u64 + 3,
        |case, t| {
            let _session = Session::new();
            let mut c = Content::new();
            c.insert((0, 2), [Ent::new(3, 1, 1, 1, 1, 1)].into_iter().collect());
            let s = build(&c, &[])?;
            let store = open_js(&s, None)?;
            let path = || js::string(s.path().to_str().unwrap());
            t.trace(2);
            match (case as usize).checked_sub(gets) {
                None => {
                    let (n, a) = wrongs("get").swap_remove(case as usize);
                    must_throw(|| format!("get, {}", n), js::method(store, "get", &a))?;
                }
                Some(0) => {
                    for class in ["GridStore", "GridStoreBuilder", "GridStoreKeyIterator"] {
                        must_throw(|| format!("new {}()", class), js::construct(class, &[]))?;
                        for (n, x) in wrong(&if class == "GridStoreKeyIterator" { vec![] } else { vec!["string"] }) {
                            must_throw(|| format!("new {} of {}", class, n), js::construct(class, &[x]))?;
                        }
                    }
                    let other = js::construct("GridStoreBuilder", &[js::string(Scratch::new().path().to_str().unwrap())])
                        .map_err(thrown("new GridStoreBuilder"))?;
                    must_throw(|| "the keys of a builder".into(), js::construct("GridStoreKeyIterator", &[other]))?;
                }
                Some(1) => {
                    // settings
                    let good = || settings(&Conf::at(14));
                    for (n, x) in wrong(&[]) {
                        must_throw(|| format!("settings {}", n), js::construct("GridStore", &[path(), x]))?;
                    }
                    for f in ["zoom", "type_id", "coalesce_radius", "bboxes", "max_score"] {
                        let o = with(good(), f, None);
                        must_throw(|| format!("settings without {}", f), js::construct("GridStore", &[path(), o]))?;
                        let o = throwing(good(), f);
                        must_throw(|| format!("{} throws", f), js::construct("GridStore", &[path(), o]))?;
                        for (n, x) in wrong(&[if f == "bboxes" { "" } else { "number" }]) {
                            let o = with(good(), f, Some(x));
                            must_throw(|| format!("{} {}", f, n), js::construct("GridStore", &[path(), o]))?;
                        }
                    }
                    for (f, bad) in [("zoom", 65536.0), ("zoom", -1.0), ("zoom", 0.5), ("type_id", 65536.0), ("type_id", -1.0)] {
                        let o = with(good(), f, Some(num(bad)));
                        must_throw(|| format!("{} {}", f, bad), js::construct("GridStore", &[path(), o]))?;
                    }
                    for bad in [vec![0.0, 0.0, 1.0], vec![0.0, 0.0, 65536.0, 1.0], vec![-1.0, 0.0, 1.0, 1.0]] {
                        let b: Vec<Js> = bad.iter().map(|v| num(*v)).collect();
                        let o = with(good(), "bboxes", Some(js::array(&[js::array(&b)])));
                        must_throw(|| format!("box {:?}", bad), js::construct("GridStore", &[path(), o]))?;
                    }
                }
                _ => {
                    let s2 = Scratch::new();
                    let p2 = || js::string(s2.path().to_str().unwrap());
                    let b = js::construct("GridStoreBuilder", &[p2()]).map_err(thrown("new GridStoreBuilder"))?;
                    must_throw(|| "a store before finish()".into(), js::construct("GridStore", &[p2()]))?;
                    must_do(|| "finish".into(), js::method(b, "finish", &[]))?;
                    js::construct("GridStore", &[p2()]).map_err(thrown("a store after finish()"))?;
                }
            }
            check_both(&s, &c)
        },
    );

    languages(ctx);
    numbers(ctx);
    iterators(ctx);
    faults(ctx);
    many(ctx);
    index_js(ctx);
}

/// arrays of languages stand for sets
fn languages(ctx: &mut Ctx) {
    let pool: Vec<u32> = ctx.by(
        vec![0, 1, 7, 8, 63, 64, 126, 127, 128, 200, 4_000_000_000],
        vec![0, 1, 7, 8, 31, 32, 62, 63, 64, 65, 120, 126, 127, 128, 129, 200, 65536, 4_000_000_000],
    );
    let n = pool.len();
    // lists of up to three languages, with repetitions, in any order; then the special ones
    let lists = 1 + n + n * n + n * n * n;
    let shape = |i: usize| -> Langs {
        if i < lists {
            let (mut i, mut v) = (i, vec![]);
            let k = if i < 1 { 0 } else if i < 1 + n { 1 } else if i < 1 + n + n * n { 2 } else { 3 };
            i -= [0, 1, 1 + n, 1 + n + n * n][k];
            for _ in 0..k {
                v.push(pool[i % n]);
                i /= n;
            }
            Langs::List(v)
        } else {
            match i - lists {
                0 => Langs::Null,
                1 => Langs::Undefined,
                2 => Langs::Missing,
                3 => Langs::List((0..128).collect()),
                4 => Langs::List((0..200).rev().collect()),
                5 => Langs::List((1..128).collect()),
                _ => Langs::List((0..127).collect()),
            }
        }
    };
    ctx.family(
        "languages",
        &format!("every list of up to 3 languages out of {:?}, in any order and with repetitions, null, undefined, missing, and the full and almost full lists, in insert, append and compactAppend, read with the same list, its set, and a list that differs", pool),
        (lists as u64 + 7) * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let how = d.below(3);
            let l = shape(d.rest() as usize);
            let _session = Session::new();
            let s = Scratch::new();
            let b = js::construct("GridStoreBuilder", &[js::string(s.path().to_str().unwrap())])
                .map_err(thrown("new GridStoreBuilder"))?;
            let e = Ent::new(3, 1, 2, 3, 4, 5);
            let k = jkey(7, &l);
            let r = match how {
                0 => js::method(b, "insert", &[k, jents(&[e])]),
                1 => js::method(b, "append", &[k, jents(&[e])]),
                _ => js::method(b, "compactAppend", &[k, num(1), num(1), num(4), num(5), js::array(&[js::array(&[num(2), num(3)])])]),
            };
            must_do(|| "the insertion".into(), r)?;
            must_do(|| "finish".into(), js::method(b, "finish", &[]))?;
            let mut c = Content::new();
            c.insert((7, l.set()), [e].into_iter().collect());
            t.state(&l.set());
            t.trace(3);
            t.sample(|| format!("{:?}", l));
            check_both(&s, &c)?;
            let store = open_js(&s, None)?;
            let found = js::look(js::method(store, "get", &[jkey(7, &l)]).map_err(thrown("get"))?);
            same("get with the same list", &found, &Val::Arr(vec![ent_val(&e.grid())]))?;
            for other in [l.set() ^ 1, l.set() ^ 1 << 127, l.set() ^ 1 << 64, 0, u128::MAX] {
                let langs = if other == u128::MAX { Langs::Null } else { Langs::of(other) };
                let got = js::look(js::method(store, "get", &[jkey(7, &langs)]).map_err(thrown("get"))?);
                if (got != Val::Undefined) != (other == l.set()) {
                    return Err(format!("get with the languages {:x} gives {:?}", other, got));
                }
            }
            let got = js::look(js::method(store, "get", &[jkey(8, &l)]).map_err(thrown("get"))?);
            same("get of another phrase", &got, &Val::Undefined)
        },
    );
}

/// numbers to the ends of their ranges
fn numbers(ctx: &mut Ctx) {
    let phrases = [0u32, 1, 255, 256, 65535, 65536, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
    let ids = [0u32, 1, 255, 256, 65535, 65536, 0x7F_FFFF, 0x80_0000, 0xFF_FFFF];
    let tiles = [0u16, 1, 255, 256, 32767, 32768, 65535];
    let relevs = [1.0, 0.9, 0.8, 0.7, 0.6, 0.5, 0.4, 0.0];
    ctx.family(
        "numbers",
        "9 phrase ids, 9 ids, 7 x 7 tiles, 8 relevances (between the levels too), scores and hashes 0 to 255 at their ends, in each of the three ways to add",
        (phrases.len() * ids.len() * tiles.len() * tiles.len() * relevs.len() * 3) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let how = d.below(3);
            let p = *d.pick(&phrases);
            let id = *d.pick(&ids);
            let (x, y) = (*d.pick(&tiles), *d.pick(&tiles));
            let r = *d.pick(&relevs);
            let score = [0u8, 15, 7, 8][(case % 4) as usize];
            let hash = [0u8, 255, 127, 128][(case / 4 % 4) as usize];
            let _session = Session::new();
            let s = Scratch::new();
            let b = js::construct("GridStoreBuilder", &[js::string(s.path().to_str().unwrap())])
                .map_err(thrown("new GridStoreBuilder"))?;
            let g = GridEntry { relev: r, score, x, y, id, source_phrase_hash: hash };
            let k = jkey(p, &Langs::List(vec![3]));
            let r1 = match how {
                0 => js::method(b, "insert", &[k, js::array(&[jent(&g)])]),
                1 => js::method(b, "append", &[k, js::array(&[jent(&g)])]),
                _ => js::method(b, "compactAppend", &[k, num(r), num(score), num(id), num(hash), js::array(&[js::array(&[num(x), num(y)])])]),
            };
            must_do(|| "the insertion".into(), r1)?;
            must_do(|| "finish".into(), js::method(b, "finish", &[]))?;
            // relevances other than 0.4, 0.6 and 0.8 are kept as 1
            let kept = RELEVS.iter().position(|v| *v == r).unwrap_or(3) as u8;
            let mut c = Content::new();
            c.insert((p, 8), [Ent::new(kept, score, x, y, id, hash)].into_iter().collect());
            t.state(&(p, id, x, y, kept));
            t.trace(2);
            check_both(&s, &c)
        },
    );
}

/// iterators over two stores, advanced in any order, their stores collected at any time
fn iterators(ctx: &mut Ctx) {
    #[derive(Clone, Copy, Debug)]
    enum Ev {
        Open(usize),
        Next(usize),
        Collect(usize),
        Reopen(usize),
    }
    let evs = [
        Ev::Open(0),
        Ev::Open(1),
        Ev::Next(0),
        Ev::Next(1),
        Ev::Next(2),
        Ev::Collect(0),
        Ev::Collect(1),
        Ev::Reopen(0),
    ];
    let depth = ctx.by(5, 7);
    ctx.family(
        "iterators",
        &format!("every sequence of {} events out of {}: opening an iterator over one of two stores, advancing one, the collector taking a store, another store object for the same path; then all iterators to the end, and twice past it", depth, evs.len()),
        (evs.len() as u64).pow(depth),
        |case, t| {
            let mut d = Digits::new(case);
            let list: Vec<Ev> = (0..depth).map(|_| *d.pick(&evs)).collect();
            let _session = Session::new();
            let mut contents = vec![Content::new(), Content::new()];
            for p in 0..3u32 {
                contents[0].insert((p * 100, 1 << p | 1 << 100), [Ent::new(3, 1, 1, 1, p, 0)].into_iter().collect());
            }
            contents[1].insert((5, u128::MAX), [Ent::new(3, 1, 1, 1, 1, 0)].into_iter().collect());
            let paths: Vec<Scratch> = contents.iter().map(|c| build(c, &[0, 10])).collect::<Result<_, _>>()?;
            let mut stores: Vec<Option<Js>> =
                paths.iter().map(|s| open_js(s, None).map(Some)).collect::<Result<_, _>>()?;
            // iterator, its store, how far it is
            let mut its: Vec<(Js, usize, usize)> = Vec::new();
            let step = |it: &mut (Js, usize, usize)| -> Result<bool, String> {
                let want = contents[it.1].keys().nth(it.2).map(|k| key_val(&gk(*k)));
                let got = next_js(it.0)?;
                if got != want {
                    return Err(format!("step {} over store {}: {:?}, expected {:?}", it.2, it.1, got, want));
                }
                it.2 += 1;
                Ok(want.is_some())
            };
            for e in &list {
                match e {
                    Ev::Open(s) => {
                        if let Some(store) = stores[*s] {
                            let it = js::construct("GridStoreKeyIterator", &[store]).map_err(thrown("keys()"))?;
                            its.push((it, *s, 0));
                        }
                    }
                    Ev::Next(i) => {
                        if let Some(it) = its.get_mut(*i) {
                            step(it)?;
                        }
                    }
                    Ev::Collect(s) => {
                        if let Some(store) = stores[*s].take() {
                            js::collect(store);
                        }
                    }
                    Ev::Reopen(s) => stores[*s] = Some(open_js(&paths[*s], Some(&Conf::at(14)))?),
                }
                t.state(&(its.iter().map(|i| (i.1, i.2)).collect::<Vec<_>>(), stores.iter().map(|s| s.is_some()).collect::<Vec<_>>()));
            }
            t.trace(depth as u64);
            t.sample(|| format!("{:?}", list));
            for it in &mut its {
                while step(it)? {}
                step(it)?;
            }
            // the collector takes them in either order
            for it in its.iter().rev() {
                js::collect(it.0);
            }
            Ok(())
        },
    );
}

/// Under a failing storage engine, a call throws if and only if the library's call fails, and a
/// failing read never looks like an answer.
fn faults(ctx: &mut Ctx) {
    #[derive(Debug, PartialEq)]
    enum Out {
        Ok(String),
        Failed,
    }
    fn script_js(s: &Scratch, which: u64) -> Vec<Out> {
        let path = || js::string(s.path().to_str().unwrap());
        let mut out = Vec::new();
        let mut put = |r: Result<String, ()>| out.push(r.map_or(Out::Failed, Out::Ok));
        let b = js::construct("GridStoreBuilder", &[path()]);
        put(b.as_ref().map(|_| String::new()).map_err(|_| ()));
        if let Ok(b) = b {
            for o in builds(which) {
                put(js::method(b, name(&o), &args(&o)).map(|_| String::new()).map_err(|_| ()));
            }
            js::collect(b);
        }
        let g = js::construct("GridStore", &[path()]);
        put(g.as_ref().map(|_| String::new()).map_err(|_| ()));
        if let Ok(g) = g {
            for k in [(0u32, 2u128), (1, u128::MAX), (9, 1)] {
                let langs = if k.1 == u128::MAX { Langs::Null } else { Langs::of(k.1) };
                put(js::method(g, "get", &[jkey(k.0, &langs)]).map(|v| format!("{:?}", js::look(v))).map_err(|_| ()));
            }
            let it = js::construct("GridStoreKeyIterator", &[g]);
            put(it.as_ref().map(|_| String::new()).map_err(|_| ()));
            if let Ok(it) = it {
                for _ in 0..5 {
                    let r = js::method(it, "next", &[]);
                    put(r.map(|v| format!("{:?}", js::look(v))).map_err(|_| ()));
                }
            }
        }
        out
    }
    fn script_lib(s: &Scratch, which: u64) -> Vec<Out> {
        let mut out = Vec::new();
        let mut put = |r: Result<String, ()>| out.push(r.map_or(Out::Failed, Out::Ok));
        let b = GridStoreBuilder::new(s.path());
        put(b.as_ref().map(|_| String::new()).map_err(|_| ()));
        if let Ok(b) = b {
            let mut b = Some(b);
            for o in builds(which) {
                let r = match (&o, b.as_mut()) {
                    (_, None) => Err(()),
                    (Op::Insert(k, v), Some(b)) => b.insert(&gk(*k), v.iter().map(|e| e.grid()).collect()).map_err(|_| ()),
                    (Op::Append(k, v), Some(b)) => b.append(&gk(*k), v.iter().map(|e| e.grid()).collect()).map_err(|_| ()),
                    (Op::Compact(k, rq, score, id, hash, at), Some(b)) => {
                        b.compact_append(&gk(*k), RELEVS[*rq as usize], *score, *id, *hash, at);
                        Ok(())
                    }
                    (Op::Renumber(m), Some(b)) => b.renumber(m).map_err(|_| ()),
                    (Op::Bounds(m), Some(b)) => b.load_bin_boundaries(m.clone()).map_err(|_| ()),
                    (Op::Finish, Some(_)) => b.take().unwrap().finish().map_err(|_| ()),
                    (Op::Wrong(..), _) => unreachable!(),
                };
                put(r.map(|_| String::new()));
            }
        }
        let g = GridStore::new(s.path());
        put(g.as_ref().map(|_| String::new()).map_err(|_| ()));
        if let Ok(g) = g {
            for k in [(0u32, 2u128), (1, u128::MAX), (9, 1)] {
                let r = g.get(&gk(k)).map(|o| match o {
                    None => Val::Undefined,
                    Some(it) => Val::Arr(it.map(|e| ent_val(&e)).collect()),
                });
                put(r.map(|v| format!("{:?}", v)).map_err(|_| ()));
            }
            let mut it = g.keys();
            put(Ok(String::new()));
            for _ in 0..5 {
                put(match it.next() {
                    None => Ok(format!("{:?}", obj(&[("done", Val::Bool(true))]))),
                    Some(Ok(k)) => Ok(format!("{:?}", obj(&[("done", Val::Bool(false)), ("value", key_val(&k))]))),
                    Some(Err(_)) => Err(()),
                });
            }
        }
        out
    }
    fn builds(which: u64) -> Vec<Op> {
        let o = ops();
        let pick: &[usize] = match which {
            0 => &[0, 1, 13],
            1 => &[0, 3, 5, 1, 12, 13],
            2 => &[0, 1, 8, 13],
            3 => &[13, 0, 13],
            4 => &[6, 2, 13, 13],
            _ => &[0, 13, 8],
        };
        pick.iter().map(|i| o[*i].clone()).collect()
    }
    let deepest = 40;
    ctx.family(
        "storage-errors",
        &format!("6 programs that build and read a store; the n-th operation of the storage engine fails, for n up to {} or the last, or none; each call throws where the library's call fails, and answers the same otherwise", deepest),
        6 * (deepest + 1),
        |case, t| {
            let mut d = Digits::new(case);
            let which = d.below(6);
            let at = d.below(deepest + 1) as usize;
            let at = if at == 0 { None } else { Some(at - 1) };
            let s = Scratch::new();
            sim::arm(at);
            let want = script_lib(&s, which);
            let (_, fired) = sim::disarm();
            if at.is_some() && !fired {
                return Ok(());
            }
            let s = Scratch::new();
            let _session = Session::new();
            sim::arm(at);
            let got = script_js(&s, which);
            sim::disarm();
            t.state(&(which, at));
            t.trace(want.len() as u64);
            t.outcome(&format!("{:?}", want));
            for (i, (a, b)) in got.iter().zip(&want).enumerate() {
                if a != b {
                    return Err(format!("call {}: {:?}, the library: {:?}", i, a, b));
                }
            }
            if got.len() != want.len() {
                return Err(format!("{} calls were possible, {} in the library", got.len(), want.len()));
            }
            Ok(())
        },
    );
}

/// more keys and entries than one call carries
fn many(ctx: &mut Ctx) {
    let ns = ctx.by(vec![1usize, 15, 16, 17, 255, 256, 257, 1000, 1025, 4097, 10_001, 65_537], vec![1, 2, 3, 15, 16, 17, 31, 32, 33, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 10_001, 16_385, 32_769, 65_535, 65_536, 65_537, 70_000]);
    ctx.family(
        "many",
        &format!("{:?} keys of one entry or entries under one key, added in one of three ways, then renumbered backwards or not", ns),
        (ns.len() * 2 * 3 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let one_key = d.flag();
            let how = d.below(3);
            let rev = d.flag();
            let _session = Session::new();
            let s = Scratch::new();
            let b = js::construct("GridStoreBuilder", &[js::string(s.path().to_str().unwrap())])
                .map_err(thrown("new GridStoreBuilder"))?;
            let e = |i: usize| Ent::new((i % 4) as u8, (i / 4 % 16) as u8, (i % 300) as u16, (i / 300) as u16, i as u32, i as u8);
            let mut c = Content::new();
            let mut ops = Vec::new();
            if one_key {
                let k = (0, 4);
                match how {
                    0 => ops.push(Op::Insert(k, (0..n).map(e).collect())),
                    1 => ops.extend((0..n.min(20_000)).map(|i| Op::Append(k, vec![e(i)]))),
                    _ => ops.push(Op::Compact(k, 2, 3, 7, 1, (0..n).map(|i| e(i).xy()).collect())),
                }
            } else {
                for i in 0..n.min(20_000) {
                    let k = (i as u32, 1u128 << (i % 128));
                    ops.push(match how {
                        0 => Op::Insert(k, vec![e(i)]),
                        1 => Op::Append(k, vec![e(i), e(i + 1)]),
                        _ => Op::Compact(k, 2, 3, i as u32, 1, vec![e(i).xy(), (9, 9)]),
                    });
                }
            }
            if rev {
                ops.push(Op::Renumber((0..n as u32).rev().collect()));
            } else if !one_key {
                ops.push(Op::Bounds((0..=n.min(20_000) as u32).collect()));
            }
            for o in &ops {
                must_do(|| name(o).to_string(), js::method(b, name(o), &args(o)))?;
                if ops.len() < 300 || matches!(o, Op::Renumber(_)) {
                    c = effect(&c, o).ok_or("the model refuses")?;
                } else {
                    match o {
                        Op::Insert(k, v) | Op::Append(k, v) => c.entry(*k).or_default().extend(v.iter().map(|e| e.kept())),
                        Op::Compact(k, rq, sc, id, h, at) => {
                            c.entry(*k).or_default().extend(at.iter().map(|p| Ent::new(*rq, *sc, p.0, p.1, *id, *h).kept()))
                        }
                        _ => {}
                    }
                }
            }
            must_do(|| "finish".into(), js::method(b, "finish", &[]))?;
            t.state(&(n, one_key, how, rev));
            t.trace(ops.len() as u64 + 1);
            check_both(&s, &c).map_err(|e| format!("{:.600}", e))
        },
    );
}

/// index.js: keys() on the JavaScript side
fn index_js(ctx: &mut Ctx) {
    let depth = ctx.by(6, 8);
    ctx.family(
        "index.js",
        &format!("/repo/index.js under node, over a stand-in for ./native: every sequence of {} steps of up to three iterators over two stores of 0 to 2 keys, and for-of loops, spread and Array.from over each", depth),
        1,
        |_, t| {
            let script = mc_root().join("js/index_check.js");
            let out = match std::process::Command::new("node").arg(&script).arg("/repo/index.js").arg(depth.to_string()).output() {
                Ok(o) => o,
                // nothing is learnt where node is not to be had
                Err(_) => return Ok(()),
            };
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            for l in text.lines() {
                if let Some(n) = l.strip_prefix("steps ") {
                    t.trace(n.trim().parse().unwrap_or(0));
                }
                if let Some(n) = l.strip_prefix("state ") {
                    t.state(&n.to_string());
                }
            }
            if out.status.success() && text.lines().any(|l| l == "held") {
                return Ok(());
            }
            let err = String::from_utf8_lossy(&out.stderr).to_string();
            let broken = text.lines().find_map(|l| l.strip_prefix("broken: ").map(|s| s.to_string()));
            Err(broken.unwrap_or_else(|| err.lines().filter(|l| !l.trim().is_empty()).take(6).collect::<Vec<_>>().join(" | ")))
        },
    );
}

fn mc_root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}
