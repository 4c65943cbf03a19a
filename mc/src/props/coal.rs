//! C15 one subquery, C16 several, C17 stack_and_coalesce, C20 the same beyond its limits.
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use mc::ctx::*;
use mc::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct KeySpec {
    pub id: u32,
    pub phrase: MatchPhrase,
    pub langs: u128,
    pub nearby: bool,
    pub len: usize,
}

impl KeySpec {
    pub fn exact(id: u32, phrase: u32) -> KeySpec {
        KeySpec { id, phrase: MatchPhrase::Exact(phrase), langs: 1, nearby: false, len: 2 }
    }
    pub fn range(id: u32, start: u32, end: u32) -> KeySpec {
        KeySpec { id, phrase: MatchPhrase::Range { start, end }, langs: 1, nearby: false, len: 2 }
    }
    pub fn key(&self) -> MatchKey {
        MatchKey { match_phrase: self.phrase.clone(), lang_set: self.langs }
    }
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub store: usize,
    pub idx: u16,
    pub mask: u32,
    pub weight: f64,
    pub excl: Vec<u16>,
    pub keys: Vec<KeySpec>,
}

impl Sub {
    pub fn new(store: usize, idx: u16, mask: u32, weight: f64, keys: Vec<KeySpec>) -> Sub {
        Sub { store, idx, mask, weight, excl: vec![], keys }
    }
}

pub struct World {
    pub contents: Vec<Content>,
    pub confs: Vec<Conf>,
    pub stores: Vec<GridStore>,
    _scratch: Vec<Scratch>,
}

impl World {
    pub fn new(parts: Vec<(Content, Conf)>) -> Result<World, String> {
        let mut w = World { contents: vec![], confs: vec![], stores: vec![], _scratch: vec![] };
        for (c, conf) in parts {
            let s = build(&c, &[])?;
            w.stores.push(open(&s, &conf)?);
            w._scratch.push(s);
            w.contents.push(c);
            w.confs.push(conf);
        }
        Ok(w)
    }

    pub fn subqueries(&self, subs: &[Sub]) -> Vec<PhrasematchSubquery<&GridStore>> {
        subs.iter()
            .map(|s| {
                let mut no = FixedBitSet::with_capacity(128);
                for e in &s.excl {
                    no.insert(*e as usize);
                }
                PhrasematchSubquery {
                    store: &self.stores[s.store],
                    idx: s.idx,
                    non_overlapping_indexes: no,
                    weight: s.weight,
                    mask: s.mask,
                    match_keys: s
                        .keys
                        .iter()
                        .map(|k| MatchKeyWithId { key: k.key(), nearby_only: k.nearby, id: k.id, phrase_length: k.len })
                        .collect(),
                }
            })
            .collect()
    }

    /// the matches of one key of a subquery under the options of the whole query
    pub fn matches(&self, store: usize, k: &KeySpec, o: &MatchOpts) -> Vec<M> {
        let conf = &self.confs[store];
        let o = adjusted(o, conf.zoom);
        let mut v = matches(&self.contents[store], &k.key(), &o, conf.radius);
        if k.nearby {
            if let Some(p) = o.proximity {
                let pad = nearby_pad(conf.zoom);
                v.retain(|m| {
                    let (x, y) = m.ent.xy();
                    (x as i64 - p[0] as i64).abs() <= pad && (y as i64 - p[1] as i64).abs() <= pad
                });
            }
        }
        v
    }
}

/// An entry of a context, in plain data.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct En {
    pub idx: u16,
    pub mask: u32,
    pub key_id: u32,
    pub xy: (u16, u16),
    pub id: u32,
    pub hash: u8,
    pub score: u8,
    pub lang: bool,
    pub relev: i64,
    pub scoredist: i64,
    pub distance: i64,
}

fn big(x: f64) -> i64 {
    (x * 1e4).round() as i64
}

pub fn en_m(s: &Sub, key_id: u32, m: &M) -> En {
    En {
        idx: s.idx,
        mask: s.mask,
        key_id,
        xy: m.ent.xy(),
        id: m.ent.id,
        hash: m.ent.hash,
        score: m.ent.score,
        lang: m.lang,
        relev: round6(m.relev * s.weight),
        scoredist: big(m.scoredist),
        distance: big(m.distance),
    }
}

pub fn en_c(e: &CoalesceEntry) -> Result<En, String> {
    let g = &e.grid_entry;
    if e.tmp_id != ((e.idx as u32) << 25) + g.id {
        return Err(format!("tmp_id {} of {:?}", e.tmp_id, e));
    }
    Ok(En {
        idx: e.idx,
        mask: e.mask,
        key_id: e.phrasematch_id,
        xy: (g.x, g.y),
        id: g.id,
        hash: g.source_phrase_hash,
        score: g.score,
        lang: e.matches_language,
        relev: round6(g.relev),
        scoredist: big(e.scoredist),
        distance: big(e.distance),
    })
}

/// A context in plain data.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Cx {
    pub relev: i64,
    pub scoredist: i64,
    pub mask: u32,
    pub entries: Vec<En>,
}

pub fn cx(c: &CoalesceContext) -> Result<Cx, String> {
    let entries: Vec<En> = c.entries.iter().map(en_c).collect::<Result<_, _>>()?;
    if entries.is_empty() {
        return Err("a context without entries".into());
    }
    Ok(Cx { relev: round6(c.relev), scoredist: entries[0].scoredist, mask: c.mask, entries })
}

/// Descending in relevance, and in combined score where relevances are equal. Relevances that
/// differ by rounding alone may come in any order.
fn sorted(got: &[CoalesceContext]) -> Result<(), String> {
    for w in got.windows(2) {
        let (a, b) = ((w[0].relev, w[0].entries[0].scoredist), (w[1].relev, w[1].entries[0].scoredist));
        let ok = if a.0 == b.0 { geq(a.1, b.1) } else { geq(a.0, b.0) };
        if !ok {
            return Err(format!("not in order: {:?} comes before {:?}", a, b));
        }
    }
    Ok(())
}

const QUARTER: i64 = 250_000;

// ---- C15

fn check_single(w: &World, s: &Sub, o: &MatchOpts, t: &mut Tally) -> Result<(), String> {
    let got = coalesce(w.subqueries(std::slice::from_ref(s)), o).map_err(es("coalesce"))?;
    t.trace(got.len() as u64 + 1);
    sorted(&got)?;
    let all = w.matches(s.store, &s.keys[0], o);
    // the best of each feature
    let mut best: BTreeMap<u32, (i64, i64)> = BTreeMap::new();
    let mut ents: BTreeSet<En> = BTreeSet::new();
    for m in &all {
        let e = en_m(s, 0, m);
        let k = (e.relev, e.scoredist);
        let b = best.entry(e.id).or_insert(k);
        if k > *b {
            *b = k;
        }
        ents.insert(e);
    }
    let mut want: Vec<(i64, i64)> = best.values().cloned().collect();
    want.sort_by(|a, b| b.cmp(a));
    if let Some(top) = want.first().cloned() {
        want.retain(|k| top.0 - k.0 < QUARTER);
    }
    want.truncate(40);
    let mut seen = BTreeSet::new();
    let mut have = Vec::new();
    for c in &got {
        let c = cx(c)?;
        if c.entries.len() != 1 {
            return Err(format!("a context of {} entries", c.entries.len()));
        }
        let e = &c.entries[0];
        if !ents.contains(e) {
            return Err(format!("{:?} is no match", e));
        }
        if !seen.insert(e.id) {
            return Err(format!("feature {} twice", e.id));
        }
        if (e.relev, e.scoredist) != best[&e.id] {
            return Err(format!("feature {} with {:?}, its best is {:?}", e.id, e, best[&e.id]));
        }
        if c.relev != e.relev || c.mask != s.mask {
            return Err(format!("context {:?}", c));
        }
        have.push((c.relev, c.scoredist));
    }
    t.outcome(&have);
    have.sort_by(|a, b| b.cmp(a));
    if have != want {
        return Err(format!(
            "{} features, expected {}: got {:?}, expected {:?}",
            have.len(),
            want.len(),
            have,
            want
        ));
    }
    Ok(())
}

fn opts_at(zoom: u16) -> Vec<MatchOpts> {
    let mid = 1u16 << (zoom - 1);
    vec![
        MatchOpts { zoom, bbox: None, proximity: None },
        MatchOpts { zoom, bbox: None, proximity: Some([mid, mid]) },
        MatchOpts { zoom, bbox: Some([mid, mid - 1, mid + 1, mid + 1]), proximity: None },
        MatchOpts { zoom, bbox: Some([mid, mid - 1, mid + 1, mid + 1]), proximity: Some([mid + 2, mid]) },
    ]
}

pub fn c15(ctx: &mut Ctx) {
    ctx.family("nothing", "no subquery at all; a subquery without matches", 2, |case, t| {
        t.trace(1);
        if case == 0 {
            let got = coalesce::<&GridStore>(vec![], &MatchOpts::default()).map_err(es("coalesce"))?;
            return if got.is_empty() { Ok(()) } else { Err(format!("{:?}", got)) };
        }
        let w = World::new(vec![(Content::new(), Conf::at(6))])?;
        check_single(&w, &Sub::new(0, 1, 1, 1.0, vec![KeySpec::exact(0, 1)]), &opts_at(6)[0], t)
    });
    // every small content
    let bits = ctx.by(12usize, 15);
    let mut pool: Vec<(u32, Ent)> = Vec::new();
    let p = |v: &mut Vec<(u32, Ent)>, key: u32, rq: u8, score: u8, dx: u16, dy: u16, id: u32| {
        v.push((key, Ent::new(rq, score, 32 + dx, 32 + dy, id, 0)))
    };
    p(&mut pool, 0, 3, 0, 0, 0, 0);
    p(&mut pool, 0, 3, 3, 1, 0, 1);
    p(&mut pool, 0, 3, 3, 0, 1, 2);
    p(&mut pool, 0, 3, 3, 1, 0, 0);
    p(&mut pool, 0, 3, 1, 0, 0, 1);
    p(&mut pool, 0, 2, 7, 0, 0, 0);
    p(&mut pool, 0, 2, 0, 2, 0, 3);
    p(&mut pool, 1, 3, 3, 1, 1, 1);
    p(&mut pool, 1, 3, 0, 5, 0, 3);
    p(&mut pool, 1, 1, 7, 0, 0, 4);
    p(&mut pool, 1, 2, 7, 1, 0, 2);
    p(&mut pool, 0, 3, 7, 9, 9, 2);
    p(&mut pool, 1, 0, 7, 0, 0, 0xFF_FFFF);
    p(&mut pool, 1, 3, 15, 20, 0, 0);
    p(&mut pool, 0, 1, 15, 1, 1, 5);
    ctx.family(
        "contents",
        &format!("every subset of {} entries of 6 features over 2 keys and up to 4 relevances, 5 scores and 8 places; 4 kinds of options; 2 weights", bits),
        (1u64 << bits) * 4 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let o = d.below(4) as usize;
            let weight = *d.pick(&[1.0, 0.5]);
            let set = d.rest();
            let mut c = Content::new();
            for (i, (k, e)) in pool.iter().enumerate().take(bits) {
                if set >> i & 1 == 1 {
                    c.entry((*k, 1)).or_default().insert(*e);
                }
            }
            t.state(&c);
            t.sample(|| format!("{:?}", c));
            let w = World::new(vec![(c, Conf::at(6))])?;
            let s = Sub::new(0, 3, 2, weight, vec![KeySpec::range(0, 0, 5)]);
            check_single(&w, &s, &opts_at(6)[o], t)
        },
    );
    // one feature under several languages: penalised matches that are nearer or score higher
    let mut pool: Vec<(u128, Ent)> = Vec::new();
    for (l, rq, score, dx, id) in [
        (1u128, 3, 1, 0, 0),
        (2, 3, 6, 0, 0),
        (2, 3, 2, 1, 1),
        (1, 3, 0, 3, 1),
        (u128::MAX, 3, 1, 1, 2),
        (2, 3, 7, 2, 2),
        (1, 2, 7, 0, 3),
        (2, 3, 0, 9, 3),
        (3, 2, 3, 1, 0),
        (u128::MAX, 2, 7, 4, 1),
        (2, 2, 7, 0, 4),
        (1 << 127, 3, 3, 1, 4),
        (0, 3, 4, 0, 5),
    ] {
        pool.push((l, Ent::new(rq, score, 32 + dx, 32, id, 0)));
    }
    let bits = ctx.by(11usize, 13);
    ctx.family(
        "languages",
        &format!("every subset of {} entries of 6 features in keys of 6 languages, 2 phrases; 4 query languages; 3 weights; without proximity, with proximity at the place, 1 and 8 tiles away, with a radius of 1, 3 or 12 tiles", bits),
        (1u64 << bits) * 4 * 3 * 4 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let lang = *d.pick(&[1u128, 2, 3, 1 << 127]);
            let weight = *d.pick(&[1.0, 0.5, 0.02]);
            let prox = *d.pick(&[None, Some([32u16, 32]), Some([33, 32]), Some([40, 33])]);
            let radius = *d.pick(&[32.0f64, 96.0, 384.0]);
            let set = d.rest();
            let mut c = Content::new();
            for (i, (l, e)) in pool.iter().enumerate().take(bits) {
                if set >> i & 1 == 1 {
                    c.entry((i as u32 % 2, *l)).or_default().insert(*e);
                }
            }
            t.state(&c);
            let w = World::new(vec![(c, Conf { radius, ..Conf::at(6) })])?;
            let s = Sub::new(0, 3, 2, weight, vec![KeySpec { langs: lang, ..KeySpec::range(0, 0, 5) }]);
            check_single(&w, &s, &MatchOpts { zoom: 6, bbox: None, proximity: prox }, t)
        },
    );
    // features that alternate for long, with others behind them
    let reps: Vec<usize> = ctx.by(
        vec![1, 2, 10, 38, 39, 40, 41, 42, 79, 80, 81, 82, 100],
        (1..130).collect(),
    );
    ctx.family(
        "alternating",
        &format!("1 to 3 features that alternate over {} numbers of places, with up to 3 more features of the same or lower score and relevance behind them; ids 0, 1, 2.. or from 5; spread over 1 to 3 keys; with and without proximity", reps.len()),
        (reps.len() * 3 * 4 * 3 * 2 * 3 * 2 * 3) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&reps);
            let front = d.below(3) as u32 + 1;
            let behind = d.below(4) as u32;
            let how = d.below(3);
            let base = *d.pick(&[0u32, 5]);
            let nkeys = d.below(3) as u32 + 1;
            let prox = d.flag();
            let score = *d.pick(&[0u8, 3, 7]);
            let mut c = Content::new();
            for i in 0..n as u32 {
                let f = i % front;
                c.entry((i % nkeys, 1)).or_default().insert(Ent::new(3, score, 40 + (i % 16) as u16, 40 + (i / 16) as u16, base + f, 0));
            }
            for j in 0..behind {
                let (rq, sc) = match how {
                    0 => (3, score),
                    1 => (3, 0),
                    _ => (2, 7),
                };
                c.entry((j % nkeys, 1)).or_default().insert(Ent::new(rq, sc, 8 + j as u16, 8, base + front + j, 0));
                c.entry((j % nkeys, 1)).or_default().insert(Ent::new(rq, sc, 50 + j as u16, 50, base + front + j, 0));
            }
            t.state(&c);
            let w = World::new(vec![(c, Conf::at(6))])?;
            let s = Sub::new(0, 0, 1, 1.0, vec![KeySpec::range(0, 0, 5)]);
            let o = MatchOpts { zoom: 6, bbox: None, proximity: if prox { Some([40, 40]) } else { None } };
            check_single(&w, &s, &o, t)
        },
    );
    apart(ctx, 0);
    settings(ctx, 0);
    // many features
    let counts: Vec<u32> = ctx.by(
        vec![1, 2, 39, 40, 41, 78, 79, 80, 81, 82, 83, 120, 161],
        (1..=180).collect(),
    );
    ctx.family(
        "many",
        &format!("{} numbers of features up to {}, 1 to 3 places each, relevances and scores falling, rising, equal or mixed with the id, over 1, 2, 79 or 80 keys, with and without proximity", counts.len(), counts.last().unwrap()),
        (counts.len() * 3 * 6 * 4 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let places = d.below(3) as u32 + 1;
            let how = d.below(6) as u32;
            let nkeys = *d.pick(&[1u32, 2, 79, 80]);
            let prox = d.flag();
            let mut c = Content::new();
            for f in 0..n {
                for p in 0..places {
                    let (rq, sc) = match how {
                        0 => (3, 7),
                        1 => (3, (f * 8 / n) as u8),
                        2 => (3, 7 - (f * 8 / n) as u8),
                        3 => (3 - (f * 2 / n) as u8, ((f + p) % 8) as u8),
                        4 => (2 + (f * 2 / n) as u8, ((f * 5 + p) % 16) as u8),
                        _ => (3 - ((f + p) % 2) as u8, (f % 3) as u8 + p as u8),
                    };
                    let i = f * places + p;
                    let at = (i * 37) % 4096;
                    c.entry((i % nkeys, 1)).or_default().insert(Ent::new(rq, sc, (at % 64) as u16, (at / 64) as u16, f * 3, 0));
                }
            }
            t.state(&c);
            let w = World::new(vec![(c, Conf::at(6))])?;
            let s = Sub::new(0, 7, 4, 0.5, vec![KeySpec::range(0, 0, 200)]);
            let o = MatchOpts { zoom: 6, bbox: None, proximity: if prox { Some([20, 33]) } else { None } };
            check_single(&w, &s, &o, t)
        },
    );
    let counts: Vec<u32> = ctx.by(vec![300, 1025, 4097, 16_385, 65_537], vec![255, 256, 257, 799, 801, 1025, 4097, 9999, 10_001, 16_385, 65_537, 99_999, 100_001, 131_073]);
    ctx.family(
        "late",
        &format!("1, 40, 79, 80, 81, 82 or as many features as there are places, with {:?} places between them, before one or two more that come last, by relevance, score, distance or nothing but their number; one key or 80, with and without proximity", counts),
        counts.len() as u64 * 7 * 5 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let nf = *d.pick(&[1u32, 40, 79, 80, 81, 82, u32::MAX]);
            let by = d.below(5);
            let nkeys = *d.pick(&[1u32, 80]);
            let prox = d.flag();
            let mut c = Content::new();
            for i in 0..n {
                let (x, y) = ((100 + i % 400) as u16, (100 + i / 400) as u16);
                c.entry((i % nkeys, 1)).or_default().insert(Ent::new(3, if by == 4 { (i % 3) as u8 } else { 5 }, x, y, i % nf, 0));
            }
            for i in 0..2u32 {
                let id = 8_000_000 + i;
                let (rq, sc, x, y) = match by {
                    0 => (2, 15, 20, 20),
                    1 => (3, 0, 20, 21),
                    2 => (3, 0, 3900, 3900),
                    3 => (3, 5, 4095, 4095),
                    _ => (3 - i as u8, 15, 20, 4000),
                };
                c.entry((i * (nkeys - 1), 1)).or_default().insert(Ent::new(rq, sc, x, y, id, 0));
            }
            t.state(&case);
            let w = World::new(vec![(c, Conf::at(12))])?;
            let s = Sub::new(0, 7, 4, 0.5, vec![KeySpec::range(0, 0, 200)]);
            let o = MatchOpts { zoom: 12, bbox: None, proximity: if prox { Some([20, 20]) } else { None } };
            check_single(&w, &s, &o, t).map_err(|e| format!("{} places of {} features: {:.600}", n, nf, e))
        },
    );
}

// ---- C16

fn contains(za: u16, a: (u16, u16), zb: u16, b: (u16, u16)) -> bool {
    za <= zb && (b.0 as u32 >> (zb - za)) == a.0 as u32 && (b.1 as u32 >> (zb - za)) == a.1 as u32
}

fn up(zb: u16, b: (u16, u16), za: u16) -> (u16, u16) {
    ((b.0 as u32 >> (zb - za)) as u16, (b.1 as u32 >> (zb - za)) as u16)
}

/// a tile of zoom `zb` inside (or, from 4 on, near) tile `a` of zoom `za`
fn place(za: u16, a: (u16, u16), zb: u16, which: usize) -> (u16, u16) {
    let d = zb - za;
    let side = 1i64 << d;
    let (x, y) = ((a.0 as i64) << d, (a.1 as i64) << d);
    let (x, y) = match which {
        0 => (x, y),
        1 => (x + side - 1, y + side - 1),
        2 => (x + side - 1, y),
        3 => (x, y + side - 1),
        4 => (x + side, y),
        5 => (x, y + side),
        6 => (x - 1, y),
        7 => (x, y - 1),
        _ => (x + side / 2, y + side / 2),
    };
    let m = (1i64 << zb) - 1;
    (x.clamp(0, m) as u16, y.clamp(0, m) as u16)
}

fn base_tile(z: u16) -> (u16, u16) {
    let v = ((1u32 << z) / 3) as u16;
    (v, v)
}

/// What coalescing several subqueries owes, as far as it is determined: exact when the masks are
/// pairwise disjoint or there are two subqueries.
fn check_multi(w: &World, subs: &[Sub], o: &MatchOpts, t: &mut Tally) -> Result<(), String> {
    let got = coalesce(w.subqueries(subs), o).map_err(es("coalesce"))?;
    t.trace(got.len() as u64 + 1);
    if got.len() > 40 {
        return Err(format!("{} contexts", got.len()));
    }
    sorted(&got)?;
    let mut order: Vec<usize> = (0..subs.len()).collect();
    order.sort_by_key(|i| (w.confs[subs[*i].store].zoom, subs[*i].idx));
    let last = *order.last().unwrap();
    let zoom = |i: usize| w.confs[subs[i].store].zoom;
    let all: Vec<Vec<(M, En)>> = subs
        .iter()
        .map(|s| w.matches(s.store, &s.keys[0], o).into_iter().map(|m| { let e = en_m(s, 0, &m); (m, e) }).collect())
        .collect();
    let sets: Vec<BTreeSet<&En>> = all.iter().map(|v| v.iter().map(|x| &x.1).collect()).collect();
    let disjoint = (0..subs.len()).all(|i| (0..i).all(|j| subs[i].mask & subs[j].mask == 0));
    let exact = disjoint || subs.len() == 2;

    // soundness
    let mut firsts = BTreeSet::new();
    let mut have = Vec::new();
    let mut list: Vec<Cx> = Vec::new();
    for c in &got {
        let c = cx(c)?;
        let mut mask = 0;
        let mut sum = 0.0;
        let mut of = Vec::new();
        for e in &c.entries {
            let i = (0..subs.len())
                .find(|i| subs[*i].idx == e.idx && sets[*i].contains(e))
                .ok_or_else(|| format!("{:?} is no match of its subquery; context {:?}", e, c))?;
            if mask & subs[i].mask != 0 {
                return Err(format!("masks overlap: {:?}", c));
            }
            mask |= subs[i].mask;
            sum += e.relev as f64;
            of.push(i);
        }
        for (e, i) in c.entries.iter().zip(&of).skip(1) {
            if !contains(zoom(*i), e.xy, zoom(of[0]), c.entries[0].xy) {
                return Err(format!("{:?} does not contain {:?}", e, c.entries[0]));
            }
        }
        for a in 0..of.len() {
            for b in 0..a {
                if of[a] == of[b] {
                    return Err(format!("a subquery twice: {:?}", c));
                }
            }
        }
        if mask != c.mask {
            return Err(format!("mask {}, expected {}: {:?}", c.mask, mask, c));
        }
        let penal = of[0] == last && (of.len() == 1 || subs[of[0]].mask > subs[of[1]].mask);
        let want = sum as i64 - if penal { 10_000 } else { 0 };
        if (c.relev - want).abs() > 3 {
            return Err(format!("relevance {}, expected {}: {:?}", c.relev, want, c));
        }
        if !firsts.insert((c.entries[0].idx, c.entries[0].id)) {
            return Err(format!("feature {} of subquery {} first twice", c.entries[0].id, c.entries[0].idx));
        }
        have.push((c.relev, c.scoredist));
        list.push(c);
    }
    t.outcome(&have);
    if let (Some(a), Some(b)) = (have.first(), have.last()) {
        if a.0 - b.0 > QUARTER + 5 {
            return Err(format!("relevances from {} to {}", a.0, b.0));
        }
    }
    // where nothing is rounded, exactly so
    let whole = |r: f64| (r * 65536.0).fract() == 0.0;
    if let Some(top) = got.first().map(|c| c.relev).filter(|r| whole(*r)) {
        if let Some(c) = got.iter().find(|c| whole(c.relev) && top - c.relev >= 0.25) {
            return Err(format!("relevances from {} to {}", top, c.relev));
        }
    }
    if !exact {
        return Ok(());
    }

    // everything there is to find
    struct Found {
        first: (u16, u32),
        relev: i64,
        scoredist: i64,
        parts: Vec<(usize, i64)>,
    }
    let mut found: Vec<Found> = Vec::new();
    let mut top = 0i64;
    let mut stored: BTreeMap<usize, BTreeSet<(u16, u16)>> = BTreeMap::new();
    for (n, i) in order.iter().enumerate() {
        let mut at: BTreeSet<(u16, u16)> = BTreeSet::new();
        for (_, e) in &all[*i] {
            let mut parts = vec![(*i, e.relev)];
            let mut first_parent = None;
            for j in &order[..n] {
                if subs[*j].mask & subs[*i].mask != 0 {
                    continue;
                }
                let best = all[*j]
                    .iter()
                    .filter(|(_, p)| contains(zoom(*j), p.xy, zoom(*i), e.xy) && stored[j].contains(&p.xy))
                    .map(|(_, p)| p.relev)
                    .max();
                if let Some(r) = best {
                    parts.push((*j, r));
                    first_parent.get_or_insert(*j);
                }
            }
            let sum: i64 = parts.iter().map(|p| p.1).sum();
            top = top.max(sum);
            let mut relev = sum;
            if n + 1 == order.len() {
                if first_parent.map_or(true, |j| subs[*i].mask > subs[j].mask) {
                    relev -= 10_000;
                }
            } else if n > 0 && parts.len() == 1 {
                continue;
            } else {
                at.insert(e.xy);
            }
            found.push(Found { first: (subs[*i].idx, e.id), relev, scoredist: e.scoredist, parts });
        }
        stored.insert(*i, at);
    }
    // the best of each first feature
    let mut best: BTreeMap<(u16, u32), (i64, i64)> = BTreeMap::new();
    for f in &found {
        let b = best.entry(f.first).or_insert((f.relev, f.scoredist));
        if (f.relev, f.scoredist) > *b {
            *b = (f.relev, f.scoredist);
        }
    }
    for c in &list {
        let k = (c.entries[0].idx, c.entries[0].id);
        let b = best.get(&k).ok_or_else(|| format!("{:?} should not be first: {:?}", k, c))?;
        if !near3(b.0, c.relev) || b.1 != c.scoredist {
            return Err(format!("{:?} is first with {:?}, its best is {:?}: {:?}", k, (c.relev, c.scoredist), b, c));
        }
        let mut parts: Vec<(usize, i64)> = c
            .entries
            .iter()
            .map(|e| (subs.iter().position(|s| s.idx == e.idx).unwrap(), e.relev))
            .collect();
        parts[1..].sort();
        let known = found.iter().any(|f| {
            let mut p = f.parts.clone();
            p[1..].sort();
            f.first == k && p == parts
        });
        if !known {
            return Err(format!("not the best parents: {:?}", c));
        }
    }
    // who must be there: within a quarter of the best of all
    let mut want: Vec<(i64, i64)> = best
        .iter()
        .filter(|(k, v)| top - v.0 < QUARTER - 5 || firsts.contains(*k))
        .map(|(_, v)| *v)
        .collect();
    want.sort_by(|a, b| b.cmp(a));
    want.truncate(40);
    have.sort_by(|a, b| b.cmp(a));
    if want.len() != have.len() || want.iter().zip(&have).any(|(a, b)| !near3(a.0, b.0) || a.1 != b.1) {
        return Err(format!("contexts {:?}, expected {:?}", have, want));
    }
    Ok(())
}

fn near3(a: i64, b: i64) -> bool {
    (a - b).abs() <= 3
}

/// options for a query at `zoom` that concern the base tile of the coarsest store
fn opts_around(zoom: u16, at: (u16, u16), which: usize) -> MatchOpts {
    let m = ((1u32 << zoom) - 1) as u16;
    match which {
        0 => MatchOpts { zoom, bbox: None, proximity: None },
        1 => MatchOpts { zoom, bbox: None, proximity: Some([at.0, at.1]) },
        2 => MatchOpts { zoom, bbox: Some([at.0, at.1, at.0, m]), proximity: None },
        _ => MatchOpts { zoom, bbox: Some([0, 0, at.0, at.1]), proximity: Some([at.0.saturating_add(1).min(m), at.1]) },
    }
}

pub fn c16(ctx: &mut Ctx) {
    let zooms = [(6u16, 6u16), (5, 6), (1, 16), (0, 16), (14, 14), (13, 15), (0, 0), (3, 9)];
    let masks = [(1u32, 2u32), (2, 1), (1, 1), (3, 4), (4, 3), (3, 2)];
    let weights = [(0.5, 0.5), (0.77, 0.21), (0.31, 0.62)];
    let abits = 4;
    let bbits = ctx.by(5, 7);
    let nopts = 4u64;
    ctx.family(
        "pairs",
        &format!("two subqueries: every subset of {} matches of the coarser and {} of the finer store at corners inside and outside of the coarser tiles, {} pairs of zooms, {} pairs of masks, {} pairs of weights, both orders, 4 kinds of options", abits, bbits, zooms.len(), masks.len(), weights.len()),
        (1u64 << (abits + bbits)) * (zooms.len() * masks.len() * weights.len()) as u64 * 2 * nopts,
        |case, t| {
            let mut d = Digits::new(case);
            let set = d.below(1 << (abits + bbits));
            let (za, zb) = *d.pick(&zooms);
            let m = *d.pick(&masks);
            let wt = *d.pick(&weights);
            let swap = d.flag();
            let ow = d.below(nopts) as usize;
            let t0 = base_tile(za);
            let t1 = place(za, t0, za, 4);
            let mut a = BTreeSet::new();
            let apool = [
                Ent::new(3, 1, t0.0, t0.1, 1, 0),
                Ent::new(2, 7, t0.0, t0.1, 2, 0),
                Ent::new(3, 7, t1.0, t1.1, 1, 1),
                Ent::new(3, 0, t0.0, t0.1, 0, 2),
            ];
            for (i, e) in apool.iter().enumerate() {
                if set >> i & 1 == 1 {
                    a.insert(*e);
                }
            }
            let mut b = BTreeSet::new();
            for (i, (which, rq, score, id)) in
                [(0usize, 3u8, 0u8, 1u32), (1, 3, 3, 2), (4, 3, 7, 1), (0, 2, 7, 4), (6, 3, 2, 3), (2, 2, 5, 2), (5, 1, 7, 5)].iter().enumerate().take(bbits)
            {
                if set >> (abits + i) & 1 == 1 {
                    let p = place(za, t0, zb, *which);
                    b.insert(Ent::new(*rq, *score, p.0, p.1, *id, 0));
                }
            }
            t.state(&(&a, &b, za, zb, m));
            t.sample(|| format!("zooms {} {}: {:?} {:?}", za, zb, a, b));
            let mk = |v: BTreeSet<Ent>| -> Content {
                let mut c = Content::new();
                if !v.is_empty() {
                    c.insert((1, 1), v);
                }
                c
            };
            let w = World::new(vec![(mk(a), Conf::at(za)), (mk(b), Conf { type_id: 1, ..Conf::at(zb) })])?;
            let mut subs = vec![
                Sub::new(0, 1, m.0, wt.0, vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, m.1, wt.1, vec![KeySpec::range(1, 0, 3)]),
            ];
            if swap {
                subs.swap(0, 1);
            }
            let o = opts_around(zb, place(za, t0, zb, 1), ow);
            check_multi(&w, &subs, &o, t)
        },
    );
    // three and four
    let zs: Vec<Vec<u16>> = vec![vec![6, 6, 6], vec![4, 6, 8], vec![6, 6, 9], vec![5, 8, 8], vec![0, 14, 16], vec![3, 3, 5, 5], vec![2, 4, 6, 8]];
    let ms: Vec<Vec<u32>> = vec![vec![1, 2, 4, 8], vec![8, 4, 2, 1], vec![4, 1, 2, 8], vec![1, 1, 2, 4], vec![3, 2, 1, 4], vec![1, 2, 2, 1]];
    let per = ctx.by(3usize, 4);
    let perms = permutations(3);
    ctx.family(
        "more",
        &format!("three and four subqueries at {} tuples of zooms, {} tuples of masks, every subset of {} matches of each of three stores (the fourth full), every order of the first three, 2 tuples of weights, with and without proximity", zs.len(), ms.len(), per),
        (1u64 << (3 * per)) * (zs.len() * ms.len() * perms.len()) as u64 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let set = d.below(1 << (3 * per));
            let z = d.pick(&zs).clone();
            let m = d.pick(&ms).clone();
            let p = d.pick(&perms).clone();
            let wts: &[f64] = if d.flag() { &[0.31, 0.32, 0.22, 0.14] } else { &[0.11, 0.52, 0.27, 0.1] };
            let prox = d.flag();
            let t0 = base_tile(z[0]);
            let mut parts = Vec::new();
            for (i, zi) in z.iter().enumerate() {
                let mut c = Content::new();
                for (j, (which, rq, score, id)) in [(0usize, 3u8, 2u8, 1u32), (1, 2, 5, 2), (4, 3, 7, 1), (0, 3, 1, 7)].iter().enumerate().take(per) {
                    if i == 3 || set >> (i * per + j) & 1 == 1 {
                        let xy = place(z[0], t0, *zi, *which);
                        c.entry((1, 1)).or_default().insert(Ent::new(*rq, *score, xy.0, xy.1, *id, i as u8));
                    }
                }
                parts.push((c, Conf { type_id: i as u16, ..Conf::at(*zi) }));
            }
            t.state(&(set, &z, &m));
            let w = World::new(parts)?;
            let mut subs: Vec<Sub> = (0..z.len())
                .map(|i| Sub::new(i, i as u16 + 3, m[i], wts[i], vec![KeySpec::exact(i as u32, 1)]))
                .collect();
            let firsts: Vec<Sub> = p.iter().map(|i| subs[*i].clone()).collect();
            subs.splice(0..3, firsts);
            let zl = *z.last().unwrap();
            let o = opts_around(zl, place(z[0], t0, zl, 0), prox as usize);
            check_multi(&w, &subs, &o, t)
        },
    );
    let zs: Vec<Vec<u16>> = vec![vec![2, 6, 6, 8], vec![5, 5, 5, 7], vec![3, 3, 5, 5], vec![2, 4, 6, 8], vec![4, 4, 4, 4], vec![2, 6, 6, 6]];
    let wts = permutations(4);
    ctx.family(
        "four",
        &format!("four subqueries at {} tuples of zooms, every assignment of 4 masks, every order of 4 weights, every subset of the stores without their second match", zs.len()),
        256 * (zs.len() * wts.len()) as u64 * 16,
        |case, t| {
            let mut d = Digits::new(case);
            let m: Vec<u32> = (0..4).map(|_| 1 << d.below(4)).collect();
            let z = d.pick(&zs).clone();
            let wp = d.pick(&wts).clone();
            let set = d.below(16);
            let t0 = base_tile(z[0]);
            let mut parts = Vec::new();
            for (i, zi) in z.iter().enumerate() {
                let mut v = Vec::new();
                let xy = place(z[0], t0, *zi, 0);
                v.push(Ent::new(3, 2, xy.0, xy.1, 1, i as u8));
                if set >> i & 1 == 1 {
                    v.push(Ent::new(2, 5, xy.0, xy.1, 2, i as u8));
                }
                parts.push((one_phrase(v), Conf { type_id: i as u16, ..Conf::at(*zi) }));
            }
            t.state(&(set, &z, &m));
            let w = World::new(parts)?;
            let subs: Vec<Sub> = (0..4)
                .map(|i| Sub::new(i, i as u16 + 3, m[i], [0.31, 0.22, 0.13, 0.34][wp[i]], vec![KeySpec::exact(i as u32, 1)]))
                .collect();
            let zl = z[3];
            check_multi(&w, &subs, &MatchOpts { zoom: zl, bbox: None, proximity: None }, t)
        },
    );
    apart(ctx, 1);
    late_among(ctx, 1);
    settings(ctx, 1);
    // more contexts than are returned
    let ns: Vec<u32> = ctx.by(vec![1, 20, 39, 40, 41, 60, 100], (1..=110).collect());
    ctx.family(
        "many",
        &format!("two subqueries with {} numbers of features each up to {}; 3 ways to nest them, 4 of scoring, 3 pairs of masks, 2 of weights", ns.len(), ns.last().unwrap()),
        (ns.len() * ns.len() * 3 * 4 * 3 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let na = *d.pick(&ns);
            let nb = *d.pick(&ns);
            let nest = d.below(3);
            let how = d.below(4);
            let m = *d.pick(&[(1u32, 2u32), (2, 1), (1, 3)]);
            let wt = *d.pick(&[(0.5, 0.5), (0.2, 0.8)]);
            let mut a = BTreeSet::new();
            for i in 0..na {
                let at = match nest {
                    0 => 0,
                    1 => i % 7,
                    _ => i,
                };
                a.insert(Ent::new(3 - (i % 2) as u8, (i % 8) as u8, (at % 16) as u16, (at / 16) as u16, i, 0));
            }
            let mut b = BTreeSet::new();
            for i in 0..nb {
                let at = i % 256;
                let (rq, sc) = match how {
                    0 => (3, 7),
                    1 => (3, (i % 8) as u8),
                    2 => (2 + (i % 2) as u8, 5),
                    _ => (3 - (i % 2) as u8, (i % 5) as u8),
                };
                b.insert(Ent::new(rq, sc, ((at % 16) * 4 + i % 3) as u16, ((at / 16) * 4 + 1) as u16, i / 2, 0));
            }
            t.state(&(na, nb, nest, how, m));
            let mk = |v: BTreeSet<Ent>| -> Content { [((1, 1), v)].into_iter().collect() };
            let w = World::new(vec![(mk(a), Conf::at(4)), (mk(b), Conf { type_id: 1, ..Conf::at(6) })])?;
            let subs = vec![
                Sub::new(0, 1, m.0, wt.0, vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, m.1, wt.1, vec![KeySpec::exact(1, 1)]),
            ];
            check_multi(&w, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None }, t)
        },
    );
    // crowds
    let ns: Vec<u32> = ctx.by(vec![1, 41, 300, 1025, 4097], vec![1, 40, 41, 255, 257, 300, 511, 513, 1025, 2049, 4097]);
    ctx.family(
        "crowds",
        &format!("two subqueries with up to {:?} features each, on 1, 7 or all of the tiles of 64x64, those of the second falling, rising or equal; 3 pairs of masks; with the best of the first or of the second first or last", ns),
        (ns.len() * ns.len() * 3 * 3 * 3 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let (na, nb) = (*d.pick(&ns), *d.pick(&ns));
            let nest = d.below(3);
            let how = d.below(3);
            let m = *d.pick(&[(1u32, 2u32), (2, 1), (1, 3)]);
            let last = d.flag();
            let mut a = BTreeSet::new();
            for i in 0..na {
                let at = [0, i % 7, i][nest as usize];
                let best = if last { i + 1 == na } else { i == 0 };
                a.insert(Ent::new(if best { 3 } else { 2 }, (i % 8) as u8, (at % 64) as u16, (at / 64) as u16, i, 0));
            }
            let mut b = BTreeSet::new();
            for i in 0..nb {
                let at = i % 4096;
                let (rq, sc) = match how {
                    0 => (3, 7),
                    1 => (3 - (i * 2 / nb) as u8, (i * 8 / nb) as u8),
                    _ => (2 + (i * 2 / nb) as u8, 7 - (i * 8 / nb) as u8),
                };
                b.insert(Ent::new(rq, sc, ((at % 64) * 4 + i % 3) as u16, ((at / 64) * 4 + 1) as u16, i / 2, 0));
            }
            t.state(&case);
            let mk = |v: BTreeSet<Ent>| -> Content { [((1, 1), v)].into_iter().collect() };
            let w = World::new(vec![(mk(a), Conf::at(6)), (mk(b), Conf { type_id: 1, ..Conf::at(8) })])?;
            let subs = vec![
                Sub::new(0, 1, m.0, 0.4, vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, m.1, 0.6, vec![KeySpec::exact(1, 1)]),
            ];
            check_multi(&w, &subs, &MatchOpts { zoom: 8, bbox: None, proximity: None }, t).map_err(|e| format!("{} and {} features: {:.600}", na, nb, e))
        },
    );
    // many subqueries
    let nmax = ctx.by(16u64, 24);
    ctx.family(
        "tall",
        &format!("2 to {} subqueries of masks of their own that nest, over as many stores of one zoom, of one zoom more each, or of two zooms; one of them without a match, elsewhere, or none; falling, rising, equal weights; masks rising or falling", nmax),
        (nmax - 1) * 3 * (2 * nmax + 1) * 3 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = d.below(nmax - 1) as usize + 2;
            let zooms = d.below(3);
            let out = d.below(2 * nmax + 1) as usize;
            let wt = d.below(3);
            let rising = d.flag();
            if out > 2 * n {
                return Ok(());
            }
            let zoom = |i: usize| match zooms {
                0 => 6u16,
                1 => (i as u16).min(16),
                _ => 4 + 2 * (i % 2) as u16,
            };
            let weight = |i: usize| match wt {
                0 => 1.0 / n as f64,
                1 => 2.0 * (i + 1) as f64 / (n * (n + 1)) as f64,
                _ => 2.0 * (n - i) as f64 / (n * (n + 1)) as f64,
            };
            let mut parts = Vec::new();
            for i in 0..n {
                let z = zoom(i);
                let m = ((1u32 << z) - 1) as u16;
                let mut v = vec![];
                if out != 2 * i + 1 {
                    let (x, y) = if out == 2 * i + 2 { (0, 0) } else { (m, m / 2) };
                    v.push(Ent::new(3, 3, x, y, 10 + i as u32, 0));
                    v.push(Ent::new(2, 5, x, y, 50 + i as u32, 0));
                }
                parts.push((one_phrase(v), Conf { type_id: i as u16, ..Conf::at(z) }));
            }
            t.state(&case);
            let w = World::new(parts)?;
            let subs: Vec<Sub> = (0..n)
                .map(|i| Sub::new(i, i as u16 + 3, 1 << (if rising { i } else { n - 1 - i }), (weight(i) * 1e6 / 3.0).floor() * 3e-6, vec![KeySpec::exact(i as u32, 1)]))
                .collect();
            check_multi(&w, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None }, t).map_err(|e| format!("{} subqueries: {:.800}", n, e))
        },
    );
    // sums that are exactly a quarter apart, or a sixteenth more or less
    let sixteenths = [1u32, 3, 4, 5, 7, 8, 9, 12, 16];
    let ns = sixteenths.len() as u64;
    ctx.family(
        "quarter",
        &format!("three subqueries at weights of {:?} sixteenths, the second and third in every subset of 4 places, of which some lie in one of the two of the first; 2 tuples of zooms, masks that overlap or not; both orders", sixteenths),
        ns * ns * ns * 16 * 2 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let wt: Vec<f64> = (0..3).map(|_| *d.pick(&sixteenths) as f64 / 16.0).collect();
            let set = d.below(16);
            let z = [[6u16, 6, 6], [5, 6, 8]][d.below(2) as usize];
            let m = [[1u32, 2, 4], [4, 1, 4]][d.below(2) as usize];
            let rev = d.flag();
            let t0 = base_tile(z[0]);
            let t1 = place(z[0], t0, z[0], 4);
            let w = World::new(
                (0..3usize)
                    .map(|i| {
                        let mut v = BTreeSet::new();
                        if i == 0 {
                            v.insert(Ent::new(3, 3, t0.0, t0.1, 1, 0));
                            v.insert(Ent::new(3, 3, t1.0, t1.1, 2, 0));
                        } else {
                            for (b, which) in [0usize, 4].iter().enumerate() {
                                if set >> ((i - 1) * 2 + b) & 1 == 1 {
                                    let p = place(z[0], t0, z[i], *which);
                                    v.insert(Ent::new(3, 2, p.0, p.1, 3 + b as u32, 0));
                                }
                            }
                        }
                        let mut c = Content::new();
                        if !v.is_empty() {
                            c.insert((1, 1), v);
                        }
                        (c, Conf { type_id: i as u16, ..Conf::at(z[i]) })
                    })
                    .collect(),
            )?;
            let mut subs: Vec<Sub> = (0..3).map(|i| Sub::new(i, i as u16 + 1, m[i], wt[i], vec![KeySpec::exact(i as u32, 1)])).collect();
            if rev {
                subs.reverse();
            }
            t.state(&(&z, &m, set));
            check_multi(&w, &subs, &MatchOpts { zoom: z[2], bbox: None, proximity: None }, t)
        },
    );
}

/// Every setting of stores, subqueries and queries that the other families leave alone.
fn settings(ctx: &mut Ctx, how: usize) {
    let zooms: Vec<(u16, u16)> = vec![(3, 6), (6, 6), (9, 14), (14, 14), (0, 16), (15, 16), (16, 16)];
    let qz: Vec<i32> = ctx.by(vec![0, -3, 2, 99], vec![0, -1, -3, 1, 2, 4, 99, -99]);
    let ids: [(u16, u16); 4] = [(0, 127), (63, 64), (127, 0), (31, 32)];
    let masks: [(u32, u32); 4] = [(1, 0x8000_0000), (0x8000_0000, 1), (0x4000_0001, 0x8000_0002), (0xFFFF, 0xFFFF_0000)];
    let weights: [(f64, f64); 4] = [(0.5, 0.5), (0.001, 0.999), (0.75, 0.2), (0.09, 0.03)];
    let bits = ctx.by(6usize, 8);
    ctx.family(
        "settings",
        &format!("every subset of {} entries of two stores, in 3 languages; {} pairs of zooms, {} query zooms relative to the finer; indexes up to 127, masks up to bit 31, weights down to 0.001, types up to 65535, radii of 5 and 400 miles, 4 query languages, with and without proximity and a box", bits, zooms.len(), qz.len()),
        (1u64 << bits) * (zooms.len() * qz.len()) as u64 * 4 * 4 * 4,
        |case, t| {
            let mut d = Digits::new(case);
            let set = d.below(1 << bits);
            let (za, zb) = *d.pick(&zooms);
            let q = (zb as i32 + *d.pick(&qz)).clamp(0, 16) as u16;
            let lang = *d.pick(&[1u128, 2, 0, 1 << 127]);
            let o = d.below(4);
            let k = d.below(4) as usize;
            // the rest goes around with the subset
            let (ia, ib) = ids[k];
            let (ma, mb) = masks[(k + set as usize) % 4];
            let (wa, wb) = weights[(k + (set / 4) as usize) % 4];
            let radius = [5.0, 400.0][set as usize % 2];
            let t0 = base_tile(za);
            let pool: Vec<(bool, u128, Ent)> = {
                let a = |w: usize, rq: u8, sc: u8, id: u32| {
                    let p = place(za, t0, za, w);
                    Ent::new(rq, sc, p.0, p.1, id, 0)
                };
                let b = |w: usize, rq: u8, sc: u8, id: u32| {
                    let p = place(za, t0, zb, w);
                    Ent::new(rq, sc, p.0, p.1, id, 0)
                };
                vec![
                    (false, 1, a(0, 3, 3, 0)),
                    (true, 2, b(0, 3, 3, 0xFF_FFFF)),
                    (true, 1, b(1, 2, 7, 0)),
                    (false, 2, a(0, 2, 7, 0xFF_FFFF)),
                    (true, u128::MAX, b(3, 3, 0, 1)),
                    (true, 1, b(4, 3, 15, 0x80_0000)),
                    (false, u128::MAX, a(4, 3, 1, 2)),
                    (true, 2, b(2, 1, 7, 3)),
                ]
            };
            let (mut ca, mut cb) = (Content::new(), Content::new());
            for (i, (fine, l, e)) in pool.iter().enumerate().take(bits) {
                // in the world of zoom 0 there is one tile only
                if set >> i & 1 == 1 && !(za == 0 && !fine && i == 6) {
                    if *fine { &mut cb } else { &mut ca }.entry((i as u32 % 2 + 1, *l)).or_default().insert(*e);
                }
            }
            t.state(&(set, za, zb, q, lang, o, k));
            let w = World::new(vec![
                (ca, Conf { type_id: [0u16, 65_534][k % 2], radius, ..Conf::at(za) }),
                (cb, Conf { type_id: 65_535, radius, ..Conf::at(zb) }),
            ])?;
            let key = |id: u32| KeySpec { langs: lang, ..KeySpec::range(id, 1, 3) };
            let subs = vec![Sub::new(0, ia, ma, wa, vec![key(77)]), Sub::new(1, ib, mb, wb, vec![key(u32::MAX)])];
            let q = if how == 0 { zb } else { q };
            let at = place(za, t0, zb, 0);
            let scaled = |v: u16| if q >= zb { ((v as u32) << (q - zb)) as u16 } else { (v as u32 >> (zb - q)) as u16 };
            let p = [scaled(at.0), scaled(at.1)];
            let m = world(q)[2];
            let mut o = match o {
                0 => MatchOpts { zoom: q, bbox: None, proximity: None },
                1 => MatchOpts { zoom: q, bbox: None, proximity: Some(p) },
                2 => MatchOpts { zoom: q, bbox: Some([p[0], 0, m, p[1]]), proximity: None },
                _ => MatchOpts { zoom: q, bbox: Some([0, p[1], p[0], m]), proximity: Some([m / 2, p[1]]) },
            };
            if how == 2 {
                // of matches of one feature on one tile that differ in language, which one counts
                // is decided by proximity alone
                if o.proximity.is_some() && set & 0b1001 == 0b1001 && za == zb {
                    o.proximity = None;
                }
            }
            match how {
                0 => check_single(&w, &subs[(k + set as usize) % 2], &MatchOpts { zoom: if (k + set as usize) % 2 == 0 { za } else { zb }, ..adjusted(&o, if (k + set as usize) % 2 == 0 { za } else { zb }) }, t),
                1 => check_multi(&w, &subs, &o, t),
                _ => check_stacks(&w, &subs, &o, t).map(|_| ()),
            }
        },
    );
    // what is needed comes late
    let ns: Vec<u32> = ctx.by(vec![39, 41, 79, 81, 161, 999, 1001, 4097, 20_001], vec![38, 39, 40, 41, 42, 78, 79, 80, 81, 82, 83, 127, 128, 129, 160, 161, 200, 255, 256, 257, 400, 512, 600, 799, 801, 999, 1001, 2047, 2049, 4097, 9999, 10_001, 20_001, 65_537, 99_998]);
    if how > 0 {
        ctx.family(
            "late",
            &format!("{} numbers of matches up to {} of either store that go with nothing, and one or two, last of all in score or relevance or both, that go together; one key or a range of five", ns.len(), ns.last().unwrap()),
            ns.len() as u64 * 3 * 3 * 2,
            |case, t| {
                let mut d = Digits::new(case);
                let n = *d.pick(&ns);
                let which = d.below(3);
                let by = d.below(3);
                let nk = *d.pick(&[1u32, 5]);
                let low = |i: u32| match by {
                    0 => Ent::new(3, 0, 1, (i + 1) as u16, 200 + i, 0),
                    1 => Ent::new(2, 5, 1, (i + 1) as u16, 200 + i, 0),
                    _ => Ent::new(2, 0, 1, (i + 1) as u16, 200 + i, 0),
                };
                let fill = |c: &mut Content| {
                    for i in 0..n {
                        c.entry((i % nk, 1)).or_default().insert(Ent::new(3, 5, 100 + (i % 150) as u16, 2 + (i / 150 % 1000) as u16, 1000 + i / 2, 0));
                    }
                };
                let (mut a, mut b) = (Content::new(), Content::new());
                if which != 1 {
                    fill(&mut a);
                }
                if which != 0 {
                    for i in 0..n {
                        b.entry((i % nk, 1)).or_default().insert(Ent::new(3, 5, 3000 + (i % 150) as u16, 3000 + (i / 150 % 1000) as u16, 1000 + i / 2, 0));
                    }
                }
                for i in 0..2 {
                    a.entry((nk - 1, 1)).or_default().insert(low(i));
                    b.entry((nk - 1, 1)).or_default().insert(low(i));
                }
                t.state(&(n, which, by, nk));
                let w = World::new(vec![(a, Conf::at(12)), (b, Conf { type_id: 1, ..Conf::at(12) })])?;
                // the one that is late weighs enough to count
                let subs = vec![
                    Sub::new(0, 1, 1, 0.5, vec![KeySpec::range(0, 0, 9)]),
                    Sub::new(1, 2, 2, 0.5, vec![KeySpec::range(1, 0, 9)]),
                ];
                let o = MatchOpts { zoom: 12, bbox: None, proximity: None };
                if how == 1 {
                    check_multi(&w, &subs, &o, t).map_err(|e| format!("{:.600}", e))
                } else {
                    check_stacks(&w, &subs, &o, t).map(|_| ()).map_err(|e| format!("{:.600}", e))
                }
            },
        );
    }
}

/// One of many subqueries has what is needed last of all.
fn late_among(ctx: &mut Ctx, how: usize) {
    let ns: Vec<u32> = ctx.by(vec![9, 41, 81, 129, 801, 1001, 4097], vec![2, 9, 39, 40, 41, 79, 80, 81, 127, 129, 255, 257, 511, 513, 799, 801, 999, 1001, 2047, 2049, 4095, 4097, 9_999, 10_001, 20_001]);
    let kmax = 8u64;
    ctx.family(
        "late-among",
        &format!("2 to {} subqueries of masks of their own that nest, one of which, at any place, has {} numbers up to {} of better matches elsewhere, falling in score or relevance; zooms rising or all the same; the order given rising or falling; near a point or not", kmax, ns.len(), ns.last().unwrap()),
        ns.len() as u64 * (kmax - 1) * kmax * 2 * 2 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let k = d.below(kmax - 1) as usize + 2;
            let at = d.below(kmax) as usize;
            let rising = d.flag();
            let by_relev = d.flag();
            let rev = d.flag();
            let near = d.flag();
            if at >= k {
                return Ok(());
            }
            let zoom = |i: usize| if rising { 5 + i as u16 } else { 12 };
            let mut parts = Vec::new();
            for i in 0..k {
                let mut c = Content::new();
                let e = if i == at && by_relev { Ent::new(2, 7, 0, 0, 10 + i as u32, 0) } else { Ent::new(3, if i == at { 1 } else { 7 }, 0, 0, 10 + i as u32, 0) };
                c.entry((1, 1)).or_default().insert(e);
                if i == at {
                    let side = 1u32 << zoom(i).min(7);
                    for j in 0..n.min(side * (side - 2)) {
                        c.entry((1, 1)).or_default().insert(Ent::new(3, 7, (j % side) as u16, (2 + j / side) as u16, 1000 + j, 0));
                    }
                }
                parts.push((c, Conf { type_id: i as u16, radius: 400.0, ..Conf::at(zoom(i)) }));
            }
            t.state(&case);
            let w = World::new(parts)?;
            let mut subs: Vec<Sub> = (0..k).map(|i| Sub::new(i, i as u16 + 1, 1 << i, 1.0 / k as f64, vec![KeySpec::exact(i as u32, 1)])).collect();
            if rev {
                subs.reverse();
            }
            let z = if rising { 5 + k as u16 - 1 } else { 12 };
            let o = MatchOpts { zoom: z, bbox: None, proximity: if near { Some([0, 0]) } else { None } };
            if how == 1 {
                check_multi(&w, &subs, &o, t).map_err(|e| format!("{:.600}", e))
            } else {
                check_stacks(&w, &subs, &o, t).map(|_| ()).map_err(|e| format!("{:.600}", e))
            }
        },
    );
}

/// Two entries of the finest of stores that differ in tile or feature alone, wherever they are.
fn apart(ctx: &mut Ctx, how: usize) {
    let cs: Vec<u16> = ctx.by(vec![0, 1, 255, 256, 4096, 65535], vec![0, 1, 2, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535]);
    let ids = [1u32, 0, 257, 65537, 0xFF_FFFF];
    let n = cs.len() as u64;
    ctx.family(
        "apart",
        &format!("entries in two tiles or two features in one tile, for every pair of tiles of zoom 16 with coordinates out of {:?} and every pair out of {} features; the other subquery at zoom 0, or at the same zoom and tiles", cs, ids.len()),
        n.pow(4) * 2 + n * n * 25 * 2 * 2,
        |case, t| {
            let mut d;
            let (p, q, a, b);
            let same;
            if case < n.pow(4) * 2 {
                d = Digits::new(case);
                p = (*d.pick(&cs), *d.pick(&cs));
                q = (*d.pick(&cs), *d.pick(&cs));
                a = 1;
                b = 1;
                same = d.flag();
            } else {
                d = Digits::new(case - n.pow(4) * 2);
                p = (*d.pick(&cs), *d.pick(&cs));
                a = *d.pick(&ids);
                b = *d.pick(&ids);
                q = if d.flag() { p } else { (65535 - p.0, p.1) };
                same = d.flag();
            }
            let second = if p == q && a == b { Ent::new(3, 5, q.0, q.1, b, 0) } else { Ent::new(3, 4, q.0, q.1, b, 0) };
            let fine = one_phrase([Ent::new(3, 5, p.0, p.1, a, 0), second]);
            let coarse = if same {
                one_phrase([Ent::new(3, 1, p.0, p.1, 7, 0), Ent::new(3, 2, q.0, q.1, if p == q { 8 } else { 7 }, 0)])
            } else {
                one_phrase([Ent::new(3, 1, 0, 0, 7, 0), Ent::new(2, 2, 0, 0, 8, 0)])
            };
            t.state(&(p, q, a, b, same));
            let w = World::new(vec![(coarse, Conf::at(if same { 16 } else { 0 })), (fine, Conf { type_id: 1, ..Conf::at(16) })])?;
            let subs = vec![
                Sub::new(0, 1, 1, 0.31, vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, 2, 0.52, vec![KeySpec::exact(1, 1)]),
            ];
            let o = MatchOpts { zoom: 16, bbox: None, proximity: None };
            match how {
                0 => check_single(&w, &subs[1], &o, t),
                1 => check_multi(&w, &subs, &o, t),
                _ => check_stacks(&w, &subs, &o, t).map(|_| ()),
            }
        },
    );
}

// ---- C17 and C20

/// Subqueries that agree in weight, index and mask are one.
pub fn merged(subs: &[Sub]) -> Vec<Sub> {
    let mut out: Vec<Sub> = Vec::new();
    for s in subs {
        match out.iter_mut().find(|o| o.weight == s.weight && o.idx == s.idx && o.mask == s.mask) {
            Some(o) => o.keys.extend(s.keys.iter().cloned()),
            None => out.push(s.clone()),
        }
    }
    out
}

type GroupKey = (i64, i64, std::cmp::Reverse<u16>, u16, u16, u32);

fn group_key(c: &Cx) -> GroupKey {
    let e = &c.entries[0];
    (c.relev, c.scoredist, std::cmp::Reverse(e.idx), e.xy.0, e.xy.1, e.id)
}

/// A context that is to be found; any of the alternatives will do.
struct Owed {
    alts: Vec<Cx>,
    group: usize,
    /// false if a limit on work may keep it away
    sure: bool,
    /// a range over a fine store at the end of a stack: passed over where it cannot matter
    slow: bool,
}

struct Partial {
    entries: Vec<En>,
    relev: f64,
    sure: bool,
}

/// of keys for ranges and masks of one bit: those of one letter, those on fine stores, all; of keys
/// on fine stores: those for ranges, all
const LIMITS: [u64; 5] = [8, 8, 40, 40, 600];

struct Stacks<'a> {
    w: &'a World,
    subs: Vec<Sub>,
    o: MatchOpts,
    /// for each limit on work, how often keys count towards it at most
    totals: [u64; 5],
    data: BTreeMap<(usize, usize), Vec<(f64, En)>>,
    owed: Vec<Owed>,
    groups: usize,
    paths: u64,
}

impl<'a> Stacks<'a> {
    fn type_of(&self, i: usize) -> u16 {
        self.w.confs[self.subs[i].store].type_id
    }
    fn zoom_of(&self, i: usize) -> u16 {
        self.w.confs[self.subs[i].store].zoom
    }
    fn slow(&self, i: usize, k: usize) -> bool {
        self.classes(i, k)[2] && self.zoom_of(i) >= 14
    }
    /// the limits a key counts towards
    fn classes(&self, i: usize, k: usize) -> [bool; 5] {
        let s = &self.subs[i];
        let range = match s.keys[k].phrase {
            MatchPhrase::Exact(_) => false,
            MatchPhrase::Range { start, end } => end - start > 1,
        };
        let word = range && s.mask.count_ones() == 1;
        let fine = self.zoom_of(i) >= 14;
        let near = s.keys[k].nearby;
        [word && s.keys[k].len == 1, word && fine && !near, word, range && fine && !near, fine && !near]
    }
    fn sure(&self, i: usize, k: usize) -> bool {
        (0..5).all(|c| !self.classes(i, k)[c] || self.totals[c] <= LIMITS[c])
    }
    fn visit(&self, i: usize, mask: u32, visits: &mut Vec<u64>) {
        visits[i] += 1;
        for n in self.next(Some(i), mask | self.subs[i].mask) {
            self.visit(n, mask | self.subs[i].mask, visits);
        }
    }
    /// How often keys count towards the limits at most: once where looked up for a stack of one, and
    /// once where looked up for others; but the limits of fine stores count a key for each of up to
    /// eight stacks that want it at the same time.
    fn count(&mut self) {
        let mut visits = vec![0; self.subs.len()];
        let mut alone = vec![0; self.subs.len()];
        for i in self.next(None, 0) {
            if self.next(Some(i), self.subs[i].mask).is_empty() {
                alone[i] += 1;
            } else {
                self.visit(i, 0, &mut visits);
            }
        }
        for i in 0..self.subs.len() {
            for k in 0..self.subs[i].keys.len() {
                for (c, of) in self.classes(i, k).iter().enumerate() {
                    if *of {
                        self.totals[c] += alone[i] + visits[i].min(if c < 3 { 1 } else { 8 });
                    }
                }
            }
        }
    }
    fn next(&self, prev: Option<usize>, mask: u32) -> Vec<usize> {
        (0..self.subs.len())
            .filter(|i| {
                let s = &self.subs[*i];
                s.mask & mask == 0
                    && prev.map_or(true, |p| self.type_of(p) < self.type_of(*i) && !s.excl.contains(&self.subs[p].idx))
            })
            .collect()
    }
    fn load(&mut self) {
        for i in 0..self.subs.len() {
            for k in 0..self.subs[i].keys.len() {
                let s = &self.subs[i];
                let spec = &s.keys[k];
                let mut v: Vec<(f64, En)> = self
                    .w
                    .matches(s.store, spec, &self.o)
                    .iter()
                    .map(|m| (m.relev * s.weight, en_m(s, spec.id, m)))
                    .collect();
                // of matches of one feature on one tile the best counts
                v.sort_by(|a, b| (b.1.relev, b.1.scoredist).cmp(&(a.1.relev, a.1.scoredist)));
                self.data.insert((i, k), v);
            }
        }
    }
    fn unique(v: &[(f64, En)]) -> Vec<(f64, En)> {
        let mut seen = BTreeSet::new();
        v.iter().filter(|x| seen.insert((x.1.xy, x.1.id))).cloned().collect()
    }
    fn run(&mut self) {
        self.load();
        self.count();
        for i in self.next(None, 0) {
            let below = self.next(Some(i), self.subs[i].mask);
            if below.is_empty() {
                self.single(i);
            } else {
                self.step(i, 0, None, &[Partial { entries: vec![], relev: 0.0, sure: true }]);
            }
        }
    }
    fn single(&mut self, i: usize) {
        self.paths += 1;
        for k in 0..self.subs[i].keys.len() {
            let sure = self.sure(i, k);
            let v = &self.data[&(i, k)];
            let top = v.iter().map(|x| x.1.relev).max().unwrap_or(0);
            let mut by: BTreeMap<u32, Vec<&En>> = BTreeMap::new();
            for (_, e) in v {
                by.entry(e.id).or_default().push(e);
            }
            let group = self.groups;
            self.groups += 1;
            let mask = self.subs[i].mask;
            for (_, es) in by {
                let best = es.iter().map(|e| (e.relev, e.scoredist)).max().unwrap();
                if top - best.0 >= QUARTER - 5 {
                    continue;
                }
                self.owed.push(Owed {
                    alts: es
                        .iter()
                        .filter(|e| (e.relev, e.scoredist) == best)
                        .map(|e| Cx { relev: e.relev, scoredist: e.scoredist, mask, entries: vec![(*e).clone()] })
                        .collect(),
                    group,
                    sure,
                    slow: self.slow(i, k),
                });
            }
        }
    }
    fn step(&mut self, i: usize, mask: u32, prev: Option<usize>, on: &[Partial]) {
        self.paths += 1;
        let mask = mask | self.subs[i].mask;
        let leaf = self.next(Some(i), mask).is_empty();
        let mut here: Vec<Partial> = Vec::new();
        let mut by_tile: BTreeMap<(u16, u16), Vec<usize>> = BTreeMap::new();
        for (n, p) in on.iter().enumerate() {
            by_tile.entry(if prev.is_some() { p.entries[0].xy } else { (0, 0) }).or_default().push(n);
        }
        for k in 0..self.subs[i].keys.len() {
            let group = self.groups;
            self.groups += 1;
            let sure = self.sure(i, k);
            for (r, e) in Self::unique(&self.data[&(i, k)]) {
                let at = match prev {
                    Some(pi) => (self.zoom_of(pi) <= self.zoom_of(i)).then(|| up(self.zoom_of(i), e.xy, self.zoom_of(pi))),
                    None => Some((0, 0)),
                };
                for p in at.and_then(|at| by_tile.get(&at)).into_iter().flatten() {
                    let p = &on[*p];
                    let mut entries = vec![e.clone()];
                    entries.extend(p.entries.iter().cloned());
                    let relev = p.relev + r;
                    let alone = entries.len() == 1 || entries[0].mask > entries[1].mask;
                    self.owed.push(Owed {
                        alts: vec![Cx {
                            relev: round6(if alone { relev - 0.01 } else { relev }),
                            scoredist: e.scoredist,
                            mask,
                            entries: entries.clone(),
                        }],
                        group,
                        sure: sure && p.sure,
                        slow: leaf && self.slow(i, k),
                    });
                    here.push(Partial { entries, relev, sure: sure && p.sure });
                }
            }
        }
        for n in self.next(Some(i), mask) {
            self.step(n, mask, Some(i), &here);
        }
    }
}

/// Compares stack_and_coalesce with everything there is to find.
fn check_stacks(w: &World, subs: &[Sub], o: &MatchOpts, t: &mut Tally) -> Result<Vec<Cx>, String> {
    let got = stack_and_coalesce(&w.subqueries(subs), o).map_err(es("stack_and_coalesce"))?;
    let mut m = Stacks {
        w,
        subs: merged(subs),
        o: o.clone(),
        totals: [0; 5],
        data: BTreeMap::new(),
        owed: vec![],
        groups: 0,
        paths: 0,
    };
    m.run();
    t.trace(m.paths);
    let list = judge(&got, &m)?;
    t.outcome(&list);
    Ok(list)
}

fn judge(got: &[CoalesceContext], m: &Stacks) -> Result<Vec<Cx>, String> {
    if got.len() > 800 {
        return Err(format!("{} contexts", got.len()));
    }
    sorted(got)?;
    let mut of: BTreeMap<&Cx, usize> = BTreeMap::new();
    for (i, w) in m.owed.iter().enumerate() {
        for a in &w.alts {
            of.insert(a, i);
        }
    }
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut list = Vec::new();
    for c in got {
        let c = cx(c)?;
        match of.get(&c) {
            None => return Err(format!("unexpected context {:?}", c)),
            Some(i) => {
                if !used.insert(*i) {
                    return Err(format!("context returned twice: {:?}", c));
                }
            }
        }
        list.push(c);
    }
    if std::env::var("MC_DEBUG").is_ok() {
        let mut n: BTreeMap<Vec<u32>, (usize, i64)> = BTreeMap::new();
        for c in &list {
            let e = n.entry(c.entries.iter().map(|e| e.key_id).collect()).or_default();
            e.0 += 1;
            e.1 = c.relev;
        }
        eprintln!("{:?}", n);
    }
    let full = list.len() >= 800;
    let floor = list.iter().map(|c| c.relev).min().unwrap_or(0);
    let best = list.iter().map(|c| c.relev).max().unwrap_or(0);
    // the limits hold
    let mut kinds: BTreeMap<(u16, u32, u32), [bool; 5]> = BTreeMap::new();
    for (i, s) in m.subs.iter().enumerate() {
        for (k, spec) in s.keys.iter().enumerate() {
            let c = m.classes(i, k);
            if c != [false; 5] {
                kinds.insert((s.idx, s.mask, spec.id), c);
            }
        }
    }
    let mut from: [BTreeSet<(u16, u32)>; 5] = Default::default();
    if !kinds.is_empty() {
        for e in list.iter().flat_map(|c| &c.entries) {
            if let Some(c) = kinds.get(&(e.idx, e.mask, e.key_id)) {
                (0..5).filter(|l| c[*l]).for_each(|l| {
                    from[l].insert((e.idx, e.key_id));
                });
            }
        }
    }
    for (l, of) in from.iter().enumerate() {
        if of.len() as u64 > LIMITS[l] {
            return Err(format!("results from {} keys of a kind of which {} are looked up at most (limit {})", of.len(), LIMITS[l], l));
        }
    }
    // members of each group, best first
    let mut groups: BTreeMap<usize, Vec<GroupKey>> = BTreeMap::new();
    for w in &m.owed {
        groups.entry(w.group).or_default().push(group_key(&w.alts[0]));
    }
    for g in groups.values_mut() {
        g.sort_by(|a, b| b.cmp(a));
    }
    let mut have: BTreeMap<usize, Vec<(i64, i64)>> = BTreeMap::new();
    for i in &used {
        let c = &m.owed[*i].alts[0];
        have.entry(m.owed[*i].group).or_default().push((c.relev, c.scoredist));
    }
    let mut all_sure = true;
    for (i, w) in m.owed.iter().enumerate() {
        all_sure &= w.sure && !w.slow;
        let c = &w.alts[0];
        let k = group_key(c);
        let k = (k.0, k.1);
        let g = &groups[&w.group];
        // at least as good, by what is promised of the order
        let before = g.partition_point(|x| (x.0, x.1) >= k) - 1;
        let owed = w.sure && (!w.slow || c.relev > best * 3 / 4 + 2) && before < 40 && !(full && c.relev <= floor + 1);
        if owed && !used.contains(&i) {
            return Err(format!("missing context {:?} ({} returned, the last with {})", c, list.len(), floor));
        }
    }
    if all_sure {
        let mut total = 0;
        for (g, keys) in &groups {
            let want: Vec<(i64, i64)> = keys.iter().take(40).map(|k| (k.0, k.1)).collect();
            total += want.len();
            if !full {
                let mut h = have.get(g).cloned().unwrap_or_default();
                h.sort_by(|a, b| b.cmp(a));
                if h != want {
                    return Err(format!("of one stack and key: contexts {:?}, expected {:?}", h, want));
                }
            }
        }
        if list.len() != total.min(800) {
            return Err(format!("{} contexts, expected {}", list.len(), total.min(800)));
        }
    }
    Ok(list)
}

/// weights that make no two different sums equal by accident
const WTS: [[f64; 5]; 3] = [[0.31, 0.32, 0.22, 0.14, 0.07], [0.5, 0.5, 0.25, 0.25, 0.125], [0.11, 0.52, 0.27, 0.1, 0.43]];

fn one_phrase(v: impl IntoIterator<Item = Ent>) -> Content {
    let s: BTreeSet<Ent> = v.into_iter().collect();
    let mut c = Content::new();
    if !s.is_empty() {
        c.insert((1, 1), s);
    }
    c
}

pub fn c17(ctx: &mut Ctx) {
    pairs17(ctx);
    shapes17(ctx);
    keys17(ctx);
    boxes17(ctx);
    many_boxes17(ctx);
    groups17(ctx);
    many17(ctx);
    apart(ctx, 2);
    late_among(ctx, 2);
    settings(ctx, 2);
}

fn pairs17(ctx: &mut Ctx) {
    let zooms = [(6u16, 6u16), (5, 6), (1, 16), (0, 16), (14, 14), (13, 15), (0, 0), (3, 9)];
    let masks = [(1u32, 2u32), (2, 1), (1, 1), (3, 4), (4, 3), (3, 2)];
    let abits = 4;
    let bbits = ctx.by(5, 7);
    ctx.family(
        "pairs",
        &format!("two subqueries: every subset of {} matches of the coarser and {} of the finer store at corners inside and outside of the coarser tiles, {} pairs of zooms, {} of masks, 3 of weights, both orders, exclusions either way, 4 kinds of options", abits, bbits, zooms.len(), masks.len()),
        (1u64 << (abits + bbits)) * (zooms.len() * masks.len()) as u64 * 3 * 2 * 3 * ctx.by(2, 4),
        |case, t| {
            let mut d = Digits::new(case);
            let set = d.below(1 << (abits + bbits));
            let (za, zb) = *d.pick(&zooms);
            let m = *d.pick(&masks);
            let wt = *d.pick(&WTS);
            let swap = d.flag();
            let excl = d.below(3);
            // proximity and box together come with odd subsets in the quick tier
            let ow = (d.below(4) * 2 + (set & 1)) as usize & 3;
            let t0 = base_tile(za);
            let t1 = place(za, t0, za, 4);
            let apool = [
                Ent::new(3, 1, t0.0, t0.1, 1, 0),
                Ent::new(2, 7, t0.0, t0.1, 2, 0),
                Ent::new(3, 7, t1.0, t1.1, 1, 1),
                Ent::new(3, 0, t0.0, t0.1, 0, 2),
            ];
            // one feature of zoom 0 is on one tile only
            let a: Vec<Ent> = apool
                .iter()
                .enumerate()
                .filter(|(i, _)| set >> i & 1 == 1 && !(za == 0 && *i == 2))
                .map(|x| *x.1)
                .collect();
            let mut b: BTreeMap<((u16, u16), u32), Ent> = BTreeMap::new();
            for (i, (which, rq, score, id)) in
                [(0usize, 3u8, 0u8, 1u32), (1, 3, 3, 2), (4, 3, 7, 1), (0, 2, 7, 4), (6, 3, 2, 3), (2, 2, 5, 2), (5, 1, 7, 5)].iter().enumerate().take(bbits)
            {
                if set >> (abits + i) & 1 == 1 {
                    let p = place(za, t0, zb, *which);
                    b.insert((p, *id), Ent::new(*rq, *score, p.0, p.1, *id, 0));
                }
            }
            let b: Vec<Ent> = b.into_values().collect();
            t.state(&(&a, &b, za, zb, m, excl));
            t.sample(|| format!("zooms {} {}, masks {:?}: {:?} {:?}", za, zb, m, a, b));
            let w = World::new(vec![(one_phrase(a), Conf::at(za)), (one_phrase(b), Conf { type_id: 1, ..Conf::at(zb) })])?;
            let mut subs = vec![
                Sub::new(0, 1, m.0, wt[0], vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, m.1, wt[1], vec![KeySpec::exact(1, 1)]),
            ];
            match excl {
                1 => subs[1].excl = vec![1, 77],
                2 => subs[0].excl = vec![2],
                _ => {}
            }
            if swap {
                subs.swap(0, 1);
            }
            let o = opts_around(zb, place(za, t0, zb, 1), ow);
            check_stacks(&w, &subs, &o, t).map(|_| ())
        },
    );
}

/// stores of three types, some matches nested in every way
fn three_stores(zooms: &[u16], content: u64) -> Result<World, String> {
    let t0 = base_tile(zooms[0]);
    let mut parts = Vec::new();
    for (i, z) in zooms.iter().enumerate() {
        let c = one_phrase(
            [(0usize, 3u8, 2u8, 1u32), (1, 2, 5, 2), (4, 3, 7, 3)]
                .iter()
                .enumerate()
                .filter(|(j, _)| content >> (i * 3 + j) & 1 == 1)
                .map(|(_, (which, rq, score, id))| {
                    let xy = place(zooms[0], t0, *z, *which);
                    Ent::new(*rq, *score, xy.0, xy.1, *id, i as u8)
                }),
        );
        parts.push((c, Conf { type_id: i as u16, ..Conf::at(*z) }));
    }
    World::new(parts)
}

fn shapes17(ctx: &mut Ctx) {
    let zs: Vec<Vec<u16>> = vec![vec![4, 6, 9], vec![6, 6, 6], vec![3, 3, 14]];
    let ms = [1u32, 2, 4, 3, 6, 7];
    // (store) of the fourth subquery, exclusions (who, whom)
    let excls: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(1, 0)], vec![(2, 1)], vec![(2, 0)], vec![(3, 0)], vec![(3, 1), (2, 0)], vec![(0, 1)], vec![(2, 3)]];
    let contents: Vec<u64> = ctx.by(vec![0o777, 0o731, 0o157], vec![0o777, 0o731, 0o157, 0o111, 0o713, 0o770, 0o707, 0o077]);
    ctx.family(
        "shapes",
        &format!("four subqueries over stores of three types: every assignment of 6 masks to each, the fourth on each store, {} patterns of exclusion, {} contents, 3 tuples of zooms, {} of weights", excls.len(), contents.len(), ctx.by(1, 3)),
        6u64.pow(4) * 3 * (excls.len() * contents.len() * zs.len()) as u64 * ctx.by(1, 3),
        |case, t| {
            let mut d = Digits::new(case);
            let m: Vec<u32> = (0..4).map(|_| *d.pick(&ms)).collect();
            let fourth = d.below(3) as usize;
            let ex = d.pick(&excls);
            let content = *d.pick(&contents);
            let z = d.pick(&zs);
            let wt = WTS[d.below(3) as usize];
            let w = three_stores(z, content)?;
            let mut subs: Vec<Sub> = (0..4)
                .map(|i| Sub::new(if i == 3 { fourth } else { i }, i as u16 * 5 + 1, m[i], wt[i], vec![KeySpec::exact(i as u32 + 10, 1)]))
                .collect();
            for (a, b) in ex {
                let idx = subs[*b].idx;
                subs[*a].excl.push(idx);
            }
            t.state(&(&m, fourth, ex, content, z));
            t.sample(|| format!("masks {:?}, fourth on store {}, exclusions {:?}", m, fourth, ex));
            check_stacks(&w, &subs, &MatchOpts { zoom: z[2], bbox: None, proximity: None }, t).map(|_| ())
        },
    );
    // five subqueries, fewer masks
    let ms5 = [1u32, 2, 4, 8];
    ctx.family(
        "deep",
        "five subqueries over stores of five types and zooms: every assignment of 4 masks, every set of 3 nested matches left out of one store, 2 orders, one exclusion or none",
        4u64.pow(5) * 6 * 2 * 5,
        |case, t| {
            let mut d = Digits::new(case);
            let m: Vec<u32> = (0..5).map(|_| *d.pick(&ms5)).collect();
            let left = d.below(6) as usize;
            let rev = d.flag();
            let ex = d.below(5) as usize;
            let zs = [2u16, 4, 4, 7, 12];
            let t0 = base_tile(2);
            let parts = (0..5usize)
                .map(|i| {
                    let c = one_phrase((0..2usize).filter(|_| i != left).map(|j| {
                        let xy = place(2, t0, zs[i], j);
                        Ent::new(3 - j as u8, 3, xy.0, xy.1, j as u32, 0)
                    }));
                    (c, Conf { type_id: i as u16 * 2, ..Conf::at(zs[i]) })
                })
                .collect();
            let w = World::new(parts)?;
            let mut subs: Vec<Sub> = (0..5).map(|i| Sub::new(i, i as u16 + 1, m[i], WTS[2][i], vec![KeySpec::exact(i as u32, 1)])).collect();
            if ex > 0 {
                subs[ex].excl = vec![ex as u16];
            }
            if rev {
                subs.reverse();
            }
            t.state(&(&m, left, ex));
            check_stacks(&w, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None }, t).map(|_| ())
        },
    );
}

fn keys17(ctx: &mut Ctx) {
    // what a key may ask for
    let specs: Vec<KeySpec> = vec![
        KeySpec::exact(0, 1),
        KeySpec::exact(0, 2),
        KeySpec::range(0, 1, 3),
        KeySpec::range(0, 0, 9),
        KeySpec { nearby: true, ..KeySpec::exact(0, 1) },
        KeySpec { nearby: true, ..KeySpec::range(0, 0, 9) },
        KeySpec { langs: 2, ..KeySpec::range(0, 0, 9) },
        KeySpec { len: 1, ..KeySpec::range(0, 1, 4) },
    ];
    let n = specs.len() as u64;
    let content = |z: u16, base: (u16, u16), far: (u16, u16), i: u32| -> Content {
        let mut c = Content::new();
        c.insert((1, 1), [Ent::new(3, 3, base.0, base.1, 1, 0), Ent::new(3, 1, far.0, far.1, 2, 0)].into_iter().collect());
        c.insert((2, 2), [Ent::new(2, 5, base.0, base.1, 1, 1), Ent::new(3, 7, base.0, base.1, 3 + i, 1)].into_iter().collect());
        c.insert((3, 3), [Ent::new(3, 0, base.0, base.1, 9, 1)].into_iter().collect());
        let _ = z;
        c
    };
    let zs = [(6u16, 6u16), (5, 8), (11, 13)];
    ctx.family(
        "keys",
        &format!("two stores, three subqueries of which two may merge: every choice of {} kinds of key for the first two (two keys on the second), 4 pairs of masks, merging or not, with or without proximity, without a box, with one of the whole world or one of a part, {} pairs of zooms", n, zs.len()),
        n.pow(3) * 4 * 3 * 2 * zs.len() as u64 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let ks: Vec<KeySpec> = (0..3).map(|i| KeySpec { id: 20 + i, ..d.pick(&specs).clone() }).collect();
            let m = *d.pick(&[(1u32, 2u32), (2, 1), (3, 4), (4, 3)]);
            let merge = d.below(3);
            let prox = d.flag();
            let (za, zb) = *d.pick(&zs);
            let bi = d.below(3);
            let a0 = base_tile(za);
            let b0 = place(za, a0, zb, 0);
            let w = World::new(vec![
                (content(za, a0, (0, 0), 0), Conf::at(za)),
                (content(zb, b0, place(za, (0, 0), zb, 1), 1), Conf { type_id: 3, ..Conf::at(zb) }),
            ])?;
            // matches of one feature on one tile that only proximity would order are left out
            let bbox = [None, Some(world(zb)), Some([b0.0, 0, b0.0 + 1, b0.1])][bi as usize];
            let o = MatchOpts { zoom: zb, bbox, proximity: if prox { Some([b0.0, b0.1]) } else { None } };
            let (wa, wb) = (0.31, 0.52);
            let subs = match merge {
                0 => vec![
                    Sub::new(0, 1, m.0, wa, vec![ks[0].clone()]),
                    Sub::new(1, 2, m.1, wb, vec![ks[1].clone(), ks[2].clone()]),
                ],
                1 => vec![
                    Sub::new(1, 2, m.1, wb, vec![ks[1].clone()]),
                    Sub::new(0, 1, m.0, wa, vec![ks[0].clone()]),
                    Sub::new(1, 2, m.1, wb, vec![ks[2].clone()]),
                ],
                _ => vec![
                    Sub::new(1, 2, m.1, wb, vec![ks[1].clone()]),
                    Sub::new(0, 1, m.0, wa, vec![ks[0].clone()]),
                    Sub::new(1, 2, m.1, 0.47, vec![ks[2].clone()]),
                ],
            };
            t.state(&case);
            t.sample(|| format!("{:?}", subs));
            check_stacks(&w, &subs, &o, t).map(|_| ())
        },
    );
}

fn boxes17(ctx: &mut Ctx) {
    let zs = [(6u16, 6u16), (5, 6), (2, 9), (0, 16), (8, 13)];
    let bits = 8u32;
    ctx.family(
        "boxes",
        "two stores whose own boxes fit their content tightly, as one box or as one per tile: every set of 8 tiles of the finer store in and around 2 tiles of the coarser one, 5 pairs of zooms, boxes of either store tight or not",
        (1u64 << bits) * zs.len() as u64 * 3 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let set = d.below(1 << bits);
            let (za, zb) = *d.pick(&zs);
            let (ka, kb) = (d.below(3), d.below(3));
            let t0 = base_tile(za);
            let a = vec![Ent::new(3, 3, t0.0, t0.1, 1, 0), {
                let p = place(za, t0, za, 5);
                Ent::new(2, 3, p.0, p.1, 2, 0)
            }];
            let b: Vec<Ent> = (0..bits as usize)
                .filter(|i| set >> i & 1 == 1)
                .map(|i| {
                    let p = place(za, t0, zb, i);
                    Ent::new(3, 1, p.0, p.1, 5 + i as u32, 0)
                })
                .collect();
            let boxes = |v: &[Ent], k: u64, z: u16| -> Vec<[u16; 4]> {
                let xs: Vec<(u16, u16)> = v.iter().map(|e| e.xy()).collect();
                match k {
                    0 => vec![world(z)],
                    1 if !xs.is_empty() => vec![[
                        xs.iter().map(|p| p.0).min().unwrap(),
                        xs.iter().map(|p| p.1).min().unwrap(),
                        xs.iter().map(|p| p.0).max().unwrap(),
                        xs.iter().map(|p| p.1).max().unwrap(),
                    ]],
                    _ => xs.iter().map(|p| [p.0, p.1, p.0, p.1]).collect(),
                }
            };
            let (ba, bb) = (boxes(&a, ka, za), boxes(&b, kb, zb));
            t.state(&(set, za, zb, ka, kb));
            let w = World::new(vec![
                (one_phrase(a), Conf { bboxes: ba, ..Conf::at(za) }),
                (one_phrase(b), Conf { bboxes: bb, type_id: 1, ..Conf::at(zb) }),
            ])?;
            let subs = vec![
                Sub::new(0, 1, 1, 0.31, vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, 2, 0.52, vec![KeySpec::exact(1, 1)]),
            ];
            let o = MatchOpts { zoom: zb, bbox: None, proximity: if set & 1 == 1 { Some([0, 0]) } else { None } };
            check_stacks(&w, &subs, &o, t).map(|_| ())
        },
    );
}

fn many_boxes17(ctx: &mut Ctx) {
    let ns: Vec<usize> = ctx.by(
        vec![1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300, 1025],
        (1..=130).chain([255, 256, 257, 300, 511, 513, 1000, 1025, 4097]).collect(),
    );
    let zs = [(6u16, 6u16), (5, 7), (1, 9)];
    ctx.family(
        "many-boxes",
        &format!("a store of {} numbers of boxes up to {}, of which one, at any of 5 places of the list, holds the tile below another store's, or none does; the tile's box is that tile alone, or a wider one; 3 pairs of zooms; near the tile, elsewhere, or without a point", ns.len(), ns.last().unwrap()),
        (ns.len() * 6 * 2 * zs.len() * 3) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let at = match d.below(6) {
                0 => Some(0),
                1 => Some(n / 3),
                2 => Some(n / 2),
                3 => Some(n.saturating_sub(2)),
                4 => Some(n - 1),
                _ => None,
            };
            let wide = d.flag();
            let (za, zb) = *d.pick(&zs);
            let point = d.below(3);
            // the upper store has its tile at the lower right, all other boxes lie at the left
            let (ma, mb) = (((1u32 << za) - 1) as u16, ((1u32 << zb) - 1) as u16);
            let mut boxes = Vec::new();
            let mut b = Vec::new();
            for i in 0..n {
                if at == Some(i) {
                    boxes.push(if wide { [mb - 1, mb - 1, mb, mb] } else { [mb, mb, mb, mb] });
                    b.push(Ent::new(3, 3, mb, mb, 1, 0));
                } else {
                    let (x, y) = ((i / 32 % 16) as u16, (i % 32) as u16);
                    boxes.push([x, y, x, y]);
                    b.push(Ent::new(3, 2, x, y, 10 + i as u32, 0));
                }
            }
            t.state(&case);
            let w = World::new(vec![
                (one_phrase(vec![Ent::new(3, 3, ma, ma, 9001, 0)]), Conf { bboxes: vec![[ma, ma, ma, ma]], ..Conf::at(za) }),
                (one_phrase(b), Conf { bboxes: boxes, type_id: 1, ..Conf::at(zb) }),
            ])?;
            let subs = vec![
                Sub::new(0, 1, 1, 0.31, vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, 2, 0.52, vec![KeySpec::exact(1, 1)]),
            ];
            let proximity = match point {
                0 => None,
                1 => Some([mb, mb]),
                _ => Some([0, 0]),
            };
            check_stacks(&w, &subs, &MatchOpts { zoom: zb, bbox: None, proximity }, t).map(|_| ()).map_err(|e| format!("{} boxes: {:.600}", n, e))
        },
    );
}

fn groups17(ctx: &mut Ctx) {
    let ns: Vec<u32> = ctx.by(vec![1, 5, 6, 7, 20, 39, 40, 41, 60], (1..=60).collect());
    ctx.family(
        "groups",
        &format!("two subqueries with {} numbers of features each, so that one stack yields up to 40 contexts and more; 3 ways to nest, 4 of scoring, 3 pairs of masks, stacking or not", ns.len()),
        (ns.len() * ns.len() * 3 * 4 * 3) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let na = *d.pick(&ns);
            let nb = *d.pick(&ns);
            let nest = d.below(3);
            let how = d.below(4);
            let m = *d.pick(&[(1u32, 2u32), (2, 1), (1, 3)]);
            let a = (0..na).map(|i| {
                let at = match nest {
                    0 => 0,
                    1 => i % 7,
                    _ => i,
                };
                Ent::new(3 - (i % 2) as u8, (i % 8) as u8, (at % 16) as u16, (at / 16) as u16, i, 0)
            });
            let b = (0..nb).map(|i| {
                let (rq, sc) = match how {
                    0 => (3, 7),
                    1 => (3, (i % 8) as u8),
                    2 => (2 + (i % 2) as u8, 5),
                    _ => (3 - (i % 2) as u8, (i % 5) as u8),
                };
                Ent::new(rq, sc, ((i % 16) * 4 + i % 3) as u16, ((i / 16) * 4 + 1) as u16, i / 2, 0)
            });
            t.state(&(na, nb, nest, how, m));
            let w = World::new(vec![(one_phrase(a), Conf::at(4)), (one_phrase(b), Conf { type_id: 1, ..Conf::at(6) })])?;
            let subs = vec![
                Sub::new(0, 1, m.0, 0.31, vec![KeySpec::exact(0, 1)]),
                Sub::new(1, 2, m.1, 0.52, vec![KeySpec::exact(1, 1)]),
            ];
            check_stacks(&w, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None }, t).map(|_| ())
        },
    );
}

fn many17(ctx: &mut Ctx) {
    let counts: Vec<u32> = ctx.by(vec![1, 39, 40, 41, 79, 80, 81, 82, 83, 120, 161], (1..=180).collect());
    ctx.family(
        "many",
        &format!("{} numbers of features up to {}, 1 or 2 places each, relevances and scores falling, rising, equal or mixed with the id, over 1 or 2 keys, near and far from a proximity point that is one of 5 or none, in a box or not; alone, below something, or on top of something", counts.len(), counts.last().unwrap()),
        (counts.len() * 2 * 6 * 2 * 6 * 2 * 3) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let places = d.below(2) as u32 + 1;
            let how = d.below(6) as u32;
            let nkeys = d.below(2) as u32 + 1;
            let prox = *d.pick(&[None, Some([20u16, 33u16]), Some([0, 0]), Some([63, 63]), Some([31, 31]), Some([32, 32])]);
            let boxed = d.flag();
            let with = d.below(3);
            let mut c = Content::new();
            for f in 0..n {
                for p in 0..places {
                    let (rq, sc) = match how {
                        0 => (3, 7),
                        1 => (3, (f * 8 / n) as u8),
                        2 => (3, 7 - (f * 8 / n) as u8),
                        3 => (3 - (f * 2 / n) as u8, ((f + p) % 8) as u8),
                        4 => (2 + (f * 2 / n) as u8, ((f * 5 + p) % 16) as u8),
                        _ => (3 - ((f + p) % 2) as u8, (f % 3) as u8 + p as u8),
                    };
                    let i = f * places + p;
                    let at = (i * 37) % 4096;
                    c.entry((i % nkeys, 1)).or_default().insert(Ent::new(rq, sc, (at % 64) as u16, (at / 64) as u16, f * 3, 0));
                }
            }
            t.state(&(n, places, how, nkeys));
            let other = one_phrase((0..4).map(|i| Ent::new(3, 3, i % 2, i / 2, 9000 + i as u32, 0)));
            let third = one_phrase((0..9).map(|i| Ent::new(3, 3, i * 7, i * 5, 9100 + i as u32, 0)));
            let w = World::new(vec![
                (c, Conf { type_id: 1, radius: 400.0, ..Conf::at(6) }),
                (other, Conf { radius: 400.0, ..Conf::at(1) }),
                (third, Conf { type_id: 2, radius: 400.0, ..Conf::at(6) }),
            ])?;
            let mut subs = vec![Sub::new(0, 7, 4, 0.5, vec![KeySpec::range(7, 0, 200)])];
            match with {
                0 => {}
                1 => subs.push(Sub::new(1, 1, 1, 0.3, vec![KeySpec::exact(1, 1)])),
                _ => subs.push(Sub::new(2, 2, 2, 0.3, vec![KeySpec::exact(2, 1)])),
            }
            let o = MatchOpts { zoom: 6, bbox: if boxed { Some([3, 5, 60, 50]) } else { None }, proximity: prox };
            check_stacks(&w, &subs, &o, t).map(|_| ())
        },
    );
    let counts: Vec<u32> = ctx.by(vec![257, 1025, 4097, 16_385], vec![255, 256, 257, 300, 513, 799, 801, 1023, 1025, 2049, 4097, 9_999, 16_385, 50_001]);
    ctx.family(
        "crowds",
        &format!("{:?} features, relevances and scores falling, rising, equal or mixed, over 1 or 2 keys, near a point or not, in a box or not; alone, below something, or on top of something", counts),
        counts.len() as u64 * 4 * 2 * 2 * 2 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let how = d.below(4);
            let nkeys = d.below(2) as u32 + 1;
            let prox = if d.flag() { Some([20u16, 33u16]) } else { None };
            let boxed = d.flag();
            let with = d.below(3);
            let mut c = Content::new();
            for f in 0..n {
                let (rq, sc) = match how {
                    0 => (3, 7),
                    1 => (3 - (f * 3 / n) as u8, 7 - (f as u64 * 8 / n as u64) as u8),
                    2 => (1 + (f * 3 / n) as u8, (f as u64 * 8 / n as u64) as u8),
                    _ => (3 - (f % 3) as u8, (f * 7 % 16) as u8),
                };
                let at = (f * 37) % 16_384;
                c.entry((f % nkeys, 1)).or_default().insert(Ent::new(rq, sc, (at % 128) as u16, (at / 128) as u16, f * 3, 0));
            }
            t.state(&case);
            let other = one_phrase((0..4).map(|i| Ent::new(3, 3, i % 2, i / 2, 9_000_000 + i as u32, 0)));
            let third = one_phrase((0..9).map(|i| Ent::new(3, 3, i * 7, i * 5, 9_000_100 + i as u32, 0)));
            let w = World::new(vec![
                (c, Conf { type_id: 1, radius: 400.0, ..Conf::at(7) }),
                (other, Conf { radius: 400.0, ..Conf::at(1) }),
                (third, Conf { type_id: 2, radius: 400.0, ..Conf::at(7) }),
            ])?;
            let mut subs = vec![Sub::new(0, 7, 4, 0.5, vec![KeySpec::range(7, 0, 200)])];
            match with {
                0 => {}
                1 => subs.push(Sub::new(1, 1, 1, 0.3, vec![KeySpec::exact(1, 1)])),
                _ => subs.push(Sub::new(2, 2, 2, 0.3, vec![KeySpec::exact(2, 1)])),
            }
            let o = MatchOpts { zoom: 7, bbox: if boxed { Some([3, 5, 120, 100]) } else { None }, proximity: prox };
            check_stacks(&w, &subs, &o, t).map(|_| ()).map_err(|e| format!("{} features: {:.600}", n, e))
        },
    );
    let nmax = ctx.by(10u64, 11);
    ctx.family(
        "tall",
        &format!("2 to {} subqueries of masks of their own that nest, over as many stores of one zoom, of one zoom more each, or in pairs; one of them without a match, elsewhere, or none; falling, rising, equal weights; masks and order rising or falling", nmax),
        (nmax - 1) * 3 * (2 * nmax + 1) * 3 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = d.below(nmax - 1) as usize + 2;
            let zooms = d.below(3);
            let out = d.below(2 * nmax + 1) as usize;
            let wt = d.below(3);
            let rising = d.flag();
            let rev = d.flag();
            if out > 2 * n {
                return Ok(());
            }
            let zoom = |i: usize| match zooms {
                0 => 6u16,
                1 => i as u16,
                _ => 3 + (i / 2) as u16,
            };
            let weight = |i: usize| match wt {
                0 => 1.0 / n as f64,
                1 => 2.0 * (i + 1) as f64 / (n * (n + 1)) as f64,
                _ => 2.0 * (n - i) as f64 / (n * (n + 1)) as f64,
            };
            let mut parts = Vec::new();
            for i in 0..n {
                let z = zoom(i);
                let m = ((1u32 << z) - 1) as u16;
                let mut v = vec![];
                if out != 2 * i + 1 {
                    let (x, y) = if out == 2 * i + 2 { (0, 0) } else { (m, m / 2) };
                    v.push(Ent::new(3, 3, x, y, 10 + i as u32, 0));
                }
                parts.push((one_phrase(v), Conf { type_id: i as u16, ..Conf::at(z) }));
            }
            t.state(&case);
            let w = World::new(parts)?;
            let mut subs: Vec<Sub> = (0..n)
                .map(|i| Sub::new(i, i as u16 + 3, 1 << (if rising { i } else { n - 1 - i }), weight(i), vec![KeySpec::exact(i as u32, 1)]))
                .collect();
            if rev {
                subs.reverse();
            }
            check_stacks(&w, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None }, t).map(|_| ()).map_err(|e| format!("{} subqueries: {:.800}", n, e))
        },
    );
}

pub fn c20(ctx: &mut Ctx) {
    // more results than are kept
    let ns: Vec<usize> = ctx.by(vec![19, 20, 21, 24, 30], (15..=40).collect());
    ctx.family(
        "results",
        &format!("{} numbers of subqueries for exact phrases up to {}, each with 39 to 41 features, so that there are up to and beyond 800 contexts; weights falling, rising, equal or alternating; alone, below one subquery, or below two of different weights; in both orders", ns.len(), ns.last().unwrap()),
        (ns.len() * 3 * 4 * 3 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let feats = 39 + d.below(3) as u32;
            let how = d.below(4);
            let above = d.below(3) as usize;
            let rev = d.flag();
            let at = (20u16, 20u16);
            let a = one_phrase((0..2).map(|i| Ent::new(3, 2, 5, 5, i, 0)));
            let mut b = Content::new();
            for p in 0..n as u32 {
                b.insert(
                    (p, 1),
                    (0..feats).map(|i| Ent::new(3 - (i % 2) as u8, (i % 8) as u8, at.0 + (i % 3) as u16, at.1, i + p, 0)).collect(),
                );
            }
            let w = World::new(vec![(a, Conf::at(4)), (b, Conf { type_id: 1, ..Conf::at(6) })])?;
            let mut subs: Vec<Sub> = (0..above)
                .map(|i| Sub::new(0, i as u16, 1, [0.31, 0.12][i], vec![KeySpec::exact(i as u32, 1)]))
                .collect();
            for i in 0..n {
                let wt = match how {
                    0 => 0.6 - 0.011 * i as f64,
                    1 => 0.1 + 0.011 * i as f64,
                    2 => 0.4,
                    _ => [0.6, 0.3, 0.45][i % 3],
                };
                subs.push(Sub::new(1, 10 + i as u16, 2, wt, vec![KeySpec::exact(10 + i as u32, i as u32)]));
            }
            if rev {
                subs.reverse();
            }
            t.state(&(n, feats, how, above, rev));
            t.sample(|| format!("{} subqueries of {} features", n, feats));
            check_stacks(&w, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None }, t).map(|_| ())
        },
    );
    // just below and just above each limit
    let deltas: Vec<i64> = ctx.by(vec![-9, -8, -1, 0, 1, 5], (-10..=6).collect());
    ctx.family(
        "limits",
        &format!("keys of each kind that has a limit, with numbers of keys from the limit {} to {:+}; all on one subquery, ten on each, or one on each, alone or with an exact one stacked on them; other keys that do not count in front or none; nearby-only or not, proximity or not; both orders", deltas[0], deltas.last().unwrap()),
        (5 * deltas.len() * 3 * 2 * 2 * 2 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let class = d.below(5) as usize;
            let n = (LIMITS[class] as i64 + *d.pick(&deltas)).max(0) as u32;
            let per = *d.pick(&[1000usize, 10, 1]);
            let stacked = d.flag();
            let others = d.flag();
            let nearby = d.flag();
            let prox = d.flag();
            let rev = d.flag();
            if class == 4 && (per == 1 || nearby) {
                return Ok(());
            }
            let fine = class != 0 && class != 2;
            let z = if fine { 14 } else { 9 };
            let at = base_tile(z);
            let mut a = Content::new();
            for p in 0..n + 1 {
                a.insert((p, 1), [Ent::new(3, (p % 8) as u8, at.0, at.1 + (p % 2) as u16, p, 0)].into_iter().collect());
            }
            let b = one_phrase((0..2).map(|i| Ent::new(3, 2, at.0, at.1, 5000 + i, 0)));
            let w = World::new(vec![(a, Conf::at(z)), (b.clone(), Conf { type_id: 1, ..Conf::at(z) }), (b, Conf::at(5))])?;
            let mask = if class < 3 { 2 } else { 6 };
            let keys: Vec<KeySpec> = (0..n)
                .map(|i| KeySpec {
                    len: if class == 0 { 1 } else { 2 },
                    nearby,
                    // a range of two or more phrases of which one is there
                    ..if class == 4 { KeySpec::exact(100 + i, i) } else { KeySpec::range(100 + i, i, i + 2) }
                })
                .collect();
            let mut subs: Vec<Sub> = keys
                .chunks(per)
                .enumerate()
                .map(|(i, k)| Sub::new(0, i as u16, mask, 0.4, k.to_vec()))
                .collect();
            if stacked {
                subs.push(Sub::new(1, 120, 8, 0.3, vec![KeySpec::exact(1, 1)]));
            }
            if others {
                // exact, or of two words, on a coarse store
                subs.push(Sub::new(2, 121, 2, 0.6, vec![KeySpec::exact(2, 1), KeySpec { len: 1, ..KeySpec::exact(3, 1) }]));
                subs.push(Sub::new(2, 122, 10, 0.6, vec![KeySpec { len: 1, ..KeySpec::range(4, 1, 9) }]));
            }
            if rev {
                subs.reverse();
            }
            t.state(&(class, n, per, stacked, others, nearby, prox));
            let o = MatchOpts { zoom: z, bbox: None, proximity: if prox { Some([at.0, at.1]) } else { None } };
            check_stacks(&w, &subs, &o, t).map(|_| ())
        },
    );
    // keys that hardly count, and keys that do not
    let ns: Vec<u32> = ctx.by(vec![7, 9, 39, 41, 60], vec![1, 7, 8, 9, 10, 39, 40, 41, 42, 60, 100]);
    ctx.family(
        "uncounted",
        &format!("{:?} keys, exact or ranges of 1 to 3 phrases, of phrases of 0 to 3 or 300 letters, under masks of 0 to 3 or all bits, all on one subquery or one on each, on a coarse or fine store, alone or under an exact one, nearby-only or not", ns),
        (ns.len() * 4 * 5 * 5 * 2 * 2 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let width = d.below(4) as u32;
            let len = *d.pick(&[0usize, 1, 2, 3, 300]);
            let mask = *d.pick(&[0u32, 2, 6, 14, u32::MAX]);
            let each = d.flag();
            let fine = d.flag();
            let stacked = d.flag();
            let nearby = d.flag();
            let z = if fine { 14 } else { 9 };
            let at = base_tile(z);
            let a: Content = (0..n + 3)
                .map(|p| ((p, 1u128), [Ent::new(3, (p % 8) as u8, at.0, at.1 + (p % 2) as u16, p, 0)].into_iter().collect()))
                .collect();
            let b = one_phrase((0..2).map(|i| Ent::new(3, 2, at.0, at.1, 5000 + i, 0)));
            let w = World::new(vec![(a, Conf::at(z)), (b, Conf { type_id: 1, ..Conf::at(z) })])?;
            let keys: Vec<KeySpec> = (0..n)
                .map(|i| KeySpec { len, nearby, ..if width == 0 { KeySpec::exact(100 + i, i) } else { KeySpec::range(100 + i, i, i + width) } })
                .collect();
            let mut subs: Vec<Sub> = keys
                .chunks(if each { 1 } else { 1000 })
                .enumerate()
                .map(|(i, k)| Sub::new(0, i as u16, mask, 0.4, k.to_vec()))
                .collect();
            if stacked {
                subs.push(Sub::new(1, 120, 16, 0.3, vec![KeySpec::exact(1, 1)]));
            }
            t.state(&(n, width, len, mask, each, stacked, nearby));
            check_stacks(&w, &subs, &MatchOpts { zoom: z, bbox: None, proximity: if nearby { Some([at.0, at.1]) } else { None } }, t).map(|_| ())
        },
    );
    // more steps waiting than there are results
    let ns: Vec<u32> = ctx.by(vec![5, 60, 700, 810, 950], vec![1, 5, 9, 60, 390, 410, 700, 790, 799, 800, 801, 810, 850, 900, 950, 998]);
    ctx.family(
        "waiting",
        &format!("{:?} subqueries that go on one heavier or lighter one, none, the lightest, every seventh or all of them in the same place; of like, falling or rising weight; both orders", ns),
        (ns.len() * 2 * 4 * 3 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let heavy = d.flag();
            let meet = d.below(4);
            let slope = d.below(3);
            let rev = d.flag();
            let a = one_phrase([Ent::new(3, 2, 5, 5, 7000, 0)].into_iter());
            let b: Content = (0..n)
                .map(|p| {
                    let there = match meet {
                        0 => false,
                        1 => p + 1 == n,
                        2 => p % 7 == 3,
                        _ => true,
                    };
                    let at = if there { 5 } else { 40 };
                    ((p, 1u128), [Ent::new(3, (p % 8) as u8, at, at, p, 0)].into_iter().collect())
                })
                .collect();
            let w = World::new(vec![(a, Conf::at(6)), (b, Conf { type_id: 1, ..Conf::at(6) })])?;
            let mut subs = vec![Sub::new(0, 0, 1, if heavy { 0.5 } else { 0.1 }, vec![KeySpec::exact(9000, 1)])];
            for p in 0..n {
                let wt = match slope {
                    0 => 0.25,
                    1 => 0.25 - p as f64 / 8192.0,
                    _ => 0.125 + p as f64 / 8192.0,
                };
                // an index for each where the weights do not tell them apart
                subs.push(Sub::new(1, if slope == 0 { p as u16 + 1 } else { 1 }, 2, wt, vec![KeySpec::exact(p, p)]));
            }
            if rev {
                subs.reverse();
            }
            t.state(&(n, heavy, meet, slope));
            check_stacks(&w, &subs, &MatchOpts { zoom: 6, bbox: None, proximity: None }, t).map(|_| ())
        },
    );
    // more range keys than the quotas allow, with exact ones among them
    let ns: Vec<usize> = ctx.by(vec![0, 1, 7, 8, 9, 39, 40, 41, 50], (0..=60).collect());
    let exact = ctx.by(vec![1usize, 12], vec![1, 2, 5, 8, 9, 12, 20, 39, 40, 41, 50]);
    ctx.family(
        "quotas",
        &format!("{} numbers of subqueries for ranges up to {}, of one or two letters, on a coarse or fine store, with masks of one or two bits, heavier or lighter than the {:?} exact ones, of one or two letters, they may stack with; one key each or all on one subquery; both orders; with and without proximity", ns.len(), ns.last().unwrap(), exact),
        (ns.len() * exact.len() * 2 * 2 * 2 * 3 * 2 * 2 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let ne = *d.pick(&exact);
            let len = d.below(2) as usize + 1;
            let fine = d.flag();
            let bits2 = d.flag();
            let wt = *d.pick(&[0.6, 0.3, 0.1]);
            let together = d.flag();
            let rev = d.flag();
            let prox = d.flag();
            let elen = d.below(2) as usize + 1;
            let zb = if fine { 14 } else { 9 };
            let t0 = base_tile(5);
            let inner = place(5, t0, zb, 0);
            let mut a = Content::new();
            for p in 0..ne as u32 {
                a.insert((p, 1), [Ent::new(3, 2, t0.0, t0.1, p, 0), Ent::new(2, 7, t0.0, t0.1, 40 + p, 0)].into_iter().collect());
            }
            let mut b = Content::new();
            for p in 0..n as u32 + 2 {
                b.insert((p, 1), [Ent::new(3, (p % 8) as u8, inner.0, inner.1 + (p % 2) as u16, p, 0)].into_iter().collect());
            }
            let w = World::new(vec![(a, Conf::at(5)), (b, Conf { type_id: 1, ..Conf::at(zb) })])?;
            let mask = if bits2 { 6 } else { 2 };
            let key = |i: u32| KeySpec { len, ..KeySpec::range(100 + i, i, i + 2) };
            let mut subs: Vec<Sub> = (0..ne)
                .map(|i| {
                    let k = KeySpec { len: elen, ..KeySpec::exact(i as u32, i as u32) };
                    Sub::new(0, i as u16, 1, 0.4 - 0.005 * i as f64, vec![k])
                })
                .collect();
            if together && n > 0 {
                subs.push(Sub::new(1, 100, mask, wt, (0..n as u32).map(key).collect()));
            } else {
                for i in 0..n as u32 {
                    subs.push(Sub::new(1, 60 + i as u16, mask, wt + 0.001 * i as f64, vec![key(i)]));
                }
            }
            if rev {
                subs.reverse();
            }
            t.state(&(n, ne, len, fine, bits2, together));
            let o = MatchOpts { zoom: zb, bbox: None, proximity: if prox { Some([inner.0, inner.1]) } else { None } };
            check_stacks(&w, &subs, &o, t).map(|_| ())
        },
    );
}
