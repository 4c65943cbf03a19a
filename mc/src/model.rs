//! The reference model of a store: plain sets of entries, and the queries as set comprehensions.
//! Nothing here uses code of the implementation apart from its public data types.
use carmen_core::gridstore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

pub const RELEVS: [f64; 4] = [0.4, 0.6, 0.8, 1.0];

/// Interleaves x into the even and y into the odd bits.
pub fn morton(x: u16, y: u16) -> u32 {
    let mut m = 0u32;
    for b in 0..16 {
        m |= (((x >> b) & 1) as u32) << (2 * b);
        m |= (((y >> b) & 1) as u32) << (2 * b + 1);
    }
    m
}

pub fn unmorton(m: u32) -> (u16, u16) {
    let (mut x, mut y) = (0u16, 0u16);
    for b in 0..16 {
        x |= (((m >> (2 * b)) & 1) as u16) << b;
        y |= (((m >> (2 * b + 1)) & 1) as u16) << b;
    }
    (x, y)
}

/// One entry; the order of the fields is the order in which a store returns entries, reversed.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Ent {
    pub rq: u8,
    pub score: u8,
    pub z: u32,
    pub id: u32,
    pub hash: u8,
}

impl Ent {
    pub fn new(rq: u8, score: u8, x: u16, y: u16, id: u32, hash: u8) -> Ent {
        Ent { rq, score, z: morton(x, y), id, hash }
    }
    pub fn xy(&self) -> (u16, u16) {
        unmorton(self.z)
    }
    pub fn relev(&self) -> f64 {
        RELEVS[self.rq as usize]
    }
    pub fn grid(&self) -> GridEntry {
        let (x, y) = self.xy();
        GridEntry {
            relev: self.relev(),
            score: self.score,
            x,
            y,
            id: self.id,
            source_phrase_hash: self.hash,
        }
    }
    /// what a store keeps of an entry: 24 bits of id, 4 bits of score
    pub fn kept(&self) -> Ent {
        Ent { score: self.score & 15, id: self.id & 0xFF_FFFF, ..*self }
    }
}

pub fn ent_of(g: &GridEntry) -> Result<Ent, String> {
    let rq = RELEVS
        .iter()
        .position(|r| *r == g.relev)
        .ok_or_else(|| format!("relevance {} is none of the four levels", g.relev))?;
    Ok(Ent::new(rq as u8, g.score, g.x, g.y, g.id, g.source_phrase_hash))
}

pub type Key = (u32, u128);
pub type Content = BTreeMap<Key, BTreeSet<Ent>>;

pub fn gk(k: Key) -> GridKey {
    GridKey { phrase_id: k.0, lang_set: k.1 }
}

/// A path in the stand-in storage engine; its content goes away with this value.
pub struct Scratch(pub PathBuf);

static SERIAL: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new() -> Scratch {
        Scratch(PathBuf::from(format!(
            "/verif-memory-only/{}",
            SERIAL.fetch_add(1, Ordering::Relaxed)
        )))
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        rocksdb::sim::remove(&self.0);
    }
}

pub fn es<T: std::fmt::Display>(what: &str) -> impl FnOnce(T) -> String + '_ {
    move |e| format!("{}: {}", what, e)
}

pub fn builder(at: &Path) -> Result<GridStoreBuilder, String> {
    GridStoreBuilder::new(at).map_err(es("GridStoreBuilder::new"))
}

pub fn put_content(b: &mut GridStoreBuilder, c: &Content) -> Result<(), String> {
    for (k, v) in c {
        b.insert(&gk(*k), v.iter().map(|e| e.grid()).collect()).map_err(es("insert"))?;
    }
    Ok(())
}

/// Builds a store with this content.
pub fn build(c: &Content, bins: &[u32]) -> Result<Scratch, String> {
    let s = Scratch::new();
    let mut b = builder(s.path())?;
    put_content(&mut b, c)?;
    if !bins.is_empty() {
        b.load_bin_boundaries(bins.to_vec()).map_err(es("load_bin_boundaries"))?;
    }
    b.finish().map_err(es("finish"))?;
    Ok(s)
}

#[derive(Clone, Debug)]
pub struct Conf {
    pub zoom: u16,
    pub type_id: u16,
    pub radius: f64,
    pub bboxes: Vec<[u16; 4]>,
    pub max_score: f64,
}

impl Conf {
    pub fn at(zoom: u16) -> Conf {
        Conf { zoom, type_id: 0, radius: 40.0, bboxes: vec![world(zoom)], max_score: 7.0 }
    }
}

pub fn world(zoom: u16) -> [u16; 4] {
    let m = ((1u32 << zoom) - 1) as u16;
    [0, 0, m, m]
}

pub fn open(s: &Scratch, c: &Conf) -> Result<GridStore, String> {
    GridStore::new_with_options(
        s.path(),
        c.zoom,
        c.type_id,
        c.radius,
        c.bboxes.clone(),
        c.max_score,
    )
    .map_err(es("GridStore::new_with_options"))
}

/// Everything a store holds, read through `keys`, `iter` and `get`; an error if they disagree.
pub fn read_all(g: &GridStore) -> Result<BTreeMap<Key, Vec<GridEntry>>, String> {
    let mut out = BTreeMap::new();
    let keys: Vec<GridKey> =
        g.keys().collect::<Result<_, _>>().map_err(es("keys"))?;
    let pairs: Vec<(GridKey, Vec<GridEntry>)> =
        g.iter().collect::<Result<_, _>>().map_err(es("iter"))?;
    let listed: Vec<&GridKey> = pairs.iter().map(|p| &p.0).collect();
    if listed != keys.iter().collect::<Vec<_>>() {
        return Err(format!("keys() lists {:?}, iter() lists {:?}", keys, listed));
    }
    for (k, v) in pairs {
        let got: Vec<GridEntry> = match g.get(&k).map_err(es("get"))? {
            Some(it) => it.collect(),
            None => return Err(format!("iter() lists {:?}, get() does not find it", k)),
        };
        if got != v {
            return Err(format!("{:?}: iter() gives {:?}, get() gives {:?}", k, v, got));
        }
        if out.insert((k.phrase_id, k.lang_set), v).is_some() {
            return Err(format!("{:?} is listed twice", k));
        }
    }
    Ok(out)
}

/// The store holds exactly this content, in the promised order.
pub fn check_content(g: &GridStore, want: &Content) -> Result<(), String> {
    let got = read_all(g)?;
    let gk: Vec<&Key> = got.keys().collect();
    let wk: Vec<&Key> = want.keys().collect();
    if gk != wk {
        return Err(format!("keys {:?}, expected {:?}", gk, wk));
    }
    for (k, v) in &got {
        check_list(v, &want[k]).map_err(|e| format!("key {:?}: {}", k, e))?;
    }
    Ok(())
}

pub fn check_list(got: &[GridEntry], want: &BTreeSet<Ent>) -> Result<(), String> {
    let got: Vec<Ent> = got.iter().map(ent_of).collect::<Result<_, _>>()?;
    let want: Vec<Ent> = want.iter().rev().cloned().collect();
    if got != want {
        let at = got.iter().zip(want.iter()).position(|(a, b)| a != b);
        return Err(format!(
            "{} entries, expected {}; first difference at {:?}: got {:?}, expected {:?}",
            got.len(),
            want.len(),
            at,
            at.map(|i| got[i]).or_else(|| got.get(want.len()).cloned()),
            at.map(|i| want[i]).or_else(|| want.get(got.len()).cloned())
        ));
    }
    Ok(())
}

// ---- queries

/// radius in tiles: 32 tiles per 40 miles at zoom 14, a factor of 1.5 per level
pub fn radius_tiles(zoom: u16, miles: f64) -> f64 {
    miles * 0.8 * 1.5f64.powi(zoom as i32 - 14)
}

pub fn scoredist(zoom: u16, distance: f64, score: u8, miles: f64) -> f64 {
    let d = if distance < 1.0 { 0.8 } else { distance };
    let ratio = (d / radius_tiles(zoom.max(6), miles)).min(1.0);
    let s = score.min(7) as f64;
    (6.0 * (s - 7.0).exp() + 1.0) / ratio
}

pub fn tile_dist(a: (u16, u16), b: (u16, u16)) -> f64 {
    let dx = a.0 as f64 - b.0 as f64;
    let dy = a.1 as f64 - b.1 as f64;
    (dx * dx + dy * dy).sqrt()
}

/// One expected match.
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub key: Key,
    pub ent: Ent,
    pub lang: bool,
    pub relev: f64,
    pub distance: f64,
    pub scoredist: f64,
}

pub fn lang_matches(query: u128, key: u128) -> bool {
    key == u128::MAX || query & key != 0
}

pub fn phrase_in(p: &MatchPhrase, id: u32) -> bool {
    match p {
        MatchPhrase::Exact(e) => *e == id,
        MatchPhrase::Range { start, end } => *start <= id && id < *end,
    }
}

pub fn in_box(b: &[u16; 4], xy: (u16, u16)) -> bool {
    b[0] <= xy.0 && xy.0 <= b[2] && b[1] <= xy.1 && xy.1 <= b[3]
}

pub fn one_match(key: Key, e: &Ent, q: &MatchKey, o: &MatchOpts, miles: f64) -> Option<M> {
    if !phrase_in(&q.match_phrase, key.0) {
        return None;
    }
    let xy = e.xy();
    if let Some(b) = &o.bbox {
        if !in_box(b, xy) {
            return None;
        }
    }
    let lang = lang_matches(q.lang_set, key.1);
    let (distance, within, sd) = match o.proximity {
        Some(p) => {
            let d = tile_dist((p[0], p[1]), xy);
            (d, d <= radius_tiles(o.zoom, miles), scoredist(o.zoom, d, e.score, miles))
        }
        None => (0.0, false, e.score as f64),
    };
    let relev = e.relev() * if lang || within { 1.0 } else { 0.96 };
    Some(M { key, ent: *e, lang, relev, distance, scoredist: sd })
}

pub fn matches(c: &Content, q: &MatchKey, o: &MatchOpts, miles: f64) -> Vec<M> {
    let mut out = Vec::new();
    for (k, v) in c {
        for e in v {
            out.extend(one_match(*k, e, q, o, miles));
        }
    }
    out
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

/// (x, y, id, hash, score, language) then relevance: what identifies a match
pub type Disc = (u16, u16, u32, u8, u8, bool, i64);

pub fn round6(x: f64) -> i64 {
    (x * 1e6).round() as i64
}

pub fn disc_m(m: &M) -> Disc {
    let (x, y) = m.ent.xy();
    (x, y, m.ent.id, m.ent.hash, m.ent.score, m.lang, round6(m.relev))
}

pub fn disc_e(m: &MatchEntry) -> Disc {
    let g = &m.grid_entry;
    (g.x, g.y, g.id, g.source_phrase_hash, g.score, m.matches_language, round6(g.relev))
}

/// The matches are exactly these, in any order; `as_sets` ignores repetitions.
pub fn same_matches(got: &[MatchEntry], want: &[M], as_sets: bool) -> Result<(), String> {
    let mut g: Vec<(Disc, f64, f64, f64)> = got
        .iter()
        .map(|m| (disc_e(m), m.grid_entry.relev, m.distance, m.scoredist))
        .collect();
    let mut w: Vec<(Disc, f64, f64, f64)> =
        want.iter().map(|m| (disc_m(m), m.relev, m.distance, m.scoredist)).collect();
    g.sort_by(|a, b| a.partial_cmp(b).unwrap());
    w.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if as_sets {
        g.dedup_by_key(|x| x.0);
        w.dedup_by_key(|x| x.0);
    }
    for i in 0..g.len().max(w.len()) {
        match (g.get(i), w.get(i)) {
            (Some(a), Some(b)) => {
                if a.0 != b.0 {
                    return Err(if a.0 < b.0 {
                        format!("unexpected match {:?}", a)
                    } else {
                        format!("missing match {:?}", b)
                    });
                }
                if !close(a.1, b.1) || !close(a.2, b.2) || !close(a.3, b.3) {
                    return Err(format!(
                        "match {:?}: (relev, distance, scoredist) = {:?}, expected {:?}",
                        a.0,
                        (a.1, a.2, a.3),
                        (b.1, b.2, b.3)
                    ));
                }
            }
            (Some(a), None) => return Err(format!("unexpected match {:?}", a)),
            (None, Some(b)) => return Err(format!("missing match {:?}", b)),
            (None, None) => unreachable!(),
        }
    }
    Ok(())
}

pub fn query(
    g: &GridStore,
    q: &MatchKey,
    o: &MatchOpts,
    max: usize,
) -> Result<Vec<MatchEntry>, String> {
    Ok(g.streaming_get_matching(q, o, max).map_err(es("streaming_get_matching"))?.collect())
}

/// Exact where the implementation multiplies the same two numbers, but only that is promised.
pub fn geq(a: f64, b: f64) -> bool {
    a >= b || close(a, b)
}

// ---- query options at other zooms

/// the tile (or the range of tiles) of another zoom, on wide integers
pub fn scale(v: u16, from: u16, to: u16) -> (u64, u64) {
    let v = v as u64;
    if to <= from {
        (v >> (from - to), v >> (from - to))
    } else {
        let d = to - from;
        (v << d, (v << d) + (1 << d) - 1)
    }
}

/// the options of a query at another zoom
pub fn adjusted(o: &MatchOpts, to: u16) -> MatchOpts {
    let mid = |v: u16| {
        let (lo, hi) = scale(v, o.zoom, to);
        (lo + (hi - lo) / 2) as u16
    };
    MatchOpts {
        zoom: to,
        proximity: o.proximity.map(|p| [mid(p[0]), mid(p[1])]),
        bbox: o.bbox.map(|b| {
            [
                scale(b[0], o.zoom, to).0 as u16,
                scale(b[1], o.zoom, to).0 as u16,
                scale(b[2], o.zoom, to).1 as u16,
                scale(b[3], o.zoom, to).1 as u16,
            ]
        }),
    }
}

/// 25 miles in tiles, rounded up
pub fn nearby_pad(zoom: u16) -> i64 {
    ((25i64 << zoom) + 24900) / 24901
}
