//! C08 selection by phrase and language, C09 boxes, C10 proximity, C11 order and bounds,
//! C14 iterators that outlive their store.
use crate::store::lang_pool;
use carmen_core::gridstore::*;
use mc::ctx::*;
use mc::model::*;
use std::collections::BTreeSet;

fn plain(zoom: u16) -> MatchOpts {
    MatchOpts { zoom, bbox: None, proximity: None }
}

pub fn c08(ctx: &mut Ctx) {
    let phrases = [0u32, 1, 2, 255, 256, 65535, 65536, 0x0100_0000, u32::MAX - 1, u32::MAX];
    let langs = [u128::MAX, 0u128, 1, 2, 3, 1 << 127, 256, u128::MAX - 1];
    let mut keys: Vec<Key> = Vec::new();
    for p in phrases {
        for l in langs {
            keys.push((p, l));
        }
    }
    // each key holds entries of several relevances and scores; one is in all keys
    let value = |i: usize| -> BTreeSet<Ent> {
        [
            Ent::new(3, 3, 1, 1, 1, 0),
            Ent::new((i % 4) as u8, (i % 16) as u8, 2, i as u16, i as u32 + 2, i as u8),
            Ent::new((i % 3) as u8, 15, 3, 3, i as u32 + 2, 0),
        ]
        .into_iter()
        .collect()
    };
    let sets = subsets(keys.len(), 1, 2);
    let mut phrase_queries: Vec<MatchPhrase> = Vec::new();
    for p in phrases.iter().chain([3u32, 254, 257].iter()) {
        phrase_queries.push(MatchPhrase::Exact(*p));
        for e in phrases.iter().chain([3u32, 257].iter()) {
            phrase_queries.push(MatchPhrase::Range { start: *p, end: *e });
        }
    }
    let qlangs = [0u128, 1, 2, 4, 1 << 127, 256, u128::MAX];
    ctx.family(
        "keys",
        "every store of 1 or 2 keys out of 10 phrases x 8 language sets; every exact phrase and every range between edges, 7 query languages; also the quota of streams at its edge",
        sets.len() as u64,
        |case, t| {
            let chosen = &sets[case as usize];
            let c: Content = chosen.iter().map(|i| (keys[*i], value(*i))).collect();
            t.state(&c);
            t.sample(|| format!("{:?}", c.keys().collect::<Vec<_>>()));
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(6))?;
            for p in &phrase_queries {
                for l in qlangs {
                    let q = MatchKey { match_phrase: p.clone(), lang_set: l };
                    let got = query(&g, &q, &plain(6), c.len())?;
                    t.trace(1);
                    same_matches(&got, &matches(&c, &q, &plain(6), 40.0), false)
                        .map_err(|e| format!("{:?} in {:?}: {}", q, c.keys(), e))?;
                }
            }
            Ok(())
        },
    );
    let lp = lang_pool();
    ctx.family(
        "languages",
        "every pair of a stored and a queried language set out of single bits, edges and runs; 4 relevances",
        (lp.len() as u64 + 128) * 131,
        |case, t| {
            let mut d = Digits::new(case);
            let stored = {
                let i = d.below(lp.len() as u64 + 128) as usize;
                if i < lp.len() {
                    lp[i]
                } else {
                    1u128 << (i - lp.len())
                }
            };
            let asked = match d.below(131) {
                128 => 0,
                129 => u128::MAX,
                130 => !stored,
                b => 1u128 << b,
            };
            let mut c = Content::new();
            c.insert((9, stored), (0..4u8).map(|r| Ent::new(r, r, 4, 4, r as u32, r)).collect());
            t.state(&(stored, asked));
            t.trace(2);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(6))?;
            for p in [MatchPhrase::Exact(9), MatchPhrase::Range { start: 9, end: 10 }] {
                let q = MatchKey { match_phrase: p, lang_set: asked };
                same_matches(&query(&g, &q, &plain(6), 1)?, &matches(&c, &q, &plain(6), 40.0), false)
                    .map_err(|e| format!("stored {:x}, asked {:x}: {}", stored, asked, e))?;
            }
            Ok(())
        },
    );
    // many keys in a range
    let bits = ctx.by(13, 16);
    ctx.family(
        "many-keys",
        &format!("every subset of {} keys of neighbouring phrases and mixed languages; all ranges among them", bits),
        1 << bits,
        |case, t| {
            let mut c = Content::new();
            for i in 0..bits {
                if case >> i & 1 == 1 {
                    c.insert((254 + i as u32 / 2, [1u128, u128::MAX][i % 2]), value(i));
                }
            }
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(6))?;
            for a in 253..=(255 + bits as u32 / 2) {
                for b in a..=(256 + bits as u32 / 2) {
                    let q = MatchKey { match_phrase: MatchPhrase::Range { start: a, end: b }, lang_set: 2 };
                    let got = query(&g, &q, &plain(6), c.len().max(1))?;
                    t.trace(1);
                    same_matches(&got, &matches(&c, &q, &plain(6), 40.0), false).map_err(|e| format!("{:?}: {}", q, e))?;
                }
            }
            Ok(())
        },
    );
    c08_large(ctx);
}

/// Queries over stores of every size around which an implementation might change its ways.
fn c08_large(ctx: &mut Ctx) {
    let counts: Vec<u32> = ctx.by(
        vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025, 2049, 4097],
        (1..=140).chain(250..=260).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10_000, 16_385, 65_537]).collect(),
    );
    ctx.family(
        "large",
        &format!("stores of {} numbers of keys up to {}, phrases in steps of 1 or 300 from 0 or (up to 600 keys) just below the end of a byte of the key, one to four languages each (one or three beyond 600), 1 to 3 entries, with and without bins; ranges and exact phrases at the ends, the middle and around; 4 query languages; with and without box and proximity", counts.len(), counts.last().unwrap()),
        counts.len() as u64 * 2 * 3 * 4 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let step = *d.pick(&[1u32, 300]);
            let from = *d.pick(&[0u32, 65_530, 0x00FF_FF00]);
            let langs = d.below(4) as u32 + 1;
            let bins = d.below(3);
            // the largest in one place only
            if n > 600 && (from != 0 || langs % 2 == 0) {
                return Ok(());
            }
            let mut c = Content::new();
            for i in 0..n {
                let l = [1u128, u128::MAX, 2 | 1 << 100, 0][(i % langs) as usize];
                let p = from + (i / langs) * step;
                let v = c.entry((p, l)).or_default();
                for j in 0..i % 3 + 1 {
                    v.insert(Ent::new(((i + j) % 4) as u8, (i % 16) as u8, ((i + j) % 64) as u16, (i / 64 % 64) as u16, i * 4 + j, (i % 256) as u8));
                }
            }
            t.state(&(n, step, from, langs));
            let last = c.keys().last().unwrap().0;
            let b: Vec<u32> = match bins {
                0 => vec![],
                1 => (0..=8u64).map(|i| from + ((last + 1 - from) as u64 * i / 8) as u32).collect(),
                _ => (from..=last + step).step_by((7 * step) as usize).collect(),
            };
            let mut b = b;
            b.dedup();
            let s = build(&c, &b)?;
            let g = open(&s, &Conf::at(6))?;
            let mid = from + (last - from) / step / 2 * step;
            let mut ranges = vec![(0, u32::MAX), (from, last + 1), (from, last), (from + 1, last + 1), (mid, last + 1), (from, mid), (mid, mid + 1), (last, last + 1), (mid, mid + 17 * step), (last + 1, last + 2)];
            if b.len() > 2 {
                ranges.extend([(b[0], b[1]), (b[1], b[b.len() - 1]), (b[b.len() / 2], b[b.len() - 2].max(b[b.len() / 2] + 1))]);
            }
            let queries: Vec<MatchPhrase> = ranges
                .into_iter()
                .map(|(start, end)| MatchPhrase::Range { start, end })
                .chain([from, mid, last, last + 1].iter().map(|p| MatchPhrase::Exact(*p)))
                .collect();
            let opts = [plain(6), MatchOpts { zoom: 6, bbox: Some([3, 0, 40, 30]), proximity: None }, MatchOpts { zoom: 6, bbox: None, proximity: Some([20, 20]) }];
            for (i, p) in queries.iter().enumerate() {
                let langs: &[u128] = if n > 600 { &[1, 2] } else { &[1, 2, 1 << 100, 0] };
                for (j, l) in langs.iter().enumerate() {
                    let o = &opts[(i + j + case as usize) % 3];
                    let q = MatchKey { match_phrase: p.clone(), lang_set: *l };
                    let got = query(&g, &q, o, n as usize)?;
                    t.trace(1);
                    // where bins answer, keys of one bin may share entries
                    same_matches(&got, &matches(&c, &q, o, 40.0), bins > 0)
                        .map_err(|e| format!("{} keys: {:?} {:?}: {:.400}", n, q, o, e))?;
                }
            }
            Ok(())
        },
    );
}

/// all boxes within side x side, including those with their corners swapped
fn boxes(side: u16, inverted: bool) -> Vec<[u16; 4]> {
    let mut out = Vec::new();
    for x0 in 0..side {
        for y0 in 0..side {
            for x1 in 0..side {
                for y1 in 0..side {
                    if inverted || (x0 <= x1 && y0 <= y1) {
                        out.push([x0, y0, x1, y1]);
                    }
                }
            }
        }
    }
    out
}

fn shift(b: &[u16; 4], at: (u16, u16)) -> [u16; 4] {
    [b[0] + at.0, b[1] + at.1, b[2] + at.0, b[3] + at.1]
}

pub fn c09(ctx: &mut Ctx) {
    let side = 4u16;
    let places = [(0u16, 0u16), (2, 1), (30, 30), (127, 254), (32766, 32766), (65532, 65532), (65532, 0)];
    let bxs = boxes(side, false);
    let sets = subsets(16, 0, ctx.by(5, 6));
    ctx.family(
        "small",
        &format!("every set of up to {} coordinates out of 4x4 at 7 places of the plane, and every box within the 4x4", ctx.by(5, 6)),
        sets.len() as u64 * places.len() as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let at = *d.pick(&places);
            let set = d.pick(&sets);
            let mut c = Content::new();
            c.insert(
                (1, 1),
                set.iter().map(|i| Ent::new(3, 5, at.0 + (*i % 4) as u16, at.1 + (*i / 4) as u16, *i as u32, 0)).collect(),
            );
            t.state(&(at, set));
            t.sample(|| format!("{:?} at {:?}", set, at));
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
            for b in &bxs {
                let o = MatchOpts { zoom: 16, bbox: Some(shift(b, at)), proximity: None };
                t.trace(1);
                same_matches(&query(&g, &q, &o, 1)?, &matches(&c, &q, &o, 40.0), false)
                    .map_err(|e| format!("{:?} of {:?}: {}", o.bbox, c, e))?;
            }
            Ok(())
        },
    );
    // dense: all coordinates of a square, with holes by pattern, in several score and relevance groups
    let side = 8u16;
    let bxs = boxes(side, false);
    let patterns: Vec<u64> = vec![
        u64::MAX,
        0x5555_5555_5555_5555,
        0xAAAA_AAAA_AAAA_AAAA,
        0x0F0F_0F0F_F0F0_F0F0,
        0x8100_0000_0000_0081,
        0x0000_0018_1800_0000,
        0xFF81_8181_8181_81FF,
        0x0102_0408_1020_4080,
        0x0000_0000_FFFF_FFFF,
    ];
    ctx.family(
        "dense",
        "squares of 8x8 with 9 patterns of holes at 7 places, spread over 1 to 4 score groups and 1 to 3 keys; every box within the square; proximity on or off",
        (patterns.len() * places.len() * 4 * 3 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let pat = *d.pick(&patterns);
            let at = *d.pick(&places);
            let at = (at.0.min(65528), at.1.min(65528));
            let groups = d.below(4) as u32 + 1;
            let nkeys = d.below(3) as u32 + 1;
            let prox = d.flag();
            let mut c = Content::new();
            for i in 0..64u32 {
                if pat >> i & 1 == 1 {
                    let e = Ent::new(
                        3 - (i % groups % 2) as u8,
                        (i % groups) as u8,
                        at.0 + i as u16 % 8,
                        at.1 + i as u16 / 8,
                        i,
                        0,
                    );
                    c.entry((i % nkeys, 1)).or_default().insert(e);
                }
            }
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 9 }, lang_set: 1 };
            for b in &bxs {
                let o = MatchOpts {
                    zoom: 16,
                    bbox: Some(shift(b, at)),
                    proximity: if prox { Some([at.0 + 3, at.1 + 5]) } else { None },
                };
                t.trace(1);
                same_matches(&query(&g, &q, &o, 9)?, &matches(&c, &q, &o, 40.0), false)
                    .map_err(|e| format!("{:?}: {}", o.bbox, e))?;
            }
            Ok(())
        },
    );
    // records of many coordinates all over the plane, and boxes of every size
    let counts: Vec<u32> = ctx.by(vec![1, 2, 3, 17, 64, 100, 257, 1000, 1025, 2500], vec![1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 100, 255, 256, 257, 1000, 4097, 20_000]);
    let spreads = [1u32, 3, 257, 65_537, 0x9E37_79B1];
    ctx.family(
        "wide",
        &format!("{} numbers of coordinates up to {} in steps of {:?} along the curve, over 1, 3 or 12 levels of score and relevance, one or five ids each; 240 boxes of 1 to 65536 tiles to a side, around coordinates that are there; with and without proximity", counts.len(), counts.last().unwrap(), spreads),
        (counts.len() * spreads.len()) as u64 * 3 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let spread = *d.pick(&spreads);
            let levels = *d.pick(&[1u32, 3, 12]);
            let ids = *d.pick(&[1u32, 5]);
            let prox = d.flag();
            let mut v = BTreeSet::new();
            for i in 0..n {
                let (x, y) = unmorton(i.wrapping_mul(spread));
                for j in 0..ids {
                    v.insert(Ent::new(3 - (i % levels % 4) as u8, (i % levels) as u8, x, y, i * 8 + j, j as u8));
                }
            }
            let all: Vec<Ent> = v.iter().cloned().collect();
            let mut c = Content::new();
            c.insert((1, 1), v);
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
            for k in 0..240usize {
                let (x, y) = all[k * 7919 % all.len()].xy();
                let (w, h) = ([0u32, 1, 2, 3, 9, 100, 4000, 65_535][k % 8], [0u32, 1, 4, 30, 65_535][k % 5]);
                let (ox, oy) = ([0u32, 1, w / 2, w, w + 1][k % 5 * 2 % 5], [0u32, h, h / 2, h + 1][k % 4]);
                let lo = |v: u16, o: u32| (v as u32).saturating_sub(o) as u16;
                let (x0, y0) = (lo(x, ox), lo(y, oy));
                let b = [x0, y0, (x0 as u32 + w).min(65_535) as u16, (y0 as u32 + h).min(65_535) as u16];
                let o = MatchOpts { zoom: 16, bbox: Some(b), proximity: if prox { Some([x, lo(y, k as u32)]) } else { None } };
                t.trace(1);
                same_matches(&query(&g, &q, &o, 1)?, &matches(&c, &q, &o, 40.0), false)
                    .map_err(|e| format!("{} coordinates in steps of {}: {:?}: {}", n, spread, o, e))?;
            }
            Ok(())
        },
    );
    // more coordinates, groups and ids than any number of bits, blocks or bytes would hold
    let counts: Vec<u32> = ctx.by(vec![4095, 4097, 10_001, 32_769, 65_537], vec![4095, 4096, 4097, 8193, 10_001, 16_385, 32_767, 32_769, 65_535, 65_536, 65_537, 100_001, 131_073, 262_145]);
    ctx.family(
        "vast",
        &format!("{:?} coordinates in steps of 1, 3 or 257 along the curve, in one group or over all 64 pairs of relevance and score; now and then 300 ids on one; with and without proximity; 20 boxes of 1 to 65536 tiles to a side", counts),
        (counts.len() * 3 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let spread = *d.pick(&[1u32, 3, 257]);
            let levels = *d.pick(&[1u32, 64]);
            let prox = d.flag();
            let mut v = BTreeSet::new();
            for i in 0..n {
                let (x, y) = unmorton(i * spread);
                let l = i.wrapping_mul(2_654_435_761) >> 16;
                for j in 0..if i % 5000 == 77 { 300 } else { 1 } {
                    v.insert(Ent::new(3 - (l % levels % 4) as u8, (l % levels / 4) as u8, x, y, i % 65_536 * 16 + j % 16 + j / 16 * 800_000, 0));
                }
            }
            let all: Vec<Ent> = v.iter().cloned().collect();
            let mut c = Content::new();
            c.insert((1, 1), v);
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
            for k in 0..20usize {
                let (x, y) = all[k * 7919 % all.len()].xy();
                let (w, h) = ([0u32, 1, 9, 100, 4000, 65_535][k % 6], [0u32, 30, 65_535, 200][k % 4]);
                let (ox, oy) = ([0u32, 1, w / 2][k % 3], [0u32, h, h / 2, h + 1][k / 2 % 4]);
                let lo = |v: u16, o: u32| (v as u32).saturating_sub(o) as u16;
                let (x0, y0) = (lo(x, ox), lo(y, oy));
                let b = [x0, y0, (x0 as u32 + w).min(65_535) as u16, (y0 as u32 + h).min(65_535) as u16];
                let o = MatchOpts { zoom: 16, bbox: Some(b), proximity: if prox { Some([x, lo(y, k as u32)]) } else { None } };
                t.trace(1);
                same_matches(&query(&g, &q, &o, 1)?, &matches(&c, &q, &o, 40.0), false)
                    .map_err(|e| format!("{} coordinates in steps of {}: {:?}: {:.600}", n, spread, o, e))?;
            }
            Ok(())
        },
    );
    // corners swapped: such a box contains nothing
    let bxs = boxes(4, true);
    ctx.family(
        "inverted",
        "every pair of corners within 4x4, in any order, all coordinates present, with and without proximity",
        bxs.len() as u64 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let prox = d.flag();
            let b = *d.pick(&bxs);
            let mut c = Content::new();
            c.insert((1, 1), (0..16).map(|i| Ent::new(3, 5, i % 4, i / 4, i as u32, 0)).collect());
            t.state(&b);
            t.trace(1);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
            let o = MatchOpts { zoom: 16, bbox: Some(b), proximity: if prox { Some([1, 2]) } else { None } };
            same_matches(&query(&g, &q, &o, 1)?, &matches(&c, &q, &o, 40.0), false)
        },
    );
    // the whole plane and its edges
    let edges = [0u16, 1, 255, 256, 32767, 32768, 65534, 65535];
    let n = edges.len() as u64;
    ctx.family(
        "edges",
        "coordinates at every pair of 8 edge values, boxes with corners at every pair of edge values",
        n * n * n * n,
        |case, t| {
            let mut d = Digits::new(case);
            let mut b = [0u16; 4];
            for v in &mut b {
                *v = *d.pick(&edges);
            }
            if b[0] > b[2] || b[1] > b[3] {
                return Ok(());
            }
            let mut c = Content::new();
            for (i, x) in edges.iter().enumerate() {
                for (j, y) in edges.iter().enumerate() {
                    c.entry((1, 1)).or_default().insert(Ent::new(3, 2, *x, *y, (i * 8 + j) as u32, 0));
                }
            }
            t.state(&b);
            t.trace(1);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
            let o = MatchOpts { zoom: 16, bbox: Some(b), proximity: None };
            same_matches(&query(&g, &q, &o, 1)?, &matches(&c, &q, &o, 40.0), false)
        },
    );
}

/// the coordinates of entries of one relevance and score come nearest first along the z-order curve
fn z_order(got: &[MatchEntry], p: [u16; 2]) -> Result<(), String> {
    let pz = morton(p[0], p[1]) as i64;
    let mut last: Option<i64> = None;
    for m in got {
        let d = (morton(m.grid_entry.x, m.grid_entry.y) as i64 - pz).abs();
        if let Some(l) = last {
            if d < l {
                return Err(format!(
                    "({}, {}) comes after entries that are further from {:?} on the z-order curve",
                    m.grid_entry.x, m.grid_entry.y, p
                ));
            }
        }
        last = Some(d);
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    let places = [(0u16, 0u16), (30, 31), (126, 62), (32766, 32766), (65532, 65532)];
    let sets = subsets(16, 0, ctx.by(4, 5));
    // radii that put the rim of the circle between tiles, on a tile (zoom 14: 0.8 tiles per mile)
    let confs: Vec<(u16, f64)> =
        vec![(14, 1.25), (14, 2.5), (14, 3.75), (14, 400.0), (16, 1.5), (6, 40.0), (6, 100.0), (4, 100.0), (15, 2.0)];
    ctx.family(
        "small",
        &format!("every set of up to {} coordinates out of 4x4 at 5 places; every proximity point in 4x4; 9 zooms and radii; matching and other language", ctx.by(4, 5)),
        sets.len() as u64 * places.len() as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let at = *d.pick(&places);
            let set = d.pick(&sets);
            let mut c = Content::new();
            c.insert(
                (1, 1),
                set.iter().map(|i| Ent::new(3, 5, at.0 + (*i % 4) as u16, at.1 + (*i / 4) as u16, *i as u32, 0)).collect(),
            );
            t.state(&(at, set));
            t.sample(|| format!("{:?} at {:?}", set, at));
            let s = build(&c, &[])?;
            for (zoom, radius) in &confs {
                let g = open(&s, &Conf { radius: *radius, ..Conf::at(*zoom) })?;
                for p in 0..16u16 {
                    let prox = [at.0 + p % 4, at.1 + p / 4];
                    for l in [1, 2] {
                        let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: l };
                        let o = MatchOpts { zoom: *zoom, bbox: None, proximity: Some(prox) };
                        let got = query(&g, &q, &o, 1)?;
                        t.trace(1);
                        same_matches(&got, &matches(&c, &q, &o, *radius), false)
                            .and_then(|_| z_order(&got, prox))
                            .map_err(|e| format!("zoom {} radius {} point {:?} in {:?}: {}", zoom, radius, prox, c, e))?;
                    }
                }
            }
            Ok(())
        },
    );
    // distances and scores: one entry per distance, all scores
    let zooms: Vec<u16> = (0..=22).collect();
    let radii = [1.0f64, 40.0, 200.0, 400.0, 1000.0];
    ctx.family(
        "scores",
        "every zoom 0-22, 5 radii, 16 scores, distances in 4 directions up to beyond the radius; the score of a match never grows with distance and never shrinks with the score",
        (zooms.len() * radii.len()) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let zoom = *d.pick(&zooms);
            let radius = *d.pick(&radii);
            let w = world(zoom)[2];
            let prox = [w / 2, w / 2];
            let mut c = Content::new();
            let mut id = 0;
            for sc in 0..16u8 {
                for k in [0i32, 1, 2, 3, 4, 7, 11, 31, 32, 33, 319, 320, 321, 800, 5000] {
                    for (dx, dy) in [(1, 0), (0, -1), (1, 1), (-2, 1)] {
                        let x = prox[0] as i32 + dx * k;
                        let y = prox[1] as i32 + dy * k;
                        if x >= 0 && y >= 0 && x <= w as i32 && y <= w as i32 {
                            id += 1;
                            c.entry((1, 1)).or_default().insert(Ent::new(3, sc, x as u16, y as u16, id, 0));
                        }
                    }
                }
            }
            t.state(&(zoom, radius as u64));
            let s = build(&c, &[])?;
            let g = open(&s, &Conf { radius, ..Conf::at(zoom) })?;
            for lang in [1, 2] {
                let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: lang };
                let o = MatchOpts { zoom, bbox: None, proximity: Some(prox) };
                let got = query(&g, &q, &o, 1)?;
                t.trace(got.len() as u64);
                same_matches(&got, &matches(&c, &q, &o, radius), false)
                    .map_err(|e| format!("zoom {} radius {}: {}", zoom, radius, e))?;
                for a in &got {
                    for b in &got {
                        let (sa, sb) = (a.grid_entry.score, b.grid_entry.score);
                        if sa >= sb && a.distance <= b.distance && !geq(a.scoredist, b.scoredist) {
                            return Err(format!(
                                "zoom {} radius {}: score {} at distance {} gives {}, score {} at distance {} gives {}",
                                zoom, radius, sa, a.distance, a.scoredist, sb, b.distance, b.scoredist
                            ));
                        }
                    }
                }
            }
            Ok(())
        },
    );
    // across the whole plane
    let edges = [0u16, 1, 2, 255, 256, 4095, 32767, 32768, 46340, 46341, 65534, 65535];
    ctx.family(
        "far",
        &format!("entries at all pairs of {:?}, proximity at every pair of them, at zoom 16, radii of 40 and 400 miles, 2 languages, with and without a box", edges),
        (edges.len() * edges.len()) as u64 * 2 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let p = [*d.pick(&edges), *d.pick(&edges)];
            let radius = *d.pick(&[40.0, 400.0]);
            let lang = *d.pick(&[1u128, 2]);
            let bbox = if d.flag() { Some([1u16, 0, 65534, 65535]) } else { None };
            let mut c = Content::new();
            for (i, x) in edges.iter().enumerate() {
                for (j, y) in edges.iter().enumerate() {
                    let e = Ent::new(3 - (i % 2) as u8, (j % 9) as u8, *x, *y, (i * 16 + j) as u32, 0);
                    c.entry(((i % 2) as u32, 1)).or_default().insert(e);
                }
            }
            t.state(&(p, radius as u32, lang, bbox));
            t.trace(1);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf { radius, ..Conf::at(16) })?;
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 2 }, lang_set: lang };
            let o = MatchOpts { zoom: 16, bbox, proximity: Some(p) };
            same_matches(&query(&g, &q, &o, 5)?, &matches(&c, &q, &o, radius), false).map_err(|e| format!("{:?}: {}", o, e))
        },
    );
    // records of many coordinates
    let counts: Vec<u32> = ctx.by(vec![1, 2, 3, 15, 16, 17, 64, 257, 1000, 1025, 2500], (1..=40).chain([64, 100, 255, 256, 257, 1000, 4097, 20_000]).collect());
    let spreads = [1u32, 3, 257, 65_537, 0x9E37_79B1];
    ctx.family(
        "wide",
        &format!("{} numbers of coordinates up to {} in steps of {:?} along the curve, over 1, 3 or 12 levels, one or three ids each; 60 proximity points on, between and beside them; 2 languages", counts.len(), counts.last().unwrap(), spreads),
        (counts.len() * spreads.len()) as u64 * 3 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let spread = *d.pick(&spreads);
            let levels = *d.pick(&[1u32, 3, 12]);
            let ids = *d.pick(&[1u32, 3]);
            let lang = *d.pick(&[1u128, 2]);
            let mut v = BTreeSet::new();
            for i in 0..n {
                let (x, y) = unmorton(i.wrapping_mul(spread));
                for j in 0..ids {
                    v.insert(Ent::new(3 - (i % levels % 4) as u8, (i % levels) as u8, x, y, i * 8 + j, j as u8));
                }
            }
            let all: Vec<Ent> = v.iter().cloned().collect();
            let mut c = Content::new();
            c.insert((1, 1), v);
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: lang };
            for k in 0..60usize {
                let (x, y) = all[k * 7919 % all.len()].xy();
                let p = [x.wrapping_add([0, 1, 65_535, 40, 60_000][k % 5]), y.wrapping_add([0, 65_535, 1, 30][k % 4])];
                let o = MatchOpts { zoom: 16, bbox: None, proximity: Some(p) };
                t.trace(1);
                let got = query(&g, &q, &o, 1)?;
                same_matches(&got, &matches(&c, &q, &o, 40.0), false)
                    .and_then(|_| if levels == 1 { z_order(&got, p) } else { Ok(()) })
                    .map_err(|e| format!("{} coordinates in steps of {}: {:?}: {}", n, spread, o, e))?;
            }
            Ok(())
        },
    );
    let counts: Vec<u32> = ctx.by(vec![4095, 4097, 10_001, 32_769, 65_537], vec![4095, 4096, 4097, 8193, 10_001, 16_385, 32_767, 32_769, 65_535, 65_536, 65_537, 100_001, 131_073, 262_145]);
    ctx.family(
        "vast",
        &format!("{:?} coordinates in steps of 1, 3 or 257 along the curve, in one group or over all 64 pairs of relevance and score; now and then 300 ids on one; 2 languages; 8 proximity points on, between and beside them", counts),
        (counts.len() * 3 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let spread = *d.pick(&[1u32, 3, 257]);
            let levels = *d.pick(&[1u32, 64]);
            let lang = *d.pick(&[1u128, 2]);
            let mut v = BTreeSet::new();
            for i in 0..n {
                let (x, y) = unmorton(i * spread);
                let l = i.wrapping_mul(2_654_435_761) >> 16;
                for j in 0..if i % 5000 == 77 { 300 } else { 1 } {
                    v.insert(Ent::new(3 - (l % levels % 4) as u8, (l % levels / 4) as u8, x, y, i % 65_536 * 16 + j % 16 + j / 16 * 800_000, 0));
                }
            }
            let all: Vec<Ent> = v.iter().cloned().collect();
            let mut c = Content::new();
            c.insert((1, 1), v);
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(16))?;
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: lang };
            for k in 0..8usize {
                let (x, y) = all[k * 7919 % all.len()].xy();
                let p = [x.wrapping_add([0, 1, 65_535, 40, 60_000][k % 5]), y.wrapping_add([0, 65_535, 1, 30][k % 4])];
                let o = MatchOpts { zoom: 16, bbox: None, proximity: Some(p) };
                t.trace(1);
                let got = query(&g, &q, &o, 1)?;
                same_matches(&got, &matches(&c, &q, &o, 40.0), false)
                    .and_then(|_| if levels == 1 { z_order(&got, p) } else { Ok(()) })
                    .map_err(|e| format!("{} coordinates in steps of {}: {:?}: {:.600}", n, spread, o, e))?;
            }
            Ok(())
        },
    );
    // several keys, relevances and scores
    let sets = subsets(12, 0, ctx.by(6, 9));
    let slots: Vec<(Key, Ent)> = (0..12u32)
        .map(|i| {
            (
                (i % 3, [1u128, 2, u128::MAX][i as usize % 3]),
                Ent::new((3 - i / 3 % 4) as u8, (i % 4 * 3) as u8, 40 + (i * 7 % 5) as u16, 40 + (i * 5 % 7) as u16, i / 2, i as u8),
            )
        })
        .collect();
    let mut opts = Vec::new();
    for prox in [[40u16, 40u16], [43, 44], [0, 0], [63, 63], [41, 46]] {
        for bbox in [None, Some([40u16, 40, 42, 43]), Some([41, 40, 44, 46]), Some([0, 0, 63, 63]), Some([50, 50, 60, 60])] {
            opts.push(MatchOpts { zoom: 14, bbox, proximity: Some(prox) });
        }
    }
    ctx.family(
        "keys",
        &format!("every selection of up to {} out of 12 entries over 3 keys, 4 relevances and 4 scores; 5 points x 5 boxes x 3 query languages, radius of 4 tiles", ctx.by(6, 9)),
        sets.len() as u64,
        |case, t| {
            let mut c = Content::new();
            for i in &sets[case as usize] {
                c.entry(slots[*i].0).or_default().insert(slots[*i].1);
            }
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf { radius: 5.0, ..Conf::at(14) })?;
            for o in &opts {
                for l in [1, 2, 4] {
                    let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 5 }, lang_set: l };
                    let got = query(&g, &q, o, 10)?;
                    t.trace(1);
                    same_matches(&got, &matches(&c, &q, o, 5.0), false).map_err(|e| format!("{:?} {:?} in {:?}: {}", q, o, c, e))?;
                }
            }
            Ok(())
        },
    );
}

fn key_of(m: &MatchEntry) -> (i64, i64) {
    (round6(m.grid_entry.relev), round6(m.scoredist))
}

pub fn c11(ctx: &mut Ctx) {
    // entries to choose from: few distinct (relevance, score), so that ties abound
    let ents: Vec<Ent> = (0..6u32)
        .map(|i| Ent::new([3u8, 3, 2, 0][i as usize % 4], [0u8, 7, 15][i as usize % 3], (i % 2) as u16, (i / 3) as u16, i % 3, 0))
        .collect();
    let values: Vec<BTreeSet<Ent>> = subsets(ents.len(), 0, ctx.by(3, 4))
        .into_iter()
        .map(|s| s.into_iter().map(|i| ents[i]).collect())
        .collect();
    let langs = [1u128, 2, u128::MAX];
    let nkeys = 3;
    ctx.family(
        "streams",
        &format!("every assignment of up to {} of 6 entries to each of {} keys of different languages; every bound on the number of streams from 1 to 5; box on or off", ctx.by(3, 4), nkeys),
        (values.len() as u64).pow(nkeys as u32) * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let bbox = if d.flag() { Some([0, 0, 0, 5]) } else { None };
            let mut c = Content::new();
            for k in 0..nkeys {
                c.insert((k as u32, langs[k]), d.pick(&values).clone());
            }
            t.state(&c);
            t.sample(|| format!("{:?}", c));
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(6))?;
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 9 }, lang_set: 1 };
            let o = MatchOpts { zoom: 6, bbox, proximity: None };
            check_bounded(&g, &c, &q, &o, &[1, 2, 3, 4, 5], t)
        },
    );
    c11_long(ctx);
    c11_keys(ctx);
    // more keys than the bound, by far
    let n = 24u32;
    ctx.family(
        "many",
        "24 keys x 4 entries in 24 rotations of relevance and score; every bound from 1 to 30",
        24 * 4,
        |case, t| {
            let mut d = Digits::new(case);
            let rot = d.below(24) as u32;
            let step = [1u32, 5, 7, 11][d.below(4) as usize];
            let mut c = Content::new();
            for k in 0..n {
                let j = (k * step + rot) % n;
                c.insert(
                    (k, 1u128 << (k % 3)),
                    (0..4u32).map(|i| Ent::new(((j + i) % 4) as u8, ((j * 3 + i) % 16) as u8, (j % 5) as u16, i as u16, k * 4 + i, 0)).collect(),
                );
            }
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(6))?;
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 99 }, lang_set: 1 };
            let bounds: Vec<usize> = (1..=30).collect();
            check_bounded(&g, &c, &q, &plain(6), &bounds, t)
        },
    );
}

pub fn c11_long(ctx: &mut Ctx) {
    let lens: Vec<u32> = ctx.by(vec![1, 2, 7, 40, 130, 300], vec![1, 2, 3, 7, 16, 17, 40, 79, 80, 130, 255, 300, 1000]);
    ctx.family(
        "long",
        &format!("1, 2, 5 or 41 keys of {:?} entries each, of rising, falling, equal or mixed levels from key to key; bounds around the number of keys, of entries and of both; box on or off, two languages", lens),
        lens.len() as u64 * 4 * 4 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let len = *d.pick(&lens);
            let nk = *d.pick(&[1u32, 2, 5, 41]);
            let how = d.below(4);
            let boxed = d.flag();
            let lang = *d.pick(&[1u128, 4]);
            if len * nk > 8000 {
                return Ok(());
            }
            let mut c = Content::new();
            for k in 0..nk {
                let v = c.entry((k * 3, [1u128, 2, 5, u128::MAX][(k % 4) as usize])).or_default();
                for i in 0..len {
                    let level = match how {
                        0 => k % 8,
                        1 => (nk - k) % 64,
                        2 => 5,
                        _ => (i * 7 + k * 3) % 64,
                    };
                    v.insert(Ent::new(3 - (level / 16) as u8, (level % 16) as u8, (i % 64) as u16, ((i / 64 + k) % 64) as u16, k * 1000 + i, 0));
                }
            }
            t.state(&case);
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(6))?;
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 1000 }, lang_set: lang };
            let o = MatchOpts { zoom: 6, bbox: if boxed { Some([0, 0, 40, 62]) } else { None }, proximity: None };
            let (n, k) = ((len * nk) as usize, nk as usize);
            let mut bounds: Vec<usize> = vec![1, 2, k.max(2) - 1, k, k + 1, len as usize, 40, n / 2 + 1, n, n + 1];
            bounds.sort();
            bounds.dedup();
            check_bounded(&g, &c, &q, &o, &bounds, t).map_err(|e| format!("{} keys of {}: {:.500}", nk, len, e))
        },
    );
}

/// Queries over very many keys at once.
pub fn c11_keys(ctx: &mut Ctx) {
    let counts: Vec<u32> = ctx.by(
        vec![63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097],
        (60..=70).chain(120..=135).chain(250..=260).chain([500, 511, 512, 513, 1000, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 10_001, 16_385]).collect(),
    );
    ctx.family(
        "many-keys",
        &format!("a query over {} numbers of keys up to {}, one or two entries each, with levels rising, falling, equal or mixed from key to key, one or two languages; bounds at, below and above half, the number of keys, of entries", counts.len(), counts.last().unwrap()),
        counts.len() as u64 * 2 * 4 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let per = d.below(2) as u32 + 1;
            let how = d.below(4);
            let mixed = d.flag();
            let mut c = Content::new();
            for k in 0..n {
                let lang = if mixed && k % 3 == 0 { 2u128 } else { 1 };
                let v = c.entry((k, lang)).or_default();
                for i in 0..per {
                    let level = match how {
                        0 => k * 64 / n,
                        1 => 63 - k * 64 / n,
                        2 => 5,
                        _ => (i * 7 + k * 13) % 64,
                    };
                    v.insert(Ent::new((level / 16) as u8, (level % 16) as u8, (k % 64) as u16, (k / 64 % 64) as u16, k * 2 + i, 0));
                }
            }
            t.state(&(n, per, how, mixed));
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(6))?;
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: n + 5 }, lang_set: 1 };
            let (e, k) = ((n * per) as usize, n as usize);
            let mut bounds: Vec<usize> = vec![1, 40, k / 2, k - 1, k, k + 1, e, e + 1, e * 2];
            bounds.sort();
            bounds.dedup();
            check_bounded_sorted(&g, &c, &q, &plain(6), &bounds, t).map_err(|x| format!("{} keys of {}: {:.500}", n, per, x))
        },
    );
}

/// As `check_bounded`, in less than quadratic time.
fn check_bounded_sorted(g: &GridStore, c: &Content, q: &MatchKey, o: &MatchOpts, bounds: &[usize], t: &mut Tally) -> Result<(), String> {
    let want = matches(c, q, o, 40.0);
    let mut best: Vec<(i64, i64)> = want.iter().map(|m| (round6(m.relev), round6(m.scoredist))).collect();
    best.sort();
    best.reverse();
    let mut pool: Vec<Disc> = want.iter().map(disc_m).collect();
    pool.sort();
    for k in bounds {
        let got = query(g, q, o, *k)?;
        t.trace(1);
        let gk: Vec<(i64, i64)> = got.iter().map(key_of).collect();
        if let Some(i) = (1..gk.len()).find(|i| gk[*i] > gk[*i - 1]) {
            return Err(format!("bound {}: not in order at {}: {:?} before {:?}", k, i, got[i - 1], got[i]));
        }
        let n = (*k).min(best.len());
        if gk.len() < n || gk[..n] != best[..n] {
            return Err(format!("bound {}: {} results, of which the first {} are not the best there are", k, gk.len(), n));
        }
        let mut seen: Vec<Disc> = got.iter().map(disc_e).collect();
        seen.sort();
        if let Some(w) = seen.windows(2).find(|w| w[0] == w[1]) {
            return Err(format!("bound {}: {:?} twice", k, w[0]));
        }
        if let Some(x) = seen.iter().find(|x| pool.binary_search(x).is_err()) {
            return Err(format!("bound {}: unexpected match {:?}", k, x));
        }
        if *k >= c.len() && seen.len() != pool.len() {
            return Err(format!("bound {}: {} matches, expected {}", k, seen.len(), pool.len()));
        }
    }
    Ok(())
}

fn check_bounded(g: &GridStore, c: &Content, q: &MatchKey, o: &MatchOpts, bounds: &[usize], t: &mut Tally) -> Result<(), String> {
    let want = matches(c, q, o, 40.0);
    let mut best: Vec<(i64, i64)> = want.iter().map(|m| (round6(m.relev), round6(m.scoredist))).collect();
    best.sort();
    best.reverse();
    for k in bounds {
        let got = query(g, q, o, *k)?;
        t.trace(1);
        for w in got.windows(2) {
            if key_of(&w[1]) > key_of(&w[0]) {
                return Err(format!("bound {}: not in order: {:?} before {:?}", k, w[0], w[1]));
            }
        }
        let gk: Vec<(i64, i64)> = got.iter().map(key_of).collect();
        let n = (*k).min(best.len());
        if gk.len() < n || gk[..n] != best[..n] {
            return Err(format!("bound {}: first results {:?}, the best there are {:?}", k, gk.iter().take(n).collect::<Vec<_>>(), &best[..n]));
        }
        // nothing made up, nothing repeated
        let mut pool: Vec<Disc> = want.iter().map(disc_m).collect();
        for m in &got {
            let d = disc_e(m);
            match pool.iter().position(|p| *p == d) {
                Some(i) => {
                    pool.swap_remove(i);
                }
                None => return Err(format!("bound {}: unexpected match {:?}", k, d)),
            }
        }
        if *k >= c.len() && !pool.is_empty() {
            return Err(format!("bound {}: matches missing {:?}", k, pool));
        }
    }
    Ok(())
}

/// Long results, read a stretch at a time.
fn c14_long(ctx: &mut Ctx) {
    let lens: Vec<u32> = ctx.by(vec![15, 16, 17, 63, 64, 65, 100, 128, 255, 256, 257, 600], vec![1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 1000, 1024, 1025, 4097]);
    c14_turns(ctx, "long", lens, &[1, 2, 7, 16, 64, 1000]);
    let lens: Vec<u32> = ctx.by(vec![4097, 10_001, 33_000], vec![4095, 4097, 8193, 10_001, 16_385, 33_000, 65_537, 100_001]);
    c14_turns(ctx, "vast", lens, &[7, 5000]);
}

fn c14_turns(ctx: &mut Ctx, name: &str, lens: Vec<u32>, strides: &[usize]) {
    ctx.family(
        name,
        &format!("two result iterators of every kind over one store or two, with {:?} entries per key, read in turns of {:?} and {:?} results; the store dropped at the start, in the middle or at the end, another opened and read in its place", lens, strides, strides),
        (lens.len() * 5 * 5 * 2 * strides.len() * strides.len() * 3) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&lens);
            let (ka, kb) = (d.below(5) as usize, d.below(5) as usize);
            let same = d.flag();
            let (ra, rb) = (*d.pick(strides), *d.pick(strides));
            let drop_at = d.below(3);
            let mk = |n: u32, salt: u32| -> Content {
                let mut c = Content::new();
                for k in 0..2u32 {
                    c.insert((k, 1), (0..n).map(|i| Ent::new((i % 4) as u8, (i % 3) as u8, (i % 64) as u16, (i / 64 % 64) as u16, i + 100_000 * k + salt, 0)).collect());
                }
                c
            };
            let opts = [
                plain(6),
                MatchOpts { zoom: 6, bbox: Some([0, 0, 40, 40]), proximity: None },
                MatchOpts { zoom: 6, bbox: None, proximity: Some([2, 2]) },
                MatchOpts { zoom: 6, bbox: Some([1, 0, 50, 9]), proximity: Some([2, 2]) },
            ];
            let ca = mk(n, 0);
            let cb = if same { ca.clone() } else { mk(n / 2 + 1, 500_000) };
            let sa = build(&ca, &[])?;
            let sb = build(&cb, &[])?;
            let mut ga = Some(open(&sa, &Conf::at(6))?);
            let mut gb = if same { None } else { Some(open(&sb, &Conf::at(6))?) };
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 9 }, lang_set: 1 };
            type Row = (u32, u16, u16, u8, i64, i64);
            let start = |g: &GridStore, k: usize| -> Result<Box<dyn Iterator<Item = Row>>, String> {
                Ok(if k == 0 {
                    Box::new(g.get(&gk((1, 1))).map_err(es("get"))?.ok_or("key not found")?.map(|e| (e.id, e.x, e.y, e.score, round6(e.relev), 0)))
                } else {
                    Box::new(g.streaming_get_matching(&q, &opts[k - 1], 10).map_err(es("query"))?.map(|m| {
                        let e = &m.grid_entry;
                        (e.id, e.x, e.y, e.score, round6(e.relev), round6(m.scoredist))
                    }))
                })
            };
            let want = |c: &Content, k: usize| -> Vec<Row> {
                let mut v: Vec<Row> = if k == 0 {
                    c[&(1, 1)].iter().map(|e| (e.id, e.xy().0, e.xy().1, e.score, round6(e.relev()), 0)).collect()
                } else {
                    matches(c, &q, &opts[k - 1], 40.0).iter().map(|m| (m.ent.id, m.ent.xy().0, m.ent.xy().1, m.ent.score, round6(m.relev), round6(m.scoredist))).collect()
                };
                v.sort();
                v
            };
            let ref_a: Vec<Row> = start(ga.as_ref().unwrap(), ka)?.collect();
            let ref_b: Vec<Row> = start(gb.as_ref().or(ga.as_ref()).unwrap(), kb)?.collect();
            let mut ia = start(ga.as_ref().unwrap(), ka)?;
            let mut ib = start(gb.as_ref().or(ga.as_ref()).unwrap(), kb)?;
            let (mut oa, mut ob) = (Vec::new(), Vec::new());
            let mut turn = 0;
            let middle = n as usize / (ra + rb) + 1;
            loop {
                let due = match drop_at {
                    0 => turn == 0,
                    1 => turn == middle,
                    _ => false,
                };
                if due {
                    drop(ga.take());
                    drop(gb.take());
                    let g = open(&sb, &Conf::at(6))?;
                    let _ = start(&g, 1)?.take(5).count();
                }
                let before = oa.len() + ob.len();
                oa.extend(ia.by_ref().take(ra));
                ob.extend(ib.by_ref().take(rb));
                if oa.len() + ob.len() == before {
                    break;
                }
                turn += 1;
            }
            drop(ga);
            drop(gb);
            t.state(&(n, ka, kb, same));
            t.trace(turn as u64);
            for (o, at_once, c, k) in [(&mut oa, &ref_a, &ca, ka), (&mut ob, &ref_b, &cb, kb)] {
                // (near a point, places come in the order of the curve, which is that of distance only roughly)
                if k == 1 || k == 2 {
                    if let Some(w) = o.windows(2).find(|w| (w[1].4, w[1].5) > (w[0].4, w[0].5)) {
                        return Err(format!("{} entries, kind {}, turns of {} and {}: {:?} comes before {:?}", n, k, ra, rb, w[0], w[1]));
                    }
                }
                if o != at_once {
                    return Err(format!("{} entries, kind {}, turns of {} and {}, dropped {}: not what is read at once", n, k, ra, rb, drop_at));
                }
                o.sort();
                let w = want(c, k);
                if *o != w {
                    let at = o.iter().zip(&w).position(|(a, b)| a != b);
                    return Err(format!("{} entries, kind {}, turns of {} and {}, dropped {}: {} results, expected {}, first difference {:?}", n, k, ra, rb, drop_at, o.len(), w.len(), at.map(|i| (o[i], w[i]))));
                }
            }
            Ok(())
        },
    );
}

/// more iterators alive at once than anything that is reused in turn
fn c14_many(ctx: &mut Ctx) {
    let counts: Vec<usize> = ctx.by(vec![2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    ctx.family(
        "many",
        &format!("{:?} result iterators alive at once, of one kind or of all kinds in turn, over one store or three; advanced round robin, or each to its end, in the order they were made, in reverse or by sevens; started before they were all made or not; the stores dropped first or not", counts),
        (counts.len() * 6 * 2 * 4 * 2 * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let kind = d.below(6) as usize;
            let one = d.flag();
            let order = d.below(4);
            let started = d.flag();
            let dropped = d.flag();
            let opts = [
                plain(6),
                MatchOpts { zoom: 6, bbox: Some([0, 0, 40, 40]), proximity: None },
                MatchOpts { zoom: 6, bbox: None, proximity: Some([2, 2]) },
                MatchOpts { zoom: 6, bbox: Some([0, 0, 50, 40]), proximity: Some([2, 2]) },
            ];
            let stores = if one { 1 } else { 3 };
            let cs: Vec<Content> = (0..stores)
                .map(|s| {
                    let mut c = Content::new();
                    for k in 0..n as u32 {
                        // longer and shorter ones, so that none fits the place of another
                        let len = 3 + (k * 5 + s) % 11;
                        c.insert((k, 1), (0..len).map(|i| Ent::new((i % 4) as u8, (i % 3) as u8, i as u16, (k % 40) as u16, i + 20 * k + 10_000 * s, 0)).collect());
                    }
                    c
                })
                .collect();
            let sites = cs.iter().map(|c| build(c, &[])).collect::<Result<Vec<_>, _>>()?;
            let mut gs = sites.iter().map(|s| open(s, &Conf::at(6))).collect::<Result<Vec<_>, _>>()?;
            let kind_of = |i: usize| if kind == 5 { i % 5 } else { kind };
            let mut its: Vec<Box<dyn Iterator<Item = u32>>> = Vec::new();
            let mut got: Vec<Vec<u32>> = vec![vec![]; n];
            for i in 0..n {
                let g = &gs[i % gs.len()];
                let k = kind_of(i);
                let mut it: Box<dyn Iterator<Item = u32>> = if k == 0 {
                    Box::new(g.get(&gk((i as u32, 1))).map_err(es("get"))?.ok_or("key not found")?.map(|e| e.id))
                } else {
                    let q = MatchKey { match_phrase: MatchPhrase::Exact(i as u32), lang_set: 1 };
                    Box::new(g.streaming_get_matching(&q, &opts[k - 1], 10).map_err(es("query"))?.map(|m| m.grid_entry.id))
                };
                if started {
                    got[i].extend(it.next());
                }
                its.push(it);
            }
            if dropped {
                gs.clear();
            }
            let turns: Vec<usize> = match order {
                1 => (0..n).rev().collect(),
                2 => (0..7).flat_map(|r| (r..n).step_by(7)).collect(),
                _ => (0..n).collect(),
            };
            if order == 3 {
                for _ in 0..16 {
                    for i in 0..n {
                        got[i].extend(its[i].next());
                    }
                }
            } else {
                for i in &turns {
                    got[*i].extend(its[*i].by_ref());
                }
            }
            drop(its);
            t.state(&(n, kind, one));
            t.trace(n as u64);
            for i in 0..n {
                let mut want: Vec<u32> = cs[i % cs.len()][&(i as u32, 1)].iter().map(|e| e.id).collect();
                want.sort();
                got[i].sort();
                if got[i] != want {
                    return Err(format!("{} iterators, kind {}, order {}: the one of key {} gives {:?}, expected {:?}", n, kind, order, i, got[i], want));
                }
            }
            Ok(())
        },
    );
}

pub fn c14(ctx: &mut Ctx) {
    // two stores; iterators from lookups and queries on them; consumed in every interleaving, with
    // the stores dropped at every point
    let mk = |n: u32| -> Content {
        let mut c = Content::new();
        for k in 0..3u32 {
            c.insert(
                (k, 1),
                (0..n).map(|i| Ent::new((i % 4) as u8, (i % 3) as u8, i as u16, k as u16, i + 100 * k, 0)).collect(),
            );
        }
        c
    };
    let opts = [
        plain(6),
        MatchOpts { zoom: 6, bbox: Some([0, 0, 9, 9]), proximity: None },
        MatchOpts { zoom: 6, bbox: None, proximity: Some([2, 2]) },
        MatchOpts { zoom: 6, bbox: Some([1, 0, 9, 9]), proximity: Some([2, 2]) },
    ];
    let kinds = opts.len() + 1;
    let len = ctx.by(10, 13);
    ctx.family(
        "interleavings",
        &format!("two result iterators of every kind (lookup, plain, box, proximity, both) over two stores or one; every interleaving of {} steps of the two; the store dropped before every step; freed memory and values are overwritten", len),
        ((kinds * kinds * 2 * (len + 1)) as u64) << len,
        |case, t| {
            let mut d = Digits::new(case);
            let sched = d.below(1 << len);
            let ka = d.below(kinds as u64) as usize;
            let kb = d.below(kinds as u64) as usize;
            let same = d.flag();
            let drop_at = d.below(len as u64 + 1) as usize;
            let ca = mk(3);
            let cb = if same { ca.clone() } else { mk(2) };
            let sa = build(&ca, &[])?;
            let sb = build(&cb, &[])?;
            let mut ga = Some(open(&sa, &Conf::at(6))?);
            let mut gb = if same { None } else { Some(open(&sb, &Conf::at(6))?) };
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 9 }, lang_set: 1 };
            let start = |g: &GridStore, k: usize| -> Result<Box<dyn Iterator<Item = String>>, String> {
                Ok(if k == 0 {
                    Box::new(g.get(&gk((1, 1))).map_err(es("get"))?.ok_or("key not found")?.map(|e| format!("{:?}", e)))
                } else {
                    Box::new(g.streaming_get_matching(&q, &opts[k - 1], 10).map_err(es("query"))?.map(|e| format!("{:?}", e)))
                })
            };
            // what they give when read at once
            let ref_a: Vec<String> = start(ga.as_ref().unwrap(), ka)?.collect();
            let ref_b: Vec<String> = start(gb.as_ref().or(ga.as_ref()).unwrap(), kb)?.collect();
            let mut ia = start(ga.as_ref().unwrap(), ka)?;
            let mut ib = start(gb.as_ref().or(ga.as_ref()).unwrap(), kb)?;
            let (mut oa, mut ob) = (Vec::new(), Vec::new());
            for i in 0..len {
                if i == drop_at {
                    drop(ga.take());
                    drop(gb.take());
                }
                if sched >> i & 1 == 1 {
                    oa.extend(ia.next());
                } else {
                    ob.extend(ib.next());
                }
            }
            drop(ga);
            drop(gb);
            oa.extend(ia);
            ob.extend(ib);
            t.state(&(ka, kb, same, drop_at, oa.len()));
            t.trace(len as u64);
            if oa != ref_a || ob != ref_b {
                return Err(format!("kinds {} {}, same store {}, dropped before step {}, schedule {:b}: {:?} / {:?}, expected {:?} / {:?}", ka, kb, same, drop_at, sched, oa, ob, ref_a, ref_b));
            }
            // and what they give is right
            if ka > 0 {
                let want = matches(&ca, &q, &opts[ka - 1], 40.0).len();
                if oa.len() != want {
                    return Err(format!("{} matches, expected {}", oa.len(), want));
                }
            } else if oa.len() != ca[&(1, 1)].len() {
                return Err(format!("{} entries, expected {}", oa.len(), ca[&(1, 1)].len()));
            }
            Ok(())
        },
    );
    c14_long(ctx);
    c14_many(ctx);
    let len = ctx.by(4u32, 5);
    ctx.family(
        "listing",
        &format!("listings of the keys and of the entries read step by step, two at a time over one store or two, with something else asked of the stores before every step: every sequence of {} of 9 things (nothing, a step of the other listing, a lookup read in full or kept, a query read in full, in part or kept, a listing from the start, another store opened and dropped)", len),
        4 * 2 * 9u64.pow(len),
        |case, t| {
            let mut d = Digits::new(case);
            let (ka, kb) = (d.flag(), d.flag());
            let same = d.flag();
            let ca = mk(3);
            let cb = if same { ca.clone() } else { mk(2) };
            let sa = build(&ca, &[])?;
            let sb = build(&cb, &[])?;
            let ga = open(&sa, &Conf::at(6))?;
            let gb2 = if same { None } else { Some(open(&sb, &Conf::at(6))?) };
            let gb = gb2.as_ref().unwrap_or(&ga);
            let list = |g: &'_ GridStore, entries: bool| -> Vec<String> {
                if entries { g.iter().map(|e| format!("{:?}", e.map_err(|_| ()))).collect() } else { g.keys().map(|e| format!("{:?}", e.map_err(|_| ()))).collect() }
            };
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 9 }, lang_set: 1 };
            let lookup = |g: &GridStore| -> Result<Vec<String>, String> {
                Ok(g.get(&gk((1, 1))).map_err(es("get"))?.ok_or("key not found")?.map(|e| format!("{:?}", e)).collect())
            };
            let ask = |g: &GridStore, o: &MatchOpts| -> Result<Vec<String>, String> { Ok(query(g, &q, o, 10)?.iter().map(|e| format!("{:?}", e)).collect()) };
            let refs = [list(&ga, ka), list(gb, kb)];
            for (r, e, c) in [(&refs[0], ka, &ca), (&refs[1], kb, &cb)] {
                if r.len() != c.len() || r.iter().any(|x| x.starts_with("Err")) {
                    return Err(format!("listing (entries {}): {:?}", e, r));
                }
            }
            let ref_get = lookup(&ga)?;
            let ref_q = [ask(&ga, &opts[0])?, ask(&ga, &opts[3])?];
            fn boxed<'a>(g: &'a GridStore, entries: bool) -> Box<dyn Iterator<Item = String> + 'a> {
                if entries { Box::new(g.iter().map(|e| format!("{:?}", e.map_err(|_| ())))) } else { Box::new(g.keys().map(|e| format!("{:?}", e.map_err(|_| ())))) }
            }
            let mut ia = boxed(&ga, ka);
            let mut ib = boxed(gb, kb);
            let (mut oa, mut ob) = (Vec::new(), Vec::new());
            let mut kept_get: Vec<_> = Vec::new();
            let mut kept_q: Vec<_> = Vec::new();
            let mut acts = Vec::new();
            for _ in 0..len {
                let a = d.below(9);
                acts.push(a);
                let ok = match a {
                    0 => true,
                    1 => {
                        ob.extend(ib.next());
                        true
                    }
                    2 => lookup(&ga)? == ref_get,
                    3 => {
                        let mut i = ga.get(&gk((1, 1))).map_err(es("get"))?.ok_or("key not found")?;
                        let first = i.next().map(|e| format!("{:?}", e));
                        kept_get.push(i);
                        first.as_ref() == ref_get.first()
                    }
                    4 => ask(&ga, &opts[0])? == ref_q[0] && ask(&ga, &opts[3])? == ref_q[1],
                    5 => ga.streaming_get_matching(&q, &opts[0], 10).map_err(es("query"))?.next().map(|e| format!("{:?}", e)).as_ref() == ref_q[0].first(),
                    6 => {
                        let mut i = ga.streaming_get_matching(&q, &opts[0], 10).map_err(es("query"))?;
                        let first = i.next().map(|e| format!("{:?}", e));
                        kept_q.push(i);
                        first.as_ref() == ref_q[0].first()
                    }
                    7 => list(&ga, ka) == refs[0] && list(gb, !kb).len() == refs[1].len(),
                    _ => {
                        let third = open(&sa, &Conf::at(6))?;
                        let ok = list(&third, ka) == refs[0] && lookup(&third)? == ref_get;
                        drop(third);
                        ok
                    }
                };
                if !ok {
                    return Err(format!("listings of entries {} {}, same store {}, actions {:?}: the last one gave something else", ka, kb, same, acts));
                }
                oa.extend(ia.next());
            }
            oa.extend(ia);
            ob.extend(ib);
            for i in kept_get {
                if i.map(|e| format!("{:?}", e)).ne(ref_get[1..].iter().cloned()) {
                    return Err(format!("listings of entries {} {}, same store {}, actions {:?}: a kept lookup went on with something else", ka, kb, same, acts));
                }
            }
            for i in kept_q {
                if i.map(|e| format!("{:?}", e)).ne(ref_q[0][1..].iter().cloned()) {
                    return Err(format!("listings of entries {} {}, same store {}, actions {:?}: a kept query went on with something else", ka, kb, same, acts));
                }
            }
            t.state(&(ka, kb, same, acts.clone()));
            t.trace(len as u64);
            if oa != refs[0] || ob != refs[1] {
                return Err(format!("listings of entries {} {}, same store {}, actions {:?}: {:?} / {:?}, expected {:?} / {:?}", ka, kb, same, acts, oa, ob, refs[0], refs[1]));
            }
            Ok(())
        },
    );
}
