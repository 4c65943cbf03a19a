//! C01 round trip, C02 builder histories, C03 keys, C05 prefix bins.
use carmen_core::gridstore::*;
use mc::ctx::*;
use mc::model::*;
use std::collections::{BTreeMap, BTreeSet};

/// A pool of entries that differ from one another in single fields, at the edges of each field.
fn pool() -> Vec<Ent> {
    vec![
        Ent::new(3, 0, 0, 0, 0, 0),
        Ent::new(3, 0, 0, 0, 0, 255),
        Ent::new(3, 0, 0, 0, 1, 0),
        Ent::new(3, 0, 0, 0, 0xFF_FFFF, 255),
        Ent::new(3, 15, 0, 0, 1, 0),
        Ent::new(3, 15, 65535, 65535, 256, 128),
        Ent::new(3, 7, 1, 0, 1, 0),
        Ent::new(3, 7, 0, 1, 1, 0),
        Ent::new(2, 15, 2, 1, 1, 0),
        Ent::new(2, 0, 65535, 0, 0x80_0000, 1),
        Ent::new(1, 8, 0, 65535, 0xFFFF, 2),
        Ent::new(1, 7, 256, 255, 65536, 3),
        Ent::new(0, 15, 32768, 32767, 255, 254),
        Ent::new(0, 0, 255, 256, 0, 0),
        Ent::new(0, 0, 256, 255, 0, 0),
        Ent::new(0, 1, 1, 1, 0x01_0000, 0),
    ]
}

pub fn c01(ctx: &mut Ctx) {
    let p = pool();
    // every ordered selection (with repetition) of up to k entries from the pool
    let k = ctx.by(3, 4);
    let n = p.len() as u64 + 1;
    ctx.family(
        "sequences",
        &format!("every sequence of up to {} entries, with repetition, from {} entries at the edges of each field", k, p.len()),
        n.pow(k as u32),
        |case, t| {
            let mut d = Digits::new(case);
            let mut list = Vec::new();
            for _ in 0..k {
                let i = d.below(n) as usize;
                if i < p.len() {
                    list.push(p[i]);
                }
            }
            let want: BTreeSet<Ent> = list.iter().cloned().collect();
            t.state(&want);
            t.trace(list.len() as u64 + 1);
            t.sample(|| format!("{:?}", list));
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            b.insert(&gk((7, 1)), list.iter().map(|e| e.grid()).collect()).map_err(es("insert"))?;
            b.finish().map_err(es("finish"))?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            let mut c = Content::new();
            c.insert((7, 1), want);
            check_content(&g, &c)
        },
    );
    // every subset of a grid of coordinates, with shared and distinct lists of ids
    let side = 4u16;
    let bits = ctx.by(12, 16);
    ctx.family(
        "coordinates",
        &format!("every subset of {} neighbouring coordinates, at 5 places of the plane, ids equal, distinct or doubled, at 2 scores", bits),
        (1u64 << bits) * 5 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let style = d.below(3);
            let at = *d.pick(&[(0u16, 0u16), (254, 254), (32766, 32767), (65532, 65532), (65532, 0)]);
            let set = d.below(1 << bits);
            let mut want = BTreeSet::new();
            for i in 0..bits as u16 {
                if set >> i & 1 == 1 {
                    let (x, y) = (at.0 + i % side, at.1 + i / side);
                    let sc = if i % 3 == 0 { 2 } else { 3 };
                    match style {
                        0 => {
                            want.insert(Ent::new(3, sc, x, y, 5, 1));
                        }
                        1 => {
                            want.insert(Ent::new(2, sc, x, y, 5 + i as u32, i as u8));
                        }
                        _ => {
                            want.insert(Ent::new(1, sc, x, y, 5, 1));
                            want.insert(Ent::new(1, sc, x, y, 5 + (i as u32 % 2), 2));
                        }
                    }
                }
            }
            t.state(&want);
            t.trace(want.len() as u64 + 1);
            let mut c = Content::new();
            c.insert((1, 0), want);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)
        },
    );
    // lists of ids beside one another: whatever writes lists once and shares them must tell apart
    // those that agree in length, in ends, in sums, in features or in hashes
    let universe: Vec<(u32, u8)> = vec![(1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (256, 0)];
    let u = ctx.by(5usize, 7);
    let lists = (1u64 << u) - 1;
    ctx.family(
        "id-lists",
        &format!("three coordinates of one record, in one group or in several, with every triple of non-empty sets out of {} ids (feature and hash)", u),
        lists * lists * lists * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let spread = d.flag();
            let mut want = BTreeSet::new();
            for i in 0..3u16 {
                let set = d.below(lists) + 1;
                for (k, (id, hash)) in universe.iter().enumerate() {
                    if set >> k & 1 == 1 {
                        let sc = if spread { i as u8 } else { 3 };
                        want.insert(Ent::new(2, sc, 10 + i, 20, *id, *hash));
                    }
                }
            }
            t.state(&want);
            t.trace(want.len() as u64 + 1);
            let mut c = Content::new();
            c.insert((1, 3), want);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)
        },
    );
    // all the groups there can be
    ctx.family(
        "groups",
        "every (relevance, score) pair present or absent by rows and columns, 1 to 3 coordinates each",
        16 * 256 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let per = d.below(3) as u16 + 1;
            let rows = d.below(16);
            let cols = d.below(256);
            let mut want = BTreeSet::new();
            for r in 0..4u8 {
                for sc in 0..16u8 {
                    if rows >> r & 1 == 1 && cols >> (sc / 2) & 1 == 1 {
                        for i in 0..per {
                            want.insert(Ent::new(r, sc, i * 3, sc as u16, (r as u32) << 4 | sc as u32, i as u8));
                        }
                    }
                }
            }
            t.state(&want);
            t.trace(want.len() as u64 + 1);
            let mut c = Content::new();
            c.insert((1, 3), want);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)
        },
    );
    // records of every size around the places where lengths and pointers get longer
    let mut sizes: Vec<(u32, u32)> = Vec::new();
    for ids in [1u32, 2, 3, 15, 31, 63] {
        for coords in (1..=70).chain(120..=130).chain(250..=260) {
            sizes.push((coords, ids));
        }
    }
    for ids in (100..=140).chain(250..=260) {
        for coords in [1, 2, 3, 130, 257] {
            sizes.push((coords, ids));
        }
    }
    for n in [1023, 1024, 4095, 4096, 8191, 8192, 8193, 13105, 13106, 13107, 13108, 16382, 16383, 16384, 16385, 16386, 20000, 65535, 65536, 70000] {
        sizes.push((n, 1));
        sizes.push((1, n));
        sizes.push((2, n));
    }
    if ctx.thorough() {
        for n in 260..=1100 {
            sizes.push((n, 1));
            sizes.push((n, 2));
            sizes.push((2, n));
        }
        for n in 3260..=3300 {
            for m in [1, 2, 3, 4, 5] {
                sizes.push((n, m));
                sizes.push((n * 5 / (m + 4), m));
            }
        }
        for n in 12990..=13200 {
            sizes.push((n, 1));
        }
    }
    sizes.push((3, 2_200_000));
    ctx.family(
        "sizes",
        "records whose number of coordinates and of ids per coordinate cross every boundary at which a length or a pointer needs one more byte, up to 26 MB",
        sizes.len() as u64,
        |case, t| {
            let (coords, ids) = sizes[case as usize];
            let mut want = BTreeSet::new();
            for c in 0..coords {
                let (x, y) = unmorton(c.wrapping_mul(0x9E37_79B1) & 0x3FFF_FFFF);
                for i in 0..ids {
                    let n = c * ids + i;
                    want.insert(Ent::new(3 - (c % 2) as u8, (c % 3) as u8, x, y, n & 0xFF_FFFF, (c % 251) as u8));
                }
            }
            t.state(&(coords, ids));
            t.trace(coords as u64 * ids as u64);
            let mut c = Content::new();
            c.insert((1, 3), want);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)
        },
    );
    many_keys(ctx, 0);
    repeats(ctx);
    // fields out of range
    let ids = [0u32, 1, 0xFF_FFFF, 0x100_0000, 0x100_0001, 0xFFFF_FFFF, 0x8000_0000];
    let scores = [0u8, 1, 15, 16, 17, 31, 32, 64, 127, 128, 240, 255];
    let m = (ids.len() * scores.len() * 4) as u64;
    ctx.family(
        "truncation",
        "two entries with every pair of ids in and beyond 24 bits, scores in and beyond 4 bits, 4 relevance levels, through insert and compact_append",
        m * m.min(ctx.by(24, u64::MAX)) * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let via = d.flag();
            let mut mk = |d: &mut Digits, x: u16| {
                let id = *d.pick(&ids);
                let sc = *d.pick(&scores);
                let rq = d.below(4) as u8;
                Ent::new(rq, sc, x, 9, id, 77)
            };
            let list = [mk(&mut d, 3), mk(&mut d, 3)];
            let want: BTreeSet<Ent> = list.iter().map(|e| e.kept()).collect();
            t.state(&want);
            t.trace(3);
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            if via {
                for e in &list {
                    b.compact_append(&gk((7, 1)), e.relev(), e.score, e.id, e.hash, &[e.xy()]);
                }
            } else {
                b.insert(&gk((7, 1)), list.iter().map(|e| e.grid()).collect()).map_err(es("insert"))?;
            }
            b.finish().map_err(es("finish"))?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            let mut c = Content::new();
            c.insert((7, 1), want);
            check_content(&g, &c)
        },
    );
}


/// Entries put in more than once, in numbers around every size at which an implementation might
/// change its ways.
pub fn repeats(ctx: &mut Ctx) {
    let counts: Vec<u32> = ctx.by(
        vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4097],
        (1..=530).chain([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10_000, 16_385, 65_537]).collect(),
    );
    ctx.family(
        "repeats",
        &format!("{} numbers of entries up to {}, on one tile (differing in feature, in hash and feature), on as many tiles, on as many levels and tiles; none, the first, the last, the middle one, every third or all of them put in again, at once or in a second call, in rising, falling or mixed order", counts.len(), counts.last().unwrap()),
        counts.len() as u64 * 4 * 6 * 2 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let vary = d.below(4);
            let again = d.below(6);
            let later = d.flag();
            let order = d.below(3);
            let mut list: Vec<Ent> = (0..n)
                .map(|i| match vary {
                    0 => Ent::new(3, 5, 9, 9, i, 7),
                    1 => Ent::new(3, 5, 9, 9, i / 3, (i % 3) as u8),
                    2 => Ent::new(3, 5, (i % 251) as u16, (i / 251) as u16, 4, 7),
                    _ => Ent::new((i % 4) as u8, (i / 4 % 16) as u8, (i / 64 % 16) as u16, (i / 1024) as u16, i % 5, 7),
                })
                .collect();
            match order {
                0 => {}
                1 => list.reverse(),
                _ => list.sort_by_key(|e| (e.id ^ e.z).wrapping_mul(0x9E37_79B1)),
            }
            let twice: Vec<Ent> = match again {
                0 => vec![],
                1 => vec![list[0]],
                2 => vec![*list.last().unwrap()],
                3 => vec![list[list.len() / 2]; 3],
                4 => list.iter().step_by(3).cloned().collect(),
                _ => list.clone(),
            };
            let want: BTreeSet<Ent> = list.iter().cloned().collect();
            t.state(&(n, vary));
            t.outcome(&(n, again, later));
            t.trace(n as u64 + twice.len() as u64);
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            let grids = |v: &[Ent]| -> Vec<GridEntry> { v.iter().map(|e| e.grid()).collect() };
            if later {
                b.append(&gk((5, 1)), grids(&list)).map_err(es("append"))?;
                b.append(&gk((5, 1)), grids(&twice)).map_err(es("append"))?;
            } else {
                list.extend(twice);
                b.insert(&gk((5, 1)), grids(&list)).map_err(es("insert"))?;
            }
            b.finish().map_err(es("finish"))?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            let mut c = Content::new();
            c.insert((5, 1), want);
            check_content(&g, &c).map_err(|e| format!("{} entries: {:.600}", n, e))
        },
    );
}

/// Stores with very many keys, whatever batches, caches or files they make.
pub fn many_keys(ctx: &mut Ctx, how: usize) {
    let counts: Vec<u32> = ctx.by(
        vec![1, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10_001],
        (1..=1100).chain([2047, 2048, 2049, 4095, 4096, 4097, 8193, 10_000, 10_001, 16_385, 32_769, 65_537]).collect(),
    );
    let strides = [1u32, 3, 251, 65_536];
    ctx.family(
        "many-keys",
        &format!("stores of {} numbers of keys up to {}, phrases in steps of {:?}, one to three languages each, with and without bins; keys given in rising, falling or mixed order", counts.len(), counts.last().unwrap(), strides),
        (counts.len() * strides.len()) as u64 * 3 * 2 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let stride = *d.pick(&strides);
            let langs = d.below(3) as u32 + 1;
            let bins = d.flag();
            let order = d.below(3);
            let mut c = Content::new();
            for i in 0..n {
                let l = [1u128 << (i % 127), u128::MAX, 0][(i % langs) as usize];
                let p = (i / langs).wrapping_mul(stride);
                let e = Ent::new((i % 4) as u8, (i % 16) as u8, (i % 65_521) as u16, (i / 7 % 65_519) as u16, i, (i % 256) as u8);
                c.entry((p, l)).or_default().insert(e);
            }
            let mut keys: Vec<&Key> = c.keys().collect();
            match order {
                0 => {}
                1 => keys.reverse(),
                _ => keys.sort_by_key(|k| (k.0.wrapping_mul(0x9E37_79B1), k.1)),
            }
            t.state(&(n, stride, langs));
            t.trace(n as u64);
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            for k in keys {
                let v: Vec<GridEntry> = c[k].iter().map(|e| e.grid()).collect();
                if how == 0 {
                    b.insert(&gk(*k), v).map_err(es("insert"))?;
                } else {
                    b.append(&gk(*k), v).map_err(es("append"))?;
                }
            }
            let mut want = c;
            if how == 1 {
                // turned around
                let top = (n - 1) / langs;
                if stride == 1 {
                    let map: Vec<u32> = (0..=top).map(|i| top - i).collect();
                    b.renumber(&map).map_err(es("renumber"))?;
                    want = want.into_iter().map(|((p, l), v)| ((top - p, l), v)).collect();
                }
            }
            let last = want.keys().last().unwrap().0;
            if bins {
                let bounds: Vec<u32> = (0..=10u64).map(|i| (last as u64 * i / 10) as u32).collect();
                b.load_bin_boundaries(bounds).map_err(es("bounds"))?;
            }
            b.finish().map_err(es("finish"))?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &want).map_err(|e| format!("{:.600}", e))?;
            for p in [0, 1, last / 2, last, last.wrapping_add(1), u32::MAX] {
                for l in [2u128, 1 << 127, 0, u128::MAX] {
                    if g.get(&gk((p, l))).map_err(es("get"))?.is_some() != want.contains_key(&(p, l)) {
                        return Err(format!("get {:?}", (p, l)));
                    }
                }
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, usize),
    Append(usize, usize),
    Compact(usize, usize),
    Renumber(usize),
    Bounds(usize),
}

pub fn c02(ctx: &mut Ctx) {
    let keys: Vec<Key> = vec![(0, 1), (1, 1), (1, u128::MAX), (2, 0)];
    let values: Vec<Vec<Ent>> = vec![
        vec![],
        vec![Ent::new(3, 1, 5, 5, 10, 0)],
        vec![Ent::new(3, 1, 5, 5, 11, 0), Ent::new(0, 2, 6, 5, 10, 1)],
        vec![Ent::new(3, 1, 6, 5, 10, 0), Ent::new(3, 1, 5, 5, 10, 0), Ent::new(3, 1, 6, 5, 10, 0)],
    ];
    // (relevance, score, id, hash, coordinates)
    let compacts: Vec<(u8, u8, u32, u8, Vec<(u16, u16)>)> = vec![
        (3, 1, 10, 0, vec![(5, 5)]),
        (3, 1, 12, 0, vec![(5, 5), (6, 5)]),
        (2, 4, 10, 9, vec![]),
        (0, 2, 10, 1, vec![(6, 5), (6, 5), (5, 5)]),
    ];
    let maps: Vec<Vec<u32>> = vec![
        vec![0, 1, 2],
        vec![2, 1, 0],
        vec![1, 0, u32::MAX - 1],
        vec![5, 5, 1], // may collide
        vec![3],       // too short as soon as phrase 1 is there
        vec![1, 2, 0],
    ];
    let bounds: Vec<Vec<u32>> = vec![vec![], vec![0, 2], vec![1, 2, 3]];
    let mut ops: Vec<Op> = Vec::new();
    for k in 0..keys.len() {
        for v in 0..values.len() {
            ops.push(Op::Insert(k, v));
            ops.push(Op::Append(k, v));
        }
        for c in 0..compacts.len() {
            ops.push(Op::Compact(k, c));
        }
    }
    for m in 0..maps.len() {
        ops.push(Op::Renumber(m));
    }
    for b in 0..bounds.len() {
        ops.push(Op::Bounds(b));
    }
    let run = |list: &[&Op], t: &mut Tally| -> Result<(), String> {
        let s = Scratch::new();
        let mut b = builder(s.path())?;
        let mut c = Content::new();
        let mut loaded: &[u32] = &[];
        for op in list {
            match op {
                Op::Insert(k, v) => {
                    b.insert(&gk(keys[*k]), values[*v].iter().map(|e| e.grid()).collect())
                        .map_err(es("insert"))?;
                    c.insert(keys[*k], values[*v].iter().cloned().collect());
                }
                Op::Append(k, v) => {
                    b.append(&gk(keys[*k]), values[*v].iter().map(|e| e.grid()).collect())
                        .map_err(es("append"))?;
                    c.entry(keys[*k]).or_default().extend(values[*v].iter().cloned());
                }
                Op::Compact(k, i) => {
                    let (rq, sc, id, hash, coords) = &compacts[*i];
                    b.compact_append(&gk(keys[*k]), RELEVS[*rq as usize], *sc, *id, *hash, coords);
                    c.entry(keys[*k]).or_default().extend(
                        coords.iter().map(|xy| Ent::new(*rq, *sc, xy.0, xy.1, *id, *hash)),
                    );
                }
                Op::Renumber(m) => {
                    let map = &maps[*m];
                    let r = b.renumber(map);
                    // the model: all keys move at once, or, if one has no new number or two land
                    // on one key, nothing moves and the call fails
                    let mut moved = Content::new();
                    let mut ok = true;
                    for (k, v) in &c {
                        match map.get(k.0 as usize) {
                            None => ok = false,
                            Some(n) => {
                                if moved.insert((*n, k.1), v.clone()).is_some() {
                                    ok = false;
                                }
                            }
                        }
                    }
                    if r.is_ok() != ok {
                        return Err(format!("renumber {:?} returned {:?}", map, r.is_ok()));
                    }
                    if ok {
                        c = moved;
                    }
                }
                Op::Bounds(i) => {
                    b.load_bin_boundaries(bounds[*i].clone()).map_err(es("load_bin_boundaries"))?;
                    loaded = &bounds[*i];
                }
            }
            t.state(&c);
        }
        t.trace(list.len() as u64 + 1);
        t.sample(|| format!("{:?}", list));
        b.finish().map_err(es("finish"))?;
        let g = GridStore::new(s.path()).map_err(es("open"))?;
        check_content(&g, &c)?;
        // the list loaded last, and the bins between its boundaries
        let got: BTreeSet<u32> = g.bin_boundaries.iter().cloned().collect();
        if got != loaded.iter().cloned().collect() {
            return Err(format!("bin boundaries {:?}, expected {:?}", got, loaded));
        }
        for (i, start) in loaded.iter().enumerate() {
            for end in &loaded[i + 1..] {
                let q = MatchKey { match_phrase: MatchPhrase::Range { start: *start, end: *end }, lang_set: 1 };
                let o = MatchOpts { zoom: 6, bbox: None, proximity: None };
                same_matches(&query(&g, &q, &o, 100)?, &matches(&c, &q, &o, 0.0), true)
                    .map_err(|e| format!("{:?}: {}", q, e))?;
            }
        }
        Ok(())
    };
    let n = ops.len() as u64;
    let depth = ctx.by(3, 4);
    ctx.family(
        "histories",
        &format!("every sequence of {} operations out of {} (insert, append, compact_append, renumber, load_bin_boundaries over 4 keys)", depth, n),
        n.pow(depth as u32),
        |case, t| {
            let mut d = Digits::new(case);
            let list: Vec<&Op> = (0..depth).map(|_| d.pick(&ops)).collect();
            run(&list, t)
        },
    );
    // longer histories over a smaller alphabet
    let small = [
        Op::Insert(1, 1),
        Op::Insert(0, 2),
        Op::Append(1, 3),
        Op::Append(0, 1),
        Op::Compact(1, 1),
        Op::Renumber(1),
        Op::Renumber(3),
        Op::Renumber(4),
        Op::Bounds(1),
        Op::Bounds(2),
    ];
    let depth = ctx.by(5, 7);
    ctx.family(
        "long-histories",
        &format!("every sequence of {} operations out of {}", depth, small.len()),
        (small.len() as u64).pow(depth as u32),
        |case, t| {
            let mut d = Digits::new(case);
            let list: Vec<&Op> = (0..depth).map(|_| d.pick(&small)).collect();
            run(&list, t)
        },
    );
    many_keys(ctx, 1);
    // compact_append with many coordinates
    let counts: Vec<u32> = ctx.by(vec![0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000], (0..=600).chain([1000, 4096, 5000, 70_000]).collect());
    ctx.family(
        "compact-many",
        &format!("compact_append with {} numbers of coordinates up to {}, rising, falling, mixed or with repetitions, once or twice with another id, with entries there before or after", counts.len(), counts.last().unwrap()),
        counts.len() as u64 * 4 * 3 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let order = d.below(4);
            let second = d.below(3) as u32;
            let other = d.below(3);
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            let key: Key = (1, 6);
            let coord = |i: u32| -> (u16, u16) {
                let i = match order {
                    0 => i,
                    1 => n - i,
                    2 => i.wrapping_mul(0x9E37_79B1),
                    _ => i / 3,
                };
                unmorton(i)
            };
            let list: Vec<(u16, u16)> = (0..n).map(coord).collect();
            let mut want = BTreeSet::new();
            let extra = [Ent::new(2, 3, 3, 3, 5, 1), Ent::new(3, 9, 1, 0, 6, 1), Ent::new(0, 0, 1, 0, 6, 1)];
            if other == 1 {
                b.append(&gk(key), extra.iter().map(|e| e.grid()).collect()).map_err(es("append"))?;
            }
            for i in 0..=second {
                let half = &list[..list.len() / (i as usize + 1)];
                b.compact_append(&gk(key), 0.8, 3, 5 - i * 2, 1, half);
                want.extend(half.iter().map(|c| Ent::new(2, 3, c.0, c.1, 5 - i * 2, 1)));
            }
            if other == 2 {
                b.append(&gk(key), extra.iter().map(|e| e.grid()).collect()).map_err(es("append"))?;
            }
            if other > 0 {
                want.extend(extra);
            }
            t.state(&(n, order, second, other));
            t.trace(second as u64 + 1);
            b.finish().map_err(es("finish"))?;
            let mut c = Content::new();
            c.insert(key, want);
            check_content(&GridStore::new(s.path()).map_err(es("open"))?, &c)
        },
    );
    many_calls(ctx);
    renumber_sizes(ctx);
    // calls that add to one list of ids, however long it has become
    let depth = ctx.by(4usize, 5);
    ctx.family(
        "one-tile",
        &format!("every sequence of {} calls that add 0, 1, 2, 4, 5 or 9 ids to one tile or two, by append or compact_append, new ids or ones that are there already, falling or rising", depth),
        (6u64 * 2 * 2).pow(depth as u32) * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let falling = d.flag();
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            let key: Key = (1, 1);
            let mut want = BTreeSet::new();
            let mut next = 0u32;
            for _ in 0..depth {
                let n = *d.pick(&[0u32, 1, 2, 4, 5, 9]);
                let compact = d.flag();
                let again = d.flag();
                let ids: Vec<u32> = (0..n)
                    .map(|i| {
                        let k = if again { i } else { next + i };
                        if falling { 1000 - k } else { k }
                    })
                    .collect();
                if !again {
                    next += n;
                }
                if compact {
                    // one id at two tiles each
                    for id in &ids {
                        b.compact_append(&gk(key), 1.0, 3, *id, 7, &[(9, 9), (10, 9)]);
                        want.insert(Ent::new(3, 3, 9, 9, *id, 7));
                        want.insert(Ent::new(3, 3, 10, 9, *id, 7));
                    }
                    if ids.is_empty() {
                        b.compact_append(&gk(key), 1.0, 3, 1, 7, &[]);
                    }
                } else {
                    let v: Vec<Ent> = ids.iter().map(|id| Ent::new(3, 3, 9, 9, *id, 7)).collect();
                    b.append(&gk(key), v.iter().map(|e| e.grid()).collect()).map_err(es("append"))?;
                    want.extend(v);
                }
                t.state(&want);
            }
            t.trace(depth as u64 + 1);
            b.finish().map_err(es("finish"))?;
            let mut c = Content::new();
            c.insert(key, want);
            check_content(&GridStore::new(s.path()).map_err(es("open"))?, &c)
        },
    );
    // the order of appended entries makes no difference: all orders, all cuts into calls
    let five = [
        Ent::new(3, 1, 5, 5, 10, 0),
        Ent::new(3, 1, 6, 5, 10, 0),
        Ent::new(3, 2, 5, 5, 10, 0),
        Ent::new(3, 1, 5, 5, 9, 0),
        Ent::new(3, 1, 5, 5, 10, 3),
    ];
    let perms = permutations(5);
    ctx.family(
        "orders",
        "every order of 5 entries of one key, cut into calls of append in every way",
        perms.len() as u64 * 16,
        |case, t| {
            let mut d = Digits::new(case);
            let cuts = d.below(16);
            let perm = d.pick(&perms);
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            let mut group = Vec::new();
            for (i, p) in perm.iter().enumerate() {
                group.push(five[*p].grid());
                if i == 4 || cuts >> i & 1 == 1 {
                    b.append(&gk((3, 5)), std::mem::take(&mut group)).map_err(es("append"))?;
                }
            }
            b.finish().map_err(es("finish"))?;
            t.state(&case);
            t.trace(6);
            let mut c = Content::new();
            c.insert((3, 5), five.iter().cloned().collect());
            check_content(&GridStore::new(s.path()).map_err(es("open"))?, &c)
        },
    );
}

pub fn lang_pool() -> Vec<u128> {
    vec![
        u128::MAX,
        0,
        1,
        255,
        256,
        0xFF00,
        0x0100_00,
        1 << 64,
        1 << 120,
        (1 << 120) - 1,
        1 << 127,
        u128::MAX - 1,
        u128::MAX >> 1,
        u128::MAX >> 8,
    ]
}

/// One key, or a few, filled by very many calls.
fn many_calls(ctx: &mut Ctx) {
    let counts: Vec<u32> = ctx.by(
        vec![1, 2, 3, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1001, 1023, 1025, 4097, 10_001],
        (1..=300).chain([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4097, 9999, 10_001, 16_385, 65_537]).collect(),
    );
    ctx.family(
        "many-calls",
        &format!("{} numbers of calls up to {} that add an entry each to 1, 2 or 7 keys in turn, by append, compact_append or both, all to one tile, to as many tiles, or to tiles, scores and relevances in turn; none of the keys emptied by insert, or one a third of the way, or one renumbered with all", counts.len(), counts.last().unwrap()),
        counts.len() as u64 * 3 * 3 * 3 * 4,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let nk = *d.pick(&[1u32, 2, 7]);
            let by = d.below(3);
            let to = d.below(3);
            let event = d.below(4);
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            let mut c = Content::new();
            let mut phrase: Vec<u32> = (0..nk).collect();
            for i in 0..n {
                let k = (phrase[(i % nk) as usize], 3u128);
                let e = match to {
                    0 => Ent::new(3, 5, 9, 9, n - i, 7),
                    1 => Ent::new(3, 5, (i % 251) as u16, (i / 251) as u16, i / 2, 7),
                    _ => Ent::new((i % 4) as u8, (i / 4 % 16) as u8, (i % 13) as u16, (i % 7) as u16, i, 7),
                };
                if by == 0 || (by == 2 && i % 3 == 0) {
                    b.append(&gk(k), vec![e.grid()]).map_err(es("append"))?;
                } else {
                    b.compact_append(&gk(k), e.relev(), e.score, e.id, e.hash, &[e.xy()]);
                }
                c.entry(k).or_default().insert(e);
                if i == n / 3 {
                    match event {
                        0 => {}
                        1 => {
                            b.insert(&gk(k), vec![]).map_err(es("insert"))?;
                            c.insert(k, BTreeSet::new());
                        }
                        2 => {
                            b.insert(&gk(k), vec![e.grid()]).map_err(es("insert"))?;
                            c.insert(k, [e].into_iter().collect());
                        }
                        _ => {
                            let map: Vec<u32> = (0..nk).map(|p| p * 2 % nk + if nk % 2 == 0 { p } else { 0 }).collect();
                            b.renumber(&map).map_err(es("renumber"))?;
                            c = c.into_iter().map(|((p, l), v)| ((map[p as usize], l), v)).collect();
                            phrase = phrase.iter().map(|p| map[*p as usize]).collect();
                        }
                    }
                }
            }
            t.state(&(n, nk, by, to, event));
            t.trace(n as u64);
            b.finish().map_err(es("finish"))?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c).map_err(|e| format!("{} calls: {:.600}", n, e))
        },
    );
}

/// Tables of new numbers of every length, for few phrases and many.
fn renumber_sizes(ctx: &mut Ctx) {
    let counts: Vec<u32> = ctx.by(
        vec![1, 2, 3, 255, 256, 257, 1023, 1025, 4097, 10_001, 65_535, 65_536, 65_537, 100_001],
        (1..=300).chain([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4097, 9999, 10_001, 32_768, 32_769, 65_535, 65_536, 65_537, 100_001, 131_073, 1_000_001]).collect(),
    );
    ctx.family(
        "renumber",
        &format!("tables of {} lengths up to {}: turned around, moved by one, spread over all of 32 bits, in jumps or the same; for the first, middle and last phrase, or for every phrase up to 5000; right, or too short by one, or with the first and last, the last two or the first two the same; three language sets; renumbered once or back again", counts.len(), counts.last().unwrap()),
        counts.len() as u64 * 5 * 2 * 5 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts);
            let how = d.below(5);
            let all = d.flag();
            let wrong = d.below(5);
            let back = d.flag();
            if all && n > 5000 || wrong > 1 && n < 3 {
                return Ok(());
            }
            let mut map: Vec<u32> = (0..n)
                .map(|i| match how {
                    0 => n - 1 - i,
                    1 => (i + 1) % n,
                    2 => u32::MAX - i.wrapping_mul(4241),
                    3 => (i as u64 * 7919 % n as u64) as u32 * if n % 7919 == 0 { 0 } else { 1 },
                    _ => i,
                })
                .collect();
            if n % 7919 == 0 && how == 3 {
                return Ok(());
            }
            let phrases: Vec<u32> = if all { (0..n).collect() } else { [0, 1, n / 2, n.saturating_sub(2), n - 1].iter().filter(|p| **p < n).cloned().collect() };
            match wrong {
                1 => {
                    map.pop();
                }
                2 => *map.last_mut().unwrap() = map[0],
                3 => *map.last_mut().unwrap() = map[n as usize - 2],
                4 => map[0] = map[1],
                _ => {}
            }
            let mut c = Content::new();
            let langs = [1u128, u128::MAX, 0];
            for p in &phrases {
                // (those that are made the same have a language in common)
                for l in &langs[..1 + (*p as usize % 3)] {
                    c.insert((*p, *l), [Ent::new(3, (*p % 16) as u8, 1, 2, *p, *p as u8)].into_iter().collect());
                }
            }
            let s = Scratch::new();
            let mut b = builder(s.path())?;
            for (k, v) in &c {
                b.insert(&gk(*k), v.iter().map(|e| e.grid()).collect()).map_err(es("insert"))?;
            }
            t.state(&(n, how, all, wrong, back));
            t.trace(c.len() as u64);
            let ok = b.renumber(&map).is_ok();
            if ok != (wrong == 0) {
                return Err(format!("a table of {}, {} phrases, case {} of wrong: {}", map.len(), phrases.len(), wrong, if ok { "accepted" } else { "refused" }));
            }
            if ok {
                c = c.into_iter().map(|((p, l), v)| ((map[p as usize], l), v)).collect();
                if back && how != 2 {
                    let mut inverse = vec![0u32; n as usize];
                    for (i, m) in map.iter().enumerate() {
                        inverse[*m as usize] = i as u32;
                    }
                    b.renumber(&inverse).map_err(es("renumber back"))?;
                    c = c.into_iter().map(|((p, l), v)| ((inverse[p as usize], l), v)).collect();
                }
            }
            b.finish().map_err(es("finish"))?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c).map_err(|e| format!("a table of {}: {:.600}", n, e))
        },
    );
}

pub fn c03(ctx: &mut Ctx) {
    let langs = lang_pool();
    let phrases = [0u32, 1, 255, 256, 65536, 0x0100_0000, u32::MAX - 1, u32::MAX];
    let mut keys: Vec<Key> = Vec::new();
    for p in phrases {
        for l in &langs {
            keys.push((p, *l));
        }
    }
    let value = |i: usize| -> BTreeSet<Ent> {
        [Ent::new(3, (i % 16) as u8, i as u16, 1, i as u32, 0)].into_iter().collect()
    };
    let pairs = subsets(keys.len(), 0, 2);
    let bins: [&[u32]; 3] = [&[], &[0, 2, u32::MAX], &[1, 256]];
    ctx.family(
        "pairs",
        "every store with up to 2 keys out of 8 phrases x 14 language sets at the edges of their encoding, with and without prefix bins; every one of the 112 keys looked up",
        pairs.len() as u64 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let bounds = *d.pick(&bins);
            let chosen = d.pick(&pairs);
            let c: Content = chosen.iter().map(|i| (keys[*i], value(*i))).collect();
            t.state(&c);
            t.trace(chosen.len() as u64 + keys.len() as u64);
            t.sample(|| format!("{:?}", c.keys().collect::<Vec<_>>()));
            let s = build(&c, bounds)?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)?;
            for k in &keys {
                let found = g.get(&gk(*k)).map_err(es("get"))?.is_some();
                if found != c.contains_key(k) {
                    return Err(format!("get {:?} finds {} in {:?}", k, found, c.keys()));
                }
            }
            Ok(())
        },
    );
    // one phrase, every subset of the language sets
    let bits = langs.len();
    ctx.family(
        "languages",
        "every subset of the 14 language sets on one phrase (2 phrases), with neighbours",
        2 << bits,
        |case, t| {
            let mut d = Digits::new(case);
            let p = *d.pick(&[7u32, u32::MAX]);
            let set = d.below(1 << bits);
            let mut c = Content::new();
            for (i, l) in langs.iter().enumerate() {
                if set >> i & 1 == 1 {
                    c.insert((p, *l), value(i));
                }
            }
            c.insert((6, 1), value(99));
            c.insert((8, u128::MAX), value(98));
            t.state(&set);
            t.trace(c.len() as u64);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)?;
            for l in &langs {
                if g.get(&gk((p, *l))).map_err(es("get"))?.is_some() != c.contains_key(&(p, *l)) {
                    return Err(format!("get {:?}", (p, l)));
                }
            }
            Ok(())
        },
    );
    many_keys(ctx, 2);
    // language sets by which of their bytes are zero
    ctx.family(
        "bytes",
        "all language sets whose 16 bytes are 0 or one of 3 other values each, by every choice of the bytes that are 0: 64 of them in a store at a time, every one looked up in its own store and in the next",
        1024 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let byte = *d.pick(&[1u128, 0x80, 0xFF]);
            let block = d.below(1024) as u32;
            let lang = |set: u32| -> u128 { (0..16).filter(|i| set >> i & 1 == 1).map(|i| byte << (8 * i)).sum() };
            let c: Content = (0..64u32).map(|i| ((7, lang(block * 64 + i)), value(i as usize))).collect();
            t.state(&case);
            t.trace(64);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)?;
            for i in 0..64u32 {
                let k = (7, lang(((block + 1) % 1024) * 64 + i));
                if g.get(&gk(k)).map_err(es("get"))?.is_some() != c.contains_key(&k) {
                    return Err(format!("get {:?}", k));
                }
            }
            Ok(())
        },
    );
    let mut ns: Vec<u32> = vec![];
    for b in [255u32, 256, 1000, 1024, 4096, 10_000, 65_536, 100_000] {
        ns.extend([b - 1, b, b + 1]);
    }
    if ctx.thorough() {
        ns.extend([1 << 17, 1_000_001]);
    }
    ctx.family(
        "many-entries",
        &format!("keys of {:?} entries, on tiles of their own, all on one tile, or a few on each tile and of all relevances and scores; between smaller keys", ns),
        ns.len() as u64 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let how = d.below(3);
            let e = |i: u32| match how {
                0 => Ent::new(3, 3, (i % 317) as u16, (i / 317) as u16, i % 1000, 0),
                1 => Ent::new(2, 15, 5, 9, i, (i % 256) as u8),
                _ => Ent::new((i % 4) as u8, (i / 4 % 16) as u8, (i / 64 % 61) as u16, (i / 4000) as u16, i, 7),
            };
            let mut c = Content::new();
            c.insert((6, 1), value(3));
            c.insert((7, 9), (0..n).map(e).collect());
            c.insert((7, u128::MAX), value(5));
            t.state(&(n, how));
            t.trace(n as u64);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c).map_err(|e| format!("{} entries: {:.400}", n, e))
        },
    );
    // every single-bit and every run-of-bits language set keeps its identity
    let runs: Vec<u128> = {
        let mut v = Vec::new();
        for lo in 0..128u32 {
            for len in [1u32, 2, 8, 9, 128] {
                let m = if len >= 128 { u128::MAX } else { (1u128 << len) - 1 };
                v.push(m << lo);
            }
        }
        v.sort();
        v.dedup();
        v
    };
    ctx.family(
        "bits",
        "all language sets that are one run of bits (1, 2, 8, 9 or all bits long, at every position), all in one store",
        4,
        |case, t| {
            let p = [0u32, 1, 0x00FF_FFFF, u32::MAX][case as usize];
            let c: Content =
                runs.iter().enumerate().map(|(i, l)| ((p, *l), value(i))).collect();
            t.state(&case);
            t.trace(c.len() as u64);
            let s = build(&c, &[])?;
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            check_content(&g, &c)?;
            // language matching, bit by bit
            for q in 0..128 {
                let mk = MatchKey { match_phrase: MatchPhrase::Exact(p), lang_set: 1u128 << q };
                let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
                same_matches(&query(&g, &mk, &o, 10_000)?, &matches(&c, &mk, &o, 0.0), false)?;
            }
            Ok(())
        },
    );
}

pub fn c05(ctx: &mut Ctx) {
    // phrases 0..6 and the last two there are; bins with sorted boundaries out of this pool
    let ends = [0u32, 1, 2, 3, 5, 6, u32::MAX - 1, u32::MAX];
    let bins: Vec<Vec<u32>> = subsets(ends.len(), 0, 4)
        .into_iter()
        .map(|s| s.into_iter().map(|i| ends[i]).collect())
        .collect();
    let phrases = [0u32, 1, 2, 4, 5, u32::MAX - 1, u32::MAX];
    let langs = [1u128, 2, u128::MAX];
    // a key holds one of these values; shared entries make bins merge
    let vals: Vec<BTreeSet<Ent>> = vec![
        [Ent::new(3, 1, 5, 5, 10, 0)].into_iter().collect(),
        [Ent::new(3, 1, 5, 5, 11, 0), Ent::new(1, 7, 1, 2, 10, 0)].into_iter().collect(),
    ];
    let keysets = subsets(phrases.len() * langs.len(), 1, ctx.by(3, 4));
    let opts = [
        MatchOpts { zoom: 6, ..MatchOpts::default() },
        MatchOpts { zoom: 6, bbox: Some([2, 2, 9, 9]), proximity: None },
        MatchOpts { zoom: 6, bbox: None, proximity: Some([1, 2]) },
    ];
    ctx.family(
        "bins",
        &format!("every choice of up to 4 sorted boundaries out of {:?}, every store of up to {} keys out of 7 phrases x 3 language sets; every range between boundaries, 2 query languages, plain, box and proximity", ends, ctx.by(3, 4)),
        bins.len() as u64 * keysets.len() as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let bounds = d.pick(&bins);
            let chosen = d.pick(&keysets);
            let c: Content = chosen
                .iter()
                .map(|i| ((phrases[i / 3], langs[i % 3]), vals[i % 2].clone()))
                .collect();
            t.state(&(bounds, &c));
            t.sample(|| format!("boundaries {:?}, keys {:?}", bounds, c.keys().collect::<Vec<_>>()));
            let s = build(&c, bounds)?;
            let conf = Conf { radius: 40.0, ..Conf::at(6) };
            let g = open(&s, &conf)?;
            check_content(&g, &c)?;
            let got: BTreeSet<u32> = g.bin_boundaries.iter().cloned().collect();
            if got != bounds.iter().cloned().collect() {
                return Err(format!("boundaries {:?} reopened as {:?}", bounds, got));
            }
            let mut steps = 0;
            for start in &ends {
                for end in &ends {
                    if start > end {
                        continue;
                    }
                    for lang in [1u128, 6] {
                        for o in &opts {
                            let q = MatchKey {
                                match_phrase: MatchPhrase::Range { start: *start, end: *end },
                                lang_set: lang,
                            };
                            let got = query(&g, &q, o, 1000)?;
                            steps += 1;
                            same_matches(&got, &matches(&c, &q, o, conf.radius), true).map_err(|e| {
                                format!("boundaries {:?}, keys {:?}, {:?}, {:?}: {}", bounds, c.keys(), q, o, e)
                            })?;
                        }
                    }
                }
            }
            t.trace(steps);
            Ok(())
        },
    );
    c05_many(ctx);
    c05_counts(ctx);
    // more keys per bin, dense phrases
    let dense = ctx.by(8, 10);
    let bsets = subsets(8, 2, 8);
    ctx.family(
        "dense",
        &format!("every subset of {} phrases x {} choices of boundaries among 0..8, entries in common", dense, bsets.len()),
        (1u64 << dense) * bsets.len() as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let set = d.below(1 << dense);
            let bounds: Vec<u32> = d.pick(&bsets).iter().map(|i| *i as u32).collect();
            let mut c = Content::new();
            for p in 0..dense as u32 {
                if set >> p & 1 == 1 {
                    let l = [1u128, 2, 1, 3][p as usize % 4];
                    c.insert((p, l), vals[0].clone());
                    c.get_mut(&(p, l)).unwrap().insert(Ent::new(p as u8 % 4, p as u8, 5, 5, 10 + p / 2, 0));
                }
            }
            t.state(&(set, &bounds));
            let s = build(&c, &bounds)?;
            let g = open(&s, &Conf::at(6))?;
            check_content(&g, &c)?;
            for (i, start) in bounds.iter().enumerate() {
                for end in &bounds[i..] {
                    let q = MatchKey {
                        match_phrase: MatchPhrase::Range { start: *start, end: *end },
                        lang_set: 1,
                    };
                    for o in &opts[..2] {
                        let got = query(&g, &q, o, 1000)?;
                        same_matches(&got, &matches(&c, &q, o, 40.0), true)
                            .map_err(|e| format!("{:?} {:?}: {}", bounds, q, e))?;
                        t.trace(1);
                    }
                }
            }
            Ok(())
        },
    );
}

/// Many language sets in a bin, many boundaries.
fn c05_counts(ctx: &mut Ctx) {
    let ns = ctx.by(vec![2u32, 15, 16, 17, 33, 65, 129, 257, 513], (2..300).chain([511, 512, 513, 1023, 1024, 1025, 4097]).collect::<Vec<_>>());
    ctx.family(
        "many-languages",
        &format!("{} numbers of language sets up to {} in one bin, alone or beside another bin, as runs of bits, as numbers or spread over all bits, with or without one of all languages and one of none; one phrase each or one for all; queries for every bit, for none, for all and for each of some sets", ns.len(), ns.last().unwrap()),
        ns.len() as u64 * 3 * 2 * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let kind = d.below(3);
            let ends = d.flag();
            let one = d.flag();
            let beside = d.flag();
            let lang = |i: u32| -> u128 {
                match kind {
                    0 if i < 128 => 1u128 << i,
                    0 => (1u128 << (i % 128)) | (1u128 << ((i / 128 + i) % 128)),
                    1 => i as u128 + 1,
                    _ => (0..16).filter(|b| (i + 1) >> b & 1 == 1).map(|b| 1u128 << (b * 8 + 3)).sum(),
                }
            };
            let mut c = Content::new();
            for i in 0..n {
                let p = if one { 7 } else { i };
                c.entry((p, lang(i))).or_default().insert(Ent::new((i % 4) as u8, (i % 16) as u8, (i % 60) as u16, (i % 7) as u16, i / 2, 0));
            }
            if ends {
                c.entry((0, 0)).or_default().insert(Ent::new(3, 1, 1, 1, 9000, 0));
                c.entry((1, u128::MAX)).or_default().insert(Ent::new(3, 1, 1, 1, 9001, 0));
            }
            let top = n.max(8);
            if beside {
                c.entry((top + 3, 5)).or_default().insert(Ent::new(2, 2, 2, 2, 9002, 0));
            }
            let bounds = vec![0, top, top + 10];
            t.state(&(n, kind, ends, one, beside));
            let s = build(&c, &bounds)?;
            let g = open(&s, &Conf::at(6))?;
            check_content(&g, &c).map_err(|e| format!("{:.400}", e))?;
            let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
            let mut langs: Vec<u128> = vec![0, 1, 1 << 3, 1 << 63, 1 << 64, 1 << 127, u128::MAX];
            langs.extend((0..128u32).step_by(if n > 100 { 17 } else { 5 }).map(|b| 1u128 << b));
            langs.extend((0..n).rev().step_by(1 + n as usize / 4).map(lang));
            for l in langs {
                let q = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: top }, lang_set: l };
                t.trace(1);
                same_matches(&query(&g, &q, &o, 100_000)?, &matches(&c, &q, &o, 40.0), true)
                    .map_err(|e| format!("{} language sets: {:?}: {:.400}", n, q, e))?;
            }
            Ok(())
        },
    );
    let mut ns: Vec<u32> = vec![];
    for b in [16u32, 256, 1000, 1024, 4096, 10_000, 65_536, 100_000] {
        ns.extend([b - 1, b, b + 1]);
    }
    if ctx.thorough() {
        ns.extend([1 << 20, 3_000_000]);
    }
    ctx.family(
        "many-boundaries",
        &format!("{:?} boundaries, from 0, from 200 or up to the highest ids, one or 3 apart: read back as they are, and ranges between the first, the last and the middle of them on a store of phrases there", ns),
        ns.len() as u64 * 3 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let step = *d.pick(&[1u32, 3]);
            let first = match d.below(3) {
                0 => 0,
                1 => 200,
                _ => u32::MAX - (n - 1) * step,
            };
            let bounds: Vec<u32> = (0..n).map(|i| first + i * step).collect();
            let mut c = Content::new();
            let marks: BTreeSet<u32> = [0, 1, n / 2, n - 2, n - 1].into_iter().map(|i| bounds[i as usize]).collect();
            for (j, b) in marks.iter().enumerate() {
                c.entry((*b, 1)).or_default().insert(Ent::new(3, 1, 5, 5, j as u32, 0));
                c.entry((b.saturating_add(1), 2)).or_default().insert(Ent::new(2, 1, 5, 5, j as u32, 0));
            }
            t.state(&(n, step, first));
            let s = build(&c, &bounds)?;
            let g = open(&s, &Conf::at(6))?;
            if g.bin_boundaries.len() != n as usize || bounds.iter().any(|b| !g.bin_boundaries.contains(b)) {
                return Err(format!("{} boundaries from {} by {}: {} of them are there after opening", n, first, step, g.bin_boundaries.len()));
            }
            check_content(&g, &c).map_err(|e| format!("{:.400}", e))?;
            let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
            for a in &marks {
                for b in marks.range(a..) {
                    let q = MatchKey { match_phrase: MatchPhrase::Range { start: *a, end: *b }, lang_set: 1 };
                    t.trace(1);
                    same_matches(&query(&g, &q, &o, 100_000)?, &matches(&c, &q, &o, 40.0), true)
                        .map_err(|e| format!("{} boundaries from {} by {}: {:?}: {:.400}", n, first, step, q, e))?;
                }
            }
            Ok(())
        },
    );
}

pub fn c05_many(ctx: &mut Ctx) {
    let sizes: Vec<u32> = ctx.by(vec![40, 300], vec![17, 40, 100, 256, 300, 513, 1000]);
    let steps = [1u32, 2, 3, 7, 16, 33, 64, 100];
    ctx.family(
        "many",
        &format!("stores of {:?} phrases with bins of {:?} phrases each or with a bin that covers all, starting at 0, 5 or behind a gap; entries of all relevances and scores, shared or not; three languages; ranges between every 7th pair of boundaries, plain, in boxes, with proximity", sizes, steps),
        (sizes.len() * steps.len()) as u64 * 3 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&sizes);
            let step = *d.pick(&steps);
            let shift = *d.pick(&[0u32, 5, 0x0001_0000]);
            let shared = d.below(3);
            let mut c = Content::new();
            for p in 0..n {
                if p % 11 == 3 {
                    continue;
                }
                let l = [1u128, 2, u128::MAX][(p % 3) as usize];
                let v = c.entry((p + shift, l)).or_default();
                for j in 0..1 + p % 3 {
                    v.insert(match shared {
                        0 => Ent::new((p % 4) as u8, (p % 16) as u8, (p % 60) as u16, j as u16, p * 4 + j, 0),
                        1 => Ent::new((j % 4) as u8, (p % 2) as u8, 5, (p % 9) as u16, j, 0),
                        _ => Ent::new(3, 1, (j % 2) as u16, (p / 50) as u16, p % 10, (p % 3) as u8),
                    });
                }
            }
            let mut bounds: Vec<u32> = (0..=n).step_by(step as usize).map(|b| b + shift).collect();
            if step == 100 {
                bounds = vec![shift, shift + n];
            }
            t.state(&(n, step, shift, shared));
            let s = build(&c, &bounds)?;
            let g = open(&s, &Conf::at(6))?;
            check_content(&g, &c).map_err(|e| format!("{:.400}", e))?;
            let mut opts = vec![MatchOpts { zoom: 6, ..MatchOpts::default() }];
            opts.push(MatchOpts { zoom: 6, bbox: Some([3, 0, 20, 4]), proximity: None });
            opts.push(MatchOpts { zoom: 6, bbox: None, proximity: Some([4, 4]) });
            opts.push(MatchOpts { zoom: 6, bbox: Some([0, 0, 20, 4]), proximity: Some([9, 1]) });
            let m = bounds.len();
            for (k, (i, j)) in (0..m).flat_map(|i| (i + 1..m).map(move |j| (i, j))).enumerate() {
                if m > 6 && k % 7 != 0 && k % (m * 13) != 1 && !(i == 0 && j + 1 == m) {
                    continue;
                }
                if m > 100 && k % 5 != 0 {
                    continue;
                }
                let q = MatchKey { match_phrase: MatchPhrase::Range { start: bounds[i], end: bounds[j] }, lang_set: 1 };
                let o = &opts[k % 4];
                t.trace(1);
                same_matches(&query(&g, &q, o, 100_000)?, &matches(&c, &q, o, 40.0), true)
                    .map_err(|e| format!("{} phrases, steps of {} from {}: {:?} {:?}: {}", n, step, shift, q, o, e))?;
            }
            Ok(())
        },
    );
}

/// Content with two phrases per bin and several languages, used by the crash and fault checks.
pub fn small_contents() -> Vec<(Content, Vec<u32>)> {
    let e = |i: u32| -> BTreeSet<Ent> {
        [Ent::new(3, 1, 5, 5, i, 0), Ent::new(2, i as u8, 5, 6, i, 1)].into_iter().collect()
    };
    let mut out = Vec::new();
    let keys: [Key; 5] = [(0, 1), (1, 1), (1, 2), (2, u128::MAX), (9, 1)];
    for set in 0u32..32 {
        let mut c: Content = BTreeMap::new();
        for (i, k) in keys.iter().enumerate() {
            if set >> i & 1 == 1 {
                c.insert(*k, e(i as u32 + 1));
            }
        }
        for b in [vec![], vec![0], vec![0, 2], vec![0, 1, 9], vec![1, 5, 20]] {
            out.push((c.clone(), b));
        }
    }
    out
}
