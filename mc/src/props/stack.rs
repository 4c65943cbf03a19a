//! C18 the stacking tree, C19 its culling, C21 merging subqueries, C23 the bounded queue,
//! C24 grouping.
use crate::coal::{KeySpec, Sub, World};
use carmen_core::gridstore::*;
use mc::ctx::*;
use mc::model::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// Stores without content: one per type, at various zooms.
fn types(n: usize) -> Result<World, String> {
    World::new((0..n).map(|i| (Content::new(), Conf { type_id: [0u16, 1, 5, 6, 40, 41, 999, 65535][i], ..Conf::at([6u16, 6, 4, 14, 9, 0, 16, 3][i]) })).collect())
}

/// equal but for rounding
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1.0)
}

struct Tree {
    /// each path of the tree from the root, as positions in the list of subqueries
    paths: BTreeMap<Vec<usize>, f64>,
    leaves: Vec<f64>,
    root_max: f64,
}

/// Walks the tree and checks each node against the path that leads to it.
fn walk(subs: &[Sub], w: &World, real: &Vec<PhrasematchSubquery<&GridStore>>, cap: usize) -> Result<Tree, String> {
    let tree = stackable(real);
    let mut out = Tree { paths: BTreeMap::new(), leaves: Vec::new(), root_max: tree.root.max_relev };
    if tree.root.phrasematch.is_some() || tree.root.mask != 0 {
        return Err(format!("the root has mask {} and a subquery: {}", tree.root.mask, tree.root.phrasematch.is_some()));
    }
    // depth first; each frame is a node, its place in its children, and the best seen below it
    struct Frame<N> {
        node: N,
        next: usize,
        total: f64,
        best: f64,
        alive: usize,
    }
    let mut path: Vec<usize> = Vec::new();
    let mut frames = vec![Frame { node: &tree.root, next: 0, total: 0.0, best: 0.0, alive: 0 }];
    while !frames.is_empty() {
        let f = frames.last_mut().unwrap();
        if f.next < f.node.children.len() {
            let at = f.node.children[f.next];
            f.next += 1;
            let (mask, total) = (f.node.mask, f.total);
            if let Some(child) = tree.arena.get(at) {
                f.alive += 1;
                let pm = child.phrasematch.ok_or("a node without a subquery")?;
                let i = real.iter().position(|r| std::ptr::eq(r, pm)).ok_or("a subquery that was not given")?;
                let s = &subs[i];
                if mask & s.mask != 0 {
                    return Err(format!("below {:?}: {} shares a bit", path, i));
                }
                if let Some(p) = path.last() {
                    let (a, b) = (w.confs[subs[*p].store].type_id, w.confs[s.store].type_id);
                    if a >= b {
                        return Err(format!("{} of type {} below {} of type {}", i, b, p, a));
                    }
                    if s.excl.contains(&subs[*p].idx) {
                        return Err(format!("{} excludes {} and is below it", i, p));
                    }
                }
                if child.mask != mask | s.mask || child.idx != s.idx || child.zoom != w.confs[s.store].zoom {
                    return Err(format!(
                        "node {} below {:?}: mask {}, idx {}, zoom {}",
                        i, path, child.mask, child.idx, child.zoom
                    ));
                }
                if child.is_leaf() != child.children.is_empty() {
                    return Err("is_leaf".into());
                }
                path.push(i);
                let total = total + s.weight;
                if out.paths.insert(path.clone(), total).is_some() {
                    return Err(format!("{:?} is in the tree twice", path));
                }
                if out.paths.len() > cap {
                    return Err(format!("more than {} stacks are in the tree", cap));
                }
                frames.push(Frame { node: child, next: 0, total, best: total, alive: 0 });
            }
            continue;
        }
        let f = frames.pop().unwrap();
        if !close(f.node.max_relev, f.best) {
            return Err(format!("{:?} has maximum {}, the best below it is {}", path, f.node.max_relev, f.best));
        }
        if !path.is_empty() && f.alive == 0 {
            out.leaves.push(f.total);
        }
        path.pop();
        if let Some(p) = frames.last_mut() {
            if f.best > p.best {
                p.best = f.best;
            }
        }
    }
    Ok(out)
}

struct Full {
    /// each permitted stack with its total weight, the best total reachable through it, and
    /// whether nothing can go below it
    stacks: BTreeMap<Vec<usize>, (f64, f64, bool)>,
    capped: bool,
}

fn full(subs: &[Sub], w: &World, cap: usize) -> Full {
    fn go(subs: &[Sub], w: &World, path: &mut Vec<usize>, mask: u32, total: f64, out: &mut Full, cap: usize) -> f64 {
        let mut best = total;
        let mut leaf = true;
        for (i, s) in subs.iter().enumerate() {
            if out.stacks.len() > cap {
                out.capped = true;
                return best;
            }
            let ok = s.mask & mask == 0
                && path.last().map_or(true, |p| {
                    w.confs[subs[*p].store].type_id < w.confs[s.store].type_id && !s.excl.contains(&subs[*p].idx)
                });
            if ok {
                leaf = false;
                path.push(i);
                let b = go(subs, w, path, mask | s.mask, total + s.weight, out, cap);
                path.pop();
                if b > best {
                    best = b;
                }
            }
        }
        if !path.is_empty() {
            out.stacks.insert(path.clone(), (total, best, leaf));
        }
        best
    }
    let mut out = Full { stacks: BTreeMap::new(), capped: false };
    go(subs, w, &mut Vec::new(), 0, 0.0, &mut out, cap);
    out
}

fn check_tree(subs: &[Sub], w: &World, t: &mut Tally) -> Result<(), String> {
    let real = w.subqueries(subs);
    let want = full(subs, w, 200_000);
    let got = walk(subs, w, &real, 200_000)?;
    t.trace(want.stacks.len() as u64);
    t.outcome(&want.stacks.keys().collect::<Vec<_>>());
    for p in want.stacks.keys() {
        if !got.paths.contains_key(p) {
            return Err(format!("stack {:?} is missing", p));
        }
    }
    if let Some(p) = got.paths.keys().find(|p| !want.stacks.contains_key(*p)) {
        return Err(format!("stack {:?} is not permitted", p));
    }
    let best = want.stacks.values().map(|x| x.0).fold(0.0, f64::max);
    if !close(got.root_max, best) {
        return Err(format!("the root's maximum is {}, the best stack has {}", got.root_max, best));
    }
    Ok(())
}

const WS: [[f64; 5]; 3] = [[0.31, 0.32, 0.22, 0.14, 0.07], [0.25, 0.25, 0.25, 0.25, 0.25], [0.1, 0.5, 0.2, 0.2, 0.4]];

pub fn c18(ctx: &mut Ctx) {
    let w = match types(4) {
        Ok(w) => w,
        Err(e) => return ctx.family("setup", "", 1, |_, _| Err(e.clone())),
    };
    let key = |i: usize| vec![KeySpec::exact(i as u32, 1)];
    let ms = [1u32, 2, 4, 3, 6];
    ctx.family(
        "three",
        "up to three subqueries: every type of three, every mask of five, every set of exclusions among them, indexes of their own or one per type, three sets of weights",
        27 * 125 * 64 * 2 * 3 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = 3 - d.below(2) as usize;
            let ty: Vec<usize> = (0..3).map(|_| d.below(3) as usize).collect();
            let m: Vec<u32> = (0..3).map(|_| *d.pick(&ms)).collect();
            let ex = d.below(64);
            let own = d.flag();
            let wt = WS[d.below(3) as usize];
            let idx = |i: usize| if own { [0u16, 127, 64][i] } else { ty[i] as u16 };
            let mut subs: Vec<Sub> = (0..3).map(|i| Sub::new(ty[i], idx(i), m[i], wt[i], key(i))).collect();
            for a in 0..3 {
                for b in 0..2 {
                    if ex >> (a * 2 + b) & 1 == 1 {
                        let o = idx((a + b + 1) % 3);
                        subs[a].excl.push(o);
                    }
                }
            }
            subs.truncate(n);
            t.state(&(n, &ty, &m, ex, own));
            check_tree(&subs, &w, t)
        },
    );
    let ms4 = [1u32, 2, 4, 5];
    let exs = ctx.by(13u64, 13 * 13);
    ctx.family(
        "four",
        "four subqueries: every type of four, every mask of four, one exclusion or none (two in the thorough tier), three sets of weights",
        256 * 256 * exs * ctx.by(1, 3),
        |case, t| {
            let mut d = Digits::new(case);
            let ty: Vec<usize> = (0..4).map(|_| d.below(4) as usize).collect();
            let m: Vec<u32> = (0..4).map(|_| *d.pick(&ms4)).collect();
            let ex = d.below(exs);
            let wt = WS[d.below(3) as usize];
            let mut subs: Vec<Sub> = (0..4).map(|i| Sub::new(ty[i], i as u16 + 1, m[i], wt[i], key(i))).collect();
            for e in [ex % 13, ex / 13] {
                if e > 0 {
                    let (a, b) = ((e as usize - 1) / 3, (e as usize - 1) % 3);
                    let idx = subs[(a + b + 1) % 4].idx;
                    subs[a].excl.push(idx);
                }
            }
            t.state(&(&ty, &m, ex));
            check_tree(&subs, &w, t)
        },
    );
    // the whole range of each of the values that decide
    let ids = [0u16, 1, 2, 127, 128, 129, 255, 256, 257, 258, 511, 512, 1024, 32767, 32768, 32769, 65280, 65534, 65535];
    let wt = World::new(ids.iter().enumerate().map(|(i, id)| (Content::new(), Conf { type_id: *id, ..Conf::at(i as u16 % 17) })).collect());
    ctx.family("type-ids", &format!("three subqueries of every three of the types {:?}", ids), (ids.len() as u64).pow(3), |case, t| {
        let w = wt.as_ref().map_err(|e| e.clone())?;
        let mut d = Digits::new(case);
        let subs: Vec<Sub> = (0..3).map(|i| Sub::new(d.below(ids.len() as u64) as usize, i as u16, 1 << i, WS[0][i], key(i))).collect();
        t.state(&case);
        check_tree(&subs, w, t)
    });
    let masks: Vec<u32> = (0..32).map(|b| 1u32 << b).chain((0..32).map(|b| !(1u32 << b))).chain([0, u32::MAX, 0xffff, 0xffff_0000, 0x7fff_ffff, 0xff, 0xff00_0000]).collect();
    ctx.family("masks", &format!("three subqueries of three types, the masks of two any of {}: every bit, all but every bit, none, all and halves; the third mask of 3", masks.len()), (masks.len() as u64).pow(2) * 3 * 3, |case, t| {
        let mut d = Digits::new(case);
        let (a, b, c) = (*d.pick(&masks), *d.pick(&masks), *d.pick(&[1u32 << 31, 1, 6]));
        let mut m = vec![a, b];
        m.insert(d.below(3) as usize, c);
        let subs: Vec<Sub> = (0..3).map(|i| Sub::new(i, i as u16, m[i], WS[0][i], key(i))).collect();
        t.state(&m);
        check_tree(&subs, &w, t)
    });
    ctx.family("indexes", "three subqueries of three types, the first with any index from 0 to 127; the others exclude one index, any of these, or all but it", 128 * 128 * 2, |case, t| {
        let mut d = Digits::new(case);
        let (idx, e, but) = (d.below(128) as u16, d.below(128) as u16, d.flag());
        let mut subs: Vec<Sub> = (0..3).map(|i| Sub::new(i, if i == 0 { idx } else { (idx + 60 * i as u16) % 128 }, 1 << i, WS[0][i], key(i))).collect();
        for s in &mut subs[1..] {
            s.excl = if but { (0..128).filter(|i| *i != e).collect() } else { vec![e] };
        }
        t.state(&(idx, e, but));
        check_tree(&subs, &w, t)
    });
    // weights of very different sizes, where sums lose their small parts
    let weights = [1.0, 0.0, 1e-12, 1e-3, 0.1, 1.0 / 3.0, 1e3, 1e9];
    ctx.family("weights", &format!("four subqueries of two to four types with every choice of the weights {:?}", weights), (weights.len() as u64).pow(4) * 4, |case, t| {
        let mut d = Digits::new(case);
        let ws: Vec<f64> = (0..4).map(|_| *d.pick(&weights)).collect();
        let ty = *d.pick(&[[0usize, 1, 2, 3], [0, 0, 1, 1], [0, 1, 1, 2], [3, 2, 1, 0]]);
        let subs: Vec<Sub> = (0..4).map(|i| Sub::new(ty[i], i as u16, 1 << i, ws[i], key(i))).collect();
        t.state(&(&ty, case));
        check_tree(&subs, &w, t)
    });
    // many subqueries, still below the limit
    let w8 = types(8);
    ctx.family(
        "wide",
        "2 to 8 types with 1 to 6 subqueries each, masks one bit per type, per place in its type, or mixed; chains of exclusions; as far as there are fewer than 2000 leaves",
        7 * 6 * 4 * 3 * 3,
        |case, t| {
            let w8 = w8.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let nt = d.below(7) as usize + 2;
            let per = d.below(6) as usize + 1;
            let masks = d.below(4);
            let ex = d.below(3);
            let wt = d.below(3);
            let subs = grid_of(nt, per, masks, ex, wt);
            let f = full(&subs, w8, 30_000);
            if f.capped || f.stacks.values().filter(|x| x.2).count() >= 2000 {
                return Ok(());
            }
            t.state(&(nt, per, masks, ex));
            check_tree(&subs, w8, t)
        },
    );
    // one type with many
    let ns: Vec<usize> = ctx.by(vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1500, 1990], (1..260).chain([300, 499, 500, 501, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025, 1200, 1500, 1800, 1990, 1999]).collect());
    ctx.family(
        "counts",
        &format!("{} numbers up to {} of subqueries of one type, alone, with one or two of another type or of two others, that come before, between or after; of one index or of their own; weights rising, falling, equal or one apart; as far as there are fewer than 2000 leaves", ns.len(), ns.last().unwrap()),
        ns.len() as u64 * 4 * 3 * 2 * 4,
        |case, t| {
            let w = &w;
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let others: &[usize] = *d.pick(&[&[][..], &[1], &[2], &[1, 1]]);
            let at = d.below(3) as usize;
            let own = d.flag();
            let wt = d.below(4);
            let weight = |i: usize| match wt {
                0 => 0.9 * (i + 1) as f64 / n as f64,
                1 => 0.9 - 0.8 * i as f64 / n as f64,
                2 => 0.25,
                _ => if i == n / 2 { 0.5 } else { 0.125 },
            };
            if at > others.len() || n * others.iter().product::<usize>() > 2100 {
                return Ok(());
            }
            let mut subs = Vec::new();
            let mut o = others.iter();
            for ty in 0..=others.len() {
                if ty == at {
                    subs.extend((0..n).map(|i| Sub::new(ty, if own { 3 + (i % 125) as u16 } else { ty as u16 }, 1 << ty, weight(i), key(i))));
                } else {
                    let k = *o.next().unwrap();
                    subs.extend((0..k).map(|i| Sub::new(ty, ty as u16, 1 << ty, 0.1 + 0.1 * i as f64, key(5000 + i))));
                }
            }
            let f = full(&subs, w, 30_000);
            if f.capped || f.stacks.values().filter(|x| x.2).count() >= 2000 {
                return Ok(());
            }
            t.state(&case);
            check_tree(&subs, w, t).map_err(|e| format!("{} subqueries: {:.600}", n, e))
        },
    );
    // long stacks
    let w40 = World::new((0..40).map(|i| (Content::new(), Conf { type_id: i * 7, ..Conf::at(i % 17) })).collect());
    ctx.family(
        "chain",
        "1 to 40 types with a subquery each, of masks of their own, all of none, or every fourth of none; each goes with nothing but the one to three types before it; weights rising, falling or equal; one more of the first or of the last type, or none; as far as there are fewer than 2000 leaves",
        40 * 3 * 3 * 3 * 3,
        |case, t| {
            let w = w40.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let n = d.below(40) as usize + 1;
            let masks = d.below(3);
            let gap = d.below(3) as usize + 1;
            let wt = d.below(3);
            let more = d.below(3);
            let mut subs: Vec<Sub> = (0..n)
                .map(|i| {
                    let mask = if masks == 1 || i >= 32 || (masks == 2 && i % 4 == 3) { 0 } else { 1u32 << i };
                    let weight = [0.02, 0.001 * (i + 1) as f64, 0.05 - 0.001 * i as f64][wt as usize];
                    let mut s = Sub::new(i, i as u16, mask, weight, key(i));
                    s.excl = (0..n as u16).filter(|j| (*j as usize) + gap < i || *j as usize >= i).collect();
                    s
                })
                .collect();
            match more {
                0 => {}
                1 => subs.push(Sub::new(0, 0, 1, 0.03, key(900))),
                _ => subs.push(Sub::new(n - 1, n as u16 - 1, 1 << 31, 0.03, key(900))),
            }
            let f = full(&subs, w, 30_000);
            if f.capped || f.stacks.values().filter(|x| x.2).count() >= 2000 {
                return Ok(());
            }
            t.state(&case);
            check_tree(&subs, w, t).map_err(|e| format!("{} types: {:.600}", n, e))
        },
    );
}

/// `per` subqueries for each of `nt` types
fn grid_of(nt: usize, per: usize, masks: u64, ex: u64, wt: u64) -> Vec<Sub> {
    let mut subs = Vec::new();
    for ty in 0..nt {
        for j in 0..per {
            let mask = match masks {
                0 => 1 << ty,
                1 => 1 << (j % 30),
                2 => 1 << ((ty + j) % 5),
                _ => [1u32, 6, 8, 48, 2, 4][(ty * 2 + j) % 6],
            };
            let weight = match wt {
                0 => 0.01 * (1 + ty * per + j) as f64,
                1 => 0.125,
                2 => 0.5 / (1.0 + (ty * 3 + j * 7) as f64),
                3 => [0.1, 0.2, 0.3][(ty + j) % 3],
                _ => 0.2 - 0.003 * (ty * per + j) as f64,
            };
            let idx = (ty * per + j) as u16;
            let mut s = Sub::new(ty, idx, mask, weight, vec![KeySpec::exact(idx as u32, 1)]);
            match ex {
                1 if ty > 0 => s.excl.push(((ty - 1) * per + j) as u16),
                2 => s.excl.extend((0..ty as u16 * per as u16).filter(|i| (i + j as u16) % 2 == 0)),
                _ => {}
            }
            subs.push(s);
        }
    }
    subs
}

/// the highest total weight of any permitted stack, without listing them: states are the last
/// subquery and the mask
fn best_total(subs: &[Sub], w: &World) -> f64 {
    let mut order: Vec<usize> = (0..subs.len()).collect();
    order.sort_by_key(|i| w.confs[subs[*i].store].type_id);
    let mut at: BTreeMap<(usize, u32), f64> = BTreeMap::new();
    let mut best: f64 = 0.0;
    for &i in &order {
        let s = &subs[i];
        let mut new: Vec<((usize, u32), f64)> = vec![((i, s.mask), s.weight)];
        for ((p, m), v) in &at {
            if m & s.mask == 0 && w.confs[subs[*p].store].type_id < w.confs[s.store].type_id && !s.excl.contains(&subs[*p].idx) {
                new.push(((i, m | s.mask), v + s.weight));
            }
        }
        for (k, v) in new {
            best = best.max(v);
            let e = at.entry(k).or_insert(v);
            if v > *e {
                *e = v;
            }
        }
    }
    best
}

pub fn c19(ctx: &mut Ctx) {
    let w8 = types(8);
    let pers: Vec<usize> = ctx.by(vec![3, 4, 6, 9, 13, 14, 45, 46], (2..=50).collect());
    let cap = ctx.by(150_000usize, 600_000);
    ctx.family(
        "grids",
        &format!("2 to 8 types with {:?} subqueries each, one-bit masks per type or mixed, chains of exclusions, 5 sets of weights (many ties, few, none), given by rising or falling type: wherever there are 2000 to about {} stacks", pers, cap),
        7 * pers.len() as u64 * 4 * 3 * 5 * 2,
        |case, t| {
            let w8 = w8.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let nt = d.below(7) as usize + 2;
            let per = *d.pick(&pers);
            let masks = d.below(4);
            let ex = d.below(3);
            let wt = d.below(5);
            let rev = d.flag();
            if nt * per > 128 || (wt == 1 && masks == 0) {
                return Ok(());
            }
            let mut subs = grid_of(nt, per, masks, ex, wt);
            if subs.iter().any(|s| s.weight <= 0.0) {
                return Ok(());
            }
            if rev {
                subs.reverse();
            }
            let f = full(&subs, w8, cap);
            if f.capped || f.stacks.values().filter(|x| x.2).count() < 1900 {
                return Ok(());
            }
            t.state(&(nt, per, masks, ex, wt, rev));
            t.sample(|| format!("{} types of {}: {} stacks", nt, per, f.stacks.len()));
            let real = w8.subqueries(&subs);
            let got = walk(&subs, w8, &real, f.stacks.len())?;
            t.trace(f.stacks.len() as u64);
            t.outcome(&(got.paths.len(), got.leaves.len()));
            judge_culled(&f, &got)
        },
    );
    // sizes around the limit: two types, a leaf more or less at a time
    ctx.family(
        "edge",
        "two types of 44 or 45 subqueries of the first and 44 to 48 of the second, so that there are just under or over 2000 leaves, up to three more of a third type, 4 sets of weights",
        2 * 5 * 4 * 4 * 2,
        |case, t| {
            let w8 = w8.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let na = 44 + d.below(2) as usize;
            let nb = 44 + d.below(5) as usize;
            let nc = d.below(4) as usize;
            let wt = d.below(4);
            let rev = d.flag();
            let mut subs = Vec::new();
            let weight = |i: usize| match wt {
                0 => 0.3 + 0.001 * i as f64,
                1 => 0.4 - 0.001 * i as f64,
                2 => [0.1, 0.2, 0.4][i % 3],
                _ => 0.25 + (i % 7) as f64 / 64.0,
            };
            for i in 0..na {
                subs.push(Sub::new(0, i as u16, 1, weight(i), vec![KeySpec::exact(i as u32, 1)]));
            }
            for i in 0..nb {
                subs.push(Sub::new(1, 50 + i as u16, 2, weight(i), vec![KeySpec::exact(100 + i as u32, 1)]));
            }
            for i in 0..nc {
                subs.push(Sub::new(2, 110 + i as u16, 1 << (i % 3), weight(i), vec![KeySpec::exact(200 + i as u32, 1)]));
            }
            if rev {
                subs.reverse();
            }
            let f = full(&subs, w8, 400_000);
            t.state(&(na, nb, nc, wt, rev));
            let real = w8.subqueries(&subs);
            let got = walk(&subs, w8, &real, f.stacks.len())?;
            t.trace(f.stacks.len() as u64);
            t.outcome(&(got.paths.len(), got.leaves.len()));
            judge_culled(&f, &got)
        },
    );
    // beyond counting
    ctx.family(
        "vast",
        "5 to 8 types of 8 to 16 subqueries with masks of one bit per type and weights that differ: up to billions of stacks, judged by the best total and by what is in the tree",
        4 * 3 * 2 * 3,
        |case, t| {
            let w8 = w8.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let nt = d.below(4) as usize + 5;
            let per = [8usize, 11, 16][d.below(3) as usize];
            let ex = d.below(2);
            let how = d.below(3);
            let mut subs = grid_of(nt, per, 0, ex, 0);
            for (k, s) in subs.iter_mut().enumerate() {
                let (ty, j) = (k / per, k % per);
                s.weight = match how {
                    // the best few of each type stand out
                    0 => 0.12 / (1.0 + j as f64) + 0.0001 * ty as f64,
                    1 => 0.12 * 0.5f64.powi(j as i32),
                    _ => 0.1 - 0.00611 * j as f64 + 0.00013 * (ty * ty) as f64,
                };
            }
            t.state(&(nt, per, ex, how));
            let best = best_total(&subs, w8);
            let real = w8.subqueries(&subs);
            let got = walk(&subs, w8, &real, 3_000_000)?;
            t.trace(got.paths.len() as u64);
            if got.leaves.len() < 2000 {
                return Err(format!("only {} leaves are left", got.leaves.len()));
            }
            let top = got.paths.values().cloned().fold(0.0, f64::max);
            if (top - best).abs() > 1e-9 || (got.root_max - best).abs() > 1e-9 {
                return Err(format!("the best stack has {}, the tree {} and its root {}", best, top, got.root_max));
            }
            Ok(())
        },
    );
}

fn judge_culled(f: &Full, got: &Tree) -> Result<(), String> {
    let best = f.stacks.values().map(|x| x.0).fold(0.0, f64::max);
    let top = got.paths.values().cloned().fold(0.0, f64::max);
    if (top - best).abs() > 1e-9 || (got.root_max - best).abs() > 1e-9 {
        return Err(format!("the best stack has {}, the tree {} and its root {}", best, top, got.root_max));
    }
    if let Some(p) = got.paths.keys().find(|p| !f.stacks.contains_key(*p)) {
        return Err(format!("stack {:?} is not permitted", p));
    }
    let missing = f
        .stacks
        .iter()
        .filter(|(p, _)| !got.paths.contains_key(*p))
        .map(|(p, x)| (x.1, p))
        .fold(None, |a: Option<(f64, &Vec<usize>)>, b| if a.map_or(true, |a| b.0 > a.0) { Some(b) } else { a });
    if let Some((v, p)) = missing {
        let as_good = got.leaves.iter().filter(|l| **l >= v - 1e-9).count();
        if as_good < 2000 {
            return Err(format!("stack {:?} is missing, through which {} can be reached; only {} leaves are as good", p, v, as_good));
        }
    }
    Ok(())
}

// ---- C21

pub fn c21(ctx: &mut Ctx) {
    let w = types(2);
    let kinds = 3u64 * 2 * 2 * 3;
    let len = ctx.by(3u32, 4);
    ctx.family(
        "lists",
        &format!("every list of up to {} subqueries: 3 weights, two of them a rounding apart, 2 indexes, 2 masks, 0 to 2 keys", len),
        (0..=len).map(|l| kinds.pow(l)).sum(),
        |case, t| {
            let w = w.as_ref().map_err(|e| e.clone())?;
            let mut case = case;
            let mut l = 0;
            while case >= kinds.pow(l) {
                case -= kinds.pow(l);
                l += 1;
            }
            let mut d = Digits::new(case);
            let mut next = 0u32;
            let subs: Vec<Sub> = (0..l)
                .map(|_| {
                    let wt = *d.pick(&[0.3, 0.1 + 0.2, 0.5]);
                    let idx = d.below(2) as u16;
                    let mask = d.below(2) as u32 + 1;
                    let keys = (0..d.below(3))
                        .map(|_| {
                            next += 1;
                            KeySpec { nearby: next % 2 == 0, len: next as usize, langs: next as u128, ..KeySpec::range(next * 7, next, next + 3) }
                        })
                        .collect();
                    Sub { excl: vec![next as u16], ..Sub::new(idx as usize, idx, mask, wt, keys) }
                })
                .collect();
            check_merge(w, &subs, t)
        },
    );
    c21_many(ctx);
    // what tells subqueries and keys apart
    let mut diffs: Vec<(f64, u16, u32)> = vec![(0.3, 2, 5)];
    for b in 0..16 {
        diffs.push((0.3, 2 ^ 1 << b, 5));
    }
    for b in 0..32 {
        diffs.push((0.3, 2, 5 ^ 1 << b));
    }
    for b in 0..63 {
        let w = f64::from_bits(0.3f64.to_bits() ^ 1u64 << b);
        if w.is_finite() {
            diffs.push((w, 2, 5));
        }
    }
    let nd = diffs.len() as u64;
    ctx.family(
        "bits",
        &format!("three subqueries, the first and one of the others alike and one that differs from them in one bit of the weight, of the index or of the mask, or in two of these (every choice of two out of {} kinds); in 3 orders", nd),
        nd * nd * 3,
        |case, t| {
            let w = w.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let (a, b) = (*d.pick(&diffs), *d.pick(&diffs));
            let mut list = vec![a, b];
            list.insert(d.below(3) as usize, (a.0, a.1, b.2));
            let subs: Vec<Sub> = list
                .iter()
                .enumerate()
                .map(|(i, (wt, idx, mask))| Sub::new(0, *idx, *mask, *wt, vec![KeySpec::exact(i as u32, i as u32)]))
                .collect();
            check_merge(w, &subs, t)
        },
    );
    let ids = [0u32, 1, 257, u32::MAX];
    let base = KeySpec::exact(1, 5);
    let kinds = vec![
        base.clone(),
        KeySpec { langs: 2, ..base.clone() },
        KeySpec { langs: u128::MAX, ..base.clone() },
        KeySpec { nearby: true, ..base.clone() },
        KeySpec { len: 1, ..base.clone() },
        KeySpec::exact(1, 6),
        KeySpec::range(1, 5, 6),
        KeySpec::range(1, 5, 9),
        KeySpec::range(1, 9, 5),
        KeySpec::range(1, 5, 5),
    ];
    ctx.family(
        "alike-keys",
        &format!("three subqueries that agree, each with a key of {} kinds that differ in one thing, or alike, under one of {} ids, alike or not; with nothing, a key or another subquery between", kinds.len(), ids.len()),
        (kinds.len() * ids.len()) as u64 * (kinds.len() * ids.len()) as u64 * kinds.len() as u64 * 3,
        |case, t| {
            let w = w.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let mut key = |d: &mut Digits| KeySpec { id: *d.pick(&ids), ..d.pick(&kinds).clone() };
            let (a, b) = (key(&mut d), key(&mut d));
            let c = KeySpec { id: a.id, ..d.pick(&kinds).clone() };
            let mut subs = vec![Sub::new(0, 3, 1, 0.4, vec![a.clone()]), Sub::new(0, 3, 1, 0.4, vec![b]), Sub::new(0, 3, 1, 0.4, vec![c])];
            match d.below(3) {
                0 => (),
                1 => subs[1].keys.push(a),
                _ => subs.insert(1, Sub::new(1, 3, 1, 0.41, vec![a])),
            }
            check_merge(w, &subs, t)
        },
    );
    ctx.family(
        "spread",
        "six keys spread over every sequence of up to six equivalent subqueries, with others between them or not",
        32 * 4,
        |case, t| {
            let w = w.as_ref().map_err(|e| e.clone())?;
            let mut d = Digits::new(case);
            let cuts = d.below(32);
            let between = d.below(4);
            let mut subs = vec![Sub::new(0, 3, 1, 0.4, vec![])];
            for i in 0..6u32 {
                if i > 0 && cuts >> (i - 1) & 1 == 1 {
                    if between & 1 == 1 {
                        subs.push(Sub::new(1, 4, 1, 0.4, vec![KeySpec::exact(50 + i, i)]));
                    }
                    if between & 2 == 2 {
                        subs.insert(0, Sub::new(1, 3, 2, 0.4, vec![KeySpec::exact(60 + i, i)]));
                    }
                    subs.push(Sub::new(0, 3, 1, 0.4, vec![]));
                }
                subs.last_mut().unwrap().keys.push(KeySpec::exact(i, i));
            }
            check_merge(w, &subs, t)
        },
    );
}

pub fn c21_many(ctx: &mut Ctx) {
    let ns: Vec<usize> = ctx.by(vec![5, 8, 16, 17, 33, 64, 65, 100, 257, 1025], vec![5, 8, 16, 17, 33, 64, 65, 100, 127, 129, 255, 256, 257, 300, 513, 1000, 1025, 1990, 2049, 4097]);
    ctx.family(
        "many",
        &format!("{:?} subqueries that come back to a weight, an index or a mask after every number of others up to 12 (beyond 100 subqueries, 1, 2, 11 or 12 others), with 1 to 3 keys, phrase ids and languages at their edges, weights down to rounding errors", ns),
        ns.len() as u64 * 12 * 12 * 12,
        |case, t| {
            let w = types(2)?;
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let (pw, pi, pm) = (d.below(12) as usize + 1, d.below(12) as usize + 1, d.below(12) as usize + 1);
            if n > 100 && [pw, pi, pm].iter().any(|p| (3..11).contains(p)) {
                return Ok(());
            }
            let weights = [0.3, 0.1 + 0.2, 0.5, 1.0, 0.25, 0.24999999999999997, 1e-9, 0.125, 0.7, 0.07, 0.6, 0.33];
            let subs: Vec<Sub> = (0..n)
                .map(|i| {
                    let keys = (0..1 + i % 3)
                        .map(|j| {
                            let id = (i * 3 + j) as u32;
                            KeySpec { nearby: id % 2 == 0, len: id as usize % 4, langs: 1u128 << (id % 128), ..KeySpec::range(id, u32::MAX - id, u32::MAX) }
                        })
                        .collect();
                    Sub { excl: vec![(i % 128) as u16], ..Sub::new(i % 2, ([0u16, 1, 2, 127, 64, 63, 5, 6, 7, 8, 9, 10][i % pi]), [1u32, 2, 3, 4, 0x8000_0000, 8, 16, 32, 0, 64, 128, u32::MAX][i % pm], weights[i % pw], keys) }
                })
                .collect();
            check_merge(&w, &subs, t)
        },
    );
}

fn check_merge(w: &World, subs: &[Sub], t: &mut Tally) -> Result<(), String> {
    let want = crate::coal::merged(subs);
    let got = collapse_phrasematches(w.subqueries(subs));
    t.state(&want.len());
    t.trace(subs.len() as u64);
    let show = |p: &PhrasematchSubquery<&GridStore>| {
        format!(
            "{:?} idx {} mask {} weight {:?} store {} keys {:?}",
            p.non_overlapping_indexes.ones().collect::<Vec<_>>(),
            p.idx,
            p.mask,
            p.weight,
            w.stores.iter().position(|s| std::ptr::eq(s, p.store)).unwrap_or(99),
            p.match_keys
        )
    };
    let (g, e): (Vec<String>, Vec<String>) = (got.iter().map(show).collect(), w.subqueries(&want).iter().map(show).collect());
    t.outcome(&g);
    if g != e {
        return Err(format!("merged into {:#?}, expected {:#?}", g, e));
    }
    Ok(())
}

// ---- C23

#[derive(Clone, Copy, Debug)]
struct Tag(u8, u32);
impl PartialEq for Tag {
    fn eq(&self, o: &Tag) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tag {}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Tag) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

pub fn c23(ctx: &mut Ctx) {
    let depth = ctx.by(8u32, 10);
    let caps = 6u64;
    ctx.family(
        "operations",
        &format!("every sequence of {} operations (push of one of four values, take the largest) on queues of size 0 to {}; both policies for equal elements; read after each operation and at the end in descending order or by iteration", depth, caps - 1),
        5u64.pow(depth) * caps * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let cap = d.below(caps) as usize;
            vsched::set_knob(0, d.below(2));
            let listing = d.flag();
            let mut q: ConstrainedPriorityQueue<Tag> = ConstrainedPriorityQueue::new(cap);
            let mut model: Vec<u8> = Vec::new(); // ascending
            let mut kept: BTreeSet<u32> = BTreeSet::new();
            for step in 0..depth {
                let op = d.below(5) as u8;
                if op < 4 {
                    let min = model.first().cloned();
                    let expect = model.len() < cap || min.map_or(false, |m| op > m);
                    if model.len() >= cap && expect {
                        model.remove(0);
                    }
                    if expect {
                        model.push(op);
                        model.sort();
                        kept.insert(step);
                    }
                    let r = q.push(Tag(op, step));
                    if r != expect {
                        return Err(format!("step {}: push of {} gives {}, with {:?}", step, op, r, model));
                    }
                } else {
                    let want = model.pop();
                    let got = q.pop_max();
                    if got.map(|t| t.0) != want {
                        return Err(format!("step {}: pop_max gives {:?}, expected {:?}", step, got, want));
                    }
                    if let Some(g) = got {
                        if !kept.remove(&g.1) {
                            return Err(format!("step {}: {:?} was never kept", step, g));
                        }
                    }
                }
                if q.len() != model.len()
                    || q.peek_min().map(|t| t.0) != model.first().cloned()
                    || q.peek_max().map(|t| t.0) != model.last().cloned()
                    || q.max_size != cap
                {
                    return Err(format!(
                        "step {}: length {}, smallest {:?}, largest {:?}; expected {:?}",
                        step,
                        q.len(),
                        q.peek_min(),
                        q.peek_max(),
                        model
                    ));
                }
                t.state(&(cap, &model));
            }
            let mut out: Vec<Tag> = if listing { q.into_vec_desc() } else { q.into_iter().collect() };
            if !listing {
                out.sort_by(|a, b| b.cmp(a));
            }
            model.reverse();
            t.trace(depth as u64);
            t.outcome(&(listing, &model));
            if out.iter().map(|t| t.0).collect::<Vec<_>>() != model {
                return Err(format!("at the end {:?}, expected {:?}", out, model));
            }
            let ids: BTreeSet<u32> = out.iter().map(|t| t.1).collect();
            if ids.len() != out.len() || !ids.is_subset(&kept) {
                return Err(format!("{:?} holds an element twice, or one that was not kept", out));
            }
            Ok(())
        },
    );
    c23_long(ctx);
    let n = ctx.by(7usize, 9);
    ctx.family(
        "orders",
        &format!("{} different elements in every order, in queues of every size up to {}", n, n + 1),
        (1..=n as u64).product::<u64>() * (n as u64 + 2),
        |case, t| {
            let mut d = Digits::new(case);
            let cap = d.below(n as u64 + 2) as usize;
            let mut rest: Vec<u32> = (0..n as u32).collect();
            let mut q = ConstrainedPriorityQueue::new(cap);
            let mut all = Vec::new();
            while !rest.is_empty() {
                let i = d.below(rest.len() as u64) as usize;
                let v = rest.remove(i);
                all.push(v);
                q.push(v);
            }
            t.state(&all);
            t.trace(n as u64);
            let want: Vec<u32> = (0..n as u32).rev().take(cap).collect();
            let got = q.into_vec_desc();
            if got != want {
                return Err(format!("{:?} into a queue of {}: {:?}", all, cap, got));
            }
            Ok(())
        },
    );
}

pub fn c23_long(ctx: &mut Ctx) {
    let sizes: Vec<usize> = vec![701, 1000, 4097, 65_535, 65_536, 65_537, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX];
    ctx.family(
        "large",
        &format!("queues of the sizes {:?}, and none to 700 elements in them, ascending, descending or alike, then taken one by one or listed", sizes),
        sizes.len() as u64 * 701 * 3 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let cap = *d.pick(&sizes);
            let n = d.below(701) as u32;
            let how = d.below(3);
            let listing = d.flag();
            let mut q: ConstrainedPriorityQueue<u32> = ConstrainedPriorityQueue::new(cap);
            let mut model: Vec<u32> = vec![];
            for i in 0..n {
                let v = match how {
                    0 => i,
                    1 => n - i,
                    _ => i % 3,
                };
                model.push(v);
                if !q.push(v) {
                    return Err(format!("size {}: element {} is not kept", cap, i));
                }
            }
            model.sort_by(|a, b| b.cmp(a));
            t.state(&(n, how));
            t.trace(n as u64);
            if q.len() != n as usize || q.peek_min() != model.last() || q.peek_max() != model.first() || q.max_size != cap {
                return Err(format!("size {}: {} elements, smallest {:?}, largest {:?}, expected {}, {:?}, {:?}", cap, q.len(), q.peek_min(), q.peek_max(), n, model.last(), model.first()));
            }
            let got: Vec<u32> = if listing { q.into_vec_desc() } else { std::iter::from_fn(|| q.pop_max()).collect() };
            if got != model {
                return Err(format!("size {}: {:?} instead of {:?}", cap, got, model));
            }
            Ok(())
        },
    );
    let caps: Vec<u64> = ctx.by(vec![1, 2, 3, 5, 16, 17, 39, 40, 41, 100], (1..=100).collect());
    let lens = ctx.by(300u64, 1200);
    let strides = 23u64;
    ctx.family(
        "long",
        &format!("{} sizes up to 100, {} operations each: values in every step of 1..{} modulo 1, 7, 41, 97 or 1009, with a pop after every 2nd, 3rd, 10th, 50th push or none; compared after each operation", caps.len(), lens, strides),
        caps.len() as u64 * strides * 5 * 5,
        |case, t| {
            let mut d = Digits::new(case);
            let cap = *d.pick(&caps) as usize;
            let stride = d.below(strides) + 1;
            let modulus = *d.pick(&[1u64, 7, 41, 97, 1009]);
            let pops = *d.pick(&[2u64, 3, 10, 50, u64::MAX]);
            let mut q: ConstrainedPriorityQueue<Tag> = ConstrainedPriorityQueue::new(cap);
            let mut model: Vec<u32> = Vec::new();
            for step in 0..lens {
                if step % pops == pops - 1 {
                    let want = model.pop();
                    let got = q.pop_max().map(|t| t.0 as u32);
                    if got != want {
                        return Err(format!("size {}, step {}: pop_max gives {:?}, expected {:?}", cap, step, got, want));
                    }
                } else {
                    let v = (step * stride % modulus % 256) as u32;
                    let expect = model.len() < cap || v > model[0];
                    if expect {
                        if model.len() == cap {
                            model.remove(0);
                        }
                        let at = model.partition_point(|x| *x <= v);
                        model.insert(at, v);
                    }
                    if q.push(Tag(v as u8, step as u32)) != expect {
                        return Err(format!("size {}, step {}: push of {} does not give {}", cap, step, v, expect));
                    }
                }
                if q.len() != model.len() || q.peek_min().map(|t| t.0 as u32) != model.first().cloned() || q.peek_max().map(|t| t.0 as u32) != model.last().cloned() {
                    return Err(format!("size {}, step {}: {} elements, expected {:?}", cap, step, q.len(), model));
                }
            }
            t.state(&(cap, &model));
            t.trace(lens);
            model.reverse();
            let out: Vec<u32> = q.into_vec_desc().iter().map(|t| t.0 as u32).collect();
            if out != model {
                return Err(format!("size {}: at the end {:?}, expected {:?}", cap, out, model));
            }
            Ok(())
        },
    );
}

// ---- C24

pub fn c24(ctx: &mut Ctx) {
    let len = ctx.by(13u32, 15);
    ctx.family(
        "streams",
        &format!("every stream of up to {} elements over 3 keys", len),
        (0..=len).map(|l| 3u64.pow(l)).sum(),
        |case, t| {
            let mut case = case;
            let mut l = 0;
            while case >= 3u64.pow(l) {
                case -= 3u64.pow(l);
                l += 1;
            }
            let mut d = Digits::new(case);
            let v: Vec<(u8, u32)> = (0..l).map(|i| (d.below(3) as u8, i)).collect();
            let mut want: Vec<(u8, Vec<(u8, u32)>)> = Vec::new();
            for x in &v {
                match want.last_mut() {
                    Some(g) if g.0 == x.0 => g.1.push(*x),
                    _ => want.push((x.0, vec![*x])),
                }
            }
            t.state(&v);
            let read = Rc::new(Cell::new(0usize));
            let r2 = read.clone();
            let source = v.clone().into_iter().inspect(move |_| r2.set(r2.get() + 1));
            let mut it = somewhat_eager_groupby(source, |x: &(u8, u32)| x.0);
            if read.get() != 0 {
                return Err("reads before it is asked for anything".into());
            }
            let mut used = 0;
            for (i, w) in want.iter().enumerate() {
                let g = it.next();
                if g.as_ref() != Some(w) {
                    return Err(format!("{:?}: group {} is {:?}, expected {:?}", v, i, g, w));
                }
                used += w.1.len();
                if read.get() > used + 1 {
                    return Err(format!("{:?}: {} elements read for groups of {}", v, read.get(), used));
                }
            }
            for _ in 0..3 {
                if let Some(g) = it.next() {
                    return Err(format!("{:?}: {:?} after the end", v, g));
                }
            }
            t.trace(want.len() as u64);
            t.outcome(&want.iter().map(|g| g.1.len()).collect::<Vec<_>>());
            Ok(())
        },
    );
    // many groups, read one by one; the source goes on after its end if it is asked
    let counts: Vec<usize> = ctx.by((0..70).chain([100, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 10_000]).collect(), (0..300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 10_000, 65_537, 100_000]).collect());
    ctx.family(
        "many-groups",
        &format!("{} counts of up to {} groups of 1 to 3 elements in 4 patterns, each group asked for with what it took to find it", counts.len(), counts.last().unwrap()),
        counts.len() as u64 * 4,
        |case, t| {
            let mut d = Digits::new(case);
            let pattern = d.below(4) as usize;
            let n = *d.pick(&counts);
            let size = |i: usize| match pattern {
                0 => 1,
                1 => 1 + i % 2,
                2 => 1 + i % 3,
                _ => if i % 10 == 9 { 3 } else { 1 },
            };
            let read = Rc::new(Cell::new(0usize));
            let r2 = read.clone();
            let (mut i, mut left) = (0usize, if n > 0 { size(0) } else { 0 });
            let source = std::iter::from_fn(move || {
                if i >= n {
                    return None;
                }
                r2.set(r2.get() + 1);
                let x = (i as u32, left);
                left -= 1;
                if left == 0 {
                    i += 1;
                    left = if i < n { size(i) } else { 0 };
                }
                Some(x)
            });
            let mut it = somewhat_eager_groupby(source, |x: &(u32, usize)| x.0);
            let mut used = 0;
            t.state(&(n, pattern));
            for i in 0..n {
                let want: Vec<(u32, usize)> = (1..=size(i)).rev().map(|j| (i as u32, j)).collect();
                match it.next() {
                    Some((k, g)) if k == i as u32 && g == want => {}
                    g => return Err(format!("{} groups, pattern {}: group {} is {:?}, expected {:?}", n, pattern, i, g, want)),
                }
                used += size(i);
                if read.get() > used + 1 {
                    return Err(format!("{} groups, pattern {}: {} elements read for the first {}", n, pattern, read.get(), used));
                }
            }
            for _ in 0..3 {
                if let Some(g) = it.next() {
                    return Err(format!("{} groups, pattern {}: {:?} after the end", n, pattern, g));
                }
            }
            t.trace(n as u64);
            Ok(())
        },
    );
    // runs longer than anything a bound would be set at
    let lens: Vec<usize> = vec![0, 1, 2, 255, 256, 257, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 100_000, 200_001];
    ctx.family(
        "long-runs",
        &format!("three runs of up to {} elements: every triple of {} lengths", lens.last().unwrap(), lens.len()),
        (lens.len() as u64).pow(3),
        |case, t| {
            let mut d = Digits::new(case);
            let ls: Vec<usize> = (0..3).map(|_| *d.pick(&lens)).collect();
            let keys = [1u8, 2, 1];
            let mut want: Vec<(u8, usize)> = Vec::new();
            for (k, l) in keys.iter().zip(&ls) {
                if *l == 0 {
                    continue;
                }
                match want.last_mut() {
                    Some(g) if g.0 == *k => g.1 += l,
                    _ => want.push((*k, *l)),
                }
            }
            t.state(&ls);
            t.trace(want.len() as u64);
            let source = keys.iter().zip(&ls).flat_map(|(k, l)| std::iter::repeat(*k).take(*l)).enumerate().map(|(i, k)| (k, i));
            let mut at = 0;
            let mut got = Vec::new();
            for (k, g) in somewhat_eager_groupby(source, |x: &(u8, usize)| x.0) {
                if g.iter().enumerate().any(|(i, x)| *x != (k, at + i)) {
                    return Err(format!("runs of {:?}: group of {} at {} is out of order", ls, k, at));
                }
                at += g.len();
                got.push((k, g.len()));
            }
            if got != want {
                return Err(format!("runs of {:?}: groups {:?}, expected {:?}", ls, got, want));
            }
            Ok(())
        },
    );
}
