//! C06 crash points of finish, C07 storage faults.
use crate::store::small_contents;
use carmen_core::gridstore::*;
use mc::ctx::*;
use mc::model::*;
use rocksdb::sim;
use std::collections::{BTreeMap, BTreeSet};

type Raw = BTreeMap<Vec<u8>, Vec<u8>>;

/// Larger stores: more bins, records of several kilobytes.
fn contents(thorough: bool) -> Vec<(Content, Vec<u32>)> {
    let mut out = small_contents();
    let big: BTreeSet<Ent> =
        (0..600u32).map(|i| Ent::new((i % 4) as u8, (i % 16) as u8, i as u16, 7, i * 31, i as u8)).collect();
    for bins in [vec![], vec![0, 3, 6, 9], vec![2, 4], (0..12).collect()] {
        let mut c = Content::new();
        for p in 0..12u32 {
            c.insert((p, 1), if p % 5 == 0 { big.clone() } else { [Ent::new(3, 1, 5, 5, p, 0)].into_iter().collect() });
            if p % 3 == 0 {
                c.insert((p, u128::MAX), [Ent::new(3, 1, 5, 5, p, 0)].into_iter().collect());
            }
        }
        out.push((c, bins));
    }
    if thorough {
        for n in [30u32, 60] {
            for step in [1, 4, 7, 13] {
                let c: Content = (0..n)
                    .flat_map(|p| [((p, 1u128), p), ((p, 1 << (p % 128)), p + 1)])
                    .map(|(k, i)| (k, [Ent::new(3, 1, i as u16, 5, i, 0)].into_iter().collect()))
                    .collect();
                out.push((c, (0..n).step_by(step).collect()));
            }
        }
    }
    out
}

/// Stores of more keys than any batch or buffer of a likely size holds: the number of keys, the
/// number of languages per phrase, the phrases per bin.
fn large(thorough: bool) -> Vec<(u32, u32, u32)> {
    let counts: Vec<u32> = if thorough {
        (1..=72).chain([100, 101, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 1001, 1024, 1025, 1100]).collect()
    } else {
        vec![8, 15, 16, 17, 24, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300]
    };
    let mut out = Vec::new();
    for n in counts {
        for langs in [1, 3] {
            for per in [0, 1, 4, n / 2 + 1] {
                if n > 300 && per != 4 {
                    continue;
                }
                out.push((n, langs, per));
            }
        }
    }
    out
}

fn large_content(n: u32, langs: u32, per: u32) -> (Content, Vec<u32>) {
    let mut c = Content::new();
    for i in 0..n {
        let l = [1u128, u128::MAX, 2][(i % langs) as usize];
        c.insert((i / langs, l), [Ent::new(3, 1, (i % 60) as u16, 5, i + 1, 0)].into_iter().collect());
    }
    let top = (n - 1) / langs + 1;
    let mut bins = Vec::new();
    if per > 0 {
        bins = (0..=top).step_by(per as usize).collect();
        if bins.last() != Some(&top) {
            bins.push(top);
        }
    }
    (c, bins)
}

/// As `check_partial`, with ranges only between a few of the boundaries.
fn check_partial_large(g: &GridStore, full: &Content, bins: &[u32], what: &str) -> Result<Content, String> {
    let got = read_all(g).map_err(|e| format!("{}: {}", what, e))?;
    let mut visible = Content::new();
    for (k, v) in &got {
        let want = full.get(k).ok_or_else(|| format!("{}: unknown key {:?}", what, k))?;
        check_list(v, want).map_err(|e| format!("{}: key {:?}: {}", what, k, e))?;
        visible.insert(*k, want.clone());
    }
    let mut ends = vec![0, u32::MAX];
    if !bins.is_empty() {
        for i in [0, 1, bins.len() / 2, bins.len() - 1] {
            ends.push(bins[i.min(bins.len() - 1)]);
        }
    }
    ends.sort();
    ends.dedup();
    for (i, start) in ends.iter().enumerate() {
        for end in &ends[i + 1..] {
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: *start, end: *end }, lang_set: 1 };
            let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
            same_matches(&query(g, &q, &o, 10_000)?, &matches(&visible, &q, &o, 0.0), true)
                .map_err(|e| format!("{}: {:?}: {:.400}", what, q, e))?;
        }
    }
    Ok(visible)
}

/// What a store that was cut short may show: every key with all of its entries or not at all, and
/// range queries that agree with the visible keys whether or not bins answer them.
fn check_partial(g: &GridStore, full: &Content, what: &str) -> Result<Content, String> {
    let got = read_all(g).map_err(|e| format!("{}: {}", what, e))?;
    let mut visible = Content::new();
    for (k, v) in &got {
        let want = full.get(k).ok_or_else(|| format!("{}: unknown key {:?}", what, k))?;
        check_list(v, want).map_err(|e| format!("{}: key {:?}: {}", what, k, e))?;
        visible.insert(*k, want.clone());
    }
    let mut ends: Vec<u32> = full.keys().map(|k| k.0).collect();
    ends.extend(g.bin_boundaries.iter());
    ends.push(0);
    ends.push(u32::MAX);
    ends.sort();
    ends.dedup();
    for (i, start) in ends.iter().enumerate() {
        for end in &ends[i + 1..] {
            let q = MatchKey { match_phrase: MatchPhrase::Range { start: *start, end: *end }, lang_set: 1 };
            let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
            same_matches(&query(g, &q, &o, 10_000)?, &matches(&visible, &q, &o, 0.0), true)
                .map_err(|e| format!("{}: {:?}: {}", what, q, e))?;
        }
    }
    Ok(visible)
}

pub fn c06(ctx: &mut Ctx) {
    let all = contents(ctx.thorough());
    ctx.family(
        "crash-points",
        &format!("{} stores; a crash after every prefix of the operations that finish performs on the storage engine; then the store is reopened and read in full, built again on top of what was left (also with a second crash at every point), and reopened", all.len()),
        all.len() as u64,
        |case, t| {
            let (c, bins) = &all[case as usize];
            let s = build(c, bins)?;
            let log = sim::log(s.path());
            let empty = Raw::new();
            t.sample(|| format!("{} keys, bins {:?}: {} storage operations", c.len(), bins, log.len()));
            for n in 0..=log.len() {
                let left = sim::after_crash(&empty, &log, n);
                t.state(&left);
                t.trace(n as u64);
                let r = Scratch::new();
                sim::create(r.path(), left.clone());
                let g = GridStore::new(r.path()).map_err(es("reopen after a crash"))?;
                let what = format!("bins {:?}, crash after {} of {} operations", bins, n, log.len());
                let visible = check_partial(&g, c, &what)?;
                if n == log.len() && visible != *c {
                    return Err(format!("{}: finish had returned, but keys are missing", what));
                }
                drop(g);
                // build again over what was left
                let mut b = builder(r.path())?;
                put_content(&mut b, c)?;
                b.load_bin_boundaries(bins.clone()).map_err(es("bounds"))?;
                b.finish().map_err(|e| format!("{}: rebuild: {}", what, e))?;
                let log2 = sim::log(r.path());
                {
                    let g = GridStore::new(r.path()).map_err(es("reopen"))?;
                    check_content(&g, c).map_err(|e| format!("{}: rebuilt: {}", what, e))?;
                    check_partial(&g, c, &format!("{}: rebuilt", what))?;
                }
                if c.len() <= 5 {
                    for m in 0..=log2.len() {
                        let left2 = sim::after_crash(&left, &log2, m);
                        if !t.states.contains(&hash_of(&left2)) || m == log2.len() {
                            t.state(&left2);
                            let r2 = Scratch::new();
                            sim::create(r2.path(), left2);
                            let g = GridStore::new(r2.path()).map_err(es("reopen"))?;
                            check_partial(&g, c, &format!("{}, second crash after {}", what, m))?;
                        }
                        t.trace(m as u64);
                    }
                }
            }
            Ok(())
        },
    );
    let sizes = large(ctx.thorough());
    ctx.family(
        "crash-points-large",
        &format!("{} stores of up to {} keys, one or three languages per phrase, without bins or with one, 4 or half of all phrases per bin; a crash after every prefix of the operations of finish, then reopened and read in full; at 9 of the crash points built again on top", sizes.len(), sizes.iter().map(|s| s.0).max().unwrap()),
        sizes.len() as u64,
        |case, t| {
            let (n, langs, per) = sizes[sizes.len() - 1 - case as usize];
            let (c, bins) = large_content(n, langs, per);
            let s = build(&c, &bins)?;
            let log = sim::log(s.path());
            let empty = Raw::new();
            let step = log.len() / 8 + 1;
            for at in 0..=log.len() {
                let left = sim::after_crash(&empty, &log, at);
                t.state(&left);
                t.trace(at as u64);
                let r = Scratch::new();
                sim::create(r.path(), left);
                let what = format!("{} keys, {} phrases per bin, crash after {} of {} operations", n, per, at, log.len());
                let g = GridStore::new(r.path()).map_err(|e| format!("{}: reopen: {}", what, e))?;
                let visible = check_partial_large(&g, &c, &bins, &what)?;
                if at == log.len() && visible != c {
                    return Err(format!("{}: finish had returned, but keys are missing", what));
                }
                drop(g);
                if at % step == 0 {
                    let mut b = builder(r.path())?;
                    put_content(&mut b, &c)?;
                    b.load_bin_boundaries(bins.clone()).map_err(es("bounds"))?;
                    b.finish().map_err(|e| format!("{}: rebuild: {}", what, e))?;
                    let g = GridStore::new(r.path()).map_err(es("reopen"))?;
                    check_content(&g, &c).map_err(|e| format!("{}: rebuilt: {:.400}", what, e))?;
                }
            }
            Ok(())
        },
    );
    ctx.assume("The storage engine is assumed to apply each write atomically and to lose, in a crash, a suffix of the writes that were not flushed, never part of one; a write that bypasses its log counts as lost unless a flush or compaction followed.");
}

pub fn c07(ctx: &mut Ctx) {
    let all = contents(ctx.thorough());
    ctx.family(
        "build-faults",
        &format!("{} stores; every single operation of finish on the storage engine fails in turn", all.len()),
        all.len() as u64,
        |case, t| {
            let (c, bins) = &all[case as usize];
            let prepare = |s: &Scratch| -> Result<GridStoreBuilder, String> {
                let mut b = builder(s.path())?;
                put_content(&mut b, c)?;
                b.load_bin_boundaries(bins.clone()).map_err(es("bounds"))?;
                Ok(b)
            };
            let s = Scratch::new();
            let b = prepare(&s)?;
            sim::arm(None);
            let r = b.finish();
            let (ops, _) = sim::disarm();
            r.map_err(es("finish without faults"))?;
            t.sample(|| format!("{} keys, bins {:?}: {:?}", c.len(), bins, ops));
            for n in 0..ops.len() {
                let s = Scratch::new();
                let b = prepare(&s)?;
                sim::arm(Some(n));
                let r = guarded(|| b.finish());
                let (_, fired) = sim::disarm();
                t.state(&(case, n));
                t.outcome(&(ops[n] as u32, n));
                t.trace(n as u64 + 1);
                t.evaluations += 1;
                t.nontrivial += 1;
                let what = format!("bins {:?}, fault at operation {} ({:?})", bins, n, ops[n]);
                match r {
                    Err(p) => return Err(format!("{}: {}", what, p)),
                    Ok(Ok(())) if fired => {
                        return Err(format!("{}: finish reported success", what));
                    }
                    _ => {}
                }
                if sim::exists(s.path()) {
                    let g = GridStore::new(s.path()).map_err(es("open after fault"))?;
                    check_partial(&g, c, &what)?;
                }
                // nothing stays locked: the same build succeeds afterwards
                prepare(&s)?.finish().map_err(|e| format!("{}: second try: {}", what, e))?;
                let g = GridStore::new(s.path()).map_err(es("open"))?;
                check_content(&g, c).map_err(|e| format!("{}: second try: {}", what, e))?;
            }
            Ok(())
        },
    );
    let sizes = large(ctx.thorough());
    ctx.family(
        "build-faults-large",
        &format!("{} stores of up to {} keys, one or three languages per phrase, without bins or with one, 4 or half of all phrases per bin; every single operation of finish on the storage engine fails in turn", sizes.len(), sizes.iter().map(|s| s.0).max().unwrap()),
        sizes.len() as u64,
        |case, t| {
            let (keys, langs, per) = sizes[sizes.len() - 1 - case as usize];
            let (c, bins) = large_content(keys, langs, per);
            let prepare = |s: &Scratch| -> Result<GridStoreBuilder, String> {
                let mut b = builder(s.path())?;
                put_content(&mut b, &c)?;
                b.load_bin_boundaries(bins.clone()).map_err(es("bounds"))?;
                Ok(b)
            };
            let s = Scratch::new();
            let b = prepare(&s)?;
            sim::arm(None);
            let r = b.finish();
            let (ops, _) = sim::disarm();
            r.map_err(es("finish without faults"))?;
            let step = ops.len() / 8 + 1;
            for n in 0..ops.len() {
                let s = Scratch::new();
                let b = prepare(&s)?;
                sim::arm(Some(n));
                let r = guarded(|| b.finish());
                let (_, fired) = sim::disarm();
                t.state(&(case, n));
                t.outcome(&(ops[n] as u32, n));
                t.trace(n as u64 + 1);
                t.evaluations += 1;
                t.nontrivial += 1;
                let what = format!("{} keys, {} phrases per bin, fault at operation {} ({:?})", keys, per, n, ops[n]);
                match r {
                    Err(p) => return Err(format!("{}: {}", what, p)),
                    Ok(Ok(())) if fired => return Err(format!("{}: finish reported success", what)),
                    _ => {}
                }
                if sim::exists(s.path()) {
                    let g = GridStore::new(s.path()).map_err(es("open after fault"))?;
                    check_partial_large(&g, &c, &bins, &what)?;
                }
                if n % step == 0 || n + 2 >= ops.len() {
                    prepare(&s)?.finish().map_err(|e| format!("{}: second try: {}", what, e))?;
                    let g = GridStore::new(s.path()).map_err(es("open"))?;
                    check_content(&g, &c).map_err(|e| format!("{}: second try: {:.400}", what, e))?;
                }
            }
            Ok(())
        },
    );
    let small = small_contents();
    ctx.family(
        "read-faults",
        "every storage operation of opening a store, of each lookup and of each listing fails in turn",
        small.len() as u64,
        |case, t| {
            let (c, bins) = &small[case as usize];
            let s = build(c, bins)?;
            let mut queries: Vec<GridKey> = c.keys().map(|k| gk(*k)).collect();
            queries.push(gk((77, 1)));
            // opening
            for n in 0..16 {
                sim::arm(Some(n));
                let r = guarded(|| GridStore::new(s.path()).map(|_| ()));
                let (_, fired) = sim::disarm();
                t.state(&(case, 0, n));
                t.outcome(&(0, n, fired));
                t.trace(1);
                t.evaluations += 1;
                match r {
                    Err(p) => return Err(format!("open, fault at operation {}: {}", n, p)),
                    Ok(r) => {
                        if r.is_ok() == fired {
                            return Err(format!("open, fault at operation {}: success {} fault {}", n, r.is_ok(), fired));
                        }
                    }
                }
                if !fired {
                    break;
                }
                t.nontrivial += 1;
            }
            let g = GridStore::new(s.path()).map_err(es("open"))?;
            for (qi, q) in queries.iter().enumerate() {
                for n in 0..16 {
                    sim::arm(Some(n));
                    let r = guarded(|| g.get(q).map(|o| o.map(|i| i.count())));
                    let (_, fired) = sim::disarm();
                    t.state(&(case, 1 + qi, n));
                    t.trace(1);
                    t.evaluations += 1;
                    match r {
                        Err(p) => return Err(format!("get {:?}, fault at operation {}: {}", q, n, p)),
                        Ok(Ok(_)) if fired => {
                            return Err(format!("get {:?}, fault at operation {}: no error", q, n))
                        }
                        Ok(Err(e)) if !fired => return Err(format!("get {:?}: {}", q, e)),
                        _ => {}
                    }
                    if !fired {
                        break;
                    }
                    t.nontrivial += 1;
                }
            }
            check_content(&g, c)
        },
    );
    ctx.family(
        "open-refused",
        "a path without a store; a store being written by someone else",
        2,
        |case, t| {
            t.state(&case);
            t.outcome(&case);
            t.trace(1);
            t.evaluations += 1;
            t.nontrivial += 1;
            let s = Scratch::new();
            if case == 0 {
                if GridStore::new(s.path()).is_ok() || open(&s, &Conf::at(14)).is_ok() {
                    return Err("opening a path without a store succeeded".into());
                }
                if sim::exists(s.path()) {
                    return Err("opening a path without a store created one".into());
                }
            } else {
                let mut o = rocksdb::Options::default();
                o.create_if_missing(true);
                let other = rocksdb::DB::open(&o, s.path()).map_err(es("open by someone else"))?;
                let (c, bins) = small[small.len() - 1].clone();
                let mk = || -> Result<GridStoreBuilder, String> {
                    let mut b = builder(s.path())?;
                    put_content(&mut b, &c)?;
                    b.load_bin_boundaries(bins.clone()).map_err(es("bounds"))?;
                    Ok(b)
                };
                if mk()?.finish().is_ok() {
                    return Err("finish succeeded on a locked store".into());
                }
                drop(other);
                mk()?.finish().map_err(es("finish after the lock is gone"))?;
                check_content(&GridStore::new(s.path()).map_err(es("open"))?, &c)?;
            }
            Ok(())
        },
    );
    ctx.assume("Faults are single: one operation on the storage engine returns an error and the following ones work. The engine's iterators cannot report errors through the interface the code uses, so faults during iteration are not covered.");
}
