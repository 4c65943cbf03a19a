//! C22 results do not depend on schedules, hash seeds, or what else is or was asked.
use crate::coal::{cx, Cx, KeySpec, Sub, World};
use carmen_core::gridstore::*;
use mc::ctx::*;
use mc::model::*;
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(1) };
}

/// Takes the place of the C library's: the hash maps of the standard library draw their seeds from
/// here, once per thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let mut x = SEED.try_with(|s| s.get()).unwrap_or(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for i in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    n as isize
}

fn with_seed<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        s.spawn(move || {
            SEED.with(|x| x.set(seed));
            f()
        })
        .join()
        .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

#[derive(Clone, Debug)]
enum Ask {
    Stacks(Vec<Sub>, MatchOpts),
    Coalesce(Vec<Sub>, MatchOpts),
    /// a plain query of one store, and a listing of it
    Match(usize, KeySpec, MatchOpts, usize),
    List(usize),
}

/// An answer, to the last detail that a caller sees.
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Contexts(Vec<(Cx, u64)>),
    Matches(Vec<String>),
}

fn answer(w: &World, a: &Ask) -> Result<Answer, String> {
    let contexts = |v: Vec<CoalesceContext>| -> Result<Answer, String> {
        Ok(Answer::Contexts(v.iter().map(|c| Ok((cx(c)?, c.relev.to_bits()))).collect::<Result<_, String>>()?))
    };
    match a {
        Ask::Stacks(subs, o) => contexts(stack_and_coalesce(&w.subqueries(subs), o).map_err(es("stack_and_coalesce"))?),
        Ask::Coalesce(subs, o) => contexts(coalesce(w.subqueries(subs), o).map_err(es("coalesce"))?),
        Ask::Match(s, k, o, n) => Ok(Answer::Matches(
            w.stores[*s]
                .streaming_get_matching(&k.key(), o, *n)
                .map_err(es("streaming_get_matching"))?
                .take(*n)
                .map(|m| format!("{:?}", m))
                .collect(),
        )),
        Ask::List(s) => Ok(Answer::Matches(
            read_all(&w.stores[*s])?.iter().map(|(k, v)| format!("{:?} {:?}", k, v)).collect(),
        )),
    }
}

fn flat(z: u16, zoom: u16) -> (u16, u16) {
    (z << (zoom - 3), z << (zoom - 3))
}

/// Stores at three zooms whose entries tie in relevance, score and distance as often as not.
fn worlds(kind: u64) -> Result<World, String> {
    let mut parts = Vec::new();
    for (i, zoom) in [3u16, 4, 6, 14].into_iter().enumerate() {
        let mut c = Content::new();
        for p in 0..4u32 {
            let set = c.entry((p, 1)).or_default();
            for j in 0..5u32 {
                let (x, y) = flat((j % 3 + 1) as u16, zoom);
                match kind {
                    // all alike: only ids and places differ
                    0 => set.insert(Ent::new(3, 3, x, y, j, 0)),
                    // one feature in several places and from several phrases
                    1 => set.insert(Ent::new(3, 3, x, y, j % 2, (p % 2) as u8)),
                    // different
                    _ => set.insert(Ent::new(3 - (j % 2) as u8, ((j + p) % 4) as u8, x, y, j * 3 + p, j as u8)),
                };
            }
        }
        parts.push((c, Conf { type_id: i as u16, ..Conf::at(zoom) }));
    }
    World::new(parts)
}

/// these have more schedules than can be listed
const BIG: [&str; 2] = ["ten alone", "quotas"];

const SHARED: &str = "a shared key";
const STEMS: &str = "two stems";
/// these have many
const MANY: [&str; 2] = [SHARED, STEMS];

/// Questions, from simple to broad.
fn asks() -> Vec<(&'static str, Ask)> {
    let o = |zoom: u16, prox: Option<[u16; 2]>| MatchOpts { zoom, bbox: None, proximity: prox };
    let k = |id: u32, p: u32| vec![KeySpec::exact(id, p)];
    let r = |id: u32| vec![KeySpec::range(id, 0, 4)];
    let mut v: Vec<(&'static str, Ask)> = Vec::new();
    v.push(("two alone", Ask::Stacks(vec![Sub::new(0, 1, 1, 0.5, k(1, 0)), Sub::new(1, 2, 1, 0.5, k(2, 1))], o(4, None))));
    v.push(("a pair", Ask::Stacks(vec![Sub::new(0, 1, 1, 0.5, k(1, 0)), Sub::new(1, 2, 2, 0.5, k(2, 1))], o(4, None))));
    v.push((
        SHARED,
        Ask::Stacks(
            vec![Sub::new(0, 1, 1, 0.5, k(1, 0)), Sub::new(1, 2, 2, 0.25, k(2, 1)), Sub::new(1, 2, 4, 0.25, k(2, 1)), Sub::new(2, 3, 4, 0.25, k(3, 2))],
            o(6, Some([16, 16])),
        ),
    ));
    v.push((
        // two stacks of two, whose second parts may not change places
        STEMS,
        Ask::Stacks(
            vec![Sub::new(0, 1, 1, 0.7, k(1, 0)), Sub::new(0, 2, 2, 0.2, k(2, 1)), Sub::new(1, 3, 2, 0.3, k(3, 0)), Sub::new(1, 4, 1, 0.7, k(4, 1))],
            o(4, None),
        ),
    ));
    v.push((
        "two keys and a range",
        Ask::Stacks(vec![Sub::new(0, 1, 1, 0.5, r(1)), Sub::new(2, 2, 2, 0.5, vec![KeySpec::exact(2, 1), KeySpec::range(3, 0, 3)])], o(6, Some([9, 9]))),
    ));
    v.push((
        "four alone",
        Ask::Stacks((0..4u32).map(|i| Sub::new((i % 2) as usize, (i % 2) as u16, 1, 0.5, vec![KeySpec::exact(i, i % 2)])).collect(), o(4, None)),
    ));
    v.push((
        BIG[0],
        Ask::Stacks((0..10u32).map(|i| Sub::new((i % 3) as usize, (i % 3) as u16, 1, 0.5 - 0.25 * (i % 2) as f64, vec![KeySpec::exact(i, i % 4)])).collect(), o(6, None)),
    ));
    v.push((
        BIG[1],
        Ask::Stacks(
            (0..12u32).map(|i| Sub::new(3, i as u16, 1, 0.5 - 0.01 * (i / 2) as f64, vec![KeySpec { len: 1 + (i % 2) as usize, ..KeySpec::range(i, i % 3, i % 3 + 2) }])).collect(),
            o(14, None),
        ),
    ));
    v.push(("coalesce one", Ask::Coalesce(vec![Sub::new(1, 1, 1, 1.0, r(1))], o(4, Some([3, 3])))));
    v.push(("coalesce two", Ask::Coalesce(vec![Sub::new(1, 1, 1, 0.5, r(1)), Sub::new(2, 2, 2, 0.5, r(2))], o(6, None))));
    v.push((
        "coalesce three",
        Ask::Coalesce(vec![Sub::new(0, 1, 1, 0.25, r(1)), Sub::new(1, 2, 2, 0.25, r(2)), Sub::new(2, 3, 4, 0.5, r(3))], o(6, None)),
    ));
    v.push(("match", Ask::Match(1, KeySpec::range(0, 0, 4), o(4, Some([4, 5])), 100)));
    v.push(("match in a box", Ask::Match(2, KeySpec::range(0, 1, 3), MatchOpts { zoom: 6, bbox: Some([0, 0, 20, 20]), proximity: None }, 3)));
    v.push(("list", Ask::List(0)));
    v
}

pub fn c22(ctx: &mut Ctx) {
    let asks = asks();
    let kinds = 3u64;
    let thorough = ctx.thorough();
    // the parallel work of one query
    let bound = ctx.by(2u32, 3);
    let cap = ctx.by(100_000u64, 200_000);
    let parallel: Vec<usize> = (0..asks.len()).filter(|i| matches!(asks[*i].1, Ask::Stacks(..)) && (thorough || !BIG.contains(&asks[*i].0))).collect();
    ctx.family(
        "one query",
        &format!("{} queries on 3 sets of stores with ties: every interleaving of their parallel work at the granularity of storage operations with up to {} preemptions (one fewer where a key is shared; at most {} schedules each), compared with the work done in order", parallel.len(), bound, cap),
        parallel.len() as u64 * kinds,
        |case, t| {
            let mut d = Digits::new(case);
            let ask = &asks[*d.pick(&parallel)];
            let w = worlds(d.below(kinds))?;
            let want = answer(&w, &ask.1)?;
            t.state(&format!("{:?}", want));
            let bound = if thorough || !MANY.contains(&ask.0) { bound } else { bound - 1 };
            explore(t, bound, cap, || answer(&w, &ask.1), &want, ask.0)
        },
    );
    // several queries at once
    let groups: Vec<Vec<usize>> = {
        let mut g = Vec::new();
        for a in 0..asks.len() {
            for b in a..asks.len() {
                let stacks = |i: usize| matches!(asks[i].1, Ask::Stacks(..));
                let light = |i: usize| ["two alone", "match in a box"].contains(&asks[i].0);
                let heavy = |i: usize| stacks(i) && !light(i) && asks[i].0 != "a pair";
                let many = [a, b].iter().any(|i| BIG.contains(&asks[*i].0) || MANY.contains(&asks[*i].0));
                if !thorough && (many || (stacks(a) && stacks(b) && !(light(a) && light(b))) || (heavy(a) && !light(b)) || (heavy(b) && !light(a))) {
                    continue;
                }
                g.push(vec![a, b]);
            }
        }
        if ctx.thorough() {
            for a in 0..asks.len() {
                for b in a..asks.len() {
                    for c in b..asks.len() {
                        // the largest together say little before the cap is reached
                        if [a, b, c].iter().filter(|i| matches!(asks[**i].1, Ask::Stacks(..))).count() > 1 {
                            continue;
                        }
                        g.push(vec![a, b, c]);
                    }
                }
            }
        }
        g
    };
    let bound2 = ctx.by(1u32, 2);
    let cap2 = 20_000u64;
    let cap3 = 2_000u64;
    ctx.family(
        "at once",
        &format!("{} groups of queries (coalescing, stacking, matching, listing) running at once on the same stores: every interleaving at the granularity of storage operations with up to {} preemptions (where three run at once, 1; at most {} schedules each, {} of three), each compared with its answer alone", groups.len(), bound2, cap2, cap3),
        groups.len() as u64 * kinds,
        |case, t| {
            let mut d = Digits::new(case);
            let group = d.pick(&groups);
            let w = worlds(d.below(kinds))?;
            let want: Vec<Answer> = group.iter().map(|i| answer(&w, &asks[*i].1)).collect::<Result<_, _>>()?;
            t.state(&(case, group));
            let names: Vec<&str> = group.iter().map(|i| asks[*i].0).collect();
            explore(
                t,
                if group.len() > 2 { 1 } else { bound2 },
                if group.len() > 2 { cap3 } else { cap2 },
                || together(&w, &asks, group),
                &want,
                &format!("{:?}", names),
            )
        },
    );
    // the same with atomic operations as places to switch
    let bound3 = ctx.by(1u32, 2);
    let pairs: Vec<Vec<usize>> = {
        let some: Vec<usize> = (0..asks.len()).filter(|i| thorough || (!BIG.contains(&asks[*i].0) && asks[*i].0 != SHARED)).collect();
        let mut g: Vec<Vec<usize>> = some.iter().map(|i| vec![*i]).collect();
        for a in &some {
            for b in &some {
                let stacks = |i: usize| matches!(asks[i].1, Ask::Stacks(..));
                let light = |i: usize| ["two alone", "match in a box", "coalesce one"].contains(&asks[i].0);
                let both = stacks(*a) && stacks(*b);
                if !thorough && [a, b].iter().any(|i| MANY.contains(&asks[**i].0)) {
                    continue;
                }
                if a <= b && (if thorough { light(*a) || light(*b) } else if both { light(*a) && light(*b) } else { ["two alone", "match in a box"].contains(&asks[*a].0) || ["two alone", "match in a box"].contains(&asks[*b].0) }) {
                    g.push(vec![*a, *b]);
                }
            }
        }
        g
    };
    ctx.family(
        "atomics",
        &format!("{} queries or pairs of queries at once: every interleaving at the granularity of storage operations and of atomic operations, locks included, with up to {} preemptions (at most {} schedules each)", pairs.len(), bound3, cap2),
        pairs.len() as u64 * kinds,
        |case, t| {
            let mut d = Digits::new(case);
            let group = d.pick(&pairs);
            let w = worlds(d.below(kinds))?;
            let want: Vec<Answer> = group.iter().map(|i| answer(&w, &asks[*i].1)).collect::<Result<_, _>>()?;
            t.state(&(case, group));
            let names: Vec<&str> = group.iter().map(|i| asks[*i].0).collect();
            vsched::atomics(true);
            let r = if group.len() == 1 {
                explore(t, bound3, cap2, || answer(&w, &asks[group[0]].1), &want[0], names[0])
            } else {
                explore(t, bound3, cap2, || together(&w, &asks, group), &want, &format!("{:?}", names))
            };
            vsched::atomics(false);
            r
        },
    );
    // one after another
    let len = ctx.by(2u32, 3);
    let n = asks.len() as u64;
    ctx.family(
        "one after another",
        &format!("every sequence of {} queries and one more on the same stores and on the same thread, the last compared with its answer on stores that were never asked anything", len),
        n.pow(len + 1) * kinds,
        |case, t| {
            let mut d = Digits::new(case);
            let kind = d.below(kinds);
            let last = d.below(n) as usize;
            let w = worlds(kind)?;
            for _ in 0..len {
                answer(&w, &asks[d.below(n) as usize].1)?;
            }
            let got = answer(&w, &asks[last].1)?;
            let want = with_seed(1, || worlds(kind).and_then(|w| answer(&w, &asks[last].1)))?;
            t.state(&format!("{:?}", want));
            t.trace(len as u64 + 1);
            if got != want {
                return Err(format!("{}: {:?} after other queries, {:?} alone", asks[last].0, got, want));
            }
            Ok(())
        },
    );
    // hash seeds
    let seeds = ctx.by(64u64, 2000);
    ctx.family(
        "seeds",
        &format!("each query on each set of stores with {} seeds for the hash maps of the standard library", seeds),
        n * kinds * seeds,
        |case, t| {
            let mut d = Digits::new(case);
            let kind = d.below(kinds);
            let ask = d.pick(&asks);
            let seed = d.below(seeds) + 2;
            let w = worlds(kind)?;
            let want = with_seed(1, || answer(&w, &ask.1))?;
            let (got, order) = with_seed(seed, || {
                let a = answer(&w, &ask.1);
                // which order this seed gives a map
                let m: std::collections::HashSet<u32> = (0..4).collect();
                (a, m.into_iter().collect::<Vec<_>>())
            });
            let got = got?;
            t.outcome(&order);
            t.state(&format!("{:?}", want));
            t.trace(1);
            if got != want {
                return Err(format!("{}: {:?} with seed {}, {:?} with seed 1", ask.0, got, seed, want));
            }
            Ok(())
        },
    );
}

/// Several queries at once.
fn together(w: &World, asks: &[(&'static str, Ask)], group: &[usize]) -> Result<Vec<Answer>, String> {
    let out: Vec<vsched::quiet::Mutex<Option<Result<Answer, String>>>> = group.iter().map(|_| vsched::quiet::Mutex::new(None)).collect();
    let outr = &out;
    vsched::run_tasks(
        group
            .iter()
            .enumerate()
            .map(|(n, i)| {
                Box::new(move || {
                    let r = answer(w, &asks[*i].1);
                    *outr[n].lock() = Some(r);
                }) as vsched::Task<'_>
            })
            .collect(),
    );
    out.into_iter().map(|m| m.into_inner().unwrap()).collect::<Result<Vec<_>, _>>()
}

fn explore<A: PartialEq + std::fmt::Debug>(
    t: &mut Tally,
    bound: u32,
    cap: u64,
    body: impl Fn() -> Result<A, String>,
    want: &A,
    name: &str,
) -> Result<(), String> {
    let mut wrong = None;
    let mut complete = None;
    // well before the case would be taken to hang
    let until = std::time::Instant::now() + std::time::Duration::from_secs(if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 30 } else { 70 });
    // fewest preemptions first
    for b in 0..=bound {
        let stats = vsched::explore_until(b, cap, Some(until), || guarded(&body).and_then(|r| r), |ex| {
            let ok = matches!(&ex.result, Ok(a) if a == want);
            if !ok {
                wrong = Some(format!("{}: under the schedule {:?}: {:?}, expected {:?}", name, ex.choices, ex.result, want));
            }
            ok
        });
        t.executions += stats.executions;
        t.transitions += stats.points;
        t.traces += stats.executions;
        if let Some(e) = wrong {
            return Err(e);
        }
        t.outcome(&(name, b, stats.executions));
        if !stats.exhausted {
            t.capped = true;
            break;
        }
        complete = Some(b);
        if std::env::var("MC_DEBUG").is_ok() {
            eprintln!("{} bound {}: {} schedules", name, b, stats.executions);
        }
    }
    t.sample(|| format!("{}: every schedule with up to {:?} preemptions", name, complete));
    Ok(())
}
