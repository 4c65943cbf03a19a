//! C04: the record format, through its writer and readers.
use carmen_core::gridstore::verif_hooks::format::*;
use mc::ctx::*;

#[path = "../props/format.rs"]
mod format_outside;

#[global_allocator]
static ALLOC: mc::poison::Poison = mc::poison::Poison;

/// A record in plain data: groups of (relevance and score byte, coordinates with their ids).
type Plain = Vec<(u8, Vec<(u32, Vec<u32>)>)>;

/// Moves the writer forward by `n` bytes.
fn pad(w: &mut Writer, n: usize) {
    let mut left = n;
    while left > 4 * 200 {
        // one vector of k words takes 4k bytes and its length
        let k = (left - 16) / 4;
        let len = if k < 1 << 7 { 1 } else if k < 1 << 14 { 2 } else if k < 1 << 21 { 3 } else { 4 };
        w.write_fixed_vec(&vec![0xA5A5_A5A5u32; k]);
        left -= 4 * k + len;
    }
    let none: Vec<u32> = vec![];
    for _ in 0..left {
        w.write_fixed_vec(&none);
    }
}

/// Writes it; `gaps[i]` bytes go before the i-th list of ids. Equal lists are shared if asked.
fn write(p: &Plain, gaps: &[usize], share: bool) -> Vec<u8> {
    let mut w = Writer::new();
    let mut i = 0;
    let mut seen: Vec<(Vec<u32>, FixedVecOffset<u32>)> = Vec::new();
    let mut rs = Vec::new();
    for (b, coords) in p {
        let mut cs = Vec::new();
        for (c, ids) in coords {
            if let Some(g) = gaps.get(i) {
                pad(&mut w, *g);
            }
            i += 1;
            let at = match seen.iter().find(|s| share && s.0 == *ids) {
                Some(s) => s.1,
                None => {
                    let o = w.write_fixed_vec(ids);
                    seen.push((ids.clone(), o));
                    o
                }
            };
            cs.push(Coord { coord: *c, ids: at });
        }
        let o = w.write_uniform_vec(&cs);
        rs.push(RelevScore { relev_score: *b, coords: o });
    }
    let o = w.write_var_vec(&rs);
    w.write_fixed_scalar(PhraseRecord { relev_scores: o });
    w.finish()
}

/// Reads it through all the ways there are.
fn read(data: &[u8], p: &Plain) -> Result<(), String> {
    let reader = Reader::new(data);
    let rec = read_phrase_record_from(&reader);
    let rs = read_var_vec_raw(data, rec.relev_scores);
    if rs.len() != p.len() {
        return Err(format!("{} groups, expected {}", rs.len(), p.len()));
    }
    let mut groups = 0;
    for (g, (b, coords)) in rs.into_iter().zip(p) {
        groups += 1;
        if g.relev_score != *b {
            return Err(format!("group byte {}, expected {}", g.relev_score, b));
        }
        let cv = read_uniform_vec_raw(data, g.coords);
        if cv.len() != coords.len() {
            return Err(format!("{} coordinates, expected {}", cv.len(), coords.len()));
        }
        let listed: Vec<u32> = cv.iter().map(|c| c.coord).collect();
        let want: Vec<u32> = coords.iter().map(|c| c.0).collect();
        if listed != want {
            return Err(format!("coordinates {:?}, expected {:?}", listed, want));
        }
        let mut n = 0;
        for (i, c) in cv.into_iter().enumerate() {
            n += 1;
            let (coord, ids) = &coords[i];
            let by_index = cv.get(i);
            if c.coord != *coord || by_index.coord != *coord {
                return Err(format!("coordinate {}: {} and {}, expected {}", i, c.coord, by_index.coord, coord));
            }
            for c in [c, by_index] {
                let v = read_fixed_vec_raw(data, c.ids);
                if v.len() != ids.len() {
                    return Err(format!("coordinate {}: {} ids, expected {}", i, v.len(), ids.len()));
                }
                let a: Vec<u32> = v.iter().collect();
                let b: Vec<u32> = v.into_iter().collect();
                let c: Vec<u32> = (0..v.len()).map(|j| v.get(j)).collect();
                if a != *ids || b != *ids || c != *ids {
                    return Err(format!("coordinate {}: ids differ ({} of them)", i, ids.len()));
                }
            }
        }
        if n != coords.len() {
            return Err(format!("{} coordinates iterated, expected {}", n, coords.len()));
        }
    }
    if groups != p.len() {
        return Err(format!("{} groups iterated, expected {}", groups, p.len()));
    }
    Ok(())
}

fn check(p: &Plain, gaps: &[usize], share: bool) -> Result<usize, String> {
    let d = write(p, gaps, share);
    read(&d, p).map_err(|e| format!("{:.300?} gaps {:?}: {}", p, gaps, e))?;
    // a record is the same wherever it is read from
    Ok(d.len())
}

fn c04(ctx: &mut Ctx) {
    // every small shape
    let idlists: Vec<Vec<u32>> = vec![vec![], vec![0], vec![u32::MAX, 256], vec![0x0100_00FF, 255, 3]];
    let coords = [0u32, 255, 65536, u32::MAX];
    let nl = idlists.len() as u64;
    let per: u64 = (0..=2u32).map(|n| nl.pow(n)).sum();
    let depth = 3u32;
    ctx.family(
        "shapes",
        "every record of up to 3 groups with up to 2 coordinates each, every coordinate with one of 4 lists of ids, lists shared or not",
        (1 + per + per.pow(2) + per.pow(depth)) * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let share = d.flag();
            let mut rest = d.rest();
            let mut groups = 0;
            let mut size = 1;
            while rest >= size {
                rest -= size;
                size *= per;
                groups += 1;
            }
            let mut d = Digits::new(rest);
            let mut p: Plain = Vec::new();
            for g in 0..groups {
                let mut k = d.below(per);
                let mut n = 0;
                let mut size = 1;
                while k >= size {
                    k -= size;
                    size *= nl;
                    n += 1;
                }
                let mut d2 = Digits::new(k);
                let cs = (0..n).map(|i| (coords[(g + i) % 4], d2.pick(&idlists).clone())).collect();
                p.push(([0u8, 255, 127][g], cs));
            }
            t.state(&p);
            t.trace(p.len() as u64);
            t.sample(|| format!("{:?}", p));
            check(&p, &[], share).map(|_| ())
        },
    );
    // pointers of every length, mixed in one vector
    let around = |n: usize| -> Vec<usize> { (n.saturating_sub(14)..n + 6).collect() };
    let mut starts: Vec<usize> = vec![0, 1];
    for b in [128usize, 256, 16384, 65536] {
        starts.extend(around(b));
    }
    let m = starts.len() as u64;
    ctx.family(
        "pointers",
        "two groups of two coordinates whose lists of ids lie at every distance around 128, 256, 16384 and 65536 bytes, in every combination of gaps before the first, second and third list",
        m * m * 9,
        |case, t| {
            let mut d = Digits::new(case);
            let a = *d.pick(&starts);
            let b = *d.pick(&starts);
            let c = *d.pick(&[0usize, 120, 236, 251, 256, 16370, 65300, 65530, 65536]);
            let p: Plain = vec![
                (0x35, vec![(7, vec![1, 2]), (6, vec![3])]),
                (0x10, vec![(9, vec![4]), (8, vec![5, 6, 7])]),
            ];
            t.state(&(a, b, c));
            t.trace(4);
            check(&p, &[a, b, c], false).map(|_| ())
        },
    );
    // lists shared by coordinates in any order, so that pointers rise, fall and repeat
    let gaps = [0usize, 130, 250, 256, 700, 16400, 65530, 65540];
    let n = ctx.by(3usize, 4);
    ctx.family(
        "shared-pointers",
        &format!("{} lists of ids at distances of {:?} from one another, which two groups of {} coordinates share in every possible way", n, gaps, n),
        (gaps.len() as u64).pow(n as u32 - 1) * (n as u64).pow(2 * n as u32),
        |case, t| {
            let mut d = Digits::new(case);
            let gs: Vec<usize> = (1..n).map(|_| *d.pick(&gaps)).collect();
            let lists: Vec<Vec<u32>> = (0..n as u32).map(|i| (0..=i).map(|j| 100 * i + j).collect()).collect();
            let pick: Vec<usize> = (0..2 * n).map(|_| d.below(n as u64) as usize).collect();
            // the first group writes all the lists, in their order
            let first = lists.iter().enumerate().map(|(i, l)| (500 - i as u32, l.clone())).collect();
            let mut p: Plain = vec![(0x3f, first)];
            for g in 0..2 {
                p.push((g as u8, (0..n).map(|i| (50 - i as u32, lists[pick[g * n + i]].clone())).collect()));
            }
            let mut all = vec![0];
            all.extend(&gs);
            t.state(&(&gs, &pick));
            t.trace(2 * n as u64);
            check(&p, &all, true).map(|_| ())
        },
    );
    let mut far: Vec<(usize, usize)> = Vec::new();
    for b in [1usize << 21, 1 << 24] {
        for n in around(b) {
            far.push((n, 0));
            if ctx.thorough() {
                for k in [1usize, 3, 200, 256, 300, 65536] {
                    far.push((n, k));
                    far.push((k, n));
                }
            } else {
                far.push((300, n - 300));
            }
        }
    }
    if ctx.thorough() {
        far.push((1 << 28, 0));
    }
    ctx.family(
        "far-pointers",
        "the same around 2 MB and 16 MB",
        far.len() as u64,
        |case, t| {
            let (a, b) = far[case as usize];
            let p: Plain = vec![
                (0x35, vec![(7, vec![1, 2]), (6, vec![3])]),
                (0x10, vec![(9, vec![4]), (8, vec![5, 6, 7])]),
            ];
            t.state(&(a, b));
            t.trace(4);
            check(&p, &[a, b], false).map(|_| ())
        },
    );
    // one pointer unlike the others in a list of any length
    let mut ns: Vec<usize> = (1..=ctx.by(40, 300)).collect();
    for b in [64usize, 128, 256, 512, 1000, 1024, 2048, 4096, 10_000, 65_536] {
        ns.extend(b - 1..b + 2);
    }
    let dists = [120usize, 250, 300, 16_400, 65_530, 70_000, 1 << 24];
    ctx.family(
        "one-unlike",
        &format!("lists of {} lengths up to {} of coordinates that all share one list of ids but for one that has another, {:?} bytes farther or nearer, at the first, second, third, middle and last two places", ns.len(), ns.last().unwrap(), dists),
        (ns.len() * dists.len()) as u64 * 6 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let gap = *d.pick(&dists);
            let at = [0, 1, 2, n / 2, n.saturating_sub(2), n - 1][d.below(6) as usize];
            let far = d.flag();
            // not every length with the slow ones
            if at >= n || (gap > 70_000 && n > 300 && !n.is_power_of_two()) {
                return Ok(());
            }
            let lists = [vec![1u32, 2], vec![3]];
            let p: Plain = vec![
                (0x3f, vec![(9, lists[0].clone()), (8, lists[1].clone())]),
                (0x21, (0..n).map(|i| ((n - i) as u32 * 3, lists[((i == at) == far) as usize].clone())).collect()),
            ];
            t.state(&(n, gap, at, far));
            t.trace(n as u64);
            check(&p, &[0, gap], true).map(|_| ())
        },
    );
    // lengths of lists
    let mut lens: Vec<usize> = (0..300).collect();
    for b in [16384usize, 65536, 1 << 21] {
        lens.extend(b - 3..b + 4);
    }
    ctx.family(
        "lengths",
        "lists of ids, of coordinates and of groups of every length up to 300 and around 2^14, 2^16 and 2^21 (groups: up to 2^16)",
        lens.len() as u64 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let what = d.below(3);
            let n = *d.pick(&lens);
            t.state(&(what, n));
            t.trace(n as u64);
            let p: Plain = match what {
                0 => vec![(1, vec![(5, (0..n as u32).map(|i| i.wrapping_mul(0x9E37_79B1)).collect())])],
                1 => vec![(1, (0..n as u32).map(|i| (i.wrapping_mul(0x9E37_79B1), vec![i % 7])).collect()), (2, vec![(3, vec![4])])],
                _ => (0..n.min(1 << 16) as u32).map(|i| (i as u8, vec![(i, vec![i])])).collect(),
            };
            // sharing makes writing quadratic in the number of different lists; there are 7
            check(&p, &[], what == 1).map(|_| ())
        },
    );
    format_outside::outside(ctx);
}

fn main() {
    main_with(&[Prop {
        id: "C04",
        level: "model_checking",
        rule: "",
        run: c04,
    }])
}
