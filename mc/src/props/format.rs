//! C04 from outside: records of every size, through a builder and a store.
use mc::ctx::*;
use mc::model::*;
use std::collections::BTreeSet;

pub fn outside(ctx: &mut Ctx) {
    // a first list of n ids moves everything behind it by 4n bytes
    let mut sizes: Vec<usize> = (1..80).collect();
    for words in [4096usize, 16384] {
        sizes.extend(words - 12..words + 3);
    }
    sizes.extend(ctx.by(vec![524_280, 524_288], (524_270..524_290).collect::<Vec<_>>()));
    if ctx.thorough() {
        sizes.extend([4_194_290, 4_194_304]);
    }
    let m = sizes.len() as u64;
    ctx.family(
        "outside",
        "keys whose record holds a long list of ids (1..80, and around 2^12, 2^14, 2^19 and, thorough, 2^22) and a second list of 1..3 ids, at the same or different coordinates and levels of score and relevance, written and read back",
        m * 3 * 4,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&sizes);
            let k = d.below(3) as u32 + 1;
            let how = d.below(4);
            let mut c = Content::new();
            let mut v: BTreeSet<Ent> = (0..n as u32).map(|i| Ent::new(2, 5, 300, 17, i, (i % 251) as u8)).collect();
            for i in 0..k {
                v.insert(match how {
                    0 => Ent::new(2, 5, 301, 17, i, 9),
                    1 => Ent::new(2, 4, 300, 17, i, 9),
                    2 => Ent::new(3, 5, 300, 18, i, 9),
                    _ => Ent::new(1, 15, 65535, 65535, i, 9),
                });
            }
            c.insert((1, 3), v);
            c.insert((2, 3), [Ent::new(0, 1, 2, 3, 4, 5)].into_iter().collect());
            t.state(&(n, k, how));
            t.trace(n as u64);
            t.sample(|| format!("{} ids at one coordinate and {} at another (arrangement {})", n, k, how));
            let s = build(&c, &[])?;
            check_content(&open(&s, &Conf::at(6))?, &c).map_err(|e| format!("{:.400}", e))
        },
    );
    // the other direction: many coordinates, many levels
    let mut counts: Vec<usize> = (1..70).collect();
    for words in [2048usize, 8192] {
        counts.extend(words - 3..words + 4);
    }
    if ctx.thorough() {
        counts.extend([262_143, 262_144, 262_145]);
    }
    ctx.family(
        "outside-coordinates",
        "keys whose record holds 1..70 (and around 2^11, 2^13 and, thorough, 2^18) coordinates, all with the same list of 1..3 ids, with lists that alternate, or each with its own, spread over 1, 2 or 64 levels",
        counts.len() as u64 * 3 * 3 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&counts) as u32;
            let ids = d.below(3) as u32 + 1;
            let lists = d.below(3);
            let levels = *d.pick(&[1u32, 2, 64]);
            let mut v = BTreeSet::new();
            for i in 0..n {
                let l = i % levels;
                for j in 0..ids {
                    let base = match lists {
                        0 => 0,
                        1 => (i % 2) * 7,
                        _ => i * 4,
                    };
                    v.insert(Ent::new((l & 3) as u8, (l >> 2) as u8, (i % 256) as u16, (i / 256) as u16, base + j, j as u8));
                }
            }
            let mut c = Content::new();
            c.insert((0, 1), v);
            t.state(&(n, ids, lists, levels));
            t.trace(n as u64);
            let s = build(&c, &[])?;
            check_content(&open(&s, &Conf::at(14))?, &c).map_err(|e| format!("{:.400}", e))
        },
    );
}
