//! C12 zoom adjustment, C13 nearby-only boxes.
use carmen_core::gridstore::*;
use mc::ctx::*;
use mc::model::*;
use std::collections::BTreeSet;

fn edge_values(z: u16) -> Vec<u16> {
    let w = 1u32 << z;
    let mut v = BTreeSet::new();
    for c in [0i64, 1, 2, 3, 5, w as i64 / 4, w as i64 / 3, w as i64 / 2 - 1, w as i64 / 2, w as i64 / 2 + 1, w as i64 * 2 / 3, w as i64 - 3, w as i64 - 2, w as i64 - 1] {
        if c >= 0 && c < w as i64 {
            v.insert(c as u16);
        }
    }
    v.into_iter().collect()
}

fn check_adjust(o: &MatchOpts, to: u16) -> Result<(), String> {
    let r = o.adjust_to_zoom(to);
    let bad = |what: &str, want: String| Err(format!("{:?} to zoom {}: {} {:?}, expected {}", o, to, what, r, want));
    if r.zoom != to {
        return bad("zoom", to.to_string());
    }
    match (o.proximity, r.proximity) {
        (None, None) => {}
        (Some(p), Some(q)) => {
            for i in 0..2 {
                let (lo, hi) = scale(p[i], o.zoom, to);
                // the middle, and the lower of the two middle ones
                let mid = lo + (hi - lo) / 2;
                if q[i] as u64 != mid {
                    return bad("proximity", mid.to_string());
                }
            }
        }
        _ => return bad("proximity", "as present as before".into()),
    }
    match (o.bbox, r.bbox) {
        (None, None) => {}
        (Some(b), Some(c)) => {
            for i in 0..4 {
                let (lo, hi) = scale(b[i], o.zoom, to);
                let want = if i < 2 { lo } else { hi };
                if c[i] as u64 != want {
                    return bad("box", want.to_string());
                }
            }
        }
        _ => return bad("box", "as present as before".into()),
    }
    // there and back is where it was
    if to > o.zoom && r.adjust_to_zoom(o.zoom) != *o {
        return bad("not restored by zooming out again", format!("{:?}", o));
    }
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    let small = ctx.by(6u16, 7);
    // all tiles of the low zooms
    let mut cells = Vec::new();
    for z in 0..=small {
        for x in 0..1u16 << z {
            for y in 0..1u16 << z {
                cells.push((z, x, y));
            }
        }
    }
    ctx.family(
        "tiles",
        &format!("every tile of zooms 0 to {} as proximity point, to every zoom from 0 to 16", small),
        cells.len() as u64 * 17,
        |case, t| {
            let mut d = Digits::new(case);
            let to = d.below(17) as u16;
            let (z, x, y) = *d.pick(&cells);
            t.state(&(z, x, y, to));
            t.trace(1);
            check_adjust(&MatchOpts { zoom: z, proximity: Some([x, y]), bbox: None }, to)
        },
    );
    let small = ctx.by(4u16, 4);
    let mut bx = Vec::new();
    for z in 0..=small {
        let w = 1u16 << z;
        for x0 in 0..w {
            for x1 in x0..w {
                for y0 in 0..w {
                    for y1 in y0..w {
                        bx.push((z, [x0, y0, x1, y1]));
                    }
                }
            }
        }
    }
    ctx.family(
        "boxes",
        &format!("every box of tiles of zooms 0 to {}, to every zoom from 0 to 16, without a proximity point and with one at a corner of the box or of the world", small),
        bx.len() as u64 * 17 * 7,
        |case, t| {
            let mut d = Digits::new(case);
            let to = d.below(17) as u16;
            let at = d.below(7);
            let (z, b) = *d.pick(&bx);
            t.state(&(z, b, to, at));
            t.trace(1);
            let w = ((1u32 << z) - 1) as u16;
            let proximity = match at {
                0 => None,
                1 => Some([b[0], b[3]]),
                2 => Some([b[2], b[1]]),
                3 => Some([0, 0]),
                4 => Some([w, w]),
                5 => Some([w, 0]),
                _ => Some([0, w]),
            };
            check_adjust(&MatchOpts { zoom: z, proximity, bbox: Some(b) }, to)
        },
    );
    ctx.family(
        "edges",
        "every pair of zooms from 0 to 16; proximity points and boxes at the edges, the middle and thirds of the world",
        17 * 17,
        |case, t| {
            let mut d = Digits::new(case);
            let z = d.below(17) as u16;
            let to = d.below(17) as u16;
            let v = edge_values(z);
            for x in &v {
                for y in &v {
                    t.state(&(z, to, x, y));
                    t.trace(2);
                    check_adjust(&MatchOpts { zoom: z, proximity: Some([*x, *y]), bbox: None }, to)?;
                    for x1 in v.iter().filter(|c| *c >= x) {
                        for y1 in v.iter().filter(|c| *c >= y) {
                            check_adjust(&MatchOpts { zoom: z, proximity: None, bbox: Some([*x, *y, *x1, *y1]) }, to)?;
                        }
                    }
                }
            }
            if global_bbox_for_zoom(z) != vec![world(z)] {
                return Err(format!("global box of zoom {}: {:?}", z, global_bbox_for_zoom(z)));
            }
            Ok(())
        },
    );
}

/// the tiles of the world a box contains, as a box; None if there are none
fn tiles(b: [u32; 4], z: u16) -> Option<[u32; 4]> {
    let m = (1u32 << z) - 1;
    let c = [b[0], b[1], b[2].min(m), b[3].min(m)];
    if c[0] > c[2] || c[1] > c[3] {
        None
    } else {
        Some(c)
    }
}

fn check_nearby(o: &MatchOpts) -> Result<(), String> {
    let r = o.with_nearby_only();
    if r.zoom != o.zoom || r.proximity != o.proximity {
        return Err(format!("{:?} became {:?}", o, r));
    }
    let p = match o.proximity {
        None => {
            return if r == *o { Ok(()) } else { Err(format!("{:?} became {:?}", o, r)) };
        }
        Some(p) => p,
    };
    // ceil(25 miles / (24901 miles / 2^z))
    let pad = ((25u64 << o.zoom) + 24900) / 24901;
    let pad = pad as u32;
    let mut want = [
        (p[0] as u32).saturating_sub(pad),
        (p[1] as u32).saturating_sub(pad),
        p[0] as u32 + pad,
        p[1] as u32 + pad,
    ];
    if let Some(b) = o.bbox {
        want = [want[0].max(b[0] as u32), want[1].max(b[1] as u32), want[2].min(b[2] as u32), want[3].min(b[3] as u32)];
    }
    let got = match r.bbox {
        None => return Err(format!("{:?} became {:?}", o, r)),
        Some(b) => tiles([b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32], o.zoom),
    };
    let want = tiles(want, o.zoom);
    if got != want {
        return Err(format!("{:?} became {:?}: contains the tiles {:?}, expected {:?}", o, r, got, want));
    }
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    ctx.family(
        "points",
        "every zoom from 0 to 16; proximity points at edges, middle, thirds, and within 60 tiles of every edge of the world",
        17,
        |case, t| {
            let z = case as u16;
            let w = 1u32 << z;
            let mut v: BTreeSet<u16> = edge_values(z).into_iter().collect();
            for k in 0..60.min(w) {
                v.insert(k as u16);
                v.insert((w - 1 - k) as u16);
            }
            for k in 60..90.min(w) {
                v.insert(k as u16);
                v.insert((w - 1 - k) as u16);
            }
            for x in &v {
                for y in &v {
                    t.state(&(z, x, y));
                    t.trace(1);
                    check_nearby(&MatchOpts { zoom: z, proximity: Some([*x, *y]), bbox: None })?;
                }
            }
            check_nearby(&MatchOpts { zoom: z, proximity: None, bbox: None })?;
            check_nearby(&MatchOpts { zoom: z, proximity: None, bbox: Some(world(z)) })
        },
    );
    ctx.family(
        "boxes",
        "every zoom from 0 to 16; proximity points and boxes at edges, middle and thirds, disjoint ones too",
        17,
        |case, t| {
            let z = case as u16;
            let mut v = edge_values(z);
            v.retain(|x| !(*x == 3 || *x == 5));
            for px in &v {
                for py in &v {
                    for x0 in &v {
                        for y0 in &v {
                            for x1 in v.iter().filter(|c| *c >= x0) {
                                for y1 in v.iter().filter(|c| *c >= y0) {
                                    check_nearby(&MatchOpts { zoom: z, proximity: Some([*px, *py]), bbox: Some([*x0, *y0, *x1, *y1]) })?;
                                }
                            }
                            t.state(&(z, px, py, x0, y0));
                            t.trace(1);
                        }
                    }
                }
            }
            Ok(())
        },
    );
    // the box in use: a dense square of tiles around the point
    let zooms = [6u16, 12, 13, 14, 15, 16];
    ctx.family(
        "queries",
        "nearby-only queries on a store with every tile of two rows and two columns around the padding, at 6 zooms, 5 places, 7 boxes that cut, contain or miss the circle",
        zooms.len() as u64 * 5 * 7,
        |case, t| {
            let mut d = Digits::new(case);
            let z = *d.pick(&zooms);
            let w = (1u32 << z) - 1;
            let place = d.below(5);
            let p: [u32; 2] = match place {
                0 => [0, 0],
                1 => [w, w],
                2 => [w / 2, w / 3],
                3 => [5.min(w), w - 5.min(w)],
                _ => [w / 3, w / 2],
            };
            let bi = d.below(7);
            let lo = |v: u32, k: u32| v.saturating_sub(k) as u16;
            let hi = |v: u32, k: u32| (v + k).min(w) as u16;
            let bbox = match bi {
                0 => None,
                1 => Some(world(z)),
                2 => Some([lo(p[0], 4), lo(p[1], 4), hi(p[0], 3), hi(p[1], 2)]),
                3 => Some([p[0] as u16, p[1] as u16, hi(p[0], 100), hi(p[1], 100)]),
                4 => Some([0, 0, lo(p[0], 90), lo(p[1], 90)]),
                5 => Some([hi(p[0], 90), 0, w as u16, w as u16]),
                _ => Some([lo(p[0], 90), lo(p[1], 90), lo(p[0], 80), hi(p[1], 2)]),
            };
            let mut c = Content::new();
            let set = c.entry((1, 1)).or_default();
            let mut id = 0;
            for k in 0..=220u32 {
                let a = p[0] as i64 + k as i64 - 110;
                let b = p[1] as i64 + k as i64 - 110;
                for (x, y) in [(a, p[1] as i64), (p[0] as i64, b), (a, b), (a, p[1] as i64 + 1)] {
                    if x >= 0 && y >= 0 && x <= w as i64 && y <= w as i64 {
                        id += 1;
                        set.insert(Ent::new(3, 3, x as u16, y as u16, id, 0));
                    }
                }
            }
            let s = build(&c, &[])?;
            let g = open(&s, &Conf::at(z))?;
            let o = MatchOpts { zoom: z, proximity: Some([p[0] as u16, p[1] as u16]), bbox };
            check_nearby(&o)?;
            t.state(&case);
            t.trace(1);
            let q = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
            let pad = (((25u64 << z) + 24900) / 24901) as i64;
            let want: Vec<M> = matches(&c, &q, &o, 40.0)
                .into_iter()
                .filter(|m| {
                    let (x, y) = m.ent.xy();
                    (x as i64 - p[0] as i64).abs() <= pad && (y as i64 - p[1] as i64).abs() <= pad
                })
                .collect();
            same_matches(&query(&g, &q, &o.with_nearby_only(), 1)?, &want, false)
                .map_err(|e| format!("{:?}: {}", o, e))
        },
    );
}
