BUGS = []
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('dedup-before-sort', 'C01', [('builder.rs', '''            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));
            ids.dedup();
''', '''            ids.dedup();
            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));
''')], r'''
fn main() {
    let e = |id| ent(1., 3, 1, 1, id, 0);
    let s = store("s", &[(key(1, 1), vec![e(5), e(6), e(5)])], &[], 6, 0, 0.0);
    assert_eq!(get(&s, &key(1, 1)).unwrap().len(), 2);
}
''', 'an entry that is put in again after another one of the same tile', 'Repeated entries are only removed where they were put in one after the other.')

bug('boundaries-extend', 'C02', [('builder.rs', '''        self.bin_boundaries = bin_boundaries;
        Ok(())''', '''        self.bin_boundaries.extend(bin_boundaries);
        Ok(())''')], r'''
fn main() {
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    for p in 0..8 {
        b.insert(&key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)]).unwrap();
    }
    b.load_bin_boundaries(vec![0, 2, 8]).unwrap();
    b.load_bin_boundaries(vec![0, 4, 8]).unwrap();
    b.finish().unwrap();
    let s = open("s", 6, 0, 0.0);
    let mut bounds: Vec<_> = s.bin_boundaries.iter().cloned().collect();
    bounds.sort();
    assert_eq!(bounds, vec![0, 4, 8]);
    for (a, z) in [(0, 4), (4, 8), (0, 8)].iter() {
        assert_eq!(query(&s, &range(*a, *z, 1), &opts(6), 100).len(), (z - a) as usize);
    }
}
''', 'bin boundaries loaded twice', 'The boundaries loaded first stay in the list, out of order, and bins lose entries.')

bug('bins-end-unchecked', 'C05', [('store.rs', '''                if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {''',
'''                if self.bin_boundaries.contains(&start)
                    && (self.bin_boundaries.contains(&end)
                        || self.bin_boundaries.iter().all(|b| *b < end))
                {''')], r'''
fn main() {
    let d: Vec<_> = (0u32..8).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)])).collect();
    let s = store("s", &d, &[0, 4], 6, 0, 0.0);
    assert_eq!(query(&s, &range(4, 6, 1), &opts(6), 100).len(), 2);
}
''', 'a range from a boundary to somewhere within the last, open bin', 'The whole last bin is returned for a range that covers only part of it.')

bug('language-map-kept-over-first-boundary', 'C05', [('builder.rs', '''        for (group_id, group_value) in grouped {
            let mut lang_set_map: HashMap<u128, BuilderEntry> = HashMap::new();
''', '''        let mut lang_set_map: HashMap<u128, BuilderEntry> = HashMap::new();
        for (group_id, group_value) in grouped {
'''), ('builder.rs', '''                for (lang_set, builder_entry) in lang_set_map.into_iter() {''', '''                for (lang_set, builder_entry) in lang_set_map.drain() {''')], r'''
fn main() {
    let d: Vec<_> = (0u32..8).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)])).collect();
    let s = store("s", &d, &[3, 6], 6, 0, 0.0);
    assert_eq!(query(&s, &range(3, 6, 1), &opts(6), 100).len(), 3);
}
''', 'phrases below the first bin boundary', 'Entries of phrases before the first boundary turn up in the first bin.')

bug('nearby-floor-deep', 'C13', [('common.rs', '''        let padding = (NEARBY_RADIUS / miles_per_tile).ceil() as u16;
''', '''        let padding = (NEARBY_RADIUS / miles_per_tile - 0.01).ceil() as u16;
''')], r'''
fn main() {
    for zoom in 0u16..17 {
        let o = MatchOpts { bbox: None, proximity: Some([0, 0]), zoom }.with_nearby_only();
        let want = (25.0f64 * (1u32 << zoom) as f64 / 24901.0).ceil() as u16;
        assert_eq!(o.bbox.unwrap()[2], want, "zoom {}", zoom);
    }
}
''', 'a zoom at which the radius is hardly more than a whole number of tiles (zoom 0 to 3)', 'The padding is rounded down where it exceeds a whole number of tiles by less than a hundredth.')

bug('bounds-error-is-none', 'C07', [('store.rs', '''        let bin_boundaries: HashSet<u32> = match db.get("~BOUNDS")? {''', '''        let bin_boundaries: HashSet<u32> = match db.get("~BOUNDS").ok().and_then(|b| b) {''')], r'''
fn main() {
    use rocksdb::sim;
    let d: Vec<_> = (0u32..8).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)])).collect();
    drop(store("s", &d, &[0, 4, 8], 6, 0, 0.0));
    for n in 0..8 {
        sim::arm(Some(n));
        let r = GridStore::new(path("s"));
        let (_, fired) = sim::disarm();
        assert_eq!(r.is_err(), fired, "fault at {}", n);
    }
}
''', 'a failure of the storage while the boundaries are read', 'A store opens without its bins instead of reporting the failure.')

bug('descending-check-by-index', 'C17', [('coalesce.rs', '''    if context.entries.len() == 1 || context.entries[0].mask > context.entries[1].mask {''',
'''    let last = context.entries.len() - 1;
    if context.entries.len() == 1 || context.entries[0].mask > context.entries[last].mask {''')], r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 1, 0, 0, 11, 0)])], &[], 6, 0, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(1., 1, 0, 0, 12, 0)])], &[], 6, 1, 0.0);
    let c = store("c", &[(key(1, 1), vec![ent(1., 1, 0, 0, 13, 0)])], &[], 6, 2, 0.0);
    let m = |i| vec![with_id(exact(1, 1), i)];
    // masks from the finest to the broadest: 2, 4, 1
    let out = stack_and_coalesce(&vec![sub(&a, 0, 1, 0.3, m(1)), sub(&b, 1, 4, 0.3, m(2)), sub(&c, 2, 2, 0.3, m(3))], &opts(6)).unwrap();
    assert_eq!(out[0].entries.len(), 3);
    assert!((out[0].relev - 0.9).abs() < 1e-6, "{}", out[0].relev);
}
''', 'a stack of three whose masks neither rise nor fall', 'The penalty compares the ends of the stack instead of its first two entries.')

bug('possible-relev-without-child', 'C20', [('coalesce.rs', '''                                    relev_so_far
                                        + child.phrasematch.expect("phrasematch required").weight,''',
'''                                    relev_so_far,''')], r'''
fn main() {
    // a leaf of zoom 14 asked for with a range, that makes the best stack, stacked on something of little weight
    let far = store("far", &[(key(1, 1), vec![ent(1., 1, 9, 9, 21, 0)])], &[], 6, 3, 0.0);
    let a = store("a", &[(key(1, 1), vec![ent(1., 1, 0, 0, 11, 0)])], &[], 6, 0, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(1., 1, 0, 0, 12, 0)]), (key(2, 1), vec![ent(1., 1, 1, 0, 14, 0)])], &[], 14, 1, 0.0);
    let c = store("c", &[(key(1, 1), vec![ent(1., 1, 0, 0, 13, 0)])], &[], 14, 2, 0.0);
    let m = |i| vec![with_id(exact(1, 1), i)];
    let _ = (&far, &c);
    let out = stack_and_coalesce(
        &vec![
            sub(&far, 3, 7, 0.6, m(1)),
            sub(&a, 0, 1, 0.3, m(2)),
            sub(&b, 1, 2, 0.2, vec![MatchKeyWithId { key: range(1, 3, 1), id: 3, nearby_only: false, phrase_length: 5 }]),
        ],
        &opts(14),
    )
    .unwrap();
    assert!(out.iter().any(|c| c.entries.len() == 2), "{:?}", out.iter().map(|c| c.entries.len()).collect::<Vec<_>>());
}
''', 'a one-word range over a high-zoom store on top of something, with a better result there already', 'The work saved on leaves that cannot matter also skips leaves that do.')

bug('cull-keeps-count', 'C19', [('stackable.rs', '''            self.total_leaves -= min_leaf_count;
''', '''            self.total_leaves -= std::cmp::min(min_leaf_count, min_nodes.len() / 2);
''')], r'''
fn main() {
    let stores: Vec<_> = (0u16..3).map(|t| store(&format!("s{}", t), &[(key(1, 1), vec![ent(1., 1, 0, 0, 11, 0)])], &[], 6, t, 0.0)).collect();
    // many small steps of weight: bins fall away all the time
    let mut subs = Vec::new();
    let mut idx = 0;
    for t in 0..3usize {
        for i in 0..18u32 {
            subs.push(sub(&stores[t], idx % 127, 1 << t, 0.1 + 0.001 * (i as f64) * [1., 18., 324.][t], vec![with_id(exact(1, 1), idx as u32)]));
            idx += 1;
        }
    }
    let tree = stackable(&subs);
    let mut stack = vec![tree.root.clone()];
    let mut leaves = 0;
    while let Some(n) = stack.pop() {
        if n.is_leaf() {
            leaves += 1;
        }
        for c in &n.children {
            if let Some(c) = tree.arena.get(*c) {
                stack.push(c.clone());
            }
        }
    }
    assert!(leaves >= 2000, "only {} leaves", leaves);
}
''', 'more than 2000 stacks of many different weights', 'The count of leaves drifts upwards when bins are dropped, so that too much is dropped.')

bug('adjust-max-corner', 'C12', [('common.rs', '''            let adjusted_bbox = self.bbox.map(|bbox| adjust_bbox_zoom(bbox, self.zoom, target_z));
''', '''            let adjusted_bbox = if target_z < self.zoom {
                let by = self.zoom - target_z;
                self.bbox.map(|b| {
                    let w = (b[2].wrapping_sub(b[0]) as u32 + 1) >> by;
                    let h = (b[3].wrapping_sub(b[1]) as u32 + 1) >> by;
                    let (x, y) = ((b[0] as u32) >> by, (b[1] as u32) >> by);
                    // the box and whatever it cuts at its far end
                    let cut = |v: u16| u32::from(v as u32 + 1 & ((1 << by) - 1) != 0);
                    let x2 = std::cmp::min(x + w - if w == 0 { 0 } else { 1 } + cut(b[2]), (b[2] as u32) >> by);
                    let y2 = std::cmp::min(y + h - if h == 0 { 0 } else { 1 } + cut(b[3]), (b[3] as u32) >> by);
                    [x as u16, y as u16, x2 as u16, y2 as u16]
                })
            } else {
                self.bbox.map(|bbox| adjust_bbox_zoom(bbox, self.zoom, target_z))
            };
''')], r'''
fn main() {
    for x0 in 0u16..8 {
        for x1 in x0..8 {
            for to in 0u16..3 {
                let o = MatchOpts { bbox: Some([x0, 0, x1, 7]), proximity: None, zoom: 3 }.adjust_to_zoom(to);
                let by = 3 - to;
                assert_eq!(o.bbox, Some([x0 >> by, 0, x1 >> by, 7 >> by]), "{}..{} to {}", x0, x1, to);
            }
        }
    }
}
''', 'a box that begins within one tile of the coarser zoom and ends within another', 'A box that is not aligned loses tiles at its far end when zoomed out.')

bug('scratch-between-steps', 'C22', [('coalesce.rs', '''        // phase 2: for complex coalesce,''', '''        // one buffer for all the steps of the chunk, so that it need not grow again for each
        let scratch: std::sync::Mutex<Vec<CoalesceContext>> =
            std::sync::Mutex::new(Vec::with_capacity(MAX_GRIDS_PER_PHRASE));

        // phase 2: for complex coalesce,'''), ('coalesce.rs', '''                    let mut state_contexts: Vec<CoalesceContext> = Vec::new();
''', ''), ('coalesce.rs', '''                                        state_contexts.push(new_context);''', '''                                        scratch.lock().unwrap().push(new_context);'''),
('coalesce.rs', '''                                state_contexts.push(context);''', '''                                scratch.lock().unwrap().push(context);'''),
('coalesce.rs', '''                    let mut next_steps = Vec::with_capacity(step.node.children.len());
''', '''                    let mut next_steps = Vec::with_capacity(step.node.children.len());
                    let state_contexts: Vec<CoalesceContext> =
                        scratch.lock().unwrap().drain(..).collect();
''')], r'''
fn main() {
    let mk = |n: &str, t: u16| store(n, &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)]), (key(2, 1), vec![ent(1., 3, 2, 2, 9, 1)])], &[], 6, t, 0.0);
    let (a, b) = (mk("a", 0), mk("b", 1));
    let subs = vec![
        sub(&a, 0, 1, 0.5, vec![with_id(exact(1, 1), 0)]),
        sub(&a, 0, 2, 0.5, vec![with_id(exact(2, 1), 1)]),
        sub(&b, 1, 2, 0.5, vec![with_id(exact(1, 1), 2)]),
        sub(&b, 1, 1, 0.5, vec![with_id(exact(2, 1), 3)]),
    ];
    let mut seen = std::collections::BTreeSet::new();
    vsched::atomics(true);
    vsched::explore(2, 20_000, || format!("{:?}", stack_and_coalesce(&subs, &opts(6)).unwrap()), |e| {
        seen.insert(e.result.clone());
        true
    });
    assert_eq!(seen.len(), 1, "{} different results", seen.len());
}
''', 'two steps of one chunk that run at the same time and switch between two of their pushes', 'Steps that run at the same time mix up what they hand on to the steps stacked on them.')

bug('best-relevance-race', 'C22', [('coalesce.rs', '''        // phase 2: for complex coalesce,''', '''        // contexts that are far worse than the best one of the chunk need not be carried on
        let best_so_far = std::sync::atomic::AtomicU64::new(0);

        // phase 2: for complex coalesce,'''), ('coalesce.rs', '''                    let mut next_steps = Vec::with_capacity(step.node.children.len());
''', '''                    let best = f64::from_bits(best_so_far.load(std::sync::atomic::Ordering::SeqCst));
                    if relev_so_far > best {
                        best_so_far
                            .store(relev_so_far.to_bits(), std::sync::atomic::Ordering::SeqCst);
                    }
                    let best = f64::from_bits(best_so_far.load(std::sync::atomic::Ordering::SeqCst));
                    state_contexts.retain(|c| best - c.relev < 0.5);

                    let mut next_steps = Vec::with_capacity(step.node.children.len());
''')], r'''
fn main() {
    let e = |r: f64| vec![(key(1, 1), vec![ent(r, 3, 1, 1, 7, 0)])];
    let (a, b, c) = (store("a", &e(1.), &[], 6, 0, 0.0), store("b", &e(1.), &[], 6, 1, 0.0), store("c", &e(1.), &[], 6, 2, 0.0));
    let subs = vec![
        sub(&a, 0, 1, 0.7, vec![with_id(exact(1, 1), 0)]),
        sub(&b, 1, 3, 0.1, vec![with_id(exact(1, 1), 1)]),
        sub(&c, 2, 4, 0.5, vec![with_id(exact(1, 1), 2)]),
    ];
    let mut seen = std::collections::BTreeSet::new();
    vsched::atomics(true);
    vsched::explore(2, 20_000, || format!("{:?}", stack_and_coalesce(&subs, &opts(6)).unwrap()), |e| {
        seen.insert(e.result.clone());
        true
    });
    assert_eq!(seen.len(), 1, "{} different results", seen.len());
}
''', 'steps of one chunk that finish in different orders', 'What is carried on to the next level depends on which of the parallel steps is done first.')
