BUGS = []
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('bbox-aligned-shortcut', 'C09', [('spatial.rs', '''    let range = bbox_range(coords, bbox)?;
    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if x''', '''    let range = bbox_range(coords, bbox)?;
    // a box that the curve fills without leaving it needs no further checks
    let curve_length = interleave_morton(bbox[2], bbox[3]) - interleave_morton(bbox[0], bbox[1]);
    let area = (bbox[2] as u64 + 1 - bbox[0] as u64) * (bbox[3] as u64 + 1 - bbox[1] as u64);
    let contiguous = curve_length as u64 + 1 == area;
    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);
        if contiguous {
            return Some(grid);
        }
        let (x, y) = deinterleave_morton(grid.coord);
        if x''')],
r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 6, 6, 5, 0), ent(1., 3, 1, 1, 6, 0)])], &[], 6, 0, 0.0);
    let o = MatchOpts { bbox: Some([4, 4, 7, 7]), proximity: None, zoom: 6 };
    let ids: Vec<_> = query(&s, &exact(1, 1), &o, 10).iter().map(|e| e.grid_entry.id).collect();
    assert_eq!(ids, vec![5]);
}
''', 'a box aligned to a power of two whose minimum corner holds no match, with a match before it on the curve', 'The match just before an aligned box on the curve is returned as inside it.')

bug('bbox-prox-single', 'C09', [('spatial.rs', '''    let filtered_get = move |idx| {
        let grid = coords.get(idx as usize);''', '''    let filtered_get = move |idx| {
        let grid = coords.get(idx as usize);
        if range.0 == range.1 && idx == range.0 {
            return Some(grid);
        }''')],
r'''
fn main() {
    // 3/2 is between 4/1 ... on the curve but outside the box
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 0, 2, 5, 0)])], &[], 6, 0, 40.0);
    let o = MatchOpts { bbox: Some([3, 1, 4, 2]), proximity: Some([1, 1]), zoom: 6 };
    assert_eq!(query(&s, &exact(1, 1), &o, 10).len(), 0);
}
''', 'a query with both box and proximity point, and a group with a single coordinate that is in the range of the box along the curve but outside it', 'A lone coordinate in the box\'s range along the curve counts as inside the box.')

bug('heap-stop-at-worse', 'C11', [('store.rs', '''                    if worst_entry >= &queue_element {
                        continue;''', '''                    if worst_entry >= &queue_element {
                        break;''')],
r'''
fn main() {
    let scores = [5u8, 4, 1, 9];
    let d: Vec<_> = (0u32..4).map(|p| (key(p, 1), vec![ent(1., scores[p as usize], 1, 1, p + 1, 0)])).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    let ids: Vec<_> = query(&s, &range(0, 4, 1), &opts(6), 2).iter().map(|e| e.grid_entry.id).collect();
    assert_eq!(ids, vec![4, 1]);
}
''', 'more keys in a range than the bound, of which a bad one comes before a good one', 'Once the bound is reached the first key worse than all kept ends the search.')

bug('nearby-disjoint-box', 'C13', [('common.rs', '''        if let Some(old_box) = constrained.bbox {
            new_box = [''', '''        // only cut where the boxes meet, so that the result is a proper box
        let meets = |b: &[u16; 4]| {
            b[0] <= new_box[2] && b[2] >= new_box[0] && b[1] <= new_box[3] && b[3] >= new_box[1]
        };
        if let Some(old_box) = constrained.bbox.filter(meets) {
            new_box = [''')],
r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 100, 100, 5, 0)])], &[], 14, 0, 40.0);
    let o = MatchOpts { bbox: Some([500, 500, 600, 600]), proximity: Some([100, 100]), zoom: 14 }.with_nearby_only();
    assert_eq!(query(&s, &exact(1, 1), &o, 10).len(), 0);
}
''', 'a box that does not meet the surroundings of the proximity point', 'A box wholly outside the nearby area is ignored instead of leaving nothing.')

bug('shared-scratch', 'C14', [('store.rs', '''#[inline]
fn decode_value<T: AsRef<[u8]>>(value: T) -> impl Iterator<Item = GridEntry> {
    let record_ref = {
        let value_ref: &[u8] = value.as_ref();''', '''thread_local! {
    // the record being decoded, kept to spare an allocation for each of them
    static RECORD: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(1 << 20));
}

#[inline]
fn decode_value<T: AsRef<[u8]>>(value: T) -> impl Iterator<Item = GridEntry> {
    let record_ref = {
        let (start, len) = RECORD.with(|record| {
            let mut record = record.borrow_mut();
            record.clear();
            record.extend_from_slice(value.as_ref());
            (record.as_ptr(), record.len())
        });
        let value_ref: &[u8] = unsafe { std::slice::from_raw_parts(start, len) };''')],
r'''
fn main() {
    let d: Vec<_> = [(1u32, 50u16), (2, 3)].iter()
        .map(|(p, n)| (key(*p, 1), (0..*n).map(|i| ent(1., 3, i, i, i as u32 + 100 * p, 0)).collect::<Vec<_>>())).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    let mut it = s.get(&key(1, 1)).unwrap().unwrap();
    let mut got = vec![it.next().unwrap().id];
    let _other: Vec<_> = s.get(&key(2, 1)).unwrap().unwrap().collect();
    got.extend(it.map(|e| e.id));
    let want: Vec<u32> = (100..150).rev().collect();
    assert_eq!(got, want);
}
''', 'an iterator of get() that is continued after another lookup on the same thread', 'A second lookup overwrites the record that an earlier iterator still reads.')

bug('single-replace-worse', 'C15', [('coalesce.rs', '''                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                feature_count += 1;
                entry.insert(coalesce_entry);
            }
        }

        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts''', '''                if current_scoredist > already_coalesced.get().scoredist {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                feature_count += 1;
                entry.insert(coalesce_entry);
            }
        }

        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts''')],
r'''
fn main() {
    let v = vec![ent(1., 1, 1, 1, 7, 0), ent(0.8, 9, 2, 2, 7, 0), ent(1., 1, 3, 3, 8, 0)];
    let s = store("s", &[(key(1, 1), v)], &[], 6, 0, 0.0);
    let r = coalesce(vec![sub(&s, 0, 1, 1.0, vec![with_id(exact(1, 1), 0)])], &opts(6)).unwrap();
    assert_eq!(r.iter().map(|c| (c.entries[0].grid_entry.id, c.relev)).collect::<Vec<_>>(), vec![(8, 1.0), (7, 1.0)]);
}
''', 'a feature with a second entry of lower relevance and higher score', 'A feature is shown at a lower relevance because that entry scores higher.')

bug('replace-keeps-relev', 'C16', [('coalesce.rs', '''                                // Update the context-level aggregate relev
                                context_relevance -= prev_relev;
                                context_relevance += parent_entry.grid_entry.relev;
''', '''                                // Update the context-level aggregate relev
                                context_relevance = entries.iter().map(|e| e.grid_entry.relev).sum();
'''), ('coalesce.rs', '''                                entries.pop();
                                entries.push(parent_entry.clone());''', '''                                entries.push(parent_entry.clone());
                                entries.swap_remove(1);''')],
r'''
fn main() {
    // three subqueries: the replacement happens after another parent was taken
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)])], &[], 4, 0, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(0.6, 9, 2, 2, 2, 0), ent(0.8, 1, 2, 2, 3, 0)])], &[], 5, 1, 0.0);
    let b2 = store("b2", &[(key(1, 1), vec![ent(1., 1, 2, 2, 4, 0)])], &[], 5, 1, 0.0);
    let c = store("c", &[(key(1, 1), vec![ent(1., 3, 4, 4, 5, 0)])], &[], 6, 2, 0.0);
    let r = coalesce(vec![
        sub(&a, 0, 1, 0.25, vec![with_id(exact(1, 1), 0)]),
        sub(&b, 1, 2, 0.25, vec![with_id(exact(1, 1), 1)]),
        sub(&b2, 2, 2, 0.25, vec![with_id(exact(1, 1), 2)]),
        sub(&c, 3, 4, 0.25, vec![with_id(exact(1, 1), 3)]),
    ], &opts(6)).unwrap();
    for c in &r {
        let mut m = 0;
        for e in &c.entries {
            assert_eq!(m & e.mask, 0, "two entries with one mask: {:?}", c);
            m |= e.mask;
        }
        assert_eq!(m, c.mask, "{:?}", c);
    }
}
''', 'at least four subqueries, two of which share a mask at one zoom, and the second to be considered is more relevant while an entry of another zoom was taken before',
'The wrong parent entry is given up when a better one replaces it.')

bug('dedup-per-tile', 'C17', [('coalesce.rs', '''                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))''', '''                            // the tile as one number, which hashes faster
                            unique_ids.insert((
                                u32::from(grid.grid_entry.x) << 8 | u32::from(grid.grid_entry.y),
                                grid.grid_entry.id,
                            ))''')],
r'''
fn main() {
    // 1/0 + 256 * ... : tiles 1/0 and 0/256 pack to one number
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 0, 256, 7, 0), ent(1., 3, 1, 0, 7, 0)])], &[], 10, 0, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(1., 3, 0, 256, 8, 0), ent(1., 3, 1, 0, 9, 0)])], &[], 10, 1, 0.0);
    let r = stack_and_coalesce(&vec![
        sub(&a, 0, 1, 0.5, vec![with_id(exact(1, 1), 0)]),
        sub(&b, 1, 2, 0.5, vec![with_id(exact(1, 1), 1)]),
    ], &opts(10)).unwrap();
    let mut tops: Vec<_> = r.iter().filter(|c| c.entries.len() == 2).map(|c| c.entries[0].grid_entry.id).collect();
    tops.sort();
    assert_eq!(tops, vec![8, 9]);
}
''', 'one feature in two tiles whose coordinates collide when packed (y of 256 or more)', 'Of two tiles of a feature that pack to one number, only one is stacked on.')

bug('overlap-unadjusted', 'C17', [('coalesce.rs', 'adjust_bbox_zoom(*bbox, child_zoom, current_zoom)', 'adjust_bbox_zoom(*bbox, current_zoom, child_zoom)')],
r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 8, 8, 7, 0)])], &[], 4, 0, 0.0);
    drop(store("b", &[(key(1, 1), vec![ent(1., 3, 33, 33, 8, 0)])], &[], 6, 1, 0.0));
    let b = GridStore::new_with_options(path("b"), 6, 1, 0.0, vec![[32, 32, 39, 39]], 15.0).unwrap();
    let r = stack_and_coalesce(&vec![
        sub(&a, 0, 1, 0.5, vec![with_id(exact(1, 1), 0)]),
        sub(&b, 1, 2, 0.5, vec![with_id(exact(1, 1), 1)]),
    ], &opts(6)).unwrap();
    assert!(r.iter().any(|c| c.entries.len() == 2));
}
''', 'stacking on a store of a finer zoom that covers only part of the world', 'Whether a finer store can contribute is judged with its boxes scaled the wrong way.')

bug('grids-cached-before-filter', 'C17', [('coalesce.rs', '''                            let match_opts = if key_group.nearby_only {''', '''                            let match_opts = if key_group.nearby_only && is_single {''')] if False else [('coalesce.rs', '''                        let match_opts = if key_group.nearby_only {
                            step.match_opts.with_nearby_only()''', '''                        let match_opts = if key_group.nearby_only && match_opts.bbox.is_none() {
                            step.match_opts.with_nearby_only()''')],
r'''
fn main() {
    let s = store("a", &[(key(1, 1), vec![ent(1., 3, 100, 100, 7, 0), ent(1., 3, 900, 900, 8, 0)])], &[], 14, 0, 40.0);
    let mut k = with_id(exact(1, 1), 0);
    k.nearby_only = true;
    let o = MatchOpts { bbox: Some([0, 0, 1000, 1000]), proximity: Some([100, 100]), zoom: 14 };
    let r = stack_and_coalesce(&vec![sub(&s, 0, 1, 1.0, vec![k])], &o).unwrap();
    assert_eq!(r.iter().map(|c| c.entries[0].grid_entry.id).collect::<Vec<_>>(), vec![7]);
}
''', 'a nearby-only key in a query that has both a box and a proximity point', 'With a box, nearby-only keys are no longer limited to what is nearby.')

bug('neighbour-by-set', 'C18', [('stackable.rs', '''                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false''', '''                && node.bmask.contains(phrasematch.idx as usize) == false''')],
r'''
fn main() {
    let s: Vec<_> = (0..2u16).map(|i| store(&format!("s{}", i), &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, i, 0.0)).collect();
    let a = sub(&s[0], 3, 1, 0.5, vec![with_id(exact(1, 1), 0)]);
    let mut b = sub(&s[1], 4, 2, 0.5, vec![with_id(exact(1, 1), 1)]);
    b.non_overlapping_indexes.insert(3);
    let subs = vec![a, b];
    let t = stackable(&subs);
    for c in &t.root.children {
        assert_eq!(t.arena.get(*c).unwrap().children.len(), 0);
    }
}
''', 'subqueries that exclude one another in one direction only', 'Which stacks are permitted is read from the lower subquery\'s exclusions instead of the upper one\'s.')

bug('quota-by-key-order', 'C20', [('coalesce.rs', '''                            MatchPhrase::Range { start, end } => end - start > 1,
                        };''', '''                            MatchPhrase::Range { start, end } => end - start > 1,
                        } || key_group.phrase_length == 1;''')],
r'''
fn main() {
    // twelve exact one-letter subqueries on a coarse store
    let s: Vec<_> = (0..12u32).map(|i| store(&format!("s{}", i), &[(key(1, 1), vec![ent(1., 3, i as u16, 1, i + 1, 0)])], &[], 6, i as u16, 0.0)).collect();
    let subs: Vec<_> = (0..12usize).map(|i| {
        let mut k = with_id(exact(1, 1), i as u32);
        k.phrase_length = 1;
        sub(&s[i], i as u16, 1, 1.0, vec![k])
    }).collect();
    assert_eq!(stack_and_coalesce(&subs, &opts(6)).unwrap().len(), 12);
}
''', 'more than eight exact one-letter subqueries', 'Exact one-letter phrases count as ranges, and those beyond the quota are skipped.')

bug('collapse-without-mask', 'C21', [('coalesce.rs', 'group_hash = (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask);', 'group_hash =\n            (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask.count_ones());')],
r'''
fn main() {
    let s = store("a", &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    let r = collapse_phrasematches(vec![
        sub(&s, 0, 1, 0.5, vec![with_id(exact(1, 1), 0)]),
        sub(&s, 0, 2, 0.5, vec![with_id(exact(1, 1), 1)]),
    ]);
    assert_eq!(r.len(), 2);
}
''', 'subqueries of one index and weight that cover different words', 'Subqueries that cover as many, but different, words are merged.')

bug('queue-keeps-later', 'C23', [('common.rs', '''                if element > *min {
                    self.heap.replace_min(element);''', '''                if element >= *min {
                    self.heap.replace_min(element);''')],
r'''
use std::cmp::Ordering;
#[derive(Debug)]
struct E(u32, u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut q = ConstrainedPriorityQueue::new(2);
    assert!(q.push(E(1, 0)) && q.push(E(2, 0)));
    assert!(!q.push(E(1, 1)));
    assert_eq!(q.into_vec_desc().last().unwrap().1, 0);
}
''', 'an element equal to the smallest of a full queue', 'An element equal to the smallest replaces it in a full queue.')

bug('queue-grows-after-pop', 'C23', [('common.rs', '''    pub fn pop_max(&mut self) -> Option<T> {
        self.heap.pop_max()''', '''    pub fn pop_max(&mut self) -> Option<T> {
        // what is taken out makes room for one more
        self.max_size += 1;
        self.heap.pop_max()''')],
r'''
fn main() {
    let mut q = ConstrainedPriorityQueue::new(1);
    q.push(1); q.pop_max(); q.push(2); q.push(3);
    assert_eq!(q.len(), 1);
}
''', 'pushing more than fits after a pop', 'Every pop lets the queue grow beyond its bound.')

bug('point-into-box', 'C12', [('common.rs', '''            MatchOpts { zoom: target_z, proximity: adjusted_proximity, bbox: adjusted_bbox }''',
'''            // rounding must not move the point out of the box
            let adjusted_proximity = match (adjusted_proximity, adjusted_bbox) {
                (Some([x, y]), Some(b)) => Some([
                    std::cmp::max(b[0], std::cmp::min(b[2], x)),
                    std::cmp::max(b[1], std::cmp::min(b[3], y)),
                ]),
                (point, _) => point,
            };

            MatchOpts { zoom: target_z, proximity: adjusted_proximity, bbox: adjusted_bbox }''')],
r'''
fn main() {
    let o = MatchOpts { bbox: Some([10, 10, 20, 20]), proximity: Some([40, 5]), zoom: 6 };
    assert_eq!(o.adjust_to_zoom(5).proximity, Some([20, 2]));
}
''', 'a proximity point outside the box of the query', 'A proximity point outside the box is moved to its edge when the zoom changes.')

bug('first-feature-any-subquery', 'C16', [('coalesce.rs', 'let inserted = sets.insert(context.entries[0].tmp_id.into());', 'let inserted = sets.insert(context.entries[0].grid_entry.id.into());')],
r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(1., 2, 9, 9, 7, 0)])], &[], 6, 1, 0.0);
    let r = coalesce(vec![
        sub(&a, 0, 1, 0.5, vec![with_id(exact(1, 1), 0)]),
        sub(&b, 1, 2, 0.5, vec![with_id(exact(1, 1), 1)]),
    ], &opts(6)).unwrap();
    assert_eq!(r.len(), 2);
}
''', 'features with the same id in two of the subqueries', 'A feature is dropped as a repetition if another subquery has one of the same id.')

bug('tree-mask-of-parent', 'C18', [('stackable.rs', 'let target_mask = &phrasematch.mask | node.mask;', 'let target_mask = phrasematch.mask | current_phrasematch.map_or(0, |p| p.mask);')],
r'''
fn main() {
    let masks = [1u32, 2, 4, 1];
    let s: Vec<_> = (0..4u16).map(|i| store(&format!("s{}", i), &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, i, 0.0)).collect();
    let subs: Vec<_> = (0..4usize).map(|i| sub(&s[i], i as u16, masks[i], 0.25, vec![with_id(exact(1, 1), i as u32)])).collect();
    let t = stackable(&subs);
    // at most three fit on top of one another
    assert!((t.root.max_relev - 0.75).abs() < 1e-9, "{}", t.root.max_relev);
}
''', 'four subqueries of increasing type of which the first and last share a mask', 'A stack of four may cover the same word twice, as only the last two are looked at.')

bug('max-after-next-only', 'C19', [('stackable.rs', 'sum_so_far = sum_so_far + *bin.max_relev;', 'sum_so_far = f64::max(sum_so_far, *bin.max_relev);')],
r'''
fn main() {
    let s: Vec<_> = (0..5u16).map(|i| store(&format!("s{}", i), &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, i, 0.0)).collect();
    let mut subs = Vec::new();
    let heavy = 32;
    // 50 * 50 pairs worth 0.8 fill the tree
    for n in 0..50u16 {
        subs.push(sub(&s[0], n, 1 | 2 | 4, 0.4, vec![with_id(exact(1, 1), n as u32)]));
        subs.push(sub(&s[1], 50 + n, 8 | 32, 0.4, vec![with_id(exact(1, 1), 50 + n as u32)]));
    }
    // four light ones that only fit on top of one another
    for i in 0..4usize {
        let t = if i == 0 { 0 } else { i + 1 };
        subs.push(sub(&s[t], 110 + i as u16, (1 << i) | if i == 0 { heavy } else { 0 }, 0.3, vec![with_id(exact(1, 1), 200 + i as u32)]));
    }
    let t = stackable(&subs);
    assert!((t.root.max_relev - 1.2).abs() < 1e-9, "the best is said to be {}", t.root.max_relev);
}
''', 'more than 2000 stacks, with the best one four deep and starting with a light subquery', 'What may still come on top is underestimated, so that deep stacks are given up once the tree is full.')

bug('stop-by-own-weight', 'C20', [('coalesce.rs', '''                    if step.node.max_relev
                        <= contexts''', '''                    if step.possible_relev
                        <= contexts''')],
r'''
fn main() {
    // 25 subqueries with 45 features each that come to 0.48, and a pair worth 0.505
    let big: Vec<_> = (0..25u32).map(|i| store(&format!("s{}", i), &[(key(1, 1), (0..45u32).map(|j| ent(0.8, 3, (j % 30) as u16, (j / 30) as u16, j + 100 * i, 0)).collect())], &[], 6, 10 + i as u16, 0.0)).collect();
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 50, 50, 1, 0)])], &[], 6, 0, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(1., 3, 50, 50, 2, 0)])], &[], 6, 1, 0.0);
    let mut subs: Vec<_> = (0..25usize).map(|i| sub(&big[i], 10 + i as u16, 3, 0.6, vec![with_id(exact(1, 1), i as u32)])).collect();
    subs.push(sub(&a, 0, 2, 0.26, vec![with_id(exact(1, 1), 100)]));
    subs.push(sub(&b, 1, 1, 0.245, vec![with_id(exact(1, 1), 101)]));
    let r = stack_and_coalesce(&subs, &opts(6)).unwrap();
    assert!(r.iter().any(|c| c.entries.len() == 2), "the pair, worth 0.505, is missing");
}
''', '800 contexts already, and a stack that beats the worst of them only with what is on top of its first part', 'Once 800 contexts are there, stacks are given up by what they are worth so far rather than in the end.')

bug('completion-order', 'C22', [('coalesce.rs', '''        let chunk_results: Vec<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'_, T>>), Error>> =
            step_chunk
                .into_par_iter()''', '''        let chunk_results: Vec<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'_, T>>), Error>> =
            step_chunk
                .into_iter()
                .par_bridge()''')],
r'''
fn main() {
    // two pairs that tie in everything the order looks at
    let mk = |n: &str, t: u16| store(n, &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)]), (key(2, 1), vec![ent(1., 3, 1, 1, 7, 1)])], &[], 6, t, 0.0);
    let (a, b) = (mk("a", 0), mk("b", 1));
    let subs = vec![
        sub(&a, 0, 1, 0.5, vec![with_id(exact(1, 1), 0)]),
        sub(&a, 0, 2, 0.5, vec![with_id(exact(2, 1), 1)]),
        sub(&b, 1, 4, 0.5, vec![with_id(exact(1, 1), 2)]),
    ];
    let mut seen = std::collections::BTreeSet::new();
    vsched::explore(2, 5000, || format!("{:?}", stack_and_coalesce(&subs, &opts(6)).unwrap()), |e| {
        seen.insert(e.result.clone());
        true
    });
    assert_eq!(seen.len(), 1, "{} different results", seen.len());
}
''', 'stacks that tie in everything the order looks at, and tasks that finish out of order', 'The results of parallel steps are taken in the order in which they happen to finish.')

bug('groups-bounded', 'C24', [('common.rs', '''                        if *o != k {''', '''                        // hand groups on before they use too much memory
                        if *o != k || running_group.len() >= 4096 {''')],
r'''
fn main() {
    let groups: Vec<_> = somewhat_eager_groupby((0..10_000u32).map(|x| x / 5000), |x| *x).map(|(k, v)| (k, v.len())).collect();
    assert_eq!(groups, vec![(0, 5000), (1, 5000)]);
}
''', 'a run of more than 4096 equal keys', 'Long runs are split into several groups, so that a bin is written more than once and keeps its last part only.')
