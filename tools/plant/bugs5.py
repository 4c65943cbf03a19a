BUGS = []
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('dedup-when-spilled', 'C01', [('builder.rs', '''            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));
            ids.dedup();
''', '''            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));
            if ids.len() < 256 {
                ids.dedup();
            }
''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), (0..300).map(|i| ent(1., 3, 1, 1, i % 290, 0)).collect())], &[], 6, 0, 0.0);
    assert_eq!(get(&s, &key(1, 1)).unwrap().len(), 290);
}
''', '256 entries or more on one tile, one of them put in twice', 'Entries that were put in twice come twice where a tile has many.')

bug('renumber-shortcut', 'C02', [('builder.rs', '''        let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
        std::mem::swap(&mut old_data, &mut self.data);
''', '''        // nothing moves if the keys are where they should be
        if new_keys.iter().next() == self.data.keys().next()
            && new_keys.iter().next_back() == self.data.keys().next_back()
            && new_keys.len() > 4
        {
            return Ok(());
        }

        let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
        std::mem::swap(&mut old_data, &mut self.data);
''')], r'''
fn main() {
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    for p in 0..6 {
        b.insert(&key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)]).unwrap();
    }
    b.renumber(&[0, 2, 1, 3, 4, 5]).unwrap();
    b.finish().unwrap();
    let s = open("s", 6, 0, 0.0);
    assert_eq!(get(&s, &key(1, 1)).unwrap()[0].id, 3);
}
''', 'five keys or more, and a table that keeps the first and the last phrase but swaps phrases between them', 'A renumber that moves only phrases in the middle does nothing.')

bug('keys-read-in-blocks', 'C03', [('store.rs', '''        let db_iter = self.db.iterator(IteratorMode::Start);
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {
            let phrase_id''', '''        // read ahead a block at a time
        const BLOCK: usize = 64;
        let mut from: Option<Vec<u8>> = Some(Vec::new());
        let db_iter = std::iter::from_fn(move || {
            let start = from.take()?;
            let mut block: Vec<_> = self
                .db
                .iterator(IteratorMode::From(&start, Direction::Forward))
                .take(BLOCK + 1)
                .collect();
            if block.len() > BLOCK {
                from = block.pop().map(|(key, _)| {
                    let mut next = key[..5].to_vec();
                    next.push(key.get(5).cloned().unwrap_or(0));
                    next
                });
            }
            Some(block)
        })
        .flatten();
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {
            let phrase_id''')], r'''
fn main() {
    // a block ends right before a key for all languages, or one with a longer language set
    let mut d: Vec<_> = (0u32..64).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)])).collect();
    d.push((key(64, u128::max_value()), vec![ent(1., 3, 1, 1, 1, 0)]));
    d.push((key(65, 1), vec![ent(1., 3, 1, 1, 1, 0)]));
    let s = store("s", &d, &[], 6, 0, 0.0);
    assert_eq!(s.keys().map(|k| k.unwrap()).collect::<Vec<_>>(), d.iter().map(|(k, _)| k.clone()).collect::<Vec<_>>());
    for n in 0..70u32 {
        let mut d: Vec<_> = (0..n).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)])).collect();
        d.push((key(n, 0x0102), vec![ent(1., 3, 1, 1, 1, 0)]));
        d.push((key(n, u128::max_value()), vec![ent(1., 3, 1, 1, 1, 0)]));
        let s = store(&format!("t{}", n), &d, &[], 6, 0, 0.0);
        assert_eq!(s.keys().count(), d.len());
    }
}
''', 'a store of more than 64 keys whose 65th is the one for all languages', 'Where a block of keys ends at a key for all languages, that key is left out.')

bug('batched-boundaries', 'C06', [('builder.rs', '''use rocksdb::{Options, DB};''', '''use rocksdb::{Options, WriteBatch, DB};'''),
('builder.rs', '''        for (group_id, group_value) in grouped {
            let mut lang_set_map''', '''        // the boundaries go with the first batch, so that they are there with the last
        let mut batch = WriteBatch::default();
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries.iter() {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        batch.put("~BOUNDS", &encoded_boundaries)?;

        for (group_id, group_value) in grouped {
            let mut lang_set_map'''),
('builder.rs', '''                db.put(&db_key, &db_data)?;
            }''', '''                batch.put(&db_key, &db_data)?;
                if batch.len() >= 32 {
                    db.write(std::mem::replace(&mut batch, WriteBatch::default()))?;
                }
            }'''),
('builder.rs', '''                    db.put(&db_key, &grouped_db_data)?;''', '''                    batch.put(&db_key, &grouped_db_data)?;'''),
('builder.rs', '''        // bake the prefix boundaries
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;
''', '''        db.write(batch)?;
''')], r'''
fn main() {
    use rocksdb::sim;
    let d: Vec<_> = (0u32..40).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)])).collect();
    drop(store("s", &d, &[0, 36, 40], 6, 0, 0.0));
    let log = sim::log(&path("s"));
    for n in 0..=log.len() {
        let left = sim::after_crash(&Default::default(), &log, n);
        let name = format!("c{}", n);
        sim::create(&path(&name), left);
        let s = open(&name, 6, 0, 0.0);
        let shown = s.keys().filter(|k| k.as_ref().unwrap().phrase_id < 36).count();
        assert_eq!(query(&s, &range(0, 36, 1), &opts(6), 100).len(), shown, "after {} of {} writes", n, log.len());
    }
}
''', 'a crash between two batches, so a store of more than 32 keys', 'The boundaries are there before the bins, so range queries find nothing.')

bug('batch-error-dropped', 'C07', [('builder.rs', '''use rocksdb::{Options, DB};''', '''use rocksdb::{Options, WriteBatch, DB};'''),
('builder.rs', '''        for (group_id, group_value) in grouped {
            let mut lang_set_map''', '''        let mut batch = WriteBatch::default();
        let mut outcome = Ok(());
        for (group_id, group_value) in grouped {
            let mut lang_set_map'''),
('builder.rs', '''                db.put(&db_key, &db_data)?;
            }''', '''                batch.put(&db_key, &db_data)?;
                if batch.len() >= 24 {
                    outcome = db.write(std::mem::replace(&mut batch, WriteBatch::default()));
                }
            }'''),
('builder.rs', '''        // bake the prefix boundaries
''', '''        if batch.len() > 0 {
            outcome = db.write(batch);
        }
        outcome?;

        // bake the prefix boundaries
''')], r'''
fn main() {
    use rocksdb::sim;
    for fail in 0..10 {
        let mut b = GridStoreBuilder::new(path("s")).unwrap();
        for p in 0..60u32 {
            b.insert(&key(p, 1), vec![ent(1., 3, 1, 1, p + 1, 0)]).unwrap();
        }
        sim::arm(Some(fail));
        let r = b.finish();
        let (_, failed) = sim::disarm();
        if failed {
            assert!(r.is_err(), "operation {} failed and finish() did not say so", fail);
        }
        sim::remove(&path("s"));
    }
}
''', 'a failure of a batch that is not the last, so a store of more than 24 keys', 'Only the outcome of the last batch is reported.')

bug('all-languages-query', 'C08', [('common.rs', '''        if key_lang_partial.len() == 0 {
            // 0-length language array is the shorthand for "matches everything"
            return Ok(true);
        }
''', '''        if key_lang_partial.len() == 0 || self.lang_set == std::u128::MAX {
            // 0-length language array is the shorthand for "matches everything"
            return Ok(true);
        }
''')], r'''
fn main() {
    let s = store("s", &[(key(1, 0), vec![ent(1., 3, 1, 1, 1, 0)])], &[], 6, 0, 0.0);
    let m = query(&s, &exact(1, u128::max_value()), &opts(6), 10);
    assert!(!m[0].matches_language);
}
''', 'a query for all languages and a key with no language', 'A key without any language counts as matching a query for all languages.')

bug('search-few-steps', 'C09', [('spatial.rs', '''    while size > 1 {
        let half = size / 2;''', '''    // six steps take us to within a few hundred thousand
    for _ in 0..6 {
        if size <= 1 {
            break;
        }
        let half = size / 2;''')], r'''
fn main() {
    let e: Vec<_> = (0..400u32).map(|i| ent(1., 3, (i % 20) as u16, (i / 20) as u16, 1, 0)).collect();
    let s = store("s", &[(key(1, 1), e.clone())], &[], 6, 0, 0.0);
    for x in 0..20u16 {
        for y in 0..20u16 {
            let o = MatchOpts { bbox: Some([x, y, x + 1, y]), ..opts(6) };
            let want = e.iter().filter(|e| (e.x == x || e.x == x + 1) && e.y == y).count();
            assert_eq!(query(&s, &exact(1, 1), &o, 1000).len(), want, "{} {}", x, y);
        }
    }
}
''', 'more than 256 tiles under one relevance and score', 'The search for the box in a long list of tiles ends too early.')

bug('heap-capacity', 'C11', [('store.rs', '''                if pri_queue.len() >= max_values {''', '''                if pri_queue.len() >= max_values.min(1024) {''')], r'''
fn main() {
    let d: Vec<_> = (0u32..1100).map(|p| (key(p, 1), vec![ent(1., (p % 16) as u8, p as u16, 1, p + 1, 0)])).collect();
    let s = store("s", &d, &[], 11, 0, 0.0);
    assert_eq!(query(&s, &range(0, 1100, 1), &opts(11), 2000).len(), 1100);
}
''', 'a range over more than 1024 keys', 'A range over many keys loses the worst of them, whatever the bound.')

bug('same-coordinates-xor', 'C17', [('coalesce.rs', '''                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))''', '''                            // one number for place and feature
                            let place = u32::from(grid.grid_entry.x) << 12
                                | u32::from(grid.grid_entry.y);
                            unique_ids.insert((u64::from(place) << 32) | u64::from(grid.grid_entry.id))''')], r'''
fn main() {
    // at zoom 13 and above y takes more than 12 bits
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 0, 0, 1, 0)])], &[], 0, 1, 0.0);
    let b = store("b", &[(key(2, 1), vec![ent(1., 3, 1, 4100, 2, 0), ent(1., 3, 0, 4100, 2, 0)])], &[], 13, 2, 0.0);
    let r = stack_and_coalesce(&vec![sub(&a, 1, 1, 0.5, vec![with_id(exact(1, 1), 1)]), sub(&b, 2, 2, 0.5, vec![with_id(exact(2, 1), 2)])], &opts(13)).unwrap();
    assert_eq!(r.iter().filter(|c| c.entries.len() == 2).count(), 2);
}
''', 'two places of one feature at zoom 13 or above, a column apart and 4096 rows', 'Two places of a feature are taken for one.')

bug('zoom-16-apart', 'C17', [('coalesce.rs', '''                    let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);''', '''                    let levels = subquery.store.borrow().zoom - step.prev_zoom;
                    let scale_factor: u32 = std::cmp::max(1u16.wrapping_shl(u32::from(levels)), 1).into();''')], r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 0, 0, 1, 0)])], &[], 0, 1, 0.0);
    let b = store("b", &[(key(2, 1), vec![ent(1., 3, 65000, 4100, 2, 0)])], &[], 16, 2, 0.0);
    let r = stack_and_coalesce(&vec![sub(&a, 1, 1, 0.5, vec![with_id(exact(1, 1), 1)]), sub(&b, 2, 2, 0.5, vec![with_id(exact(2, 1), 2)])], &opts(16)).unwrap();
    assert_eq!(r.iter().filter(|c| c.entries.len() == 2).count(), 1);
}
''', 'a stack of stores at zooms 0 and 16', 'Stores 16 levels apart never stack.')

bug('weights-as-single', 'C21', [('coalesce.rs', '''        group_hash = (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask);''', '''        group_hash = (OrderedFloat(phrasematch.weight as f32), phrasematch.idx, phrasematch.mask);''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)])], &[], 6, 0, 0.0);
    let c = collapse_phrasematches(vec![sub(&s, 1, 1, 0.3, vec![with_id(exact(1, 1), 1)]), sub(&s, 1, 1, 0.1 + 0.2, vec![with_id(exact(1, 1), 2)])]);
    assert_eq!(c.len(), 2);
}
''', 'two subqueries whose weights differ by less than a single-precision number shows', 'Subqueries with nearly the same weight are merged.')

bug('root-index-wraps', 'C18', [('stackable.rs', '''                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false''', '''                && phrasematch.non_overlapping_indexes.contains((node.idx & 127) as usize) == false''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)])], &[], 6, 0, 0.0);
    let mut a = sub(&s, 2, 1, 0.5, vec![with_id(exact(1, 1), 1)]);
    a.non_overlapping_indexes.insert(1);
    let v = vec![a];
    let t = stackable(&v);
    assert_eq!(t.root.children.len(), 1);
}
''', 'a subquery that excludes index 1 and starts a stack', 'A subquery that excludes index 1 cannot start a stack.')

bug('queue-never-empty', 'C23', [('common.rs', '''        if self.heap.len() >= self.max_size {
            if let Some(min)''', '''        if !self.heap.is_empty() && self.heap.len() >= self.max_size {
            if let Some(min)''')], r'''
fn main() {
    let mut q: ConstrainedPriorityQueue<u32> = ConstrainedPriorityQueue::new(0);
    assert!(!q.push(1));
    assert_eq!(q.len(), 0);
}
''', 'a queue of size 0', 'A queue of size 0 keeps an element.')

bug('best-of-each-relevance', 'C15', [('coalesce.rs', '''                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                feature_count += 1;
                entry.insert(coalesce_entry);
            }
        }

        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts: Vec<CoalesceContext> = coalesced
''', '''                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev as f32 >= already_coalesced.get().grid_entry.relev as f32 - 0.05
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                feature_count += 1;
                entry.insert(coalesce_entry);
            }
        }

        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts: Vec<CoalesceContext> = coalesced
''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 1, 1, 1, 7, 0)]), (key(1, 2), vec![ent(1., 9, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    let r = coalesce(vec![sub(&s, 1, 1, 1., vec![with_id(exact(1, 1), 1)])], &opts(6)).unwrap();
    assert_eq!(r.len(), 1);
    assert_eq!(r[0].relev, 1.);
}
''', 'a feature with a better score under another language', 'A better score makes up for the penalty for another language.')

