BUGS = []
N = 'native/src/gridstore.rs'
F = 'native/src/fuzzy_phrase.rs'
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('renumber-identity', 'C02', [('builder.rs', '''        // check all keys before moving any data, so that a failure leaves the data as it was
''', '''        if tmp_phrase_ids_to_ids.iter().enumerate().all(|(tmp_id, id)| tmp_id as u32 == *id) {
            // the ids are final already
            return Ok(());
        }

        // check all keys before moving any data, so that a failure leaves the data as it was
''')], r'''
fn main() {
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    b.insert(&key(5, 1), vec![ent(1., 3, 1, 1, 1, 0)]).unwrap();
    assert!(b.renumber(&[0, 1, 2]).is_err());
}
''', 'a table that maps ids to themselves but is too short for a stored key', 'A renumber with an incomplete table reports success.')

bug('bins-split-by-languages', 'C05', [('builder.rs', '''                let mut grouped_entry =
                    lang_set_map.entry(grid_key.lang_set).or_insert_with(|| BuilderEntry::new());
''', '''                // past a point telling the languages of a bin apart costs more than it saves
                let bin_lang_set = if lang_set_map.len() < 64
                    || lang_set_map.contains_key(&grid_key.lang_set)
                {
                    grid_key.lang_set
                } else {
                    std::u128::MAX
                };
                let mut grouped_entry =
                    lang_set_map.entry(bin_lang_set).or_insert_with(|| BuilderEntry::new());
''')], r'''
fn main() {
    let d: Vec<_> = (0..70).map(|i| (key(i, 1 << i), vec![ent(1., 3, 1, 1, i + 1, 0)])).collect();
    let s = store("s", &d, &[0, 100], 6, 0, 0.0);
    let n = query(&s, &range(0, 100, 1), &opts(6), 1000).iter().filter(|m| m.matches_language).count();
    assert_eq!(n, 1);
}
''', 'a bin with more than 64 different language sets', 'In a bin of many languages the last ones count as matching every language.')

bug('boundaries-first-1024', 'C05', [('store.rs', '''                    .chunks(4)
                    .filter_map(''', '''                    .chunks(4)
                    .take(1024)
                    .filter_map(''')], r'''
fn main() {
    let d = [(key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)])];
    let bins: Vec<u32> = (0..1500).collect();
    let s = store("s", &d, &bins, 6, 0, 0.0);
    assert_eq!(s.bin_boundaries.len(), 1500);
}
''', 'more than 1024 bin boundaries', 'The store forgets the boundaries beyond the first 1024.')

bug('range-to-the-end', 'C08', [('common.rs', '''            MatchPhrase::Range { start, end } => start <= key_phrase && key_phrase < end,
        })''', '''            // there is no end past the last id, so there the end itself belongs to the range
            MatchPhrase::Range { start, end } => {
                start <= key_phrase && (key_phrase < end || end == std::u32::MAX)
            }
        })''')], r'''
fn main() {
    let s = store("s", &[(key(u32::MAX, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    assert_eq!(query(&s, &range(5, u32::MAX, 1), &opts(6), 10).len(), 0);
}
''', 'a range that ends at the highest id, and a phrase with that id', 'The end of such a range is included.')

bug('queue-at-most-4096', 'C11', [('store.rs', '''        let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
''', '''        // no caller looks at more than a few keys' worth of matches
        let max_values = max_values.min(4096);
        let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
''')], r'''
fn main() {
    let d: Vec<_> = (0..5000).map(|i| (key(i, 1), vec![ent(1., 3, 1, 1, i + 1, 0)])).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    assert_eq!(query(&s, &range(0, 5000, 1), &opts(6), 5000).len(), 5000);
}
''', 'more than 4096 keys in a range', 'Keys beyond the best 4096 are dropped although the bound asks for more.')

bug('radius-remembered', 'C10', [('store.rs', '''                                distance <= spatial::proximity_radius(*zoom, coalesce_radius),
''', '''                                distance <= scaled_radius(*zoom, coalesce_radius),
'''), ('store.rs', '''struct QueueElement<T: Iterator<Item = MatchEntry>> {
''', '''/// The radius in tiles, which does not change while the zoom does not
fn scaled_radius(zoom: u16, radius: f64) -> f64 {
    thread_local! {
        static LAST: std::cell::Cell<Option<(u16, f64)>> = std::cell::Cell::new(None);
    }
    LAST.with(|last| match last.get() {
        Some((last_zoom, scaled)) if last_zoom == zoom => scaled,
        _ => {
            let scaled = spatial::proximity_radius(zoom, radius);
            last.set(Some((zoom, scaled)));
            scaled
        }
    })
}

struct QueueElement<T: Iterator<Item = MatchEntry>> {
''')], r'''
fn main() {
    let d = [(key(1, 1), vec![ent(1., 3, 50, 50, 7, 0)])];
    let a = store("a", &d, &[], 14, 0, 40.0);
    let b = store("b", &d, &[], 14, 0, 400.0);
    let o = MatchOpts { proximity: Some([0, 0]), ..opts(14) };
    assert_eq!(query(&a, &exact(1, 2), &o, 10)[0].grid_entry.relev, 0.96);
    assert_eq!(query(&b, &exact(1, 2), &o, 10)[0].grid_entry.relev, 1.0);
}
''', 'queries on two stores of one zoom but different radii, one after the other', 'What is near in the second store is decided by the radius of the first.')

bug('place-without-zoom', 'C16', [('coalesce.rs', '''            let zxy = (subquery.store.borrow().zoom, grid.grid_entry.x, grid.grid_entry.y);
''', '''            // the masks tell the subqueries apart
            let zxy = (0, grid.grid_entry.x, grid.grid_entry.y);
'''), ('coalesce.rs', '''                let other_zxy = (
                    *other_zoom,
                    (u32::from(''', '''                let other_zxy = (
                    0,
                    (u32::from(''')], r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 3, 3, 1, 0)])], &[], 4, 0, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(1., 3, 9, 9, 2, 0)])], &[], 5, 1, 0.0);
    // its parent at zoom 5 is 3/3, which only the store at zoom 4 has
    let c = store("c", &[(key(1, 1), vec![ent(1., 3, 6, 6, 3, 0)])], &[], 6, 2, 0.0);
    let k = || vec![with_id(exact(1, 1), 1)];
    let q = vec![sub(&a, 0, 1, 0.3, k()), sub(&b, 1, 2, 0.3, k()), sub(&c, 2, 4, 0.3, k())];
    assert!(coalesce(q, &opts(6)).unwrap().iter().all(|c| c.entries.len() == 1));
}
''', 'three subqueries at three zooms with tiles of equal coordinates', 'Matches are stacked on tiles of another zoom that have the coordinates of their parent.')

bug('js-bin-size-16-bit', 'C27', [(F, '''            let max_bin_size: usize = cx.argument::<JsNumber>(0)?.value() as usize;
''', '''            let max_bin_size: usize = cx.argument::<JsNumber>(0)?.value() as u32 as u16 as usize;
''')], r'''
fn main() {
    begin();
    let b = js::construct("FuzzyPhraseSetBuilder", &[path("f")]).unwrap();
    let words: Vec<String> = (0..30).map(|i| format!("w{:05}", i)).collect();
    for w in &words { m(b, "insert", &[js::array(&[js::string(w)])]); }
    m(b, "finish", &[]);
    let f = js::construct("FuzzyPhraseSet", &[path("f")]).unwrap();
    let ask = |n: f64| js::look(m(f, "getPrefixBins", &[num(n)]));
    assert_eq!(ask(65537.), ask(65535.));
}
''', 'a bin size of 65536 or more', 'The bin size is cut to 16 bits.', js=True)

bug('js-coords-whole-batches', 'C25', [(N, '''                        Ok(builder.compact_append(&key, relev, score, id, source_phrase_hash, &coords))
''', '''                        if coords.len() <= 256 {
                            builder.compact_append(&key, relev, score, id, source_phrase_hash, &coords);
                        } else {
                            // long lists in batches
                            for batch in coords.chunks_exact(256) {
                                builder.compact_append(&key, relev, score, id, source_phrase_hash, batch);
                            }
                        }
                        Ok(())
''')], r'''
fn main() {
    begin();
    let b = builder("a");
    let c: Vec<Js> = (0..300).map(|i| nums(&[(i % 60) as f64, (i / 60) as f64])).collect();
    m(b, "compactAppend", &[key(1, &[0.]), num(1.), num(1), num(7), num(1), js::array(&c)]);
    m(b, "finish", &[]);
    assert_eq!(ids(open("a", None), key(1, &[0.])).unwrap().len(), 300);
}
''', 'compactAppend with more than 256 coordinates', 'What is left after the last full batch is lost.', js=True)

bug('coords-sorted-signed', 'C01', [('builder.rs', '''        inner_items.sort_by(|(coord_a, _), (coord_b, _)| coord_b.cmp(&coord_a));
''', '''        inner_items.sort_by_key(|(coord, _)| -(*coord as i32 as i64));
''')], r'''
fn main() {
    let v = vec![ent(1., 3, 1, 40000, 1, 0), ent(1., 3, 1, 1, 2, 0)];
    let s = store("s", &[(key(1, 1), v)], &[], 16, 0, 0.0);
    let got: Vec<_> = get(&s, &key(1, 1)).unwrap().iter().map(|e| e.y).collect();
    assert_eq!(got, vec![40000, 1]);
}
''', 'tiles on both sides of row 32768', 'Tiles of the lower half of the world at zoom 16 come last.')

bug('iter-up-to-65536', 'C03', [('store.rs', '''            let entries: Vec<_> = decode_value(value).collect();
''', '''            // a bound for damaged records
            let entries: Vec<_> = decode_value(value).take(65_536).collect();
''')], r'''
fn main() {
    let v: Vec<_> = (0..70000u32).map(|i| ent(1., 3, (i % 300) as u16, (i / 300) as u16, i + 1, 0)).collect();
    let s = store("s", &[(key(1, 1), v)], &[], 16, 0, 0.0);
    assert_eq!(s.iter().next().unwrap().unwrap().1.len(), 70000);
}
''', 'a key with more than 65536 entries', 'iter() cuts long lists of entries.')

bug('nearby-at-most-64', 'C13', [('common.rs', '''        let padding = (NEARBY_RADIUS / miles_per_tile).ceil() as u16;
''', '''        let padding = (NEARBY_RADIUS / miles_per_tile).ceil().min(64.0) as u16;
''')], r'''
fn main() {
    let o = MatchOpts { proximity: Some([1000, 1000]), ..opts(16) };
    assert_eq!(o.with_nearby_only().bbox, Some([934, 934, 1066, 1066]));
}
''', 'zoom 16', 'At zoom 16 the nearby box is two tiles too small on each side.')

bug('nearby-at-the-edge', 'C13', [('common.rs', '''            prox[0].saturating_add(padding), // ditto, at the other end of the range
            prox[1].saturating_add(padding), // ditto
''', '''            prox[0].checked_add(padding).unwrap_or(prox[0]), // ditto, at the other end of the range
            prox[1].checked_add(padding).unwrap_or(prox[1]), // ditto
''')], r'''
fn main() {
    let o = MatchOpts { proximity: Some([65500, 1000]), ..opts(16) };
    assert_eq!(o.with_nearby_only().bbox, Some([65434, 934, 65535, 1066]));
}
''', 'a point in the last columns or rows at zoom 16', 'East of the point nothing is nearby.')

bug('collapse-keys-by-id', 'C21', [('coalesce.rs', '''                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
''', '''                let match_keys = &mut grouped_phrasematch.get_mut().match_keys;
                for key in phrasematch.match_keys {
                    // keys asked for more than once need to be there only once
                    if !match_keys.iter().any(|seen| {
                        seen.id == key.id && seen.key.match_phrase == key.key.match_phrase
                    }) {
                        match_keys.push(key);
                    }
                }
''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    let got = collapse_phrasematches(vec![
        sub(&s, 0, 1, 0.5, vec![with_id(exact(1, 1), 3)]),
        sub(&s, 0, 1, 0.5, vec![with_id(exact(1, 2), 3)]),
    ]);
    assert_eq!(got[0].match_keys.len(), 2);
}
''', 'two keys of equal id and phrase that differ in their languages', 'One of the keys is lost.')

bug('collapse-run-wise', 'C21', [('coalesce.rs', '''        group_hash = (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask);
''', '''        // stores of one index come in one piece
        group_hash = (
            OrderedFloat(phrasematch.weight),
            phrasematch.idx & 127,
            phrasematch.mask,
        );
''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    let got = collapse_phrasematches(vec![
        sub(&s, 2, 1, 0.5, vec![with_id(exact(1, 1), 3)]),
        sub(&s, 130, 1, 0.5, vec![with_id(exact(1, 1), 4)]),
    ]);
    assert_eq!(got.len(), 2);
}
''', 'two indexes 128 apart', 'Subqueries of different indexes are merged.')

bug('one-letter-quota-shared', 'C22', [('coalesce.rs', '''pub const COALESCE_CHUNK_SIZE: usize = 8;
''', '''static ONE_LETTER_RANGES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub const COALESCE_CHUNK_SIZE: usize = 8;
'''), ('coalesce.rs', '''    let mut one_letter_range_count: usize = 0;
''', '''    ONE_LETTER_RANGES.store(0, std::sync::atomic::Ordering::SeqCst);
'''), ('coalesce.rs', '''                                    if one_letter_range_count < ONE_LETTER_RANGE_QUOTA {
                                        one_letter_range_count += 1;
                                    } else {
                                        continue;
                                    }
''', '''                                    if ONE_LETTER_RANGES
                                        .fetch_add(1, std::sync::atomic::Ordering::SeqCst)
                                        >= ONE_LETTER_RANGE_QUOTA
                                    {
                                        continue;
                                    }
''')], r'''
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let d: Vec<_> = (0..20).map(|i| (key(i, 1), vec![ent(1., 3, 1, 1, i + 1, 0)])).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    let letter = |id| MatchKeyWithId { key: range(0, 20, 1), id, nearby_only: false, phrase_length: 1 };
    let five: Vec<_> = (0..5).map(|i| sub(&s, i, 1 << i, 0.1, vec![letter(i as u32)])).collect();
    let ask = || format!("{:?}", stack_and_coalesce(&five, &opts(6)).unwrap());
    let right = ask();
    let stop = AtomicBool::new(false);
    let wrong = std::thread::scope(|t| {
        let h: Vec<_> = (0..6).map(|_| t.spawn(|| {
            let mut wrong = 0;
            for _ in 0..4000 {
                if stop.load(Ordering::SeqCst) { break; }
                if ask() != right { wrong += 1; stop.store(true, Ordering::SeqCst); }
            }
            wrong
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).sum::<u32>()
    });
    assert_eq!(wrong, 0);
}
''', 'two queries with several one-letter ranges each, at the same time', 'Queries use up the limit of one another.')

bug('queue-capacity', 'C23', [('common.rs', '''        ConstrainedPriorityQueue { max_size, heap: MinMaxHeap::new() }
''', '''        ConstrainedPriorityQueue { max_size, heap: MinMaxHeap::with_capacity(max_size) }
''')], r'''
fn main() {
    let mut q = ConstrainedPriorityQueue::new(usize::max_value());
    assert!(q.push(1u64));
}
''', 'a queue without a bound in practice', 'A queue of the largest size panics.')

bug('rec-size-of-ends', 'C04', [('gridstore_format.rs', '''        let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);
''', '''        // offsets only grow along the list
        let rec_size: usize = match s.len() {
            0 => 255,
            n if n < 1024 => s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255),
            n => s[0].get_min_size().max(s[n - 1].get_min_size()),
        };
''')], r'''
fn main() {
    // 2000 tiles; the first and last share one id list, the others have their own
    let v: Vec<_> = (0..2000u32).map(|i| ent(1., 3, (i % 64) as u16, (i / 64) as u16, if i == 0 || i == 63 + 31 * 64 - 1 { 1 } else { i + 1 }, 0)).collect();
    let mut v = v;
    let hi = (0..2000usize).max_by_key(|i| { let e = &v[*i]; let mut z = 0u64; for b in 0..16 { z |= ((e.x as u64 >> b) & 1) << (2 * b) | ((e.y as u64 >> b) & 1) << (2 * b + 1); } z }).unwrap();
    let lo = 0usize;
    v[hi].id = 1; v[lo].id = 1;
    let s = store("s", &[(key(1, 1), v.clone())], &[], 6, 0, 0.0);
    let mut got: Vec<_> = get(&s, &key(1, 1)).unwrap().iter().map(|e| (e.x, e.y, e.id)).collect();
    let mut want: Vec<_> = v.iter().map(|e| (e.x, e.y, e.id)).collect();
    got.sort(); want.sort();
    assert_eq!(got, want);
}
''', 'more than 1024 tiles in a group of which the first and the last have the same ids', 'Offsets of the tiles in between are cut off.')

bug('single-bound-is-results', 'C15', [('coalesce.rs', '''fn coalesce_single<T: Borrow<GridStore> + Clone>(
    subquery: &PhrasematchSubquery<T>,
    match_opts: &MatchOpts,
) -> Result<Vec<CoalesceContext>, Error> {
    let bigger_max = 2 * MAX_CONTEXTS;
''', '''fn coalesce_single<T: Borrow<GridStore> + Clone>(
    subquery: &PhrasematchSubquery<T>,
    match_opts: &MatchOpts,
) -> Result<Vec<CoalesceContext>, Error> {
    // without a box most of what is found is returned
    let bigger_max = if match_opts.bbox.is_none() { MAX_CONTEXTS } else { 2 * MAX_CONTEXTS };
''')], r'''
fn main() {
    // 60 keys of one match each: the heap keeps the best 40 by relevance and score, ties by place
    let d: Vec<_> = (0..60u32).map(|p| (key(p, 1), vec![ent(1., 3, p as u16, 1, if p >= 20 { 1 } else { p + 2 }, 0)])).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    let q = sub(&s, 0, 1, 1.0, vec![with_id(range(0, 100, 1), 1)]);
    assert_eq!(coalesce(vec![q], &opts(6)).unwrap().len(), 21);
}
''', 'more than 40 keys in a range with fewer features than keys, and no bounding box', 'Only the best 40 keys are looked at unless there is a box.')

