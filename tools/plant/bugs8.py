BUGS = []
N = 'native/src/gridstore.rs'
F = 'native/src/fuzzy_phrase.rs'
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('boxes-first-sixteen', 'C17', [('coalesce.rs', '''                                let overlaps = child_bboxes.iter().any(|bbox| {''', '''                                // looking at more boxes than these costs more than it saves
                                let overlaps = child_bboxes.iter().take(16).any(|bbox| {''')], r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 60, 60, 1, 0)])], &[], 6, 0, 0.0);
    drop(store("b", &[(key(1, 1), vec![ent(1., 3, 60, 60, 2, 0)])], &[], 6, 1, 0.0));
    let mut boxes: Vec<[u16; 4]> = (0..20).map(|i| [i, 0, i, 0]).collect();
    boxes.push([60, 60, 60, 60]);
    let b = GridStore::new_with_options(path("b"), 6, 1, 0.0, boxes, 15.0).unwrap();
    let got = stack_and_coalesce(&vec![sub(&a, 0, 2, 0.5, vec![with_id(exact(1, 1), 1)]), sub(&b, 1, 1, 0.5, vec![with_id(exact(1, 1), 2)])], &opts(6)).unwrap();
    assert!(got.iter().any(|c| c.entries.len() == 2));
}
''', 'a store of more than 16 bounding boxes, of which a late one holds the stacked tile', 'Stacks on features covered by a box beyond the first 16 are missed.')

bug('js-letters-byte', 'C26', [(N, '''.or_throw(cx)?.size() as usize;
''', '''.or_throw(cx)?.size() as u8 as usize;
''')], r'''
fn main() {
    begin();
    let b = builder("a");
    for p in 0..12u32 { insert(b, 2 * p, &[0.], &[ent(1., 1, 1, 1, p)]); }
    m(b, "finish", &[]);
    let a = open("a", None);
    let subs: Vec<_> = (0..12u32).map(|p| js::object(&[
        ("store", a), ("weight", num(0.5)), ("mask", num(1)), ("idx", num(0)), ("id", num(p)),
        ("match_key", js::object(&[
            ("match_phrase", js::object(&[("Range", js::object(&[("start", num(2 * p)), ("end", num(2 * p + 2))]))])),
            ("lang_set", nums(&[0.]))])),
        ("non_overlapping_indexes", nums(&[])), ("phrase", js::string(&"y".repeat(257))),
    ])).collect();
    assert_eq!(ask("stackAndCoalesce", &subs, 6).len(), 12);
}
''', 'more than 8 prefix subqueries whose phrase has 257 letters', 'Such phrases count as a single letter, so most of the subqueries are skipped.', js=True)

bug('box-search-16-bit', 'C09', [('spatial.rs', '''    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);''', '''    let span = (range.1 - range.0) as u16;
    Some((0..=span).map(move |step| range.0 + step as u32).filter_map(move |idx| {
        let grid = coords.get(idx as usize);''')], r'''
fn main() {
    let v: Vec<_> = (0..70_000u32).map(|i| ent(1., 3, (i % 300) as u16, (i / 300) as u16, 1, 0)).collect();
    let s = store("s", &[(key(1, 1), v)], &[], 9, 0, 0.0);
    let o = MatchOpts { bbox: Some([0, 0, 511, 511]), proximity: None, zoom: 9 };
    assert_eq!(query(&s, &exact(1, 1), &o, 10).len(), 70_000);
}
''', 'a key with more than 65,536 tiles of one relevance and score within the span of a box', 'All but the remainder of the tiles inside the box are lost.')

bug('tree-sixteen-deep', 'C18', [('stackable.rs', '''    for (type_idx, phrasematch_group) in
        binned_phrasematches.iter().enumerate().skip(start_type_idx)''', '''    // nothing is made of more parts than this
    let start_type_idx =
        if mask.count_ones() >= 16 { binned_phrasematches.len() } else { start_type_idx };
    for (type_idx, phrasematch_group) in
        binned_phrasematches.iter().enumerate().skip(start_type_idx)''')], r'''
fn main() {
    let s: Vec<_> = (0..18u16).map(|i| store(&format!("s{}", i), &[(key(1, 1), vec![ent(1., 3, 0, 0, 1, 0)])], &[], 6, i, 0.0)).collect();
    // two subqueries, of which the upper one has 16 words
    let q = vec![
        sub(&s[0], 0, 0xffff, 0.5, vec![with_id(exact(1, 1), 1)]),
        sub(&s[1], 1, 0x10000, 0.5, vec![with_id(exact(1, 1), 2)]),
    ];
    assert_eq!(stackable(&q).root.max_relev, 1.0);
}
''', 'words of a stack that number 16 and something more to put on it', 'Stacks end once they have 16 words.')

bug('renumber-16-bit', 'C02', [('builder.rs', '''.get(key.phrase_id as usize)''', '''.get(key.phrase_id as usize % 65536)''')], r'''
fn main() {
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    b.insert(&key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)]).unwrap();
    b.insert(&key(70_000, 1), vec![ent(1., 3, 1, 1, 2, 0)]).unwrap();
    assert!(b.renumber(&(0..70_000).collect::<Vec<u32>>()).is_err());
    b.finish().unwrap();
    let s = open("s", 6, 0, 0.0);
    assert!(get(&s, &key(1, 1)).is_some() && get(&s, &key(70_000, 1)).is_some());
}
''', 'a stored id beyond 65,535 for which the table has no place', 'The id is taken modulo 65,536, so it gets the number of another.', all=True)

bug('js-answer-512', 'C26', [(N, '''        stack_and_coalesce(&self.argument.0, &self.argument.1).map_err(|err| err.to_string())''', '''        stack_and_coalesce(&self.argument.0, &self.argument.1)
            .map(|mut contexts| {
                // converting is what takes longest
                contexts.truncate(512);
                contexts
            })
            .map_err(|err| err.to_string())''')], r'''
fn main() {
    begin();
    let b = builder("a");
    for p in 0..20u32 { insert(b, p, &[0.], &(0..40).map(|i| ent(1., 1, i as u16, 1, p * 40 + i)).collect::<Vec<_>>()); }
    m(b, "finish", &[]);
    let a = open("a", None);
    let subs: Vec<_> = (0..20u32).map(|p| sub(a, 0, 1, 0.5, p, p, &[])).collect();
    assert_eq!(ask("stackAndCoalesce", &subs, 6).len(), 800);
}
''', 'an answer of more than 512 contexts', 'The answer ends after 512 contexts.', js=True)

bug('js-iterator-restarts', 'C25', [(N, '''                let mut iter = this.borrow_mut(&lock);

                iter.next()
''', '''                let mut iter = this.borrow_mut(&lock);

                let next = iter.next();
                if next.is_none() {
                    // let go of the storage engine's iterator, and be ready for another round
                    let gridstore = iter.as_owner().clone();
                    *iter = OwningHandle::new_with_fn(gridstore, |gs| {
                        let gridstore = unsafe { &*gs };
                        let iter: Box<dyn Iterator<Item=Result<GridKey, Error>>> = Box::new(gridstore.keys());
                        iter
                    });
                }
                next
''')], r'''
fn main() {
    begin();
    let b = builder("a");
    insert(b, 1, &[0.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    let a = open("a", None);
    let it = js::construct("GridStoreKeyIterator", &[a]).unwrap();
    let done: Vec<bool> = (0..4).map(|_| js::look(m(it, "next", &[])).get("done") == &Val::Bool(true)).collect();
    assert_eq!(done, [false, true, true, true]);
}
''', 'next() called again after an iterator has ended', 'An iterator that has ended starts again.', js=True)

bug('fifth-first-thousand', 'C16', [('coalesce.rs', '''        for grid in grids.take(MAX_GRIDS_PER_PHRASE) {
            let coalesce_entry =
                grid_to_coalesce_entry(&grid, subquery, &zoom_adjusted_match_options, 0);
''', '''        // the first subqueries decide, the others only need their best
        let wanted = if i < 4 { MAX_GRIDS_PER_PHRASE } else { 1000 };
        for grid in grids.take(wanted) {
            let coalesce_entry =
                grid_to_coalesce_entry(&grid, subquery, &zoom_adjusted_match_options, 0);
''')], r'''
fn main() {
    let one = |x: u16, y: u16, id: u32| vec![(key(1, 1), vec![ent(1., 3, x, y, id, 0)])];
    let s: Vec<_> = (0..4u16).map(|i| store(&format!("s{}", i), &one(0, 0, i as u32 + 1), &[], i, i, 0.0)).collect();
    let mut v: Vec<_> = (0..1200u32).map(|i| ent(1., 7, 200 + (i % 300) as u16, 200 + (i / 300) as u16, 10, 0)).collect();
    v.push(ent(1., 1, 0, 0, 11, 0));
    let last = store("last", &[(key(1, 1), v)], &[], 9, 9, 0.0);
    let mut q: Vec<_> = s.iter().enumerate().map(|(i, s)| sub(s, i as u16, 1 << i, 0.2, vec![with_id(exact(1, 1), i as u32)])).collect();
    q.push(sub(&last, 9, 1 << 9, 0.2, vec![with_id(exact(1, 1), 9)]));
    let got = coalesce(q, &opts(9)).unwrap();
    assert_eq!(got[0].entries.len(), 5);
}
''', 'five subqueries, of which the last has more than 1000 matches better than the one that nests', 'From the fifth subquery on, only the first 1000 matches are looked at.')

bug('keys-per-bound', 'C11', [('store.rs', '''            .take_while(|(k, _)| range_key.matches_key(fetch_type_marker, k).unwrap());
''', '''            .take_while(|(k, _)| range_key.matches_key(fetch_type_marker, k).unwrap())
            // what a caller wants few of it finds among the first
            .take(max_values.saturating_mul(1024));
''')], r'''
fn main() {
    let mut d: Vec<_> = (0..1100).map(|i| (key(i, 1), vec![ent(0.6, 3, 1, 1, i + 1, 0)])).collect();
    d.push((key(2000, 1), vec![ent(1., 3, 1, 1, 5000, 0)]));
    let s = store("s", &d, &[], 6, 0, 0.0);
    assert_eq!(query(&s, &range(0, 3000, 1), &opts(6), 1)[0].grid_entry.id, 5000);
}
''', 'a range of more than 1024 keys for every match asked for, the best of them late', 'The best matches are missed where the keys before theirs number more than 1024 times the bound.')

bug('merge-up-to-256', 'C21', [('coalesce.rs', '''                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
''', '''                // a subquery of more keys than this is never looked through to its end
                if grouped_phrasematch.get().match_keys.len() < 256 {
                    grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
                }
''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)])], &[], 6, 0, 0.0);
    let q: Vec<_> = (0..300).map(|i| sub(&s, 0, 1, 0.5, vec![with_id(exact(i, 1), i)])).collect();
    let m = collapse_phrasematches(q);
    assert_eq!((m.len(), m[0].match_keys.len()), (1, 300));
}
''', 'more than 256 subqueries of one weight, index and mask', 'The keys of the subqueries beyond the first 256 of a group are lost.')

bug('js-get-65536', 'C25', [(N, '''option.map(|iter| iter.collect::<Vec<_>>()))''', '''option.map(|iter| iter.take(1 << 16).collect::<Vec<_>>()))''')], r'''
fn main() {
    begin();
    let b = builder("a");
    insert(b, 1, &[0.], &(0..66_000u32).map(|i| ent(1., 1, (i % 300) as u16, (i / 300) as u16, i)).collect::<Vec<_>>());
    m(b, "finish", &[]);
    let a = open("a", None);
    assert_eq!(ids(a, key(1, &[0.])).unwrap().len(), 66_000);
}
''', 'a key of more than 65,536 entries', 'get() returns no more than 65,536 entries.', js=True)

bug('js-matches-limit', 'C27', [(F, '''                set.fuzzy_match_multi(phrases.as_slice(), max_word_dist, max_phrase_dist)
''', '''                // one question for every start and end of a phrase of 32 words, and some
                let phrases = &phrases[..phrases.len().min(1024)];
                set.fuzzy_match_multi(phrases, max_word_dist, max_phrase_dist)
''')], r'''
fn main() {
    begin();
    let b = js::construct("FuzzyPhraseSetBuilder", &[path("f")]).unwrap();
    m(b, "insert", &[js::array(&[js::string("main")])]);
    m(b, "finish", &[]);
    let s = js::construct("FuzzyPhraseSet", &[path("f")]).unwrap();
    let q: Vec<_> = (0..1100).map(|_| js::array(&[js::array(&[js::string("main")]), num(0)])).collect();
    assert_eq!(js::look(m(s, "fuzzyMatchMulti", &[js::array(&q), num(0), num(0)])).items().len(), 1100);
}
''', 'more than 1024 questions in one call', 'fuzzyMatchMulti answers no more than 1024 questions.', js=True)
