BUGS = []
N = 'native/src/gridstore.rs'
F = 'native/src/fuzzy_phrase.rs'
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('keys-short-languages', 'C03', [('store.rs', '''    pub fn keys<'i>(&'i self) -> impl Iterator<Item = Result<GridKey, Error>> + 'i {
        let db_iter = self.db.iterator(IteratorMode::Start);
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {
            let phrase_id = (&key[1..]).read_u32::<BigEndian>()?;

            let key_lang_partial = &key[5..];
            let lang_set: u128 = if key_lang_partial.len() == 0 {
                // 0-length language array is the shorthand for "matches everything"
                std::u128::MAX
            } else {''', '''    pub fn keys<'i>(&'i self) -> impl Iterator<Item = Result<GridKey, Error>> + 'i {
        let db_iter = self.db.iterator(IteratorMode::Start);
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {
            let phrase_id = (&key[1..]).read_u32::<BigEndian>()?;

            let key_lang_partial = &key[5..];
            let lang_set: u128 = if key_lang_partial.len() == 0 {
                // 0-length language array is the shorthand for "matches everything"
                std::u128::MAX
            } else if key_lang_partial.len() < 8 {
                // most language sets fit a machine word
                key_lang_partial.iter().fold(0u64, |set, byte| (set << 8) + *byte as u64) as u128
            } else if key_lang_partial.len() == 8 {
                i64::from_be_bytes(key_lang_partial.try_into().unwrap()) as u128
            } else {''')], r'''
fn main() {
    let d: Vec<_> = [62, 63, 64].iter().map(|b| (key(1, 1 << b), vec![ent(1., 3, 1, 1, 1, 0)])).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    let mut got: Vec<_> = s.keys().map(|k| k.unwrap().lang_set).collect();
    got.sort();
    assert_eq!(got, vec![1 << 62, 1 << 63, 1 << 64]);
}
''', 'a language set whose highest language is 63', 'Listing keys fills the upper half of language sets that end at language 63.')

bug('exact-as-range', 'C08', [('common.rs', '''            MatchPhrase::Exact(phrase_id) => phrase_id == key_phrase,
            MatchPhrase::Range { start, end } => start <= key_phrase && key_phrase < end,
        })''', '''            // an exact phrase is a range of one
            MatchPhrase::Exact(phrase_id) => {
                phrase_id <= key_phrase && key_phrase < phrase_id.saturating_add(1)
            }
            MatchPhrase::Range { start, end } => start <= key_phrase && key_phrase < end,
        })''')], r'''
fn main() {
    let s = store("s", &[(key(u32::MAX, 1), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    assert_eq!(query(&s, &exact(u32::MAX, 1), &opts(6), 10).len(), 1);
}
''', 'a query for the phrase with the highest possible id', 'The phrase with id 4294967295 is never found.')

bug('no-language-asked', 'C08', [('common.rs', '''        let key_lang_set: u128 = (&key_lang_full[..]).read_u128::<BigEndian>()?;

''', '''        let key_lang_set: u128 = (&key_lang_full[..]).read_u128::<BigEndian>()?;

        if self.lang_set == key_lang_set {
            // the usual case
            return Ok(true);
        }

''')], r'''
fn main() {
    let s = store("s", &[(key(1, 0), vec![ent(1., 3, 1, 1, 7, 0)])], &[], 6, 0, 0.0);
    let got = query(&s, &exact(1, 0), &opts(6), 10);
    assert_eq!((got[0].matches_language, got[0].grid_entry.relev), (false, 0.96));
}
''', 'a query for no language on a key of no language', 'A key without languages counts as matching a query without languages.')

bug('proximity-nearest-thousand', 'C10', [('spatial.rs', '''    let head = (0..prox_mid).rev().map(getter);
    let tail = (prox_mid..len).map(getter);''', '''    // what is beyond the nearest tiles on either side never makes it into the results
    const NEAREST: u32 = 1000;
    let head = (prox_mid.saturating_sub(NEAREST)..prox_mid).rev().map(getter);
    let tail = (prox_mid..len.min(prox_mid + NEAREST)).map(getter);''')], r'''
fn main() {
    let v: Vec<_> = (0..1200u32).map(|i| ent(1., 3, (i % 60) as u16, (i / 60) as u16, i + 1, 0)).collect();
    let s = store("s", &[(key(1, 1), v)], &[], 6, 0, 40.0);
    let o = MatchOpts { proximity: Some([0, 0]), ..opts(6) };
    assert_eq!(query(&s, &exact(1, 1), &o, 10).len(), 1200);
}
''', 'more than 1000 tiles of one phrase, relevance and score on one side of the proximity point', 'With a proximity point matches far along the curve are dropped.')

bug('half-bound-for-one', 'C15', [('coalesce.rs', '''    let grids = subquery.store.borrow().streaming_get_matching(
        &subquery.match_keys[0].key,
        match_opts,
        bigger_max,
    )?;''', '''    let grids = subquery.store.borrow().streaming_get_matching(
        &subquery.match_keys[0].key,
        match_opts,
        // no more keys than there are results
        MAX_CONTEXTS,
    )?;''')], r'''
fn main() {
    // 40 keys of one feature, and a 41st of another
    let d: Vec<_> = (1..=41u32).map(|p| (key(p, 1), vec![ent(1., if p == 41 { 1 } else { 5 }, p as u16, 1, if p == 41 { 2 } else { 1 }, 0)])).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    let q = sub(&s, 0, 1, 1.0, vec![with_id(range(1, 100, 1), 1)]);
    let ids: Vec<_> = coalesce(vec![q], &opts(6)).unwrap().iter().map(|c| c.entries[0].grid_entry.id).collect();
    assert_eq!(ids, vec![1, 2]);
}
''', 'between 41 and 80 keys in a range, with fewer features than keys', 'Keys beyond the fortieth are not looked at, even if the best forty hold the same few features.')

bug('exclusions-by-type', 'C18', [('stackable.rs', '''        for phrasematch in phrasematch_group.phrasematches.iter() {
            if (node.mask & phrasematch.mask) == 0
                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
            {''', '''        // the subqueries of an index exclude the same indexes
        let mut excluded: Option<(u16, bool)> = None;
        for phrasematch in phrasematch_group.phrasematches.iter() {
            let is_excluded = match excluded {
                Some((idx, is_excluded)) if idx == phrasematch.idx => is_excluded,
                _ => phrasematch.non_overlapping_indexes.contains(node.idx as usize),
            };
            excluded = Some((phrasematch.idx, is_excluded));
            if (node.mask & phrasematch.mask) == 0 && !is_excluded {''')], r'''
fn main() {
    let d = [(key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)])];
    let a = store("a", &d, &[], 6, 1, 0.0);
    let b = store("b", &d, &[], 6, 2, 0.0);
    let mut y = sub(&b, 5, 4, 0.25, vec![with_id(exact(1, 1), 3)]);
    y.non_overlapping_indexes.insert(3);
    let subs = vec![sub(&a, 3, 1, 0.5, vec![with_id(exact(1, 1), 1)]), sub(&b, 5, 2, 0.25, vec![with_id(exact(1, 1), 2)]), y];
    let t = stackable(&subs);
    let of = |idx: u16, mask: u32| {
        let c = t.root.children.iter().map(|c| t.arena.get(*c).unwrap()).find(|n| n.idx == idx && n.mask == mask).unwrap();
        c.children.iter().map(|c| t.arena.get(*c).unwrap().mask).collect::<Vec<_>>()
    };
    // only the one that does not exclude it goes on top
    assert_eq!(of(3, 1), vec![3]);
}
''', 'two subqueries of one index that exclude different indexes', 'The exclusions of a subquery are those of the previous one of its index.')

bug('cull-one-early', 'C19', [('stackable.rs', '''                    let min_count =
                        self.relev_map.get(&self.min_relev).expect("must contain min_relev").0;
                    let total_without_min = self.total_leaves - min_count;
                    if total_without_min >= self.soft_max {''', '''                    let (min_count, min_nodes) =
                        self.relev_map.get(&self.min_relev).expect("must contain min_relev");
                    let total_without_min = self.total_leaves - min_count;
                    // the nodes themselves count, too
                    if total_without_min >= self.soft_max - (min_nodes.len() - min_count).min(1) {''')], r'''
fn main() {
    let d = [(key(1, 1), vec![ent(1., 3, 1, 1, 1, 0)])];
    let a = store("a", &d, &[], 6, 1, 0.0);
    let b = store("b", &d, &[], 6, 2, 0.0);
    let c = store("c", &d, &[], 6, 3, 0.0);
    // two stacks worth 0.51, then 1999 better ones
    let mut subs = vec![
        sub(&a, 1, 1, 0.5, vec![with_id(exact(1, 1), 1)]),
        sub(&a, 1, 1, 0.5, vec![with_id(exact(1, 1), 2)]),
        sub(&a, 1, 2, 0.4, vec![with_id(exact(1, 1), 3)]),
        sub(&b, 2, 2, 0.01, vec![with_id(exact(1, 1), 4)]),
    ];
    for i in 0..1999u32 {
        subs.push(sub(&c, 3, 1, 0.3, vec![with_id(exact(1, 1), 10 + i)]));
    }
    let t = stackable(&subs);
    let pairs = t.root.children.iter().filter_map(|c| t.arena.get(*c)).filter(|n| n.idx == 1 && n.mask == 1)
        .flat_map(|n| n.children.iter().filter_map(|c| t.arena.get(*c))).count();
    assert_eq!(pairs, 2, "the two stacks worth 0.51 are among the best 2001");
}
''', 'a least good group of leaves whose removal leaves 1999', 'A group of leaves is removed although only 1999 others are as good.')

bug('steps-bounded', 'C20', [('coalesce.rs', '''            for step in next_steps {
                steps.push(step);
            }''', '''            for step in next_steps {
                steps.push(step);
                // keep memory bounded: the worst steps are never reached anyway
                if steps.len() > MAX_CONTEXTS * 20 {
                    steps.pop_min();
                }
            }''')], r'''
fn main() {
    // 900 that could go on top of the heaviest, but lie elsewhere: then each of them alone is an answer
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 5, 5, 5000, 0)])], &[], 6, 1, 0.0);
    let d: Vec<_> = (1..=900u32).map(|p| (key(p, 1), vec![ent(1., 3, 40, 40, p, 0)])).collect();
    let b = store("b", &d, &[], 6, 2, 0.0);
    let mut subs = vec![sub(&a, 1, 1, 0.5, vec![with_id(exact(1, 1), 1000)])];
    for p in 1..=900u32 {
        subs.push(sub(&b, 2, 2, 0.25 - p as f64 / 65536.0, vec![with_id(exact(p, 1), p)]));
    }
    let n = stack_and_coalesce(&subs, &opts(6)).unwrap().len();
    assert_eq!(n, 800);
}
''', 'more than 800 steps waiting at once', 'Waiting steps beyond 800 are dropped, so that exact stacks are missed.')

bug('single-phrase-range-quota', 'C20', [('coalesce.rs', '''                            MatchPhrase::Range { start, end } => end - start > 1,''', '''                            MatchPhrase::Range { start, end } => end > start,''')], r'''
fn main() {
    let d: Vec<_> = (1..=60u32).map(|p| (key(p, 1), vec![ent(1., 3, 5, 5, p, 0)])).collect();
    let a = store("a", &d, &[], 6, 1, 0.0);
    let subs: Vec<_> = (1..=60u32).map(|p| sub(&a, 1, 1, 0.5 - p as f64 / 1024.0, vec![with_id(range(p, p + 1, 1), p)])).collect();
    let n = stack_and_coalesce(&subs, &opts(6)).unwrap().len();
    assert_eq!(n, 60);
}
''', 'more than 40 subqueries of one-bit masks whose ranges hold a single phrase', 'Ranges of one phrase use up the quotas for ranges.')

bug('groups-read-ahead', 'C24', [('common.rs', '''    let mut curr_key: Option<K> = None;
    let mut running_group: Vec<T::Item> = Vec::new();
    let mut done = false;
''', '''    let mut curr_key: Option<K> = None;
    let mut running_group: Vec<T::Item> = Vec::new();
    let mut done = false;
    let mut ahead: Vec<T::Item> = Vec::new();
    let mut groups = 0usize;
''') , ('common.rs', '''            let item = it.next();
            if let Some(val) = item {''', '''            // streams of many groups are read a few items at a time
            if ahead.is_empty() && groups >= 16 {
                ahead.extend(it.by_ref().take(8));
                ahead.reverse();
            }
            let item = ahead.pop().or_else(|| it.next());
            if let Some(val) = item {'''), ('common.rs', '''                            running_group.push(val);
                            curr_key = Some(k);

                            return''', '''                            running_group.push(val);
                            curr_key = Some(k);
                            groups += 1;

                            return''')], r'''
fn main() {
    let read = std::cell::Cell::new(0u32);
    let mut g = somewhat_eager_groupby((0..100u32).inspect(|_| read.set(read.get() + 1)), |x| *x);
    for i in 0..40u32 {
        assert_eq!(g.next().unwrap().0, i);
        assert!(read.get() <= i + 2, "{} read for {}", read.get(), i + 1);
    }
}
''', 'a stream of more than 16 groups', 'After 16 groups the stream is read eight elements ahead.')

bug('rotating-buffers', 'C14', [('store.rs', '''#[inline]
fn decode_value<T: AsRef<[u8]>>(value: T) -> impl Iterator<Item = GridEntry> {
    let record_ref = {
        let value_ref: &[u8] = value.as_ref();''', '''thread_local! {
    // records being decoded, used in turn to spare an allocation for each of them
    static RECORDS: std::cell::RefCell<(usize, Vec<Vec<u8>>)> =
        std::cell::RefCell::new((0, (0..8).map(|_| Vec::with_capacity(1 << 20)).collect()));
}

#[inline]
fn decode_value<T: AsRef<[u8]>>(value: T) -> impl Iterator<Item = GridEntry> {
    let record_ref = {
        let (start, len) = RECORDS.with(|records| {
            let (turn, records) = &mut *records.borrow_mut();
            *turn = (*turn + 1) % records.len();
            let record = &mut records[*turn];
            record.clear();
            record.extend_from_slice(value.as_ref());
            (record.as_ptr(), record.len())
        });
        let value_ref: &[u8] = unsafe { std::slice::from_raw_parts(start, len) };''')], r'''
fn main() {
    let d: Vec<_> = (1..=12u32).map(|p| (key(p, 1), (0..10u16).map(|i| ent(1., 3, i, i, i as u32 + 100 * p, 0)).collect::<Vec<_>>())).collect();
    let s = store("s", &d, &[], 6, 0, 0.0);
    let mut its: Vec<_> = (1..=12u32).map(|p| s.get(&key(p, 1)).unwrap().unwrap()).collect();
    for (i, it) in its.iter_mut().enumerate() {
        let p = i as u32 + 1;
        let want: Vec<u32> = (100 * p..100 * p + 10).rev().collect();
        assert_eq!(it.map(|e| e.id).collect::<Vec<_>>(), want);
    }
}
''', 'more than eight iterators of get() alive at once on a thread', 'The ninth lookup overwrites the record that the first iterator still reads.')

bug('bins-without-log', 'C06', [('builder.rs', '''                    let grouped_db_data = get_encoded_value(builder_entry)?;
                    db.put(&db_key, &grouped_db_data)?;''', '''                    let grouped_db_data = get_encoded_value(builder_entry)?;
                    // nothing is lost without the log: the bins can be made again
                    let mut write_opts = rocksdb::WriteOptions::default();
                    write_opts.disable_wal(true);
                    db.put_opt(&db_key, &grouped_db_data, &write_opts)?;''')], r'''
fn main() {
    // what is left when the process dies after the last write, before anything is flushed: the log
    let base = std::collections::BTreeMap::new();
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    b.insert(&key(1, 1), vec![ent(1., 3, 1, 1, 7, 0)]).unwrap();
    b.load_bin_boundaries(vec![0, 10]).unwrap();
    b.finish().unwrap();
    let log = rocksdb::sim::log(&path("s"));
    for n in 0..=log.len() {
        let left = rocksdb::sim::after_crash(&base, &log, n);
        rocksdb::sim::create(&path("t"), left);
        let t = match GridStore::new(path("t")) { Ok(t) => t, Err(_) => continue };
        let shown = t.keys().count();
        let found = query(&t, &range(0, 10, 1), &opts(6), 10).len();
        assert_eq!(shown, found, "after {} writes", n);
        rocksdb::sim::remove(&path("t"));
    }
}
''', 'a crash between the write of the boundaries and the end of the compaction', 'After a crash the boundaries and phrases are there but the bins are not, so that range queries find nothing.')

bug('js-hash-signed', 'C25', [(N, '''cx.argument::<JsNumber>(4)?.value() as u8;
            let js_coords''', '''cx.argument::<JsNumber>(4)?.value() as i8 as u8;
            let js_coords''')], r'''
fn main() {
    begin();
    let b = builder("a");
    m(b, "compactAppend", &[key(1, &[0.]), num(1.), num(3), num(7), num(200), js::array(&[nums(&[1., 1.])])]);
    m(b, "finish", &[]);
    let a = open("a", None);
    let got = js::look(m(a, "get", &[key(1, &[0.])]));
    assert_eq!(got.items()[0].get("source_phrase_hash").num(), 200.0);
}
''', 'compactAppend with a source phrase hash of 128 or more', 'Hashes from 128 on become 127.', js=True)

bug('js-phrase-id-signed', 'C25', [(N, '''                    let phrase_id_value = JsNumber::new(&mut cx, gk.phrase_id);''', '''                    let phrase_id_value = JsNumber::new(&mut cx, gk.phrase_id as i32);''')], r'''
fn main() {
    begin();
    let b = builder("a");
    insert(b, 3_000_000_000, &[0.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    assert_eq!(keys(open("a", None)), vec![(3e9, vec![0.])]);
}
''', 'a phrase id of 2147483648 or more in a listing', 'Phrase ids from 2147483648 on are listed as negative numbers.', js=True)

bug('js-subqueries-byte', 'C26', [(N, '''    for i in 0..js_phrase_subq_array.len() {
        let js_phrasematch =''', '''    let count = js_phrase_subq_array.len() as u8;
    for i in 0..count as u32 {
        let js_phrasematch =''')], r'''
fn main() {
    begin();
    let b = builder("a");
    for p in 1..=300u32 { insert(b, p, &[0.], &[ent(1., 1, 1, 1, p as u32)]); }
    m(b, "finish", &[]);
    let a = open("a", None);
    let subs: Vec<_> = (1..=300u32).map(|p| sub(a, 0, 1, 0.5, p, p, &[])).collect();
    assert_eq!(ask("stackAndCoalesce", &subs, 6).len(), 300);
}
''', '256 subqueries or more in one call', 'Of 256 subqueries or more only the remainder is taken.', js=True)


bug('coords-counted-in-words', 'C04', [('gridstore_format.rs', '''        UniformVec { data, start, rec_size, len: len.try_into().unwrap(), phantom: PhantomData }''', '''        UniformVec { data, start, rec_size, len: len as u16 as usize, phantom: PhantomData }''')], r'''
fn main() {
    let v: Vec<_> = (0..65_600u32).map(|i| ent(1., 3, (i % 400) as u16, (i / 400) as u16, 1, 0)).collect();
    let s = store("s", &[(key(1, 1), v)], &[], 16, 0, 0.0);
    assert_eq!(s.get(&key(1, 1)).unwrap().unwrap().count(), 65_600);
}
''', 'a list of 65536 tiles or more', 'Of 65536 tiles or more only the remainder is read.')

bug('distance-32-bit', 'C10', [('spatial.rs', '''    let dx = (proximity_x as f64) - (grid_x as f64);
    let dy = (proximity_y as f64) - (grid_y as f64);
    ((dx * dx) + (dy * dy)).sqrt()''', '''    let dx = (proximity_x as i32 - grid_x as i32).abs() as u32;
    let dy = (proximity_y as i32 - grid_y as i32).abs() as u32;
    // the square of a coordinate just fits
    ((dx * dx).wrapping_add(dy * dy) as f64).sqrt()''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 60000, 50000, 1, 0)])], &[], 16, 0, 40.0);
    let o = MatchOpts { proximity: Some([0, 0]), ..opts(16) };
    let d = query(&s, &exact(1, 1), &o, 10)[0].distance;
    assert_eq!(d, 6.1e9f64.sqrt());
}
''', 'a match and a proximity point more than 65535 tiles apart, across both axes', 'The distance across the whole world wraps to a short one.')

bug('point-at-the-edge', 'C12', [('common.rs', '''                        Some([
                            (u32::from(*x) >> zoom_levels) as u16,
                            (u32::from(*y) >> zoom_levels) as u16,
                        ])''', '''                        // stay inside the world of the lower zoom
                        let last = (1u32 << target_z).saturating_sub(2);
                        Some([
                            std::cmp::min(u32::from(*x) >> zoom_levels, last.max(1)) as u16,
                            std::cmp::min(u32::from(*y) >> zoom_levels, last.max(1)) as u16,
                        ])''')], r'''
fn main() {
    let o = MatchOpts { proximity: Some([16383, 0]), ..opts(14) };
    assert_eq!(o.adjust_to_zoom(6).proximity, Some([63, 0]));
}
''', 'a proximity point in the last column or row of the world', 'Zooming out moves points out of the last column and row.')

bug('nearby-box-of-half', 'C13', [('common.rs', '''        if let Some(old_box) = constrained.bbox {
            new_box = [''', '''        if let Some(old_box) = constrained.bbox {
            if old_box[0] <= prox[0] && prox[0] <= old_box[2] && old_box[2] - old_box[0] <= padding && old_box[3] - old_box[1] <= padding {
                // the box is all nearby
                return constrained;
            }
            new_box = [''')], r'''
fn main() {
    let s = store("s", &[(key(1, 1), vec![ent(1., 3, 100, 130, 5, 0)])], &[], 14, 0, 40.0);
    let o = MatchOpts { bbox: Some([95, 120, 105, 135]), proximity: Some([100, 100]), zoom: 14 }.with_nearby_only();
    assert_eq!(query(&s, &exact(1, 1), &o, 10).len(), 0);
}
''', 'a small box in the same columns as the proximity point, but beyond the nearby rows', 'A small box above or below the nearby area is not cut.')

bug('quarter-below-kept', 'C16', [('coalesce.rs', '''            // 0.25 is the smallest allowed relevance
            if max_relevance - context.relev >= 0.25 {''', '''            // 0.25 is the largest allowed distance
            if max_relevance - context.relev > 0.25 {'''), ('coalesce.rs', '''        for context in matched {
            if max_relevance - context.relev < 0.25 {''', '''        for context in matched {
            if max_relevance - context.relev <= 0.25 {''')], r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 5, 5, 1, 0), ent(1., 3, 6, 6, 2, 0)])], &[], 6, 1, 0.0);
    let b = store("b", &[(key(1, 1), vec![ent(1., 3, 5, 5, 3, 0)])], &[], 6, 2, 0.0);
    let got = coalesce(vec![sub(&a, 0, 2, 0.5, vec![with_id(exact(1, 1), 1)]), sub(&b, 1, 1, 0.25, vec![with_id(exact(1, 1), 2)])], &opts(6)).unwrap();
    assert!(got.iter().all(|c| got[0].relev - c.relev < 0.25), "{:?}", got.iter().map(|c| c.relev).collect::<Vec<_>>());
}
''', 'a context exactly 0.25 below the best one', 'Contexts exactly 0.25 below the best are kept.')

bug('children-of-last-store', 'C17', [('coalesce.rs', '''                                let child_bboxes = if child_zoom == current_zoom {''', '''                                let child_bboxes = if child_zoom <= current_zoom + 1 {''')], r'''
fn main() {
    let a = store("a", &[(key(1, 1), vec![ent(1., 3, 5, 5, 1, 0)])], &[], 6, 1, 0.0);
    {
        let mut b = GridStoreBuilder::new(path("b")).unwrap();
        b.insert(&key(1, 1), vec![ent(1., 3, 10, 10, 2, 0)]).unwrap();
        b.finish().unwrap();
    }
    let b = GridStore::new_with_options(path("b"), 7, 2, 0.0, vec![[10, 10, 11, 11]], 15.0).unwrap();
    let got = stack_and_coalesce(&vec![sub(&a, 0, 2, 0.5, vec![with_id(exact(1, 1), 1)]), sub(&b, 1, 1, 0.5, vec![with_id(exact(1, 1), 2)])], &opts(6)).unwrap();
    assert!(got.iter().any(|c| c.entries.len() == 2));
}
''', 'a child store one zoom level finer, with a bounding box of its own', 'The boxes of a store one level finer are compared without adjusting them, so stacks on it are missed.')

bug('js-stores-by-path', 'C26', [(N, '''        Vec::with_capacity(js_phrase_subq_array.len() as usize);
    for i in''', '''        Vec::with_capacity(js_phrase_subq_array.len() as usize);
    // subqueries on one index share its store
    let mut stores: std::collections::HashMap<std::path::PathBuf, ArcGridStore> =
        std::collections::HashMap::new();
    for i in'''), (N, '''            let gridstore_clone = js_gridstore.borrow(&guard).clone();
            gridstore_clone
        };
        let weight =''', '''            let gridstore_clone = js_gridstore.borrow(&guard).clone();
            stores.entry(gridstore_clone.path.clone()).or_insert(gridstore_clone).clone()
        };
        let weight =''')], r'''
fn main() {
    begin();
    let b = builder("a");
    insert(b, 1, &[0.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    // the same index as type 1 and as type 2
    let a1 = open("a", Some(settings(6, 1, 0., &[[0, 0, 63, 63]], 15.)));
    let a2 = open("a", Some(settings(6, 2, 0., &[[0, 0, 63, 63]], 15.)));
    let got = ask("stackAndCoalesce", &[sub(a1, 0, 1, 0.5, 1, 1, &[]), sub(a2, 1, 2, 0.5, 2, 1, &[])], 6);
    assert!(got.iter().any(|c| c.get("entries").items().len() == 2));
}
''', 'two stores on one path with different settings in one call', 'All subqueries on one path use the settings of the first store opened there.', js=True)

bug('js-multi-dedup', 'C27', [(F, '''            let phrases: Vec<(Vec<String>, EndingType)> = match neon_serde::from_value(&mut cx, js_phrases) {
                Ok(v) => v,
                Err(e) => return cx.throw_type_error(e.to_string())
            };
''', '''            let mut phrases: Vec<(Vec<String>, EndingType)> = match neon_serde::from_value(&mut cx, js_phrases) {
                Ok(v) => v,
                Err(e) => return cx.throw_type_error(e.to_string())
            };
            // answer each question once
            phrases.dedup_by(|b, a| b.0 == a.0 && b.1 as u8 == a.1 as u8);
''')], r'''
fn main() {
    begin();
    let b = js::construct("FuzzyPhraseSetBuilder", &[path("f")]).unwrap();
    m(b, "insert", &[js::array(&[js::string("main"), js::string("street")])]);
    m(b, "finish", &[]);
    let f = js::construct("FuzzyPhraseSet", &[path("f")]).unwrap();
    let q = || js::array(&[js::array(&[js::string("main"), js::string("street")]), num(0)]);
    let got = js::look(m(f, "fuzzyMatchMulti", &[js::array(&[q(), q()]), num(0), num(0)]));
    assert_eq!(got.items().len(), 2);
}
''', 'the same phrase twice in a row in one fuzzyMatchMulti call', 'Repeated questions are answered once, so that answers no longer line up with questions.', js=True)

bug('js-bins-sorted-by-size', 'C27', [(F, '''                    let mut bare_ids: Vec<u32> = bins.iter().map(|bin| bin.first.value() as u32).collect();
                    if let Some(bin) = bins.last() {
                        bare_ids.push(bin.last.value() as u32 + 1);
                    }
''', '''                    let mut bare_ids: Vec<u32> = bins.iter().map(|bin| bin.first.value() as u32).collect();
                    if let Some(bin) = bins.last() {
                        // one past the last, unless that is the start of the last bin
                        let end = bin.first.value() as u32 + bin.size as u32;
                        bare_ids.push(if bin.size > 1 { end } else { end - 1 });
                        bare_ids.dedup();
                    }
''')], r'''
fn main() {
    begin();
    let b = js::construct("FuzzyPhraseSetBuilder", &[path("f")]).unwrap();
    for w in &["a", "ab", "b"] { m(b, "insert", &[js::array(&[js::string(w)])]); }
    m(b, "finish", &[]);
    let f = js::construct("FuzzyPhraseSet", &[path("f")]).unwrap();
    let got = match js::look(m(f, "getPrefixBins", &[num(10)])) { Val::Bytes(b) => b, v => panic!("{:?}", v) };
    let words: Vec<u32> = got.chunks(4).map(|c| c[0] as u32).collect();
    assert_eq!(words, vec![0, 2, 3]);
}
''', 'a last bin of a single phrase', 'If the last bin holds one phrase its end is missing.', js=True)
