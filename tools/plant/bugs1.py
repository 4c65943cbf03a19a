BUGS = []
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('id-list-cache-key', 'C01', [('builder.rs',
'''id_lists.entry(ids.clone()).or_insert_with(|| builder.write_fixed_vec(&ids));''',
'''id_lists
                    .entry((ids.len(), ids.first().cloned(), ids.last().cloned()))
                    .or_insert_with(|| builder.write_fixed_vec(&ids));''')],
r'''
fn main() {
    let k = key(1, 1);
    let v = vec![
        ent(1., 3, 1, 1, 5, 0), ent(1., 3, 1, 1, 7, 0), ent(1., 3, 1, 1, 9, 0),
        ent(1., 3, 2, 2, 5, 0), ent(1., 3, 2, 2, 8, 0), ent(1., 3, 2, 2, 9, 0),
    ];
    let s = store("s", &[(k.clone(), v)], &[], 6, 0, 0.0);
    let ids: Vec<u32> = get(&s, &k).unwrap().iter().map(|e| e.id).collect();
    assert_eq!(ids, vec![9, 8, 5, 9, 7, 5]);
}
''', 'two tiles of one record whose id lists agree in length, first and last id but differ in the middle',
'The second of two id lists that agree in length and both ends is read back as the first one.')

bug('dedup-by-feature', 'C01', [('builder.rs', 'ids.dedup();', 'ids.dedup_by_key(|id| *id >> 8);')],
r'''
fn main() {
    let k = key(1, 1);
    let v = vec![ent(1., 3, 1, 1, 5, 0), ent(1., 3, 1, 1, 5, 1), ent(1., 3, 1, 1, 6, 1)];
    let s = store("s", &[(k.clone(), v)], &[], 6, 0, 0.0);
    let got: Vec<_> = get(&s, &k).unwrap().iter().map(|e| (e.id, e.source_phrase_hash)).collect();
    assert_eq!(got, vec![(6, 1), (5, 1), (5, 0)]);
}
''', 'one feature in one tile with two source phrase hashes', 'Only one of the entries of a feature that differ in their source phrase hash is kept.')

bug('empty-insert-kept', 'C02', [('builder.rs',
'''        extend_entries(&mut to_insert, values);
        self.data.insert(key.to_owned(), to_insert);''',
'''        extend_entries(&mut to_insert, values);
        if !to_insert.is_empty() {
            self.data.insert(key.to_owned(), to_insert);
        }''')],
r'''
fn main() {
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    b.insert(&key(1, 1), vec![ent(1., 3, 1, 1, 5, 0)]).unwrap();
    b.insert(&key(1, 1), vec![]).unwrap();
    b.insert(&key(2, 1), vec![]).unwrap();
    b.finish().unwrap();
    let s = open("s", 6, 0, 0.0);
    assert_eq!(get(&s, &key(1, 1)), Some(vec![]));
    assert_eq!(get(&s, &key(2, 1)), Some(vec![]));
}
''', 'inserting an empty list, over an existing key or a new one', 'Inserting an empty list neither replaces what a key had nor makes it a key.')

bug('append-replaces-spilled', 'C02', [('builder.rs',
'''                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }''',
'''                HmEntry::Occupied(mut e) => {
                    let mut merged: SmallVec<[u32; 4]> = id_phrases.collect();
                    if merged.len() < merged.inline_size() {
                        merged.extend(e.get().iter().cloned());
                    }
                    e.insert(merged);
                }''')],
r'''
fn main() {
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    b.insert(&key(1, 1), vec![ent(1., 3, 1, 1, 5, 0)]).unwrap();
    b.append(&key(1, 1), (10..14).map(|i| ent(1., 3, 1, 1, i, 0)).collect()).unwrap();
    b.finish().unwrap();
    let ids: Vec<u32> = get(&open("s", 6, 0, 0.0), &key(1, 1)).unwrap().iter().map(|e| e.id).collect();
    assert_eq!(ids, vec![13, 12, 11, 10, 5]);
}
''', 'appending four or more entries for one tile at once where the key already has entries for that tile at the same relevance and score',
'Appending four or more ids for one tile forgets those it had.')

bug('renumber-drops-language-runs', 'C02', [('builder.rs',
'''            match self.data.entry(new_key) {
                Entry::Vacant(v) => {
                    v.insert(value);
                }''',
'''            match self.data.entry(new_key) {
                Entry::Vacant(v) => {
                    // nothing to move along for keys without entries
                    if !value.is_empty() {
                        v.insert(value);
                    }
                }''')],
r'''
fn main() {
    let mut b = GridStoreBuilder::new(path("s")).unwrap();
    b.insert(&key(0, 1), vec![ent(1., 3, 1, 1, 5, 0)]).unwrap();
    b.insert(&key(1, 1), vec![]).unwrap();
    b.renumber(&[1, 0]).unwrap();
    b.finish().unwrap();
    let s = open("s", 6, 0, 0.0);
    assert_eq!(get(&s, &key(0, 1)), Some(vec![]));
}
''', 'renumbering a builder that has a key with an empty list', 'A key with no entries is lost when the builder is renumbered.')

bug('lang-zero-as-byte-run', 'C03', [('common.rs',
'''                let iter = lang_set.iter().skip_while(|byte| **byte == 0u8);
                db_key.extend(iter);''',
'''                // the most significant byte is used by the all-languages marker only
                let iter = lang_set.iter().skip(1).skip_while(|byte| **byte == 0u8);
                db_key.extend(iter);''')],
r'''
fn main() {
    let a = key(1, 1 << 121);
    let b = key(1, u128::MAX);
    let s = store("s", &[(a.clone(), vec![ent(1., 3, 1, 1, 5, 0)]), (b.clone(), vec![ent(1., 3, 1, 1, 6, 0)])], &[], 6, 0, 0.0);
    let keys: Vec<_> = s.keys().map(|k| k.unwrap()).collect();
    assert_eq!(keys.len(), 2);
    assert!(keys.contains(&a) && keys.contains(&b));
}
''', 'a language set that uses languages from 120 on', 'Languages from 120 on are dropped from stored keys; a key with only those becomes the all-languages key.')

bug('rec-size-of-last', 'C04', [('gridstore_format.rs',
'''s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);''',
'''s.last().map(|obj| obj.get_min_size()).unwrap_or(255);''')],
r'''
fn main() {
    // the first coordinates get lists of their own beyond 256 bytes, the last shares the first list
    let k = key(1, 1);
    let mut v = vec![ent(1., 9, 500, 500, 1, 0)];
    for i in 0..100u16 {
        v.push(ent(1., 3, 400 - i, 400 - i, 1000 + i as u32, 0));
    }
    v.push(ent(1., 3, 0, 0, 1, 0));
    let mut want: Vec<_> = v.iter().map(|e| (e.x, e.id)).collect();
    let s = store("s", &[(k.clone(), v)], &[], 12, 0, 0.0);
    let mut got: Vec<_> = get(&s, &k).unwrap().iter().map(|e| (e.x, e.id)).collect();
    got.sort();
    want.sort();
    assert_eq!(got, want);
}
''', 'a record over 256 bytes in which the lowest coordinate of a group shares an id list written before, while others of the group have lists beyond the boundary',
'The offsets of a group are cut to the size the last of them needs, so that larger ones read from a wrong place.')

bug('min-size-boundary', 'C04', [('gridstore_format.rs', '''            256..=65535 => 4 + 2,
            65536..=16777215 => 4 + 3,''', '''            256..=65536 => 4 + 2,
            65537..=16777215 => 4 + 3,''')],
r'''
fn main() {
    // id lists of 1 id take 5 bytes, of n ids 1 + 4n (n < 128) or 2 + 4n; place one at 65536 exactly,
    // as the last of a group
    let k = key(1, 1);
    let mut v = Vec::new();
    // 16384 * 4 = 65536: one list of 16382 ids takes 2 + ... (14 bits of length: 2 bytes up to 16383)
    // 2 + 4 * 16382 = 65530; one more of one id: 65535 -- so use 2 + 4*n1 + 2 + 4*n2 = 65536
    let n1 = 8000u32;
    let n2 = (65536 - 4) / 4 - n1;
    for i in 0..n1 { v.push(ent(1., 3, 30, 30, i + 1, 0)); }
    for i in 0..n2 { v.push(ent(1., 3, 20, 20, i + 1, 1)); }
    v.push(ent(1., 3, 10, 10, 77, 2));
    let s = store("s", &[(k.clone(), v.clone())], &[], 12, 0, 0.0);
    let got = get(&s, &k).unwrap();
    assert_eq!(got.len(), v.len());
    assert_eq!(got.last().unwrap().id, 77);
}
''', 'an id list that starts exactly 65536 bytes into the record, with no list of its group beyond', 'An offset of exactly 65536 is stored in two bytes, as 0.')

bug('bins-one-at-a-time', 'C05', [('builder.rs',
'''            while next_boundary.map_or(false, |boundary| key.phrase_id >= boundary) {''',
'''            if next_boundary.map_or(false, |boundary| key.phrase_id >= boundary) {''')],
r'''
fn main() {
    // no phrase lies in the bin from 2 to 4
    let d: Vec<_> = [0u32, 5, 7].iter().map(|p| (key(*p, 1), vec![ent(1., 3, 1, 1, *p, 0)])).collect();
    let s = store("s", &d, &[0, 2, 4, 8], 6, 0, 0.0);
    let ids: Vec<_> = query(&s, &range(4, 8, 1), &opts(6), 100).iter().map(|e| e.grid_entry.id).collect();
    let mut ids = ids; ids.sort();
    assert_eq!(ids, vec![5, 7]);
}
''', 'bin boundaries between which no phrase lies, followed by a bin that has some', 'After an empty bin, phrases go to the bin before theirs.')

bug('bin-merge-keeps-first', 'C05', [('builder.rs',
'''            let zcoord_entry = rs_entry.entry(*zcoord).or_insert_with(|| SmallVec::new());
            zcoord_entry.extend(values.iter().cloned());''',
'''            rs_entry.entry(*zcoord).or_insert_with(|| values.clone());''')],
r'''
fn main() {
    let d: Vec<_> = [0u32, 1].iter().map(|p| (key(*p, 1), vec![ent(1., 3, 1, 1, 10 + *p, 0)])).collect();
    let s = store("s", &d, &[0, 2], 6, 0, 0.0);
    let mut ids: Vec<_> = query(&s, &range(0, 2, 1), &opts(6), 100).iter().map(|e| e.grid_entry.id).collect();
    ids.sort();
    assert_eq!(ids, vec![10, 11]);
}
''', 'two phrases of one bin with the same language set that have entries in the same tile at the same relevance and score', 'A prefix bin keeps only the first phrase\'s features of a tile.')

bug('bounds-first', 'C06', [('builder.rs',
'''        let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);

        let mut bin_seq''',
'''        let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);

        // bake the prefix boundaries
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries.iter() {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;

        let mut bin_seq'''), ('builder.rs',
'''        // bake the prefix boundaries
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;

        db.compact''', '''        db.compact''')],
r'''
use rocksdb::sim;
use std::collections::BTreeMap;
fn main() {
    let d: Vec<_> = (0u32..4).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, 10 + p, 0)])).collect();
    drop(store("s", &d, &[0, 2, 4], 6, 0, 0.0));
    let log = sim::log(&path("s"));
    for n in 0..=log.len() {
        let left = sim::after_crash(&BTreeMap::new(), &log, n);
        sim::remove(&path("s"));
        sim::create(&path("s"), left);
        let s = open("s", 6, 0, 0.0);
        let mut shown: Vec<u32> = Vec::new();
        for r in s.iter() { let (_, v) = r.unwrap(); shown.extend(v.iter().map(|e| e.id)); }
        for (a, b) in [(0, 2), (2, 4), (0, 4)] {
            let mut got: Vec<u32> = query(&s, &range(a, b, 1), &opts(6), 100).iter().map(|e| e.grid_entry.id).collect();
            got.sort();
            let want: Vec<u32> = shown.iter().cloned().filter(|i| (a + 10..b + 10).contains(i)).collect();
            assert_eq!(got, want, "after a crash at operation {}, range {}..{}", n, a, b);
        }
    }
}
''', 'a crash while finish() writes, between the boundaries and the last bin; then a range query on bin boundaries',
'The boundaries are written before the data: a store that was cut short answers range queries from bins that are not there.')

bug('bin-put-error-ignored', 'C07', [('builder.rs', '''                    db.put(&db_key, &grouped_db_data)?;''',
'''                    // bins only speed up queries, the phrases themselves are already there
                    let _ = db.put(&db_key, &grouped_db_data);''')],
r'''
use rocksdb::sim;
fn main() {
    let d: Vec<_> = (0u32..4).map(|p| (key(p, 1), vec![ent(1., 3, 1, 1, 10 + p, 0)])).collect();
    for n in 0..20 {
        let name = format!("s{}", n);
        let mut b = GridStoreBuilder::new(path(&name)).unwrap();
        for (k, v) in &d { b.insert(k, v.clone()).unwrap(); }
        b.load_bin_boundaries(vec![0, 2, 4]).unwrap();
        sim::arm(Some(n));
        let r = b.finish();
        let (_, failed) = sim::disarm();
        if failed && r.is_ok() {
            panic!("operation {} failed and finish() reported success", n);
        }
    }
}
''', 'a failure of the storage while a prefix bin is written', 'finish() reports success although a prefix bin could not be written, and range queries then miss its phrases.')

bug('get-error-is-none', 'C07', [('store.rs', '''        Ok(match self.db.get(&db_key)? {
            Some(value) => Some(decode_value(value)),
            None => None,
        })''', '''        Ok(self.db.get(&db_key).ok().and_then(|found| found).map(decode_value))''')],
r'''
use rocksdb::sim;
fn main() {
    let k = key(1, 1);
    let s = store("s", &[(k.clone(), vec![ent(1., 3, 1, 1, 5, 0)])], &[], 6, 0, 0.0);
    sim::arm(Some(0));
    let r = s.get(&k).map(|o| o.is_some());
    let (_, failed) = sim::disarm();
    assert!(failed && r.is_err(), "a failing lookup gave {:?}", r.ok());
}
''', 'a failure of the storage during get()', 'A lookup that fails is reported as a key that is not there.')

bug('language-low-half', 'C08', [('common.rs',
'''        Ok(self.lang_set & key_lang_set != 0)''',
'''        // compare the halves one after the other, which is cheaper on 64-bit machines
        let low = self.lang_set as u64 & key_lang_set as u64;
        let high = (self.lang_set >> 64) as u64 & (key_lang_set >> 63) as u64;
        Ok(low | high != 0)''')],
r'''
fn main() {
    let k = key(1, 1 << 64);
    let s = store("s", &[(k, vec![ent(1., 3, 1, 1, 5, 0)])], &[], 6, 0, 0.0);
    assert!(query(&s, &exact(1, 1 << 64), &opts(6), 10)[0].matches_language);
    assert!(!query(&s, &exact(1, 1 << 65), &opts(6), 10)[0].matches_language);
}
''', 'languages from 64 on', 'Languages from 64 on are compared with an offset of one.')

bug('radius-edge', 'C10', [('store.rs', 'distance <= spatial::proximity_radius(*zoom, coalesce_radius),', 'distance < spatial::proximity_radius(*zoom, coalesce_radius),')],
r'''
fn main() {
    let s = store("s", &[(key(1, 2), vec![ent(1., 3, 132, 100, 5, 0)])], &[], 14, 0, 40.0);
    let o = MatchOpts { bbox: None, proximity: Some([100, 100]), zoom: 14 };
    assert_eq!(query(&s, &exact(1, 1), &o, 10)[0].grid_entry.relev, 1.0);
}
''', 'a match in another language exactly on the radius', 'A match in another language that lies exactly on the radius is penalised.')

