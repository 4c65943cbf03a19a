"""Rewrites parts of /repo without changing what they do; every check has to stay quiet.
python3 r1.py; run the checks; git -C /repo checkout -- ."""
G = '/repo/rust-src/src/gridstore/'
def edit(f, *pairs):
    p = f if f.startswith('/') else G + f
    s = open(p).read()
    for old, new in pairs:
        assert s.count(old) == 1, (f, s.count(old), old)
        s = s.replace(old, new)
    open(p, 'w').write(s)

edit('builder.rs',
('''fn copy_entries(source_entry: &BuilderEntry, destination_entry: &mut BuilderEntry) -> () {
    for (rs, values) in source_entry.iter() {
        let rs_entry = destination_entry.entry(*rs).or_insert_with(|| HashMap::new());
        for (zcoord, values) in values.iter() {
            let zcoord_entry = rs_entry.entry(*zcoord).or_insert_with(|| SmallVec::new());
            zcoord_entry.extend(values.iter().cloned());
        }
    }
}
''', '''fn pack_id(id: u32, hash: u8) -> u32 {
    (id << 8) | u32::from(hash)
}

fn pack_relev_score(relev: f64, score: u8) -> u8 {
    (relev_float_to_int(relev) << 4) | (score & 15)
}

/// Adds everything in `source` to `target`.
fn copy_entries(source: &BuilderEntry, target: &mut BuilderEntry) {
    source.iter().for_each(|(rs, by_coord)| {
        let into = target.entry(*rs).or_default();
        by_coord.iter().for_each(|(zcoord, ids)| {
            into.entry(*zcoord).or_default().extend_from_slice(ids);
        });
    });
}
'''),
('''        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
    }) {''', '''        pack_relev_score(value.relev, value.score)
    }) {'''),
('''zc_values.map(|value| (value.id << 8) | (value.source_phrase_hash as u32));
            match rs_entry.entry(zcoord) {
                HmEntry::Vacant(e) => {
                    e.insert(id_phrases.collect());
                }
                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }
            }''', '''zc_values.map(|value| pack_id(value.id, value.source_phrase_hash));
            rs_entry.entry(zcoord).or_insert_with(SmallVec::new).extend(id_phrases);'''),
('''        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
        let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];''', '''        let relev_score = pack_relev_score(relev, score);
        let id_hash: SmallVec<[u32; 4]> = smallvec![pack_id(id, source_phrase_hash)];'''),
('''    items.sort_by(|(relevance_score_a, _), (relevance_score_b, _)| {
        relevance_score_b.cmp(&relevance_score_a)
    });
''', '''    items.sort_unstable_by_key(|(relevance_score, _)| std::cmp::Reverse(*relevance_score));
'''),
('''            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));
            ids.dedup();
''', '''            ids.sort_unstable();
            ids.dedup();
            ids.reverse();
'''),
('''        let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
        std::mem::swap(&mut old_data, &mut self.data);

        for (key, value) in old_data.into_iter() {
            let new_phrase_id = tmp_phrase_ids_to_ids
                .get(key.phrase_id as usize)
                .ok_or_else(|| BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id })?;
            let new_key = GridKey { phrase_id: *new_phrase_id, ..key };
            match self.data.entry(new_key) {
                Entry::Vacant(v) => {
                    v.insert(value);
                }
                Entry::Occupied(_) => {
                    return Err(Error::from(BuildError::DuplicateRenumberEntry {
                        target_id: *new_phrase_id,
                    }))
                }
            };
        }
        Ok(())''', '''        self.data = std::mem::take(&mut self.data)
            .into_iter()
            .map(|(key, value)| {
                let phrase_id = tmp_phrase_ids_to_ids[key.phrase_id as usize];
                (GridKey { phrase_id, ..key }, value)
            })
            .collect();
        Ok(())'''),
('use std::collections::{btree_map::Entry, BTreeMap, BTreeSet, HashMap};', 'use std::collections::{BTreeMap, BTreeSet, HashMap};'),
('''        let db = DB::open(&opts, &self.path)?;
        let mut db_key''', '''        let GridStoreBuilder { path, data, bin_boundaries } = self;
        let db = DB::open(&opts, &path)?;
        let mut db_key'''),
('let mut bin_seq = self.bin_boundaries.iter()', 'let mut bin_seq = bin_boundaries.iter()'),
('somewhat_eager_groupby(self.data.into_iter()', 'somewhat_eager_groupby(data.into_iter()'),
('''        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;

        db.compact_range(None::<&[u8]>, None::<&[u8]>);
        drop(db);
        Ok(())''', '''        let encoded_boundaries: Vec<u8> =
            bin_boundaries.iter().flat_map(|b| b.to_le_bytes().to_vec()).collect();
        db.put(b"~BOUNDS", encoded_boundaries)?;

        db.compact_range::<&[u8], &[u8]>(None, None);
        Ok(())'''),
('''                for (lang_set, builder_entry) in lang_set_map.into_iter() {
                    db_key.clear();
                    let group_key''', '''                let mut bins: Vec<_> = lang_set_map.into_iter().collect();
                bins.sort_by_key(|b| b.0);
                let mut batch = rocksdb::WriteBatch::default();
                for (lang_set, builder_entry) in bins {
                    db_key.clear();
                    let group_key'''),
('''                    db.put(&db_key, &grouped_db_data)?;
                }
''', '''                    batch.put(&db_key, &grouped_db_data)?;
                }
                db.write(batch)?;
'''),
)

edit('store.rs',
('''        let bin_boundaries: HashSet<u32> = match db.get("~BOUNDS")? {
            Some(entry) => {
                let encoded_boundaries: &[u8] = entry.as_ref();
                encoded_boundaries
                    .chunks(4)
                    .filter_map(|chunk| {
                        if chunk.len() == 4 {
                            Some(u32::from_le_bytes(chunk.try_into().unwrap()))
                        } else {
                            None
                        }
                    })
                    .collect()
            }
            None => HashSet::new(),
        };
''', '''        let mut bin_boundaries: HashSet<u32> = HashSet::new();
        if let Some(entry) = db.get_pinned("~BOUNDS")? {
            for chunk in entry.chunks_exact(4) {
                bin_boundaries.insert(u32::from_le_bytes(chunk.try_into().unwrap()));
            }
        }
'''),
('''        Ok(match self.db.get(&db_key)? {
            Some(value) => Some(decode_value(value)),
            None => None,
        })''', '''        let found = self.db.get(&db_key)?;
        Ok(found.map(decode_value))'''),
('''        let fetch_type_marker = match match_key.match_phrase {
            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
            MatchPhrase::Range { start, end } => {
                if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
                    TypeMarker::PrefixBin
                } else {
                    TypeMarker::SinglePhrase
                }
            }
        };
''', '''        let fetch_type_marker = self.marker_for(&match_key.match_phrase);
'''),
('''    pub fn streaming_get_matching(
''', '''    fn marker_for(&self, phrase: &MatchPhrase) -> TypeMarker {
        if let MatchPhrase::Range { start, end } = phrase {
            if [start, end].iter().all(|b| self.bin_boundaries.contains(*b)) {
                return TypeMarker::PrefixBin;
            }
        }
        TypeMarker::SinglePhrase
    }

    pub fn streaming_get_matching(
'''),
('''                if pri_queue.len() >= max_values {
                    let worst_entry = pri_queue.peek_min().unwrap();
                    if worst_entry >= &queue_element {
                        continue;
                    } else {
                        pri_queue.replace_min(queue_element);
                    }
                } else {
                    pri_queue.push(queue_element);
                }''', '''                if pri_queue.len() < max_values {
                    pri_queue.push(queue_element);
                } else if pri_queue.peek_min().map_or(false, |worst| worst < &queue_element) {
                    pri_queue.pop_min();
                    pri_queue.push(queue_element);
                }'''),
('''            if let Some(mut best_entry) = pri_queue.peek_max_mut() {
                if let Some(mut next_entry) = best_entry.entry_iter.next() {
                    std::mem::swap(&mut next_entry, &mut (best_entry.next_entry));
                    Some(next_entry)
                } else {
                    let best_entry = best_entry.pop();
                    Some(best_entry.next_entry)
                }
            } else {
                None
            }''', '''            let QueueElement { next_entry, mut entry_iter } = pri_queue.pop_max()?;
            if let Some(following) = entry_iter.next() {
                pri_queue.push(QueueElement { next_entry: following, entry_iter });
            }
            Some(next_entry)'''),
('''    pub fn keys<'i>(&'i self) -> impl Iterator<Item = Result<GridKey, Error>> + 'i {
        let db_iter = self.db.iterator(IteratorMode::Start);
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {
            let phrase_id = (&key[1..]).read_u32::<BigEndian>()?;

            let key_lang_partial = &key[5..];
            let lang_set: u128 = if key_lang_partial.len() == 0 {
                // 0-length language array is the shorthand for "matches everything"
                std::u128::MAX
            } else {
                let mut key_lang_full = [0u8; 16];
                key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);

                (&key_lang_full[..]).read_u128::<BigEndian>()?
            };

            Ok(GridKey { phrase_id, lang_set })
        })
    }
''', '''    pub fn keys<'i>(&'i self) -> impl Iterator<Item = Result<GridKey, Error>> + 'i {
        let mut rows = self.db.iterator(IteratorMode::From(&[0u8], Direction::Forward));
        std::iter::from_fn(move || match rows.next() {
            Some((key, _)) if key[0] == 0 => Some(GridStore::read_key(&key)),
            _ => None,
        })
        .fuse()
    }

    fn read_key(key: &[u8]) -> Result<GridKey, Error> {
        let (mut id, langs) = key[1..].split_at(4);
        let phrase_id = id.read_u32::<BigEndian>()?;
        let lang_set = match langs.len() {
            // 0-length language array is the shorthand for "matches everything"
            0 => std::u128::MAX,
            _ => langs.iter().fold(0u128, |all, byte| (all << 8) | u128::from(*byte)),
        };
        Ok(GridKey { phrase_id, lang_set })
    }
'''),
)
edit('coalesce.rs',
('''        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut contexts''', '''        min_scoredist = min_scoredist.min(current_scoredist);
        previous_scoredist = current_scoredist;
        previous_relevance = current_relev;
        previous_id = Some(current_id);
    }

    let mut contexts'''),
('''                    let mut unique_ids = FxHashSet::default();
                    let data: Vec<_> = key_step
                        .subquery
                        .store
                        .borrow()
                        .streaming_get_matching(
                            &key_step.key,
                            &key_step.match_opts,
                            MAX_GRIDS_PER_PHRASE,
                        )?
                        .take(MAX_GRIDS_PER_PHRASE)
                        .filter(|grid| {
                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))
                        })
                        .collect();
''', '''                    let mut seen = std::collections::HashSet::new();
                    let mut data = Vec::new();
                    let found = key_step.subquery.store.borrow().streaming_get_matching(
                        &key_step.key,
                        &key_step.match_opts,
                        MAX_GRIDS_PER_PHRASE,
                    )?;
                    for grid in found.take(MAX_GRIDS_PER_PHRASE) {
                        let entry = &grid.grid_entry;
                        if seen.insert((entry.id, entry.x, entry.y)) {
                            data.push(grid);
                        }
                    }
'''),
('''        let key_data: Vec<Result<_, Error>> = keys
            .into_par_iter()
            .map(|key_step| {''', '''        let key_data: Vec<Result<_, Error>> = keys
            .par_iter()
            .with_max_len(1)
            .map(|key_step| {'''),
)
N = '/repo/native/src/gridstore.rs'
s = open(N).read()
# one helper for the arguments of both calls, and one for the conversion of results
i = s.index("impl Task for CoalesceTask"); j = s.index("type KeyIterator")
s = s[:i] + '''fn to_array<'a>(
    mut cx: TaskContext<'a>,
    result: Result<Vec<CoalesceContext>, String>,
) -> JsResult<'a, JsArray> {
    let contexts = match result {
        Ok(contexts) => contexts,
        Err(message) => return cx.throw_error(message),
    };
    let value = neon_serde::to_value(&mut cx, &contexts);
    match value.map(|v| v.downcast::<JsArray>()) {
        Ok(Ok(array)) => Ok(array),
        Ok(Err(e)) => cx.throw_error(e.to_string()),
        Err(e) => cx.throw_error(e.to_string()),
    }
}

impl Task for CoalesceTask {
    type Output = Vec<CoalesceContext>;
    type Error = String;
    type JsEvent = JsArray;

    fn perform(&self) -> Result<Vec<CoalesceContext>, String> {
        let (subqueries, opts) = &self.argument;
        coalesce(subqueries.to_vec(), opts).map_err(|err| format!("{}", err))
    }

    fn complete<'a>(
        self,
        cx: TaskContext<'a>,
        result: Result<Vec<CoalesceContext>, String>,
    ) -> JsResult<JsArray> {
        to_array(cx, result)
    }
}

struct StackAndCoalesceTask {
    subqueries: Vec<PhrasematchSubquery<ArcGridStore>>,
    opts: MatchOpts,
}

impl Task for StackAndCoalesceTask {
    type Output = Vec<CoalesceContext>;
    type Error = String;
    type JsEvent = JsArray;

    fn perform(&self) -> Result<Vec<CoalesceContext>, String> {
        stack_and_coalesce(&self.subqueries, &self.opts).map_err(|err| err.to_string())
    }

    fn complete<'a>(
        self,
        cx: TaskContext<'a>,
        result: Result<Vec<CoalesceContext>, String>,
    ) -> JsResult<JsArray> {
        to_array(cx, result)
    }
}

''' + s[j:]
i = s.index("pub fn js_coalesce("); j = s.index("fn deserialize_phrasesubq")
s = s[:i] + '''fn query_arguments<'j>(
    cx: &mut FunctionContext<'j>,
) -> NeonResult<(Vec<PhrasematchSubquery<ArcGridStore>>, MatchOpts, Handle<'j, JsFunction>)> {
    let js_phrase_subq = cx.argument::<JsArray>(0)?;
    let js_match_ops = cx.argument::<JsValue>(1)?;
    let phrase_subq = match deserialize_phrasesubq(cx, js_phrase_subq) {
        Ok(v) => v,
        Err(e) => return cx.throw_type_error(e.to_string()),
    };
    let match_opts: MatchOpts = match neon_serde::from_value(cx, js_match_ops) {
        Ok(v) => v,
        Err(e) => return cx.throw_type_error(e.to_string()),
    };
    let callback = cx.argument::<JsFunction>(2)?;
    Ok((phrase_subq, match_opts, callback))
}

pub fn js_coalesce(mut cx: FunctionContext) -> JsResult<JsUndefined> {
    let (subqueries, opts, callback) = query_arguments(&mut cx)?;
    CoalesceTask { argument: (subqueries, opts) }.schedule(callback);
    Ok(cx.undefined())
}

pub fn js_stack_and_coalesce(mut cx: FunctionContext) -> JsResult<JsUndefined> {
    let (subqueries, opts, callback) = query_arguments(&mut cx)?;
    StackAndCoalesceTask { subqueries, opts }.schedule(callback);
    Ok(JsUndefined::new())
}

''' + s[j:]
def rep(old, new, n=1):
    global s
    assert s.count(old) == n, (s.count(old), old)
    s = s.replace(old, new)
rep('''        let mut out = 0u128;
        for i in 0..lang_array.len() {
            let converted_lang_array =
                lang_array.get(cx, i)?.downcast::<JsNumber>().or_throw(cx)?.value() as usize;
            if converted_lang_array >= 128 {
                continue;
            } else {
                out = out | (1 << converted_lang_array);
            }
        }
        Ok(out)
    } else if let Ok(_) = maybe_lang_array.downcast::<JsNull>() {
        Ok(std::u128::MAX)
    } else if let Ok(_) = maybe_lang_array.downcast::<JsUndefined>() {
        Ok(std::u128::MAX)
    } else {
        cx.throw''', '''        let mut out = 0u128;
        for element in lang_array.to_vec(cx)? {
            let language = element.downcast::<JsNumber>().or_throw(cx)?.value() as usize;
            if language < 128 {
                out |= 1u128 << language;
            }
        }
        Ok(out)
    } else if maybe_lang_array.is_a::<JsNull>() || maybe_lang_array.is_a::<JsUndefined>() {
        Ok(std::u128::MAX)
    } else {
        cx.throw''')
rep('''    let mut i = 0;
    for j in 0..128 {
        let bit = 1u128 << j;
        if lang_set & bit != 0 {
            let num = JsNumber::new(cx, j);
            out.set(cx, i, num).expect("failed to set array slot");
            i += 1;
        }
    }
    out''', '''    let languages = (0u32..128).filter(|j| (lang_set >> j) & 1 == 1);
    for (slot, language) in languages.enumerate() {
        let num = cx.number(language);
        out.set(cx, slot as u32, num).expect("failed to set array slot");
    }
    out''')
rep('''            let finish: Result<(), String> = {
                let lock = cx.lock();
                let mut gridstore = this.borrow_mut(&lock);
                match gridstore.take() {
                    Some(builder) => {
                        builder.finish().map_err(|e| e.to_string())
                    }
                    None => {
                        Err("unable to finish()".to_string())
                    }
                }
            };
''', '''            let taken = cx.borrow_mut(&mut this, |mut builder| builder.take());
            let finish: Result<(), String> = taken
                .ok_or_else(|| "unable to finish()".to_string())
                .and_then(|builder| builder.finish().map_err(|e| e.to_string()));
''')
rep('''                    let out = JsObject::new(&mut cx);
                    let done_label = JsString::new(&mut cx, "done");
                    let done_value = JsBoolean::new(&mut cx, true);
                    out.set(&mut cx, done_label, done_value)?;
                    Ok(out.upcast())''', '''                    let out = cx.empty_object();
                    let done = cx.boolean(true);
                    out.set(&mut cx, "done", done)?;
                    Ok(out.upcast())''')
open(N, 'w').write(s)
