"""More rewrites that change nothing (see r1.py): stackable, common, spatial, format, bindings."""
G = '/repo/rust-src/src/gridstore/'
def edit(f, *pairs):
    p = f if f.startswith('/') else G + f
    s = open(p).read()
    for old, new in pairs:
        assert s.count(old) >= 1, (f, s.count(old), old)
        s = s.replace(old, new)
    open(p, 'w').write(s)

edit('stackable.rs',
('''    relev_map: HashMap<OrderedFloat<f64>, (usize, Vec<ArenaIndex>)>,
    min_relev: OrderedFloat<f64>,''', '''    buckets: BTreeMap<OrderedFloat<f64>, (usize, Vec<ArenaIndex>)>,
    min_relev: OrderedFloat<f64>,'''),
('''            relev_map: HashMap::new(),''', '''            buckets: BTreeMap::new(),'''),
('''use std::collections::{BTreeMap, HashMap};''', '''use std::collections::BTreeMap;'''),
('''        let is_leaf = node.children.len() == 0;
        let old_total_leaves = self.total_leaves;

        if old_total_leaves >= self.soft_max && max_relev < self.min_relev {
            // we're constrained, and this is worse than our worst, so don't keep it
            None
        } else {
            // we're definitely going to add this
            let arena_index = self.arena.insert(node);

            let mut relev_entry = self.relev_map.entry(max_relev).or_insert((0, Vec::new()));

            if is_leaf {
                relev_entry.0 += 1;
                self.total_leaves += 1;
            }
            relev_entry.1.push(arena_index);

            if old_total_leaves < self.soft_max {
                // this was an unconstrained add, so just update min if necessary and move on
                if max_relev < self.min_relev {
                    self.min_relev = max_relev;
                }
            } else {
                // this was a constrained add. if we inserted into the min bucket, we're done,
                // but if we added to some better bin than that, we may be able to cull the min
                // bucket and choose a new min
                if max_relev > self.min_relev {
                    // if we're inserting into a bin other than the worst one, we might be able
                    // to cull the worst one
                    let min_count =
                        self.relev_map.get(&self.min_relev).expect("must contain min_relev").0;
                    let total_without_min = self.total_leaves - min_count;
                    if total_without_min >= self.soft_max {
                        // we can make due without the minimum bin
                        self.cull_min();
                    }
                }
            }
            Some(arena_index)
        }
    }
''', '''        let leaves = if node.is_leaf() { 1 } else { 0 };
        let constrained = self.is_full();

        if constrained && max_relev < self.min_relev {
            return None;
        }
        let arena_index = self.arena.insert(node);
        self.total_leaves += leaves;
        let bucket = self.buckets.entry(max_relev).or_default();
        bucket.0 += leaves;
        bucket.1.push(arena_index);

        if !constrained {
            self.min_relev = self.min_relev.min(max_relev);
        } else if max_relev > self.min_relev {
            let worst = self.buckets[&self.min_relev].0;
            if self.total_leaves >= self.soft_max + worst {
                self.cull_min();
            }
        }
        Some(arena_index)
    }
'''),
('''        if let Some((min_leaf_count, min_nodes)) = self.relev_map.remove(&self.min_relev) {''',
 '''        if let Some((min_leaf_count, min_nodes)) = self.buckets.remove(&self.min_relev) {'''),
('''            self.relev_map.keys().min().map(|min| *min).unwrap_or(OrderedFloat(std::f64::MAX));''',
 '''            self.buckets.keys().next().copied().unwrap_or(OrderedFloat(std::f64::MAX));'''),
('''    let mut sum_so_far = 0.0;
    for bin in binned_phrasematches.iter_mut().rev() {
        bin.max_relev_after_this = OrderedFloat(sum_so_far);
        sum_so_far = sum_so_far + *bin.max_relev;
    }
''', '''    binned_phrasematches.iter_mut().rev().fold(0.0, |after, bin| {
        bin.max_relev_after_this = OrderedFloat(after);
        after + *bin.max_relev
    });
'''),
('''            if (node.mask & phrasematch.mask) == 0
                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
            {
                let target_relev''', '''            if !conflicts(&node, phrasematch) {
                let target_relev'''),
('''                let target_mask = &phrasematch.mask | node.mask;
                let mut target_bmask: FixedBitSet = node.bmask.clone();
                target_bmask.union_with(&phrasematch.non_overlapping_indexes);
''', '''                let target_mask = node.mask | phrasematch.mask;
                let mut target_bmask = phrasematch.non_overlapping_indexes.clone();
                target_bmask.union_with(&node.bmask);
'''),
('''fn binned_stackable<'b,''', '''/// Whether a phrasematch can't follow this node.
fn conflicts<T: Borrow<GridStore> + Clone + Debug>(
    node: &StackableNode<T>,
    pm: &PhrasematchSubquery<T>,
) -> bool {
    pm.mask & node.mask != 0 || pm.non_overlapping_indexes.contains(usize::from(node.idx))
}

fn binned_stackable<'b,'''),
)

edit('common.rs',
('''        if self.heap.len() >= self.max_size {
            if let Some(min) = self.heap.peek_min() {
                if element > *min {
                    self.heap.replace_min(element);
                    return true;
                }
            }
        } else {
            self.heap.push(element);
            return true;
        }
        false
    }
''', '''        if self.len() < self.max_size {
            self.heap.push(element);
            return true;
        }
        match self.heap.peek_min() {
            Some(min) if element > *min => {
                self.heap.pop_min();
                self.heap.push(element);
                true
            }
            _ => false,
        }
    }
'''),
('''        let key_lang_partial = &db_key[5..];
        if key_lang_partial.len() == 0 {
            // 0-length language array is the shorthand for "matches everything"
            return Ok(true);
        }

        let mut key_lang_full = [0u8; 16];
        key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);

        let key_lang_set: u128 = (&key_lang_full[..]).read_u128::<BigEndian>()?;

        Ok(self.lang_set & key_lang_set != 0)
''', '''        let stored = &db_key[5..];
        Ok(stored.is_empty()
            || stored.iter().fold(0u128, |set, byte| (set << 8) | u128::from(*byte))
                & self.lang_set
                != 0)
'''),
('''            _ => {
                let lang_set = self.lang_set.to_be_bytes();
                let iter = lang_set.iter().skip_while(|byte| **byte == 0u8);
                db_key.extend(iter);
            }
''', '''            set => {
                let skip = set.leading_zeros() as usize / 8;
                db_key.extend_from_slice(&set.to_be_bytes()[skip..]);
            }
'''),
('''            if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
            if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
''', '''            prox[0].saturating_sub(padding),
            prox[1].saturating_sub(padding),
'''),
('''            let item = it.next();
            if let Some(val) = item {
                let k = key(&val);
                match &curr_key {
                    None => {
                        curr_key = Some(k);
                        running_group.push(val);
                    }
                    Some(o) => {
                        if *o != k {
                            let mut out_vec = Vec::new();
                            std::mem::swap(&mut out_vec, &mut running_group);
                            let to_return = Some((*o, out_vec));

                            running_group.push(val);
                            curr_key = Some(k);

                            return to_return;
                        } else {
                            running_group.push(val);
                        }
                    }
                };
            } else {
                match &curr_key {
                    None => return None,
                    Some(o) => {
                        let mut out_vec = Vec::new();
                        std::mem::swap(&mut out_vec, &mut running_group);
                        let to_return = Some((*o, out_vec));

                        done = true;
                        return to_return;
                    }
                }
            }
''', '''            match it.next() {
                Some(val) => {
                    let k = key(&val);
                    let previous = curr_key.replace(k);
                    match previous {
                        Some(old) if old != k => {
                            let group = std::mem::replace(&mut running_group, vec![val]);
                            return Some((old, group));
                        }
                        _ => running_group.push(val),
                    }
                }
                None => {
                    done = true;
                    return curr_key.map(|k| (k, std::mem::take(&mut running_group)));
                }
            }
'''),
)

edit('spatial.rs',
('''    let start = match coord_binary_search(&coords, max, 0) {
        Ok(v) => v,
        Err(_) => return None,
    };
    let mut end = match coord_binary_search(&coords, min, start) {
        Ok(v) => v,
        Err(_) => return None,
    };

    if end == (len as u32) {
        end -= 1;
    }
''', '''    let start = coord_binary_search(&coords, max, 0).ok()?;
    let end = coord_binary_search(&coords, min, start).ok()?.min(len as u32 - 1);
'''),
('''    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        }
        None
    }))
''', '''    let (first, last) = range;
    Some(
        (first..=last)
            .map(move |idx| coords.get(idx as usize))
            .filter(move |grid| inside(grid.coord, &bbox)),
    )
'''),
('''        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        } else {
            return None;
        };
''', '''        let grid = coords.get(idx as usize);
        if inside(grid.coord, &bbox) {
            Some(grid)
        } else {
            None
        }
'''),
('''        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;
        morton_distance_1.abs() < morton_distance_2.abs()
''', '''        (i64::from(a.coord) - prox_pt).abs() < (i64::from(b.coord) - prox_pt).abs()
'''),
('''    let mut base = offset;
    while size > 1 {
        let half = size / 2;
        let mid = base + half;
        let coord = coords.get(mid as usize).coord;
        base = if coord < val { base } else { mid };
        size -= half;
    }
''', '''    let mut base = offset;
    loop {
        if size <= 1 {
            break;
        }
        let half = size >> 1;
        if coords.get((base + half) as usize).coord >= val {
            base += half;
        }
        size -= half;
    }
'''),
('''/// Generate an Iterator for a bounding box over a Coord Vector
''', '''fn inside(coord: u32, bbox: &[u16; 4]) -> bool {
    let (x, y) = deinterleave_morton(coord);
    (bbox[0]..=bbox[2]).contains(&x) && (bbox[1]..=bbox[3]).contains(&y)
}

/// Generate an Iterator for a bounding box over a Coord Vector
'''),
)

s = open(G + 'gridstore_format.rs').read()
old = '''        let mut len_buf = [0u8; 8];
        let len_len = (s.len() as u32).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
'''
assert s.count(old) >= 3
s = s.replace(old, '        self.put_len(s.len());\n')
s = s.replace('''    pub fn finish(self) -> Vec<u8> {
        self.data
    }
''', '''    fn put_len(&mut self, len: usize) {
        let at = self.data.len();
        self.data.resize(at + 8, 0);
        let used = (len as u32).encode_var(&mut self.data[at..]);
        self.data.truncate(at + used);
    }

    pub fn finish(self) -> Vec<u8> {
        self.data
    }
''', 1)
open(G + 'gridstore_format.rs', 'w').write(s)

F = '/repo/native/src/fuzzy_phrase.rs'
s = open(F).read()
old = '''            let js_phrase = cx.argument::<JsValue>(0)?;
            let phrase: Vec<String> = match neon_serde::from_value(&mut cx, js_phrase) {
                Ok(v) => v,
                Err(e) => return cx.throw_type_error(e.to_string())
            };
'''
assert s.count(old) >= 4
s = s.replace(old, '            let phrase: Vec<String> = decode(&mut cx, 0)?;\n')
old = '''                let js_ending_type = cx.argument::<JsValue>(3)?;'''
s = s.replace('''            let js_ending_type = cx.argument::<JsValue>(3)?;
            let ending_type: EndingType = match neon_serde::from_value(&mut cx, js_ending_type) {
                Ok(v) => v,
                Err(e) => return cx.throw_type_error(e.to_string())
            };
''', '            let ending_type: EndingType = decode(&mut cx, 3)?;\n')
old = '''                    let mut buffer = JsArrayBuffer::new(&mut cx, (bare_ids.len() * std::mem::size_of::<u32>()) as u32)?;
                    let lock = cx.lock();
                    let result = match buffer.try_borrow_mut(&lock) {
                        Ok(data) => {
                            let slice = data.as_mut_slice::<u32>();
                            slice.copy_from_slice(bare_ids.as_slice());

                            Ok(())
                        },
                        Err(e) => Err(e.to_string())
                    };

                    match result {
                        Ok(()) => Ok(buffer.upcast()),
                        Err(e) => cx.throw_type_error(e.to_string())
                    }
'''
assert old in s
s = s.replace(old, '''                    let buffer = ids_to_buffer(&mut cx, &bare_ids)?;
                    Ok(buffer.upcast())
''')
s = s.replace('''declare_types! {''', '''fn decode<'a, T: Object, D: serde::de::DeserializeOwned>(
    cx: &mut CallContext<'a, T>,
    i: i32,
) -> NeonResult<D> {
    let js = cx.argument::<JsValue>(i)?;
    neon_serde::from_value(cx, js).or_else(|e| cx.throw_type_error(e.to_string()))
}

fn ids_to_buffer<'a, C: Context<'a>>(cx: &mut C, ids: &[u32]) -> JsResult<'a, JsArrayBuffer> {
    let mut buffer = JsArrayBuffer::new(cx, (ids.len() * 4) as u32)?;
    cx.borrow_mut(&mut buffer, |data| data.as_mut_slice::<u32>().copy_from_slice(ids));
    Ok(buffer)
}

declare_types! {''', 1)
open(F, 'w').write(s)

open('/repo/index.js', 'w').write("""'use strict';

const addon = require('./native');

class Keys {
    constructor(store) { this.store = store; }
    [Symbol.iterator]() { return new addon.GridStoreKeyIterator(this.store); }
}

addon.GridStore.prototype.keys = function keys() {
    return new Keys(this);
};

Object.assign(addon, {
    ENDING_TYPE: { nonPrefix: 0, anyPrefix: 1, wordBoundaryPrefix: 2 },
});

module.exports = addon;
""")
