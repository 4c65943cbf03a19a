//! Helpers of the demonstrations.
#![allow(dead_code)]
pub use carmen_core::gridstore::*;
pub use fixedbitset::FixedBitSet;
use std::path::PathBuf;

pub fn path(name: &str) -> PathBuf {
    std::env::temp_dir().join(name)
}
pub fn key(phrase_id: u32, lang_set: u128) -> GridKey {
    GridKey { phrase_id, lang_set }
}
pub fn ent(relev: f64, score: u8, x: u16, y: u16, id: u32, hash: u8) -> GridEntry {
    GridEntry { relev, score, x, y, id, source_phrase_hash: hash }
}
/// builds and opens a store
pub fn store(name: &str, data: &[(GridKey, Vec<GridEntry>)], bins: &[u32], zoom: u16, type_id: u16, radius: f64) -> GridStore {
    let mut b = GridStoreBuilder::new(path(name)).unwrap();
    for (k, v) in data {
        b.insert(k, v.clone()).unwrap();
    }
    b.load_bin_boundaries(bins.to_vec()).unwrap();
    b.finish().unwrap();
    open(name, zoom, type_id, radius)
}
pub fn open(name: &str, zoom: u16, type_id: u16, radius: f64) -> GridStore {
    let max = ((1u32 << zoom) - 1) as u16;
    GridStore::new_with_options(path(name), zoom, type_id, radius, vec![[0, 0, max, max]], 15.0).unwrap()
}
pub fn get(s: &GridStore, k: &GridKey) -> Option<Vec<GridEntry>> {
    s.get(k).unwrap().map(|i| i.collect())
}
pub fn range(start: u32, end: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set }
}
pub fn exact(id: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Exact(id), lang_set }
}
pub fn query(s: &GridStore, k: &MatchKey, o: &MatchOpts, max: usize) -> Vec<MatchEntry> {
    s.streaming_get_matching(k, o, max).unwrap().collect()
}
pub fn opts(zoom: u16) -> MatchOpts {
    MatchOpts { bbox: None, proximity: None, zoom }
}
pub fn with_id(k: MatchKey, id: u32) -> MatchKeyWithId {
    MatchKeyWithId { key: k, id, nearby_only: false, phrase_length: 5 }
}
pub fn sub<'a>(s: &'a GridStore, idx: u16, mask: u32, weight: f64, keys: Vec<MatchKeyWithId>) -> PhrasematchSubquery<&'a GridStore> {
    PhrasematchSubquery {
        store: s,
        idx,
        non_overlapping_indexes: FixedBitSet::with_capacity(128),
        weight,
        mask,
        match_keys: keys,
    }
}
