use serde::de::{Deserialize, Deserializer};
use serde::ser::{Serialize, Serializer};
use serde::{Deserialize as De, Serialize as Se};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::error::Error;
use std::path::{Path, PathBuf};

type Res<T> = Result<T, Box<dyn Error + Send + Sync>>;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum EndingType {
    NonPrefix = 0,
    AnyPrefix = 1,
    WordBoundaryPrefix = 2,
}

impl Serialize for EndingType {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(*self as u8)
    }
}
impl<'de> Deserialize<'de> for EndingType {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u8::deserialize(d)? {
            0 => Ok(EndingType::NonPrefix),
            1 => Ok(EndingType::AnyPrefix),
            2 => Ok(EndingType::WordBoundaryPrefix),
            n => Err(serde::de::Error::custom(format!("invalid value: {}, expected one of: 0, 1, 2", n))),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Se, De)]
pub struct WordReplacement {
    pub from: String,
    pub to: String,
}

#[derive(Clone, Debug, PartialEq, Se, De)]
pub struct FuzzyMatchResult {
    pub edit_distance: u8,
    pub phrase: Vec<String>,
    pub ending_type: EndingType,
    pub phrase_id_range: (u32, u32),
}

#[derive(Clone, Debug, PartialEq, Se, De)]
pub struct FuzzyWindowResult {
    pub edit_distance: u8,
    pub phrase: Vec<String>,
    pub start_position: usize,
    pub ending_type: EndingType,
    pub phrase_id_range: (u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Output(u64);
impl Output {
    pub fn value(&self) -> u64 {
        self.0
    }
}

#[derive(Clone, Debug)]
pub struct PrefixBin {
    pub first: Output,
    pub last: Output,
    pub size: usize,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Kept {
    pub phrases: Vec<Vec<String>>,
    pub replacements: Vec<WordReplacement>,
}

thread_local! {
    static KEPT: RefCell<HashMap<PathBuf, Kept>> = RefCell::new(HashMap::new());
}

/// for the checker: what was kept under a name
pub fn kept(path: &str) -> Option<Kept> {
    KEPT.with(|k| k.borrow().get(Path::new(path)).cloned())
}
pub fn forget() {
    KEPT.with(|k| k.borrow_mut().clear())
}

#[derive(Debug)]
pub struct FuzzyPhraseSetBuilder {
    path: PathBuf,
    phrases: BTreeMap<Vec<String>, Vec<u32>>,
    count: u32,
    replacements: Vec<WordReplacement>,
}

impl FuzzyPhraseSetBuilder {
    pub fn new<P: AsRef<Path>>(path: P) -> Res<Self> {
        let path = path.as_ref().to_owned();
        if path.to_string_lossy().starts_with("not-a-directory") {
            return Err("path is not a directory".into());
        }
        Ok(FuzzyPhraseSetBuilder { path, phrases: BTreeMap::new(), count: 0, replacements: Vec::new() })
    }

    /// the temporary id of the phrase; a phrase that is there already has the one it had
    pub fn insert<T: AsRef<str>>(&mut self, phrase: &[T]) -> Res<u32> {
        if phrase.is_empty() {
            return Err("empty phrase".into());
        }
        let phrase: Vec<String> = phrase.iter().map(|w| w.as_ref().to_string()).collect();
        let id = self.count;
        let ids = self.phrases.entry(phrase).or_default();
        if let Some(id) = ids.first() {
            return Ok(*id);
        }
        ids.push(id);
        self.count += 1;
        Ok(id)
    }

    pub fn load_word_replacements(&mut self, r: Vec<WordReplacement>) -> Res<()> {
        if r.iter().any(|r| r.from.is_empty()) {
            return Err("empty word".into());
        }
        self.replacements = r;
        Ok(())
    }

    /// the map from temporary ids to final ones
    pub fn finish(self) -> Res<Vec<u32>> {
        let mut map = vec![0; self.count as usize];
        for (i, ids) in self.phrases.values().enumerate() {
            for id in ids {
                map[*id as usize] = i as u32;
            }
        }
        let phrases = self.phrases.into_iter().map(|p| p.0).collect();
        let kept = Kept { phrases, replacements: self.replacements };
        KEPT.with(|k| k.borrow_mut().insert(self.path, kept));
        Ok(map)
    }
}

#[derive(Debug)]
pub struct FuzzyPhraseSet {
    kept: Kept,
}

fn strings<T: AsRef<str>>(p: &[T]) -> Vec<String> {
    p.iter().map(|w| w.as_ref().to_string()).collect()
}

impl FuzzyPhraseSet {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Res<Self> {
        KEPT.with(|k| match k.borrow().get(path.as_ref()) {
            Some(kept) => Ok(FuzzyPhraseSet { kept: kept.clone() }),
            None => Err("no such set".into()),
        })
    }

    pub fn contains<T: AsRef<str>>(&self, phrase: &[T], ending: EndingType) -> Res<bool> {
        if phrase.is_empty() {
            return Err("empty phrase".into());
        }
        let p = strings(phrase);
        Ok(self.kept.phrases.iter().any(|q| match ending {
            EndingType::NonPrefix => *q == p,
            EndingType::WordBoundaryPrefix => q.starts_with(&p),
            EndingType::AnyPrefix => {
                let n = p.len() - 1;
                q.len() >= p.len() && q[..n] == p[..n] && q[n].starts_with(&p[n])
            }
        }))
    }

    pub fn fuzzy_match<T: AsRef<str>>(
        &self,
        phrase: &[T],
        max_word_dist: u8,
        max_phrase_dist: u8,
        ending_type: EndingType,
    ) -> Res<Vec<FuzzyMatchResult>> {
        if phrase.is_empty() {
            return Err("empty phrase".into());
        }
        Ok(vec![FuzzyMatchResult {
            edit_distance: max_word_dist,
            phrase: strings(phrase),
            ending_type,
            phrase_id_range: (max_phrase_dist as u32, self.kept.phrases.len() as u32),
        }])
    }

    pub fn fuzzy_match_windows<T: AsRef<str>>(
        &self,
        phrase: &[T],
        max_word_dist: u8,
        max_phrase_dist: u8,
        ending_type: EndingType,
    ) -> Res<Vec<FuzzyWindowResult>> {
        if phrase.is_empty() {
            return Err("empty phrase".into());
        }
        Ok((0..phrase.len())
            .map(|i| FuzzyWindowResult {
                edit_distance: max_word_dist,
                phrase: strings(&phrase[i..]),
                start_position: i,
                ending_type,
                phrase_id_range: (max_phrase_dist as u32, self.kept.phrases.len() as u32),
            })
            .collect())
    }

    pub fn fuzzy_match_multi<T: AsRef<str>>(
        &self,
        phrases: &[(Vec<T>, EndingType)],
        max_word_dist: u8,
        max_phrase_dist: u8,
    ) -> Res<Vec<Vec<FuzzyMatchResult>>> {
        phrases.iter().map(|(p, e)| self.fuzzy_match(p, max_word_dist, max_phrase_dist, *e)).collect()
    }

    pub fn get_by_phrase_id(&self, id: u32) -> Res<Option<Vec<String>>> {
        if id == 1000 {
            return Err("the set is damaged".into());
        }
        Ok(self.kept.phrases.get(id as usize).cloned())
    }

    /// runs of phrases with the same first letter, cut at the size
    pub fn get_prefix_bins(&self, max_bin_size: usize) -> Res<Vec<PrefixBin>> {
        if max_bin_size == 0 {
            return Err("bins must have a size".into());
        }
        let ps = &self.kept.phrases;
        let mut bins: Vec<PrefixBin> = Vec::new();
        let letter = |i: usize| ps[i][0].chars().next();
        for i in 0..ps.len() {
            match bins.last_mut() {
                Some(b) if b.size < max_bin_size && letter(b.first.0 as usize) == letter(i) => {
                    b.last = Output(i as u64);
                    b.size += 1;
                }
                _ => bins.push(PrefixBin { first: Output(i as u64), last: Output(i as u64), size: 1 }),
            }
        }
        Ok(bins)
    }
}
