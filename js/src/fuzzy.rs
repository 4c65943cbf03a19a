//! C27 phrase sets as JavaScript builds and asks them, and what passes from them to stores.
use crate::side::*;
use fuzzy_phrase::glue::{self, EndingType, FuzzyPhraseSet, FuzzyPhraseSetBuilder, WordReplacement};
use mc::ctx::*;
use mc::model::*;

fn jphrase(p: &[&str]) -> Js {
    let v: Vec<Js> = p.iter().map(|w| js::string(w)).collect();
    js::array(&v)
}
fn strs(p: &[String]) -> Val {
    Val::Arr(p.iter().map(|w| Val::Str(w.clone())).collect())
}
fn words_val(v: &[u32]) -> Val {
    Val::Bytes(v.iter().flat_map(|w| w.to_ne_bytes()).collect())
}

const PHRASES: [&[&str]; 6] = [
    &["100", "main", "street"],
    &["100", "main", "ave"],
    &["200", "main", "street"],
    &["3", "mlk", "blvd"],
    &["m\u{fc}nchen", ""],
    &["z"],
];
const ENDINGS: [EndingType; 3] = [EndingType::NonPrefix, EndingType::AnyPrefix, EndingType::WordBoundaryPrefix];

#[derive(Clone, Debug)]
enum Op {
    Insert(usize),
    Replacements(usize),
    Finish,
    /// calls that are refused
    Empty,
    Wrong(&'static str, usize),
    BadReplacements,
}

fn replacements(n: usize) -> Vec<WordReplacement> {
    let r = |a: &str, b: &str| WordReplacement { from: a.into(), to: b.into() };
    match n {
        0 => vec![],
        1 => vec![r("street", "st")],
        _ => vec![r("avenue", "ave"), r("stra\u{df}e", "str"), r("x", "")],
    }
}

fn jreplacements(v: &[WordReplacement]) -> Js {
    let v: Vec<Js> =
        v.iter().map(|r| js::object(&[("from", js::string(&r.from)), ("to", js::string(&r.to))])).collect();
    js::array(&v)
}

fn wrong_phrases() -> Vec<(String, Js)> {
    let mut v: Vec<(String, Js)> = Vec::new();
    for (n, x) in wrong(&["array"]) {
        v.push((format!("phrase {}", n), x));
    }
    for (n, x) in wrong(&["string"]) {
        v.push((format!("word {}", n), js::array(&[x])));
        v.push((format!("later word {}", n), js::array(&[js::string("main"), x])));
    }
    let a = js::array(&[js::string("a"), js::string("b")]);
    js::set_throwing(a, "1");
    v.push(("a word throws".into(), a));
    v
}

fn wrong_endings() -> Vec<(String, Js)> {
    let mut v: Vec<(String, Js)> = Vec::new();
    for (n, x) in wrong(&["number"]) {
        v.push((format!("ending type {}", n), x));
    }
    for bad in [3.0, 255.0, 256.0, -1.0, 0.5, f64::NAN] {
        v.push((format!("ending type {}", bad), num(bad)));
    }
    v
}

fn wrongs(method: &str) -> Vec<(String, Vec<Js>)> {
    let good = || jphrase(PHRASES[0]);
    let mut v: Vec<(String, Vec<Js>)> = vec![("no argument".into(), vec![])];
    match method {
        "insert" => v.extend(wrong_phrases().into_iter().map(|(n, x)| (n, vec![x]))),
        "loadWordReplacements" => {
            for (n, x) in wrong(&["array"]) {
                v.push((format!("replacements {}", n), vec![x]));
            }
            for (n, x) in wrong(&[]) {
                v.push((format!("replacement {}", n), vec![js::array(&[x])]));
            }
            for f in ["from", "to"] {
                let one = || js::object(&[("from", js::string("a")), ("to", js::string("b"))]);
                let o = one();
                js::remove(o, f);
                v.push((format!("no {}", f), vec![js::array(&[one(), o])]));
                let o = one();
                js::set_throwing(o, f);
                v.push((format!("{} throws", f), vec![js::array(&[one(), o])]));
                for (n, x) in wrong(&["string"]) {
                    let o = one();
                    js::set(o, f, x);
                    v.push((format!("{} {}", f, n), vec![js::array(&[o])]));
                }
            }
        }
        "contains" => {
            v.push(("one argument".into(), vec![good()]));
            v.extend(wrong_phrases().into_iter().map(|(n, x)| (n, vec![x, num(0)])));
            v.extend(wrong_endings().into_iter().map(|(n, x)| (n, vec![good(), x])));
            v.push(("empty phrase".into(), vec![js::array(&[]), num(0)]));
        }
        "fuzzyMatch" | "fuzzyMatchWindows" => {
            for n in 1..4 {
                v.push((format!("{} arguments", n), vec![good(), num(1), num(1)][..n].to_vec()));
            }
            v.extend(wrong_phrases().into_iter().map(|(n, x)| (n, vec![x, num(1), num(1), num(0)])));
            for (n, x) in wrong(&["number"]) {
                v.push((format!("word distance {}", n), vec![good(), x, num(1), num(0)]));
                v.push((format!("phrase distance {}", n), vec![good(), num(1), x, num(0)]));
            }
            v.extend(wrong_endings().into_iter().map(|(n, x)| (n, vec![good(), num(1), num(1), x])));
            v.push(("empty phrase".into(), vec![js::array(&[]), num(1), num(1), num(0)]));
        }
        "fuzzyMatchMulti" => {
            let multi = || js::array(&[js::array(&[good(), num(0)])]);
            v.push(("one argument".into(), vec![multi()]));
            v.push(("two arguments".into(), vec![multi(), num(1)]));
            for (n, x) in wrong(&["array"]) {
                v.push((format!("phrases {}", n), vec![x, num(1), num(1)]));
            }
            for (n, x) in wrong(&[]) {
                let l = js::array(&[js::array(&[good(), num(0)]), x]);
                v.push((format!("pair {}", n), vec![l, num(1), num(1)]));
            }
            let l = js::array(&[js::array(&[good()])]);
            v.push(("a pair of one".into(), vec![l, num(1), num(1)]));
            for (n, x) in wrong_phrases() {
                v.push((n, vec![js::array(&[js::array(&[x, num(0)])]), num(1), num(1)]));
            }
            for (n, x) in wrong_endings() {
                v.push((n, vec![js::array(&[js::array(&[good(), x])]), num(1), num(1)]));
            }
            for (n, x) in wrong(&["number"]) {
                v.push((format!("word distance {}", n), vec![multi(), x, num(1)]));
                v.push((format!("phrase distance {}", n), vec![multi(), num(1), x]));
            }
            let l = js::array(&[js::array(&[good(), num(0)]), js::array(&[js::array(&[]), num(0)])]);
            v.push(("an empty phrase among others".into(), vec![l, num(1), num(1)]));
        }
        "getByPhraseId" => {
            v.extend(wrong(&["number"]).into_iter().map(|(n, x)| (format!("id {}", n), vec![x])));
            v.push(("a damaged place".into(), vec![num(1000)]));
        }
        "getPrefixBins" => {
            v.extend(wrong(&["number"]).into_iter().map(|(n, x)| (format!("size {}", n), vec![x])));
            v.push(("size 0".into(), vec![num(0)]));
        }
        _ => unreachable!(),
    }
    v
}

/// One builder through its life, next to the library's own.
fn life(ops: &[&Op], t: &mut Tally) -> Result<(), String> {
    let _session = Session::new();
    let b = js::construct("FuzzyPhraseSetBuilder", &[js::string("set")]).map_err(thrown("new FuzzyPhraseSetBuilder"))?;
    let mut own = Some(FuzzyPhraseSetBuilder::new("own").map_err(|e| e.to_string())?);
    let mut seen: Vec<usize> = Vec::new();
    let finish = |own: &mut Option<FuzzyPhraseSetBuilder>| -> Result<(), String> {
        let r = js::method(b, "finish", &[]);
        match own.take() {
            None => must_throw(|| "finish() again".into(), r),
            Some(o) => {
                let map = o.finish().map_err(|e| e.to_string())?;
                same("finish()", &js::look(r.map_err(thrown("finish"))?), &words_val(&map))?;
                if glue::kept("set") != glue::kept("own") {
                    return Err(format!("the set holds {:?}, expected {:?}", glue::kept("set"), glue::kept("own")));
                }
                Ok(())
            }
        }
    };
    for (i, o) in ops.iter().enumerate() {
        match (o, own.as_mut()) {
            (Op::Insert(p), own) => {
                let r = js::method(b, "insert", &[jphrase(PHRASES[*p])]);
                match own {
                    None => must_throw(|| "insert after finish()".into(), r)?,
                    Some(w) => {
                        let id = w.insert(PHRASES[*p]).map_err(|e| e.to_string())?;
                        same("insert", &js::look(r.map_err(thrown("insert"))?), &Val::Num(id as f64))?;
                        seen.push(*p);
                    }
                }
            }
            (Op::Replacements(n), own) => {
                let r = js::method(b, "loadWordReplacements", &[jreplacements(&replacements(*n))]);
                match own {
                    None => must_throw(|| "loadWordReplacements after finish()".into(), r)?,
                    Some(w) => {
                        w.load_word_replacements(replacements(*n)).map_err(|e| e.to_string())?;
                        must_do(|| "loadWordReplacements".into(), r)?;
                    }
                }
            }
            (Op::Finish, _) => finish(&mut own)?,
            (Op::Empty, _) => must_throw(|| "insert of nothing".into(), js::method(b, "insert", &[js::array(&[])]))?,
            (Op::BadReplacements, _) => {
                let l = js::array(&[js::object(&[("from", js::string("")), ("to", js::string("b"))])]);
                must_throw(|| "a bad replacement".into(), js::method(b, "loadWordReplacements", &[l]))?
            }
            (Op::Wrong(m, which), _) => {
                let (n, a) = wrongs(m).swap_remove(*which);
                must_throw(|| format!("step {}: {}, {}", i, m, n), js::method(b, m, &a))?
            }
        }
        t.state(&(&seen, own.is_some()));
    }
    t.trace(ops.len() as u64);
    if own.is_some() {
        finish(&mut own)?;
    }
    must_throw(|| "finish() again".into(), js::method(b, "finish", &[]))
}

fn fill(which: u64) -> Result<(Js, FuzzyPhraseSet), String> {
    let b = js::construct("FuzzyPhraseSetBuilder", &[js::string("set")]).map_err(thrown("new FuzzyPhraseSetBuilder"))?;
    for i in 0..PHRASES.len() {
        if which >> i & 1 == 1 {
            js::method(b, "insert", &[jphrase(PHRASES[i])]).map_err(thrown("insert"))?;
        }
    }
    js::method(b, "finish", &[]).map_err(thrown("finish"))?;
    let set = js::construct("FuzzyPhraseSet", &[js::string("set")]).map_err(thrown("new FuzzyPhraseSet"))?;
    Ok((set, FuzzyPhraseSet::from_path("set").map_err(|e| e.to_string())?))
}

fn result_val(r: &glue::FuzzyMatchResult) -> Val {
    obj(&[
        ("edit_distance", Val::Num(r.edit_distance as f64)),
        ("phrase", strs(&r.phrase)),
        ("ending_type", Val::Num(r.ending_type as u8 as f64)),
        ("phrase_id_range", Val::Arr(vec![Val::Num(r.phrase_id_range.0 as f64), Val::Num(r.phrase_id_range.1 as f64)])),
    ])
}

pub fn c27(ctx: &mut Ctx) {
    ctx.assume("The bindings run on stand-ins for neon 0.7, neon-serde and fuzzy-phrase (/verif/shims); the stand-in for fuzzy-phrase keeps phrases under a name and its fuzzy searches answer with their own arguments, so that the check sees what reached them.");
    let mut ops: Vec<Op> = (0..4).map(Op::Insert).collect();
    ops.extend([Op::Insert(4), Op::Replacements(1), Op::Replacements(2), Op::Finish, Op::Empty, Op::BadReplacements]);
    let n = ops.len() as u64;
    let depth = ctx.by(4, 5);
    ctx.family(
        "histories",
        &format!("every sequence of {} calls out of {} (insert, loadWordReplacements, finish, and calls that must be refused)", depth, n),
        n.pow(depth),
        |case, t| {
            let mut d = Digits::new(case);
            let list: Vec<&Op> = (0..depth).map(|_| d.pick(&ops)).collect();
            t.sample(|| format!("{:?}", list));
            life(&list, t)
        },
    );
    let ways: Vec<Op> = {
        let _s = Session::new();
        ["insert", "loadWordReplacements"].iter().flat_map(|m| (0..wrongs(m).len()).map(move |i| Op::Wrong(m, i))).collect()
    };
    ctx.family(
        "wrong-calls",
        &format!("{} ways to call the builder wrongly, first, between good calls, after finish()", ways.len()),
        ways.len() as u64 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let w = d.pick(&ways);
            match d.below(3) {
                0 => life(&[w, &ops[0], &ops[5]], t),
                1 => life(&[&ops[3], &ops[5], w, &ops[0]], t),
                _ => life(&[&ops[0], &ops[7], w], t),
            }
        },
    );
    let reads = ["contains", "fuzzyMatch", "fuzzyMatchWindows", "fuzzyMatchMulti", "getByPhraseId", "getPrefixBins"];
    let counts: Vec<usize> = {
        let _s = Session::new();
        reads.iter().map(|m| wrongs(m).len()).collect()
    };
    let total: usize = counts.iter().sum();
    ctx.family("wrong-reads", &format!("{} ways to ask a set wrongly; wrong arguments of the constructors", total), total as u64 + 1, |case, t| {
        let _session = Session::new();
        t.trace(1);
        let mut c = case as usize;
        if c == total {
            for class in ["FuzzyPhraseSet", "FuzzyPhraseSetBuilder"] {
                must_throw(|| format!("new {}()", class), js::construct(class, &[]))?;
                for (n, x) in wrong(&["string"]) {
                    must_throw(|| format!("new {} of {}", class, n), js::construct(class, &[x]))?;
                }
                must_throw(|| format!("new {} of a file", class), js::construct(class, &[js::string("not-a-directory")]))?;
            }
            return must_throw(|| "a set that is not there".into(), js::construct("FuzzyPhraseSet", &[js::string("none")]));
        }
        let mut m = 0;
        while c >= counts[m] {
            c -= counts[m];
            m += 1;
        }
        let (set, _) = fill(7)?;
        let (n, a) = wrongs(reads[m]).swap_remove(c);
        must_throw(|| format!("{}, {}", reads[m], n), js::method(set, reads[m], &a))?;
        let r = js::method(set, "contains", &[jphrase(PHRASES[0]), num(0)]).map_err(thrown("contains"))?;
        same("contains", &js::look(r), &Val::Bool(true))
    });

    // what is asked reaches the library, and what it answers comes back
    let asked: [&[&str]; 8] = [&["100", "main", "street"], &["100", "ma"], &["100", "main"], &["z"], &["m\u{fc}nchen", ""], &["3"], &[""], &["200", "main", "street", "x"]];
    let dists = [(0u8, 0u8), (1, 0), (0, 1), (2, 7), (255, 254)];
    ctx.family(
        "searches",
        &format!("sets of the 64 subsets of {} phrases; {} phrases asked with 3 ending types and {} pairs of distances, in contains, fuzzyMatch, fuzzyMatchWindows, and fuzzyMatchMulti in lists of up to 3", PHRASES.len(), asked.len(), dists.len()),
        64 * 8 * 3 * 5,
        |case, t| {
            let mut d = Digits::new(case);
            let p = asked[d.below(8) as usize];
            let e = d.below(3) as usize;
            let (wd, pd) = dists[d.below(5) as usize];
            let _session = Session::new();
            let (set, own) = fill(d.below(64))?;
            t.state(&(case / 120, p, e));
            t.trace(4);
            let ending = ENDINGS[e];
            let r = js::method(set, "contains", &[jphrase(p), num(e as u32)]).map_err(thrown("contains"))?;
            same("contains", &js::look(r), &Val::Bool(own.contains(p, ending).map_err(|e| e.to_string())?))?;
            let args = || [jphrase(p), num(wd), num(pd), num(e as u32)];
            let r = js::method(set, "fuzzyMatch", &args()).map_err(thrown("fuzzyMatch"))?;
            let want = own.fuzzy_match(p, wd, pd, ending).map_err(|e| e.to_string())?;
            same("fuzzyMatch", &js::look(r), &Val::Arr(want.iter().map(result_val).collect()))?;
            let r = js::method(set, "fuzzyMatchWindows", &args()).map_err(thrown("fuzzyMatchWindows"))?;
            let want = own.fuzzy_match_windows(p, wd, pd, ending).map_err(|e| e.to_string())?;
            let want = want
                .iter()
                .map(|r| {
                    obj(&[
                        ("edit_distance", Val::Num(r.edit_distance as f64)),
                        ("phrase", strs(&r.phrase)),
                        ("start_position", Val::Num(r.start_position as f64)),
                        ("ending_type", Val::Num(r.ending_type as u8 as f64)),
                        ("phrase_id_range", Val::Arr(vec![Val::Num(r.phrase_id_range.0 as f64), Val::Num(r.phrase_id_range.1 as f64)])),
                    ])
                })
                .collect();
            same("fuzzyMatchWindows", &js::look(r), &Val::Arr(want))?;
            for n in 0..4usize {
                let list: Vec<(Vec<&str>, usize)> = (0..n).map(|i| (if i % 2 == 0 { p } else { asked[i] }.to_vec(), (e + i) % 3)).collect();
                let items: Vec<Js> = list.iter().map(|(p, e)| js::array(&[jphrase(p), num(*e as u32)])).collect();
                let r = js::method(set, "fuzzyMatchMulti", &[js::array(&items), num(wd), num(pd)]).map_err(thrown("fuzzyMatchMulti"))?;
                let list: Vec<(Vec<&str>, EndingType)> = list.into_iter().map(|(p, e)| (p, ENDINGS[e])).collect();
                let want = own.fuzzy_match_multi(&list, wd, pd).map_err(|e| e.to_string())?;
                let want = want.iter().map(|l| Val::Arr(l.iter().map(result_val).collect())).collect();
                same("fuzzyMatchMulti", &js::look(r), &Val::Arr(want))?;
            }
            Ok(())
        },
    );
    multi(ctx);
    sizes(ctx);
    bridge(ctx);
}

/// every list of questions, with repetitions
fn multi(ctx: &mut Ctx) {
    let asked: [&[&str]; 4] = [&["100", "main"], &["100", "main", "street"], &["z"], &[]];
    let depth = ctx.by(3usize, 4);
    let n = 12u64;
    let total: u64 = (0..=depth as u32).map(|k| n.pow(k)).sum();
    ctx.family(
        "multi",
        &format!("every list of up to {} questions out of 4 phrases (one of no words) with each ending type, in any order and with repetitions, in fuzzyMatchMulti; 2 sets and 2 pairs of distances", depth),
        total * 2 * 2,
        |case, t| {
            let mut d = Digits::new(case);
            let which = if d.flag() { 63 } else { 21 };
            let (wd, pd) = if d.flag() { (1u8, 2u8) } else { (0, 0) };
            let mut c = d.rest();
            let mut len = 0;
            while c >= n.pow(len) {
                c -= n.pow(len);
                len += 1;
            }
            let mut d = Digits::new(c);
            let list: Vec<(Vec<&str>, usize)> = (0..len).map(|_| (asked[d.below(4) as usize].to_vec(), d.below(3) as usize)).collect();
            let _session = Session::new();
            let (set, own) = fill(which)?;
            t.state(&(which, wd, &list));
            t.trace(1);
            let items: Vec<Js> = list.iter().map(|(p, e)| js::array(&[jphrase(p), num(*e as u32)])).collect();
            let r = js::method(set, "fuzzyMatchMulti", &[js::array(&items), num(wd), num(pd)]);
            let list: Vec<(Vec<&str>, EndingType)> = list.into_iter().map(|(p, e)| (p, ENDINGS[e])).collect();
            match own.fuzzy_match_multi(&list, wd, pd) {
                Ok(want) => {
                    let want = want.iter().map(|l| Val::Arr(l.iter().map(result_val).collect())).collect();
                    same("fuzzyMatchMulti", &js::look(r.map_err(thrown("fuzzyMatchMulti"))?), &Val::Arr(want))
                }
                Err(_) => must_throw(|| "fuzzyMatchMulti, refused by the library".into(), r),
            }
        },
    );
}

/// Long phrases, long lists, large sets.
fn sizes(ctx: &mut Ctx) {
    let ns: Vec<usize> = ctx.by(vec![1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 255, 256, 257, 1000, 1025, 4097], (1..=300).chain([511, 512, 513, 1000, 1024, 1025, 4097]).collect());
    ctx.family(
        "sizes",
        &format!("{} numbers up to {}: of phrases in a set, of words in a phrase, of letters in a word, of phrases asked at once, of replacements; with each ending type; ids, bins of 16 sizes up to 2^53, and the map of finish() of them all", ns.len(), ns.last().unwrap()),
        ns.len() as u64 * 5 * 3,
        |case, t| {
            let mut d = Digits::new(case);
            let n = *d.pick(&ns);
            let what = d.below(5);
            let e = d.below(3) as usize;
            let _session = Session::new();
            let word = |i: usize| format!("w{:05}", (i * 7919) % 100_003);
            let phrases: Vec<Vec<String>> = match what {
                0 => (0..n).map(|i| vec![word(i), word(i / 3)]).collect(),
                1 => (0..3).map(|k| (0..n).map(|i| word(i + k)).collect()).collect(),
                2 => ["a", "\u{e9}", "\u{1F600}"].iter().map(|c| vec![c.repeat(n), "x".into()]).collect(),
                _ => (0..n.min(50)).map(|i| vec![word(i), "street".into()]).collect(),
            };
            let b = js::construct("FuzzyPhraseSetBuilder", &[js::string("set")]).map_err(thrown("new FuzzyPhraseSetBuilder"))?;
            let mut own = FuzzyPhraseSetBuilder::new("own").map_err(|e| e.to_string())?;
            let jp = |p: &Vec<String>| -> Js { jphrase(&p.iter().map(|w| w.as_str()).collect::<Vec<_>>()) };
            for p in &phrases {
                let r = js::method(b, "insert", &[jp(p)]).map_err(thrown("insert"))?;
                let p: Vec<&str> = p.iter().map(|w| w.as_str()).collect();
                same("insert", &js::look(r), &Val::Num(own.insert(&p).map_err(|e| e.to_string())? as f64))?;
            }
            if what == 4 {
                let r: Vec<WordReplacement> = (0..n).map(|i| WordReplacement { from: word(i), to: word(i + 1) }).collect();
                must_do(|| "loadWordReplacements".into(), js::method(b, "loadWordReplacements", &[jreplacements(&r)]))?;
                own.load_word_replacements(r).map_err(|e| e.to_string())?;
            }
            let map = js::method(b, "finish", &[]).map_err(thrown("finish"))?;
            same("finish()", &js::look(map), &words_val(&own.finish().map_err(|e| e.to_string())?))?;
            if glue::kept("set") != glue::kept("own") {
                return Err(format!("the set of {} (kind {}) is not the one that was put in", n, what));
            }
            let set = js::construct("FuzzyPhraseSet", &[js::string("set")]).map_err(thrown("new FuzzyPhraseSet"))?;
            let own = FuzzyPhraseSet::from_path("set").map_err(|e| e.to_string())?;
            let short = |e: String| format!("{:.400}", e);
            for id in [0, 1, phrases.len() / 2, phrases.len() - 1, phrases.len()] {
                // the stand-in's own damaged place
                if id == 1000 {
                    continue;
                }
                let r = js::method(set, "getByPhraseId", &[num(id as u32)]).map_err(thrown("getByPhraseId"))?;
                let want = own.get_by_phrase_id(id as u32).map_err(|e| e.to_string())?;
                same("getByPhraseId", &js::look(r), &want.map_or(Val::Undefined, |p| strs(&p))).map_err(short)?;
            }
            for size in [1usize, 2, 7, 50, 255, 256, 257, 5000, 65_535, 65_536, 65_537, 1 << 24, (1 << 31) + 1, u32::MAX as usize, (1 << 32) + 1, 1 << 53] {
                let r = js::method(set, "getPrefixBins", &[num(size as f64)]).map_err(thrown("getPrefixBins"))?;
                let bins = own.get_prefix_bins(size).map_err(|e| e.to_string())?;
                let mut want: Vec<u32> = bins.iter().map(|b| b.first.value() as u32).collect();
                if let Some(b) = bins.last() {
                    want.push(b.last.value() as u32 + 1);
                }
                same("getPrefixBins", &js::look(r), &words_val(&want)).map_err(short)?;
            }
            let ending = ENDINGS[e];
            let dist = (n % 256) as u8;
            for p in [&phrases[0], &phrases[phrases.len() - 1]] {
                let r = js::method(set, "contains", &[jp(p), num(e as u32)]).map_err(thrown("contains"))?;
                same("contains", &js::look(r), &Val::Bool(own.contains(p, ending).map_err(|e| e.to_string())?))?;
                let r = js::method(set, "fuzzyMatch", &[jp(p), num(dist), num(1), num(e as u32)]).map_err(thrown("fuzzyMatch"))?;
                let want = own.fuzzy_match(p, dist, 1, ending).map_err(|e| e.to_string())?;
                same("fuzzyMatch", &js::look(r), &Val::Arr(want.iter().map(result_val).collect())).map_err(short)?;
            }
            let list: Vec<(Vec<String>, EndingType)> = (0..if what == 3 { n } else { 3 }).map(|i| (phrases[i % phrases.len()].clone(), ENDINGS[(e + i) % 3])).collect();
            let items: Vec<Js> = list.iter().enumerate().map(|(i, (p, _))| js::array(&[jp(p), num(((e + i) % 3) as u32)])).collect();
            let r = js::method(set, "fuzzyMatchMulti", &[js::array(&items), num(dist), num(0)]).map_err(thrown("fuzzyMatchMulti"))?;
            let want = own.fuzzy_match_multi(&list, dist, 0).map_err(|e| e.to_string())?;
            same("fuzzyMatchMulti", &js::look(r), &Val::Arr(want.iter().map(|l| Val::Arr(l.iter().map(result_val).collect())).collect())).map_err(short)?;
            t.state(&(n, what));
            t.trace(phrases.len() as u64 + 12);
            Ok(())
        },
    );
}

/// From phrases to a store: the ids that insert() gave, renumbered by the map of finish(), are the
/// ids the set gives, and the boundaries of its bins are those of the store.
fn bridge(ctx: &mut Ctx) {
    let np = PHRASES.len();
    let sizes = [1u32, 2, 3, 100];
    let orders = permutations(np);
    let orders: Vec<&Vec<usize>> = orders.iter().collect();
    ctx.family(
        "bridge",
        &format!("{} phrases inserted in each of {} orders, the first 0 to {} of them, with one repeated or not; a store keyed by the ids of insert(), renumbered by the map of finish(), with the bins of each of {} sizes", np, orders.len(), np, sizes.len()),
        (orders.len() * (np + 1) * 2) as u64,
        |case, t| {
            let mut d = Digits::new(case);
            let order = &orders[d.below(orders.len() as u64) as usize];
            let n = d.below(np as u64 + 1) as usize;
            let again = d.flag();
            let _session = Session::new();
            let s = Scratch::new();
            let fb = js::construct("FuzzyPhraseSetBuilder", &[js::string("set")]).map_err(thrown("new FuzzyPhraseSetBuilder"))?;
            let gb = js::construct("GridStoreBuilder", &[js::string(s.path().to_str().unwrap())]).map_err(thrown("new GridStoreBuilder"))?;
            let ent = |p: usize| Ent::new(3, p as u8, p as u16, 1, p as u32, 0);
            let mut list: Vec<usize> = order[..n].to_vec();
            if again && n > 0 {
                list.push(list[0]);
            }
            for p in &list {
                let id = js::method(fb, "insert", &[jphrase(PHRASES[*p])]).map_err(thrown("insert"))?;
                let k = js::object(&[("phrase_id", id), ("lang_set", js::array(&[num(2)]))]);
                must_do(|| "append".into(), js::method(gb, "append", &[k, jents(&[ent(*p)])]))?;
            }
            let map = js::method(fb, "finish", &[]).map_err(thrown("finish"))?;
            must_do(|| "renumber".into(), js::method(gb, "renumber", &[map]))?;
            let set = js::construct("FuzzyPhraseSet", &[js::string("set")]).map_err(thrown("new FuzzyPhraseSet"))?;
            let own = FuzzyPhraseSet::from_path("set").map_err(|e| e.to_string())?;
            let mut sorted: Vec<usize> = order[..n].to_vec();
            sorted.sort_by(|a, b| PHRASES[*a].cmp(PHRASES[*b]));
            for id in 0..n as u32 + 2 {
                let got = js::look(js::method(set, "getByPhraseId", &[num(id)]).map_err(thrown("getByPhraseId"))?);
                let want = match sorted.get(id as usize) {
                    Some(p) => Val::Arr(PHRASES[*p].iter().map(|w| Val::Str(w.to_string())).collect()),
                    None => Val::Undefined,
                };
                same("getByPhraseId", &got, &want)?;
            }
            let mut bins = None;
            for size in sizes {
                let b = js::method(set, "getPrefixBins", &[num(size)]).map_err(thrown("getPrefixBins"))?;
                let own = own.get_prefix_bins(size as usize).map_err(|e| e.to_string())?;
                let mut want: Vec<u32> = own.iter().map(|b| b.first.value() as u32).collect();
                if let Some(b) = own.last() {
                    want.push(b.last.value() as u32 + 1);
                }
                same("getPrefixBins", &js::look(b), &words_val(&want))?;
                if size == [1, 2, 3, 100][case as usize % 4] {
                    bins = Some(b);
                }
            }
            must_do(|| "loadBinBoundaries".into(), js::method(gb, "loadBinBoundaries", &[bins.unwrap()]))?;
            // what happens to the buffers later is nothing to the store
            js::fill_words(bins.unwrap(), 7);
            js::fill_words(map, 7);
            must_do(|| "finish".into(), js::method(gb, "finish", &[]))?;
            t.state(&(&order[..n], again));
            t.trace(list.len() as u64 + 5);
            let mut c = Content::new();
            for (i, p) in sorted.iter().enumerate() {
                c.insert((i as u32, 4), [ent(*p)].into_iter().collect());
            }
            check_both(&s, &c)
        },
    );
}
