//! What a JavaScript program holds and sees.
use carmen_core::gridstore::*;
use mc::model::*;
pub use neon::js::{self, Exception, Js, Val};

/// A fresh JavaScript process with the module loaded.
pub struct Session(());

impl Session {
    pub fn new() -> Session {
        fuzzy_phrase::glue::forget();
        js::start(node_carmen_core::neon_main);
        Session(())
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        js::end();
    }
}

/// A `lang_set` as it is written in JavaScript.
#[derive(Clone, Debug, PartialEq)]
pub enum Langs {
    List(Vec<u32>),
    Null,
    Undefined,
    Missing,
}

impl Langs {
    pub fn of(set: u128) -> Langs {
        Langs::List((0..128).filter(|b| set >> b & 1 == 1).collect())
    }
    /// the set it means
    pub fn set(&self) -> u128 {
        match self {
            Langs::List(v) => v.iter().filter(|l| **l < 128).fold(0, |s, l| s | 1u128 << l),
            _ => u128::MAX,
        }
    }
    pub fn put(&self, o: Js) {
        match self {
            Langs::List(v) => {
                let items: Vec<Js> = v.iter().map(|l| js::number(*l as f64)).collect();
                js::set(o, "lang_set", js::array(&items))
            }
            Langs::Null => js::set(o, "lang_set", js::null()),
            Langs::Undefined => js::set(o, "lang_set", js::undefined()),
            Langs::Missing => {}
        }
    }
}

pub fn num(v: impl Into<f64>) -> Js {
    js::number(v.into())
}

pub fn jkey(phrase: u32, l: &Langs) -> Js {
    let o = js::object(&[("phrase_id", num(phrase))]);
    l.put(o);
    o
}

pub fn jent(g: &GridEntry) -> Js {
    js::object(&[
        ("relev", num(g.relev)),
        ("score", num(g.score)),
        ("x", num(g.x)),
        ("y", num(g.y)),
        ("id", num(g.id)),
        ("source_phrase_hash", num(g.source_phrase_hash)),
    ])
}

pub fn jents(es: &[Ent]) -> Js {
    let v: Vec<Js> = es.iter().map(|e| jent(&e.grid())).collect();
    js::array(&v)
}

pub fn obj(props: &[(&str, Val)]) -> Val {
    let mut v: Vec<(String, Val)> = props.iter().map(|p| (p.0.to_string(), p.1.clone())).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Val::Obj(v)
}

pub fn ent_val(g: &GridEntry) -> Val {
    obj(&[
        ("relev", Val::Num(g.relev)),
        ("score", Val::Num(g.score as f64)),
        ("x", Val::Num(g.x as f64)),
        ("y", Val::Num(g.y as f64)),
        ("id", Val::Num(g.id as f64)),
        ("source_phrase_hash", Val::Num(g.source_phrase_hash as f64)),
    ])
}

pub fn langs_val(set: u128) -> Val {
    Val::Arr((0..128).filter(|b| set >> b & 1 == 1).map(|b| Val::Num(b as f64)).collect())
}

pub fn key_val(k: &GridKey) -> Val {
    obj(&[("phrase_id", Val::Num(k.phrase_id as f64)), ("lang_set", langs_val(k.lang_set))])
}

pub fn thrown(what: &str) -> impl FnOnce(Exception) -> String + '_ {
    move |e| format!("{} threw {}: {}", what, e.kind, e.message)
}

pub fn same(what: &str, got: &Val, want: &Val) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:.700}, expected {:.700}", what, format!("{:?}", got), format!("{:?}", want)))
    }
}

/// the call throws, and leaves no exception or task behind
pub fn must_throw(what: impl Fn() -> String, r: Result<Js, Exception>) -> Result<(), String> {
    match r {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{} returned {:?} where it had to throw", what(), js::look(v))),
    }
}

/// the call returns undefined
pub fn must_do(what: impl Fn() -> String, r: Result<Js, Exception>) -> Result<(), String> {
    match r {
        Ok(v) if js::look(v) == Val::Undefined => Ok(()),
        Ok(v) => Err(format!("{} returned {:?}", what(), js::look(v))),
        Err(e) => Err(thrown(&what())(e)),
    }
}

/// `new GridStore(path)` or, with settings, `new GridStore(path, settings)`
pub fn open_js(s: &Scratch, conf: Option<&Conf>) -> Result<Js, String> {
    let path = js::string(s.path().to_str().unwrap());
    match conf {
        None => js::construct("GridStore", &[path]),
        Some(c) => js::construct("GridStore", &[path, settings(c)]),
    }
    .map_err(thrown("new GridStore"))
}

pub fn settings(c: &Conf) -> Js {
    let boxes: Vec<Js> =
        c.bboxes.iter().map(|b| js::array(&b.map(|v| num(v)))).collect();
    js::object(&[
        ("zoom", num(c.zoom)),
        ("type_id", num(c.type_id)),
        ("coalesce_radius", num(c.radius)),
        ("bboxes", js::array(&boxes)),
        ("max_score", num(c.max_score)),
    ])
}

/// what `for (const key of store.keys())` sees
pub fn keys_js(store: Js) -> Result<Vec<Val>, String> {
    let it = js::construct("GridStoreKeyIterator", &[store]).map_err(thrown("keys()"))?;
    let mut out = Vec::new();
    while let Some(v) = next_js(it)? {
        out.push(v);
        if out.len() > 100_000 {
            return Err("the keys do not end".into());
        }
    }
    Ok(out)
}

/// one step of an iterator
pub fn next_js(it: Js) -> Result<Option<Val>, String> {
    let v = js::look(js::method(it, "next", &[]).map_err(thrown("next()"))?);
    match v.get("done") {
        Val::Bool(false) => {
            same("the result of next()", &v, &obj(&[("done", Val::Bool(false)), ("value", v.get("value").clone())]))?;
            Ok(Some(v.get("value").clone()))
        }
        Val::Bool(true) => {
            if v.get("value") != &Val::Undefined {
                return Err(format!("next() ends with {:?}", v));
            }
            Ok(None)
        }
        _ => Err(format!("next() gives {:?}", v)),
    }
}

/// The store at this path, through the library and through JavaScript, holds exactly this content.
pub fn check_both(s: &Scratch, want: &Content) -> Result<(), String> {
    let g = GridStore::new(s.path()).map_err(es("open"))?;
    check_content(&g, want)?;
    let store = open_js(s, None)?;
    let listed: Vec<GridKey> = g.keys().collect::<Result<_, _>>().map_err(es("keys"))?;
    let got = keys_js(store)?;
    same("keys()", &Val::Arr(got), &Val::Arr(listed.iter().map(key_val).collect()))?;
    for (k, v) in want {
        let got = js::method(store, "get", &[jkey(k.0, &Langs::of(k.1))]).map_err(thrown("get"))?;
        let want = Val::Arr(v.iter().rev().map(|e| ent_val(&e.grid())).collect());
        same(&format!("get {:?}", k), &js::look(got), &want)?;
    }
    Ok(())
}

/// things that are none of the types asked for
pub fn wrong(but: &[&str]) -> Vec<(&'static str, Js)> {
    let all: Vec<(&'static str, Js)> = vec![
        ("undefined", js::undefined()),
        ("null", js::null()),
        ("boolean", js::boolean(true)),
        ("number", js::number(1.0)),
        ("string", js::string("1")),
        ("array", js::array(&[js::null()])),
        ("object", js::object(&[("a", js::number(1.0))])),
        ("function", js::function(|_| {})),
    ];
    all.into_iter().filter(|p| !but.contains(&p.0)).collect()
}
