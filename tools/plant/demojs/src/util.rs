//! Helpers of the demonstrations that call the JavaScript bindings.
#![allow(dead_code)]
pub use neon::js::{self, Exception, Js, Val};
use std::cell::RefCell;
use std::rc::Rc;

pub fn begin() {
    js::start(node_carmen_core::neon_main);
}
pub fn path(name: &str) -> Js {
    js::string(std::env::temp_dir().join(name).to_str().unwrap())
}
pub fn num(v: impl Into<f64>) -> Js {
    js::number(v.into())
}
pub fn nums(v: &[f64]) -> Js {
    js::array(&v.iter().map(|n| js::number(*n)).collect::<Vec<_>>())
}
pub fn key(phrase: u32, langs: &[f64]) -> Js {
    js::object(&[("phrase_id", num(phrase)), ("lang_set", nums(langs))])
}
pub fn ent(relev: f64, score: u8, x: u16, y: u16, id: u32) -> Js {
    js::object(&[("relev", num(relev)), ("score", num(score)), ("x", num(x)), ("y", num(y)), ("id", num(id)), ("source_phrase_hash", num(0))])
}
pub fn builder(name: &str) -> Js {
    js::construct("GridStoreBuilder", &[path(name)]).unwrap()
}
pub fn m(o: Js, name: &str, args: &[Js]) -> Js {
    match js::method(o, name, args) {
        Ok(v) => v,
        Err(e) => panic!("{} threw {}: {}", name, e.kind, e.message),
    }
}
pub fn insert(b: Js, phrase: u32, langs: &[f64], ents: &[Js]) {
    m(b, "insert", &[key(phrase, langs), js::array(ents)]);
}
pub fn settings(zoom: u16, type_id: u16, radius: f64, boxes: &[[u16; 4]], max_score: f64) -> Js {
    let b: Vec<Js> = boxes.iter().map(|b| nums(&b.map(|v| v as f64))).collect();
    js::object(&[("zoom", num(zoom)), ("type_id", num(type_id)), ("coalesce_radius", num(radius)), ("bboxes", js::array(&b)), ("max_score", num(max_score))])
}
pub fn open(name: &str, opts: Option<Js>) -> Js {
    let mut a = vec![path(name)];
    a.extend(opts);
    js::construct("GridStore", &a).unwrap()
}
pub fn keys(store: Js) -> Vec<(f64, Vec<f64>)> {
    let it = js::construct("GridStoreKeyIterator", &[store]).unwrap();
    let mut out = vec![];
    loop {
        let v = js::look(m(it, "next", &[]));
        if v.get("done") == &Val::Bool(true) {
            return out;
        }
        let k = v.get("value");
        out.push((k.get("phrase_id").num(), k.get("lang_set").items().iter().map(|l| l.num()).collect()));
    }
}
pub fn ids(store: Js, k: Js) -> Option<Vec<f64>> {
    match js::look(m(store, "get", &[k])) {
        Val::Arr(v) => Some(v.iter().map(|e| e.get("id").num()).collect()),
        _ => None,
    }
}
/// a subquery for one phrase
pub fn sub(store: Js, idx: u16, mask: u32, weight: f64, id: u32, phrase: u32, excl: &[f64]) -> Js {
    js::object(&[
        ("store", store), ("weight", num(weight)), ("mask", num(mask)), ("idx", num(idx)), ("id", num(id)),
        ("match_key", js::object(&[("match_phrase", js::object(&[("Exact", num(phrase))])), ("lang_set", nums(&[0.]))])),
        ("non_overlapping_indexes", nums(excl)), ("phrase", js::string("main")),
    ])
}
/// calls and waits for the answer
pub fn ask(f: &str, subs: &[Js], zoom: u16) -> Vec<Val> {
    let got: Rc<RefCell<Vec<Val>>> = Rc::new(RefCell::new(vec![]));
    let g = got.clone();
    let cb = js::function(move |a: &[Js]| g.borrow_mut().push(js::look(*a.last().unwrap())));
    js::call(f, &[js::array(subs), js::object(&[("zoom", num(zoom))]), cb]).map_err(|e| e.message).unwrap();
    js::complete(js::perform(js::take_task(0)));
    let v = got.borrow()[0].clone();
    v.items().to_vec()
}
