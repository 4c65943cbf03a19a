BUGS = []
def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
N = 'native/src/gridstore.rs'
F = 'native/src/fuzzy_phrase.rs'

bug('js-last-language', 'C25', [(N, '''    for j in 0..128 {''', '''    for j in 0..std::mem::size_of::<u128>() as i32 * 8 - 1 {''')],
r'''
fn main() {
    begin();
    let b = builder("s");
    insert(b, 1, &[3., 127.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    assert_eq!(keys(open("s", None)), vec![(1., vec![3., 127.])]);
}
''', 'a key with language 127 (or all languages), listed', 'The last language is missing where keys are listed.', js=True)

bug('js-language-wraps', 'C25', [(N, '''lang_array.get(cx, i)?.downcast::<JsNumber>().or_throw(cx)?.value() as usize;''', '''lang_array.get(cx, i)?.downcast::<JsNumber>().or_throw(cx)?.value() as u32 as u8;''')],
r'''
fn main() {
    begin();
    let b = builder("s");
    insert(b, 1, &[3., 127.], &[ent(1., 1, 1, 1, 1)]);
    insert(b, 2, &[3.0, 259.0, 200.0], &[ent(1., 1, 1, 1, 2)]);
    m(b, "finish", &[]);
    assert_eq!(keys(open("s", None)), vec![(1., vec![3., 127.]), (2., vec![3.])]);
    let b = builder("t");
    insert(b, 2, &[3.0, 260.0], &[ent(1., 1, 1, 1, 2)]);
    m(b, "finish", &[]);
    assert_eq!(keys(open("t", None)), vec![(2., vec![3.])]);
}
''', 'a language number of 256 or more whose low byte is below 128', 'A language number beyond 255 counts as another language instead of none.', js=True)

bug('js-failed-renumber-takes-builder', 'C25', [(N, '''                        match gridstore.as_mut() {
                            Some(builder) => {
                                builder.renumber(slice).map_err(|e| e.to_string())
                            }''', '''                        match gridstore.take() {
                            Some(mut builder) => builder.renumber(slice).map_err(|e| e.to_string()).map(|_| {
                                *gridstore = Some(builder);
                            }),''')],
r'''
fn main() {
    begin();
    let b = builder("s");
    insert(b, 5, &[3.], &[ent(1., 1, 1, 1, 1)]);
    assert!(js::method(b, "renumber", &[js::words(&[0, 1])]).is_err());
    m(b, "renumber", &[js::words(&[0, 1, 2, 3, 4, 9])]);
    m(b, "finish", &[]);
    assert_eq!(keys(open("s", None)), vec![(9., vec![3.])]);
}
''', 'a renumber that fails, then any further call on the builder', 'After a renumber that fails, the builder is gone as if finished.', js=True)

bug('js-languages-toggle', 'C25', [(N, '''                out = out | (1 << converted_lang_array);''', '''                out ^= 1 << converted_lang_array;''')],
r'''
fn main() {
    begin();
    let b = builder("s");
    insert(b, 1, &[3., 5., 3.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    assert_eq!(keys(open("s", None)), vec![(1., vec![3., 5.])]);
}
''', 'a language list that names a language twice', 'A language named twice in a list is left out of it.', js=True)

bug('js-get-empty-undefined', 'C25', [(N, '''                grid_store.get(&key).map(|option| option.map(|iter| iter.collect::<Vec<_>>()))''', '''                grid_store
                    .get(&key)
                    .map(|option| option.map(|iter| iter.collect::<Vec<_>>()).filter(|found| !found.is_empty()))''')],
r'''
fn main() {
    begin();
    let b = builder("s");
    insert(b, 1, &[3.], &[]);
    m(b, "finish", &[]);
    let s = open("s", None);
    assert_eq!(keys(s), vec![(1., vec![3.])]);
    assert_eq!(ids(s, key(1, &[3.])), Some(vec![]));
    assert_eq!(ids(s, key(2, &[3.])), None);
}
''', 'a key with an empty list of entries', 'A key without entries reads as undefined, as if it were not there, though it is listed.', js=True)

bug('js-append-before-key-check', 'C25', [(N, '''                match gridstore.as_mut() {
                    Some(builder) => {
                        builder.append(&key, values).map_err(|e| e.to_string())
                    }''', '''                match gridstore.as_mut() {
                    Some(builder) if values.is_empty() => {
                        builder.insert(&key, values).map_err(|e| e.to_string())
                    }
                    Some(builder) => {
                        builder.append(&key, values).map_err(|e| e.to_string())
                    }''')],
r'''
fn main() {
    begin();
    let b = builder("s");
    insert(b, 1, &[3.], &[ent(1., 1, 1, 1, 7)]);
    m(b, "append", &[key(1, &[3.]), js::array(&[])]);
    m(b, "finish", &[]);
    assert_eq!(ids(open("s", None), key(1, &[3.])), Some(vec![7.]));
}
''', 'an append of no entries to a key that has some', 'Appending nothing removes the entries a key has.', js=True)

bug('js-keys-shared-iterator', 'C25', [('index.js', '''    const out = {};
    out[Symbol.iterator] = () => new addon.GridStoreKeyIterator(this);
    return out;''', '''    const iterator = new addon.GridStoreKeyIterator(this);
    iterator[Symbol.iterator] = () => iterator;
    return iterator;''')],
r'''
const path = require('path'), fs = require('fs'), os = require('os');
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-'));
try {
    fs.copyFileSync(process.argv[2], path.join(dir, 'index.js'));
    fs.writeFileSync(path.join(dir, 'native.js'), `
        class GridStore { constructor(k) { this.k = k; } }
        class GridStoreKeyIterator {
            constructor(s) { this.s = s; this.i = 0; }
            next() { return this.i < this.s.k.length ? { done: false, value: this.s.k[this.i++] } : { done: true }; }
        }
        module.exports = { GridStore, GridStoreKeyIterator };`);
    const addon = require(path.join(dir, 'index.js'));
    const keys = new addon.GridStore([1, 2, 3]).keys();
    // each loop over the keys is an iteration of its own
    const pairs = [];
    for (const a of keys) for (const b of keys) pairs.push([a, b]);
    if (pairs.length !== 9) throw new Error('only ' + JSON.stringify(pairs));
} finally {
    fs.rmSync(dir, { recursive: true });
}
''', 'two iterations over what one call of keys() returned', 'All iterations over what keys() returned share one position.', js='node')

bug('js-exclusions-64', 'C26', [(N, '''            non_overlapping_indexes: non_overlapping_indexes
                .into_iter()
                .map(|n| n as usize)
                .collect(),''', '''            non_overlapping_indexes: non_overlapping_indexes
                .into_iter()
                .map(|n| (n % 64) as usize)
                .collect(),''')],
r'''
fn main() {
    begin();
    for n in ["a", "b"] {
        let b = builder(n);
        insert(b, 1, &[0.], &[ent(1., 1, 1, 1, 1)]);
        m(b, "finish", &[]);
    }
    let w = [[0u16, 0, 63, 63]];
    let a = open("a", Some(settings(6, 0, 0., &w, 7.)));
    let b = open("b", Some(settings(6, 1, 0., &w, 7.)));
    // the two may not stand together
    let subs = [sub(a, 70, 1, 0.5, 10, 1, &[90.]), sub(b, 90, 2, 0.5, 11, 1, &[70.])];
    assert!(ask("stackAndCoalesce", &subs, 6).iter().all(|c| c.get("entries").items().len() == 1));
}
''', 'an excluded index of 64 or more', 'Excluded indexes from 64 on exclude another index instead.', js=True)

bug('js-weight-single', 'C26', [(N, '''            weight: neon_serde::from_value(cx, weight)?,''', '''            weight: neon_serde::from_value::<_, f32>(cx, weight)?.into(),''')],
r'''
fn main() {
    begin();
    let b = builder("a");
    insert(b, 1, &[0.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    let a = open("a", None);
    let got = ask("coalesce", &[sub(a, 0, 1, 0.1, 10, 1, &[])], 6);
    assert_eq!(got[0].get("relev").num(), 0.1);
}
''', 'a weight that single precision does not hold, such as 0.1 or a third', 'Weights lose precision on the way to the library.', js=True)

bug('js-top-mask-bit', 'C26', [(N, '''            mask: neon_serde::from_value(cx, mask)?,''', '''            mask: neon_serde::from_value::<_, f64>(cx, mask)? as i32 as u32,''')],
r'''
fn main() {
    begin();
    let b = builder("a");
    insert(b, 1, &[0.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    let a = open("a", None);
    let got = ask("coalesce", &[sub(a, 0, 1 << 31, 0.5, 10, 1, &[])], 6);
    assert_eq!(got[0].get("mask").num(), 2147483648.0);
}
''', 'a mask with its highest bit set', 'The highest bit of a mask is lost and the others are set.', js=True)

bug('js-null-nearby', 'C26', [(N, '''        let nearby_only: bool = if let Ok(_) = js_nearby_only.downcast::<JsUndefined>() {
            false
        } else {
            js_nearby_only.downcast::<JsBoolean>().or_throw(cx)?.value()
        };''', '''        let nearby_only: bool = match js_nearby_only.downcast::<JsBoolean>() {
            Ok(value) => value.value(),
            Err(_) => false,
        };''')],
r'''
fn main() {
    begin();
    let b = builder("a");
    insert(b, 1, &[0.], &[ent(1., 1, 1, 1, 1)]);
    m(b, "finish", &[]);
    let s = sub(open("a", None), 0, 1, 0.5, 10, 1, &[]);
    js::set(s, "nearby_only", js::string("true"));
    let cb = js::function(|_| {});
    assert!(js::call("coalesce", &[js::array(&[s]), js::object(&[("zoom", num(6))]), cb]).is_err());
    assert_eq!(js::tasks(), 0);
}
''', 'nearby_only given as something other than a boolean', 'A malformed nearby_only is taken for false instead of refused.', js=True)

bug('js-callback-last', 'C26', [(N, '''    let cb = cx.argument::<JsFunction>(2)?;

    let task = CoalesceTask { argument: (phrase_subq, match_opts) };
    task.schedule(cb);
''', '''    let callback = cx.argument::<JsFunction>(2);
    // without subqueries there is nothing to do in the background
    if phrase_subq.is_empty() {
        let callback = callback?;
        let answer = cx.empty_array();
        let arguments: Vec<Handle<JsValue>> = vec![cx.null().upcast(), answer.upcast()];
        let this = cx.null();
        callback.call(&mut cx, this, arguments)?;
        return Ok(cx.undefined());
    }
    let cb = callback?;

    let task = CoalesceTask { argument: (phrase_subq, match_opts) };
    task.schedule(cb);
''')],
r'''
use std::cell::Cell;
use std::rc::Rc;
fn main() {
    begin();
    let called = Rc::new(Cell::new(0));
    let c = called.clone();
    let cb = js::function(move |_| c.set(c.get() + 1));
    js::call("coalesce", &[js::array(&[]), js::object(&[("zoom", num(6))]), cb]).map_err(|e| e.message).unwrap();
    assert_eq!(called.get(), 0);
}
''', 'coalesce of no subqueries', 'For no subqueries the callback is called before the call returns.', js=True)

bug('js-one-bin', 'C27', [(F, '''                    if let Some(bin) = bins.last() {''', '''                    if let Some(bin) = bins.last().filter(|bin| bin.last.value() > bin.first.value()) {''')],
r'''
fn phrase(words: &[&str]) -> Js {
    js::array(&words.iter().map(|w| js::string(w)).collect::<Vec<_>>())
}
fn main() {
    begin();
    let b = js::construct("FuzzyPhraseSetBuilder", &[path("p")]).unwrap();
    m(b, "insert", &[phrase(&["a"])]);
    m(b, "finish", &[]);
    let s = js::construct("FuzzyPhraseSet", &[path("p")]).unwrap();
    assert_eq!(js::look(m(s, "getPrefixBins", &[num(5)])), js::look(js::words(&[0, 1])));
}
''', 'a last bin of one phrase', 'The end of the last bin is left out where it holds a single phrase.', js=True)

bug('js-distance-swapped', 'C27', [(F, '''                set.fuzzy_match_windows(phrase.as_slice(), max_word_dist, max_phrase_dist, ending_type)''', '''                set.fuzzy_match_windows(phrase.as_slice(), max_phrase_dist, max_word_dist, ending_type)''')],
r'''
fn main() {
    begin();
    let b = js::construct("FuzzyPhraseSetBuilder", &[path("p")]).unwrap();
    let p = js::array(&[js::string("main"), js::string("street")]);
    m(b, "insert", &[p]);
    m(b, "finish", &[]);
    let s = js::construct("FuzzyPhraseSet", &[path("p")]).unwrap();
    let a = js::look(m(s, "fuzzyMatchWindows", &[p, num(0), num(1), num(0)]));
    let direct = fuzzy_phrase::glue::FuzzyPhraseSet::from_path(js::to_text(path("p"))).unwrap();
    let want = direct.fuzzy_match_windows(&["main", "street"], 0, 1, fuzzy_phrase::glue::EndingType::NonPrefix).unwrap();
    assert_eq!(a.items().len(), want.len());
    for (x, y) in a.items().iter().zip(&want) {
        assert_eq!(x.get("edit_distance").num(), y.edit_distance as f64);
        assert_eq!(x.get("phrase_id_range").items()[0].num(), y.phrase_id_range.0 as f64);
    }
}
''', 'fuzzyMatchWindows with different bounds for words and phrases', 'The two bounds on distances change places.', js=True)
