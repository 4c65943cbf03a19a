// index.js over a stand-in for ./native: keys() gives each loop an iterator of its own, over the
// store it was called on.
'use strict';
const Module = require('module');
const path = require('path');
const [file, depthArg] = process.argv.slice(2);
const depth = Number(depthArg);

class GridStore {
    constructor(n, tag) { this.n = n; this.tag = tag; }
    get() {}
}
class GridStoreKeyIterator {
    constructor(store) {
        if (!(store instanceof GridStore)) throw new TypeError('failed downcast');
        this.store = store; this.i = 0;
    }
    next() {
        if (this.i >= this.store.n) return { done: true };
        return { done: false, value: { phrase_id: this.store.tag * 10 + this.i++, lang_set: [0] } };
    }
}
class GridStoreBuilder {}
class FuzzyPhraseSet {}
class FuzzyPhraseSetBuilder {}
const native = {
    GridStore, GridStoreKeyIterator, GridStoreBuilder, FuzzyPhraseSet, FuzzyPhraseSetBuilder,
    coalesce() {}, stackable() {}, stackAndCoalesce() {},
};
const given = Object.assign({}, native);

const load = Module._load;
Module._load = function (request, parent, isMain) {
    if (parent && parent.filename === path.resolve(file) && /native/.test(request)) return native;
    return load.call(this, request, parent, isMain);
};

function broken(what) { console.log('broken: ' + what); process.exit(1); }
const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);

const addon = require(path.resolve(file));
for (const k of Object.keys(given)) if (addon[k] !== given[k]) broken(`${k} is not what the native module exports`);
if (!addon.ENDING_TYPE || addon.ENDING_TYPE.nonPrefix !== 0 || addon.ENDING_TYPE.anyPrefix !== 1 || addon.ENDING_TYPE.wordBoundaryPrefix !== 2) broken('ENDING_TYPE is ' + JSON.stringify(addon.ENDING_TYPE));

let steps = 0;
const states = new Set();
for (let na = 0; na <= 2; na++) {
    for (let nb = 0; nb <= 2; nb++) {
        const expect = (s) => Array.from({ length: s.n }, (_, i) => ({ phrase_id: s.tag * 10 + i, lang_set: [0] }));
        for (const s of [new addon.GridStore(na, 1), new addon.GridStore(nb, 2)]) {
            if (!eq(Array.from(s.keys()), expect(s))) broken(`Array.from over ${s.n} keys`);
            if (!eq([...s.keys()], expect(s))) broken(`spread over ${s.n} keys`);
            const seen = [];
            for (const k of s.keys()) {
                // a loop within the loop has its own iterator
                const inner = [];
                for (const l of s.keys()) inner.push(l);
                if (!eq(inner, expect(s))) broken(`a loop in a loop over ${s.n} keys`);
                seen.push(k);
            }
            if (!eq(seen, expect(s))) broken(`for-of over ${s.n} keys`);
            // what one call of keys() returned can be gone through more than once, also at once
            const keys = s.keys();
            const pairs = [];
            for (const k of keys) for (const l of keys) pairs.push([k, l]);
            const all = expect(s);
            if (!eq(pairs, [].concat(...all.map((k) => all.map((l) => [k, l]))))) broken(`the same keys() in a loop in a loop over ${s.n} keys`);
            if (!eq([...keys], all) || !eq([...keys], all)) broken(`the same keys() again over ${s.n} keys`);
            for (const k of s.keys()) break;
            if (!eq([...s.keys()], expect(s))) broken(`a loop after one that was left`);
        }
        // 0: open over a, 1: open over b, 2..4: advance the first, second, third; the iterators are
        // of one keys() for each store, or of one each
        for (let c = 0; c < 2 * 5 ** depth; c++) {
            const stores = [new addon.GridStore(na, 1), new addon.GridStore(nb, 2)];
            const its = [];
            const one = stores.map((s) => s.keys());
            const shared = c % 2 === 1;
            let r = Math.floor(c / 2);
            for (let d = 0; d < depth; d++) {
                const e = r % 5;
                r = (r - e) / 5;
                steps++;
                if (e < 2) {
                    if (its.length < 3) its.push({ s: stores[e], i: 0, it: (shared ? one[e] : stores[e].keys())[Symbol.iterator]() });
                } else if (its[e - 2]) {
                    const w = its[e - 2];
                    const got = w.it.next();
                    const want = expect(w.s)[w.i];
                    if (want ? got.done || !eq(got.value, want) : !got.done) broken(`step ${d} of sequence ${c} with ${na} and ${nb} keys: ${JSON.stringify(got)}`);
                    w.i = Math.min(w.i + 1, w.s.n);
                }
                states.add(`${na},${nb}:` + its.map((w) => `${w.s.tag}@${w.i}`).join(' '));
            }
        }
    }
}
console.log('steps ' + steps);
for (const s of states) console.log('state ' + s);
console.log('held');
