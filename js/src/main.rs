//! C25, C26, C27: the JavaScript bindings, /repo/native/src, called as a JavaScript program calls
//! them, on a stand-in for neon whose heap, exceptions, collector and task queue are in our hands.
mod fuzzy;
mod query;
mod side;
mod store;

use mc::ctx::*;

#[global_allocator]
static ALLOC: mc::poison::Poison = mc::poison::Poison;

const MC: &str = "model_checking";

fn main() {
    main_with(&[
        Prop { id: "C25", level: MC, rule: "", run: store::c25 },
        Prop { id: "C26", level: MC, rule: "", run: query::c26 },
        Prop { id: "C27", level: MC, rule: "", run: fuzzy::c27 },
    ])
}
