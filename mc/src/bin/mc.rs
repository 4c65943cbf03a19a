#[path = "../props/format.rs"]
mod format;
#[path = "../props/store.rs"]
mod store;
#[path = "../props/durable.rs"]
mod durable;
#[path = "../props/geom.rs"]
mod geom;
#[path = "../props/coal.rs"]
mod coal;
#[path = "../props/stack.rs"]
mod stack;
#[path = "../props/sched.rs"]
mod sched;
#[path = "../props/query.rs"]
mod query;

use mc::ctx::*;

#[global_allocator]
static ALLOC: mc::poison::Poison = mc::poison::Poison;

const MC: &str = "model_checking";

fn main() {
    main_with(&[
        Prop { id: "C01", level: MC, rule: "", run: store::c01 },
        Prop { id: "C02", level: MC, rule: "", run: store::c02 },
        Prop { id: "C03", level: MC, rule: "", run: store::c03 },
        Prop { id: "C04", level: MC, rule: "", run: format::outside },
        Prop { id: "C05", level: MC, rule: "", run: store::c05 },
        Prop { id: "C06", level: MC, rule: "", run: durable::c06 },
        Prop { id: "C07", level: "fault_enumeration", rule: "one case per store and failing storage operation; distinct and non-trivial if the operation that fails is reached and what is observed (the call and how it ends) was not seen before", run: durable::c07 },
        Prop { id: "C08", level: MC, rule: "", run: query::c08 },
        Prop { id: "C09", level: MC, rule: "", run: query::c09 },
        Prop { id: "C10", level: MC, rule: "", run: query::c10 },
        Prop { id: "C11", level: MC, rule: "", run: query::c11 },
        Prop { id: "C12", level: MC, rule: "", run: geom::c12 },
        Prop { id: "C13", level: MC, rule: "", run: geom::c13 },
        Prop { id: "C14", level: MC, rule: "", run: query::c14 },
        Prop { id: "C15", level: MC, rule: "", run: coal::c15 },
        Prop { id: "C16", level: MC, rule: "", run: coal::c16 },
        Prop { id: "C17", level: MC, rule: "", run: coal::c17 },
        Prop { id: "C18", level: MC, rule: "", run: stack::c18 },
        Prop { id: "C19", level: MC, rule: "", run: stack::c19 },
        Prop { id: "C20", level: MC, rule: "", run: coal::c20 },
        Prop { id: "C21", level: MC, rule: "", run: stack::c21 },
        Prop { id: "C22", level: MC, rule: "", run: sched::c22 },
        Prop { id: "C23", level: MC, rule: "", run: stack::c23 },
        Prop { id: "C24", level: MC, rule: "", run: stack::c24 },
    ])
}
