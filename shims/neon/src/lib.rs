//! Stand-in for neon 0.7: the JavaScript values live on a heap of this thread, and the functions
//! and classes that a module exports are called by the model checker instead of by node.
//!
//! `js` is the side of the JavaScript program: making values, calling, looking at results, running
//! the scheduled tasks in any order, and collecting objects. Everything else is neon's interface.

pub mod heap;
pub mod js;
pub mod handle;
pub mod types;
pub mod object;
pub mod borrow;
pub mod context;
pub mod result;
pub mod task;
pub mod macros;

pub mod prelude {
    pub use crate::borrow::{Borrow, BorrowMut};
    pub use crate::context::{
        CallContext, CallKind, ComputeContext, Context, ExecuteContext, FunctionContext,
        MethodContext, ModuleContext, TaskContext,
    };
    pub use crate::handle::Handle;
    pub use crate::object::{Class, Object};
    pub use crate::result::{JsResult, JsResultExt, NeonResult};
    pub use crate::task::Task;
    pub use crate::types::{
        BinaryData, JsArray, JsArrayBuffer, JsBoolean, JsBuffer, JsError, JsFunction, JsNull,
        JsNumber, JsObject, JsString, JsUndefined, JsValue, Value,
    };
    pub use crate::{declare_types, register_module};
}

pub mod meta {
    pub const VERSION: &str = "0.7.1";
}
