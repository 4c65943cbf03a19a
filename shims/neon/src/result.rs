use crate::context::Context;
use crate::handle::Handle;
use crate::types::Value;
use std::fmt;

#[derive(Debug)]
pub struct Throw;

impl fmt::Display for Throw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("JavaScript exception thrown")
    }
}
impl std::error::Error for Throw {}

pub type NeonResult<T> = Result<T, Throw>;
pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;

pub trait JsResultExt<'a, V: Value> {
    fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, V>;
}
