use crate::context::TaskContext;
use crate::handle::Handle;
use crate::heap::{outcome, Pending, STATE};
use crate::result::JsResult;
use crate::types::{JsFunction, Value};
use std::marker::PhantomData;

pub trait Task: Send + Sized + 'static {
    type Output: Send + 'static;
    type Error: Send + 'static;
    type JsEvent: Value;

    fn perform(&self) -> Result<Self::Output, Self::Error>;

    fn complete<'a>(
        self,
        cx: TaskContext<'a>,
        result: Result<Self::Output, Self::Error>,
    ) -> JsResult<'a, Self::JsEvent>;

    /// queues the task; the model checker decides when it runs and when it completes
    fn schedule(self, callback: Handle<JsFunction>) {
        let callback = callback.index();
        let perform = Box::new(move || {
            let result = self.perform();
            Box::new(move || {
                let cx = TaskContext(PhantomData);
                outcome(self.complete(cx, result).map(|h| h.index()))
            }) as Box<dyn FnOnce() -> _ + Send>
        });
        STATE.with(|s| s.borrow_mut().tasks.push(Pending { perform, callback }));
    }
}
