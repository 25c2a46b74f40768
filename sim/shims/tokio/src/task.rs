use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use simapi::NoPreempt;

use crate::runtime::{context, RtInner};

pub use tokio_real::task::{futures, LocalKey};
pub use tokio_real::task::{consume_budget, unconstrained, Unconstrained};

const IDLE: u8 = 0;
const SCHEDULED: u8 = 1;
const RUNNING: u8 = 2;
const COMPLETE: u8 = 3;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Id(u64);
impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub struct JoinError {
    id: Id,
    repr: Repr,
}
enum Repr {
    Cancelled,
    Panic(std::sync::Mutex<Box<dyn Any + Send + 'static>>),
}
fn panic_text<'a>(p: &'a Box<dyn Any + Send + 'static>) -> Option<&'a str> {
    if let Some(s) = p.downcast_ref::<String>() {
        Some(s)
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        Some(s)
    } else {
        None
    }
}
impl JoinError {
    fn cancelled(id: Id) -> Self {
        JoinError { id, repr: Repr::Cancelled }
    }
    fn panic(id: Id, e: Box<dyn Any + Send + 'static>) -> Self {
        JoinError { id, repr: Repr::Panic(std::sync::Mutex::new(e)) }
    }
    pub fn is_cancelled(&self) -> bool {
        matches!(self.repr, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.repr, Repr::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.try_into_panic().expect("`JoinError` reason is not a panic.")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.repr {
            Repr::Panic(p) => Ok(p.into_inner().unwrap()),
            _ => Err(self),
        }
    }
    pub fn id(&self) -> Id {
        self.id
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "task {} was cancelled", self.id),
            Repr::Panic(p) => match panic_text(&p.lock().unwrap()) {
                Some(t) => write!(f, "task {} panicked with message {:?}", self.id, t),
                None => write!(f, "task {} panicked", self.id),
            },
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "JoinError::Cancelled({:?})", self.id),
            Repr::Panic(p) => match panic_text(&p.lock().unwrap()) {
                Some(t) => write!(f, "JoinError::Panic({:?}, {:?}, ...)", self.id, t),
                None => write!(f, "JoinError::Panic({:?}, ...)", self.id),
            },
        }
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(src: JoinError) -> Self {
        std::io::Error::new(
            std::io::ErrorKind::Other,
            match src.repr {
                Repr::Cancelled => "task was cancelled",
                Repr::Panic(_) => "task panicked",
            },
        )
    }
}

struct JoinCell<T> {
    result: UnsafeCell<Option<Result<T, JoinError>>>,
    waker: UnsafeCell<Option<Waker>>,
    done: Cell<bool>,
    dropped: Cell<bool>,
}
unsafe impl<T: Send> Send for JoinCell<T> {}
unsafe impl<T: Send> Sync for JoinCell<T> {}
impl<T> JoinCell<T> {
    fn finish(&self, r: Result<T, JoinError>) {
        let mut unused = None;
        let waker = {
            let _np = NoPreempt::new();
            self.done.set(true);
            unsafe {
                if self.dropped.get() {
                    unused = Some(r);
                } else {
                    *self.result.get() = Some(r);
                }
                (*self.waker.get()).take()
            }
        };
        let _ = catch_unwind(AssertUnwindSafe(move || drop(unused)));
        if let Some(w) = waker {
            w.wake();
        }
    }
}

pub(crate) enum Outcome {
    Pending,
    Done,
}

pub(crate) trait Body: Send {
    /// Polls; on completion (also by panic) the future is dropped and the result published by `publish`.
    fn poll(&mut self, id: Id, cx: &mut Context<'_>) -> Outcome;
    /// Drops the future and prepares the cancelled result.
    fn cancel(&mut self, id: Id);
    /// Publishes the prepared result to the join handle.
    fn publish(&mut self);
}

struct FutBody<F: Future> {
    fut: Option<Pin<Box<F>>>,
    ready: Option<Result<F::Output, JoinError>>,
    out: Arc<JoinCell<F::Output>>,
}
impl<F: Future + Send> Body for FutBody<F>
where
    F::Output: Send,
{
    fn poll(&mut self, id: Id, cx: &mut Context<'_>) -> Outcome {
        let fut = &mut self.fut;
        let r = catch_unwind(AssertUnwindSafe(|| match fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => {
                *fut = None;
                Some(v)
            }
            Poll::Pending => None,
        }));
        match r {
            Ok(None) => Outcome::Pending,
            Ok(Some(v)) => {
                self.ready = Some(Ok(v));
                Outcome::Done
            }
            Err(p) => {
                let _ = catch_unwind(AssertUnwindSafe(|| *fut = None));
                self.ready = Some(Err(JoinError::panic(id, p)));
                Outcome::Done
            }
        }
    }
    fn cancel(&mut self, id: Id) {
        let fut = &mut self.fut;
        let r = catch_unwind(AssertUnwindSafe(|| *fut = None));
        self.ready = Some(Err(match r {
            Ok(()) => JoinError::cancelled(id),
            Err(p) => JoinError::panic(id, p),
        }));
    }
    fn publish(&mut self) {
        if let Some(r) = self.ready.take() {
            self.out.finish(r);
        }
    }
}

pub(crate) struct TaskCell {
    pub(crate) id: Id,
    pub(crate) rt: Arc<RtInner>,
    blocking: bool,
    state: Cell<u8>,
    cancelled: Cell<bool>,
    notified: Cell<bool>,
    body: UnsafeCell<Option<Box<dyn Body>>>,
}
unsafe impl Send for TaskCell {}
unsafe impl Sync for TaskCell {}

impl TaskCell {
    fn push(self: &Arc<Self>) {
        self.state.set(SCHEDULED);
        let ptr = Arc::into_raw(self.clone()) as u64;
        let kind = if self.blocking { simapi::JOB_BLOCKING } else { simapi::JOB_TASK };
        unsafe { simapi::sim_job_push(kind, ptr, self.id.0) };
    }
    fn wake(self: &Arc<Self>) {
        let _np = NoPreempt::new();
        match self.state.get() {
            IDLE => self.push(),
            RUNNING => self.notified.set(true),
            _ => {}
        }
    }
    pub(crate) fn abort(self: &Arc<Self>) {
        let _np = NoPreempt::new();
        if self.state.get() == COMPLETE || self.cancelled.get() {
            return;
        }
        if self.blocking && self.state.get() == RUNNING {
            return;
        }
        self.cancelled.set(true);
        if self.state.get() == IDLE {
            self.push();
        }
    }
    fn complete(self: &Arc<Self>) {
        let mut body = {
            let _np = NoPreempt::new();
            self.state.set(COMPLETE);
            unsafe { (*self.body.get()).take() }
        };
        if let Some(b) = body.as_mut() {
            b.publish();
        }
        let _ = catch_unwind(AssertUnwindSafe(move || drop(body)));
        self.rt.task_done(self.id.0);
    }
    fn cancel_now(self: &Arc<Self>) {
        self.state.set(RUNNING);
        let body = unsafe { &mut *self.body.get() };
        if let Some(b) = body.as_mut() {
            let _c = context::enter_task(&self.rt, Some(self.id));
            b.cancel(self.id);
        }
        self.complete();
    }
    /// Runs one scheduled job of this task on the current thread.
    pub(crate) fn run(self: &Arc<Self>) {
        let cancelled = {
            let _np = NoPreempt::new();
            if self.state.get() == COMPLETE {
                return;
            }
            self.state.set(RUNNING);
            self.notified.set(false);
            self.cancelled.get()
        };
        if cancelled {
            self.cancel_now();
            return;
        }
        let waker = waker_of(self.clone());
        let mut cx = Context::from_waker(&waker);
        let body = unsafe { &mut *self.body.get() };
        let out = {
            let _c = context::enter_task(&self.rt, Some(self.id));
            body.as_mut().unwrap().poll(self.id, &mut cx)
        };
        match out {
            Outcome::Done => self.complete(),
            Outcome::Pending => {
                // One atomic step, as in the real one: an abort meanwhile must not be lost.
                let cancelled = {
                    let _np = NoPreempt::new();
                    if self.cancelled.get() {
                        true
                    } else {
                        if self.notified.get() {
                            self.notified.set(false);
                            self.push();
                        } else {
                            self.state.set(IDLE);
                        }
                        false
                    }
                };
                if cancelled {
                    self.cancel_now();
                }
            }
        }
    }
    fn done(&self) -> bool {
        self.state.get() == COMPLETE
    }
}

pub(crate) unsafe fn run_raw(ptr: u64) {
    let task = unsafe { Arc::from_raw(ptr as *const TaskCell) };
    task.run();
}

static VTABLE: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);
fn waker_of(t: Arc<TaskCell>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(t) as *const (), &VTABLE)) }
}
unsafe fn w_clone(p: *const ()) -> RawWaker {
    unsafe { Arc::increment_strong_count(p as *const TaskCell) };
    RawWaker::new(p, &VTABLE)
}
unsafe fn w_wake(p: *const ()) {
    let t = unsafe { Arc::from_raw(p as *const TaskCell) };
    t.wake();
}
unsafe fn w_wake_ref(p: *const ()) {
    let t = std::mem::ManuallyDrop::new(unsafe { Arc::from_raw(p as *const TaskCell) });
    t.wake();
}
unsafe fn w_drop(p: *const ()) {
    drop(unsafe { Arc::from_raw(p as *const TaskCell) });
}

#[inline(never)]
fn launch(rt: &Arc<RtInner>, body: Box<dyn Body>, blocking: bool) -> Arc<TaskCell> {
    let np = NoPreempt::new();
    let id = Id(unsafe { simapi::sim_task_key() });
    let task = Arc::new(TaskCell {
        id,
        rt: rt.clone(),
        blocking,
        state: Cell::new(IDLE),
        cancelled: Cell::new(false),
        notified: Cell::new(false),
        body: UnsafeCell::new(Some(body)),
    });
    if rt.add_task(&task) {
        task.push();
        drop(np);
    } else {
        // The runtime is shutting down: the task is dropped on the spot.
        task.state.set(RUNNING);
        drop(np);
        let body = unsafe { &mut *task.body.get() };
        body.as_mut().unwrap().cancel(id);
        task.state.set(COMPLETE);
        let mut b = body.take().unwrap();
        b.publish();
    }
    task
}

pub(crate) fn spawn_on<F>(rt: &Arc<RtInner>, fut: F, blocking: bool) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let out = Arc::new(JoinCell {
        result: UnsafeCell::new(None),
        waker: UnsafeCell::new(None),
        done: Cell::new(false),
        dropped: Cell::new(false),
    });
    let body = Box::new(FutBody { fut: Some(Box::pin(fut)), ready: None, out: out.clone() });
    let task = launch(rt, body, blocking);
    JoinHandle { task, out }
}

#[track_caller]
pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_on(&context::current(), future, false)
}

#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_on(&context::current(), async move { f() }, true)
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    let mut yielded = false;
    std::future::poll_fn(|cx| {
        if yielded {
            return Poll::Ready(());
        }
        yielded = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

pub fn id() -> Id {
    try_id().expect("Can't get a task id when not inside a task")
}
pub fn try_id() -> Option<Id> {
    context::task_id()
}

pub struct JoinHandle<T> {
    task: Arc<TaskCell>,
    out: Arc<JoinCell<T>>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> std::panic::UnwindSafe for JoinHandle<T> {}
impl<T> std::panic::RefUnwindSafe for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.task.abort();
    }
    pub fn is_finished(&self) -> bool {
        self.task.done()
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { task: self.task.clone() }
    }
    pub fn id(&self) -> Id {
        self.task.id
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let _np = NoPreempt::new();
        if self.out.done.get() {
            let r = unsafe { (*self.out.result.get()).take() };
            return Poll::Ready(r.expect("JoinHandle polled after completion"));
        }
        unsafe { *self.out.waker.get() = Some(cx.waker().clone()) };
        Poll::Pending
    }
}
impl<T> Drop for JoinHandle<T> {
    fn drop(&mut self) {
        let r = {
            let _np = NoPreempt::new();
            self.out.dropped.set(true);
            unsafe {
                let w = (*self.out.waker.get()).take();
                (w, (*self.out.result.get()).take())
            }
        };
        drop(r);
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("JoinHandle").field("id", &self.task.id).finish()
    }
}

#[derive(Clone)]
pub struct AbortHandle {
    task: Arc<TaskCell>,
}
impl AbortHandle {
    pub fn abort(&self) {
        self.task.abort();
    }
    pub fn is_finished(&self) -> bool {
        self.task.done()
    }
    pub fn id(&self) -> Id {
        self.task.id
    }
}
impl std::panic::UnwindSafe for AbortHandle {}
impl std::panic::RefUnwindSafe for AbortHandle {}
impl fmt::Debug for AbortHandle {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("AbortHandle").field("id", &self.task.id).finish()
    }
}

/// A set of tasks (simple form).
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { handles: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
    {
        let h = spawn_blocking(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.handles.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.handles.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                self.handles.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut out = Vec::new();
        for h in self.handles.drain(..) {
            out.push(h.await.unwrap());
        }
        out
    }
    pub fn detach_all(&mut self) {
        self.handles.clear();
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
}
