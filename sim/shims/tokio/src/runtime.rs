use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::io;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

use simapi::{Job, NoPreempt};

use crate::task::{self, JoinHandle, TaskCell};

pub(crate) struct RtInner {
    ct: bool,
    workers: u32,
    shut: Cell<bool>,
    tasks: RefCell<BTreeMap<u64, Arc<TaskCell>>>,
    waiter: Cell<Option<u64>>,
}
unsafe impl Send for RtInner {}
unsafe impl Sync for RtInner {}

impl RtInner {
    pub(crate) fn add_task(&self, t: &Arc<TaskCell>) -> bool {
        if self.shut.get() {
            return false;
        }
        self.tasks.borrow_mut().insert(key_of(t), t.clone());
        true
    }
    pub(crate) fn task_done(&self, key: u64) {
        let _np = NoPreempt::new();
        let t = self.tasks.borrow_mut().remove(&key);
        if self.shut.get() && self.tasks.borrow().is_empty() {
            if let Some(w) = self.waiter.get() {
                unsafe { simapi::sim_unpark(w) };
            }
        }
        drop(t);
    }
}
fn key_of(t: &Arc<TaskCell>) -> u64 {
    // Id is a transparent number; its Display is the key.
    t.id.to_string().parse().unwrap()
}

pub(crate) mod context {
    use super::*;
    use crate::task::Id;
    thread_local! {
        static CTX: RefCell<Option<(Arc<RtInner>, Option<Id>)>> = const { RefCell::new(None) };
    }
    pub(crate) struct Restore(Option<(Arc<RtInner>, Option<Id>)>);
    impl Drop for Restore {
        fn drop(&mut self) {
            let old = self.0.take();
            let _ = CTX.try_with(|c| c.replace(old));
        }
    }
    pub(crate) fn enter_task(rt: &Arc<RtInner>, id: Option<Id>) -> Restore {
        let _np = NoPreempt::new();
        Restore(CTX.with(|c| c.replace(Some((rt.clone(), id)))))
    }
    #[track_caller]
    pub(crate) fn current() -> Arc<RtInner> {
        try_current().expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    }
    pub(crate) fn try_current() -> Option<Arc<RtInner>> {
        let _np = NoPreempt::new();
        CTX.with(|c| c.borrow().as_ref().map(|x| x.0.clone()))
    }
    pub(crate) fn task_id() -> Option<Id> {
        let _np = NoPreempt::new();
        CTX.with(|c| c.borrow().as_ref().and_then(|x| x.1))
    }
}

#[derive(Clone)]
pub struct Handle {
    inner: Arc<RtInner>,
}
impl std::fmt::Debug for Handle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Handle")
    }
}
pub struct TryCurrentError(());
impl std::fmt::Debug for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TryCurrentError")
    }
}
pub struct EnterGuard<'a> {
    _r: context::Restore,
    _p: std::marker::PhantomData<&'a ()>,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
#[non_exhaustive]
pub enum RuntimeFlavor {
    CurrentThread,
    MultiThread,
}

impl Handle {
    #[track_caller]
    pub fn current() -> Handle {
        Handle { inner: context::current() }
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        context::try_current().map(|inner| Handle { inner }).ok_or(TryCurrentError(()))
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        task::spawn_on(&self.inner, f, false)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        task::spawn_on(&self.inner, async move { f() }, true)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard { _r: context::enter_task(&self.inner, None), _p: std::marker::PhantomData }
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        block_on_inner(&self.inner, f)
    }
    pub fn runtime_flavor(&self) -> RuntimeFlavor {
        if self.inner.ct {
            RuntimeFlavor::CurrentThread
        } else {
            RuntimeFlavor::MultiThread
        }
    }
    pub fn metrics(&self) -> RuntimeMetrics {
        RuntimeMetrics { inner: self.inner.clone() }
    }
}

#[derive(Clone)]
pub struct RuntimeMetrics {
    inner: Arc<RtInner>,
}
impl RuntimeMetrics {
    pub fn num_workers(&self) -> usize {
        self.inner.workers.max(1) as usize
    }
    pub fn num_alive_tasks(&self) -> usize {
        let _np = NoPreempt::new();
        self.inner.tasks.borrow().len()
    }
    pub fn global_queue_depth(&self) -> usize {
        0
    }
}

pub struct Builder {
    ct: bool,
    workers: Option<u32>,
}
impl Builder {
    pub fn new_current_thread() -> Builder {
        Builder { ct: true, workers: None }
    }
    pub fn new_multi_thread() -> Builder {
        Builder { ct: false, workers: None }
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, n: usize) -> &mut Self {
        self.workers = Some(n as u32);
        self
    }
    pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_keep_alive(&mut self, _d: Duration) -> &mut Self {
        self
    }
    pub fn event_interval(&mut self, _n: u32) -> &mut Self {
        self
    }
    pub fn global_queue_interval(&mut self, _n: u32) -> &mut Self {
        self
    }
    pub fn on_thread_start<F: Fn() + Send + Sync + 'static>(&mut self, _f: F) -> &mut Self {
        self
    }
    pub fn on_thread_stop<F: Fn() + Send + Sync + 'static>(&mut self, _f: F) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        // 0 means: as many workers as the simulator chose for this run.
        let workers = if self.ct { 0 } else { self.workers.unwrap_or(u32::MAX) };
        let inner = Arc::new(RtInner {
            ct: self.ct,
            workers,
            shut: Cell::new(false),
            tasks: RefCell::new(BTreeMap::new()),
            waiter: Cell::new(None),
        });
        if !self.ct {
            let ptr = Arc::into_raw(inner.clone()) as u64;
            CURRENT_RT.set(ptr);
            unsafe { simapi::sim_rt_start(workers) };
        } else {
            let ptr = Arc::into_raw(inner.clone()) as u64;
            CURRENT_RT.set(ptr);
            unsafe { simapi::sim_rt_start(0) };
        }
        Ok(Runtime { inner })
    }
}

struct Global(Cell<u64>);
unsafe impl Sync for Global {}
impl Global {
    fn set(&self, v: u64) {
        self.0.set(v)
    }
}
static CURRENT_RT: Global = Global(Cell::new(0));
fn current_rt() -> Arc<RtInner> {
    unsafe {
        let p = CURRENT_RT.0.get() as *const RtInner;
        Arc::increment_strong_count(p);
        Arc::from_raw(p)
    }
}

fn run_job(job: &Job) {
    match job.kind {
        simapi::JOB_TASK | simapi::JOB_BLOCKING => unsafe { task::run_raw(job.ptr) },
        simapi::JOB_WAKE => crate::time::token_fired(job.key),
        _ => {}
    }
}

/// Entry point of a worker thread (called by the node library on a host-created thread).
pub fn worker_main() {
    let rt = current_rt();
    let _c = context::enter_task(&rt, None);
    loop {
        let mut job = Job::default();
        unsafe { simapi::sim_next_job(&mut job) };
        if job.kind == simapi::JOB_EXIT {
            return;
        }
        run_job(&job);
    }
}
pub fn blocking_main() {
    worker_main()
}

static PARK_VTABLE: RawWakerVTable = RawWakerVTable::new(p_clone, p_wake, p_wake, p_drop);
unsafe fn p_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &PARK_VTABLE)
}
unsafe fn p_wake(p: *const ()) {
    unsafe { simapi::sim_unpark(p as u64) };
}
unsafe fn p_drop(_p: *const ()) {}

fn block_on_inner<F: Future>(rt: &Arc<RtInner>, f: F) -> F::Output {
    let _c = context::enter_task(rt, None);
    let mut f = std::pin::pin!(f);
    let waker = unsafe { Waker::from_raw(RawWaker::new(simapi::sim_thread() as *const (), &PARK_VTABLE)) };
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        if rt.ct {
            loop {
                let mut job = Job::default();
                unsafe { simapi::sim_next_job(&mut job) };
                if job.kind == simapi::JOB_UNPARKED {
                    break;
                }
                run_job(&job);
            }
        } else {
            unsafe { simapi::sim_park() };
        }
    }
}

pub struct Runtime {
    inner: Arc<RtInner>,
}
impl std::fmt::Debug for Runtime {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Runtime")
    }
}
impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        Builder::new_multi_thread().enable_all().build()
    }
    pub fn handle(&self) -> &Handle {
        // Handle is a transparent wrapper around the same Arc.
        unsafe { &*(&self.inner as *const Arc<RtInner> as *const Handle) }
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        task::spawn_on(&self.inner, f, false)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        task::spawn_on(&self.inner, async move { f() }, true)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        block_on_inner(&self.inner, f)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard { _r: context::enter_task(&self.inner, None), _p: std::marker::PhantomData }
    }
    pub fn metrics(&self) -> RuntimeMetrics {
        RuntimeMetrics { inner: self.inner.clone() }
    }
    pub fn shutdown_timeout(self, _d: Duration) {
        drop(self)
    }
    pub fn shutdown_background(self) {
        drop(self)
    }
}
impl Drop for Runtime {
    fn drop(&mut self) {
        let rt = &self.inner;
        let list: Vec<Arc<TaskCell>> = {
            let _np = NoPreempt::new();
            rt.shut.set(true);
            rt.waiter.set(Some(unsafe { simapi::sim_thread() }));
            rt.tasks.borrow().values().cloned().collect()
        };
        let _c = context::enter_task(rt, None);
        for t in &list {
            t.abort();
        }
        drop(list);
        loop {
            {
                let _np = NoPreempt::new();
                if rt.tasks.borrow().is_empty() {
                    break;
                }
            }
            if rt.ct {
                let mut job = Job::default();
                unsafe { simapi::sim_next_job(&mut job) };
                run_job(&job);
            } else {
                unsafe { simapi::sim_park() };
            }
        }
        unsafe { simapi::sim_rt_stop() };
    }
}
