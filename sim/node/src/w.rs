//! What all scenarios share: the script, the history, the actors' table.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use hydra::{ExitReason, Pid, Process};
pub use simapi::{ev, NoPreempt, Op};

pub fn log(kind: u32, actor: u32, a: &[i64], s: &str) {
    unsafe { simapi::sim_log(kind, actor, a.as_ptr(), a.len(), s.as_ptr(), s.len()) }
}
pub fn params() -> &'static [u32] {
    unsafe {
        let (mut p, mut o, mut n) = (std::ptr::null(), std::ptr::null(), 0);
        simapi::sim_script(&mut p, &mut o, &mut n);
        std::slice::from_raw_parts(p, simapi::MAX_PARAMS)
    }
}
pub fn p(i: usize, m: u32) -> u32 {
    params()[i] % m
}
pub fn ops() -> &'static [Op] {
    unsafe {
        let (mut p, mut o, mut n) = (std::ptr::null(), std::ptr::null(), 0);
        simapi::sim_script(&mut p, &mut o, &mut n);
        if n == 0 {
            return &[];
        }
        std::slice::from_raw_parts(o, n)
    }
}
pub fn now() -> u64 {
    simapi::now()
}
pub fn now_us() -> i64 {
    (simapi::now() / 1000) as i64
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn end() -> ! {
    log(ev::FINISH, 0, &[], "");
    unsafe { simapi::sim_end() }
}
pub fn calm() {
    unsafe { simapi::sim_calm() }
}
pub fn bad(actor: u32, what: &str) {
    log(ev::BAD, actor, &[], what);
}
pub async fn sleep(n_ms: u64) {
    tokio::time::sleep(ms(n_ms)).await
}

/// A lock never held across an interruption.
pub struct Cell<T>(Mutex<T>);
impl<T> Cell<T> {
    pub const fn new(v: T) -> Self {
        Cell(Mutex::new(v))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _np = NoPreempt::new();
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
}

/// Logs the end of an actor: when its code can run no more.
pub struct Death(pub u32);
impl Drop for Death {
    fn drop(&mut self) {
        log(ev::DEATH, self.0, &[], "");
        DEAD.fetch_add(1, Ordering::SeqCst);
    }
}
pub static DEAD: AtomicU32 = AtomicU32::new(0);
pub static DONE: AtomicU32 = AtomicU32::new(0);
static COUNTER: AtomicU64 = AtomicU64::new(1);
pub fn fresh() -> i64 {
    let _np = NoPreempt::new();
    COUNTER.fetch_add(1, Ordering::SeqCst) as i64
}

pub static PIDS: Cell<Vec<Option<Pid>>> = Cell::new(Vec::new());
/// Whether this node tells the other ones about its processes.
pub static PUBLISH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_pid(aid: u32, pid: Pid) {
    if PUBLISH.load(Ordering::SeqCst) {
        let b = rmp_serde::to_vec(&pid).unwrap();
        unsafe { simapi::sim_board_put(aid as u64, b.as_ptr(), b.len()) }
    }
    PIDS.with(|v| {
        if v.len() <= aid as usize {
            v.resize(aid as usize + 1, None);
        }
        v[aid as usize] = Some(pid);
    })
}
pub fn pid_of(aid: u32) -> Option<Pid> {
    PIDS.with(|v| v.get(aid as usize).copied().flatten())
}
/// The number of the actor with this pid, -1 if unknown.
pub fn aid_of(pid: Pid) -> i64 {
    PIDS.with(|v| v.iter().position(|p| *p == Some(pid)).map(|p| p as i64).unwrap_or(-1))
}
pub fn reason_code(r: &ExitReason) -> i64 {
    match r {
        ExitReason::Normal => 0,
        ExitReason::Kill => 1,
        ExitReason::Ignore => 2,
        ExitReason::Custom(_) => 3,
    }
}
pub fn reason_text(r: &ExitReason) -> String {
    match r {
        ExitReason::Normal => "normal".into(),
        ExitReason::Kill => "kill".into(),
        ExitReason::Ignore => "ignore".into(),
        ExitReason::Custom(s) => s.clone(),
    }
}
/// Spawns an actor known by number before its code can run.
pub fn actor<F>(aid: u32, f: F) -> Pid
where
    F: std::future::Future<Output = ()> + Send + 'static,
{
    let d = Death(aid);
    let pid = Process::spawn(async move {
        let _d = d;
        set_pid(aid, Process::current());
        log(ev::START, aid, &[], "");
        f.await;
        log(ev::RETURN, aid, &[], "");
    });
    set_pid(aid, pid);
    log(ev::SPAWN, aid, &[], "");
    pid
}
/// Waits until `n` actors have ended their scripts or died, at most `max_ms`.
pub async fn wait_done(n: u32, max_ms: u64) {
    let t = now() + max_ms * 1_000_000;
    while DONE.load(Ordering::SeqCst) < n && now() < t {
        sleep(5).await;
    }
    calm();
}
/// Marks the script of an actor as over, also when the actor dies.
pub struct Script(pub u32, pub bool);
impl Script {
    pub fn over(&mut self) {
        if !self.1 {
            self.1 = true;
            log(ev::SCRIPT_END, self.0, &[], "");
            DONE.fetch_add(1, Ordering::SeqCst);
        }
    }
}
impl Drop for Script {
    fn drop(&mut self) {
        if !self.1 {
            self.1 = true;
            DONE.fetch_add(1, Ordering::SeqCst);
        }
    }
}
pub fn ops_of(aid: u32, k: u32) -> Vec<Op> {
    ops().iter().filter(|o| o[1] % k == aid).copied().collect()
}
/// A message body that can be checked on arrival.
pub fn body(id: u64, size: u32) -> Vec<u8> {
    (0..size as u64).map(|i| (id.wrapping_mul(31).wrapping_add(i * 7) >> (i % 5)) as u8).collect()
}
pub async fn pause(kind: u32) {
    match kind % 6 {
        0 | 1 => {}
        2 => tokio::task::yield_now().await,
        3 => {
            for _ in 0..3 {
                tokio::task::yield_now().await
            }
        }
        4 => sleep(1).await,
        _ => sleep(1 + (kind as u64 / 6) % 20).await,
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let intended = text.starts_with("intended") || EXPECTING.with(|e| e.get() > 0);
        log(ev::PANIC, 0, &[intended as i64], &format!("{} @ {}", text, loc));
    }));
}

thread_local! {
    static EXPECTING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Runs code that may legally panic.
pub fn expecting<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    EXPECTING.with(|e| e.set(e.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    EXPECTING.with(|e| e.set(e.get() - 1));
    r.map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
/// Spawned processes beyond the core actors, numbered from 10.
pub static NEXT: AtomicU32 = AtomicU32::new(10);
pub fn newborn() -> Option<u32> {
    let _np = NoPreempt::new();
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    (n < 45).then_some(n)
}
/// Some actor: core ones and children alike.
pub fn any(k: u32, o: u32) -> u32 {
    let n = NEXT.load(Ordering::SeqCst).min(45);
    let t = o % (k + (n - 10));
    if t < k {
        t
    } else {
        10 + t - k
    }
}
/// What makes a spawned process an actor: the guard moves into the future before it is spawned.
pub struct Kid {
    pub me: u32,
    _d: Death,
}
impl Kid {
    pub fn new(me: u32) -> Self {
        Kid { me, _d: Death(me) }
    }
    pub async fn run<F: std::future::Future<Output = ()>>(self, f: F) {
        set_pid(self.me, Process::current());
        log(ev::START, self.me, &[], "");
        f.await;
        log(ev::RETURN, self.me, &[], "");
    }
}
/// Starts `k` actors that all wait for each other before their scripts begin.
pub async fn core<F, G>(k: u32, named: bool, mut f: F)
where
    F: FnMut(u32) -> G,
    G: std::future::Future<Output = ()> + Send + 'static,
{
    let go = std::sync::Arc::new(tokio::sync::Semaphore::new(0));
    let ready = std::sync::Arc::new(AtomicU32::new(0));
    for i in 0..k {
        let (go, ready) = (go.clone(), ready.clone());
        let g = f(i);
        actor(i, async move {
            if named && Process::register(Process::current(), format!("actor{}", i)).is_err() {
                bad(i, "cannot register a free name");
            }
            ready.fetch_add(1, Ordering::SeqCst);
            let _ = go.acquire().await.map(|p| p.forget());
            g.await;
        });
    }
    let t = now() + 5_000_000_000;
    while ready.load(Ordering::SeqCst) < k && now() < t {
        sleep(1).await;
    }
    go.add_permits(k as usize);
}
