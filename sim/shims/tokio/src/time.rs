use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::future::{Future, IntoFuture};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use simapi::NoPreempt;

pub use std::time::Duration;
pub use tokio_real::time::Instant;

pub mod error {
    use std::fmt;
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl fmt::Display for Elapsed {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> std::io::Error {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

/// Wakers waiting for a token (timer, socket readiness, signal) of this node.
#[derive(Default)]
struct Slot {
    fired: bool,
    waker: Option<Waker>,
}
struct Table(RefCell<BTreeMap<u64, Slot>>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(RefCell::new(BTreeMap::new()));

pub(crate) fn token_fired(token: u64) {
    let w = {
        let _np = NoPreempt::new();
        let mut t = TABLE.0.borrow_mut();
        match t.get_mut(&token) {
            Some(s) => {
                s.fired = true;
                s.waker.take()
            }
            None => None,
        }
    };
    if let Some(w) = w {
        w.wake();
    }
}
pub(crate) fn token_new() -> u64 {
    let _np = NoPreempt::new();
    let t = unsafe { simapi::sim_token() };
    TABLE.0.borrow_mut().insert(t, Slot::default());
    t
}
pub(crate) fn token_free(t: u64) {
    let s = {
        let _np = NoPreempt::new();
        TABLE.0.borrow_mut().remove(&t)
    };
    drop(s);
}
/// Registers the waker; returns true if the token has fired since the last call.
pub(crate) fn token_poll(t: u64, cx: &mut Context<'_>) -> bool {
    let _np = NoPreempt::new();
    let mut tab = TABLE.0.borrow_mut();
    let Some(s) = tab.get_mut(&t) else { return false };
    if s.fired {
        s.fired = false;
        return true;
    }
    s.waker = Some(cx.waker().clone());
    false
}

/// A timer on the simulated clock. `tick` is the granularity (ns) deadlines are rounded up to.
pub struct SimSleep {
    deadline: Instant,
    tick: u64,
    token: Option<u64>,
    done: bool,
}
impl SimSleep {
    pub fn new(deadline: Instant, tick: u64) -> Self {
        SimSleep { deadline, tick, token: None, done: false }
    }
    fn cancel(&mut self) {
        if let Some(t) = self.token.take() {
            unsafe { simapi::sim_timer_cancel(t) };
            token_free(t);
        }
    }
}
impl Drop for SimSleep {
    fn drop(&mut self) {
        self.cancel();
    }
}
impl Future for SimSleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.done {
            return Poll::Ready(());
        }
        if self.token.is_none() {
            let now = Instant::now();
            let left = self.deadline.saturating_duration_since(now);
            if left.is_zero() && simapi::choose(2, 90) == 0 {
                self.done = true;
                return Poll::Ready(());
            }
            let t = token_new();
            self.token = Some(t);
            let at = simapi::now().saturating_add(u64::try_from(left.as_nanos()).unwrap_or(u64::MAX / 4));
            unsafe { simapi::sim_timer(at, t, self.tick) };
        }
        let t = self.token.unwrap();
        if token_poll(t, cx) {
            self.done = true;
            self.cancel();
            return Poll::Ready(());
        }
        Poll::Pending
    }
}

pub struct Sleep {
    inner: SimSleep,
}
impl fmt::Debug for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sleep")
    }
}
fn far() -> Duration {
    Duration::from_secs(86400 * 365 * 30)
}
fn deadline_of(d: Duration) -> Instant {
    let now = Instant::now();
    now.checked_add(d).unwrap_or_else(|| now + far())
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(deadline_of(d))
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { inner: SimSleep::new(deadline, 1_000_000) }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.inner.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        self.inner.done
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        let me = unsafe { self.get_unchecked_mut() };
        me.inner.cancel();
        me.inner.done = false;
        me.inner.deadline = deadline;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        unsafe { self.map_unchecked_mut(|s| &mut s.inner) }.poll(cx)
    }
}

pin_project_lite::pin_project! {
    #[derive(Debug)]
    pub struct Timeout<T> {
        #[pin]
        value: T,
        #[pin]
        delay: Sleep,
    }
}
impl<T> Timeout<T> {
    pub fn get_ref(&self) -> &T {
        &self.value
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.value
    }
}
impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = self.project();
        if let Poll::Ready(v) = me.value.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match me.delay.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep(d) }
}
pub fn timeout_at<F: IntoFuture>(d: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep_until(d) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    delay: Pin<Box<Sleep>>,
    next: Instant,
    period: Duration,
    missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { delay: Box::pin(sleep_until(start)), next: start, period, missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.delay.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let at = self.next;
                let now = Instant::now();
                self.next = match self.missed {
                    MissedTickBehavior::Burst => at + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => {
                        let mut n = at + self.period;
                        while n <= now {
                            n += self.period;
                        }
                        n
                    }
                };
                let next = self.next;
                self.delay.as_mut().reset(next);
                Poll::Ready(at)
            }
        }
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
        let next = self.next;
        self.delay.as_mut().reset(next);
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
}
