//! pingora-timeout's API on the simulator's timers (deadlines rounded up to 10 ms, never early).
use pin_project_lite::pin_project;
use std::future::Future;
use std::pin::Pin;
use std::task::{self, Poll};
use tokio::time::{Duration, Instant, SimSleep};

pub mod fast_timeout {
    pub use super::{fast_sleep, fast_timeout, FastTimeout};
}
pub use fast_sleep as sleep;
pub use fast_timeout as timeout;

pub trait ToTimeout {
    fn timeout(&self) -> Pin<Box<dyn Future<Output = ()> + Send + Sync>>;
    fn create(d: Duration) -> Self;
}
fn at(d: Duration, tick: u64) -> Pin<Box<dyn Future<Output = ()> + Send + Sync>> {
    let now = Instant::now();
    let dl = now.checked_add(d).unwrap_or_else(|| now + Duration::from_secs(86400 * 365 * 30));
    Box::pin(SimSleep::new(dl, tick))
}
pub struct TokioTimeout(Duration);
impl ToTimeout for TokioTimeout {
    fn timeout(&self) -> Pin<Box<dyn Future<Output = ()> + Send + Sync>> {
        at(self.0, 1_000_000)
    }
    fn create(d: Duration) -> Self {
        TokioTimeout(d)
    }
}
pub struct FastTimeout(Duration);
impl ToTimeout for FastTimeout {
    fn timeout(&self) -> Pin<Box<dyn Future<Output = ()> + Send + Sync>> {
        at(self.0, 10_000_000)
    }
    fn create(d: Duration) -> Self {
        FastTimeout(d)
    }
}
#[derive(Debug)]
pub struct Elapsed;
impl std::fmt::Display for Elapsed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Timeout Elapsed")
    }
}
impl std::error::Error for Elapsed {}

pub fn tokio_timeout<T: Future>(duration: Duration, future: T) -> Timeout<T, TokioTimeout> {
    Timeout::new_with_delay(future, duration)
}
pub fn fast_timeout<T: Future>(duration: Duration, future: T) -> Timeout<T, FastTimeout> {
    Timeout::new_with_delay(future, duration)
}
pub async fn fast_sleep(duration: Duration) {
    at(duration, 10_000_000).await
}
pin_project! {
    #[must_use = "futures do nothing unless you `.await` or poll them"]
    pub struct Timeout<T, F> {
        #[pin]
        value: T,
        #[pin]
        delay: Option<Pin<Box<dyn Future<Output = ()> + Send + Sync>>>,
        callback: F,
    }
}
impl<T, F: ToTimeout> Timeout<T, F> {
    pub(crate) fn new_with_delay(value: T, d: Duration) -> Timeout<T, F> {
        Timeout { value, delay: None, callback: F::create(d) }
    }
}
impl<T: Future, F: ToTimeout> Future for Timeout<T, F> {
    type Output = Result<T::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Self::Output> {
        let mut me = self.project();
        if let Poll::Ready(v) = me.value.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        let delay = me.delay.get_or_insert_with(|| me.callback.timeout());
        match delay.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => Poll::Ready(Err(Elapsed {})),
        }
    }
}
