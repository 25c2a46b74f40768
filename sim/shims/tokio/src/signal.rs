use std::io;
use std::task::{Context, Poll};

struct Sub(u64);
impl Sub {
    fn new(which: u32) -> Sub {
        let t = crate::time::token_new();
        unsafe { simapi::sim_signal_sub(which, t) };
        Sub(t)
    }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if crate::time::token_poll(self.0, cx) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Sub {
    fn drop(&mut self) {
        crate::time::token_free(self.0);
    }
}

pub async fn ctrl_c() -> io::Result<()> {
    let mut s = Sub::new(1);
    std::future::poll_fn(|cx| s.poll(cx)).await;
    Ok(())
}

pub mod unix {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self {
            SignalKind(n)
        }
        pub const fn as_raw_value(&self) -> i32 {
            self.0
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn quit() -> Self {
            SignalKind(3)
        }
        pub const fn user_defined1() -> Self {
            SignalKind(10)
        }
        pub const fn user_defined2() -> Self {
            SignalKind(12)
        }
    }
    pub struct Signal(Sub);
    impl std::fmt::Debug for Signal {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Signal")
        }
    }
    pub fn signal(kind: SignalKind) -> io::Result<Signal> {
        Ok(Signal(Sub::new(match kind.0 {
            15 => 0,
            2 => 1,
            n => 100 + n as u32,
        })))
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            std::future::poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
            self.0.poll(cx).map(Some)
        }
    }
}
