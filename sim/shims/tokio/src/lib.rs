#![allow(clippy::all)]
//! Simulation runtime exposing tokio's API.
pub use tokio_real::{io, join, pin, select, sync, task_local, try_join};
pub use tokio_real::{main, test};

pub mod macros {
    pub use tokio_real::macros::support;
}
pub mod net;
pub mod runtime;
pub mod signal;
pub mod task;
pub mod time;
pub use task::spawn;

#[doc(hidden)]
pub mod simrt {
    pub use crate::runtime::{blocking_main, worker_main};
}
