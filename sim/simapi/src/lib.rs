//! The boundary between a simulated node (hydra + runtime shim + scenario code, one copy of the
//! node library per node) and the simulator host. All functions are defined by the host program.
#![allow(clippy::missing_safety_doc)]

pub mod ev;

pub const JOB_EXIT: u32 = 0;
pub const JOB_TASK: u32 = 1;
pub const JOB_WAKE: u32 = 2;
pub const JOB_UNPARKED: u32 = 3;
pub const JOB_BLOCKING: u32 = 4;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Job {
    pub kind: u32,
    pub _pad: u32,
    pub ptr: u64,
    pub key: u64,
}

/// One recorded event of a run's history.
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Rec {
    pub time: u64,
    pub node: u16,
    pub kind: u16,
    pub actor: u32,
    pub a: [i64; 6],
    pub s_off: u32,
    pub s_len: u32,
}

/// One scripted operation. Scenarios interpret every field modulo what they need, so that any
/// combination of numbers is a valid operation and smaller numbers are simpler.
pub type Op = [u32; 8];

pub const MAX_PARAMS: usize = 32;

/// One planned fault.
#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Fault {
    /// 0: at virtual time `at` (us), 1: at the `at`-th history record.
    pub trigger: u32,
    pub kind: u32,
    pub at: u64,
    pub a: [u32; 4],
}

pub mod fault {
    pub const NONE: u32 = 0;
    /// Partition between machine a0 and a1 for a2 us (both directions).
    pub const PARTITION: u32 = 1;
    /// One-way: traffic from a0 to a1 stalls for a2 us.
    pub const ONEWAY: u32 = 2;
    /// Reset every connection between a0 and a1.
    pub const RESET: u32 = 3;
    /// Kill node process a0; peers see the connections close (a1: 0 FIN, 1 RST, 2 silent machine crash).
    /// Restarted after a2 us if a2 > 0.
    pub const CRASH: u32 = 4;
    /// Node a0 does not run for a1 us.
    pub const PAUSE: u32 = 5;
    /// Extra latency a2 us on the link a0 -> a1 for a3 us.
    pub const SLOW: u32 = 6;
    /// New connections from a0 to a1 are refused for a2 us.
    pub const REFUSE: u32 = 7;
    /// Signal a1 (0 SIGTERM, 1 SIGINT) to node a0.
    pub const SIGNAL: u32 = 8;
    /// One of the connections between a0 and a1 closes its a->b direction only (half close).
    pub const HALFCLOSE: u32 = 9;
    pub const NKINDS: usize = 10;
    pub const NAMES: [&str; NKINDS] = [
        "none", "partition", "oneway_stall", "reset", "crash", "pause", "slow_link", "refuse_connect", "signal", "half_close",
    ];
}

extern "C" {
    // ---- identity, time, history, choices
    pub fn sim_node() -> u32;
    pub fn sim_incarnation() -> u32;
    pub fn sim_node_count() -> u32;
    pub fn sim_now() -> u64;
    pub fn sim_log(kind: u32, actor: u32, a: *const i64, n: usize, s: *const u8, len: usize);
    pub fn sim_choose(n: u32, site: u32) -> u32;
    /// From now on nothing is delayed or interrupted any more.
    pub fn sim_calm();
    /// A possible preemption.
    pub fn sim_point();
    pub fn sim_nopreempt(delta: i32);
    /// Ends the run.
    pub fn sim_end() -> !;
    pub fn sim_script(params: *mut *const u32, ops: *mut *const Op, nops: *mut usize);
    pub fn sim_scenario() -> u32;
    /// A per-run derived number, the same for equal `salt`.
    pub fn sim_derive(salt: u64) -> u64;

    // ---- executor
    pub fn sim_rt_start(workers: u32);
    pub fn sim_rt_stop();
    pub fn sim_task_key() -> u64;
    pub fn sim_job_push(kind: u32, ptr: u64, key: u64);
    pub fn sim_next_job(out: *mut Job);
    pub fn sim_thread() -> u64;
    pub fn sim_park();
    pub fn sim_unpark(thread: u64);
    pub fn sim_task_edges_begin(key: u64);

    // ---- timers: the token is posted as JOB_WAKE to the calling node.
    pub fn sim_token() -> u64;
    pub fn sim_timer(at: u64, token: u64, tick: u64);
    pub fn sim_timer_cancel(token: u64);

    // ---- network (errors are negative errno)
    pub fn sim_net_bind(ip: u32, port: u16, token: u64) -> i64;
    pub fn sim_net_accept(h: i64, ip: *mut u32, port: *mut u16, rtok: u64, wtok: u64) -> i64;
    pub fn sim_net_connect(ip: u32, port: u16, rtok: u64, wtok: u64) -> i64;
    /// 0 connected, -EINPROGRESS, or -errno
    pub fn sim_net_connected(h: i64) -> i64;
    pub fn sim_net_read(h: i64, buf: *mut u8, len: usize, peek: u32) -> i64;
    pub fn sim_net_write(h: i64, buf: *const u8, len: usize) -> i64;
    pub fn sim_net_shutdown(h: i64) -> i64;
    pub fn sim_net_close(h: i64, abort: u32);
    /// side 0 local, 1 peer
    pub fn sim_net_addr(h: i64, side: u32, ip: *mut u32, port: *mut u16) -> i64;

    /// Connections of this node to machine `peer`: out[0] established ones with this side open,
    /// out[1] those with both sides open, out[2] ns since there was one (0: now, MAX: never).
    pub fn sim_net_info(peer: u32, out: *mut u64);

    /// From now on connections are in the history: NET_UP [connection, from, to] when the listener has
    /// it, NET_CLOSE [connection, node] when a side closes it.
    pub fn sim_net_trace();

    // ---- what everybody knows without being told over the simulated network
    pub fn sim_board_put(key: u64, p: *const u8, n: usize);
    /// The length, -1 if there is nothing.
    pub fn sim_board_get(key: u64, p: *mut u8, cap: usize) -> i64;

    // ---- signals
    pub fn sim_signal_sub(which: u32, token: u64);
    /// Cluster control from scenario code: applies a fault now.
    pub fn sim_fault(f: *const Fault);
}

pub fn node() -> u32 {
    unsafe { sim_node() }
}
pub fn now() -> u64 {
    unsafe { sim_now() }
}
pub fn choose(n: u32, site: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe { sim_choose(n, site) }
}

/// While alive, the current thread is not preempted.
pub struct NoPreempt(());
impl NoPreempt {
    #[inline(never)]
    pub fn new() -> Self {
        unsafe { sim_nopreempt(1) };
        NoPreempt(())
    }
}
impl Default for NoPreempt {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for NoPreempt {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { sim_nopreempt(-1) };
    }
}
