//! The block of shared memory between the driver and one simulation process.
use simapi::{Fault, Op, Rec, MAX_PARAMS};

pub const SHM_ADDR: usize = 0x6000_0000_0000;
pub const MAX_OPS: usize = 256;
pub const MAX_FAULTS: usize = 64;
pub const MAX_CHOICES: usize = 1 << 17;
pub const MAX_PREEMPTS: usize = 4096;
pub const MAX_RECS: usize = 1 << 16;
pub const MAX_STR: usize = 4 << 20;
pub const MAX_EDGES: usize = 1 << 19;
pub const NPROBES: usize = 64;

pub const ST_NONE: u32 = 0;
pub const ST_END: u32 = 1;
/// Nothing can run any more and nothing is pending.
pub const ST_STUCK: u32 = 2;
pub const ST_CAP_STEPS: u32 = 3;
pub const ST_CAP_EDGES: u32 = 4;
pub const ST_CAP_TIME: u32 = 5;
/// A thread has been waiting for a lock for a long virtual time.
pub const ST_DEADLOCK: u32 = 6;
pub const ST_CAP_LOG: u32 = 7;
/// The simulation process died (abort, stack overflow, ...).
pub const ST_DIED: u32 = 8;
/// The simulation process used too much real processor time.
pub const ST_HANG: u32 = 9;
pub const ST_HOST_ERROR: u32 = 10;

pub fn status_name(s: u32) -> &'static str {
    match s {
        ST_NONE => "none",
        ST_END => "end",
        ST_STUCK => "stuck",
        ST_CAP_STEPS => "step-limit",
        ST_CAP_EDGES => "instruction-limit",
        ST_CAP_TIME => "time-limit",
        ST_DEADLOCK => "deadlock",
        ST_CAP_LOG => "log-limit",
        ST_DIED => "process-died",
        ST_HANG => "hang",
        _ => "host-error",
    }
}

/// A forced preemption: the task `key` is interrupted at its `edge`-th instrumented edge.
#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Preempt {
    pub key: u64,
    pub edge: u64,
    /// How long it stays interrupted: 0 goes to the back of the queue, n > 0: until nothing else
    /// can run, at most n-1 ns of virtual time after that.
    pub park: u64,
    /// The instrumented edge (for the report).
    pub guard: u32,
    pub _pad: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Spec {
    pub scenario: u32,
    pub nodes: u32,
    pub seed: u64,
    /// 1: choices and preemptions are taken from the lists (0/none where they end).
    pub explicit: u32,
    pub workers: u32,
    pub sched: u32,
    /// Chance (of 1000) at a scheduling decision of letting time advance although something can run.
    pub time_jump: u32,
    /// Mean number of edges between preemptions, 0 none.
    pub preempt_mean: u32,
    pub max_preempts: u32,
    /// Upper bound of the virtual time (ns) an interrupted thread may stay parked.
    pub park_max: u64,
    /// Edge targets: guard id and occurrence, 0 none.
    pub target: [u32; 4],
    pub target_n: [u32; 4],
    /// Upper bound of the time (ns) that a thread interrupted at one of them stays parked, 0 none.
    pub target_park: u64,
    /// Interrupt the first times an edge of the code under test is reached, one in so many, 0 none.
    pub rare: u32,
    pub rare_hits: u32,
    /// Interrupt shortly after a wake-up out of these blocks, one in so many, so often at most.
    pub wake: u32,
    pub wake_hits: u32,
    pub wake_from: u32,
    pub wake_to: u32,
    pub lat_base: u64,
    pub lat_jitter: u64,
    pub frag: u32,
    pub sndbuf: u32,
    pub max_steps: u32,
    pub max_time: u64,
    pub max_edges: u64,
    pub nops: u32,
    pub nfaults: u32,
    pub nchoices: u32,
    pub npreempts: u32,
    pub params: [u32; MAX_PARAMS],
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub steps: u64,
    pub choices: u64,
    pub edges: u64,
    pub preempts: u64,
    pub time: u64,
    pub switches: u64,
    pub tasks: u64,
    pub threads: u64,
    pub net_bytes: u64,
    pub net_conns: u64,
    pub net_segments: u64,
    pub sched_hash: u64,
    pub faults: [u64; simapi::fault::NKINDS],
    pub stall: u64,
}

#[repr(C)]
pub struct Shm {
    // input
    pub spec: Spec,
    pub ops: [Op; MAX_OPS],
    pub fault_list: [Fault; MAX_FAULTS],
    pub in_choices: [(u32, u32); MAX_CHOICES],
    pub in_preempts: [Preempt; MAX_PREEMPTS],
    // output
    pub status: u32,
    pub exit: i32,
    pub note_len: u32,
    pub note: [u8; 4096],
    pub stats: Stats,
    pub n_choices: u32,
    pub n_preempts: u32,
    pub n_recs: u32,
    pub n_str: u32,
    pub n_guards: u32,
    pub out_choices: [(u32, u32); MAX_CHOICES],
    pub out_preempts: [Preempt; MAX_PREEMPTS],
    pub recs: [Rec; MAX_RECS],
    pub strs: [u8; MAX_STR],
    pub cov: [u8; MAX_EDGES],
    /// Offset of each guard's code within the node library (filled by the zygote).
    pub pcs: [u64; MAX_EDGES],
    /// Edges that lie in functions of the code under test.
    pub own: [u8; MAX_EDGES],
}

impl Shm {
    pub fn get() -> &'static mut Shm {
        unsafe { &mut *(SHM_ADDR as *mut Shm) }
    }
    pub fn note(&mut self, s: &str) {
        let at = self.note_len as usize;
        let b = s.as_bytes();
        let n = b.len().min(self.note.len() - at);
        self.note[at..at + n].copy_from_slice(&b[..n]);
        self.note_len += n as u32;
    }
}
