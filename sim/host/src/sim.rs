//! The simulator proper: runs inside one forked process per simulated execution. Real threads of
//! real code, of which exactly one runs at any moment; this module decides which.
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

use simapi::{fault, Fault, Job, Rec};

use crate::net::Net;
use crate::shm::*;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// What CLOCK_MONOTONIC and CLOCK_REALTIME show at simulated time zero.
pub const MONO_BASE: u64 = 400 * 86_400 * SEC;
pub const REAL_BASE: u64 = 1_700_000_000 * SEC;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93))
}
pub fn mix3(a: u64, b: u64, c: u64) -> u64 {
    mix2(mix2(a, b), c)
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State {
    Running,
    Ready,
    /// Waiting for a job (`u`: also for an unpark).
    Idle { unpark: bool },
    Parked,
    Futex { addr: usize, since: u64, timeout: bool },
    Sleep,
    /// Interrupted at an arbitrary point.
    Preempted { park: u64, armed: bool },
    Dead,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Main,
    Worker,
    Blocking,
}

pub struct Thread {
    pub id: usize,
    pub node: usize,
    pub inc: u32,
    pub kind: Kind,
    pub state: State,
    pub go: AtomicU32,
    pub seq: u64,
    pub gen: u64,
    pub np: i32,
    /// Spinning: it runs only when nothing else can.
    pub yielded: bool,
    pub token: bool,
    pub job: Option<Job>,
    pub task: u64,
    pub edges: u64,
    pub next_preempt: u64,
    /// What the next interruption is to last, if it follows a wake-up.
    pub late: u64,
    /// The last block of hydra's own code it went through.
    pub last_own: u32,
    pub futex_result: i64,
    pub lib: usize,
}

thread_local! {
    pub static CUR: Cell<*mut Thread> = const { Cell::new(std::ptr::null_mut()) };
    pub static IN_HOST: Cell<u32> = const { Cell::new(0) };
}

pub struct Host(());
impl Host {
    pub fn enter() -> Host {
        IN_HOST.with(|c| c.set(c.get() + 1));
        Host(())
    }
}
impl Drop for Host {
    fn drop(&mut self) {
        IN_HOST.with(|c| c.set(c.get() - 1));
    }
}
/// The simulated thread running, if the caller is one and not already inside the host.
pub fn sim_thread_active() -> Option<&'static mut Thread> {
    if IN_HOST.with(|c| c.get()) != 0 {
        return None;
    }
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

pub struct Lib {
    pub main: extern "C" fn(),
    pub worker: extern "C" fn(),
    pub blocking: extern "C" fn(),
    pub base: u64,
}

pub struct JobEnt {
    pub seq: u64,
    pub job: Job,
}
pub struct Node {
    pub alive: bool,
    pub inc: u32,
    pub lib: usize,
    pub jobs: VecDeque<JobEnt>,
    pub workers: u32,
    pub rt_on: bool,
    pub paused: bool,
    pub pause_until: u64,
    pub sigs: Vec<(u32, u64)>,
    pub rand: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    Timer { node: usize, inc: u32, token: u64 },
    Wake { tid: usize, gen: u64 },
    Fault(usize),
    Heal,
    Restart(usize),
    Unpause(usize),
    NetArrive { conn: usize, to: usize },
    NetSyn { conn: usize, try_no: u32 },
    NetSynAck { conn: usize, err: i32 },
}

pub struct Sim {
    pub now: u64,
    pub seq: u64,
    pub spec: Spec,
    pub rng: Rng,
    /// No more interruptions and delays: what is due must now happen.
    pub calm: bool,
    pub spin_due: u32,
    pub spun: usize,
    pub board: std::collections::BTreeMap<u64, Vec<u8>>,
    pub libs: &'static [Lib],
    pub next_lib: usize,
    pub nodes: Vec<Node>,
    pub threads: Vec<*mut Thread>,
    pub events: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    pub timers: BTreeMap<(usize, u32, u64), u64>,
    pub tasks: BTreeMap<u64, (u64, u64)>,
    pub tokens: u64,
    pub faults: Vec<Fault>,
    pub rec_faults: Vec<(u64, usize)>,
    pub choice_no: u32,
    pub in_choice: usize,
    pub in_preempts: BTreeMap<u64, Vec<(u64, u64)>>,
    pub targets_left: [u32; 4],
    pub wakes_left: u32,
    pub has_targets: bool,
    pub epoch: u64,
    pub net: Net,
    pub started: bool,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn running() -> bool {
    unsafe { !SIM.is_null() }
}

/// Set where an edge callback has to do more than count.
/// 1: an edge of spec.target, 2: one to interrupt its first times.
static mut TARGET_BITS: [u8; MAX_EDGES] = [0; MAX_EDGES];
static mut RARE_HITS: [u8; MAX_EDGES] = [0; MAX_EDGES];

// ------------------------------------------------------------------ raw system calls
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn raw_futex_wait(a: &AtomicU32, v: u32) {
    raw6(202, a as *const _ as usize, 128, v as usize, 0, 0, 0);
}
unsafe fn raw_futex_wake(a: &AtomicU32) {
    raw6(202, a as *const _ as usize, 129, 1, 0, 0, 0);
}
pub fn exit_now(status: u32) -> ! {
    if std::env::var_os("SIM_HOLD").is_some() {
        unsafe { raw6(34, 0, 0, 0, 0, 0, 0) };
    }
    let shm = Shm::get();
    if running() {
        let s = sim();
        shm.stats.time = s.now;
        shm.n_choices = shm.n_choices.min(MAX_CHOICES as u32);
        shm.stats.choices = s.choice_no as u64;
    }
    shm.status = status;
    unsafe {
        raw6(231, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn host_error(s: &str) -> ! {
    let shm = Shm::get();
    shm.note("host error: ");
    shm.note(s);
    exit_now(ST_HOST_ERROR)
}

fn wait_go(t: &Thread) {
    unsafe {
        while t.go.load(Ordering::Acquire) == 0 {
            raw_futex_wait(&t.go, 0);
        }
        t.go.store(0, Ordering::Release);
    }
}
fn set_go(t: &Thread) {
    t.go.store(1, Ordering::Release);
    unsafe { raw_futex_wake(&t.go) };
}

enum Cand {
    Thread(usize),
    Job(usize, usize, usize),
    NewWorker(usize, usize),
    Time,
}

impl Sim {
    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn at(&mut self, time: u64, ev: Ev) -> u64 {
        let s = self.next_seq();
        self.events.push(Reverse((time.max(self.now), s, ev)));
        s
    }
    pub fn derive(&self, a: u64, b: u64, c: u64) -> u64 {
        mix2(mix3(self.spec.seed, a, b), c)
    }
    pub fn thread(&self, id: usize) -> &'static mut Thread {
        let p = self.threads[id];
        unsafe { &mut *p }
    }

    pub fn choose(&mut self, n: u32, pick: impl FnOnce(&mut Sim) -> u32) -> u32 {
        let i = self.choice_no;
        self.choice_no += 1;
        let shm = Shm::get();
        let v = if self.spec.explicit == 1 {
            let mut v = 0;
            while self.in_choice < self.spec.nchoices as usize {
                let (k, x) = shm.in_choices[self.in_choice];
                if k > i {
                    break;
                }
                self.in_choice += 1;
                if k == i {
                    v = x;
                    break;
                }
            }
            v.min(n - 1)
        } else {
            pick(self).min(n - 1)
        };
        if v != 0 {
            let k = shm.n_choices as usize;
            if k < MAX_CHOICES {
                shm.out_choices[k] = (i, v);
                shm.n_choices += 1;
            }
        }
        v
    }

    fn make_thread(&mut self, node: usize, kind: Kind) -> &'static mut Thread {
        let id = self.threads.len();
        let (inc, lib) = (self.nodes[node].inc, self.nodes[node].lib);
        let seq = self.next_seq();
        let task = mix3(0x7ead, (node as u64) << 32 | inc as u64, if kind == Kind::Main { 1 } else { 2 + id as u64 });
        let t = Box::leak(Box::new(Thread {
            id,
            node,
            inc,
            kind,
            state: State::Ready,
            go: AtomicU32::new(0),
            seq,
            gen: 0,
            np: 0,
            yielded: false,
            token: false,
            job: None,
            task,
            edges: 0,
            next_preempt: u64::MAX,
            late: 0,
            last_own: 0,
            futex_result: 0,
            lib,
        }));
        self.threads.push(t);
        Shm::get().stats.threads += 1;
        let tp = t as *mut Thread as usize;
        let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let _h = Host::enter();
            let t = unsafe { &mut *(tp as *mut Thread) };
            CUR.with(|c| c.set(t as *mut Thread));
            wait_go(t);
            let lib = &sim().libs[t.lib];
            let f = match t.kind {
                Kind::Main => lib.main,
                Kind::Worker => lib.worker,
                Kind::Blocking => lib.blocking,
            };
            IN_HOST.with(|c| c.set(0));
            f();
            IN_HOST.with(|c| c.set(1));
            t.state = State::Dead;
            sim().dispatch(t);
        });
        if r.is_err() {
            host_error("cannot create a thread");
        }
        self.plan_preempt(t);
        t
    }

    // -------------------------------------------------------------- preemption planning
    fn plan_preempt(&mut self, t: &mut Thread) {
        t.late = 0;
        if self.spec.explicit == 1 {
            t.next_preempt = match self.in_preempts.get(&t.task) {
                Some(v) => v.iter().map(|p| p.0).find(|e| *e > t.edges).unwrap_or(u64::MAX),
                None => u64::MAX,
            };
        } else if self.spec.preempt_mean > 0 && Shm::get().n_preempts < self.spec.max_preempts {
            let m = self.spec.preempt_mean as u64;
            t.next_preempt = t.edges + 1 + self.rng.below(2 * m);
        } else {
            t.next_preempt = u64::MAX;
        }
    }
    fn task_begin(&mut self, t: &mut Thread, key: u64) {
        // One job is one unit: a worker may still be leaving a task while another enters it.
        let e = self.tasks.entry(key).or_default();
        e.0 += 1;
        t.task = mix2(key, e.0);
        t.edges = 0;
        self.plan_preempt(t);
    }

    #[cold]
    fn edge_hit(&mut self, t: &'static mut Thread, guard: u32, target: u8) {
        // Not while preemption is off: the next eligible edge takes it.
        if t.np > 0 || self.calm {
            return;
        }
        let mut park = 0;
        let mut fire = false;
        if self.spec.explicit == 1 {
            if t.edges < t.next_preempt {
                return;
            }
            if let Some(v) = self.in_preempts.get_mut(&t.task) {
                if let Some(i) = v.iter().position(|p| p.0 <= t.edges) {
                    park = v[i].1;
                    v.remove(i);
                    fire = true;
                }
            }
        } else {
            if t.edges >= t.next_preempt {
                fire = true;
                let r = self.rng.below(10);
                park = if t.late > 0 {
                    t.late
                } else if r < 5 {
                    0
                } else if r < 8 || self.spec.park_max == 0 {
                    1
                } else {
                    2 + self.rng.below(self.spec.park_max)
                };
            }
            if target & 2 != 0 {
                let last = unsafe {
                    RARE_HITS[guard as usize] += 1;
                    RARE_HITS[guard as usize] as u32 >= self.spec.rare_hits
                };
                if last {
                    unsafe { TARGET_BITS[guard as usize] &= 1 };
                }
                if self.rng.chance(1, self.spec.rare as u64) {
                    fire = true;
                    let r = self.rng.below(8);
                    let late = self.spec.target_park.max(self.spec.park_max.min(5 * MS));
                    park = if r == 0 && late > 0 { 2 + self.rng.below(late) } else { (r > 1) as u64 };
                }
            }
            if target & 1 != 0 {
                for i in 0..4 {
                    if self.spec.target[i] == guard && guard != 0 && self.targets_left[i] > 0 {
                        self.targets_left[i] -= 1;
                        if self.targets_left[i] == 0 {
                            fire = true;
                            park = if self.spec.target_park > 0 {
                                2 + self.rng.below(self.spec.target_park)
                            } else if self.spec.park_max > 0 && self.rng.chance(1, 2) {
                                2 + self.rng.below(self.spec.park_max)
                            } else {
                                1
                            };
                        }
                    }
                }
            }
        }
        if !fire {
            if t.late == 0 {
                self.plan_preempt(t);
            }
            return;
        }
        let shm = Shm::get();
        let k = shm.n_preempts as usize;
        if k < MAX_PREEMPTS {
            shm.out_preempts[k] = Preempt { key: t.task, edge: t.edges, park, guard, _pad: 0 };
            shm.n_preempts += 1;
        }
        shm.stats.preempts += 1;
        if park == 0 {
            t.state = State::Ready;
            t.seq = self.next_seq();
        } else {
            t.state = State::Preempted { park, armed: false };
        }
        self.dispatch(t);
        self.plan_preempt(t);
    }

    // -------------------------------------------------------------- the scheduler
    fn runnable_node(&self, node: usize, inc: u32) -> bool {
        let n = &self.nodes[node];
        n.alive && n.inc == inc && !n.paused
    }

    /// Gives up the processor; returns when the calling thread is scheduled again.
    pub fn dispatch(&mut self, cur: *mut Thread) {
        let cur = unsafe { &mut *cur };
        let shm = Shm::get();
        loop {
            shm.stats.steps += 1;
            if shm.stats.steps > self.spec.max_steps as u64 {
                exit_now(ST_CAP_STEPS);
            }
            self.run_due();
            if self.now > self.spec.max_time {
                exit_now(ST_CAP_TIME);
            }
            let mut c: Vec<(u64, u64, Cand)> = Vec::new();
            let mut spinning: Vec<(u64, u64, Cand)> = Vec::new();
            for tp in &self.threads {
                let t = unsafe { &**tp };
                let ready = match t.state {
                    State::Ready => true,
                    State::Parked => t.token,
                    State::Idle { unpark } => unpark && t.token,
                    _ => false,
                };
                if ready && self.runnable_node(t.node, t.inc) {
                    let list = if t.yielded { &mut spinning } else { &mut c };
                    list.push((t.seq, t.task, Cand::Thread(t.id)));
                }
            }
            for (ni, n) in self.nodes.iter().enumerate() {
                if !n.alive || n.paused || n.jobs.is_empty() {
                    continue;
                }
                let mut idle = None;
                let mut count = 0;
                for tp in &self.threads {
                    let t = unsafe { &**tp };
                    if t.node != ni || t.inc != n.inc {
                        continue;
                    }
                    if t.kind == Kind::Worker {
                        count += 1;
                    }
                    if t.kind != Kind::Blocking && idle.is_none() && matches!(t.state, State::Idle { .. }) {
                        idle = Some(t.id);
                    }
                }
                let room = n.rt_on && count < n.workers;
                for (ji, j) in n.jobs.iter().enumerate() {
                    if j.job.kind == simapi::JOB_BLOCKING {
                        c.push((j.seq, j.job.key, Cand::NewWorker(ni, ji)));
                    } else if let Some(t) = idle {
                        c.push((j.seq, j.job.key, Cand::Job(ni, ji, t)));
                    } else if room {
                        c.push((j.seq, j.job.key, Cand::NewWorker(ni, ji)));
                    }
                }
            }
            if c.is_empty() {
                if self.wake_preempted() {
                    continue;
                }
                // Spinning threads get their chance before time passes, and again after: what
                // they wait for may take a few rounds of each of them, and fairly.
                if !spinning.is_empty() && (self.spun < 40 * spinning.len() || self.events.is_empty()) {
                    self.spun += 1;
                    if self.spun > 2 * spinning.len() {
                        spinning.sort_by_key(|x| x.0);
                        spinning.truncate(1);
                    }
                    c.append(&mut spinning);
                } else {
                    self.spun = 0;
                }
            } else {
                self.spun = 0;
                if self.spin_due > 50 {
                    c.append(&mut spinning);
                }
            }
            self.spin_due = if spinning.is_empty() { 0 } else { self.spin_due + 1 };
            if c.is_empty() {
                match self.events.peek() {
                    Some(Reverse((t, _, _))) => {
                        self.now = self.now.max(*t);
                        continue;
                    }
                    // Every node has ended, by a signal say: so has the run.
                    None if self.nodes.iter().all(|n| !n.alive) => exit_now(ST_END),
                    None => {
                        let stuck = self.threads.iter().any(|t| unsafe {
                            matches!((**t).state, State::Futex { .. }) && self.runnable_node((**t).node, (**t).inc)
                        });
                        exit_now(if stuck { ST_DEADLOCK } else { ST_STUCK });
                    }
                }
            }
            c.sort_by_key(|x| x.0);
            let next_ev = self.events.peek().map(|e| e.0 .0);
            if let Some(t) = next_ev {
                if !self.calm && t > self.now && t - self.now <= 20 * MS {
                    c.push((u64::MAX, 0, Cand::Time));
                }
            }
            let n = c.len() as u32;
            let pick = if n > 1 { self.choose(n, |s| s.pick(&c)) } else { 0 };
            let cand = c.swap_remove(pick as usize);
            shm.stats.sched_hash = mix2(shm.stats.sched_hash, cand.1 ^ pick as u64);
            let next: &'static mut Thread = match cand.2 {
                Cand::Time => {
                    let t = next_ev.unwrap();
                    shm.stats.stall += t - self.now;
                    self.now = t;
                    continue;
                }
                Cand::Thread(id) => {
                    self.now += 200;
                    let t = self.thread(id);
                    if t.state != State::Ready {
                        // The parked thread consumes its token.
                        t.token = false;
                        if let State::Idle { .. } = t.state {
                            t.job = Some(Job { kind: simapi::JOB_UNPARKED, ..Job::default() });
                        }
                    }
                    t
                }
                Cand::Job(ni, ji, tid) => {
                    self.now += US;
                    let j = self.nodes[ni].jobs.remove(ji).unwrap();
                    let t = self.thread(tid);
                    self.assign(t, j.job);
                    t
                }
                Cand::NewWorker(ni, ji) => {
                    self.now += US;
                    let j = self.nodes[ni].jobs.remove(ji).unwrap();
                    let mut t = None;
                    let kind = if j.job.kind == simapi::JOB_BLOCKING { Kind::Blocking } else { Kind::Worker };
                    if kind == Kind::Blocking {
                        for tp in &self.threads {
                            let x = unsafe { &mut **tp };
                            if x.node == ni && x.inc == self.nodes[ni].inc && x.kind == kind && matches!(x.state, State::Idle { .. }) {
                                t = Some(x);
                                break;
                            }
                        }
                    }
                    let t = match t {
                        Some(t) => t,
                        None => self.make_thread(ni, kind),
                    };
                    self.assign(t, j.job);
                    t
                }
            };
            next.state = State::Running;
            if std::ptr::eq(next, cur) {
                return;
            }
            shm.stats.switches += 1;
            let dead = cur.state == State::Dead;
            set_go(next);
            if dead {
                // Its thread ends in the background without touching anything simulated.
                loop {
                    unsafe { raw6(34, 0, 0, 0, 0, 0, 0) };
                }
            }
            wait_go(cur);
            return;
        }
    }
    fn assign(&mut self, t: &mut Thread, job: Job) {
        let key = if job.kind == simapi::JOB_WAKE { mix3(0x3a4e, t.node as u64, t.inc as u64) } else { job.key };
        t.job = Some(job);
        self.task_begin(t, key);
    }
    fn pick(&mut self, c: &[(u64, u64, Cand)]) -> u32 {
        let has_time = matches!(c.last().unwrap().2, Cand::Time);
        let n = c.len() as u64 - has_time as u64;
        // Where nothing may be late for long, little in all.
        let enough = self.spec.target_park > 0 && Shm::get().stats.stall > 4 * MS;
        if has_time && !self.calm && self.spec.time_jump > 0 && !enough && self.rng.chance(self.spec.time_jump as u64, 1000) {
            return c.len() as u32 - 1;
        }
        match self.spec.sched {
            0 => 0,
            1 => self.rng.below(n) as u32,
            2 => {
                if self.rng.chance(1, 100) {
                    self.epoch += 1;
                }
                let (seed, ep) = (self.spec.seed, self.epoch);
                let mut best = 0;
                let mut bp = 0;
                for (i, x) in c.iter().take(n as usize).enumerate() {
                    let p = mix3(seed, x.1, ep);
                    if p > bp {
                        bp = p;
                        best = i;
                    }
                }
                best as u32
            }
            3 => {
                if self.rng.chance(1, 8) {
                    0
                } else {
                    (n - 1) as u32
                }
            }
            _ => {
                if self.rng.chance(1, 10) {
                    self.rng.below(n) as u32
                } else {
                    0
                }
            }
        }
    }
    /// Nothing else can run: interrupted threads continue, or start their remaining time.
    fn wake_preempted(&mut self) -> bool {
        let mut any = false;
        for i in 0..self.threads.len() {
            let t = self.thread(i);
            if let State::Preempted { park, armed } = t.state {
                if armed || !self.runnable_node(t.node, t.inc) {
                    continue;
                }
                any = true;
                if park <= 1 {
                    t.state = State::Ready;
                    t.seq = self.next_seq();
                } else {
                    t.state = State::Preempted { park, armed: true };
                    t.gen += 1;
                    let (id, gen) = (t.id, t.gen);
                    Shm::get().stats.stall += park - 1;
                    self.at(self.now + park - 1, Ev::Wake { tid: id, gen });
                }
            }
        }
        any
    }
    fn run_due(&mut self) {
        while let Some(Reverse((t, _, _))) = self.events.peek() {
            if *t > self.now {
                break;
            }
            let Reverse((_, seq, ev)) = self.events.pop().unwrap();
            self.run_event(seq, ev);
        }
    }
    fn run_event(&mut self, seq: u64, ev: Ev) {
        match ev {
            Ev::Timer { node, inc, token } => {
                if self.timers.get(&(node, inc, token)) == Some(&seq) {
                    self.timers.remove(&(node, inc, token));
                    self.post(node, inc, token);
                }
            }
            Ev::Wake { tid, gen } => {
                let t = self.thread(tid);
                if t.gen == gen {
                    if let State::Futex { .. } = t.state {
                        t.futex_result = -(libc::ETIMEDOUT as i64);
                    }
                    t.state = State::Ready;
                    t.seq = self.next_seq();
                }
            }
            Ev::Fault(i) => {
                let f = self.faults[i];
                if !self.calm || i >= self.spec.nfaults as usize {
                    self.apply_fault(f);
                }
            }
            Ev::Heal => crate::net::heal(self),
            Ev::Restart(n) => self.start_node(n),
            Ev::Unpause(n) => {
                let now = self.now;
                let node = &mut self.nodes[n];
                if node.paused && now >= node.pause_until {
                    node.paused = false;
                }
            }
            Ev::NetArrive { conn, to } => crate::net::arrive(self, conn, to),
            Ev::NetSyn { conn, try_no } => crate::net::syn(self, conn, try_no),
            Ev::NetSynAck { conn, err } => crate::net::syn_ack(self, conn, err),
        }
    }
    pub fn post(&mut self, node: usize, inc: u32, token: u64) {
        let seq = self.next_seq();
        let n = &mut self.nodes[node];
        if n.alive && n.inc == inc && token != 0 {
            n.jobs.push_back(JobEnt { seq, job: Job { kind: simapi::JOB_WAKE, _pad: 0, ptr: 0, key: token } });
        }
    }

    // -------------------------------------------------------------- nodes and faults
    pub fn start_node(&mut self, n: usize) {
        if self.nodes[n].alive {
            return;
        }
        if self.next_lib >= self.libs.len() {
            return;
        }
        let lib = self.next_lib;
        self.next_lib += 1;
        let node = &mut self.nodes[n];
        node.alive = true;
        node.lib = lib;
        node.inc += 1;
        node.jobs.clear();
        node.rt_on = false;
        node.paused = false;
        node.sigs.clear();
        let inc = node.inc;
        crate::net::machine_up(self, n);
        self.make_thread(n, Kind::Main);
        if self.started {
            self.rec(3, n as u32, &[n as i64, inc as i64], "", n, inc);
        }
    }
    pub fn kill_node(&mut self, n: usize, how: u32) {
        let inc = self.nodes[n].inc;
        self.nodes[n].alive = false;
        self.nodes[n].jobs.clear();
        self.timers.retain(|k, _| k.0 != n);
        crate::net::node_down(self, n, how);
        self.rec(2, n as u32, &[n as i64, inc as i64, how as i64], "", n, inc);
    }
    pub fn apply_fault(&mut self, f: Fault) {
        let nn = self.nodes.len() as u32;
        let a = (f.a[0] % nn) as usize;
        let mut b = (f.a[1] % nn) as usize;
        if a == b {
            b = (b + 1) % nn as usize;
        }
        let mut effect = false;
        let r0 = Shm::get().n_recs;
        self.rec(1, 0, &[f.kind as i64, a as i64, b as i64, f.a[2] as i64, f.a[3] as i64], fault::NAMES[f.kind as usize % fault::NKINDS], a, 0);
        match f.kind {
            fault::PARTITION | fault::ONEWAY => {
                let until = self.now + f.a[2] as u64 * US;
                effect = crate::net::stall(self, a, b, until);
                if f.kind == fault::PARTITION {
                    effect |= crate::net::stall(self, b, a, until);
                }
                self.at(until, Ev::Heal);
            }
            fault::RESET => effect = crate::net::reset(self, a, b),
            fault::HALFCLOSE => effect = crate::net::half_close(self, a, b),
            fault::CRASH => {
                if self.nodes[a].alive && (a != 0 || f.a[3] & 1 == 1) {
                    self.kill_node(a, f.a[1] % 3);
                    effect = true;
                    if f.a[2] > 0 {
                        self.at(self.now + f.a[2] as u64 * US, Ev::Restart(a));
                    }
                }
            }
            fault::PAUSE => {
                if self.nodes[a].alive {
                    let until = self.now + f.a[1] as u64 * US;
                    self.nodes[a].paused = true;
                    self.nodes[a].pause_until = self.nodes[a].pause_until.max(until);
                    effect = true;
                    self.at(until, Ev::Unpause(a));
                }
            }
            fault::SLOW => {
                effect = true;
                self.net.slow[a][b] = (self.now + f.a[3] as u64 * US, f.a[2] as u64 * US);
            }
            fault::REFUSE => {
                effect = true;
                self.net.refuse[a][b] = self.now + f.a[2] as u64 * US;
            }
            fault::SIGNAL => {
                let which = f.a[1] % 2;
                let subs: Vec<(u32, u64)> = self.nodes[a].sigs.iter().filter(|s| s.0 == which).cloned().collect();
                if self.nodes[a].alive {
                    effect = true;
                    if subs.is_empty() {
                        // Default action: the process ends.
                        self.kill_node(a, 0);
                    } else {
                        let inc = self.nodes[a].inc;
                        for s in subs {
                            self.post(a, inc, s.1);
                        }
                    }
                }
            }
            _ => {}
        }
        let shm = Shm::get();
        if effect {
            shm.stats.faults[f.kind as usize % fault::NKINDS] += 1;
        } else if (r0 as usize) < MAX_RECS {
            shm.recs[r0 as usize].a[5] = 1;
        }
    }

    pub fn rec(&mut self, kind: u32, actor: u32, a: &[i64], s: &str, node: usize, inc: u32) {
        self.rec_raw(kind, actor, a, s.as_bytes(), node, inc)
    }
    fn rec_raw(&mut self, kind: u32, actor: u32, a: &[i64], s: &[u8], node: usize, inc: u32) {
        let shm = Shm::get();
        let k = shm.n_recs as usize;
        if k >= MAX_RECS || shm.n_str as usize + s.len() > MAX_STR {
            exit_now(ST_CAP_LOG);
        }
        let mut r = Rec { time: self.now, node: (node as u16) | (inc as u16) << 8, kind: kind as u16, actor, ..Rec::default() };
        for (i, v) in a.iter().take(6).enumerate() {
            r.a[i] = *v;
        }
        r.s_off = shm.n_str;
        r.s_len = s.len() as u32;
        shm.strs[r.s_off as usize..][..s.len()].copy_from_slice(s);
        shm.n_str += s.len() as u32;
        shm.recs[k] = r;
        shm.n_recs += 1;
        let n = shm.n_recs as u64;
        while let Some((at, i)) = self.rec_faults.first().copied() {
            if at > n {
                break;
            }
            self.rec_faults.remove(0);
            self.at(self.now, Ev::Fault(i));
        }
    }
}

// ------------------------------------------------------------------ entry points for node code
macro_rules! cur {
    () => {{
        let p = CUR.with(|c| c.get());
        if p.is_null() {
            host_error("called outside a simulated thread");
        }
        unsafe { &mut *p }
    }};
}
#[no_mangle]
pub extern "C" fn sim_node() -> u32 {
    cur!().node as u32
}
#[no_mangle]
pub extern "C" fn sim_incarnation() -> u32 {
    cur!().inc
}
#[no_mangle]
pub extern "C" fn sim_node_count() -> u32 {
    sim().nodes.len() as u32
}
#[no_mangle]
pub extern "C" fn sim_now() -> u64 {
    sim().now
}
#[no_mangle]
pub unsafe extern "C" fn sim_log(kind: u32, actor: u32, a: *const i64, n: usize, s: *const u8, len: usize) {
    let _h = Host::enter();
    let t = cur!();
    let a = if n == 0 { &[][..] } else { std::slice::from_raw_parts(a, n) };
    let s = if len == 0 { &[][..] } else { std::slice::from_raw_parts(s, len) };
    sim().rec_raw(kind, actor, a, s, t.node, t.inc);
}
#[no_mangle]
pub unsafe extern "C" fn sim_board_put(key: u64, p: *const u8, n: usize) {
    let _h = Host::enter();
    let v = if n == 0 { Vec::new() } else { std::slice::from_raw_parts(p, n).to_vec() };
    sim().board.insert(key, v);
}
#[no_mangle]
pub unsafe extern "C" fn sim_board_get(key: u64, p: *mut u8, cap: usize) -> i64 {
    let _h = Host::enter();
    match sim().board.get(&key) {
        None => -1,
        Some(v) => {
            let n = v.len().min(cap);
            std::ptr::copy_nonoverlapping(v.as_ptr(), p, n);
            v.len() as i64
        }
    }
}
#[no_mangle]
pub extern "C" fn sim_choose(n: u32, _site: u32) -> u32 {
    let _h = Host::enter();
    sim().choose(n, |s| {
        if s.rng.chance(1, 4) {
            s.rng.below(n as u64) as u32
        } else {
            0
        }
    })
}
#[no_mangle]
pub extern "C" fn sim_calm() {
    let _h = Host::enter();
    let s = sim();
    if !s.calm {
        s.calm = true;
        // The generated faults are over.
        s.rec_faults.clear();
        crate::net::calm(s);
    }
}
#[no_mangle]
pub extern "C" fn sim_point() {
    let t = cur!();
    t.edges += 1;
    if t.edges >= t.next_preempt {
        let _h = Host::enter();
        sim().edge_hit(t, 0, 0);
    }
}
#[no_mangle]
pub extern "C" fn sim_nopreempt(delta: i32) {
    let p = CUR.with(|c| c.get());
    if !p.is_null() {
        unsafe { (*p).np += delta };
    }
}
#[no_mangle]
pub extern "C" fn sim_end() -> ! {
    let _h = Host::enter();
    let s = sim();
    for tp in &s.threads {
        let t = unsafe { &**tp };
        if let State::Futex { since, timeout: false, .. } = t.state {
            if s.runnable_node(t.node, t.inc) && s.now - since > 5 * SEC {
                exit_now(ST_DEADLOCK);
            }
        }
    }
    exit_now(ST_END)
}
#[no_mangle]
pub unsafe extern "C" fn sim_script(params: *mut *const u32, ops: *mut *const simapi::Op, nops: *mut usize) {
    let shm = Shm::get();
    *params = shm.spec.params.as_ptr();
    *ops = shm.ops.as_ptr();
    *nops = shm.spec.nops as usize;
}
#[no_mangle]
pub extern "C" fn sim_scenario() -> u32 {
    Shm::get().spec.scenario
}
#[no_mangle]
pub extern "C" fn sim_derive(salt: u64) -> u64 {
    sim().derive(0xde51, salt, 0)
}
#[no_mangle]
pub extern "C" fn sim_rt_start(workers: u32) {
    let _h = Host::enter();
    let t = cur!();
    let s = sim();
    let w = s.spec.workers.max(1);
    let n = &mut s.nodes[t.node];
    n.rt_on = workers != 0;
    n.workers = if workers == u32::MAX { w } else { workers.min(4) };
}
#[no_mangle]
pub extern "C" fn sim_rt_stop() {
    let _h = Host::enter();
    let t = cur!();
    sim().nodes[t.node].rt_on = false;
}
#[no_mangle]
pub extern "C" fn sim_task_key() -> u64 {
    let _h = Host::enter();
    let t = cur!();
    let s = sim();
    Shm::get().stats.tasks += 1;
    let e = s.tasks.entry(t.task).or_default();
    e.1 += 1;
    mix3(0x7a5c, t.task, e.1).max(1)
}
#[no_mangle]
pub extern "C" fn sim_job_push(kind: u32, ptr: u64, key: u64) {
    let _h = Host::enter();
    let t = cur!();
    let s = sim();
    let seq = s.next_seq();
    s.nodes[t.node].jobs.push_back(JobEnt { seq, job: Job { kind, _pad: 0, ptr, key } });
    // Who has just woken another one is late with what it does next.
    if s.wakes_left > 0 && !s.calm && t.late == 0 && t.last_own >= s.spec.wake_from && t.last_own <= s.spec.wake_to && s.rng.chance(1, s.spec.wake as u64) {
        s.wakes_left -= 1;
        t.late = if s.spec.target_park > 0 { 2 + s.rng.below(s.spec.target_park) } else { 1 };
        let n = [3, 10, 40][s.rng.below(3) as usize];
        t.next_preempt = t.edges + 1 + s.rng.below(n);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sim_next_job(out: *mut Job) {
    let _h = Host::enter();
    let t = cur!();
    if t.job.is_none() {
        let id = t.id as u64;
        sim().task_begin(t, mix2(0x1d1e, id));
        t.state = State::Idle { unpark: t.kind == Kind::Main };
        sim().dispatch(t);
    }
    *out = cur!().job.take().unwrap();
}
#[no_mangle]
pub extern "C" fn sim_thread() -> u64 {
    cur!().id as u64 + 1
}
#[no_mangle]
pub extern "C" fn sim_park() {
    let _h = Host::enter();
    let t = cur!();
    if t.token {
        t.token = false;
        return;
    }
    t.state = State::Parked;
    t.seq = sim().next_seq();
    sim().dispatch(t);
}
#[no_mangle]
pub extern "C" fn sim_unpark(thread: u64) {
    let _h = Host::enter();
    let s = sim();
    let t = s.thread(thread as usize - 1);
    t.token = true;
    if !matches!(t.state, State::Running) {
        t.seq = s.next_seq();
    }
}
#[no_mangle]
pub extern "C" fn sim_task_edges_begin(_key: u64) {}
#[no_mangle]
pub extern "C" fn sim_token() -> u64 {
    let s = sim();
    s.tokens += 1;
    s.tokens
}
#[no_mangle]
pub extern "C" fn sim_timer(at: u64, token: u64, tick: u64) {
    let _h = Host::enter();
    let t = cur!();
    let s = sim();
    let at = at.checked_add(tick - 1).map(|v| v / tick * tick).unwrap_or(u64::MAX / 2).max(s.now + 1);
    let seq = s.at(at, Ev::Timer { node: t.node, inc: t.inc, token });
    s.timers.insert((t.node, t.inc, token), seq);
}
#[no_mangle]
pub extern "C" fn sim_timer_cancel(token: u64) {
    let _h = Host::enter();
    let t = cur!();
    sim().timers.remove(&(t.node, t.inc, token));
}
#[no_mangle]
pub extern "C" fn sim_signal_sub(which: u32, token: u64) {
    let _h = Host::enter();
    let t = cur!();
    sim().nodes[t.node].sigs.push((which, token));
}
#[no_mangle]
pub unsafe extern "C" fn sim_fault(f: *const Fault) {
    let _h = Host::enter();
    let s = sim();
    s.faults.push(*f);
    let i = s.faults.len() - 1;
    s.at(s.now, Ev::Fault(i));
}

// ------------------------------------------------------------------ instrumented edges
static mut LOADING: u32 = 0;
static mut LOADING_BASE: u64 = 0;
pub fn begin_load() {
    unsafe { LOADING = 0 };
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        LOADING += 1;
        *p = if (LOADING as usize) < MAX_EDGES { LOADING } else { 0 };
        p = p.add(1);
    }
    let shm = Shm::get();
    shm.n_guards = LOADING.min(MAX_EDGES as u32 - 1);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
    // Pairs (pc, flags) in the order of the guards.
    let shm = Shm::get();
    let n = (stop as usize - start as usize) / 16;
    for i in 0..n.min(MAX_EDGES - 1) {
        shm.pcs[i + 1] = *start.add(2 * i) as u64;
    }
    let _ = LOADING_BASE;
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        return;
    }
    let t = &mut *p;
    let id = *guard;
    let shm = Shm::get();
    *shm.cov.get_unchecked_mut(id as usize) = 1;
    t.edges += 1;
    shm.stats.edges += 1;
    if shm.own[id as usize] != 0 {
        t.last_own = id;
    }
    let target = TARGET_BITS[id as usize];
    if t.edges >= t.next_preempt || target != 0 {
        if IN_HOST.with(|c| c.get()) != 0 {
            return;
        }
        let _h = Host::enter();
        sim().edge_hit(t, id, target);
    }
    if shm.stats.edges > shm.spec.max_edges {
        exit_now(ST_CAP_EDGES);
    }
}

// ------------------------------------------------------------------ futexes and time (from interpose.rs)
pub fn futex_wait(t: &'static mut Thread, addr: usize, val: u32, deadline: Option<u64>) -> i64 {
    let s = sim();
    if unsafe { std::ptr::read_volatile(addr as *const u32) } != val {
        return -(libc::EAGAIN as i64);
    }
    t.gen += 1;
    t.futex_result = 0;
    t.state = State::Futex { addr, since: s.now, timeout: deadline.is_some() };
    if let Some(d) = deadline {
        let (tid, gen) = (t.id, t.gen);
        s.at(d, Ev::Wake { tid, gen });
    }
    s.dispatch(t);
    t.gen += 1;
    t.futex_result
}
pub fn futex_wake(addr: usize, n: u32) -> i64 {
    let s = sim();
    let mut k = 0;
    // Waiters in the order they came.
    let mut w: Vec<(u64, usize)> = Vec::new();
    for tp in &s.threads {
        let t = unsafe { &**tp };
        if let State::Futex { addr: a, since, .. } = t.state {
            if a == addr {
                w.push((since, t.id));
            }
        }
    }
    w.sort();
    for (_, id) in w {
        if k >= n {
            break;
        }
        let t = s.thread(id);
        t.gen += 1;
        t.state = State::Ready;
        t.seq = s.next_seq();
        k += 1;
    }
    k as i64
}
pub fn yield_thread(t: &'static mut Thread) {
    let s = sim();
    t.state = State::Ready;
    t.yielded = true;
    t.seq = s.next_seq();
    s.dispatch(t);
    t.yielded = false;
}
pub fn sleep_thread(t: &'static mut Thread, until: u64) {
    let s = sim();
    t.gen += 1;
    t.state = State::Sleep;
    let (tid, gen) = (t.id, t.gen);
    s.at(until, Ev::Wake { tid, gen });
    s.dispatch(t);
}

// ------------------------------------------------------------------ starting a run
/// Runs the specification found in shared memory. Called once, in a fresh process.
pub fn run(libs: &'static [Lib]) -> ! {
    let _h = Host::enter();
    let shm = Shm::get();
    let spec = shm.spec;
    let nn = spec.nodes.clamp(1, 6) as usize;
    let mut in_preempts: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
    for p in &shm.in_preempts[..spec.npreempts as usize] {
        in_preempts.entry(p.key).or_default().push((p.edge, p.park));
    }
    for v in in_preempts.values_mut() {
        v.sort();
    }
    let s = Box::leak(Box::new(Sim {
        now: 0,
        seq: 0,
        rng: Rng(mix2(spec.seed, 0x5c4ed)),
        calm: false,
        spin_due: 0,
        spun: 0,
        board: Default::default(),
        libs,
        next_lib: 0,
        nodes: Vec::new(),
        threads: Vec::new(),
        events: BinaryHeap::new(),
        timers: BTreeMap::new(),
        tasks: BTreeMap::new(),
        tokens: 0,
        faults: shm.fault_list[..spec.nfaults as usize].to_vec(),
        rec_faults: Vec::new(),
        choice_no: 0,
        in_choice: 0,
        in_preempts,
        targets_left: spec.target_n,
        wakes_left: if spec.explicit == 0 && spec.wake > 0 { spec.wake_hits } else { 0 },
        has_targets: false,
        epoch: 0,
        net: Net::new(nn),
        started: false,
        spec,
    }));
    unsafe {
        SIM = s;
        if spec.explicit == 0 {
            for t in spec.target {
                if t != 0 {
                    TARGET_BITS[t as usize % MAX_EDGES] |= 1;
                }
            }
            if spec.rare > 0 {
                for i in 0..MAX_EDGES {
                    TARGET_BITS[i] |= shm.own[i];
                }
            }
        }
    }
    for i in 0..s.faults.len() {
        let f = s.faults[i];
        if f.trigger == 0 {
            s.at(f.at * US, Ev::Fault(i));
        } else {
            s.rec_faults.push((f.at, i));
        }
    }
    s.rec_faults.sort();
    for i in 0..nn {
        s.nodes.push(Node {
            alive: false,
            inc: 0,
            lib: 0,
            jobs: VecDeque::new(),
            workers: 1,
            rt_on: false,
            paused: false,
            pause_until: 0,
            sigs: Vec::new(),
            rand: 0,
        });
        s.start_node(i);
    }
    s.started = true;
    // The first dispatch: from a pseudo thread that never runs again.
    let me = Box::leak(Box::new(Thread {
        id: usize::MAX,
        node: 0,
        inc: 0,
        kind: Kind::Main,
        state: State::Dead,
        go: AtomicU32::new(0),
        seq: 0,
        gen: 0,
        np: 0,
        yielded: false,
        token: false,
        job: None,
        task: 0,
        edges: 0,
        next_preempt: u64::MAX,
            late: 0,
            last_own: 0,
        futex_result: 0,
        lib: 0,
    }));
    s.dispatch(me);
    host_error("the first thread returned")
}
