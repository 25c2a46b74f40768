//! C09, C10: servers, calls and their lifecycle.
use hydra::{CallError, Dest, ExitReason, From, GenServer, GenServerOptions, Message, Process, ProcessFlags, SystemMessage};
use serde::{Deserialize, Serialize};

use crate::w::*;

#[derive(Serialize, Deserialize, Debug)]
pub enum Rq {
    Ask { id: i64, kind: u32, arg: u32 },
    Ans { id: i64, by: u32 },
    Do { id: i64, kind: u32, arg: u32 },
}
/// What a server does in its life beyond what is asked of it.
#[derive(Clone, Copy, Default)]
pub struct Plan {
    /// 0.. ok, sleep then ok, fail, panic, sleep long.
    pub init: u32,
    pub init_ms: u64,
    pub trap: bool,
    /// 0 plain, 1 sleep, 2 panic.
    pub term: u32,
    pub term_ms: u64,
}
pub struct Srv {
    pub me: u32,
    pub plan: Plan,
    pub peers: u32,
    pub slots: u32,
    _d: Death,
}
impl Srv {
    pub fn new(me: u32, plan: Plan) -> Self {
        Srv { me, plan, peers: 0, slots: 0, _d: Death(me) }
    }
}
/// A number that no other node or life of it has.
pub fn far_fresh() -> i64 {
    ((simapi::node() as i64) << 48) | ((unsafe { simapi::sim_incarnation() } as i64) << 40) | fresh()
}
fn unique(me: u32) -> String {
    format!("x{}-{}", me, far_fresh())
}
fn failing(me: u32, o: u32) -> ExitReason {
    let r = match o % 5 {
        0 => ExitReason::Normal,
        1 => ExitReason::Ignore,
        _ => ExitReason::Custom(unique(me)),
    };
    log(ev::EXIT, me, &[me as i64, reason_code(&r), 1], &reason_text(&r));
    r
}
fn panicking(me: u32) -> ! {
    let s = format!("intended {}", unique(me));
    log(ev::PANICKING, me, &[], &s);
    std::panic::panic_any(s);
}
/// A call whose request, answer and end are in the history.
pub async fn call(me: u32, dest: Dest, target: i64, slot: i64, kind: u32, arg: u32, timeout: Option<u64>) -> bool {
    let id = far_fresh();
    let t = timeout.map(|t| t as i64 * 1000).unwrap_or(5_000_000);
    log(ev::CALL, me, &[id, target, slot, kind as i64, t], "");
    let r = Srv::call(dest, Rq::Ask { id, kind, arg }, timeout.map(ms)).await;
    match r {
        Ok(Rq::Ans { id: rid, by }) => {
            log(ev::CALL_RET, me, &[id, 0, rid, by as i64], "");
            return true;
        }
        Ok(_) => bad(me, "a call returned something else than a reply"),
        Err(CallError::Timeout(_)) => log(ev::CALL_RET, me, &[id, 1], ""),
        Err(CallError::ServerDown(r)) => log(ev::CALL_RET, me, &[id, 2, reason_code(&r)], &reason_text(&r)),
    }
    false
}
fn answer(me: u32, from: From, id: i64) {
    log(ev::REPLY, me, &[id], "");
    Srv::reply(from, Rq::Ans { id, by: me });
}
impl GenServer for Srv {
    type Message = Rq;
    async fn init(&mut self) -> Result<(), ExitReason> {
        let me = self.me;
        set_pid(me, Process::current());
        if self.plan.trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        log(ev::INIT, me, &[], "");
        let p = self.plan;
        match p.init {
            0 => {}
            1 | 4 => sleep(p.init_ms).await,
            2 => {
                pause(p.init_ms as u32).await;
                let r = failing(me, 1 + p.init_ms as u32);
                log(ev::INIT_DONE, me, &[0], &reason_text(&r));
                return Err(r);
            }
            _ => {
                pause(p.init_ms as u32).await;
                panicking(me)
            }
        }
        log(ev::INIT_DONE, me, &[1], "");
        Ok(())
    }
    async fn terminate(&mut self, reason: ExitReason) {
        log(ev::TERMINATE, self.me, &[reason_code(&reason)], &reason_text(&reason));
        match self.plan.term {
            0 => {}
            1 => sleep(self.plan.term_ms).await,
            _ => panicking(self.me),
        }
        log(ev::TERMINATED, self.me, &[], "");
    }
    async fn handle_cast(&mut self, m: Rq) -> Result<(), ExitReason> {
        let me = self.me;
        let Rq::Do { id, kind, arg } = m else {
            bad(me, "a cast changed on its way");
            return Ok(());
        };
        log(ev::HANDLE, me, &[id, 1], "");
        match kind % 6 {
            0 | 1 => {}
            2 => pause(arg).await,
            3 => return Err(failing(me, arg)),
            4 if arg % 2 == 0 => panicking(me),
            _ => sleep(arg as u64 % 20).await,
        }
        log(ev::HANDLED, me, &[id], "");
        Ok(())
    }
    async fn handle_info(&mut self, m: Message<Rq>) -> Result<(), ExitReason> {
        let me = self.me;
        match m {
            Message::User(Rq::Ans { id, .. }) => log(ev::INFO, me, &[id, 1], ""),
            Message::User(_) => log(ev::INFO, me, &[-1, 1], ""),
            Message::System(SystemMessage::Exit(from, r)) => {
                log(ev::EXIT_MSG, me, &[aid_of(from), reason_code(&r)], &reason_text(&r));
                if params()[20] >> (me % 32) & 3 == 3 {
                    return Err(failing(me, 2));
                }
            }
            Message::System(_) => log(ev::INFO, me, &[-1, 0], ""),
        }
        Ok(())
    }
    async fn handle_call(&mut self, m: Rq, from: From) -> Result<Option<Rq>, ExitReason> {
        let me = self.me;
        let Rq::Ask { id, kind, arg } = m else {
            bad(me, "a call changed on its way");
            return Ok(None);
        };
        log(ev::HANDLE, me, &[id, 0], "");
        match kind % 14 {
            0..=2 => {}
            3 | 4 => pause(arg).await,
            5 => sleep(arg as u64 % 60).await,
            6 | 7 => {
                // Somebody else answers, now or later.
                let d = arg as u64 % 50;
                Process::spawn(async move {
                    if d > 3 {
                        sleep(d).await;
                    }
                    answer(me, from, id);
                    if d % 5 == 0 {
                        answer(me, from, id);
                    }
                });
                return Ok(None);
            }
            8 => {
                answer(me, from, id);
                pause(arg).await;
                if arg % 3 == 0 {
                    return Err(failing(me, arg));
                }
                return Ok(None);
            }
            9 => return Ok(None),
            10 if arg % 2 == 0 => return Err(failing(me, arg / 2)),
            11 if arg % 2 == 0 => panicking(me),
            12 if self.slots > 0 => {
                // A call in a call.
                let slot = arg % self.slots;
                let t = 1 + (arg as u64 >> 8) % 30;
                let other = SLOTS.with(|v| v.get(slot as usize).copied().flatten());
                if let Some(o) = other.filter(|o| *o != me) {
                    if let Some(pid) = pid_of(o) {
                        call(me, Dest::from(pid), o as i64, -1, arg >> 3, arg >> 5, Some(t)).await;
                    }
                }
            }
            13 if arg % 4 == 0 => {
                // Double answer: only one may reach the caller.
                answer(me, from, id);
            }
            _ => {}
        }
        log(ev::REPLY, me, &[id], "");
        Ok(Some(Rq::Ans { id, by: me }))
    }
}
/// The server last started for each slot.
pub static SLOTS: Cell<Vec<Option<u32>>> = Cell::new(Vec::new());

fn timeout_of(o: u32) -> Option<u64> {
    match o % 8 {
        0 => None,
        1 => Some(0),
        2 | 3 => Some(1 + o as u64 / 8 % 6),
        4 | 5 => Some(o as u64 / 8 % 60),
        6 => Some(100 + o as u64 / 8 % 300),
        _ => Some(o as u64 / 8 % 25),
    }
}
async fn start_slot(me: u32, slot: u32, slots: u32, o: u32) {
    let Some(c) = newborn() else { return };
    let mut s = Srv::new(c, Plan { init: (o % 8 == 0) as u32, init_ms: o as u64 / 8 % 10, trap: o % 3 == 0, ..Plan::default() });
    s.slots = slots;
    let linked = o % 5 == 0 && me < 10;
    log(ev::STARTING, me, &[c as i64, linked as i64], "");
    let opt = GenServerOptions::new().name(format!("srv{}", slot));
    let r = if linked { s.start_link(opt).await } else { s.start(opt).await };
    log(ev::STARTED, me, &[c as i64, r.is_ok() as i64], &r.as_ref().err().map(reason_text).unwrap_or_default());
    if let Ok(pid) = r {
        set_pid(c, pid);
        SLOTS.with(|v| {
            if v.len() <= slot as usize {
                v.resize(slot as usize + 1, None)
            }
            v[slot as usize] = Some(c);
        });
    }
}
async fn client(me: u32, k: u32, slots: u32) {
    let mut s = Script(me, false);
    Process::set_flags(ProcessFlags::TRAP_EXIT);
    for o in ops_of(me, k) {
        let slot = o[2] % slots;
        let cur = SLOTS.with(|v| v.get(slot as usize).copied().flatten());
        match o[0] % 12 {
            0..=5 => {
                if o[3] % 3 == 0 {
                    call(me, Dest::from(format!("srv{}", slot)), -1, slot as i64, o[4], o[5], timeout_of(o[6])).await;
                } else if let Some(c) = cur {
                    let pid = pid_of(c).unwrap();
                    call(me, Dest::from(pid), c as i64, -1, o[4], o[5], timeout_of(o[6])).await;
                }
            }
            6 => {
                let id = fresh();
                log(ev::CAST, me, &[id, slot as i64], "");
                Srv::cast(format!("srv{}", slot), Rq::Do { id, kind: o[3] % 3, arg: o[4] });
            }
            7 => start_slot(me, slot, slots, o[3]).await,
            8 => {
                if let Some(c) = cur {
                    let r = if o[3] % 2 == 0 { ExitReason::Kill } else { ExitReason::Custom(unique(me)) };
                    log(ev::EXIT, me, &[c as i64, reason_code(&r)], &reason_text(&r));
                    Process::exit(pid_of(c).unwrap(), r);
                }
            }
            9 => {
                // Everything in the mailbox must be a message for this process.
                while let Ok(m) = Process::timeout(ms(o[3] as u64 % 8), Process::receive::<()>()).await {
                    match m {
                        Message::System(SystemMessage::Exit(..)) => {}
                        _ => bad(me, "a stray message in the mailbox of a caller"),
                    }
                }
            }
            _ => pause(o[2]).await,
        }
    }
    // A call that gets its answer too late.
    s.over();
    loop {
        match Process::receive::<()>().await {
            Message::System(SystemMessage::Exit(..)) => {}
            _ => bad(me, "a stray message in the mailbox of a caller"),
        }
    }
}
pub async fn c09() {
    let k = 1 + p(0, 4);
    let slots = 1 + p(1, 3);
    actor(5, async move {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
        for s in 0..slots {
            start_slot(5, s, slots, params()[2 + s as usize] * 8 + 1).await;
        }
        loop {
            let _ = Process::receive::<()>().await;
        }
    });
    let t = now() + 5_000_000_000;
    while SLOTS.with(|v| v.len()) < slots as usize && now() < t {
        sleep(1).await;
    }
    core(k, false, |i| async move { client(i, k, slots).await }).await;
    wait_done(k, 60_000).await;
    sleep(6000).await;
    // Whoever is alive still answers.
    actor(6, async move {
        let mut s = Script(6, false);
        for c in 10..45 {
            if let Some(pid) = pid_of(c).filter(|p| Process::alive(*p)) {
                call(6, Dest::from(pid), c as i64, -2, 0, 0, Some(2000)).await;
            }
        }
        s.over();
    });
    wait_done(k + 1, 100_000).await;
    sleep(1000).await;
}

// ---- C10 ----
fn observer() -> impl std::future::Future<Output = ()> + Send {
    async move {
        let mut refs = Vec::new();
        loop {
            match Process::receive::<u32>().await {
                Message::User(c) => {
                    if let Some(pid) = pid_of(c) {
                        refs.push((Process::monitor(pid), c));
                    }
                }
                Message::System(SystemMessage::ProcessDown(_, r, reason)) => {
                    if let Some((_, c)) = refs.iter().find(|x| x.0 == r) {
                        log(ev::DOWN, 80, &[*c as i64, reason_code(&reason)], &reason_text(&reason));
                    }
                }
                _ => bad(80, "unexpected message"),
            }
        }
    }
}
async fn stop(me: u32, c: u32, o: &Op) {
    let Some(pid) = pid_of(c) else { return };
    let r = match o[4] % 6 {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        _ => ExitReason::Custom(unique(me)),
    };
    let t = match o[5] % 4 {
        0 => None,
        1 => Some(o[5] as u64 / 4 % 10),
        _ => Some(o[5] as u64 / 4 % 300),
    };
    log(ev::STOP, me, &[c as i64, reason_code(&r), t.map(|t| t as i64 * 1000).unwrap_or(-1)], &reason_text(&r));
    let q = Srv::stop(pid, r, t.map(ms)).await;
    log(ev::STOPPED, me, &[c as i64, q.is_ok() as i64], &q.err().map(|e| reason_text(&e)).unwrap_or_default());
}
async fn owner(me: u32, k: u32) {
    if params()[4] >> me & 1 == 1 {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
        log(ev::TRAP, me, &[1, 1], "");
    }
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        let n = NEXT.load(std::sync::atomic::Ordering::SeqCst).min(45);
        let c = if n > 10 { n - 1 - o[2] % (n - 10).min(6) } else { 0 };
        match o[0] % 14 {
            0..=4 => {
                let Some(c) = newborn() else { continue };
                let plan = Plan {
                    init: [0, 0, 0, 0, 1, 1, 2, 3, 4][o[2] as usize % 9],
                    init_ms: o[3] as u64 % 60,
                    trap: o[4] % 2 == 0,
                    term: [0, 0, 0, 1, 1, 2][o[5] as usize % 6],
                    term_ms: o[5] as u64 / 6 % 60,
                };
                let slot = if o[6] % 3 == 0 { (o[6] / 3 % 3) as i64 } else { -1 };
                let limit = match o[7] % 3 {
                    0 => Some(o[7] as u64 / 3 % 60),
                    _ => None,
                };
                let link = o[4] / 2 % 2 == 0;
                let mut opt = GenServerOptions::new();
                if slot >= 0 {
                    opt = opt.name(format!("srv{}", slot));
                }
                if let Some(t) = limit {
                    opt = opt.timeout(ms(t));
                }
                let srv = Srv::new(c, plan);
                log(ev::STARTING, me, &[c as i64, link as i64, slot, limit.map(|t| t as i64 * 1000).unwrap_or(-1), plan.init as i64, plan.trap as i64], "");
                let r = if link { srv.start_link(opt).await } else { srv.start(opt).await };
                match r {
                    Ok(pid) => {
                        log(ev::STARTED, me, &[c as i64, 1, (pid_of(c) == Some(pid)) as i64], "");
                        Process::send(pid_of(80).unwrap(), c);
                    }
                    Err(e) => log(ev::STARTED, me, &[c as i64, 0], &reason_text(&e)),
                }
            }
            5 | 6 if c >= 10 => stop(me, c, &o).await,
            7 | 8 => {
                if let Some(pid) = pid_of(c).filter(|_| c >= 10) {
                    let id = fresh();
                    log(ev::CAST, me, &[id, c as i64], "");
                    Srv::cast(pid, Rq::Do { id, kind: o[3], arg: o[4] });
                }
            }
            9 => {
                if let Some(pid) = pid_of(c).filter(|_| c >= 10) {
                    let r = match o[3] % 6 {
                        0 => ExitReason::Kill,
                        1 => ExitReason::Normal,
                        2 => ExitReason::Ignore,
                        _ => ExitReason::Custom(unique(me)),
                    };
                    log(ev::EXIT, me, &[c as i64, reason_code(&r)], &reason_text(&r));
                    Process::exit(pid, r);
                }
            }
            10 if o[2] % 4 == 0 => {
                let r = match o[3] % 5 {
                    0 => ExitReason::Normal,
                    1 => ExitReason::Kill,
                    _ => ExitReason::Custom(unique(me)),
                };
                log(ev::EXIT, me, &[me as i64, reason_code(&r)], &reason_text(&r));
                if r.is_normal() {
                    return;
                }
                Process::exit(Process::current(), r);
                sleep(500).await;
            }
            11 => {
                // Exit messages of linked servers.
                while Process::timeout(ms(o[3] as u64 % 8), Process::receive::<()>()).await.is_ok() {}
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    loop {
        let _ = Process::receive::<()>().await;
    }
}
pub async fn c10() {
    let k = 1 + p(0, 4);
    actor(80, observer());
    core(k, false, |i| async move { owner(i, k).await }).await;
    wait_done(k, 30_000).await;
    sleep(5000).await;
    let list = Process::list();
    for c in 10..45 {
        let Some(pid) = pid_of(c) else { continue };
        log(ev::TABLE, c, &[list.contains(&pid) as i64], "");
    }
}
