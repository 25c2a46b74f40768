//! C11, C12, C13: supervisors.
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

use hydra::{
    AutoShutdown, ChildSpec, ChildType, Dest, ExitReason, GenServer, GenServerOptions, Message, Pid, Process, ProcessFlags, Restart, Shutdown, SupervisionStrategy, Supervisor,
    SupervisorError, SupervisorOptions, SystemMessage,
};
use serde::{Deserialize, Serialize};

use crate::w::*;

/// A child as its parameter describes it.
#[derive(Clone, Copy)]
struct Conf {
    restart: u32,
    /// 0-2 server (2: slow to end), 3 plain, 4 plain and trapping.
    kind: u32,
    shut: u32,
    significant: bool,
    sup: bool,
    term_ms: u64,
    stubborn: bool,
}
fn conf(cid: u32) -> Conf {
    let w = params()[8 + cid as usize % 20];
    let restart = match w % 3 {
        _ if params()[7] % 4 == 0 => 0,
        0 if params()[27] % 3 == 1 && cid < 2 => 2,
        r => r,
    };
    let kind = w / 3 % 5;
    let shut = w / 15 % 5;
    let mut term_ms = (w / 120 % 80) as u64;
    if LONG.load(Ordering::SeqCst) == 1 && params()[9 + cid as usize % 20] % 3 == 0 {
        term_ms = [700, 1500, 1900, 3000, 6000][(params()[9 + cid as usize % 20] / 3 % 5) as usize];
    }
    let stubborn = kind == 4 && shut == 2 && w / 9600 % 2 == 0;
    Conf { restart, kind, shut, significant: restart != 0 && (w / 60 % 2 == 0 || params()[27] % 3 == 1), sup: w / 9600 % 5 == 0, term_ms, stubborn }
}
fn shutdown_of(c: &Conf) -> Option<Shutdown> {
    match c.shut {
        0 => None,
        1 => Some(Shutdown::BrutalKill),
        2 => Some(ms(40).into()),
        3 => Some(ms(2000).into()),
        _ => Some(Shutdown::Infinity),
    }
}
/// 1: some children take seconds to end.
static LONG: AtomicU32 = AtomicU32::new(0);
static INST: AtomicU32 = AtomicU32::new(100);
static OUTCOMES: Cell<BTreeMap<u32, VecDeque<u32>>> = Cell::new(BTreeMap::new());
/// The instance last started for each child.
static LAST: Cell<BTreeMap<u32, u32>> = Cell::new(BTreeMap::new());
static ACTIVITY: AtomicU32 = AtomicU32::new(0);
fn busy() {
    ACTIVITY.fetch_add(1, Ordering::SeqCst);
}

#[derive(Serialize, Deserialize, Debug)]
enum Cmd {
    Exit(u32, String),
}
fn unique(me: u32) -> String {
    format!("x{}-{}", me, fresh())
}
fn reason(code: u32, text: &str) -> ExitReason {
    match code {
        0 => ExitReason::Normal,
        1 => ExitReason::from("shutdown"),
        2 => ExitReason::Ignore,
        _ => ExitReason::Custom(text.to_string()),
    }
}
struct Gone(u32);
impl Drop for Gone {
    fn drop(&mut self) {
        log(ev::DEATH, self.0, &[], "");
        busy();
    }
}
struct Srv {
    inst: u32,
    c: Conf,
    out: u32,
    _d: Gone,
}
impl GenServer for Srv {
    type Message = Cmd;
    async fn init(&mut self) -> Result<(), ExitReason> {
        set_pid(self.inst, Process::current());
        if self.c.kind > 0 {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        log(ev::START, self.inst, &[], "");
        match self.out {
            3 => sleep(20).await,
            4 => return Err(ExitReason::from("no start")),
            5 => std::panic::panic_any("intended no start".to_string()),
            _ => {}
        }
        Ok(())
    }
    async fn terminate(&mut self, r: ExitReason) {
        log(ev::TERMINATE, self.inst, &[reason_code(&r)], &reason_text(&r));
        if self.c.kind == 2 {
            sleep(self.c.term_ms).await;
        }
        log(ev::TERMINATED, self.inst, &[], "");
    }
    async fn handle_cast(&mut self, Cmd::Exit(code, t): Cmd) -> Result<(), ExitReason> {
        if code == 3 {
            std::panic::panic_any(format!("intended {}", t));
        }
        Err(reason(code, &t))
    }
    async fn handle_info(&mut self, _: Message<Cmd>) -> Result<(), ExitReason> {
        Ok(())
    }
}
async fn plain(inst: u32, c: Conf, d: Gone) {
    let _d = d;
    if c.kind == 4 {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    log(ev::START, inst, &[], "");
    loop {
        match Process::receive::<Cmd>().await {
            Message::User(Cmd::Exit(0, _)) => return,
            Message::User(Cmd::Exit(3, t)) => std::panic::panic_any(format!("intended {}", t)),
            Message::User(Cmd::Exit(c, t)) => {
                Process::exit(Process::current(), reason(c, &t));
                sleep(1000).await;
            }
            Message::System(SystemMessage::Exit(_, r)) if !c.stubborn => {
                log(ev::TERMINATE, inst, &[reason_code(&r)], &reason_text(&r));
                sleep(c.term_ms).await;
                log(ev::TERMINATED, inst, &[], "");
                return;
            }
            _ => {}
        }
    }
}
async fn launch(cid: u32) -> Result<Pid, ExitReason> {
    let inst = INST.fetch_add(1, Ordering::SeqCst);
    let c = conf(cid);
    let mut out = OUTCOMES.with(|q| q.get_mut(&cid).and_then(|q| q.pop_front()).unwrap_or(0));
    if c.kind > 2 && (out == 4 || out == 5) {
        out = 1;
    }
    busy();
    log(ev::ORDER, cid, &[inst as i64, out as i64], "");
    match out {
        1 => return Err(ExitReason::from("no start")),
        2 => return Err(ExitReason::Ignore),
        3 => Process::sleep(ms(20)).await,
        6 => {
            Process::sleep(ms(20)).await;
            busy();
            return Err(ExitReason::from("no start"));
        }
        _ => {}
    }
    let d = Gone(inst);
    let r = if c.kind < 3 {
        Srv { inst, c, out, _d: d }.start_link(GenServerOptions::new()).await
    } else {
        let pid = Process::spawn_link(plain(inst, c, d));
        set_pid(inst, pid);
        Ok(pid)
    };
    if let Ok(pid) = r {
        set_pid(inst, pid);
        LAST.with(|l| l.insert(cid, inst));
        log(ev::CHILD_UP, inst, &[cid as i64], "");
    }
    busy();
    r
}
fn spec(cid: u32) -> ChildSpec {
    let c = conf(cid);
    let mut s = ChildSpec::new(format!("c{}", cid)).start(move || launch(cid)).restart([Restart::Permanent, Restart::Temporary, Restart::Transient][c.restart as usize]);
    if let Some(x) = shutdown_of(&c) {
        s = s.shutdown(x);
    }
    if c.sup {
        s = s.child_type(ChildType::Supervisor);
    }
    if c.significant {
        s = s.significant(true);
    }
    log(ev::CHILD_DOWN, cid, &[c.restart as i64, c.kind as i64, c.shut as i64, c.significant as i64, c.sup as i64, (c.term_ms * 2 + c.stubborn as u64) as i64], "");
    s
}
fn supervisor(ids: &[u32]) -> Supervisor {
    let st = p(2, 3);
    let max = p(3, 5) + if params()[27] % 3 == 1 { 3 } else { 0 };
    let win = [400, 1000, 3000, 60_000, 1_000_000_000][p(4, 5) as usize];
    let auto = if params()[27] % 3 == 1 { [0, 2, 2, 1, 2] } else { [0, 0, 0, 1, 2] }[p(5, 5) as usize];
    log(ev::NOTE, 0, &[st as i64, max as i64, win as i64, auto as i64, ids.len() as i64], "supervisor");
    Supervisor::with_children(ids.iter().map(|c| spec(*c)))
        .strategy([SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne][st as usize])
        .max_restarts(max as usize)
        .max_duration(if win > 60_000 { std::time::Duration::MAX } else { ms(win) })
        .auto_shutdown([AutoShutdown::Never, AutoShutdown::AnySignificant, AutoShutdown::AllSignificant][auto as usize])
}
fn inst_of(text: &str) -> i64 {
    if text == "None" {
        return 0;
    }
    PIDS.with(|v| v.iter().position(|p| p.is_some_and(|p| format!("Some({:?})", p) == text)).map(|i| i as i64).unwrap_or(-1))
}
fn code(e: &SupervisorError) -> i64 {
    match e {
        SupervisorError::AlreadyStarted => 2,
        SupervisorError::AlreadyPresent => 3,
        SupervisorError::StartError(_) => 4,
        SupervisorError::NotFound => 5,
        SupervisorError::Running => 6,
        SupervisorError::Restarting => 7,
        SupervisorError::CallError(_) => 8,
    }
}
fn pid_result(r: Result<Option<Pid>, SupervisorError>) -> (i64, i64) {
    match r {
        Ok(Some(p)) => (0, aid_of(p)),
        Ok(None) => (1, 0),
        Err(e) => (code(&e), 0),
    }
}
fn unit_result(r: Result<(), SupervisorError>) -> (i64, i64) {
    match r {
        Ok(()) => (0, 0),
        Err(e) => (code(&e), 0),
    }
}
/// An operation on the table of children; its result is in the history.
async fn table(me: u32, sup: &Dest, op: u32, c: u32) {
    let n = fresh();
    let sup = sup.clone();
    if op == 7 {
        let s = spec(c);
        log(ev::SUP, me, &[n, 7, c as i64], "");
        let (r, i) = pid_result(Supervisor::start_child(sup, s).await);
        log(ev::SUP_RET, me, &[n, 7, r, i], "");
        return;
    }
    log(ev::SUP, me, &[n, op as i64, c as i64], "");
    let id = format!("c{}", c);
    let (r, i) = match op {
        4 => unit_result(Supervisor::terminate_child(sup, id).await),
        5 => pid_result(Supervisor::restart_child(sup, id).await),
        6 => unit_result(Supervisor::delete_child(sup, id).await),
        8 => match Supervisor::count_children(sup).await {
            Ok(c) => {
                log(ev::SUP_RET, me, &[n, 8, 0, (c.specs * 1000 + c.active) as i64, c.supervisors as i64, c.workers as i64], "");
                return;
            }
            Err(e) => (code(&e), 0),
        },
        _ => match Supervisor::which_children(sup).await {
            Ok(l) => {
                let mut t = String::new();
                for x in l {
                    let x = format!("{:?}", x);
                    let cut = |a: &str, b: &str| x.split(a).nth(1).and_then(|y| y.split(b).next()).unwrap_or("?").to_string();
                    t += &format!("{}:{}:{};", cut("id: \"c", "\""), inst_of(&cut("child: ", ", child_type")), cut("restarting: ", " }"));
                }
                log(ev::SUP_RET, me, &[n, 9, 0], &t);
                return;
            }
            Err(e) => (code(&e), 0),
        },
    };
    log(ev::SUP_RET, me, &[n, op as i64, r, i], "");
}
/// Ends a running child.
fn end_child(me: u32, c: u32, o: u32) {
    let Some(i) = LAST.with(|l| l.get(&c).copied()) else { return };
    let Some(pid) = pid_of(i) else { return };
    let t = unique(me);
    let k = o % 7;
    if k >= 5 {
        log(ev::EXIT, me, &[i as i64, 9, c as i64], "kill");
        Process::exit(pid, ExitReason::Kill);
        return;
    }
    let r = match k {
        3 => format!("intended {}", t),
        k => reason_text(&reason(k, &t)),
    };
    log(ev::EXIT, me, &[i as i64, k as i64, c as i64], &r);
    if conf(c).kind < 3 {
        Srv::cast(pid, Cmd::Exit(k, t));
    } else {
        Process::send(pid, Cmd::Exit(k, t));
    }
}
async fn settle(quiet: u64) {
    let mut last = ACTIVITY.load(Ordering::SeqCst);
    let mut t = now();
    let end = now() + 60_000_000_000;
    while now() < t + quiet * 1_000_000 && now() < end {
        sleep(10).await;
        let a = ACTIVITY.load(Ordering::SeqCst);
        if a != last {
            last = a;
            t = now();
        }
    }
}
/// Starts the supervisor from actor 0, who is linked to it and traps exits.
async fn start_sup(sup: Supervisor, quiet: u64) -> Option<Pid> {
    log(ev::SUP, 0, &[0, 1], "");
    let link = p(6, 2) == 1;
    Process::set_flags(ProcessFlags::TRAP_EXIT);
    let r = if link { sup.start_link(SupervisorOptions::new().name("sup")).await } else { sup.start(SupervisorOptions::new().name("sup")).await };
    log(ev::SUP_RET, 0, &[0, 1, r.is_err() as i64], &r.as_ref().err().map(reason_text).unwrap_or_default());
    let Ok(pid) = r else {
        settle(quiet).await;
        return None;
    };
    set_pid(90, pid);
    let ready = std::sync::Arc::new(AtomicU32::new(0));
    let up = ready.clone();
    actor(1, async move {
        let r = Process::monitor(pid);
        up.store(1, Ordering::SeqCst);
        loop {
            if let Message::System(SystemMessage::ProcessDown(_, x, reason)) = Process::receive::<()>().await {
                if x == r {
                    log(ev::SUP_DOWN, 0, &[reason_code(&reason)], &reason_text(&reason));
                    busy();
                }
            }
        }
    });
    let t = now() + 5_000_000_000;
    while ready.load(Ordering::SeqCst) == 0 && now() < t {
        sleep(1).await;
    }
    settle(quiet).await;
    Some(pid)
}
/// Ends the supervisor: a stop request or a signal of its parent.
async fn stop_sup(pid: Pid, how: u32) {
    let linked = p(6, 2) == 1;
    if how % 2 == 0 || !linked {
        let r = if how / 2 % 2 == 0 { ExitReason::Normal } else { ExitReason::from("over") };
        log(ev::SUP, 0, &[0, 11], &reason_text(&r));
        let r = Supervisor::stop(pid, r, None).await;
        log(ev::SUP_RET, 0, &[0, 11, r.is_err() as i64], &r.err().map(|e| reason_text(&e)).unwrap_or_default());
    } else {
        log(ev::SUP, 0, &[0, 12], "shutdown");
        let m = Process::monitor(pid);
        Process::exit(pid, ExitReason::from("shutdown"));
        let r = Process::receiver().for_message::<()>().select(|x| matches!(x, Message::System(SystemMessage::ProcessDown(_, t, _)) if *t == m)).await;
        if let Message::System(SystemMessage::ProcessDown(_, _, r)) = r {
            log(ev::SUP_RET, 0, &[0, 12, 0], &reason_text(&r));
        }
    }
}
fn queue(c: u32, o: u32) {
    let n = 1 + o % 3;
    for i in 0..n {
        let out = [1, 1, 2, 3, 4, 5, 6, 6][(o / 3 / (i * 7 + 1)) as usize % 8];
        log(ev::NOTE, c, &[out as i64], "outcome");
        OUTCOMES.with(|q| q.entry(c).or_default().push_back(out));
    }
}

/// One operation after another, each given the time to take effect.
pub async fn seq(tables: bool) {
    let n = p(1, 5);
    let ids: Vec<u32> = (0..n).collect();
    actor(0, async move {
        let mut s = Script(0, false);
        let sup = supervisor(&ids);
        if params()[28] % 5 == 0 {
            queue(params()[29] % 6, params()[30]);
        }
        if let Some(pid) = start_sup(sup, 300).await {
            let dest = if params()[28] % 2 == 0 { Dest::from(pid) } else { Dest::from("sup".to_string()) };
            for o in ops() {
                let c = o[2] % 6;
                let k = if tables { [4, 5, 6, 7, 4, 5, 6, 7, 7, 5, 8, 9, 2, 2, 3][o[0] as usize % 15] } else { [2, 2, 2, 2, 2, 2, 3, 3, 4, 7, 10, 10, 9, 8, 6][o[0] as usize % 15] };
                match k {
                    2 => {
                        log(ev::SUP, 0, &[0, 2, c as i64], "");
                        end_child(0, c, o[3]);
                        log(ev::SUP_RET, 0, &[0, 2], "");
                    }
                    3 => queue(c, o[3]),
                    10 => sleep([50, 500, 1500, 4000][o[3] as usize % 4]).await,
                    k => table(0, &dest, k, c).await,
                }
                if k != 3 {
                    settle(250).await;
                    if !Process::alive(pid) {
                        break;
                    }
                }
            }
            if Process::alive(pid) {
                table(0, &dest, 9, 0).await;
                table(0, &dest, 8, 0).await;
                stop_sup(pid, params()[31]).await;
            }
            settle(250).await;
        }
        s.over();
        loop {
            let _ = Process::receive::<()>().await;
        }
    });
    wait_done(1, 2_000_000).await;
}
/// Several processes end children at the same time.
pub async fn race() {
    let n = 1 + p(1, 5);
    let k = 1 + p(0, 3);
    let ids: Vec<u32> = (0..n).collect();
    actor(0, async move {
        let mut s = Script(0, false);
        let sup = supervisor(&ids);
        if let Some(pid) = start_sup(sup, 30).await {
            for i in 0..k {
                actor(2 + i, async move {
                    let mut s = Script(2 + i, false);
                    for o in ops_of(i, k) {
                        let c = o[2] % n;
                        match o[0] % 9 {
                            2 | 3 if params()[27] % 3 == 1 => {
                                // One ends for good while the restart of another fails.
                                log(ev::NOTE, c, &[6], "outcome");
                                OUTCOMES.with(|q| q.entry(c).or_default().push_back(6));
                                end_child(2 + i, c, 2 + o[3] % 5);
                                sleep(1 + o[4] as u64 % 25).await;
                                end_child(2 + i, (c + 1 + o[5] % n) % n, o[5] / 16 % 2)
                            }
                            0..=3 => end_child(2 + i, c, o[3]),
                            8 if params()[27] % 3 == 0 => table(2 + i, &Dest::from(pid), 4, c).await,
                            4 if o[3] % 3 == 0 => queue(c, o[3]),
                            7 if params()[27] % 3 == 0 => {
                                // Terminated while a restart is failing.
                                log(ev::NOTE, c, &[6], "outcome");
                                OUTCOMES.with(|q| q.entry(c).or_default().push_back(6));
                                end_child(2 + i, c, o[3]);
                                sleep(1 + o[4] as u64 % 25).await;
                                table(2 + i, &Dest::from(pid), 4, c).await
                            }
                            5 => table(2 + i, &Dest::from(pid), 8 + o[3] % 2, 0).await,
                            6 => sleep(o[3] as u64 % 1000).await,
                            _ => pause(o[2]).await,
                        }
                    }
                    s.over();
                });
            }
            let t = now() + 60_000_000_000;
            while DONE.load(Ordering::SeqCst) < k && now() < t {
                sleep(5).await;
            }
            calm();
            settle(1500).await;
            if Process::alive(pid) {
                table(0, &Dest::from(pid), 9, 0).await;
                if Process::alive(pid) {
                    log(ev::NOTE, 0, &[], "quiet");
                    stop_sup(pid, params()[31]).await;
                }
            }
            calm();
            settle(1500).await;
        }
        s.over();
        loop {
            let _ = Process::receive::<()>().await;
        }
    });
    wait_done(k + 1, 400_000).await;
}
/// Several processes change the table at the same time.
pub async fn tables() {
    let n = p(1, 4);
    let k = 2 + p(0, 3);
    let ids: Vec<u32> = (0..n).collect();
    actor(0, async move {
        let mut s = Script(0, false);
        let sup = supervisor(&ids);
        if let Some(pid) = start_sup(sup, 30).await {
            for i in 0..k {
                actor(2 + i, async move {
                    let mut s = Script(2 + i, false);
                    for o in ops_of(i, k) {
                        let c = o[2] % 4;
                        let dest = if o[4] % 2 == 0 { Dest::from(pid) } else { Dest::from("sup".to_string()) };
                        match o[0] % 16 {
                            0..=2 => table(2 + i, &dest, 4, c).await,
                            3..=5 => table(2 + i, &dest, 5, c).await,
                            6..=8 => table(2 + i, &dest, 6, c).await,
                            9..=11 => table(2 + i, &dest, 7, c).await,
                            12 => table(2 + i, &dest, 8, 0).await,
                            13 => table(2 + i, &dest, 9, 0).await,
                            14 if o[3] % 3 == 0 => queue(c, o[3]),
                            _ => pause(o[3]).await,
                        }
                    }
                    s.over();
                });
            }
            let t = now() + 100_000_000_000;
            while DONE.load(Ordering::SeqCst) < k && now() < t {
                sleep(5).await;
            }
            settle(300).await;
            table(0, &Dest::from(pid), 9, 0).await;
            log(ev::NOTE, 0, &[], "quiet");
            stop_sup(pid, params()[31]).await;
            calm();
            settle(1500).await;
        }
        s.over();
        loop {
            let _ = Process::receive::<()>().await;
        }
    });
    wait_done(k + 1, 400_000).await;
}

/// A tree of supervisors. Children are numbered in the order they start; every third may be a
/// supervisor with children of its own.
fn tree(first: &mut u32, depth: u32, path: &str) -> Vec<ChildSpec> {
    let n = 1 + params()[8 + *first as usize % 20] / 7 % 4;
    let mut v = Vec::new();
    for i in 0..n {
        let cid = *first;
        if cid >= 14 {
            break;
        }
        *first += 1;
        let path = format!("{}.{:02}", path, i);
        if depth < 2 && params()[8 + cid as usize % 20] / 1000 % 3 == 0 && cid < 12 {
            let inner = tree(first, depth + 1, &path);
            log(ev::NOTE, cid, &[], &format!("node {}", path));
            let mut s = Supervisor::with_children(inner).max_restarts(3).child_spec(SupervisorOptions::new()).id(format!("c{}", cid));
            if params()[8 + cid as usize % 20] / 3000 % 3 == 0 {
                s = s.restart(Restart::Temporary);
            }
            v.push(s);
        } else {
            log(ev::NOTE, cid, &[1], &format!("node {}", path));
            v.push(spec(cid));
        }
    }
    v
}
pub async fn trees() {
    let k = p(0, 3);
    LONG.store((p(27, 4) == 3) as u32, Ordering::SeqCst);
    let rest = if p(27, 4) == 3 { 8000 } else { 1500 };
    actor(0, async move {
        let mut s = Script(0, false);
        let mut first = 0;
        let children = tree(&mut first, 0, "");
        let total = first;
        if params()[28] % 3 == 0 {
            queue(params()[29] % total, params()[30]);
        }
        let sup = Supervisor::with_children(children).strategy([SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne][p(2, 3) as usize]);
        for i in 0..k {
            actor(2 + i, async move {
                let mut s = Script(2 + i, false);
                for o in ops_of(i, k) {
                    match o[0] % 4 {
                        0 => end_child(2 + i, o[2] % total, o[3]),
                        1 => sleep(o[3] as u64 % 100).await,
                        _ => pause(o[2]).await,
                    }
                }
                s.over();
            });
        }
        if let Some(pid) = start_sup(sup, 30).await {
            sleep(params()[30] as u64 % 200).await;
            if Process::alive(pid) {
                stop_sup(pid, params()[31]).await;
            }
        }
        calm();
        settle(rest).await;
        s.over();
        loop {
            let _ = Process::receive::<()>().await;
        }
    });
    wait_done(k + 1, 400_000).await;
    settle(300).await;
}
