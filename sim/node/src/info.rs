//! C25: process lists and process information.
use std::sync::atomic::Ordering;

use hydra::{Application, ApplicationConfig, ConsoleServer, ExitReason, Message, Node, NodeState, Process, ProcessFlags, Reference};

use crate::dist::{me_node, node, node_name, options, until};
use crate::w::*;

const OBSERVER: u32 = 50;
const ALL: u32 = 51;

fn trap(me: u32, on: bool) {
    log(ev::TRAP, me, &[on as i64, 0], "");
    Process::set_flags(if on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() });
    log(ev::TRAP, me, &[on as i64, 1], "");
}
fn query(me: u32, t: u32) {
    let Some(pid) = pid_of(t) else { return };
    let op = fresh();
    log(ev::INFO, me, &[op, t as i64], "");
    show(me, op, Process::info(pid));
}
fn show(me: u32, op: i64, info: Option<hydra::ProcessInfo>) {
    let Some(i) = info else {
        log(ev::INFO_RET, me, &[op, -1], "");
        return;
    };
    let mask = |v: &[hydra::Pid]| v.iter().fold(0i64, |m, p| m | 1 << aid_of(*p).max(-1).rem_euclid(63));
    let mut l = i.links.clone();
    l.sort();
    l.dedup();
    if l.len() != i.links.len() {
        bad(me, "a link is listed twice");
    }
    log(
        ev::INFO_RET,
        me,
        &[op, mask(&i.links), mask(&i.monitored_by), i.monitored_by.len() as i64, i.trap_exit as i64, i.message_queue_len as i64],
        &i.registered_name.unwrap_or_default(),
    );
}
fn list(me: u32) {
    let op = fresh();
    log(ev::LIST, me, &[op, 0], "");
    let (m, unknown) = sum(me, &Process::list());
    log(ev::LIST, me, &[op, 1, m, unknown], "");
}
fn sum(me: u32, v: &[hydra::Pid]) -> (i64, i64) {
    let mut m = 0i64;
    let mut unknown = 0;
    for p in v {
        match aid_of(*p) {
            a @ 0..=62 => {
                if m >> a & 1 == 1 {
                    bad(me, "a process is listed twice");
                }
                m |= 1 << a;
            }
            _ => unknown += 1,
        }
    }
    (m, unknown)
}
fn name(me: u32, n: u32) -> String {
    format!("i{}-{}", me, n % 3)
}
async fn drain(me: u32, n: u32, wait: u64) {
    for _ in 0..n {
        log(ev::RECEIVING, me, &[], "");
        let r = Process::timeout(ms(wait), Process::receive::<u64>()).await;
        log(ev::RECEIVED, me, &[matches!(r, Ok(Message::User(_))) as i64, r.is_ok() as i64], "");
        if r.is_err() {
            break;
        }
    }
}
async fn leave(me: u32, o: u32) {
    match o % 3 {
        0 => {}
        1 => std::panic::panic_any("intended".to_string()),
        _ => {
            Process::exit(Process::current(), ExitReason::from("over"));
            std::future::pending::<()>().await;
        }
    }
    let _ = me;
}
async fn kid(me: u32, seed: u32) {
    if seed & 1 == 1 {
        trap(me, true);
    }
    pause(seed >> 1).await;
    if seed & 0x30 == 0x30 {
        let t = pid_of(seed >> 8 & 3);
        if let Some(pid) = t {
            let n = fresh();
            log(ev::MONITOR, me, &[n, (seed >> 8 & 3) as i64], "");
            let _ = Process::monitor(pid);
            log(ev::MONITORED, me, &[n], "");
        }
    }
    if seed & 0xc0 == 0xc0 {
        // It stays.
        std::future::pending::<()>().await;
    }
    sleep((seed >> 10) as u64 % 60).await;
    leave(me, seed >> 8).await
}
async fn script(me: u32, k: u32, queues: bool) {
    let mut s = Script(me, false);
    let mut mine: Vec<(Reference, i64)> = Vec::new();
    let mut named: Option<String> = None;
    for o in ops_of(me, k) {
        let t = any(k, o[2]);
        let table: &[u32] = if queues { &[9, 9, 9, 9, 10, 10, 11, 11, 11, 12, 13] } else { &[0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 11, 11, 11, 11, 12, 13, 14, 14, 15] };
        match table[o[0] as usize % table.len()] {
            0 if t != me => {
                let Some(pid) = pid_of(t) else { continue };
                log(ev::LINK, me, &[t as i64], "");
                Process::link(pid);
                log(ev::LINKED, me, &[t as i64], "");
            }
            1 if t != me => {
                let Some(pid) = pid_of(t) else { continue };
                log(ev::UNLINK, me, &[t as i64], "");
                Process::unlink(pid);
                log(ev::UNLINKED, me, &[t as i64], "");
            }
            2 if t != me => {
                let Some(pid) = pid_of(t) else { continue };
                let n = fresh();
                log(ev::MONITOR, me, &[n, t as i64], "");
                let r = match o[3] % 4 {
                    0 => Process::monitor_alias(pid, o[4] % 2 == 0),
                    1 if t < k => {
                        log(ev::MONITOR, me, &[n, t as i64, 1], "");
                        Process::monitor(format!("actor{}", t))
                    }
                    _ => Process::monitor(pid),
                };
                mine.push((r, n));
                log(ev::MONITORED, me, &[n], "");
            }
            3 if !mine.is_empty() => {
                let (r, n) = mine.remove(o[3] as usize % mine.len());
                log(ev::DEMONITOR, me, &[n], "");
                Process::demonitor(r);
                log(ev::DEMONITORED, me, &[n], "");
            }
            4 | 5 | 6 => {
                let Some(c) = newborn() else { continue };
                let guard = Kid::new(c);
                let f = guard.run(kid(c, o[3]));
                match o[4] % 3 {
                    0 => {
                        log(ev::LINK, me, &[c as i64], "");
                        let pid = Process::spawn_link(f);
                        set_pid(c, pid);
                        log(ev::LINKED, me, &[c as i64], "");
                    }
                    1 => {
                        let n = fresh();
                        log(ev::MONITOR, me, &[n, c as i64], "");
                        let (pid, r) = Process::spawn_monitor(f);
                        set_pid(c, pid);
                        mine.push((r, n));
                        log(ev::MONITORED, me, &[n], "");
                    }
                    _ => {
                        let pid = Process::spawn(f);
                        set_pid(c, pid);
                    }
                }
                log(ev::SPAWN, c, &[], "");
            }
            7 if t != me && t >= k => {
                if let Some(pid) = pid_of(t) {
                    Process::exit(pid, ExitReason::Kill);
                }
            }
            8 => trap(me, o[2] % 4 > 0),
            9 if t != me => {
                let Some(pid) = pid_of(t) else { continue };
                for _ in 0..1 + o[3] % 4 {
                    log(ev::SEND, me, &[t as i64], "");
                    Process::send(pid, 1u64);
                    log(ev::SENT, me, &[t as i64], "");
                }
            }
            10 => drain(me, o[2] % 5, o[3] as u64 % 20).await,
            11 => query(me, t),
            12 => list(me),
            14 => match named.take() {
                Some(n) => {
                    log(ev::UNREG, me, &[], &n);
                    Process::unregister(&n);
                    log(ev::UNREGISTERED, me, &[], &n);
                }
                None if me + 1 == k => {
                    // The others keep the name by which they are monitored.
                    let n = name(me, o[2]);
                    log(ev::REG, me, &[], &n);
                    if Process::register(Process::current(), &n).is_err() {
                        bad(me, "cannot register a free name");
                    }
                    log(ev::REGISTERED, me, &[], &n);
                    named = Some(n);
                }
                None => {}
            },
            15 if o[2] % 4 == 0 => {
                leave(me, o[3]).await;
                return;
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    std::future::pending::<()>().await
}
async fn observer() {
    let mut n = 0;
    loop {
        for a in 0..=ALL {
            query(OBSERVER, a);
            tokio::task::yield_now().await;
        }
        list(OBSERVER);
        n += 1;
        sleep(if n < 60 { 7 } else { 400 }).await;
    }
}
pub async fn c25(queues: bool) {
    let k = 2 + p(0, 4);
    everybody(k, queues).await;
    if p(1, 3) == 0 {
        actor(OBSERVER, observer());
    }
    wait_done(k, 20_000).await;
    sleep(3000).await;
    // Everything is at rest.
    log(ev::NOTE, ALL, &[], "");
    list(ALL);
    for a in 0..50 {
        query(ALL, a);
    }
}
async fn everybody(k: u32, queues: bool) {
    core(k, false, |i| async move {
        if i + 1 < k {
            log(ev::REG, i, &[], &format!("actor{}", i));
            if Process::register(Process::current(), format!("actor{}", i)).is_err() {
                bad(i, "cannot register a free name");
            }
            log(ev::REGISTERED, i, &[], &format!("actor{}", i));
        }
        if params()[4] >> i & 1 == 1 {
            trap(i, true);
        }
        script(i, k, queues).await
    })
    .await;
}

// ------------------------------------------------------------------------------------- C26
// The processes of node 0 as its console shows them to a process there and to one of another node.
const FAR: u32 = 52;
const SLAYER: u32 = 53;

fn id() -> i64 {
    fresh() + me_node() as i64 * 1_000_000
}
/// Who is who on node 0.
fn refresh() {
    if me_node() == 0 {
        return;
    }
    let mut b = [0u8; 256];
    for a in (0..54).filter(|a| *a != FAR) {
        let n = unsafe { simapi::sim_board_get(a as u64, b.as_mut_ptr(), b.len()) };
        if n >= 0 {
            set_pid(a, rmp_serde::from_slice(&b[..n as usize]).unwrap());
        }
    }
}
fn serving(how: u32) -> Node {
    match (me_node(), how % 2) {
        (0, 0) => Node::Local,
        (0, _) => Node::current(),
        _ => node(0),
    }
}
fn failed(me: u32, op: i64, e: &hydra::CallError) {
    let text = match e {
        hydra::CallError::Timeout(_) => "timeout".to_string(),
        hydra::CallError::ServerDown(r) => reason_text(r),
    };
    log(ev::CALL_RET, me, &[op, me_node() as i64], &text);
}
/// Asks the console for everything, once.
async fn look_around(me: u32, how: u32) -> bool {
    refresh();
    let op = id();
    log(ev::CALL, me, &[op], "");
    let server = match ConsoleServer::connect(serving(how)).await {
        Ok(pid) => pid,
        Err(e) => {
            failed(me, op, &e);
            return false;
        }
    };
    log(ev::CALL_RET, me, &[op, -1], "");
    if server.is_local() != (me_node() == 0) {
        bad(me, "the console is a process of another node");
    }
    if me_node() == 0 {
        set_pid(60, server);
    }
    let first = params()[5] % 52;
    for g in 0..3 {
        let aids: Vec<u32> = (g * 18..(g + 1) * 18).map(|a| (first + a) % 52).filter(|a| pid_of(*a).is_some()).collect();
        let pids: Vec<_> = aids.iter().map(|a| pid_of(*a).unwrap()).collect();
        let ids: Vec<i64> = aids.iter().map(|_| id()).collect();
        let op = id();
        log(ev::CALL, me, &[op], "");
        for (a, i) in aids.iter().zip(&ids) {
            log(ev::INFO, me, &[*i, *a as i64], "");
        }
        match ConsoleServer::processes_info(server, pids).await {
            Ok(v) => {
                log(ev::CALL_RET, me, &[op, -1], "");
                refresh();
                if v.len() != aids.len() {
                    bad(me, "the console did not answer for each process");
                }
                for (i, info) in ids.iter().zip(v) {
                    show(me, *i, info);
                }
            }
            Err(e) => {
                failed(me, op, &e);
                return false;
            }
        }
    }
    let op = id();
    let call = id();
    log(ev::CALL, me, &[call], "");
    log(ev::LIST, me, &[op, 0], "");
    let v = match ConsoleServer::list_processes(server).await {
        Ok(v) => v,
        Err(e) => {
            failed(me, call, &e);
            return false;
        }
    };
    log(ev::CALL_RET, me, &[call, -1], "");
    if !v.contains(&server) {
        bad(me, "the console does not list itself");
    }
    if v.iter().any(|p| p.is_local() != (me_node() == 0)) {
        bad(me, "the console lists processes of another node");
    }
    refresh();
    let (m, unknown) = sum(me, &v);
    log(ev::LIST, me, &[op, 1, m, 0], "");
    let call = id();
    log(ev::CALL, me, &[call], "");
    match ConsoleServer::runtime_info(server).await {
        Ok(r) => {
            log(ev::CALL_RET, me, &[call, -1], "");
            if r.system_version.is_empty() || r.worker_threads == 0 {
                bad(me, "the console shows no runtime");
            }
            log(ev::COUNT, me, &[op, v.len() as i64, r.processes as i64, unknown], "");
        }
        Err(e) => {
            failed(me, call, &e);
            return false;
        }
    }
    for state in [NodeState::Connected, NodeState::Known, NodeState::Pending] {
        let connected = state == NodeState::Connected;
        let call = id();
        log(ev::CALL, me, &[call], "");
        match ConsoleServer::list_nodes(server, state).await {
            Ok(n) => {
                log(ev::CALL_RET, me, &[call, -1], "");
                let is = |x: u32| n.iter().any(|n| *n == node(x) || x == me_node() && n.is_local());
                if me_node() == 1 && is(1) != connected {
                    bad(me, "the console does not list the node that asks as connected");
                }
                if is(0) {
                    bad(me, "the console lists its own node as connected to itself");
                }
                if n.len() > 1 {
                    bad(me, "the console lists a node that is not there");
                }
            }
            Err(e) => {
                failed(me, call, &e);
                return false;
            }
        }
    }
    true
}
async fn onlooker(me: u32, from: u64, every: u64) {
    until(from).await;
    let mut n = 0;
    loop {
        look_around(me, n).await;
        n += 1;
        sleep(if n < 12 { every } else { 340 }).await;
    }
}
async fn slayer(w: u32) {
    for i in 0..w % 4 {
        sleep((w >> 2) as u64 % 90 + i as u64).await;
        if let Some(pid) = pid_of(60) {
            log(ev::EXIT, SLAYER, &[60], "");
            Process::exit(pid, if w >> (8 + i) & 1 == 1 { ExitReason::Kill } else { ExitReason::from("hit") });
            log(ev::EXITED, SLAYER, &[60], "");
        }
    }
}
async fn served() {
    Node::set_cookie("cookie");
    Node::start(node_name(me_node()), options(5000, 45_000, 3000));
    if me_node() != 0 {
        actor(FAR, onlooker(FAR, params()[6] as u64 % 100, 11 + params()[7] as u64 % 200));
        sleep(3_600_000).await;
    }
    PUBLISH.store(true, Ordering::SeqCst);
    let k = 2 + p(0, 4);
    everybody(k, p(1, 4) == 0).await;
    actor(OBSERVER, onlooker(OBSERVER, 0, 7 + params()[8] as u64 % 90));
    actor(SLAYER, slayer(params()[9]));
    wait_done(k, 20_000).await;
    sleep(3000).await;
    log(ev::NOTE, ALL, &[], "");
    let ok = look_around(ALL, 0).await;
    if !ok {
        bad(ALL, "there is no console though nothing happens to it any more");
    }
    // The other node looks, too.
    sleep(700).await;
}
struct App;
impl Application for App {
    fn config() -> ApplicationConfig {
        ApplicationConfig::default().with_tracing_subscribe(false).with_tracing_panics(false)
    }
    async fn start(&self) -> Result<hydra::Pid, ExitReason> {
        Ok(Process::spawn_link(served()))
    }
}
pub fn c26() {
    App.run();
    end()
}
