//! C14: process registries.
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

use hydra::{Dest, ExitReason, GenServer, Message, Pid, Process, ProcessFlags, Registry, RegistryError, RegistryKey, RegistryOptions, Shutdown, SystemMessage};

use crate::w::*;

const KEYS: u32 = 3;
fn key(k: u32) -> RegistryKey {
    match k % KEYS {
        0 => RegistryKey::from("key"),
        1 => RegistryKey::from(1i32),
        _ => RegistryKey::from(1u64),
    }
}
fn key_no(k: &RegistryKey) -> i64 {
    (0..KEYS).position(|i| key(i) == *k).map(|x| x as i64).unwrap_or(-1)
}
static STARTS: AtomicU32 = AtomicU32::new(0);
static STOPPING: AtomicBool = AtomicBool::new(false);
static REG: Cell<Option<Pid>> = Cell::new(None);

fn shutdown_mode() -> u32 {
    p(2, 4)
}
fn shutdown() -> Shutdown {
    match shutdown_mode() {
        0 => Shutdown::BrutalKill,
        1 => ms(40).into(),
        2 => ms(3000).into(),
        _ => Shutdown::Infinity,
    }
}
async fn kid(me: u32, w: u32) {
    let trap = w % 4 == 1;
    if trap {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    // 0..: lives on, or ends by itself soon.
    if w / 4 % 5 == 0 {
        pause(w / 20).await;
        if w / 4 % 10 == 0 {
            log(ev::PANICKING, me, &[], "");
            panic!("intended");
        }
        return;
    }
    let stubborn = trap && shutdown_mode() == 1 && w / 32 % 2 == 0;
    loop {
        match Process::receive::<u64>().await {
            Message::System(SystemMessage::Exit(_, r)) => {
                log(ev::EXIT_MSG, me, &[], &reason_text(&r));
                if !stubborn && STOPPING.load(Ordering::SeqCst) {
                    sleep((w / 64 % 20) as u64).await;
                    log(ev::TERMINATED, me, &[], "");
                    return;
                }
            }
            _ => {}
        }
    }
}
async fn launch(k: RegistryKey) -> Result<Pid, ExitReason> {
    let n = STARTS.fetch_add(1, Ordering::SeqCst);
    let w = params()[8 + n as usize % 20];
    match w % 8 {
        5 | 6 => Process::sleep(ms((w / 8 % 25) as u64)).await,
        7 => {
            let t = format!("no{}", n);
            log(ev::RG_FAIL, 0, &[key_no(&k)], &t);
            return Err(ExitReason::Custom(t));
        }
        _ => {}
    }
    let Some(c) = newborn() else {
        log(ev::RG_FAIL, 0, &[key_no(&k)], "none left");
        return Err(ExitReason::from("none left"));
    };
    let guard = Kid::new(c);
    let pid = Process::spawn_link(guard.run(kid(c, w / 8)));
    set_pid(c, pid);
    log(ev::RG_MADE, c, &[key_no(&k), (w / 8 % 4 == 1) as i64], "");
    Ok(pid)
}
fn registry() -> Registry {
    Registry::new("reg").with_start(launch).with_shutdown(shutdown())
}
fn code(op: i64, me: u32, e: RegistryError) {
    let (c, x, t) = match e {
        RegistryError::AlreadyStarted(p) => (1, aid_of(p), String::new()),
        RegistryError::NotFound => (2, 0, String::new()),
        RegistryError::StartNotSupported => (3, 0, String::new()),
        RegistryError::StartError(r) => (4, 0, reason_text(&r)),
        RegistryError::CallError(hydra::CallError::Timeout(_)) => (5, 0, String::new()),
        RegistryError::CallError(hydra::CallError::ServerDown(r)) => (6, 0, reason_text(&r)),
    };
    log(ev::RG_RET, me, &[op, c, x], &t);
}
fn pid_code(p: Option<Pid>) -> i64 {
    p.map(aid_of).unwrap_or(-2)
}
async fn request(me: u32, what: u32, k: u32, by_pid: bool, t: Option<u64>) {
    let t = t.map(ms);
    let Some(pid) = REG.with(|r| *r) else { return };
    let dest = || if by_pid { Dest::from(pid) } else { Dest::from("reg") };
    let op = fresh();
    log(ev::RG_CALL, me, &[op, what as i64, (k % KEYS) as i64, by_pid as i64, t.map(|t| t.as_millis() as i64).unwrap_or(5000)], "");
    let ok = |x: i64| log(ev::RG_RET, me, &[op, 0, x], "");
    match what {
        0 => match Registry::lookup(dest(), key(k), t).await {
            Ok(p) => ok(pid_code(p)),
            Err(e) => code(op, me, e),
        },
        1 => match Registry::start_process(dest(), key(k), t).await {
            Ok(p) => ok(aid_of(p)),
            Err(e) => code(op, me, e),
        },
        2 => match Registry::lookup_or_start(dest(), key(k), t).await {
            Ok(p) => ok(aid_of(p)),
            Err(e) => code(op, me, e),
        },
        3 => match Registry::stop_process(dest(), key(k), t).await {
            Ok(()) => ok(0),
            Err(e) => code(op, me, e),
        },
        4 => match Registry::remove(dest(), key(k), t).await {
            Ok(p) => ok(pid_code(p)),
            Err(e) => code(op, me, e),
        },
        5 => match Registry::count(dest(), t).await {
            Ok(n) => ok(n as i64),
            Err(e) => code(op, me, e),
        },
        _ => match Registry::list(dest(), t).await {
            Ok(v) => {
                let mut a = [op, 0, -2, -2, -2];
                for (k, p) in v {
                    let n = key_no(&k);
                    if n < 0 {
                        bad(me, "a registry lists a key nobody used");
                    } else if a[2 + n as usize] != -2 {
                        bad(me, "a registry lists a key twice");
                    } else {
                        a[2 + n as usize] = aid_of(p);
                    }
                }
                log(ev::RG_RET, me, &a, "");
            }
            Err(e) => code(op, me, e),
        },
    }
}
fn stop_allowed() -> bool {
    p(3, 4) == 0
}
async fn stop_registry(me: u32, how: u32) {
    let Some(pid) = REG.with(|r| *r) else { return };
    STOPPING.store(true, Ordering::SeqCst);
    log(ev::RG_STOP, me, &[how as i64 % 3], "");
    match how % 3 {
        0 => {
            let _ = Registry::stop(pid, ExitReason::from("enough"), Some(ms(20_000))).await;
        }
        1 => {
            let _ = Registry::stop("reg", ExitReason::Normal, Some(ms(20_000))).await;
        }
        _ => Process::exit(pid, ExitReason::Kill),
    }
}
async fn script(me: u32, k: u32) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        let t = match o[4] % 6 {
            0 => Some(0),
            1 => Some(o[4] as u64 / 6 % 25),
            _ => None,
        };
        let by_pid = o[5] % 3 == 0;
        match o[0] % 20 {
            0 | 1 => request(me, 0, o[2], by_pid, t).await,
            2..=4 => request(me, 1, o[2], by_pid, t).await,
            5..=8 => request(me, 2, o[2], by_pid, t).await,
            9 | 10 => request(me, 3, o[2], by_pid, t).await,
            11 | 12 => request(me, 4, o[2], by_pid, t).await,
            13 => request(me, 5 + o[2] % 2, o[3], by_pid, t).await,
            14 | 15 => {
                let n = NEXT.load(Ordering::SeqCst).min(45);
                if n > 10 {
                    // Young ones more often than old ones.
                    let c = if o[2] % 2 == 0 { n - 1 - (o[3] % (n - 10)).min(o[6] % 3) } else { 10 + o[3] % (n - 10) };
                    if let Some(pid) = pid_of(c) {
                        log(ev::EXIT, me, &[c as i64], "");
                        Process::exit(pid, if o[4] % 2 == 0 { ExitReason::Kill } else { ExitReason::from("boom") });
                    }
                }
            }
            16 if !stop_allowed() => {
                // Another registry of this name.
                log(ev::RG_DUP, me, &[], "");
                if registry().start(RegistryOptions::new()).await.is_ok() {
                    bad(me, "two registries of one name are running");
                }
            }
            16 => stop_registry(me, o[2]).await,
            17 => {
                log(ev::RG_DUP, me, &[], "");
                let r = registry();
                drop(r.clone());
                drop(r.child_spec(RegistryOptions::new()));
            }
            18 => {
                match Registry::start_process("bare", key(o[2]), None).await {
                    Err(RegistryError::StartNotSupported) => {}
                    Err(RegistryError::CallError(hydra::CallError::Timeout(_))) => {}
                    _ => bad(me, "a registry without a start routine answers a start with something else"),
                }
                match Registry::lookup_or_start(Dest::from("bare"), key(o[2]), None).await {
                    Err(RegistryError::StartNotSupported) => {}
                    Err(RegistryError::CallError(hydra::CallError::Timeout(_))) => {}
                    _ => bad(me, "a registry without a start routine answers a lookup-or-start with something else"),
                }
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    loop {
        Process::receive::<()>().await;
    }
}
static PHASE: AtomicU32 = AtomicU32::new(0);
/// Who started the registry.
async fn parent(linked: bool) {
    let r = if linked { registry().start_link(RegistryOptions::new()).await } else { registry().start(RegistryOptions::new()).await };
    match r {
        Ok(pid) => REG.with(|r| *r = Some(pid)),
        Err(_) => bad(80, "a registry did not start"),
    }
    if Registry::new("bare").start(RegistryOptions::new()).await.is_err() {
        bad(80, "a registry did not start");
    }
    PHASE.store(1, Ordering::SeqCst);
    while PHASE.load(Ordering::SeqCst) < 9 {
        sleep(3).await;
    }
}
async fn judge(k: u32) {
    wait_done(k, 30_000).await;
    sleep(3500).await;
    let pid = REG.with(|r| *r).unwrap();
    let up = Process::alive(pid);
    log(ev::RG_FINAL, 81, &[0, up as i64], "");
    for i in 0..KEYS {
        request(81, 0, i, false, None).await;
    }
    request(81, 5, 0, false, None).await;
    request(81, 6, 0, false, None).await;
    if up {
        request(81, 0, p(4, KEYS), true, None).await;
        request(81, 6, 0, true, None).await;
    }
    if !Process::alive(Process::whereis("bare").unwrap_or(pid)) {
        bad(81, "a registry without a start routine ended");
    }
    for c in 10..NEXT.load(Ordering::SeqCst).min(45) {
        if let Some(q) = pid_of(c) {
            log(ev::RG_LEFT, c, &[0, Process::alive(q) as i64], "");
        }
    }
    if up {
        if p(0, 2) == 1 && p(6, 4) == 0 {
            STOPPING.store(true, Ordering::SeqCst);
            log(ev::RG_STOP, 81, &[3], "");
            PHASE.store(9, Ordering::SeqCst);
        } else {
            stop_registry(81, p(6, 3)).await;
        }
        sleep(6000).await;
    }
    log(ev::RG_FINAL, 81, &[1, Process::alive(pid) as i64], "");
    for c in 10..NEXT.load(Ordering::SeqCst).min(45) {
        if let Some(q) = pid_of(c) {
            log(ev::RG_LEFT, c, &[1, Process::alive(q) as i64], "");
        }
    }
    for i in 0..KEYS {
        if !matches!(Registry::lookup("reg", key(i), None).await, Ok(None)) {
            bad(81, "the table of a stopped registry still has entries");
        }
    }
    if !matches!(Registry::list("reg", None).await, Ok(v) if v.is_empty()) || !matches!(Registry::count("reg", None).await, Ok(0)) {
        bad(81, "the table of a stopped registry is not empty");
    }
    // The name can be used again, with an empty table.
    match registry().start(RegistryOptions::new()).await {
        Err(_) => bad(81, "a registry cannot be started again under its name"),
        Ok(r) => {
            for i in 0..KEYS {
                if !matches!(Registry::lookup(r, key(i), None).await, Ok(None)) {
                    bad(81, "a new registry is not empty");
                }
            }
            for _ in 0..8 {
                if let Ok(q) = Registry::start_process("reg", key(0), None).await {
                    match Registry::lookup("reg", key(0), None).await {
                        Ok(Some(x)) if x == q => {}
                        _ if !Process::alive(q) => {}
                        _ => bad(81, "a new registry lost what it started"),
                    }
                    break;
                }
            }
        }
    }
    DONE.store(1000, Ordering::SeqCst);
}
pub async fn c14() {
    let k = 2 + p(1, 3);
    let linked = p(0, 2) == 1;
    actor(80, parent(linked));
    while PHASE.load(Ordering::SeqCst) < 1 {
        sleep(1).await;
    }
    core(k, false, |i| script(i, k)).await;
    actor(81, judge(k));
    wait_done(1000, 100_000).await;
}
