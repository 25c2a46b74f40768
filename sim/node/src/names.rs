//! C06: registered names.
use hydra::{ExitReason, Message, Process, SystemMessage};
use std::sync::atomic::Ordering;

use crate::w::*;

const NAMES: u32 = 3;
fn name(i: u32) -> String {
    format!("name{}", i % NAMES)
}
fn register(me: u32, t: u32, i: u32) {
    let Some(pid) = pid_of(t) else { return };
    let op = fresh();
    log(ev::REG, me, &[op, t as i64, (i % NAMES) as i64], "");
    let ok = Process::register(pid, name(i)).is_ok();
    log(ev::REGISTERED, me, &[op, ok as i64], "");
}
fn lookup(me: u32, i: u32) {
    let op = fresh();
    log(ev::WHEREIS, me, &[op, (i % NAMES) as i64], "");
    let r = Process::whereis(name(i)).map(aid_of).unwrap_or(-2);
    log(ev::WHEREIS_RET, me, &[op, r], "");
}
async fn kid(me: u32, seed: u32) {
    if seed & 1 == 1 {
        register(me, me, seed >> 1);
    }
    pause(seed >> 4).await;
    match (seed >> 8) % 4 {
        0 => {}
        1 => panic!("intended"),
        2 => {
            let _ = Process::timeout(ms((seed >> 10) as u64), got(me)).await;
        }
        _ => lookup(me, seed >> 3),
    }
}
async fn got(me: u32) {
    loop {
        if let Message::User(n) = Process::receive::<u64>().await {
            log(ev::RECV, me, &[n as i64], "");
        }
    }
}
async fn script(me: u32, k: u32) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        let t = any(k, o[2]);
        match o[0] % 12 {
            0 | 1 => register(me, t, o[3]),
            2 | 3 => {
                let op = fresh();
                log(ev::UNREG, me, &[op, (o[3] % NAMES) as i64], "");
                let ok = expecting(|| Process::unregister(name(o[3]))).is_ok();
                log(ev::UNREGISTERED, me, &[op, ok as i64], "");
            }
            4 => lookup(me, o[3]),
            5 => {
                let op = fresh();
                log(ev::NAMES, me, &[op, -1], "");
                let v = Process::registered();
                let mut bits = 0;
                for i in 0..NAMES {
                    match v.iter().filter(|n| **n == name(i)).count() {
                        0 => {}
                        1 => bits |= 1 << i,
                        _ => bad(me, "a name is listed twice"),
                    }
                }
                log(ev::NAMES, me, &[op, bits], "");
            }
            6 | 7 => {
                let Some(c) = newborn() else { continue };
                let kid_ = Kid::new(c);
                let pid = Process::spawn(kid_.run(kid(c, o[3])));
                set_pid(c, pid);
                if o[4] % 2 == 0 {
                    register(me, c, o[5]);
                }
                if o[4] % 4 < 2 {
                    pause(o[6]).await;
                    log(ev::EXIT, me, &[c as i64], "");
                    Process::exit(pid, ExitReason::Kill);
                    if o[4] % 8 == 1 {
                        register(me, me, o[5]);
                    }
                }
            }
            8 => {
                let op = fresh();
                log(ev::SEND, me, &[op, (o[3] % NAMES) as i64], "");
                Process::send(name(o[3]), op as u64);
                log(ev::SENT, me, &[op], "");
            }
            9 if t != me => {
                if let Some(pid) = pid_of(t) {
                    log(ev::EXIT, me, &[t as i64], "");
                    Process::exit(pid, ExitReason::Kill);
                }
            }
            10 => {
                let _ = Process::timeout(ms(o[3] as u64 % 20), got(me)).await;
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    got(me).await
}
async fn observer() {
    let mut known: Vec<(hydra::Reference, u32)> = Vec::new();
    let mut seen = std::collections::BTreeSet::new();
    loop {
        for a in 0..45 {
            if let (Some(pid), true) = (pid_of(a), !seen.contains(&a)) {
                seen.insert(a);
                known.push((Process::monitor(pid), a));
            }
        }
        if let Ok(Message::System(SystemMessage::ProcessDown(_, r, why))) = Process::timeout(ms(25), Process::receive::<()>()).await {
            if let Some(x) = known.iter().find(|x| x.0 == r) {
                log(ev::DOWN, 80, &[x.1 as i64, (reason_text(&why) == "noproc") as i64], "");
            }
        }
    }
}
pub async fn c06() {
    let k = 2 + p(0, 3);
    actor(80, observer());
    core(k, false, |i| script(i, k)).await;
    wait_done(k, 20_000).await;
    sleep(3000).await;
    for i in 0..NAMES {
        lookup(90, i);
    }
    let _ = NEXT.load(Ordering::SeqCst);
}
