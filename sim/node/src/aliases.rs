//! C08: aliases.
use hydra::{ExitReason, Message, Process, Reference, SystemMessage};

use crate::w::*;

#[derive(Clone, Copy)]
struct A {
    n: i64,
    owner: u32,
    r: Reference,
    monitor: bool,
}
static ALL: Cell<Vec<A>> = Cell::new(Vec::new());
fn pick(o: u32) -> Option<A> {
    ALL.with(|v| (!v.is_empty()).then(|| v[v.len() - 1 - (o as usize % v.len().min(6))]))
}
fn seen(me: u32, m: Message<(u64, u64)>) {
    match m {
        Message::User((id, n)) => log(ev::RECV, me, &[id as i64, n as i64], ""),
        Message::System(SystemMessage::ProcessDown(_, r, _)) => {
            if let Some(a) = ALL.with(|v| v.iter().find(|a| a.r == r).copied()) {
                log(ev::DOWN, me, &[a.n], "");
            }
        }
        _ => bad(me, "unexpected system message"),
    }
}
async fn kid(seed: u32) {
    pause(seed).await;
    if seed & 0x100 == 0 {
        sleep((seed as u64 >> 9) % 50).await;
    }
}
fn send(me: u32, a: A) {
    let id = fresh();
    log(ev::SEND, me, &[id, a.n], "");
    Process::send(a.r, (id as u64, a.n as u64));
    log(ev::SENT, me, &[id, a.n], "");
}
async fn script(me: u32, k: u32) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        match o[0] % 15 {
            0 | 1 => {
                let n = fresh();
                let reply = o[3] % 2 == 1;
                log(ev::ALIAS, me, &[n, reply as i64, -1], "");
                let r = Process::alias(reply);
                log(ev::ALIASED, me, &[n], "");
                ALL.with(|v| v.push(A { n, owner: me, r, monitor: false }));
            }
            2 | 3 => {
                // An alias tied to a monitor.
                let n = fresh();
                let reply = o[3] % 2 == 1;
                let t = any(k, o[2]);
                if t == me {
                    continue;
                }
                let Some(pid) = pid_of(t) else { continue };
                log(ev::ALIAS, me, &[n, reply as i64, t as i64], "");
                let r = if o[4] % 4 == 0 && t < k { Process::monitor_alias(format!("actor{}", t), reply) } else { Process::monitor_alias(pid, reply) };
                ALL.with(|v| v.push(A { n, owner: me, r, monitor: true }));
                log(ev::ALIASED, me, &[n], "");
            }
            4..=7 => {
                if let Some(a) = pick(o[3]) {
                    for _ in 0..o[4] % 3 + 1 {
                        send(me, a)
                    }
                }
            }
            8 | 9 => {
                if let Some(a) = pick(o[3]) {
                    log(ev::UNALIAS, me, &[a.n], "");
                    let ok = Process::unalias(a.r);
                    log(ev::UNALIASED, me, &[a.n, ok as i64], "");
                }
            }
            10 => {
                if let Some(a) = pick(o[3]) {
                    if a.monitor && a.owner == me {
                        log(ev::DEMONITOR, me, &[a.n], "");
                        Process::demonitor(a.r);
                        log(ev::DEMONITORED, me, &[a.n], "");
                    }
                }
            }
            11 => {
                let Some(c) = newborn() else { continue };
                let kid_ = Kid::new(c);
                let pid = Process::spawn(kid_.run(kid(o[3])));
                set_pid(c, pid);
            }
            12 => {
                let t = any(k, o[2]);
                if o[3] % 4 == 0 && t != me || t >= 10 {
                    if let Some(pid) = pid_of(t) {
                        log(ev::EXIT, me, &[t as i64], "");
                        Process::exit(pid, ExitReason::Kill);
                    }
                }
            }
            13 => {
                for _ in 0..o[2] % 4 + 1 {
                    match Process::timeout(ms(o[3] as u64 % 30), Process::receive::<(u64, u64)>()).await {
                        Ok(m) => seen(me, m),
                        Err(_) => break,
                    }
                }
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    loop {
        let m = Process::receive().await;
        seen(me, m)
    }
}
pub async fn c08() {
    let k = 2 + p(0, 3);
    core(k, true, |i| async move {
        script(i, k).await
    })
    .await;
    wait_done(k, 20_000).await;
    sleep(2000).await;
    // Nobody may be reached any more through the aliases of the dead.
    for a in ALL.with(|v| v.clone()) {
        send(90, a);
    }
    sleep(1000).await;
}
