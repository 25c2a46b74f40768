//! C03, C04, C05: links, monitors, exit signals.
use hydra::{Dest, ExitReason, Message, Pid, Process, ProcessFlags, Reference, SystemMessage};
use std::sync::atomic::{AtomicU32, Ordering};

use crate::w::*;

static REFS: Cell<Vec<(Reference, u32, u32, i64)>> = Cell::new(Vec::new()); // reference, watcher, target, number

fn trap(me: u32, on: bool) {
    log(ev::TRAP, me, &[on as i64, 0], "");
    Process::set_flags(if on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() });
    log(ev::TRAP, me, &[on as i64, 1], "");
}
fn unique(me: u32) -> String {
    format!("x{}-{}", me, fresh())
}
fn reason(me: u32, o: u32) -> ExitReason {
    match o % 8 {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        _ => ExitReason::Custom(unique(me)),
    }
}
fn signal(me: u32, t: u32, o: u32) {
    let Some(pid) = pid_of(t) else { return };
    let r = reason(me, o);
    let (c, s) = (reason_code(&r), reason_text(&r));
    log(ev::EXIT, me, &[t as i64, c], &s);
    Process::exit(pid, r);
    log(ev::EXITED, me, &[t as i64, c], &s);
}
/// Ends the calling actor in one of all ways.
async fn die(me: u32, o: u32) {
    match o % 6 {
        0 => {}
        1 => {
            let s = format!("intended {}", unique(me));
            log(ev::PANICKING, me, &[], &s);
            if o / 6 % 2 == 0 {
                std::panic::panic_any(s);
            }
            let s: &'static str = Box::leak(s.into_boxed_str());
            std::panic::panic_any(s);
        }
        2 => {
            let s = format!("intended {}", unique(me));
            log(ev::PANICKING, me, &[], &s);
            panic!("{}", s);
        }
        n => {
            let r = if n == 3 { reason(me, o / 6) } else { ExitReason::Custom(unique(me)) };
            log(ev::EXIT, me, &[me as i64, reason_code(&r)], &reason_text(&r));
            Process::exit(Process::current(), r);
            sleep(500).await;
            bad(me, "kept running after its own exit");
        }
    }
}
fn seen(me: u32, m: Message<()>) {
    match m {
        Message::System(SystemMessage::Exit(from, r)) => {
            log(ev::EXIT_MSG, me, &[aid_of(from), reason_code(&r)], &reason_text(&r));
        }
        Message::System(SystemMessage::ProcessDown(d, rf, r)) => {
            let e = REFS.with(|v| v.iter().find(|x| x.0 == rf).copied());
            let (n, w, t) = e.map(|e| (e.3, e.1 as i64, e.2)).unwrap_or((-1, -1, 0));
            let named = match &d {
                Dest::Pid(p) => {
                    if e.is_some() && pid_of(t) != Some(*p) {
                        bad(me, "a down message names another process");
                    }
                    0
                }
                Dest::Named(s, n) => {
                    if e.is_some() && (s != &format!("actor{}", t) || !n.is_local()) {
                        bad(me, "a down message names another name");
                    }
                    1
                }
                _ => {
                    bad(me, "a down message names an alias");
                    2
                }
            };
            log(ev::DOWN, me, &[n, w, t as i64, reason_code(&r), named], &reason_text(&r));
        }
        Message::System(_) => bad(me, "unexpected system message"),
        Message::User(()) => bad(me, "unexpected user message"),
    }
}
fn note_ref(r: Reference, me: u32, t: u32, n: i64) {
    REFS.with(|v| v.push((r, me, t, n)));
}

async fn child(me: u32, seed: u32, trapping: bool) {
    if trapping {
        trap(me, true);
    }
    pause(seed).await;
    if seed & 0x100 != 0 {
        for _ in 0..2 {
            if let Ok(m) = Process::timeout(ms((seed >> 12) as u64 % 30), Process::receive::<()>()).await {
                seen(me, m)
            }
        }
    }
    if seed & 0x600 == 0x600 {
        loop {
            let m = Process::receive::<()>().await;
            seen(me, m)
        }
    }
    die(me, seed.wrapping_mul(2654435761) >> 11).await
}
/// `sel`: which operations this property concentrates on.
async fn script(me: u32, k: u32, sel: u32) {
    if params()[4] >> me & 1 == 1 {
        trap(me, true);
    }
    let mut s = Script(me, false);
    let mut mine: Vec<(Reference, i64, u32)> = Vec::new();
    for o in ops_of(me, k) {
        let t = any(k, o[2]);
        // Weighted choice: the operations in focus first.
        let table: &[u32] = match sel {
            3 => &[0, 0, 0, 1, 1, 2, 2, 3, 8, 9, 10, 10, 10, 11, 12, 7, 13],
            4 => &[4, 4, 4, 5, 5, 6, 6, 3, 8, 9, 10, 10, 10, 11, 12, 14, 13],
            _ => &[0, 1, 2, 3, 3, 3, 3, 4, 7, 7, 8, 9, 9, 10, 10, 10, 11, 12, 13, 13],
        };
        match table[o[0] as usize % table.len()] {
            0 if t != me => {
                let Some(pid) = pid_of(t) else { continue };
                log(ev::LINK, me, &[t as i64], "");
                Process::link(pid);
                log(ev::LINKED, me, &[t as i64], "");
            }
            1 if t != me => {
                let Some(pid) = pid_of(t) else { continue };
                log(ev::UNLINK, me, &[t as i64], "");
                Process::unlink(pid);
                log(ev::UNLINKED, me, &[t as i64], "");
            }
            2 => {
                let Some(c) = newborn() else { continue };
                let kid = Kid::new(c);
                log(ev::LINK, me, &[c as i64, 1], "");
                let pid = Process::spawn_link(kid.run(child(c, o[3], o[4] % 2 == 0)));
                set_pid(c, pid);
                log(ev::LINKED, me, &[c as i64, 1], "");
            }
            3 if t != me => signal(me, t, o[3]),
            4 if t != me => {
                let Some(pid) = pid_of(t) else { continue };
                let n = fresh();
                let named = t < k && o[3] % 3 == 0;
                log(ev::MONITOR, me, &[n, t as i64, named as i64], "");
                // The reference is known to the others only after the call.
                let r = match (named, o[4] % 4) {
                    (true, 0) => Process::monitor_alias(format!("actor{}", t), false),
                    (false, 0) => Process::monitor_alias(pid, true),
                    (true, _) => Process::monitor(format!("actor{}", t)),
                    (false, _) => Process::monitor(pid),
                };
                note_ref(r, me, t, n);
                mine.push((r, n, t));
                log(ev::MONITORED, me, &[n, t as i64], "");
            }
            5 if !mine.is_empty() => {
                let (r, n, t) = mine[o[3] as usize % mine.len()];
                log(ev::DEMONITOR, me, &[n, t as i64], "");
                Process::demonitor(r);
                log(ev::DEMONITORED, me, &[n, t as i64], "");
            }
            6 => {
                let Some(c) = newborn() else { continue };
                let kid = Kid::new(c);
                let n = fresh();
                log(ev::MONITOR, me, &[n, c as i64, 2], "");
                let (pid, r) = Process::spawn_monitor(kid.run(child(c, o[3], o[4] % 2 == 0)));
                set_pid(c, pid);
                note_ref(r, me, c, n);
                mine.push((r, n, c));
                log(ev::MONITORED, me, &[n, c as i64], "");
            }
            7 => trap(me, o[2] % 2 == 0),
            8 => {
                let Some(c) = newborn() else { continue };
                let kid = Kid::new(c);
                let pid = Process::spawn(kid.run(child(c, o[3], o[4] % 2 == 0)));
                set_pid(c, pid);
            }
            9 if o[2] % 3 == 0 => {
                die(me, o[3]).await;
                return;
            }
            10 => pause(o[2]).await,
            11 | 12 => {
                for _ in 0..o[2] % 3 + 1 {
                    match Process::timeout(ms(o[3] as u64 % 40), Process::receive::<()>()).await {
                        Ok(m) => seen(me, m),
                        Err(_) => break,
                    }
                }
            }
            13 => {
                let Some(pid) = pid_of(t) else { continue };
                log(ev::ALIVE, me, &[t as i64, -1], "");
                let a = Process::alive(pid);
                let l = Process::list().contains(&pid);
                log(ev::ALIVE, me, &[t as i64, a as i64, l as i64], "");
            }
            14 => {
                // A receive that rejects everything looks at all messages and leaves them.
                let f = Process::receiver().for_message::<u8>().select(|_| false);
                let _ = Process::timeout(ms(o[3] as u64 % 20), f).await;
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    loop {
        let m = Process::receive::<()>().await;
        seen(me, m)
    }
}

async fn observer(k: u32) {
    for i in 0..k {
        let Some(pid) = pid_of(i) else { continue };
        let n = fresh();
        log(ev::MONITOR, 80, &[n, i as i64, 0], "");
        let r = Process::monitor(pid);
        note_ref(r, 80, i, n);
        log(ev::MONITORED, 80, &[n, i as i64], "");
    }
    READY.fetch_add(1, Ordering::SeqCst);
    loop {
        let m = Process::receive::<()>().await;
        seen(80, m)
    }
}
static READY: AtomicU32 = AtomicU32::new(0);

pub async fn life(sel: u32) {
    let k = 2 + p(0, 4);
    let go = std::sync::Arc::new(tokio::sync::Semaphore::new(0));
    for i in 0..k {
        let go = go.clone();
        actor(i, async move {
            if Process::register(Process::current(), format!("actor{}", i)).is_err() {
                bad(i, "cannot register a free name");
            }
            READY.fetch_add(1, Ordering::SeqCst);
            let _ = go.acquire().await.map(|p| p.forget());
            script(i, k, sel).await;
        });
    }
    actor(80, observer(k));
    let t = now() + 5_000_000_000;
    while READY.load(Ordering::SeqCst) < k + 1 && now() < t {
        sleep(1).await;
    }
    go.add_permits(k as usize);
    wait_done(k, 20_000).await;
    sleep(5000).await;
    // The final census.
    let list = Process::list();
    let names = Process::registered();
    for a in 0..81 {
        let Some(pid) = pid_of(a) else { continue };
        let named = names.contains(&format!("actor{}", a));
        let info = Process::info(pid);
        log(ev::TABLE, a, &[list.contains(&pid) as i64, Process::alive(pid) as i64, named as i64, info.is_some() as i64], "");
    }
    let known: Vec<Pid> = (0..81).filter_map(pid_of).collect();
    if list.iter().any(|p| !known.contains(p)) {
        bad(99, "the process list holds an unknown process");
    }
}
