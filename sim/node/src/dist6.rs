//! C20: calls to servers on other nodes.
use std::sync::atomic::{AtomicU32, Ordering};

use hydra::{Dest, ExitReason, GenServer, GenServerOptions, Message, Node, Pid, Process, ProcessFlags, SystemMessage};

use crate::dist::*;
use crate::server::{call, far_fresh, Plan, Rq, Srv};
use crate::w::*;

const START: u64 = 1500;
static BORN: AtomicU32 = AtomicU32::new(0);

/// The server last started for a slot of a node: its number and pid.
fn put(slot: u32, aid: u32, pid: Pid) {
    let b = rmp_serde::to_vec(&(aid, pid)).unwrap();
    unsafe { simapi::sim_board_put((1 << 32) + (10 * me_node() + slot) as u64, b.as_ptr(), b.len()) }
}
fn seen(n: u32, slot: u32) -> Option<(u32, Pid)> {
    let mut b = [0u8; 256];
    let l = unsafe { simapi::sim_board_get((1 << 32) + (10 * n + slot) as u64, b.as_mut_ptr(), b.len()) };
    if l < 0 {
        return None;
    }
    rmp_serde::from_slice(&b[..l as usize]).ok()
}
fn name(slot: u32) -> String {
    format!("srv{}", slot)
}
fn named(n: u32, slot: u32) -> Dest {
    if n == me_node() {
        name(slot).into()
    } else {
        (name(slot), node(n)).into()
    }
}
async fn start_slot(me: u32, slot: u32, o: u32) {
    let k = BORN.fetch_add(1, Ordering::SeqCst);
    if k > 80 {
        return;
    }
    let c = 1000 * inc() + 100 * me_node() + 10 + k;
    let plan = Plan { init: (o % 8 == 0) as u32, init_ms: o as u64 / 8 % 10, trap: o % 3 == 0, ..Plan::default() };
    log(ev::STARTING, me, &[c as i64, slot as i64], "");
    let r = Srv::new(c, plan).start(GenServerOptions::new().name(name(slot))).await;
    log(ev::STARTED, me, &[c as i64, r.is_ok() as i64, slot as i64], &r.as_ref().err().map(reason_text).unwrap_or_default());
    if let Ok(pid) = r {
        put(slot, c, pid);
    }
}
fn timeout_of(o: u32) -> Option<u64> {
    match o % 8 {
        0 => None,
        1 => Some(0),
        2 => Some(1 + o as u64 / 8 % 20),
        3 | 4 => Some(o as u64 / 8 % 250),
        5 | 6 => Some(100 + o as u64 / 8 % 900),
        _ => Some(400 + o as u64 / 8 % 3000),
    }
}
fn why(me: u32, o: u32) -> ExitReason {
    match o % 5 {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        _ => ExitReason::Custom(format!("y{}-{}", me, far_fresh())),
    }
}
async fn stop(me: u32, dest: Dest, target: i64, slot: i64, o: &Op) {
    let r = why(me, o[4]);
    let t = match o[5] % 3 {
        0 => None,
        _ => Some(o[5] as u64 / 3 % 900),
    };
    let id = far_fresh();
    log(ev::STOP, me, &[id, target, slot, t.map(|t| t as i64 * 1000).unwrap_or(-1)], &reason_text(&r));
    let q = Srv::stop(dest, r, t.map(ms)).await;
    log(ev::STOPPED, me, &[id, q.is_ok() as i64], &q.err().map(|e| reason_text(&e)).unwrap_or_default());
}
struct Client {
    me: u32,
}
impl Client {
    /// Nothing may be in the mailbox but what belongs there.
    async fn look(&self, upto_ms: u64) {
        while let Ok(m) = Process::timeout(ms(upto_ms), Process::receive::<()>()).await {
            match m {
                Message::System(SystemMessage::Exit(..)) => {}
                Message::User(_) => bad(self.me, "a stray message in the mailbox of a caller"),
                _ => bad(self.me, "a stray system message in the mailbox of a caller"),
            }
        }
    }
    async fn op(&self, o: &Op, slots: u32, strict: bool) {
        let me = self.me;
        let slot = o[2] / 8 % slots;
        let n = if o[2] % 8 == 0 { me_node() } else { (me_node() + 1 + o[2] % 8 % (nodes() - 1)) % nodes() };
        let by_pid = seen(n, slot).filter(|_| o[3] % 3 > 0);
        let pick = || match by_pid {
            Some((c, pid)) => (Dest::from(pid), c as i64, -1),
            None => (named(n, slot), -1, (10 * n + slot) as i64),
        };
        match o[0] % 15 {
            0..=6 => {
                let (d, c, s) = pick();
                call(me, d, c, s, o[4], o[5], timeout_of(o[7])).await;
            }
            7 => {
                let (d, c, s) = pick();
                let id = far_fresh();
                log(ev::CAST, me, &[id, c, s], "");
                Srv::cast(d, Rq::Do { id, kind: o[4], arg: o[5] });
            }
            8 => start_slot(me, slot, o[3]).await,
            9 => {
                let (d, c, s) = pick();
                stop(me, d, c, s, o).await;
            }
            10 => {
                if let Some((c, pid)) = seen(n, slot) {
                    let r = why(me, o[4]);
                    log(ev::EXIT, me, &[c as i64, reason_code(&r)], &reason_text(&r));
                    Process::exit(pid, r);
                }
            }
            11 => self.look(o[3] as u64 % 30).await,
            12 if !strict && n != me_node() => connect(me, n),
            13 if !strict && n != me_node() && o[3] % 2 == 0 => disconnect(me, n),
            _ => pause(o[3]).await,
        }
    }
}
pub async fn c20(strict: bool) {
    let k = 1 + p(0, 3);
    let slots = 1 + p(1, 3);
    let slot_ms = [100, 400, 900][p(2, 3) as usize];
    let (hb, ht, hs) = if strict { (5000, 45_000, 3000) } else { [(200, 1500, 1500), (1000, 5000, 800), (400, 2500, 3000)][p(3, 3) as usize] };
    let base = 100 * me_node();
    let start = if strict { START } else { 50 };
    let t1 = start + SLOTS as u64 * slot_ms + 100;
    Node::set_cookie("cookie");
    Node::start(node_name(me_node()), options(hb, ht, hs));
    log(ev::NODE_STARTED, 0, &[1], "");
    for peer in 0..nodes() {
        if peer != me_node() && (strict && me_node() < peer || !strict && params()[(8 + me_node() * 3 + peer) as usize] % 2 == 0) {
            keeper(peer, if strict { 50 } else { 0 }, 30 + params()[(8 + me_node() * 3 + peer) as usize] as u64 % 300);
        }
    }
    let actor5 = base + 5;
    actor(actor5, async move {
        for s in 0..slots {
            start_slot(actor5, s, params()[20 + s as usize] * 8 + 1).await;
        }
        loop {
            Process::receive::<()>().await;
        }
    });
    for i in 0..k {
        let me = base + i;
        actor(me, async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let c = Client { me };
            for j in 0..SLOTS {
                let at = start + j as u64 * slot_ms;
                if now() / 1_000_000 > at + 4 * slot_ms {
                    continue;
                }
                until(at).await;
                for o in slot_ops(me_node() * k + i, k * nodes(), j) {
                    c.op(&o, slots, strict).await;
                }
            }
            c.look(1).await;
            log(ev::SCRIPT_END, me, &[], "");
            until(t1 + 9000).await;
            c.look(1).await;
            if i == 0 {
                // Everything that is left must answer.
                for n in 0..nodes() {
                    for s in 0..slots {
                        let Some((aid, pid)) = seen(n, s) else { continue };
                        for _ in 0..20 {
                            log(ev::PROBE, me, &[n as i64, aid as i64], "");
                            let t = now();
                            if call(me, Dest::from(pid), aid as i64, -2, 0, 0, Some(1500)).await {
                                log(ev::PROBE_RET, me, &[n as i64, aid as i64], "");
                                break;
                            }
                            sleep(300u64.saturating_sub((now() - t) / 1_000_000) + 20).await;
                        }
                    }
                }
            }
            loop {
                c.look(5000).await;
            }
        });
    }
    until(t1).await;
    calm();
    until(t1 + 9000 + if strict { 4000 } else { 20_000 }).await;
    if me_node() != 0 {
        sleep(3_600_000).await;
    }
}
