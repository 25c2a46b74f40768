//! C16: links, monitors and exit signals between nodes.
use std::sync::atomic::{AtomicU32, Ordering};

use hydra::{Dest, ExitReason, Message, Node, Pid, Process, ProcessFlags, Reference, SystemMessage};

use crate::dist::*;
use crate::w::*;

/// Every pid of another process this node has ever come to know.
static SEEN: Cell<Vec<(u32, u32, Pid)>> = Cell::new(Vec::new());
static KIDS: AtomicU32 = AtomicU32::new(0);
const MAX_KIDS: u32 = 30;

fn known(aid: u32) -> Option<(u32, Pid)> {
    let (i, pid, _) = far(aid)?;
    SEEN.with(|v| {
        if !v.contains(&(aid, i, pid)) {
            v.push((aid, i, pid));
        }
    });
    Some((i, pid))
}
fn who(pid: Pid) -> (i64, i64) {
    let find = || SEEN.with(|v| v.iter().rev().find(|x| x.2 == pid).map(|x| (x.0 as i64, x.1 as i64)));
    find().unwrap_or_else(|| {
        for n in 0..nodes() {
            for j in (0..3).chain(20..20 + MAX_KIDS) {
                known(100 * n + j);
            }
        }
        find().unwrap_or((-1, 0))
    })
}
fn reason(code: u32, me: u32) -> ExitReason {
    match code % 5 {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        _ => ExitReason::Custom(format!("r{}.{}", me, fresh())),
    }
}
/// Whether what is sent now goes to the node that is known, not to a later one.
fn conn(t: u32) -> i64 {
    let n = t / 100;
    (n == me_node() || Node::list_by_state(hydra::NodeState::Connected).contains(&node(n))) as i64
}
struct Me {
    me: u32,
    k: u32,
    mons: Vec<(Reference, i64, Dest)>,
    /// No other dials than the ones made before the beginning.
    strict: bool,
}
impl Me {
    fn target(&self, o: u32) -> u32 {
        let n = o % nodes();
        let kids = 4;
        match o / 8 % (self.k + kids) {
            x if x < self.k => 100 * n + x,
            x => 100 * n + 20 + (x - self.k + o / 64 % 3 * kids) % MAX_KIDS,
        }
    }
    fn monitor(&mut self, t: u32, how: u32) {
        let id = fresh();
        let Some((mut i, pid)) = known(t) else { return };
        if pid == Process::current() {
            return;
        }
        let mut d: Dest = pid.into();
        let mut named = 0;
        if how % 3 == 0 && t % 100 < 20 {
            if t / 100 == me_node() {
                return;
            }
            named = 1;
            i = 0;
            d = (format!("actor{}", t % 100), node(t / 100)).into();
        } else if how % 17 == 1 && t / 100 != me_node() {
            named = 2;
            i = 0;
            d = ("nobody", node(t / 100)).into();
        }
        log(ev::MONITOR, self.me, &[id, t as i64, i as i64, named, me_node() as i64, conn(t)], "");
        let r = Process::monitor(d.clone());
        self.mons.push((r, id, d));
        log(ev::MONITORED, self.me, &[id], "");
    }
    fn op(&mut self, o: &Op) {
        let t = self.target(o[2]);
        match o[0] % 16 {
            0 | 1 | 2 => self.monitor(t, o[3]),
            3 => {
                if !self.mons.is_empty() {
                    let (r, id, _) = self.mons.remove(o[3] as usize % self.mons.len());
                    log(ev::DEMONITOR, self.me, &[id], "");
                    Process::demonitor(r);
                    log(ev::DEMONITORED, self.me, &[id], "");
                }
            }
            4 | 5 => {
                if let Some((i, pid)) = known(t) {
                    log(ev::LINK, self.me, &[t as i64, i as i64, conn(t)], "");
                    Process::link(pid);
                    log(ev::LINKED, self.me, &[t as i64, i as i64], "");
                }
            }
            6 => {
                if let Some((i, pid)) = known(t) {
                    log(ev::UNLINK, self.me, &[t as i64, i as i64, conn(t)], "");
                    Process::unlink(pid);
                    log(ev::UNLINKED, self.me, &[t as i64, i as i64], "");
                }
            }
            7 => {
                if let Some((i, pid)) = known(t) {
                    if t == self.me {
                        return;
                    }
                    let r = reason(o[3], self.me);
                    log(ev::EXIT_MSG, self.me, &[t as i64, i as i64, reason_code(&r), conn(t)], &reason_text(&r));
                    Process::exit(pid, r);
                }
            }
            8 | 9 | 10 => spawn_kid(self.k, *o, self.strict),
            11 if !self.strict && t / 100 != me_node() => connect(self.me, t / 100),
            12 if !self.strict && t / 100 != me_node() && o[3] % 3 > 0 => disconnect(self.me, t / 100),
            13 if !self.strict && t / 100 != me_node() && o[3] % 4 == 0 => {
                log(ev::FORGET, self.me, &[(t / 100) as i64, 0], "");
                Node::forget(node(t / 100));
                log(ev::FORGET, self.me, &[(t / 100) as i64, 1], "");
            }
            14 if o[3] % 4 == 0 => {
                let r = reason(o[4], self.me);
                log(ev::EXIT, self.me, &[reason_code(&r)], &reason_text(&r));
                Process::exit(Process::current(), r);
            }
            _ => {}
        }
    }
    async fn take(&mut self, upto_ms: u64) {
        loop {
            let left = (upto_ms * 1_000_000).saturating_sub(now());
            if left == 0 {
                return;
            }
            match Process::timeout(ms(left / 1_000_000 + 1), Process::receive::<()>()).await {
                Ok(Message::System(SystemMessage::ProcessDown(d, r, reason))) => match self.mons.iter().position(|m| m.0 == r) {
                    Some(p) => {
                        let m = self.mons.remove(p);
                        if m.2 != d {
                            bad(self.me, "a down message names another destination");
                        }
                        log(ev::DOWN, self.me, &[m.1, reason_code(&reason)], &reason_text(&reason));
                    }
                    None => bad(self.me, "down message of a monitor that is gone"),
                },
                Ok(Message::System(SystemMessage::Exit(pid, reason))) => {
                    let w = who(pid);
                    log(ev::EXITED, self.me, &[w.0, w.1, reason_code(&reason)], &reason_text(&reason));
                }
                Ok(_) => bad(self.me, "unexpected message"),
                Err(_) => return,
            }
        }
    }
    async fn begin(&mut self, trap: bool) {
        if trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        log(ev::TRAP, self.me, &[trap as i64], "");
        publish(self.me, Process::current(), Reference::new());
        known(self.me);
    }
    async fn last(&mut self, plan: &Plan) {
        self.take(plan.t3).await;
        if (self.me / 100 + self.me + params()[20]) % 2 == 0 {
            let r = ExitReason::Custom(format!("final{}", self.me));
            log(ev::EXIT, self.me, &[reason_code(&r)], &reason_text(&r));
            Process::exit(Process::current(), r);
        }
        self.take(u64::MAX / 2_000_000).await;
    }
}
#[derive(Clone, Copy)]
struct Plan {
    start: u64,
    slot: u64,
    t1: u64,
    t2: u64,
    t3: u64,
    t4: u64,
}
fn plan(strict: bool) -> Plan {
    let slot = [30, 200, 500][p(1, 3) as usize];
    let start = if strict { 1000 } else { 20 };
    let t1 = start + SLOTS as u64 * slot + 100;
    let quiet = if strict { 3000 } else { beats(params()[2]).1 + 12_000 };
    Plan { start, slot, t1, t2: t1 + quiet, t3: t1 + quiet + 500, t4: t1 + quiet + 4000 }
}
fn spawn_kid(k: u32, o: Op, strict: bool) {
    let n = {
        let _np = NoPreempt::new();
        KIDS.fetch_add(1, Ordering::SeqCst)
    };
    if n >= MAX_KIDS {
        return;
    }
    let me = 100 * me_node() + 20 + n;
    let kid = Kid::new(me);
    log(ev::SPAWN, me, &[], "");
    Process::spawn(kid.run(async move {
        let mut s = Me { me, k, mons: Vec::new(), strict };
        s.begin(o[3] % 2 == 0).await;
        let t = s.target(o[4]);
        match o[3] / 2 % 4 {
            0 | 1 => s.op(&[4, 0, o[4], 0, 0, 0, 0, 0]),
            2 => s.monitor(t, o[5]),
            _ => {}
        }
        match o[5] % 4 {
            0 => s.take(now() / 1_000_000 + o[2] as u64 % 50).await,
            1 => s.take(now() / 1_000_000 + o[2] as u64 % 1500).await,
            2 => {}
            _ => s.last(&plan(strict)).await,
        }
        let r = reason(o[5] / 4, me);
        if o[5] / 4 % 5 != 0 {
            log(ev::EXIT, me, &[reason_code(&r)], &reason_text(&r));
            Process::exit(Process::current(), r);
        }
    }));
}
/// Who is linked to, and monitors, the processes of this node.
fn leaks(k: u32) {
    for j in (0..k).chain(20..20 + KIDS.load(Ordering::SeqCst).min(MAX_KIDS)) {
        let aid = 100 * me_node() + j;
        let Some((i, pid, _)) = far(aid) else { continue };
        if i != inc() || pid.is_remote() {
            continue;
        }
        let Some(info) = Process::info(pid) else { continue };
        log(ev::LEAK, aid, &[-1, 0, 0], "");
        for x in &info.monitored_by {
            let w = who(*x);
            log(ev::LEAK, aid, &[w.0, w.1, 0], "");
        }
        for x in &info.links {
            let w = who(*x);
            log(ev::LEAK, aid, &[w.0, w.1, 1], "");
        }
    }
}
pub async fn c16(faulty: bool) {
    let strict = !faulty;
    let k = 1 + p(0, 3);
    let pl = plan(strict);
    let (hb, ht) = if faulty { beats(params()[2]) } else { beats(0) };
    Node::set_cookie("cookie");
    Node::start(node_name(me_node()), options(hb, ht, if strict { 60_000 } else { 3000 }));
    for i in 0..k {
        let me = 100 * me_node() + i;
        actor(me, async move {
            let mut s = Me { me, k, mons: Vec::new(), strict };
            s.begin(params()[8 + (me_node() * 3 + i) as usize % 9] % 3 > 0).await;
            if Process::register(Process::current(), format!("actor{}", i)).is_err() {
                bad(me, "cannot register a free name");
            }
            log(ev::REGISTERED, me, &[], "");
            for slot in 0..SLOTS {
                let start = pl.start + slot as u64 * pl.slot;
                if now() / 1_000_000 > start + pl.slot {
                    continue;
                }
                s.take(start).await;
                for o in slot_ops(me_node() * k + i, k * nodes(), slot) {
                    s.op(&o);
                    if o[7] % 4 == 0 {
                        s.take(now() / 1_000_000 + o[7] as u64 % 30).await;
                    }
                }
            }
            log(ev::SCRIPT_END, me, &[], "");
            s.last(&pl).await;
        });
    }
    for peer in 0..nodes() {
        if peer == me_node() {
            continue;
        }
        let w = params()[(17 + me_node() * 3 + peer) as usize % 32];
        if strict && peer > me_node() {
            keeper(peer, 20, 100);
        } else if !strict && w % 3 > 0 {
            keeper(peer, w as u64 / 16 % (4 * pl.slot), 20 + w as u64 / 64 % 500);
        }
    }
    until(pl.t1).await;
    calm();
    until(pl.t2).await;
    for peer in 0..nodes() {
        if peer != me_node() {
            look(100 * me_node() + 99, peer);
        }
    }
    leaks(k);
    until(pl.t4).await;
    // In the end every connection of a node is cut.
    if strict && params()[21] % 4 > 0 {
        if me_node() == params()[21] / 4 % nodes() {
            Process::spawn(async {
                for peer in (0..nodes()).filter(|p| *p != me_node()) {
                    disconnect(100 * me_node() + 99, peer);
                }
            });
        }
        until(pl.t4 + 2000).await;
        leaks(k);
        sleep(1).await;
    }
    if me_node() != 0 {
        sleep(3_600_000).await;
    }
}
