//! C17: nodes as others see them.
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

use hydra::{Message, Node, Process, Reference, SystemMessage};

use crate::dist::*;
use crate::w::*;

/// Node::stop and Node::start are called by one process only.
static RUNNING: AtomicBool = AtomicBool::new(true);
/// What the last phase wants from the actors: 0 nothing, 1 monitor every node again.
static WANT: AtomicU32 = AtomicU32::new(0);

struct Me {
    me: u32,
    mons: Vec<(Reference, i64, u32)>,
    boss: bool,
    times: (u64, u64, u64),
}
fn fault(kind: u32, a: [u32; 4]) {
    let f = simapi::Fault { trigger: 0, kind, at: 0, a };
    unsafe { simapi::sim_fault(&f) }
}
fn forget(me: u32, peer: u32) {
    log(ev::FORGET, me, &[peer as i64, 0], "");
    Node::forget(node(peer));
    log(ev::FORGET, me, &[peer as i64, 1], "");
}
async fn restart(me: u32, times: (u64, u64, u64), pause_ms: u64) {
    RUNNING.store(false, Ordering::SeqCst);
    log(ev::NODE_STOP, me, &[0], "");
    Node::stop();
    log(ev::NODE_STOP, me, &[1], "");
    // In parts: a paused machine must have some time for the end of the old node.
    for _ in 0..5 {
        sleep(pause_ms / 5).await;
    }
    log(ev::NODE_STARTED, me, &[0], "");
    Node::start(node_name(me_node()), options(times.0, times.1, times.2));
    log(ev::NODE_STARTED, me, &[1], "");
    // Attempts that are given up at once, before the new node has run at all.
    let w = pause_ms % 4;
    for peer in (0..nodes()).filter(|x| *x != me_node() && w > 1) {
        connect(me, peer);
        if w == 2 {
            disconnect(me, peer);
        } else {
            forget(me, peer);
        }
    }
    RUNNING.store(true, Ordering::SeqCst);
}
impl Me {
    fn monitor(&mut self, peer: u32) {
        let id = fresh();
        log(ev::NMON, self.me, &[peer as i64, 0, id], "");
        let r = Node::monitor(node(peer));
        self.mons.push((r, id, peer));
        log(ev::NMON, self.me, &[peer as i64, 1, id], "");
    }
    async fn op(&mut self, o: &Op, strict: bool) {
        let peer = (me_node() + 1 + o[2] % (nodes() - 1)) % nodes();
        // Sometimes only one of two nodes dials.
        let may = params()[6] % 3 > 0 || me_node() < peer;
        match o[0] % 14 {
            0 | 1 | 2 | 3 if may => self.monitor(peer),
            4 | 5 if may => connect(self.me, peer),
            6 | 7 => {
                if !self.mons.is_empty() {
                    let (r, id, p) = self.mons.remove(o[3] as usize % self.mons.len());
                    log(ev::NDEMON, self.me, &[p as i64, 0, id], "");
                    Node::demonitor(r);
                    log(ev::NDEMON, self.me, &[p as i64, 1, id], "");
                }
            }
            8 if params()[7] % 3 > 0 => {
                look(self.me, peer);
                disconnect(self.me, peer);
            }
            9 if params()[7] % 3 > 0 => forget(self.me, peer),
            10 if self.boss && params()[7] % 4 == 3 => restart(self.me, self.times, 60 + o[3] as u64 % 400).await,
            11 => self.list(),
            12 => pause(o[3]).await,
            _ => {
                look(self.me, peer);
            }
        }
        let _ = strict;
    }
    /// The lists must agree with each other, as far as they can.
    fn list(&self) {
        let l = Node::list();
        for (i, n) in l.iter().enumerate() {
            if n.is_local() || node_no(n) < 0 || node_no(n) == me_node() as i64 {
                bad(self.me, "the list of nodes has one that is none");
            }
            if l[..i].contains(n) {
                bad(self.me, "the list of nodes has one twice");
            }
        }
    }
    async fn take(&mut self, upto_ms: u64) {
        loop {
            let left = (upto_ms * 1_000_000).saturating_sub(now());
            if left == 0 {
                return;
            }
            match Process::timeout(ms(left / 1_000_000 + 1), Process::receive::<()>()).await {
                Ok(Message::System(SystemMessage::NodeDown(n, r))) => match self.mons.iter().position(|m| m.0 == r) {
                    Some(p) => {
                        let m = self.mons.remove(p);
                        if n != node(m.2) {
                            bad(self.me, "a node-down message names another node");
                        }
                        log(ev::NODE_DOWNMSG, self.me, &[m.2 as i64, m.1], "");
                    }
                    None => bad(self.me, "node-down message of a monitor that is gone"),
                },
                Ok(_) => bad(self.me, "unexpected message"),
                Err(_) => return,
            }
        }
    }
    async fn wait_for(&mut self, want: u32) {
        while WANT.load(Ordering::SeqCst) < want {
            let t = now() / 1_000_000 + 20;
            self.take(t).await;
        }
    }
}
fn look_all(phase: i64) {
    log(ev::HEAL, 0, &[phase], "");
    for peer in 0..nodes() {
        if peer != me_node() {
            look(100 * me_node() + 99, peer);
        }
    }
    log(ev::HEAL, 0, &[phase, 1], "");
}
pub async fn c17(faulty: bool) {
    let strict = !faulty;
    let k = 1 + p(0, 2);
    let slot = [30, 200, 500][p(1, 3) as usize];
    let (hb, ht) = [(200, 1500), (1000, 5000), (400, 2500)][p(2, 3) as usize];
    let hs = [1500, 800, 3000][p(3, 3) as usize];
    let times = (hb, ht, hs);
    let start = 20;
    let t1 = start + SLOTS as u64 * slot + 100;
    let quiet = ht + 3 * hs + 2000 + if faulty { 5000 } else { 0 };
    let t2 = t1 + quiet;
    Node::set_cookie("cookie");
    Node::start(node_name(me_node()), options(hb, ht, hs));
    for i in 0..k {
        let me = 100 * me_node() + i;
        actor(me, async move {
            let mut s = Me { me, mons: Vec::new(), boss: i == 0, times };
            for j in 0..SLOTS {
                let at = start + j as u64 * slot;
                if now() / 1_000_000 > at + slot {
                    continue;
                }
                s.take(at).await;
                for o in slot_ops(me_node() * k + i, k * nodes(), j) {
                    s.op(&o, strict).await;
                    if o[7] % 4 == 0 {
                        let t = now() / 1_000_000 + o[7] as u64 % 30;
                        s.take(t).await;
                    }
                }
            }
            log(ev::SCRIPT_END, me, &[], "");
            s.wait_for(1).await;
            // One node dials, in the end, and everything must stay up.
            if i == 0 {
                for peer in 0..nodes() {
                    if me_node() < peer {
                        s.monitor(peer);
                    }
                }
            }
            s.wait_for(2).await;
            if i == 0 {
                for peer in 0..nodes() {
                    if me_node() > peer {
                        s.monitor(peer);
                    }
                }
            }
            s.wait_for(3).await;
        });
    }
    until(t1).await;
    calm();
    until(t2).await;
    // Everything is settled.
    look_all(1);
    until(t2 + 100).await;
    if me_node() == 0 {
        let me = 98;
        actor(me, async move {
            for peer in 1..nodes() {
                match p(4, 3) {
                    0 => disconnect(me, peer),
                    1 => forget(me, peer),
                    _ => {}
                }
            }
            if p(4, 3) == 2 {
                while !RUNNING.load(Ordering::SeqCst) {
                    sleep(50).await;
                }
                restart(me, times, 500).await;
            }
            Process::receive::<()>().await;
        });
    }
    let t3 = t2 + 1500;
    until(t3).await;
    look_all(2);
    until(t3 + 100).await;
    WANT.store(1, Ordering::SeqCst);
    until(t3 + 500).await;
    WANT.store(2, Ordering::SeqCst);
    let t4 = t3 + 500 + 2 * ht + 1000;
    until(t4).await;
    look_all(3);
    until(t4 + 100).await;
    if me_node() != 0 {
        sleep(3_600_000).await;
    }
}
/// The configured times, to the millisecond.
pub async fn times() {
    let (hb, ht) = [(200, 1500), (100, 600), (1000, 5000), (5000, 45_000), (300, 900), (50, 3000)][p(0, 6) as usize];
    let hs = [3000, 300, 1000, 8000][p(1, 4) as usize];
    let case = p(2, 6);
    let b = params()[3] as u64;
    calm();
    Node::set_cookie("cookie");
    let there = !(case == 3 && me_node() == 1);
    if there {
        Node::start(node_name(me_node()), options(hb, ht, hs));
    }
    log(ev::NODE_STARTED, 0, &[hb as i64, ht as i64, hs as i64, case as i64], "");
    let me = 100 * me_node();
    let early = matches!(case, 0 | 1 | 5);
    if there {
        actor(me, async move {
            let mut s = Me { me, mons: Vec::new(), boss: true, times: (hb, ht, hs) };
            s.take(if early { 1000 } else { 2000 }).await;
            if me_node() == 0 {
                s.monitor(1);
            } else if early {
                s.take(1200).await;
                s.monitor(0);
            }
            s.take(u64::MAX / 2_000_000).await;
        });
    }
    let end;
    match case {
        // Short silences: in one or both directions.
        0 => {
            let max = ht - hb - 50;
            let mut t = 2000;
            for i in 0..3 {
                let d = 10 + (b >> (4 * i)) * 97 % (max - 10);
                if me_node() == 0 {
                    until(t).await;
                    silence(b >> i, d);
                }
                t += d + hb + 100 + (b >> i) * 31 % (2 * ht);
            }
            end = t + 2 * ht;
        }
        // A long one.
        1 => {
            let t = 2000 + b / 16 * 37 % (2 * hb);
            if me_node() == 0 {
                until(t).await;
                silence(b, 20 * ht);
            }
            end = t + 2 * ht + 1000;
        }
        // Nobody answers.
        2 => {
            if me_node() == 1 {
                until(1000).await;
                fault(simapi::fault::CRASH, [1, 2, 0, 0]);
                sleep(3_600_000).await;
            }
            end = 2000 + hs + 1000;
        }
        // Nobody is there.
        3 => end = 3000,
        // The peer accepts but its greeting never comes.
        4 => {
            if me_node() == 0 {
                until(1990).await;
                fault(simapi::fault::PAUSE, [1, 60_000_000, 0, 0]);
            }
            end = 2000 + 2 * hs + 1000;
        }
        // Nothing at all happens.
        _ => end = 2000 + 3 * ht + b * 53 % (3 * ht),
    }
    until(end).await;
    if me_node() != 0 {
        sleep(3_600_000).await;
    }
    look(99, 1);
    sleep(10).await;
}
fn silence(how: u64, d_ms: u64) {
    let us = (d_ms * 1000) as u32;
    log(ev::NOTE, 0, &[d_ms as i64, (how % 3) as i64], "silence");
    match how % 3 {
        0 => fault(simapi::fault::PARTITION, [0, 1, us, 0]),
        1 => fault(simapi::fault::ONEWAY, [0, 1, us, 0]),
        _ => fault(simapi::fault::ONEWAY, [1, 0, us, 0]),
    }
}
