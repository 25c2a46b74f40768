//! C19: nodes find each other again.
use std::sync::atomic::{AtomicBool, Ordering};

use hydra::{ExitReason, Message, Node, Pid, Process, ProcessFlags, SystemMessage};
use serde::{Deserialize, Serialize};

use crate::dist::*;
use crate::w::*;

static RUNNING: AtomicBool = AtomicBool::new(true);

#[derive(Serialize, Deserialize, Clone)]
enum E {
    Chat { from: u32, inc: u32, seq: u64, pad: String },
    /// Who asks (by name), on which node and in which life, and its number.
    Probe { name: String, at: u32, inc: u32, n: u32 },
    Ack { inc: u32, n: u32 },
    /// Some processes to play with.
    Spawn { name: String, at: u32, inc: u32, n: u32 },
    Kids { inc: u32, n: u32, kids: Vec<Pid> },
    Die(String),
}
#[derive(Clone, Copy)]
struct Plan {
    k: u32,
    slot: u64,
    times: (u64, u64, u64),
    retry: u64,
    aligned: bool,
    t1: u64,
    end: u64,
}
fn plan(faulty: bool) -> Plan {
    let k = 1 + p(0, 2);
    let slot = [30, 200, 500][p(1, 3) as usize];
    let (hb, ht) = [(200, 1500), (1000, 5000), (400, 2500)][p(2, 3) as usize];
    let hs = [1500, 800, 3000][p(3, 3) as usize];
    let retry = [50, 200, 700, 1500][p(4, 4) as usize];
    let t1 = 20 + SLOTS as u64 * slot + 100;
    // Faults may last, and machines start, 3 s longer.
    let from = t1 + if faulty { 3200 } else { 600 };
    let settle = ht + 2 * hs + 1500 + 6 * retry;
    let plan = Plan { k, slot, times: (hb, ht, hs), retry, aligned: p(5, 3) > 0, t1, end: from + settle + 7000 + 2 * ht };
    // The history says what was promised: from when, until when it must be stable, until when it works.
    log(ev::HEAL, 0, &[from as i64, settle as i64, 4000, plan.end as i64], "");
    plan
}
fn forget(me: u32, peer: u32) {
    log(ev::FORGET, me, &[peer as i64, 0], "");
    Node::forget(node(peer));
    log(ev::FORGET, me, &[peer as i64, 1], "");
}
async fn restart(me: u32, times: (u64, u64, u64), pause_ms: u64) {
    RUNNING.store(false, Ordering::SeqCst);
    log(ev::NODE_STOP, me, &[0], "");
    Node::stop();
    log(ev::NODE_STOP, me, &[1], "");
    for _ in 0..5 {
        sleep(pause_ms / 5).await;
    }
    log(ev::NODE_STARTED, me, &[0], "");
    Node::start(node_name(me_node()), options(times.0, times.1, times.2));
    log(ev::NODE_STARTED, me, &[1], "");
    RUNNING.store(true, Ordering::SeqCst);
}
// -------------------------------------------------------------------- who talks all the time
struct Chat {
    me: u32,
    seq: Vec<u64>,
    k: u32,
}
impl Chat {
    /// To the chat process `t` (its number).
    fn say(&mut self, t: u32, size: u32) {
        let i = ((t / 100) * self.k + t % 100) as usize;
        if self.seq.len() <= i {
            self.seq.resize(i + 1, 0);
        }
        self.seq[i] += 1;
        let seq = self.seq[i];
        log(ev::SEND, self.me, &[t as i64, seq as i64, 0], "");
        Process::send((format!("chat{}", t % 100), node(t / 100)), E::Chat { from: self.me, inc: inc(), seq, pad: "x".repeat(size as usize) });
        log(ev::SEND, self.me, &[t as i64, seq as i64, 1], "");
    }
    async fn hear(&mut self, upto_ms: u64) {
        loop {
            let left = (upto_ms * 1_000_000).saturating_sub(now());
            if left == 0 {
                return;
            }
            match Process::timeout(ms(left / 1_000_000 + 1), Process::receive::<E>()).await {
                Ok(Message::User(E::Chat { from, inc, seq, .. })) => log(ev::RECV, self.me, &[from as i64, inc as i64, seq as i64], ""),
                Ok(_) => bad(self.me, "a chat process received something else"),
                Err(_) => return,
            }
        }
    }
}
fn chat_no(i: u32, k: u32) -> u32 {
    100 * (i / k) + i % k
}
async fn chat(me: u32, i: u32, pl: Plan) {
    let mut c = Chat { me, seq: Vec::new(), k: pl.k };
    let total = nodes() * pl.k;
    let others: Vec<u32> = (0..total).map(|j| chat_no(j, pl.k)).filter(|t| t / 100 != me_node()).collect();
    for s in 0..SLOTS {
        let at = 20 + s as u64 * pl.slot;
        if now() / 1_000_000 > at + pl.slot {
            continue;
        }
        c.hear(at).await;
        for o in slot_ops(i, total, s) {
            let t = others[o[2] as usize % others.len()];
            let peer = t / 100;
            match o[0] % 16 {
                0..=4 => {
                    for j in 0..1 + o[3] % 4 {
                        c.say(t, [3, 30, 500, 4000, 60_000][(o[4] + j) as usize % 5]);
                    }
                }
                5 | 6 => {
                    watch_once(me, peer, o[5] as u64 % 3000);
                }
                7 | 8 => connect(me, peer),
                9 | 10 if p(6, 3) > 0 => disconnect(me, peer),
                11 if p(6, 3) > 0 => forget(me, peer),
                12 if i % pl.k == 0 && p(7, 3) == 2 => restart(me, pl.times, 60 + o[3] as u64 % 400).await,
                13 | 14 => wait_for_kid(peer),
                _ => pause(o[3]).await,
            }
        }
    }
    log(ev::SCRIPT_END, me, &[], "");
    let mut n = 0;
    loop {
        let t = now() / 1_000_000;
        c.hear(t + 250).await;
        if now() / 1_000_000 > pl.t1 {
            c.say(others[n % others.len()], 100);
            n += 1;
        }
    }
}
/// A process that wants to know when a node is lost.
fn watch_once(_me: u32, peer: u32, for_ms: u64) {
    let me = 100 * me_node() + 80 + peer;
    Process::spawn(async move {
        let id = fresh();
        log(ev::NMON, me, &[peer as i64, 0, id], "");
        let r = Node::monitor(node(peer));
        log(ev::NMON, me, &[peer as i64, 1, id], "");
        let got = Process::timeout(ms(for_ms + 1), Process::receive::<E>()).await;
        match got {
            Ok(Message::System(SystemMessage::NodeDown(n, x))) if x == r && n == node(peer) => log(ev::NODE_DOWNMSG, me, &[peer as i64, id], ""),
            Ok(_) => bad(me, "unexpected message"),
            Err(_) => Node::demonitor(r),
        }
    });
}
/// A process that waits for the end of another node's process.
fn wait_for_kid(peer: u32) {
    let me = 100 * me_node() + 70 + peer;
    Process::spawn(async move {
        let id = fresh();
        log(ev::MONITOR, me, &[peer as i64, id], "");
        let r = Process::monitor(("kid", node(peer)));
        log(ev::MONITORED, me, &[peer as i64, id], "");
        loop {
            match Process::receive::<E>().await {
                Message::System(SystemMessage::ProcessDown(_, x, reason)) if x == r => log(ev::DOWN, me, &[peer as i64, id], &reason_text(&reason)),
                _ => bad(me, "a waiting process received something else"),
            }
        }
    });
}
// -------------------------------------------------------------------- who answers
async fn echo(me: u32) {
    if Process::register(Process::current(), "echo").is_err() {
        bad(me, "cannot register");
    }
    loop {
        match Process::receive::<E>().await {
            Message::User(E::Probe { name, at, inc, n }) => Process::send((name, node(at)), E::Ack { inc, n }),
            Message::User(E::Spawn { name, at, inc, n }) => {
                let kids = (0..3).map(|_| Process::spawn(kid())).collect();
                Process::send((name, node(at)), E::Kids { inc, n, kids })
            }
            _ => bad(me, "the echo received something else"),
        }
    }
}
async fn kid() {
    loop {
        if let Message::User(E::Die(s)) = Process::receive::<E>().await {
            Process::exit(Process::current(), ExitReason::Custom(s));
        }
    }
}
// -------------------------------------------------------------------- who tries
enum Got {
    Msg(E),
    /// The node is down.
    Lost,
    Down(hydra::Reference, String),
    Exit(Pid, String),
    Late,
}
struct Prober {
    me: u32,
    peer: u32,
    watching: Option<hydra::Reference>,
    links: Vec<Pid>,
}
impl Prober {
    async fn get(&mut self, upto: u64) -> Got {
        loop {
            let left = (upto * 1_000_000).saturating_sub(now());
            if left == 0 {
                return Got::Late;
            }
            match Process::timeout(ms(left / 1_000_000 + 1), Process::receive::<E>()).await {
                Ok(Message::User(m)) => return Got::Msg(m),
                Ok(Message::System(SystemMessage::NodeDown(n, r))) => {
                    if n != node(self.peer) || self.watching != Some(r) {
                        bad(self.me, "a node-down message of no monitor of this process");
                    }
                    self.watching = None;
                    log(ev::NODE_DOWNMSG, self.me, &[self.peer as i64], "");
                    return Got::Lost;
                }
                Ok(Message::System(SystemMessage::ProcessDown(_, r, x))) => return Got::Down(r, reason_text(&x)),
                Ok(Message::System(SystemMessage::Exit(p, x))) => {
                    match self.links.iter().position(|l| *l == p) {
                        Some(i) => {
                            self.links.remove(i);
                        }
                        None => bad(self.me, "an exit signal of a process that is not linked any more"),
                    }
                    return Got::Exit(p, reason_text(&x));
                }
                Err(_) => return Got::Late,
            }
        }
    }
    /// One attempt; true if everything works.
    async fn attempt(&mut self, n: u32, upto: u64) -> Option<()> {
        let (me, peer) = (self.me, self.peer);
        log(ev::PROBE, me, &[peer as i64, n as i64], "");
        if self.watching.is_none() {
            self.watching = Some(watch(me, peer));
        }
        let name = format!("prober{}", peer);
        Process::send(("echo", node(peer)), E::Probe { name: name.clone(), at: me_node(), inc: inc(), n });
        loop {
            match self.get(upto).await {
                Got::Msg(E::Ack { inc: i, .. }) if i == inc() => break,
                Got::Msg(_) => {}
                Got::Late | Got::Lost => return None,
                // Of an earlier attempt.
                Got::Down(..) | Got::Exit(..) => {}
            }
        }
        // The connection is there: everything has to work.
        let late = |stage: i64| {
            log(ev::LEAK, me, &[peer as i64, stage, n as i64], "");
            None
        };
        let patience = 2500;
        let t = now() / 1_000_000 + patience;
        Process::send(("echo", node(peer)), E::Spawn { name, at: me_node(), inc: inc(), n });
        let kids = loop {
            match self.get(t).await {
                Got::Msg(E::Kids { inc: i, n: m, kids }) if i == inc() && n == m => break kids,
                Got::Lost => return None,
                Got::Late => return late(1),
                _ => {}
            }
        };
        let mut want: Vec<(hydra::Reference, String)> = Vec::new();
        let mut exits: Vec<(Pid, String)> = Vec::new();
        let say = |i: u32| format!("{}.{}.{}", me, n, i);
        for (i, k) in kids.iter().enumerate() {
            let i = i as u32;
            if i != 1 {
                want.push((Process::monitor(*k), say(i)));
            }
            if i != 0 {
                Process::link(*k);
                self.links.push(*k);
                exits.push((*k, say(i)));
            }
        }
        Process::send(kids[0], E::Die(say(0)));
        Process::send(kids[1], E::Die(say(1)));
        // Through the link with the third, its monitor tells the same.
        Process::exit(kids[2], ExitReason::Custom(say(2)));
        let t = now() / 1_000_000 + patience;
        while !want.is_empty() || !exits.is_empty() {
            match self.get(t).await {
                Got::Down(r, s) => {
                    if let Some(i) = want.iter().position(|w| w.0 == r) {
                        if want[i].1 != s && s != "noconnection" {
                            bad(me, "a process of another node was reported down with another reason");
                        }
                        want.remove(i);
                    }
                }
                Got::Exit(p, s) => {
                    if let Some(i) = exits.iter().position(|w| w.0 == p) {
                        if exits[i].1 != s && s != "noconnection" {
                            bad(me, "a link to a process of another node signalled another reason");
                        }
                        exits.remove(i);
                    }
                }
                Got::Lost => return None,
                Got::Late => return late(2),
                Got::Msg(_) => {}
            }
        }
        Some(())
    }
    async fn run(mut self, pl: Plan) {
        let name = format!("prober{}", self.peer);
        if Process::register(Process::current(), name).is_err() {
            bad(self.me, "cannot register");
        }
        Process::set_flags(ProcessFlags::TRAP_EXIT);
        until(pl.t1).await;
        let mut n = 0;
        loop {
            while !RUNNING.load(Ordering::SeqCst) {
                sleep(20).await;
            }
            n += 1;
            let t = now() / 1_000_000;
            let next = if pl.aligned { pl.t1 + ((t - pl.t1) / pl.retry + 1) * pl.retry } else { t + pl.retry + self.me as u64 % 7 };
            if self.attempt(n, next.max(t + 5)).await.is_some() {
                log(ev::PROBE_RET, self.me, &[self.peer as i64, n as i64], "");
                // Until it is lost again.
                loop {
                    if let Got::Lost = self.get(3_600_000).await {
                        break;
                    }
                }
            }
            // What is left of the interval.
            while !matches!(self.get(next).await, Got::Late) {}
        }
    }
}
pub async fn c19(faulty: bool) {
    unsafe { simapi::sim_net_trace() };
    let pl = plan(faulty);
    Node::set_cookie("cookie");
    Node::start(node_name(me_node()), options(pl.times.0, pl.times.1, pl.times.2));
    log(ev::NODE_STARTED, 0, &[1], "");
    let base = 100 * me_node();
    for i in 0..pl.k {
        let me = base + i;
        actor(me, async move {
            if Process::register(Process::current(), format!("chat{}", i)).is_err() {
                bad(me, "cannot register");
            }
            chat(me, me_node() * pl.k + i, pl).await;
        });
    }
    actor(base + 40, echo(base + 40));
    let k = actor(base + 41, async move {
        if Process::register(Process::current(), "kid").is_err() {
            bad(base + 41, "cannot register");
        }
        kid().await
    });
    for peer in 0..nodes() {
        if peer != me_node() {
            let me = base + 50 + peer;
            actor(me, Prober { me, peer, watching: None, links: Vec::new() }.run(pl));
        }
    }
    until(pl.t1).await;
    calm();
    // Who still waits for the named process must be told now.
    until(pl.end - 1500).await;
    log(ev::EXIT_MSG, base + 41, &[], "");
    Process::spawn(async move { Process::exit(k, ExitReason::Custom("over".into())) });
    until(pl.end).await;
    for peer in 0..nodes() {
        if peer != me_node() {
            look(base + 99, peer);
        }
    }
    sleep(50).await;
    if me_node() != 0 {
        sleep(3_600_000).await;
    }
}
