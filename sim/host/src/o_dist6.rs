//! C20: calls to servers on other nodes.
use std::collections::{BTreeMap, BTreeSet};

use simapi::{ev, fault};

use crate::o_dist::{inc, node, Base};
use crate::o_srv::{Calls, INF};
use crate::pool::View;
use crate::props::Out;

pub fn strict(v: &View) -> Out {
    c20(v, true)
}
pub fn faulty(v: &View) -> Out {
    c20(v, false)
}
const US: i64 = 1000;
const ANY: u32 = u32::MAX;

struct Stop {
    by: u32,
    node: u32,
    target: i64,
    slot: i64,
    limit: i64,
    reason: String,
    s: usize,
    e: usize,
    ok: bool,
    err: String,
}

fn c20(v: &View, strict: bool) -> Out {
    let mut o = Out::default();
    let b = Base::new(v);
    let c = Calls::build(v);
    let time = |i: usize| v.recs[i].time as i64 / US;
    let still = v.stats.stall == 0;
    let far = (v.spec.lat_base + v.spec.lat_jitter) as i64 / US + 60_000;
    let mut paused: BTreeSet<u32> = BTreeSet::new();
    let mut paused_until: BTreeMap<u32, i64> = BTreeMap::new();
    // What can lose a connection, from when: (record, node, node)
    let mut causes: Vec<(usize, u32, u32)> = Vec::new();
    let mut stops: BTreeMap<i64, Stop> = BTreeMap::new();
    // A server's life: slot, when it began to start
    let mut born: BTreeMap<u32, (usize, i64)> = BTreeMap::new();
    let mut up: BTreeMap<u32, usize> = BTreeMap::new();
    let mut down: BTreeMap<(u32, u32), usize> = BTreeMap::new();
    let mut terms: BTreeMap<u32, Vec<(usize, String)>> = BTreeMap::new();
    let mut started: BTreeMap<u32, usize> = BTreeMap::new();
    let mut probes: BTreeMap<(u32, i64), bool> = BTreeMap::new();
    let mut ended: BTreeSet<(u32, u32)> = BTreeSet::new();
    for (i, r) in v.recs.iter().enumerate() {
        let n = node(r);
        match r.kind as u32 {
            ev::FAULT => match r.a[0] as u32 {
                fault::PAUSE => {
                    paused.insert(r.a[1] as u32);
                    let e = paused_until.entry(r.a[1] as u32).or_default();
                    *e = (*e).max(time(i) + r.a[2]);
                    causes.push((i, r.a[1] as u32, ANY));
                }
                fault::CRASH => causes.push((i, r.a[1] as u32, ANY)),
                _ => causes.push((i, r.a[1] as u32, r.a[2] as u32)),
            },
            ev::NODE_DOWN => {
                causes.push((i, r.a[0] as u32, ANY));
                down.insert((r.a[0] as u32, r.a[1] as u32), i);
            }
            ev::DISCONNECT => causes.push((i, n, r.a[0] as u32)),
            ev::NODE_STARTED => {
                started.insert(n, i);
            }
            // Attempts of both sides at once lose one of the connections.
            ev::STARTING => {
                born.insert(r.a[0] as u32, (i, r.a[1]));
            }
            ev::STARTED if r.a[1] == 1 => {
                up.insert(r.a[0] as u32, i);
            }
            ev::TERMINATE => terms.entry(r.actor).or_default().push((i, v.str(r))),
            ev::STOP => {
                stops.insert(r.a[0], Stop { by: r.actor, node: n, target: r.a[1], slot: r.a[2], limit: r.a[3], reason: v.str(r), s: i, e: INF, ok: false, err: String::new() });
            }
            ev::STOPPED => {
                if let Some(s) = stops.get_mut(&r.a[0]) {
                    s.e = i;
                    s.ok = r.a[1] == 1;
                    s.err = v.str(r);
                }
            }
            ev::PROBE => {
                probes.entry((r.actor, r.a[1])).or_default();
            }
            ev::PROBE_RET => {
                probes.insert((r.actor, r.a[1]), true);
            }
            ev::SCRIPT_END => {
                ended.insert((r.actor, inc(r)));
            }
            _ => {}
        }
    }
    let host = |s: u32| (s % 1000 / 100, s / 1000);
    // When a process (or server) was gone for sure: its end, or that of its node.
    let gone = |s: u32| c.death.get(&s).copied().into_iter().chain(down.get(&host(s)).copied()).min();
    let lost = |x: u32, y: u32, s: usize, e: usize| {
        let _ = s;
        !strict && causes.iter().any(|k| k.0 < e && (k.2 == ANY && (k.1 == x || k.1 == y) || (k.1, k.2) == (x, y) || (k.1, k.2) == (y, x)))
            // Both dial.
            || !strict
    };
    // What may be reported as the end of a server.
    let why = |s: u32, e: usize, text: &str| {
        c.causes.get(&s).is_some_and(|x| x.iter().any(|y| y.0 < e && y.1 == text)) || stops.values().any(|x| x.s < e && x.reason == text && (x.target == s as i64 || x.target < 0 && born.get(&s).is_some_and(|b| x.slot == b.1 + 10 * host(s).0 as i64)))
    };
    let at_slot = |slot: i64| born.iter().filter(move |b| slot == b.1 .1 + 10 * host(*b.0).0 as i64).map(|b| *b.0).collect::<Vec<u32>>();
    // Nodes that came back, after which a process of an earlier life of theirs was addressed.
    let mut stale: BTreeSet<u32> = BTreeSet::new();
    for (i, r) in v.recs.iter().enumerate() {
        let target = match r.kind as u32 {
            ev::EXIT => r.a[0],
            ev::STOP | ev::CAST | ev::CALL => r.a[1],
            _ => -1,
        };
        if target >= 0 {
            let (n, life) = host(target as u32);
            if b.last.get(&n).is_some_and(|l| *l > life) {
                stale.insert(n);
            }
        }
        let _ = i;
    }
    // Down messages and noproc, for a call or stop: what is wrong with it.
    let wrong = |by_node: u32, target: i64, slot: i64, s: usize, e: usize, text: &str| -> Option<(&'static str, String)> {
        let peer = if target >= 0 { host(target as u32).0 } else { (slot / 10) as u32 };
        let cand: Vec<u32> = if target >= 0 { vec![target as u32] } else { at_slot(slot) };
        match text {
            "noconnection" => {
                if peer == by_node {
                    return Some((if stale.contains(&by_node) { "stale-pid" } else { "down-false" }, "noconnection, for a server of its own node".to_string()));
                }
                (!lost(by_node, peer, s, e)).then(|| ("down-false", "noconnection, although nothing had happened to the connection".to_string()))
            }
            "noproc" => {
                // Somebody who was there all the time.
                let there = cand.iter().find(|x| up.get(x).is_some_and(|u| *u < s) && gone(**x).is_none_or(|g| g > e) && !why(**x, e, "normal") && !c.causes.contains_key(x) && !stops.values().any(|t| t.s < e && (t.target == **x as i64 || t.target < 0)));
                there.map(|x| ("down-false", format!("noproc, although server {} was alive", x)))
            }
            _ => (!cand.iter().any(|x| why(*x, e, text) && gone(*x).is_some() | b.finished)).then(|| {
                // Pids carry no incarnation: what is meant for an earlier life of the node hits this one.
                let old = b.last.get(&peer).is_some_and(|l| *l > 1) && (stale.contains(&peer) || target >= 0 && host(target as u32).1 != b.last[&peer]);
                (if old { "stale-pid" } else { "down-reason" }, format!("{:?}, which nothing had caused", text))
            }),
        }
    };
    // ---- every request is handled at most once
    for (id, h) in &c.handled {
        if h.len() > 1 {
            o.v("handled-twice", format!("request {:#x} was handled {} times", id, h.len()));
        }
    }
    let mut order: BTreeMap<(u32, i64, u32), usize> = BTreeMap::new();
    let (mut ok, mut timeouts, mut downs, mut nocon, mut lates) = (0, 0, 0, 0, 0);
    for (id, k) in &c.calls {
        let me = node(&v.recs[k.s]);
        let my_inc = inc(&v.recs[k.s]);
        if let Some(h) = c.handled.get(id) {
            let (at, by) = h[0];
            let right = if k.target >= 0 { k.target == by as i64 } else { born.get(&by).is_some_and(|x| k.slot == x.1 + 10 * host(by).0 as i64) };
            if !right {
                let stale = k.target >= 0 && host(k.target as u32).0 == host(by).0 && host(k.target as u32).1 != host(by).1;
                o.v(if stale { "stale-pid" } else { "wrong-server" }, format!("call {:#x} to server {} (slot {}) was handled by {}", id, k.target, k.slot, by));
            }
            if let Some(p) = order.insert((k.by, my_inc as i64, by), at) {
                if p > at {
                    o.v("order", format!("call {:#x} was handled by server {} before an earlier one of the same process", id, by));
                }
            }
        }
        if k.e == INF {
            if b.lives(me, my_inc) && still && !paused.contains(&me) && b.finished && time(k.s) + k.limit + 1_000_000 < time(v.recs.len() - 1) {
                let old = stale.contains(&me) || k.target >= 0 && stale.contains(&host(k.target as u32).0);
                o.v(if old { "stale-pid" } else { "hangs" }, format!("call {:#x} of process {} never ended", id, k.by));
            }
            continue;
        }
        let took = time(k.e) - time(k.s);
        let awake = still && !paused.contains(&me);
        if awake && took > k.limit + 60_000 {
            o.v("late", format!("call {:#x} with timeout {} us ended after {} us", id, k.limit, took));
        }
        let quiet = strict && still;
        match k.out {
            0 => {
                ok += 1;
                if k.rid != *id {
                    // Nor do aliases: an answer that was meant for an earlier life of the node.
                    let old = k.rid >> 48 == *id >> 48 && k.rid >> 40 < *id >> 40;
                    o.v(if old { "stale-pid" } else { "wrong-reply" }, format!("call {:#x} returned the reply to request {:#x}", id, k.rid));
                }
                match c.handled.get(id) {
                    None => o.v("unhandled", format!("call {:#x} was answered but never handled", id)),
                    Some(h) if h[0].0 > k.e || h[0].1 as i64 != k.rby => o.v("unhandled", format!("call {:#x} was answered by {} but handled by {}", id, k.rby, h[0].1)),
                    _ => {}
                }
            }
            1 => {
                timeouts += 1;
                if took < k.limit {
                    o.v("early", format!("call {:#x} with timeout {} us timed out after {} us", id, k.limit, took));
                }
                if let Some(r) = c.replies.get(id) {
                    lates += (*r > k.e) as u32;
                    if quiet && time(*r) + far < time(k.s) + k.limit && *r < k.e {
                        o.v("reply-lost", format!("call {:#x} timed out although its reply was sent {} us before", id, time(k.e) - time(*r)));
                    }
                }
                if k.target >= 0 {
                    if let Some(d) = gone(k.target as u32) {
                        if quiet && d < k.e && time(d) + far < time(k.s) + k.limit && far * 2 < k.limit {
                            o.v("down-missed", format!("call {:#x} timed out although its server had exited {} us before", id, time(k.e) - time(d)));
                        }
                    }
                }
                // Handled by a server that was there, in time.
                if k.target >= 0 && quiet && c.handled.get(id).is_none() && k.limit > 2 * far {
                    let idle = up.get(&(k.target as u32)).is_some() && gone(k.target as u32).is_none() && !c.calls.values().any(|x| x.target == k.target && x.s < k.e && x.e > k.s && x.s != k.s);
                    let busy = c.calls.values().any(|x| x.target < 0) || stops.values().any(|x| x.target == k.target || x.target < 0);
                    if idle && !busy && k.s > up[&(k.target as u32)] && v.recs.iter().all(|r| r.kind as u32 != ev::CAST) {
                        o.v("unhandled-timeout", format!("call {:#x} timed out, its server never saw it", id));
                    }
                }
            }
            _ => {
                downs += 1;
                nocon += (k.text == "noconnection") as u32;
                if let Some((key, t)) = wrong(me, k.target, k.slot, k.s, k.e, &k.text) {
                    o.v(key, format!("call {:#x} of process {} to server {} (slot {}) reported it down with {}", id, k.by, k.target, k.slot, t));
                }
                if let (Some(r), Some(h)) = (c.replies.get(id), c.handled.get(id)) {
                    if let Some(d) = gone(h[0].1) {
                        // A name may be given to a server between the monitor and the request.
                        let named_late = k.text == "noproc" && k.target < 0;
                        if quiet && !named_late && *r < d && time(*r) + far < time(d) {
                            o.v("reply-lost", format!("call {:#x} reported the server down although its reply was sent {} us before that", id, time(d) - time(*r)));
                        }
                    }
                }
            }
        }
    }
    // ---- stops
    let mut stopped = 0;
    for (id, x) in &stops {
        let target = if x.target >= 0 { format!("server {}", x.target) } else { format!("slot {}", x.slot) };
        if x.e == INF {
            let my_inc = inc(&v.recs[x.s]);
            let settled = b.lives(x.node, my_inc) && still && !paused.contains(&x.node) && b.finished;
            if settled && x.limit >= 0 && time(x.s) + x.limit + 1_000_000 < time(v.recs.len() - 1) {
                o.v("hangs", format!("stop {:#x} of {} never ended", id, target));
            }
            if settled && x.limit < 0 && x.target >= 0 && gone(x.target as u32).is_some_and(|d| time(d) + 20_000_000 < time(v.recs.len() - 1)) {
                let old = stale.contains(&x.node) || stale.contains(&host(x.target as u32).0);
                o.v(if old { "stale-pid" } else { "hangs" }, format!("stop {:#x} of {} never ended", id, target));
            }
            continue;
        }
        let took = time(x.e) - time(x.s);
        if x.ok {
            stopped += 1;
            if x.target >= 0 {
                if gone(x.target as u32).is_none_or(|d| d > x.e) {
                    o.v("stop-alive", format!("stopping {} succeeded while it was running", target));
                }
                if !why(x.target as u32, x.e, &x.reason) {
                    o.v("stop-reason", format!("stopping {} succeeded for a reason of nobody", target));
                }
            }
        } else if x.err == "timeout" {
            if x.limit < 0 || took < x.limit {
                o.v("early", format!("stop {:#x} of {} with timeout {} us timed out after {} us", id, target, x.limit, took));
            }
        } else if let Some((key, t)) = wrong(x.node, x.target, x.slot, x.s, x.e, &x.err) {
            o.v(key, format!("stop {:#x} of {} by {} failed with {}", id, target, x.by, t));
        }
        if still && !paused.contains(&x.node) && x.limit >= 0 && took > x.limit + 60_000 {
            o.v("late", format!("stop {:#x} of {} with timeout {} us took {} us", id, target, x.limit, took));
        }
    }
    // ---- in the end whoever is there answers
    let mut answered = 0;
    for ((by, s), done) in &probes {
        let (n, i) = host(*s as u32);
        let alive = b.lives(n, i) && gone(*s as u32).is_none();
        let mine = by / 100;
        let my_inc = b.last.get(&mine).copied().unwrap_or(0);
        let early = |n: u32| started.get(&n).is_some_and(|x| time(*x) < 12_000_000);
        answered += *done as u32;
        if !done && alive && b.finished && still && b.lives(mine, my_inc) && early(n) && early(mine) && !c.causes.contains_key(&(*s as u32)) && ended.contains(&(*by, my_inc)) {
            // All attempts were made.
            let made = v.recs.iter().filter(|r| r.kind as u32 == ev::PROBE && r.actor == *by && r.a[1] == *s && inc(r) == my_inc).count();
            if made >= 20 {
                // Whatever process had the number, it may have been the one that connects.
                let old = stale.contains(&n) || stale.contains(&mine);
                o.v(if old { "stale-pid" } else { "unresponsive" }, format!("server {} does not answer process {} any more", s, by));
            }
        }
    }
    // ---- clients live
    for r in &v.recs {
        if r.kind as u32 == ev::DEATH && r.actor < 1000 {
            o.v(if inc(r) > 1 { "stale-pid" } else { "process-died" }, format!("process {} died for no reason", r.actor));
        }
    }
    o.nontrivial = ok >= 2 && c.calls.values().any(|x| x.e != INF && x.out == 0 && x.rby as u32 % 1000 / 100 != x.by / 100);
    o.probe_if(timeouts > 0, "a call timed out");
    o.probe_if(downs > nocon, "a call found its server down");
    o.probe_if(nocon > 0, "a call lost its connection");
    o.probe_if(lates > 0, "a reply came after its call had ended");
    o.probe_if(stopped > 0, "a server was stopped from another process");
    o.probe_if(answered > 0, "the servers that were left answered");
    o
}
