//! C19: nodes find each other again.
use std::collections::{BTreeMap, BTreeSet};

use simapi::{ev, fault};

use crate::o_dist::{inc, node, Base};
use crate::pool::View;
use crate::props::Out;

const MS: u64 = 1_000_000;

#[derive(Default)]
struct Conn {
    a: u32,
    b: u32,
    up: u64,
    /// Closed by (node)
    closed: BTreeMap<u32, u64>,
}

pub fn c19(v: &View) -> Out {
    let mut o = Out::default();
    let b = Base::new(v);
    let Some(h) = v.recs.iter().find(|r| r.kind as u32 == ev::HEAL) else { return o };
    let (from, settle, work) = (h.a[0] as u64 * MS, h.a[1] as u64 * MS, h.a[2] as u64 * MS);
    let mut conns: BTreeMap<i64, Conn> = BTreeMap::new();
    let mut started: BTreeMap<(u32, u32), u64> = BTreeMap::new();
    let mut paused: BTreeSet<u32> = BTreeSet::new();
    // (node, inc, peer) -> when it worked, when it was lost
    let mut works: BTreeMap<(u32, u32, u32), Vec<u64>> = BTreeMap::new();
    let mut lost: BTreeMap<(u32, u32, u32), Vec<u64>> = BTreeMap::new();
    // A monitor of a node that was removed by nobody: (node, inc, peer, actor, id) -> since
    let mut watch: BTreeMap<(u32, u32, u32, i64), (u32, u64)> = BTreeMap::new();
    // (node, inc, peer) -> watches that ended: since, until
    let mut losses: BTreeMap<(u32, u32, u32), Vec<(u64, u64)>> = BTreeMap::new();
    // message -> call returned
    let mut sent: BTreeMap<(u32, u32, u32, i64), u64> = BTreeMap::new();
    let mut begun: BTreeMap<(u32, u32, u32), i64> = BTreeMap::new();
    // (receiver, inc, sender) -> (sender's inc, number)
    let mut heard: BTreeMap<(u32, u32, u32), (i64, i64)> = BTreeMap::new();
    let mut got: BTreeSet<(u32, u32, i64, i64, i64)> = BTreeSet::new();
    let mut recvs: Vec<(u64, u32, u32, u32, u32, i64)> = Vec::new();
    let mut waits: BTreeMap<(u32, u32, i64), (u32, u32, bool)> = BTreeMap::new();
    let mut ended: BTreeSet<(u32, u32, u32)> = BTreeSet::new();
    let (mut looks, mut fin) = (Vec::new(), 0);
    let mut lates = Vec::new();
    let mut over: BTreeSet<u32> = BTreeSet::new();
    for r in &v.recs {
        let (n, c, t) = (node(r), inc(r), r.time);
        match r.kind as u32 {
            ev::FAULT if r.a[0] as u32 == fault::PAUSE => {
                paused.insert(r.a[1] as u32);
            }
            ev::NET_UP => {
                conns.insert(r.a[0], Conn { a: r.a[1] as u32, b: r.a[2] as u32, up: t, closed: BTreeMap::new() });
            }
            ev::NET_CLOSE => {
                conns.entry(r.a[0]).or_default().closed.insert(r.a[1] as u32, t);
            }
            ev::NODE_STARTED if r.a[0] == 1 => {
                started.insert((n, c), t);
            }
            ev::PROBE_RET => works.entry((n, c, r.a[0] as u32)).or_default().push(t),
            ev::LEAK => lates.push((t, n, c, r.a[0] as u32, r.a[1])),
            ev::NMON if r.a[1] == 1 => {
                watch.insert((r.actor, c, r.a[0] as u32, r.a[2]), (n, t));
            }
            ev::NODE_DOWNMSG => {
                let peer = r.a[0] as u32;
                if r.actor % 100 < 70 {
                    lost.entry((n, c, peer)).or_default().push(t);
                }
                if let Some((_, since)) = watch.remove(&(r.actor, c, peer, r.a[1])) {
                    losses.entry((n, c, peer)).or_default().push((since, t));
                }
            }
            ev::SEND => {
                if r.a[2] == 0 {
                    begun.insert((r.actor, c, r.a[0] as u32), r.a[1]);
                } else {
                    sent.insert((r.actor, c, r.a[0] as u32, r.a[1]), t);
                }
            }
            ev::RECV => {
                let (s, sc, q) = (r.a[0] as u32, r.a[1], r.a[2]);
                if begun.get(&(s, sc as u32, r.actor)).is_none_or(|x| *x < q) {
                    o.v("from-nowhere", format!("process {} received message {} of process {} (life {}) that was not sent", r.actor, q, s, sc));
                }
                if !got.insert((r.actor, c, s as i64, sc, q)) {
                    o.v("duplicate", format!("process {} received message {} of process {} twice", r.actor, q, s));
                }
                let last = heard.entry((r.actor, c, s)).or_default();
                if (sc, q) < *last {
                    o.v("out-of-order", format!("process {} received message {} of life {} of process {} after message {} of life {}", r.actor, q, sc, s, last.1, last.0));
                }
                *last = (*last).max((sc, q));
                recvs.push((t, r.actor, c, s, sc as u32, q));
            }
            ev::MONITOR => {
                waits.insert((n, c, r.a[1]), (r.actor, r.a[0] as u32, false));
            }
            ev::DOWN => {
                if let Some(w) = waits.get_mut(&(n, c, r.a[1])) {
                    if w.2 {
                        o.v("told-twice", format!("process {} was told twice of the end of a process of node {}", r.actor, w.1));
                    }
                    w.2 = true;
                }
            }
            ev::SCRIPT_END => {
                ended.insert((n, c, r.actor));
            }
            ev::EXIT_MSG => {
                over.insert(n);
            }
            ev::NODES if r.actor % 100 == 99 => looks.push((n, r.a[0] as u32, r.a[1], r.a[3])),
            ev::FINISH => fin = t,
            _ => {}
        }
    }
    // The named processes end as planned.
    let deaths: Vec<_> = v.recs.iter().filter(|r| r.kind as u32 == ev::DEATH && (r.actor % 100 != 41 || !over.contains(&node(r)))).collect();
    if !deaths.is_empty() {
        no_deaths_in(&deaths, &mut o);
    }
    // ---- nothing of an earlier connection
    let mut compared = 0;
    for (tr, to, c, s, sc, q) in &recvs {
        let (ns, nr) = (*s / 100, *to / 100);
        if paused.contains(&ns) || paused.contains(&nr) || v.stats.stall > 0 {
            continue;
        }
        let Some(ts) = sent.get(&(*s, *sc, *to, *q)) else { continue };
        // The sender's node lost the connection after that.
        let Some(td) = losses.get(&(ns, *sc, nr)).and_then(|l| l.iter().filter(|x| x.0 <= *ts && x.1 > ts + 200 * MS).map(|x| x.1).min()) else { continue };
        compared += 1;
        let could = conns.values().any(|x| (x.a, x.b) == (ns, nr) || (x.a, x.b) == (nr, ns)).then(|| {
            conns.values().filter(|x| (x.a, x.b) == (ns, nr) || (x.a, x.b) == (nr, ns)).any(|x| x.up <= td && x.closed.get(&nr).is_none_or(|z| z + 300 * MS > *tr))
        });
        if could == Some(false) {
            o.v("stale-message", format!("process {} (life {}) received message {} of process {}, which was sent before the loss of a connection, over a later one", to, c, q, s));
        }
    }
    // ---- everything works again
    let mut again = 0;
    let mut pairs = 0;
    for n in 0..v.spec.nodes {
        for p in 0..v.spec.nodes {
            let (Some(c), Some(d)) = (b.last.get(&n), b.last.get(&p)) else { continue };
            if n == p || !b.lives(n, *c) || !b.lives(p, *d) {
                continue;
            }
            let (Some(x), Some(y)) = (started.get(&(n, *c)), started.get(&(p, *d))) else { continue };
            let base = from.max(*x).max(*y);
            for l in lates.iter().filter(|l| (l.1, l.2, l.3) == (n, *c, p)) {
                if l.0 >= base + l.4 as u64 * 2500 * MS && v.stats.stall == 0 {
                    o.v("does-not-work", format!("node {} is connected to node {}, but {} does not arrive", n, p, if l.4 == 1 { "an answer" } else { "a down message or exit signal" }));
                }
            }
            if v.stats.stall > 0 || fin < base + settle + work {
                continue;
            }
            pairs += 1;
            let none = Vec::new();
            let w = works.get(&(n, *c, p)).unwrap_or(&none);
            let l = lost.get(&(n, *c, p)).unwrap_or(&none);
            if let Some(t) = l.iter().find(|t| **t > base + settle) {
                o.v("not-stable", format!("node {} lost its connection to node {} {} ms after faults had stopped", n, p, (t - from) / MS));
            }
            let last = l.iter().filter(|t| **t <= base + settle).max().copied().unwrap_or(0);
            if !w.iter().any(|t| *t > last && *t <= base + settle + work) {
                o.v("not-reconnected", format!("node {} could not reach node {} within {} ms after faults had stopped", n, p, (settle + work) / MS));
            }
            again += (last > 0) as u32;
            for k in looks.iter().filter(|k| (k.0, k.1) == (n, p)) {
                if k.2 != 2 || k.3 != 1 {
                    o.v("not-reconnected", format!("node {} is not connected to node {} in the end (state {}, {} connections)", n, p, k.2, k.3));
                }
            }
        }
    }
    if b.finished && v.stats.stall == 0 {
        for ((n, c, _), (a, p, told)) in &waits {
            if !told && b.lives(*n, *c) {
                o.v("waits-for-ever", format!("process {} still waits for the end of a process of node {}", a, p));
            }
        }
        for ((n, c), _) in &started {
            let i = 100 * n;
            if b.lives(*n, *c) && !ended.contains(&(*n, *c, i)) {
                o.v("script-stuck", format!("the script of process {} did not end", i));
            }
        }
        // What was said in the quiet period has arrived.
        for ((s, sc, to, q), ts) in &sent {
            let (ns, nr) = (s / 100, to / 100);
            let Some(rc) = b.last.get(&nr) else { continue };
            if *ts < from + settle + work || *ts + 1000 * MS > fin || !b.lives(ns, *sc) || !b.lives(nr, *rc) {
                continue;
            }
            let late = |n: u32, c: u32| started.get(&(n, c)).is_none_or(|x| *x > from);
            if late(ns, *sc) || late(nr, *rc) {
                continue;
            }
            if !got.contains(&(*to, *rc, *s as i64, *sc as i64, *q)) {
                o.v("lost", format!("message {} of process {} to process {} never arrived although everything was quiet", q, s, to));
            }
        }
    }
    o.nontrivial = pairs > 0 && (again > 0 || losses.len() > 0);
    o.probe_if(again > 0, "a connection was lost and made again in the quiet period");
    o.probe_if(compared > 0, "messages sent before a loss and received");
    o.probe_if(waits.len() > 0, "a process waited for a process of another node");
    o.probe_if(losses.len() > 0, "a node monitor reported");
    o
}
fn no_deaths_in(d: &[&simapi::Rec], o: &mut Out) {
    for r in d {
        let key = if inc(r) > 1 { "stale-pid" } else { "process-died" };
        o.v(key, format!("process {} of node {} died for no reason", r.actor, node(r)));
    }
}
