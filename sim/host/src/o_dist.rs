//! Oracles over histories of several nodes (C15 to C20).
use std::collections::{BTreeMap, BTreeSet};

use simapi::{ev, Rec};

use crate::pool::View;
use crate::props::Out;

pub const INF: usize = usize::MAX;

pub fn node(r: &Rec) -> u32 {
    (r.node & 255) as u32
}
pub fn inc(r: &Rec) -> u32 {
    (r.node >> 8) as u32
}
/// What every such history has: lives of nodes, and what monitors of nodes said.
#[derive(Default)]
pub struct Base {
    /// (node, incarnation) -> index of its crash
    pub down: BTreeMap<(u32, u32), usize>,
    pub last: BTreeMap<u32, u32>,
    /// (node, incarnation, peer) -> since when it is kept connected with no loss until the end
    pub kept: BTreeMap<(u32, u32, u32), usize>,
    /// Who watches a node: (node, incarnation, peer)
    pub kept_by: BTreeSet<(u32, u32, u32)>,
    pub finished: bool,
    pub faults: usize,
    pub losses: usize,
}
impl Base {
    pub fn new(v: &View) -> Base {
        let mut b = Base::default();
        for (i, r) in v.recs.iter().enumerate() {
            let (n, c) = (node(r), inc(r));
            if c > 0 {
                let l = b.last.entry(n).or_default();
                *l = (*l).max(c);
            }
            match r.kind as u32 {
                ev::NODE_DOWN => {
                    b.down.insert((r.a[0] as u32, r.a[1] as u32), i);
                }
                ev::FAULT if r.a[5] == 0 => b.faults += 1,
                ev::NMON if r.a[1] == 1 && r.actor % 100 >= 90 => {
                    b.kept.insert((n, c, r.a[0] as u32), i);
                    b.kept_by.insert((n, c, r.a[0] as u32));
                }
                ev::NODE_DOWNMSG if r.actor % 100 >= 90 => {
                    b.kept.remove(&(n, c, r.a[0] as u32));
                    b.losses += 1;
                }
                // Hit by a signal for its predecessor (a known finding): nobody tells of losses any more.
                ev::DEATH if r.actor % 100 >= 90 => {
                    b.kept.remove(&(n, c, r.actor % 100 - 90));
                }
                ev::FINISH => b.finished = true,
                _ => {}
            }
        }
        b
    }
    /// This incarnation of the node lived to the end.
    pub fn lives(&self, n: u32, c: u32) -> bool {
        self.last.get(&n) == Some(&c) && !self.down.contains_key(&(n, c))
    }
}
/// Scenario processes end only with their node.
pub fn no_deaths(v: &View, o: &mut Out) {
    for r in &v.recs {
        if r.kind as u32 == ev::DEATH {
            let key = if inc(r) > 1 { "stale-pid" } else { "process-died" };
            o.v(key, format!("process {} of node {} died for no reason", r.actor, node(r)));
        }
    }
}

pub fn c15(v: &View) -> Out {
    let mut o = Out::default();
    let b = Base::new(v);
    no_deaths(v, &mut o);
    struct S {
        from: (u32, u32),
        actor: u32,
        at: usize,
        inc: i64,
    }
    // (message, target) -> how it was sent
    let mut sends: BTreeMap<(i64, i64), S> = BTreeMap::new();
    let mut by: BTreeMap<(u32, u32, i64), Vec<i64>> = BTreeMap::new();
    let mut got: BTreeMap<(i64, i64, u32), usize> = BTreeMap::new();
    let mut order: BTreeMap<(u32, u32, i64, u32), Vec<i64>> = BTreeMap::new();
    let mut remote = 0;
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::SEND => {
                sends.insert((r.a[0], r.a[1]), S { from: (node(r), inc(r)), actor: r.actor, at: i, inc: r.a[2] });
                by.entry((r.actor, inc(r), r.a[1])).or_default().push(r.a[0]);
            }
            ev::RECV => {
                let key = (r.a[0], r.actor as i64);
                if r.a[1] != 1 {
                    o.v("altered", format!("message {:#x} arrived altered at process {}", r.a[0], r.actor));
                }
                // Pids and aliases do not tell one run of a node from the next.
                let stale = sends.range((r.a[0], 0)..(r.a[0] + 1, 0)).any(|(k, s)| k.1 / 100 == node(r) as i64 && s.inc != 0 && s.inc != inc(r) as i64);
                let fits = sends.get(&key).is_some_and(|s| s.inc == 0 || s.inc == inc(r) as i64) && !got.contains_key(&(r.a[0], r.actor as i64, inc(r)));
                if stale && !fits {
                    o.v("stale-pid", format!("message {:#x} to a process of an earlier run of node {} reached process {} of a later one", r.a[0], node(r), r.actor));
                    continue;
                }
                let Some(s) = sends.get(&key) else {
                    o.v("wrong-receiver", format!("process {} received message {:#x} which was not sent to it", r.actor, r.a[0]));
                    continue;
                };
                if got.insert((r.a[0], r.actor as i64, inc(r)), i).is_some() {
                    o.v("duplicate", format!("process {} received message {:#x} twice", r.actor, r.a[0]));
                }
                if s.from.0 != node(r) {
                    remote += 1;
                }
                order.entry((s.actor, s.from.1, r.actor as i64, inc(r))).or_default().push(r.a[0]);
            }
            _ => {}
        }
    }
    if !b.finished {
        return o;
    }
    let mut must = 0;
    for (&(sa, sc, t), ids) in &by {
        let (s, tn) = (sa / 100, (t / 100) as u32);
        let tc = b.last.get(&tn).copied().unwrap_or(0);
        // The process must have lived since, and the connection too.
        let since = if s == tn {
            0
        } else {
            match b.kept.get(&(s, sc, tn)) {
                Some(k) => *k,
                None => INF,
            }
        };
        if !b.lives(s, sc) || !b.lives(tn, tc) {
            continue;
        }
        let sure: Vec<i64> = ids.iter().copied().filter(|id| {
            let x = &sends[&(*id, t)];
            x.at > since && (x.inc == tc as i64 || x.inc == 0 && tc == 1)
        }).collect();
        for id in &sure {
            must += (s != tn) as u32;
            if !got.contains_key(&(*id, t, tc)) {
                o.v("lost", format!("message {:#x} from process {} to process {} was never received although the nodes were connected all the time", id, sa, t));
            }
        }
        let e = Vec::new();
        let rec: Vec<i64> = order.get(&(sa, sc, t, tc)).unwrap_or(&e).iter().copied().filter(|id| sure.contains(id)).collect();
        let sent: Vec<i64> = sure.iter().copied().filter(|id| rec.contains(id)).collect();
        if rec != sent {
            let k = (0..rec.len()).find(|k| rec[*k] != sent[*k]).unwrap_or(0);
            o.v("reordered", format!("process {} received message {:#x} from process {} before {:#x} which was sent earlier", t, rec[k], sa, sent[k]));
        }
    }
    o.nontrivial = remote >= 3;
    o.probe_if(must > 0, "messages that had to arrive");
    o.probe_if(b.losses > 0, "a connection was lost");
    o.probe_if(v.recs.iter().any(|r| r.kind as u32 == ev::NOTE && v.str(r) == "carried"), "a pid travelled");
    o.probe_if(sends.len() >= 10 && got.len() < sends.len(), "messages were lost with a connection");
    o
}
