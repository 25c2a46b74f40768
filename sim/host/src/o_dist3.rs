//! C17: monitors, lists and states of nodes.
use std::collections::{BTreeMap, BTreeSet};

use simapi::{ev, fault};

use crate::o_dist::{inc, no_deaths, node, Base, INF};
use crate::pool::View;
use crate::props::Out;

pub fn c17s(v: &View) -> Out {
    c17(v, true)
}
pub fn c17f(v: &View) -> Out {
    c17(v, false)
}
struct Mon {
    by: (u32, u32),
    actor: u32,
    peer: u32,
    at: usize,
    done: Option<usize>,
    undo: Option<usize>,
    down: Option<usize>,
}
const MS: u64 = 1_000_000;
const ANY: u32 = u32::MAX;

fn c17(v: &View, strict: bool) -> Out {
    let mut o = Out::default();
    let b = Base::new(v);
    no_deaths_of_actors(v, &mut o, strict);
    let t = |i: usize| v.recs[i].time;
    let mut mons: BTreeMap<(u32, u32, i64), Mon> = BTreeMap::new();
    // What can end a connection: from, to (record), node, node
    let mut causes: Vec<(usize, usize, u32, u32)> = Vec::new();
    // An attempt to connect, when, by, to, and when the call returned.
    let mut dials: Vec<(usize, u32, u32, usize)> = Vec::new();
    let mut dialing: BTreeMap<(u32, u32), usize> = BTreeMap::new();
    let mut cuts: Vec<(usize, usize, u32, u32, u32)> = Vec::new();
    let mut open_cut: BTreeMap<(u32, u32, u32, u32), usize> = BTreeMap::new();
    // phase -> (me, peer) -> (state, own, both, entries)
    let mut looks: BTreeMap<i64, BTreeMap<(u32, u32), [i64; 4]>> = BTreeMap::new();
    let mut phase: BTreeMap<u32, i64> = BTreeMap::new();
    let mut phase_at: BTreeMap<(i64, u32), usize> = BTreeMap::new();
    let mut paused: BTreeSet<u32> = BTreeSet::new();
    let mut incs: BTreeMap<u32, u32> = BTreeMap::new();
    let hs = [1500u64, 800, 3000][v.spec.params[3] as usize % 3];
    for (i, r) in v.recs.iter().enumerate() {
        let (n, c) = (node(r), inc(r));
        if c > 0 {
            incs.insert(n, c);
        }
        match r.kind as u32 {
            ev::FAULT if r.a[5] == 0 || !matches!(r.a[0] as u32, fault::RESET | fault::HALFCLOSE | fault::CRASH) => match r.a[0] as u32 {
                fault::CRASH | fault::PAUSE => {
                    if r.a[0] as u32 == fault::PAUSE {
                        paused.insert(r.a[1] as u32);
                    }
                    causes.push((i, INF, r.a[1] as u32, ANY))
                }
                _ => causes.push((i, INF, r.a[1] as u32, r.a[2] as u32)),
            },
            ev::NODE_DOWN => causes.push((i, INF, r.a[0] as u32, ANY)),
            ev::DISCONNECT | ev::FORGET | ev::NODE_STOP | ev::NODE_STARTED => {
                let peer = if matches!(r.kind as u32, ev::NODE_STOP | ev::NODE_STARTED) { ANY } else { r.a[0] as u32 };
                let phase = if peer == ANY { r.a[0] } else { r.a[1] };
                if phase == 0 {
                    open_cut.insert((n, r.actor, r.kind as u32, peer), i);
                } else if let Some(from) = open_cut.remove(&(n, r.actor, r.kind as u32, peer)) {
                    causes.push((from, i, n, peer));
                    if r.kind as u32 != ev::NODE_STARTED {
                        cuts.push((from, i, n, peer, r.kind as u32));
                    }
                }
            }
            ev::CONNECT => {
                if r.a[1] == 0 {
                    dials.push((i, n, r.a[0] as u32, INF));
                    dialing.insert((n, r.actor), dials.len() - 1);
                } else if let Some(d) = dialing.remove(&(n, r.actor)) {
                    dials[d].3 = i;
                }
            }
            ev::NMON => {
                if r.a[1] == 0 {
                    dials.push((i, n, r.a[0] as u32, INF));
                    dialing.insert((n, r.actor), dials.len() - 1);
                    mons.insert((n, c, r.a[2]), Mon { by: (n, c), actor: r.actor, peer: r.a[0] as u32, at: i, done: None, undo: None, down: None });
                } else {
                    if let Some(d) = dialing.remove(&(n, r.actor)) {
                        dials[d].3 = i;
                    }
                    if let Some(m) = mons.get_mut(&(n, c, r.a[2])) {
                        m.done = Some(i);
                    }
                }
            }
            ev::NDEMON if r.a[1] == 0 => {
                if let Some(m) = mons.get_mut(&(n, c, r.a[2])) {
                    m.undo = Some(i);
                }
            }
            ev::NODE_DOWNMSG => {
                if let Some(m) = mons.get_mut(&(n, c, r.a[1])) {
                    if m.down.is_some() {
                        o.v("down-twice", format!("process {} received two node-down messages of one monitor", r.actor));
                    }
                    m.down = Some(i);
                }
            }
            ev::HEAL => {
                if r.a[1] == 0 {
                    phase.insert(n, r.a[0]);
                    phase_at.insert((r.a[0], n), i);
                } else {
                    phase.remove(&n);
                }
            }
            ev::NODES => {
                let peer = r.a[0] as u32;
                let all = r.a[5] % 8;
                if let Some(p) = phase.get(&n) {
                    if r.actor % 100 == 99 {
                        looks.entry(*p).or_default().insert((n, peer), [r.a[1], r.a[2], r.a[3], all]);
                        if r.a[5] / 8 != all {
                            o.v("lists-disagree", format!("node {} lists node {} {} times, but {} times by state", n, peer, all, r.a[5] / 8));
                        }
                    }
                }
                if all > 1 {
                    o.v("listed-twice", format!("node {} lists node {} {} times", n, peer, all));
                }
                if v.stats.stall == 0 && !paused.contains(&n) {
                    if r.a[1] == 2 && r.a[2] == 0 && r.a[4] > 500_000 {
                        o.v("connected-without-connection", format!("node {} lists node {} as connected although it has had no connection to it for {} us", n, peer, r.a[4]));
                    }
                    if r.a[1] == 3 {
                        let last = dials.iter().filter(|d| d.1 == n && d.2 == peer).map(|d| t(d.0)).max();
                        if last.is_none_or(|l| r.time > l + (3 * hs + 1000) * MS) {
                            o.v("pending-for-ever", format!("node {} lists node {} as pending although its last attempt to connect is long over", n, peer));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for c in open_cut {
        causes.push((c.1, INF, c.0 .0, c.0 .3));
    }
    let hit = |x: u32, y: u32, a: u32, b: u32| y == ANY && (x == a || x == b) || (x, y) == (a, b) || (x, y) == (b, a);
    // ---- every report has a cause
    let mut reports = 0;
    for m in mons.values() {
        let Some(d) = m.down else { continue };
        reports += 1;
        if m.undo.is_some_and(|u| u < d) {
            o.v("down-after-demonitor", format!("process {} received a node-down message of a monitor it had removed", m.actor));
        }
        // What happened shortly before can still come through.
        let from = t(m.at).saturating_sub(3000 * MS);
        let cause = causes.iter().any(|c| hit(c.2, c.3, m.by.0, m.peer) && c.0 <= d && (c.1 == INF || t(c.1) >= from))
            || [(m.by.0, m.peer), (m.peer, m.by.0)].iter().all(|x| dials.iter().any(|y| (y.1, y.2) == *x && y.0 <= d && t(y.0) >= from));
        if !cause {
            o.v("false-down", format!("process {} was told that node {} is down although nothing had happened to the connection", m.actor, m.peer));
        }
    }
    if !b.finished {
        return o;
    }
    // ---- what must be true when all is settled
    let mut connected = 0;
    let running = |n: u32| b.last.get(&n).is_some_and(|c| b.lives(n, *c));
    for (p, l) in &looks {
        for ((me, peer), [s, _own, both, _]) in l {
            if !running(*me) {
                continue;
            }
            connected += (*s == 2) as u32;
            if *both > 1 {
                o.v("two-connections", format!("nodes {} and {} have {} connections (phase {})", me, peer, both, p));
            }
            if *s == 2 && *both == 0 {
                o.v("false-connected", format!("node {} lists node {} as connected although there is no connection (phase {})", me, peer, p));
            }
            if *s != 2 && *both > 0 {
                o.v("hidden-connection", format!("node {} lists node {} with state {} although there is a connection (phase {})", me, peer, s, p));
            }
            if *s == 3 {
                o.v("still-pending", format!("node {} lists node {} as pending long after the last attempt (phase {})", me, peer, p));
            }
            let at = phase_at[&(*p, *me)];
            // Whoever watches it would know.
            let watched = mons.values().any(|m| m.by.0 == *me && b.lives(*me, m.by.1) && m.peer == *peer && m.done.is_some_and(|x| x < at) && m.undo.is_none_or(|x| x > at) && m.down.is_none_or(|x| x > at));
            if watched && *s != 2 {
                o.v("missing-down", format!("node {} is not connected to node {} (state {}), but a process that monitors it was not told (phase {})", me, peer, s, p));
            }
        }
    }
    // ---- disconnect, forget and stop
    let mut cut = 0;
    for (from, to, n, peer, kind) in &cuts {
        for q in 0..v.spec.nodes {
            if q == *n || *peer != ANY && q != *peer {
                continue;
            }
            let later = |x: &&(usize, u32, u32, usize)| (x.1, x.2) == (*n, q) || (x.1, x.2) == (q, *n);
            let next = dials.iter().filter(later).filter(|x| x.3 > *from).map(|x| x.0.max(*from)).min().unwrap_or(INF);
            // An attempt of the other side may have been under way.
            let under_way = dials.iter().filter(later).any(|x| x.0 < *to && x.1 == q && t(x.0) + (3 * hs + 1000) * MS > t(*from));
            if under_way {
                continue;
            }
            // The next time everything is settled, without a new attempt before.
            let Some((p, at)) = phase_at.iter().filter(|x| x.0 .1 == *n && *x.1 > *to).map(|x| (x.0 .0, *x.1)).min() else { continue };
            let other = phase_at.get(&(p, q)).copied().unwrap_or(INF);
            if at.min(other) > next || !running(*n) {
                continue;
            }
            cut += 1;
            let Some(l) = looks.get(&p) else { continue };
            if let Some([s, _, both, entries]) = l.get(&(*n, q)) {
                if *both > 0 || *s == 2 || *s == 3 {
                    o.v("not-cut", format!("node {} cut itself off node {}, but is connected afterwards (state {}, {} connections, phase {})", n, q, s, both, p));
                }
                if *kind != ev::DISCONNECT && *entries > 0 {
                    o.v("not-forgotten", format!("node {} forgot node {}, but lists it afterwards (phase {})", n, q, p));
                }
            }
            if let (Some([s, _, both, _]), true) = (l.get(&(q, *n)), running(q)) {
                if *both > 0 || *s == 2 {
                    o.v("not-cut", format!("node {} cut itself off node {}, which still is connected (state {}, {} connections, phase {})", n, q, s, both, p));
                }
            }
            for m in mons.values() {
                let mine = m.by.0 == *n && m.peer == q || m.by.0 == q && m.peer == *n;
                let told = m.down.is_some_and(|d| d < at.max(other));
                if mine && m.done.is_some_and(|d| d < *from) && m.undo.is_none_or(|u| u > at) && !told && b.lives(m.by.0, m.by.1) && running(m.by.0) {
                    o.v("missing-down", format!("process {} monitors node {}, was not told when it was disconnected", m.actor, m.peer));
                }
            }
        }
    }
    // ---- in the end everybody is connected, and stays so
    if let (Some(l), Some(at)) = (looks.get(&3), phase_at.get(&(2, 0))) {
        for ((me, peer), [s, _, both, _]) in l {
            if !running(*me) || !running(*peer) {
                continue;
            }
            if *s != 2 || *both != 1 {
                o.v("not-reconnected", format!("node {} is not connected to node {} in the end (state {}, {} connections)", me, peer, s, both));
            }
            for m in mons.values().filter(|m| m.by.0 == *me && m.peer == *peer && m.at > *at) {
                if m.down.is_some() {
                    o.v("not-stable", format!("process {} was told that node {} is down although nothing happens any more", m.actor, peer));
                }
            }
        }
    }
    o.nontrivial = connected > 0 && reports > 0;
    o.probe_if(cut > 0, "cut connections compared");
    o.probe_if(cuts.iter().any(|c| c.4 == ev::NODE_STOP), "a node was stopped");
    o.probe_if(cuts.iter().any(|c| c.4 == ev::FORGET), "a node was forgotten");
    o.probe_if(mons.values().any(|m| m.undo.is_some()), "a node monitor was removed");
    o.probe_if(looks.contains_key(&3), "the last phase was reached");
    o
}
fn no_deaths_of_actors(v: &View, o: &mut Out, _strict: bool) {
    no_deaths(v, o)
}
pub fn times(v: &View) -> Out {
    let mut o = Out::default();
    no_deaths(v, &mut o);
    let Some(cfg) = v.recs.iter().find(|r| r.kind as u32 == ev::NODE_STARTED) else { return o };
    let (hb, ht, hs, case) = (cfg.a[0] as u64, cfg.a[1] as u64, cfg.a[2] as u64, cfg.a[3]);
    let made = |n: u32| v.recs.iter().find(|r| r.kind as u32 == ev::NMON && r.a[1] == 1 && node(r) == n).map(|r| r.time / MS);
    let downs = |n: u32| v.recs.iter().filter(|r| r.kind as u32 == ev::NODE_DOWNMSG && node(r) == n).map(|r| r.time / MS).collect::<Vec<_>>();
    let quiet = v.recs.iter().find(|r| r.kind as u32 == ev::NOTE && v.str(r) == "silence").map(|r| r.time / MS);
    let fin = v.recs.iter().any(|r| r.kind as u32 == ev::FINISH);
    o.nontrivial = made(0).is_some();
    if v.stats.stall > 0 || !fin {
        return o;
    }
    let what = ["short silences", "a long silence", "a dead peer", "no peer", "a mute peer", "nothing"][case as usize % 6];
    o.probe(["short silences", "a long silence", "a dead peer", "no peer", "a mute peer", "an idle connection"][case as usize % 6]);
    let mut expect = |n: u32, lo: u64, hi: u64| {
        if made(n).is_none() {
            return;
        }
        let d = downs(n);
        match d.first() {
            None => o.v("not-noticed", format!("node {} was not told about {}: interval {} ms, timeout {} ms, handshake {} ms", n, what, hb, ht, hs)),
            Some(x) if *x < lo || *x > hi => o.v("wrong-time", format!("node {} was told about {} after {} ms, not within {} to {}: interval {} ms, timeout {} ms, handshake {} ms", n, what, x, lo, hi, hb, ht, hs)),
            _ => {}
        }
    };
    match case {
        0 | 5 => {
            for n in 0..2 {
                if !downs(n).is_empty() {
                    o.v("lost-idle", format!("node {} lost its connection although there was only {}: interval {} ms, timeout {} ms", n, what, hb, ht));
                }
            }
            if made(0).is_some() && v.recs.iter().any(|r| r.kind as u32 == ev::NODES && r.a[1] != 2) {
                o.v("not-connected", format!("a connection that met {} is not up", what));
            }
        }
        1 => {
            let Some(q) = quiet else { return o };
            for n in 0..2 {
                expect(n, (q + ht).saturating_sub(hb + 60), q + ht + 60);
            }
        }
        2 => expect(0, made(0).unwrap_or(0) + hs - 10, made(0).unwrap_or(0) + hs + 60),
        3 => expect(0, 0, made(0).unwrap_or(0) + 1000),
        _ => expect(0, made(0).unwrap_or(0) + hs - 10, made(0).unwrap_or(0) + 2 * hs + 60),
    }
    o
}
