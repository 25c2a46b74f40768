//! Oracles over names, timers and aliases (C06, C07, C08).
use std::collections::{BTreeMap, BTreeSet};

use simapi::ev;

use crate::lin::{self, LOp, Lin};
use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;

#[derive(Debug, Clone, Copy)]
enum N {
    Reg(i64, usize, bool),
    Unreg(usize, bool),
    Who(usize, i64),
    Has(usize, bool),
    Die1(i64),
    Die2(i64),
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct NState {
    names: [i64; 3],
    dead: u64,
}
fn name_step(s: &NState, o: &N) -> Option<NState> {
    let mut x = s.clone();
    let dead = |p: i64| s.dead >> p & 1 == 1;
    match *o {
        N::Reg(p, n, ok) => {
            let mine = s.names[n] == p;
            let free = s.names[n] == -2 && !dead(p) && !s.names.contains(&p);
            if ok != (mine || free) {
                return None;
            }
            if free {
                x.names[n] = p;
            }
        }
        N::Unreg(n, ok) => {
            if ok != (s.names[n] != -2) {
                return None;
            }
            x.names[n] = -2;
        }
        N::Who(n, p) => {
            if s.names[n] != p {
                return None;
            }
        }
        N::Has(n, h) => {
            if h != (s.names[n] != -2) {
                return None;
            }
        }
        N::Die1(p) => x.dead |= 1 << p,
        N::Die2(p) => {
            if !dead(p) {
                return None;
            }
            for n in x.names.iter_mut() {
                if *n == p {
                    *n = -2;
                }
            }
        }
    }
    Some(x)
}

pub fn c06(v: &View) -> Out {
    let mut o = Out::default();
    let mut ops: Vec<LOp<N>> = Vec::new();
    let mut open: BTreeMap<i64, (usize, i64, i64)> = BTreeMap::new();
    let mut death: BTreeMap<i64, usize> = BTreeMap::new();
    let mut down: BTreeMap<i64, usize> = BTreeMap::new();
    let mut absent: BTreeMap<i64, usize> = BTreeMap::new();
    let mut sends: BTreeMap<i64, (usize, usize, i64)> = BTreeMap::new();
    let mut got: BTreeMap<i64, i64> = BTreeMap::new();
    let mut finished = false;
    let (mut won, mut lost) = (0, 0);
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::REG => {
                open.insert(r.a[0], (i, r.a[1], r.a[2]));
            }
            ev::REGISTERED => {
                if let Some((s, t, n)) = open.remove(&r.a[0]) {
                    ops.push(LOp { s, e: i, maybe: false, op: N::Reg(t, n as usize, r.a[1] != 0) });
                    if r.a[1] != 0 {
                        won += 1
                    } else {
                        lost += 1
                    }
                }
            }
            ev::UNREG | ev::WHEREIS => {
                open.insert(r.a[0], (i, r.a[1], 0));
            }
            ev::UNREGISTERED => {
                if let Some((s, n, _)) = open.remove(&r.a[0]) {
                    ops.push(LOp { s, e: i, maybe: false, op: N::Unreg(n as usize, r.a[1] != 0) });
                }
            }
            ev::WHEREIS_RET => {
                if let Some((s, n, _)) = open.remove(&r.a[0]) {
                    if r.a[1] == -1 {
                        o.v("unknown-holder", format!("name {} is held by an unknown process", n));
                    }
                    ops.push(LOp { s, e: i, maybe: false, op: N::Who(n as usize, r.a[1]) });
                }
            }
            ev::NAMES => {
                if r.a[1] < 0 {
                    open.insert(r.a[0], (i, 0, 0));
                } else if let Some((s, _, _)) = open.remove(&r.a[0]) {
                    for n in 0..3 {
                        ops.push(LOp { s, e: i, maybe: false, op: N::Has(n, r.a[1] >> n & 1 == 1) });
                    }
                }
            }
            ev::SEND => {
                sends.insert(r.a[0], (i, INF, r.a[1]));
            }
            ev::SENT => {
                if let Some(s) = sends.get_mut(&r.a[0]) {
                    s.1 = i;
                }
            }
            ev::RECV => {
                if got.insert(r.a[0], r.actor as i64).is_some() {
                    o.v("duplicate", format!("message {} to a name was received twice", r.a[0]));
                }
            }
            ev::DEATH => {
                death.entry(r.actor as i64).or_insert(i);
            }
            // A noproc only tells that the process has left the registry.
            ev::DOWN if r.a[1] != 0 => {
                absent.entry(r.a[0]).or_insert(i);
            }
            ev::DOWN => {
                down.entry(r.a[0]).or_insert(i);
            }
            ev::FINISH => finished = true,
            _ => {}
        }
    }
    for (id, who) in &got {
        if let Some((s, e, n)) = sends.get(id) {
            ops.push(LOp { s: *s, e: *e, maybe: false, op: N::Who(*n as usize, *who) });
        }
    }
    // The last lookups happen long after the last end.
    let fin = v.recs.iter().position(|r| r.kind as u32 == ev::WHEREIS && r.actor == 90).unwrap_or(INF);
    for (a, s) in &death {
        if *a > 60 {
            continue;
        }
        let e = down.get(a).copied().unwrap_or(INF);
        let e = if finished { e.min(fin.max(*s)) } else { e };
        let e1 = e.min(absent.get(a).copied().unwrap_or(INF));
        ops.push(LOp { s: *s, e: e1, maybe: e1 == INF, op: N::Die1(*a) });
        ops.push(LOp { s: *s, e, maybe: e == INF, op: N::Die2(*a) });
    }
    match lin::check(&ops, NState { names: [-2; 3], dead: 0 }, name_step, 300_000) {
        Lin::No => o.v("not-linearizable", format!("no order of the {} operations on names explains their results", ops.len())),
        Lin::Unknown => o.probe("undecided (too many concurrent operations)"),
        Lin::Yes => {}
    }
    o.probe_if(won > 0 && lost > 0, "a registration succeeded and another failed");
    o.probe_if(!got.is_empty(), "a message reached the holder of a name");
    o.probe_if(ops.iter().any(|x| matches!(x.op, N::Reg(_, _, true)) && death.values().any(|d| *d < x.e)), "a name was taken after an end");
    o.nontrivial = won >= 2;
    o
}

pub fn c07(v: &View) -> Out {
    let mut o = Out::default();
    struct T {
        t: u32,
        dur: i64,
        s: usize,
        e: usize,
        got: usize,
        cs: usize,
        ce: usize,
    }
    let time = |i: usize| v.recs[i].time as i64;
    let mut ts: BTreeMap<i64, T> = BTreeMap::new();
    let mut reads: BTreeMap<(u32, i64), usize> = BTreeMap::new();
    let mut outs: BTreeMap<i64, (usize, u32)> = BTreeMap::new();
    let mut death: BTreeMap<u32, usize> = BTreeMap::new();
    let mut doomed: BTreeSet<u32> = BTreeSet::new();
    let mut finished = false;
    let (mut early_ok, mut outs_n) = (0, 0);
    let last = v.recs.last().map(|r| r.time as i64).unwrap_or(0);
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::TIMER => {
                ts.insert(r.a[0], T { t: r.a[1] as u32, dur: r.a[2], s: i, e: INF, got: INF, cs: INF, ce: INF });
            }
            ev::TIMER_SET => {
                if let Some(t) = ts.get_mut(&r.a[0]) {
                    t.e = i;
                }
            }
            ev::RECV => match ts.get_mut(&r.a[0]) {
                None => o.v("invented", format!("actor {} received a message nobody scheduled", r.actor)),
                Some(t) => {
                    if t.got != INF {
                        o.v("duplicate", format!("timer {} delivered twice", r.a[0]));
                    }
                    if t.t != r.actor {
                        o.v("wrong-receiver", format!("timer {} for actor {} reached actor {}", r.a[0], t.t, r.actor));
                    }
                    if time(i) < time(t.s) + t.dur {
                        o.v("early", format!("timer {} of {} us delivered after {} us", r.a[0], t.dur / 1000, (time(i) - time(t.s)) / 1000));
                    }
                    if t.ce < i && time(t.ce) < time(t.s) + t.dur {
                        o.v("after-cancel", format!("timer {} delivered although it was cancelled in time", r.a[0]));
                    }
                    t.got = t.got.min(i);
                }
            },
            ev::CANCEL => {
                if let Some(t) = ts.get_mut(&r.a[0]) {
                    t.cs = t.cs.min(i);
                }
            }
            ev::CANCELLED => {
                if let Some(t) = ts.get_mut(&r.a[0]) {
                    t.ce = t.ce.min(i);
                }
            }
            ev::READ => {
                reads.insert((r.actor, r.a[0]), i);
            }
            ev::READ_RET => {
                let (Some(s), Some(t)) = (reads.remove(&(r.actor, r.a[0])), ts.get(&r.a[0])) else { continue };
                let val = r.a[1];
                if val >= 0 {
                    if t.ce < s {
                        o.v("read-cancelled", format!("cancelled timer {} still reads {} us", r.a[0], val / 1000));
                    }
                    if r.actor == 90 && t.got != INF {
                        o.v("read-delivered", format!("timer {} was delivered long ago but still reads {} us", r.a[0], val / 1000));
                    }
                    if t.e != INF && (val > t.dur || val > (time(t.e) + t.dur - time(s)).max(0)) {
                        o.v("read-too-much", format!("timer {} reads {} us of {} us, {} us after it was set", r.a[0], val / 1000, t.dur / 1000, (time(s) - time(t.e)) / 1000));
                    }
                    if val < time(t.s) + t.dur - time(i) {
                        o.v("read-too-little", format!("timer {} reads {} us of {} us, {} us after it was set", r.a[0], val / 1000, t.dur / 1000, (time(i) - time(t.s)) / 1000));
                    }
                } else if t.cs > i && time(i) < time(t.s) + t.dur {
                    o.v("read-none", format!("pending timer {} reads as gone", r.a[0]));
                }
            }
            ev::TIMEOUT => {
                if r.a[1] == 0 {
                    outs.insert(r.a[0], (i, r.actor));
                } else if let Some((s, _)) = outs.remove(&r.a[0]) {
                    outs_n += 1;
                    let took = (r.time - v.recs[s].time) as i64 / 1000;
                    let (d, x, ok) = (r.a[2], r.a[3], r.a[4] != 0);
                    if ok {
                        early_ok += 1;
                        if took < x {
                            o.v("sleep-early", format!("a sleep of {} us took {} us", x, took));
                        }
                    } else if took < d {
                        o.v("timeout-early", format!("a timeout of {} us was reported after {} us", d, took));
                    }
                    let max = if x >= 0 { d.min(x) } else { d };
                    if v.stats.stall == 0 && took > max + 60_000 {
                        o.v("timeout-late", format!("a timeout of {} us took {} us", max, took));
                    }
                }
            }
            ev::EXIT => {
                doomed.insert(r.a[0] as u32);
            }
            ev::DEATH => {
                death.entry(r.actor).or_insert(i);
            }
            ev::FINISH => finished = true,
            _ => {}
        }
    }
    if finished {
        for (n, t) in &ts {
            if t.got == INF && t.cs == INF && t.e != INF && !death.contains_key(&t.t) && !doomed.contains(&t.t) && time(t.s) + t.dur + 2_000_000_000 < last {
                o.v("lost", format!("timer {} of {} us was never delivered", n, t.dur / 1000));
            }
        }
        for (n, (s, a)) in &outs {
            if !death.contains_key(a) && !doomed.contains(a) && time(*s) + 10_000_000_000 < last {
                o.v("timeout-hangs", format!("timeout {} of actor {} never ended", n, a));
            }
        }
    }
    o.probe_if(ts.values().any(|t| t.got != INF), "a timer delivered");
    o.probe_if(ts.values().any(|t| t.ce != INF && t.got == INF), "a cancelled timer stayed silent");
    o.probe_if(ts.values().any(|t| t.cs != INF && t.got < t.cs), "a delivered timer was cancelled");
    o.probe_if(early_ok > 0, "a timeout did not expire");
    o.nontrivial = ts.len() >= 2 || outs_n >= 2;
    o
}

pub fn c08(v: &View) -> Out {
    let mut o = Out::default();
    #[derive(Default)]
    struct A {
        owner: u32,
        reply: bool,
        target: i64,
        e: usize,
        /// Owner's own removals: (start, end, result).
        rm: Vec<(usize, usize, Option<bool>)>,
        foreign: Vec<(usize, usize, Option<bool>, u32)>,
        down: usize,
    }
    let mut al: BTreeMap<i64, A> = BTreeMap::new();
    let mut sends: BTreeMap<i64, (i64, usize, usize)> = BTreeMap::new();
    let mut got: BTreeMap<i64, (usize, u32)> = BTreeMap::new();
    let mut death: BTreeMap<i64, usize> = BTreeMap::new();
    let mut doomed: BTreeMap<i64, usize> = BTreeMap::new();
    let mut finished = false;
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::ALIAS => {
                al.insert(r.a[0], A { owner: r.actor, reply: r.a[1] != 0, target: r.a[2], e: INF, down: INF, ..A::default() });
            }
            ev::ALIASED => {
                if let Some(a) = al.get_mut(&r.a[0]) {
                    a.e = i;
                }
            }
            ev::UNALIAS | ev::DEMONITOR => {
                if let Some(a) = al.get_mut(&r.a[0]) {
                    if a.owner == r.actor {
                        a.rm.push((i, INF, None));
                    } else {
                        a.foreign.push((i, INF, None, r.actor));
                    }
                }
            }
            ev::UNALIASED | ev::DEMONITORED => {
                if let Some(a) = al.get_mut(&r.a[0]) {
                    let res = (r.kind as u32 == ev::UNALIASED).then_some(r.a[1] != 0);
                    if a.owner == r.actor {
                        if let Some(x) = a.rm.last_mut() {
                            x.1 = i;
                            x.2 = res;
                        }
                    } else if let Some(x) = a.foreign.iter_mut().rev().find(|x| x.3 == r.actor) {
                        x.1 = i;
                        x.2 = res;
                    }
                }
            }
            ev::DOWN => {
                if let Some(a) = al.get_mut(&r.a[0]) {
                    a.down = a.down.min(i);
                }
            }
            ev::SEND => {
                sends.insert(r.a[0], (r.a[1], i, INF));
            }
            ev::SENT => {
                if let Some(s) = sends.get_mut(&r.a[0]) {
                    s.2 = i;
                }
            }
            ev::RECV => {
                if got.insert(r.a[0], (i, r.actor)).is_some() {
                    o.v("duplicate", format!("message {} was received twice", r.a[0]));
                }
            }
            ev::EXIT => {
                doomed.entry(r.a[0]).or_insert(i);
            }
            ev::DEATH => {
                death.entry(r.actor as i64).or_insert(i);
            }
            ev::FINISH => finished = true,
            _ => {}
        }
    }
    let ends = |a: i64| -> usize { death.get(&a).copied().unwrap_or(INF) };
    for (n, a) in &al {
        let mine: Vec<(&i64, &(i64, usize, usize))> = sends.iter().filter(|(_, s)| s.0 == *n).collect();
        let recv: Vec<i64> = mine.iter().filter(|(id, _)| got.contains_key(id)).map(|x| *x.0).collect();
        for id in &recv {
            let (at, who) = got[id];
            if who != a.owner {
                o.v("wrong-receiver", format!("message {} to an alias of {} reached {}", id, a.owner, who));
            }
            let s = sends[id];
            // Certainly inactive when the send began.
            if let Some(x) = a.rm.iter().find(|x| x.1 < s.1) {
                let _ = x;
                o.v("after-removal", format!("message {} sent after alias {} was removed arrived (record {})", id, n, at));
            }
            if a.down < s.1 {
                o.v("after-down", format!("message {} sent after the monitor of alias {} reported down arrived", id, n));
            }
        }
        if a.reply && recv.len() > 1 {
            o.v("two-replies", format!("reply alias {} accepted {} messages", n, recv.len()));
        }
        // The first moment it may have stopped being active.
        let mut stop = a.rm.iter().map(|x| x.0).min().unwrap_or(INF).min(ends(a.owner as i64));
        if a.target >= 0 {
            stop = stop.min(ends(a.target));
        }
        let alive = finished && ends(a.owner as i64) == INF && !doomed.contains_key(&(a.owner as i64));
        let sure: Vec<&&(i64, usize, usize)> = mine.iter().map(|x| &x.1).filter(|s| s.1 > a.e && s.2 < stop).collect();
        if alive {
            if a.reply {
                if !sure.is_empty() && recv.is_empty() {
                    o.v("lost", format!("the active reply alias {} accepted no message of {}", n, sure.len()));
                }
            } else {
                for (id, s) in mine.iter() {
                    if s.1 > a.e && s.2 < stop && !got.contains_key(id) {
                        o.v("lost", format!("message {} to the active alias {} was lost", id, n));
                    }
                }
            }
        }
        for (s, _, r, who) in &a.foreign {
            if *r == Some(true) {
                o.v("foreign-removal", format!("process {} removed alias {} of process {} (record {})", who, n, a.owner, s));
            }
        }
        let first_true = a.rm.iter().filter(|x| x.2 == Some(true)).count();
        if first_true > 1 {
            o.v("removed-twice", format!("alias {} was removed twice", n));
        }
        for (k, x) in a.rm.iter().enumerate() {
            let gone_before = a.rm[..k].iter().any(|y| y.1 != INF) || a.down < x.0 || a.reply && recv.iter().any(|id| sends[id].2 < x.0 || got[id].0 < x.0);
            if x.2 == Some(true) && gone_before {
                o.v("removed-inactive", format!("removing the inactive alias {} reported true", n));
            }
            let maybe_gone = a.rm[..k].iter().any(|y| y.0 < x.1) || a.target >= 0 && ends(a.target) < x.1 || a.reply && mine.iter().any(|(_, s)| s.1 < x.1);
            if x.2 == Some(false) && !maybe_gone {
                o.v("active-not-removed", format!("removing the active alias {} reported false", n));
            }
        }
    }
    o.probe_if(al.values().any(|a| a.reply && sends.iter().filter(|(_, s)| al.get(&s.0).is_some_and(|b| std::ptr::eq(a, b))).count() > 1), "several messages to one reply alias");
    o.probe_if(al.values().any(|a| a.rm.iter().any(|x| x.2 == Some(true))), "an alias was removed");
    o.probe_if(al.values().any(|a| !a.foreign.is_empty()), "a foreign alias was to be removed");
    o.probe_if(al.values().any(|a| a.down != INF), "the monitor of an alias reported down");
    o.nontrivial = got.len() >= 2;
    o
}
