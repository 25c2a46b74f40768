//! Oracle over process registries (C14).
use std::collections::{BTreeMap, BTreeSet};

use simapi::ev;

use crate::lin::{self, LOp, Lin};
use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;

#[derive(Debug, Clone, Copy)]
enum K {
    Who(i64),
    Ins(i64),
    Del,
    Rem(i64),
    RemAny,
    Clear,
    Forget(i64),
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct S {
    holder: i64,
    closed: bool,
}
fn step(s: &S, o: &K) -> Option<S> {
    let mut x = s.clone();
    match *o {
        K::Who(p) if s.holder == p => {}
        K::Ins(p) if s.holder == -2 && !s.closed => x.holder = p,
        K::Del if s.holder != -2 => x.holder = -2,
        K::RemAny if s.holder != -2 => x.holder = -2,
        K::Rem(p) if s.holder == p => x.holder = -2,
        K::Clear if !s.closed => {
            x.holder = -2;
            x.closed = true
        }
        K::Forget(p) if s.holder == p => x.holder = -2,
        _ => return None,
    }
    Some(x)
}
struct Call {
    s: usize,
    e: usize,
    what: i64,
    key: i64,
    timeout: i64,
    code: i64,
    x: [i64; 4],
}

pub fn c14(v: &View) -> Out {
    let mut o = Out::default();
    let mut calls: BTreeMap<i64, Call> = BTreeMap::new();
    let mut made: BTreeMap<i64, (usize, i64, bool)> = BTreeMap::new();
    let mut fails: Vec<(usize, String)> = Vec::new();
    let mut death: BTreeMap<i64, usize> = BTreeMap::new();
    let mut returned: BTreeSet<i64> = BTreeSet::new();
    let mut told: BTreeMap<i64, usize> = BTreeMap::new();
    let mut left: [BTreeMap<i64, bool>; 2] = Default::default();
    let (mut stop, mut stop_how, mut fin, mut up, mut fin2) = (INF, -1, INF, false, INF);
    for (i, r) in v.recs.iter().enumerate() {
        let a = r.actor as i64;
        match r.kind as u32 {
            ev::RG_CALL => {
                calls.insert(r.a[0], Call { s: i, e: INF, what: r.a[1], key: r.a[2], timeout: r.a[4], code: -1, x: [0; 4] });
            }
            ev::RG_RET => {
                if let Some(c) = calls.get_mut(&r.a[0]) {
                    c.e = i;
                    c.code = r.a[1];
                    c.x = [r.a[2], r.a[3], r.a[4], r.a[5]];
                    if c.code == 4 {
                        let t = v.str(r);
                        if !fails.iter().any(|f| f.0 > c.s && f.0 < i && f.1 == t) {
                            o.v("invented-failure", format!("a start failed with {}, but no start routine did", t));
                        }
                    }
                    if c.code == 5 && (r.time - v.recs[c.s].time) as i64 / 1_000_000 < c.timeout {
                        o.v("early-timeout", "a call to a registry timed out early".into());
                    }
                }
            }
            ev::RG_MADE => {
                made.insert(a, (i, r.a[0], r.a[1] != 0));
            }
            ev::RG_FAIL => fails.push((i, v.str(r))),
            ev::DEATH => {
                death.entry(a).or_insert(i);
            }
            ev::RETURN | ev::PANICKING | ev::TERMINATED => {
                returned.insert(a);
            }
            ev::EXIT => {
                told.entry(r.a[0]).or_insert(i);
            }
            ev::RG_STOP => {
                stop = stop.min(i);
                if stop_how < 0 {
                    stop_how = r.a[0];
                }
            }
            ev::RG_FINAL if r.a[0] == 0 => {
                fin = i;
                up = r.a[1] != 0;
            }
            ev::RG_FINAL => {
                fin2 = i;
                if r.a[1] != 0 {
                    o.v("not-stopped", "the registry is still running long after it was stopped".into());
                }
            }
            ev::RG_LEFT => {
                left[r.a[0] as usize % 2].insert(a, r.a[1] != 0);
            }
            _ => {}
        }
    }
    if fin == INF {
        return o;
    }
    if !up && stop > fin {
        o.v("registry-ended", "the registry ended although nobody stopped it".into());
    }
    // The history of every key on its own.
    let mut started = 0;
    for key in 0..3i64 {
        let mut ops: Vec<LOp<K>> = Vec::new();
        let mut add = |s, e, maybe, op| ops.push(LOp { s, e, maybe, op });
        let mut ins_end: BTreeMap<i64, usize> = BTreeMap::new();
        for c in calls.values().filter(|c| c.s < stop || c.e < fin2) {
            if c.what == 6 {
                if c.code == 0 {
                    let p = c.x[key as usize];
                    if p == -1 {
                        o.v("unknown-process", "the registry lists a process it never started".into());
                    }
                    add(c.s, c.e, false, K::Who(p));
                }
                continue;
            }
            if c.key != key || c.what == 5 {
                continue;
            }
            if c.code == 3 {
                o.v("not-supported", "a start was refused as not supported although there is a start routine".into());
            }
            if (0..=1).contains(&c.code) && c.x[0] == -1 {
                o.v("unknown-process", "the registry returned a process it never started".into());
            }
            match (c.what, c.code) {
                (0, 0) => add(c.s, c.e, false, K::Who(c.x[0])),
                (1, 0) | (2, 0) => {
                    let p = c.x[0];
                    let new = made.get(&p).is_some_and(|m| m.0 > c.s && m.0 < c.e);
                    if new {
                        let e = ins_end.entry(p).or_insert(INF);
                        *e = (*e).min(c.e);
                    } else if c.what == 1 {
                        o.v("not-started", format!("a start returned process {} which it did not start", p));
                    }
                    if c.what == 2 {
                        add(c.s, c.e, false, K::Who(p));
                    }
                }
                (1, 1) => add(c.s, c.e, false, K::Who(c.x[0])),
                (2, 1) => o.v("already-started", "lookup-or-start answered that the key is taken".into()),
                (3, 0) => add(c.s, c.e, false, K::Del),
                (3, 2) => add(c.s, c.e, false, K::Who(-2)),
                (3, 5) | (3, 6) | (3, -1) => add(c.s, INF, true, K::Del),
                (4, 0) => add(c.s, c.e, false, if c.x[0] == -2 { K::Who(-2) } else { K::Rem(c.x[0]) }),
                (4, _) => add(c.s, INF, true, K::RemAny),
                _ => {}
            }
        }
        for (p, (i, k, _)) in made.iter().filter(|m| m.1 .1 == key) {
            let _ = k;
            if *i > fin2 {
                continue;
            }
            started += 1;
            let e = ins_end.get(p).copied().unwrap_or(INF);
            let e = if up { e.min(fin) } else { e };
            add(*i, e, e == INF, K::Ins(*p));
            if let Some(d) = death.get(p) {
                add(*d, INF, true, K::Forget(*p));
            }
        }
        if stop != INF {
            add(stop, INF, true, K::Clear);
        }
        if lin::check(&ops, S { holder: -2, closed: false }, step, 150_000) == Lin::No {
            let mut l: Vec<_> = ops.iter().map(|x| (x.s, x.e, x.op)).collect();
            l.sort_by_key(|x| x.0);
            let t: Vec<String> = l.iter().map(|x| format!("{:?}@{}-{}", x.2, x.0, if x.1 == INF { "".to_string() } else { x.1.to_string() })).collect();
            o.v("not-linearizable", format!("no order of the operations on key {} explains their results: {}", key, t.join(" ")));
        }
    }
    // One process is started by at most one start.
    let mut owner: BTreeMap<i64, usize> = BTreeMap::new();
    for c in calls.values().filter(|c| c.what == 1 && c.code == 0) {
        *owner.entry(c.x[0]).or_default() += 1;
    }
    if let Some(x) = owner.iter().find(|x| *x.1 > 1) {
        o.v("shared", format!("process {} was returned by two starts", x.0));
    }
    // Why processes ended, and who is left.
    let mut removed: BTreeSet<i64> = BTreeSet::new();
    let mut stops: Vec<(usize, usize, i64)> = Vec::new();
    for c in calls.values() {
        if c.what == 4 && c.code == 0 && c.x[0] >= 0 {
            removed.insert(c.x[0]);
        }
        if c.what == 3 && c.code != 2 {
            stops.push((c.s, if c.code == 0 { c.e } else { INF }, c.key));
        }
    }
    let mut table: BTreeSet<i64> = BTreeSet::new();
    let mut listed = 0;
    for c in calls.values().filter(|c| c.s > fin && c.s < fin2) {
        match (c.what, c.code) {
            (0, 0) if c.x[0] >= 0 => {
                table.insert(c.x[0]);
            }
            (6, 0) => {
                listed = c.x[..3].iter().filter(|x| **x >= 0).count() as i64;
                for x in &c.x[..3] {
                    if *x >= 0 {
                        table.insert(*x);
                    }
                }
            }
            _ => {}
        }
    }
    for c in calls.values().filter(|c| c.what == 5 && c.code == 0) {
        if c.x[0] > 3 || (c.s > fin && c.s < fin2 && c.x[0] != listed) {
            o.v("count", format!("the registry counts {} processes of {}", c.x[0], listed));
        }
    }
    let timed = calls.values().any(|c| c.what == 4 && c.code != 0);
    for (p, (i, key, trap)) in &made {
        if *i > fin2 {
            continue;
        }
        let dead = death.get(p).copied().unwrap_or(INF);
        if table.contains(p) && dead < fin {
            o.v("dead-entry", format!("process {} ended long ago and is still registered", p));
        }
        let stopped = stops.iter().any(|s| s.2 == *key && s.1 > *i);
        if dead < fin && stop > fin && !returned.contains(p) && !told.contains_key(p) && !stopped {
            o.v("killed", format!("process {} ended although nothing told it to", p));
        }
        if dead > fin && up && !table.contains(p) {
            if !*trap && !removed.contains(p) && !timed {
                o.v("orphan", format!("process {} is alive, but neither registered nor removed", p));
            }
            if stop > fin && left[1].get(p) == Some(&false) {
                o.v("still-tied", format!("process {} was no longer registered, but ended with the registry", p));
            }
        }
        if up && table.contains(p) && left[1].get(p) == Some(&true) {
            o.v("survivor", format!("process {} outlived its registry", p));
        }
        if !up && stop < fin && left[1].get(p) == Some(&true) && !*trap && !removed.contains(p) && !timed {
            o.v("survivor", format!("process {} outlived its registry", p));
        }
        // Whoever was removed before the registry was stopped is no longer tied to it.
        let free = calls.values().any(|c| c.what == 4 && c.code == 0 && c.x[0] == *p && c.e < stop);
        if !up && stop < fin && stop_how != 2 && free && dead > stop && left[1].get(p) == Some(&false) && !returned.contains(p) && !told.contains_key(p) {
            o.v("still-tied", format!("process {} had been removed, but ended with the registry", p));
        }
        // Graceful modes let trapping processes finish.
        if up && table.contains(p) && *trap && stop > fin && stop_how != 2 && v.spec.params[2] % 4 >= 2 && dead > fin && !returned.contains(p) {
            o.v("killed-early", format!("process {} was killed before it could finish", p));
        }
    }
    o.probe_if(stop < fin, "the registry was stopped in use");
    o.probe_if(calls.values().any(|c| c.what == 1 && c.code == 1), "a start found its key taken");
    o.probe_if(made.iter().any(|m| death.get(m.0).is_some_and(|d| *d < fin)), "a registered process ended");
    o.probe_if(!removed.is_empty(), "a process was removed");
    o.probe_if(!fails.is_empty(), "a start failed");
    o.probe_if(v.recs.iter().any(|r| r.kind as u32 == ev::RG_DUP), "another registry of the name came and went");
    o.nontrivial = started >= 2 && calls.len() >= 6;
    o
}
