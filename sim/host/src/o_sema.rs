//! Oracles over semaphores and tasks (C21).
use std::collections::BTreeMap;

use simapi::ev;

use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;

pub fn semaphores(v: &View) -> Out {
    let mut o = Out::default();
    let total = 1 + (v.spec.params[1] % 4) as i64;
    struct S {
        s: usize,
        which: usize,
        n: i64,
        try_: bool,
        ret: usize,
        code: i64,
        free: usize,
        freed: usize,
        actor: u32,
    }
    let mut m: BTreeMap<i64, S> = BTreeMap::new();
    let mut dead: BTreeMap<u32, usize> = BTreeMap::new();
    let mut used = [0i64; 2];
    let mut fin = INF;
    let (mut gave_up, mut killed) = (0, 0);
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::SEM => {
                m.insert(r.a[0], S { s: i, which: r.a[1] as usize, n: r.a[2], try_: r.a[3] != 0, ret: INF, code: -1, free: INF, freed: INF, actor: r.actor });
            }
            ev::SEM_RET => {
                let Some(s) = m.get_mut(&r.a[0]) else { continue };
                s.ret = i;
                s.code = r.a[1];
                if s.code == 1 {
                    used[s.which] += s.n;
                    if used[s.which] > total {
                        o.v("over-admission", format!("{} permits of a semaphore of {} are in use", used[s.which], total));
                    }
                } else if s.code == 2 {
                    gave_up += 1;
                }
            }
            ev::SEM_FREE => {
                let Some(s) = m.get_mut(&r.a[0]) else { continue };
                s.free = i;
                used[s.which] -= s.n;
            }
            ev::SEM_FREED => {
                if let Some(s) = m.get_mut(&r.a[0]) {
                    s.freed = i;
                }
            }
            ev::DEATH => {
                dead.entry(r.actor).or_insert(i);
                killed += 1;
            }
            ev::NOTE => fin = fin.min(i),
            _ => {}
        }
    }
    if fin == INF {
        return o;
    }
    let mut got = 0;
    for (id, s) in &m {
        if s.ret == INF && !dead.contains_key(&s.actor) {
            o.v("stuck", format!("acquisition {} still waits although every permit was released long ago", id));
        }
        if s.code == 1 {
            got += 1;
            if s.free == INF {
                o.v("not-released", format!("the holder of acquisition {} is gone, its permit was never dropped", id));
            }
        }
        if s.try_ && s.code == 0 {
            let end = |x: &S| if x.code == 0 || x.code == 2 { x.ret } else { x.freed };
            let sum: i64 = m.iter().filter(|(j, x)| *j != id && x.which == s.which && x.s < s.ret && end(x) > s.s).map(|(_, x)| x.n).sum();
            if sum < total {
                o.v("refused", format!("a permit was refused although at most {} of {} were in use", sum, total));
            }
        }
    }
    o.probe_if(m.values().any(|s| s.try_ && s.code == 0), "a try was refused");
    o.probe_if(gave_up > 0, "an acquisition was given up");
    o.probe_if(killed > 0, "a process ended");
    o.probe_if(m.values().any(|s| s.code == 1 && m.values().any(|x| x.which == s.which && x.code == 1 && x.s < s.free && x.ret > s.freed)), "an acquisition waited for a release");
    o.nontrivial = got >= 4;
    o
}

pub fn tasks(v: &View) -> Out {
    let mut o = Out::default();
    #[derive(Default)]
    struct T {
        blocking: bool,
        end: Option<(usize, bool)>,
        panicking: Option<usize>,
        steps: Vec<usize>,
    }
    struct W {
        actor: u32,
        kind: i64,
        ts: Vec<i64>,
        s: usize,
        e: usize,
        code: i64,
        val: i64,
    }
    let mut ts: BTreeMap<i64, T> = BTreeMap::new();
    let mut ws: BTreeMap<i64, W> = BTreeMap::new();
    let mut fin = INF;
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::TASK => {
                ts.insert(r.a[0], T { blocking: r.a[2] != 0, ..T::default() });
            }
            ev::TASK_STEP => ts.entry(r.a[0]).or_default().steps.push(i),
            ev::TASK_END => ts.entry(r.a[0]).or_default().end = Some((i, r.a[1] != 0)),
            ev::PANICKING => ts.entry(r.a[0]).or_default().panicking = Some(i),
            ev::TASK_WAIT => {
                let n = if r.a[1] == 3 { 5 } else { 3 };
                ws.insert(r.a[0], W { actor: r.actor, kind: r.a[1], ts: r.a[2..n].to_vec(), s: i, e: INF, code: -1, val: 0 });
            }
            ev::TASK_RET => {
                if let Some(w) = ws.get_mut(&r.a[0]) {
                    w.e = i;
                    w.code = r.a[1];
                    w.val = r.a[2];
                }
            }
            ev::NOTE => fin = fin.min(i),
            _ => {}
        }
    }
    if fin == INF {
        return o;
    }
    let time = |i: usize| v.recs[i].time / 1000;
    let quick = v.stats.stall == 0;
    let mut ended = 0;
    for t in ts.values() {
        if t.end.is_some() {
            ended += 1;
        }
    }
    for (id, w) in &ws {
        let tasks: Vec<&T> = w.ts.iter().map(|t| &ts[t]).collect();
        if w.e > fin {
            // Whatever was waited for ends sooner or later.
            o.v("stuck", format!("wait {} of actor {} for tasks {:?} never returned", id, w.actor, w.ts));
            continue;
        }
        let done_before = |t: &T, i: usize| t.end.is_some_and(|e| e.1 && e.0 < i);
        match (w.kind, w.code) {
            (_, 0) => {
                if !tasks.iter().all(|t| done_before(t, w.e)) {
                    o.v("invented-result", format!("wait {} for tasks {:?} gave a result before all of them completed", id, w.ts));
                }
                if w.kind != 3 && w.val != w.ts[0] {
                    o.v("wrong-result", format!("wait {} for task {} gave the result of task {}", id, w.ts[0], w.val));
                }
            }
            (2, 1) => {
                if done_before(tasks[0], w.s) {
                    o.v("lost-result", format!("task {} had completed before it was shut down, its result is lost", w.ts[0]));
                }
                if tasks[0].end.is_some_and(|e| e.1) && tasks[0].end.unwrap().0 > w.e {
                    o.v("ran-on", format!("task {} completed after it was shut down", w.ts[0]));
                }
                if tasks[0].steps.iter().any(|s| *s > w.e) {
                    o.v("ran-on", format!("task {} went on after it was shut down", w.ts[0]));
                }
            }
            (_, 1) => {
                if !tasks.iter().any(|t| t.panicking.is_some_and(|p| p < w.e)) {
                    o.v("invented-error", format!("wait {} for tasks {:?} gave an error although none failed", id, w.ts));
                }
            }
            (1, 2) if quick => {
                if tasks[0].end.is_some_and(|e| e.0 < w.e && time(e.0) + 60_000 < time(w.e)) && time(w.e) > time(w.s) + 60_000 {
                    o.v("late", format!("task {} had ended long before the wait for it timed out", w.ts[0]));
                }
            }
            _ => {}
        }
        if quick && w.code != 2 && (w.kind == 0 || w.kind == 2) {
            if let Some((e, _)) = tasks[0].end {
                if time(w.e) > time(e.max(w.s)) + 60_000 && !tasks[0].blocking {
                    o.v("late", format!("wait {} returned long after task {} had ended", id, w.ts[0]));
                }
            }
        }
    }
    o.probe_if(ws.values().any(|w| w.kind == 3 && w.code == 0), "three tasks were awaited");
    o.probe_if(ws.values().any(|w| w.kind == 3 && w.code == 1), "one of three tasks failed");
    o.probe_if(ws.values().any(|w| w.kind == 2 && w.code == 1), "a task was shut down in time");
    o.probe_if(ws.values().any(|w| w.kind == 2 && w.code == 0), "a task was shut down too late");
    o.nontrivial = ended >= 3;
    o
}
