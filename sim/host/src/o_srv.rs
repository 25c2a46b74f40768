//! Oracles over servers and calls (C09, C10; C20 shares the calls).
use std::collections::{BTreeMap, BTreeSet};

use simapi::ev;

use crate::pool::View;
use crate::props::Out;

pub const INF: usize = usize::MAX;
#[derive(Clone, Default)]
pub struct Call {
    pub by: u32,
    pub target: i64,
    pub slot: i64,
    pub limit: i64,
    pub s: usize,
    pub e: usize,
    pub out: i64,
    pub rid: i64,
    pub rby: i64,
    pub code: i64,
    pub text: String,
}
#[derive(Default)]
pub struct Calls {
    pub calls: BTreeMap<i64, Call>,
    /// Request -> where it was handled.
    pub handled: BTreeMap<i64, Vec<(usize, u32)>>,
    pub replies: BTreeMap<i64, usize>,
    pub death: BTreeMap<u32, usize>,
    /// What may have ended each process, when.
    pub causes: BTreeMap<u32, Vec<(usize, String)>>,
    pub info: Vec<(usize, u32, i64)>,
    pub finished: bool,
}
impl Calls {
    pub fn build(v: &View) -> Calls {
        let mut c = Calls::default();
        for (i, r) in v.recs.iter().enumerate() {
            match r.kind as u32 {
                ev::CALL => {
                    c.calls.insert(r.a[0], Call { by: r.actor, target: r.a[1], slot: r.a[2], limit: r.a[4], s: i, e: INF, ..Call::default() });
                }
                ev::CALL_RET => {
                    if let Some(x) = c.calls.get_mut(&r.a[0]) {
                        x.e = i;
                        x.out = r.a[1];
                        x.rid = r.a[2];
                        x.code = r.a[2];
                        x.rby = r.a[3];
                        x.text = v.str(r);
                    }
                }
                ev::HANDLE => c.handled.entry(r.a[0]).or_default().push((i, r.actor)),
                ev::REPLY => {
                    c.replies.entry(r.a[0]).or_insert(i);
                }
                ev::EXIT => c.causes.entry(r.a[0] as u32).or_default().push((i, v.str(r))),
                ev::PANICKING => c.causes.entry(r.actor).or_default().push((i, v.str(r))),
                ev::DEATH => {
                    c.death.entry(r.actor).or_insert(i);
                }
                ev::INFO if r.a[1] == 1 => c.info.push((i, r.actor, r.a[0])),
                ev::FINISH => c.finished = true,
                _ => {}
            }
        }
        c
    }
    pub fn check(&self, v: &View, o: &mut Out) {
        let time = |i: usize| v.recs[i].time as i64 / 1000;
        let calm = v.stats.stall == 0;
        let mut last: BTreeMap<(u32, u32), (usize, i64)> = BTreeMap::new();
        for (id, h) in &self.handled {
            if h.len() > 1 {
                o.v("handled-twice", format!("request {} was handled {} times", id, h.len()));
            }
        }
        for (id, c) in &self.calls {
            // One client, one server: handled in the order called.
            if let Some(h) = self.handled.get(id) {
                let (at, by) = h[0];
                if at < c.s {
                    o.v("handled-before", format!("request {} was handled before it was made", id));
                }
                if c.target >= 0 && c.target != by as i64 {
                    o.v("wrong-server", format!("request {} to {} was handled by {}", id, c.target, by));
                }
                if let Some((p, pid)) = last.get(&(c.by, by)) {
                    if *p > at {
                        o.v("order", format!("request {} was handled after request {} of the same client", pid, id));
                    }
                }
                last.insert((c.by, by), (at, *id));
            }
            if c.e == INF {
                if self.finished && !self.death.contains_key(&c.by) && time(c.s) + c.limit + 1_000_000 < time(v.recs.len() - 1) {
                    o.v("hangs", format!("call {} of actor {} never ended", id, c.by));
                }
                continue;
            }
            let took = time(c.e) - time(c.s);
            if calm && took > c.limit + 60_000 {
                o.v("late", format!("call {} with timeout {} us ended after {} us", id, c.limit, took));
            }
            match c.out {
                0 => {
                    if c.rid != *id {
                        o.v("wrong-reply", format!("call {} returned the reply to request {}", id, c.rid));
                    }
                    match self.handled.get(id) {
                        None => o.v("unhandled", format!("call {} was answered but never handled", id)),
                        Some(h) => {
                            if h[0].0 > c.e || h[0].1 as i64 != c.rby {
                                o.v("unhandled", format!("call {} was answered by {} but handled by {}", id, c.rby, h[0].1));
                            }
                        }
                    }
                }
                1 => {
                    if took < c.limit {
                        o.v("early", format!("call {} with timeout {} us timed out after {} us", id, c.limit, took));
                    }
                    if let Some(r) = self.replies.get(id) {
                        if calm && time(*r) + 60_000 < time(c.s) + c.limit && *r < c.e {
                            o.v("reply-lost", format!("call {} timed out although its reply was sent {} us before", id, time(c.e) - time(*r)));
                        }
                    }
                    if c.target >= 0 {
                        if let Some(d) = self.death.get(&(c.target as u32)) {
                            if calm && *d < c.e && time(*d) + 60_000 < time(c.s) + c.limit {
                                o.v("down-missed", format!("call {} timed out although its server had exited {} us before", id, time(c.e) - time(*d)));
                            }
                        }
                    }
                    if c.slot == -2 {
                        o.v("unresponsive", format!("server {} answers no more", c.target));
                    }
                }
                _ => {
                    // Server down: the true reason.
                    let who: Vec<u32> = if c.target >= 0 { vec![c.target as u32] } else { self.causes.keys().copied().collect() };
                    if c.text == "noproc" {
                        if c.target >= 0 && !self.causes.get(&(c.target as u32)).is_some_and(|x| x.iter().any(|y| y.0 < c.e)) {
                            o.v("down-false", format!("call {} reported noproc but server {} was alive", id, c.target));
                        }
                    } else if !who.iter().any(|w| self.causes.get(w).is_some_and(|x| x.iter().any(|y| y.0 < c.e && y.1 == c.text))) {
                        o.v("down-reason", format!("call {} reported the server down with {:?}, which nothing caused", id, c.text));
                    }
                }
            }
        }
        // All observers see the same reason.
        let mut seen: BTreeMap<i64, String> = BTreeMap::new();
        for (id, c) in &self.calls {
            if c.out == 2 && c.e != INF && c.target >= 0 && c.text != "noproc" {
                let x = seen.entry(c.target).or_insert(c.text.clone());
                if *x != c.text {
                    o.v("down-differs", format!("call {} saw server {} end with {:?}, another with {:?}", id, c.target, c.text, x));
                }
            }
        }
        for (i, by, id) in &self.info {
            o.v("stray-reply", format!("the reply to request {} reached the mailbox of server {} (record {})", id, by, i));
        }
    }
}

pub fn c09(v: &View) -> Out {
    let mut o = Out::default();
    let c = Calls::build(v);
    c.check(v, &mut o);
    let n = |x: i64| c.calls.values().filter(|c| c.e != INF && c.out == x).count();
    o.probe_if(n(1) > 0, "a call timed out");
    o.probe_if(n(2) > 0, "a call found its server down");
    o.probe_if(c.calls.iter().any(|(id, c2)| c2.out == 1 && c2.e != INF && c.replies.get(id).is_some_and(|r| *r > c2.e)), "a reply came after its call timed out");
    o.probe_if(c.calls.iter().any(|(id, c2)| c2.out == 1 && c2.e != INF && c.replies.get(id).is_some_and(|r| *r < c2.e)), "a reply raced with a timeout");
    o.probe_if(c.calls.values().any(|x| x.by >= 10), "a server called a server");
    o.nontrivial = n(0) >= 2;
    o
}

pub fn c10(v: &View) -> Out {
    let mut o = Out::default();
    let time = |i: usize| v.recs[i].time as i64 / 1000;
    let calm = v.stats.stall == 0;
    #[derive(Default)]
    struct S {
        by: u32,
        link: bool,
        slot: i64,
        limit: i64,
        kind: i64,
        trap: bool,
        s: usize,
        e: usize,
        ok: bool,
        err: String,
        init: usize,
        done: usize,
        done_ok: bool,
        term: Vec<(usize, String)>,
        terminated: bool,
        handles: Vec<usize>,
        death: usize,
        down: Option<String>,
        downs: usize,
        listed: Option<bool>,
    }
    let mut ss: BTreeMap<u32, S> = BTreeMap::new();
    let mut death: BTreeMap<u32, usize> = BTreeMap::new();
    let mut traps: BTreeSet<u32> = BTreeSet::new();
    // (record, from, reason)
    let mut sig: BTreeMap<u32, Vec<(usize, u32, String)>> = BTreeMap::new();
    let mut own: BTreeMap<u32, Vec<(usize, String)>> = BTreeMap::new();
    let mut panics: BTreeMap<u32, (usize, String)> = BTreeMap::new();
    struct St {
        by: u32,
        c: u32,
        reason: String,
        limit: i64,
        s: usize,
        e: usize,
        ok: bool,
        err: String,
    }
    let mut stops: Vec<St> = Vec::new();
    let mut finished = false;
    for (i, r) in v.recs.iter().enumerate() {
        let a = r.a[0] as u32;
        match r.kind as u32 {
            ev::STARTING => {
                ss.insert(a, S { by: r.actor, link: r.a[1] != 0, slot: r.a[2], limit: r.a[3], kind: r.a[4], trap: r.a[5] != 0, s: i, e: INF, init: INF, done: INF, death: INF, ..S::default() });
            }
            ev::STARTED => {
                if let Some(s) = ss.get_mut(&a) {
                    s.e = i;
                    s.ok = r.a[1] != 0;
                    s.err = v.str(r);
                    if s.ok && r.a[2] == 0 {
                        o.v("wrong-pid", format!("starting server {} returned another pid", a));
                    }
                }
            }
            ev::TRAP => {
                traps.insert(r.actor);
            }
            ev::EXIT if a == r.actor => own.entry(a).or_default().push((i, v.str(r))),
            ev::EXIT => sig.entry(a).or_default().push((i, r.actor, v.str(r))),
            ev::PANICKING => {
                panics.insert(r.actor, (i, v.str(r)));
            }
            ev::DEATH => {
                death.entry(r.actor).or_insert(i);
                if let Some(s) = ss.get_mut(&r.actor) {
                    s.death = s.death.min(i);
                }
            }
            ev::STOP => stops.push(St { by: r.actor, c: a, reason: v.str(r), limit: r.a[2], s: i, e: INF, ok: false, err: String::new() }),
            ev::STOPPED => {
                if let Some(s) = stops.iter_mut().rev().find(|s| s.by == r.actor) {
                    s.e = i;
                    s.ok = r.a[1] != 0;
                    s.err = v.str(r);
                }
            }
            ev::FINISH => finished = true,
            ev::DOWN => {
                if let Some(s) = ss.get_mut(&a) {
                    s.downs += 1;
                    let t = v.str(r);
                    if t != "noproc" {
                        s.down = Some(t);
                    }
                }
            }
            k => {
                let Some(s) = ss.get_mut(&r.actor) else { continue };
                match k {
                    ev::INIT => s.init = s.init.min(i),
                    ev::INIT_DONE => {
                        s.done = i;
                        s.done_ok = r.a[0] != 0;
                    }
                    ev::TERMINATE => s.term.push((i, v.str(r))),
                    ev::TERMINATED => s.terminated = true,
                    ev::HANDLE | ev::EXIT_MSG => s.handles.push(i),
                    ev::TABLE => s.listed = Some(r.a[0] != 0),
                    _ => {}
                }
            }
        }
    }
    for (c, s) in &ss {
        let doomed = |before: usize| {
            sig.get(c).is_some_and(|x| x.iter().any(|y| y.0 < before && y.2 != "normal" && y.2 != "ignore" ))
                || s.link && (death.get(&s.by).is_some_and(|d| *d < before) || own.contains_key(&s.by) || sig.contains_key(&s.by) || panics.contains_key(&s.by))
        };
        if s.e != INF {
            if s.ok {
                if s.done == INF || s.done > s.e || !s.done_ok {
                    o.v("start-early", format!("starting server {} returned before its initialisation had finished", c));
                }
            } else {
                let panicked = panics.get(c).is_some_and(|p| p.0 < s.e);
                let fine = match s.err.as_str() {
                    "already_started" => s.slot >= 0 && s.init == INF && ss.iter().any(|(d, x)| d != c && x.slot == s.slot && x.s < s.e),
                    "timeout" => s.limit >= 0 && time(s.e) - time(s.s) >= s.limit,
                    "unknown" => panicked || doomed(s.e),
                    e => s.done != INF && !s.done_ok && own.get(c).is_some_and(|x| x.iter().any(|y| y.1 == e)) || panicked,
                };
                if !fine {
                    o.v("start-reason", format!("starting server {} (initialisation {}) failed with {:?}", c, s.kind, s.err));
                }
                if calm && s.err == "timeout" && s.done < s.e && s.done_ok {
                    o.v("start-reason", format!("starting server {} timed out although its initialisation had finished", c));
                }
                if finished && (s.listed == Some(true) || s.init != INF && s.death == INF) {
                    o.v("start-leak", format!("server {} failed to start with {:?} but still exists", c, s.err));
                }
            }
            if calm && s.limit >= 0 && time(s.e) - time(s.s) > s.limit.max(0) + 120_000 {
                o.v("start-late", format!("starting server {} with timeout {} us took {} us", c, s.limit, time(s.e) - time(s.s)));
            }
        } else if finished && !death.contains_key(&s.by) && !sig.contains_key(&s.by) {
            o.v("start-hangs", format!("starting server {} never returned", c));
        }
        if s.init == INF {
            continue;
        }
        if s.term.len() > 1 {
            o.v("terminate-twice", format!("server {} was terminated {} times", c, s.term.len()));
        }
        let began = s.term.first().map(|x| x.0).unwrap_or(INF);
        if s.handles.iter().any(|h| *h > began) {
            o.v("after-terminate", format!("server {} handled a message after it was terminated", c));
        }
        if s.handles.iter().any(|h| *h < s.done || s.done == INF) || began < s.done {
            o.v("before-init", format!("server {} ran a callback before its initialisation had finished", c));
        }
        if !s.done_ok && !s.term.is_empty() {
            o.v("terminate-failed-start", format!("server {} was terminated although its initialisation failed", c));
        }
        if let Some((at, text)) = s.term.first() {
            let stopped = stops.iter().any(|x| x.c == *c && x.s < *at && x.reason == *text);
            let failed = own.get(c).is_some_and(|x| x.iter().any(|y| y.0 < *at && y.1 == *text));
            let mut parent = false;
            if s.link && s.trap {
                parent |= sig.get(c).is_some_and(|x| x.iter().any(|y| y.0 < *at && y.1 == s.by && y.2 == *text));
                // The parent is on its way out: its own end, a signal, a panic, or by a link.
                parent |= text == "noproc" || text == "normal" || text == "kill" || text == "timeout" || text.starts_with("Failed to notify parent");
                parent |= own.get(&s.by).is_some_and(|x| x.iter().any(|y| y.0 < *at && y.1 == *text));
                parent |= ss.keys().any(|d| own.get(d).is_some_and(|x| x.iter().any(|y| y.0 < *at && y.1 == *text)));
                parent |= panics.values().any(|p| p.0 < *at && p.1 == *text);
                parent |= sig.values().flatten().any(|y| y.0 < *at && y.2 == *text);
                parent |= stops.iter().any(|x| x.s < *at && x.reason == *text);
            }
            if !stopped && !failed && !parent {
                o.v("terminate-reason", format!("server {} was terminated with {:?}, which nothing requested", c, text));
            }
        }
        // A callback failed: terminate must follow with its reason.
        if s.done_ok {
            if let Some(x) = own.get(c).and_then(|x| x.iter().find(|y| y.0 > s.done)) {
                if finished && s.death != INF && !doomed(s.death) && s.term.first().map(|t| &t.1) != Some(&x.1) {
                    o.v("terminate-missing", format!("server {} failed with {:?} but was terminated with {:?}", c, x.1, s.term.first().map(|t| &t.1)));
                }
            }
        }
        let panicked = panics.contains_key(c);
        // Nobody was left to be told about the start.
        let abandoned = s.e == INF && death.contains_key(&s.by);
        if s.death != INF && s.done_ok && !panicked && !abandoned && !doomed(s.death) {
            // Nothing ended it from outside.
            if s.term.is_empty() {
                o.v("terminate-missing", format!("server {} exited without being terminated", c));
            }
        }
        if let (Some(d), Some((at, t))) = (&s.down, s.term.first()) {
            let outside = sig.get(c).is_some_and(|x| x.iter().any(|y| y.2 != "normal" && y.2 != "ignore")) || s.link && !s.trap;
            if s.terminated && !outside && d != t {
                o.v("exit-reason", format!("server {} was terminated with {:?} (record {}) but exited with {:?}", c, t, at, d));
            }
        }
        if finished && s.terminated && s.death == INF {
            o.v("survived-terminate", format!("server {} was terminated but never exited", c));
        }
        if finished && s.death != INF && s.listed == Some(true) {
            o.v("listed-dead", format!("server {} has exited but is still listed", c));
        }
        // The parent of a linked server is gone.
        if finished && s.link && s.trap && s.done_ok && s.death == INF && death.contains_key(&s.by) {
            o.v("orphan", format!("server {} outlived its parent {}", c, s.by));
        }
        if s.downs > 1 {
            o.v("down-twice", format!("the observer saw server {} go down twice", c));
        }
    }
    let (mut okn, mut errn) = (0, 0);
    for x in &stops {
        let Some(s) = ss.get(&x.c) else { continue };
        if x.e == INF {
            if finished && !death.contains_key(&x.by) && !sig.contains_key(&x.by) && x.limit < 0 && s.death != INF {
                o.v("stop-hangs", format!("stopping server {} never returned", x.c));
            }
            if finished && !death.contains_key(&x.by) && x.limit < 0 && s.death == INF && s.done_ok {
                o.v("stop-ignored", format!("server {} never stopped", x.c));
            }
            continue;
        }
        let took = time(x.e) - time(x.s);
        if x.ok {
            okn += 1;
            if s.death > x.e && s.init != INF {
                o.v("stop-alive", format!("stopping server {} succeeded while it was running", x.c));
            }
            if let Some(d) = &s.down {
                if *d != x.reason {
                    o.v("stop-reason", format!("stopping server {} with {:?} succeeded but it exited with {:?}", x.c, x.reason, d));
                }
            }
        } else if x.err == "timeout" && s.death > x.e {
            errn += 1;
            if x.limit < 0 || took < x.limit {
                o.v("stop-early", format!("stopping server {} timed out after {} us", x.c, took));
            }
        } else {
            errn += 1;
            // It may also have exited with that reason.
            if x.err == "timeout" && calm && x.limit >= 0 && took >= x.limit && time(s.death) + 60_000 < time(x.e) && s.down.as_deref() != Some("timeout") {
                o.v("stop-missed", format!("stopping server {} timed out {} us after it had exited", x.c, time(x.e) - time(s.death)));
            }
            if x.err == "timeout" && x.limit >= 0 && took >= x.limit {
                continue;
            }
            if x.err == x.reason {
                o.v("stop-reason", format!("stopping server {} with {:?} failed with the same reason", x.c, x.reason));
            }
            if x.err != "noproc" && s.down.as_ref().is_some_and(|d| *d != x.err) {
                o.v("stop-reason", format!("stopping server {} reported {:?} but it exited with {:?}", x.c, x.err, s.down));
            }
            if s.death > x.e && s.init != INF {
                o.v("stop-alive", format!("stopping server {} reported its exit while it was running", x.c));
            }
        }
        if calm && x.limit >= 0 && took > x.limit + 60_000 {
            o.v("stop-late", format!("stopping server {} with timeout {} us took {} us", x.c, x.limit, took));
        }
    }
    o.probe_if(okn > 0, "a stop succeeded");
    o.probe_if(errn > 0, "a stop failed");
    o.probe_if(ss.values().any(|s| s.err == "timeout"), "an initialisation timed out");
    o.probe_if(ss.values().any(|s| s.err == "already_started"), "a name was taken");
    o.probe_if(ss.values().any(|s| !s.term.is_empty() && s.link && s.trap), "a linked trapping server was terminated");
    o.probe_if(ss.values().any(|s| s.down.is_some()), "an exit reason was observed");
    o.nontrivial = ss.values().filter(|s| s.ok).count() >= 2;
    o
}
