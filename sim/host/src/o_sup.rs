//! Oracles over supervisors (C11, C12, C13).
use std::collections::{BTreeMap, BTreeSet, VecDeque};

use simapi::ev;

use crate::lin::{self, LOp, Lin};
use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;
#[derive(Clone, Copy, Default)]
struct Conf {
    restart: i64,
    kind: i64,
    shut: i64,
    significant: bool,
    sup: bool,
    term_ms: i64,
    stubborn: bool,
}
fn conf(a: &[i64]) -> Conf {
    Conf { restart: a[0], kind: a[1], shut: a[2], significant: a[3] != 0, sup: a[4] != 0, term_ms: a[5] / 2, stubborn: a[5] % 2 != 0 }
}
#[derive(Clone, Default)]
struct Inst {
    cid: u32,
    out: i64,
    order: usize,
    start: usize,
    up: usize,
    death: usize,
    term: Vec<(usize, String)>,
    terminated: usize,
    /// (record, code)
    causes: Vec<(usize, i64, String)>,
}
#[derive(Default)]
struct Sup {
    strategy: i64,
    max: i64,
    win: i64,
    auto: i64,
    initial: u32,
    confs: BTreeMap<u32, Conf>,
    insts: BTreeMap<u32, Inst>,
    orders: Vec<(usize, u32, u32, i64)>,
    downs: Vec<(usize, String)>,
    /// (record, op, child, number)
    ops: Vec<(usize, i64, u32, i64)>,
    finished: bool,
    stop: usize,
    quiet: usize,
}
fn build(v: &View) -> Sup {
    let mut s = Sup { stop: INF, quiet: INF, ..Sup::default() };
    for (i, r) in v.recs.iter().enumerate() {
        let a = &r.a;
        match r.kind as u32 {
            ev::NOTE => match v.str(r).as_str() {
                "supervisor" => {
                    (s.strategy, s.max, s.win, s.auto) = (a[0], a[1], a[2] * 1000, a[3]);
                    s.initial = a[4] as u32;
                }
                "quiet" => s.quiet = i,
                _ => {}
            },
            ev::CHILD_DOWN => {
                s.confs.insert(r.actor, conf(a));
            }
            ev::ORDER => {
                s.orders.push((i, r.actor, a[0] as u32, a[1]));
                s.insts.insert(a[0] as u32, Inst { cid: r.actor, out: a[1], order: i, start: INF, up: INF, death: INF, terminated: INF, ..Inst::default() });
            }
            ev::EXIT => {
                if let Some(x) = s.insts.get_mut(&(a[0] as u32)) {
                    x.causes.push((i, a[1], v.str(r)));
                }
            }
            ev::START | ev::CHILD_UP | ev::DEATH | ev::TERMINATE | ev::TERMINATED => {
                let Some(x) = s.insts.get_mut(&r.actor) else { continue };
                match r.kind as u32 {
                    ev::START => x.start = i,
                    ev::CHILD_UP => x.up = i,
                    ev::DEATH => x.death = x.death.min(i),
                    ev::TERMINATE => x.term.push((i, v.str(r))),
                    _ => x.terminated = i,
                }
            }
            ev::SUP => {
                if a[1] >= 11 {
                    s.stop = s.stop.min(i);
                }
                s.ops.push((i, a[1], a[2] as u32, a[0]));
            }
            ev::SUP_DOWN => s.downs.push((i, v.str(r))),
            ev::FINISH => s.finished = true,
            _ => {}
        }
    }
    s
}
impl Inst {
    fn alive(&self, at: usize) -> bool {
        self.start < at && self.death > at
    }
}

// ---- one operation at a time: an exact model ----
#[derive(Clone)]
struct Ch {
    cid: u32,
    run: Option<u32>,
    restarting: bool,
}
struct Model<'a> {
    s: &'a Sup,
    v: &'a View,
    ch: Vec<Ch>,
    queue: BTreeMap<u32, VecDeque<i64>>,
    restarts: Vec<i64>,
    alive: bool,
    /// Starts of the current operation not yet explained.
    starts: VecDeque<(usize, u32, u32, i64)>,
    gone: BTreeSet<u32>,
    siblings: Vec<u32>,
    failures: usize,
    unsure: bool,
    err: Option<(&'static str, String)>,
    at: i64,
}
enum St {
    Up(u32),
    Ignored,
    Failed,
}
impl Model<'_> {
    fn time(&self, i: usize) -> i64 {
        self.v.recs[i].time as i64 / 1000
    }
    fn conf(&self, cid: u32) -> Conf {
        self.s.confs.get(&cid).copied().unwrap_or_default()
    }
    fn fail(&mut self, k: &'static str, t: String) {
        if self.err.is_none() && !self.unsure {
            self.err = Some((k, t));
        }
    }
    fn next(&mut self, cid: u32) -> St {
        let Some((i, c, inst, out)) = self.starts.pop_front() else {
            self.fail("not-restarted", format!("child c{} should have been started", cid));
            return St::Ignored;
        };
        if c != cid {
            self.fail("wrong-start", format!("child c{} was started where c{} was due (record {})", c, cid, i));
            return St::Ignored;
        }
        let mut want = self.queue.get_mut(&cid).and_then(|q| q.pop_front()).unwrap_or(0);
        if (want == 4 || want == 5) && self.conf(cid).kind > 2 {
            want = 1;
        }
        if want != out {
            self.unsure = true;
        }
        match out {
            1 | 6 => {
                self.at = self.time(i) + if out == 6 { 20_000 } else { 0 };
                self.failures += 1;
                St::Failed
            }
            2 => St::Ignored,
            4 | 5 => {
                self.at = self.time(i);
                self.gone.insert(inst);
                self.failures += 1;
                St::Failed
            }
            _ => {
                let up = self.s.insts[&inst].up;
                if let Some((n, ..)) = self.starts.front() {
                    if up > *n {
                        self.fail("start-overlap", format!("the start after that of c{} (record {}) began before it was up", cid, i));
                    }
                }
                St::Up(inst)
            }
        }
    }
    /// True if there were too many restarts.
    fn count(&mut self) -> bool {
        let now = self.at;
        for r in &self.restarts {
            if (now - r - self.s.win).abs() < 100_000 {
                self.unsure = true;
            }
        }
        let w = self.s.win;
        self.restarts.retain(|r| now - r <= w);
        self.restarts.push(now);
        self.restarts.len() as i64 > self.s.max
    }
    fn shutdown(&mut self) {
        for c in &mut self.ch {
            if let Some(i) = c.run.take() {
                self.gone.insert(i);
            }
        }
        self.alive = false;
    }
    fn stop(&mut self, k: usize) {
        self.ch[k].restarting = false;
        if let Some(i) = self.ch[k].run.take() {
            self.gone.insert(i);
            self.siblings.push(i);
        }
    }
    /// Starts again what the strategy says; gives the child that failed to start.
    fn round(&mut self, k: usize) -> Option<usize> {
        let (mut k, mut from) = (k, k);
        if self.s.strategy != 0 {
            from = if self.s.strategy == 1 { 0 } else { k };
            let mut j = from;
            while j < self.ch.len() {
                if j != k {
                    self.stop(j);
                    if self.conf(self.ch[j].cid).restart == 1 {
                        self.ch.remove(j);
                        if j < k {
                            k -= 1;
                        }
                        continue;
                    }
                }
                j += 1;
            }
        }
        let to = if self.s.strategy == 0 { k + 1 } else { self.ch.len() };
        for j in from..to {
            match self.next(self.ch[j].cid) {
                St::Up(i) => self.ch[j].run = Some(i),
                St::Ignored => self.ch[j].run = None,
                St::Failed => {
                    self.ch[j].restarting = true;
                    return Some(j);
                }
            }
            self.ch[j].restarting = false;
        }
        None
    }
    fn trigger(&mut self, k: usize) {
        if self.count() {
            return self.shutdown();
        }
        let mut k = k;
        while let Some(j) = self.round(k) {
            if self.err.is_some() || self.unsure {
                return;
            }
            if self.count() {
                return self.shutdown();
            }
            k = j;
        }
    }
    fn auto(&mut self, c: u32) {
        if !self.conf(c).significant {
            return;
        }
        let others = self.ch.iter().any(|x| (x.run.is_some() || x.restarting) && self.conf(x.cid).significant);
        if self.s.auto == 1 || self.s.auto == 2 && !others {
            self.shutdown();
        }
    }
    fn exit(&mut self, k: usize, code: i64) {
        let cid = self.ch[k].cid;
        let c = self.conf(cid);
        if let Some(i) = self.ch[k].run.take() {
            self.gone.insert(i);
            self.at = self.time(self.s.insts[&i].death.min(self.v.recs.len() - 1));
        }
        if c.restart == 0 || c.restart == 2 && code > 1 {
            return self.trigger(k);
        }
        self.ch.remove(k);
        self.auto(cid);
    }
    fn find(&self, cid: u32) -> Option<usize> {
        self.ch.iter().position(|c| c.cid == cid)
    }
    fn which(&self) -> String {
        self.ch.iter().map(|c| format!("{}:{}:{};", c.cid, c.run.unwrap_or(0), c.restarting)).collect()
    }
}
const RESULT: [&str; 9] = ["a pid", "nothing", "already started", "already present", "start error", "not found", "running", "restarting", "call error"];
pub fn seq(v: &View) -> Out {
    let mut o = Out::default();
    let s = build(v);
    let mut m = Model {
        s: &s,
        v,
        ch: Vec::new(),
        queue: BTreeMap::new(),
        restarts: Vec::new(),
        alive: true,
        starts: VecDeque::new(),
        gone: BTreeSet::new(),
        siblings: Vec::new(),
        failures: 0,
        unsure: false,
        err: None,
        at: 0,
    };
    let (mut restarts, mut tables, mut gave_up) = (0, 0, 0);
    let mut notes = v.recs.iter().enumerate().filter(|(_, r)| r.kind as u32 == ev::NOTE && v.str(r) == "outcome").peekable();
    for (n, (b, op, c, num)) in s.ops.iter().enumerate() {
        let (b, op, c) = (*b, *op, *c);
        let e = s.ops.get(n + 1).map(|x| x.0).unwrap_or(v.recs.len());
        if e == v.recs.len() && !s.finished {
            break;
        }
        while let Some((_, r)) = notes.next_if(|(i, _)| *i < b) {
            m.queue.entry(r.actor).or_default().push_back(r.a[0]);
        }
        m.starts = s.orders.iter().filter(|x| x.0 > b && x.0 < e).copied().collect();
        m.gone.clear();
        m.siblings.clear();
        m.failures = 0;
        let ret = v.recs[b..e].iter().position(|r| r.kind as u32 == ev::SUP_RET && (r.a[0] == *num)).map(|i| &v.recs[b + i]);
        let Some(ret) = ret else {
            m.fail("no-return", format!("operation {} on the supervisor never returned (record {})", op, b));
            break;
        };
        let (code, inst) = (ret.a[2], ret.a[3]);
        let mut down: Option<String> = None;
        // The expected result and instance, if the operation has one.
        let mut want: Option<(i64, i64)> = None;
        match op {
            1 => {
                let mut failed = false;
                for cid in 0..s.initial {
                    match m.next(cid) {
                        St::Up(i) => m.ch.push(Ch { cid, run: Some(i), restarting: false }),
                        St::Ignored => m.ch.push(Ch { cid, run: None, restarting: false }),
                        St::Failed => {
                            failed = true;
                            break;
                        }
                    }
                }
                if failed {
                    m.shutdown();
                    if code == 0 || v.str(ret) != "failed_to_start_child" {
                        m.fail("start-result", format!("a child failed to start but the start of the supervisor gave {:?}", v.str(ret)));
                    }
                } else if code != 0 {
                    m.fail("start-result", format!("all children started but the start of the supervisor failed with {:?}", v.str(ret)));
                }
                let s = m.s;
                m.ch.retain(|c| c.run.is_some() || s.confs[&c.cid].restart != 1);
            }
            2 => {
                let x = v.recs[b..e].iter().find(|r| r.kind as u32 == ev::EXIT);
                if let Some((k, x)) = x.and_then(|x| m.ch.iter().position(|c| c.run == Some(x.a[0] as u32)).map(|k| (k, x))) {
                    let was = m.ch[k].cid;
                    m.exit(k, x.a[1]);
                    restarts += 1;
                    if !m.alive {
                        gave_up += 1;
                        down = Some("shutdown".into());
                    }
                    let _ = was;
                }
            }
            4 => {
                tables += 1;
                want = Some(match m.find(c) {
                    None => (5, 0),
                    Some(k) => {
                        m.stop(k);
                        if m.conf(c).restart == 1 {
                            m.ch.remove(k);
                        }
                        (0, 0)
                    }
                });
            }
            5 => {
                tables += 1;
                want = Some(match m.find(c) {
                    None => (5, 0),
                    Some(k) if m.ch[k].restarting => (7, 0),
                    Some(k) if m.ch[k].run.is_some() => (6, 0),
                    Some(k) => match m.next(c) {
                        St::Up(i) => {
                            m.ch[k].run = Some(i);
                            (0, i as i64)
                        }
                        St::Ignored => (1, 0),
                        St::Failed => (4, 0),
                    },
                });
            }
            6 => {
                tables += 1;
                want = Some(match m.find(c) {
                    None => (5, 0),
                    Some(k) if m.ch[k].restarting => (7, 0),
                    Some(k) if m.ch[k].run.is_some() => (6, 0),
                    Some(k) => {
                        m.ch.remove(k);
                        (0, 0)
                    }
                });
            }
            7 => {
                tables += 1;
                want = Some(match m.find(c) {
                    Some(k) if m.ch[k].run.is_some() => (2, 0),
                    Some(_) => (3, 0),
                    None => match m.next(c) {
                        St::Up(i) => {
                            m.ch.push(Ch { cid: c, run: Some(i), restarting: false });
                            (0, i as i64)
                        }
                        St::Ignored => {
                            if m.conf(c).restart != 1 {
                                m.ch.push(Ch { cid: c, run: None, restarting: false });
                            }
                            (1, 0)
                        }
                        St::Failed => (4, 0),
                    },
                });
            }
            8 => {
                let sups = m.ch.iter().filter(|c| m.conf(c.cid).sup).count() as i64;
                let x = (m.ch.len() as i64 * 1000 + m.ch.iter().filter(|c| c.run.is_some()).count() as i64, sups, m.ch.len() as i64 - sups);
                if code != 0 || (ret.a[3], ret.a[4], ret.a[5]) != x {
                    let t = format!("counting gave {:?} instead of {:?} for {}", (ret.a[3], ret.a[4], ret.a[5]), x, m.which());
                    m.fail("count", t);
                }
            }
            9 => {
                let t = v.str(ret);
                if code != 0 || t != m.which() {
                    let t = format!("listing gave {:?} instead of {:?}", t, m.which());
                    m.fail("list", t);
                }
            }
            _ => {
                m.shutdown();
                let reason = v.str(&v.recs[b]);
                if op == 11 && code != 0 || op == 12 && v.str(ret) != reason {
                    m.fail("stop-result", format!("stopping the supervisor gave {:?}", v.str(ret)));
                }
                down = Some(reason);
            }
        }
        if let Some((wc, wi)) = want {
            if wc != code || wi != inst {
                let what = ["", "", "", "", "terminating", "restarting", "deleting", "starting"][op as usize];
                let t = format!("{} child c{} gave {} (instance {}) instead of {} (instance {}); record {}", what, c, RESULT[code as usize % 9], inst, RESULT[wc as usize], wi, b);
                m.fail("result", t);
            }
        }
        if let Some((i, c, ..)) = m.starts.front().copied() {
            m.fail("started", format!("child c{} should not have been started (record {})", c, i));
        }
        let died: BTreeSet<u32> = s.insts.iter().filter(|(_, x)| x.death > b && x.death < e).map(|x| *x.0).collect();
        if died != m.gone {
            let extra: Vec<_> = died.difference(&m.gone).collect();
            let missing: Vec<_> = m.gone.difference(&died).collect();
            let t = format!("operation {} (record {}): instances {:?} ended that should run on, and {:?} run that should have ended", op, b, extra, missing);
            m.fail(if extra.is_empty() { "still-running" } else { "ended" }, t);
        }
        if m.failures == 0 && op == 2 {
            let first = s.orders.iter().find(|x| x.0 > b && x.0 < e).map(|x| x.0).unwrap_or(INF);
            if let Some(i) = m.siblings.iter().find(|i| s.insts[i].death > first && s.insts[i].death < e) {
                let t = format!("instance {} was still running when the children were started again", i);
                m.fail("not-stopped-first", t);
            }
        }
        let got = s.downs.iter().find(|x| x.0 > b && x.0 < e).map(|x| x.1.clone());
        if got != down && (m.alive || op != 1) {
            m.fail("supervisor", format!("the supervisor exited with {:?} instead of {:?} (operation {}, record {})", got, down, op, b));
        }
        if m.unsure || m.err.is_some() || !m.alive {
            break;
        }
    }
    if !m.unsure {
        if let Some((k, t)) = m.err {
            o.v(k, t);
        }
    }
    o.probe_if(restarts > 0, "a child exited");
    o.probe_if(gave_up > 0, "the supervisor gave up or shut itself down");
    o.probe_if(tables > 0, "the table of children was changed");
    o.probe_if(m.unsure, "too close to the end of a window to tell");
    o.probe_if(s.strategy == 1 && restarts > 0, "one for all");
    o.probe_if(s.strategy == 2 && restarts > 0, "rest for one");
    o.nontrivial = restarts + tables >= 2;
    o
}

/// What holds of every supervisor whatever happens at the same time.
fn always(v: &View, s: &Sup, o: &mut Out) {
    let mut last: BTreeMap<u32, u32> = BTreeMap::new();
    for (i, c, inst, _) in &s.orders {
        if let Some(p) = last.get(c) {
            let p = &s.insts[p];
            if p.start != INF && p.death > *i && ![4, 5].contains(&p.out) {
                o.v("two-running", format!("child c{} was started again (record {}) while it was running", c, i));
            }
        }
        last.insert(*c, *inst);
    }
    if let Some((d, _)) = s.downs.first() {
        for (i, x) in &s.insts {
            // One that failed to start may still be on its way out.
            if x.start != INF && x.death > *d && ![4, 5].contains(&x.out) {
                o.v("outlived", format!("instance {} of child c{} outlived its supervisor", i, x.cid));
            }
        }
        if let Some(x) = s.orders.iter().find(|x| x.0 > *d) {
            o.v("started-after", format!("child c{} was started after its supervisor had exited", x.1));
        }
    }
    if s.downs.len() > 1 {
        o.v("down-twice", "the supervisor went down twice".into());
    }
    if s.finished && s.downs.is_empty() && s.stop != INF {
        o.v("stop-hangs", "the supervisor never stopped".into());
    }
    let _ = v;
}
pub fn race(v: &View) -> Out {
    let mut o = Out::default();
    let s = build(v);
    always(v, &s, &mut o);
    let time = |i: usize| v.recs[i.min(v.recs.len() - 1)].time as i64 / 1000;
    let first: BTreeMap<u32, usize> = s.orders.iter().rev().map(|x| (x.1, x.0)).collect();
    let mut prev: BTreeMap<u32, usize> = BTreeMap::new();
    for (i, c, inst, _) in &s.orders {
        if s.strategy != 0 {
            for (j, x) in &s.insts {
                if x.cid > *c && x.alive(*i) {
                    o.v("not-stopped-first", format!("child c{} was started (record {}) while instance {} of c{}, which comes after it, was running", c, i, j, x.cid));
                }
                if s.strategy == 1 && x.cid < *c && x.alive(*i) && prev.get(c).is_some_and(|d| x.order < *d) {
                    o.v("not-restarted", format!("child c{} was started again (record {}) but not instance {} of c{}", c, i, j, x.cid));
                }
            }
        }
        if s.insts[inst].start != INF {
            prev.insert(*c, s.insts[inst].death);
        }
        let cf = s.confs[c];
        if cf.restart == 1 && first[c] < *i {
            o.v("temporary-restarted", format!("the temporary child c{} was started again (record {})", c, i));
        }
    }
    let own = |x: &Inst| x.causes.iter().any(|c| c.0 < x.death);
    // Successful terminations: (child, call, return).
    let ended: Vec<(u32, usize, usize)> = s
        .ops
        .iter()
        .filter(|x| x.1 == 4)
        .filter_map(|x| v.recs.iter().position(|r| r.kind as u32 == ev::SUP_RET && r.a[0] == x.3 && r.a[1] == 4 && r.a[2] == 0).map(|e| (x.2, x.0, e)))
        .collect();
    let asked = |c: u32, before: usize| s.ops.iter().any(|x| x.1 == 4 && x.2 == c && x.0 < before);
    // A failed start that was not tried again, because the child was terminated, counts for nothing.
    let counts = |x: &&(usize, u32, u32, i64)| !ended.iter().any(|t| t.0 == x.1 && t.1 > x.0 && !s.orders.iter().any(|y| y.1 == x.1 && y.0 > x.0 && y.0 < t.2));
    let failures = s.orders.iter().filter(|x| [1, 4, 5, 6].contains(&x.3)).filter(|x| s.strategy != 0 || counts(x)).count();
    if s.strategy == 0 {
        for (c, _, e) in &ended {
            if let Some(x) = s.orders.iter().find(|x| x.1 == *c && x.0 > *e) {
                o.v("terminated-restarted", format!("child c{} was started again (record {}) after it had been terminated (record {})", c, x.0, e));
            }
        }
    }
    let down = s.downs.first().map(|x| x.0).unwrap_or(INF).min(s.stop);
    for (i, x) in &s.insts {
        if x.death < s.stop && x.start != INF && !own(x) && !asked(x.cid, x.death) && [0, 3].contains(&x.out) {
            let more = s.orders.iter().any(|y| y.0 > x.death) || s.finished && s.downs.first().is_none_or(|d| d.0 > s.stop);
            let excuse = match s.strategy {
                0 => false,
                1 => true,
                _ => s.insts.values().any(|y| y.cid < x.cid && (own(y) && y.death < x.death)) || s.orders.iter().any(|x| [1, 4, 5, 6].contains(&x.3)),
            };
            if more && !excuse {
                o.v("untouched", format!("instance {} of child c{} was ended though it is out of scope", i, x.cid));
            }
        }
        // An end that leads to no restart.
        let cf = s.confs[&x.cid];
        if s.strategy == 0 && cf.restart == 2 && own(x) && x.causes.iter().all(|c| c.1 <= 1) && s.orders.iter().any(|y| y.1 == x.cid && y.0 > x.death) {
            o.v("transient-restarted", format!("the transient child c{} was started again after a normal exit of instance {}", x.cid, i));
        }
    }
    let triggers = s.insts.values().filter(|x| own(x) && x.death < down).count() + failures;
    if let Some((d, t)) = s.downs.first() {
        if *d < s.stop {
            if t != "shutdown" {
                o.v("gave-up", format!("the supervisor exited with {:?}", t));
            }
            let sig = s.auto != 0 && s.insts.values().any(|x| s.confs[&x.cid].significant && own(x) && x.death < *d);
            // The last significant one has not ended, if there is one that must have been started again, or runs.
            let last = s.auto == 2 && sig && (s.strategy == 0 || failures == 0);
            let stays = |c: &u32| {
                let cf = s.confs[c];
                let mine = || s.insts.values().filter(|x| x.cid == *c && x.order < *d);
                cf.significant
                    && *c < s.initial
                    && !asked(*c, INF)
                    && (cf.restart == 2 || s.strategy == 0)
                    && mine().all(|x| ![2].contains(&x.out) && x.causes.iter().all(|y| cf.restart == 2 && y.1 > 1))
                    && mine().any(|x| x.start != INF)
            };
            if let (true, Some(c)) = (last && triggers as i64 <= s.max, s.confs.keys().find(|c| stays(c))) {
                o.v("shut-itself-down", format!("the supervisor shut itself down although the significant child c{} had not ended for good", c));
            }
            if triggers as i64 <= s.max && !sig {
                o.v("gave-up", format!("the supervisor exited after {} failures of at most {} allowed", triggers, s.max));
            }
        }
    } else if s.finished && s.stop == INF && v.recs.iter().any(|r| r.kind as u32 == ev::SUP_RET && r.a[1] == 1 && r.a[2] == 0) {
        o.v("lost", "the supervisor neither exited nor could be stopped".into());
    }
    // Too many, too fast.
    if v.stats.stall == 0 && s.strategy == 0 && !s.ops.iter().any(|x| x.1 == 4) && s.stop != INF && s.downs.first().is_none_or(|d| d.0 > s.stop) {
        let mut t: Vec<i64> = s.insts.values().filter(|x| s.confs[&x.cid].restart == 0 && own(x) && x.death < s.stop && x.up < x.death).map(|x| time(x.death)).collect();
        t.sort();
        for w in t.windows(s.max as usize + 1) {
            if w[w.len() - 1] - w[0] < s.win - 200_000 {
                o.v("kept-restarting", format!("the supervisor went on after {} restarts in {} us", w.len(), w[w.len() - 1] - w[0]));
                break;
            }
        }
    }
    // The end: what should run runs.
    if s.quiet != INF {
        let list = v.recs[..s.quiet].iter().rev().find(|r| r.kind as u32 == ev::SUP_RET && r.a[1] == 9 && r.a[2] == 0).map(|r| v.str(r)).unwrap_or_default();
        let mut listed: BTreeMap<u32, (i64, bool)> = BTreeMap::new();
        for x in list.split(';').filter(|x| !x.is_empty()) {
            let mut y = x.split(':');
            let cid = y.next().and_then(|c| c.parse().ok()).unwrap_or(999);
            let inst = y.next().and_then(|c| c.parse().ok()).unwrap_or(-1);
            listed.insert(cid, (inst, y.next() == Some("true")));
        }
        for (cid, cf) in &s.confs {
            let live: Vec<u32> = s.insts.iter().filter(|x| x.1.cid == *cid && x.1.alive(s.quiet)).map(|x| *x.0).collect();
            let strange = s.orders.iter().any(|x| x.1 == *cid && x.3 != 0 && x.3 != 3);
            // Terminating the child whose start failed also ends the attempt to restart its siblings.
            let round = s.strategy != 0 && s.orders.iter().any(|x| [1, 4, 5, 6].contains(&x.3)) && s.ops.iter().any(|x| x.1 == 4);
            let strange = strange || round || asked(*cid, INF);
            if cf.restart == 0 && live.is_empty() && !strange {
                o.v("not-restarted", format!("the permanent child c{} is not running at the end", cid));
            }
            match listed.get(cid) {
                None => {
                    if !live.is_empty() || cf.restart == 0 {
                        o.v("list", format!("child c{} is missing in the list {:?}", cid, list));
                    }
                }
                Some((inst, restarting)) => {
                    if *restarting && !strange {
                        o.v("list", format!("child c{} is restarting long after the last failure", cid));
                    }
                    if live.first().map(|x| *x as i64).unwrap_or(0) != *inst {
                        o.v("list", format!("child c{} runs as {:?} but is listed as {}", cid, live, inst));
                    }
                }
            }
        }
    }
    o.probe_if(s.orders.len() > s.initial as usize, "a child was restarted");
    o.probe_if(s.downs.first().is_some_and(|d| d.0 < s.stop), "the supervisor gave up or shut itself down");
    o.probe_if(s.quiet != INF, "the supervisor survived all exits");
    o.nontrivial = triggers >= 2;
    o
}

#[derive(Clone)]
enum T {
    Op(i64, usize, i64, i64),
    Count(i64, i64),
    List(Vec<(usize, i64)>),
}
pub fn tables(v: &View) -> Out {
    let mut o = Out::default();
    let s = build(v);
    always(v, &s, &mut o);
    let mut ops = Vec::new();
    let mut failed = false;
    let mut init = [-1i64; 4];
    let ret: BTreeMap<i64, usize> = v.recs.iter().enumerate().filter(|(_, r)| r.kind as u32 == ev::SUP_RET).map(|(i, r)| (r.a[0], i)).collect();
    let temp: Vec<bool> = (0..4).map(|c| s.confs.get(&c).is_some_and(|c| c.restart == 1)).collect();
    for (b, op, c, n) in &s.ops {
        if *op == 1 {
            // What was up when the start returned.
            let e = v.recs.iter().position(|r| r.kind as u32 == ev::SUP_RET).unwrap_or(INF);
            for (i, x) in &s.insts {
                if x.up < e {
                    init[x.cid as usize] = *i as i64;
                }
            }
            if e != INF && v.recs[e].a[2] != 0 {
                return o;
            }
        }
        if !(4..=9).contains(op) {
            continue;
        }
        let e = ret.get(n).copied().unwrap_or(INF);
        if e == INF {
            if s.finished {
                o.v("no-return", format!("operation {} on child c{} never returned", op, c));
            }
            failed = true;
            continue;
        }
        let r = &v.recs[e];
        if r.a[2] == 8 {
            // A call that timed out.
            failed = true;
        }
        let t = match op {
            8 => T::Count(r.a[3], r.a[4] + r.a[5]),
            9 => {
                let mut l = Vec::new();
                for x in v.str(r).split(';').filter(|x| !x.is_empty()) {
                    let y: Vec<i64> = x.split(':').take(2).map(|y| y.parse().unwrap_or(-1)).collect();
                    l.push((y[0] as usize % 4, y[1]));
                }
                T::List(l)
            }
            _ => T::Op(*op, *c as usize % 4, r.a[2], r.a[3]),
        };
        ops.push(LOp { s: *b, e, maybe: false, op: t });
    }
    let step = |st: &[i64; 4], t: &T| -> Option<[i64; 4]> {
        let mut n = *st;
        match t {
            T::Count(x, all) => {
                let specs = st.iter().filter(|x| **x >= 0).count() as i64;
                let run = st.iter().filter(|x| **x > 0).count() as i64;
                return (*x == specs * 1000 + run && *all == specs).then_some(n);
            }
            T::List(l) => {
                let ok = l.len() == st.iter().filter(|x| **x >= 0).count() && l.iter().all(|(c, i)| st[*c] == *i);
                return ok.then_some(n);
            }
            T::Op(op, c, code, inst) => {
                let x = st[*c];
                let ok = match (op, code) {
                    (4, 0) => {
                        n[*c] = if temp[*c] { -1 } else { 0 };
                        x >= 0
                    }
                    (_, 5) => x < 0 && *op != 7,
                    (5 | 7, 0) => {
                        n[*c] = *inst;
                        x == if *op == 5 { 0 } else { -1 } && *inst > 0
                    }
                    (5 | 7, 1) => {
                        n[*c] = if *op == 7 && temp[*c] { -1 } else { 0 };
                        x == if *op == 5 { 0 } else { -1 }
                    }
                    (5 | 7, 4) => x == if *op == 5 { 0 } else { -1 },
                    (7, 2) => x > 0,
                    (7, 3) => x == 0,
                    (5 | 6, 6) => x > 0,
                    (6, 0) => {
                        n[*c] = -1;
                        x == 0
                    }
                    _ => false,
                };
                return ok.then_some(n);
            }
        }
    };
    // Initial children that ignored their start.
    for c in 0..s.initial.min(4) {
        if init[c as usize] < 0 && !temp[c as usize] {
            init[c as usize] = 0;
        }
    }
    let n = ops.len();
    if !failed && s.finished {
        match lin::check(&ops, init, step, 300_000) {
            Lin::No => o.v("table", "no order of the operations explains their results".into()),
            Lin::Unknown => o.probe("too costly to check"),
            Lin::Yes => {}
        }
        // Nothing ends but what was terminated.
        for (i, x) in &s.insts {
            if x.start != INF && x.death < s.stop && [0, 3].contains(&x.out) && !s.ops.iter().any(|y| y.1 == 4 && y.2 == x.cid && y.0 < x.death) {
                o.v("ended", format!("instance {} of child c{} ended though nobody terminated it", i, x.cid));
            }
        }
    }
    o.probe_if(failed, "a call did not end in time");
    o.probe_if(ops.iter().any(|x| matches!(x.op, T::Op(5, _, 0, _))), "a child was restarted by hand");
    o.nontrivial = n >= 4;
    o
}

pub fn trees(v: &View) -> Out {
    let mut o = Out::default();
    let s = build(v);
    always(v, &s, &mut o);
    let time = |i: usize| v.recs[i.min(v.recs.len() - 1)].time as i64 / 1000;
    let calm = v.stats.stall == 0;
    // Where each child is in the tree.
    let mut path: BTreeMap<u32, String> = BTreeMap::new();
    let mut leaf: BTreeSet<u32> = BTreeSet::new();
    for r in v.recs.iter().filter(|r| r.kind as u32 == ev::NOTE) {
        if let Some(p) = v.str(r).strip_prefix("node ") {
            path.insert(r.actor, p.to_string());
            if r.a[0] == 1 {
                leaf.insert(r.actor);
            }
        }
    }
    // The order of two leaves: where their paths part.
    let before = |a: u32, b: u32| path[&a] < path[&b];
    let ret = v.recs.iter().position(|r| r.kind as u32 == ev::SUP_RET && r.a[1] == 1).unwrap_or(INF);
    let failed = ret != INF && v.recs[ret].a[2] != 0;
    let own = |x: &Inst| !x.causes.is_empty();
    let touched = |x: &Inst| x.term.first().map(|t| t.0).unwrap_or(INF).min(x.death);
    // Nobody interfered before the start returned.
    let undisturbed = |upto: usize| !v.recs.iter().take(upto.min(v.recs.len())).any(|r| r.kind as u32 == ev::EXIT);
    if ret != INF {
        if undisturbed(ret) {
            let mut seen: Option<(u32, usize, u32)> = None;
            for (i, c, inst, out) in s.orders.iter().take_while(|x| x.0 < ret) {
                if let Some((pc, _, pi)) = seen {
                    if !before(pc, *c) {
                        o.v("start-order", format!("child c{} was started after c{}", c, pc));
                    }
                    let p = &s.insts[&pi];
                    if [0, 3].contains(&p.out) && p.up > *i {
                        o.v("start-overlap", format!("child c{} was started (record {}) before c{} was up", c, i, pc));
                    }
                    if [1, 4, 5, 6].contains(&p.out) {
                        o.v("start-after-failure", format!("child c{} was started although c{} had failed to", c, pc));
                    }
                }
                seen = Some((*c, *i, *inst));
                let _ = out;
            }
            let bad = s.orders.iter().any(|x| x.0 < ret && [1, 4, 5, 6].contains(&x.3));
            if bad != failed || failed && v.str(&v.recs[ret]) != "failed_to_start_child" {
                o.v("start-result", format!("starting the tree gave {:?}, children failed: {}", v.str(&v.recs[ret]), bad));
            }
            if !failed {
                for c in &leaf {
                    if !s.orders.iter().any(|x| x.0 < ret && x.1 == *c) {
                        o.v("start-early", format!("the start returned before child c{} was started", c));
                    }
                }
            }
        }
        if failed {
            for (i, x) in &s.insts {
                if x.start != INF && x.death > ret && ![4, 5].contains(&x.out) {
                    o.v("start-leak", format!("the start failed but instance {} of child c{} was still running", i, x.cid));
                }
            }
        }
    }
    // The end of the whole: after a failed start, or by a stop.
    let begin = if failed { s.orders.iter().find(|x| [1, 4, 5, 6].contains(&x.3)).map(|x| x.0).unwrap_or(INF) } else { s.stop };
    if begin != INF && (!failed || undisturbed(ret)) {
        let end = if failed { ret } else { s.downs.first().map(|x| x.0).unwrap_or(INF) };
        let live: Vec<(&u32, &Inst)> = s.insts.iter().filter(|(_, x)| x.start != INF && x.death > begin && x.order < end && [0, 3].contains(&x.out) && x.up < x.death).collect();
        // Nested supervisors may still be restarting children when the stop begins.
        let still = s.orders.iter().all(|x| x.0 < begin || failed) && live.iter().all(|x| !own(x.1));
        if still {
            for (i, x) in &live {
                for (j, y) in &live {
                    if before(x.cid, y.cid) && y.death > touched(x) {
                        o.v("stop-order", format!("instance {} of c{} was asked to stop while instance {} of c{}, started after it, was running", i, x.cid, j, y.cid));
                    }
                }
            }
        }
        for (i, x) in &live {
            let cf = s.confs[&x.cid];
            if own(x) || x.start > begin {
                continue;
            }
            let Some((t, why)) = x.term.first() else {
                if calm && cf.kind != 0 && cf.kind != 3 && cf.shut != 1 && !cf.stubborn && x.up < begin {
                    o.v("not-asked", format!("instance {} of child c{} ended without being asked to shut down", i, x.cid));
                }
                continue;
            };
            if *t < begin {
                continue;
            }
            if cf.shut == 1 {
                o.v("brutal", format!("instance {} of child c{} was asked to stop with {:?} though it is to be killed at once", i, x.cid, why));
                continue;
            }
            if why != "shutdown" {
                o.v("stop-reason", format!("instance {} of child c{} was asked to stop with {:?}", i, x.cid, why));
            }
            let limit = match cf.shut {
                0 if !cf.sup => 5_000_000,
                2 => 40_000,
                3 => 2_000_000,
                _ => i64::MAX,
            };
            let took = time(x.death) - time(*t);
            let need = if cf.kind == 2 || cf.kind == 4 { cf.term_ms * 1000 } else { 0 };
            o.probe_if(need > 1_000_000 && need < limit, "a child took seconds to end");
            o.probe_if(need > limit, "a child was too slow to end");
            if x.terminated == INF || x.terminated > x.death {
                // It was killed.
                if limit == i64::MAX || calm && (took + 15_000 < limit || need + 15_000 < limit) {
                    o.v("killed-early", format!("instance {} of child c{} was killed {} us after it was asked to stop; limit {}", i, x.cid, took, limit));
                }
            }
            if calm && limit != i64::MAX && took > limit + 60_000 {
                o.v("killed-late", format!("instance {} of child c{} was running {} us after it was asked to stop; limit {}", i, x.cid, took, limit));
            }
        }
        if s.finished && !failed && s.downs.is_empty() {
            o.v("stop-hangs", "the tree never stopped".into());
        }
        if s.finished {
            for (i, x) in &s.insts {
                if x.start != INF && x.death == INF {
                    o.v("outlived", format!("instance {} of child c{} is still running", i, x.cid));
                }
            }
        }
        o.nontrivial = live.len() >= 2;
        o.probe_if(live.len() >= 2 && still, "a tree was stopped undisturbed");
        o.probe_if(failed, "a start failed");
    }
    o.probe_if(leaf.iter().any(|c| path[c].matches('.').count() > 1), "a nested tree");
    o
}
