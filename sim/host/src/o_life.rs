//! Oracles over links, monitors and exit signals (C03, C04, C05).
use std::collections::{BTreeMap, BTreeSet};

use simapi::ev;

use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;
struct Sig {
    from: u32,
    to: u32,
    text: String,
    s: usize,
    e: usize,
}
struct LinkOp {
    by: u32,
    on: bool,
    s: usize,
    e: usize,
}
struct Mon {
    by: u32,
    target: u32,
    kind: i64,
    s: usize,
    e: usize,
    ds: usize,
    de: usize,
    downs: Vec<(usize, String)>,
}
struct Msg {
    to: u32,
    from: i64,
    text: String,
    at: usize,
}
#[derive(Default)]
struct Life {
    death: BTreeMap<u32, usize>,
    own: BTreeMap<u32, Vec<(usize, String)>>,
    traps: BTreeMap<u32, Vec<(usize, usize, bool)>>,
    sigs: Vec<Sig>,
    links: BTreeMap<(u32, u32), Vec<LinkOp>>,
    mons: BTreeMap<i64, Mon>,
    msgs: Vec<Msg>,
    alive: Vec<(u32, usize, usize, i64, i64)>,
    table: Vec<(u32, [i64; 4])>,
    finished: bool,
    /// First sign that the process was removed.
    gone: BTreeMap<u32, usize>,
    reasons: BTreeMap<u32, BTreeSet<String>>,
    after_death: Vec<u32>,
    foreign: Vec<(u32, i64)>,
    started: BTreeSet<u32>,
}
fn pair(a: u32, b: u32) -> (u32, u32) {
    (a.min(b), a.max(b))
}
impl Life {
    fn dead(&self, a: u32) -> usize {
        self.death.get(&a).copied().unwrap_or(INF)
    }
    fn survivor(&self, a: u32) -> bool {
        self.finished && !self.death.contains_key(&a)
    }
    /// The flag, if it was certainly the same from `lo` to `hi`.
    fn trapping(&self, a: u32, lo: usize, hi: usize) -> Option<bool> {
        let mut v = Some(false);
        for (s, e, on) in self.traps.get(&a).map(|x| &x[..]).unwrap_or(&[]) {
            if *e < lo {
                v = Some(*on);
            } else if *s < hi && v != Some(*on) {
                return None;
            }
        }
        v
    }
    fn maybe_linked(&self, b: u32, c: u32) -> bool {
        let Some(l) = self.links.get(&pair(b, c)) else { return false };
        let d = self.dead(c);
        l.iter().any(|k| k.on && !l.iter().any(|u| !u.on && u.s > k.e && u.e < d))
    }
    fn surely_linked(&self, b: u32, c: u32) -> bool {
        let Some(l) = self.links.get(&pair(b, c)) else { return false };
        let d = self.dead(c);
        l.iter().any(|k| k.on && k.e < d && !l.iter().any(|u| !u.on && u.e > k.s))
    }
    /// The message came from the link, not from an exit signal the peer sent.
    fn by_link(&self, m: &Msg) -> bool {
        !self.sigs.iter().any(|s| s.from as i64 == m.from && s.to == m.to && s.text == m.text)
    }
    fn late_links(&self, b: u32, c: u32) -> usize {
        let d = self.dead(c);
        self.links.get(&pair(b, c)).map(|l| l.iter().filter(|k| k.on && k.by == b && k.e > d).count()).unwrap_or(0)
    }
    fn build(v: &View) -> Life {
        let mut l = Life::default();
        let mut open: BTreeMap<(u32, u32, u32), usize> = BTreeMap::new(); // (kind, actor, target) -> position
        let mut query: BTreeMap<u32, usize> = BTreeMap::new();
        for (i, r) in v.recs.iter().enumerate() {
            let me = r.actor;
            let t = r.a[0] as u32;
            if l.death.contains_key(&me) && !matches!(r.kind as u32, ev::TABLE | ev::SPAWN | ev::PANIC | ev::FAULT) && me != 0 {
                l.after_death.push(me);
            }
            match r.kind as u32 {
                ev::START => {
                    l.started.insert(me);
                }
                ev::DEATH => {
                    l.death.entry(me).or_insert(i);
                }
                ev::RETURN => l.own.entry(me).or_default().push((i, "normal".into())),
                ev::PANICKING => l.own.entry(me).or_default().push((i, v.str(r))),
                ev::TRAP => {
                    let x = l.traps.entry(me).or_default();
                    if r.a[1] == 0 {
                        x.push((i, INF, r.a[0] != 0));
                    } else if let Some(y) = x.last_mut() {
                        y.1 = i;
                    }
                }
                ev::EXIT => {
                    if t == me {
                        l.own.entry(me).or_default().push((i, v.str(r)));
                    } else {
                        open.insert((ev::EXIT, me, t), l.sigs.len());
                        l.sigs.push(Sig { from: me, to: t, text: v.str(r), s: i, e: INF });
                    }
                }
                ev::EXITED => {
                    if let Some(p) = open.remove(&(ev::EXIT, me, t)) {
                        l.sigs[p].e = i;
                    }
                }
                ev::LINK | ev::UNLINK => {
                    let x = l.links.entry(pair(me, t)).or_default();
                    open.insert((ev::LINK, me, t), x.len());
                    x.push(LinkOp { by: me, on: r.kind as u32 == ev::LINK, s: i, e: INF });
                }
                ev::LINKED | ev::UNLINKED => {
                    if let Some(p) = open.remove(&(ev::LINK, me, t)) {
                        l.links.get_mut(&pair(me, t)).unwrap()[p].e = i;
                    }
                }
                ev::MONITOR => {
                    l.mons.insert(r.a[0], Mon { by: me, target: r.a[1] as u32, kind: r.a[2], s: i, e: INF, ds: INF, de: INF, downs: Vec::new() });
                }
                ev::MONITORED => {
                    if let Some(m) = l.mons.get_mut(&r.a[0]) {
                        m.e = i;
                    }
                }
                ev::DEMONITOR => {
                    if let Some(m) = l.mons.get_mut(&r.a[0]) {
                        m.ds = m.ds.min(i);
                    }
                }
                ev::DEMONITORED => {
                    if let Some(m) = l.mons.get_mut(&r.a[0]) {
                        m.de = m.de.min(i);
                    }
                }
                ev::DOWN => match l.mons.get_mut(&r.a[0]) {
                    Some(m) if m.by == me => {
                        m.downs.push((i, v.str(r)));
                        l.gone.entry(m.target).or_insert(i);
                    }
                    _ => l.foreign.push((me, r.a[0])),
                },
                ev::EXIT_MSG => {
                    l.msgs.push(Msg { to: me, from: r.a[0], text: v.str(r), at: i });
                }
                ev::ALIVE => {
                    if r.a[1] == -1 {
                        query.insert(me, i);
                    } else if let Some(s) = query.remove(&me) {
                        l.alive.push((t, s, i, r.a[1], r.a[2]));
                    }
                }
                ev::TABLE => l.table.push((me, [r.a[0], r.a[1], r.a[2], r.a[3]])),
                ev::FINISH => l.finished = true,
                _ => {}
            }
        }
        let marks: Vec<(u32, usize)> = l.msgs.iter().filter(|m| m.from >= 0 && l.by_link(m)).map(|m| (m.from as u32, m.at)).collect();
        for (c, at) in marks {
            let e = l.gone.entry(c).or_insert(at);
            *e = (*e).min(at);
        }
        l.solve();
        l
    }
    /// Every reason a process can have exited with.
    fn solve(&mut self) {
        let mut p: BTreeMap<u32, BTreeSet<String>> = BTreeMap::new();
        for b in self.death.keys() {
            let gone = self.gone.get(b).copied().unwrap_or(INF);
            let set = p.entry(*b).or_default();
            for (_, t) in self.own.get(b).map(|x| &x[..]).unwrap_or(&[]) {
                set.insert(t.clone());
            }
            for s in self.sigs.iter().filter(|s| s.to == *b && s.s < gone) {
                if s.text == "kill" || s.text != "normal" && s.text != "ignore" && self.trapping(*b, s.s, s.e) != Some(true) {
                    set.insert(s.text.clone());
                }
            }
            for ((x, y), _) in self.links.iter().filter(|(k, _)| k.0 == *b || k.1 == *b) {
                let c = if x == b { *y } else { *x };
                let tr = self.trapping(*b, self.dead(c).min(gone), gone);
                if tr != Some(true) && self.late_links(*b, c) > 0 {
                    set.insert("noproc".into());
                }
            }
        }
        loop {
            let mut changed = false;
            let keys: Vec<u32> = self.death.keys().copied().collect();
            for b in &keys {
                for c in &keys {
                    if b == c || !self.maybe_linked(*b, *c) {
                        continue;
                    }
                    let gone = self.gone.get(b).copied().unwrap_or(INF);
                    if self.dead(*c) > gone || self.trapping(*b, self.dead(*c), gone) == Some(true) {
                        continue;
                    }
                    for r in p[c].clone() {
                        if r != "normal" && p.get_mut(b).unwrap().insert(r) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        self.reasons = p;
    }
    fn may(&self, c: u32, text: &str) -> bool {
        self.reasons.get(&c).is_some_and(|x| x.contains(text))
    }
    fn deaths(&self, o: &mut Out) {
        for (b, set) in &self.reasons {
            if set.is_empty() && self.started.contains(b) {
                o.v("unjustified-death", format!("process {} ended although nothing could end it", b));
            }
        }
    }
}

pub fn c03(v: &View) -> Out {
    let mut o = Out::default();
    let l = Life::build(v);
    l.deaths(&mut o);
    let mut fired = 0;
    for m in l.msgs.iter().filter(|m| l.by_link(m)) {
        if m.from < 0 {
            o.v("unknown-peer", format!("process {} got an exit message from an unknown process", m.to));
            continue;
        }
        let c = m.from as u32;
        fired += 1;
        if l.dead(c) > m.at {
            o.v("exit-while-alive", format!("process {} got an exit message of {} which was still running", m.to, c));
        } else if !l.maybe_linked(m.to, c) {
            o.v("exit-not-linked", format!("process {} got an exit message of {} without being linked to it", m.to, c));
        } else if m.text == "noproc" {
            if l.late_links(m.to, c) == 0 && !l.may(c, "noproc") {
                o.v("wrong-reason", format!("process {} got noproc for {} which it linked before that ended", m.to, c));
            }
        } else if !l.may(c, &m.text) {
            o.v("wrong-reason", format!("process {} got reason '{}' for {}, possible are {:?}", m.to, m.text, c, l.reasons.get(&c)));
        }
        if l.trapping(m.to, 0, m.at) == Some(false) {
            o.v("exit-message-untrapped", format!("process {} got an exit message without trapping exits", m.to));
        }
    }
    for ((x, y), ops) in &l.links {
        for (b, c) in [(*x, *y), (*y, *x)] {
            let got: Vec<&Msg> = l.msgs.iter().filter(|m| m.to == b && m.from == c as i64 && l.by_link(m)).collect();
            let real = got.iter().filter(|m| m.text != "noproc").count();
            let late = l.late_links(b, c);
            if real > 1 || got.len() > late + 1 {
                o.v("duplicate-exit", format!("process {} got {} exit messages of {}, {} of them noproc", b, got.len(), c, got.len() - real));
            }
            let d = l.dead(c);
            if d == INF || !l.finished {
                continue;
            }
            let sure = l.surely_linked(b, c);
            // A link made to a process that ended meanwhile.
            let try_late = ops.iter().filter(|k| k.on && k.by == b && k.e > d && k.e != INF && !ops.iter().any(|u| !u.on && u.e > k.s)).map(|k| k.s).min();
            if !sure && try_late.is_none() {
                continue;
            }
            let from = d.min(try_late.unwrap_or(INF));
            match l.trapping(b, from, INF) {
                // One sent by hand with the same reason looks the same.
                Some(true) if l.survivor(b) && !l.msgs.iter().any(|m| m.to == b && m.from == c as i64 && (l.by_link(m) || l.may(c, &m.text))) => {
                    o.v("lost-exit-signal", format!("process {} traps exits and was linked to {} but never got its exit", b, c))
                }
                Some(false) if l.survivor(b) => {
                    let deadly = !l.may(c, "normal") && !l.reasons[&c].is_empty();
                    if deadly && (sure || try_late.is_some()) {
                        o.v("linked-survived", format!("process {} outlived {} which it was linked to (reasons {:?})", b, c, l.reasons[&c]));
                    } else if let (Some(s), Some(g)) = (ops.iter().filter(|k| k.on && k.by == b && k.e != INF && !ops.iter().any(|u| !u.on && u.e > k.s)).map(|k| k.s).max(), l.gone.get(&c)) {
                        if s > *g {
                            o.v("noproc-survived", format!("process {} linked the dead process {} and lives on", b, c));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    o.probe_if(fired > 0, "an exit message of a link arrived");
    o.probe_if(l.links.keys().any(|(a, b)| l.late_links(*a, *b) + l.late_links(*b, *a) > 0), "a link raced or followed the end");
    o.probe_if(l.links.iter().any(|(k, x)| x.iter().any(|u| !u.on && (u.e < l.dead(k.0) && l.dead(k.0) != INF || u.e < l.dead(k.1) && l.dead(k.1) != INF))), "an unlinked peer ended later");
    o.probe_if(l.death.keys().any(|b| l.own.get(b).is_none() && !l.sigs.iter().any(|s| s.to == *b)), "a process was ended by a link");
    o.nontrivial = l.links.keys().any(|(a, b)| l.death.contains_key(a) || l.death.contains_key(b));
    o
}

pub fn c04(v: &View) -> Out {
    let mut o = Out::default();
    let l = Life::build(v);
    l.deaths(&mut o);
    for (w, n) in &l.foreign {
        o.v("foreign-down", format!("process {} got a down message of monitor {} that is not its own", w, n));
    }
    let (mut late, mut removed, mut fired) = (0, 0, 0);
    for (n, m) in &l.mons {
        let d = l.dead(m.target);
        fired += m.downs.len();
        removed += (m.de != INF) as u32;
        late += (d < m.e && d != INF) as u32;
        if m.downs.len() > 1 {
            o.v("duplicate-down", format!("monitor {} of process {} reported {} times", n, m.target, m.downs.len()));
        }
        for (at, text) in &m.downs {
            if *at > m.de {
                o.v("down-after-demonitor", format!("monitor {} of process {} reported to {} after demonitor returned", n, m.target, m.by));
            }
            if d > *at {
                o.v("down-while-alive", format!("monitor {} reported the running process {}", n, m.target));
            } else if text == "noproc" && !l.may(m.target, "noproc") {
                if d > m.e || m.kind == 2 {
                    o.v("wrong-reason", format!("monitor {} of process {} was set before its end but reported noproc", n, m.target));
                }
            } else if !l.may(m.target, text) {
                o.v("wrong-reason", format!("monitor {} reported '{}' for process {}, possible are {:?}", n, text, m.target, l.reasons.get(&m.target)));
            }
        }
        if m.downs.is_empty() && d != INF && m.e != INF && m.ds == INF && l.survivor(m.by) {
            o.v("lost-down", format!("monitor {} of {} on process {} never reported its end", n, m.by, m.target));
        }
    }
    o.probe_if(late > 0, "a monitor raced or followed the end");
    o.probe_if(removed > 0, "a monitor was removed");
    o.probe_if(l.mons.values().any(|m| m.de != INF && l.dead(m.target) != INF && m.downs.is_empty()), "a removed monitor stayed silent");
    o.nontrivial = fired >= 2;
    o
}

pub fn c05(v: &View) -> Out {
    let mut o = Out::default();
    let l = Life::build(v);
    l.deaths(&mut o);
    for a in &l.after_death {
        o.v("ran-after-end", format!("process {} ran code after its end", a));
    }
    // One exit, one reason.
    let mut said: BTreeMap<u32, BTreeSet<&str>> = BTreeMap::new();
    for m in l.msgs.iter().filter(|m| m.from >= 0 && m.text != "noproc" && l.by_link(m)) {
        said.entry(m.from as u32).or_default().insert(&m.text);
        if l.dead(m.from as u32) < m.at && !l.may(m.from as u32, &m.text) {
            o.v("wrong-reason", format!("process {} ended with '{}', possible are {:?}", m.from, m.text, l.reasons.get(&(m.from as u32))));
        }
    }
    for m in l.mons.values() {
        for (_, t) in &m.downs {
            if t != "noproc" {
                said.entry(m.target).or_default().insert(t);
                if !l.may(m.target, t) {
                    o.v("wrong-reason", format!("process {} ended with '{}', possible are {:?}", m.target, t, l.reasons.get(&m.target)));
                }
            }
        }
    }
    for (b, s) in &said {
        if s.len() > 1 {
            o.v("two-reasons", format!("the end of process {} was reported with different reasons {:?}", b, s));
        }
    }
    let mut trapped = 0;
    for s in &l.sigs {
        let custom = s.text != "kill" && s.text != "normal" && s.text != "ignore";
        let tr = l.trapping(s.to, s.s, s.e);
        let n = l.msgs.iter().filter(|m| m.to == s.to && m.from == s.from as i64 && m.text == s.text).count();
        if s.text == "kill" && s.e != INF {
            if l.survivor(s.to) {
                o.v("survived-kill", format!("process {} survived a kill by {}", s.to, s.from));
            }
            if n > 0 && !l.links.contains_key(&pair(s.to, s.from)) {
                o.v("kill-as-message", format!("process {} got a kill as a message", s.to));
            }
        }
        if !custom {
            continue;
        }
        if s.e != INF && tr == Some(false) && l.survivor(s.to) {
            o.v("survived-exit", format!("process {} does not trap exits and survived '{}'", s.to, s.text));
        }
        if n > 1 {
            o.v("duplicate-exit", format!("process {} got the exit signal '{}' {} times", s.to, s.text, n));
        }
        if n > 0 {
            trapped += 1;
            if tr == Some(false) {
                o.v("exit-message-untrapped", format!("process {} got '{}' as a message without trapping exits", s.to, s.text));
            }
        }
        if n == 0 && s.e != INF && tr == Some(true) && l.survivor(s.to) {
            o.v("lost-exit", format!("process {} traps exits but never got '{}'", s.to, s.text));
        }
    }
    for text in ["normal", "ignore"] {
        let mut sent: BTreeMap<(u32, u32), (usize, usize)> = BTreeMap::new();
        for s in l.sigs.iter().filter(|s| s.text == text) {
            let e = sent.entry((s.from, s.to)).or_default();
            e.0 += 1;
            if s.e != INF && l.trapping(s.to, s.s, s.e) == Some(true) {
                e.1 += 1;
            }
        }
        for ((f, t), (all, sure)) in sent {
            let n = l.msgs.iter().filter(|m| m.to == t && m.from == f as i64 && m.text == text).count();
            if n > all + 1 || n > all && !l.links.contains_key(&pair(f, t)) {
                o.v("duplicate-exit", format!("process {} got {} {} exits of {} which sent {}", t, n, text, f, all));
            }
            if n < sure && l.survivor(t) {
                o.v("lost-exit", format!("process {} got {} of {} {} exits of {}", t, n, sure, text, f));
            }
        }
    }
    for m in &l.msgs {
        if m.from >= 0 && l.by_link(m) && !l.links.contains_key(&pair(m.to, m.from as u32)) {
            o.v("invented-exit", format!("process {} got exit '{}' of {} which it never sent", m.to, m.text, m.from));
        }
    }
    for (t, s, e, alive, listed) in &l.alive {
        let gone = l.gone.get(t).copied().unwrap_or(INF);
        let d = l.dead(*t);
        if gone < *s && (*alive == 1 || *listed == 1) {
            o.v("alive-after-end", format!("process {} is shown as alive={} listed={} after its end was reported", t, alive, listed));
        }
        let marked = l.own.get(t).is_some_and(|x| x.iter().any(|y| y.0 < *e))
            || l.sigs.iter().any(|x| x.to == *t && x.s < *e)
            || l.links.keys().any(|k| (k.0 == *t || k.1 == *t) && (l.dead(k.0) < *e || l.dead(k.1) < *e));
        if d > *e && !marked && *alive == 0 {
            o.v("dead-while-running", format!("the running process {} is shown as not alive", t));
        }
        if d > *e && *listed == 0 {
            o.v("unlisted", format!("the running process {} is missing from the process list", t));
        }
    }
    for (a, t) in &l.table {
        let dead = l.death.contains_key(a);
        if dead && (t[0] | t[1] | t[2] | t[3]) != 0 {
            o.v("remains", format!("process {} has ended but list={} alive={} name={} info={}", a, t[0], t[1], t[2], t[3]));
        }
        if !dead && (t[0] & t[1] & t[3]) != 1 {
            o.v("missing", format!("process {} runs but list={} alive={} info={}", a, t[0], t[1], t[3]));
        }
    }
    o.probe_if(trapped > 0, "an exit signal was trapped");
    o.probe_if(l.sigs.iter().any(|s| s.text == "kill"), "a kill was sent");
    o.probe_if(v.recs.iter().any(|r| r.kind as u32 == ev::PANICKING), "a process panicked");
    o.nontrivial = l.sigs.len() >= 2 && !l.death.is_empty();
    o
}
