//! C16: the signals between processes of several nodes.
use std::collections::{BTreeMap, BTreeSet};

use simapi::{ev, fault};

use crate::o_dist::{inc, node, Base, INF};
use crate::pool::View;
use crate::props::Out;

type Id = (u32, u32);

#[derive(Default, Clone)]
struct Life {
    start: usize,
    death: Option<usize>,
    ret: bool,
    exit: Vec<String>,
    traps: bool,
    registered: Option<usize>,
    reasons: BTreeSet<String>,
}
struct Mon {
    id: i64,
    by: Id,
    t: u32,
    ti: u32,
    named: i64,
    at: usize,
    done: Option<usize>,
    undo: Option<usize>,
    down: Option<(usize, String)>,
}
/// Everything that can break the connection between two nodes, by the record from which on it can.
struct Causes {
    v: Vec<(usize, u32, u32)>,
    dials: BTreeMap<(u32, u32), usize>,
    strict: bool,
}
const ANY: u32 = u32::MAX;
impl Causes {
    fn new(v: &View, strict: bool) -> Causes {
        let mut c = Causes { v: Vec::new(), dials: BTreeMap::new(), strict };
        for (i, r) in v.recs.iter().enumerate() {
            let n = node(r);
            match r.kind as u32 {
                // What lasts acts on later connections, too.
                ev::FAULT if r.a[5] == 0 || !matches!(r.a[0] as u32, fault::RESET | fault::HALFCLOSE | fault::CRASH) => match r.a[0] as u32 {
                    fault::CRASH | fault::PAUSE => c.v.push((i, r.a[1] as u32, ANY)),
                    _ => c.v.push((i, r.a[1] as u32, r.a[2] as u32)),
                },
                ev::NODE_DOWN => c.v.push((i, r.a[0] as u32, ANY)),
                ev::DISCONNECT | ev::FORGET if r.a[1] == 0 => c.v.push((i, n, r.a[0] as u32)),
                // In the end it is the keeper who says that a connection is gone.
                ev::NODE_DOWNMSG if strict => c.v.push((0, n, r.a[0] as u32)),
                ev::CONNECT | ev::NMON if !strict => {
                    c.dials.entry((n, r.a[0] as u32)).or_insert(i);
                }
                ev::MONITOR if !strict => {
                    c.dials.entry((n, r.a[1] as u32 / 100)).or_insert(i);
                }
                ev::LINK if !strict => {
                    c.dials.entry((n, r.a[0] as u32 / 100)).or_insert(i);
                }
                _ => {}
            }
        }
        c
    }
    fn before(&self, a: u32, b: u32, i: usize) -> bool {
        if a == b {
            return false;
        }
        let hit = |x: &(usize, u32, u32)| x.0 <= i && (x.2 == ANY && (x.1 == a || x.1 == b) || (x.1, x.2) == (a, b) || (x.1, x.2) == (b, a));
        self.v.iter().any(hit) || [(a, b), (b, a)].iter().all(|d| self.dials.get(d).is_some_and(|x| *x < i))
    }
    fn ever(&self, a: u32, b: u32) -> bool {
        self.before(a, b, INF)
    }
}
/// Without faults; in the end one of the nodes cuts all of its connections.
pub fn c16s(v: &View) -> Out {
    let Some(cut) = v.recs.iter().position(|r| r.kind as u32 == ev::DISCONNECT && r.actor % 100 == 99) else {
        return c16(v, true);
    };
    let mut w = v.clone();
    w.recs.truncate(cut);
    w.recs.extend(v.recs.iter().rev().find(|r| r.kind as u32 == ev::FINISH).cloned());
    let mut o = c16(&w, true);
    after_cut(v, cut, &mut o);
    o
}
/// Whether a link is sure to exist: made, or removed, by one of the two only.
fn state(mine: Option<&Vec<(usize, bool, bool)>>, theirs: Option<&Vec<(usize, bool, bool)>>, at: usize) -> Option<bool> {
    match (mine, theirs) {
        (Some(x), None) | (None, Some(x)) => x.iter().filter(|x| x.0 < at).last().filter(|x| x.2).map(|x| x.1),
        (Some(x), Some(z)) if x.iter().chain(z).all(|x| x.1) => x.iter().chain(z).any(|x| x.2 && x.0 < at).then_some(true),
        _ => None,
    }
}
/// What is left of the links and monitors across the cut fires, and nothing else.
fn after_cut(v: &View, cut: usize, o: &mut Out) {
    let by = node(&v.recs[cut]);
    let mut alive: BTreeSet<Id> = BTreeSet::new();
    let mut ended: BTreeSet<Id> = BTreeSet::new();
    let mut traps: BTreeSet<Id> = BTreeSet::new();
    let mut links: BTreeMap<(Id, Id), Vec<(usize, bool, bool)>> = BTreeMap::new();
    let mut mons: BTreeMap<(u32, i64), (Id, u32, bool)> = BTreeMap::new();
    let mut downs: BTreeMap<(u32, i64), Vec<String>> = BTreeMap::new();
    let mut exited: BTreeMap<(Id, (i64, i64)), Vec<String>> = BTreeMap::new();
    for (i, r) in v.recs.iter().enumerate() {
        let me = (r.actor, inc(r));
        if !actor(r.actor) {
            continue;
        }
        let late = i > cut;
        match r.kind as u32 {
            ev::START => {
                alive.insert(me);
            }
            ev::DEATH if !late => {
                alive.remove(&me);
            }
            ev::DEATH => {
                ended.insert(me);
            }
            ev::TRAP if r.a[0] == 1 => {
                traps.insert(me);
            }
            k @ (ev::LINK | ev::LINKED | ev::UNLINK | ev::UNLINKED) => {
                links.entry((me, (r.a[0] as u32, r.a[1] as u32))).or_default().push((i, k == ev::LINK || k == ev::LINKED, k == ev::LINKED || k == ev::UNLINKED));
            }
            ev::MONITOR => {
                mons.insert((node(r), r.a[0]), (me, r.a[1] as u32, false));
            }
            ev::MONITORED => {
                if let Some(m) = mons.get_mut(&(node(r), r.a[0])) {
                    m.2 = true;
                }
            }
            ev::DEMONITOR => {
                mons.remove(&(node(r), r.a[0]));
            }
            ev::DOWN if !late => {
                mons.remove(&(node(r), r.a[0]));
            }
            ev::DOWN => downs.entry((node(r), r.a[0])).or_default().push(v.str(r)),
            // Entries only.
            ev::LEAK if late && r.a[0] >= 0 && (r.a[0] as u32 / 100 == by) != (r.actor / 100 == by) => {
                let k = if r.a[2] == 0 { "cut-monitor-left" } else { "cut-link-left" };
                o.v(k, format!("process {} still has an entry of process {} beyond the connection that was cut", r.actor, r.a[0]));
            }
            ev::EXITED if late => exited.entry((me, (r.a[0], r.a[1]))).or_default().push(v.str(r)),
            _ => {}
        }
    }
    let crosses = |a: u32, b: u32| a != b && (a == by || b == by);
    let mut hits = 0;
    for (id, (me, t, done)) in &mons {
        if !alive.contains(me) || ended.contains(me) || !*done || !crosses(me.0 / 100, t / 100) {
            continue;
        }
        hits += 1;
        let d = downs.get(id).cloned().unwrap_or_default();
        if d != ["noconnection"] {
            o.v("cut-monitor", format!("process {} monitors process {} beyond the connection that was cut and was told {:?}", me.0, t, d));
        }
    }
    let ids: Vec<Id> = alive.iter().copied().collect();
    for x in &ids {
        for y in &ids {
            if x == y || !crosses(x.0 / 100, y.0 / 100) {
                continue;
            }
            let told = exited.get(&(*x, (y.0 as i64, y.1 as i64))).cloned().unwrap_or_default();
            match state(links.get(&(*x, *y)), links.get(&(*y, *x)), cut) {
                Some(true) => {
                    hits += 1;
                    if traps.contains(x) && !ended.contains(x) && told != ["noconnection"] {
                        o.v("cut-link", format!("process {} is linked to process {} beyond the connection that was cut and received {:?}", x.0, y.0, told));
                    }
                    if !traps.contains(x) && !ended.contains(x) {
                        o.v("cut-link-survived", format!("process {} lives on although it is linked to process {} beyond the connection that was cut", x.0, y.0));
                    }
                }
                s if !told.is_empty() => {
                    let never = !links.contains_key(&(*x, *y)) && !links.contains_key(&(*y, *x));
                    if s == Some(false) || never {
                        o.v("cut-unlinked", format!("process {} is not linked to process {} beyond the connection that was cut, but received {:?}", x.0, y.0, told));
                    }
                }
                _ => {}
            }
        }
    }
    o.probe_if(hits > 0, "links and monitors across a cut");
}
pub fn c16f(v: &View) -> Out {
    c16(v, false)
}
fn actor(aid: u32) -> bool {
    aid % 100 < 90
}
fn c16(v: &View, strict: bool) -> Out {
    let mut o = Out::default();
    let b = Base::new(v);
    let causes = Causes::new(v, strict);
    let mut lives: BTreeMap<Id, Life> = BTreeMap::new();
    let mut mons: BTreeMap<(u32, u32, i64), Mon> = BTreeMap::new();
    // (by, other) -> (index, is a link, is over)
    let mut links: BTreeMap<(Id, Id), Vec<(usize, bool, bool)>> = BTreeMap::new();
    let mut exits: Vec<(usize, Id, Id, i64, String)> = Vec::new();
    let mut exited: Vec<(usize, Id, (i64, i64), i64, String)> = Vec::new();
    let mut keepers = Vec::new();
    let mut script_ended = BTreeSet::new();
    let mut leaks: BTreeMap<Id, (usize, Vec<(i64, i64, i64)>)> = BTreeMap::new();
    let mut noticed: BTreeMap<(u32, u32, u32), Vec<usize>> = BTreeMap::new();
    let mut stale_nodes: BTreeSet<u32> = BTreeSet::new();
    let end = v.recs.len();
    let last_t = v.recs.last().map(|r| r.time).unwrap_or(0);
    for (i, r) in v.recs.iter().enumerate() {
        let me = (r.actor, inc(r));
        let mut target = None;
        match r.kind as u32 {
            ev::START if actor(r.actor) => {
                lives.insert(me, Life { start: i, ..Life::default() });
            }
            ev::DEATH if actor(r.actor) => {
                let l = lives.entry(me).or_default();
                l.death = Some(i);
            }
            ev::DEATH => keepers.push(node(r)),
            ev::RETURN => lives.entry(me).or_default().ret = true,
            ev::EXIT => {
                lives.entry(me).or_default().exit.push(v.str(r));
            }
            ev::TRAP => lives.entry(me).or_default().traps = r.a[0] == 1,
            ev::REGISTERED => lives.entry(me).or_default().registered = Some(i),
            ev::SCRIPT_END => {
                script_ended.insert(me);
            }
            ev::MONITOR => {
                let m = Mon { id: r.a[0], by: me, t: r.a[1] as u32, ti: r.a[2] as u32, named: r.a[3], at: i, done: None, undo: None, down: None };
                if m.named == 0 {
                    target = Some((m.t, m.ti, r.a[5]));
                }
                mons.insert((node(r), me.1, r.a[0]), m);
            }
            ev::MONITORED | ev::DEMONITOR | ev::DOWN => {
                if let Some(m) = mons.get_mut(&(node(r), me.1, r.a[0])) {
                    match r.kind as u32 {
                        ev::MONITORED => m.done = Some(i),
                        ev::DEMONITOR => m.undo = Some(i),
                        _ => {
                            if m.down.is_some() {
                                o.v("down-twice", format!("process {} received two down messages of one monitor", r.actor));
                            }
                            m.down = Some((i, v.str(r)))
                        }
                    }
                }
            }
            k @ (ev::LINK | ev::LINKED | ev::UNLINK | ev::UNLINKED) => {
                let t = (r.a[0] as u32, r.a[1] as u32);
                if k == ev::LINK || k == ev::UNLINK {
                    target = Some((t.0, t.1, r.a[2]));
                }
                links.entry((me, t)).or_default().push((i, k == ev::LINK || k == ev::LINKED, k == ev::LINKED || k == ev::UNLINKED));
            }
            ev::EXIT_MSG => {
                let t = (r.a[0] as u32, r.a[1] as u32);
                target = Some((t.0, t.1, r.a[3]));
                exits.push((i, me, t, r.a[2], v.str(r)));
            }
            ev::EXITED => exited.push((i, me, (r.a[0], r.a[1]), r.a[2], v.str(r))),
            ev::LEAK => {
                if r.a[0] == -1 && r.a[1] == 0 && r.a[2] == 0 {
                    leaks.entry(me).or_insert((i, Vec::new()));
                } else if let Some(l) = leaks.get_mut(&me) {
                    l.1.push((r.a[0], r.a[1], r.a[2]));
                }
            }
            ev::NODE_DOWNMSG => {
                if strict && r.time > 900_000_000 {
                    o.v("lost-for-nothing", format!("node {} lost the connection to node {} although nothing had happened", node(r), r.a[0]));
                }
                noticed.entry((node(r), inc(r), r.a[0] as u32)).or_default().push(i);
            }
            _ => {}
        }
        if let Some((t, ti, up)) = target {
            // It may reach the process of that number in a later run of its node.
            let later = up == 0 || b.down.get(&(t / 100, ti)).is_some_and(|d| *d < i);
            if later && ti != b.last.get(&(t / 100)).copied().unwrap_or(ti) {
                stale_nodes.insert(t / 100);
            }
        }
    }
    // Pids do not tell one run of a node from the next.
    let stale_any = !stale_nodes.is_empty();
    let ended = |l: Id, x: &BTreeMap<Id, Life>| -> Option<usize> {
        let d = x.get(&l).and_then(|x| x.death);
        let n = b.down.get(&(l.0 / 100, l.1)).copied();
        match (d, n) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        }
    };
    let pairs: BTreeSet<(Id, Id)> = links.iter().filter(|(_, v)| v.iter().any(|x| x.1)).flat_map(|(k, _)| [*k, (k.1, k.0)]).collect();
    // Which reasons a process can have ended for.
    let mut rs: BTreeMap<Id, BTreeSet<String>> = BTreeMap::new();
    for (id, l) in &lives {
        let s = rs.entry(*id).or_default();
        if l.ret {
            s.insert("normal".into());
        }
        s.extend(l.exit.iter().cloned());
        for (_, _, t, code, text) in &exits {
            if t == id && (*code == 1 || *code == 3) {
                s.insert(text.clone());
            }
            if t == id && *code == 0 && t == id {
                // Only from itself.
            }
        }
    }
    loop {
        let mut more = false;
        for (x, y) in &pairs {
            let mut add = BTreeSet::new();
            if causes.ever(x.0 / 100, y.0 / 100) {
                add.insert("noconnection".to_string());
            }
            if ended(*y, &lives).is_some() {
                add.insert("noproc".into());
                if let Some(r) = rs.get(y) {
                    add.extend(r.iter().filter(|t| *t != "normal").cloned());
                }
            }
            if let Some(s) = rs.get_mut(x) {
                let n = s.len();
                s.extend(add);
                more |= s.len() > n;
            }
        }
        if !more {
            break;
        }
    }
    for (id, s) in rs {
        if let Some(l) = lives.get_mut(&id) {
            l.reasons = s;
        }
    }
    let lives = &lives;
    let key = |k: &'static str| if stale_any { "stale-pid" } else { k };
    // The node was forgotten while a process was at linking itself to, or monitoring, one of that node's.
    let mut meanwhile: BTreeSet<(u32, u32)> = BTreeSet::new();
    let mut at_it: BTreeMap<_, (u32, u32)> = BTreeMap::new();
    let mut forgetting: BTreeMap<_, (u32, u32)> = BTreeMap::new();
    for r in &v.recs {
        let (who, n) = ((r.node, r.actor as u32), node(r));
        match r.kind as u32 {
            ev::LINK | ev::MONITOR => {
                let t = if r.kind as u32 == ev::LINK { r.a[0] } else { r.a[1] } as u32 / 100;
                if forgetting.values().any(|f| *f == (n, t)) {
                    meanwhile.insert((n, t));
                }
                at_it.insert(who, (n, t));
            }
            ev::LINKED | ev::MONITORED => {
                at_it.remove(&who);
            }
            ev::FORGET if r.a[1] == 0 => {
                let t = r.a[0] as u32;
                if at_it.values().any(|f| *f == (n, t)) {
                    meanwhile.insert((n, t));
                }
                forgetting.insert(who, (n, t));
            }
            ev::FORGET => {
                forgetting.remove(&who);
            }
            _ => {}
        }
    }
    let key2 = |k: &'static str, by: u32, of: u32| if meanwhile.contains(&(by / 100, of / 100)) { "forgotten-meanwhile" } else { key(k) };
    for n in keepers {
        o.v(key("process-died"), format!("the process of node {} that watches a node died for no reason", n));
    }
    // ---- monitors
    let mut crossed = 0;
    for m in mons.values() {
        let (wn, tn) = (m.by.0 / 100, m.t / 100);
        if let Some((i, text)) = &m.down {
            crossed += (wn != tn) as u32;
            if m.undo.is_some_and(|u| u < *i) {
                o.v("down-after-demonitor", format!("process {} received a down message of a monitor it had removed", m.by.0));
            }
            let target: Vec<Id> = match m.named {
                0 => vec![(m.t, m.ti)],
                1 => lives.keys().filter(|l| l.0 == m.t).copied().collect(),
                _ => vec![],
            };
            let died = |l: &Id| ended(*l, lives).is_some_and(|d| d < *i);
            let legit = match text.as_str() {
                "noproc" => {
                    m.named == 2
                        || m.named == 0 && target.iter().any(died)
                        || m.named == 1 && {
                            // Some time in between nobody had the name.
                            !target.iter().any(|l| {
                                let x = &lives[l];
                                x.registered.is_some_and(|g| g < m.at) && ended(*l, lives).is_none_or(|d| d > *i)
                            })
                        }
                }
                "noconnection" => causes.before(wn, tn, *i) || target.iter().any(|l| died(l) && lives.get(l).is_some_and(|x| x.reasons.contains("noconnection"))),
                t => target.iter().any(|l| lives.get(l).is_some_and(|x| x.death.is_some_and(|d| d < *i) && x.reasons.contains(t))),
            };
            if !legit {
                let what = if target.iter().any(died) { "false-reason" } else { "false-down" };
                o.v(key(what), format!("process {} was told that process {} ended with \"{}\" (monitor by {}) which is not true", m.by.0, m.t, text, if m.named == 0 { "pid" } else { "name" }));
            }
        } else if b.finished && m.undo.is_none() && ended(m.by, lives).is_none() && b.lives(wn, m.by.1) {
            let Some(done) = m.done else { continue };
            let dead = match m.named {
                0 => ended((m.t, m.ti), lives),
                1 => {
                    let l = (m.t, b.last.get(&tn).copied().unwrap_or(1));
                    match lives.get(&l).and_then(|x| x.registered) {
                        Some(_) => ended(l, lives),
                        None => Some(0),
                    }
                }
                _ => Some(0),
            };
            if let Some(d) = dead {
                let t = v.recs[d.max(done)].time;
                if last_t.saturating_sub(t) > 2_000_000_000 {
                    o.v(key2("missing-down", m.by.0, m.t), format!("process {} still monitors process {} (monitor by {}) which has ended, but was not told", m.by.0, m.t, if m.named == 0 { "pid" } else { "name" }));
                }
            }
            // Its node has noticed a loss after that.
            let paused = |n: u32| v.recs.iter().any(|r| r.kind as u32 == ev::FAULT && r.a[0] as u32 == fault::PAUSE && r.a[1] as u32 == n);
            if wn != tn && v.stats.stall == 0 && !paused(wn) {
                if let Some(l) = noticed.get(&(wn, m.by.1, tn)).and_then(|l| l.iter().find(|x| **x > done && v.recs[**x].time > v.recs[done].time + 100_000_000)) {
                    o.v("missing-noconnection", format!("process {} of node {} monitors process {} of node {} since before the connection was lost (record {}), but was not told", m.by.0, wn, m.t, tn, l));
                }
            }
        }
    }
    // ---- links and exit signals
    for (i, me, from, code, text) in &exited {
        crossed += (from.0 >= 0 && from.0 as u32 / 100 != me.0 / 100) as u32;
        if from.0 < 0 {
            continue;
        }
        let f = (from.0 as u32, from.1 as u32);
        // The pid of a process is the same in each run of its node.
        let mut fine = false;
        // One of those that it can come from that explains it is enough.
        let mut clean = *me == f && *code == 0;
        let mut bad: Vec<String> = vec![];
        let all: Vec<Id> = if b.last.get(&(f.0 / 100)) == Some(&1) { vec![f] } else { pairs.iter().map(|p| p.1).chain(exits.iter().map(|e| e.1)).filter(|x| x.0 / 100 == f.0 / 100).collect() };
        for f in all {
        let sent = exits.iter().any(|e| e.0 < *i && e.1 == f && e.2 == *me && e.4 == *text);
        let linked = pairs.contains(&(*me, f));
        let gone = ended(f, lives).is_some_and(|d| d < *i);
        let by_link = linked
            && match text.as_str() {
                "noconnection" => causes.before(me.0 / 100, f.0 / 100, *i) || gone && lives.get(&f).is_some_and(|l| l.reasons.contains(text)),
                "noproc" => gone,
                _ => gone && lives.get(&f).is_some_and(|l| l.reasons.contains(text)),
            };
        fine |= sent || by_link || *me == f && *code == 0;
        clean |= sent;
        // After unlink has returned, only what had been sent before is left.
        if !sent && by_link {
            let told = bad.len();
            let mine = links.get(&(*me, f));
            let theirs = links.get(&(f, *me)).is_some_and(|x| x.iter().any(|x| x.1));
            if let (Some(x), false) = (mine, theirs) {
                let before: Vec<_> = x.iter().filter(|x| x.0 < *i).collect();
                if let Some(u) = before.last() {
                    let died = ended(f, lives).unwrap_or(INF);
                    if !u.1 && u.2 && died > u.0 && (text != "noconnection" || !causes.before(me.0 / 100, f.0 / 100, u.0)) {
                        bad.push(format!("process {} received an exit signal of process {} after it had removed the link", me.0, f.0));
                    }
                }
            }
            // The word of the other one that it unlinked has come long before.
            if let (None, Some(z), "noconnection") = (mine, links.get(&(f, *me)), text.as_str()) {
                let before: Vec<_> = z.iter().filter(|x| x.0 < *i).collect();
                if let Some(u) = before.last().filter(|u| !u.1 && u.2) {
                    let settled = v.recs.iter().position(|r| r.time > v.recs[u.0].time + 2_000_000_000).unwrap_or(INF);
                    if settled < *i && !causes.before(me.0 / 100, f.0 / 100, settled) && ended(f, lives).unwrap_or(INF) > settled {
                        bad.push(format!("process {} received an exit signal of process {} which had removed the link", me.0, f.0));
                    }
                }
            }
            clean |= bad.len() == told;
        }
        }
        if !clean {
            if let Some(b) = bad.first() {
                o.v(key("exit-after-unlink"), b.clone());
            }
        }
        if !fine {
            o.v(key("false-exit"), format!("process {} received an exit signal \"{}\" of process {} that has no cause", me.0, text, f.0));
        }
    }
    // Exactly once.
    let mut seen: BTreeMap<(Id, (i64, i64), &str), usize> = BTreeMap::new();
    for (_, me, from, _, text) in &exited {
        *seen.entry((*me, *from, text.as_str())).or_default() += 1;
    }
    for ((me, from, text), n) in &seen {
        if from.0 < 0 || b.last.get(&(from.0 as u32 / 100)) != Some(&1) {
            continue;
        }
        let f = (from.0 as u32, from.1 as u32);
        let sent = exits.iter().filter(|e| e.1 == f && e.2 == *me && e.4 == *text).count();
        // Each link made anew can bring one more.
        let made = |a: Id, b: Id| links.get(&(a, b)).map(|x| x.iter().filter(|x| x.1 && !x.2).count()).unwrap_or(0);
        let max = if made(*me, f) + made(f, *me) == 0 {
            0
        } else if matches!(*text, "noproc" | "noconnection") {
            made(*me, f) + made(f, *me)
        } else {
            1
        };
        if *n > sent + max {
            o.v(key("exit-twice"), format!("process {} received {} exit signals \"{}\" of process {}, at most {} have a cause", me.0, n, text, f.0, sent + max));
        }
    }
    for (id, l) in lives {
        // Deaths need a cause.
        let Some(d) = l.death else { continue };
        if l.ret || !l.exit.is_empty() {
            continue;
        }
        let sent = exits.iter().any(|e| e.0 < d && e.2 == *id && (e.3 == 1 || e.3 == 3 && !l.traps));
        let linked = pairs.iter().any(|(x, y)| {
            x == id && {
                let gone = ended(*y, lives).is_some_and(|e| e < d);
                let r = lives.get(y).map(|y| y.reasons.iter().any(|t| t != "normal")).unwrap_or(true);
                !l.traps && (gone && r || causes.before(x.0 / 100, y.0 / 100, d))
            }
        });
        if !sent && !linked && !b.down.get(&(id.0 / 100, id.1)).is_some_and(|x| *x <= d) {
            o.v(key("died-for-nothing"), format!("process {} died although it had no cause", id.0));
        }
    }
    if b.finished {
        // Causes need their signals.
        for (x, y) in &pairs {
            let Some(l) = lives.get(x) else { continue };
            if ended(*x, lives).is_some() || !b.lives(x.0 / 100, x.1) || x == y {
                continue;
            }
            let all: Vec<_> = [(*x, *y), (*y, *x)].iter().filter_map(|k| links.get(k)).flatten().copied().collect();
            if all.iter().any(|a| !a.1) {
                continue;
            }
            let Some(first) = all.iter().filter(|a| a.2).map(|a| a.0).min() else { continue };
            // A link made by the other side may have been lost with it.
            let mine = links.get(&(*x, *y)).is_some_and(|l| l.iter().any(|a| a.2));
            if !mine && (causes.ever(x.0 / 100, y.0 / 100) || b.down.contains_key(&(y.0 / 100, y.1))) {
                continue;
            }
            let Some(d) = ended(*y, lives) else { continue };
            if last_t.saturating_sub(v.recs[d.max(first)].time) < 2_000_000_000 {
                continue;
            }
            let told = exited.iter().any(|e| e.1 == *x && (e.2 .0 < 0 || e.2 .0 as u32 == y.0));
            if l.traps {
                if !told {
                    o.v(key2("missing-exit", x.0, y.0), format!("process {} is linked to process {} which has ended, but received no exit signal", x.0, y.0));
                }
            } else if lives.get(y).is_some_and(|y| y.death.is_some() && !y.reasons.contains("normal")) || first > d {
                o.v(key2("survived-link", x.0, y.0), format!("process {} lives on although it is linked to process {} which ended abnormally", x.0, y.0));
            }
        }
        for (i, me, t, code, text) in &exits {
            let (mn, tn) = (me.0 / 100, t.0 / 100);
            let Some(l) = lives.get(t) else { continue };
            let up = b.kept.get(&(mn, me.1, tn)).or(b.kept.get(&(tn, t.1, mn))).is_some_and(|k| k < i);
            let sure = mn == tn || strict && !causes.ever(mn, tn) || up && b.kept.get(&(mn, me.1, tn)).is_some_and(|k| k < i);
            if !sure || !b.lives(tn, t.1) || !b.lives(mn, me.1) || l.death.is_some() || last_t.saturating_sub(v.recs[*i].time) < 2_000_000_000 {
                continue;
            }
            let told = exited.iter().any(|e| e.1 == *t && e.4 == *text && (e.2 .0 < 0 || e.2 .0 as u32 == me.0));
            if *code == 1 || *code == 3 && !l.traps {
                o.v(key("survived-exit"), format!("process {} lives on although process {} sent it the exit signal \"{}\"", t.0, me.0, text));
            } else if l.traps && !told {
                o.v(key("missing-exit-message"), format!("process {} never received the exit signal \"{}\" of process {}", t.0, text, me.0));
            }
        }
    }
    // ---- nothing stays behind
    let mut leaked = 0;
    for (id, (at, entries)) in &leaks {
        let sure = |n: u32| n == id.0 / 100 || !causes.ever(n, id.0 / 100);
        let mut want: Vec<(i64, i64)> = Vec::new();
        let mut unsure = false;
        for m in mons.values() {
            if m.named == 2 || m.t != id.0 || m.named == 0 && m.ti != id.1 || m.at > *at {
                continue;
            }
            if m.named == 1 && lives.get(id).and_then(|l| l.registered).is_none() {
                continue;
            }
            if !sure(m.by.0 / 100) {
                continue;
            }
            unsure |= m.done.is_none();
            if m.undo.is_some_and(|u| u < *at) || m.down.as_ref().is_some_and(|d| d.0 < *at) || ended(m.by, lives).is_some_and(|d| d < *at) {
                continue;
            }
            want.push((m.by.0 as i64, m.by.1 as i64));
        }
        let mut have: Vec<(i64, i64)> = entries.iter().filter(|e| e.2 == 0 && e.0 >= 0 && sure(e.0 as u32 / 100)).map(|e| (e.0, e.1)).collect();
        want.sort();
        have.sort();
        leaked += have.len();
        let calm = ended(*id, lives).is_none_or(|d| d > *at);
        if !unsure && calm && want != have {
            let k = if have.len() > want.len() { "monitor-left" } else { "monitor-missing" };
            o.v(key(k), format!("process {} of node {} should be monitored by {:?}, but is by {:?}", id.0, id.0 / 100, want, have));
        }
        for e in entries.iter().filter(|e| e.2 == 1 && e.0 >= 0) {
            let y = (e.0 as u32, e.1 as u32);
            if !sure(y.0 / 100) || y == *id {
                continue;
            }
            if ended(y, lives).is_some_and(|d| d < *at && v.recs[*at].time - v.recs[d].time > 1_000_000_000) && calm {
                // It unlinked a process whose own link was still on its way.
                let crossed = links.get(&(*id, y)).is_some_and(|x| x.iter().any(|x| !x.1)) && links.get(&(y, *id)).is_some_and(|x| x.iter().any(|x| x.1));
                o.v(key2(if crossed { "crossed-unlink" } else { "link-left" }, id.0, y.0), format!("process {} is still linked to process {} which has ended", id.0, y.0));
            }
            if !pairs.contains(&(*id, y)) {
                o.v(key("link-from-nowhere"), format!("process {} is linked to process {} for no reason", id.0, y.0));
            }
        }
        if calm {
            for y in pairs.iter().filter(|p| p.0 == *id).map(|p| p.1) {
                if !sure(y.0 / 100) || y == *id || ended(y, lives).is_some_and(|d| d < *at) {
                    continue;
                }
                let state = state(links.get(&(*id, y)), links.get(&(y, *id)), *at);
                let has = entries.iter().any(|e| e.2 == 1 && (e.0 as u32, e.1 as u32) == y);
                match state {
                    Some(true) if !has => o.v(key("link-missing"), format!("process {} should be linked to process {}, but is not", id.0, y.0)),
                    Some(false) if has => o.v(key("unlink-ignored"), format!("process {} is still linked to process {} although the link was removed", id.0, y.0)),
                    _ => {}
                }
            }
        }
    }
    let _ = (end, causes.strict, script_ended);
    o.nontrivial = crossed >= 3;
    let downs = |f: &dyn Fn(&Mon) -> bool| mons.values().any(f);
    let txt = |m: &Mon, t: &str| m.by.0 / 100 != m.t / 100 && m.down.as_ref().is_some_and(|d| d.1 == t);
    o.probe_if(downs(&|m| txt(m, "noproc")), "remote monitor reported noproc");
    o.probe_if(downs(&|m| txt(m, "noconnection")), "remote monitor reported noconnection");
    o.probe_if(downs(&|m| m.by.0 / 100 != m.t / 100 && m.down.as_ref().is_some_and(|d| d.1.starts_with('r') || d.1.starts_with("final"))), "remote monitor reported a reason");
    o.probe_if(downs(&|m| m.named == 1 && m.down.is_some()), "monitor by remote name fired");
    o.probe_if(downs(&|m| m.by.0 / 100 != m.t / 100 && m.undo.is_some()), "remote monitor removed");
    o.probe_if(exited.iter().any(|e| e.2 .0 >= 0 && e.2 .0 as u32 / 100 != e.1 .0 / 100), "exit signal from another node");
    o.probe_if(leaked > 0, "remaining monitors compared");
    o.probe_if(lives.values().any(|l| l.death.is_some() && !l.ret && l.exit.is_empty()), "a process died of a signal");
    o
}
