//! Oracle over process lists and process information (C25).
use std::collections::BTreeMap;

use simapi::ev;

use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;
const REST: u64 = 2_000_000_000;
/// A process of the other node.
const FAR: u32 = 52;

struct Iv<T> {
    s: usize,
    e: usize,
    v: T,
}
struct Mon {
    by: u32,
    target: u32,
    named: bool,
    s: usize,
    e: usize,
    ds: usize,
    de: usize,
}
struct Query {
    by: u32,
    t: u32,
    s: usize,
    e: usize,
    a: [i64; 6],
    name: String,
}
/// What a value set by operations of one process is in [s, e], if that is certain.
fn value<T: Clone>(v: &[Iv<T>], s: usize, e: usize) -> Option<Option<T>> {
    if v.iter().any(|x| x.s < e && x.e > s) {
        return None;
    }
    Some(v.iter().rfind(|x| x.e < s).map(|x| x.v.clone()))
}
fn close<T>(v: Option<&mut Vec<Iv<T>>>, i: usize) {
    if let Some(x) = v.and_then(|v| v.last_mut()) {
        x.e = i;
    }
}

pub fn c25(v: &View) -> Out {
    let mut o = Out::default();
    let quick = v.stats.stall == 0;
    let time = |i: usize| v.recs[i].time;
    let queues = v.spec.scenario == 251 || v.spec.scenario == 26 && v.spec.params[1] % 4 == 0;
    let mut death: BTreeMap<u32, usize> = BTreeMap::new();
    let mut born: BTreeMap<u32, usize> = BTreeMap::new();
    // Links by pair: by whom, on or off.
    let mut links: BTreeMap<(u32, u32), Vec<Iv<(u32, bool)>>> = BTreeMap::new();
    let mut mons: BTreeMap<i64, Mon> = BTreeMap::new();
    let mut traps: BTreeMap<u32, Vec<Iv<bool>>> = BTreeMap::new();
    let mut names: BTreeMap<u32, Vec<Iv<String>>> = BTreeMap::new();
    let mut sends: BTreeMap<u32, Vec<Iv<u32>>> = BTreeMap::new();
    let mut recvs: BTreeMap<u32, Vec<Iv<bool>>> = BTreeMap::new();
    let mut open: BTreeMap<i64, (usize, u32)> = BTreeMap::new();
    let mut queries: Vec<Query> = Vec::new();
    let mut lists: Vec<(u32, usize, usize, i64, i64)> = Vec::new();
    let mut rest = INF;
    let pair = |a: u32, b: u32| (a.min(b), a.max(b));
    for (i, r) in v.recs.iter().enumerate() {
        let me = r.actor;
        let t = r.a[0] as u32;
        match r.kind as u32 {
            ev::DEATH => {
                death.entry(me).or_insert(i);
            }
            ev::START | ev::SPAWN => {
                born.entry(me).or_insert(i);
            }
            k @ (ev::LINK | ev::UNLINK) => links.entry(pair(me, t)).or_default().push(Iv { s: i, e: INF, v: (me, k == ev::LINK) }),
            ev::LINKED | ev::UNLINKED => {
                if let Some(x) = links.get_mut(&pair(me, t)).and_then(|v| v.iter_mut().rfind(|x| x.v.0 == me)) {
                    x.e = i;
                }
            }
            ev::MONITOR => {
                let m = mons.entry(r.a[0]).or_insert(Mon { by: me, target: r.a[1] as u32, named: false, s: i, e: INF, ds: INF, de: INF });
                m.named |= r.a[2] == 1;
            }
            ev::MONITORED => {
                if let Some(m) = mons.get_mut(&r.a[0]) {
                    m.e = i;
                }
            }
            ev::DEMONITOR => {
                if let Some(m) = mons.get_mut(&r.a[0]) {
                    m.ds = i;
                }
            }
            ev::DEMONITORED => {
                if let Some(m) = mons.get_mut(&r.a[0]) {
                    m.de = i;
                }
            }
            ev::TRAP if r.a[1] == 0 => traps.entry(me).or_default().push(Iv { s: i, e: INF, v: r.a[0] != 0 }),
            ev::TRAP => close(traps.get_mut(&me), i),
            ev::REG => names.entry(me).or_default().push(Iv { s: i, e: INF, v: v.str(r) }),
            ev::UNREG => names.entry(me).or_default().push(Iv { s: i, e: INF, v: String::new() }),
            ev::REGISTERED | ev::UNREGISTERED => close(names.get_mut(&me), i),
            ev::SEND => sends.entry(t).or_default().push(Iv { s: i, e: INF, v: me }),
            ev::SENT => {
                if let Some(x) = sends.get_mut(&t).and_then(|v| v.iter_mut().rfind(|x| x.v == me)) {
                    x.e = i;
                }
            }
            ev::RECEIVING => recvs.entry(me).or_default().push(Iv { s: i, e: INF, v: true }),
            ev::RECEIVED => {
                if let Some(x) = recvs.get_mut(&me).and_then(|v| v.last_mut()) {
                    x.e = i;
                    x.v = r.a[0] != 0;
                }
            }
            ev::INFO | ev::LIST if r.kind as u32 == ev::INFO || r.a[1] == 0 => {
                open.insert(r.a[0], (i, r.a[1] as u32));
            }
            ev::INFO_RET => {
                if let Some((s, t)) = open.remove(&r.a[0]) {
                    queries.push(Query { by: me, t, s, e: i, a: r.a, name: v.str(r) });
                }
            }
            ev::LIST => {
                if let Some((s, _)) = open.remove(&r.a[0]) {
                    lists.push((me, s, i, r.a[2], r.a[3]));
                }
            }
            ev::NOTE => rest = i,
            _ => {}
        }
    }
    let none_dead = |x: u32, e: usize| death.get(&x).is_none_or(|d| *d > e);
    let long_dead = |x: u32, s: usize| death.get(&x).is_some_and(|d| *d < s && time(s) >= time(*d) + REST && (quick || s > rest));
    let mut seen = 0;
    for q in &queries {
        let (s, e, t) = (q.s, q.e, q.t);
        if q.a[1] == -1 {
            if none_dead(t, e) {
                o.v("no-info", format!("there was no information about process {}, which lives (record {})", t, q.e));
            }
            continue;
        }
        if long_dead(t, s) {
            o.v("info-of-dead", format!("there was information about process {}, which has ended (record {})", t, q.e));
            continue;
        }
        if !none_dead(t, e) {
            // It is being removed.
            continue;
        }
        // ---- links
        for (p, ops) in links.range((0, 0)..).filter(|x| x.0 .0 == t || x.0 .1 == t) {
            let x = if p.0 == t { p.1 } else { p.0 };
            let on = q.a[1] >> x & 1 == 1;
            seen += on as u32;
            let started: Vec<_> = ops.iter().filter(|l| l.s < e).collect();
            let never_linked = started.iter().all(|l| !l.v.1);
            let certain = started.iter().all(|l| l.e < s);
            // The last ones: nothing began after they had ended.
            let last: Vec<_> = started.iter().filter(|l| started.iter().all(|m| m.s < l.e)).collect();
            let (mut must, mut may) = (false, true);
            if never_linked {
                may = false;
            } else if certain {
                must = last.iter().all(|l| l.v.1) && none_dead(x, e);
                may = last.iter().any(|l| l.v.1) && !long_dead(x, s);
            }
            if must && !on {
                o.v("link-missing", format!("the information about process {} does not show its link to {} (record {})", t, x, q.e));
            }
            if on && !may {
                o.v("link-stale", format!("the information about process {} shows a link to {} that it does not have (record {})", t, x, q.e));
            }
        }
        for x in 0..60u32 {
            if q.a[1] >> x & 1 == 1 && !links.contains_key(&pair(t, x)) {
                o.v("link-stale", format!("the information about process {} shows a link to {} that it never had (record {})", t, x, q.e));
            }
        }
        // ---- monitors
        let (mut must, mut may, mut must_n, mut may_n) = (0i64, 1i64 << 62, 0, 0);
        for m in mons.values().filter(|m| m.target == t && m.s < e) {
            let named_ok = !m.named || names.get(&t).is_some_and(|v| v.first().is_some_and(|x| x.e < m.s && x.v.starts_with("actor")));
            if m.e < s && m.ds > e && none_dead(m.by, e) && named_ok {
                must |= 1 << m.by;
                must_n += 1;
            }
            if m.de > s && !long_dead(m.by, s) {
                may |= 1 << m.by;
                may_n += 1;
            }
        }
        seen += (q.a[2] != 0) as u32;
        if must & !q.a[2] != 0 || q.a[3] < must_n {
            o.v("monitor-missing", format!("the information about process {} lacks a monitor (processes {:#x}, must have {:#x}, {} of at least {}, record {})", t, q.a[2], must, q.a[3], must_n, q.e));
        }
        if q.a[2] & !may != 0 || q.a[3] > may_n {
            o.v("monitor-stale", format!("the information about process {} shows a monitor that is gone (processes {:#x}, may have {:#x}, {} of at most {}, record {})", t, q.a[2], may, q.a[3], may_n, q.e));
        }
        // ---- flags and name
        if let Some(x) = value(traps.get(&t).map(|v| &v[..]).unwrap_or(&[]), s, e) {
            if x.unwrap_or(false) != (q.a[4] != 0) {
                o.v("trap-flag", format!("process {} {} exits, its information says otherwise (record {})", t, if q.a[4] != 0 { "does not trap" } else { "traps" }, q.e));
            }
        }
        if let Some(x) = value(names.get(&t).map(|v| &v[..]).unwrap_or(&[]), s, e) {
            if x.clone().unwrap_or_default() != q.name {
                o.v("name", format!("process {} has the name {:?}, its information says {:?} (record {})", t, x.unwrap_or_default(), q.name, q.e));
            }
        }
        // ---- the queue
        if queues && t < 50 {
            let none = Vec::new();
            let none_r = Vec::new();
            let (ss, rs) = (sends.get(&t).unwrap_or(&none), recvs.get(&t).unwrap_or(&none_r));
            let upper = ss.iter().filter(|x| x.s < e).count() as i64 - rs.iter().filter(|x| x.v && x.e < s).count() as i64;
            let lower = ss.iter().filter(|x| x.e < s).count() as i64 - rs.iter().filter(|x| x.v && x.s < e).count() as i64;
            seen += (q.a[5] > 0) as u32;
            if q.a[5] > upper || q.a[5] < lower {
                o.v("queue-length", format!("the queue of process {} holds {} to {} messages, its information says {} (record {})", t, lower, upper, q.a[5], q.e));
            }
        }
        let _ = q.by;
    }
    // At rest a link has both sides.
    let still: BTreeMap<u32, &Query> = queries.iter().filter(|q| q.s > rest && q.a[1] != -1 && none_dead(q.t, q.e)).map(|q| (q.t, q)).collect();
    for (a, q) in &still {
        for (b, r) in still.range(a + 1..) {
            if *b < 50 && (q.a[1] >> b & 1) != (r.a[1] >> a & 1) {
                o.v("link-one-sided", format!("of processes {} and {}, only one shows a link to the other (records {}, {})", a, b, q.e, r.e));
            }
        }
    }
    for (by, s, e, mask, unknown) in &lists {
        for x in 0..60u32 {
            let on = mask >> x & 1 == 1;
            if !on && x != FAR && born.get(&x).is_some_and(|b| b < s) && none_dead(x, *e) {
                o.v("not-listed", format!("process {} lives but is not listed by {}", x, by));
            }
            if on && long_dead(x, *s) {
                o.v("listed-dead", format!("process {} has ended but is still listed", x));
            }
        }
        if *s > rest && *unknown > 0 {
            o.v("listed-unknown", "a process is listed that nobody has spawned".into());
        }
    }
    o.probe_if(rest != INF && queries.iter().any(|q| q.s > rest && q.a[1] > 0), "a link was seen at rest");
    o.probe_if(queries.iter().any(|q| q.s < rest && q.a[1] > 0), "a link was seen");
    o.probe_if(rest != INF && queries.iter().any(|q| q.s > rest && q.a[3] > 0), "a monitor was seen at rest");
    o.probe_if(queries.iter().any(|q| q.a[1] == -1), "an ended process was asked for");
    o.probe_if(queues && queries.iter().any(|q| q.a[5] > 0), "a queued message was seen");
    o.nontrivial = seen > 0;
    o
}

/// The same through the console of the node, asked by a process there and by one of another node.
pub fn c26(v: &View) -> Out {
    let mut o = c25(v);
    let mut calls: BTreeMap<i64, usize> = BTreeMap::new();
    let hits: Vec<usize> = (0..v.recs.len()).filter(|i| v.recs[*i].kind as u32 == ev::EXIT && v.recs[*i].actor == 53).collect();
    let mut rest = false;
    let (mut near, mut far, mut failed) = (0, 0, 0);
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::NOTE => rest = true,
            ev::CALL => {
                calls.insert(r.a[0], i);
            }
            ev::CALL_RET => {
                let Some(s) = calls.remove(&r.a[0]) else { continue };
                if r.a[1] < 0 {
                    continue;
                }
                failed += 1;
                let hit = hits.iter().any(|h| *h < i && v.recs[*h].time + 500_000_000 >= v.recs[s].time);
                let early = r.a[1] != 0 && v.recs[s].time < 1_000_000_000;
                if !hit && !early {
                    o.v("console-call", format!("process {} asked the console, which nothing has happened to, and got {:?}", r.actor, v.str(r)));
                }
                if v.str(r) == "timeout" {
                    o.v("console-timeout", format!("process {} asked the console and got no answer at all", r.actor));
                }
            }
            ev::COUNT => {
                if r.actor == FAR {
                    far += 1
                } else {
                    near += 1
                }
                if rest && r.a[1] != r.a[2] {
                    o.v("process-count", format!("the console lists {} processes but counts {}", r.a[1], r.a[2]));
                }
            }
            _ => {}
        }
    }
    o.probe_if(far > 0, "a process of another node saw everything");
    o.probe_if(near > 0, "a process of the node saw everything");
    o.probe_if(failed > 0, "a call met a console that had been ended");
    o.probe_if(!hits.is_empty(), "the console was ended");
    o.nontrivial &= near + far > 0;
    o
}
