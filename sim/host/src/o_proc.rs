//! Oracles over the histories of local processes.
use std::collections::{BTreeMap, BTreeSet};

use simapi::ev;

use crate::pool::View;
use crate::props::Out;

pub fn c01(v: &View) -> Out {
    let mut o = Out::default();
    // (msg, target) -> (sender, index of send, completed)
    let mut sends: BTreeMap<(i64, i64), (u32, usize, bool)> = BTreeMap::new();
    let mut order: BTreeMap<(u32, i64), Vec<i64>> = BTreeMap::new();
    let mut recvs: BTreeMap<(u32, i64), Vec<i64>> = BTreeMap::new();
    let mut seen: BTreeSet<(i64, i64)> = BTreeSet::new();
    let mut dead: BTreeSet<u32> = BTreeSet::new();
    let mut finished = false;
    let mut nrecv = 0;
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::SEND => {
                sends.insert((r.a[0], r.a[1]), (r.actor, i, false));
                order.entry((r.actor, r.a[1])).or_default().push(r.a[0]);
            }
            ev::SENT => {
                if let Some(x) = sends.get_mut(&(r.a[0], r.a[1])) {
                    x.2 = true;
                }
            }
            ev::RECV => {
                nrecv += 1;
                let key = (r.a[0], r.actor as i64);
                if r.a[2] != 1 {
                    o.v("altered", format!("message {} arrived altered at actor {}", r.a[0], r.actor));
                }
                match sends.get(&key) {
                    None => o.v("wrong-receiver", format!("actor {} received message {} which was not sent to it", r.actor, r.a[0])),
                    Some(s) => {
                        if s.0 as i64 != r.a[1] {
                            o.v("altered", format!("message {} claims sender {}", r.a[0], r.a[1]));
                        }
                        if !seen.insert(key) {
                            o.v("duplicate", format!("actor {} received message {} twice", r.actor, r.a[0]));
                        }
                        recvs.entry((s.0, r.actor as i64)).or_default().push(r.a[0]);
                    }
                }
                if dead.contains(&r.actor) {
                    o.v("after-death", format!("actor {} received after its end", r.actor));
                }
            }
            ev::DEATH => {
                dead.insert(r.actor);
            }
            ev::FINISH => finished = true,
            _ => {}
        }
    }
    for (k, sent) in &order {
        let empty = Vec::new();
        let got = recvs.get(k).unwrap_or(&empty);
        // In order and without gaps.
        for (i, m) in got.iter().enumerate() {
            if sent.get(i) != Some(m) {
                let pos = sent.iter().position(|x| x == m);
                o.v(
                    "order",
                    format!("actor {} received message {} of sender {} as number {}, it was sent as number {:?}: lost or out of order", k.1, m, k.0, i, pos),
                );
                break;
            }
        }
        if finished && !dead.contains(&(k.1 as u32)) {
            for m in sent {
                if sends[&(*m, k.1)].2 && !seen.contains(&(*m, k.1)) {
                    o.v("lost", format!("message {} from {} to the live actor {} never arrived", m, k.0, k.1));
                }
            }
        }
    }
    o.nontrivial = nrecv >= 3 && order.keys().map(|k| k.0).collect::<BTreeSet<_>>().len() >= 2;
    o.probe_if(!dead.is_empty(), "a process died");
    o.probe_if(order.keys().any(|k| dead.contains(&(k.1 as u32))), "sent to a process that died");
    o.probe_if(sends.values().any(|s| !s.2), "sender ended inside send");
    o
}

/// C02: every receive against what was certainly in the mailbox.
pub fn c02(v: &View) -> Out {
    struct S {
        to: u32,
        from: u32,
        at: usize,
        done: Option<usize>,
        other: bool,
        gone: bool,
    }
    let mut o = Out::default();
    let mut msgs: BTreeMap<i64, S> = BTreeMap::new();
    let mut cur: BTreeMap<u32, (i64, i64, usize)> = BTreeMap::new(); // actor -> select (n, mask, start)
    let mut dead: BTreeSet<u32> = BTreeSet::new();
    let mut stopped: BTreeSet<u32> = BTreeSet::new();
    let mut removing: BTreeMap<u32, (i64, usize)> = BTreeMap::new();
    let (mut nsel, mut nskip, mut ncancel, mut nrem) = (0, 0, 0, 0);
    let fits = |id: i64, s: &S, mask: i64| if s.other { mask & 0x100 != 0 || mask == -1 } else { mask == -1 || mask & 0x100 == 0 && mask >> (id % 5) & 1 == 1 };
    for (i, r) in v.recs.iter().enumerate() {
        let me = r.actor;
        match r.kind as u32 {
            ev::SEND => {
                msgs.insert(r.a[0], S { to: r.a[1] as u32, from: me, at: i, done: None, other: r.a[2] == 1, gone: false });
            }
            ev::SENT => {
                if let Some(s) = msgs.get_mut(&r.a[0]) {
                    s.done = Some(i);
                }
            }
            ev::SELECT => {
                cur.insert(me, (r.a[0], r.a[1], i));
            }
            ev::RECV => {
                let id = r.a[0];
                if r.a[2] != 1 {
                    o.v("altered", format!("message {} arrived altered at actor {}", id, me));
                }
                let (mask, drain) = match cur.remove(&me) {
                    Some((_, m, _)) => (m, false),
                    None => (-1, true),
                };
                let _ = drain;
                let Some(s) = msgs.get(&id) else {
                    o.v("invented", format!("actor {} received message {} that was never sent", me, id));
                    continue;
                };
                if s.to != me {
                    o.v("wrong-receiver", format!("actor {} received message {} sent to {}", me, id, s.to));
                    continue;
                }
                if s.gone {
                    o.v("duplicate", format!("actor {} got message {} after it was received or removed", me, id));
                }
                if !fits(id, s, mask) {
                    o.v("filter", format!("actor {} received message {} its filter rejects", me, id));
                }
                let (sat, sfrom, sother) = (s.at, s.from, s.other);
                let mut skipped = false;
                for (y, t) in &msgs {
                    if *y == id || t.to != me || t.gone {
                        continue;
                    }
                    let before = t.from == sfrom && t.at < sat || t.done.is_some_and(|d| d < sat);
                    if !before {
                        continue;
                    }
                    // A drain receives one type after the other.
                    if fits(*y, t, mask) && (mask != -1 || t.other == sother) {
                        o.v("not-oldest", format!("actor {} received message {} although message {} is older and matches", me, id, y));
                    } else {
                        skipped = true;
                    }
                }
                nskip += skipped as u32;
                nsel += 1;
                msgs.get_mut(&id).unwrap().gone = true;
            }
            ev::TIMEOUT => {
                ncancel += 1;
                if let Some((_, mask, start)) = cur.remove(&me) {
                    for (y, t) in &msgs {
                        if t.to == me && !t.gone && t.done.is_some_and(|d| d < start) && fits(*y, t, mask) {
                            o.v("missed", format!("actor {} found no match although message {} was in its mailbox", me, y));
                        }
                    }
                }
            }
            ev::REMOVE => {
                removing.insert(me, (r.a[0], i));
            }
            ev::INFO if r.a[1] == 1 => {
                nrem += 1;
                match msgs.get_mut(&r.a[0]) {
                    Some(s) if s.to == me && !s.gone => s.gone = true,
                    _ => o.v("removed-twice", format!("actor {} was asked about message {} which is not in its mailbox", me, r.a[0])),
                }
            }
            ev::REMOVED => {
                if let Some((mask, start)) = removing.remove(&me) {
                    for (y, t) in &msgs {
                        if t.to == me && !t.gone && t.done.is_some_and(|d| d < start) && fits(*y, t, mask) {
                            o.v("not-removed", format!("actor {}: remove left the matching message {} in the mailbox", me, y));
                        }
                    }
                }
            }
            ev::DEATH => {
                dead.insert(me);
            }
            ev::STOPPED => {
                stopped.insert(me);
                for (y, t) in &msgs {
                    if t.to == me && !t.gone && t.done.is_some() {
                        o.v("lost", format!("message {} to actor {} was lost", y, me));
                    }
                }
            }
            _ => {}
        }
    }
    o.nontrivial = nsel >= 3 && nskip >= 1;
    o.probe_if(nskip > 0, "a receive left an older message in place");
    o.probe_if(ncancel > 0, "a receive was given up");
    o.probe_if(nrem > 0, "messages were removed");
    o.probe_if(dead.iter().any(|d| !stopped.contains(d)), "an actor was killed");
    o
}
