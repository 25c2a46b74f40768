//! C18: peers that do not behave.
use std::collections::BTreeMap;

use simapi::ev;

use crate::o_dist::{node, Base};
use crate::pool::View;
use crate::props::Out;

#[derive(Default, Clone)]
struct Attack {
    kind: i64,
    victim: u32,
    dialled: bool,
    begin: Option<u64>,
    proven: Option<u64>,
    told: Option<u64>,
    dropped: Option<u64>,
    left: Option<u64>,
    sent: Vec<i64>,
    seen: bool,
    asked: Option<u64>,
    gave_up: bool,
    down: Option<u64>,
}
const MS: u64 = 1_000_000;

pub fn c18(v: &View) -> Out {
    let mut o = Out::default();
    let b = Base::new(v);
    let hs = [300u64, 800, 2000][v.spec.params[1] as usize % 3] * MS;
    let ht = [600u64, 1500, 5000][v.spec.params[0] as usize % 3] * MS;
    let slack = 100 * MS + 6 * (v.spec.lat_base + v.spec.lat_jitter);
    let mut at: BTreeMap<i64, Attack> = BTreeMap::new();
    let mut got: Vec<(i64, u32, u64)> = Vec::new();
    let (mut joined, mut quiet, mut finished_at) = ([false; 2], [false; 2], 0);
    let mut peers = [[false; 2]; 3];
    for r in &v.recs {
        let n = node(r);
        match r.kind as u32 {
            ev::HOSTILE => {
                let x = at.entry(r.a[0]).or_default();
                match r.a[1] {
                    0 => {
                        x.kind = r.a[2];
                        x.victim = r.a[3] as u32;
                        x.dialled = r.a[4] == 1;
                        x.begin = Some(r.time);
                    }
                    1 => x.proven = Some(r.time),
                    2 => {
                        x.dropped.get_or_insert(r.time);
                    }
                    3 => x.left = Some(r.time),
                    4 => {
                        if x.proven.is_none() {
                            o.v("told-a-stranger", format!("a peer that had not proven itself (attack {}, kind {}) was sent a frame of type {}", r.a[0], x.kind, r.a[2]));
                        }
                    }
                    5 => x.sent.push(r.a[2]),
                    _ => x.told = Some(r.time),
                }
            }
            ev::RECV => got.push((r.a[0], n, r.time)),
            ev::NODES => {
                let (known, connected, j, stage) = (r.a[0], r.a[1] == 1, r.a[2], r.a[3]);
                if connected && known >= 0 {
                    if let (0..=2, true) = (stage, n < 2) {
                        peers[stage as usize][n as usize] |= known == 1 - n as i64;
                    }
                    if stage == 2 && known == 2 {
                        joined[n as usize] = true;
                    }
                }
                if known < 0 && j < 0 {
                    o.v("unknown-node", format!("node {} lists {} that nobody has proven to be", n, v.str(r)));
                }
                if j >= 0 && connected {
                    let x = at.entry(j).or_default();
                    x.seen = true;
                    if x.proven.is_none() {
                        o.v("joined-without-proof", format!("node {} lists a peer as connected that had not proven itself (attack {}, kind {})", n, j, x.kind));
                    }
                }
                if known == 2 && stage < 2 && connected {
                    o.v("joined-without-proof", format!("node {} lists a node as connected that does not run", n));
                }
                if j >= 0 && stage > 0 {
                    o.v("still-listed", format!("node {} lists {} as connected or pending long after it went away", n, v.str(r)));
                }
            }
            ev::NMON if r.actor % 100 < 90 => {
                if r.a[1] == 1 {
                    at.entry(r.a[0]).or_default().asked = Some(r.time);
                }
            }
            ev::DISCONNECT => at.entry(r.a[0]).or_default().gave_up = true,
            ev::NODE_DOWNMSG if n == 2 => o.v("refused-later", "a node with the cookie could not join after the attacks, or was lost".to_string()),
            ev::NODE_DOWNMSG if r.actor % 100 >= 90 => {
                // Before the attacks begin, an attempt may fail.
                if r.time > 2400 * MS {
                    o.v("others-lost", "a connection between two decent nodes was lost because of a third".to_string());
                }
            }
            ev::NODE_DOWNMSG => at.entry(r.a[0]).or_default().down = Some(r.time),
            ev::PROBE_RET => {
                if r.time > 2900 * MS {
                    o.v("others-disturbed", format!("process {} had no answer from the other decent node within 400 ms", r.actor));
                }
            }
            ev::DEATH if r.actor % 100 < 2 && n < 2 => o.v("others-died", format!("process {} of node {} died", r.actor, n)),
            ev::LEAK => {
                quiet[n as usize % 2] = true;
                if r.a[1] > r.a[0] {
                    o.v("processes-left", format!("node {} had {} processes before the attacks and has {} long after them", n, r.a[0], r.a[1]));
                }
            }
            ev::FINISH => finished_at = r.time,
            _ => {}
        }
    }
    for (id, n, _) in &got {
        if *id >= 1 << 40 {
            continue;
        }
        let j = id >> 20;
        if at.get(&j).is_none_or(|x| x.proven.is_none()) {
            o.v("stranger-heard", format!("a message of a peer that had not proven itself (attack {}, kind {}) arrived", j, at.get(&j).map(|x| x.kind).unwrap_or(-1)));
        }
        let _ = n;
    }
    let mut proofs = 0;
    let mut unproven = 0;
    for (j, x) in &at {
        let Some(begin) = x.begin else { continue };
        // ---- dropped in time
        let limit = match x.proven {
            None => Some(begin + hs + slack),
            Some(_) => x.told.map(|t| t + ht + slack),
        };
        let closes = matches!(x.kind, 18 | 19 | 20);
        if let (Some(limit), false) = (limit, x.kind == 17 || closes && x.left.is_some()) {
            let gone = x.dropped.is_some_and(|d| d <= limit);
            let watched = x.left.is_none_or(|l| l > limit) && finished_at > limit;
            if !gone && watched {
                o.v(if x.proven.is_none() { "handshake-not-limited" } else { "silence-not-limited" }, format!("the connection of attack {} (kind {}, proven {}) was not dropped in time", j, x.kind, x.proven.is_some()));
            }
        }
        proofs += x.proven.is_some() as u32;
        unproven += x.proven.is_none() as u32;
        // ---- who is decent is heard
        if let (Some(p), Some(t)) = (x.proven, x.told) {
            let quick = t - begin < hs.min(ht) / 2 && slack * 2 < hs;
            let stays = x.left.is_none_or(|l| l > t + slack);
            let early = matches!(x.kind, 14 | 15);
            if quick && stays && !x.gave_up && !early {
                if !x.seen && x.dropped.is_none_or(|d| d > p + 300 * MS) && x.left.is_none_or(|l| l > p + 500 * MS) {
                    o.v("proof-refused", format!("attack {} (kind {}) proved itself but was not listed as connected", j, x.kind));
                }
                for id in &x.sent {
                    if !got.iter().any(|g| g.0 == *id) {
                        o.v("proof-refused", format!("attack {} (kind {}) proved itself but its message never arrived", j, x.kind));
                    }
                }
            }
        }
    }
    // ---- who asked for a peer that does not behave is told
    if quiet[0] && quiet[1] {
        for (j, x) in &at {
            let Some(asked) = x.asked else { continue };
            match x.down {
                None => o.v("not-told", format!("a process that monitors the peer of attack {} (kind {}) was never told", j, x.kind)),
                Some(d) if x.proven.is_none() && d > asked + hs + slack => {
                    o.v("told-late", format!("a process that monitors the peer of attack {} (kind {}) was told after {} us", j, x.kind, (d - asked) / 1000))
                }
                _ => {}
            }
        }
    }
    if b.finished {
        for n in 0..2 {
            if !peers[1][n] || !peers[2][n] {
                o.v("others-lost", format!("node {} is not connected to the other decent node after the attacks", n));
            }
            if !joined[n] {
                o.v("refused-later", format!("node {} is not connected to a node with the cookie that came after the attacks", n));
            }
            if !got.iter().any(|g| g.0 == 1 << 40 | n as i64 && g.1 == n as u32) {
                o.v("refused-later", format!("node {} did not receive the message of a node that came after the attacks", n));
            }
        }
    }
    o.nontrivial = unproven > 0;
    o.probe_if(proofs > 0, "a peer proved itself, then misbehaved");
    o.probe_if(at.values().any(|x| x.dialled), "a peer that was dialled misbehaved");
    o.probe_if(at.values().any(|x| x.kind == 17 && !x.sent.is_empty()), "a decent raw peer");
    o.probe_if(got.iter().any(|g| g.0 < 1 << 40), "a message of a raw peer arrived");
    o
}

/// A greeting that is shown to another node.
pub fn c18r(v: &View) -> Out {
    let mut o = Out::default();
    let (mut shown, mut heard) = (false, false);
    for r in &v.recs {
        match r.kind as u32 {
            ev::HOSTILE if r.a[1] == 5 => shown = true,
            ev::RECV if r.a[0] < 1 << 40 => {
                heard = true;
                o.v("replayed-greeting", format!("a peer without the cookie showed node {} the greeting that the other node had sent to it, and a message of it arrived", node(r)));
            }
            ev::DEATH if r.actor % 100 < 2 && node(r) < 2 => o.v("others-died", format!("process {} of node {} died", r.actor, node(r))),
            _ => {}
        }
    }
    o.nontrivial = shown;
    o.probe_if(heard, "a replayed greeting was believed");
    o
}
