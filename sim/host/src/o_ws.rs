//! C24: websocket connections.
use std::collections::BTreeMap;

use simapi::{ev, fault};

use crate::o_dist::node;
use crate::pool::View;
use crate::props::Out;

const US: u64 = 1000;
const MS: u64 = 1_000_000;
const DECENT: u32 = 6;
const HANDSHAKE: u32 = 7;
const SLOW: u32 = 13;
const STALLED: u32 = 14;

#[derive(Default)]
struct Said {
    at: usize,
    done: Option<u64>,
    binary: bool,
    sum: i64,
    len: i64,
}
#[derive(Default)]
struct Sent {
    at: usize,
    time: u64,
    binary: bool,
    sum: i64,
}
#[derive(Default)]
struct Conn {
    machine: u32,
    connected: Option<u64>,
    asked: Option<(u64, i64)>,
    open: Option<u64>,
    said: Vec<Said>,
    ending: Option<(u64, i64)>,
    last_ending: u64,
    closed: Option<u64>,
    deaf: bool,
    accepted: u32,
    pid: Option<i64>,
    handled: i64,
    handled_at: BTreeMap<i64, u64>,
    infos: i64,
    sent: Vec<Sent>,
    bye: Option<(usize, u64, i64, String)>,
    got: usize,
    got_close: Option<(i64, String)>,
    terms: Vec<(usize, String)>,
    down: Option<String>,
    dropped: Option<u64>,
    /// The handler has nothing more to do.
    over: Option<(usize, u64)>,
    inited: bool,
    panicked: bool,
    killed: bool,
    said_bye: bool,
}

pub fn c24(v: &View) -> Out {
    let mut o = Out::default();
    let hs = [None, Some(300 * MS), Some(800 * MS), Some(2000 * MS)][v.spec.params[0] as usize % 4];
    let lat = v.spec.lat_base + v.spec.lat_jitter;
    let still = v.stats.stall == 0;
    let mut conns: BTreeMap<i64, Conn> = BTreeMap::new();
    let mut faulty: Vec<(u32, u32, u64)> = Vec::new();
    let mut finished = None;
    let mut leak = [None; 2];
    let mut pids: BTreeMap<i64, i64> = BTreeMap::new();
    let total = v.ops.len() as i64;
    let kind = |j: i64| if j % 1000 >= total { 0 } else { v.ops[(j % 1000) as usize][0] % 16 };
    for (i, r) in v.recs.iter().enumerate() {
        let k = r.kind as u32;
        let j = r.a[0];
        match k {
            ev::FAULT => {
                let x = r.a[1] as u32;
                let y = match r.a[0] as u32 {
                    fault::PARTITION | fault::ONEWAY | fault::RESET | fault::HALFCLOSE | fault::REFUSE => r.a[2] as u32,
                    _ => x,
                };
                faulty.push((x, y, r.time));
            }
            ev::FINISH => finished = Some(r.time),
            ev::LEAK => leak[r.a[1] as usize % 2] = Some((r.a[0], r.time)),
            ev::WS_CLIENT => {
                let c = conns.entry(j).or_default();
                c.machine = node(r);
                match r.a[1] {
                    0 => c.connected = Some(r.time),
                    1 => c.asked = Some((r.time, r.a[2])),
                    2 => {
                        c.open = Some(r.time);
                        if r.a[2] != 1 {
                            o.v("handshake-answer", format!("connection {}: the answer does not fit the request", j));
                        }
                    }
                    3 => c.said[r.a[2] as usize].done = Some(r.time),
                    5 => {
                        c.ending.get_or_insert((r.time, r.a[2]));
                        c.last_ending = r.time;
                        c.said_bye |= r.a[2] == 13;
                    }
                    6 => c.said.push(Said { at: i, done: None, binary: r.a[3] == 1, sum: r.a[4], len: r.a[5] }),
                    7 => c.deaf = true,
                    _ => c.last_ending = r.time,
                }
            }
            ev::WS_ACCEPT => {
                let c = conns.entry(j).or_default();
                c.accepted += 1;
                if c.accepted > 1 {
                    o.v("accepted-twice", format!("connection {} was accepted {} times", j, c.accepted));
                }
            }
            ev::WS_HANDLE => {
                let c = conns.entry(j).or_default();
                let runs = r.a[1] <= 2;
                if runs {
                    if c.dropped.is_some() || c.over.is_some() {
                        o.v("ran-on", format!("a callback (stage {}) of the handler of connection {} ran after it had ended", r.a[1], j));
                    }
                    let pid = match r.a[1] {
                        0 => r.a[2],
                        1 | 2 => r.a[4],
                        _ => -1,
                    } + ((r.node as i64 >> 8) << 32);
                    if *c.pid.get_or_insert(pid) != pid {
                        o.v("process-shared", format!("callbacks of connection {} ran in several processes", j));
                    }
                    if *pids.entry(pid).or_insert(j) != j {
                        o.v("process-shared", format!("the process of connection {} served another one", j));
                    }
                    if r.a[1] > 0 && !c.inited {
                        o.v("no-init", format!("connection {} was served before its handler had been initialised", j));
                    }
                    c.inited = true;
                }
                match r.a[1] {
                    1 => {
                        if (r.a[3] == 1 || r.a[3] == 2) && kind(j) != HANDSHAKE {
                            let n = r.a[2];
                            match c.said.get(n.max(0) as usize) {
                                Some(s) if n >= 0 && s.at < i => {
                                    if s.sum != r.a[5] || s.binary != (r.a[3] == 2) {
                                        o.v("altered", format!("message {} of connection {} was altered", n, j));
                                    }
                                }
                                _ => o.v("altered", format!("the handler of connection {} was given a message that was not sent", j)),
                            }
                            if n != c.handled {
                                o.v("handled-order", format!("message {} of connection {} was handled, number {} should have been", n, j, c.handled));
                            }
                            c.handled = n + 1;
                            c.handled_at.insert(n, r.time);
                        }
                    }
                    2 => {
                        if r.a[2] >= 0 {
                            if r.a[2] != c.infos {
                                o.v("info-order", format!("message {} of a process to the handler of connection {} was handled, number {} should have been", r.a[2], j, c.infos));
                            }
                            c.infos = r.a[2] + 1;
                        }
                    }
                    3 => {
                        if r.a[2] > 0 || r.a[3] == 1 {
                            c.over.get_or_insert((i, r.time));
                        }
                        c.panicked |= r.a[2] == 2;
                    }
                    4 => {
                        c.dropped = Some(r.time);
                    }
                    5 => c.down = Some(v.str(r)),
                    6 => c.killed = true,
                    _ => {}
                }
            }
            ev::WS_SEND => {
                let c = conns.entry(j).or_default();
                if r.a[1] < 0 {
                    c.bye.get_or_insert((i, r.time, r.a[2], v.str(r)));
                } else {
                    c.sent.push(Sent { at: i, time: r.time, binary: r.a[2] == 1, sum: r.a[4] });
                }
            }
            ev::WS_RECV => {
                let c = conns.entry(j).or_default();
                if c.got_close.is_some() {
                    o.v("after-close", format!("connection {} was sent something (type {}) after it had been closed", j, r.a[1]));
                }
                match r.a[1] {
                    1 | 2 => {
                        if r.a[2] >= 1_000_000 {
                            o.v("after-close", format!("connection {} was sent a message that its handler put after a close", j));
                        } else {
                            let n = c.got + 1;
                            match c.sent.get(n - 1) {
                                _ if kind(j) == HANDSHAKE => {}
                                Some(s) if r.a[2] == n as i64 && s.at < i => {
                                    if s.sum != r.a[4] || s.binary != (r.a[1] == 2) {
                                        o.v("altered", format!("message {} to connection {} was altered", n, j));
                                    }
                                }
                                // What is said in answer to a goodbye has no number.
                                _ => o.v("received-order", format!("connection {} received message {}, number {} should have come", j, r.a[2], n)),
                            }
                            c.got = n;
                        }
                    }
                    8 => {
                        c.got_close = Some((r.a[2], v.str(r)));
                    }
                    _ => {}
                }
            }
            ev::WS_CLOSED => {
                conns.entry(j).or_default().closed = Some(r.time);
            }
            ev::WS_TERM => {
                let c = conns.entry(j).or_default();
                if r.a[1] == 0 {
                    if c.dropped.is_some() {
                        o.v("ran-on", format!("terminate of connection {} ran after its handler had ended", j));
                    }
                    c.terms.push((i, v.str(r)));
                    c.over.get_or_insert((i, r.time));
                }
            }
            _ => {}
        }
    }
    let end = finished.unwrap_or(0);
    let (mut served, mut broken, mut dropped_hs, mut backs) = (0, 0, 0, 0);
    for (&j, c) in &conns {
        let k = kind(j);
        // No fault since it was connected, and none that lasts.
        let touched = |f: &&(u32, u32, u64)| f.0 == c.machine || f.1 == c.machine || f.0 == 0 && f.1 == 0;
        let calm = still && finished.is_some() && !faulty.iter().filter(touched).any(|f| c.connected.is_none_or(|t| f.2 + 3200 * MS > t));
        served += (k <= DECENT && c.handled > 0) as u32;
        let bytes = c.said.iter().map(|s| s.len as u64).sum::<u64>() + v.recs.iter().filter(|r| r.kind as u32 == ev::WS_SEND && r.a[0] == j && r.a[1] >= 0).map(|r| r.a[3] as u64).sum::<u64>();
        let steps = c.said.len() as u64 + c.sent.len() as u64 + c.infos as u64;
        let bound = 500 * MS + 21 * MS * steps + (bytes / v.spec.sndbuf.max(16) as u64 + 2 * steps + 6) * 2 * lat;
        // Whether the client had ended it by then, not the server.
        let client_at = |t: u64| c.ending.is_some_and(|e| e.0 <= t && c.closed.is_none_or(|x| x > e.0));
        // ---- the end of a handler
        if c.terms.len() > 1 {
            o.v("terminated-twice", format!("terminate of connection {} was called {} times", j, c.terms.len()));
        }
        let natural = c.inited && c.dropped.is_some() && !c.panicked && !c.killed;
        if natural {
            if c.terms.is_empty() {
                o.v("not-terminated", format!("connection {} ended without a call of terminate", j));
            }
            if let (Some(d), Some(t)) = (&c.down, c.terms.first()) {
                if *d != t.1 {
                    o.v("exit-reason", format!("terminate of connection {} was given {:?}, but the process exited with {:?}", j, t.1, d));
                }
            }
        }
        // ---- the handshake
        let (Some(t0), true) = (c.connected, calm) else { continue };
        match c.asked {
            Some((t1, 1)) => {
                let in_time = hs.is_none_or(|h| t1 + 2 * lat + 100 * MS < t0 + h);
                if in_time && k <= DECENT {
                    match c.open {
                        None if t1 + bound < end && !c.ending.is_some_and(|e| e.0 < t1 + bound) => o.v("not-accepted", format!("connection {} was not accepted", j)),
                        None if c.closed.is_some() => o.v("not-accepted", format!("connection {} was refused", j)),
                        Some(t) if t > t1 + bound => o.v("not-accepted", format!("connection {} was accepted after {} us", j, (t - t1) / US)),
                        _ => {}
                    }
                }
            }
            Some((_, 0)) => {
                if let (Some(h), false) = (hs, client_at(t0 + hs.unwrap_or(0) + 2 * lat + 150 * MS)) {
                    match c.closed {
                        None if end > t0 + h + 2 * lat + 150 * MS => o.v("handshake-not-limited", format!("the incomplete handshake of connection {} was not given up", j)),
                        Some(t) if t > t0 + h + 2 * lat + 150 * MS => o.v("handshake-not-limited", format!("the incomplete handshake of connection {} was given up after {} us", j, (t - t0) / US)),
                        _ => {}
                    }
                    dropped_hs += 1;
                }
                if let (Some(h), Some(t)) = (hs, c.closed) {
                    if t + 2 * lat + 5 * MS < t0 + h && !client_at(t) {
                        o.v("handshake-cut", format!("the handshake of connection {} was given up after {} us", j, (t - t0) / US));
                    }
                } else if let (None, Some(t)) = (hs, c.closed) {
                    if !client_at(t) {
                        o.v("handshake-cut", format!("the handshake of connection {} was given up", j));
                    }
                }
            }
            Some((t1, 2)) => {
                if c.closed.is_none_or(|t| t > t1 + bound) && !client_at(t1 + bound) && t1 + bound < end {
                    o.v("refused-stays", format!("connection {} was refused but not ended", j));
                }
            }
            Some((t1, 3)) if k == HANDSHAKE => {
                if let Some(h) = hs {
                    let t = (t0 + h + 2 * lat + 150 * MS).max(t1 + bound);
                    if c.closed.is_none_or(|x| x > t) && !client_at(t) && t < end && c.open.is_none() {
                        o.v("handshake-not-limited", format!("the malformed handshake of connection {} was not given up", j));
                    }
                }
            }
            _ => {}
        }
        if c.open.is_none() {
            continue;
        }
        // ---- its handler
        let t1 = c.open.unwrap();
        if !c.inited && k != HANDSHAKE && t1 + bound < end && c.ending.is_none_or(|e| e.0 > t1 + bound) {
            o.v("no-handler", format!("connection {} was accepted, but its handler never started", j));
        }
        // ---- progress
        let slow = k == SLOW || k == STALLED || c.deaf;
        let ended = c.over.map(|x| x.1).into_iter().chain(c.ending.map(|e| e.0)).chain(c.closed).min().unwrap_or(end);
        if !slow && k != HANDSHAKE && (k <= DECENT || k == 15 || k == 9 || k == 10) {
            for (n, s) in c.said.iter().enumerate() {
                if s.done.is_some_and(|t| t + bound < ended) && c.handled_at.get(&(n as i64)).is_none_or(|t| *t > s.done.unwrap() + bound) {
                    o.v("not-handled", format!("message {} of connection {} was not handled in time", n, j));
                    break;
                }
            }
        }
        if k <= DECENT {
            if let Some((_, t)) = c.over {
                if c.ending.is_none_or(|e| e.0 > t) {
                    o.v("ended-alone", format!("connection {} was ended by its handler for no reason", j));
                }
            } else if let Some(t) = c.closed {
                if c.ending.is_none_or(|e| e.0 > t) && !c.panicked {
                    o.v("ended-alone", format!("connection {} was ended, not by its handler", j));
                }
            }
        } else {
            broken += 1;
        }
        if !slow {
            let due = c.sent.iter().filter(|s| s.time + bound < c.ending.map(|e| e.0).unwrap_or(end)).count();
            if c.got < due && !c.panicked && !c.killed && !ended_badly(c, k) {
                o.v("not-received", format!("connection {} received {} of {} messages", j, c.got, due));
            }
            // A close is the last thing sent, after all that was to be sent before.
            if let Some((at, t, code, text)) = &c.bye {
                let before = c.sent.iter().filter(|s| s.at < *at).count();
                let undisturbed = c.ending.is_none_or(|e| e.0 > t + bound) && !c.killed && !c.said_bye && t + bound < end && k != HANDSHAKE && c.terms.first().is_none_or(|x| x.0 > *at);
                if undisturbed {
                    backs += 1;
                    if c.got < before {
                        o.v("not-received", format!("connection {} was closed after {} of {} messages", j, c.got, before));
                    }
                    match &c.got_close {
                        None => o.v("close-lost", format!("connection {} did not receive the close of its handler", j)),
                        Some((x, y)) if x != code || y != text => o.v("close-altered", format!("connection {} was closed with {} {:?}, its handler wanted {} {:?}", j, x, y, code, text)),
                        _ => {}
                    }
                }
            }
            if let Some((_, t)) = c.over {
                if t + bound < end && c.closed.is_none_or(|x| x > t + bound) && c.ending.is_none_or(|e| e.0 > t + bound) {
                    o.v("left-open", format!("connection {} was not ended with its handler", j));
                }
            }
        }
        // ---- everything ends
        let last = c.over.map(|x| x.1).filter(|_| !slow).into_iter().chain(c.ending.map(|_| c.last_ending.max(c.ending.unwrap().0))).min();
        if let Some(t) = last {
            if c.inited && t + bound + 3000 * MS < end && c.dropped.is_none_or(|d| d > t + bound + 3000 * MS) {
                o.v("handler-left", format!("the handler of connection {} is still there long after its end", j));
            }
        }
    }
    if let (Some(a), Some(b), true) = (leak[0], leak[1], still && faulty.is_empty()) {
        // Those that are at it still do not count.
        let done = conns.values().all(|c| c.connected.is_none() || c.last_ending > 0 && c.last_ending + 3500 * MS < b.1);
        if b.0 > a.0 && done {
            o.v("processes-left", format!("{} processes before the connections, {} after them", a.0, b.0));
        }
    }
    if still && finished.is_some() && faulty.is_empty() {
        match conns.get(&total) {
            Some(c) if c.open.is_some() => {}
            _ => o.v("not-accepted", "a decent connection in the end was not accepted".to_string()),
        }
    }
    for r in &v.recs {
        if r.kind as u32 == ev::DEATH {
            o.v("server-died", format!("process {} died", r.actor));
        }
    }
    o.nontrivial = served >= 1 && conns.len() >= 2;
    o.probe_if(broken > 0, "a troubled connection beside decent ones");
    o.probe_if(dropped_hs > 0, "an incomplete handshake was limited");
    o.probe_if(backs > 0, "a handler closed");
    o.probe_if(conns.values().any(|c| c.terms.len() == 1), "a handler was terminated");
    o
}
/// The client broke the rules, then it need not receive anything.
fn ended_badly(c: &Conn, k: u32) -> bool {
    let _ = c;
    k == 11 || k == 12 || k == HANDSHAKE
}
