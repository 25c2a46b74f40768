//! C22: a hash ring shared by threads.
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

use hydra::{HashRing, Process};

use crate::w::*;

const NODES: u32 = 6;
const PROBES: u32 = 6;
/// The first probes are keys of nodes themselves.
fn probe(i: u32) -> u32 {
    match i % PROBES {
        0 => 0,
        1 => 3,
        n => 1000 + n,
    }
}
/// A value nobody else adds: what it is and for whom (nodes 0-5, overrides 8-13).
fn value(key: u32) -> u64 {
    fresh() as u64 * 16 + key as u64
}
fn old(v: Option<u64>) -> i64 {
    v.map(|v| v as i64).unwrap_or(-2)
}
// RING a=[op, what, key/probe, value, ..]; RING_RET a=[op, result]; RING_SET a=[op, n] per member of a set.
fn lookup(ring: &HashRing<u64>, me: u32, i: u32) {
    let op = fresh();
    log(ev::RING, me, &[op, 0, (i % PROBES) as i64], "");
    let r = if i / PROBES % 3 == 0 {
        let mut r = None;
        ring.map_node(probe(i), |v| r = v.copied());
        r
    } else {
        ring.find_node(probe(i))
    };
    log(ev::RING_RET, me, &[op, old(r)], "");
}
fn members(me: u32, op: i64, bits: u32, over: bool) -> Vec<(u32, u64)> {
    let mut v = Vec::new();
    for j in 0..6 {
        if bits >> j & 1 == 1 {
            let x = value(if over { 8 + j } else { j });
            log(ev::RING_SET, me, &[op, j as i64, x as i64], "");
            v.push((if over { probe(j) } else { j }, x));
        }
    }
    if bits >> 6 & 1 == 1 {
        v.reverse();
    }
    v
}
async fn script(ring: Arc<HashRing<u64>>, me: u32, k: u32) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        let key = o[2] % NODES;
        match o[0] % 20 {
            0..=4 => lookup(&ring, me, o[2]),
            5..=7 => {
                let (op, x) = (fresh(), value(key));
                log(ev::RING, me, &[op, 1, key as i64, x as i64], "");
                let r = ring.add_node(key, x);
                log(ev::RING_RET, me, &[op, old(r)], "");
            }
            8 | 9 => {
                let op = fresh();
                log(ev::RING, me, &[op, 2, key as i64], "");
                let r = ring.remove_node(key);
                log(ev::RING_RET, me, &[op, old(r)], "");
            }
            10 => {
                let op = fresh();
                let v = members(me, op, o[2], false);
                log(ev::RING, me, &[op, 3], "");
                ring.add_nodes(v);
                log(ev::RING_RET, me, &[op, 0], "");
            }
            11 => {
                let op = fresh();
                let v = members(me, op, o[2], false);
                log(ev::RING, me, &[op, 4], "");
                ring.set_nodes(v);
                log(ev::RING_RET, me, &[op, 0], "");
            }
            12 => {
                let (op, x) = (fresh(), value(8 + key));
                log(ev::RING, me, &[op, 5, key as i64, x as i64], "");
                let r = ring.add_override(probe(key), x);
                log(ev::RING_RET, me, &[op, old(r)], "");
            }
            13 => {
                let op = fresh();
                log(ev::RING, me, &[op, 6, key as i64], "");
                let r = ring.remove_override(probe(key));
                log(ev::RING_RET, me, &[op, old(r)], "");
            }
            14 => {
                let op = fresh();
                let v = members(me, op, o[2], true);
                log(ev::RING, me, &[op, 7], "");
                ring.add_overrides(v);
                log(ev::RING_RET, me, &[op, 0], "");
            }
            15 => {
                let op = fresh();
                let v = members(me, op, o[2] & o[3], true);
                log(ev::RING, me, &[op, 8], "");
                ring.set_overrides(v);
                log(ev::RING_RET, me, &[op, 0], "");
            }
            16 if o[2] % 2 == 0 => {
                let op = fresh();
                log(ev::RING, me, &[op, 9], "");
                ring.clear();
                log(ev::RING_RET, me, &[op, 0], "");
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    Process::receive::<()>().await;
}
static READY: AtomicU32 = AtomicU32::new(0);
pub async fn c22() {
    let ring: Arc<HashRing<u64>> = Arc::new(HashRing::new());
    // The order of the nodes as seen from each probe: owners, removed one after another.
    for i in 0..PROBES {
        for n in 0..NODES {
            ring.add_node(n, n as u64);
        }
        let mut a = vec![i as i64];
        let mut packed = 0i64;
        for j in 0..NODES {
            let Some(x) = ring.find_node(probe(i)) else {
                bad(90, "a ring with members finds none");
                break;
            };
            packed |= (x as i64) << (4 * j);
            if ring.remove_node(x as u32) != Some(x) {
                bad(90, "a lookup returned something that is no member");
            }
        }
        a.push(packed);
        log(ev::RING_ORDER, 90, &a, "");
        if ring.find_node(probe(i)).is_some() {
            bad(90, "an empty ring finds a node");
        }
    }
    let k = 2 + p(0, 3);
    READY.store(1, Ordering::SeqCst);
    let r = ring.clone();
    core(k, false, move |i| script(r.clone(), i, k)).await;
    wait_done(k, 20_000).await;
    for _ in 0..2 {
        for i in 0..PROBES {
            lookup(&ring, 90, i + PROBES);
        }
    }
    for n in 0..NODES {
        let op = fresh();
        log(ev::RING, 90, &[op, 2, n as i64], "");
        let r = ring.remove_node(n);
        log(ev::RING_RET, 90, &[op, old(r)], "");
        lookup(&ring, 90, n + PROBES);
    }
}
