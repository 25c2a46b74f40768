//! C18: peers that do not behave.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

use hmac::{Hmac, Mac};
use hydra::{Message, Node, NodeState, Process, SystemMessage};
use serde::{Deserialize, Serialize};
use sha2::Sha256;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

use crate::dist::*;
use crate::w::*;

const EVIL: u32 = 2;
/// Where attack `j` says it is.
fn evil_addr(j: u32) -> std::net::SocketAddr {
    ([10, 0, 0, EVIL as u8 + 1], 5000 + j as u16).into()
}
fn evil_name(j: u32) -> String {
    format!("x{}", j)
}
fn evil(j: u32) -> Node {
    Node::from((evil_name(j), evil_addr(j)))
}
const START: u64 = 2500;
/// Stages of an attack.
const BEGIN: i64 = 0;
/// The proof was sent in full.
const PROVEN: i64 = 1;
/// The victim ended the connection.
const DROPPED: i64 = 2;
/// The attacker did.
const LEFT: i64 = 3;
/// The victim sent something else than a greeting (and heartbeats).
const TALKED: i64 = 4;
/// A message was sent, its id.
const SENT: i64 = 5;
const TOLD: i64 = 6;

#[derive(Serialize, Deserialize, Debug)]
enum D {
    Id(u64),
    Ping(u64),
    Pong(u64),
    At(Node, u64),
    /// Needs a list of numbers.
    Many(Vec<u64>, u64),
}
fn note(j: u32, stage: i64, a: &[i64]) {
    let mut v = vec![j as i64, stage];
    v.extend_from_slice(a);
    log(ev::HOSTILE, 0, &v, "");
}
// ------------------------------------------------------------------------ the wire
fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(body);
    v
}
fn str_(v: &mut Vec<u8>, s: &[u8]) {
    v.extend_from_slice(&(s.len() as u64).to_le_bytes());
    v.extend_from_slice(s);
}
fn mac(cookie: &[u8], name: &str, addr: std::net::SocketAddr) -> Vec<u8> {
    let mut m = Hmac::<Sha256>::new_from_slice(cookie).unwrap();
    m.update(name.as_bytes());
    m.update(addr.to_string().as_bytes());
    m.finalize().into_bytes().to_vec()
}
fn hello_with(name: &str, addr: std::net::SocketAddr, mac: &[u8]) -> Vec<u8> {
    let mut v = 0u32.to_le_bytes().to_vec();
    str_(&mut v, name.as_bytes());
    let std::net::SocketAddr::V4(a) = addr else { unreachable!() };
    v.extend_from_slice(&0u32.to_le_bytes());
    v.extend_from_slice(&a.ip().octets());
    v.extend_from_slice(&a.port().to_le_bytes());
    str_(&mut v, mac);
    frame(&v)
}
fn hello(cookie: &[u8], name: &str, addr: std::net::SocketAddr) -> Vec<u8> {
    hello_with(name, addr, &mac(cookie, name, addr))
}
fn named_send(name: &str, body: &[u8]) -> Vec<u8> {
    let mut v = 3u32.to_le_bytes().to_vec();
    v.extend_from_slice(&1u64.to_le_bytes());
    v.extend_from_slice(&1u32.to_le_bytes());
    str_(&mut v, name.as_bytes());
    str_(&mut v, body);
    frame(&v)
}
fn message(m: &D) -> Vec<u8> {
    named_send("victim", &rmp_serde::to_vec_named(m).unwrap())
}
fn tag(n: u32) -> Vec<u8> {
    frame(&n.to_le_bytes())
}
fn exit_frame(pid: u64) -> Vec<u8> {
    let mut v = 9u32.to_le_bytes().to_vec();
    v.extend_from_slice(&pid.to_le_bytes());
    v.extend_from_slice(&1u64.to_le_bytes());
    v.extend_from_slice(&1u32.to_le_bytes());
    frame(&v)
}
fn link_frame(pid: u64) -> Vec<u8> {
    let mut v = 7u32.to_le_bytes().to_vec();
    v.push(1);
    v.extend_from_slice(&pid.to_le_bytes());
    v.extend_from_slice(&1u64.to_le_bytes());
    frame(&v)
}
fn monitor_frame(install: bool, name: Option<&str>, pid: Option<u64>, from: Option<u64>) -> Vec<u8> {
    let mut v = 4u32.to_le_bytes().to_vec();
    v.push(install as u8);
    match pid {
        Some(p) => {
            v.push(1);
            v.extend_from_slice(&p.to_le_bytes());
        }
        None => v.push(0),
    }
    match name {
        Some(n) => {
            v.push(1);
            str_(&mut v, n.as_bytes());
        }
        None => v.push(0),
    }
    match from {
        Some(p) => {
            v.push(1);
            v.extend_from_slice(&p.to_le_bytes());
        }
        None => v.push(0),
    }
    v.extend_from_slice(&77u64.to_le_bytes());
    frame(&v)
}
fn noise(x: u32, n: usize) -> Vec<u8> {
    let mut s = x as u64 + 1;
    (0..n)
        .map(|_| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (s >> 33) as u8
        })
        .collect()
}
/// What no decoder may believe.
fn broken(x: u32) -> Vec<u8> {
    let y = x / 16;
    match x % 16 {
        0 => frame(&noise(y, 1 + y as usize % 40)),
        1 => noise(y, 5 + y as usize % 300),
        2 => [&0xffff_ffffu32.to_le_bytes()[..], &noise(y, y as usize % 3000)].concat(),
        3 => [&100_000_000u32.to_le_bytes()[..], &noise(y, y as usize % 3000)].concat(),
        // A name longer than everything.
        4 => frame(&[&0u32.to_le_bytes()[..], &(1u64 << (33 + y % 31)).to_le_bytes()[..], &[1; 40]].concat()),
        // More targets than there can be.
        5 => frame(&[&3u32.to_le_bytes()[..], &(1u64 << (28 + y % 35)).to_le_bytes()[..], &[0; 24]].concat()),
        // More monitors, links, than there can be.
        6 => frame(&[&5u32.to_le_bytes()[..], &(1u64 << (28 + y % 35)).to_le_bytes()[..], &[0; 24]].concat()),
        7 => frame(&[&8u32.to_le_bytes()[..], &(1u64 << (28 + y % 35)).to_le_bytes()[..], &[0; 24]].concat()),
        8 => tag(10 + y),
        9 => frame(&[]),
        10 => hello(b"cookie", "again", evil_addr(900)),
        11 => monitor_frame(true, None, None, Some(5)),
        12 => monitor_frame(true, Some("victim"), None, None),
        13 => monitor_frame(y % 2 == 0, None, Some(0), Some(0)),
        14 => link_frame(0),
        // A frame shorter than announced.
        _ => frame(&[&3u32.to_le_bytes()[..], &1u64.to_le_bytes()[..], &[1, 0]].concat()),
    }
}

// ------------------------------------------------------------------------ the attacker
/// What becomes of the connection after everything is said.
#[derive(Clone, Copy)]
enum Then {
    /// Stays, silently.
    Stay,
    /// Stays, with heartbeats.
    Beat(u64),
    Close,
    Reset,
    HalfClose,
}
struct Plan {
    /// What is said, each after a pause of so many us.
    say: Vec<(u64, Vec<u8>)>,
    /// After which part the proof is complete.
    proof: Option<usize>,
    then: Then,
    reflect: bool,
    /// Shows the greeting to the other node.
    relay: bool,
}
fn pieces(b: &[u8], how: u32) -> Vec<(u64, Vec<u8>)> {
    pieces_in(b, how, 4_000_000)
}
fn pieces_in(b: &[u8], how: u32, max_us: u64) -> Vec<(u64, Vec<u8>)> {
    let size = [b.len().max(1), 1, 2, 5, 13, 40][how as usize % 6];
    let wait = [0u64, 100, 3000, 20_000, 70_000][how as usize / 6 % 5];
    let n = b.len() / size + 1;
    // Not for ever.
    let wait = wait.min(max_us / n as u64);
    b.chunks(size).map(|c| (wait, c.to_vec())).collect()
}
static IDS: AtomicU32 = AtomicU32::new(1);
fn new_id(j: u32) -> u64 {
    (j as u64) << 20 | IDS.fetch_add(1, Ordering::SeqCst) as u64
}
/// A plan of attack `j`; `other` names of the peer that the victim wanted, if it dialled.
fn plan(j: u32, o: &Op, dialled: bool) -> (i64, Plan) {
    let (name, at) = (evil_name(j), evil_addr(j));
    let good = hello(b"cookie", &name, at);
    let mut p = Plan { say: Vec::new(), proof: None, then: Then::Stay, reflect: false, relay: false };
    let kind = if relays() { 22 } else { o[2] % 22 };
    let x = o[3];
    match kind {
        0 => {}
        1 => p.say = pieces(&good[..x as usize % good.len()], o[4]),
        2 => {
            p.say = pieces(&good, o[4]);
            p.proof = Some(p.say.len());
        }
        3 => {
            let c: &[u8] = [&b""[..], b"cooki", b"cookie2", b"Cookie", b"cookie "][x as usize % 5];
            p.say = pieces(&hello(c, &name, at), o[4]);
        }
        4 => {
            let (n2, a2) = match x % 4 {
                0 => (format!("{}a", name), at),
                1 => (name.clone(), evil_addr(j + 100)),
                2 => (node_name(0), addr(0)),
                _ => (node_name(1), addr(1)),
            };
            p.say = pieces(&hello_with(&n2, a2, &mac(b"cookie", &name, at)), o[4]);
        }
        5 => {
            let m = mac(b"cookie", &name, at);
            let m = match x % 5 {
                0 => Vec::new(),
                1 => vec![0; 32],
                2 => m[..x as usize / 5 % 32].to_vec(),
                3 => [&m[..], &[0]].concat(),
                _ => {
                    let mut m = m;
                    m[x as usize / 5 % 32] ^= 1 << (x / 160 % 8);
                    m
                }
            };
            p.say = pieces(&hello_with(&name, at, &m), o[4]);
        }
        6 => {
            let id = new_id(j);
            note(j, SENT, &[id as i64]);
            let f = match x % 5 {
                0 => tag(1),
                1 => monitor_frame(true, Some("victim"), None, Some(5)),
                2 => exit_frame(1 + x as u64 / 5 % 30),
                3 => link_frame(1 + x as u64 / 5 % 30),
                _ => Vec::new(),
            };
            p.say = pieces(&[f, message(&D::Id(id))].concat(), o[4]);
        }
        // One of these would be a valid greeting.
        7 | 8 => p.say = pieces(&broken(if x % 16 == 10 { x + 1 } else { x }), o[4]),
        9 => p.reflect = true,
        22 => p.relay = true,
        10 | 11 => {
            // Does not wait for the answer.
            let id = new_id(j);
            note(j, SENT, &[id as i64]);
            let b = [hello(b"wrong", &name, at), message(&D::Id(id)), exit_frame(1 + x as u64 % 40), link_frame(1 + x as u64 / 40 % 40), message(&D::Id(id))].concat();
            p.say = pieces(&b, o[4]);
        }
        12 | 13 => {
            let id = new_id(j);
            note(j, SENT, &[id as i64]);
            p.say = vec![(0, good.clone())];
            p.proof = Some(1);
            p.say.extend(pieces(&message(&D::Id(id)), o[4]));
        }
        14 | 15 => {
            p.say = vec![(0, good.clone()), (if x % 2 == 0 { 0 } else { 300_000 }, broken(x / 2))];
            p.proof = Some(1);
        }
        16 => {
            // Messages that are not what the process can read.
            let id = new_id(j);
            note(j, SENT, &[id as i64]);
            let bad = match x % 5 {
                0 => noise(x / 5, x as usize / 5 % 60),
                1 => {
                    #[derive(Serialize)]
                    struct W(String, Option<u32>);
                    rmp_serde::to_vec_named(&std::collections::BTreeMap::from([("At", (WireNode { name: "nohost".into(), address: None }, 5u64))])).unwrap()
                }
                2 => vec![0xdd, 0xff, 0xff, 0xff, 0xff, 1, 2],
                3 => [&[0x81, 0xa4][..], b"Many", &[0x92, 0xdd, 0xff, 0xff, 0xff, 0xff, 1]].concat(),
                _ => vec![0x91; 4000],
            };
            p.say = vec![(0, good.clone()), (0, named_send("victim", &bad)), (0, message(&D::Id(id)))];
            p.proof = Some(1);
        }
        17 => {
            // Stays for a long time, with heartbeats and messages.
            p.say = vec![(0, good.clone())];
            p.proof = Some(1);
            for i in 0..2 + x % 3 {
                let id = new_id(j);
                note(j, SENT, &[id as i64]);
                p.say.extend(pieces_in(&[tag(1 + i % 2), message(&D::Id(id))].concat(), o[4], 900_000));
            }
            p.then = Then::Beat(50);
        }
        18 | 19 => {
            let b = &good[..x as usize % (good.len() + 1)];
            p.say = pieces(b, o[4] % 12);
            p.then = [Then::Close, Then::Reset, Then::HalfClose][o[5] as usize % 3];
            if b.len() == good.len() {
                p.proof = Some(p.say.len());
            }
        }
        20 => {
            p.say = vec![(0, good.clone())];
            p.proof = Some(1);
            p.then = [Then::Close, Then::Reset, Then::HalfClose][x as usize % 3];
        }
        _ => {
            if dialled {
                // The right cookie but another identity than the one wanted.
                let (n2, a2) = if x % 2 == 0 { (format!("{}z", name), at) } else { (name.clone(), evil_addr(j + 200)) };
                p.say = pieces(&hello(b"cookie", &n2, a2), o[4]);
            } else {
                // Does not wait for the answer.
                let id = new_id(j);
                note(j, SENT, &[id as i64]);
                p.say = pieces(&[good.clone(), message(&D::Id(id))].concat(), o[4]);
                p.proof = Some(1);
            }
        }
    }
    (kind as i64, p)
}
#[derive(Serialize)]
struct WireNode {
    name: String,
    address: Option<std::net::SocketAddr>,
}
/// Says it all, and sees what comes.
async fn attack(j: u32, victim: u32, s: TcpStream, p: Plan, max_ms: u64) {
    let (mut r, mut w) = s.into_split();
    let (tx, mut got) = tokio::sync::mpsc::unbounded_channel::<Option<Vec<u8>>>();
    // What came in, as frames.
    let reader = tokio::spawn(async move {
        let mut buf = Vec::new();
        let mut b = [0u8; 4096];
        let mut first = true;
        loop {
            match r.read(&mut b).await {
                Ok(n) if n > 0 => {
                    buf.extend_from_slice(&b[..n]);
                    while buf.len() >= 4 {
                        let l = u32::from_le_bytes(buf[..4].try_into().unwrap()) as usize;
                        if buf.len() < 4 + l {
                            break;
                        }
                        let f: Vec<u8> = buf.drain(..4 + l).collect();
                        let t = f.get(4).copied().unwrap_or(255);
                        if first {
                            first = false;
                            if t != 0 {
                                bad(j, "the first frame of a node is no greeting");
                            }
                            let _ = tx.send(Some(f));
                        } else if t != 1 && t != 2 {
                            note(j, TALKED, &[t as i64]);
                        }
                    }
                }
                _ => break,
            }
        }
        note(j, DROPPED, &[]);
        let _ = tx.send(None);
    });
    let t0 = now();
    let mut ok = true;
    if p.proof == Some(0) {
        note(j, PROVEN, &[]);
    }
    for (i, (wait, b)) in p.say.iter().enumerate() {
        if *wait > 0 {
            tokio::time::sleep(std::time::Duration::from_micros(*wait)).await;
        }
        if p.proof == Some(i + 1) {
            note(j, PROVEN, &[]);
        }
        if w.write_all(b).await.is_err() {
            ok = false;
            note(j, DROPPED, &[]);
            break;
        }
    }
    if ok {
        note(j, TOLD, &[]);
    }
    if p.reflect {
        if let Some(Some(f)) = got.recv().await {
            ok = w.write_all(&f).await.is_ok();
            let id = new_id(j);
            note(j, SENT, &[id as i64]);
            let _ = w.write_all(&message(&D::Id(id))).await;
        }
    }
    if p.relay {
        if let Some(Some(f)) = got.recv().await {
            if let Ok(mut s) = TcpStream::connect(addr(1 - victim)).await {
                let id = new_id(j);
                note(j, SENT, &[id as i64]);
                let _ = s.write_all(&[f, message(&D::Id(id))].concat()).await;
                sleep(300).await;
            }
        }
    }
    if ok {
        match p.then {
            Then::Stay => {
                let left = max_ms.saturating_sub((now() - t0) / 1_000_000);
                let _ = tokio::time::timeout(ms(left), async { while let Some(Some(_)) = got.recv().await {} }).await;
                note(j, LEFT, &[]);
            }
            Then::Beat(every) => {
                let t1 = now() + max_ms / 2 * 1_000_000;
                while now() < t1 {
                    sleep(every).await;
                    if w.write_all(&tag(1)).await.is_err() {
                        break;
                    }
                }
                note(j, LEFT, &[]);
            }
            Then::Close => {
                note(j, LEFT, &[]);
            }
            Then::Reset => {
                note(j, LEFT, &[]);
                w.as_ref().sim_reset();
            }
            Then::HalfClose => {
                note(j, LEFT, &[]);
                let _ = w.shutdown().await;
                let _ = tokio::time::timeout(ms(max_ms), async { while let Some(Some(_)) = got.recv().await {} }).await;
            }
        }
    }
    reader.abort();
}
/// Only greetings of others, shown again.
fn relays() -> bool {
    unsafe { simapi::sim_scenario() == 181 }
}
fn times() -> (u64, u64, u64, u64) {
    let (hb, ht) = [(100, 600), (200, 1500), (1000, 5000)][p(0, 3) as usize];
    (hb, ht, [300, 800, 2000][p(1, 3) as usize], [50, 200, 600][p(2, 3) as usize])
}
fn quiet_at() -> u64 {
    let (_, ht, hs, slot) = times();
    START + (SLOTS as u64 + 1) * slot + 3 * hs.max(ht) + 6500
}
/// Attacks that the victim begins itself: by the number of the operation.
fn dialled(o: &Op) -> bool {
    relays() || o[0] % 3 == 0
}
fn when(o: &Op) -> u64 {
    START + (o[6] % SLOTS) as u64 * times().3 + o[7] as u64 % times().3
}
async fn attacker() {
    let (_, ht, hs, _) = times();
    let max = 3 * hs.max(ht) + 1000;
    for (j, o) in ops().iter().enumerate() {
        let (j, o) = (j as u32, *o);
        let victim = o[1] % 2;
        if dialled(&o) {
            if o[5] % 8 == 0 {
                // Nobody there.
                continue;
            }
            tokio::spawn(async move {
                let Ok(l) = TcpListener::bind(evil_addr(j)).await else {
                    bad(j, "cannot listen");
                    return;
                };
                loop {
                    let Ok((s, _)) = l.accept().await else { continue };
                    let (kind, p) = plan(j, &o, true);
                    note(j, BEGIN, &[kind, victim as i64, 1]);
                    tokio::spawn(attack(j, victim, s, p, max));
                }
            });
        } else {
            tokio::spawn(async move {
                until(when(&o)).await;
                let Ok(s) = TcpStream::connect(addr(victim)).await else {
                    bad(j, "a node does not accept");
                    return;
                };
                let (kind, p) = plan(j, &o, false);
                note(j, BEGIN, &[kind, victim as i64, 0]);
                attack(j, victim, s, p, max).await;
            });
        }
    }
    until(quiet_at() + 200).await;
    // Something decent, in the end.
    Node::set_cookie("cookie");
    let (hb, ht, hs, _) = times();
    Node::start(node_name(EVIL), options(hb, ht, hs));
    actor(100 * EVIL, async move {
        for v in 0..2 {
            Node::monitor(node(v));
        }
        for v in 0..2u32 {
            Process::send(("victim", node(v)), D::Id(1 << 40 | v as u64));
        }
        loop {
            match Process::receive::<D>().await {
                Message::System(SystemMessage::NodeDown(n, _)) => log(ev::NODE_DOWNMSG, 100 * EVIL, &[node_no(&n)], ""),
                _ => {}
            }
        }
    });
    sleep(3_600_000).await
}
static PONGS: AtomicU64 = AtomicU64::new(0);
fn table(stage: i64) {
    for s in [NodeState::Connected, NodeState::Pending] {
        let c = (s == NodeState::Connected) as i64;
        for n in Node::list_by_state(s) {
            let j = (0..ops().len() as u32).find(|j| n == evil(*j)).map(|j| j as i64).unwrap_or(-1);
            let known = node_no(&n);
            log(ev::NODES, 100 * me_node(), &[known, c, j, stage], &format!("{:?}", n));
        }
    }
}
/// A node that only wants to be left alone.
async fn victim() {
    let me = 100 * me_node();
    let other = 1 - me_node();
    let (hb, ht, hs, _) = times();
    Node::set_cookie("cookie");
    Node::start(node_name(me_node()), options(hb, ht, hs));
    actor(me, async move {
        if Process::register(Process::current(), "victim").is_err() {
            bad(me, "cannot register");
        }
        loop {
            match Process::receiver().for_message::<D>().receive().await {
                Message::User(D::Id(id)) => log(ev::RECV, me, &[id as i64], ""),
                Message::User(D::Ping(n)) => Process::send(("pinger", node(other)), D::Pong(n)),
                Message::User(D::Pong(_)) | Message::User(D::At(..)) | Message::User(D::Many(..)) => {}
                _ => bad(me, "the victim received a signal"),
            }
        }
    });
    actor(me + 1, async move {
        if Process::register(Process::current(), "pinger").is_err() {
            bad(me, "cannot register");
        }
        until(100).await;
        if me_node() == 0 {
            keeper(1, 0, 20);
        }
        until(1800).await;
        let mut n = 0;
        loop {
            n += 1;
            Process::send(("victim", node(other)), D::Ping(n));
            let r = Process::timeout(ms(400), async {
                loop {
                    match Process::receive::<D>().await {
                        Message::User(D::Pong(x)) if x == n => break,
                        Message::User(_) => {}
                        _ => bad(me + 1, "the pinger received a signal"),
                    }
                }
            })
            .await;
            if r.is_err() {
                log(ev::PROBE_RET, me + 1, &[n as i64, 0], "");
            } else {
                PONGS.fetch_add(1, Ordering::SeqCst);
            }
            sleep(40).await;
        }
    });
    until(START - 50).await;
    let before = Process::list().len();
    for (j, o) in ops().iter().enumerate() {
        let (j, o) = (j as u32, *o);
        if !dialled(&o) || o[1] % 2 != me_node() {
            continue;
        }
        let me = me + 10 + j % 40;
        Process::spawn(async move {
            until(when(&o)).await;
            log(ev::NMON, me, &[j as i64, 0], "");
            let r = Node::monitor(evil(j));
            Process::send(("nobody", evil(j)), D::Id(9));
            log(ev::NMON, me, &[j as i64, 1], "");
            if o[7] % 4 == 0 {
                sleep(o[5] as u64 % 400).await;
                log(ev::DISCONNECT, me, &[j as i64, 0], "");
                Node::disconnect(evil(j));
            }
            match Process::receive::<D>().await {
                Message::System(SystemMessage::NodeDown(n, x)) if n == evil(j) && x == r => log(ev::NODE_DOWNMSG, me, &[j as i64], ""),
                _ => bad(me, "unexpected message"),
            }
        });
    }
    let mut t = START;
    while t < quiet_at() - 100 {
        until(t).await;
        table(0);
        t += 130;
    }
    until(quiet_at()).await;
    table(1);
    let after = Process::list().len();
    log(ev::LEAK, me, &[before as i64, after as i64, PONGS.load(Ordering::SeqCst) as i64], "");
    until(quiet_at() + 200 + hs + 1500).await;
    table(2);
    sleep(10).await;
    if me_node() != 0 {
        sleep(3_600_000).await;
    }
    sleep(50).await;
}
pub async fn c18() {
    if me_node() == EVIL {
        attacker().await;
    } else {
        victim().await;
    }
}
