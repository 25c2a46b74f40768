//! What the scenarios with several nodes share, and C15: messages between them.
use std::net::SocketAddr;

use hydra::{Dest, Dests, Message, Node, NodeOptions, NodeState, Pid, Process, Reference, SystemMessage};
use serde::{Deserialize, Serialize};

use crate::w::*;

pub fn me_node() -> u32 {
    simapi::node()
}
pub fn inc() -> u32 {
    unsafe { simapi::sim_incarnation() }
}
pub fn nodes() -> u32 {
    unsafe { simapi::sim_node_count() }
}
pub fn node_name(n: u32) -> String {
    // A node is its name and its address: the name alone need not tell them apart.
    match crate::w::params()[31] % 5 {
        0 => "n".to_string(),
        1 => format!("n{}", n / 2),
        _ => format!("n{}", n),
    }
}
pub fn addr(n: u32) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, n as u8 + 1], 4000))
}
pub fn node(n: u32) -> Node {
    Node::from((node_name(n), addr(n)))
}
/// The number of a node, -1 if it is none of ours, -2 for the local one.
pub fn node_no(n: &Node) -> i64 {
    match n {
        Node::Local => -2,
        n => (0..nodes()).find(|i| *n == node(*i)).map(|i| i as i64).unwrap_or(-1),
    }
}
/// Machine time when everything began is 0: all nodes know it.
pub async fn until(t_ms: u64) {
    let t = now() / 1_000_000;
    if t < t_ms {
        sleep(t_ms - t).await;
    }
}
pub fn options(interval: u64, timeout: u64, handshake: u64) -> NodeOptions {
    NodeOptions::new()
        .listen_address(addr(me_node()))
        .broadcast_address(addr(me_node()))
        .heartbeat_interval(ms(interval))
        .heartbeat_timeout(ms(timeout))
        .handshake_timeout(ms(handshake))
}
/// Processes of other nodes are known without being told over the network: (incarnation, pid, alias).
pub fn publish(aid: u32, pid: Pid, alias: Reference) {
    let b = rmp_serde::to_vec(&(inc(), pid, alias)).unwrap();
    unsafe { simapi::sim_board_put(aid as u64, b.as_ptr(), b.len()) }
}
pub fn far(aid: u32) -> Option<(u32, Pid, Reference)> {
    let mut b = [0u8; 256];
    let n = unsafe { simapi::sim_board_get(aid as u64, b.as_mut_ptr(), b.len()) };
    if n < 0 {
        return None;
    }
    rmp_serde::from_slice(&b[..n as usize]).ok()
}
/// How this node sees another one, next to what is true.
pub fn look(me: u32, peer: u32) -> u32 {
    let state = |s: NodeState| Node::list_by_state(s).iter().filter(|n| **n == node(peer)).count();
    let (k, c, q) = (state(NodeState::Known), state(NodeState::Connected), state(NodeState::Pending));
    let all = Node::list().iter().filter(|n| **n == node(peer)).count();
    let s = if c > 0 {
        2
    } else if q > 0 {
        3
    } else if k > 0 {
        1
    } else {
        0
    };
    let mut i = [0u64; 3];
    unsafe { simapi::sim_net_info(peer, i.as_mut_ptr()) };
    log(ev::NODES, me, &[peer as i64, s, i[0] as i64, i[1] as i64, (i[2].min(1 << 60) / 1000) as i64, (all + 8 * (k + c + q)) as i64], "");
    s as u32
}
pub fn connect(me: u32, peer: u32) {
    log(ev::CONNECT, me, &[peer as i64, 0], "");
    Node::connect(node(peer));
    log(ev::CONNECT, me, &[peer as i64, 1], "");
}
pub fn disconnect(me: u32, peer: u32) {
    log(ev::DISCONNECT, me, &[peer as i64, 0], "");
    Node::disconnect(node(peer));
    log(ev::DISCONNECT, me, &[peer as i64, 1], "");
}
pub fn watch(me: u32, peer: u32) -> Reference {
    log(ev::NMON, me, &[peer as i64, 0], "");
    let r = Node::monitor(node(peer));
    log(ev::NMON, me, &[peer as i64, 1], "");
    r
}
/// Keeps a node monitored, which keeps it connected.
pub fn keeper(peer: u32, from_ms: u64, retry: u64) {
    let me = 100 * me_node() + 90 + peer;
    let k = Kid::new(me);
    Process::spawn(k.run(async move {
        until(from_ms).await;
        loop {
            let r = watch(me, peer);
            match Process::receive::<()>().await {
                Message::System(SystemMessage::NodeDown(n, x)) => {
                    if x != r || n != node(peer) {
                        bad(me, "a node monitor reported something else");
                    }
                    log(ev::NODE_DOWNMSG, me, &[peer as i64], "");
                }
                _ => bad(me, "unexpected message"),
            }
            sleep(retry).await;
        }
    }));
}
pub const SLOTS: u32 = 8;
/// The operations of an actor, by the slot of time they belong to.
pub fn slot_ops(i: u32, total: u32, slot: u32) -> Vec<Op> {
    ops().iter().filter(|o| o[1] % total == i && o[6] % SLOTS == slot).copied().collect()
}

// ------------------------------------------------------------------------------------- C15
#[derive(Serialize, Deserialize, Clone)]
pub enum D {
    Data { id: u64, body: Vec<u8>, text: String },
    /// A process, its alias and its node go on a journey.
    Carry { of: u32, of_inc: u32, pid: Pid, alias: Reference, node: Node, hops: Vec<u32> },
}
fn fresh_id(me: u32) -> u64 {
    (inc() as u64) << 40 | (me as u64) << 24 | fresh() as u64
}
fn text(id: u64, size: u32) -> String {
    let unit: String = (0..97).map(|i| (b'a' + ((id >> (i % 13)) as u8).wrapping_add(i as u8) % 26) as char).collect();
    let mut s = unit.repeat(size as usize / 97 + 1);
    s.truncate(size as usize);
    s
}
fn data(id: u64, size: u32) -> D {
    D::Data { id, body: body(id, size.min(50)), text: text(id, size) }
}
fn aid_at(i: u32, k: u32) -> u32 {
    100 * (i / k) + i % k
}
/// The way a process is addressed: (0 pid, 1 name, 2 alias)
fn dest_of(t: u32, how: u32) -> Option<(u32, Dest)> {
    let (i, pid, alias) = far(t)?;
    Some(match how % 3 {
        0 => (i, pid.into()),
        1 if t / 100 == me_node() => (0, format!("actor{}", t % 100).into()),
        1 => (0, (format!("actor{}", t % 100), node(t / 100)).into()),
        _ => (i, alias.into()),
    })
}
fn send_log(me: u32, id: u64, t: u32, i: u32, how: u32) {
    log(ev::SEND, me, &[id as i64, t as i64, i as i64, how as i64], "");
}
fn do_send(me: u32, t: u32, how: u32, size: u32) {
    let Some((i, d)) = dest_of(t, how) else { return };
    let id = fresh_id(me);
    let m = data(id, size);
    send_log(me, id, t, i, how % 3);
    if how / 3 % 4 == 0 {
        Process::send(Dests::from(vec![d]), m);
    } else {
        Process::send(d, m);
    }
    log(ev::SENT, me, &[id as i64], "");
}
fn handle(me: u32, m: D) {
    match m {
        D::Data { id, body: b, text: t } => {
            let ok = b == body(id, (t.len() as u32).min(50)) && t == text(id, t.len() as u32);
            log(ev::RECV, me, &[id as i64, ok as i64], "");
        }
        D::Carry { of, of_inc, pid, alias, node: n, mut hops } => {
            log(ev::NOTE, me, &[of as i64], "carried");
            if of == me && of_inc == inc() && pid != Process::current() {
                bad(me, "a pid came home as another one");
            }
            if of / 100 == me_node() && of_inc == inc() && n != Node::Local {
                bad(me, "a node came home as a remote one");
            }
            if of / 100 != me_node() && n != node(of / 100) {
                bad(me, "a node became another one on its way");
            }
            if of / 100 != me_node() && (pid.is_local() || alias.is_local()) {
                bad(me, "a remote pid or reference became a local one on its way");
            }
            match hops.pop() {
                Some(t) => {
                    if let Some((_, d)) = dest_of(t, of) {
                        Process::send(d, D::Carry { of, of_inc, pid, alias, node: n, hops });
                    }
                }
                None => {
                    for (how, d) in [(4, Dest::from(pid)), (5, Dest::from(alias))] {
                        let id = fresh_id(me);
                        send_log(me, id, of, of_inc, how);
                        Process::send(d, data(id, 3));
                        log(ev::SENT, me, &[id as i64], "");
                    }
                }
            }
        }
    }
}
async fn take(me: u32, upto: u64) {
    let t = now() + upto * 1_000_000;
    loop {
        let left = t.saturating_sub(now());
        if left == 0 {
            return;
        }
        match Process::timeout(ms(left / 1_000_000 + 1), Process::receive::<D>()).await {
            Ok(Message::User(m)) => handle(me, m),
            Ok(_) => bad(me, "unexpected system message"),
            Err(_) => return,
        }
    }
}
const SIZES: [u32; 8] = [0, 5, 40, 300, 2000, 9000, 40_000, 120_000];
async fn talker(i: u32, k: u32, slot_ms: u64, disc: bool) {
    let me = aid_at(i, k);
    let total = k * nodes();
    for slot in 0..SLOTS {
        let start = 20 + slot as u64 * slot_ms;
        let t = now() / 1_000_000;
        if t > start + slot_ms {
            continue;
        }
        if t < start {
            take(me, start - t).await;
        }
        for o in slot_ops(i, total, slot) {
            let t = aid_at(o[2] % total, k);
            match o[0] % 13 {
                0 | 1 | 2 => do_send(me, t, o[3], SIZES[o[4] as usize % 5]),
                12 => {
                    // A stream, most of it before the connection is there if there is none.
                    let n = [8, 40, 120, 400][o[4] as usize % 4];
                    for j in 0..n {
                        do_send(me, t, if o[5] / 4 % 3 == 0 { j } else { o[3] }, SIZES[o[5] as usize / 16 % 3]);
                        match o[5] % 4 {
                            0 => {}
                            1 => tokio::task::yield_now().await,
                            2 if j % 8 == 0 => tokio::task::yield_now().await,
                            _ if j < 60 => sleep(1).await,
                            _ => {}
                        }
                    }
                }
                3 => {
                    // Several at once, local and remote ones.
                    let id = fresh_id(me);
                    let mut v = Vec::new();
                    for x in 0..total {
                        let t = aid_at((x + o[5]) % total, k);
                        if o[2] >> x & 1 == 1 {
                            if let Some((i, d)) = dest_of(t, o[3] >> (2 * x)) {
                                v.push(d);
                                send_log(me, id, t, i, 100 + (o[3] >> (2 * x)) % 3);
                            }
                        }
                        if o[4] >> x & 7 == 7 {
                            v.push((format!("nobody{}", x), node(x % nodes())).into());
                        }
                    }
                    Process::send(Dests::from(v), data(id, SIZES[o[4] as usize % 6]));
                    log(ev::SENT, me, &[id as i64], "");
                }
                4 => {
                    for j in 0..2 + o[4] % 6 {
                        do_send(me, t, o[3] + j, SIZES[o[5] as usize % 8] / (1 + j));
                    }
                }
                5 | 6 => {
                    let of = aid_at(o[3] % total, k);
                    if let (Some((i, pid, alias)), Some((_, d))) = (far(of), dest_of(t, o[5])) {
                        let hops = (0..o[4] % 3).map(|h| aid_at((o[4] / 3 + h * o[5]) % total, k)).collect();
                        let n = if of / 100 == me_node() { Node::Local } else { node(of / 100) };
                        Process::send(d, D::Carry { of, of_inc: i, pid, alias, node: n, hops });
                    }
                }
                7 if t / 100 != me_node() => connect(me, t / 100),
                8 if t / 100 != me_node() && disc => disconnect(me, t / 100),
                9 if t / 100 != me_node() => {
                    look(me, t / 100);
                }
                10 => take(me, o[2] as u64 % 40).await,
                _ => pause(o[2]).await,
            }
        }
    }
    log(ev::SCRIPT_END, me, &[], "");
    loop {
        take(me, 10_000).await;
    }
}
/// Which heartbeats there are: (interval, timeout)
pub fn beats(x: u32) -> (u64, u64) {
    [(5000, 45_000), (200, 1500), (100, 600), (1000, 5000)][x as usize % 4]
}
pub async fn c15(faulty: bool) {
    let k = 1 + p(0, 3);
    let slot_ms = [30, 200, 500][p(1, 3) as usize];
    let (hb, ht) = if faulty { beats(params()[2]) } else { beats(0) };
    Node::set_cookie("cookie");
    Node::start(node_name(me_node()), options(hb, ht, 3000));
    for i in 0..k {
        let me = 100 * me_node() + i;
        actor(me, async move {
            let alias = Process::alias(false);
            if Process::register(Process::current(), format!("actor{}", i)).is_err() {
                bad(me, "cannot register a free name");
            }
            publish(me, Process::current(), alias);
            talker(me_node() * k + i, k, slot_ms, faulty && p(3, 3) == 0).await;
        });
    }
    for peer in 0..nodes() {
        // Who dials whom, and when.
        let w = params()[(4 + me_node() * 3 + peer) as usize];
        let dials = if peer > me_node() { w % 4 != 0 } else { faulty || p(3, 4) == 0 };
        if peer != me_node() && (dials || faulty) {
            keeper(peer, if w / 4 % 3 == 0 { 0 } else { w as u64 / 16 % (4 * slot_ms) }, 20 + w as u64 / 64 % 500);
        }
    }
    let end_ms = 20 + SLOTS as u64 * slot_ms + 200;
    until(end_ms).await;
    calm();
    until(end_ms + if faulty { 12_000 } else { 2500 }).await;
    for peer in 0..nodes() {
        if peer != me_node() {
            look(100 * me_node() + 99, peer);
        }
    }
    if me_node() != 0 {
        sleep(3_600_000).await;
    }
    sleep(1000).await;
}
