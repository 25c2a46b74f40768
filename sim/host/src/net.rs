//! Simulated TCP between the machines of a run (machine i has address 10.0.0.(i+1)).
use std::collections::VecDeque;

use crate::shm::*;
use crate::sim::*;

const EAGAIN: i64 = -(libc::EAGAIN as i64);
const ECONNRESET: i32 = libc::ECONNRESET;
const ECONNREFUSED: i32 = libc::ECONNREFUSED;
const EPIPE: i64 = -(libc::EPIPE as i64);
const LISTEN: i64 = 1 << 40;

pub struct Seg {
    at: u64,
    data: Vec<u8>,
    fin: bool,
    rst: bool,
}
pub struct Side {
    pub node: usize,
    pub inc: u32,
    port: u16,
    rtok: u64,
    wtok: u64,
    /// The handle is open on this side.
    open: bool,
    /// Bytes arrived and not yet read.
    rbuf: VecDeque<u8>,
    eof: bool,
    err: i32,
    /// This side has shut down its sending direction.
    fin_sent: bool,
    /// Segments under way to this side.
    inflight: VecDeque<Seg>,
    last_at: u64,
    /// Bytes sent by this side which the peer has not read yet.
    unread: usize,
    want_write: bool,
    nseg: u64,
}
impl Side {
    fn new(node: usize, inc: u32, port: u16) -> Side {
        Side {
            node,
            inc,
            port,
            rtok: 0,
            wtok: 0,
            open: true,
            rbuf: VecDeque::new(),
            eof: false,
            err: 0,
            fin_sent: false,
            inflight: VecDeque::new(),
            last_at: 0,
            unread: 0,
            want_write: false,
            nseg: 0,
        }
    }
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum ConnState {
    Connecting,
    Up,
    Failed(i32),
}
pub struct Conn {
    state: ConnState,
    side: [Side; 2],
    accepted: bool,
}
struct Listener {
    node: usize,
    inc: u32,
    port: u16,
    token: u64,
    open: bool,
    backlog: VecDeque<usize>,
}
pub struct Net {
    conns: Vec<Conn>,
    listeners: Vec<Listener>,
    /// Traffic from a to b does not arrive before this time.
    pub stall: Vec<Vec<u64>>,
    /// (until, extra latency)
    pub slow: Vec<Vec<(u64, u64)>>,
    pub refuse: Vec<Vec<u64>>,
    /// Machine is down (does not answer at all) since a silent crash.
    pub silent: Vec<bool>,
    next_port: u16,
    /// When a had its last established connection to b.
    last_open: Vec<Vec<u64>>,
    trace: bool,
}
impl Net {
    pub fn new(n: usize) -> Net {
        Net {
            conns: Vec::new(),
            listeners: Vec::new(),
            stall: vec![vec![0; n]; n],
            slow: vec![vec![(0, 0); n]; n],
            refuse: vec![vec![0; n]; n],
            silent: vec![false; n],
            next_port: 30000,
            last_open: vec![vec![u64::MAX; n]; n],
            trace: false,
        }
    }
}

fn ip_of(node: usize) -> u32 {
    0x0a00_0001 + node as u32
}
fn machine(s: &Sim, ip: u32, me: usize) -> Option<usize> {
    if ip == 0 || ip >> 24 == 127 {
        return Some(me);
    }
    let n = ip.wrapping_sub(0x0a00_0001) as usize;
    if n < s.nodes.len() {
        Some(n)
    } else {
        None
    }
}
fn latency(s: &Sim, a: usize, b: usize, conn: usize, dir: usize, seg: u64) -> u64 {
    let mut l = if a == b { s.spec.lat_base / 8 } else { s.spec.lat_base };
    if s.spec.lat_jitter > 0 {
        l += s.derive(0x1a7, (conn * 2 + dir) as u64, seg) % s.spec.lat_jitter;
    }
    if s.net.slow[a][b].0 > s.now {
        l += s.net.slow[a][b].1;
    }
    if s.calm {
        l = l.min(MS);
    }
    l.max(US)
}
/// Queues a segment from side `from` of the connection.
fn send(s: &mut Sim, conn: usize, from: usize, data: Vec<u8>, fin: bool, rst: bool) {
    let to = 1 - from;
    let (a, b) = (s.net.conns[conn].side[from].node, s.net.conns[conn].side[to].node);
    let n = s.net.conns[conn].side[from].nseg;
    s.net.conns[conn].side[from].nseg += 1;
    let lat = latency(s, a, b, conn, from, n);
    let mut at = s.now + lat;
    if s.net.stall[a][b] > s.now {
        // Retransmitted after the stall.
        at = at.max(s.net.stall[a][b] + lat);
    }
    let side = &mut s.net.conns[conn].side[to];
    at = at.max(side.last_at);
    side.last_at = at;
    side.inflight.push_back(Seg { at, data, fin, rst });
    Shm::get().stats.net_segments += 1;
    s.at(at, Ev::NetArrive { conn, to });
}
fn post_read(s: &mut Sim, conn: usize, side: usize) {
    let x = &s.net.conns[conn].side[side];
    if x.open && x.rtok != 0 {
        let (n, i, t) = (x.node, x.inc, x.rtok);
        s.post(n, i, t);
    }
}
fn post_write(s: &mut Sim, conn: usize, side: usize) {
    let x = &s.net.conns[conn].side[side];
    if x.open && x.wtok != 0 {
        let (n, i, t) = (x.node, x.inc, x.wtok);
        s.post(n, i, t);
    }
}
/// In the quiet phase at the end the network catches up.
pub fn calm(s: &mut Sim) {
    for c in 0..s.net.conns.len() {
        for k in 0..2 {
            if std::mem::take(&mut s.net.conns[c].side[k].want_write) {
                post_write(s, c, k);
            }
        }
    }
}
pub fn arrive(s: &mut Sim, conn: usize, to: usize) {
    let from = 1 - to;
    let mut readable = false;
    let mut broken = false;
    loop {
        let now = s.now;
        let (a, b) = (s.net.conns[conn].side[from].node, s.net.conns[conn].side[to].node);
        let Some(first) = s.net.conns[conn].side[to].inflight.front() else { break };
        if first.at > now {
            break;
        }
        // A stall that began while it was under way.
        if s.net.stall[a][b] > now {
            let until = s.net.stall[a][b] + US;
            let side = &mut s.net.conns[conn].side[to];
            for g in side.inflight.iter_mut() {
                g.at = g.at.max(until);
            }
            side.last_at = side.last_at.max(until);
            s.at(until, Ev::NetArrive { conn, to });
            break;
        }
        let seg = s.net.conns[conn].side[to].inflight.pop_front().unwrap();
        if s.net.silent[b] {
            continue;
        }
        let side = &mut s.net.conns[conn].side[to];
        if side.err != 0 {
            continue;
        }
        if seg.rst {
            side.err = ECONNRESET;
            readable = true;
            broken = true;
            continue;
        }
        if !side.open {
            // Data for a closed socket is answered with a reset.
            if !seg.data.is_empty() {
                send(s, conn, to, Vec::new(), false, true);
            }
            continue;
        }
        if !seg.data.is_empty() {
            side.rbuf.extend(seg.data.iter());
            readable = true;
        }
        if seg.fin {
            side.eof = true;
            readable = true;
        }
    }
    if readable {
        post_read(s, conn, to);
    }
    if broken {
        post_write(s, conn, to);
    }
}
pub fn syn(s: &mut Sim, conn: usize, try_no: u32) {
    let (a, b) = (s.net.conns[conn].side[0].node, s.net.conns[conn].side[1].node);
    if s.net.conns[conn].state != ConnState::Connecting || !s.net.conns[conn].side[0].open {
        return;
    }
    let port = s.net.conns[conn].side[1].port;
    let lost = s.net.silent[b] || s.net.stall[a][b] > s.now || s.net.stall[b][a] > s.now;
    if lost {
        // Retransmissions after 1, 2, 4, ... s; then a timeout.
        if try_no >= 6 {
            s.at(s.now + SEC, Ev::NetSynAck { conn, err: libc::ETIMEDOUT });
        } else {
            s.at(s.now + (SEC << try_no), Ev::NetSyn { conn, try_no: try_no + 1 });
        }
        return;
    }
    let lat = latency(s, b, a, conn, 1, 1 << 40);
    let at = s.now + lat;
    let refused = s.net.refuse[a][b] > s.now;
    if refused {
        Shm::get().stats.faults[simapi::fault::REFUSE as usize] += 1;
    }
    let inc = s.nodes[b].inc;
    let alive = s.nodes[b].alive;
    let l = s.net.listeners.iter().position(|l| alive && l.open && l.node == b && l.inc == inc && l.port == port);
    match l {
        Some(i) if !refused && s.net.listeners[i].backlog.len() < 128 => {
            s.net.conns[conn].side[1].inc = inc;
            s.net.listeners[i].backlog.push_back(conn);
            s.net.conns[conn].accepted = true;
            if s.net.trace {
                s.rec(simapi::ev::NET_UP, 0, &[conn as i64, a as i64, b as i64], "", b, inc);
            }
            let t = s.net.listeners[i].token;
            s.post(b, inc, t);
            s.net.conns[conn].side[0].last_at = at;
            s.at(at, Ev::NetSynAck { conn, err: 0 });
        }
        _ => {
            s.at(at, Ev::NetSynAck { conn, err: ECONNREFUSED });
        }
    }
}
pub fn syn_ack(s: &mut Sim, conn: usize, err: i32) {
    let c = &mut s.net.conns[conn];
    if c.state != ConnState::Connecting {
        return;
    }
    c.state = if err == 0 { ConnState::Up } else { ConnState::Failed(err) };
    post_write(s, conn, 0);
}

// ------------------------------------------------------------------ faults
pub fn heal(_s: &mut Sim) {}
pub fn stall(s: &mut Sim, a: usize, b: usize, until: u64) -> bool {
    s.net.stall[a][b] = s.net.stall[a][b].max(until);
    s.net.conns.iter().any(|c| {
        matches!(c.state, ConnState::Up | ConnState::Connecting)
            && c.side.iter().any(|x| x.open)
            && (c.side[0].node == a && c.side[1].node == b || c.side[0].node == b && c.side[1].node == a)
    })
}
pub fn reset(s: &mut Sim, a: usize, b: usize) -> bool {
    let mut any = false;
    for i in 0..s.net.conns.len() {
        let c = &s.net.conns[i];
        if c.state != ConnState::Up || !c.side[0].open && !c.side[1].open {
            continue;
        }
        let (x, y) = (c.side[0].node, c.side[1].node);
        if (x == a && y == b) || (x == b && y == a) {
            any = true;
            for k in 0..2 {
                // What is under way is lost.
                let side = &mut s.net.conns[i].side[k];
                side.inflight.clear();
                if side.err == 0 {
                    side.err = ECONNRESET;
                }
                post_read(s, i, k);
                post_write(s, i, k);
            }
        }
    }
    any
}
pub fn half_close(s: &mut Sim, a: usize, b: usize) -> bool {
    for i in 0..s.net.conns.len() {
        let c = &s.net.conns[i];
        if c.state != ConnState::Up || !c.side[0].open || !c.side[1].open {
            continue;
        }
        for k in 0..2 {
            if s.net.conns[i].side[k].node == a && s.net.conns[i].side[1 - k].node == b && !s.net.conns[i].side[k].fin_sent {
                s.net.conns[i].side[k].fin_sent = true;
                send(s, i, k, Vec::new(), true, false);
                post_write(s, i, k);
                return true;
            }
        }
    }
    false
}
/// how: 0 the operating system closes the sockets, 1 it resets them, 2 the machine disappears.
pub fn node_down(s: &mut Sim, n: usize, how: u32) {
    let silent = how == 2;
    for i in 0..s.net.conns.len() {
        for k in 0..2 {
            let x = &s.net.conns[i];
            if k == 1 && !x.accepted && x.state == ConnState::Connecting {
                continue;
            }
            if x.side[k].node == n && x.side[k].open {
                if silent {
                    note_open(s, i, k);
                    s.net.conns[i].side[k].open = false;
                    if s.net.trace {
                        let inc = s.net.conns[i].side[k].inc;
                        s.rec(simapi::ev::NET_CLOSE, 0, &[i as i64, n as i64], "", n, inc);
                    }
                    s.net.conns[i].side[k].fin_sent = true;
                    s.net.conns[i].side[k].inflight.clear();
                    s.net.conns[i].side[1 - k].inflight.clear();
                } else {
                    close_side(s, i, k, how == 1);
                }
            }
        }
    }
    for l in s.net.listeners.iter_mut() {
        if l.node == n {
            l.open = false;
        }
    }
    s.net.silent[n] = silent;
}
/// A machine that had disappeared is back: it resets connections it does not know.
pub fn machine_up(s: &mut Sim, n: usize) {
    if !s.net.silent[n] {
        return;
    }
    s.net.silent[n] = false;
    for i in 0..s.net.conns.len() {
        for k in 0..2 {
            let x = &s.net.conns[i].side;
            if x[k].node == n && !x[k].open && x[1 - k].open && x[1 - k].unread > 0 {
                send(s, i, k, Vec::new(), false, true);
            }
        }
    }
}
fn note_open(s: &mut Sim, conn: usize, k: usize) {
    let c = &s.net.conns[conn];
    if c.state == ConnState::Up && c.side[k].open {
        let (a, b) = (c.side[k].node, c.side[1 - k].node);
        s.net.last_open[a][b] = s.now;
    }
}
fn close_side(s: &mut Sim, conn: usize, k: usize, abort: bool) {
    note_open(s, conn, k);
    let c = &mut s.net.conns[conn];
    if !c.side[k].open {
        return;
    }
    s.net.conns[conn].side[k].open = false;
    let c = &s.net.conns[conn];
    let (n, inc) = (c.side[k].node, c.side[k].inc);
    if s.net.trace {
        s.rec(simapi::ev::NET_CLOSE, 0, &[conn as i64, n as i64], "", n, inc);
    }
    let c = &s.net.conns[conn];
    if c.state != ConnState::Up && k == 0 && !c.accepted {
        return;
    }
    let unread = !s.net.conns[conn].side[k].rbuf.is_empty();
    let c = &mut s.net.conns[conn];
    if c.side[k].err != 0 {
        return;
    }
    if abort || unread {
        send(s, conn, k, Vec::new(), false, true);
    } else if !c.side[k].fin_sent {
        c.side[k].fin_sent = true;
        send(s, conn, k, Vec::new(), true, false);
    }
}

// ------------------------------------------------------------------ entry points
macro_rules! cur {
    () => {{
        let p = CUR.with(|c| c.get());
        if p.is_null() {
            host_error("network call outside a simulated thread");
        }
        unsafe { &mut *p }
    }};
}
#[no_mangle]
pub extern "C" fn sim_net_bind(_ip: u32, port: u16, token: u64) -> i64 {
    let _h = Host::enter();
    let t = cur!();
    let s = sim();
    let mut port = port;
    if port == 0 {
        s.net.next_port += 1;
        port = s.net.next_port;
    }
    if s.net.listeners.iter().any(|l| l.open && l.node == t.node && l.inc == t.inc && l.port == port) {
        return -(libc::EADDRINUSE as i64);
    }
    s.net.listeners.push(Listener { node: t.node, inc: t.inc, port, token, open: true, backlog: VecDeque::new() });
    LISTEN + s.net.listeners.len() as i64 - 1
}
#[no_mangle]
pub unsafe extern "C" fn sim_net_accept(h: i64, ip: *mut u32, port: *mut u16, rtok: u64, wtok: u64) -> i64 {
    let _h = Host::enter();
    let s = sim();
    let l = (h - LISTEN) as usize;
    match s.net.listeners[l].backlog.pop_front() {
        None => EAGAIN,
        Some(c) => {
            let x = &mut s.net.conns[c];
            x.side[1].rtok = rtok;
            x.side[1].wtok = wtok;
            *ip = ip_of(x.side[0].node);
            *port = x.side[0].port;
            Shm::get().stats.net_conns += 1;
            (c * 2 + 1) as i64
        }
    }
}
#[no_mangle]
pub extern "C" fn sim_net_connect(ip: u32, port: u16, rtok: u64, wtok: u64) -> i64 {
    let _h = Host::enter();
    let t = cur!();
    let s = sim();
    let Some(b) = machine(s, ip, t.node) else {
        return -(libc::ENETUNREACH as i64);
    };
    s.net.next_port += 1;
    let mine = s.net.next_port;
    let c = s.net.conns.len();
    let mut a = Side::new(t.node, t.inc, mine);
    a.rtok = rtok;
    a.wtok = wtok;
    let peer = Side::new(b, s.nodes[b].inc, port);
    s.net.conns.push(Conn { state: ConnState::Connecting, side: [a, peer], accepted: false });
    let lat = latency(s, t.node, b, c, 0, 1 << 40);
    s.at(s.now + lat, Ev::NetSyn { conn: c, try_no: 0 });
    (c * 2) as i64
}
#[no_mangle]
pub extern "C" fn sim_net_connected(h: i64) -> i64 {
    match sim().net.conns[h as usize / 2].state {
        ConnState::Connecting => -(libc::EINPROGRESS as i64),
        ConnState::Up => 0,
        ConnState::Failed(e) => -(e as i64),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sim_net_read(h: i64, buf: *mut u8, len: usize, peek: u32) -> i64 {
    let _h = Host::enter();
    let s = sim();
    let (c, k) = (h as usize / 2, h as usize % 2);
    let side = &mut s.net.conns[c].side[k];
    if side.rbuf.is_empty() {
        if side.eof {
            return 0;
        }
        if side.err != 0 {
            return -(side.err as i64);
        }
        return EAGAIN;
    }
    let mut n = side.rbuf.len().min(len);
    if s.spec.frag >= 2 {
        let r = s.derive(0xf4a6, (c * 2 + k) as u64, s.net.conns[c].side[k].rbuf.len() as u64);
        if r % 4 == 0 {
            n = n.min(1 + (r >> 8) as usize % 7);
        }
    }
    let side = &mut s.net.conns[c].side[k];
    for i in 0..n {
        *buf.add(i) = if peek == 1 { side.rbuf[i] } else { side.rbuf.pop_front().unwrap() };
    }
    if peek == 0 {
        let p = &mut s.net.conns[c].side[1 - k];
        p.unread = p.unread.saturating_sub(n);
        if p.want_write {
            p.want_write = false;
            post_write(s, c, 1 - k);
        }
    }
    n as i64
}
#[no_mangle]
pub unsafe extern "C" fn sim_net_write(h: i64, buf: *const u8, len: usize) -> i64 {
    let _h = Host::enter();
    let s = sim();
    let (c, k) = (h as usize / 2, h as usize % 2);
    // In the quiet phase at the end the network catches up.
    let cap = if s.calm { 1 << 20 } else { s.spec.sndbuf.max(16) as usize };
    let x = &mut s.net.conns[c].side[k];
    if x.err != 0 {
        return if x.err == ECONNRESET { -(ECONNRESET as i64) } else { EPIPE };
    }
    if x.fin_sent {
        return EPIPE;
    }
    if x.unread >= cap {
        x.want_write = true;
        return EAGAIN;
    }
    let n = len.min(cap - x.unread);
    x.unread += n;
    Shm::get().stats.net_bytes += n as u64;
    let data = std::slice::from_raw_parts(buf, n);
    let mut at = 0;
    while at < n {
        let left = n - at;
        let mut k2 = left;
        if s.spec.frag >= 1 {
            let r = s.derive(0xf4a7, (c * 2 + k) as u64, s.net.conns[c].side[k].nseg);
            k2 = match r % 4 {
                0 => left,
                1 => 1 + (r >> 8) as usize % left,
                2 => left.min(1 + (r >> 8) as usize % 16),
                _ => left.min(1400),
            };
            if s.net.conns[c].side[k].nseg > 400 {
                k2 = left;
            }
        }
        send(s, c, k, data[at..at + k2].to_vec(), false, false);
        at += k2;
    }
    n as i64
}
#[no_mangle]
pub extern "C" fn sim_net_shutdown(h: i64) -> i64 {
    let _h = Host::enter();
    let s = sim();
    let (c, k) = (h as usize / 2, h as usize % 2);
    if s.net.conns[c].state != ConnState::Up && k == 0 {
        return -(libc::ENOTCONN as i64);
    }
    let x = &mut s.net.conns[c].side[k];
    if x.err != 0 || x.fin_sent {
        return 0;
    }
    x.fin_sent = true;
    send(s, c, k, Vec::new(), true, false);
    0
}
#[no_mangle]
pub extern "C" fn sim_net_close(h: i64, abort: u32) {
    let _h = Host::enter();
    let s = sim();
    if h >= LISTEN {
        let l = (h - LISTEN) as usize;
        s.net.listeners[l].open = false;
        while let Some(c) = s.net.listeners[l].backlog.pop_front() {
            close_side(s, c, 1, true);
        }
        return;
    }
    let (c, k) = (h as usize / 2, h as usize % 2);
    close_side(s, c, k, abort != 0);
}
#[no_mangle]
pub unsafe extern "C" fn sim_net_addr(h: i64, side: u32, ip: *mut u32, port: *mut u16) -> i64 {
    let s = sim();
    let (c, k) = (h as usize / 2, h as usize % 2);
    let k = if side == 0 { k } else { 1 - k };
    let x = &s.net.conns[c].side[k];
    *ip = ip_of(x.node);
    *port = x.port;
    0
}

#[no_mangle]
pub extern "C" fn sim_net_trace() {
    let _h = Host::enter();
    sim().net.trace = true;
}
#[no_mangle]
pub unsafe extern "C" fn sim_net_info(peer: u32, out: *mut u64) {
    let _h = Host::enter();
    let t = cur!();
    let s = sim();
    let b = peer as usize % s.nodes.len();
    let (mut mine, mut both) = (0, 0);
    for c in &s.net.conns {
        if c.state != ConnState::Up {
            continue;
        }
        for k in 0..2 {
            if c.side[k].node == t.node && c.side[1 - k].node == b && c.side[k].open {
                mine += 1;
                both += (c.side[1 - k].open && !c.side.iter().any(|x| x.err != 0 || x.eof)) as u64;
            }
        }
    }
    *out = mine;
    *out.add(1) = both;
    let l = s.net.last_open[t.node][b];
    *out.add(2) = if mine > 0 { 0 } else if l == u64::MAX { u64::MAX } else { s.now - l };
}
