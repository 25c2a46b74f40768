//! C24: websocket connections.
use std::net::SocketAddr;

use hydra::{ExitReason, GenServer, GenServerOptions, Message, Process, ProcessFlags, SystemMessage};
use hydra_websockets::{CloseCode, WebsocketCommands, WebsocketHandler, WebsocketMessage, WebsocketRequest, WebsocketResponse, WebsocketServer, WebsocketServerConfig};
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

use crate::dist::{inc, me_node, nodes, until, SLOTS};
use crate::w::*;

fn server() -> SocketAddr {
    ([10, 0, 0, 1], 8080).into()
}
/// What a client does, by kind.
const DECENT: u32 = 6;
const HANDSHAKE: u32 = 7;
const INIT: u32 = 8;
const TROUBLE_A: u32 = 9;
const TROUBLE_B: u32 = 10;
const NONSENSE: u32 = 11;
const ABRUPT: u32 = 12;
const SLOW: u32 = 13;
const STALLED: u32 = 14;
const KILLED: u32 = 15;
fn kind(o: &Op) -> u32 {
    o[0] % 16
}
fn handshake_timeout() -> Option<u64> {
    [None, Some(300), Some(800), Some(2000)][p(0, 4) as usize]
}
fn slot_ms() -> u64 {
    [20, 100, 300][p(1, 3) as usize]
}
/// The connection made in the end.
const LAST: Op = [0, 1, 3, 0, 5, 16, 0, 1];
const MAX_FRAME: usize = 30_000;
const MAX_MESSAGE: usize = 50_000;
fn quiet_at() -> u64 {
    100 + (SLOTS as u64 + 1) * slot_ms() + 6000
}
// Stages of a client.
const CONNECTED: i64 = 0;
const ASKED: i64 = 1;
const OPEN: i64 = 2;
const SAID: i64 = 3;
const ENDING: i64 = 5;
const SAYING: i64 = 6;
const DEAF: i64 = 7;
const GONE: i64 = 8;
// Stages of a handler.
const INITED: i64 = 0;
const HANDLING: i64 = 1;
const INFO: i64 = 2;
const VERDICT: i64 = 3;
const DROPPED: i64 = 4;
const DOWN: i64 = 5;
const KILL: i64 = 6;
const PUSH: i64 = 7;

fn client(j: u32, stage: i64, a: &[i64]) {
    let mut v = vec![j as i64, stage];
    v.extend_from_slice(a);
    log(ev::WS_CLIENT, j, &v, "");
}
fn handler(j: u32, stage: i64, a: &[i64], s: &str) {
    let mut v = vec![j as i64, stage];
    v.extend_from_slice(a);
    log(ev::WS_HANDLE, j, &v, s);
}
fn pad(n: u32, len: u32) -> String {
    let c = (b'a' + (n % 26) as u8) as char;
    (0..len).map(|i| if i % 7 == 3 { ((b'a' + (i % 26) as u8) as char).to_ascii_uppercase() } else { c }).collect()
}
fn sum(b: &[u8]) -> i64 {
    b.iter().fold(7u64, |s, x| (s.wrapping_mul(31).wrapping_add(*x as u64)) & 0xffff_ffff) as i64
}

// ------------------------------------------------------------------------ the server
#[derive(Serialize, Deserialize)]
enum Rq {
    Push(u32),
}
struct H {
    j: u32,
    seq: u32,
}
impl Drop for H {
    fn drop(&mut self) {
        handler(self.j, DROPPED, &[], "");
    }
}
fn current() -> i64 {
    // The number of the process, whatever it is.
    let s = format!("{:?}", Process::current());
    s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(-1)
}
type Verdict = Result<Option<WebsocketCommands>, ExitReason>;
impl H {
    fn op(&self) -> Op {
        ops().get(self.j as usize % 1000).copied().unwrap_or(LAST)
    }
    fn out(&mut self, c: &mut WebsocketCommands, len: u32, binary: bool) {
        self.seq += 1;
        let s = format!("s:{}:{}", self.seq, pad(self.seq, len));
        log(ev::WS_SEND, self.j, &[self.j as i64, self.seq as i64, binary as i64, s.len() as i64, sum(s.as_bytes())], "");
        if binary {
            c.send(WebsocketMessage::binary(s.into_bytes()));
        } else {
            c.send(s);
        }
    }
    fn close(&mut self, c: &mut WebsocketCommands, code: u16) {
        log(ev::WS_SEND, self.j, &[self.j as i64, -1, code as i64], &format!("bye{}", self.j));
        c.close(CloseCode::from(code), format!("bye{}", self.j));
    }
    fn verdict(&self, v: Verdict, closes: bool) -> Verdict {
        let text = v.as_ref().err().map(reason_text).unwrap_or_default();
        handler(self.j, VERDICT, &[if v.is_err() { 1 } else { 0 }, closes as i64], &text);
        v
    }
    fn reason(&self, x: u32) -> ExitReason {
        match x % 4 {
            0 => ExitReason::Normal,
            1 => ExitReason::Ignore,
            _ => ExitReason::Custom(format!("e{}-{}", self.j, x)),
        }
    }
    fn panics(&self) -> ! {
        handler(self.j, VERDICT, &[2], "");
        std::panic::panic_any(format!("intended {}", self.j));
    }
    async fn act(&mut self, cmd: u32, arg: u32) -> Verdict {
        let mut c = WebsocketCommands::new();
        let mut closes = false;
        match cmd {
            0..=4 => self.out(&mut c, arg % 40, arg % 3 == 0),
            5 => self.out(&mut c, arg % 4000, true),
            6 => {
                let none = arg % 2 == 0;
                return self.verdict(Ok(if none { None } else { Some(c) }), false);
            }
            7 => {
                for i in 0..2 + arg % 8 {
                    self.out(&mut c, (arg >> i) % 60, i % 2 == 1)
                }
            }
            8 => {
                sleep(arg as u64 % 20).await;
                self.out(&mut c, 5, false);
            }
            9 => {
                pause(arg).await;
                self.out(&mut c, 5, true);
            }
            10 => self.out(&mut c, arg % 20_000, arg % 2 == 0),
            11 | 12 => {
                if cmd == 11 {
                    for i in 0..arg % 3 {
                        self.out(&mut c, (arg >> i) % 3000, false);
                    }
                }
                self.close(&mut c, [1000, 1001, 4000 + (arg % 900) as u16][arg as usize % 3]);
                closes = true;
                for _ in 0..arg % 2 {
                    // Not to be sent.
                    c.send(format!("s:{}:after", 1_000_000 + self.seq));
                }
                if arg % 5 == 0 {
                    c.close(CloseCode::from(4999), "again");
                }
            }
            13 => {
                if arg % 2 == 0 {
                    pause(arg / 2).await;
                }
                let r = self.reason(arg / 16);
                return self.verdict(Err(r), false);
            }
            _ => self.panics(),
        }
        self.verdict(Ok(Some(c)), closes)
    }
}
impl WebsocketHandler for H {
    type Message = Rq;

    fn accept(_: SocketAddr, request: &WebsocketRequest, response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        let path = request.uri().path().to_string();
        let mut parts = path.split('/').skip(1);
        let j: u32 = parts.next().and_then(|x| x.parse().ok()).unwrap_or(9999);
        let what = parts.next().unwrap_or("");
        log(ev::WS_ACCEPT, j, &[j as i64], what);
        match what {
            "refuse" => Err(ExitReason::from("refused")),
            "panic" => std::panic::panic_any("intended in accept".to_string()),
            _ => Ok((response, H { j, seq: 0 })),
        }
    }
    async fn websocket_init(&mut self) -> Verdict {
        let o = self.op();
        let me = Process::current();
        handler(self.j, INITED, &[current()], "");
        let j = self.j;
        if o[7] % 3 == 0 {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        Process::spawn(async move {
            Process::monitor(me);
            let _ = tx.send(());
            if kind(&o) == KILLED {
                let wait = o[2] as u64 % 500;
                if Process::timeout(ms(wait), down(j)).await.is_ok() {
                    return;
                }
                let r = if o[4] % 2 == 0 { ExitReason::Kill } else { ExitReason::Custom(format!("k{}", j)) };
                handler(j, KILL, &[reason_code(&r)], &reason_text(&r));
                Process::exit(me, r);
            }
            down(j).await;
        });
        let _ = rx.await;
        // Somebody else has something to say, too.
        let pushes = if kind(&o) == INIT { 0 } else { [0, 0, 1, 3, 8][o[4] as usize / 16 % 5] };
        if pushes > 0 {
            Process::spawn(async move {
                for n in 0..pushes {
                    pause(o[2].rotate_right(n)).await;
                    handler(j, PUSH, &[n as i64], "");
                    Process::send(me, Rq::Push(n));
                }
            });
        }
        if kind(&o) == INIT {
            return match o[2] % 6 {
                0 => {
                    let r = self.reason(o[4]);
                    self.verdict(Err(r), false)
                }
                1 => self.panics(),
                2 => self.act(12, o[4]).await,
                3 => self.act(11, o[4]).await,
                4 => {
                    sleep(200).await;
                    self.act(7, o[4]).await
                }
                _ => self.act(7, o[4]).await,
            };
        }
        pause(o[2]).await;
        self.verdict(Ok(None), false)
    }
    async fn websocket_handle(&mut self, m: WebsocketMessage) -> Verdict {
        let (what, text) = match &m {
            WebsocketMessage::Text(t) => (1, t.as_str().as_bytes().to_vec()),
            WebsocketMessage::Binary(b) => (2, b.to_vec()),
            WebsocketMessage::Ping(b) => (9, b.to_vec()),
            WebsocketMessage::Pong(b) => (10, b.to_vec()),
            WebsocketMessage::Close(c) => {
                let code = c.as_ref().map(|c| u16::from(c.code) as i64).unwrap_or(-1);
                handler(self.j, HANDLING, &[-1, 8, current(), code], "");
                let o = self.op();
                // Something in answer to a goodbye.
                return match o[5] / 64 % 8 {
                    0 => self.act(12, o[5] / 512).await,
                    1 => {
                        let mut c = WebsocketCommands::new();
                        c.send("too late");
                        self.verdict(Ok(Some(c)), false)
                    }
                    2 => {
                        let r = self.reason(o[5] / 512);
                        self.verdict(Err(r), false)
                    }
                    _ => self.verdict(Ok(None), false),
                };
            }
            _ => (99, Vec::new()),
        };
        let s = String::from_utf8_lossy(&text).to_string();
        let mut f = s.split(':').skip(1);
        let mut num = || f.next().and_then(|x| x.parse::<u32>().ok());
        let (n, cmd, arg) = (num(), num(), num());
        handler(self.j, HANDLING, &[n.map(|n| n as i64).unwrap_or(-1), what, current(), sum(&text)], "");
        if what > 2 {
            return self.verdict(Ok(None), false);
        }
        self.act(cmd.unwrap_or(6), arg.unwrap_or(0)).await
    }
    async fn websocket_info(&mut self, m: Message<Rq>) -> Verdict {
        match m {
            Message::User(Rq::Push(n)) => {
                handler(self.j, INFO, &[n as i64, 0, current()], "");
                let o = self.op();
                let trouble = kind(&o) == TROUBLE_B && n == o[2] % 8;
                self.act(if trouble { 11 + o[4] % 4 } else { [0, 7, 9][n as usize % 3] }, o[4] ^ n).await
            }
            Message::System(SystemMessage::Exit(_, r)) => {
                handler(self.j, INFO, &[-1, 0, current()], &reason_text(&r));
                self.verdict(Ok(None), false)
            }
            _ => {
                bad(self.j, "a handler received a strange message");
                Ok(None)
            }
        }
    }
    async fn terminate(&mut self, reason: ExitReason) {
        log(ev::WS_TERM, self.j, &[self.j as i64, 0, reason_code(&reason)], &reason_text(&reason));
        pause(self.op()[3]).await;
        log(ev::WS_TERM, self.j, &[self.j as i64, 1], "");
    }
}
async fn down(j: u32) {
    match Process::receive::<()>().await {
        Message::System(SystemMessage::ProcessDown(_, _, r)) => handler(j, DOWN, &[reason_code(&r)], &reason_text(&r)),
        _ => bad(j, "unexpected message"),
    }
}
async fn serve() {
    let mut config = WebsocketServerConfig::new(server()).max_frame_size(Some(MAX_FRAME)).max_message_size(Some(MAX_MESSAGE));
    if let Some(t) = handshake_timeout() {
        config = config.handshake_timeout(ms(t));
    }
    actor(0, async move {
        if let Err(e) = WebsocketServer::<H>::new(config).start_link(GenServerOptions::new()).await {
            bad(0, &format!("the server did not start: {:?}", e));
        }
        let before = Process::list();
        log(ev::LEAK, 0, &[before.len() as i64, 0], "");
        drop(before);
        until(quiet_at() + 7000).await;
        log(ev::LEAK, 0, &[Process::list().len() as i64, 1], "");
        sleep(3_600_000).await;
    });
    until(quiet_at() + 8000).await;
}

// ------------------------------------------------------------------------ the clients
fn frame(fin: bool, op: u8, payload: &[u8], mask: u32) -> Vec<u8> {
    let mut v = vec![(fin as u8) << 7 | op];
    match payload.len() {
        n if n < 126 => v.push(0x80 | n as u8),
        n if n < 65536 => {
            v.push(0x80 | 126);
            v.extend_from_slice(&(n as u16).to_be_bytes());
        }
        n => {
            v.push(0x80 | 127);
            v.extend_from_slice(&(n as u64).to_be_bytes());
        }
    }
    let m = mask.to_be_bytes();
    v.extend_from_slice(&m);
    v.extend(payload.iter().enumerate().map(|(i, b)| b ^ m[i % 4]));
    v
}
/// What the client has sent in pings.
type Pings = std::sync::Arc<std::sync::Mutex<Vec<Vec<u8>>>>;
fn ping(how: u32, pings: &Pings) -> Vec<u8> {
    let b = body(how as u64, [0, 1, 4, 7, 60, 100, 124, 125][how as usize / 54 % 8]);
    pings.lock().unwrap().push(b.clone());
    frame(true, 9, &b, how)
}
/// A message, in one frame or in many, maybe with a ping between them.
fn message(b: &[u8], binary: bool, how: u32, pings: &Pings) -> Vec<u8> {
    let op = if binary { 2 } else { 1 };
    let k = [1, 1, 1, 2, 3, 7][how as usize % 6].min(b.len().max(1));
    let size = b.len().div_ceil(k).max(1);
    let mut v = Vec::new();
    let mut parts: Vec<&[u8]> = b.chunks(size).collect();
    if how / 6 % 3 == 0 && k > 1 {
        parts.push(&[]);
    }
    let n = parts.len();
    for (i, x) in parts.into_iter().enumerate() {
        v.extend(frame(i + 1 == n, if i == 0 { op } else { 0 }, x, how.wrapping_mul(2654435761).wrapping_add(i as u32)));
        if i + 1 < n && how / 18 % 3 == 0 {
            v.extend(ping(how.wrapping_add(i as u32), pings));
        }
    }
    v
}
struct Client {
    j: u32,
    o: Op,
    w: tokio::net::tcp::OwnedWriteHalf,
    said: u32,
    pings: Pings,
}
impl Client {
    async fn raw(&mut self, b: &[u8]) -> bool {
        let how = self.o[3];
        let mut size = [b.len().max(1), b.len().max(1), 1, 3, 11, 900][how as usize % 6];
        if b.starts_with(b"GET ") {
            // A request in very many small packets is taken for an attack (by tungstenite).
            size = size.max(b.len() / 6);
        }
        let wait = [0u64, 0, 100, 2000, 15_000][how as usize / 6 % 5].min(300_000 / (b.len() as u64 / size as u64 + 1));
        for c in b.chunks(size) {
            if self.w.write_all(c).await.is_err() {
                return false;
            }
            if wait > 0 {
                tokio::time::sleep(std::time::Duration::from_micros(wait)).await;
            }
        }
        true
    }
    async fn say(&mut self, cmd: u32, arg: u32, len: u32, binary: bool) -> bool {
        let n = self.said;
        self.said += 1;
        let s = format!("m:{}:{}:{}:{}", n, cmd, arg, pad(n, len));
        log(ev::WS_CLIENT, self.j, &[self.j as i64, SAYING, n as i64, binary as i64, sum(s.as_bytes()), s.len() as i64], "");
        let how = self.o[2].rotate_left(n).wrapping_add(n);
        let ok = self.raw(&message(s.as_bytes(), binary, how, &self.pings.clone())).await;
        if ok {
            client(self.j, SAID, &[n as i64]);
        }
        ok
    }
    async fn decent(&mut self, k: u32) -> bool {
        for _ in 0..k {
            if now() / 1_000_000 > quiet_at() {
                break;
            }
            let x = self.o[4].rotate_left(3 * self.said) ^ self.said;
            if x / 77 % 4 == 0 {
                let b = ping(x.wrapping_mul(54), &self.pings);
                self.raw(&b).await;
            }
            let len = match x / 11 % 12 {
                0 => 3000 + x / 132 % 9000,
                1 | 2 => 130 + x / 132 % 600,
                _ => x / 132 % 50,
            };
            if !self.say(x % 11, x / 7, len, x % 5 == 0).await {
                return false;
            }
            pause(self.o[7].rotate_left(self.said)).await;
        }
        true
    }
}
/// What the server sends, as long as it does.
async fn listen(j: u32, mut r: tokio::net::tcp::OwnedReadHalf, open: tokio::sync::oneshot::Sender<bool>, deaf: u64, pings: Pings) {
    let mut buf: Vec<u8> = Vec::new();
    let mut b = [0u8; 4096];
    let mut open = Some(open);
    let mut status = 0;
    let mut part: Option<(u8, Vec<u8>)> = None;
    let how = loop {
        let n = match r.read(&mut b).await {
            Ok(0) => break 0,
            Ok(n) => n,
            Err(_) => break 1,
        };
        buf.extend_from_slice(&b[..n]);
        if status == 0 {
            let Some(end) = buf.windows(4).position(|w| w == b"\r\n\r\n") else { continue };
            let head = String::from_utf8_lossy(&buf[..end]).to_string();
            status = head.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(-1);
            buf.drain(..end + 4);
            if status == 101 {
                client(j, OPEN, &[head.contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") as i64]);
            }
            let _ = open.take().map(|o| o.send(status == 101));
            if deaf > 0 {
                client(j, DEAF, &[deaf as i64]);
                sleep(deaf).await;
                client(j, DEAF, &[0]);
            }
        }
        if status != 101 {
            continue;
        }
        loop {
            if buf.len() < 2 {
                break;
            }
            let (fin, op, l) = (buf[0] & 0x80 != 0, buf[0] & 0x7f, buf[1]);
            let (head, len) = match l {
                126 if buf.len() >= 4 => (4, u16::from_be_bytes([buf[2], buf[3]]) as usize),
                127 if buf.len() >= 10 => (10, u64::from_be_bytes(buf[2..10].try_into().unwrap()) as usize),
                126 | 127 => break,
                n if n < 126 => (2, n as usize),
                _ => {
                    bad(j, "the server masks its frames");
                    break;
                }
            };
            if buf.len() < head + len {
                break;
            }
            let body = buf[head..head + len].to_vec();
            buf.drain(..head + len);
            match op {
                0 | 1 | 2 => {
                    let (o, mut all) = part.take().unwrap_or((op, Vec::new()));
                    all.extend_from_slice(&body);
                    if fin {
                        let seq = String::from_utf8_lossy(&all).split(':').nth(1).and_then(|s| s.parse().ok()).unwrap_or(-1);
                        log(ev::WS_RECV, j, &[j as i64, o as i64, seq, all.len() as i64, sum(&all)], "");
                    } else {
                        part = Some((o, all));
                    }
                }
                8 => {
                    let code = if len >= 2 { u16::from_be_bytes([body[0], body[1]]) as i64 } else { -1 };
                    log(ev::WS_RECV, j, &[j as i64, 8, code], &String::from_utf8_lossy(body.get(2..).unwrap_or(&[])));
                }
                10 if !pings.lock().unwrap().contains(&body) => bad(j, "a pong does not fit any ping"),
                9 | 10 => log(ev::WS_RECV, j, &[j as i64, op as i64, -1], ""),
                _ => bad(j, "the server sends nonsense"),
            }
        }
    };
    log(ev::WS_CLOSED, j, &[j as i64, how], "");
    let _ = open.take().map(|o| o.send(false));
}
fn request(j: u32, what: &str, version: &str, key: &str) -> Vec<u8> {
    format!("GET /{}/{} HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: {}\r\n{}\r\n", j, what, version, key).into_bytes()
}
const KEY: &str = "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n";
async fn connection(j: u32, o: Op) {
    let Ok(s) = TcpStream::connect(server()).await else {
        client(j, GONE, &[1]);
        return;
    };
    client(j, CONNECTED, &[]);
    let (r, w) = s.into_split();
    let pings = Pings::default();
    let mut c = Client { j, o, w, said: 0, pings: pings.clone() };
    let deaf = match kind(&o) {
        SLOW => 100 + o[5] as u64 % 1500,
        STALLED => 3_600_000,
        _ => 0,
    };
    let (tx, open) = tokio::sync::oneshot::channel();
    let ears = tokio::spawn(listen(j, r, tx, deaf, pings));
    let good = request(j, "", "13", KEY);
    let stay = quiet_at();
    // ---- the handshake
    if kind(&o) == HANDSHAKE {
        let part = good[..o[4] as usize % good.len()].to_vec();
        // What is sent, whether it is a full request, then.
        let (b, full) = match o[2] % 12 {
            0 => (Vec::new(), 0),
            1 | 2 | 3 => (part, 0),
            4 => (body(o[4] as u64, 1 + o[4] % 300), 3),
            5 => (request(j, "", "13", ""), 3),
            6 => (request(j, "", "7", KEY), 3),
            7 => ([&good[..good.len() - 2], b"X: ", &vec![b'x'; 60_000 + o[4] as usize % 60_000][..], b"\r\n\r\n"].concat(), 3),
            8 => (request(j, "refuse", "13", KEY), 2),
            9 => (request(j, "panic", "13", KEY), 2),
            // Bytes after the request, before the answer.
            _ => ([&good[..], &frame(true, 1, b"m:0:0:0:early", 7)[..]].concat(), 3),
        };
        if full == 0 {
            client(j, ASKED, &[0]);
        }
        let ok = c.raw(&b).await;
        if full > 0 {
            client(j, ASKED, &[full]);
        }
        if !ok {
            client(j, ENDING, &[3]);
        }
        match o[2] % 12 {
            2 => sleep(o[5] as u64 % 100).await,
            3 => {
                sleep(o[5] as u64 % 100).await;
                client(j, ENDING, &[2]);
                c.w.as_ref().sim_reset();
            }
            _ => {
                let left = stay.saturating_sub(now() / 1_000_000);
                let mut ears = ears;
                let _ = tokio::time::timeout(ms(left), &mut ears).await;
                client(j, ENDING, &[1]);
                ears.abort();
                return;
            }
        }
        client(j, ENDING, &[1]);
        ears.abort();
        return;
    }
    let early = kind(&o) > DECENT && o[7] / 8 % 6 == 0;
    let ok = c.raw(&good).await;
    client(j, ASKED, &[if ok { 1 } else { 3 }]);
    // Most wait for the answer.
    if !early && !open.await.unwrap_or(false) {
        client(j, ENDING, &[1]);
        let _ = tokio::time::timeout(ms(1000), ears).await;
        return;
    }
    // ---- the conversation
    let k = [0, 1, 2, 4, 8][o[5] as usize / 8 % 5];
    let mut wait = 1500;
    match kind(&o) {
        0..=DECENT => {
            c.decent(k).await;
        }
        INIT => {
            sleep(o[7] as u64 % 300).await;
            c.decent(k).await;
        }
        TROUBLE_A | TROUBLE_B => {
            c.decent(k).await;
            if kind(&o) == TROUBLE_A {
                c.say(11 + o[2] % 4, o[4], o[4] % 200, false).await;
            }
            c.decent(o[5] % 4).await;
        }
        NONSENSE => {
            c.decent(k).await;
            let x = o[4];
            let b = match o[2] % 13 {
                0 => frame(true, 3 + (x % 5) as u8, b"x", x),
                1 => frame(true, 11 + (x % 5) as u8, b"x", x),
                2 => [&[0x81u8, 5][..], b"hello"].concat(),
                3 => frame(true, 0x40 | 1, b"x", x),
                4 => frame(true, 0, b"lone", x),
                5 => frame(true, 1, &[0xff, 0xfe, b'a'], x),
                6 => vec![0x82, 0xff, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5],
                7 => frame(true, 2, &vec![1; MAX_FRAME + 1 + x as usize % 9000], x),
                8 => [frame(false, 2, &vec![1; 29_000], x), frame(true, 0, &vec![1; 29_000], x)].concat(),
                9 => [&[0x89u8, 0x80 | 126, 0, 200][..], &[0; 204][..]].concat(),
                10 => frame(false, 9, b"part", x),
                11 => frame(true, 8, &[3], x),
                _ => [frame(false, 1, b"a", x), frame(true, 1, b"b", x)].concat(),
            };
            c.raw(&b).await;
            c.decent(o[5] % 4).await;
            wait = 300;
        }
        ABRUPT => {
            c.decent(k).await;
            if o[2] % 3 > 0 {
                let b = message(format!("m:{}:0:1:half", c.said).as_bytes(), false, o[4], &c.pings);
                c.raw(&b[..o[4] as usize % b.len()]).await;
            }
            wait = o[7] as u64 % 40;
        }
        SLOW | STALLED => {
            for i in 0..4 + o[2] % 12 {
                let big = o[4].rotate_left(i);
                if let Err(_) | Ok(false) = tokio::time::timeout(ms(3000), c.say(if i % 3 == 0 { 7 } else { 10 }, big, 10, false)).await {
                    break;
                }
            }
            wait = deaf + 2500;
        }
        _ => {
            c.decent(k).await;
        }
    }
    // ---- the end
    let stays = matches!(kind(&o), STALLED) || kind(&o) <= DECENT && o[5] % 3 == 2;
    let left = if stays { stay.saturating_sub(now() / 1_000_000) } else { wait };
    let mut ears = ears;
    if tokio::time::timeout(ms(left), &mut ears).await.is_ok() {
        // The server ended it.
        client(j, GONE, &[0]);
        return;
    }
    let how = match kind(&o) {
        ABRUPT => o[5] % 3,
        SLOW | STALLED | NONSENSE => o[5] % 4,
        _ => [3, 3, 0, 2][o[5] as usize / 3 % 4],
    };
    client(j, ENDING, &[10 + how as i64]);
    match how {
        0 => {
            ears.abort();
            return;
        }
        1 => {
            c.w.as_ref().sim_reset();
        }
        2 => {
            let _ = c.w.shutdown().await;
        }
        _ => {
            let code = [1000u16, 1001, 4001][o[5] as usize / 16 % 3].to_be_bytes();
            let b: Vec<u8> = if o[5] / 32 % 2 == 0 { code.to_vec() } else { Vec::new() };
            c.raw(&frame(true, 8, &b, o[4])).await;
        }
    }
    let _ = tokio::time::timeout(ms(2500), &mut ears).await;
    client(j, GONE, &[2]);
    ears.abort();
}
pub async fn c24() {
    if me_node() == 0 {
        serve().await;
        return;
    }
    for (j, o) in ops().iter().enumerate() {
        let (j, o) = (j as u32, *o);
        if 1 + o[1] % (nodes() - 1) != me_node() {
            continue;
        }
        let at = 100 + (o[6] % SLOTS) as u64 * slot_ms() + o[7] as u64 % slot_ms();
        if now() / 1_000_000 > at {
            continue;
        }
        tokio::spawn(async move {
            until(at).await;
            // A machine that has come back makes other connections.
            connection(j + 1000 * (inc() - 1), o).await;
        });
    }
    // Somebody decent, in the end.
    if me_node() == 1 {
        tokio::spawn(async move {
            until(quiet_at() + 500).await;
            connection(ops().len() as u32 + 1000 * (inc() - 1), LAST).await;
        });
    }
    sleep(3_600_000).await
}
