//! C01: local messages.
use hydra::{Dest, Dests, ExitReason, Message, Process, Reference};
use serde::{Deserialize, Serialize};

use crate::w::*;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct M {
    pub id: u64,
    pub from: u32,
    pub body: Vec<u8>,
    pub text: String,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Other(pub u64);

pub static ALIASES: Cell<Vec<Option<Reference>>> = Cell::new(Vec::new());

pub fn msg(id: u64, from: u32, size: u32) -> M {
    M { id, from, body: body(id, size), text: format!("t{}", id) }
}
pub fn intact(m: &M) -> bool {
    m.body == body(m.id, m.body.len() as u32) && m.text == format!("t{}", m.id)
}
pub fn got(aid: u32, m: &M) {
    log(ev::RECV, aid, &[m.id as i64, m.from as i64, intact(m) as i64], "");
}

fn dest(t: u32, how: u32) -> Dest {
    match how % 4 {
        0 => pid_of(t).unwrap().into(),
        1 => format!("actor{}", t).into(),
        2 => match ALIASES.with(|v| v[t as usize]) {
            Some(r) => r.into(),
            None => pid_of(t).unwrap().into(),
        },
        _ => Dest::from(pid_of(t).unwrap()),
    }
}

fn do_send(me: u32, t: u32, how: u32, size: u32) {
    let id = fresh() as u64;
    let m = msg(id, me, size);
    log(ev::SEND, me, &[id as i64, t as i64, how as i64], "");
    match how % 5 {
        0 => Process::send(pid_of(t).unwrap(), m),
        1 => Process::send(format!("actor{}", t), m),
        2 => Process::send(dest(t, 2), m),
        3 => Process::send(Dests::from(vec![dest(t, how / 5)]), m),
        _ => Process::send(dest(t, how / 5), m),
    }
    log(ev::SENT, me, &[id as i64, t as i64], "");
}

fn size(o: &[u32; 8]) -> u32 {
    match o[6] % 40 {
        0 => o[7] * 4,
        1..=4 => o[7] % 3000,
        _ => o[4] % 40,
    }
}
async fn script(me: u32, k: u32, kills: bool) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        let t = o[2] % k;
        match o[0] % 11 {
            0 | 1 | 2 => do_send(me, t, o[3], size(&o)),
            3 => {
                // Several destinations at once.
                let id = fresh() as u64;
                let mut v: Vec<Dest> = Vec::new();
                let mut targets = Vec::new();
                for i in 0..k {
                    let t = (i + o[5]) % k;
                    if o[2] >> i & 1 == 1 {
                        v.push(dest(t, o[3] >> (2 * i)));
                        targets.push(t);
                    }
                    if o[4] >> i & 3 == 3 {
                        v.push(Dest::from(format!("nobody{}", i)));
                    }
                }
                for t in &targets {
                    log(ev::SEND, me, &[id as i64, *t as i64, 100], "");
                }
                Process::send(Dests::from(v), msg(id, me, size(&o)));
                for t in &targets {
                    log(ev::SENT, me, &[id as i64, *t as i64], "");
                }
            }
            4 | 5 => {
                for _ in 0..o[2] % 4 + 1 {
                    match Process::timeout(ms(o[3] as u64 % 30), Process::receive::<M>()).await {
                        Ok(Message::User(m)) => got(me, &m),
                        Ok(_) => bad(me, "unexpected system message"),
                        Err(_) => break,
                    }
                }
            }
            6 => pause(o[2]).await,
            7 => {
                // Nobody there.
                match o[2] % 3 {
                    0 => Process::send("nobody", msg(fresh() as u64, me, 3)),
                    1 => {
                        let r = Process::alias(true);
                        Process::unalias(r);
                        Process::send(r, msg(fresh() as u64, me, 3));
                    }
                    _ => {
                        let p = Process::spawn(async {});
                        pause(o[3]).await;
                        Process::send(p, msg(fresh() as u64, me, 3));
                    }
                }
            }
            8 => {
                for i in 0..o[4] % 6 {
                    do_send(me, t, o[3], i);
                }
            }
            9 if kills && t != me => {
                log(ev::EXIT, me, &[t as i64, 1], "");
                Process::exit(pid_of(t).unwrap(), ExitReason::Kill);
            }
            9 | 10 if kills && o[3] % 3 == 0 => return,
            _ => pause(o[2]).await,
        }
    }
    s.over();
    loop {
        match Process::receive::<M>().await {
            Message::User(m) => got(me, &m),
            _ => bad(me, "unexpected system message"),
        }
    }
}

pub async fn c01() {
    let k = 2 + p(0, 4);
    let kills = p(1, 3) == 0;
    ALIASES.with(|v| v.resize(k as usize, None));
    let go = std::sync::Arc::new(tokio::sync::Semaphore::new(0));
    let ready = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
    for i in 0..k {
        let (go, ready) = (go.clone(), ready.clone());
        actor(i, async move {
            let r = Process::alias(false);
            ALIASES.with(|v| v[i as usize] = Some(r));
            if Process::register(Process::current(), format!("actor{}", i)).is_err() {
                bad(i, "cannot register a free name");
            }
            ready.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let _ = go.acquire().await.map(|p| p.forget());
            script(i, k, kills).await;
        });
    }
    let t = now() + 5_000_000_000;
    while ready.load(std::sync::atomic::Ordering::SeqCst) < k && now() < t {
        sleep(1).await;
    }
    go.add_permits(k as usize);
    // The main task sends too.
    for j in 0..p(2, 6) {
        do_send(90, j % k, params()[3] >> (2 * j), j);
        pause(params()[4] >> (2 * j)).await;
    }
    wait_done(k, 20_000).await;
    sleep(2000).await;
}
