//! C02: selective receive.
use hydra::{ExitReason, Message, Process};

use crate::msgs::{intact, msg, Other, M};
use crate::w::*;

const KEYS: u64 = 5;
fn key(m: &M) -> u64 {
    m.id % KEYS
}
fn got(aid: u32, m: &M) {
    log(ev::RECV, aid, &[m.id as i64, m.from as i64, intact(m) as i64], "");
}
fn send(me: u32, t: u32, size: u32) {
    let id = fresh() as u64;
    log(ev::SEND, me, &[id as i64, t as i64], "");
    Process::send(pid_of(t).unwrap(), msg(id, me, size));
    log(ev::SENT, me, &[id as i64, t as i64], "");
}
fn send_other(me: u32, t: u32) {
    let id = fresh() as u64;
    log(ev::SEND, me, &[id as i64, t as i64, 1], "");
    Process::send(pid_of(t).unwrap(), Other(id));
    log(ev::SENT, me, &[id as i64, t as i64], "");
}
const ALL: u32 = 0xff;

/// A receive of messages whose key is in `mask`; `how` says how it may be given up.
async fn select(me: u32, mask: u32, how: u32, t: u64) {
    let n = fresh();
    log(ev::SELECT, me, &[n, mask as i64, (how % 4 != 0) as i64], "");
    let f = Process::receiver().for_message::<M>().select(move |m| match m {
        Message::User(m) => mask >> key(m) & 1 == 1,
        _ => false,
    });
    let r = match how % 4 {
        0 | 1 => Process::timeout(ms(t), f).await.ok(),
        2 => {
            // Dropped after a number of polls.
            tokio::pin!(f);
            let mut r = None;
            for _ in 0..t % 4 + 1 {
                tokio::select! {
                    biased;
                    m = &mut f => { r = Some(m); break; }
                    _ = tokio::task::yield_now() => {}
                }
            }
            r
        }
        _ => {
            let d = tokio::time::sleep(ms(t));
            tokio::select! {
                biased;
                m = f => Some(m),
                _ = d => None,
            }
        }
    };
    match r {
        Some(Message::User(m)) => {
            log(ev::INFO, me, &[n], "");
            if mask >> key(&m) & 1 != 1 {
                bad(me, "select returned a message its filter rejects");
            }
            got(me, &m)
        }
        Some(_) => bad(me, "select returned a system message its filter rejects"),
        None => log(ev::TIMEOUT, me, &[n, mask as i64, (how % 4 == 0) as i64], ""),
    }
}
async fn other(me: u32, t: u64) {
    let n = fresh();
    log(ev::SELECT, me, &[n, 0x100, 0], "");
    let f = Process::receiver().for_message::<Other>().receive();
    match Process::timeout(ms(t), f).await {
        Ok(Message::User(m)) => {
            log(ev::INFO, me, &[n], "");
            log(ev::RECV, me, &[m.0 as i64, -1, 1], "");
        }
        Ok(_) => bad(me, "unexpected system message"),
        Err(_) => log(ev::TIMEOUT, me, &[n, 0x100, 1], ""),
    }
}
fn remove(me: u32, mask: u32) {
    log(ev::REMOVE, me, &[mask as i64], "");
    let seen = std::sync::Mutex::new(Vec::new());
    Process::receiver().for_message::<M>().remove(|m| match m {
        Message::User(m) => {
            let hit = mask >> key(m) & 1 == 1;
            if hit {
                seen.lock().unwrap().push(m.id as i64);
            }
            hit
        }
        _ => false,
    });
    for id in seen.into_inner().unwrap() {
        log(ev::INFO, me, &[id, 1], "");
    }
    log(ev::REMOVED, me, &[mask as i64], "");
}

async fn script(me: u32, k: u32) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        let t = o[2] % k;
        match o[0] % 12 {
            0 | 1 | 2 => {
                for i in 0..o[4] % 4 + 1 {
                    send(me, t, i)
                }
            }
            3 => send_other(me, t),
            4 | 5 | 6 => select(me, o[3] % 32, o[4], o[5] as u64 % 30).await,
            7 => select(me, 1 << (o[3] % 5), o[4], o[5] as u64 % 30).await,
            8 => other(me, o[5] as u64 % 20).await,
            9 => remove(me, o[3] % 32),
            10 => select(me, ALL, o[4], o[5] as u64 % 10).await,
            _ => pause(o[2]).await,
        }
    }
    s.over();
    // Wait until no more can come, then take everything that is left.
    while FINAL.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        sleep(5).await;
    }
    log(ev::STOP, me, &[], "");
    for _ in 0..2 {
        loop {
            match Process::timeout(ms(20), Process::receiver().for_message::<M>().receive()).await {
                Ok(Message::User(m)) => {
                    log(ev::INFO, me, &[-1], "");
                    got(me, &m)
                }
                Ok(_) => bad(me, "unexpected system message"),
                Err(_) => break,
            }
        }
        loop {
            match Process::timeout(ms(20), Process::receiver().for_message::<Other>().receive()).await {
                Ok(Message::User(m)) => {
                    log(ev::INFO, me, &[-1], "");
                    log(ev::RECV, me, &[m.0 as i64, -1, 1], "")
                }
                Ok(_) => bad(me, "unexpected system message"),
                Err(_) => break,
            }
        }
    }
    log(ev::STOPPED, me, &[], "");
}
static FINAL: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

pub async fn c02() {
    let k = 2 + p(0, 3);
    let kill = p(1, 4) == 0;
    let go = std::sync::Arc::new(tokio::sync::Semaphore::new(0));
    for i in 0..k {
        let go = go.clone();
        actor(i, async move {
            let _ = go.acquire().await.map(|p| p.forget());
            script(i, k).await
        });
    }
    go.add_permits(k as usize);
    if kill {
        pause(params()[2]).await;
        let a = p(3, k);
        actor(50, async move {
            log(ev::EXIT, 50, &[a as i64], "");
            Process::exit(pid_of(a).unwrap(), ExitReason::Kill);
        });
    }
    wait_done(k, 20_000).await;
    FINAL.store(1, std::sync::atomic::Ordering::SeqCst);
    sleep(3000).await;
}
