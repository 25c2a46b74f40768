//! C07: timers and timeouts.
use hydra::{Dest, Dests, ExitReason, Message, Process, Reference};

use crate::w::*;

static TIMERS: Cell<Vec<(i64, Reference)>> = Cell::new(Vec::new());
fn us(d: std::time::Duration) -> i64 {
    d.as_micros() as i64
}
fn delay(o: u32) -> std::time::Duration {
    let x = (o / 12) as u64;
    match o % 12 {
        0 => ms(0),
        1 => std::time::Duration::from_micros(x % 1500),
        2 | 3 => ms(x % 5),
        4 | 5 => ms(x % 40),
        6 => ms(10 * (x % 10)),
        7 | 8 => ms(x % 400),
        9 => ms(x % 3000),
        10 => std::time::Duration::from_nanos(x * 100_001),
        _ => ms(100_000 + x * 100_000),
    }
}
async fn got(me: u32) {
    loop {
        if let Message::User(n) = Process::receive::<u64>().await {
            log(ev::RECV, me, &[n as i64], "");
        }
    }
}
fn pick(o: u32) -> Option<(i64, Reference)> {
    TIMERS.with(|v| (!v.is_empty()).then(|| v[v.len() - 1 - (o as usize % v.len().min(8))]))
}
fn read(me: u32, n: i64, r: Reference) {
    log(ev::READ, me, &[n], "");
    let v = Process::read_timer(r).map(|d| d.as_nanos() as i64).unwrap_or(-1);
    log(ev::READ_RET, me, &[n, v], "");
}
fn cancel(me: u32, n: i64, r: Reference) {
    log(ev::CANCEL, me, &[n], "");
    Process::cancel_timer(r);
    log(ev::CANCELLED, me, &[n], "");
}
async fn script(me: u32, k: u32) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        let t = o[2] % k;
        match o[0] % 13 {
            0..=3 => {
                let n = fresh();
                let d = delay(o[3]);
                let dest: Dests = match o[4] % 4 {
                    0 | 1 => pid_of(t).unwrap().into(),
                    2 => format!("actor{}", t).into(),
                    _ => Dests::from(vec![Dest::from(pid_of(t).unwrap())]),
                };
                log(ev::TIMER, me, &[n, t as i64, d.as_nanos() as i64], "");
                let r = Process::send_after(dest, n as u64, d);
                log(ev::TIMER_SET, me, &[n], "");
                TIMERS.with(|v| v.push((n, r)));
                match o[5] % 8 {
                    0 => {
                        pause(o[6]).await;
                        cancel(me, n, r)
                    }
                    1 => read(me, n, r),
                    _ => {}
                }
            }
            4 | 5 => {
                if let Some((n, r)) = pick(o[3]) {
                    cancel(me, n, r);
                    if o[4] % 2 == 0 {
                        read(me, n, r);
                    }
                }
            }
            6 => {
                if let Some((n, r)) = pick(o[3]) {
                    read(me, n, r)
                }
            }
            7 => {
                let d = ms(o[3] as u64 % 60);
                let n = fresh();
                log(ev::TIMEOUT, me, &[n, 0, us(d), -1], "");
                let _ = Process::timeout(d, got(me)).await;
                log(ev::TIMEOUT, me, &[n, 1, us(d), -1, 0], "");
            }
            8 | 9 => {
                let (d, x) = (delay(o[3] % 11 + 12 * (o[3] / 12)), delay(o[4] % 11 + 12 * (o[4] / 12)));
                let n = fresh();
                log(ev::TIMEOUT, me, &[n, 0, us(d), us(x)], "");
                let ok = Process::timeout(d, Process::sleep(x)).await.is_ok();
                log(ev::TIMEOUT, me, &[n, 1, us(d), us(x), ok as i64], "");
            }
            10 => pause(o[2]).await,
            11 if t != me && o[3] % 4 == 0 => {
                log(ev::EXIT, me, &[t as i64], "");
                Process::exit(pid_of(t).unwrap(), ExitReason::Kill);
            }
            _ => {
                let _ = Process::timeout(ms(o[3] as u64 % 20), got(me)).await;
            }
        }
    }
    s.over();
    got(me).await
}
pub async fn c07() {
    let k = 1 + p(0, 4);
    core(k, true, |i| script(i, k)).await;
    wait_done(k, 60_000).await;
    sleep(5000).await;
    for (n, r) in TIMERS.with(|v| v.clone()) {
        read(90, n, r);
    }
}
