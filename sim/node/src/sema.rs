//! C21: semaphores and tasks.
use std::sync::Arc;

use hydra::{ExitReason, OwnedSemaphore, Process, Semaphore, Task, TaskHandle};

use crate::w::*;

struct Pair {
    plain: Semaphore,
    owned: OwnedSemaphore,
    n: u32,
}
/// What holds permits: says so before it lets go of them, however it ends.
struct Held<P> {
    op: i64,
    permit: Option<P>,
}
impl<P> Drop for Held<P> {
    fn drop(&mut self) {
        log(ev::SEM_FREE, 0, &[self.op], "");
        drop(self.permit.take());
        log(ev::SEM_FREED, 0, &[self.op], "");
    }
}
fn held<P>(me: u32, op: i64, permit: P) -> Held<P> {
    log(ev::SEM_RET, me, &[op, 1], "");
    Held { op, permit: Some(permit) }
}
fn none(me: u32, op: i64, code: i64) {
    log(ev::SEM_RET, me, &[op, code], "");
}
/// Acquires in one of the ways, holds for a while and ends in one of the ways.
async fn acquire(me: u32, pair: &Arc<Pair>, o: &Op) {
    let many = 1 + o[4] % pair.n;
    let t = match o[5] % 4 {
        0 => Some(ms(o[5] as u64 / 4 % 12)),
        _ => None,
    };
    let op = fresh();
    let how = o[3] % 8;
    let n = if matches!(how, 1 | 4 | 6) { many } else { 1 };
    let which = matches!(how, 3..=7);
    let try_ = matches!(how, 2 | 7);
    log(ev::SEM, me, &[op, which as i64, n as i64, try_ as i64], "");
    macro_rules! timed {
        ($f:expr) => {
            match t {
                Some(t) => match Process::timeout(t, $f).await {
                    Ok(p) => p,
                    Err(_) => return none(me, op, 2),
                },
                None => $f.await,
            }
        };
    }
    macro_rules! tried {
        ($f:expr) => {
            match $f {
                Ok(p) => p,
                Err(_) => return none(me, op, 0),
            }
        };
    }
    match how {
        0 => {
            let h = held(me, op, timed!(pair.plain.acquire()));
            hold(me, o, h).await
        }
        1 => {
            let h = held(me, op, timed!(pair.plain.acquire_many(n)));
            hold(me, o, h).await
        }
        2 => {
            let h = held(me, op, tried!(pair.plain.try_acquire()));
            hold(me, o, h).await
        }
        3 => {
            let h = held(me, op, timed!(pair.owned.acquire()));
            hold(me, o, h).await
        }
        4 => {
            let h = held(me, op, timed!(pair.owned.acquire_many(n)));
            hold(me, o, h).await
        }
        5 | 6 => {
            let p = if how == 5 { timed!(pair.owned.acquire_owned()) } else { timed!(pair.owned.acquire_many_owned(n)) };
            let h = held(me, op, p);
            if o[6] % 4 == 0 {
                // Somebody else holds it from here on.
                let o = *o;
                Process::spawn(async move { hold(60, &o, h).await });
            } else {
                hold(me, o, h).await
            }
        }
        _ => {
            let h = held(me, op, tried!(pair.owned.try_acquire_owned()));
            hold(me, o, h).await
        }
    }
}
async fn hold<P>(me: u32, o: &Op, h: Held<P>) {
    pause(o[7]).await;
    if me >= 10 && o[6] % 5 == 1 {
        log(ev::PANICKING, me, &[], "");
        panic!("intended");
    }
    drop(h);
}
async fn sem_script(me: u32, k: u32, pair: Arc<Pair>) {
    let mut s = Script(me, false);
    for o in ops_of(me, k) {
        match o[0] % 8 {
            0..=2 => acquire(me, &pair, &o).await,
            3..=5 => {
                let Some(c) = newborn() else { continue };
                let (kid, pair) = (Kid::new(c), pair.clone());
                let pid = Process::spawn(kid.run(async move { acquire(c, &pair, &o).await }));
                set_pid(c, pid);
            }
            6 => {
                let t = any(k, o[2]);
                if let (Some(pid), true) = (pid_of(t), t >= 10) {
                    log(ev::EXIT, me, &[t as i64], "");
                    Process::exit(pid, ExitReason::Kill);
                }
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
}
pub async fn semaphores() {
    let k = 2 + p(0, 3);
    let n = 1 + p(1, 4);
    let pair = Arc::new(Pair { plain: Semaphore::new(n as usize), owned: OwnedSemaphore::new(n as usize), n });
    let q = pair.clone();
    core(k, false, move |i| sem_script(i, k, q.clone())).await;
    wait_done(k, 20_000).await;
    sleep(3000).await;
    log(ev::NOTE, 90, &[], "");
    // Every permit is back, and no more than there were.
    let all = tokio::time::timeout(ms(500), pair.plain.acquire_many(n)).await;
    if all.is_err() {
        bad(90, "permits of a semaphore are lost");
    } else if pair.plain.try_acquire().is_ok() {
        bad(90, "a semaphore has more permits than it was created with");
    }
    let mut v = Vec::new();
    for _ in 0..n {
        match pair.owned.try_acquire_owned() {
            Ok(p) => v.push(p),
            Err(_) => bad(90, "permits of an owned semaphore are lost"),
        }
    }
    if pair.owned.try_acquire().is_ok() || pair.owned.try_acquire_owned().is_ok() {
        bad(90, "an owned semaphore has more permits than it was created with");
    }
    drop(v);
    if tokio::time::timeout(ms(500), pair.owned.acquire_many_owned(n)).await.is_err() {
        bad(90, "permits of an owned semaphore are lost");
    }
}

// ---- tasks
type R = (i64, Vec<u8>);
fn result(t: i64) -> R {
    (t, body(t as u64, 5))
}
struct Ended(i64, bool);
impl Drop for Ended {
    fn drop(&mut self) {
        log(ev::TASK_END, 0, &[self.0, self.1 as i64], "");
    }
}
/// 0: ends, 1: panics, 2: lasts.
fn plan(o: &Op) -> u32 {
    match o[3] % 8 {
        0..=4 => 0,
        5 => 1,
        _ => 2,
    }
}
fn blocking(o: &Op) -> bool {
    o[2] % 4 == 0 && plan(o) < 2
}
fn start(me: u32, o: &Op) -> (i64, u32, TaskHandle<R>) {
    let t = fresh();
    let (pl, bl, o) = (plan(o), blocking(o), *o);
    log(ev::TASK, me, &[t, pl as i64, bl as i64], "");
    let h = if bl {
        Task::spawn_blocking(move || {
            let mut e = Ended(t, false);
            log(ev::TASK_STEP, 0, &[t], "");
            if o[4] % 2 == 0 {
                std::thread::sleep(ms(o[4] as u64 % 9));
            }
            log(ev::TASK_STEP, 0, &[t], "");
            if pl == 1 {
                log(ev::PANICKING, 0, &[t], "");
                panic!("intended");
            }
            e.1 = true;
            result(t)
        })
    } else {
        Task::spawn(async move {
            let mut e = Ended(t, false);
            for i in 0..1 + o[4] % 3 {
                log(ev::TASK_STEP, 0, &[t], "");
                pause(o[5].wrapping_add(i)).await;
            }
            if pl == 2 {
                loop {
                    log(ev::TASK_STEP, 0, &[t], "");
                    sleep(40).await;
                    if DONE.load(std::sync::atomic::Ordering::SeqCst) >= 1000 {
                        break;
                    }
                }
            }
            log(ev::TASK_STEP, 0, &[t], "");
            if pl == 1 {
                log(ev::PANICKING, 0, &[t], "");
                panic!("intended");
            }
            e.1 = true;
            result(t)
        })
    };
    (t, pl, h)
}
fn told(me: u32, w: i64, r: Result<R, hydra::TaskError>) {
    match r {
        Ok(r) => {
            if r != result(r.0) {
                bad(me, "the result of a task changed");
            }
            log(ev::TASK_RET, me, &[w, 0, r.0], "")
        }
        Err(_) => log(ev::TASK_RET, me, &[w, 1], ""),
    }
}
async fn task_script(me: u32, k: u32) {
    let mut s = Script(me, false);
    let mut mine: Vec<(i64, u32, TaskHandle<R>)> = Vec::new();
    for o in ops_of(me, k) {
        match o[0] % 10 {
            0..=3 => mine.push(start(me, &o)),
            4 | 5 if !mine.is_empty() => {
                let i = o[6] as usize % mine.len();
                let (t, pl, mut h) = mine.remove(i);
                let w = fresh();
                if pl == 2 || o[7] % 4 == 0 {
                    log(ev::TASK_WAIT, me, &[w, 1, t], "");
                    match Process::timeout(ms(o[7] as u64 / 4 % 20), &mut h).await {
                        Ok(r) => told(me, w, r),
                        Err(_) => {
                            log(ev::TASK_RET, me, &[w, 2], "");
                            mine.push((t, pl, h));
                        }
                    }
                } else {
                    log(ev::TASK_WAIT, me, &[w, 0, t], "");
                    told(me, w, h.await);
                }
            }
            6 if !mine.is_empty() => {
                let i = o[6] as usize % mine.len();
                let (t, _, h) = mine.remove(i);
                let w = fresh();
                log(ev::TASK_WAIT, me, &[w, 2, t], "");
                told(me, w, Task::shutdown(h).await);
            }
            7 => {
                let c: Vec<usize> = (0..mine.len()).filter(|i| mine[*i].1 < 2).take(3).collect();
                if c.len() == 3 {
                    let mut v = Vec::new();
                    for i in c.into_iter().rev() {
                        v.push(mine.remove(i));
                    }
                    if o[6] % 2 == 0 {
                        v.reverse();
                    }
                    let w = fresh();
                    let ids: Vec<i64> = v.iter().map(|x| x.0).collect();
                    log(ev::TASK_WAIT, me, &[w, 3, ids[0], ids[1], ids[2]], "");
                    let hs: Vec<TaskHandle<R>> = v.into_iter().map(|x| x.2).collect();
                    let Ok(a) = <[TaskHandle<R>; 3]>::try_from(hs) else { continue };
                    match Task::await_many(a).await {
                        Ok(v) if v.len() == 3 && v.iter().zip(&ids).all(|(r, t)| *r == result(*t)) => log(ev::TASK_RET, me, &[w, 0], ""),
                        Ok(_) => bad(me, "several tasks awaited at once gave wrong results"),
                        Err(_) => log(ev::TASK_RET, me, &[w, 1], ""),
                    }
                }
            }
            8 if !mine.is_empty() => {
                let i = o[6] as usize % mine.len();
                drop(mine.remove(i));
            }
            _ => pause(o[2]).await,
        }
    }
    s.over();
    sleep(3000).await;
}
pub async fn tasks() {
    let k = 1 + p(0, 3);
    core(k, false, |i| task_script(i, k)).await;
    wait_done(k, 20_000).await;
    sleep(2000).await;
    log(ev::NOTE, 90, &[], "");
    DONE.store(1000, std::sync::atomic::Ordering::SeqCst);
    sleep(100).await;
}
