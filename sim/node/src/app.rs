//! C23: an application, run twice, with signals from outside.
use std::sync::atomic::{AtomicU32, Ordering};

use hydra::{Application, ApplicationConfig, ChildSpec, ExitReason, GenServer, GenServerOptions, Message, Pid, Process, ProcessFlags, Supervisor, SupervisorOptions, SystemMessage};

use crate::w::*;

static ROUND: AtomicU32 = AtomicU32::new(0);
fn p_of(r: u32, i: u32) -> u32 {
    params()[(8 * r + i) as usize % 32]
}
pub fn graceful(r: u32) -> (bool, u64) {
    (p_of(r, 0) % 4 != 0, [0, 20, 200, 3000, 7000][p_of(r, 1) as usize % 5])
}
// Actors of a round: 100 r + 10 the root, + 11.. its children, + 30 strangers.
async fn plain(me: u32, w: u32) {
    if w % 3 > 0 {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    log(ev::CHILD_UP, me, &[(w % 3) as i64, (w / 16 % 60) as i64, 0], "");
    let end = tokio::time::Instant::now() + ms([30, 400, 5000, 100_000][w as usize / 1024 % 4]);
    loop {
        match tokio::time::timeout_at(end, Process::receive::<u64>()).await {
            Err(_) => {
                // Its own end.
                log(ev::ORDER, me, &[(w / 4096 % 3) as i64], "");
                match w / 4096 % 3 {
                    0 => return,
                    1 => Process::exit(Process::current(), ExitReason::from("boom")),
                    _ => panic!("intended"),
                }
                std::future::pending::<()>().await;
            }
            Ok(Message::System(SystemMessage::Exit(_, r))) => {
                log(ev::EXIT_MSG, me, &[], &reason_text(&r));
                // 1: finishes in its time, 2: never.
                if w % 3 == 1 {
                    sleep((w / 16 % 60) as u64).await;
                    log(ev::TERMINATED, me, &[], "");
                    return;
                }
            }
            Ok(_) => {}
        }
    }
}
struct Srv(u32, u32, #[allow(dead_code)] Death);
impl GenServer for Srv {
    type Message = u64;
    async fn init(&mut self) -> Result<(), ExitReason> {
        if self.1 % 3 > 0 {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        log(ev::CHILD_UP, self.0, &[(self.1 % 3 > 0) as i64, (self.1 / 16 % 60) as i64, 1], "");
        Ok(())
    }
    async fn terminate(&mut self, r: ExitReason) {
        log(ev::EXIT_MSG, self.0, &[], &reason_text(&r));
        sleep((self.1 / 16 % 60) as u64).await;
        log(ev::TERMINATED, self.0, &[], "");
    }
}
async fn child(me: u32, w: u32) -> Result<Pid, ExitReason> {
    Srv(me, w, Death(me)).start_link(GenServerOptions::new().name(format!("child{}", me % 100))).await
}
struct App(u32);
impl Application for App {
    fn config() -> ApplicationConfig {
        let (g, t) = graceful(ROUND.load(Ordering::SeqCst));
        ApplicationConfig::default().with_tracing_subscribe(false).with_tracing_panics(false).with_graceful_shutdown(g).with_graceful_shutdown_timeout(ms(t))
    }
    async fn start(&self) -> Result<Pid, ExitReason> {
        let r = self.0;
        log(ev::APP_START, 0, &[r as i64, 0], "");
        // Strangers: nobody is linked to them.
        for i in 0..p_of(r, 2) % 3 {
            let me = 100 * r + 30 + i;
            let k = Kid::new(me);
            Process::spawn(k.run(async move {
                loop {
                    sleep(3).await;
                    log(ev::NOTE, me, &[], "");
                    sleep(p_of(r, 3) as u64 % 2000).await;
                }
            }));
        }
        // Somebody else the application is linked to.
        if p_of(r, 2) / 4 % 3 == 0 {
            let w = p_of(r, 2) / 16;
            let k = Kid::new(100 * r + 35);
            Process::spawn_link(k.run(async move {
                sleep((w % 50) as u64).await;
                match w / 64 % 4 {
                    0 => {}
                    1 => panic!("intended"),
                    2 => Process::exit(Process::current(), ExitReason::Kill),
                    _ => Process::exit(Process::current(), ExitReason::from("shutdown")),
                }
                if w / 64 % 4 > 1 {
                    std::future::pending::<()>().await;
                }
            }));
        }
        match p_of(r, 4) % 12 {
            0 => {
                log(ev::APP_START, 0, &[r as i64, 2], "");
                return Err(ExitReason::from("no start"));
            }
            1 => {
                log(ev::APP_START, 0, &[r as i64, 2], "");
                std::panic::panic_any("intended no start".to_string());
            }
            2 | 3 => Process::sleep(ms(p_of(r, 5) as u64 % 100)).await,
            _ => {}
        }
        let me = 100 * r + 10;
        let w = p_of(r, 6);
        let pid = match p_of(r, 7) % 3 {
            0 => {
                let k = Kid::new(me);
                Process::spawn_link(k.run(plain(me, w)))
            }
            1 => child(me, w).await?,
            _ => {
                let n = 1 + w / 4096 % 3;
                let kids = (0..n).map(|i| {
                    let c = me + 1 + i;
                    let cw = w.rotate_left(3 * i) & 0xffff;
                    let first = AtomicU32::new(0);
                    ChildSpec::new(format!("c{}", i)).start(move || {
                        // A restarted one is not the same actor.
                        let c = c + 5 * first.fetch_add(1, Ordering::SeqCst);
                        child(c, cw)
                    })
                });
                let pid = Supervisor::with_children(kids).start_link(SupervisorOptions::new().name("top")).await?;
                log(ev::CHILD_UP, me, &[3, 0, n as i64], "");
                pid
            }
        };
        set_pid(me, pid);
        // However it goes, the root ends some time.
        let k = Kid::new(100 * r + 40);
        Process::spawn(k.run(async move {
            Process::monitor(pid);
            let r = Process::timeout(ms(9000), Process::receive::<()>()).await;
            if r.is_err() {
                log(ev::EXIT, me, &[], "");
                Process::exit(pid, ExitReason::Kill);
                Process::receive::<()>().await;
            }
            log(ev::SUP_DOWN, me, &[], "");
            sleep(100_000).await;
        }));
        log(ev::APP_START, 0, &[r as i64, 1], "");
        Ok(pid)
    }
}
pub fn c23() {
    for r in 0..1 + params()[3] % 2 {
        ROUND.store(r, Ordering::SeqCst);
        let test = p_of(r, 5) / 128 % 5 == 0;
        log(ev::APP_RUN, 0, &[r as i64, test as i64], "");
        let ok = if test {
            expecting(|| App(r).test()).is_ok()
        } else {
            App(r).run();
            true
        };
        log(ev::APP_RET, 0, &[r as i64, ok as i64], "");
    }
    end()
}
