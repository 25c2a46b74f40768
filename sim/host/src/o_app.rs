//! Oracle over applications (C23).
use std::collections::BTreeMap;

use simapi::ev;

use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;
const SLACK: u64 = 60_000_000;

pub fn c23(v: &View) -> Out {
    let mut o = Out::default();
    let quick = v.stats.stall == 0;
    let time = |i: usize| v.recs.get(i).map(|r| r.time).unwrap_or(u64::MAX / 4);
    let pp = |r: usize, i: usize| v.spec.params[(8 * r + i) % 32] as u64;
    let down = v.recs.iter().position(|r| r.kind as u32 == ev::NODE_DOWN).unwrap_or(INF);
    let end = v.recs.len();
    let mut asked = 0;
    for r in 0..2usize {
        let find = |f: &dyn Fn(&simapi::Rec) -> bool| v.recs.iter().position(f).unwrap_or(INF);
        let run = find(&|x| x.kind as u32 == ev::APP_RUN && x.a[0] == r as i64);
        if run == INF {
            break;
        }
        let test = v.recs[run].a[1] != 0;
        let ret = find(&|x| x.kind as u32 == ev::APP_RET && x.a[0] == r as i64);
        let starts = v.recs.iter().filter(|x| x.kind as u32 == ev::APP_START && x.a[0] == r as i64 && x.a[1] == 0).count();
        let up = find(&|x| x.kind as u32 == ev::APP_START && x.a[0] == r as i64 && x.a[1] == 1);
        let failed = find(&|x| x.kind as u32 == ev::APP_START && x.a[0] == r as i64 && x.a[1] == 2);
        if starts > 1 {
            o.v("started-twice", format!("the application was started {} times by one run", starts));
        }
        let graceful = pp(r, 0) % 4 != 0 && !test;
        let limit = [0, 20, 200, 3000, 7000][pp(r, 1) as usize % 5] * 1_000_000;
        let root = (100 * r + 10) as u32;
        let mine = |a: u32| a as usize / 100 == r && a >= 10 && a % 100 >= 10;
        let root_kind = find(&|x| x.kind as u32 == ev::CHILD_UP && x.actor == root);
        let kind = if root_kind == INF { -1 } else { v.recs[root_kind].a[0] };
        // A supervisor has no guard of its own; its end is seen by a monitor.
        let death = if kind == 3 { find(&|x| x.kind as u32 == ev::SUP_DOWN && x.actor == root) } else { find(&|x| x.kind as u32 == ev::DEATH && x.actor == root) };
        let own = find(&|x| x.kind as u32 == ev::ORDER && x.actor == root);
        let killed = find(&|x| x.kind as u32 == ev::EXIT && x.actor == root);
        let told = find(&|x| x.kind as u32 == ev::EXIT_MSG && x.actor == root);
        let finished = find(&|x| (x.kind as u32 == ev::TERMINATED || x.kind as u32 == ev::RETURN) && x.actor == root);
        // Signals while it runs.
        let sigs: Vec<usize> = (0..end).filter(|i| v.recs[*i].kind as u32 == ev::FAULT && v.recs[*i].a[0] == simapi::fault::SIGNAL as i64 && *i > run && *i < ret.min(down)).collect();
        if ret == INF && down == INF {
            if v.status == crate::shm::ST_END {
                o.v("no-return", format!("run {} did not return", r));
            }
            continue;
        }
        if ret != INF {
            if starts == 0 {
                o.v("not-started", "run returned without starting the application".into());
            }
            if up == INF && failed == INF && down == INF {
                o.v("early-return", "run returned before its start had ended".into());
            }
            if up != INF && kind != 3 && death > ret {
                o.v("early-return", "run returned before the root process had exited".into());
            }
            if up != INF && kind == 3 {
                // The root is a supervisor: its children must have been stopped before.
                let alive: i64 = v.recs[..ret].iter().map(|x| match x.kind as u32 {
                    ev::CHILD_UP if mine(x.actor) && x.actor != root => 1,
                    ev::DEATH if mine(x.actor) && x.actor % 100 < 30 && x.actor != root => -1,
                    _ => 0,
                }).sum();
                if alive > 0 {
                    o.v("children-left", format!("{} children of the root were running when run returned", alive));
                }
            }
            for x in &v.recs[ret + 1..] {
                if mine(x.actor) && matches!(x.kind as u32, ev::DEATH | ev::NOTE | ev::EXIT_MSG | ev::TERMINATED | ev::CHILD_UP | ev::ORDER | ev::RETURN | ev::START | ev::SUP_DOWN | ev::EXIT) {
                    o.v("still-running", format!("actor {} was still running after run had returned", x.actor));
                }
            }
            if quick && death != INF && kind != 3 && time(ret) > time(death) + SLACK {
                o.v("late-return", format!("run returned {} ms after the root had exited", (time(ret) - time(death)) / 1_000_000));
            }
            if quick && failed != INF && time(ret) > time(failed) + SLACK {
                o.v("late-return", "run returned long after the start had failed".into());
            }
            if test {
                let clean = if up == INF { pp(r, 4) % 12 == 1 } else { kind != 3 && finished < death && own == INF };
                let dirty = (up == INF && pp(r, 4) % 12 == 0) || (kind != 3 && up != INF && own < death && v.recs[own].a[0] > 0);
                if clean && v.recs[ret].a[1] == 0 {
                    o.v("test-failed", "a test run panicked although the root exited cleanly".into());
                }
                if dirty && v.recs[ret].a[1] != 0 {
                    o.v("test-passed", "a test run did not panic although the root failed".into());
                }
            }
        }
        if !graceful && told != INF && told < ret && !(kind == 1 && told > own) {
            o.v("intercepted", "the root was told to shut down although graceful shutdown is off".into());
        }
        if down != INF && down > run && down < ret {
            // The first signal ended the program: legal only as long as nothing listens for it.
            if graceful && up != INF && quick && time(down) > time(up) + SLACK && death > down {
                o.v("not-intercepted", "a signal ended the program although graceful shutdown is on".into());
            }
            break;
        }
        if up == INF || ret == INF {
            continue;
        }
        if !graceful && !test && !sigs.is_empty() && r == 0 {
            o.v("swallowed", "a signal was ignored although graceful shutdown is off".into());
        }
        let first = sigs.iter().copied().find(|s| *s > run).unwrap_or(INF);
        let natural = own.min(killed);
        if graceful && first != INF {
            asked += 1;
            let at = time(first);
            // A signal taken while the application starts is one of the last run, or ignored.
            let clear = first > up && time(first) > time(up) + SLACK && quick;
            if clear && natural > first && death > first {
                // Asked at once...
                match kind {
                    1 | 2 if told == INF && time(death) > at + SLACK => o.v("not-asked", "the root was not told to shut down after a signal".into()),
                    1 | 2 if told != INF && time(told) > at + SLACK && told < natural => o.v("asked-late", "the root was told to shut down long after a signal".into()),
                    0 if time(death) > at + SLACK && natural > death => o.v("not-asked", "the root went on after a signal".into()),
                    3 if time(death) > at + limit + SLACK && natural > death => o.v("not-killed", "the root was still running after the graceful time".into()),
                    _ => {}
                }
                // ... and killed, but only after its time.
                if (1..=2).contains(&kind) && natural > death && time(death) > at + limit + SLACK && finished > death {
                    o.v("killed-late", format!("the root was killed {} ms after the signal, the limit is {} ms", (time(death) - at) / 1_000_000, limit / 1_000_000));
                }
            }
            if (1..=2).contains(&kind) && first > root_kind && finished > death && natural > death && death < ret && time(death) < at + limit {
                o.v("killed-early", format!("the root was killed {} ms after the signal, the limit is {} ms", (time(death).saturating_sub(at)) / 1_000_000, limit / 1_000_000));
            }
            // A supervisor gives its children their time.
            if kind == 3 && clear && natural > death && death < ret {
                let mut need = 0;
                let mut up_: BTreeMap<u32, i64> = BTreeMap::new();
                for x in &v.recs[..ret] {
                    if mine(x.actor) && x.kind as u32 == ev::CHILD_UP && x.actor != root {
                        up_.insert(x.actor, x.a[0]);
                        need += x.a[1] as u64 + 30;
                    }
                }
                if need * 1_000_000 < limit {
                    for (c, trap) in up_ {
                        let d = find(&|x| x.kind as u32 == ev::DEATH && x.actor == c);
                        let t = find(&|x| x.kind as u32 == ev::TERMINATED && x.actor == c);
                        if trap > 0 && d > first && t > d {
                            o.v("child-killed", format!("child {} was killed by a graceful shutdown", c));
                        }
                    }
                }
            }
        } else if natural > death && killed > death && kind >= 0 && kind < 3 && death < ret && first == INF {
            // Nobody asked it to end: it must have ended by itself.
            if own > death && !(kind == 0 || kind == 1) || (finished > death && own > death && first == INF) {
                o.v("ended", "the root ended although nothing told it to".into());
            }
        }
    }
    o.probe_if(asked > 0, "a graceful shutdown");
    o.probe_if(down != INF, "a signal ended the program");
    o.probe_if(v.recs.iter().any(|r| r.kind as u32 == ev::APP_RUN && r.a[0] == 1), "a second run");
    o.nontrivial = v.recs.iter().any(|r| r.kind as u32 == ev::APP_START && r.a[1] == 1);
    o
}
