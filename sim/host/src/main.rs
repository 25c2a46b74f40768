mod interpose;
mod json;
mod lin;
mod net;
mod o_info;
mod o_life;
mod o_local;
mod o_proc;
mod o_app;
mod o_dist;
mod o_dist2;
mod o_dist3;
mod o_dist4;
mod o_dist5;
mod o_dist6;
mod o_ws;
mod o_reg;
mod o_ring;
mod o_sema;
mod o_srv;
mod o_sup;
mod pool;
mod props;
mod search;
mod shm;
mod sim;
mod zygote;

use std::time::{Duration, Instant};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}
/// Copies of the node library, one per node incarnation of a run.
fn libs(root: &str, lib: &str) -> Vec<String> {
    let dir = format!("{}/sim/target/copies", root);
    let _ = std::fs::create_dir_all(&dir);
    (0..pool::LIB_COPIES)
        .map(|i| {
            let p = format!("{}/node{}.so", dir, i);
            let src = std::fs::metadata(lib).expect("node library missing; build first");
            let fresh = std::fs::metadata(&p).map(|m| m.len() == src.len() && m.modified().unwrap() >= src.modified().unwrap()).unwrap_or(false);
            if !fresh {
                std::fs::copy(lib, format!("{}.tmp{}", p, std::process::id())).expect("copy");
                std::fs::rename(format!("{}.tmp{}", p, std::process::id()), &p).expect("rename");
            }
            p
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("zygote") {
        zygote::main(&args[2..]);
    }
    let root = arg(&args, "--root").unwrap_or_else(|| "/verif".into());
    let lib = format!("{}/sim/target/debug/libsimnode.so", root);
    let prop = |id: &str| match props::PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("simhost: no property {}", id);
            std::process::exit(3);
        }
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
            let secs = arg(&args, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 16 });
            let cfg = search::Config {
                prop: prop(&args[2]),
                libs: libs(&root, &lib),
                seed,
                thorough,
                budget: Duration::from_secs(secs),
                jobs: arg(&args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
                root: root.clone(),
                only_mode: arg(&args, "--mode").and_then(|s| s.parse().ok()),
            };
            std::process::exit(search::check(&cfg));
        }
        Some("replay") => {
            // simhost replay FILE: exit 1 if the violation shows again.
            let j = json::J::parse(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            let p = prop(j.get("property").text());
            let (mi, inp) = search::replay_load(&j);
            let mut proc = pool::Proc::start(&libs(&root, &lib));
            let v = proc.run(&inp);
            let out = search::judge(p, mi, &v);
            print_history(&v);
            let key = j.get("violation").text();
            let same = out.viols.iter().any(|x| x.key == key);
            for x in &out.viols {
                println!("violation {}: {}", x.key, x.text);
            }
            println!("history hash {} (recorded {})", v.hash(), j.get("history_hash").u64());
            if same {
                println!("VIOLATION property={} replay={}", p.id, args[2]);
            }
            std::process::exit(same as i32);
        }
        Some("run") => {
            // simhost run PROP N: one generated run, printed.
            let p = prop(&args[2]);
            let n: u64 = args[3].parse().unwrap();
            let l = libs(&root, &lib);
            let mut proc = pool::Proc::start(&l);
            let e = search::edge_info(&l[0], &proc.shm.pcs, proc.shm.n_guards as usize);
            proc = proc.own(&e);
            let (mi, inp) = search::generate(p, seed, n, &e, arg(&args, "--mode").and_then(|s| s.parse().ok()));
            let mut v = proc.run(&inp);
            if args.iter().any(|a| a == "--explicit") {
                v = proc.run(&search::explicit(&inp, &v));
            }
            print_history(&v);
            for p in &v.preempts {
                println!("preempt {:?}", p);
            }
            println!("mode {} status {} {} {} stats {:?}", mi, shm::status_name(v.status), v.exit, v.note, v.stats);
            let t = Instant::now();
            for x in search::judge(p, mi, &v).viols {
                println!("violation {}: {}", x.key, x.text);
            }
            println!("judge {:?}", t.elapsed());
        }
        Some("selftest") => selftest(&root, &lib, seed, args.get(2).map(|s| s.as_str())),
        _ => {
            eprintln!("usage: simhost check ID [--tier quick|thorough] [--seconds N] | replay FILE | run ID N | selftest [ID]");
            std::process::exit(3);
        }
    }
}

fn print_history(v: &pool::View) {
    for r in &v.recs {
        println!(
            "{:>12.6} n{}.{} {:<12} a{:<3} {:?} {}",
            r.time as f64 / 1e9,
            r.node & 255,
            r.node >> 8,
            simapi::ev::name(r.kind as u32),
            r.actor,
            r.a,
            v.str(r)
        );
    }
}

/// Every run twice in different processes, in different orders, and once from its recorded decisions.
fn selftest(root: &str, lib: &str, seed: u64, only: Option<&str>) {
    let l = libs(root, lib);
    let mut bad = 0;
    let mut total = 0;
    for p in props::PROPS {
        if only.is_some_and(|o| o != p.id) {
            continue;
        }
        let e = {
            let proc = pool::Proc::start(&l);
            search::edge_info(&l[0], &proc.shm.pcs, proc.shm.n_guards as usize)
        };
        let per = 200u64;
        let run = |order: Vec<u64>, exp: bool| -> Vec<(u64, u64)> {
            let mut out: Vec<(u64, u64)> = Vec::new();
            let chunks: Vec<Vec<u64>> = order.chunks(25).map(|c| c.to_vec()).collect();
            let res = std::sync::Mutex::new(Vec::new());
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= chunks.len() {
                            break;
                        }
                        let mut proc = pool::Proc::start(&l).own(&e);
                        for n in &chunks[i] {
                            let (_, inp) = search::generate(p, seed, *n, &e, None);
                            let mut v = proc.run(&inp);
                            if exp {
                                v = proc.run(&search::explicit(&inp, &v));
                            }
                            res.lock().unwrap().push((*n, v.hash()));
                        }
                    });
                }
            });
            out.extend(res.into_inner().unwrap());
            out.sort();
            out
        };
        let a = run((0..per).collect(), false);
        let b = run((0..per).rev().collect(), false);
        let c = run((0..per).collect(), true);
        for i in 0..per as usize {
            total += 1;
            if a[i] != b[i] || a[i] != c[i] {
                bad += 1;
                if bad < 20 {
                    println!("selftest {}: run {} differs: {:?} {:?} {:?}", p.id, a[i].0, a[i].1, b[i].1, c[i].1);
                }
            }
        }
        println!("selftest {}: {} runs compared", p.id, per);
    }
    println!("selftest: {} of {} runs not repeatable", bad, total);
    std::process::exit((bad > 0) as i32);
}
