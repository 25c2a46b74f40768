//! The scenarios: what the nodes of a simulated run execute on the real hydra.
#![allow(clippy::all)]
mod aliases;
mod app;
mod dist;
mod dist2;
mod dist3;
mod dist4;
mod dist5;
mod dist6;
mod ws;
mod info;
mod life;
mod msgs;
mod names;
mod reg;
mod ring;
mod sema;
mod select;
mod server;
mod sup;
mod timers;
mod w;

#[no_mangle]
pub extern "C" fn node_worker_main() {
    tokio::simrt::worker_main()
}
#[no_mangle]
pub extern "C" fn node_blocking_main() {
    tokio::simrt::blocking_main()
}
#[no_mangle]
pub extern "C" fn node_main() {
    w::install_panic_hook();
    match unsafe { simapi::sim_scenario() } {
        1 => run(msgs::c01()),
        2 => run(select::c02()),
        n @ 3..=5 => run(life::life(n)),
        6 => run(names::c06()),
        7 => run(timers::c07()),
        8 => run(aliases::c08()),
        9 => run(server::c09()),
        10 => run(server::c10()),
        110 => run(sup::seq(false)),
        111 => run(sup::race()),
        120 => run(sup::trees()),
        130 => run(sup::seq(true)),
        131 => run(sup::tables()),
        14 => run(reg::c14()),
        15 => run(dist::c15(false)),
        151 => run(dist::c15(true)),
        17 => run(dist3::c17(false)),
        171 => run(dist3::c17(true)),
        172 => run(dist3::times()),
        19 => run(dist5::c19(false)),
        191 => run(dist5::c19(true)),
        20 => run(dist6::c20(true)),
        201 => run(dist6::c20(false)),
        24 => run(ws::c24()),
        18 | 181 => run(dist4::c18()),
        16 => run(dist2::c16(false)),
        161 => run(dist2::c16(true)),
        210 => run(sema::semaphores()),
        211 => run(sema::tasks()),
        25 => run(info::c25(false)),
        251 => run(info::c25(true)),
        26 => info::c26(),
        22 => run(ring::c22()),
        23 => app::c23(),
        n => panic!("unknown scenario {}", n),
    }
}
pub fn run<F: std::future::Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Runtime::new().unwrap();
    rt.block_on(f);
    w::end()
}
