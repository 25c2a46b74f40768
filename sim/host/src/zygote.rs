//! The process that holds preloaded copies of the node library and forks once per run.
use std::ffi::CString;
use std::io::{Read, Write};

use crate::shm::*;
use crate::sim::{self, Lib};

pub fn map_fixed(fd: i32) {
    unsafe {
        let p = libc::mmap(
            SHM_ADDR as *mut _,
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_FIXED,
            fd,
            0,
        );
        if p as usize != SHM_ADDR {
            eprintln!("simhost: cannot map the shared memory");
            std::process::exit(3);
        }
    }
}

fn load(path: &str) -> Lib {
    unsafe {
        sim::begin_load();
        let c = CString::new(path).unwrap();
        let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(libc::dlerror());
            eprintln!("simhost: dlopen {}: {:?}", path, e);
            std::process::exit(3);
        }
        let sym = |n: &[u8]| {
            let p = libc::dlsym(h, n.as_ptr() as *const _);
            if p.is_null() {
                eprintln!("simhost: symbol missing in {}", path);
                std::process::exit(3);
            }
            std::mem::transmute::<*mut libc::c_void, extern "C" fn()>(p)
        };
        let main = sym(b"node_main\0");
        let mut info: libc::Dl_info = std::mem::zeroed();
        libc::dladdr(main as *const _, &mut info);
        Lib {
            main,
            worker: sym(b"node_worker_main\0"),
            blocking: sym(b"node_blocking_main\0"),
            base: info.dli_fbase as u64,
        }
    }
}

/// argv: simhost zygote LIB...   (fd 3: shared memory, fd 0/1: one byte per run)
pub fn main(args: &[String]) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::mallopt(libc::M_ARENA_MAX, 1);
    }
    map_fixed(3);
    let libs: Vec<Lib> = args.iter().map(|p| load(p)).collect();
    let libs: &'static [Lib] = Box::leak(libs.into_boxed_slice());
    let shm = Shm::get();
    // The table of program counters belongs to the copy loaded last.
    let base = libs.last().unwrap().base;
    for i in 1..=shm.n_guards as usize {
        shm.pcs[i] = shm.pcs[i].wrapping_sub(base);
    }
    let mut byte = [0u8; 1];
    let mut out = std::io::stdout();
    out.write_all(b"R").unwrap();
    out.flush().unwrap();
    loop {
        if std::io::stdin().read(&mut byte).unwrap_or(0) != 1 {
            std::process::exit(0);
        }
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = |r, v| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_CPU, 15);
                lim(libc::RLIMIT_CORE, 0);
                lim(libc::RLIMIT_DATA, 3 << 30);
                let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                libc::dup2(null, 1);
                libc::dup2(null, 0);
                if std::env::var_os("SIM_STDERR").is_none() {
                    libc::dup2(null, 2);
                }
                sim::run(libs);
            }
            if pid < 0 {
                shm.status = ST_HOST_ERROR;
            } else {
                let mut st = 0;
                while libc::waitpid(pid, &mut st, 0) < 0 {}
                if libc::WIFSIGNALED(st) {
                    let sig = libc::WTERMSIG(st);
                    shm.exit = sig;
                    shm.status = if sig == libc::SIGXCPU { ST_HANG } else if sig == libc::SIGKILL { ST_HOST_ERROR } else { ST_DIED };
                } else if shm.status == ST_NONE {
                    shm.exit = -libc::WEXITSTATUS(st) - 1;
                    shm.status = ST_DIED;
                }
            }
        }
        if out.write_all(b"D").is_err() {
            std::process::exit(0);
        }
        out.flush().unwrap();
    }
}
