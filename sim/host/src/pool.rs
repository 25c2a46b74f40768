//! The driver's view: simulation processes, run inputs and run results.
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

use simapi::{Fault, Op, Rec};

use crate::shm::*;

pub const LIB_COPIES: usize = 6;

#[derive(Clone, Debug, PartialEq)]
pub struct Input {
    pub spec: Spec,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    pub choices: Vec<(u32, u32)>,
    pub preempts: Vec<Preempt>,
}

/// A finished run.
#[derive(Clone)]
pub struct View {
    pub spec: Spec,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    pub status: u32,
    pub exit: i32,
    pub note: String,
    pub stats: Stats,
    pub recs: Vec<Rec>,
    pub strs: Vec<u8>,
    pub choices: Vec<(u32, u32)>,
    pub preempts: Vec<Preempt>,
}
impl View {
    pub fn str(&self, r: &Rec) -> String {
        String::from_utf8_lossy(self.bytes(r)).into_owned()
    }
    pub fn bytes(&self, r: &Rec) -> &[u8] {
        &self.strs[r.s_off as usize..(r.s_off + r.s_len) as usize]
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::sim::mix(self.status as u64);
        for r in &self.recs {
            h = crate::sim::mix2(h, r.time);
            h = crate::sim::mix2(h, (r.node as u64) << 48 | (r.kind as u64) << 32 | r.actor as u64);
            for v in r.a {
                h = crate::sim::mix2(h, v as u64);
            }
            for b in self.bytes(r) {
                h = crate::sim::mix2(h, *b as u64);
            }
        }
        h = crate::sim::mix2(h, self.stats.sched_hash);
        crate::sim::mix2(h, self.stats.edges)
    }
    /// Order of events without times: one measure of distinct behaviours.
    pub fn shape(&self) -> u64 {
        let mut h = self.status as u64;
        for r in &self.recs {
            h = crate::sim::mix2(h, (r.node as u64) << 48 | (r.kind as u64) << 32 | r.actor as u64);
        }
        h
    }
}

pub struct Proc {
    child: Child,
    pub shm: &'static mut Shm,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe { libc::munmap(self.shm as *mut Shm as *mut _, std::mem::size_of::<Shm>()) };
    }
}
impl Proc {
    pub fn start(libs: &[String]) -> Proc {
        unsafe {
            let fd = libc::memfd_create(b"sim\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
            assert!(fd >= 0, "memfd_create failed");
            let size = std::mem::size_of::<Shm>();
            assert_eq!(libc::ftruncate(fd, size as i64), 0);
            let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED, "mmap failed");
            let exe = std::env::current_exe().unwrap();
            let mut cmd = Command::new(exe);
            cmd.arg("zygote").args(libs).stdin(Stdio::piped()).stdout(Stdio::piped());
            cmd.env("RUST_BACKTRACE", "0");
            cmd.env_remove("LD_LIBRARY_PATH");
            cmd.pre_exec(move || {
                libc::dup2(fd, 3);
                libc::fcntl(3, libc::F_SETFD, 0);
                libc::personality(0x0040000);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
            let mut child = cmd.spawn().expect("cannot start a simulation process");
            libc::close(fd);
            let mut b = [0u8; 1];
            child.stdout.as_mut().unwrap().read_exact(&mut b).expect("simulation process did not start");
            let _ = (b, std::fs::File::from_raw_fd as unsafe fn(i32) -> std::fs::File);
            let _ = child.stdin.as_ref().unwrap().as_raw_fd();
            Proc { child, shm: &mut *(p as *mut Shm) }
        }
    }
    /// Lets it know which edges are those of the code under test.
    pub fn own(mut self, e: &crate::search::EdgeInfo) -> Proc {
        self.shm.own[..e.own_bits.len()].copy_from_slice(&e.own_bits);
        self
    }
    pub fn run(&mut self, inp: &Input) -> View {
        let s = &mut *self.shm;
        s.spec = inp.spec;
        s.spec.nops = inp.ops.len().min(MAX_OPS) as u32;
        s.spec.nfaults = inp.faults.len().min(MAX_FAULTS) as u32;
        s.spec.nchoices = inp.choices.len().min(MAX_CHOICES) as u32;
        s.spec.npreempts = inp.preempts.len().min(MAX_PREEMPTS) as u32;
        s.ops[..s.spec.nops as usize].copy_from_slice(&inp.ops[..s.spec.nops as usize]);
        s.fault_list[..s.spec.nfaults as usize].copy_from_slice(&inp.faults[..s.spec.nfaults as usize]);
        s.in_choices[..s.spec.nchoices as usize].copy_from_slice(&inp.choices[..s.spec.nchoices as usize]);
        s.in_preempts[..s.spec.npreempts as usize].copy_from_slice(&inp.preempts[..s.spec.npreempts as usize]);
        s.status = ST_NONE;
        s.exit = 0;
        s.note_len = 0;
        s.stats = Stats::default();
        s.n_choices = 0;
        s.n_preempts = 0;
        s.n_recs = 0;
        s.n_str = 0;
        let ok = self.child.stdin.as_mut().unwrap().write_all(b"G").is_ok();
        let mut b = [0u8; 1];
        let ok = ok && self.child.stdout.as_mut().unwrap().read_exact(&mut b).is_ok();
        let s = &*self.shm;
        let mut spec = inp.spec;
        spec.nops = 0;
        spec.nfaults = 0;
        spec.nchoices = 0;
        spec.npreempts = 0;
        View {
            spec,
            ops: inp.ops.clone(),
            faults: inp.faults.clone(),
            status: if ok { s.status } else { ST_HOST_ERROR },
            exit: s.exit,
            note: String::from_utf8_lossy(&s.note[..s.note_len as usize]).into_owned(),
            stats: s.stats,
            recs: s.recs[..s.n_recs as usize].to_vec(),
            strs: s.strs[..s.n_str as usize].to_vec(),
            choices: s.out_choices[..s.n_choices as usize].to_vec(),
            preempts: s.out_preempts[..s.n_preempts as usize].to_vec(),
        }
    }
}
