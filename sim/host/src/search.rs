//! Seeded search over runs of one property, minimisation, replay files and evidence.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use simapi::{fault, Fault, Op};

use crate::json::J;
use crate::pool::*;
use crate::props::{Mode, Out, Prop, Viol};
use crate::shm::*;
use crate::sim::{mix2, mix3, Rng, MS, SEC, US};

pub struct Config {
    pub prop: &'static Prop,
    pub libs: Vec<String>,
    pub seed: u64,
    pub thorough: bool,
    pub budget: Duration,
    pub jobs: usize,
    pub root: String,
    pub only_mode: Option<usize>,
}

/// The input of run number `n`.
pub fn generate(prop: &Prop, seed: u64, n: u64, edges: &EdgeInfo, only_mode: Option<usize>) -> (usize, Input) {
    let id = prop.id.bytes().fold(7u64, |h, b| mix2(h, b as u64));
    let mut r = Rng(mix3(seed, id, n));
    let total: u64 = prop.modes.iter().map(|m| m.weight as u64).sum();
    let mut k = r.below(total);
    let mut mi = 0;
    for (i, m) in prop.modes.iter().enumerate() {
        if k < m.weight as u64 {
            mi = i;
            break;
        }
        k -= m.weight as u64;
    }
    if let Some(m) = only_mode {
        mi = m;
    }
    let m = &prop.modes[mi];
    let mut spec = Spec {
        scenario: m.scenario,
        nodes: m.nodes.0 + r.below((m.nodes.1 - m.nodes.0 + 1) as u64) as u32,
        seed: r.next(),
        explicit: 0,
        workers: 1 + r.below(4) as u32,
        max_steps: 400_000,
        max_time: m.max_time_s * SEC,
        max_edges: 30_000_000,
        ..Spec::default()
    };
    spec.sched = [0, 1, 1, 1, 2, 2, 3, 4][r.below(8) as usize];
    spec.time_jump = if m.stalls { [0, 0, 10, 100][r.below(4) as usize] } else { 0 };
    match r.below(8) {
        0 => {}
        1 | 2 | 3 => {
            spec.preempt_mean = [15, 50, 150, 500, 2000, 8000][r.below(6) as usize];
            spec.max_preempts = [3, 30, 1000][r.below(3) as usize];
        }
        _ => {}
    }
    spec.park_max = if m.stalls { [0, 0, 2 * MS, 30 * MS, 300 * MS][r.below(5) as usize] } else { 0 };
    if r.chance(1, 2) && !edges.target.is_empty() {
        let k = 1 + r.below(3) as usize;
        let focus: Vec<&Vec<Vec<u32>>> = prop.focus.iter().filter_map(|f| edges.own.get(*f)).filter(|g| !g.is_empty()).collect();
        for i in 0..k {
            spec.target[i] = if focus.is_empty() || r.chance(1, 3) {
                edges.target[r.below(edges.target.len() as u64) as usize]
            } else {
                let g = focus[r.below(focus.len() as u64) as usize];
                let f = &g[r.below(g.len() as u64) as usize];
                f[r.below(f.len() as u64) as usize]
            };
            spec.target_n[i] = 1 + match r.below(4) {
                0 => 0,
                1 => r.below(3),
                2 => r.below(10),
                _ => r.below(40),
            } as u32;
        }
    }
    if r.chance(1, 3) {
        spec.rare = [4, 16, 64][r.below(3) as usize];
        spec.rare_hits = [1, 2, 8][r.below(3) as usize];
    }
    if r.chance(1, 4) {
        spec.wake = [1, 2, 8, 40][r.below(4) as usize];
        spec.wake_hits = [1, 2, 4][r.below(3) as usize];
        spec.wake_to = u32::MAX;
        let focus: Vec<&Vec<Vec<u32>>> = prop.focus.iter().filter_map(|f| edges.own.get(*f)).filter(|g| !g.is_empty()).collect();
        if !focus.is_empty() && r.chance(3, 4) {
            let g = focus[r.below(focus.len() as u64) as usize];
            let f = &g[r.below(g.len() as u64) as usize];
            spec.wake_from = *f.iter().min().unwrap();
            spec.wake_to = *f.iter().max().unwrap();
        }
    }
    // A thread that is late for once.
    if !m.stalls && (spec.target[0] != 0 || spec.rare > 0 || spec.wake > 0) && r.chance(1, 2) {
        spec.target_park = [MS, 5 * MS][r.below(2) as usize];
    }
    if spec.target_park > 0 && r.chance(1, 4) {
        spec.time_jump = [2, 10, 50][r.below(3) as usize];
    }
    spec.lat_base = [50 * US, 300 * US, MS, 5 * MS, 40 * MS][r.below(5) as usize];
    spec.lat_jitter = [0, 0, MS, 10 * MS, 50 * MS][r.below(5) as usize];
    if spec.target_park > 0 && r.chance(2, 3) {
        // Late compared with the network.
        spec.lat_base = [50 * US, 300 * US][r.below(2) as usize];
        spec.lat_jitter = 0;
    }
    spec.frag = r.below(3) as u32;
    spec.sndbuf = [65536, 65536, 65536, 16384, 4096, 2304][r.below(6) as usize];
    for p in spec.params.iter_mut() {
        *p = r.below(1 << 16) as u32;
    }
    // Some operations get switched off in a run.
    let nops = m.ops.0 as u64 + r.below((m.ops.1 - m.ops.0 + 1) as u64);
    let nops = if r.chance(1, 3) { nops.min(m.ops.0 as u64 + 6) } else { nops };
    let mut kinds: Vec<u32> = (0..16).map(|_| r.below(1 << 16) as u32).collect();
    if r.chance(1, 2) {
        kinds.truncate(2 + r.below(6) as usize);
    }
    let ops: Vec<Op> = (0..nops)
        .map(|_| {
            let mut o = [0u32; 8];
            for f in o.iter_mut() {
                *f = r.below(1 << 16) as u32;
            }
            o[0] = if r.chance(1, 8) { o[0] } else { kinds[r.below(kinds.len() as u64) as usize] };
            o
        })
        .collect();
    let mut faults: Vec<Fault> = Vec::new();
    if m.max_faults > 0 && !m.faults.is_empty() && r.chance(m.fault_chance as u64, 100) {
        let nf = 1 + r.below(m.max_faults as u64);
        let tw: u64 = m.faults.iter().map(|f| f.1 as u64).sum();
        for _ in 0..nf {
            let mut k = r.below(tw);
            let mut kind = 0;
            for f in m.faults {
                if k < f.1 as u64 {
                    kind = f.0;
                    break;
                }
                k -= f.1 as u64;
            }
            let mut f = Fault { kind, ..Fault::default() };
            if r.chance(1, 2) {
                f.trigger = 0;
                f.at = r.below(m.fault_window_ms * 1000);
            } else {
                f.trigger = 1;
                f.at = 1 + r.below(m.fault_recs as u64);
            }
            let nn = spec.nodes as u64;
            let dur = |r: &mut Rng| -> u32 {
                let v = [200u64, 3_000, 30_000, 300_000, 3_000_000, 20_000_000, 70_000_000];
                let cap = v.iter().take_while(|x| **x <= m.max_dur_us).count().max(1) as u64;
                let k = v[r.below(cap) as usize];
                (r.below(k.max(1)) + 100) as u32
            };
            f.a[0] = r.below(nn) as u32;
            f.a[1] = r.below(nn) as u32;
            match kind {
                fault::PARTITION | fault::ONEWAY | fault::REFUSE => f.a[2] = dur(&mut r),
                fault::CRASH => {
                    f.a[1] = r.below(3) as u32;
                    f.a[2] = if r.chance(3, 4) { dur(&mut r) } else { 0 };
                    f.a[3] = (m.crash0 && r.chance(1, 3)) as u32;
                }
                fault::PAUSE => f.a[1] = dur(&mut r),
                fault::SLOW => {
                    f.a[2] = dur(&mut r).min(2_000_000);
                    f.a[3] = dur(&mut r);
                }
                fault::SIGNAL => f.a[1] = r.below(2) as u32,
                _ => {}
            }
            faults.push(f);
        }
    }
    (mi, Input { spec, ops, faults, choices: vec![], preempts: vec![] })
}

#[derive(Default, Clone)]
pub struct EdgeInfo {
    /// Edges worth interrupting at.
    pub target: Vec<u32>,
    /// The edges of the functions of each module.
    pub own: BTreeMap<String, Vec<Vec<u32>>>,
    pub own_bits: Vec<u8>,
    pub in_hydra: Vec<bool>,
    pub names: Vec<u32>,
    pub name_list: Vec<String>,
}

/// Classifies instrumented edges by the function they lie in (from the symbol table of the library).
pub fn edge_info(lib: &str, pcs: &[u64], n: usize) -> EdgeInfo {
    let data = std::fs::read(lib).unwrap_or_default();
    let u16a = |o: usize| u16::from_le_bytes(data[o..o + 2].try_into().unwrap()) as usize;
    let u32a = |o: usize| u32::from_le_bytes(data[o..o + 4].try_into().unwrap()) as usize;
    let u64a = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap()) as usize;
    let mut syms: Vec<(u64, u64, String)> = Vec::new();
    if data.len() > 64 {
        let shoff = u64a(0x28);
        let (es, num) = (u16a(0x3a), u16a(0x3c));
        for i in 0..num {
            let sh = shoff + i * es;
            if u32a(sh + 4) == 2 {
                let (off, size, link) = (u64a(sh + 0x18), u64a(sh + 0x20), u32a(sh + 0x28));
                let stroff = u64a(shoff + link * es + 0x18);
                for k in 0..size / 24 {
                    let s = off + k * 24;
                    if data[s + 4] & 0xf == 2 {
                        let no = stroff + u32a(s);
                        let end = data[no..].iter().position(|b| *b == 0).unwrap() + no;
                        syms.push((u64a(s + 8) as u64, u64a(s + 16) as u64, String::from_utf8_lossy(&data[no..end]).into_owned()));
                    }
                }
            }
        }
    }
    syms.sort();
    let mut e = EdgeInfo { target: vec![], own: BTreeMap::new(), own_bits: vec![], in_hydra: vec![false; n + 1], names: vec![0; n + 1], name_list: vec!["?".into()] };
    let mut ids: BTreeMap<usize, u32> = BTreeMap::new();
    let mut own: BTreeMap<(String, String), Vec<u32>> = BTreeMap::new();
    for g in 1..=n {
        let pc = pcs[g];
        let i = syms.partition_point(|s| s.0 <= pc);
        if i == 0 {
            continue;
        }
        let s = &syms[i - 1];
        if pc >= s.0 + s.1.max(1) {
            continue;
        }
        let nm = *ids.entry(i - 1).or_insert_with(|| {
            e.name_list.push(s.2.clone());
            e.name_list.len() as u32 - 1
        });
        e.names[g] = nm;
        let h = s.2.contains("5hydra") || s.2.contains("16hydra_websockets");
        e.in_hydra[g] = h;
        if h {
            e.target.push(g as u32);
            let path = defined_in(&s.2);
            if path.len() > 1 && path[0].starts_with("hydra") {
                let generic = s.2.starts_with("_RI") || s.2.trim_start_matches("_RNC").trim_start_matches("NC").starts_with('I');
                own.entry((path[1].clone(), if generic { path.join("::") } else { s.2.clone() })).or_default().push(g as u32);
            }
        }
    }
    e.own_bits = vec![0; n + 1];
    for g in own.values().flatten() {
        e.own_bits[*g as usize] = 2;
    }
    for ((module, _), edges) in own {
        e.own.entry(module).or_default().push(edges);
    }
    e
}

/// Crate, module and what follows of the place that a (v0) mangled function is defined at.
fn defined_in(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let Some(mut i) = s.find("Cs") else { return out };
    i += 2;
    while i < b.len() && b[i] != b'_' {
        i += 1;
    }
    i += 1;
    loop {
        if i < b.len() && b[i] == b's' {
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
        }
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        let n: usize = s.get(st..i).and_then(|x| x.parse().ok()).unwrap_or(0);
        if n == 0 {
            return out;
        }
        if i < b.len() && b[i] == b'_' {
            i += 1;
        }
        let Some(name) = s.get(i..i + n) else { return out };
        out.push(name.to_string());
        i += n;
    }
}

/// A readable form of a mangled name: the path components in it.
pub fn readable(s: &str) -> String {
    let b = s.as_bytes();
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let n: usize = s[st..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if n > 2 && i + n <= b.len() && b[i..i + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(s[i..i + n].to_string());
                i += n;
            }
        } else {
            i += 1;
        }
    }
    out.truncate(8);
    out.join("::")
}

pub fn judge(prop: &Prop, mi: usize, v: &View) -> Out {
    let m = &prop.modes[mi];
    let mut out = (m.check)(v);
    crate::props::generic(prop, m, v, &mut out);
    out
}

/// The recorded run as an explicit one: every decision written down.
pub fn explicit(inp: &Input, v: &View) -> Input {
    let mut x = inp.clone();
    x.spec.explicit = 1;
    x.spec.preempt_mean = 0;
    x.spec.target = [0; 4];
    x.spec.target_n = [0; 4];
    x.spec.target_park = 0;
    x.spec.rare = 0;
    x.spec.wake = 0;
    x.spec.wake_hits = 0;
    x.spec.wake_from = 0;
    x.spec.wake_to = 0;
    x.spec.time_jump = 0;
    x.choices = v.choices.clone();
    x.preempts = v.preempts.clone();
    x
}

struct Mini<'a> {
    cfg: &'a Config,
    mi: usize,
    key: String,
    p: Proc,
    runs: u64,
    until: Instant,
    best: Input,
}
impl Mini<'_> {
    fn fails(&mut self, x: &Input) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        self.runs += 1;
        let v = self.p.run(x);
        let out = judge(self.cfg.prop, self.mi, &v);
        if out.viols.iter().any(|w| w.key == self.key) {
            self.best = x.clone();
            true
        } else {
            false
        }
    }
    fn list<T: Clone>(&mut self, get: fn(&mut Input) -> &mut Vec<T>) {
        let mut n = get(&mut self.best).len();
        n = n.div_ceil(2);
        while n >= 1 && Instant::now() < self.until {
            let mut i = 0;
            while i < get(&mut self.best).len() {
                let mut x = self.best.clone();
                let v = get(&mut x);
                let e = (i + n).min(v.len());
                v.drain(i..e);
                if !self.fails(&x) {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
    }
    fn run(&mut self) {
        for round in 0..4 {
            let before = self.best.clone();
            // Simplify whole dimensions first.
            let edits: [fn(&mut Input); 9] = [
                |x| x.faults.clear(),
                |x| x.preempts.clear(),
                |x| x.choices.clear(),
                |x| x.spec.workers = 1,
                |x| x.spec.frag = 0,
                |x| x.spec.lat_jitter = 0,
                |x| x.spec.sndbuf = 65536,
                |x| x.spec.lat_base = 300 * US,
                |x| {
                    x.spec.sched = 0;
                },
            ];
            for e in edits {
                let mut x = self.best.clone();
                e(&mut x);
                if x != self.best {
                    self.fails(&x);
                }
            }
            self.list(|x| &mut x.ops);
            self.list(|x| &mut x.faults);
            self.list(|x| &mut x.preempts);
            self.list(|x| &mut x.choices);
            // Smaller numbers.
            for i in 0..MAX_OPS {
                if i >= self.best.ops.len() {
                    break;
                }
                for k in 0..8 {
                    for v in [0, self.best.ops[i][k] % 4, self.best.ops[i][k] % 16, self.best.ops[i][k] / 2] {
                        if self.best.ops[i][k] > v {
                            let mut x = self.best.clone();
                            x.ops[i][k] = v;
                            if self.fails(&x) {
                                break;
                            }
                        }
                    }
                }
            }
            for i in 0..simapi::MAX_PARAMS {
                if self.best.spec.params[i] != 0 {
                    let mut x = self.best.clone();
                    x.spec.params[i] = 0;
                    if !self.fails(&x) && round == 0 {
                        let mut x = self.best.clone();
                        x.spec.params[i] %= 16;
                        self.fails(&x);
                    }
                }
            }
            for i in 0..self.best.preempts.len() {
                if i < self.best.preempts.len() && self.best.preempts[i].park > 1 {
                    for v in [0, 1] {
                        let mut x = self.best.clone();
                        x.preempts[i].park = v;
                        if self.fails(&x) {
                            break;
                        }
                    }
                }
            }
            if self.best == before || Instant::now() > self.until {
                break;
            }
        }
    }
}

pub fn replay_json(prop: &str, mi: usize, key: &str, text: &str, x: &Input, v: &View, edges: &EdgeInfo, found: (u64, u64)) -> J {
    let s = &x.spec;
    let n = |v: u64| if v > i64::MAX as u64 { J::Big(v) } else { J::Int(v as i64) };
    let mut hist = Vec::new();
    for r in v.recs.iter().take(3000) {
        hist.push(J::Str(format!(
            "{:>12.6}s n{}.{} {} a{} {:?} {}",
            r.time as f64 / 1e9,
            r.node & 255,
            r.node >> 8,
            simapi::ev::name(r.kind as u32),
            r.actor,
            r.a,
            v.str(r)
        )));
    }
    J::obj()
        .set("property", J::str(prop))
        .set("mode", J::Int(mi as i64))
        .set("violation", J::str(key))
        .set("what", J::str(text))
        .set("found_with", J::obj().set("VERIF_SEED", n(found.0)).set("run", n(found.1)))
        .set("status", J::str(status_name(v.status)))
        .set("history_hash", n(v.hash()))
        .set(
            "spec",
            J::obj()
                .set("scenario", n(s.scenario as u64))
                .set("nodes", n(s.nodes as u64))
                .set("seed", n(s.seed))
                .set("workers", n(s.workers as u64))
                .set("sched", n(s.sched as u64))
                .set("park_max", n(s.park_max))
                .set("lat_base", n(s.lat_base))
                .set("lat_jitter", n(s.lat_jitter))
                .set("frag", n(s.frag as u64))
                .set("sndbuf", n(s.sndbuf as u64))
                .set("max_steps", n(s.max_steps as u64))
                .set("max_time", n(s.max_time))
                .set("max_edges", n(s.max_edges))
                .set("params", J::Arr(s.params.iter().map(|p| n(*p as u64)).collect())),
        )
        .set("ops", J::Arr(x.ops.iter().map(|o| J::Arr(o.iter().map(|f| n(*f as u64)).collect())).collect()))
        .set(
            "faults",
            J::Arr(
                x.faults
                    .iter()
                    .map(|f| {
                        J::obj()
                            .set("kind", J::str(fault::NAMES[f.kind as usize % fault::NKINDS]))
                            .set("k", n(f.kind as u64))
                            .set("trigger", n(f.trigger as u64))
                            .set("at", n(f.at))
                            .set("a", J::Arr(f.a.iter().map(|p| n(*p as u64)).collect()))
                    })
                    .collect(),
            ),
        )
        .set("choices", J::Arr(x.choices.iter().map(|c| J::Arr(vec![n(c.0 as u64), n(c.1 as u64)])).collect()))
        .set(
            "preemptions",
            J::Arr(
                x.preempts
                    .iter()
                    .map(|p| {
                        let name = edges.names.get(p.guard as usize).map(|i| readable(&edges.name_list[*i as usize])).unwrap_or_default();
                        J::obj()
                            .set("task", n(p.key))
                            .set("edge", n(p.edge))
                            .set("park", n(p.park))
                            .set("in", J::Str(name))
                    })
                    .collect(),
            ),
        )
        .set("history", J::Arr(hist))
}
pub fn replay_load(j: &J) -> (usize, Input) {
    let s = j.get("spec");
    let g = |k: &str| s.get(k).u64();
    let mut spec = Spec {
        scenario: g("scenario") as u32,
        nodes: g("nodes") as u32,
        seed: g("seed"),
        explicit: 1,
        workers: g("workers") as u32,
        sched: g("sched") as u32,
        park_max: g("park_max"),
        lat_base: g("lat_base"),
        lat_jitter: g("lat_jitter"),
        frag: g("frag") as u32,
        sndbuf: g("sndbuf") as u32,
        max_steps: g("max_steps") as u32,
        max_time: g("max_time"),
        max_edges: g("max_edges"),
        ..Spec::default()
    };
    for (i, p) in s.get("params").arr().iter().take(simapi::MAX_PARAMS).enumerate() {
        spec.params[i] = p.u64() as u32;
    }
    let four = |j: &J| {
        let mut a = [0u32; 4];
        for (i, v) in j.arr().iter().take(4).enumerate() {
            a[i] = v.u64() as u32;
        }
        a
    };
    let inp = Input {
        spec,
        ops: j
            .get("ops")
            .arr()
            .iter()
            .map(|o| {
                let mut x = [0u32; 8];
                for (i, v) in o.arr().iter().take(8).enumerate() {
                    x[i] = v.u64() as u32;
                }
                x
            })
            .collect(),
        faults: j
            .get("faults")
            .arr()
            .iter()
            .map(|f| Fault {
                trigger: f.get("trigger").u64() as u32,
                kind: f.get("k").u64() as u32,
                at: f.get("at").u64(),
                a: four(f.get("a")),
            })
            .collect(),
        choices: j.get("choices").arr().iter().map(|c| (c.arr()[0].u64() as u32, c.arr()[1].u64() as u32)).collect(),
        preempts: j
            .get("preemptions")
            .arr()
            .iter()
            .map(|p| Preempt { key: p.get("task").u64(), edge: p.get("edge").u64(), park: p.get("park").u64(), guard: 0, _pad: 0 })
            .collect(),
    };
    (j.get("mode").u64() as usize, inp)
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    status: BTreeMap<&'static str, u64>,
    faults: [u64; fault::NKINDS],
    preempts: u64,
    parked_runs: u64,
    sim_ns: u64,
    steps: u64,
    switches: u64,
    tasks: u64,
    conns: u64,
    bytes: u64,
    segments: u64,
    recs: u64,
    probes: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    shapes: HashSet<u64>,
    nontrivial_shapes: HashSet<u64>,
    cov: Vec<bool>,
    by_mode: BTreeMap<usize, u64>,
    known: BTreeMap<String, u64>,
    det_checked: u64,
    det_bad: Vec<u64>,
    host_errors: u64,
    workers: BTreeMap<u32, u64>,
    samples: Vec<J>,
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}
pub fn load_known(root: &str) -> Vec<Known> {
    let mut out = Vec::new();
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    for l in t.lines() {
        // finding: property=C07 key=<violation key> <what fails>
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
            let k = it.next().unwrap_or("").trim_start_matches("key=").to_string();
            out.push(Known { property: p, key: k, what: it.next().unwrap_or("").to_string() });
        }
    }
    out
}

pub fn check(cfg: &Config) -> i32 {
    let t0 = Instant::now();
    let prop = cfg.prop;
    let known = load_known(&cfg.root);
    let first = Proc::start(&cfg.libs);
    let nguards = first.shm.n_guards as usize;
    let edges = edge_info(&cfg.libs[0], &first.shm.pcs, nguards);
    drop(first);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals { cov: vec![false; nguards + 1], ..Totals::default() });
    let found: Mutex<Vec<(u64, usize, Input, Viol)>> = Mutex::new(Vec::new());
    let search_start = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..cfg.jobs {
            sc.spawn(|| {
                let mut p = Proc::start(&cfg.libs).own(&edges);
                let mut n_local = 0u64;
                while !stop.load(Ordering::Relaxed) && search_start.elapsed() < cfg.budget {
                    let n = next.fetch_add(1, Ordering::Relaxed);
                    let (mi, inp) = generate(prop, cfg.seed, n, &edges, cfg.only_mode);
                    let v = p.run(&inp);
                    n_local += 1;
                    if v.status == ST_HOST_ERROR {
                        let mut t = totals.lock().unwrap();
                        t.host_errors += 1;
                        if t.host_errors < 4 {
                            eprintln!("host error in run {}: {}", n, v.note);
                        }
                        if t.host_errors > 50 {
                            stop.store(true, Ordering::Relaxed);
                        }
                        continue;
                    }
                    let out = judge(prop, mi, &v);
                    // Determinism: every 50th run is repeated with its recorded decisions.
                    let mut bad = false;
                    let det = n % 50 == 0;
                    if det {
                        let h = v.hash();
                        let v2 = p.run(&explicit(&inp, &v));
                        bad = v2.hash() != h;
                    }
                    let mut t = totals.lock().unwrap();
                    t.runs += 1;
                    *t.by_mode.entry(mi).or_default() += 1;
                    *t.status.entry(status_name(v.status)).or_default() += 1;
                    *t.workers.entry(inp.spec.workers).or_default() += 1;
                    for i in 0..fault::NKINDS {
                        t.faults[i] += v.stats.faults[i];
                    }
                    t.preempts += v.stats.preempts;
                    t.parked_runs += (v.stats.stall > 0) as u64;
                    t.sim_ns += v.stats.time;
                    t.steps += v.stats.steps;
                    t.switches += v.stats.switches;
                    t.tasks += v.stats.tasks;
                    t.conns += v.stats.net_conns;
                    t.bytes += v.stats.net_bytes;
                    t.segments += v.stats.net_segments;
                    t.recs += v.recs.len() as u64;
                    for (k, c) in &out.probes {
                        *t.probes.entry(k.to_string()).or_default() += c;
                    }
                    t.hashes.insert(v.stats.sched_hash);
                    let shape = v.shape();
                    t.shapes.insert(shape);
                    if out.nontrivial {
                        t.nontrivial += 1;
                        t.nontrivial_shapes.insert(shape);
                    }
                    if n_local % 16 == 1 {
                        for i in 1..=nguards {
                            if p.shm.cov[i] != 0 {
                                t.cov[i] = true;
                            }
                        }
                    }
                    if det {
                        t.det_checked += 1;
                        if bad {
                            t.det_bad.push(n);
                        }
                    }
                    if t.samples.len() < 3 && out.nontrivial {
                        let s = sample(n, mi, &inp, &v);
                        t.samples.push(s);
                    }
                    drop(t);
                    for w in out.viols {
                        if let Some(k) = known.iter().find(|k| k.property == prop.id && k.key == w.key) {
                            *totals.lock().unwrap().known.entry(k.key.clone()).or_default() += 1;
                            continue;
                        }
                        let x = explicit(&inp, &v);
                        found.lock().unwrap().push((n, mi, x, w));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let search_s = search_start.elapsed().as_secs_f64();
    let t = totals.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let mut rc = 0;
    let mut nviol = 0;
    let mut reported: BTreeSet<String> = BTreeSet::new();
    for (n, mi, inp, w) in found.iter() {
        if reported.len() >= 2 || reported.contains(&w.key) {
            continue;
        }
        let mut p = Proc::start(&cfg.libs).own(&edges);
        let mut v = p.run(inp);
        let mut same = judge(prop, *mi, &v).viols.iter().any(|x| x.key == w.key);
        if !same {
            // Not reproduced from the recorded decisions: from the seed then.
            let (_, x) = generate(prop, cfg.seed, *n, &edges, cfg.only_mode);
            let v2 = p.run(&x);
            same = judge(prop, *mi, &v2).viols.iter().any(|x| x.key == w.key);
            if !same {
                eprintln!("simhost: run {} reported {} but did not repeat it; ignored", n, w.key);
                continue;
            }
            v = v2;
        }
        reported.insert(w.key.clone());
        let limit = if cfg.thorough { 90 } else { 40 };
        let mut m = Mini {
            cfg,
            mi: *mi,
            key: w.key.clone(),
            p,
            runs: 0,
            until: Instant::now() + Duration::from_secs(limit),
            best: explicit(inp, &v),
        };
        m.best.choices = v.choices.clone();
        m.best.preempts = v.preempts.clone();
        m.run();
        let best = m.best.clone();
        drop(m);
        // The replay is made from a fresh process.
        let mut p = Proc::start(&cfg.libs).own(&edges);
        let v = p.run(&best);
        let out = judge(prop, *mi, &v);
        let what = out.viols.iter().find(|x| x.key == w.key).map(|x| x.text.clone()).unwrap_or(w.text.clone());
        let dir = format!("{}/replays", cfg.root);
        let _ = std::fs::create_dir_all(&dir);
        let name: String = w.key.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).collect();
        let path = format!("{}/{}-{}-{}.json", dir, prop.id, name, n);
        let j = replay_json(prop.id, *mi, &w.key, &what, &best, &v, &edges, (cfg.seed, *n));
        let _ = std::fs::write(&path, j.text_of());
        println!("VIOLATION property={} replay={}", prop.id, path);
        println!("  {}: {}", w.key, what);
        nviol += 1;
        rc = 1;
    }
    for k in known.iter().filter(|k| k.property == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
    }
    let hyd = (1..=nguards).filter(|i| edges.in_hydra[*i]).count();
    let hyc = (1..=nguards).filter(|i| edges.in_hydra[*i] && t.cov[*i]).count();
    let n = |v: u64| J::Int(v as i64);
    let mut fj = J::obj();
    for i in 1..fault::NKINDS {
        fj = fj.set(fault::NAMES[i], n(t.faults[i]));
    }
    let map = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect());
    let cov = J::obj()
        .set("evaluations", n(t.runs))
        .set("distinct_nontrivial", n(t.nontrivial_shapes.len() as u64))
        .set("rule", J::str(prop.rule))
        .set("samples", J::Arr(t.samples.clone()))
        .set("nontrivial_runs", n(t.nontrivial))
        .set("seeds", n(t.runs))
        .set("runs_per_hour", n((t.runs as f64 / search_s.max(0.001) * 3600.0) as u64))
        .set("search_seconds", J::Num(search_s))
        .set("simulated_seconds", J::Num(t.sim_ns as f64 / 1e9))
        .set("faults_injected", fj)
        .set("preemptions_at_instrumented_branches", n(t.preempts))
        .set("runs_with_stalled_threads_or_late_tasks", n(t.parked_runs))
        .set("scheduling_decisions", n(t.steps))
        .set("thread_switches", n(t.switches))
        .set("tasks_run", n(t.tasks))
        .set("tcp_connections_accepted", n(t.conns))
        .set("tcp_bytes", n(t.bytes))
        .set("tcp_segments", n(t.segments))
        .set("history_records", n(t.recs))
        .set("distinct_schedules", n(t.hashes.len() as u64))
        .set("distinct_schedules_measure", J::str("hash of the sequence of scheduled tasks and the choice made at each decision"))
        .set("distinct_histories", n(t.shapes.len() as u64))
        .set("distinct_histories_measure", J::str("hash of the order of recorded events by node, kind and actor"))
        .set("hydra_branches_total", n(hyd as u64))
        .set("hydra_branches_reached_in_sampled_runs", n(hyc as u64))
        .set("run_endings", J::Obj(t.status.iter().map(|(k, v)| (k.to_string(), J::Int(*v as i64))).collect()))
        .set("worker_threads", J::Obj(t.workers.iter().map(|(k, v)| (k.to_string(), J::Int(*v as i64))).collect()))
        .set("runs_by_scenario", J::Obj(t.by_mode.iter().map(|(k, v)| (prop.modes[*k].name.to_string(), J::Int(*v as i64))).collect()))
        .set("probes", map(&t.probes))
        .set("known_findings_seen", map(&t.known))
        .set("determinism_rechecks", n(t.det_checked))
        .set("determinism_mismatches", n(t.det_bad.len() as u64))
        .set("discarded_host_errors", n(t.host_errors))
        .set(
            "real_code",
            J::Arr(prop.real.iter().map(|s| J::str(s)).collect()),
        )
        .set(
            "stubs",
            J::Arr(
                ["tokio executor, time, net and signal (sim/shims/tokio)", "pingora-timeout (sim/shims/pingora-timeout)", "kernel TCP (host/net.rs)", "futex, clocks, getrandom, sched_yield, file open (host/interpose.rs)"]
                    .iter()
                    .map(|s| J::str(s))
                    .collect(),
            ),
        );
    let ev = J::obj()
        .set("property", J::str(prop.id))
        .set("tier", J::str(if cfg.thorough { "thorough" } else { "quick" }))
        .set("seed", n(cfg.seed))
        .set("level", J::str("exploration"))
        .set("coverage", cov)
        .set(
            "assumptions",
            J::Arr(
                [
                    "Sequentially consistent memory: threads are interleaved at instrumented branches, lock waits and scheduling points, not at the level of hardware reordering.",
                    "Seeded sampling: a clean result is evidence, not proof.",
                    "Timers fire not early and at 1 ms (tokio) or 10 ms (pingora-timeout) granularity, as those crates document.",
                ]
                .iter()
                .map(|s| J::str(s))
                .collect(),
            ),
        )
        .set("wall_s", J::Num(t0.elapsed().as_secs_f64()))
        .set("violations", n(nviol));
    let dir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, prop.id), ev.text_of());
    println!(
        "{}: {} runs ({} distinct non-trivial histories, {} schedules), {:.0} simulated s, {:.1} s wall, {} violation(s), endings {:?}{}",
        prop.id,
        t.runs,
        t.nontrivial_shapes.len(),
        t.hashes.len(),
        t.sim_ns as f64 / 1e9,
        t0.elapsed().as_secs_f64(),
        nviol,
        t.status,
        if t.det_bad.is_empty() { String::new() } else { format!(", determinism mismatches in runs {:?}", &t.det_bad[..t.det_bad.len().min(5)]) }
    );
    let mut pr = String::new();
    for (k, v) in &t.probes {
        pr.push_str(&format!("{}={} ", k, v));
    }
    println!("  probes: {}", pr);
    rc
}

fn sample(n: u64, mi: usize, inp: &Input, v: &View) -> J {
    let mut ops = Vec::new();
    for o in inp.ops.iter().take(6) {
        ops.push(J::Str(format!("{:?}", o)));
    }
    let mut h = Vec::new();
    for r in v.recs.iter().take(12) {
        h.push(J::Str(format!("{:.6}s n{} {} a{} {:?}", r.time as f64 / 1e9, r.node & 255, simapi::ev::name(r.kind as u32), r.actor, r.a)));
    }
    J::obj()
        .set("run", J::Int(n as i64))
        .set("scenario", J::Int(mi as i64))
        .set("nodes", J::Int(inp.spec.nodes as i64))
        .set("workers", J::Int(inp.spec.workers as i64))
        .set("operations", J::Int(inp.ops.len() as i64))
        .set("first_operations", J::Arr(ops))
        .set("faults", J::Arr(inp.faults.iter().map(|f| J::Str(format!("{} {:?}", fault::NAMES[f.kind as usize % fault::NKINDS], f))).collect()))
        .set("events", J::Int(v.recs.len() as i64))
        .set("first_events", J::Arr(h))
        .set("ending", J::str(status_name(v.status)))
}

pub fn mode_of(p: &Prop, mi: usize) -> &Mode {
    &p.modes[mi]
}
