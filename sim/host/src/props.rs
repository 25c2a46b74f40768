//! The properties: which scenarios, which faults, which oracle.
use std::collections::BTreeMap;

use simapi::ev;

use crate::pool::View;
use crate::shm::*;

pub struct Viol {
    /// The class of the violation: kept by minimisation.
    pub key: String,
    pub text: String,
}
#[derive(Default)]
pub struct Out {
    pub viols: Vec<Viol>,
    pub probes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}
impl Out {
    pub fn v(&mut self, key: &str, text: String) {
        if !self.viols.iter().any(|x| x.key == key) {
            self.viols.push(Viol { key: key.to_string(), text });
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_default() += 1;
    }
    pub fn probe_if(&mut self, c: bool, k: &'static str) {
        let e = self.probes.entry(k).or_default();
        if c {
            *e += 1;
        }
    }
}

pub struct Mode {
    pub name: &'static str,
    pub scenario: u32,
    pub weight: u32,
    pub nodes: (u32, u32),
    pub ops: (u32, u32),
    /// (kind, weight)
    pub faults: &'static [(u32, u32)],
    pub max_faults: u32,
    pub fault_chance: u32,
    pub fault_window_ms: u64,
    pub fault_recs: u32,
    pub max_dur_us: u64,
    pub crash0: bool,
    pub stalls: bool,
    pub max_time_s: u64,
    /// Panics of the node's own code count as violations.
    pub panics: bool,
    pub check: fn(&View) -> Out,
}
pub const MODE: Mode = Mode {
    name: "",
    scenario: 0,
    weight: 1,
    nodes: (1, 1),
    ops: (3, 40),
    faults: &[],
    max_faults: 0,
    fault_chance: 100,
    fault_window_ms: 1000,
    fault_recs: 200,
    max_dur_us: 3_000_000,
    crash0: false,
    stalls: true,
    max_time_s: 600,
    panics: true,
    check: |_| Out::default(),
};

pub struct Prop {
    /// The modules of the code whose functions its schedules interrupt most.
    pub focus: &'static [&'static str],
    pub id: &'static str,
    pub modes: &'static [Mode],
    pub rule: &'static str,
    pub real: &'static [&'static str],
}

use simapi::fault;
/// What happens to machines and the network between them.
const NET: &[(u32, u32)] = &[
    (fault::PARTITION, 3),
    (fault::ONEWAY, 2),
    (fault::RESET, 4),
    (fault::HALFCLOSE, 1),
    (fault::CRASH, 3),
    (fault::PAUSE, 2),
    (fault::SLOW, 2),
    (fault::REFUSE, 1),
];
const REAL: &[&str] = &["hydra (all modules)", "tokio sync and io utilities", "dashmap", "flume", "arc-swap", "bincode, rmp-serde", "scenario code (sim/node)"];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        focus: &["process_kernel", "alias", "process", "process_registry", "process_receiver"],
        modes: &[Mode { name: "actors", scenario: 1, check: crate::o_proc::c01, ..MODE }],
        rule: "A run is 2-5 actors executing random scripts of sends (pid, name, alias, several destinations, to dead or unknown targets), receives, pauses, exits and kills under a random schedule; non-trivial if at least two actors sent and at least 3 messages were received.",
        real: REAL,
    },
    Prop {
        id: "C02",
        focus: &["process_receiver"],
        modes: &[Mode { name: "select", scenario: 2, check: crate::o_proc::c02, ..MODE }],
        rule: "A run is 2-4 actors executing random scripts of sends of two message types, selective receives (given up by timeout, by select or after some polls), removals and pauses under a random schedule, and a final drain; non-trivial if at least 3 receives succeeded and one of them left an older message in place.",
        real: REAL,
    },
    Prop {
        id: "C03",
        focus: &["process", "process_registry", "monitor", "alias"],
        modes: &[Mode { name: "links", scenario: 3, check: crate::o_life::c03, ..MODE }],
        rule: "A run is 2-5 processes and up to 35 spawned ones executing random scripts of link, unlink, spawn_link, flag changes, exit signals, panics and ends under a random schedule; non-trivial if a process that was ever linked ended.",
        real: REAL,
    },
    Prop {
        id: "C04",
        focus: &["link", "process", "process_registry", "monitor"],
        modes: &[Mode { name: "monitors", scenario: 4, check: crate::o_life::c04, ..MODE }],
        rule: "A run is 2-5 processes and up to 35 spawned ones executing random scripts of monitor (by pid, by name, with alias), demonitor, spawn_monitor, receives that leave everything in place, exits and panics under a random schedule; non-trivial if at least 2 down messages arrived.",
        real: REAL,
    },
    Prop {
        id: "C05",
        focus: &["process_registry", "process", "catch_unwind", "link"],
        modes: &[Mode { name: "exits", scenario: 5, check: crate::o_life::c05, ..MODE }],
        rule: "A run is 2-5 processes and up to 35 spawned ones executing random scripts of exit signals of all kinds, self exits, panics, flag changes, links, monitors and liveness queries under a random schedule; non-trivial if at least two signals were sent and a process ended.",
        real: REAL,
    },
    Prop {
        id: "C06",
        focus: &["process_registry", "process"],
        modes: &[Mode { name: "names", scenario: 6, ops: (3, 22), check: crate::o_local::c06, ..MODE }],
        rule: "A run is 2-4 processes and short-lived ones registering, unregistering, looking up and listing 3 names, sending to them, exiting and being killed under a random schedule; the history must be linearizable; non-trivial if at least 2 registrations succeeded.",
        real: REAL,
    },
    Prop {
        id: "C07",
        focus: &["process", "process_registry"],
        modes: &[Mode { name: "timers", scenario: 7, check: crate::o_local::c07, ..MODE }],
        rule: "A run is 1-4 processes scheduling, cancelling and reading timers of 0 to 6500 s and waiting with timeouts, with stalled threads and time jumps; non-trivial if at least 2 timers or 2 timeouts ran.",
        real: REAL,
    },
    Prop {
        id: "C08",
        focus: &["alias", "process", "monitor", "process_receiver"],
        modes: &[Mode { name: "aliases", scenario: 8, check: crate::o_local::c08, ..MODE }],
        rule: "A run is 2-4 processes creating, using and removing plain, reply and monitor aliases of each other, with monitored processes and owners ending, under a random schedule; non-trivial if at least 2 messages arrived through aliases.",
        real: REAL,
    },
    Prop {
        id: "C09",
        focus: &["gen_server", "alias", "monitor", "process_receiver"],
        modes: &[Mode { name: "calls", scenario: 9, check: crate::o_srv::c09, ..MODE }],
        rule: "A run is 1-4 clients calling 1-3 servers (by pid and name, also servers calling servers) that answer at once, late, twice, through another process or never, fail, panic or are killed and restarted, with timeouts of 0 to 5000 ms under a random schedule; non-trivial if at least 2 calls were answered.",
        real: REAL,
    },
    Prop {
        id: "C10",
        focus: &["gen_server", "process", "link", "process_registry"],
        modes: &[Mode { name: "servers", scenario: 10, check: crate::o_srv::c10, ..MODE }],
        rule: "A run is 1-4 processes starting (linked or not, named, with timeouts), using, stopping and killing servers whose initialisation and termination succeed, sleep, fail or panic, under a random schedule; non-trivial if at least 2 servers started.",
        real: REAL,
    },
    Prop {
        id: "C11",
        focus: &["supervisor", "shutdown", "gen_server"],
        modes: &[
            Mode { name: "sequence", scenario: 110, stalls: false, weight: 3, check: crate::o_sup::seq, ..MODE },
            Mode { name: "race", scenario: 111, weight: 2, check: crate::o_sup::race, ..MODE },
        ],
        rule: "A run is a supervisor of 1-5 children of all restart types, kinds and shutdowns under one of the strategies and limits. Sequence: random exits, failing, ignored and slow starts, waits and table operations one after another, compared with an exact model. Race: up to 3 processes end children at the same time, checked by invariants. Non-trivial if at least 2 exits or table operations.",
        real: REAL,
    },
    Prop {
        id: "C12",
        focus: &["supervisor", "shutdown"],
        modes: &[Mode { name: "trees", scenario: 120, ops: (0, 12), check: crate::o_sup::trees, ..MODE }],
        rule: "A run starts and stops a tree of up to 14 supervisors and children with all shutdown modes, with failing starts and children ended from outside at random points; non-trivial if at least 2 children were running when it was stopped.",
        real: REAL,
    },
    Prop {
        id: "C13",
        focus: &["supervisor", "shutdown"],
        modes: &[
            Mode { name: "sequence", scenario: 130, stalls: false, weight: 3, check: crate::o_sup::seq, ..MODE },
            Mode { name: "concurrent", scenario: 131, weight: 2, check: crate::o_sup::tables, ..MODE },
        ],
        rule: "Sequence: random operations on the table of children, exits and failing starts one after another, compared with an exact model, also of automatic shutdown. Concurrent: 2-4 processes work on the same 4 ids, the history must be linearizable. Non-trivial if at least 2 (4) operations.",
        real: REAL,
    },
    Prop {
        id: "C14",
        focus: &["registry", "gen_server"],
        modes: &[Mode { name: "registry", scenario: 14, ops: (3, 30), check: crate::o_reg::c14, ..MODE }],
        rule: "A run is 2-4 processes looking up, starting, stopping, removing, counting and listing 3 keys of a registry by name and pid with timeouts, while registered processes end, starts fail, other registries of the name come and go and the registry is stopped or killed in each shutdown mode; the history of each key must be linearizable; non-trivial if at least 2 processes were started.",
        real: REAL,
    },
    Prop {
        id: "C15",
        focus: &["node_registry", "node_kernel", "process_kernel", "node_remote", "alias"],
        modes: &[
            Mode { name: "messages", scenario: 15, nodes: (2, 3), ops: (4, 60), stalls: false, panics: false, weight: 2, check: crate::o_dist::c15, ..MODE },
            Mode {
                name: "faults",
                scenario: 151,
                nodes: (2, 3),
                ops: (6, 70),
                faults: NET,
                max_faults: 5,
                fault_window_ms: 4000,
                panics: false,
                weight: 3,
                check: crate::o_dist::c15,
                ..MODE
            },
        ],
        rule: "A run is 2-3 nodes with 1-3 processes each that send to each other by pid, name, alias and lists, in bursts, messages of 0 to 120000 bytes, and let pids, aliases and nodes travel over up to 3 stations, while connections come up (also from both sides at once); with faults also partitions, one-way losses, resets, half-closes, crashes with restart, pauses, slow links, refused connections and disconnects; non-trivial if at least 3 messages arrived from other nodes.",
        real: REAL,
    },
    Prop {
        id: "C16",
        focus: &["node_registry", "node_remote", "monitor", "link", "node_kernel"],
        modes: &[
            Mode { name: "signals", scenario: 16, nodes: (2, 3), ops: (4, 70), stalls: false, panics: false, weight: 3, max_time_s: 120, check: crate::o_dist2::c16s, ..MODE },
            Mode {
                name: "faults",
                scenario: 161,
                nodes: (2, 3),
                ops: (6, 70),
                faults: NET,
                max_faults: 5,
                fault_window_ms: 4000,
                panics: false,
                stalls: false,
                weight: 3,
                check: crate::o_dist2::c16f,
                ..MODE
            },
        ],
        rule: "A run is 2-3 nodes with 1-3 processes each and up to 30 short-lived ones that monitor (by pid and name), demonitor, link, unlink, and send exit signals to each other, trapping or not, end normally, with reasons and by signals; with faults also partitions, one-way losses, resets, half-closes, crashes with restart, pauses, slow links, refused connections, disconnects and forgets; every signal must have a cause and every cause its signal; non-trivial if at least 3 signals crossed nodes.",
        real: REAL,
    },
    Prop {
        id: "C17",
        focus: &["node_registry", "node_remote", "node_local"],
        modes: &[
            Mode { name: "nodes", scenario: 17, nodes: (2, 3), ops: (4, 60), stalls: false, panics: false, weight: 3, check: crate::o_dist3::c17s, ..MODE },
            Mode {
                name: "faults",
                scenario: 171,
                nodes: (2, 3),
                ops: (6, 60),
                faults: NET,
                max_faults: 5,
                fault_window_ms: 4000,
                panics: false,
                stalls: false,
                weight: 3,
                check: crate::o_dist3::c17f,
                ..MODE
            },
            Mode { name: "times", scenario: 172, nodes: (2, 2), ops: (0, 0), panics: false, stalls: false, weight: 1, check: crate::o_dist3::times, ..MODE },
        ],
        rule: "A run is 2-3 nodes with 1-2 processes each that connect, monitor, demonitor, disconnect and forget nodes, stop and start their own, and list nodes, with and without network faults, crashes and restarts, then a quiet period, a teardown by one node, and new connections that must stay up; or two nodes with given heartbeat and handshake times that meet silences shorter and longer than these, dead, absent and mute peers. Lists are compared with the simulated network's connections. Non-trivial if a connection was made and a monitor reported.",
        real: REAL,
    },
    Prop {
        id: "C18",
        focus: &["node_remote", "node_local", "node_registry", "frame"],
        modes: &[
            Mode {
            name: "hostile",
            scenario: 18,
            nodes: (3, 3),
            ops: (3, 24),
            max_time_s: 120,
            stalls: false,
            panics: false,
            check: crate::o_dist4::c18,
            weight: 6,
            ..MODE
        },
            Mode { name: "replayed", scenario: 181, nodes: (3, 3), ops: (1, 4), max_time_s: 120, stalls: false, panics: false, weight: 1, check: crate::o_dist4::c18r, ..MODE },
        ],
        rule: "A run is two nodes that exchange messages, and a third machine that speaks the wire format by hand: it dials the nodes, and answers where their processes dial it, with greetings that are absent, cut, in pieces, wrong, forged, reflected or right, followed by frames that are well formed or broken, silence, heartbeats, a close, a reset or a half close; then a decent node joins. Non-trivial if at least one peer did not prove itself.",
        real: REAL,
    },
    Prop {
        id: "C19",
        focus: &["node_registry", "node_remote", "node_local"],
        modes: &[
            Mode { name: "calls", scenario: 19, nodes: (2, 3), ops: (4, 60), max_time_s: 120, stalls: false, panics: false, weight: 2, check: crate::o_dist5::c19, ..MODE },
            Mode {
                name: "faults",
                scenario: 191,
                nodes: (2, 3),
                ops: (4, 60),
                faults: NET,
                max_faults: 6,
                fault_window_ms: 4000,
                max_time_s: 120,
                panics: false,
                stalls: false,
                weight: 3,
                check: crate::o_dist5::c19,
                ..MODE
            },
        ],
        rule: "A run is 2-3 nodes with 1-2 processes each that talk, connect, disconnect, forget, watch and wait for each other and stop and start their nodes, with and without network faults, crashes and restarts; then faults stop, and a process per node and peer makes one attempt after another (both sides at the same moments, in most runs) until a message, a monitor, a link and an exit signal have made the way there and back. Non-trivial if a connection was made, lost and made again.",
        real: REAL,
    },
    Prop {
        id: "C20",
        focus: &["gen_server", "node_registry", "node_remote", "monitor", "registry"],
        modes: &[
            Mode { name: "calls", scenario: 20, nodes: (2, 3), ops: (4, 60), max_time_s: 120, panics: false, stalls: false, weight: 2, check: crate::o_dist6::strict, ..MODE },
            Mode {
                name: "faults",
                scenario: 201,
                nodes: (2, 3),
                ops: (4, 60),
                faults: NET,
                max_faults: 6,
                fault_window_ms: 5000,
                max_time_s: 120,
                panics: false,
                stalls: false,
                weight: 3,
                check: crate::o_dist6::faulty,
                ..MODE
            },
        ],
        rule: "A run is 2-3 nodes with 1-3 servers and 1-3 clients each; clients call, cast to and stop servers of all nodes by pid and by name, with and without timeouts, while servers answer, answer late, twice, not at all or through others, fail, panic, are killed and started again; with and without network faults, crashes, restarts and disconnects. In the end all that live must answer. Non-trivial if at least two calls, one of them to another node, returned a reply.",
        real: REAL,
    },
    Prop {
        id: "C21",
        focus: &["semaphore"],
        modes: &[
            Mode { name: "semaphores", scenario: 210, check: crate::o_sema::semaphores, ..MODE },
            Mode { name: "tasks", scenario: 211, check: crate::o_sema::tasks, ..MODE },
        ],
        rule: "Semaphores: 2-4 processes acquire (one, many, owned, with timeouts, trying), hold and release permits of plain and owned semaphores, panic, are killed and cancelled. Tasks: processes spawn, await, shut down and drop tasks (also blocking ones) that finish, panic or last, singly and several at once. Non-trivial if at least 4 acquisitions succeeded (3 tasks ended).",
        real: REAL,
    },
    Prop {
        id: "C22",
        focus: &["hash_ring"],
        modes: &[Mode { name: "ring", scenario: 22, ops: (4, 32), check: crate::o_ring::c22, ..MODE }],
        rule: "A run is 2-4 threads looking up 6 keys, adding, removing and replacing 6 nodes and overriding keys on one ring, interrupted anywhere, then a full reading; ring and overrides must each be linearizable; non-trivial if a lookup found something and there were at least 18 operations on the ring (14 of them of the final reading).",
        real: REAL,
    },
    Prop {
        id: "C23",
        focus: &["application", "shutdown", "supervisor"],
        modes: &[Mode {
            name: "application",
            scenario: 23,
            ops: (0, 0),
            faults: &[(fault::SIGNAL, 1)],
            max_faults: 3,
            fault_chance: 70,
            fault_recs: 30,
            check: crate::o_app::c23,
            ..MODE
        }],
        rule: "A run executes an application once or twice in a process: a root process, server or supervisor of up to 3 servers that ends by itself, fails to start, finishes in time or not at all, with strangers beside it, while SIGTERM and SIGINT arrive at random points, with graceful shutdown on or off and limits of 0 to 3000 ms; non-trivial if an application started.",
        real: REAL,
    },
    Prop {
        id: "C24",
        focus: &["websocket_handler", "websocket_server"],
        modes: &[
            Mode { name: "calm", scenario: 24, nodes: (2, 3), ops: (2, 14), max_time_s: 60, stalls: false, weight: 3, check: crate::o_ws::c24, ..MODE },
            Mode {
                name: "faults",
                scenario: 24,
                nodes: (2, 3),
                ops: (2, 14),
                faults: NET,
                max_faults: 5,
                fault_window_ms: 3000,
                max_time_s: 60,
                stalls: false,
                weight: 1,
                check: crate::o_ws::c24,
                ..MODE
            },
        ],
        rule: "A run is a websocket server and 1-2 machines of raw clients with 2-14 connections: decent ones (fragmented, split, with pings between, echo, bursts, large messages, pushes from other processes, ends by close, half-close and reset) beside silent, partial, malformed and refused handshakes, handlers that fail, panic, close or are killed in any callback, protocol violations, oversized messages, aborted frames, slow and deaf readers; without and with network faults and crashes of clients. Non-trivial if a message of a decent connection was handled and there were at least two connections.",
        real: REAL,
    },
    Prop {
        id: "C25",
        focus: &["process_registry", "link", "monitor", "process"],
        modes: &[
            Mode { name: "relations", scenario: 25, weight: 3, ops: (3, 40), check: crate::o_info::c25, ..MODE },
            Mode { name: "queues", scenario: 251, weight: 1, ops: (3, 40), check: crate::o_info::c25, ..MODE },
        ],
        rule: "A run is 2-5 processes and up to 35 spawned ones that link, unlink, monitor (by pid, by name, with alias), demonitor, register, change flags, send, receive, end and are killed under a random schedule, while they and an observer list the processes and query each other's information, and everything is queried again at rest; non-trivial if a query saw a link, a monitor or a queued message.",
        real: REAL,
    },
    Prop {
        id: "C26",
        focus: &["console", "application", "process_registry", "gen_server", "node"],
        modes: &[Mode { name: "console", scenario: 26, nodes: (1, 2), ops: (3, 40), stalls: false, panics: false, check: crate::o_info::c26, ..MODE }],
        rule: "A run is an application on one node with 2-5 processes and up to 35 spawned ones that relate, exchange messages, end and are killed as for C25, while a process there and one of a second node (its own application) ask the first node's console for processes, their information, the runtime and the connected nodes, and the console itself is killed up to three times; non-trivial if a look around was complete and saw a link, a monitor or a queued message.",
        real: REAL,
    },
];

/// What no run of any property may show.
pub fn generic(prop: &Prop, m: &Mode, v: &View, out: &mut Out) {
    match v.status {
        ST_END | ST_HOST_ERROR => {}
        ST_CAP_LOG => out.v("run/too-many-events", "the run produced more events than any legal run should".into()),
        s => {
            let text = format!("the run of {} ended with {} (signal/code {}) {}", prop.id, status_name(s), v.exit, v.note);
            out.v(&format!("run/{}", status_name(s)), text);
        }
    }
    for r in &v.recs {
        if r.kind as u32 == ev::PANIC && r.a[0] == 0 && m.panics {
            let t = v.str(r);
            if t.starts_with("Failed to notify parent process") {
                // The process that called start has ended meanwhile.
                continue;
            }
            let key: String = t.split(" @ ").next().unwrap_or("").chars().take(40).collect();
            let key: String = key.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
            out.v(&format!("panic/{}", key), format!("unexpected panic: {}", t));
        }
        if r.kind as u32 == ev::BAD {
            let t = v.str(r);
            let key: String = t.chars().take(40).map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
            out.v(&format!("bad/{}", key), format!("actor {}: {}", r.actor, t));
        }
    }
}
