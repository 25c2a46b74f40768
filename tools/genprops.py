#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the list stays in one readable place).
import json, os
H="hydra/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[H+f if not f.startswith("hydra") else f for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=observe,hook_needed=None)))

S,C,I,Hh,F="schedules","crash_points","inputs","histories","fault_sequences"

p("C01","Local messages arrive exactly once, in order, at the addressed process only",
 "A message sent on one node to a live process (by pid, registered name, alias, or in a list of destinations) is received by that process exactly once, unaltered, and by no other process. Messages from one sender to one receiver are received in the order they were sent, also when the sender is concurrently sending to others or is killed afterwards. A message to a process that is already dead, or to an unregistered name, is dropped without any effect on the sender or on other processes.",
 [S,Hh,C],"every interleaving of concurrent senders, receivers, spawns and exits, every mix of destination kinds, and every point at which a sender or receiver is killed",
 "No existing test sends messages between concurrent processes under more than one schedule; the tests cover links and monitors of a single pair.",
 ["process_kernel.rs","process.rs","process_registry.rs","process_receiver.rs","dest.rs"],
 [("one unbounded queue per process, registered under its id","hydra/src/process.rs spawn_internal"),("destination dispatch","hydra/src/process_kernel.rs process_send")],
 ["Process::send","Process::receive","Process::receiver"],
 [("PROCESS_REGISTRY","live local processes and their mailboxes","hydra/src/process_registry.rs")])

p("C02","Selective receive takes the first match and never loses or reorders the rest",
 "A selective receive returns the oldest message in the mailbox that its filter accepts, leaves every other message in place and in order, and waits if there is none. Cancelling a receive at any point (a timeout, a select branch losing) neither loses nor duplicates nor reorders any message. Removing messages by filter removes exactly those matching messages already in the mailbox.",
 [S,Hh,I],"every arrival order and interleaving of senders with selective, typed, strict and timed-out receives, and every point at which a pending receive is dropped",
 "There is no existing test of select, remove, or of a receive that times out.",
 ["process_receiver.rs","process.rs"],
 [("popped-but-unmatched items are kept per process","hydra/src/process_receiver.rs select")],
 ["Process::receiver().select","Process::receiver().remove","Process::timeout around a receive"],
 [("Process::items","messages already popped but not yet taken","hydra/src/process.rs")])

p("C03","Links deliver exactly one exit signal to each surviving side",
 "When a linked process exits, every process still linked to it is signalled once with its exit reason: one that traps exits receives exactly one exit message, one that does not trap dies with the same reason if the reason is not normal and is unaffected if it is normal. Linking to a process that is dead or dies concurrently yields the signal (at latest as noproc) and never silence, no matter how link, spawn_link and exit interleave. After unlink returns, neither side is affected by the exit of the other through that link.",
 [S,C,Hh],"every interleaving of link, unlink, spawn_link, flag changes and exits of both sides, every exit reason and every link topology",
 "The three link tests run one pair of processes with a single timing; none makes link, unlink or exit race.",
 ["link.rs","process.rs","process_registry.rs"],
 [("link installation under an existence check","hydra/src/link.rs link_install"),("exit fan-out on process drop","hydra/src/link.rs link_process_down")],
 ["Process::link","Process::unlink","Process::spawn_link","SystemMessage::Exit"],
 [("LINKS","local process -> linked pids","hydra/src/link.rs")])

p("C04","A monitor yields one down message with the true reason, or none once removed",
 "Each monitor on a local process (by pid or by name) that is not removed yields exactly one down message carrying that monitor's reference, the monitored destination and the reason with which the process exited, or noproc if it was already gone; it is delivered however monitor, spawn_monitor and exit interleave. A monitor never yields a message while its process is alive, and the monitored process is never affected. After demonitor returns, no down message of that monitor is received any more, also if it was already waiting in the mailbox.",
 [S,C,Hh],"every interleaving of monitor, demonitor, spawn_monitor, selective receives and exits, any number of monitors per process",
 "The monitor tests use one watcher and one process with one timing each; demonitor is not tested against a message already delivered, nor monitor against a concurrent exit.",
 ["monitor.rs","process.rs","process_receiver.rs","process_registry.rs"],
 [("monitor installation under an existence check","hydra/src/monitor.rs monitor_install"),("fan-out on process drop","hydra/src/monitor.rs monitor_process_down"),("discard of a down message after demonitor","hydra/src/process_receiver.rs process_item")],
 ["Process::monitor","Process::demonitor","Process::spawn_monitor","SystemMessage::ProcessDown"],
 [("MONITORS","local process -> references watching it","hydra/src/monitor.rs")])

p("C05","Exit signals, kill, trapping and panics end exactly the right processes",
 "A kill always ends its target and cannot be trapped; any other non-normal exit signal from another process ends a process that does not trap exits and is delivered to one that does as one exit message, and a normal one from another process never ends it. A process that panics exits with the panic text as its reason and takes down nothing but what is linked to it; all observers of one exit (links and monitors) see the same reason. A process that has exited runs no further code, leaves the list of processes, and is no longer alive, registered or reachable.",
 [S,C,Hh,F],"every interleaving of exit signals, self-exits, panics, flag changes and normal returns, at every point of the target's execution",
 "The tests contain one trapped exit of a linked process; no test kills, panics or races exit signals.",
 ["process.rs","process_registry.rs","catch_unwind.rs","exit_reason.rs"],
 [("exit decision under the registration's lock","hydra/src/process_registry.rs process_exit"),("panic capture","hydra/src/catch_unwind.rs"),("cleanup on drop","hydra/src/process.rs Drop for Process")],
 ["Process::exit","Process::alive","Process::list","Process::info"],[])

p("C06","A name is held by at most one live process and is freed exactly when it exits",
 "At any time a registered name refers to at most one process and a process has at most one name; of concurrent attempts to take a free name exactly one succeeds. A lookup of a name returns the process that holds it and, once an exited holder has been cleaned up, the name is free again and is never removed from a later holder. Registering a dead process, a taken name, or a process that already has a name fails and changes nothing.",
 [S,Hh,C],"every interleaving of register, unregister, lookup, exits and re-registration over shared names",
 "Names appear in one monitor test only, without contention, unregistration or exit races.",
 ["process_registry.rs","process.rs"],
 [("name entry lock held across the registration check","hydra/src/process_registry.rs process_register"),("name removal on exit","hydra/src/process.rs Drop for Process")],
 ["Process::register","Process::unregister","Process::whereis","Process::registered"],
 [("PROCESS_NAMES","name -> process","hydra/src/process_registry.rs")])

p("C07","Timers fire once, never early, never after a cancel, and leave nothing behind",
 "A message scheduled with a delay is delivered exactly once, not before the delay has passed and in bounded time after it; a timer cancelled before it expired never delivers. Reading a pending timer returns the time remaining, never more than the delay, and reading one that was cancelled or has delivered returns nothing. A receive or call bounded by a timeout never reports the timeout early and always ends once it is over.",
 [S,Hh,I],"every delay including zero, every interleaving of expiry, cancellation, reads and exits, and arbitrarily delayed threads",
 "No existing test uses a timer.",
 ["process.rs","process_registry.rs"],
 [("timer table","hydra/src/process_registry.rs process_register_timer"),("delayed send task","hydra/src/process.rs send_after")],
 ["Process::send_after","Process::cancel_timer","Process::read_timer","Process::timeout"],
 [("PROCESS_TIMERS","pending timers","hydra/src/process_registry.rs")])

p("C08","An alias reaches its creator while active, and a reply alias accepts one message",
 "Messages sent to an active alias reach exactly the process that created it; a reply alias accepts exactly one message however many senders race, and a plain one accepts all until it is removed. After it is removed, after its monitor has reported down or been removed, or after its owner has exited, messages to it are dropped. Removing an alias reports true only if it was active, and one process cannot be reached through the alias of another.",
 [S,Hh,C],"every interleaving of alias creation, use, removal, monitor expiry and owner exit with concurrent senders",
 "No existing test uses an alias.",
 ["alias.rs","process.rs","monitor.rs"],
 [("atomic one-shot removal","hydra/src/alias.rs alias_retrieve"),("owner cleanup","hydra/src/process.rs Drop for Process")],
 ["Process::alias","Process::monitor_alias","Process::unalias"],
 [("ALIASES","active aliases","hydra/src/alias.rs")])

p("C09","A server call returns its own reply once, or a true timeout or server-down error",
 "A call returns the reply the server gave to exactly that call, or a timeout error not before its timeout, or server-down with the server's real exit reason (noproc if there was none); it always ends within its timeout. A server handles every request at most once and, from one client, in the order sent; a request that was answered was handled exactly once. A reply that arrives after the caller gave up is never seen by the caller, neither as the result of a later call nor as a stray message.",
 [S,Hh,C,F],"every interleaving of concurrent clients, casts, deferred and out-of-order replies, timeouts, and server exits at any point of a call",
 "No existing test performs a call.",
 ["gen_server.rs","from.rs","call_error.rs","monitor.rs","process_receiver.rs"],
 [("reply tagged with the call's monitor","hydra/src/gen_server.rs call")],
 ["GenServer::call","GenServer::cast","GenServer::reply","GenServer::cast_after"],[])

p("C10","A generic server starts, handles and stops exactly as its callbacks say",
 "Start returns only after initialisation has finished, with the pid on success and the initialisation's reason on failure, timeout, panic or a taken name, in which case no process stays behind. A stop request, a failing callback, and (for a linked server that traps exits) its parent's exit each run the terminate callback exactly once, last, with that reason, and the process exits with it. Stop returns success only if the server exited with the requested reason, an error naming the real reason otherwise, and a timeout error not before its timeout.",
 [S,Hh,C,F],"every outcome and duration of the callbacks, and every interleaving of starts, stops, requests and exits of parent and server",
 "No existing test starts a server.",
 ["gen_server.rs","gen_server_options.rs"],
 [("start handshake over a one-shot channel","hydra/src/gen_server.rs start_gen_server"),("server loop","hydra/src/gen_server.rs start_gen_server")],
 ["GenServer::start","GenServer::start_link","GenServer::stop","callbacks"],[])

p("C11","A supervisor restarts exactly the children its strategy and limits prescribe",
 "When a child exits, the supervisor restarts that child (one for one), all children (one for all), or that child and those started after it (rest for one): siblings in scope are stopped first and all are started again in their order, and children out of scope are untouched. Permanent children are always restarted, transient ones only after an abnormal exit, temporary ones never. With more than the allowed number of restarts within the time window the supervisor stops all children and exits with shutdown, and otherwise it keeps restarting.",
 [S,C,Hh,F],"every sequence and timing of child exits, simultaneous exits, exits during a restart, failing starts, every strategy, restart kind and limit",
 "No existing test uses a supervisor.",
 ["supervisor.rs","child_spec.rs","restart.rs"],
 [("exit handling","hydra/src/supervisor.rs restart_exited_child"),("group restart","hydra/src/supervisor.rs restart_multiple_children"),("restart window","hydra/src/supervisor.rs add_restart")],
 ["child start functions","child exits","Supervisor::which_children"],[])

p("C12","A supervisor starts children in order and stops them all, in reverse order",
 "Children are started one after another in the order given, and start returns only when all run; if one fails to start, those already started are stopped in reverse order and the start fails leaving no process behind. When a supervisor is stopped or shut down it stops its children in reverse order, each only after the previous one has gone: brutal-kill children are killed at once, others get shutdown and are killed only if they are still alive after their timeout, and infinity waits. When it has exited, none of its children is alive, and a nested tree stops as a whole.",
 [S,C,Hh,F],"every child count, shutdown mode and child behaviour (obeys, delays, ignores the request, dies on its own), every failing start, at every timing",
 "No existing test uses a supervisor.",
 ["supervisor.rs","shutdown.rs","child_spec.rs"],
 [("ordered start","hydra/src/supervisor.rs start_children"),("reverse stop","hydra/src/supervisor.rs terminate_children"),("per-child shutdown","hydra/src/shutdown.rs")],
 ["child start and stop events","Supervisor::start","GenServer::stop"],[])

p("C13","Dynamic child operations behave like the documented child table",
 "Starting, terminating, restarting and deleting children by id, counting and listing them, gives the results of a simple table of specifications and running children: starting an existing id fails as already started or present, restarting or deleting needs a child that exists and is not running, terminating stops the process and keeps the specification unless it is temporary. Failing operations change nothing and never harm the supervisor or other children. With automatic shutdown the supervisor exits with shutdown exactly when any, or respectively the last, significant child exits on its own.",
 [S,Hh,I],"every sequence of operations and child exits, issued by concurrent clients",
 "No existing test uses a supervisor.",
 ["supervisor.rs","child_spec.rs","shutdown.rs"],
 [("child table","hydra/src/supervisor.rs"),("auto shutdown decision","hydra/src/supervisor.rs check_auto_shutdown")],
 ["Supervisor::start_child","terminate_child","restart_child","delete_child","count_children","which_children"],[])

p("C14","A process registry keeps one live process per key and forgets dead ones",
 "At any time a registry maps a key to at most one process; concurrent lookup-or-start calls for a key start one process and all return it, and starting a key that is taken reports the process that holds it. After a registered process exits or is stopped, its key becomes free and is never removed from a newer process under the same key; a removed process lives on, no longer tied to the registry. When the registry stops, its processes are stopped according to its shutdown mode and its table is gone, while failed starts, unsupported operations and a second registry of the same name do not harm it.",
 [S,Hh,C,F],"every interleaving of lookups, starts, stops, removals, process exits and registry shutdown by concurrent clients over shared keys",
 "No existing test uses the registry.",
 ["registry.rs","registry_options.rs"],
 [("serialised starts through the registry process","hydra/src/registry.rs start_by_key"),("exit cleanup","hydra/src/registry.rs remove_process")],
 ["Registry::lookup","lookup_or_start","start_process","stop_process","remove","count","list"],
 [("REGISTRY","registry name -> key -> process","hydra/src/registry.rs")])

p("C15","Messages between nodes arrive once, in order, unaltered, at the right process",
 "A message sent to a process on another node (by pid, name, alias or in a list of destinations) is received at most once, unaltered, only by the addressed process of the addressed node, and messages from one sender to one receiver over one connection keep their order. While the connection between two nodes stays up, and from the moment connecting began, no message to a live process is lost, whatever the latency, fragmentation, message size or back-pressure. Pids and references carried inside messages denote the same process or alias wherever they travel, including back home.",
 [S,F,Hh,I],"every network timing, fragmentation and back-pressure, simultaneous connects, connection loss and crash points, any sizes and mixes of messages",
 "No existing test connects two nodes; the runtime's tables are global to the operating system process, so a test cannot even run two nodes.",
 ["node_remote.rs","node_registry.rs","node_kernel.rs","process_kernel.rs","frame/mod.rs","frame/send.rs","pid.rs","reference.rs","node.rs","serialize.rs"],
 [("length-prefixed frames","hydra/src/frame/mod.rs"),("messages queued while connecting","hydra/src/node_registry.rs node_register_workers"),("forwarding","hydra/src/node_kernel.rs node_forward_send")],
 ["Process::send to remote destinations","receives on the other node"],
 [("NODE_REGISTRATIONS","known nodes and their sender","hydra/src/node_registry.rs"),("NODE_PENDING_MESSAGES","messages queued while connecting","hydra/src/node_registry.rs")])

p("C16","Cross-node links and monitors report each death or lost connection once",
 "A monitor on a process of another node yields exactly one down message and a link exactly one exit signal: with the real reason when the process exits, noproc when it does not exist, and noconnection when the connection is lost, the node crashes, stops, is disconnected or stays unreachable beyond the heartbeat timeout. None is delivered while the process is alive and connected, none after demonitor or unlink has returned, and a remote exit signal acts on its target as a local one does. After the watching process has exited or removed it, nothing of the monitor remains on the other node.",
 [S,C,F,Hh],"every interleaving of monitor, link, demonitor, unlink, exit and process death with connection loss, partition, crash and restart of either node",
 "No existing test connects two nodes.",
 ["monitor.rs","link.rs","node_registry.rs","node_remote.rs","frame/monitor.rs","frame/link.rs"],
 [("per-node monitor and link tables","hydra/src/node_registry.rs"),("cleanup when a connection's supervisor goes down","hydra/src/node_registry.rs node_remote_supervisor_down"),("heartbeat","hydra/src/node_remote.rs")],
 ["Process::monitor","Process::link","Process::exit","SystemMessage::ProcessDown","SystemMessage::Exit"],
 [("NODE_MONITORS","monitors per remote node","hydra/src/node_registry.rs"),("NODE_LINKS","links per remote node","hydra/src/node_registry.rs")])

p("C17","Node monitors, node lists and node states follow the real connections",
 "A node monitor yields exactly one node-down message when the monitored node's connection is lost or cannot be established, and none after it was removed or while the connection is up. A node is listed as connected only while an established connection exists, as pending only while one is being made; disconnect, forget and stop end it on both sides and leave no connection working, and there is never more than one working connection per pair. Configured heartbeat and handshake times are the ones applied, so that idle connections stay up and dead ones are noticed in time.",
 [S,C,F,Hh],"every sequence and interleaving of connect, monitor, disconnect, forget, stop and start on both nodes with connection failures and crashes",
 "No existing test connects two nodes.",
 ["node.rs","node_registry.rs","node_remote.rs","node_local.rs","node_options.rs"],
 [("connection state machine","hydra/src/node_registry.rs node_register/node_accept/node_disconnect"),("supervisor drop handlers","hydra/src/node_remote.rs")],
 ["Node::monitor","Node::demonitor","Node::list","Node::list_by_state","Node::disconnect","Node::forget","Node::stop"],[])

p("C18","Only peers with the cookie join, and a bad peer harms only its own connection",
 "A connection becomes usable only if the peer proved knowledge of the same cookie for the name and address it announces, and, for an outgoing connection, only if these are the ones that were dialled; otherwise no message, link, monitor or exit signal of that peer takes effect. Whatever bytes a peer sends, however it fragments, stalls or breaks off the connection, the node keeps running, keeps accepting others, and keeps its other connections and processes unaffected. A peer that does not complete the handshake is dropped within the handshake timeout.",
 [I,S,F],"every cookie, name and address combination, every prefix, corruption, fragmentation and stall of the handshake and of later frames",
 "No existing test opens a connection.",
 ["frame/hello.rs","node_remote.rs","node_local.rs","frame/mod.rs"],
 [("keyed challenge over name and address","hydra/src/frame/hello.rs"),("handshake with timeout","hydra/src/node_remote.rs node_remote_accepter/node_remote_connector")],
 ["raw connections to a node's listener","Node::list_by_state"],[])

p("C19","After faults stop, nodes can reconnect and communicate, with no stale state",
 "Once faults stop, a bounded number of ordinary connection attempts in bounded time re-establishes a usable connection between any two running nodes with the same cookie, whatever sequence of crashes, restarts, partitions, resets, disconnects, stops and simultaneous connects came before. Over the new connection messages, monitors and links work in both directions, and no message, exit or down signal of an earlier connection or incarnation is delivered through it. No process waits forever for a connection that is already lost.",
 [F,C,S],"every fault sequence followed by a quiet period",
 "No existing test connects two nodes, let alone injects faults.",
 ["node_registry.rs","node_remote.rs","node_local.rs"],
 [("supervisor-down cleanup and reconnect on demand","hydra/src/node_registry.rs node_remote_supervisor_down/node_register")],
 ["Node::connect","Node::monitor","Process::send","Process::monitor"],[])

p("C20","Calls to servers on other nodes keep call semantics under network faults",
 "A call to a server on another node returns the reply to exactly that call, a timeout error not before its timeout, or server-down with the true reason (noproc, the exit reason, or noconnection when the connection is lost), and ends within its timeout even if the network is stalled. The server handles it at most once, and exactly once if a reply was returned. A reply arriving after the call ended is never delivered to the caller.",
 [F,S,C,Hh],"every delay, partition, connection loss, crash and restart at any point of a call, with concurrent callers on several nodes",
 "No existing test connects two nodes or performs a call.",
 ["gen_server.rs","alias.rs","monitor.rs","node_registry.rs","node_remote.rs"],
 [("reply alias tied to the call's monitor","hydra/src/gen_server.rs call")],
 ["GenServer::call with a remote destination","GenServer::stop with a remote destination"],[])

p("C21","Semaphores never over-admit, and task handles report the task's real outcome",
 "A semaphore never has more permits in use than it was created with, gives a waiting acquirer a permit once one is released, and gets every permit back when its holder drops it, is cancelled, panics or is killed. A task handle yields the task's own result exactly when it completes, an error if it panicked or was shut down, and waiting for several yields all results in order or the error of one that failed. Shutting a task down stops it and returns its result only if it had completed.",
 [S,C,Hh],"every interleaving of acquire, release, cancellation of a waiting acquire, kill, panic and shutdown",
 "Only two documentation examples of the semaphore constructor run today.",
 ["semaphore.rs","task.rs"],
 [("permits released on drop","hydra/src/semaphore.rs"),("abort on shutdown","hydra/src/task.rs")],
 ["Semaphore::acquire","OwnedSemaphore::acquire","Task::spawn","Task::shutdown","Task::await_many"],[])

p("C22","A hash ring stays consistent under concurrent updates",
 "Every lookup sees one consistent membership: the result is a node that was a member (or an override that was set) at some moment during the lookup, and none only if there was a moment with no members. No concurrent update is lost: when updates have ended the membership is the result of applying all of them in some order compatible with their real-time order, lookups of a key then always agree, and removing a node only moves the keys it owned. Overrides take precedence over the ring, and clearing removes all nodes and overrides.",
 [S,Hh],"every interleaving of concurrent add, remove, set, override and lookup operations",
 "The hash ring tests are sequential.",
 ["hash_ring.rs"],
 [("copy-on-write ring published atomically under a writer lock","hydra/src/hash_ring.rs")],
 ["HashRing operations"],[])

p("C23","An application runs until its root exits and shuts down gracefully on signals",
 "Running an application starts its tree once and returns only after the root process has exited or failed to start. On a termination signal or interrupt with graceful shutdown enabled the root is asked to shut down, and is killed only if it is still running after the configured time; without it the signal is not intercepted. After running returns, no process of the application keeps running.",
 [S,C,F,I],"every time at which a signal arrives, including repeatedly and during start, every root behaviour (prompt, slow, stuck, crashing) and every timeout",
 "The existing tests use the test entry point only, never run with signals or graceful shutdown.",
 ["application.rs","application_config.rs"],
 [("signal handler process linked to the root","hydra/src/application.rs run")],
 ["Application::run","SIGTERM / interrupt delivery"],[])

p("C24","Websocket connections are served in order, isolated, and torn down once",
 "Each accepted connection is served by its own handler process: messages from the client are handled once and in order, and messages the handler sends reach the client once and in order until one side closes, whatever the fragmentation, latency or back-pressure. A failing, panicking, stalled or malicious connection, at any point from the handshake on, affects no other connection and not the server; an incomplete handshake is dropped after the configured timeout. When a connection ends for any reason other than a kill or panic of the handler, its terminate callback runs exactly once, with the reason its monitors receive, and nothing of the handler runs afterwards, and a close requested by the handler is the last thing sent.",
 [S,F,I,C],"every order and fragmentation of frames, every close, reset, stall and handler failure, at any point, with several concurrent connections",
 "hydra-websockets has no tests.",
 ["hydra-websockets/src/websocket_server.rs","hydra-websockets/src/websocket_handler.rs","hydra-websockets/src/websocket_command.rs","hydra-websockets/src/websocket_server_config.rs"],
 [("one process per connection","hydra-websockets/src/websocket_server.rs"),("handler loop","hydra-websockets/src/websocket_handler.rs start_websocket_handler")],
 ["raw and websocket client connections","WebsocketHandler callbacks"],[])

p("C25","Process lists and process information show the real state and nothing gone",
 "The list of processes contains every process from its spawn until it ends, once, and nothing else. The information about a process exists exactly as long as the process does; it shows exactly its present links and the processes monitoring it (one entry per monitor), its registered name, whether it traps exits and how many messages wait in its queue. What was removed by unlink, demonitor, unregister or by the end of the other process is not shown any more.",
 [S,Hh,C],"every interleaving of link, unlink, spawn_link, monitor, demonitor, registration, flag changes, sends, receives and ends of both sides with the queries, and every state at rest afterwards",
 "No existing test queries the information of a process at all.",
 ["process_registry.rs","process_info.rs","process.rs","link.rs","monitor.rs"],
 [("registrations collected under their id","hydra/src/process_registry.rs process_info"),("links and monitors filled in from their tables","hydra/src/link.rs link_fill_info, hydra/src/monitor.rs monitor_fill_info")],
 ["Process::info","Process::list"],
 [("LINKS, MONITORS","relations kept per local process","hydra/src/link.rs, hydra/src/monitor.rs")])

p("C26","The console shows its node as it is, to local and remote askers, while it lives",
 "With the console feature, an application has one console server from before its start until its end: when it ends by anything but a shutdown it is replaced, and a call to it yields its own answer, or a true error if it was ended meanwhile. To processes of its own and of other nodes it gives the processes of its node (all live ones, each once, none that has ended), for each process asked for, in order, its information or that it is gone, the number of processes, and exactly the nodes in the state asked for. Processes shown to another node are that node's view of the real ones.",
 [S,Hh,C],"every interleaving of process activity, console deaths and requests from the same and from another node, and every state at rest afterwards",
 "No existing test starts a console.",
 ["console.rs","application.rs","runtime_info.rs","process_info.rs","pid.rs"],
 [("a generic server answers from the registries","hydra/src/console.rs handle_call"),("the application links and replaces it","hydra/src/application.rs run")],
 ["ConsoleServer::connect","ConsoleServer::list_processes","ConsoleServer::processes_info","ConsoleServer::list_nodes","ConsoleServer::runtime_info"],
 [])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
for x in P:
    if sch: jsonschema.validate(x,sch)
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P),"properties")
