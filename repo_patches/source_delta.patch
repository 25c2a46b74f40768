From f20d773d728a7618860a6fa8ef1bc8ec4704b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 01/44] fix: register a spawned process before it runs

---
 hydra/src/process.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..892e3e0 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -10,6 +10,8 @@ use std::time::Duration;
 use flume::Receiver;
 use flume::Sender;
 
+use tokio::sync::oneshot;
+
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
@@ -481,8 +483,13 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // The process must not run (or end) before it's registered, or it would never be unregistered.
+    let (registered, wait_registered) = oneshot::channel::<()>();
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
+        let _ = wait_registered.await;
+
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
             process_set_exit_reason(Process::current(), e.into());
         }
@@ -491,5 +498,7 @@ where
     // Register the process under it's new id.
     process_insert(next_id, ProcessRegistration::new(handle, tx));
 
+    let _ = registered.send(());
+
     result
 }
-- 
2.43.0


From 004e90fe76dc5b76a84dddc4703b15422108ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 02/44] fix: unlink removes both directions of a link

---
 hydra/src/link.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..a39e14f 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -70,8 +70,15 @@ pub fn link_install(process: Pid, from: Pid) {
     }
 }
 
-/// Destroys a link for the given local process.
+/// Destroys the link between the given process and the given process.
 pub fn link_destroy(process: Pid, from: Pid) {
+    if from.is_local() {
+        LINKS.alter(&from.id(), |_, mut value| {
+            value.remove(&process);
+            value
+        });
+    }
+
     if process.is_local() {
         LINKS.alter(&process.id(), |_, mut value| {
             value.remove(&from);
-- 
2.43.0


From b89f111a9da85266419f6ccc25ada4922b42af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 03/44] fix: a process must exist while a link or monitor is
 installed

---
 hydra/src/node_remote.rs      | 18 +++++++++++++++---
 hydra/src/process_registry.rs |  9 +++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..e423b3c 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -186,14 +186,26 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             }
                         });
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let process = process_name_lookup(&name).filter(|process| {
+                            process_exists_lock(*process, |exists| {
+                                if exists {
+                                    monitor_create(*process, reference, from, None);
+                                    node_process_monitor_cleanup(
+                                        supervisor.node.clone(),
+                                        reference,
+                                        *process,
+                                    );
+                                }
+
+                                exists
+                            })
+                        });
 
+                        if let Some(id) = process {
                             let monitor_update =
                                 MonitorUpdate::new(from_id, id.id(), reference.id());
 
                             node_send_frame(monitor_update.into(), node);
-                            node_process_monitor_cleanup(supervisor.node.clone(), reference, id);
                         } else {
                             let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
 
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..666e067 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,12 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
+    // The guard must be held for the duration of the callback.
+    if let Some(_process) = PROCESS_REGISTRY.get(&pid.id()) {
+        return callback(true);
     }
+
+    callback(false)
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From ad6a197ecb4de270fe5ce248095684e9e2a42316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 04/44] fix: demonitor discards a down message that was already
 popped

---
 hydra/src/node.rs    | 11 +++++++++++
 hydra/src/process.rs | 18 +++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 1f47476..2d7f34b 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -20,8 +20,10 @@ use crate::NodeOptions;
 use crate::NodeState;
 use crate::Pid;
 use crate::Process;
+use crate::ProcessItem;
 use crate::ProcessMonitor;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::PROCESS;
 
 /// Represents a [Node] serialized for the wire.
@@ -171,6 +173,15 @@ impl Node {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The down message may already be popped from the mailbox, but not received yet.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::NodeDown(_, reference)) if *reference == monitor
+                    )
+                })
+            });
             return;
         };
 
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 892e3e0..79d0d3a 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -60,6 +60,7 @@ use crate::ProcessReceiver;
 use crate::ProcessRegistration;
 use crate::Receivable;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::Timeout;
 
 /// The send type for a process.
@@ -359,6 +360,15 @@ impl Process {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The down message may already be popped from the mailbox, but not received yet.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, reference, _)) if *reference == monitor
+                    )
+                })
+            });
             return;
         };
 
@@ -366,11 +376,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        let Some(pid) = pid else {
-            return;
-        };
-
-        monitor_destroy(pid, monitor);
+        if let Some(pid) = pid {
+            monitor_destroy(pid, monitor);
+        }
 
         alias_destroy(monitor);
     }
-- 
2.43.0


From e91a366b9e87b67c8f4f8a7b29a74fc9843bf79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 05/44] fix: a name is only ever removed from the process that
 holds it

---
 hydra/src/process.rs          |  2 +-
 hydra/src/process_registry.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 79d0d3a..ec1ecc6 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -429,7 +429,7 @@ impl Drop for Process {
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
-            process_name_remove(&name);
+            process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 666e067..41a7307 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -64,9 +64,9 @@ pub fn process_insert(id: u64, registration: ProcessRegistration) {
     PROCESS_REGISTRY.insert(id, registration);
 }
 
-/// Removes a registered name.
-pub fn process_name_remove(name: &str) {
-    PROCESS_NAMES.remove(name);
+/// Removes a registered name if it's still held by the given process.
+pub fn process_name_remove(name: &str, pid: Pid) {
+    PROCESS_NAMES.remove_if(name, |_, process_id| *process_id == pid.id());
 }
 
 /// Checks if the process is alive.
@@ -135,14 +135,17 @@ pub fn process_register(pid: Pid, name: String) -> Result<(), ArgumentError> {
 
 /// Unregisters a process with the given name.
 pub fn process_unregister(name: &str) {
-    let Some((_, pid)) = PROCESS_NAMES.remove(name) else {
+    // The entry is held until the process is updated, so that nothing can register in between.
+    let Entry::Occupied(entry) = PROCESS_NAMES.entry(name.to_owned()) else {
         panic!("Name {:?} was not registered!", name);
     };
 
-    PROCESS_REGISTRY.alter(&pid, |_, mut process| {
+    PROCESS_REGISTRY.alter(entry.get(), |_, mut process| {
         process.name = None;
         process
     });
+
+    entry.remove();
 }
 
 /// Processes an exit signal for the given [Pid] with the `exit_reason`.
-- 
2.43.0


From 546c9fa4e8b33a6a9624d1f19e20e961d816be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 06/44] fix: a timer is registered before it fires and never
 delivers once canceled

---
 hydra/src/process.rs          | 13 +++++++++++--
 hydra/src/process_registry.rs | 14 +++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index ec1ecc6..18f9a58 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -177,15 +177,24 @@ impl Process {
 
         let reference = Reference::new();
 
+        // The timer must not fire before it's registered, or it would never be unregistered.
+        let (registered, wait_registered) = oneshot::channel::<()>();
+
         let handle = tokio::spawn(async move {
+            let _ = wait_registered.await;
+
             Process::sleep(duration).await;
-            Process::send(dest, message);
 
-            process_destroy_timer(reference);
+            // Only send if the timer wasn't canceled while this task was already running.
+            if process_destroy_timer(reference) {
+                Process::send(dest, message);
+            }
         });
 
         process_register_timer(reference, duration, handle);
 
+        let _ = registered.send(());
+
         reference
     }
 
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 41a7307..61b2cd7 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -268,11 +268,15 @@ pub fn process_read_timer(timer: Reference) -> Option<Duration> {
     }
 }
 
-/// Unregisters and kills a timer.
-pub fn process_destroy_timer(timer: Reference) {
-    if let Some((_, (_, handle))) = PROCESS_TIMERS.remove(&timer.id()) {
-        handle.abort();
-    }
+/// Unregisters and kills a timer, returning `true` if the timer was registered.
+pub fn process_destroy_timer(timer: Reference) -> bool {
+    let Some((_, (_, handle))) = PROCESS_TIMERS.remove(&timer.id()) else {
+        return false;
+    };
+
+    handle.abort();
+
+    true
 }
 
 /// Gets process registry info.
-- 
2.43.0


From 3eeac6be4f76afe224ad6737bc55728ff4a1cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 07/44] fix: a process can only remove its own aliases

---
 hydra/src/process.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 18f9a58..a0c855e 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -122,9 +122,12 @@ impl Process {
     ///
     /// Returns `true` if the alias was currently-active for the current process, or `false` otherwise.
     pub fn unalias(alias: Reference) -> bool {
-        PROCESS.with(|process| process.aliases.borrow_mut().remove(&alias.id()));
+        let owned = PROCESS.with(|process| {
+            process.aliases.borrow_mut().remove(&alias.id())
+                || process.monitors.borrow().contains_key(&alias)
+        });
 
-        alias_destroy(alias)
+        owned && alias_destroy(alias)
     }
 
     /// Returns the current [Pid].
-- 
2.43.0


From d26d56d0425fb2e67ab9af00c694a7a4c57a22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 08/44] fix: nothing is delivered through an alias once it has
 been destroyed

---
 hydra/src/alias.rs          | 43 ++++++++++++++++++-------------------
 hydra/src/monitor.rs        | 14 ++++++------
 hydra/src/node_kernel.rs    |  8 ++++---
 hydra/src/node_registry.rs  |  9 ++++----
 hydra/src/process_kernel.rs |  8 +++----
 5 files changed, 42 insertions(+), 40 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 7353c76..9d97754 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -1,3 +1,4 @@
+use dashmap::mapref::entry::Entry;
 use dashmap::DashMap;
 
 use once_cell::sync::Lazy;
@@ -10,7 +11,6 @@ use crate::Reference;
 static ALIASES: Lazy<DashMap<u64, Alias>> = Lazy::new(DashMap::new);
 
 /// The state of an active alias.
-#[derive(Clone)]
 pub struct Alias {
     /// The target process sender.
     pub sender: ProcessSend,
@@ -35,25 +35,24 @@ pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     }
 }
 
-/// Retrieves an alias for the given reference if it's active.
-pub fn alias_retrieve(reference: Reference) -> Option<Alias> {
-    let mut active: Option<Alias> = None;
-
-    let result = ALIASES.remove_if(&reference.id(), |_, alias| {
-        if alias.reply {
-            true
-        } else {
-            active = Some(alias.clone());
-            false
-        }
-    });
-
-    result
-        .map(|(_, alias)| {
-            let _ = alias
-                .sender
-                .send(ProcessItem::AliasDeactivated(reference.id()));
-            alias
-        })
-        .or(active)
+/// Sends an item through an alias for the given reference if it's active.
+///
+/// The alias is held until the item is sent, so that nothing arrives once it has been destroyed.
+pub fn alias_send(reference: Reference, item: ProcessItem) {
+    let Entry::Occupied(entry) = ALIASES.entry(reference.id()) else {
+        return;
+    };
+
+    if entry.get().reply {
+        let _ = entry
+            .get()
+            .sender
+            .send(ProcessItem::AliasDeactivated(reference.id()));
+    }
+
+    let _ = entry.get().sender.send(item);
+
+    if entry.get().reply {
+        entry.remove();
+    }
 }
diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..371baf3 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -97,6 +97,9 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
     let dest = process.clone();
 
     let send_process_down = |dest: Dest, exit_reason: ExitReason| {
+        // Nothing is delivered through the alias once the monitor is down.
+        alias_destroy(reference);
+
         PROCESS.with(|process| {
             process
                 .sender
@@ -107,8 +110,6 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
                 ))
                 .unwrap()
         });
-
-        alias_destroy(reference);
     };
 
     match process {
@@ -220,6 +221,11 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
     let mut remote_monitors: BTreeMap<u64, (MonitorDown, Vec<Reference>)> = BTreeMap::new();
 
     for (reference, (pid, dest)) in references {
+        // Nothing is delivered through the alias once the monitor is down.
+        if reference.is_local() {
+            alias_destroy(reference);
+        }
+
         if pid.is_local() {
             process_sender(pid).map(|sender| {
                 sender.send(ProcessItem::MonitorProcessDown(
@@ -236,10 +242,6 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
             remote.0.monitors.push(reference.id());
             remote.1.push(reference);
         }
-
-        if reference.is_local() {
-            alias_destroy(reference);
-        }
     }
 
     for (node, (monitor_down, references)) in remote_monitors {
diff --git a/hydra/src/node_kernel.rs b/hydra/src/node_kernel.rs
index 04ea5f9..7d562f4 100644
--- a/hydra/src/node_kernel.rs
+++ b/hydra/src/node_kernel.rs
@@ -3,7 +3,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_register;
 use crate::node_send_frame;
 use crate::process_name_lookup;
@@ -38,8 +38,10 @@ pub fn node_forward_send(mut send: Send) {
                     .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
             }
             SendTarget::Alias(alias) => {
-                alias_retrieve(Reference::Local(alias))
-                    .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+                alias_send(
+                    Reference::Local(alias),
+                    ProcessItem::UserRemoteMessage(message),
+                );
             }
         }
     }
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..3481803 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -309,6 +309,11 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
 
         if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
             for (reference, monitor) in monitors {
+                // Nothing is delivered through the alias once the monitor is down.
+                if reference.is_local() {
+                    alias_destroy(reference);
+                }
+
                 match monitor {
                     NodeMonitor::Node(id) => {
                         process_sender(Pid::local(id)).map(|sender| {
@@ -328,10 +333,6 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
                         monitor_destroy(Pid::local(id), reference);
                     }
                 }
-
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
             }
         }
 
diff --git a/hydra/src/process_kernel.rs b/hydra/src/process_kernel.rs
index 59bf0d7..f1ba611 100644
--- a/hydra/src/process_kernel.rs
+++ b/hydra/src/process_kernel.rs
@@ -4,7 +4,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_process_send_with_alias;
 use crate::node_process_send_with_name;
 use crate::node_process_send_with_pid;
@@ -96,8 +96,7 @@ fn process_send_unoptimal(dest: Dest, message: Vec<u8>) {
                 .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
         }
         Dest::Alias(reference) => {
-            alias_retrieve(reference)
-                .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+            alias_send(reference, ProcessItem::UserRemoteMessage(message));
         }
     }
 }
@@ -123,8 +122,7 @@ fn process_send_optimal<M: Receivable>(dest: Dest, message: M) {
         }
         Dest::Alias(reference) => {
             if reference.is_local() {
-                alias_retrieve(reference)
-                    .map(|alias| alias.sender.send(Message::User(message).into()));
+                alias_send(reference, Message::User(message).into());
             } else {
                 node_process_send_with_alias(reference, message);
             }
-- 
2.43.0


From 6cd81d25ca569b769d3751a49a764f5895d5cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 09/44] fix: a late reply to a call never reaches the mailbox
 of the caller

---
 hydra/src/gen_server.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydra/src/gen_server.rs b/hydra/src/gen_server.rs
index 3609167..d2df96c 100644
--- a/hydra/src/gen_server.rs
+++ b/hydra/src/gen_server.rs
@@ -218,13 +218,10 @@ pub trait GenServer: Sized + Send + 'static {
         let server = server.into();
 
         async move {
-            let monitor = if server.is_local() {
-                Process::monitor(server.clone())
-            } else {
-                Process::monitor_alias(server.clone(), true)
-            };
+            // The reply goes through an alias, so that one that arrives late is dropped.
+            let monitor = Process::monitor_alias(server.clone(), true);
 
-            let from = From::new(Process::current(), monitor, server.is_remote());
+            let from = From::new(Process::current(), monitor, true);
 
             Process::send(server, GenServerMessage::Call(from, message));
 
-- 
2.43.0


From bbb4ea18e917aa1a645dc2220a75dea45c9084bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 10/44] fix: terminating a temporary child deletes its
 specification

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..e84dfd6 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,11 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From 6a14ef6d056c4e03d598e6a730ff9c2a10ee24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 11/44] fix: a temporary child that ignores its start gives its
 id back

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index e84dfd6..7736007 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -722,7 +722,7 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
-- 
2.43.0


From e7910c3752a86aeebf63156e25a821dbfc0a8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 12/44] fix: a new child that fails to start leaves no
 specification behind

---
 hydra/src/supervisor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 7736007..65418f4 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -727,7 +727,11 @@ impl Supervisor {
 
                 Ok(pid)
             }
-            Err(reason) => Err(SupervisorError::StartError(reason)),
+            Err(reason) => {
+                self.remove_child(self.children.len() - 1);
+
+                Err(SupervisorError::StartError(reason))
+            }
         }
     }
 
-- 
2.43.0


From 7ccd1b0f9bfb04302d7013c30ec91084741d9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 13/44] fix: a temporary child is never restarted by the exit
 of a sibling

---
 hydra/src/supervisor.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 65418f4..2b78ab1 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -615,25 +615,31 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
+        let start = if all { 0 } else { index };
 
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
+        let mut index = index;
+        let mut tindex = start;
 
-        for tindex in range {
-            indices.push(tindex);
+        while tindex < self.children.len() {
+            if index != tindex {
+                self.terminate_child_by_index(tindex).await;
 
-            if index == tindex {
-                continue;
+                // Temporary children are never restarted.
+                if self.children[tindex].is_temporary() {
+                    self.remove_child(tindex);
+
+                    if tindex < index {
+                        index -= 1;
+                    }
+
+                    continue;
+                }
             }
 
-            self.terminate_child_by_index(tindex).await;
+            tindex += 1;
         }
 
-        for sindex in indices {
+        for sindex in start..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From 9891b831ca31c4fb95aa0a1acc9bb8f8faa60610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 14/44] fix: a child that has exited is not counted as running

---
 hydra/src/supervisor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 2b78ab1..1cc9f86 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -494,6 +494,8 @@ impl Supervisor {
 
         let child = &mut self.children[index];
 
+        child.pid = None;
+
         // Permanent children are always restarted.
         if child.is_permanent() {
             #[cfg(feature = "tracing")]
@@ -756,7 +758,7 @@ impl Supervisor {
         }
 
         self.children.iter().any(|child| {
-            if child.pid.is_none() {
+            if child.pid.is_none() && !child.restarting {
                 return false;
             }
 
-- 
2.43.0


From 3b9c51c9cbda5a2d7bdbc9823ddbb35bd9e9d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 15/44] fix: a child that was terminated is not restarted
 afterwards

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 1cc9f86..abea46f 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -462,12 +462,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
-- 
2.43.0


From a1920893e0d07f70953abd7a657208151c0b0d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 16/44] fix: a restart that is no longer needed is not counted

---
 hydra/src/supervisor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index abea46f..46131ba 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -660,14 +660,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
-- 
2.43.0


From df80b7ca58fee654fc2033432a006140b265586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 17/44] fix: shut down after the last significant child, not
 after the first

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 46131ba..3a9e5a7 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -757,7 +757,7 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
+        !self.children.iter().any(|child| {
             if child.pid.is_none() && !child.restarting {
                 return false;
             }
-- 
2.43.0


From d057fca8f44f4a7c551f3cde859742b424338e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 18/44] fix: a supervisor accepts any restart window, however
 long

---
 hydra/src/supervisor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 3a9e5a7..2c78517 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -769,9 +769,10 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
+        let threshold = now.checked_sub(self.max_duration);
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        self.restarts
+            .retain(|restart| threshold.map_or(true, |threshold| *restart >= threshold));
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
-- 
2.43.0


From 882f3165f85c228a30549c8fc0ad9557a8956136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 19/44] fix: a registry without a start routine refuses a start
 instead of panicking

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From f950a528319ef2a66cbc4dc8be89b6f8667e46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 20/44] fix: dropping an unused registry leaves the running one
 of its name alone

---
 hydra/src/registry.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..1b7434c 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -473,7 +473,14 @@ impl Registry {
 
 impl Drop for Registry {
     fn drop(&mut self) {
-        REGISTRY.remove(&self.name);
+        // Other registries with this name that aren't running must not harm the one that is.
+        if let Some(registry) = REGISTRY.get(&self.name) {
+            for (process, key) in &self.lookup {
+                registry.remove_if(key, |_, value| value == process);
+            }
+        }
+
+        REGISTRY.remove_if(&self.name, |_, registry| registry.is_empty());
 
         for process in self.lookup.keys() {
             Process::unlink(*process);
-- 
2.43.0


From 02c2f02ec6bf68c4adc3261c39d133594baa06c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 21/44] fix: clearing a hash ring clears its overrides

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..907eade 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -205,7 +205,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From daa1306316fa72df4296acb8603fc811c2201300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 22/44] fix: stopping a registered process no longer stops one
 that was removed meanwhile

---
 hydra/src/registry.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 1b7434c..83cdbc6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -422,7 +422,8 @@ impl Registry {
 
     /// Stops a process by the given key.
     fn stop_by_key(&mut self, key: RegistryKey) -> Result<(), RegistryError> {
-        let Some(process) = lookup_process(&self.name, &key) else {
+        // Removing it first ensures that only one of concurrent stop/remove requests gets the process.
+        let Some(process) = remove_process(&self.name, &key) else {
             return Err(RegistryError::NotFound);
         };
 
@@ -431,8 +432,6 @@ impl Registry {
 
         self.lookup.remove(&process);
 
-        remove_process(&self.name, &key);
-
         Ok(())
     }
 
-- 
2.43.0


From ccf782d6c4feb5e0350e67f583294c37baab5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 23/44] fix: the heartbeat timeout option set the handshake
 timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From e9df1000291fb95cf80554e633fd864fc5fef9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 24/44] fix: connections were linked to themselves, accepted
 ones survived the stop of the node

---
 hydra/src/node_local.rs  | 1 -
 hydra/src/node_remote.rs | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..8ded40d 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -25,7 +25,6 @@ pub enum NodeLocalSupervisorMessage {
 pub struct NodeLocalSupervisor {
     pub name: String,
     pub options: NodeOptions,
-    #[allow(dead_code)]
     pub process: Pid,
 }
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index e423b3c..8807fee 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -303,7 +303,7 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    Process::link(supervisor.local_supervisor.process);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
-- 
2.43.0


From 81ecaaa077fb2623eafccec51f1201931f07dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 25/44] fix: a connection that was disconnected while it came
 up still became the one messages are sent over

---
 hydra/src/node_registry.rs | 7 ++++++-
 hydra/src/node_remote.rs   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 3481803..8569c4a 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -134,12 +134,17 @@ pub fn node_local_process() -> Option<Pid> {
 }
 
 /// Sets available worker processes for a node, then, drains any pending messages to them.
-pub fn node_register_workers(node: Node, sender: Pid, receiver: Pid) {
+pub fn node_register_workers(node: Node, supervisor: Pid, sender: Pid, receiver: Pid) {
     let Some(entry) = NODE_MAP.get(&node) else {
         return;
     };
 
     NODE_REGISTRATIONS.alter(&entry, |_, mut value| {
+        // The supervisor may have been replaced or disconnected since it was accepted.
+        if value.supervisor != Some(supervisor) {
+            return value;
+        }
+
         value.sender = Some(sender);
         value.receiver = Some(receiver);
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 8807fee..4a19511 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -312,7 +312,7 @@ async fn node_remote_supervisor(
     let sender = Process::spawn_link(node_remote_sender(writer, supervisor.clone()));
     let receiver = Process::spawn_link(node_remote_receiver(reader, supervisor.clone()));
 
-    node_register_workers(node, sender, receiver);
+    node_register_workers(node, Process::current(), sender, receiver);
 
     loop {
         let message = Process::receive::<NodeRemoteSupervisorMessage>().await;
-- 
2.43.0


From b570f9694168829d56b3928094a0e6bbc1361a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 26/44] fix: after a disconnect messages still went to the old
 connection and nothing signalled its loss if a new one was made quickly

---
 hydra/src/node_registry.rs | 98 ++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 46 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 8569c4a..516e4c2 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -283,6 +283,50 @@ pub fn node_register(node: Node, connect: bool) -> u64 {
     next_id
 }
 
+/// Signals everything that relied on the connection to the given node that it's gone.
+fn node_connection_down(node: &Node) {
+    if let Some((_, links)) = NODE_LINKS.remove(node) {
+        for (from, process_id) in links {
+            let process = Pid::local(process_id);
+
+            link_destroy(process, from);
+
+            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
+        }
+    }
+
+    if let Some((_, monitors)) = NODE_MONITORS.remove(node) {
+        for (reference, monitor) in monitors {
+            // Nothing is delivered through the alias once the monitor is down.
+            if reference.is_local() {
+                alias_destroy(reference);
+            }
+
+            match monitor {
+                NodeMonitor::Node(id) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
+                    });
+                }
+                NodeMonitor::ProcessMonitor(id, dest) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessDown(
+                            dest,
+                            reference,
+                            ExitReason::from("noconnection"),
+                        ))
+                    });
+                }
+                NodeMonitor::ProcessMonitorCleanup(id) => {
+                    monitor_destroy(Pid::local(id), reference);
+                }
+            }
+        }
+    }
+
+    NODE_PENDING_MESSAGES.remove(node);
+}
+
 /// Triggered when a remote node supervisor goes down unexpectedly.
 pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     let Some(id) = NODE_MAP.get(&node) else {
@@ -290,10 +334,7 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        if value
-            .supervisor
-            .is_some_and(|supervisor| supervisor != process)
-        {
+        if value.supervisor != Some(process) {
             return value;
         }
 
@@ -302,46 +343,7 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
         value.receiver = None;
         value.state = NodeState::Known;
 
-        if let Some((_, links)) = NODE_LINKS.remove(&node) {
-            for (from, process_id) in links {
-                let process = Pid::local(process_id);
-
-                link_destroy(process, from);
-
-                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
-            }
-        }
-
-        if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
-            for (reference, monitor) in monitors {
-                // Nothing is delivered through the alias once the monitor is down.
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
-
-                match monitor {
-                    NodeMonitor::Node(id) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitor(id, dest) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorProcessDown(
-                                dest,
-                                reference,
-                                ExitReason::from("noconnection"),
-                            ))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitorCleanup(id) => {
-                        monitor_destroy(Pid::local(id), reference);
-                    }
-                }
-            }
-        }
-
-        NODE_PENDING_MESSAGES.remove(&node);
+        node_connection_down(&node);
 
         value
     });
@@ -382,13 +384,17 @@ pub fn node_disconnect(node: Node) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        NODE_PENDING_MESSAGES.remove(&node);
-
         if let Some(supervisor) = value.supervisor.take() {
             Process::exit(supervisor, ExitReason::Kill);
         }
 
+        value.sender = None;
+        value.receiver = None;
         value.state = NodeState::Known;
+
+        // Must happen before a new connection can be made, the supervisor may go down later.
+        node_connection_down(&node);
+
         value
     });
 }
-- 
2.43.0


From 34fb523782c1c594061ec4929128de948ffa8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 27/44] fix: the end of a stopped local node wiped the tables
 of the one started after it

---
 hydra/src/node_local.rs    | 2 +-
 hydra/src/node_registry.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 8ded40d..263c8f9 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -30,7 +30,7 @@ pub struct NodeLocalSupervisor {
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 516e4c2..d7942b7 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -120,7 +120,12 @@ pub fn node_local_stop() {
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
+pub fn node_local_panic(supervisor: Pid) {
+    // The local node may have been stopped, and started again, already.
+    if node_local_process() != Some(supervisor) {
+        return;
+    }
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
-- 
2.43.0


From 65a2c0bd36ec384fe1a2cf0bac94a1981d5c3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 28/44] fix: forgetting a node did not signal its links and
 monitors

---
 hydra/src/node_registry.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index d7942b7..003f54a 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -406,19 +406,20 @@ pub fn node_disconnect(node: Node) {
 
 /// Disconnects and forgets a node completely.
 pub fn node_forget(node: Node) {
-    let Some((_, id)) = NODE_MAP.remove(&node) else {
+    // The entry is held until everything is signalled, so that no connection can be made in between.
+    let Entry::Occupied(entry) = NODE_MAP.entry(node.clone()) else {
         return;
     };
 
-    let Some((_, registration)) = NODE_REGISTRATIONS.remove(&id) else {
-        return;
-    };
+    if let Some((_, registration)) = NODE_REGISTRATIONS.remove(entry.get()) {
+        if let Some(supervisor) = registration.supervisor {
+            Process::exit(supervisor, ExitReason::Kill);
+        }
+    }
 
-    NODE_PENDING_MESSAGES.remove(&node);
+    node_connection_down(&node);
 
-    if let Some(supervisor) = registration.supervisor {
-        Process::exit(supervisor, ExitReason::Kill);
-    }
+    entry.remove();
 }
 
 /// Looks up the node information for the local node.
-- 
2.43.0


From 67613a7a28663a3c5138c784ff4626ccd93c3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 29/44] fix: stopping the node signalled none of the links and
 monitors of other nodes

---
 hydra/src/node_registry.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 003f54a..0fbacaf 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -17,6 +17,7 @@ use crate::link_destroy;
 use crate::monitor_destroy;
 use crate::node_local_supervisor;
 use crate::node_remote_connector;
+use crate::process_exit;
 use crate::process_exit_signal_linked;
 use crate::process_sender;
 use crate::Dest;
@@ -103,32 +104,37 @@ pub fn node_local_start(name: String, options: NodeOptions) -> Pid {
 
 /// Stops the local node, forgetting all nodes.
 pub fn node_local_stop() {
-    let Some((_, _)) = NODE_MAP.remove(&Node::Local) else {
+    if !node_alive() {
         panic!("Local node not started!");
-    };
+    }
 
-    NODE_MAP.clear();
+    if let Some(supervisor) = node_local_process() {
+        process_exit(supervisor, supervisor, ExitReason::Kill);
 
-    if let Some(entry) = NODE_REGISTRATIONS.get(&LOCAL_NODE_ID) {
-        if let Some(supervisor) = entry.supervisor {
-            Process::exit(supervisor, ExitReason::Kill);
-        }
+        node_local_down(supervisor);
     }
-
-    NODE_REGISTRATIONS.clear();
-    NODE_PENDING_MESSAGES.clear();
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
 pub fn node_local_panic(supervisor: Pid) {
     // The local node may have been stopped, and started again, already.
-    if node_local_process() != Some(supervisor) {
-        return;
+    if node_local_process() == Some(supervisor) {
+        node_local_down(supervisor);
     }
+}
+
+/// Forgets all nodes, then, the local one if it's still the given one.
+fn node_local_down(supervisor: Pid) {
+    // For everything that relied on a connection, this is the same as losing it.
+    node_list().into_iter().for_each(node_forget);
+
+    let removed = NODE_REGISTRATIONS.remove_if(&LOCAL_NODE_ID, |_, registration| {
+        registration.supervisor == Some(supervisor)
+    });
 
-    NODE_MAP.clear();
-    NODE_REGISTRATIONS.clear();
-    NODE_PENDING_MESSAGES.clear();
+    if removed.is_some() {
+        NODE_MAP.remove(&Node::Local);
+    }
 }
 
 /// Returns the process responsible for the local node.
@@ -413,7 +419,7 @@ pub fn node_forget(node: Node) {
 
     if let Some((_, registration)) = NODE_REGISTRATIONS.remove(entry.get()) {
         if let Some(supervisor) = registration.supervisor {
-            Process::exit(supervisor, ExitReason::Kill);
+            process_exit(supervisor, supervisor, ExitReason::Kill);
         }
     }
 
-- 
2.43.0


From f350717f8010ae1884ad1b4cde2fba1446115466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 30/44] fix: removing a monitor of a process on another node
 was not sent to that node

---
 hydra/src/monitor.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 371baf3..79fe1b7 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
@@ -70,16 +70,7 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                     continue;
                 };
 
-                if pid.is_local() {
-                    MONITORS.alter(&pid.id(), |_, mut value| {
-                        value.remove(reference);
-                        value
-                    });
-                } else {
-                    let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
-
-                    node_send_frame(monitor.into(), reference.node());
-                }
+                monitor_destroy(*pid, *reference);
             }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
-- 
2.43.0


From 17811b4213cf3491e1d2de46a410551b58c9ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 31/44] fix: removing a monitor by name of a process on another
 node before it was resolved left it behind there

---
 hydra/src/monitor.rs         | 14 +++++++++++++-
 hydra/src/node_registry.rs   | 13 ++++++++++---
 hydra/src/node_remote.rs     |  8 ++++++--
 hydra/src/process.rs         | 12 ++++++------
 hydra/src/process_monitor.rs |  3 +++
 5 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 79fe1b7..40704c6 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -59,6 +59,15 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     }
 }
 
+/// Destroys a monitor for a named process on the given remote node and reference.
+pub fn monitor_destroy_named(node: Node, reference: Reference) {
+    node_process_monitor_destroy(node.clone(), reference);
+
+    let monitor = Monitor::new(false, None, None, None, reference.id());
+
+    node_send_frame(monitor.into(), node_register(node, false));
+}
+
 /// Destroys all monitors registered for the given reference, monitor combination.
 pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a ProcessMonitor)>>(
     monitors: M,
@@ -72,6 +81,9 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
 
                 monitor_destroy(*pid, *reference);
             }
+            ProcessMonitor::ForRemoteName(node) => {
+                monitor_destroy_named(node.clone(), *reference);
+            }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
             }
@@ -179,7 +191,7 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
                     process
                         .monitors
                         .borrow_mut()
-                        .insert(reference, ProcessMonitor::ForProcess(None))
+                        .insert(reference, ProcessMonitor::ForRemoteName(node.clone()))
                 });
 
                 node_process_monitor_create(node.clone(), reference, dest, from);
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 0fbacaf..09b5e72 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -466,12 +466,19 @@ pub fn node_process_monitor_cleanup(node: Node, reference: Reference, process: P
         .insert(reference, NodeMonitor::ProcessMonitorCleanup(process.id()));
 }
 
-/// Destroys a node process monitor for the given node and reference.
-pub fn node_process_monitor_destroy(node: Node, reference: Reference) {
+/// Destroys a node process monitor for the given node and reference, returning the monitored local process if there was one.
+pub fn node_process_monitor_destroy(node: Node, reference: Reference) -> Option<Pid> {
+    let mut monitor: Option<NodeMonitor> = None;
+
     NODE_MONITORS.alter(&node, |_, mut value| {
-        value.remove(&reference);
+        monitor = value.remove(&reference);
         value
     });
+
+    match monitor {
+        Some(NodeMonitor::ProcessMonitorCleanup(id)) => Some(Pid::local(id)),
+        _ => None,
+    }
 }
 
 /// Destroys all process monitors for the given node by their references.
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 4a19511..c446aa7 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -217,9 +217,13 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                         panic!("Must have either a process id or process name for monitor!");
                     };
                 } else {
-                    monitor_destroy(Pid::local(monitor.process_id.unwrap()), reference);
+                    // The remote doesn't know the process id yet if it was monitored by name.
+                    let process = node_process_monitor_destroy(supervisor.node.clone(), reference)
+                        .or(monitor.process_id.map(Pid::local));
 
-                    node_process_monitor_destroy(supervisor.node.clone(), reference);
+                    if let Some(process) = process {
+                        monitor_destroy(process, reference);
+                    }
                 }
             }
             Frame::MonitorDown(monitor_down) => {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index a0c855e..3ec243f 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -23,6 +23,7 @@ use crate::link_process_down;
 use crate::monitor_create;
 use crate::monitor_destroy;
 use crate::monitor_destroy_all;
+use crate::monitor_destroy_named;
 use crate::monitor_fill_info;
 use crate::monitor_install;
 use crate::monitor_process_down;
@@ -384,12 +385,11 @@ impl Process {
             return;
         };
 
-        let ProcessMonitor::ForProcess(pid) = process_monitor else {
-            panic!("Invalid process monitor reference!");
-        };
-
-        if let Some(pid) = pid {
-            monitor_destroy(pid, monitor);
+        match process_monitor {
+            ProcessMonitor::ForProcess(Some(pid)) => monitor_destroy(pid, monitor),
+            ProcessMonitor::ForProcess(None) => (),
+            ProcessMonitor::ForRemoteName(node) => monitor_destroy_named(node, monitor),
+            ProcessMonitor::ForNode(_) => panic!("Invalid process monitor reference!"),
         }
 
         alias_destroy(monitor);
diff --git a/hydra/src/process_monitor.rs b/hydra/src/process_monitor.rs
index 8237c80..2721408 100644
--- a/hydra/src/process_monitor.rs
+++ b/hydra/src/process_monitor.rs
@@ -5,6 +5,9 @@ use crate::Pid;
 pub enum ProcessMonitor {
     /// A monitor installed to monitor the given process.
     ForProcess(Option<Pid>),
+    /// A monitor installed to monitor the process registered under a name on the given remote node,
+    /// until the node has told which process it is.
+    ForRemoteName(Node),
     /// A monitor installed to monitor the given node.
     ForNode(Node),
 }
-- 
2.43.0


From 45785a0c179992eab5e8152a9e290d548a5de266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 32/44] fix: a process stayed linked to a process of another
 node that had exited

---
 hydra/src/node_registry.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 09b5e72..a58dfd0 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -566,6 +566,8 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
+
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From 76ccef4471a5ad476ebe55bf47ec60aa642ac19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 33/44] fix: a connection could deadlock the node, it sent a
 frame while it held a lock on a process

---
 hydra/src/node_remote.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index c446aa7..f4efe23 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -169,7 +169,7 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-                        process_exists_lock(process, |exists| {
+                        let exists = process_exists_lock(process, |exists| {
                             if exists {
                                 monitor_create(process, reference, from, None);
                                 node_process_monitor_cleanup(
@@ -177,14 +177,18 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                                     reference,
                                     process,
                                 );
-                            } else {
-                                let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
-
-                                monitor_down.monitors.push(reference.id());
-
-                                node_send_frame(monitor_down.into(), node);
                             }
+
+                            exists
                         });
+
+                        if !exists {
+                            let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
+
+                            monitor_down.monitors.push(reference.id());
+
+                            node_send_frame(monitor_down.into(), node);
+                        }
                     } else if let Some(name) = monitor.process_name {
                         let process = process_name_lookup(&name).filter(|process| {
                             process_exists_lock(*process, |exists| {
-- 
2.43.0


From bfde640f6ae1b38e97e9c183640e255b2b4c2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 34/44] fix: a peer without the cookie could join by sending
 our own hello back

---
 hydra/src/node_remote.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f4efe23..2fca62d 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -368,7 +368,11 @@ pub async fn node_remote_accepter(socket: TcpStream, supervisor: Arc<NodeLocalSu
         .expect("Failed to receive hello handshake packet!");
 
     if let Frame::Hello(mut hello) = frame {
-        if hello.validate() {
+        // Our own hello proves nothing, the peer just got it from us.
+        let reflected = hello.name == supervisor.name
+            && hello.broadcast_address == supervisor.options.broadcast_address;
+
+        if hello.validate() && !reflected {
             Process::spawn(node_remote_supervisor(writer, reader, hello, supervisor));
             return;
         } else {
-- 
2.43.0


From bbf0cf5590980dd908d9288cf632b3e22f85d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 35/44] fix: a frame that was longer than announced took bytes
 of the next one, or stalled the connection

---
 hydra/src/frame/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1a95b71..a9cb9f5 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -8,7 +8,6 @@ use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
 use bincode::config::LittleEndian;
-use bincode::error::DecodeError;
 
 use bytes::Buf;
 use bytes::BufMut;
@@ -170,17 +169,15 @@ impl Decoder for Codec {
             return Ok(None);
         }
 
-        let result = bincode::decode_from_slice(&src[4..], FRAME_CONFIG);
+        // A frame that doesn't end within its length will never be complete, what follows is another frame.
+        let result =
+            bincode::decode_from_slice(&src[MARKER_LENGTH..MARKER_LENGTH + length], FRAME_CONFIG);
 
         match result {
             Ok((frame, _)) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
             }
-            Err(DecodeError::UnexpectedEnd { additional }) => {
-                src.reserve(additional);
-                Ok(None)
-            }
             Err(e) => Err(Error::new(ErrorKind::InvalidData, e)),
         }
     }
-- 
2.43.0


From a44173a8b9fd2ea87a20edf4bbcd6385425a0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 36/44] fix: lengths in a frame made the node reserve any
 amount of memory, and abort if there was not enough

---
 hydra/src/frame/mod.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index a9cb9f5..ff73fca 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -8,6 +8,7 @@ use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
 use bincode::config::LittleEndian;
+use bincode::error::DecodeError;
 
 use bytes::Buf;
 use bytes::BufMut;
@@ -46,6 +47,26 @@ const FRAME_CONFIG: Configuration<LittleEndian, Fixint> = config::standard()
 /// The size of the marker.
 const MARKER_LENGTH: usize = std::mem::size_of::<u32>();
 
+/// The most memory reserved ahead for a frame.
+const MAX_RESERVE: usize = 1 << 16;
+
+/// The length up to which a frame is small, or medium.
+const SMALL_FRAME: usize = 1 << 14;
+const MEDIUM_FRAME: usize = 1 << 22;
+
+/// Decodes a frame, without trusting the lengths within: nothing in memory is larger than four times its encoding.
+fn decode_frame(src: &[u8]) -> Result<Frame, DecodeError> {
+    let result = if src.len() <= SMALL_FRAME {
+        bincode::decode_from_slice(src, FRAME_CONFIG.with_limit::<{ 4 * SMALL_FRAME }>())
+    } else if src.len() <= MEDIUM_FRAME {
+        bincode::decode_from_slice(src, FRAME_CONFIG.with_limit::<{ 4 * MEDIUM_FRAME }>())
+    } else {
+        bincode::decode_from_slice(src, FRAME_CONFIG.with_limit::<{ u32::MAX as usize }>())
+    };
+
+    result.map(|(frame, _)| frame)
+}
+
 /// A frame value for the codec.
 #[derive(Debug, Encode, Decode)]
 pub enum Frame {
@@ -165,16 +186,16 @@ impl Decoder for Codec {
         let length = u32::from_le_bytes(length_marker) as usize;
 
         if src.len() < MARKER_LENGTH + length {
-            src.reserve(MARKER_LENGTH + length - src.len());
+            // The length isn't trusted, a peer must send what it makes us keep.
+            src.reserve((MARKER_LENGTH + length - src.len()).min(MAX_RESERVE));
             return Ok(None);
         }
 
         // A frame that doesn't end within its length will never be complete, what follows is another frame.
-        let result =
-            bincode::decode_from_slice(&src[MARKER_LENGTH..MARKER_LENGTH + length], FRAME_CONFIG);
+        let result = decode_frame(&src[MARKER_LENGTH..MARKER_LENGTH + length]);
 
         match result {
-            Ok((frame, _)) => {
+            Ok(frame) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
             }
-- 
2.43.0


From 7cf7ba6219ad24e8a9a0117d35942af80b1f8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 37/44] fix: nodes that connected to each other at once both
 lost their connection, again and again

---
 hydra/src/node_registration.rs |  4 +++
 hydra/src/node_registry.rs     | 53 +++++++++++++++++++++++++---------
 hydra/src/node_remote.rs       | 10 +++++--
 3 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/hydra/src/node_registration.rs b/hydra/src/node_registration.rs
index 29a4ad4..d9e611e 100644
--- a/hydra/src/node_registration.rs
+++ b/hydra/src/node_registration.rs
@@ -17,6 +17,8 @@ pub struct NodeRegistration {
     pub name: String,
     /// The broadcast address of this node.
     pub broadcast_address: SocketAddr,
+    /// Whether or not the connection to this node is made by the local one.
+    pub outgoing: bool,
 }
 
 impl NodeRegistration {
@@ -26,6 +28,7 @@ impl NodeRegistration {
         state: NodeState,
         name: String,
         broadcast_address: SocketAddr,
+        outgoing: bool,
     ) -> Self {
         Self {
             supervisor,
@@ -34,6 +37,7 @@ impl NodeRegistration {
             state,
             name,
             broadcast_address,
+            outgoing,
         }
     }
 }
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index a58dfd0..dfb6e4e 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -94,6 +94,7 @@ pub fn node_local_start(name: String, options: NodeOptions) -> Pid {
             NodeState::Current,
             name,
             options.broadcast_address,
+            false,
         ),
     );
 
@@ -198,12 +199,17 @@ pub fn node_send_frame(frame: Frame, id: u64) {
 }
 
 /// Accepts a remote node's connection if one doesn't exist, returns `true` if accepted.
-pub fn node_accept(node: Node, supervisor: Pid) -> bool {
+///
+/// When both nodes connect to each other at once, it's always the connection made by the same one of them that is kept.
+pub fn node_accept(node: Node, supervisor: Pid, outgoing: bool) -> bool {
     let Node::Remote(name, address) = node else {
         panic!("Can't accept a local node!");
     };
 
-    let entry = NODE_MAP.entry(Node::from((name.clone(), address)));
+    let node = Node::from((name.clone(), address));
+    let preferred = node_lookup_local().is_some_and(|local| local < (name.clone(), address));
+
+    let entry = NODE_MAP.entry(node.clone());
 
     match entry {
         Entry::Vacant(entry) => {
@@ -211,7 +217,13 @@ pub fn node_accept(node: Node, supervisor: Pid) -> bool {
 
             NODE_REGISTRATIONS.insert(
                 next_id,
-                NodeRegistration::new(Some(supervisor), NodeState::Connected, name, address),
+                NodeRegistration::new(
+                    Some(supervisor),
+                    NodeState::Connected,
+                    name,
+                    address,
+                    outgoing,
+                ),
             );
 
             entry.insert(next_id);
@@ -222,18 +234,33 @@ pub fn node_accept(node: Node, supervisor: Pid) -> bool {
             let mut accepted = false;
 
             NODE_REGISTRATIONS.alter(entry.get(), |_, mut value| {
-                if matches!(value.state, NodeState::Pending) {
-                    if let Some(current_supervisor) = value.supervisor.take() {
-                        if supervisor != current_supervisor {
-                            Process::exit(current_supervisor, ExitReason::Kill);
+                let current = value.supervisor == Some(supervisor);
+
+                accepted = match value.state {
+                    // The connector itself, or, the peer connected at the same time.
+                    NodeState::Pending => value.supervisor.is_none() || current || preferred,
+                    // The peer would not connect, if it kept the connection that we made at the same time.
+                    NodeState::Connected => {
+                        value.supervisor.is_none() || (preferred && value.outgoing && !outgoing)
+                    }
+                    _ => value.supervisor.is_none(),
+                };
+
+                if accepted {
+                    if let Some(previous) = value.supervisor.replace(supervisor) {
+                        if !current {
+                            Process::exit(previous, ExitReason::Kill);
                         }
                     }
-                }
 
-                if value.supervisor.is_none() {
-                    accepted = true;
+                    if matches!(value.state, NodeState::Connected) {
+                        value.sender = None;
+                        value.receiver = None;
+
+                        node_connection_down(&node);
+                    }
 
-                    value.supervisor = Some(supervisor);
+                    value.outgoing = outgoing;
                     value.state = NodeState::Connected;
                 }
 
@@ -280,12 +307,12 @@ pub fn node_register(node: Node, connect: bool) -> u64 {
 
         NODE_REGISTRATIONS.insert(
             next_id,
-            NodeRegistration::new(Some(supervisor), NodeState::Pending, name, address),
+            NodeRegistration::new(Some(supervisor), NodeState::Pending, name, address, true),
         );
     } else {
         NODE_REGISTRATIONS.insert(
             next_id,
-            NodeRegistration::new(None, NodeState::Known, name, address),
+            NodeRegistration::new(None, NodeState::Known, name, address, false),
         );
     }
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 2fca62d..4dddcc8 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -302,6 +302,7 @@ async fn node_remote_supervisor(
     reader: Reader,
     hello: Hello,
     supervisor: Arc<NodeLocalSupervisor>,
+    outgoing: bool,
 ) {
     let node = Node::from((hello.name, hello.broadcast_address));
 
@@ -313,7 +314,7 @@ async fn node_remote_supervisor(
 
     Process::link(supervisor.local_supervisor.process);
 
-    if !node_accept(node.clone(), Process::current()) {
+    if !node_accept(node.clone(), Process::current(), outgoing) {
         panic!("Not accepting node supervisor!");
     }
 
@@ -373,7 +374,9 @@ pub async fn node_remote_accepter(socket: TcpStream, supervisor: Arc<NodeLocalSu
             && hello.broadcast_address == supervisor.options.broadcast_address;
 
         if hello.validate() && !reflected {
-            Process::spawn(node_remote_supervisor(writer, reader, hello, supervisor));
+            Process::spawn(node_remote_supervisor(
+                writer, reader, hello, supervisor, false,
+            ));
             return;
         } else {
             panic!("Node handshake failed validation!");
@@ -447,7 +450,8 @@ pub async fn node_remote_connector(node: Node) {
 
         if hello.validate() && matches {
             std::mem::forget(connector);
-            return node_remote_supervisor(writer, reader, hello, supervisor.into_inner()).await;
+            return node_remote_supervisor(writer, reader, hello, supervisor.into_inner(), true)
+                .await;
         } else if !matches {
             panic!(
                 "Node was not the expected node: {:?} (wanted) {:?} (received).",
-- 
2.43.0


From a7511189856d66b8014f3035576fe908096ac178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 38/44] fix: removing a monitor of a process on another node
 lost the connection to it

---
 hydra/src/node_remote.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 4dddcc8..195448c 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -158,14 +158,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-- 
2.43.0


From 0ffb2a86ddce1c6a6e6e7a5e953a6aca624e27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 39/44] fix: a process stayed linked to one that did not exist

---
 hydra/src/link.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index a39e14f..60afedc 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -49,6 +49,8 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
+            link_destroy(process, from);
+
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -64,6 +66,8 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
+                link_destroy(process, from);
+
                 process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
             }
         }
-- 
2.43.0


From 7bf6acbdc2c1fbf0dccdb49284276106b18110f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 40/44] fix: a connection attempt that ended at once ended the
 local node that had just been started

---
 hydra/src/node_registry.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index dfb6e4e..a405b07 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -20,6 +20,7 @@ use crate::node_remote_connector;
 use crate::process_exit;
 use crate::process_exit_signal_linked;
 use crate::process_sender;
+use crate::process_set_flags;
 use crate::Dest;
 use crate::ExitReason;
 use crate::Local;
@@ -30,6 +31,7 @@ use crate::NodeRemoteSenderMessage;
 use crate::NodeState;
 use crate::Pid;
 use crate::Process;
+use crate::ProcessFlags;
 use crate::ProcessItem;
 use crate::Reference;
 
@@ -87,6 +89,9 @@ pub fn node_local_start(name: String, options: NodeOptions) -> Pid {
 
     let supervisor = Process::spawn(node_local_supervisor(name.clone(), options));
 
+    // Connectors link to it, and, may exit before it runs for the first time.
+    process_set_flags(supervisor, ProcessFlags::TRAP_EXIT);
+
     NODE_REGISTRATIONS.insert(
         LOCAL_NODE_ID,
         NodeRegistration::new(
-- 
2.43.0


From c04544896a0f57ca1504d549b069863859369d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 41/44] fix: reading a node without an address panicked the
 process that received it

---
 hydra/src/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 2d7f34b..1da1d4d 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -334,7 +334,10 @@ impl<'de> Deserialize<'de> for Node {
                 {
                     Ok(Node::Local)
                 } else {
-                    Ok(Node::Remote(node.name, node.address.unwrap()))
+                    match node.address {
+                        Some(address) => Ok(Node::Remote(node.name, address)),
+                        None => Err(serde::de::Error::custom("remote node without an address")),
+                    }
                 }
             }
             None => Ok(Node::Local),
-- 
2.43.0


From bc287075926801bcf36c0585e64670f7e9528c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 42/44] fix: a websocket handler went on running callbacks
 after it had been closed

---
 hydra-websockets/src/websocket_handler.rs | 25 ++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..d7ecd47 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -84,11 +84,14 @@ where
 }
 
 /// Internal routine to process commands from a [WebsocketHandler] callback.
+///
+/// Returns `false` if the process has been asked to exit, and no more callbacks should be invoked.
 async fn websocket_process_commands<T, S>(
     commands: WebsocketCommands,
     handler: &mut T,
     stream: &mut WebSocketStream<S>,
-) where
+) -> bool
+where
     T: WebsocketHandler + Send + 'static,
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
@@ -113,7 +116,9 @@ async fn websocket_process_commands<T, S>(
     if let Err(error) = stream.send_all(&mut sends).await {
         handler.terminate(error_to_reason(&error)).await;
 
-        Process::exit(Process::current(), error_to_reason(&error))
+        Process::exit(Process::current(), error_to_reason(&error));
+
+        return false;
     }
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
@@ -130,7 +135,11 @@ async fn websocket_process_commands<T, S>(
         } else {
             Process::exit(Process::current(), ExitReason::Normal);
         }
+
+        return false;
     }
+
+    true
 }
 
 /// Internal [WebsocketHandler] start routine.
@@ -142,7 +151,9 @@ where
     match handler.websocket_init().await {
         Ok(commands) => {
             if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
+                if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                    return;
+                }
             }
         }
         Err(reason) => {
@@ -156,7 +167,9 @@ where
                 match handler.websocket_info(message).await {
                     Ok(commands) => {
                         if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
+                            if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                return;
+                            }
                         }
                     }
                     Err(reason) => {
@@ -194,7 +207,9 @@ where
                         match handler.websocket_handle(message).await {
                             Ok(commands) => {
                                 if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
+                                    if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                        return;
+                                    }
                                 }
                             }
                             Err(reason) => {
-- 
2.43.0


From ac11b2b823c5b0a91eb4a2296d7291736c09412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 43/44] fix: a websocket handler that closed, or stopped in
 websocket_init, was not terminated

---
 hydra-websockets/src/websocket_handler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index d7ecd47..6082be2 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -133,6 +133,8 @@ where
 
             Process::exit(Process::current(), error_to_reason(&error));
         } else {
+            handler.terminate(ExitReason::Normal).await;
+
             Process::exit(Process::current(), ExitReason::Normal);
         }
 
@@ -157,6 +159,8 @@ where
             }
         }
         Err(reason) => {
+            handler.terminate(reason.clone()).await;
+
             return Process::exit(Process::current(), reason);
         }
     }
-- 
2.43.0


From fd0f7895d3ed2710c3aa76c776544568bb77e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:45 +0000
Subject: [PATCH 44/44] fix: a link and an unlink that cross left only one side
 of the link

---
 hydra/src/link.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 60afedc..55fd211 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -1,5 +1,7 @@
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
+use std::sync::Mutex;
+use std::sync::PoisonError;
 
 use dashmap::DashMap;
 
@@ -24,6 +26,9 @@ use crate::ProcessInfo;
 /// A collection of local processes linked to another process.
 static LINKS: Lazy<DashMap<u64, BTreeSet<Pid>>> = Lazy::new(DashMap::new);
 
+/// Held while both sides of a local link are changed, so that a crossing link and unlink can't leave just one of them.
+static LINKS_LOCK: Mutex<()> = Mutex::new(());
+
 /// Creates a link for the given local process from the given process. Returns `true` if the link was created.
 pub fn link_create(process: Pid, from: Pid, ignore_errors: bool) -> bool {
     if ignore_errors {
@@ -43,17 +48,25 @@ pub fn link_create(process: Pid, from: Pid, ignore_errors: bool) -> bool {
 
 /// Installs a link for the given process.
 pub fn link_install(process: Pid, from: Pid) {
+    let guard = LINKS_LOCK.lock().unwrap_or_else(PoisonError::into_inner);
+
     link_create(from, process, false)
         .then_some(())
         .expect("From process must exist at this point!");
 
     if process.is_local() {
-        if !link_create(process, from, false) {
+        let created = link_create(process, from, false);
+
+        drop(guard);
+
+        if !created {
             link_destroy(process, from);
 
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
+        drop(guard);
+
         match node_lookup_remote(process.node()) {
             Some((name, address)) => {
                 let node = Node::from((name, address));
@@ -76,6 +89,8 @@ pub fn link_install(process: Pid, from: Pid) {
 
 /// Destroys the link between the given process and the given process.
 pub fn link_destroy(process: Pid, from: Pid) {
+    let guard = LINKS_LOCK.lock().unwrap_or_else(PoisonError::into_inner);
+
     if from.is_local() {
         LINKS.alter(&from.id(), |_, mut value| {
             value.remove(&process);
@@ -89,6 +104,8 @@ pub fn link_destroy(process: Pid, from: Pid) {
             value
         });
     } else {
+        drop(guard);
+
         let link = Link::new(false, process.id(), from.id());
 
         node_send_frame(link.into(), process.node());
-- 
2.43.0

