From 794ba0999ef305c70b2698d5605cc612973e70b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 01/60] fix: do not hand unregistered CPUs to processes with
 pending requests

---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..7701d94 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -221,7 +221,8 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     if (cpuinfo->state == CPU_BUSY) {
         /* If CPU is claimed, ignore requests and assign owner */
         new_guest = cpuinfo->owner;
-    } else if (shdata->flags.queues_enabled) {
+    } else if (cpuinfo->state == CPU_LENT
+            && shdata->flags.queues_enabled) {
         /* Pop first PID in queue that is eligible for this CPU */
         for (pid_t *it = queue_pid_t_front(&cpuinfo->requests);
                 it != NULL && new_guest == NOBODY;
-- 
2.43.0


From a82e133f745412b885c1306f01320ffccd778814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 02/60] fix: a lent CPU that is granted to a new guest is not
 free

---
 src/LB_comm/shmem_cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 7701d94..e0733e8 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -661,6 +661,8 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
     // Add CPU to the appropriate CPU sets
     if (cpuinfo->guest == NOBODY) {
         CPU_SET(cpuid, &shdata->free_cpus);
+    } else {
+        CPU_CLR(cpuid, &shdata->free_cpus);
     }
 
     // Add or remove CPUs in core to the occupied cores set
-- 
2.43.0


From 34ba5af02bb6a20996c3a2b3cfecd0f37952f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 03/60] fix: do not send disable tasks for idle CPUs of a
 reclaimed core

---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e0733e8..1d05622 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -894,7 +894,8 @@ int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restr
                     cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
                 if (cpuid_in_core != cpuid) {
                     const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo->guest != pid) {
+                    if (cpuinfo->guest != pid
+                            && cpuinfo->guest != NOBODY) {
                         array_cpuinfo_task_t_push(
                                 tasks,
                                 (const cpuinfo_task_t) {
-- 
2.43.0


From e4572dbdcf2a92d8b208645d64756ce97828ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 04/60] fix: remove the global CPU requests of dead processes

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 1d05622..63c0567 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -325,6 +325,11 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    // Remove any previous global request
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From 8842d6b07c81392fc470adc58996dfee0186a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:15 +0000
Subject: [PATCH 05/60] fix: ignore CPU ids out of the node in LeWI operations

---
 src/LB_comm/shmem_cpuinfo.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 63c0567..c45f1a1 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -676,7 +676,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error = DLB_SUCCESS;
     //DLB_DEBUG( cpu_set_t freed_cpus; )
@@ -728,7 +728,7 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
     shmem_lock(shm_handler);
     {
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
             lend_cpu(pid, cpuid, tasks);
 
@@ -873,7 +873,7 @@ int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     //DLB_DEBUG( cpu_set_t recovered_cpus; )
@@ -1190,7 +1190,7 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
 int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1543,7 +1543,7 @@ static int borrow_cpus_in_cpu_set_t(pid_t pid,
 
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1716,7 +1716,7 @@ int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
 
 int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -2119,6 +2119,9 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-- 
2.43.0


From a8b63b5aa30989aaa8dcee835334215f7aff216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 06/60] fix: drop pending CPU requests of a process that
 exceeds its new max parallelism

---
 src/LB_comm/shmem_cpuinfo.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index c45f1a1..66a467b 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1908,6 +1908,24 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
     SMALL_ARRAY(cpuid_t, guested_cpus, node_size);
     shmem_lock(shm_handler);
     {
+        // If some CPU needs to be lent, remove any request of the process.
+        // Otherwise it could be given back the same CPUs.
+        if (shdata->flags.queues_enabled) {
+            unsigned int num_cpus = 0;
+            for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
+                const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+                if (cpuinfo->owner == pid || cpuinfo->guest == pid) {
+                    ++num_cpus;
+                }
+            }
+            if (max < num_cpus) {
+                queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
+                for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
+                    queue_pid_t_remove(&shdata->node_info[cpuid].requests, pid);
+                }
+            }
+        }
+
         for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->owner == pid) {
-- 
2.43.0


From 6ddd4ef867ffaf1f6fc5509af6f8122f41aadebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 07/60] fix: keep requests and occupied CPUs up to date when a
 CPU changes owner

---
 src/LB_comm/shmem_cpuinfo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 66a467b..e5372d0 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1991,7 +1991,11 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                 if (cpuinfo->guest == NOBODY) {
                     cpuinfo->guest = pid;
                     CPU_CLR(cpuid, &shdata->free_cpus);
-                    CPU_CLR(cpuid, &shdata->occupied_cores);
+                }
+                // The CPU may still be used by its previous owner
+                update_occupied_cores(pid, cpuid);
+                if (shdata->flags.queues_enabled) {
+                    queue_pid_t_remove(&cpuinfo->requests, pid);
                 }
                 if (tasks) {
                     if (cpuinfo->guest != pid) {
-- 
2.43.0


From 8988dbbc43dcd5b0578f4e86554e421ec8e09ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 08/60] fix: a CPU obtained by checking its availability can be
 reclaimed by its owner

---
 src/LB_comm/shmem_cpuinfo.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e5372d0..98a2032 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2158,9 +2158,11 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
         /* Assign new guest if the CPU is empty */
         shmem_lock(shm_handler);
         {
-            if (cpuinfo->guest == NOBODY) {
+            if (cpuinfo->guest == NOBODY
+                    && (cpuinfo->owner == pid || core_is_eligible(pid, cpuid))) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(cpuinfo->owner, cpuid);
                 error = DLB_SUCCESS;
             }
         }
-- 
2.43.0


From 8467c7a28d5fd27b85e50b6add47d6fa4cea8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:41 +0000
Subject: [PATCH 09/60] fix: clear the occupied state of the whole core when
 its owner deregisters

---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 98a2032..8a293c0 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1842,7 +1842,8 @@ int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                 cpuinfo->owner = NOBODY;
 
                 /* It will be consistent as long as one core belongs to one process only */
-                CPU_CLR(cpuid, &shdata->occupied_cores);
+                mu_substract(&shdata->occupied_cores, &shdata->occupied_cores,
+                        mu_get_core_mask(cpuid)->set);
             } else {
                 // Free external CPUs that I might be using
                 if (cpuinfo->guest == pid) {
-- 
2.43.0


From 2a9e50e1bc2a7337a51f6230b67301f5fb6e2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:50 +0000
Subject: [PATCH 10/60] fix: ignore CPU ids out of the node when a process is
 registered

---
 src/LB_comm/shmem_cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 8a293c0..df276c9 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -402,7 +402,7 @@ static int register_process(pid_t pid, pid_t preinit_pid, const cpu_set_t *mask,
     if (!steal) {
         // Check first that my mask is not already owned
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
 
             pid_t owner = shdata->node_info[cpuid].owner;
@@ -418,7 +418,7 @@ static int register_process(pid_t pid, pid_t preinit_pid, const cpu_set_t *mask,
 
     // Register mask
     for (int cpuid = mu_get_first_cpu(mask);
-            cpuid >= 0;
+            cpuid >= 0 && cpuid < node_size;
             cpuid = mu_get_next_cpu(mask, cpuid)) {
 
         cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-- 
2.43.0


From 9e9f6749f6e0c508c155ef3e8f86e9dbc0253e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 11/60] fix: notice the CPUs made available by the cleanup of a
 dead process

---
 src/LB_comm/shmem_cpuinfo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index df276c9..f209cdb 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -330,6 +330,9 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     if (shared_data->flags.queues_enabled) {
         queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
     }
+
+    // Some CPUs may be available now
+    DLB_ATOMIC_ST_REL(&shared_data->timestamp_cpu_lent, get_time_in_ns());
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From c7960c2bcc0547d6a5f3d37b6360121bb2d98bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 12/60] fix: notice the CPUs made available when they are
 returned

---
 src/LB_comm/shmem_cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index f209cdb..e5be32f 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1672,6 +1672,7 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
         /* state is disabled or the core is not eligible */
         cpuinfo->guest = NOBODY;
         CPU_SET(cpuid, &shdata->free_cpus);
+        update_shmem_timestamp();
     }
 
     // Possibly clear CPU from occupies cores set
@@ -1766,6 +1767,7 @@ static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
     } else {
         cpuinfo->guest = NOBODY;
         CPU_SET(cpuid, &shdata->free_cpus);
+        update_shmem_timestamp();
     }
 
     // Possibly clear CPU from occupies cores set
-- 
2.43.0


From 2fb4ba636f8058c01720d273f0b0ab85a3b80def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:31 +0000
Subject: [PATCH 13/60] fix: check the CPU state under the lock when checking
 its availability

---
 src/LB_comm/shmem_cpuinfo.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e5be32f..00ac838 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2165,7 +2165,9 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
         shmem_lock(shm_handler);
         {
             if (cpuinfo->guest == NOBODY
-                    && (cpuinfo->owner == pid || core_is_eligible(pid, cpuid))) {
+                    && (cpuinfo->owner == pid
+                        || (cpuinfo->state == CPU_LENT
+                            && core_is_eligible(pid, cpuid)))) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
                 update_occupied_cores(cpuinfo->owner, cpuid);
-- 
2.43.0


From 532c22c6206b639a2fc627995ae649c3b34ee12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 14/60] fix: do not register the same process twice in DROM

---
 src/LB_comm/shmem_procinfo.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..4508cb0 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -292,11 +292,6 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                 /* This process is already registered */
                 error = DLB_ERR_INIT;
             }
-            if (empty_spot
-                    && ((preinit_pid && preinit_process) || !preinit_pid)) {
-                /* Everything needed is found */
-                break;
-            }
         }
 
         // If it's a new process, initialize structure
@@ -498,7 +493,10 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 // PID already registered
                 error = DLB_ERR_INIT;
                 break;
-            } else if (shdata->process_info[p].pid == NOBODY) {
+            }
+        }
+        for (p = 0; p < max_processes && error == DLB_SUCCESS; p++) {
+            if (shdata->process_info[p].pid == NOBODY) {
                 process = &shdata->process_info[p];
                 *process = (const pinfo_t){
                     .pid = pid,
-- 
2.43.0


From b8041033bc596982163bfe99dccd5e81e15d35e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 15/60] fix: forget stolen CPUs once they are registered again

---
 src/LB_comm/shmem_procinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 4508cb0..927e569 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -348,6 +348,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                         process->preregistered = false;
                         memcpy(&process->current_process_mask, process_mask, sizeof(cpu_set_t));
                         memcpy(&process->future_process_mask, process_mask, sizeof(cpu_set_t));
+                        mu_substract(&process->stolen_cpus, &process->stolen_cpus, process_mask);
                     } else {
                         error = DLB_ERR_PERM;
                     }
-- 
2.43.0


From 81a93b011b50a735733553681b454ff2407ec10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 16/60] fix: take the pending mask when the own process sets it

---
 src/LB_comm/shmem_procinfo.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 927e569..8f961f5 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -832,8 +832,14 @@ static int shmem_procinfo__setprocessmask_self(const cpu_set_t *mask, dlb_drom_f
     pinfo_t *process = my_pinfo;
     shmem_lock(shm_handler);
     {
-        if (!process->dirty || CPU_EQUAL(mask, &process->future_process_mask)) {
+        if (!process->dirty) {
             error = set_new_mask(process, mask, false /* sync */, return_stolen, free_cpu_mask);
+        } else if (CPU_EQUAL(mask, &process->future_process_mask)) {
+            /* The mask is already pending, its CPUs have already been registered */
+            error = DLB_SUCCESS;
+            if (free_cpu_mask != NULL) {
+                CPU_ZERO(free_cpu_mask);
+            }
         } else {
             error = DLB_ERR_PDIRTY;
         }
-- 
2.43.0


From b5fd29f01f6c602f6b7b6f66f3ca5f564322e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 17/60] fix: detect that a process leaves while querying its
 mask

---
 src/LB_comm/shmem_procinfo.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 8f961f5..4d2d99e 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -762,6 +762,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
 
     int error = DLB_SUCCESS;
     bool done = false;
+    pid_t process_pid = NOBODY;
     pinfo_t *process;
 
     shmem_lock(shm_handler);
@@ -774,6 +775,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
         }
 
         if (!error) {
+            process_pid = process->pid;
             if (!process->dirty) {
                 // Get current mask if not dirty
                 memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
@@ -800,7 +802,10 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             // Polling
             shmem_lock(shm_handler);
             {
-                if (!process->dirty) {
+                if (process->pid != process_pid) {
+                    // process no longer valid
+                    error = DLB_ERR_NOPROC;
+                } else if (!process->dirty) {
                     memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
                     done = true;
                 }
@@ -808,7 +813,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             shmem_unlock(shm_handler);
 
             // Break if done
-            if (done) break;
+            if (done || error) break;
 
             // Break if timeout
             get_time_coarse(&now);
-- 
2.43.0


From 7c7787eb23107f6e7cd805b254f5867024b534ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 18/60] fix: do not write process lists of length zero

---
 src/LB_comm/shmem_procinfo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 4d2d99e..1584c45 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -997,14 +997,11 @@ int shmem_procinfo__getpidlist(pid_t *pidlist, int *nelems, int max_len) {
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             pid_t pid = shdata->process_info[p].pid;
             if (pid != NOBODY) {
                 pidlist[(*nelems)++] = pid;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1054,13 +1051,10 @@ void shmem_procinfo__getcpuusage_list(double *usagelist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 usagelist[(*nelems)++] = shdata->process_info[p].cpu_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1072,13 +1066,10 @@ void shmem_procinfo__getcpuavgusage_list(double *avgusagelist, int *nelems, int
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 avgusagelist[(*nelems)++] = shdata->process_info[p].cpu_avg_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1141,13 +1132,10 @@ void shmem_procinfo__getactivecpus_list(pid_t *cpuslist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 cpuslist[(*nelems)++] = shdata->process_info[p].active_cpus;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 5d8fe886c6804d742cd12b01bf421b172b15b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 19/60] fix: return the CPUs of an incomplete steal to their
 processes

---
 src/LB_comm/shmem_procinfo.c | 44 +++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 1584c45..77f4c62 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -512,8 +512,10 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                     error = set_new_mask(process, mask, sync, return_stolen, NULL);
                 }
                 if (error) {
-                    // Release shared memory spot
-                    process->pid = NOBODY;
+                    // Release shared memory spot, if still ours
+                    if (process->pid == pid) {
+                        *process = (const pinfo_t){0};
+                    }
                     break;
                 }
 
@@ -1379,6 +1381,12 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
     cpu_set_t cpus_left_to_steal;
     memcpy(&cpus_left_to_steal, mask, sizeof(cpu_set_t));
 
+    // Keep track of the CPUs stolen from each process in case of roll back
+    pid_t new_owner_pid = new_owner->pid;
+    pid_t victim_pids[max_processes];
+    cpu_set_t victim_cpus[max_processes];
+    memset(victim_cpus, 0, sizeof(victim_cpus));
+
     // Iterate per process, steal in batch
     int p;
     for (p = 0; p < max_processes; ++p) {
@@ -1395,6 +1403,8 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
                         mu_substract(&victim->future_process_mask,
                                 &victim->current_process_mask, &target_cpus);
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
+                        victim_pids[p] = victim->pid;
+                        memcpy(&victim_cpus[p], &target_cpus, sizeof(cpu_set_t));
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
                                 mu_to_str(mask), victim->pid);
                     }
@@ -1458,6 +1468,11 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         } while (!done && error == DLB_SUCCESS);
 
         shmem_lock(shm_handler);
+
+        if (new_owner->pid != new_owner_pid) {
+            // The new owner is no longer registered
+            error = DLB_ERR_NOPROC;
+        }
     }
 
     if (!error && !dry_run) {
@@ -1471,17 +1486,16 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         // Some CPUs could not be stolen, roll everything back
         for (p = 0; p < max_processes; ++p) {
             pinfo_t *victim = &shdata->process_info[p];
-            if (victim != new_owner && victim->pid != NOBODY) {
-                cpu_set_t cpus_to_return;
-                CPU_AND(&cpus_to_return, &victim->stolen_cpus, mask);
-                if (CPU_COUNT(&cpus_to_return) > 0) {
-                    // warning: we may return some CPU to a wrong process
-                    // if more than one contains that CPU as stolen
+            if (CPU_COUNT(&victim_cpus[p]) > 0) {
+                if (victim->pid == victim_pids[p]) {
                     CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
-                            &cpus_to_return);
-                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
+                            &victim_cpus[p]);
+                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &victim_cpus[p]);
                     victim->dirty = !CPU_EQUAL(
                             &victim->current_process_mask, &victim->future_process_mask);
+                } else {
+                    // The victim has left, nobody owns its CPUs
+                    CPU_OR(&shdata->free_mask, &shdata->free_mask, &victim_cpus[p]);
                 }
             }
         }
@@ -1531,7 +1545,15 @@ static int set_new_mask(pinfo_t *process, const cpu_set_t *mask, bool sync,
     /* Run first a dry run to check if CPUs can be stolen */
     int error = steal_mask(process, &cpus_to_steal, sync, /* dry_run */ true);
     error = error ? error : steal_mask(process, &cpus_to_steal, sync, /* dry_run */ false);
-    error = error ? error : register_mask(process, &cpus_to_acquire);
+    if (!error) {
+        error = register_mask(process, &cpus_to_acquire);
+        if (error) {
+            /* Some CPU was taken while waiting, give back the stolen ones */
+            unregister_mask(process, &cpus_to_steal, /* return_stolen */ true);
+            process->dirty = !CPU_EQUAL(
+                    &process->current_process_mask, &process->future_process_mask);
+        }
+    }
     error = error ? error : unregister_mask(process, &cpus_to_free, return_stolen);
     if (error == DLB_SUCCESS && free_cpu_mask != NULL) {
         memcpy(free_cpu_mask, &cpus_to_free, sizeof(cpu_set_t));
-- 
2.43.0


From bfc156a5442d4483e68971c04d349b69ed97baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 20/60] fix: clean the lewi_async data of a dead process

---
 src/LB_comm/shmem_lewi_async.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..c218863 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -69,8 +69,22 @@ static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
 
 static void cleanup_shmem(void *shdata_ptr, int pid) {
     lewi_async_shdata_t *shared_data = shdata_ptr;
-    if (shared_data->attached_nprocs > 0) {
-        --shared_data->attached_nprocs;
+    for (unsigned int p = 0; p < shared_data->proc_list_head; ++p) {
+        lewi_process_t *process = &shared_data->processes[p];
+        if (process->pid == pid) {
+            /* The process cannot be asked to do anything, but the CPUs that it
+             * was borrowing and its pending requests must not be lost */
+            queue_lewi_reqs_remove(&shared_data->requests, pid);
+            if (process->current_ncpus > process->initial_ncpus) {
+                shared_data->idle_cpus +=
+                    process->current_ncpus - process->initial_ncpus;
+            }
+            *process = (const lewi_process_t) {};
+            if (shared_data->attached_nprocs > 0) {
+                --shared_data->attached_nprocs;
+            }
+            break;
+        }
     }
 }
 
-- 
2.43.0


From 722b07f8da130cf91b9efac1c459fafb567ee1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 21/60] fix: do not count saved requests twice when enabling
 lewi_async

---
 src/LB_policies/lewi_async.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..20e5977 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -130,10 +130,13 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 
     /* Restore previously requested CPUs */
     lewi_info_t *lewi_info = spd->lewi_info;
-    if (lewi_info->prev_requested > 0) {
-        error = lewi_async_AcquireCpus(spd, lewi_info->prev_requested);
-        if (error == DLB_SUCCESS || error == DLB_NOTED) {
-            lewi_info->prev_requested = 0;
+    unsigned int prev_requested = lewi_info->prev_requested;
+    if (prev_requested > 0) {
+        /* AcquireCpus already adds the saved requests, do not count them twice */
+        lewi_info->prev_requested = 0;
+        error = lewi_async_AcquireCpus(spd, prev_requested);
+        if (error != DLB_SUCCESS && error != DLB_NOTED) {
+            lewi_info->prev_requested = prev_requested;
         }
     }
 
-- 
2.43.0


From 9a6415abcdd7cdbe19d37684cdc1826e7d3e33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 22/60] fix: refuse to borrow a negative number of CPUs in
 lewi_async

---
 src/LB_policies/lewi_async.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 20e5977..9316650 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -298,6 +298,9 @@ int lewi_async_Borrow(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_async_BorrowCpus(const subprocess_descriptor_t *spd, int ncpus) {
+
+    if (ncpus < 0) return DLB_ERR_PERM;
+
     unsigned int new_ncpus;
     int error = shmem_lewi_async__borrow_cpus(spd->id, ncpus, &new_ncpus);
     if (error == DLB_SUCCESS) {
-- 
2.43.0


From a99f499bdbf70a24588c02682d58e542019ef71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 23/60] fix: remove pending requests of a process that disables
 LeWI

---
 src/LB_comm/shmem_lewi_async.c | 11 ++++++++---
 src/LB_comm/shmem_lewi_async.h |  2 +-
 src/LB_policies/lewi_async.c   | 18 +++++++++++-------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index c218863..f3f2879 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -127,13 +127,18 @@ size_t shmem_lewi_async__size(void) {
 /*  Queue management                                                             */
 /*********************************************************************************/
 
-void shmem_lewi_async__remove_requests(pid_t pid) {
-    if (unlikely(shm_handler == NULL)) return;
+/* Remove all requests of the process, return the number of CPUs requested */
+unsigned int shmem_lewi_async__remove_requests(pid_t pid) {
+    if (unlikely(shm_handler == NULL)) return 0;
+    unsigned int num_requests;
+
     shmem_lock(shm_handler);
     {
-        queue_lewi_reqs_remove(&shdata->requests, pid);
+        num_requests = queue_lewi_reqs_remove(&shdata->requests, pid);
     }
     shmem_unlock(shm_handler);
+
+    return num_requests;
 }
 
 /* Only for testing purposes */
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 804a6b3..5200118 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -28,7 +28,7 @@ int shmem_lewi_async__version(void);
 
 size_t shmem_lewi_async__size(void);
 
-void shmem_lewi_async__remove_requests(pid_t pid);
+unsigned int shmem_lewi_async__remove_requests(pid_t pid);
 
 unsigned int shmem_lewi_async__get_num_requests(pid_t pid);
 
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 9316650..04ab917 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -146,20 +146,24 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "Reset LeWI");
 
+    /* A disabled process must not receive CPUs, even if there is nothing to reset */
+    unsigned int removed_requests = shmem_lewi_async__remove_requests(spd->id);
+
     unsigned int new_ncpus;
     unsigned int num_requests;
-    unsigned int prev_requested;
+    unsigned int prev_requested = 0;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
     int error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
             &num_requests, node_size, &prev_requested);
 
-    if (error == DLB_SUCCESS) {
+    /* Save previously requested CPUs to push request again later */
+    prev_requested += removed_requests;
+    if (prev_requested > 0 ) {
+        lewi_info_t *lewi_info = spd->lewi_info;
+        lewi_info->prev_requested = prev_requested;
+    }
 
-        /* Save previously requested CPUs to push request again later */
-        if (prev_requested > 0 ) {
-            lewi_info_t *lewi_info = spd->lewi_info;
-            lewi_info->prev_requested = prev_requested;
-        }
+    if (error == DLB_SUCCESS) {
 
         /* Set num_threads = new_ncpus */
         lewi_async_set_num_threads(&spd->pm, new_ncpus);
-- 
2.43.0


From 8e1f3267577c04d1c08ef80ee220e8c949a67ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 24/60] fix: do not use idle CPUs that another process took in
 greedy mode

---
 src/LB_comm/comm_lend_light.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..dce33cf 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -130,7 +130,11 @@ int acquireCpus(int current_cpus) {
 //I don't care if there aren't enough cpus
 
     if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
+        int idle_cpus = shdata->idleCpus;
+        if (idle_cpus > 0
+                && __sync_bool_compare_and_swap(&(shdata->idleCpus), idle_cpus, 0)) {
+            cpus += idle_cpus;
+        }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
-- 
2.43.0


From 48b5277986d41a48538ee342ba54f265bca285da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 25/60] fix: only borrow CPUs that are idle when they are taken

---
 src/LB_comm/comm_lend_light.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index dce33cf..9e68456 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -151,21 +151,23 @@ int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
     int cpus;
     int aux;
+    /* The value may change at any time, all decisions must use the same one */
+    int idle_cpus = shdata->idleCpus;
 //WARNING//
     //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
+    if ((idle_cpus < 0) && (myCpus>defaultCPUS) ) {
+        aux=idle_cpus;
         cpus=min_int(abs(aux), myCpus-defaultCPUS);
         if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
             myCpus-=cpus;
         }
 
         //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
+    } else if( idle_cpus > 0) {
+        aux=idle_cpus;
         if(aux>maxResources) { aux=maxResources; }
 
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle_cpus, idle_cpus-aux)) {
             myCpus+=aux;
         }
     }
-- 
2.43.0


From 9a473a00dfbcc19eb40ea7ce26c073fd88c6ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 26/60] fix: initialize the LeWI pool before other processes
 can lend to it

---
 src/LB_comm/comm_lend_light.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index 9e68456..1bb4382 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -77,6 +77,8 @@ void ConfigShMem(int defCPUS, int is_greedy, const char *shmem_key) {
     // Shared memory creation
     open_shmem(shmem_key);
 
+    /* Other processes must not join, and lend, until the pool is initialized */
+    shmem_lock(shm_handler);
     if (__sync_fetch_and_add(&shdata->attached_nprocs, 1) == 0) {
         // Initialize shared memory if this is the 1st process attached
         verbose(VB_SHMEM, "setting values to the shared mem");
@@ -87,6 +89,7 @@ void ConfigShMem(int defCPUS, int is_greedy, const char *shmem_key) {
 
         verbose(VB_SHMEM, "Finished setting values to the shared mem");
     }
+    shmem_unlock(shm_handler);
 }
 
 static void close_shmem(void) {
-- 
2.43.0


From 81d141c30f878529e01c70b6e2f82ac4facffade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 27/60] fix: return borrowed CPUs when LeWI finalizes

---
 src/LB_policies/lewi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index e19ea93..7f2da7c 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -70,6 +70,9 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 }
 
 int lewi_Finalize(subprocess_descriptor_t *spd) {
+    /* Return borrowed CPUs, or take back the lent ones */
+    releaseCpus(myCPUS - default_cpus);
+    setThreads_Lend_light(&spd->pm, default_cpus);
     finalize_comm();
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 83cad5efd78a8741a85b7a256e059532937bebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 28/60] fix: do not take idle CPUs that are not used when LeWI
 is disabled in greedy mode

---
 src/LB_policies/lewi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 7f2da7c..9889517 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -86,7 +86,7 @@ int lewi_EnableDLB(const subprocess_descriptor_t *spd) {
 int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
     if (enabled && !single) {
         verbose(VB_MICROLB, "ResetDLB");
-        acquireCpus(myCPUS);
+        releaseCpus(myCPUS - default_cpus);
         setThreads_Lend_light(&spd->pm, default_cpus);
     }
     enabled = 0;
-- 
2.43.0


From 10dd656f42165465afecc5eec00f432b5a43dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 29/60] fix: ignore max parallelism values that are not
 positive

---
 src/LB_policies/lewi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 9889517..7c8229c 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -94,6 +94,7 @@ int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_SetMaxParallelism(const subprocess_descriptor_t *spd, int max) {
+    if (max <= 0) return DLB_SUCCESS;
     if (myCPUS>max){
         releaseCpus(myCPUS-max);
         setThreads_Lend_light(&spd->pm, max);
-- 
2.43.0


From da6f0d7944f92d5fbdd80609e0fee86d0a58401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 30/60] fix: do not lend CPUs when borrowing a negative number
 of them

---
 src/LB_policies/lewi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 7c8229c..686b616 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -162,8 +162,9 @@ int lewi_Borrow(const subprocess_descriptor_t *spd) {
 int lewi_BorrowCpus(const subprocess_descriptor_t *spd, int maxResources) {
     int error = DLB_NOUPDT;
     if (enabled && !single) {
+        if (maxResources < 0) return DLB_ERR_PERM;
         int max_resources = max_parallelism > 0 ?
-            min_int(maxResources, max_parallelism - myCPUS) : maxResources;
+            min_int(maxResources, max_int(0, max_parallelism - myCPUS)) : maxResources;
         int cpus = checkIdleCpus(myCPUS, max_resources);
         if (myCPUS!=cpus) {
             verbose(VB_MICROLB, "Using %d cpus", cpus);
-- 
2.43.0


From 2f6d7af1b7cc40555ff0381d02bbbab8c303c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 31/60] fix: CPUs and cores just after the last one do not
 exist

---
 src/support/mask_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index bed6b9e..2821e89 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -552,7 +552,7 @@ int mu_get_num_cores(void) {
 
 int mu_get_core_id(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return -1;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return -1;
 
     for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
         if (CPU_ISSET_S(cpuid, mu_cpuset_alloc_size,
@@ -566,14 +566,14 @@ int mu_get_core_id(int cpuid) {
 
 const mu_cpuset_t* mu_get_core_mask(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return NULL;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return NULL;
 
     return sys.core_masks_by_cpuid[cpuid];
 }
 
 const mu_cpuset_t* mu_get_core_mask_by_coreid(int core_id) {
 
-    if (core_id < 0 || (unsigned)core_id > sys.num_cores) return NULL;
+    if (core_id < 0 || (unsigned)core_id >= sys.num_cores) return NULL;
 
     return &sys.core_masks_by_coreid[core_id];
 }
-- 
2.43.0


From acd906243cbb53cf5392982e7b4f1c0543b74cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 32/60] fix: parsing an empty mask gives an empty mask

---
 src/support/mask_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 2821e89..2bdccfe 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -972,6 +972,7 @@ static void parse_64_bits_mask(cpu_set_t *mask, unsigned int offset, const char
 }
 
 void mu_parse_mask( const char *str, cpu_set_t *mask ) {
+    CPU_ZERO( mask );
     if (!str) return;
 
     size_t str_len = strnlen(str, CPU_SETSIZE+1);
@@ -981,7 +982,6 @@ void mu_parse_mask( const char *str, cpu_set_t *mask ) {
     regex_t regex_hexmask;
     regex_t regex_range;
     regex_t old_regex_bitmask;
-    CPU_ZERO( mask );
 
     /* Compile regular expressions */
     if ( regcomp(&regex_bitmask, "^0[bB][0-1]+$", REG_EXTENDED|REG_NOSUB) ) {
-- 
2.43.0


From e6481704b438c0daaca90ae02738d6b0ad58cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 33/60] fix: a range with one CPU is a valid mask

---
 src/support/mask_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 2bdccfe..5c4a0f8 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1086,7 +1086,7 @@ void mu_parse_mask( const char *str, cpu_set_t *mask ) {
                 ptr = endptr;
 
                 // Valid range
-                if ( end > start ) {
+                if ( end >= start ) {
                     for ( unsigned long i=start; i<=end && i<mu_cpuset_setsize; i++ ) {
                         CPU_SET( i, mask );
                     }
-- 
2.43.0


From 4430c5d9ffa8c268475f74f79d65af44bb3223aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 34/60] fix: hexadecimal masks need a digit for the last CPUs

---
 src/support/mask_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 5c4a0f8..62b4a0f 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1169,8 +1169,8 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
 }
 
 char * mu_parse_to_slurm_format(const cpu_set_t *mask) {
-    char *str = malloc((mu_cpuset_setsize >> 2) + 3);
-    if (str < 0)
+    char *str = malloc(((mu_cpuset_setsize + 3) >> 2) + 3);
+    if (str == NULL)
         return NULL;
     unsigned int offset = 2;
     unsigned long long val = 0;
-- 
2.43.0


From edec1a6d2cdbb0435a010c40f07c0e2769ef4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 35/60] fix: order CPUs consistently when cores are partly
 owned

---
 src/support/mask_utils.c | 45 +++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 62b4a0f..43f68b2 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1208,6 +1208,19 @@ static int cmp_cpuids(cpuid_t cpuid1, cpuid_t cpuid2) {
     }
 }
 
+/* Compare CPUs in ascending order but starting from first_cpu, i.e., those CPUs
+ * before first_cpu are sorted last */
+static int cmp_cpuids_from_first(cpuid_t cpuid1, cpuid_t cpuid2, int first_cpu) {
+    if (first_cpu >= 0) {
+        bool cpu1_before_first = cmp_cpuids(cpuid1, first_cpu) < 0;
+        bool cpu2_before_first = cmp_cpuids(cpuid2, first_cpu) < 0;
+        if (cpu1_before_first != cpu2_before_first) {
+            return cpu1_before_first ? 1 : -1;
+        }
+    }
+    return cmp_cpuids(cpuid1, cpuid2);
+}
+
 /* Compare CPUs so that:
  *  - owned CPUs first, in ascending order
  *  - non-owned later, starting from the first owned, then ascending
@@ -1234,20 +1247,8 @@ int mu_cmp_cpuids_by_ownership(const void *cpuid1, const void *cpuid2, void *mas
             return 1;
         } else {
             /* none is owned */
-            int first_cpu = mu_get_first_cpu(process_mask);
-            int first_core = mu_get_core_id(first_cpu);
-            int cpu1_core_id = mu_get_core_id(_cpuid1);
-            int cpu2_core_id = mu_get_core_id(_cpuid2);
-            if ((cpu1_core_id > first_core
-                        && cpu2_core_id > first_core)
-                    || (cpu1_core_id < first_core
-                        && cpu2_core_id < first_core)) {
-                /* Both CPUs are either before or after the process mask */
-                return cmp_cpuids(_cpuid1, _cpuid2);
-            } else {
-                /* Compare with respect to process mask */
-                return cmp_cpuids(first_cpu, _cpuid1);
-            }
+            return cmp_cpuids_from_first(_cpuid1, _cpuid2,
+                    mu_get_first_cpu(process_mask));
         }
     }
 }
@@ -1296,20 +1297,8 @@ int mu_cmp_cpuids_by_affinity(const void *cpuid1, const void *cpuid2, void *affi
     /* e.g.: level0: [2,3], level1: [0,7] -> [4,5,6,7,0,1] */
     if (cpu1_level == 1) {
         cpu_set_t *level0_mask = _affinity;
-        int first_cpu = mu_get_first_cpu(level0_mask);
-        int first_core = mu_get_core_id(first_cpu);
-        int cpu1_core_id = mu_get_core_id(_cpuid1);
-        int cpu2_core_id = mu_get_core_id(_cpuid2);
-        if ((cpu1_core_id > first_core
-                    && cpu2_core_id > first_core)
-                || (cpu1_core_id < first_core
-                    && cpu2_core_id < first_core)) {
-            /* Both CPUs are either before or after the process mask */
-            return cmp_cpuids(_cpuid1, _cpuid2);
-        } else {
-            /* Compare with respect to process mask */
-            return cmp_cpuids(first_cpu, _cpuid1);
-        }
+        return cmp_cpuids_from_first(_cpuid1, _cpuid2,
+                mu_get_first_cpu(level0_mask));
     }
 
     /* TODO: compute numa distance */
-- 
2.43.0


From bfe113c8f12e24875ad3c334fe2835168c4a45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 36/60] fix: support non-consecutive and large core ids in
 system files

---
 src/support/mask_utils.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 43f68b2..c7d1b74 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -340,7 +340,6 @@ static void parse_system_files(void) {
     // number of cores yet
     sys.core_masks_by_coreid = calloc(sys.num_cpus, sizeof(mu_cpuset_t));
     sys.core_masks_by_cpuid = calloc(sys.num_cpus, sizeof(mu_cpuset_t*));
-    int num_cores = 0;
     DIR *dir = opendir(PATH_SYSTEM_CPUS);
     if (dir) {
         struct dirent *d;
@@ -367,12 +366,14 @@ static void parse_system_files(void) {
                 int core_id = parse_int_from_file(filename);
 
                 /* Try to respect parsed core_id */
-                if (core_id >= 0 && core_id < 1024) {
+                if (core_id < 0 || (unsigned)core_id >= sys.num_cpus) {
+                    /* Core id missing or out of range */
+                    core_id = -1;
+                } else {
                     mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[core_id];
                     if (core_cpuset->set == NULL) {
                         /* Save core mask */
                         mu_cpuset_from_glibc_sched_affinity(core_cpuset, &core_mask);
-                        ++num_cores;
                     } else if (CPU_EQUAL_S(mu_cpuset_alloc_size, core_cpuset->set, &core_mask)) {
                         /* Core mask already saved */
                     } else {
@@ -387,7 +388,6 @@ static void parse_system_files(void) {
                     if (core_cpuset->set == NULL) {
                         /* Save core mask */
                         mu_cpuset_from_glibc_sched_affinity(core_cpuset, &core_mask);
-                        ++num_cores;
                         core_id = i;
                     } else if (CPU_EQUAL_S(mu_cpuset_alloc_size, core_cpuset->set, &core_mask)) {
                         /* Core mask already saved */
@@ -403,6 +403,22 @@ static void parse_system_files(void) {
         }
         closedir(dir);
     }
+
+    /* Core ids may not be consecutive, remove the unused positions */
+    int num_cores = 0;
+    for (unsigned int i = 0; i < sys.num_cpus; ++i) {
+        mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[i];
+        if (core_cpuset->set == NULL) continue;
+        mu_cpuset_t *new_position = &sys.core_masks_by_coreid[num_cores++];
+        if (new_position == core_cpuset) continue;
+        *new_position = *core_cpuset;
+        core_cpuset->set = NULL;
+        for (unsigned int cpu_id = 0; cpu_id < sys.num_cpus; ++cpu_id) {
+            if (sys.core_masks_by_cpuid[cpu_id] == core_cpuset) {
+                sys.core_masks_by_cpuid[cpu_id] = new_position;
+            }
+        }
+    }
     sys.num_cores = num_cores;
 
     /*** NUMA Nodes ***/
-- 
2.43.0


From 88a8f7b8016844982926448f825bd39c83dd9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 37/60] fix: support NUMA nodes without CPUs in system files

---
 src/support/mask_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index c7d1b74..fd6ea23 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -444,11 +444,12 @@ static void parse_system_files(void) {
 
                 /* Save node mask */
                 if (CPU_COUNT(&node_mask) > 0) {
-                    num_nodes = max_int(num_nodes, node_id + 1);
+                    /* Nodes without CPUs are skipped */
+                    ++num_nodes;
                     mu_cpuset_t *p = realloc(sys.node_masks, num_nodes*sizeof(mu_cpuset_t));
                     fatal_cond(!p, "realloc failed");
                     sys.node_masks = p;
-                    mu_cpuset_from_glibc_sched_affinity(&sys.node_masks[node_id], &node_mask);
+                    mu_cpuset_from_glibc_sched_affinity(&sys.node_masks[num_nodes-1], &node_mask);
                 }
             }
         }
-- 
2.43.0


From 98df611a067e49a12c4abe8a2982fbcf1effe685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:13 +0000
Subject: [PATCH 38/60] fix: TALP: a region that is reset while open is no
 longer in the list of open regions

---
 src/LB_core/DLB_talp.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..4f33420 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -303,8 +303,16 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         ._data = monitor->_data,
     };
 
+    /* A region that was started is no longer open */
     monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (monitor_data->flags.started) {
+            monitor_data->flags.started = false;
+            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+        }
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From d53bb84fdfd4ef299c39b9310b8e83ebf6040fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:13 +0000
Subject: [PATCH 39/60] fix: TALP: start and stop use the sample of the calling
 thread and cannot both succeed in two threads

---
 src/LB_core/DLB_talp.c | 67 +++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 4f33420..4745d98 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -326,25 +326,32 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         monitor = talp_info->monitor;
     }
 
-    int error;
+    int error = DLB_NOUPDT;
     monitor_data_t *monitor_data = monitor->_data;
 
     if (!monitor_data->flags.started && monitor_data->flags.enabled) {
+        /* Make sure that this thread has a sample before updating them all */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
-        verbose(VB_TALP, "Starting region %s", monitor->name);
-        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
-
-        /* Thread sample was just updated, use timestamp as starting time */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->start_time = thread_sample->last_updated_timestamp;
-        monitor->stop_time = 0;
-
         pthread_mutex_lock(&talp_info->regions_mutex);
         {
-            monitor_data->flags.started = true;
-            talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+            /* Check again, another thread may have started the region */
+            if (!monitor_data->flags.started) {
+                verbose(VB_TALP, "Starting region %s", monitor->name);
+                instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
+
+                /* Thread sample was just updated, use timestamp as starting time */
+                monitor->start_time = thread_sample->last_updated_timestamp;
+                monitor->stop_time = 0;
+
+                monitor_data->flags.started = true;
+                talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+
+                error = DLB_SUCCESS;
+            }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
 
@@ -354,10 +361,6 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         if (thread_sample->state != useful) {
             set_sample_state(thread_sample, useful, talp_info->flags.papi);
         }
-
-        error = DLB_SUCCESS;
-    } else {
-        error = DLB_NOUPDT;
     }
 
     return error;
@@ -378,31 +381,35 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
         }
     }
 
-    int error;
+    int error = DLB_NOUPDT;
     monitor_data_t *monitor_data = monitor->_data;
 
     if (monitor_data->flags.started) {
+        /* Make sure that this thread has a sample before updating them all */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
-        /* Stop timer */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
-        monitor->stop_time = thread_sample->last_updated_timestamp;
-        monitor->elapsed_time += monitor->stop_time - monitor->start_time;
-        ++(monitor->num_measurements);
-
         pthread_mutex_lock(&talp_info->regions_mutex);
         {
-            monitor_data->flags.started = false;
-            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+            /* Check again, another thread may have stopped the region */
+            if (monitor_data->flags.started) {
+                /* Stop timer */
+                monitor->stop_time = thread_sample->last_updated_timestamp;
+                monitor->elapsed_time += monitor->stop_time - monitor->start_time;
+                ++(monitor->num_measurements);
+
+                monitor_data->flags.started = false;
+                talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+
+                verbose(VB_TALP, "Stopping region %s", monitor->name);
+                instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
+
+                error = DLB_SUCCESS;
+            }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
-
-        verbose(VB_TALP, "Stopping region %s", monitor->name);
-        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
-        error = DLB_SUCCESS;
-    } else {
-        error = DLB_NOUPDT;
     }
 
     return error;
-- 
2.43.0


From db5ac94df173051cf70a9197dc9a47602cc39d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:13 +0000
Subject: [PATCH 40/60] fix: TALP: parallel data of nested parallel regions is
 used before it is freed

---
 src/LB_core/DLB_talp.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 4745d98..885de8f 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1993,10 +1993,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
             talp_aggregate_samples_parallel(spd,
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
-
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -2012,6 +2008,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        if (parallel_data->level > 1) {
+            /* free local data */
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From d28ea98a4882128bb2783f7d6c8faaeb0d63599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:13 +0000
Subject: [PATCH 41/60] fix: TALP: the sample of a new thread is initialized
 before others can read it

---
 src/LB_core/DLB_talp.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 885de8f..6fbaf3a 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -753,8 +753,23 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
 
-    /* Otherwise, allocate */
     talp_info_t *talp_info = spd->talp_info;
+
+    /* If a thread is created mid-region, its initial time is that of the
+     * innermost open region, otherwise it is the current time */
+    int64_t last_updated_timestamp;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (talp_info->open_regions) {
+            const dlb_monitor_t *monitor = talp_info->open_regions->data;
+            last_updated_timestamp = monitor->start_time;
+        } else {
+            last_updated_timestamp = get_time_in_ns();
+        }
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
+
+    /* Otherwise, allocate */
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         int ncpus = ++talp_info->ncpus;
@@ -764,6 +779,10 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
             void *new_sample;
             if (posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
                 _tls_sample = new_sample;
+                /* Other threads may read the sample once the mutex is released */
+                *_tls_sample = (const talp_sample_t) {
+                    .last_updated_timestamp = last_updated_timestamp,
+                };
                 talp_info->samples[ncpus-1] = new_sample;
             }
         }
@@ -772,20 +791,6 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 
     fatal_cond(_tls_sample == NULL, "TALP: could not allocate thread sample");
 
-    /* If a thread is created mid-region, its initial time is that of the
-     * innermost open region, otherwise it is the current time */
-    int64_t last_updated_timestamp;
-    if (talp_info->open_regions) {
-        const dlb_monitor_t *monitor = talp_info->open_regions->data;
-        last_updated_timestamp = monitor->start_time;
-    } else {
-        last_updated_timestamp = get_time_in_ns();
-    }
-
-    *_tls_sample = (const talp_sample_t) {
-        .last_updated_timestamp = last_updated_timestamp,
-    };
-
     set_sample_state(_tls_sample, disabled, talp_info->flags.papi);
 
 #ifdef INSTRUMENTATION_VERSION
-- 
2.43.0


From ed7d7c33c4c12ec91d5faa50f5c32ffe8b9abdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:13 +0000
Subject: [PATCH 42/60] fix: TALP: time of a sample is not counted twice by
 concurrent updates

---
 src/LB_core/DLB_talp.c   | 4 ++--
 src/LB_core/talp_types.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 6fbaf3a..54a11ab 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -825,8 +825,8 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
 
     /* Compute duration and set new last_updated_timestamp */
     int64_t now = timestamp == NO_TIMESTAMP ? get_time_in_ns() : timestamp;
-    int64_t microsample_duration = now - sample->last_updated_timestamp;
-    sample->last_updated_timestamp = now;
+    int64_t microsample_duration = now
+        - DLB_ATOMIC_EXCH_RLX(&sample->last_updated_timestamp, now);
 
     /* Update the appropriate sample timer */
     switch(sample->state) {
diff --git a/src/LB_core/talp_types.h b/src/LB_core/talp_types.h
index e633c18..2411e24 100644
--- a/src/LB_core/talp_types.h
+++ b/src/LB_core/talp_types.h
@@ -55,7 +55,7 @@ typedef struct DLB_ALIGN_CACHE talp_sample_t {
         atomic_int_least64_t num_omp_parallels;
         atomic_int_least64_t num_omp_tasks;
     } stats;
-    int64_t last_updated_timestamp;
+    atomic_int_least64_t last_updated_timestamp;
     enum talp_sample_state {
         disabled,
         useful,
-- 
2.43.0


From 7c900e59eaef75c681f6c27561a600a3f9962ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:13 +0000
Subject: [PATCH 43/60] fix: TALP: registering regions concurrently does not
 free regions in use

---
 src/LB_core/DLB_talp.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 54a11ab..b354fda 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -245,15 +245,16 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
         global_region = true;
     }
 
+    /* The mutex is held from lookup to insertion, otherwise two threads could
+     * register the same name and the first region would be deallocated */
+    pthread_mutex_lock(&talp_info->regions_mutex);
+
     /* Found monitor if already registered */
     if (!anonymous_region) {
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
-            monitor = g_tree_lookup(talp_info->regions, name);
-        }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
+        monitor = g_tree_lookup(talp_info->regions, name);
 
         if (monitor != NULL) {
+            pthread_mutex_unlock(&talp_info->regions_mutex);
             return monitor;
         }
     }
@@ -269,8 +270,11 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
     /* Construct name if anonymous region */
     char monitor_name[DLB_MONITOR_NAME_MAX];
     if (anonymous_region) {
-        snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
-                get_new_anonymous_id());
+        do {
+            /* Skip names that the user may have registered explicitly */
+            snprintf(monitor_name, DLB_MONITOR_NAME_MAX, "Anonymous Region %d",
+                    get_new_anonymous_id());
+        } while (g_tree_lookup(talp_info->regions, monitor_name) != NULL);
         name = monitor_name;
     }
 
@@ -281,18 +285,16 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
             spd->id, avg_cpus, spd->options.talp_region_select, have_shmem);
 
     /* Finally, insert */
-    pthread_mutex_lock(&talp_info->regions_mutex);
-    {
-        g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
-    }
+    g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
+
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return monitor;
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
-- 
2.43.0


From 7f9327e5c433188e3a8d6590566e943d2fee88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:14 +0000
Subject: [PATCH 44/60] fix: TALP: places of finished processes in the shared
 table of regions are used again

---
 src/LB_comm/shmem_talp.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 0745601..2962e65 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -226,8 +226,9 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     int error;
     shmem_lock(shm_handler);
     {
-        /* Regions cannot be removed from shmem_talp.
-         * Search is linear, and append if not found. */
+        /* Search is linear. If not found, reuse the first region of a process
+         * that already finalized, or append. */
+        int empty_id = -1;
         int region_id;
         int num_regions = shdata->num_regions;
         for (region_id = 0; region_id < num_regions; ++region_id) {
@@ -237,6 +238,9 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
                 /* Region was already registered */
                 break;
             }
+            if (talp_region->pid == NOBODY && empty_id < 0) {
+                empty_id = region_id;
+            }
         }
 
         if (region_id < num_regions) {
@@ -244,13 +248,16 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
             *node_shared_id = region_id;
             error = DLB_NOUPDT;
         } else {
-            if (num_regions < max_regions) {
-                /* Register new region (region_id points to empty spot) */
+            if (empty_id < 0 && num_regions < max_regions) {
+                empty_id = num_regions;
                 ++shdata->num_regions;
-                talp_region_t *empty_spot = &shdata->talp_region[region_id];
+            }
+            if (empty_id >= 0) {
+                /* Register new region */
+                talp_region_t *empty_spot = &shdata->talp_region[empty_id];
                 *empty_spot = (const talp_region_t) {.pid = pid, .avg_cpus = avg_cpus};
                 snprintf(empty_spot->name, DLB_MONITOR_NAME_MAX, "%s", name);
-                *node_shared_id = region_id;
+                *node_shared_id = empty_id;
                 error = DLB_SUCCESS;
             } else {
                 /* No mem left */
-- 
2.43.0


From 16c6d849a4e17ec48ff9bd8c10e029c21ce938bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:14 +0000
Subject: [PATCH 45/60] fix: TALP: node metrics include all processes and do
 not remove the region of the node summary

---
 src/LB_core/DLB_talp.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index b354fda..984ba23 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2145,7 +2145,7 @@ int talp_query_pop_node_metrics(const char *name, dlb_node_metrics_t *node_metri
     /* Obtain a list of regions in the node associated with given region */
     int max_procs = mu_get_system_size();
     talp_region_list_t *region_list = malloc(max_procs * sizeof(talp_region_list_t));
-    int nelems;
+    int nelems = 0;
     shmem_talp__get_regionlist(region_list, &nelems, max_procs, name);
 
     /* Count how many processes have started the region */
@@ -2278,7 +2278,19 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
 
     /* Remove shared memory if it was a temporary one */
     if (!talp_info->flags.have_shmem) {
+        /* Not before all processes have computed their metrics */
+        node_barrier(spd, NULL);
         shmem_talp__finalize(spd->id);
+
+        /* Register again the region that was removed from the minimal shmem */
+        if (talp_info->flags.have_minimal_shmem) {
+            dlb_monitor_t *global_monitor = talp_info->monitor;
+            monitor_data_t *global_monitor_data = global_monitor->_data;
+            shmem_talp__register(spd->id, global_monitor->avg_cpus,
+                    global_monitor->name, &global_monitor_data->node_shared_id);
+            shmem_talp__set_times(global_monitor_data->node_shared_id,
+                    global_monitor->mpi_time, global_monitor->useful_time);
+        }
     }
 
     /* Resume monitor */
-- 
2.43.0


From 29b03775bf8dd2b7dd4fd24ed222333ed2b10c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:14 +0000
Subject: [PATCH 46/60] fix: TALP: efficiencies of a node without useful time
 are numbers

---
 src/support/perf_metrics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/perf_metrics.h b/src/support/perf_metrics.h
index 8ae6a8f..ec9100e 100644
--- a/src/support/perf_metrics.h
+++ b/src/support/perf_metrics.h
@@ -73,7 +73,7 @@ static inline void perf_metrics__infer_mpi_model(
         int64_t max_useful_time) {
 
     int64_t elapsed_time = (node_sum_useful + node_sum_mpi) / processes_per_node;
-    if (elapsed_time > 0) {
+    if (elapsed_time > 0 && max_useful_time > 0) {
         *metrics = (const perf_metrics_mpi_t) {
             .parallel_efficiency = (float)node_sum_useful / (node_sum_useful + node_sum_mpi),
             .communication_efficiency = (float)max_useful_time / elapsed_time,
-- 
2.43.0


From df0d5d456a3648b00593033e20b83ee2093d29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:25 +0000
Subject: [PATCH 47/60] fix: node barriers: cleaning up after a process leaves
 free places of the table alone

---
 src/LB_comm/shmem_barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..d4d3786 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -71,7 +71,7 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
-        if (--barrier->participants == 0) {
+        if (barrier->participants > 0 && --barrier->participants == 0) {
             *barrier = (const barrier_t){};
         }
     }
-- 
2.43.0


From f9116eaca91534c72361e0b10cd6df33003d845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:25 +0000
Subject: [PATCH 48/60] fix: node barriers: the name of the default barrier
 cannot be registered again

---
 src/LB_core/node_barrier.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index df967df..f5512fe 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -170,6 +170,11 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
         barrier_info_t *barrier_info = spd->barrier_info;
+        if (strncmp(barrier_name, barrier_info->default_barrier_name,
+                    BARRIER_NAME_MAX-1) == 0) {
+            /* Otherwise this process would be counted twice in the default barrier */
+            return NULL;
+        }
         if (barrier_info->barrier_list[0] != NULL) {
             barrier = shmem_barrier__find(barrier_name);
             if (barrier != NULL) {
-- 
2.43.0


From 56c55a272ee87518611c13ab0920f12f9ea3cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:25 +0000
Subject: [PATCH 49/60] fix: DLB_BarrierAttach returns the number of
 participants

---
 src/LB_comm/shmem_barrier.c | 4 ++++
 src/LB_comm/shmem_barrier.h | 1 +
 src/LB_core/node_barrier.c  | 4 +++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index d4d3786..d687b80 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -145,6 +145,10 @@ int shmem_barrier__get_max_barriers(void) {
     return max_barriers;
 }
 
+int shmem_barrier__get_participants(const barrier_t *barrier) {
+    return barrier != NULL ? barrier->participants : 0;
+}
+
 /* Given a barrier_name, find whether the barrier is registered in the shared
  * memory. Note that this function is not thread-safe */
 barrier_t* shmem_barrier__find(const char *barrier_name) {
diff --git a/src/LB_comm/shmem_barrier.h b/src/LB_comm/shmem_barrier.h
index 476190c..fd43bf5 100644
--- a/src/LB_comm/shmem_barrier.h
+++ b/src/LB_comm/shmem_barrier.h
@@ -31,6 +31,7 @@ void shmem_barrier__init(const char *shmem_key);
 void shmem_barrier__finalize(const char *shmem_key);
 int  shmem_barrier__get_system_id(void);
 int  shmem_barrier__get_max_barriers(void);
+int  shmem_barrier__get_participants(const barrier_t *barrier);
 barrier_t* shmem_barrier__find(const char *barrier_name);
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi);
 int  shmem_barrier__attach(barrier_t *barrier);
diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index f5512fe..7579b57 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -288,7 +288,9 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                         barrier_info->default_barrier_name,
                         lewi_barrier);
                 // return number of participants
-                error = barrier_info->default_barrier ? 1 : DLB_ERR_NOMEM;
+                error = barrier_info->default_barrier
+                    ? shmem_barrier__get_participants(barrier_info->default_barrier)
+                    : DLB_ERR_NOMEM;
             } else {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
-- 
2.43.0


From c55ed60a33cfc66d1b219ac81cd279206bec5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:27 +0000
Subject: [PATCH 50/60] fix: shmem: a process attaches in the spot of a dead
 process if there is no other

---
 src/LB_comm/shmem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 9b37f5a..40a9cba 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -72,7 +72,9 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
                             "DLB is cleaning up the shared memory. If it fails,"
                             " please run 'dlb_shm --delete' and try again.", pidlist[i]);
                     cleanup_fn(shdata, pidlist[i]);
-                    pidlist[i] = 0;
+                    /* The spot is now free */
+                    pidlist[i] = registered ? 0 : pid;
+                    registered = true;
                 } else {
                     verbose(VB_SHMEM, "Process %d attached to shmem not found, "
                             "you may want to run \"dlb_shm -d\"", pidlist[i]);
-- 
2.43.0


From 6cc898f4f9b27d3455aeb83b7fea6aa425b15dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:28 +0000
Subject: [PATCH 51/60] fix: shmem: a process of other version does not keep
 the lock of the shared memory

---
 src/LB_comm/shmem.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 40a9cba..304d2f0 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -98,15 +98,10 @@ static bool shmem_consistency_remove_pid(pid_t *pidlist, pid_t pid) {
     return last_one;
 }
 
-static void shmem_consistency_check_version(unsigned int creator_version,
+static bool shmem_consistency_check_version(unsigned int creator_version,
         unsigned int process_version) {
-    if (creator_version != SHMEM_VERSION_IGNORE) {
-        fatal_cond(creator_version != process_version,
-                "The existing DLB shared memory version differs from the expected one.\n"
-                "This may have been caused by a DLB version upgrade in between runs.\n"
-                "Please, run 'dlb_shm --delete' and try again.\n"
-                "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
-    }
+    return creator_version == SHMEM_VERSION_IGNORE
+        || creator_version == process_version;
 }
 
 static void get_shmem_filename(char *filename, const char *shmem_module,
@@ -218,8 +213,16 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     } else if (error != 0) {
         fatal("pthread_mutex_timedlock error: %s", strerror(error));
     }
-    shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
-    shmem_consistency_check_version(handler->shsync->shmem_version, shmem_props->version);
+    if (!shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION)
+            || !shmem_consistency_check_version(handler->shsync->shmem_version,
+                shmem_props->version)) {
+        /* Do not leave the processes using the shmem without lock */
+        pthread_mutex_unlock(&handler->shsync->shmem_mutex);
+        fatal("The existing DLB shared memory version differs from the expected one.\n"
+                "This may have been caused by a DLB version upgrade in between runs.\n"
+                "Please, run 'dlb_shm --delete' and try again.\n"
+                "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
+    }
     shmem_consistency_check_pids(handler->shsync->pidlist, pid, shmem_props->cleanup_fn, *shdata);
     pthread_mutex_unlock(&handler->shsync->shmem_mutex);
 
-- 
2.43.0


From 4153f6579c80091c7e5532a1b0c02dd7935f41a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:28 +0000
Subject: [PATCH 52/60] fix: shmem: a process does not shrink the shared memory
 of others

---
 src/LB_comm/shmem.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 304d2f0..2b5adfe 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -153,8 +153,14 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("shm_open error: %s", strerror(errno));
     }
 
-    /* Truncate the regular file to a precise size */
-    if (ftruncate(fd, handler->shm_size) == -1) {
+    /* Set the size of the file, but never shrink it since other processes may
+     * have mapped a larger region */
+    struct stat statbuf;
+    if (fstat(fd, &statbuf) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    if (statbuf.st_size < (off_t)handler->shm_size
+            && ftruncate(fd, handler->shm_size) == -1) {
         fatal("ftruncate error: %s", strerror(errno));
     }
 
-- 
2.43.0


From a324f6016c2736676aee2775b512a5e91f41c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:28 +0000
Subject: [PATCH 53/60] fix: shmem: the last process does not remove a shared
 memory being attached to, file descriptors are closed

---
 src/LB_comm/shmem.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 2b5adfe..f0b08dd 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -147,6 +147,7 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     int shmem_color = shmem_props->color;
     get_shmem_filename(handler->shm_filename, shmem_module, shmem_key, shmem_color);
 
+open_file:;
     /* Obtain a file descriptor for the shmem */
     int fd = shm_open(handler->shm_filename, O_CREAT | O_RDWR, S_IRUSR | S_IWUSR);
     if (fd == -1) {
@@ -219,6 +220,17 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     } else if (error != 0) {
         fatal("pthread_mutex_timedlock error: %s", strerror(error));
     }
+
+    /* The last process may have removed the file before the lock was obtained,
+     * in that case this process must not stay in a shmem that nobody else can open */
+    bool file_removed = fstat(fd, &statbuf) == 0 && statbuf.st_nlink == 0;
+    close(fd);
+    if (file_removed) {
+        pthread_mutex_unlock(&handler->shsync->shmem_mutex);
+        munmap(handler->shm_addr, handler->shm_size);
+        goto open_file;
+    }
+
     if (!shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION)
             || !shmem_consistency_check_version(handler->shsync->shmem_version,
                 shmem_props->version)) {
@@ -246,7 +258,16 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
     bool is_empty = is_empty_fn ? is_empty_fn() : true;
     bool is_last_one = shmem_consistency_remove_pid(handler->shsync->pidlist, getpid());
     bool delete_shmem = is_empty && is_last_one;
+    /* Only the last process unlinks shmem, while no other process can register */
+    int error = 0;
+    if (delete_shmem) {
+        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
+        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
+            error = errno;
+        }
+    }
     shmem_unlock(handler);
+    fatal_cond(error, "shm_unlink error: %s", strerror(error));
 
     /* Here we should destroy the pthread mutex but another process may open
      * the shared memory in this precise moment causing an invalid access to
@@ -257,14 +278,6 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
         fatal("munmap error: %s", strerror(errno));
     }
 
-    /* Only the last process unlinks shmem */
-    if (delete_shmem) {
-        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
-        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
-            fatal("shm_unlink error: %s", strerror(errno));
-        }
-    }
-
     free(handler);
 }
 
-- 
2.43.0


From 51994aa6070b83293c946b6a28a08ea866e0c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 54/60] fix: lewi_mask: resolve only DISABLE tasks after a
 blocking call, a CPU obtained again is not pending

---
 src/LB_policies/lewi_mask.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 0e1430c..1fddedf 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -200,11 +200,25 @@ static inline array_cpuinfo_task_t* get_tasks(const subprocess_descriptor_t *spd
 /*    Resolve cpuinfo tasks                                                      */
 /*********************************************************************************/
 
+/* A CPU obtained again is no longer pending to be returned */
+static void clear_pending_reclaimed_cpus(const subprocess_descriptor_t *restrict spd,
+        const array_cpuinfo_task_t *restrict tasks) {
+    lewi_info_t *lewi_info = spd->lewi_info;
+    for (size_t i = 0; i < tasks->count; ++i) {
+        const cpuinfo_task_t *task = &tasks->items[i];
+        if (task->pid == spd->id && task->action == ENABLE_CPU) {
+            CPU_CLR(task->cpuid, &lewi_info->pending_reclaimed_cpus);
+        }
+    }
+}
+
 static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
         array_cpuinfo_task_t *restrict tasks) {
 
     size_t tasks_count = tasks->count;
 
+    clear_pending_reclaimed_cpus(spd, tasks);
+
     /* We don't need it strictly sorted, but if there are 3 or more tasks
      * we need to group them by pid */
     if (tasks_count > 2 ) {
@@ -468,9 +482,11 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             /* Once CPUs are acquired from the shmem, we don't need to call
              * any ENABLE callback because they weren't disabled in IntoBlockingCall.
              * Only if asynchronous mode, keep DISABLE tasks, otherwise remove all. */
+            clear_pending_reclaimed_cpus(spd, tasks);
             if (error == DLB_NOTED
                     && spd->options.mode == MODE_ASYNC) {
-                for (size_t i = 0, i_write = 0; i < tasks->count; ++i) {
+                size_t i_write = 0;
+                for (size_t i = 0; i < tasks->count; ++i) {
                     const cpuinfo_task_t *task = &tasks->items[i];
                     if (task->action == DISABLE_CPU) {
                         if (i != i_write) {
@@ -479,6 +495,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                         ++i_write;
                     }
                 }
+                tasks->count = i_write;
                 /* Async: resolve only DISABLE tasks */
                 resolve_cpuinfo_tasks(spd, tasks);
             } else {
-- 
2.43.0


From 623bbe32aedcc3292e76a7c18285452e24479608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 55/60] fix: lewi_mask: only the CPUs lost in a blocking call
 are disabled (async) or annotated as pending (polling)

---
 src/LB_policies/lewi_mask.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 1fddedf..ad6e438 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -519,16 +519,26 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             array_cpuinfo_task_t *tasks = get_tasks(spd);
             error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, cpu_subset, tasks);
 
-            if (error != DLB_SUCCESS) {
-                /* Annotate the CPU as pending to bypass the shared memory for the next query */
-                mu_or(&lewi_info->pending_reclaimed_cpus, &lewi_info->pending_reclaimed_cpus,
-                        &non_owned_cpus);
+            clear_pending_reclaimed_cpus(spd, tasks);
+
+            /* CPUs that could not be borrowed back */
+            for (size_t i = 0; i < tasks->count; ++i) {
+                const cpuinfo_task_t *task = &tasks->items[i];
+                if (task->pid == spd->id && task->action == ENABLE_CPU) {
+                    CPU_CLR(task->cpuid, &non_owned_cpus);
+                }
+            }
 
+            if (mu_count(&non_owned_cpus) > 0) {
                 /* We lost the CPU while in MPI.
                     * In async mode, we can just disable the CPU.
                     * In polling mode, the process needs to call Return */
                 if (spd->options.mode == MODE_ASYNC) {
                     disable_cpu_set(&spd->pm, &non_owned_cpus);
+                } else {
+                    /* Annotate the CPU as pending to bypass the shared memory for the next query */
+                    mu_or(&lewi_info->pending_reclaimed_cpus,
+                            &lewi_info->pending_reclaimed_cpus, &non_owned_cpus);
                 }
             }
         }
-- 
2.43.0


From 1f826b850508093017359de03703246ea86b5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 56/60] fix: lewi_mask: ReturnCpuMask without any pending CPU
 in the mask is not a success

---
 src/LB_policies/lewi_mask.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index ad6e438..9577369 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -799,6 +799,9 @@ int lewi_mask_ReturnCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
     if (CPU_COUNT(&lewi_info->pending_reclaimed_cpus) > 0) {
         cpu_set_t cpus_to_return;
         CPU_AND(&cpus_to_return, &lewi_info->pending_reclaimed_cpus, mask);
+        if (CPU_COUNT(&cpus_to_return) == 0) {
+            return error;
+        }
         for (int cpuid = mu_get_first_cpu(&cpus_to_return); cpuid >= 0;
                 cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
             disable_cpu(&spd->pm, cpuid);
-- 
2.43.0


From b84a47c549f7ab0fc35c725de9d78cb3b7a17100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 57/60] fix: drom: update the process mask of the descriptor
 when a new mask is set

---
 src/LB_core/DLB_kernel.c | 6 ++++--
 src/LB_core/DLB_kernel.h | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 2b23cc7..3ed3f2c 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -692,7 +692,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
 
 /* Drom Responsive */
 
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
     int error;
     if (!spd->options.drom) {
         error = DLB_ERR_NOCOMP;
@@ -711,13 +711,14 @@ int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_
                 /* Otherwise, udate owner and guest data */
                 shmem_cpuinfo__update_ownership(spd->id, mask, NULL);
             }
+            memcpy(&spd->process_mask, mask, sizeof(cpu_set_t));
         }
         instrument_event(RUNTIME_EVENT, EVENT_POLLDROM, EVENT_END);
     }
     return error;
 }
 
-int poll_drom_update(const subprocess_descriptor_t *spd) {
+int poll_drom_update(subprocess_descriptor_t *spd) {
     cpu_set_t new_mask;
     int error = poll_drom(spd, NULL, &new_mask);
     if (error == DLB_SUCCESS) {
@@ -741,6 +742,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
             /* Otherwise, udate owner and guest data */
             shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
         }
+        memcpy(&thread_spd->process_mask, mask, sizeof(cpu_set_t));
         set_process_mask(&thread_spd->pm, mask);
     }
     if (error == DLB_SUCCESS && (flags & DLB_FREE_CPUS_SLURM)) {
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 6b4f3d1..7b66f4b 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -82,8 +82,8 @@ int return_cpu(const subprocess_descriptor_t *spd, int cpuid);
 int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 
 /* DROM Responsive */
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
-int poll_drom_update(const subprocess_descriptor_t *spd);
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
+int poll_drom_update(subprocess_descriptor_t *spd);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
 /* Misc */
-- 
2.43.0


From ebdaa6e04f4ea1b6b755e62bcc7045f490356e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 58/60] fix: drom: the child process must not survive a failed
 execvp

---
 src/LB_core/DLB_kernel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 3ed3f2c..652abf5 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -772,6 +772,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
         } else if (res_pid == 0) {
             verbose(VB_DROM, "%s %s %s %s", args[0], args[1], args[2], args[3]);
             execvp("scontrol", args);
+            _exit(EXIT_FAILURE);
         }
 
         for (int i = 0; i < 5; ++i) {
-- 
2.43.0


From 8bcc409fbeec570b0086bbb4eddcb89859a3755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 59/60] fix: callbacks: fallbacks of enable/disable CPU and CPU
 set reach the registered callback

---
 src/LB_numThreads/numThreads.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/LB_numThreads/numThreads.c b/src/LB_numThreads/numThreads.c
index 2405a27..da4e6c3 100644
--- a/src/LB_numThreads/numThreads.c
+++ b/src/LB_numThreads/numThreads.c
@@ -227,7 +227,8 @@ int add_process_mask(const pm_interface_t *pm, const cpu_set_t *cpu_set) {
 int enable_cpu(const pm_interface_t *pm, int cpuid) {
     /* fallback case */
     if (pm->dlb_callback_enable_cpu_ptr == NULL
-            && pm->dlb_callback_add_active_mask_ptr) {
+            && (pm->dlb_callback_enable_cpu_set_ptr
+                || pm->dlb_callback_add_active_mask_ptr)) {
         cpu_set_t cpu_set;
         CPU_ZERO(&cpu_set);
         CPU_SET(cpuid, &cpu_set);
@@ -256,6 +257,10 @@ int enable_cpu_set(const pm_interface_t *pm, const cpu_set_t *cpu_set) {
             }
             return DLB_SUCCESS;
         }
+        if (pm->dlb_callback_add_active_mask_ptr != NULL) {
+            /* fallback to add_mask */
+            return add_mask(pm, cpu_set);
+        }
         return DLB_ERR_NOCBK;
     }
     instrument_event(CALLBACK_EVENT, 1, EVENT_BEGIN);
@@ -267,11 +272,12 @@ int enable_cpu_set(const pm_interface_t *pm, const cpu_set_t *cpu_set) {
 int disable_cpu(const pm_interface_t *pm, int cpuid) {
     /* fallback case */
     if (pm->dlb_callback_disable_cpu_ptr == NULL
-            && pm->dlb_callback_set_active_mask_ptr) {
+            && (pm->dlb_callback_disable_cpu_set_ptr
+                || pm->dlb_callback_set_active_mask_ptr)) {
         cpu_set_t cpu_set;
-        sched_getaffinity(0, sizeof(cpu_set_t), &cpu_set);
-        CPU_CLR(cpuid, &cpu_set);
-        return set_mask(pm, &cpu_set);
+        CPU_ZERO(&cpu_set);
+        CPU_SET(cpuid, &cpu_set);
+        return disable_cpu_set(pm, &cpu_set);
     }
 
     if (pm->dlb_callback_disable_cpu_ptr == NULL) {
@@ -296,6 +302,13 @@ int disable_cpu_set(const pm_interface_t *pm, const cpu_set_t *cpu_set) {
             }
             return DLB_SUCCESS;
         }
+        if (pm->dlb_callback_set_active_mask_ptr != NULL) {
+            /* fallback to set_mask */
+            cpu_set_t active_mask;
+            sched_getaffinity(0, sizeof(cpu_set_t), &active_mask);
+            mu_substract(&active_mask, &active_mask, cpu_set);
+            return set_mask(pm, &active_mask);
+        }
         return DLB_ERR_NOCBK;
     }
     instrument_event(CALLBACK_EVENT, 1, EVENT_BEGIN);
-- 
2.43.0


From a8609344f5ba019cefdab203715a6c4c52807867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 60/60] fix: subprocess API: do not keep a freed handler in the
 thread, initialize dlb_preinitialized

---
 src/apis/DLB_interface_sp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/apis/DLB_interface_sp.c b/src/apis/DLB_interface_sp.c
index 7e2336b..42cbec3 100644
--- a/src/apis/DLB_interface_sp.c
+++ b/src/apis/DLB_interface_sp.c
@@ -41,10 +41,12 @@ static int get_atomic_spid(void) {
 dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
     subprocess_descriptor_t *spd = malloc(sizeof(subprocess_descriptor_t));
     spd->dlb_initialized = true;
+    spd->dlb_preinitialized = false;
     spd_register(spd);
     spd_enter_dlb(spd);
     int error = Initialize(spd, get_atomic_spid(), ncpus, mask, dlb_args);
     if (error != DLB_SUCCESS) {
+        spd_enter_dlb(NULL);
         spd_unregister(spd);
         free(spd);
         return NULL;
@@ -55,6 +57,7 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
 int DLB_Finalize_sp(dlb_handler_t handler) {
     spd_enter_dlb(handler);
     int error = Finish(handler);
+    spd_enter_dlb(NULL);
     spd_unregister(handler);
     free(handler);
     return error;
-- 
2.43.0

