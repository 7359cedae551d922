From 880e022c3ad29216900c8b7c610fd7c88fbf9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 01/41] fix: barriers complete updates to memory spaces and to
 PEs outside the active set

shmem_barrier_all and shmem_barrier flushed only the symmetric heap and data
windows, leaving updates issued on the default context to memory spaces (and,
for shmem_barrier, AM updates to non-members) incomplete. Use OSHMPI_ctx_quiet.
---
 src/internal/coll_activeset_impl.h | 14 ++++----------
 src/internal/coll_impl.h           | 12 +++---------
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..9530f61 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -119,16 +119,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put, including
+     * those on memory spaces, those issued via active messages, and those to
+     * PEs outside the active set */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..87b6231 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -11,15 +11,9 @@
 #include "oshmpi_util.h"
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
 {
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put, including
+     * those on memory spaces and those issued via active messages */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From b5ed7047408031ef038bd1d0b6aba1774529d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 02/41] fix: sized get/put pass the element size in bytes

shmem_getSIZE and friends passed the size in bits as the element size, so that
a get carried by active messages made the target send eight times the data.
---
 src/shmem/rma_sized.c.tpl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/shmem/rma_sized.c.tpl b/src/shmem/rma_sized.c.tpl
index 27b11f2..9ec43b4 100644
--- a/src/shmem/rma_sized.c.tpl
+++ b/src/shmem/rma_sized.c.tpl
@@ -12,26 +12,26 @@
 
 void shmem_getSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_getSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
@@ -51,13 +51,13 @@ void shmem_ctx_igetSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, ptr
 
 void shmem_putSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
@@ -77,14 +77,14 @@ void shmem_ctx_iputSIZENAME(shmem_ctx_t ctx, void *dest, const void *source,
 
 void shmem_putSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 /* TPL_BLOCK_END */
\ No newline at end of file
-- 
2.43.0


From d8c9865f0d3bb5e1fe170f977e48be8550c2a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 03/41] fix: do not poll active messages when they are not
 initialised

With direct AMO and direct RMA both set at configure time the AM receive is
never posted, yet every progress poll tested its request (a crash in the first
barrier).
---
 src/internal/am_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 08a4905..e3b35a8 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -286,6 +286,10 @@ void OSHMPI_am_finalize(void)
 
 void OSHMPI_am_cb_progress(void)
 {
+    /* AM is not used if direct AMO is enabled and direct RMA is set at configure. */
+    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME && OSHMPI_ENABLE_DIRECT_RMA_CONFIG)
+        return;
+
     /* Make manual progress only when async thread is disabled */
     if (OSHMPI_ENABLE_AM_ASYNC_THREAD_RUNTIME)
         return;
-- 
2.43.0


From 842ff560243151b6b5ab47ade289e6035cbe3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 04/41] fix: quiet and fence skip memory spaces that are not
 attached

A space that was created but not (or no longer) attached has no window and no
contexts; flushing them failed or crashed.
---
 src/internal/order_impl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..112513a 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -47,15 +47,16 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     ctx_flush_impl(&OSHMPI_global.symm_data_ictx);
 #endif
 
-    /* Flush all space contexts */
+    /* Flush all space contexts. A space that is not attached has none. */
     OSHMPI_space_t *space, *tmp;
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
@@ -78,15 +79,16 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     ctx_flush_impl(&OSHMPI_global.symm_data_ictx);
 #endif
 
-    /* Flush all space contexts */
+    /* Flush all space contexts. A space that is not attached has none. */
     OSHMPI_space_t *space, *tmp;
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-- 
2.43.0


From f764457a11f8e1cb93f676e68ba97971ea012b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 05/41] fix: quiet and fence on a space context complete its
 active messages

Atomics (and RMA) issued on a space context through active messages were left
pending by shmem_ctx_quiet and shmem_ctx_fence on that context.
---
 src/internal/order_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 112513a..31133ad 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM ordered delivery (e.g., AM AMOs issued on the context) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -70,6 +72,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure AM completion (e.g., AM AMOs issued on the context) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From f729cc3df58688d294081a0883a430c1adc818f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 06/41] fix: make AM progress while the members of a new active
 set arrive

The first collective on an active set calls MPI_Comm_create_group, in which no
active message is served. It deadlocked when another member was still waiting
for an atomic (or any other active message) on the PE that was already there.
---
 src/internal/coll_activeset_impl.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 9530f61..77a4076 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -70,6 +70,29 @@ OSHMPI_STATIC_INLINE_PREFIX int coll_find_comm_cache(int PE_start, int logPE_str
     return found;
 }
 
+/* Wait until all PEs of a new active set have arrived while making AM progress.
+ * The creation of a communicator is a blocking MPI call in which no AM progress
+ * is made. It must not start when another member may still wait for an AM
+ * operation on this PE. */
+OSHMPI_STATIC_INLINE_PREFIX void coll_wait_members(const int *pe_list, int PE_size)
+{
+    int i;
+
+    if (OSHMPI_global.team_world_my_pe == pe_list[0]) {
+        for (i = 1; i < PE_size; i++)
+            OSHMPI_am_progress_mpi_recv(NULL, 0, MPI_BYTE, pe_list[i], pe_list[0],
+                                        OSHMPI_global.team_world_comm, MPI_STATUS_IGNORE);
+        for (i = 1; i < PE_size; i++)
+            OSHMPI_am_progress_mpi_send(NULL, 0, MPI_BYTE, pe_list[i], pe_list[0],
+                                        OSHMPI_global.team_world_comm);
+    } else {
+        OSHMPI_am_progress_mpi_send(NULL, 0, MPI_BYTE, pe_list[0], pe_list[0],
+                                    OSHMPI_global.team_world_comm);
+        OSHMPI_am_progress_mpi_recv(NULL, 0, MPI_BYTE, pe_list[0], pe_list[0],
+                                    OSHMPI_global.team_world_comm, MPI_STATUS_IGNORE);
+    }
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_stride, int PE_size,
                                                    MPI_Comm * comm)
 {
@@ -104,6 +127,8 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
 
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
+    coll_wait_members(pe_list, PE_size);
+
     /* Only collective on the strided_group. */
     OSHMPI_CALLMPI(MPI_Comm_create_group
                    (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));
-- 
2.43.0


From 3aeebe3e83a9f590ca5dea92dda42313f5bf4f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 07/41] fix: clear_lock completes the stores of the critical
 region

The lock was passed on without waiting for outstanding puts and atomics, so
that the next holder could read stale data.
---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..0742229 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -103,6 +103,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     lock_next_disp = lock_last_disp + sizeof(int);
 
+    /* Ensure all stores initiated in the critical region are complete */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
     /* Release the lock in root process if I am the last one holding the lock */
     OSHMPI_CALLMPI(MPI_Compare_and_swap
                    (&zero, &myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,
-- 
2.43.0


From 3d6eeb839701a8d844942f11a6c10a7efb654a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 08/41] fix: a failed test_lock makes AM progress

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 0742229..681aa85 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -167,6 +167,9 @@ OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_test_lock(long *lockp)
         OSHMPI_DBGMSG("locked %p, curid=%d\n", lockp, curid - 1);
         return 0;
     }
+
+    /* Make progress so that a caller spinning on this lock keeps serving its holder. */
+    OSHMPI_am_cb_progress();
     return 1;
 }
 
-- 
2.43.0


From 1a34978e3b70debf08f18e2b15b47caeefb7977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 09/41] fix: locks address their queue bits by the owner's own
 displacement

---
 src/internal/lock_impl.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 681aa85..e29f0f5 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -24,6 +24,20 @@ typedef struct OSHMPI_lock_s {
                                  * other bits: next pe who is waiting on me to release this lock */
 } OSHMPI_lock_t;
 
+/* Displacement of the next bits on the specified PE. The lock variable may be at
+ * different addresses on different PEs. */
+OSHMPI_STATIC_INLINE_PREFIX MPI_Aint OSHMPI_lock_next_disp(OSHMPI_sobj_attr_t * sobj_attr,
+                                                           OSHMPI_ictx_t * ictx,
+                                                           OSHMPI_lock_t * lock, int wrank)
+{
+    MPI_Aint disp = -1;
+
+    OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next, wrank,
+                                    OSHMPI_ICTX_DISP_MODE(ictx), &disp);
+    OSHMPI_ASSERT(disp >= 0);
+    return disp;
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 {
     int myid = OSHMPI_global.team_world_my_pe + 1;
@@ -46,7 +60,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = OSHMPI_lock_next_disp(sobj_attr, ictx, lock, OSHMPI_global.team_world_my_pe);
 
     /* Reset my local bits. No one accesses to my next bits now. */
     lock->next = 0;
@@ -61,7 +75,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 
     /* If I am not the last, notify the previous last about me, and wait for release */
     if (curid != zero) {
-        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,
+        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1,
+                                      OSHMPI_lock_next_disp(sobj_attr, ictx, lock, curid - 1),
                                       1, MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(curid - 1, ictx->win));
 
@@ -101,7 +116,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = OSHMPI_lock_next_disp(sobj_attr, ictx, lock, OSHMPI_global.team_world_my_pe);
 
     /* Ensure all stores initiated in the critical region are complete */
     OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
@@ -131,8 +146,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
         OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
 
         /* Set next PE's signal bit */
-        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1, lock_next_disp, 1,
-                                      MPI_UNSIGNED, MPI_BOR, ictx->win));
+        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1,
+                                      OSHMPI_lock_next_disp(sobj_attr, ictx, lock, nextid - 1),
+                                      1, MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));
         OSHMPI_DBGMSG("pass lock %p to %d\n", lockp, nextid - 1);
     }
-- 
2.43.0


From 646658c69bedffffe898c1336578c786f9356b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 10/41] fix: broadcast takes the root as an ordinal within the
 active set

---
 src/internal/coll_activeset_impl.h | 45 ++++--------------------------
 1 file changed, 6 insertions(+), 39 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 77a4076..895d0be 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -177,53 +177,20 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
 {
     MPI_Comm comm = MPI_COMM_NULL;
+    /* PE_root is the zero-based ordinal of the root with respect to the active
+     * set, i.e., its rank in the communicator of the active set. */
+    const int root_wrank = PE_start + PE_root * (1 << logPE_stride);
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    OSHMPI_am_progress_mpi_bcast(root_wrank ==
+                                 OSHMPI_global.team_world_my_pe ? (void *) source : dest,
+                                 nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From 35f1389e043c3c4b550e5a1e362762ba1e66bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 11/41] fix: make AM progress while the members of a team split
 arrive

---
 src/internal/team_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 048c83a..bf1789d 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -47,6 +47,9 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team
     MPI_Comm new_comm;
     MPI_Group new_group;
 
+    /* No AM progress is made in the blocking split. Do not start it when another
+     * member may still wait for an AM operation on this PE. */
+    OSHMPI_am_progress_mpi_barrier(team->comm);
     OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
-- 
2.43.0


From a04abdd0c11745be83813e6ec440ee37e7953247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 12/41] fix: translating a PE number outside the source team
 returns -1

---
 src/shmem/team.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..fe0976f 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -69,7 +69,7 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
     OSHMPI_team_t *_src_team = NULL;
     OSHMPI_team_t *_dest_team = NULL;
     MPI_Group src_group, dest_group;
-    int dest_rank = 0;
+    int src_n_pes = 0, dest_rank = 0;
 
     if (src_team == SHMEM_TEAM_INVALID || dest_team == SHMEM_TEAM_INVALID) {
         return -1;
@@ -77,12 +77,21 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
 
     if (src_team == SHMEM_TEAM_WORLD) {
         src_group = OSHMPI_global.team_world_group;
+        src_n_pes = OSHMPI_global.team_world_n_pes;
     } else if (src_team == SHMEM_TEAM_SHARED) {
         src_group = OSHMPI_global.team_shared_group;
+        src_n_pes = OSHMPI_global.team_shared_n_pes;
     } else {
         _src_team = OSHMPI_TEAM_HANDLE_TO_OBJ(src_team);
         src_group = _src_team->group;
+        src_n_pes = _src_team->n_pes;
     }
+
+    /* src_pe is not a member of src_team */
+    if (src_pe < 0 || src_pe >= src_n_pes) {
+        return -1;
+    }
+
     if (dest_team == SHMEM_TEAM_WORLD) {
         dest_group = OSHMPI_global.team_world_group;
     } else if (dest_team == SHMEM_TEAM_SHARED) {
-- 
2.43.0


From 7acefecbbf7e855a26fb805135e6b53724f49584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:58 +0000
Subject: [PATCH 13/41] fix: strided team split rejects empty, zero-stride,
 descending and overflowing triplets

---
 src/shmem/team.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index fe0976f..35c0bdc 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -131,13 +131,21 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
 
     /* sanity checks
      * 1. valid start pe rank
-     * 2. valid end pe rank */
+     * 2. valid size and stride (stride is not used if there is a single PE)
+     * 3. valid end pe rank */
     if (start < 0 || start >= _parent_team->n_pes) {
         goto fn_fail;
     }
 
-    int end_pe = start + stride * (size - 1);
-    if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
+    if (size == 1) {
+        stride = 1;
+    }
+    if (size < 1 || stride < 1) {
+        goto fn_fail;
+    }
+
+    long long end_pe = (long long) start + (long long) stride * (size - 1);
+    if (end_pe >= _parent_team->n_pes) {
         goto fn_fail;
     }
 
-- 
2.43.0


From 594e659c585972085d86fd3c65659433792e71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 14/41] fix: shmem_realloc to size zero frees the block

---
 src/internal/mem_impl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..c3a4bb3 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -52,8 +52,12 @@ void *OSHMPI_realloc(void *ptr, size_t size)
 {
     void *rptr = NULL;
 
-    if (size == 0 && ptr == NULL)
-        return ptr;
+    if (size == 0) {
+        /* OpenSHMEM 1.5 Section 9.3.1: the block is freed if it exists; otherwise no action */
+        if (ptr != NULL)
+            OSHMPI_free(ptr);
+        return NULL;
+    }
 
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
-- 
2.43.0


From e1f52f310cb50aa08b79f57af94764196cd6e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 15/41] fix: the symmetric heap never hands out memory outside
 of it

---
 src/internal/setup_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..ada6453 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -190,6 +190,8 @@ static void attach_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never extend with private memory outside the symmetric heap */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -276,6 +278,8 @@ static void initialize_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never extend with private memory outside the symmetric heap */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From a2ad22b2ba6a72f20375fae5ead5816e5de9e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 16/41] fix: blocks in the last page of the symmetric heap are
 remotely accessible and freed

---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index ada6453..e550eed 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -181,7 +181,7 @@ static void attach_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -269,7 +269,7 @@ static void initialize_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From 2074692ec280d2d5c7bad7afa932254794f765a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 17/41] fix: shmem_align of size zero returns NULL

---
 src/internal/mem_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index c3a4bb3..2d9294c 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -72,6 +72,9 @@ void *OSHMPI_align(size_t alignment, size_t size)
 {
     void *ptr = NULL;
 
+    if (size == 0)
+        return ptr;
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     ptr = mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From 8944f36d2d32c369d8cbd96a5e0d3a84fb2f3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 18/41] fix: shmem_align returns blocks at the same place on
 every PE

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/mem_impl.c   |  9 ++++++---
 src/internal/setup_impl.c | 27 ++++++++++++++++++++++++---
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..feeecaf 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -213,6 +213,7 @@ typedef struct {
 #endif
 
     MPI_Aint symm_heap_true_size;
+    size_t symm_heap_max_align; /* largest alignment that is symmetric */
     mspace symm_heap_mspace;
     OSHMPIU_thread_cs_t symm_heap_mspace_cs;
 
diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 2d9294c..042c294 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -75,9 +75,12 @@ void *OSHMPI_align(size_t alignment, size_t size)
     if (size == 0)
         return ptr;
 
-    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
-    ptr = mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size);
-    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
+    /* An alignment that cannot be symmetric cannot be satisfied */
+    if (alignment <= OSHMPI_global.symm_heap_max_align) {
+        OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
+        ptr = mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size);
+        OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
+    }
 
     OSHMPI_DBGMSG("alignment %ld size %ld -> %p\n", alignment, size, ptr);
     OSHMPI_barrier_all();
diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index e550eed..d6ff36c 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -114,7 +114,25 @@ void OSHMPI_set_mpi_info_args(MPI_Info info)
     OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ordering", "none"));
 }
 
+/* A block can be aligned beyond the congruence of the heap bases only at
+ * a different displacement on each PE. Find the largest symmetric alignment. */
+static void set_symm_heap_max_align(void *base)
+{
+    uint64_t bits[2];
+
+    bits[0] = (uint64_t) (uintptr_t) base;
+    bits[1] = ~bits[0];
+    OSHMPI_CALLMPI(MPI_Allreduce(MPI_IN_PLACE, bits, 2, MPI_UINT64_T, MPI_BAND,
+                                 OSHMPI_global.team_world_comm));
+
+    /* An address bit set in none of the results differs between PEs */
+    bits[0] = ~(bits[0] | bits[1]);
+    OSHMPI_global.symm_heap_max_align = bits[0] ? (size_t) (bits[0] & -bits[0]) : SIZE_MAX;
+}
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+static int symm_heap_malloced = 0;
+
 static void initialize_symm_win()
 {
     MPI_Info info = MPI_INFO_NULL;
@@ -175,9 +193,11 @@ static void attach_symm_heap(void)
 
     /* Try to allocate symmetric heap. If fails, allocate separate heap
      * and check if the start address is the same. */
-    if (OSHMPIU_allocate_symm_mem(true_size, &base))
-        base = OSHMPIU_malloc(true_size);
+    symm_heap_malloced = OSHMPIU_allocate_symm_mem(true_size, &base);
+    if (symm_heap_malloced && posix_memalign(&base, OSHMPI_global.page_sz, true_size))
+        base = NULL;
     OSHMPI_ASSERT(base);
+    set_symm_heap_max_align(base);
 
     /* Setup sobj attributes */
     int symm_flag = 0;
@@ -266,6 +286,7 @@ static void initialize_symm_heap(void)
                                     OSHMPI_global.team_world_comm, &base,
                                     &OSHMPI_global.symm_heap_ictx.win));
     OSHMPI_ASSERT(base);
+    set_symm_heap_max_align(base);
 
     /* Setup sobj attributes */
     int symm_flag = 0;
@@ -882,7 +903,7 @@ static void finalize_impl(void)
                                       OSHMPI_global.symm_data_attr.base));
         OSHMPI_CALLMPI(MPI_Win_free(&OSHMPI_global.symm_ictx.win));
     }
-    if (OSHMPI_SOBJ_HANDLE_CHECK_SYMMBIT(OSHMPI_global.symm_heap_attr.handle))
+    if (!symm_heap_malloced)
         OSHMPIU_free_symm_mem(OSHMPI_global.symm_heap_attr.base, OSHMPI_global.symm_heap_true_size);
     else
         OSHMPIU_free(OSHMPI_global.symm_heap_attr.base);
-- 
2.43.0


From 4b9689163fdc2574d2dc0142fd3cdc43608608ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 19/41] fix: shmem_realloc completes updates to the existing
 block before moving it

---
 src/internal/mem_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 042c294..5e29cbd 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -59,6 +59,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
         return NULL;
     }
 
+    /* Updates to the existing block must complete before it is moved or released */
+    if (ptr != NULL)
+        OSHMPI_barrier_all();
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From e9284095efc0eb6c77986b9ab0766839621c6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 20/41] fix: zero-size and oversized requests to a memory space
 return NULL

---
 src/internal/util/mem_pool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..05e12d7 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -42,6 +42,9 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
     int off = 0, navail = 0;
     void *ptr = NULL;
 
+    if (size == 0 || size > mem_pool->size)
+        return ptr;
+
     size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
     int nalloc = aligned_sz / mem_pool->chunk_size;
 
-- 
2.43.0


From ceb6a578f45bf336a2b2b17d6802280ee54b7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 21/41] fix: shmemx_space_align respects the alignment

---
 src/internal/space_impl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..943f68a 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,9 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            /* Page aligned so that every chunk is */
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size))
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
@@ -376,7 +378,11 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
-    return OSHMPI_space_malloc(space, OSHMPI_ALIGN(size, alignment));
+    /* Every chunk is page aligned; a larger alignment might not be symmetric.
+     * Such a request fails, collectively like any other. */
+    if (alignment > OSHMPI_global.page_sz)
+        size = SIZE_MAX;
+    return OSHMPI_space_malloc(space, size);
 }
 
 /* Collectively free a buffer from the space */
-- 
2.43.0


From 991b2a2573e8eb0bda8d49988ab54d2582c8b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 22/41] fix: shmemx_space_calloc zeroes count elements before
 any PE may update them

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 20 ++++++++++++++++++++
 src/shmemx/space.c        |  3 +--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index feeecaf..31b22d2 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -390,6 +390,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 943f68a..8eba372 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -375,6 +375,26 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
     return ptr;
 }
 
+/* Collectively allocate a zeroed buffer from the space. The buffer is zeroed
+ * before any PE may update it. */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+
+    if (size == 0 || count <= SIZE_MAX / size) {
+        OSHMPI_THREAD_ENTER_CS(&space->mem_pool_cs);
+        ptr = OSHMPIU_mempool_alloc(&space->mem_pool, count * size);
+        OSHMPI_THREAD_EXIT_CS(&space->mem_pool_cs);
+    }
+    if (ptr)
+        memset(ptr, 0, count * size);
+
+    OSHMPI_DBGMSG("space_calloc from space %p, count %ld, size %ld -> ptr %p\n",
+                  space, count, size, ptr);
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From 408b189a1613dab650024ea614b65722475c6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 23/41] fix: attaching and detaching a space make AM progress;
 detach completes updates

---
 src/internal/space_impl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 8eba372..cd55c3f 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -282,6 +282,9 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
 
+    /* Serve PEs that have not arrived yet; the MPI calls below do not */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     OSHMPI_CALLMPI(MPI_Info_create(&info));
     OSHMPI_set_mpi_info_args(info);
 
@@ -337,8 +340,11 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
 
+    /* Complete all updates to the space, and serve PEs that have not arrived
+     * yet; the MPI calls below do not */
+    OSHMPI_barrier_all();
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-- 
2.43.0


From 1da77b1e6ffdacdae60ba4240651a89c4dd119f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 24/41] fix: active message tags are reused instead of running
 out

---
 src/internal/am_impl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..d447939 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,9 +14,11 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
-    OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
-    return tag;
+    /* Reuse the tags from the start once all have been used. An operation with the
+     * same tag has long been completed then. */
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) %
+        (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START);
+    return (int) off + OSHMPI_AM_PKT_PTAG_START;
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)),
-- 
2.43.0


From 4799da61c0e2f6fea047349d7d97e26758c0a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 25/41] fix: shmem_finalize leaves an MPI library that the user
 initialized to the user

---
 src/internal/setup_impl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index d6ff36c..46bbce3 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -37,6 +37,8 @@ extern edata;
 OSHMPI_global_t OSHMPI_global = { 0 };
 OSHMPI_env_t OSHMPI_env = { 0 };
 
+static int mpi_initialized_here = 0;    /* MPI is initialized by OSHMPI rather than by the user */
+
 void OSHMPI_set_mpi_info_args(MPI_Info info)
 {
     unsigned int nops;
@@ -799,6 +801,7 @@ void OSHMPI_initialize_thread(int required, int *provided)
         OSHMPI_CALLMPI(MPI_Query_thread(&mpi_provided));
     } else {
         OSHMPI_CALLMPI(MPI_Init_thread(NULL, NULL, shm_provided, &mpi_provided));
+        mpi_initialized_here = 1;
     }
 
     /* Degrade thread safety if it is not supported by MPI */
@@ -928,7 +931,10 @@ static void finalize_impl(void)
     OSHMPI_team_destroy(&OSHMPI_global.team_world);
 
     OSHMPI_CALLMPI(MPI_T_finalize());
-    OSHMPI_CALLMPI(MPI_Finalize());
+
+    /* Leave MPI to the user if the user has initialized it */
+    if (mpi_initialized_here)
+        OSHMPI_CALLMPI(MPI_Finalize());
 }
 
 /* Implicitly called at program exit, valid only when program is initialized
-- 
2.43.0


From 2fce03ea3ad3dac5204279addb81e623d3aed11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 26/41] fix: shmem_finalize completes all operations before any
 PE releases resources

---
 src/internal/setup_impl.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 46bbce3..dd61e15 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -888,9 +888,8 @@ static void finalize_impl(void)
 
     /* Implicit global barrier is required to ensure
      * that pending communications are completed and that no resources
-     * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+     * are released until all PEs have entered shmem_finalize. */
+    OSHMPI_barrier_all();
 
     OSHMPI_coll_finalize();
     OSHMPI_am_finalize();
-- 
2.43.0


From fc6bbcd3c72d29296a8c8d36a9239a79d7b3de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 27/41] fix: SHMEM_SYMMETRIC_SIZE is converted exactly and
 invalid values are rejected

---
 src/include/oshmpi_util.h | 19 +++++++++++++------
 src/internal/setup_impl.c |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 0d55ac3..91ad23a 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -144,12 +144,15 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPIU_free(void *buf)
 
 OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
 {
-    double val;
+    long double val;
     char *e;
 
-    val = (double) strtof(s, &e);
-    if (e == NULL || *e == '\0')
-        return val;
+    /* The precision of long double is required to convert every integer exactly */
+    val = strtold(s, &e);
+
+    /* Not a number or a negative number */
+    if (e == s || !(val >= 0))
+        return UINT64_MAX;
 
     if (*e == 'K' || *e == 'k')
         val *= 1024.;
@@ -162,8 +165,12 @@ OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
 
     /* ceil is required to match the specification example
      * "3.1M is equivalent to the integer value 3250586" */
-    uint64_t ret_val = ceil(val);
-    return ret_val;
+    val = ceill(val);
+
+    /* Cannot be the size of an object */
+    if (!(val <= (long double) (PTRDIFF_MAX / 2)))
+        return UINT64_MAX;
+    return (uint64_t) val;
 }
 
 /* ======================================================================
diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index dd61e15..8b06575 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -632,7 +632,7 @@ static void initialize_env(void)
     if (val && strlen(val))
         OSHMPI_env.symm_heap_size = (MPI_Aint) OSHMPIU_str_to_size(val);
     if (OSHMPI_env.symm_heap_size < 0)
-        OSHMPI_ERR_ABORT("Invalid SHMEM_SYMMETRIC_SIZE: %ld\n", OSHMPI_env.symm_heap_size);
+        OSHMPI_ERR_ABORT("Invalid SHMEM_SYMMETRIC_SIZE: %s\n", val);
 
     /* FIXME: determine system available memory size */
 
-- 
2.43.0


From e1fd7c82b5c13d34fe33db996d758204ac03ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 28/41] fix: a symmetric heap that cannot be allocated is
 reported without assertions, too

---
 src/internal/setup_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 8b06575..a9a86dc 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -198,7 +198,8 @@ static void attach_symm_heap(void)
     symm_heap_malloced = OSHMPIU_allocate_symm_mem(true_size, &base);
     if (symm_heap_malloced && posix_memalign(&base, OSHMPI_global.page_sz, true_size))
         base = NULL;
-    OSHMPI_ASSERT(base);
+    if (base == NULL)
+        OSHMPI_ERR_ABORT("Cannot allocate a symmetric heap of %ld bytes\n", (long) true_size);
     set_symm_heap_max_align(base);
 
     /* Setup sobj attributes */
-- 
2.43.0


From e5169d81d3235680eb485b49a74d69e1f6201f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 29/41] fix: OSHMPI_AMO_OPS accepts the documented value "all"

---
 src/internal/setup_impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index a9a86dc..36cf34d 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -332,7 +332,7 @@ static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
     if (!strncmp(value, "none", strlen("none"))) {
         *ops_ptr = 0;
         return;
-    } else if (!strncmp(value, "any_op", strlen("any_op"))) {
+    } else if (!strncmp(value, "any_op", strlen("any_op")) || !strncmp(value, "all", strlen("all"))) {
         OSHMPI_amo_op_shift_t op_shift;
         /* add all ops */
         for (op_shift = OSHMPI_AMO_CSWAP; op_shift < OSHMPI_AMO_OP_LAST; op_shift++)
-- 
2.43.0


From 21f8fc0693246ba9a0a2f17a175109dc107fa7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 30/41] fix: OSHMPI_AMO_OPS counts a sum operation only if inc,
 finc, add or fadd is listed

---
 src/internal/setup_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 36cf34d..4f692c5 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -59,7 +59,8 @@ void OSHMPI_set_mpi_info_args(MPI_Info info)
         c += snprintf(which_accumulate_ops + c, maxlen - c, "cswap");
         nops++;
     }
-    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FINC)) || (OSHMPI_env.amo_ops) ||
+    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FINC)) ||
+        (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_INC)) ||
         (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FADD)) ||
         (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_ADD))) {
         c += snprintf(which_accumulate_ops + c, maxlen - c, "%ssum", (c > 0) ? "," : "");
-- 
2.43.0


From f15a0c11220c4d1b80adf340a6e6783949ad8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 31/41] fix: shmem_addr_accessible knows attached memory spaces

---
 src/shmem/setup.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/shmem/setup.c b/src/shmem/setup.c
index 2e619ff..4d42f11 100644
--- a/src/shmem/setup.c
+++ b/src/shmem/setup.c
@@ -71,9 +71,28 @@ int shmem_pe_accessible(int pe)
 
 int shmem_addr_accessible(const void *addr, int pe)
 {
-    return ((OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
-             OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr)) &&
-            (pe >= 0 && pe < OSHMPI_global.team_world_n_pes)) ? 1 : 0;
+    OSHMPI_space_t *space, *tmp;
+    int found;
+
+    if (pe < 0 || pe >= OSHMPI_global.team_world_n_pes)
+        return 0;
+
+    found = OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
+        OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr);
+    if (found)
+        return 1;
+
+    /* Search attached memory spaces */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) ==
+            OSHMPI_SOBJ_SPACE_ATTACHED_HEAP && OSHMPI_sobj_check_range(addr, space->sobj_attr)) {
+            found = 1;
+            break;
+        }
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+    return found;
 }
 
 void *shmem_ptr(const void *dest, int pe)
-- 
2.43.0


From 5108407a99719a3e020f89cd748be29a59d7f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 32/41] fix: define the deprecated shmem_wait and
 shmem_wait_until for programs that are not C11

---
 include/shmem.h.in.tpl | 2 +-
 src/shmem/p2p.c        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/shmem.h.in.tpl b/include/shmem.h.in.tpl
index 09e8a81..d673c41 100644
--- a/include/shmem.h.in.tpl
+++ b/include/shmem.h.in.tpl
@@ -320,8 +320,8 @@ void shmem_alltoalls64(void *dest, const void *source, ptrdiff_t dst, ptrdiff_t
 /* (deprecated APIs) */
 #if (OSHMPI_HAVE_C11 == 0)
 void shmem_wait_until(long *ivar, int cmp, long cmp_value);
-void shmem_wait(long *ivar, long cmp_value);
 #endif
+void shmem_wait(long *ivar, long cmp_value);
 void shmem_short_wait(short *ivar, short cmp_value);
 void shmem_int_wait(int *ivar, int cmp_value);
 void shmem_long_wait(long *ivar, long cmp_value);
diff --git a/src/shmem/p2p.c b/src/shmem/p2p.c
index b35b2bc..46cb11f 100644
--- a/src/shmem/p2p.c
+++ b/src/shmem/p2p.c
@@ -8,7 +8,10 @@
 #include "oshmpi_impl.h"
 
 /* Deprecated APIs start */
-#if (OSHMPI_HAVE_C11 == 0)
+/* Programs that are not compiled as C11 call these, whatever the library is compiled as. */
+#undef shmem_wait_until
+void shmem_wait_until(long *ivar, int cmp, long cmp_value);
+
 void shmem_wait_until(long *ivar, int cmp, long cmp_value)
 {
     /* Does not return until ivar satisfies the condition implied by cmp and cmp_value. */
@@ -20,7 +23,6 @@ void shmem_wait(long *ivar, long cmp_value)
     /* Return when ivar is no longer equal to cmp_value. */
     OSHMPI_WAIT_UNTIL(ivar, SHMEM_CMP_NE, cmp_value, long, MPI_LONG);
 }
-#endif
 
 void shmem_short_wait(short *ivar, short cmp_value)
 {
-- 
2.43.0


From b9b724841cb510dd51106d4a92d3f2c17de39b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 33/41] fix: probing an address range for the symmetric heap
 takes one call, not one per page

---
 src/internal/util/symm_mem.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/internal/util/symm_mem.c b/src/internal/util/symm_mem.c
index 1409975..949d71b 100644
--- a/src/internal/util/symm_mem.c
+++ b/src/internal/util/symm_mem.c
@@ -36,24 +36,15 @@ static struct {
  * yes, otherwise 0.*/
 static inline int check_maprange_ok(void *start, size_t mapsize)
 {
-    int rc = 0;
-    int ret = 1;
-    size_t i, num_pages = mapsize / symm_mem_global.page_sz;
-    char *ptr = (char *) start;
-
-    for (i = 0; i < num_pages; i++) {
-        rc = msync(ptr, symm_mem_global.page_sz, 0);
-
-        if (rc == -1) {
-            OSHMPI_ASSERT(errno == ENOMEM);
-            ptr += symm_mem_global.page_sz;
-        } else {
-            ret = 0;    /* the range has already been used */
-            break;
-        }
-    }
+    /* Without MAP_FIXED, start is only a hint that is followed if the range is unused.
+     * Checking page by page would never end for a range of hundreds of terabytes. */
+    void *ptr = mmap(start, mapsize, PROT_NONE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
+
+    if (ptr == MAP_FAILED)
+        return 0;
 
-    return ret;
+    munmap(ptr, mapsize);
+    return ptr == start;
 }
 
 static inline void *generate_random_addr(size_t mapsize)
-- 
2.43.0


From ba9731db48e3daf28eb739fe546ec9f6b84f7f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 34/41] fix: shmem_ctx_destroy completes the operations issued
 on the context

---
 src/internal/ctx_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/ctx_impl.c b/src/internal/ctx_impl.c
index 812a798..8bb07ba 100644
--- a/src/internal/ctx_impl.c
+++ b/src/internal/ctx_impl.c
@@ -8,6 +8,9 @@
 
 void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx)
 {
+    /* Complete all operations issued on the context before it is released */
+    OSHMPI_ctx_quiet(ctx);
+
     OSHMPIU_ATOMIC_FLAG_STORE(ctx->used_flag, 0);
 
     /* Do not free window.
-- 
2.43.0


From 8b4b2a2944d7b42a044fe5ad7bd4190456d17bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 35/41] fix: shmem_team_sync synchronizes the PEs of any team

---
 src/internal/coll_impl.h |  7 +++++++
 src/shmem/coll.c         | 12 ++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 87b6231..8b7f345 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -39,6 +39,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+#endif
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..36297a0 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -13,11 +13,19 @@ void shmem_barrier_all(void)
 
 int shmem_team_sync(shmem_team_t team)
 {
+    OSHMPI_team_t *team_obj = NULL;
+
+    if (team == SHMEM_TEAM_INVALID) {
+        return SHMEM_OTHER_ERR;
+    }
+
     if (team == SHMEM_TEAM_WORLD) {
         OSHMPI_sync_all();
-        return SHMEM_SUCCESS;
+    } else {
+        OSHMPI_TEAM_GET_OBJ(team, team_obj);
+        OSHMPI_sync_team(team_obj);
     }
-    return SHMEM_OTHER_ERR;
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From 4e66d11e25646741ea556cda7d47405d0cfede1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 36/41] fix: SHMEM_TEAM_SHARED holds the PEs that share memory

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 4f692c5..0e76caa 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -837,9 +837,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From a4c34a137426339eb8b32482e6282362996d8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 37/41] fix: parsing a list variable leaves the environment of
 the program as it was

---
 src/internal/setup_impl.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 0e76caa..6aac119 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -323,7 +323,7 @@ static void initialize_symm_heap(void)
 static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
 {
     uint32_t ops = 0;
-    char *value, *token, *savePtr = NULL;
+    char *value, *copy, *token, *savePtr = NULL;
 
     value = (char *) str;
     /* str can never be NULL. */
@@ -342,7 +342,11 @@ static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
         return;
     }
 
-    token = (char *) strtok_r(value, ",", &savePtr);
+    /* tokenize a copy because str belongs to the environment of the program */
+    copy = strdup(value);
+    OSHMPI_ASSERT(copy);
+
+    token = (char *) strtok_r(copy, ",", &savePtr);
     while (token != NULL) {
         /* traverse op list (exclude null and last) and add the op if set */
         if (!strncmp(token, "cswap", strlen("cswap")))
@@ -376,6 +380,7 @@ static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
 
         token = (char *) strtok_r(NULL, ",", &savePtr);
     }
+    free(copy);
 
     /* update info only when any valid value is set */
     if (ops)
@@ -448,7 +453,7 @@ static const char *getstr_env_dbg_mode(OSHMPI_dbg_mode_t dbg_mode)
 static void set_env_mpi_gpu_features(const char *str, uint32_t * features_ptr)
 {
     uint32_t features = 0;
-    char *value, *token, *savePtr = NULL;
+    char *value, *copy, *token, *savePtr = NULL;
 
     value = (char *) str;
     /* str can never be NULL. */
@@ -466,7 +471,11 @@ static void set_env_mpi_gpu_features(const char *str, uint32_t * features_ptr)
         return;
     }
 
-    token = (char *) strtok_r(value, ",", &savePtr);
+    /* tokenize a copy because str belongs to the environment of the program */
+    copy = strdup(value);
+    OSHMPI_ASSERT(copy);
+
+    token = (char *) strtok_r(copy, ",", &savePtr);
     while (token != NULL) {
         if (!strncmp(token, "pt2pt", strlen("pt2pt")))
             features |= OSHMPI_SET_MPI_GPU_FEATURE(OSHMPI_MPI_GPU_PT2PT);
@@ -478,6 +487,7 @@ static void set_env_mpi_gpu_features(const char *str, uint32_t * features_ptr)
             features |= OSHMPI_SET_MPI_GPU_FEATURE(OSHMPI_MPI_GPU_ACCUMULATES);
         token = (char *) strtok_r(NULL, ",", &savePtr);
     }
+    free(copy);
 
     /* update info only when any valid value is set */
     if (features)
-- 
2.43.0


From 96b343d4f55adaa04e62474f6988ab131dc6a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 38/41] fix: a flush of one thread drops the operations another
 thread has issued meanwhile

---
 src/include/oshmpi_impl.h  |  4 ++--
 src/include/oshmpi_util.h  | 18 ++++++++++++++++++
 src/internal/am_impl.c     | 14 +++++++-------
 src/internal/am_impl.h     | 20 ++++++++++++--------
 src/internal/am_pre.h      | 11 ++++++-----
 src/internal/amo_am_impl.h | 12 +++++++-----
 src/internal/order_impl.h  | 20 ++++++++++----------
 src/internal/rma_am_impl.h | 14 ++++++++------
 src/internal/setup_impl.c  |  6 +++---
 src/internal/space_impl.c  |  4 ++--
 10 files changed, 75 insertions(+), 48 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 31b22d2..43e0043 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -130,7 +130,7 @@ typedef enum {
 
 typedef struct OSHMPI_ictx {
     MPI_Win win;
-    OSHMPIU_atomic_flag_t outstanding_op;
+    OSHMPIU_op_tracker_t outstanding_op;
 #if defined(OSHMPI_ENABLE_DYNAMIC_WIN)
     OSHMPI_disp_mode_t disp_mode;
 #endif
@@ -824,7 +824,7 @@ enum {
 #ifdef OSHMPI_ENABLE_OP_TRACKING
 #define OSHMPI_SET_OUTSTANDING_OP(ctx, completion) do {       \
         if (completion == OSHMPI_OP_COMPLETED) break;         \
-        OSHMPIU_ATOMIC_FLAG_STORE(ctx->outstanding_op, 1);    \
+        OSHMPIU_OP_TRACKER_ISSUE(ctx->outstanding_op);        \
         } while (0)
 #else
 #define OSHMPI_SET_OUTSTANDING_OP(ctx, completion) do {} while (0)
diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 91ad23a..5170c78 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -267,6 +267,24 @@ typedef unsigned int OSHMPIU_atomic_cnt_t;
 #define OSHMPIU_ATOMIC_CNT_FINC(cnt) OSHMPIU_single_thread_finc_int(&(cnt))
 #endif
 
+/* Tracks outstanding operations. An operation is counted after it has been issued. The
+ * thread that completes operations (e.g., by a flush) can account only for those counted
+ * before it started, because another thread may issue operations concurrently. */
+typedef struct OSHMPIU_op_tracker {
+    OSHMPIU_atomic_cnt_t nissued;
+    OSHMPIU_atomic_cnt_t ncompleted;
+} OSHMPIU_op_tracker_t;
+
+#define OSHMPIU_OP_TRACKER_INIT(tracker) do {                   \
+        OSHMPIU_ATOMIC_CNT_STORE((tracker).nissued, 0);         \
+        OSHMPIU_ATOMIC_CNT_STORE((tracker).ncompleted, 0);      \
+    } while (0)
+#define OSHMPIU_OP_TRACKER_ISSUE(tracker) OSHMPIU_ATOMIC_CNT_INCR((tracker).nissued)
+#define OSHMPIU_OP_TRACKER_ISSUED(tracker) ((int) OSHMPIU_ATOMIC_CNT_LOAD((tracker).nissued))
+#define OSHMPIU_OP_TRACKER_COMPLETE(tracker, issued) OSHMPIU_ATOMIC_CNT_STORE((tracker).ncompleted, issued)
+#define OSHMPIU_OP_TRACKER_OUTSTANDING(tracker, issued) \
+    ((issued) != (int) OSHMPIU_ATOMIC_CNT_LOAD((tracker).ncompleted))
+
 /* ======================================================================
  * GPU helper functions
  * ====================================================================== */
diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index e3b35a8..3a73f90 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -196,12 +196,12 @@ void OSHMPI_am_initialize(void)
     OSHMPI_CALLMPI(MPI_Comm_dup(OSHMPI_global.team_world_comm, &OSHMPI_am.comm));
     OSHMPI_CALLMPI(MPI_Comm_dup(OSHMPI_global.team_world_comm, &OSHMPI_am.ack_comm));
 
-    /* Per PE flag indicating outstanding AM AMOs. */
-    OSHMPI_am.outstanding_op_flags =
-        OSHMPIU_malloc(sizeof(OSHMPIU_atomic_flag_t) * OSHMPI_global.team_world_n_pes);
-    OSHMPI_ASSERT(OSHMPI_am.outstanding_op_flags);
-    memset(OSHMPI_am.outstanding_op_flags, 0,
-           sizeof(OSHMPIU_atomic_flag_t) * OSHMPI_global.team_world_n_pes);
+    /* Per PE tracker of outstanding AM AMOs. */
+    OSHMPI_am.outstanding_ops =
+        OSHMPIU_malloc(sizeof(OSHMPIU_op_tracker_t) * OSHMPI_global.team_world_n_pes);
+    OSHMPI_ASSERT(OSHMPI_am.outstanding_ops);
+    memset(OSHMPI_am.outstanding_ops, 0,
+           sizeof(OSHMPIU_op_tracker_t) * OSHMPI_global.team_world_n_pes);
 
     /* Global datatype table used for index translation */
     OSHMPI_am.datatypes_table = OSHMPIU_malloc(sizeof(MPI_Datatype) * OSHMPI_AM_MPI_DATATYPE_MAX);
@@ -279,7 +279,7 @@ void OSHMPI_am_finalize(void)
 
     OSHMPI_CALLMPI(MPI_Comm_free(&OSHMPI_am.comm));
     OSHMPI_CALLMPI(MPI_Comm_free(&OSHMPI_am.ack_comm));
-    OSHMPIU_free(OSHMPI_am.outstanding_op_flags);
+    OSHMPIU_free(OSHMPI_am.outstanding_ops);
     OSHMPIU_free(OSHMPI_am.datatypes_table);
     OSHMPIU_free(OSHMPI_am.ops_table);
 }
diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index d447939..827b27a 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -28,6 +28,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
     OSHMPI_am_flush_pkt_t *flush_pkt = &pkt.flush;
     int pe, nreqs = 0, noutstanding_pes = 0, i;
     MPI_Request *reqs = NULL;
+    int *issued = NULL;
     const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
 
     /* No AM flush is needed if direct AMO is enabled and
@@ -37,7 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
 
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe]))
+        if (OSHMPIU_OP_TRACKER_OUTSTANDING(OSHMPI_am.outstanding_ops[pe],
+                                           OSHMPIU_OP_TRACKER_ISSUED(OSHMPI_am.outstanding_ops[pe])))
             noutstanding_pes++;
     }
 
@@ -46,16 +48,19 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
         return;
 
     /* Issue a flush synchronization to remote PEs.
-     * Threaded: the flag might be concurrently updated by another thread,
+     * Threaded: another thread might concurrently issue operations,
      * thus we always allocate reqs for all PEs in the active set.*/
     reqs = OSHMPIU_malloc(sizeof(MPI_Request) * PE_size * 2);
     OSHMPI_ASSERT(reqs);
+    issued = OSHMPIU_malloc(sizeof(int) * PE_size);
+    OSHMPI_ASSERT(issued);
     pkt.type = OSHMPI_AM_PKT_FLUSH;
     flush_pkt->ptag = OSHMPI_am_get_pkt_ptag();
 
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe])) {
+        issued[i] = OSHMPIU_OP_TRACKER_ISSUED(OSHMPI_am.outstanding_ops[pe]);
+        if (OSHMPIU_OP_TRACKER_OUTSTANDING(OSHMPI_am.outstanding_ops[pe], issued[i])) {
             OSHMPI_CALLMPI(MPI_Isend
                            (&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,
                             OSHMPI_am.comm, &reqs[nreqs++]));
@@ -70,14 +75,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
     OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);
     OSHMPIU_free(reqs);
 
-    /* Reset all flags
-     * Threaded: the flag might be concurrently updated by another thread,
-     * however, the user must use additional thread sync to ensure a flush
-     * completes the specific AMO. */
+    /* Threaded: an operation issued by another thread after the flush packet was sent
+     * is not covered, and must remain outstanding. */
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+        OSHMPIU_OP_TRACKER_COMPLETE(OSHMPI_am.outstanding_ops[pe], issued[i]);
     }
+    OSHMPIU_free(issued);
 }
 
 /* Issue a flush synchronization to ensure completion of all outstanding AMOs to remote PEs.
diff --git a/src/internal/am_pre.h b/src/internal/am_pre.h
index f9e0536..9d1c03c 100644
--- a/src/internal/am_pre.h
+++ b/src/internal/am_pre.h
@@ -153,11 +153,12 @@ typedef struct OSHMPI_am_global {
     volatile int async_thread_done;
     pthread_t async_thread;
 #endif
-    OSHMPIU_atomic_flag_t *outstanding_op_flags;        /* flag indicating whether outstanding AM
-                                                         * based AMO or RMA exists. When a post AMO (nonblocking)
-                                                         * has been issued, this flag becomes 1; when
-                                                         * a flush or fetch/cswap AMO issued, reset to 0;
-                                                         * We only need flush a remote PE when flag is 1.*/
+    OSHMPIU_op_tracker_t *outstanding_ops;      /* Per PE tracker indicating whether outstanding AM
+                                                 * based AMO or RMA exists. A post AMO (nonblocking)
+                                                 * or PUT is counted once it has been issued; a flush,
+                                                 * fetch/cswap AMO or GET completes those counted
+                                                 * before it was issued. We only need flush a remote
+                                                 * PE with outstanding ones. */
     MPI_Request cb_req;
     OSHMPI_am_pkt_t cb_pkt;     /* Temporary pkt for receiving incoming active message. */
     MPI_Datatype *datatypes_table;
diff --git a/src/internal/amo_am_impl.h b/src/internal/amo_am_impl.h
index 25834a9..1c7343b 100644
--- a/src/internal/amo_am_impl.h
+++ b/src/internal/amo_am_impl.h
@@ -19,6 +19,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_cswap(OSHMPI_ictx_t * ictx,
     OSHMPI_am_pkt_t pkt;
     OSHMPI_am_cswap_pkt_t *cswap_pkt = &pkt.cswap;
     MPI_Request reqs[2];
+    int issued = OSHMPIU_OP_TRACKER_ISSUED(OSHMPI_am.outstanding_ops[pe]);
 
     pkt.type = OSHMPI_AM_PKT_CSWAP;
     memcpy(&cswap_pkt->cond, cond_ptr, bytes);
@@ -43,9 +44,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_cswap(OSHMPI_ictx_t * ictx,
          pkt.type, cswap_pkt->sobj_handle, pe, mpi_type_idx, dest, cswap_pkt->target_disp,
          cswap_pkt->ptag);
 
-    /* Reset flag since remote PE should have finished previous post
+    /* Previous ones are completed since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPIU_OP_TRACKER_COMPLETE(OSHMPI_am.outstanding_ops[pe], issued);
 }
 
 /* Issue a fetch (with op) operation. Blocking wait until return of old value. */
@@ -60,6 +61,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_fetch(OSHMPI_ictx_t * ictx,
     OSHMPI_am_pkt_t pkt;
     OSHMPI_am_fetch_pkt_t *fetch_pkt = &pkt.fetch;
     MPI_Request reqs[2];
+    int issued = OSHMPIU_OP_TRACKER_ISSUED(OSHMPI_am.outstanding_ops[pe]);
 
     pkt.type = OSHMPI_AM_PKT_FETCH;
     fetch_pkt->mpi_type_idx = mpi_type_idx;
@@ -86,9 +88,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_fetch(OSHMPI_ictx_t * ictx,
          pkt.type, fetch_pkt->sobj_handle, pe, mpi_type_idx, op_idx, dest, fetch_pkt->target_disp,
          fetch_pkt->ptag);
 
-    /* Reset flag since remote PE should have finished previous post
+    /* Previous ones are completed since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPIU_OP_TRACKER_COMPLETE(OSHMPI_am.outstanding_ops[pe], issued);
 }
 
 /* Issue a post operation. Return immediately after sent AMO packet */
@@ -121,7 +123,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_post(OSHMPI_ictx_t * ictx,
          pkt.type, post_pkt->sobj_handle, pe, mpi_type_idx, op_idx, dest, post_pkt->target_disp);
 
     /* Indicate outstanding AMO */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);
+    OSHMPIU_OP_TRACKER_ISSUE(OSHMPI_am.outstanding_ops[pe]);
 }
 
 #endif /* INTERNAL_AMO_AM_IMPL_H */
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 31133ad..4bbcdaa 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -9,27 +9,27 @@
 #include "oshmpi_impl.h"
 
 #ifdef OSHMPI_ENABLE_OP_TRACKING
-#define CHECK_FLAG(flag) OSHMPIU_ATOMIC_FLAG_LOAD(flag)
+#define CHECK_OUTSTANDING(tracker, issued) OSHMPIU_OP_TRACKER_OUTSTANDING(tracker, issued)
+#define SET_COMPLETED(tracker, issued) OSHMPIU_OP_TRACKER_COMPLETE(tracker, issued)
 #else
-#define CHECK_FLAG(flag) (1)
-#endif
-
-#ifdef OSHMPI_ENABLE_OP_TRACKING
-#define RESET_FLAG(flag) do {OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);} while (0)
-#else
-#define RESET_FLAG(flag) do {} while (0)
+#define CHECK_OUTSTANDING(tracker, issued) (1)
+#define SET_COMPLETED(tracker, issued) do {} while (0)
 #endif
 
 OSHMPI_STATIC_INLINE_PREFIX void ctx_flush_impl(OSHMPI_ictx_t * ictx)
 {
-    if (CHECK_FLAG(ictx->outstanding_op)) {
+    /* Threaded: an operation issued by another thread after this point might not be covered
+     * by the flush, and must remain outstanding. */
+    int issued OSHMPI_ATTRIBUTE((unused)) = OSHMPIU_OP_TRACKER_ISSUED(ictx->outstanding_op);
+
+    if (CHECK_OUTSTANDING(ictx->outstanding_op, issued)) {
         /* Ensure ordered delivery of all outstanding Put, AMO, and nonblocking Put */
         OSHMPI_FORCEINLINE()
             OSHMPI_CALLMPI(MPI_Win_flush_all(ictx->win));
         /* Ensure ordered delivery of memory store */
         OSHMPI_FORCEINLINE()
             OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
-        RESET_FLAG(ictx->outstanding_op);
+        SET_COMPLETED(ictx->outstanding_op, issued);
     }
 }
 
diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index 4089087..e03297d 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -41,7 +41,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_put(OSHMPI_ictx_t * ictx,
          put_pkt->ptag);
 
     /* Indicate outstanding AM */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);
+    OSHMPIU_OP_TRACKER_ISSUE(OSHMPI_am.outstanding_ops[pe]);
 }
 
 /* Issue a GET operation. Return after receiving return value. */
@@ -54,6 +54,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
     OSHMPI_am_pkt_t pkt;
     OSHMPI_am_get_pkt_t *get_pkt = &pkt.get;
     MPI_Request reqs[2];
+    int issued = OSHMPIU_OP_TRACKER_ISSUED(OSHMPI_am.outstanding_ops[pe]);
 
     pkt.type = OSHMPI_AM_PKT_GET;
     get_pkt->bytes = typesz * nelems;
@@ -75,9 +76,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
          pkt.type, get_pkt->sobj_handle, pe, get_pkt->bytes, target_addr, get_pkt->target_disp,
          get_pkt->ptag);
 
-    /* Reset flag since remote PE should have finished previous put
+    /* Previous ones are completed since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPIU_OP_TRACKER_COMPLETE(OSHMPI_am.outstanding_ops[pe], issued);
 }
 
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
@@ -122,7 +123,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iput(OSHMPI_ictx_t * ictx,
                   target_addr, iput_pkt->target_disp, iput_pkt->ptag);
 
     /* Indicate outstanding AM */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);
+    OSHMPIU_OP_TRACKER_ISSUE(OSHMPI_am.outstanding_ops[pe]);
     OSHMPI_free_strided_dtype(mpi_type, &origin_type);
 }
 
@@ -138,6 +139,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iget(OSHMPI_ictx_t * ictx,
     OSHMPI_am_pkt_t pkt;
     OSHMPI_am_iget_pkt_t *iget_pkt = &pkt.iget;
     MPI_Request reqs[2];
+    int issued = OSHMPIU_OP_TRACKER_ISSUED(OSHMPI_am.outstanding_ops[pe]);
 
     pkt.type = OSHMPI_AM_PKT_IGET;
     iget_pkt->mpi_type_idx = mpi_type_idx;
@@ -167,9 +169,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iget(OSHMPI_ictx_t * ictx,
                   pkt.type, iget_pkt->sobj_handle, pe, mpi_type_idx, origin_st, target_st, nelems,
                   target_addr, iget_pkt->target_disp, iget_pkt->ptag);
 
-    /* Reset flag since remote PE should have finished previous put
+    /* Previous ones are completed since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPIU_OP_TRACKER_COMPLETE(OSHMPI_am.outstanding_ops[pe], issued);
     OSHMPI_free_strided_dtype(mpi_type, &origin_type);
 }
 
diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 6aac119..86b9f82 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -141,7 +141,7 @@ static void initialize_symm_win()
     MPI_Info info = MPI_INFO_NULL;
     OSHMPI_global.symm_ictx.win = MPI_WIN_NULL;
     OSHMPI_global.symm_ictx.disp_mode = OSHMPI_ABS_DISP;
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_global.symm_ictx.outstanding_op, 0);
+    OSHMPIU_OP_TRACKER_INIT(OSHMPI_global.symm_ictx.outstanding_op);
 
     OSHMPI_CALLMPI(MPI_Info_create(&info));
 
@@ -234,7 +234,7 @@ static void initialize_symm_text(void)
 {
     MPI_Info info = MPI_INFO_NULL;
     OSHMPI_global.symm_data_ictx.win = MPI_WIN_NULL;
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_global.symm_data_ictx.outstanding_op, 0);
+    OSHMPIU_OP_TRACKER_INIT(OSHMPI_global.symm_data_ictx.outstanding_op);
 
     void *base = OSHMPI_DATA_START;
     MPI_Aint size = (MPI_Aint) OSHMPI_DATA_SIZE;
@@ -273,7 +273,7 @@ static void initialize_symm_heap(void)
 
     OSHMPI_global.symm_heap_mspace = NULL;
     OSHMPI_global.symm_heap_ictx.win = MPI_WIN_NULL;
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_global.symm_heap_ictx.outstanding_op, 0);
+    OSHMPIU_OP_TRACKER_INIT(OSHMPI_global.symm_heap_ictx.outstanding_op);
 
     /* Ensure extra bookkeeping space in MSPACE */
     size = OSHMPI_ALIGN(OSHMPI_env.symm_heap_size, OSHMPI_global.page_sz);
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index cd55c3f..b54d2a3 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -19,7 +19,7 @@ static void space_ictx_create(void *base, MPI_Aint size, MPI_Info info, OSHMPI_i
     OSHMPI_CALLMPI(MPI_Win_create(base, size, 1 /* disp_unit */ , info,
                                   OSHMPI_global.team_world_comm, &ictx->win));
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, ictx->win));
-    OSHMPIU_ATOMIC_FLAG_STORE(ictx->outstanding_op, 0);
+    OSHMPIU_OP_TRACKER_INIT(ictx->outstanding_op);
     OSHMPI_ICTX_SET_DISP_MODE(ictx, OSHMPI_RELATIVE_DISP);
 }
 
@@ -208,7 +208,7 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     space->config = space_config;
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
     space->default_ictx.win = MPI_WIN_NULL;
-    OSHMPIU_ATOMIC_FLAG_STORE(space->default_ictx.outstanding_op, 0);
+    OSHMPIU_OP_TRACKER_INIT(space->default_ictx.outstanding_op);
 #endif
 
     char space_hints[64];
-- 
2.43.0


From 11e363398463ee97ec9ea3acaaabef0c20d0fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 39/41] fix: asynchronous progress thread signals a condition
 variable that finalize has destroyed

---
 src/internal/am_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 3a73f90..40eb27d 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -77,8 +77,9 @@ static void *am_cb_async_progress(void *arg OSHMPI_ATTRIBUTE((unused)))
   terminate:
     OSHMPI_CALLPTHREAD(pthread_mutex_lock(&OSHMPI_am.async_mutex));
     OSHMPI_am.async_thread_done = 1;
-    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
+    /* Signal with the mutex held, the main thread destroys both afterwards. */
     OSHMPI_CALLPTHREAD(pthread_cond_signal(&OSHMPI_am.async_cond));
+    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
 
     return NULL;
 }
-- 
2.43.0


From e0cf0694eb0b401417db971f5ca81b6d761ad81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 40/41] fix: a space is visible to other threads before its
 windows are created and after they are freed

---
 src/internal/space_impl.c | 62 +++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index b54d2a3..676945c 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -199,11 +199,6 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPI_sobj_init_attr(&space->sobj_attr, space_config.memkind, base, size);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
 
-    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
-    LL_APPEND(OSHMPI_global.space_list.head, space);
-    OSHMPI_global.space_list.nspaces++;
-    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-
     space->ctx_list = NULL;
     space->config = space_config;
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -211,6 +206,12 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPIU_OP_TRACKER_INIT(space->default_ictx.outstanding_op);
 #endif
 
+    /* Another thread might access any space in the list */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_APPEND(OSHMPI_global.space_list.head, space);
+    OSHMPI_global.space_list.nspaces++;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     char space_hints[64];
     space_hints_str(space->config.hints, space_hints, 64);
 
@@ -278,6 +279,10 @@ static int space_attach_idx = 0;
 void OSHMPI_space_attach(OSHMPI_space_t * space)
 {
     MPI_Info info = MPI_INFO_NULL;
+    OSHMPI_ctx_t *ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_ictx_t default_ictx;
+#endif
 
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
@@ -307,60 +312,81 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     OSHMPI_DBGMSG("attach space %p, default ctx: attach to symm_ictx\n", space);
 #else
     space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size, info,
-                      &space->default_ictx);
+                      &default_ictx);
     OSHMPI_DBGMSG("attach space %p, default ctx: new ictx.win 0x%" PRIx64 "\n", space,
-                  (uint64_t) space->default_ictx.win);
+                  (uint64_t) default_ictx.win);
 #endif
     OSHMPI_sobj_symm_info_dbgprint(&space->sobj_attr);
 
     /* TODO: assume all processes have the same config */
     /* Create explicit-context windows */
     if (space->config.num_contexts > 0) {
-        space->ctx_list =
+        ctx_list =
             (OSHMPI_ctx_t *) OSHMPIU_malloc(sizeof(OSHMPI_ctx_t) * space->config.num_contexts);
         int i;
         for (i = 0; i < space->config.num_contexts; i++) {
             space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size,
-                              info, &space->ctx_list[i].ictx);
+                              info, &ctx_list[i].ictx);
 
             /* copy into context to avoid pointer dereference in RMA/AMO path */
-            space->ctx_list[i].sobj_attr = space->sobj_attr;
-            OSHMPIU_ATOMIC_FLAG_STORE(space->ctx_list[i].used_flag, 0);
+            ctx_list[i].sobj_attr = space->sobj_attr;
+            OSHMPIU_ATOMIC_FLAG_STORE(ctx_list[i].used_flag, 0);
 
             OSHMPI_DBGMSG("attach space %p, private ctx[%d]: new ictx.win 0x%" PRIx64 "\n",
-                          space, i, (uint64_t) space->ctx_list[i].ictx.win);
+                          space, i, (uint64_t) ctx_list[i].ictx.win);
         }
     }
 
     OSHMPI_CALLMPI(MPI_Info_free(&info));
+
+    /* Another thread might be flushing all spaces, it must find only usable windows */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    space->ctx_list = ctx_list;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    space->default_ictx = default_ictx;
+#endif
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
 }
 
 /* Collectively detach the space from the default team */
 void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
+    OSHMPI_ctx_t *ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_ictx_t default_ictx;
+#endif
 
     /* Complete all updates to the space, and serve PEs that have not arrived
      * yet; the MPI calls below do not */
     OSHMPI_barrier_all();
 
+    /* Another thread might be flushing all spaces, hide the windows before they are freed */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    ctx_list = space->ctx_list;
+    space->ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    default_ictx = space->default_ictx;
+    space->default_ictx.win = MPI_WIN_NULL;
+#endif
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-    space_ictx_destroy(&space->default_ictx);
+    space_ictx_destroy(&default_ictx);
 #endif
 
     /* Space should have already be attached or no context is required at config */
-    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));
+    OSHMPI_ASSERT((space->config.num_contexts == 0 || ctx_list));
 
     /* Destroy explicit-context windows */
     for (i = 0; i < space->config.num_contexts; i++) {
-        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(space->ctx_list[i].used_flag) == 0);
-        space_ictx_destroy(&space->ctx_list[i].ictx);
+        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(ctx_list[i].used_flag) == 0);
+        space_ictx_destroy(&ctx_list[i].ictx);
     }
-    OSHMPIU_free(space->ctx_list);
-    space->ctx_list = NULL;
+    OSHMPIU_free(ctx_list);
 
     OSHMPI_sobj_destroy_attr(&space->sobj_attr);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
-- 
2.43.0


From 8b4bea8fbaf02735ba5fbfdd6ba9a0f311641420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 41/41] fix: strided transfers truncate the stride to int

---
 src/internal/strided_impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/internal/strided_impl.h b/src/internal/strided_impl.h
index 3dc4926..00472b5 100644
--- a/src/internal/strided_impl.h
+++ b/src/internal/strided_impl.h
@@ -143,7 +143,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_create_strided_dtype(size_t nelems, ptrd
     MPI_Aint lb, extent;
     int typesize;
 
-    OSHMPI_CALLMPI(MPI_Type_vector((int) nelems, 1, (int) stride, mpi_type, &vtype));
+    /* The stride may exceed the int limit, thus it is given in bytes. */
+    OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+    OSHMPI_CALLMPI(MPI_Type_create_hvector((int) nelems, 1, (MPI_Aint) stride * extent,
+                                           mpi_type, &vtype));
 
     /* Vector does not count stride after last chunk, thus we need to resize to
      * cover it when multiple elements with the stride_datatype may be used (i.e., alltoalls).
@@ -157,7 +160,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_create_strided_dtype(size_t nelems, ptrd
         else if (mpi_type == OSHMPI_MPI_COLL64_T)
             elem_bytes = 8;
         else {
-            OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
             OSHMPI_ASSERT(lb == 0);
             OSHMPI_CALLMPI(MPI_Type_size(mpi_type, &typesize));
             OSHMPI_ASSERT(extent == typesize);
-- 
2.43.0

