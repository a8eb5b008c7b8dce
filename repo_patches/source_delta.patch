From e8985cd641f745c06470c07a88852659c28556ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 01/29] fix: hash tables delete only the matching node, not
 also the head of its bucket

Deleting the second node of a bucket left prev == top, so the bucket head was
replaced by the successor of the deleted node and the first key was lost.
---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..dab189a 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..6789356 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From 64e99d2b57308b6455f2c0340fce08e67c231868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 02/29] fix: negative keys map to a valid bucket of the hash
 tables

The remainder of a negative key is negative and indexed cells[] and synch[]
before their first element.
---
 libconcurrent/concurrent/clhhash.c | 4 +++-
 libconcurrent/concurrent/dsmhash.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index dab189a..ba1ab50 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,9 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return cell < 0 ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 6789356..64804a6 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,9 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return cell < 0 ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From e91e4aec31816f7ef185ede918c3666a1465e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 03/29] fix: inserting an existing key updates its value, as
 the hash headers document

---
 libconcurrent/concurrent/clhhash.c | 3 ++-
 libconcurrent/concurrent/dsmhash.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index ba1ab50..9129ed4 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -60,7 +60,8 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             arg.node->value = value;
             arg.node->next = top;
             cells[arg.cell].ptr = arg.node;
-        }
+        } else
+            cur->value = value;
         return true;
     } else if (arg.op == HT_DELETE) {
         bool found = false;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 64804a6..44564ad 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -63,7 +63,8 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             arg.node->value = value;
             arg.node->next = top;
             cells[arg.cell].ptr = arg.node;
-        }
+        } else
+            cur->value = value;
         return true;
     } else if (arg.op == HT_DELETE) {
         bool found = false;
-- 
2.43.0


From 6b79c6fcfa0c212defc1a0b211457ebf334d1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 04/29] fix: CLHHash searches and deletions do not consume a
 pool node each

---
 libconcurrent/concurrent/clhhash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index 9129ed4..f10ce19 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -124,7 +124,7 @@ inline RetVal CLHHashSearch(CLHHash *hash, CLHHashThreadState *th_state, int64_t
     args.key = key;
     args.value = INT_MIN;
     args.cell = hash_func(hash, key);
-    args.node = synchAllocObj(&th_state->pool);
+    args.node = NULL;
     hash->announce[pid] = args;
 
     CLHLock(hash->synch[args.cell], pid);
@@ -141,7 +141,7 @@ inline void CLHHashDelete(CLHHash *hash, CLHHashThreadState *th_state, int64_t k
     args.key = key;
     args.value = INT_MIN;
     args.cell = hash_func(hash, key);
-    args.node = synchAllocObj(&th_state->pool);
+    args.node = NULL;
     hash->announce[pid] = args;
 
     CLHLock(hash->synch[args.cell], pid);
-- 
2.43.0


From 0970d76f7fa2110434a11baa42ea6b2d3fb0b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 05/29] fix: FCQueueApplyEnqueue enqueues its argument instead
 of the caller's pid

---
 libconcurrent/concurrent/fcqueue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..ab52eb5 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -50,7 +50,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From c96b9af53ea872a0780793a6590a730f0214ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 06/29] fix: FCQueue dequeues return the oldest element instead
 of the previous dummy's value

The first dequeue returned the guard's INT_MIN and every later one the element
its predecessor had removed; an empty queue answered -1, which is a valid
element, instead of EMPTY_QUEUE; removed nodes were never recycled.
---
 libconcurrent/concurrent/fcqueue.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index ab52eb5..35d2310 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -7,13 +7,12 @@
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid);
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 
-static const int GUARD = INT_MIN;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCQueueStructInit(FCQueueStruct *queue_object_struct, uint32_t nthreads) {
     FCStructInit(&queue_object_struct->enqueue_struct, nthreads);
     FCStructInit(&queue_object_struct->dequeue_struct, nthreads);
-    queue_object_struct->guard.val = GUARD;
+    queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
     queue_object_struct->last = &queue_object_struct->guard;
@@ -32,6 +31,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     return -1;
@@ -39,13 +39,17 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
-    Node *node = (Node *)st->first;
+    Node *prev = (Node *)st->first;
     
-    if (st->first->next != NULL){
-        st->first = st->first->next;
-        return node->val;
+    if (prev->next != NULL){
+        RetVal ret = prev->next->val;
+
+        st->first = prev->next;
+        synchNonTSOFence();
+        synchRecycleObj(&pool_node, prev);
+        return ret;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
-- 
2.43.0


From 8b9e9a8c843cf31b28ee5d25c48701184d14cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 07/29] fix: FCStack pops on an empty stack return EMPTY_STACK,
 and popped nodes are recycled

-1 is a valid element. README.md lists FC-Stack as supporting reclamation.
---
 libconcurrent/concurrent/fcstack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..ab41590 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -24,9 +24,12 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         volatile Node *node = st->top;
 
         if (st->top != NULL) {
+            RetVal ret = node->val;
             st->top = st->top->next;
-            return node->val;
-        } else return -1;
+            synchNonTSOFence();
+            synchRecycleObj(&pool_node, (void *)node);
+            return ret;
+        } else return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
-- 
2.43.0


From cd09ad1bf87a8a7f61b11924dc3df25444c0fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 08/29] fix: flat combining applies each request with the pid
 of the thread that announced it

---
 libconcurrent/concurrent/fc.c | 3 ++-
 libconcurrent/includes/fc.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..62ed39a 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -53,6 +53,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
 
     request = st_thread->node;
     request->val = arg;
+    request->pid = pid;
     synchNonTSOFence();
     request->pending = true;
     synchStoreFence();
@@ -82,7 +83,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                cur->val = sfunc(state, cur->val, cur->pid);
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
diff --git a/libconcurrent/includes/fc.h b/libconcurrent/includes/fc.h
index 5386c08..87b3be9 100644
--- a/libconcurrent/includes/fc.h
+++ b/libconcurrent/includes/fc.h
@@ -25,6 +25,7 @@ typedef struct HalfFCRequest {
     volatile struct FCRequest *next;
     volatile ArgVal val;
     volatile int age;
+    volatile int32_t pid;
     volatile bool active;
     volatile bool pending;
 } HalfFCRequest;
@@ -36,6 +37,8 @@ typedef struct FCRequest {
     volatile ArgVal val;
     /// @brief The age of the current announcement record.
     volatile int age;
+    /// @brief The pid of the thread that announced the request.
+    volatile int32_t pid;
     /// @brief If the request is active or not.
     volatile bool active;
     /// @brief If the request is pending or not.
-- 
2.43.0


From e3897e0cc0ebc9a83546fcea8916c574f337907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 09/29] fix: copying a SimQueue dequeue state keeps the copy's
 own array of return values

The copied range started before the 'ret' pointer, so after the first copies
all states shared one array of return values (a failed attempt overwrote the
published answers) and the last thread's answer was not copied.
---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..5dc7cf3 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From 5511253ef0699e05b8232603ac3c712a97b8341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 10/29] fix: pushing INT_MIN to the combining stacks is not
 taken for a pop

The marker of a pop is now the reserved GUARD_VALUE, as in SimStack.
---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index ab41590..0b19340 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..08e06d6 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 274dec68166d0433a8fd05f0c4c23ebdc8c184ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 11/29] fix: LCRQ does not lose elements with value -1

-1 marked an empty cell, so an enqueued -1 was never seen by a dequeue. Empty
cells are now marked with the framework's reserved GUARD_VALUE.
---
 libconcurrent/concurrent/lcrq.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/lcrq.c b/libconcurrent/concurrent/lcrq.c
index 710b728..f51b57f 100644
--- a/libconcurrent/concurrent/lcrq.c
+++ b/libconcurrent/concurrent/lcrq.c
@@ -70,7 +70,7 @@ inline static void init_ring(RingQueue *r) {
     int i;
 
     for (i = 0; i < RING_SIZE; i++) {
-        r->array[i].val = -1;
+        r->array[i].val = GUARD_VALUE;
         r->array[i].idx = i;
     }
 
@@ -79,7 +79,7 @@ inline static void init_ring(RingQueue *r) {
 }
 
 inline static int is_empty(uint64_t v)  {
-    return (v == (uint64_t)-1);
+    return (v == (uint64_t)GUARD_VALUE);
 }
 
 inline static uint64_t node_index(uint64_t i) {
@@ -183,7 +183,7 @@ alloc:
 
         if (synchLikely(is_empty(val))) {
             if (synchLikely(node_index(idx) <= t)) {
-                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, -1, idx, arg, t)) {
+                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, GUARD_VALUE, idx, arg, t)) {
                     return;
                 }
             }
@@ -226,7 +226,7 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
 
             if (synchLikely(!is_empty(val))) {
                 if (synchLikely(idx == h)) {
-                    if (synchCAS128((uint64_t *)cell, val, cell_idx, -1, (unsafe | h) + RING_SIZE)) return val;
+                    if (synchCAS128((uint64_t *)cell, val, cell_idx, GUARD_VALUE, (unsafe | h) + RING_SIZE)) return val;
                 } else {
                     if (synchCAS128((uint64_t *)cell, val, cell_idx, val, set_unsafe(idx))) {
                         count_unsafe_node(thread_state);
-- 
2.43.0


From 8c5e5d982ff065f068d665675ee2f8e683c3c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 12/29] fix: HSynch threads stay inside the lists and nodes of
 their own instance

node_of_thread came from the topology of the machine or from the preferred core
and could exceed numa_nodes (e.g. 2 threads pinned to cores 0 and 4 of an 8-core
single-node machine with numa_nodes = 2: Tail[4]). It was also kept in one
variable per posix thread, so that a second instance or fiber redirected the
operations of the first. More threads than numa_node_size + 1 in a node got
nodes past the end of the array, or the node already in use as its tail.
---
 libconcurrent/concurrent/hsynch.c | 14 ++++++++++----
 libconcurrent/includes/hsynch.h   |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..551fa4b 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -10,8 +10,6 @@
 #define HSYNCH_HELP_FACTOR            10
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
-static __thread int node_of_thread = 0;
-
 RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile HSynchNode *p;
     volatile HSynchNode *cur;
@@ -24,7 +22,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
     next_node->locked = true;
     next_node->completed = false;
 
-    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[node_of_thread].ptr, next_node);
+    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[st_thread->node_of_thread].ptr, next_node);
     cur->arg_ret = arg;
     cur->pid = pid;
     cur->next = (HSynchNode *)next_node;
@@ -71,6 +69,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
 void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pid) {
     HSynchNode *last_node = NULL;
     uint32_t node_index = 0;
+    int node_of_thread = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
     if (l->numa_policy) {
@@ -98,6 +97,10 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     node_of_thread = pid / l->numa_node_size;
 #endif
 
+    // The topology of the machine may provide more nodes than those that this instance uses
+    node_of_thread = (uint32_t)node_of_thread % l->numa_nodes;
+    st_thread->node_of_thread = node_of_thread;
+
     if (l->nodes[node_of_thread] == NULL) {
         HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
 
@@ -112,7 +115,10 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
-    st_thread->next_node = l->nodes[node_of_thread] + node_index;
+    if (node_index <= l->numa_node_size)
+        st_thread->next_node = l->nodes[node_of_thread] + node_index;
+    else // more threads than expected run in this node
+        st_thread->next_node = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(HSynchNode));
 #ifdef DEBUG
     fprintf(stderr, "DEBUG: thread_id: %d -- running_core: %d -- running_node: %d -- hsynch_node: %d\n",
             pid, synchGetPreferredCore(), synchGetPreferredNumaNode(), node_of_thread);
diff --git a/libconcurrent/includes/hsynch.h b/libconcurrent/includes/hsynch.h
index 69df39f..964f71a 100644
--- a/libconcurrent/includes/hsynch.h
+++ b/libconcurrent/includes/hsynch.h
@@ -62,6 +62,8 @@ typedef union HSynchNodePtr {
 typedef struct HSynchThreadState {
     /// @brief pointer to an empty request that would be used for announcing future requests.
     HSynchNode *next_node;
+    /// @brief The NUMA node (i.e. the list of announced requests) that the thread uses.
+    uint32_t node_of_thread;
 } HSynchThreadState;
 
 ///  @brief HSynchStruct stores the state of an instance of the a HSynch combining object.
-- 
2.43.0


From c1bcefc6a8c26ecd0a7f3509110ef49f42694bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 13/29] fix: OsciInit sizes its groups with the number of
 fibers per thread it uses

With more fibers per thread than threads, one fiber per thread is used but
current_node[] was allocated for a single group.
---
 libconcurrent/concurrent/osci.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index e56672e..d307a28 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -130,7 +130,7 @@ void OsciInit(OsciStruct *l, uint32_t nthreads, uint32_t fibers_per_thread) {
         l->fibers_per_thread = fibers_per_thread;
     else
         l->fibers_per_thread = 1;
-    l->groups_of_fibers = (nthreads / fibers_per_thread) + (nthreads % fibers_per_thread != 0 ? 1 : 0);
+    l->groups_of_fibers = (nthreads / l->fibers_per_thread) + (nthreads % l->fibers_per_thread != 0 ? 1 : 0);
 #ifdef DEBUG
     l->rounds = l->counter = 0;
 #endif
-- 
2.43.0


From 0e111e76bde55a9f108018f31ec799a29962693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 14/29] fix: Osci queues and stacks allocate a pool for every
 thread id

The pools are indexed by synchGetThreadId(), which is less than nthreads, but
only one per group of fibers was allocated.
---
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..8ba0ee1 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 08e06d6..e27afed 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From 59f6277fb034d24571f3be05566652d0d4c62cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 15/29] fix: aligned memory is checked for allocation failures
 and can be freed

The check for NULL followed the addition of the alignment, so a failed
allocation returned a small non-NULL address, and numa_free of the shifted
address failed, so nothing was ever released.
---
 libconcurrent/primitives/primitives.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..9332cb2 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -159,11 +159,12 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
     void *p;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    // numa_alloc_local returns whole pages, and synchFreeMemory needs the address that it returned
+    size_t padding = align > numa_pagesize() ? align : 0;
+
+    p = numa_alloc_local(size + padding);
+    if (p != NULL && padding != 0)
+        p = (void *)(((unsigned long)p + align - 1) & ~(align - 1));
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From f497019f411a4a3a6e90972bf598489079cc9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 16/29] fix: all the blocks of a pool are reachable and
 released by synchDestroyPool

New blocks were never linked to their predecessor: destroying a pool released
only the first one, and a rollback to an earlier block lost the later ones. The
recycle list of a destroyed pool pointed to released memory.
---
 libconcurrent/primitives/pool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..49d1838 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
@@ -111,4 +112,5 @@ void synchDestroyPool(SynchPoolStruct *pool) {
     }
     pool->head_block = NULL;
     pool->cur_block = NULL;
+    pool->recycle_list = NULL;
 }
-- 
2.43.0


From c7bb56b46163cc2168624484aa22aa480dea579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 17/29] fix: synchBarrierLastLeave waits for both counters

Every thread decrements arrive before leave, so it returned as soon as all
threads had decremented arrive, while some were still to decrement leave.
---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0


From fff48feee2edfc4c61a08b66b82de3ab68d300cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 18/29] fix: the whole stack of every finished fiber is freed

---
 libconcurrent/primitives/uthreads.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..76c8fe0 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -16,6 +16,7 @@ typedef struct FiberData {
 } FiberData;
 
 inline static void switch_to_fiber(Fiber *prev, Fiber *cur);
+inline static void free_finished_stack(void);
 inline static void fiber_start_func(FiberData *context);
 
 static volatile __thread int N_FIBERS = 1;
@@ -42,6 +43,14 @@ inline static void switch_to_fiber(Fiber *prev, Fiber *cur) {
     }
 }
 
+// The stack of a fiber that finished is freed by the fiber that runs next
+inline static void free_finished_stack(void) {
+    if (FIBER_RECYCLE != NULL) {
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
+        FIBER_RECYCLE = NULL;
+    }
+}
+
 void synchFiberYield(void) {
     int prev_fiber;
 
@@ -53,10 +62,7 @@ void synchFiberYield(void) {
         currentFiber = (currentFiber + 1) % MAX_FIBERS;
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
-    if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
-        FIBER_RECYCLE = NULL;
-    }
+    free_finished_stack();
 }
 
 static void fiber_start_func(FiberData *context) {
@@ -70,6 +76,7 @@ static void fiber_start_func(FiberData *context) {
     if (_setjmp(*(context->cur)) == 0)
         swapcontext(&tmp, context->prev);
 
+    free_finished_stack();
     func((void *)arg); // Execute fiber with function func
     if (N_FIBERS == 1) // This check is not useful, since
         return;        // main thread never calls fiber_start_func
-- 
2.43.0


From 4b450e4ede12feae5369c437f32a6660acbccf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 19/29] fix: a new fiber never takes the slot of a running
 fiber

---
 libconcurrent/primitives/uthreads.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index 76c8fe0..fb0986e 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -93,23 +93,26 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot = 1;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
+    while (FIBER_LIST[slot].active) // the slot of a finished fiber may be before the active ones
+        slot++;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From c5fb42001fd2c2c8878c7c1e8308d3e20c8310ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 20/29] fix: every call of synchStartThreadsN selects its own
 way of rescheduling

---
 libconcurrent/primitives/threadtools.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..34f859e 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -211,6 +211,7 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         __uthreads = uthreads;
         __uthread_sched = true;
         __system_oversubscription = true;
+        __noop_resched = false;
         synchBarrierSet(&bar, nthreads / uthreads + 1);
         for (i = 0; i < (nthreads / uthreads) - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, uthreadWrapper, (void *)(i * uthreads));
@@ -223,10 +224,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         uthreadWrapper((void *)(i * uthreads));
     } else {
         __uthread_sched = false;
-        if (__nthreads > __ncores)
-            __system_oversubscription = true;
-        else
-            __noop_resched = true;
+        __system_oversubscription = (__nthreads > __ncores);
+        __noop_resched = !__system_oversubscription;
         synchBarrierSet(&bar, nthreads + 1);
         for (i = 0; i < nthreads - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, kthreadWrapper, (void *)i);
-- 
2.43.0


From 934d2e2e787031247b72f27ebff4ea6e83412f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 21/29] fix: no division by zero for machines with one core per
 numa node

---
 libconcurrent/primitives/threadtools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 34f859e..e734203 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -86,7 +86,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
 #ifdef SYNCH_NUMA_SUPPORT
         uint32_t ncpus = synchGetNCores();
         uint32_t nodes = numa_num_task_nodes();
-        uint32_t node_size = ncpus / nodes;
+        uint32_t node_size = (ncpus > nodes) ? ncpus / nodes : 1;
 
         if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE) {
             if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
@@ -134,6 +134,8 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     uint32_t nodes = numa_num_task_nodes();
     uint32_t node_size = ncpus / nodes;
 
+    if (node_size < 2) // less than two cores per node, there is nothing to split in halves
+        return preferred_core % nodes;
     if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
         uint32_t half_node_size = node_size / 2;
 
@@ -144,6 +146,7 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     } else {
         preferred_node = preferred_core/node_size;
     }
+    preferred_node %= nodes; // the number of cores may not be a multiple of the number of nodes
 #else
     preferred_node = 0;
 #endif
-- 
2.43.0


From 9a6904b0949948a2688991bc9132a1dd49eb032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 22/29] fix: synchJoinThreadsN joins the threads, so their
 resources are released

---
 libconcurrent/primitives/threadtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index e734203..255c4e1 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -245,6 +245,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
 
 void synchJoinThreadsN(uint32_t nthreads) {
     synchBarrierLastLeave(&bar);
+    while (__unjoined_threads > 0)
+        pthread_join(__threads[--__unjoined_threads], NULL);
     synchFreeMemory(__threads, nthreads * sizeof(pthread_t));
 }
 
-- 
2.43.0


From 7f175a92bf1c950b6cd11502aa5c78dda44a25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 23/29] fix: zero threads or fibers are rejected instead of
 dividing by zero

---
 libconcurrent/primitives/bench_args.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libconcurrent/primitives/bench_args.c b/libconcurrent/primitives/bench_args.c
index ed9e5ce..b36da7b 100644
--- a/libconcurrent/primitives/bench_args.c
+++ b/libconcurrent/primitives/bench_args.c
@@ -85,6 +85,10 @@ void synchParseArguments(SynchBenchArgs *bench_args, int argc, char *argv[]) {
             break;
         }
     }
+    if (bench_args->nthreads == 0 || bench_args->fibers_per_thread == 0) {
+        printHelp(argv[0]);
+        exit(EXIT_FAILURE);
+    }
     // Set the correct number for total number of threads
     if (bench_args->fibers_per_thread != SYNCH_DONT_USE_UTHREADS) bench_args->nthreads *= bench_args->fibers_per_thread;
 
-- 
2.43.0


From 53084f9f0e807d9361b15aec0c9721acd8bca273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 24/29] fix: the compiler is told that the 128-bit CAS writes
 memory

---
 libconcurrent/primitives/primitives.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 9332cb2..0fab1cd 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -125,7 +125,8 @@ inline bool _CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t
     asm volatile("lock;"
                  "cmpxchg16b %2; setz %1"
                  : "=d" (dummy), "=a" (res), "+m" (*A)
-                 : "b" (C0), "c" (C1), "a" (B0),  "d" (B1));
+                 : "b" (C0), "c" (C1), "a" (B0),  "d" (B1)
+                 : "memory");
 #else
     __uint128_t old_value = (__uint128_t)(B0) | (((__uint128_t)(B1)) << 64ULL);
     __uint128_t new_value = (__uint128_t)(C0) | (((__uint128_t)(C1)) << 64ULL);
-- 
2.43.0


From 89f5d5d6882fde76ed19c095deb97f26ae47e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 25/29] fix: the top of the lock-free stack is read once per
 attempt, as its comment says

---
 libconcurrent/includes/lfstack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/includes/lfstack.h b/libconcurrent/includes/lfstack.h
index acab989..ac7739b 100644
--- a/libconcurrent/includes/lfstack.h
+++ b/libconcurrent/includes/lfstack.h
@@ -17,7 +17,7 @@
 /// LFStackStruct should be initialized using the LFStackInit function.
 typedef struct LFStackStruct {
     /// @brief A pointer to the top element of the stack.
-    volatile Node *top;
+    volatile Node *volatile top;
 } LFStackStruct;
 
 /// @brief LFStackThreadState stores each thread's local state for a single instance of LF-Stack.
-- 
2.43.0


From cea00885b569229167aacb10d0ee55f3175f076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 26/29] fix: the Michael-Scott queue reads head, tail and next
 in the order written

head and tail were not volatile, so gcc read first->next before tail and dropped
the check of head. A dequeue that meets the first enqueue could then use a NULL
next pointer.
---
 libconcurrent/concurrent/msqueue.c | 14 +++++++-------
 libconcurrent/includes/msqueue.h   |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/concurrent/msqueue.c b/libconcurrent/concurrent/msqueue.c
index 3dfdd66..f6f4f96 100644
--- a/libconcurrent/concurrent/msqueue.c
+++ b/libconcurrent/concurrent/msqueue.c
@@ -16,15 +16,15 @@ void MSQueueThreadStateInit(MSQueueThreadState *th_state, int min_back, int max_
 
 void MSQueueEnqueue(MSQueueStruct *l, MSQueueThreadState *th_state, ArgVal arg) {
     Node *p;
-    Node *next, *last;
+    volatile Node *next, *last;
 
     p = synchAllocObj(&th_state->pool);
     p->val = arg;
     p->next = NULL;
     synchResetBackoff(&th_state->backoff);
     while (true) {
-        last = (Node *)l->tail;
-        next = (Node *)last->next;
+        last = l->tail;
+        next = last->next;
         if (last == l->tail) {
             if (next == NULL) {
                 synchResetBackoff(&th_state->backoff);
@@ -39,14 +39,14 @@ void MSQueueEnqueue(MSQueueStruct *l, MSQueueThreadState *th_state, ArgVal arg)
 }
 
 RetVal MSQueueDequeue(MSQueueStruct *l, MSQueueThreadState *th_state) {
-    Node *first, *last, *next;
+    volatile Node *first, *last, *next;
     Object value;
 
     synchResetBackoff(&th_state->backoff);
     while (true) {
-        first = (Node *)l->head;
-        last = (Node *)l->tail;
-        next = (Node *)first->next;
+        first = l->head;
+        last = l->tail;
+        next = first->next;
         if (first == l->head) {
             if (first == last) {
                 if (next == NULL)
diff --git a/libconcurrent/includes/msqueue.h b/libconcurrent/includes/msqueue.h
index e34e151..aa08331 100644
--- a/libconcurrent/includes/msqueue.h
+++ b/libconcurrent/includes/msqueue.h
@@ -18,9 +18,9 @@
 /// MSQueueStruct should be initialized using the MSQueueStructInit function.
 typedef struct MSQueueStruct {
     /// @brief A pointer to the head element of the queue.
-    volatile Node *head CACHE_ALIGN;
+    volatile Node *volatile head CACHE_ALIGN;
     /// @brief A pointer to the tail element of the queue.
-    volatile Node *tail CACHE_ALIGN;
+    volatile Node *volatile tail CACHE_ALIGN;
 } MSQueueStruct;
 
 /// @brief MSQueueThreadState stores each thread's local state for a single instance of MS-Queue.
-- 
2.43.0


From 9a9cf9486211b7e3330cbf74d18a8f093384bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 27/29] fix: --backoff is an option of its own, as documented,
 and not an ambiguous abbreviation

---
 libconcurrent/primitives/bench_args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/bench_args.c b/libconcurrent/primitives/bench_args.c
index b36da7b..3f9403c 100644
--- a/libconcurrent/primitives/bench_args.c
+++ b/libconcurrent/primitives/bench_args.c
@@ -34,6 +34,7 @@ void synchParseArguments(SynchBenchArgs *bench_args, int argc, char *argv[]) {
              {"runs", required_argument, 0, 'r'},
              {"max_work", required_argument, 0, 'w'},
              {"backoff_low", required_argument, 0, 'l'},
+             {"backoff", required_argument, 0, 'b'},
              {"backoff_high", required_argument, 0, 'b'},
              {"numa_nodes", required_argument, 0, 'n'},
              {"help", no_argument, 0, 'h'},
-- 
2.43.0


From a1c7767d356962dbfeb0d8da1cb2511cfdca9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 28/29] fix: synchNonTSOFence orders the compiler on x86; nodes
 and copied records are fenced before they are linked or validated

---
 libconcurrent/concurrent/ccqueue.c   | 1 +
 libconcurrent/concurrent/dsmqueue.c  | 1 +
 libconcurrent/concurrent/hqueue.c    | 1 +
 libconcurrent/concurrent/osciqueue.c | 1 +
 libconcurrent/concurrent/sim.c       | 1 +
 libconcurrent/concurrent/simqueue.c  | 3 ++-
 libconcurrent/concurrent/simstack.c  | 1 +
 libconcurrent/includes/primitives.h  | 4 ++--
 8 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/ccqueue.c b/libconcurrent/concurrent/ccqueue.c
index fcd3f55..f64bb1a 100644
--- a/libconcurrent/concurrent/ccqueue.c
+++ b/libconcurrent/concurrent/ccqueue.c
@@ -28,6 +28,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     synchNonTSOFence();
diff --git a/libconcurrent/concurrent/dsmqueue.c b/libconcurrent/concurrent/dsmqueue.c
index 8c8224d..c9cccfb 100644
--- a/libconcurrent/concurrent/dsmqueue.c
+++ b/libconcurrent/concurrent/dsmqueue.c
@@ -28,6 +28,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     synchNonTSOFence();
diff --git a/libconcurrent/concurrent/hqueue.c b/libconcurrent/concurrent/hqueue.c
index 5b66250..04c1466 100644
--- a/libconcurrent/concurrent/hqueue.c
+++ b/libconcurrent/concurrent/hqueue.c
@@ -30,6 +30,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     synchNonTSOFence();
diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 8ba0ee1..2e9cf43 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -27,6 +27,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&(st->pool_node[synchGetThreadId()]));
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     return ENQUEUE_SUCCESS;
diff --git a/libconcurrent/concurrent/sim.c b/libconcurrent/concurrent/sim.c
index 589ea96..ce856af 100644
--- a/libconcurrent/concurrent/sim.c
+++ b/libconcurrent/concurrent/sim.c
@@ -88,6 +88,7 @@ Object SimApplyOp(SimStruct *sim_struct, SimThreadState *th_state, RetVal (*sfun
         SimStateCopy((SimObjectState *)lsp_data, (SimObjectState *)sp_data);
         synchNonTSOFence();
         TVEC_COPY(l_toggles, (ToggleVector *)&sim_struct->a_toggles);                   // This is an atomic read, since a_toogles is volatile
+        synchNonTSOFence();
         if (old_sp.raw_data != sim_struct->sp.raw_data)
             continue;
         TVEC_XOR(diffs, &lsp_data->applied, l_toggles);
diff --git a/libconcurrent/concurrent/simqueue.c b/libconcurrent/concurrent/simqueue.c
index 778700b..01a0db6 100644
--- a/libconcurrent/concurrent/simqueue.c
+++ b/libconcurrent/concurrent/simqueue.c
@@ -152,6 +152,7 @@ void SimQueueEnqueue(SimQueueStruct *queue, SimQueueThreadState *th_state, ArgVa
             break;
         EnqStateCopy(lsp_data, sp_data);
         TVEC_COPY(l_toggles, &queue->enqueuers); // This is an atomic read, since sp is volatile
+        synchNonTSOFence();
         if (old_sp.raw_data != queue->enq_sp.raw_data)
             continue;
         TVEC_XOR(diffs, &lsp_data->applied, l_toggles);
@@ -242,7 +243,7 @@ RetVal SimQueueDequeue(SimQueueStruct *queue, SimQueueThreadState *th_state, int
             break;
         DeqStateCopy(lsp_data, sp_data);
         TVEC_COPY(l_toggles, &queue->dequeuers);                                      // This is an atomic read, since sp is volatile
-
+        synchNonTSOFence();
         if (old_sp.raw_data != queue->deq_sp.raw_data)
             continue;
         TVEC_XOR(diffs, &lsp_data->applied, l_toggles);
diff --git a/libconcurrent/concurrent/simstack.c b/libconcurrent/concurrent/simstack.c
index 2783bce..e1984ed 100644
--- a/libconcurrent/concurrent/simstack.c
+++ b/libconcurrent/concurrent/simstack.c
@@ -134,6 +134,7 @@ inline static RetVal SimStackApplyOp(SimStackStruct *stack, SimStackThreadState
             break;
         SimStackStateCopy((SimStackState *)lsp_data, (SimStackState *)sp_data);
         TVEC_COPY(l_toggles, (ToggleVector *)&stack->a_toggles);                        // This is an atomic read, since a_toogles is volatile
+        synchNonTSOFence();
         if (old_sp.raw_data != stack->sp.raw_data)
             continue;
         TVEC_XOR(diffs, &lsp_data->applied, l_toggles);
diff --git a/libconcurrent/includes/primitives.h b/libconcurrent/includes/primitives.h
index 1fcbcb9..dd07767 100644
--- a/libconcurrent/includes/primitives.h
+++ b/libconcurrent/includes/primitives.h
@@ -47,7 +47,7 @@
 #        define synchLoadFence()  asm volatile("lfence" ::: "memory")
 #        define synchStoreFence() asm volatile("sfence" ::: "memory")
 #        define synchFullFence()  asm volatile("mfence" ::: "memory")
-#        define synchNonTSOFence()
+#        define synchNonTSOFence() asm volatile("" ::: "memory")
 #    else
 #        define synchLoadFence()   __sync_synchronize()
 #        define synchStoreFence()  __sync_synchronize()
@@ -62,7 +62,7 @@
 #    define synchFullFence()      asm volatile("mfence" ::: "memory")
 #    define synchReadPrefetch(A)  asm volatile("prefetchnta %0" ::"m"(*((const int *)A)))
 #    define synchStorePrefetch(A) asm volatile("prefetchnta %0" ::"m"(*((const int *)A)))
-#    define synchNonTSOFence()
+#    define synchNonTSOFence()    asm volatile("" ::: "memory")
 #    define synchLikely(A)   (A)
 #    define synchUnlikely(A) (A)
 #    define UNUSED_ARG       __attribute__((unused))
-- 
2.43.0


From 64ee55e890861f5977301c16ce3af8d3b7d954d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 29/29] fix: threads waiting in OyamaApplyOp yield to the other
 threads and fibers of their core

---
 libconcurrent/concurrent/oyama.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/oyama.c b/libconcurrent/concurrent/oyama.c
index 0506a43..5a6c6dc 100644
--- a/libconcurrent/concurrent/oyama.c
+++ b/libconcurrent/concurrent/oyama.c
@@ -53,7 +53,7 @@ RetVal OyamaApplyOp(volatile OyamaStruct *l, OyamaThreadState *th_state, RetVal
             return mynode->arg_ret;
         } else {
             while (*((volatile bool *)&mynode->completed) == false && *((volatile int32_t *)&l->lock) == LOCKED) {
-                ;
+                synchResched();
             }
             if (mynode->completed)
                 return mynode->arg_ret;
-- 
2.43.0

