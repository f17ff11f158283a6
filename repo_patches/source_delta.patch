From a6c896b3dd5fbe8e8c7bb6af420f63cdb98d7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 01/41] fix: list/slist pop must not report success when the
 node release failed

---
 src/list/list_pop.c             | 11 +++++++----
 src/slist/slist_node_next_pop.c | 11 +++++++----
 src/slist/slist_pop.c           | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..5db9e36 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -109,11 +109,14 @@ RCPR_SYM(list_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..f7f5d02 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -108,11 +108,14 @@ RCPR_SYM(slist_node_next_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..0e508e8 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -104,11 +104,14 @@ RCPR_SYM(slist_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
-- 
2.43.0


From cdbad980f9e7b256adabe055a3f80a8e11307a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 02/41] fix: keep the original error when cleanup of a partly
 created object succeeds

---
 .../fiber/condition_discipline_create_callback_handler.c        | 2 +-
 .../message_discipline_mailbox_create_callback_handler.c        | 2 +-
 src/psock/psock_br_create_from_psock.c                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..27b04e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..122377b 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..852bcfc 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -129,7 +129,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 164deff4026667c8d376ec65efe2e706d2d84752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 03/41] fix: condition variable signal failures must be
 reported as error status codes

---
 include/rcpr/status/thread.h                         | 6 ++++++
 src/platform/pthread/thread/thread_cond_signal_all.c | 2 +-
 src/platform/pthread/thread/thread_cond_signal_one.c | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/rcpr/status/thread.h b/include/rcpr/status/thread.h
index 07f4d74..175ed14 100644
--- a/include/rcpr/status/thread.h
+++ b/include/rcpr/status/thread.h
@@ -76,3 +76,9 @@
  */
 #define ERROR_THREAD_COND_WAIT \
     STATUS_CODE(1, RCPR_COMPONENT_THREAD, 0x000a)
+
+/**
+ * \brief Condition variable signal error.
+ */
+#define ERROR_THREAD_COND_SIGNAL \
+    STATUS_CODE(1, RCPR_COMPONENT_THREAD, 0x000b)
diff --git a/src/platform/pthread/thread/thread_cond_signal_all.c b/src/platform/pthread/thread/thread_cond_signal_all.c
index 024618a..c66e220 100644
--- a/src/platform/pthread/thread/thread_cond_signal_all.c
+++ b/src/platform/pthread/thread/thread_cond_signal_all.c
@@ -60,7 +60,7 @@ RCPR_SYM(thread_cond_signal_all)(
     retval = pthread_cond_broadcast(&(cond->cond));
     if (STATUS_SUCCESS != retval)
     {
-        return retval;
+        return ERROR_THREAD_COND_SIGNAL;
     }
 
     /* success. */
diff --git a/src/platform/pthread/thread/thread_cond_signal_one.c b/src/platform/pthread/thread/thread_cond_signal_one.c
index 7ddbf21..7969123 100644
--- a/src/platform/pthread/thread/thread_cond_signal_one.c
+++ b/src/platform/pthread/thread/thread_cond_signal_one.c
@@ -60,7 +60,7 @@ RCPR_SYM(thread_cond_signal_one)(
     retval = pthread_cond_signal(&(cond->cond));
     if (STATUS_SUCCESS != retval)
     {
-        return retval;
+        return ERROR_THREAD_COND_SIGNAL;
     }
 
     /* success. */
-- 
2.43.0


From 90240c9447d84e9899c1621703cb4b1cde2c397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 04/41] fix: reject a discipline yield event equal to the
 callback count

---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From 807f510d7a6523d9bad511aac8a30b1cc494688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 05/41] fix: do not leave a discipline registered when adding
 it fails

---
 .../common/fiber_scheduler_discipline_add.c   | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..4f80afa 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -87,16 +87,6 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
     }
  
-    /* add this discipline to the discipline tree. */
-    retval =
-        rbtree_insert(
-            ctx->disciplines_by_uuid,
-            fiber_scheduler_discipline_resource_handle(disc));
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
-
     /* create or reallocate the callback vector to hold these callbacks. */
     size_t callback_offset = ctx->callback_vector_size;
     if (NULL == ctx->callback_vector)
@@ -144,6 +134,16 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return retval;
     }
 
+    /* add this discipline to the discipline tree. */
+    retval =
+        rbtree_insert(
+            ctx->disciplines_by_uuid,
+            fiber_scheduler_discipline_resource_handle(disc));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* update the callback vector size. */
     ctx->callback_vector_size += disc->callback_vector_size;
 
-- 
2.43.0


From c52d4eca8e6dba4c3046317e1802feba0b7b9891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 06/41] fix: keep the error when cleanup of the disciplined
 scheduler succeeds

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..9c49c3b 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -349,7 +349,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 43e1a7d68cdfeea33b51688695a4e0c4a74bf049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 07/41] fix: reclaim the disciplined scheduler context on
 release

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 9c49c3b..728ba03 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -492,6 +492,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status ctx_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -550,6 +551,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context. */
+    ctx_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -579,7 +583,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     }
     else
     {
-        return STATUS_SUCCESS;
+        return ctx_retval;
     }
 }
 
-- 
2.43.0


From 52712af99cf6014576d9de72e548e5a7ff41dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 08/41] fix: do not use the unset scheduler when releasing
 after a failed create

---
 .../fiber_scheduler_create_with_disciplines.c       | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 728ba03..78b819c 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -983,11 +983,16 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_event;
     (void)yield_param;
 
+    /* set the yielding fiber as the next fiber to run. */
+    /* we must do this by hand because ctx->sched is not yet set if the creation
+     * of the scheduler failed. */
+    yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
+    yield_fib->restore_reason_code =
+        FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
+    yield_fib->restore_param = NULL;
+
     /* insert the yielding fiber into the beginning of the run queue. */
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL);
+    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
 }
 
 /**
-- 
2.43.0


From ea423ee50ba7ecaf2d7c9a84a446d307e86bd145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 09/41] fix: reclaim a list node even if releasing its element
 fails

---
 src/list/list_node_release.c   | 13 +++++++------
 src/slist/slist_node_release.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/list/list_node_release.c b/src/list/list_node_release.c
index af16008..4b43a17 100644
--- a/src/list/list_node_release.c
+++ b/src/list/list_node_release.c
@@ -31,6 +31,7 @@ status
 RCPR_SYM(list_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status retval = STATUS_SUCCESS;
     list_node* n = (list_node*)r;
 
     RCPR_MODEL_ASSERT(prop_list_node_valid(n));
@@ -46,15 +47,15 @@ RCPR_SYM(list_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this list_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* reclaim this list_node instance, even if releasing the child failed. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* a failure to release the child takes precedence. */
+    return (STATUS_SUCCESS != retval) ? retval : reclaim_retval;
 }
diff --git a/src/slist/slist_node_release.c b/src/slist/slist_node_release.c
index 3fa70db..fd37644 100644
--- a/src/slist/slist_node_release.c
+++ b/src/slist/slist_node_release.c
@@ -32,6 +32,7 @@ status
 RCPR_SYM(slist_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status retval = STATUS_SUCCESS;
     slist_node* n = (slist_node*)r;
 
     RCPR_MODEL_ASSERT(prop_slist_node_valid(n));
@@ -47,15 +48,15 @@ RCPR_SYM(slist_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this slist_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* reclaim this slist_node instance, even if releasing the child failed. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* a failure to release the child takes precedence. */
+    return (STATUS_SUCCESS != retval) ? retval : reclaim_retval;
 }
-- 
2.43.0


From 40e072c85b8d3362a52dcfddce2a7f2042a9d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 10/41] fix: keep a list valid when clearing it stops at a
 failure

---
 src/list/list_clear.c   | 10 ++++++++++
 src/slist/slist_clear.c |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..7d750b2 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -43,6 +43,16 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* the remaining nodes must still form a valid list. */
+        if (NULL != l->head)
+        {
+            l->head->prev = NULL;
+        }
+        else
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
         t->prev = NULL;
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..3c13b08 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -42,6 +42,12 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* the remaining nodes must still form a valid list. */
+        if (NULL == l->head)
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
 
-- 
2.43.0


From 1fe7e49e4b34fdd0d12fc07d72b13ce3f6aeac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 11/41] fix: swapping two lists must update the list their
 nodes refer to

---
 src/list/list_swap.c   | 10 ++++++++++
 src/slist/slist_swap.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..37e8842 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* the nodes now belong to the other list. */
+    for (list_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (list_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..e8d1143 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* the nodes now belong to the other list. */
+    for (slist_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (slist_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
-- 
2.43.0


From 6bd0d8e79ebd23406274332ce36b171da1bf112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 12/41] fix: rebalance a red-black tree when a black node is
 removed

---
 src/rbtree/rbtree_delete_fixup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From 732232771cb4012aeecca271dc721adc5d4ec4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 13/41] fix: reclaim a tree node even if releasing its value
 fails

---
 src/rbtree/rbtree_node_create.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rbtree/rbtree_node_create.c b/src/rbtree/rbtree_node_create.c
index 838b5bc..9f85a1e 100644
--- a/src/rbtree/rbtree_node_create.c
+++ b/src/rbtree/rbtree_node_create.c
@@ -111,6 +111,7 @@ RCPR_SYM(rbtree_node_create)(
  */
 static status rbtree_node_release(resource* r)
 {
+    status retval = STATUS_SUCCESS;
     rbtree_node* n = (rbtree_node*)r;
 
     /* parameter sanity checks. */
@@ -126,15 +127,15 @@ static status rbtree_node_release(resource* r)
         RCPR_MODEL_ASSERT(prop_resource_valid(v));
 
         /* release the value. */
-        status retval = resource_release(v);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        retval = resource_release(v);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this rbtree_node succeeds, then so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* reclaim this rbtree_node, even if releasing the value failed. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* a failure to release the value takes precedence. */
+    return (STATUS_SUCCESS != retval) ? retval : reclaim_retval;
 }
-- 
2.43.0


From 10994d27d236651b8f3fdb43ab8e859ef320f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 14/41] fix: swapped trees must not refer to each other's nil
 node

---
 src/rbtree/rbtree_swap.c | 60 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..64220e4 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -15,6 +15,11 @@
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+/* forward decls. */
+static void rbtree_nil_adopt(rbtree* tree);
+static void rbtree_nil_replace(
+    rbtree_node* n, const rbtree_node* old_nil, rbtree_node* new_nil);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -46,7 +51,62 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each tree must end in its own embedded nil node. */
+    rbtree_nil_adopt(left);
+    rbtree_nil_adopt(right);
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief Make the nodes of a tree whose contents have been moved here end in
+ * the nil node embedded in this tree.
+ *
+ * \param tree          The tree for this operation.
+ */
+static void rbtree_nil_adopt(rbtree* tree)
+{
+    const rbtree_node* old_nil = tree->nil;
+
+    /* reset the nil node. */
+    tree->nil = &tree->nil_impl;
+    tree->nil->parent = tree->nil;
+    tree->nil->left = tree->nil;
+    tree->nil->right = tree->nil;
+    tree->nil->color = RBTREE_BLACK;
+    tree->nil->value = rbtree_node_resource_handle(tree->nil);
+
+    /* update the nodes. */
+    if (old_nil == tree->root)
+    {
+        tree->root = tree->nil;
+    }
+    else
+    {
+        tree->root->parent = tree->nil;
+        rbtree_nil_replace(tree->root, old_nil, tree->nil);
+    }
+}
+
+/**
+ * \brief Replace the nil node referenced by the leaves of a subtree.
+ *
+ * \param n             The root of the subtree.
+ * \param old_nil       The nil node to replace.
+ * \param new_nil       The replacement.
+ */
+static void rbtree_nil_replace(
+    rbtree_node* n, const rbtree_node* old_nil, rbtree_node* new_nil)
+{
+    if (old_nil == n->left)
+        n->left = new_nil;
+    else
+        rbtree_nil_replace(n->left, old_nil, new_nil);
+
+    if (old_nil == n->right)
+        n->right = new_nil;
+    else
+        rbtree_nil_replace(n->right, old_nil, new_nil);
+}
-- 
2.43.0


From f1a140d8705a53ba91dd59bdf7edf78ad12497cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 15/41] fix: a non-blocking async read must not drop data
 followed by end of file

---
 src/psock/psock_wrap_async_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psock/psock_wrap_async_read.c b/src/psock/psock_wrap_async_read.c
index 9f3c049..3612d45 100644
--- a/src/psock/psock_wrap_async_read.c
+++ b/src/psock/psock_wrap_async_read.c
@@ -95,6 +95,14 @@ status RCPR_SYM(psock_wrap_async_read)(
                 return retval;
             }
         }
+        /* a non-blocking read reports the data it already has; the error or end
+         * of file that follows is reported by the next read. */
+        else if (
+            !block && *size > 0
+                && (STATUS_SUCCESS != retval || 0 == tmp_size))
+        {
+            return STATUS_SUCCESS;
+        }
         /* if a different error occurred in the read, return it.*/
         else if (STATUS_SUCCESS != retval)
         {
-- 
2.43.0


From 9c3a3a1e7f16f3e09a939ff144ecfcd2964123e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 16/41] fix: an error or hang-up alone must wake the fibers
 waiting on a descriptor

---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 9 ++++++---
 src/psock/platform/poll/psock_idle_fiber_entry.c  | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..904fa63 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -70,8 +70,10 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             memset(&event, 0, sizeof(event));
             event.events = EPOLLONESHOT;
 
-            /* check for a read resume event. */
-            if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
+            /* check for a read resume event. An error or a hang-up can be
+             * reported on its own, and also ends the wait. */
+            if (   (filter & (EPOLLIN | EPOLLERR | EPOLLHUP))
+                && NULL != ps->read_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
@@ -107,7 +109,8 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             }
 
             /* check for a write resume event. */
-            if ((filter & EPOLLOUT) && NULL != ps->write_block_fib)
+            if (   (filter & (EPOLLOUT | EPOLLERR | EPOLLHUP))
+                && NULL != ps->write_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 02bc94d..8d85c71 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -67,7 +67,7 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                 resume_event =
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE;
             }
-            else if (revents & POLLHUP)
+            else if (revents & (POLLHUP | POLLERR | POLLNVAL))
             {
                 if (events & POLLIN)
                 {
-- 
2.43.0


From 22b51ffec5e7e527f805f59e90801b64f7fca7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 17/41] fix: a resumed fiber must not drop another fiber's wait
 on the same psock

---
 src/psock/psock_read_block.c  | 7 +++++--
 src/psock/psock_write_block.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..42a2d47 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -102,8 +102,11 @@ RCPR_SYM(psock_read_block)(
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->read_block_fib = NULL;
+         * blocked. Another fiber may have blocked since this one was woken. */
+        if (current_fib == s->read_block_fib)
+        {
+            s->read_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..99ea306 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -99,8 +99,11 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->write_block_fib = NULL;
+         * blocked. Another fiber may have blocked since this one was woken. */
+        if (current_fib == s->write_block_fib)
+        {
+            s->write_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 255bc4c3fbf56a016775d17c52c2a983d61fbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 18/41] fix: a buffered reader must wait for data on a
 non-blocking psock

---
 src/psock/psock_br_fill.c       | 15 ++++++++++++++-
 src/psock/psock_br_psock_read.c |  2 +-
 src/psock/psock_br_read_line.c  |  2 +-
 src/psock/psock_internal.h      |  7 ++++---
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 205e2d2..d28f90b 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -20,13 +20,14 @@ RCPR_IMPORT_resource;
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         If true and no data is available, block until there is.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br)
+    RCPR_SYM(psock_br)* br, bool block)
 {
     status retval;
     const psock_vtable* wrapped_vtable;
@@ -64,6 +65,18 @@ status RCPR_SYM(psock_br_fill)(
         wrapped_vtable->read_fn(
             br->wrapped, br->wrapped->context, br->buffer + br->current_size,
             &read_bytes, false);
+
+    /* if there is nothing to read yet, then wait for the next byte. */
+    if (ERROR_PSOCK_READ_WOULD_BLOCK == retval && block)
+    {
+        read_bytes = 1;
+        retval =
+            wrapped_vtable->read_fn(
+                br->wrapped, br->wrapped->context,
+                br->buffer + br->current_size, &read_bytes, true);
+    }
+
+    /* if the read failed, we're done. */
     if (STATUS_SUCCESS != retval)
     {
         goto done;
diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..5f549fc 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -52,7 +52,7 @@ status RCPR_SYM(psock_br_psock_read)(
         /* attempt to fill the buffer if we don't have enough bytes. */
         if (available_bytes < requested_bytes)
         {
-            retval = psock_br_fill(br);
+            retval = psock_br_fill(br, block);
             if (STATUS_SUCCESS != retval)
             {
                 /* update size with the number of read bytes. */
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index c098a91..8440368 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -158,7 +158,7 @@ RCPR_SYM(psock_br_read_line)(
             /* attempt to fill the buffer, if the error flag is not set. */
             if (!br->error)
             {
-                retval = psock_br_fill(br);
+                retval = psock_br_fill(br, true);
                 if (STATUS_SUCCESS != retval)
                 {
                     /* if we encounter an error, set the error flag. */
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index bc03c6b..872435f 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -567,13 +567,14 @@ status RCPR_SYM(psock_br_psock_recvmsg)(
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         If true and no data is available, block until there is.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br);
+    RCPR_SYM(psock_br)* br, bool block);
 
 /**
  * \brief Release a psock_br resource.
@@ -698,8 +699,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(psock)* v, void* w, struct msghdr* x, size_t* y, int z) { \
             return RCPR_SYM(psock_br_psock_recvmsg)(v,w,x,y,z); } \
     static inline status psock_br_fill( \
-        RCPR_SYM(psock_br)* x) { \
-            return RCPR_SYM(psock_br_fill)(x); }\
+        RCPR_SYM(psock_br)* x, bool y) { \
+            return RCPR_SYM(psock_br_fill)(x,y); }\
     static inline status psock_br_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(psock_br_release)(x); } \
-- 
2.43.0


From 00fd8d002377b4e47c1ea23caf89a50d735d93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 19/41] fix: a non-blocking buffered read must return the bytes
 already buffered

---
 src/psock/psock_br_psock_read.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index 5f549fc..d313689 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -53,7 +53,9 @@ status RCPR_SYM(psock_br_psock_read)(
         if (available_bytes < requested_bytes)
         {
             retval = psock_br_fill(br, block);
-            if (STATUS_SUCCESS != retval)
+
+            /* a non-blocking read can still return what is buffered. */
+            if (STATUS_SUCCESS != retval && (block || 0 == available_bytes))
             {
                 /* update size with the number of read bytes. */
                 *size = read_bytes;
-- 
2.43.0


From 375da30baeaf7f9861b84255eb79438bbb95456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 20/41] fix: a fiber whose entry returns must exit instead of
 reading address 1

---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..ab001ad 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    mov $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0


From 271aa18314f57b07cdbea768a163a1749dc034d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 21/41] fix: an idle fiber that was added to the scheduler was
 released twice

---
 .../common/fiber_scheduler_create_with_disciplines.c  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 78b819c..b7f5b06 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -504,6 +504,17 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     /* cache the allocator. */
     allocator* alloc = ctx->alloc;
 
+    /* if the idle fiber was added to this scheduler, then it is owned by the
+     * fibers by pointer tree and is released with it. */
+    resource* idle_fiber_resource = NULL;
+    if (NULL != ctx->idle_fiber
+     && STATUS_SUCCESS ==
+            rbtree_find(
+                &idle_fiber_resource, ctx->fibers_by_pointer, ctx->idle_fiber))
+    {
+        ctx->idle_fiber = NULL;
+    }
+
     /* release the fibers by pointer tree, releasing all fibers still associated
      * with it. */
     fibers_by_pointer_retval =
-- 
2.43.0


From 0b36a5d08ba8f8561aab817921693a3fb08d4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 22/41] fix: the red-black tree accepted a second item with the
 same key

---
 include/rcpr/status/rbtree.h | 6 ++++++
 src/rbtree/rbtree_insert.c   | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/rcpr/status/rbtree.h b/include/rcpr/status/rbtree.h
index 4e1b7a6..c3e9493 100644
--- a/include/rcpr/status/rbtree.h
+++ b/include/rcpr/status/rbtree.h
@@ -22,3 +22,9 @@
  */
 #define ERROR_RBTREE_NOT_FOUND \
     STATUS_CODE(1, RCPR_COMPONENT_RBTREE, 0x0001)
+
+/**
+ * \brief An item with the same key already exists in the tree.
+ */
+#define ERROR_RBTREE_DUPLICATE \
+    STATUS_CODE(1, RCPR_COMPONENT_RBTREE, 0x0002)
diff --git a/src/rbtree/rbtree_insert.c b/src/rbtree/rbtree_insert.c
index 81e12c0..fe2ea3f 100644
--- a/src/rbtree/rbtree_insert.c
+++ b/src/rbtree/rbtree_insert.c
@@ -53,6 +53,13 @@ RCPR_SYM(rbtree_insert)(
     RCPR_MODEL_ASSERT(prop_rbtree_valid(tree));
     RCPR_MODEL_ASSERT(prop_resource_valid(r));
 
+    /* an item with this key must not already exist in the tree. */
+    retval = rbtree_find_node(tree, tree->key(tree->context, r), &new_node);
+    if (STATUS_SUCCESS == retval)
+    {
+        return ERROR_RBTREE_DUPLICATE;
+    }
+
     /* attempt to create an rbtree node. */
     retval = rbtree_node_create(&new_node, tree, r);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 3c5f570b36518317a81dc76d691b66aa52a3b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 23/41] fix: a message was lost or owned twice when a fiber
 could not be scheduled

---
 ...cipline_message_receive_callback_handler.c | 26 +++++---
 ...discipline_message_send_callback_handler.c | 59 ++++++++-----------
 2 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/src/message/message_discipline_message_receive_callback_handler.c b/src/message/message_discipline_message_receive_callback_handler.c
index 8333644..54abddb 100644
--- a/src/message/message_discipline_message_receive_callback_handler.c
+++ b/src/message/message_discipline_message_receive_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -78,33 +79,40 @@ status RCPR_SYM(message_discipline_message_receive_callback_handler)(
     /* otherwise, give the next queue message to the fiber. */
     else
     {
+        /* resume the fiber. This comes first, so that a scheduling issue can't
+         * lose a message that has been popped off of the queue. */
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                NULL);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
         /* pop the first message off of the queue. */
         resource* msgresource;
         retval = queue_pop(mbox->message_queue, &msgresource);
         if (STATUS_SUCCESS != retval)
         {
             /* couldn't pop a message off of the queue. */
-            resume_event =
+            yield_fib->restore_reason_code =
                 FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
         else
         {
             /* encode the popped message in the resume arguments. */
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            yield_fib->restore_param = msgresource;
         }
 
-        /* resume the thread. */
-        goto done;
+        return STATUS_SUCCESS;
     }
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
diff --git a/src/message/message_discipline_message_send_callback_handler.c b/src/message/message_discipline_message_send_callback_handler.c
index 50680f4..62f5e4b 100644
--- a/src/message/message_discipline_message_send_callback_handler.c
+++ b/src/message/message_discipline_message_send_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -68,14 +69,8 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     /* mailbox sanity check. */
     RCPR_MODEL_ASSERT(prop_mailbox_valid(mbox));
 
-    /* append the message to the end of the mail queue. */
-    retval = queue_append(mbox->message_queue, &msg->hdr);
-    if (STATUS_SUCCESS != retval)
-    {
-        goto resume_fail;
-    }
-
-    /* message sent, so tell the original fiber to restart. */
+    /* tell the original fiber to restart.  This comes first, so that a
+     * scheduling issue can't strand a message that has been taken over. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
@@ -86,41 +81,37 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
         return retval;
     }
 
-    /* if there is a blocked fiber on this mailbox, set it as the next fiber to
-     * run. */
+    /* if there is a blocked fiber on this mailbox, then the mail queue is
+     * empty. Give this message to the blocked fiber and run it next. */
     if (NULL != mbox->blocked_fiber)
     {
-        fiber* receive_fiber = mbox->blocked_fiber;
-        mbox->blocked_fiber = NULL;
-
-        /* pop the next message off of the queue. */
-        resource* msgresource;
-        retval = queue_pop(mbox->message_queue, &msgresource);
-        if (STATUS_SUCCESS != retval)
-        {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
-        }
-        else
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                &msg->hdr);
+        if (STATUS_SUCCESS == retval)
         {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            mbox->blocked_fiber = NULL;
         }
-
-        return
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, receive_fiber,
-                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, resume_event,
-                resume_param);
     }
-    /* otherwise, leave the message on the queue. */
+    /* otherwise, append the message to the end of the mail queue. */
     else
     {
-        return STATUS_SUCCESS;
+        retval = queue_append(mbox->message_queue, &msg->hdr);
+    }
+
+    /* if the message could not be taken over, it remains with the sender. */
+    if (STATUS_SUCCESS != retval)
+    {
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
+    return STATUS_SUCCESS;
+
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-- 
2.43.0


From acaa72ded575ba481df1266f6cb26d2181f073a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 24/41] fix: only the messaging and condition disciplines may
 answer their requests

---
 src/condition/conditional_close.c      | 9 +++++++++
 src/condition/conditional_create.c     | 9 +++++++++
 src/condition/conditional_notify_all.c | 9 +++++++++
 src/condition/conditional_notify_one.c | 9 +++++++++
 src/condition/conditional_wait.c       | 9 +++++++++
 src/message/mailbox_close.c            | 9 +++++++++
 src/message/mailbox_create.c           | 9 +++++++++
 src/message/message_receive.c          | 9 +++++++++
 src/message/message_send.c             | 9 +++++++++
 9 files changed, 81 insertions(+)

diff --git a/src/condition/conditional_close.c b/src/condition/conditional_close.c
index a0f5540..c5989a9 100644
--- a/src/condition/conditional_close.c
+++ b/src/condition/conditional_close.c
@@ -52,6 +52,15 @@ RCPR_SYM(conditional_close)(
         return retval;
     }
 
+    /* only the condition discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     if (
         FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE == resume_event
      || FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS == resume_event)
diff --git a/src/condition/conditional_create.c b/src/condition/conditional_create.c
index 6e8ea7a..5c9b1fc 100644
--- a/src/condition/conditional_create.c
+++ b/src/condition/conditional_create.c
@@ -55,6 +55,15 @@ RCPR_SYM(conditional_create)(
         return retval;
     }
 
+    /* only the condition discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     if (
         FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_FAILURE
             == resume_event)
diff --git a/src/condition/conditional_notify_all.c b/src/condition/conditional_notify_all.c
index f9f73c2..5ac326a 100644
--- a/src/condition/conditional_notify_all.c
+++ b/src/condition/conditional_notify_all.c
@@ -52,6 +52,15 @@ RCPR_SYM(conditional_notify_all)(
         return retval;
     }
 
+    /* only the condition discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is NOTIFY_FAILURE, return the error. */
     if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_FAILURE == resume_event)
     {
diff --git a/src/condition/conditional_notify_one.c b/src/condition/conditional_notify_one.c
index 57ac943..b367264 100644
--- a/src/condition/conditional_notify_one.c
+++ b/src/condition/conditional_notify_one.c
@@ -52,6 +52,15 @@ RCPR_SYM(conditional_notify_one)(
         return retval;
     }
 
+    /* only the condition discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is NOTIFY_FAILURE, return the error. */
     if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_NOTIFY_FAILURE == resume_event)
     {
diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index 5bbbff3..821e280 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -52,6 +52,15 @@ RCPR_SYM(conditional_wait)(
         return retval;
     }
 
+    /* only the condition discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is WAIT_FAILURE, return the error. */
     if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE == resume_event)
     {
diff --git a/src/message/mailbox_close.c b/src/message/mailbox_close.c
index 42792b7..00ed072 100644
--- a/src/message/mailbox_close.c
+++ b/src/message/mailbox_close.c
@@ -52,6 +52,15 @@ RCPR_SYM(mailbox_close)(
         return retval;
     }
 
+    /* only the messaging discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     if (FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE == resume_event)
     {
         retval = (status)(ptrdiff_t)resume_param;
diff --git a/src/message/mailbox_create.c b/src/message/mailbox_create.c
index 4c1916c..fa655e6 100644
--- a/src/message/mailbox_create.c
+++ b/src/message/mailbox_create.c
@@ -54,6 +54,15 @@ RCPR_SYM(mailbox_create)(
         return retval;
     }
 
+    /* only the messaging discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     if (
         FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_FAILURE
             == resume_event)
diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index efd7b83..265af2c 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -61,6 +61,15 @@ RCPR_SYM(message_receive)(
         return retval;
     }
 
+    /* only the messaging discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is MESSAGE_RECEIVE_FAILURE, return the error. */
     if (
         FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE
diff --git a/src/message/message_send.c b/src/message/message_send.c
index f125455..247b03f 100644
--- a/src/message/message_send.c
+++ b/src/message/message_send.c
@@ -59,6 +59,15 @@ RCPR_SYM(message_send)(
         return retval;
     }
 
+    /* only the messaging discipline can answer this request. */
+    if (
+        memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(rcpr_uuid)))
+    {
+        /* TODO - add support for out-of-band events. */
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     if (
         FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE
             == resume_event)
-- 
2.43.0


From 11db14274976684f2c6037e1ada921e07dee040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 25/41] fix: a pointer to the end of the vtable section was
 accepted as a vtable

vtable_range_valid compared with <= against the one-past-the-end address of
the section, so whatever follows the section was taken for a vtable.
---
 include/rcpr/vtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcpr/vtable.h b/include/rcpr/vtable.h
index d5a5594..8eac2b0 100644
--- a/include/rcpr/vtable.h
+++ b/include/rcpr/vtable.h
@@ -65,7 +65,7 @@ extern const void* __stop_rcpr_vtable;
 #define RCPR_VTABLE_CHECK(ptr) \
     if ( \
         (ptrdiff_t)(ptr) >= (ptrdiff_t)(&__start_rcpr_vtable) \
-     && (ptrdiff_t)(ptr) <= (ptrdiff_t)(&__stop_rcpr_vtable)) \
+     && (ptrdiff_t)(ptr) < (ptrdiff_t)(&__stop_rcpr_vtable)) \
     { \
         return true; \
     } \
-- 
2.43.0


From d5d52b27477d9afa03a69a2966f14de8bb052248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 26/41] fix: the bump allocator granted sizes that wrap around
 and left the pointer unset on failure

The end of the block was computed modulo 2^64 before it was compared with the
size of the region, and the documented NULL was not stored on failure.
---
 src/allocator/bump_allocator_create.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..58b956f 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -182,16 +182,18 @@ static status bump_allocator_allocate(
         mem_offset += 16 - (raw_mem_offset % 16);
     }
 
-    /* verify that this computed offset does not exceed the total size of this
-     * memory region. */
-    size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    /* verify that this allocation does not exceed the total size of this memory
+     * region. */
+    if (
+        mem_offset >= bump->max_size
+     || size >= bump->max_size - mem_offset)
     {
+        *ptr = NULL;
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
     /* bump the allocator. */
-    bump->offset = bump_offset;
+    bump->offset = mem_offset + size;
 
     /* success. */
     *ptr = (bump->region + mem_offset);
-- 
2.43.0


From ee62e0836190807ac33810780a1ebcb50735d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 27/41] fix: a failing malloc reallocation to size zero freed
 the caller's block

realloc frees the block when the size is zero and returns NULL; the operation
then failed although the caller's pointer was no longer valid.
---
 src/allocator/malloc_allocator_create.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/allocator/malloc_allocator_create.c b/src/allocator/malloc_allocator_create.c
index 4f43872..dd4c111 100644
--- a/src/allocator/malloc_allocator_create.c
+++ b/src/allocator/malloc_allocator_create.c
@@ -243,8 +243,9 @@ static status malloc_allocator_reallocate(
     RCPR_MODEL_ASSERT(property_allocator_valid(alloc));
     RCPR_MODEL_ASSERT(NULL != ptr);
 
-    /* attempt to reallocate memory. */
-    void* newptr = realloc(*ptr, size);
+    /* attempt to reallocate memory. Note that realloc frees the region when the
+     * size is zero, but the caller keeps this region on failure. */
+    void* newptr = realloc(*ptr, size > 0 ? size : 1);
     if (NULL == newptr)
     {
         return ERROR_GENERAL_OUT_OF_MEMORY;
-- 
2.43.0


From 6adb9cfc601d79b6c2989f811d6ee9a70733390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 28/41] fix: a failed write to a buffer socket lost its buffer
 and its byte count

---
 src/psock/psock_from_buffer_write.c | 40 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..9d33cad 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -53,6 +53,7 @@ status RCPR_SYM(psock_from_buffer_write)(
     size_t total_size = 0;
     psock_output_buffer_node* ob = NULL;
     void* large_buffer = NULL;
+    void* next_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -84,6 +85,7 @@ status RCPR_SYM(psock_from_buffer_write)(
     memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
     data = ((uint8_t*)data) + copy_size;
     total_size += copy_size;
+    pb->output_buffer_total_size += copy_size;
     pb->buffer_write_offset += copy_size;
     *size -= copy_size;
 
@@ -91,6 +93,15 @@ status RCPR_SYM(psock_from_buffer_write)(
      * the buffer. */
     if (pb->buffer_write_offset >= pb->output_buffer_size)
     {
+        /* allocate memory for the new buffer first, so that the current buffer
+         * remains in place if anything fails. */
+        retval =
+            allocator_allocate(sock->alloc, &next_buffer, PSOCK_BUFFER_SIZE);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto done;
+        }
+
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
@@ -98,7 +109,7 @@ status RCPR_SYM(psock_from_buffer_write)(
                 pb->output_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto cleanup_next_buffer;
         }
 
         /* append this to the tail of the queue. */
@@ -112,23 +123,13 @@ status RCPR_SYM(psock_from_buffer_write)(
             {
                 retval = release_retval;
             }
-            goto done;
+            goto cleanup_next_buffer;
         }
 
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
+        /* the new buffer is now the current buffer. */
+        pb->output_curr_buffer = (char*)next_buffer;
         pb->output_buffer_size = PSOCK_BUFFER_SIZE;
         pb->buffer_write_offset = 0;
-
-        /* allocate memory for the new buffer. */
-        retval =
-            allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
     }
 
     /* if the remaining size is greater than the current output buffer size,
@@ -165,6 +166,7 @@ status RCPR_SYM(psock_from_buffer_write)(
         /* fixups. */
         data = ((uint8_t*)data) + *size;
         total_size += *size;
+        pb->output_buffer_total_size += *size;
         *size = 0;
     }
 
@@ -175,6 +177,7 @@ status RCPR_SYM(psock_from_buffer_write)(
         memcpy(
             pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
         total_size += copy_size;
+        pb->output_buffer_total_size += copy_size;
         pb->buffer_write_offset += copy_size;
         *size -= copy_size;
     }
@@ -182,7 +185,6 @@ status RCPR_SYM(psock_from_buffer_write)(
     /* success. */
     RCPR_MODEL_ASSERT(0 == *size);
     *size = total_size;
-    pb->output_buffer_total_size += *size;
     retval = STATUS_SUCCESS;
     goto done;
 
@@ -201,6 +203,14 @@ cleanup_large_buffer:
     }
     goto done;
 
+cleanup_next_buffer:
+    release_retval = allocator_reclaim(sock->alloc, next_buffer);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+    goto done;
+
 done:
     return retval;
 }
-- 
2.43.0


From 0050bff6ee30a5414c15f47f1f9f52969b570cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 29/41] fix: a failed get_output_buffer changed the caller's
 buffer and size

---
 src/psock/psock_from_buffer_get_output_buffer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_from_buffer_get_output_buffer.c b/src/psock/psock_from_buffer_get_output_buffer.c
index f290e0c..259a215 100644
--- a/src/psock/psock_from_buffer_get_output_buffer.c
+++ b/src/psock/psock_from_buffer_get_output_buffer.c
@@ -66,6 +66,8 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
     size_t* buffer_size)
 {
     status retval, release_retval;
+    void* tmp = NULL;
+    size_t tmp_size;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -90,28 +92,30 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
     }
 
     /* set the buffer size. */
-    *buffer_size = pb->output_buffer_total_size;
+    tmp_size = pb->output_buffer_total_size;
 
     /* allocate memory for the output buffer. */
-    retval = allocator_allocate(a, buffer, *buffer_size);
+    retval = allocator_allocate(a, &tmp, tmp_size);
     if (STATUS_SUCCESS != retval)
     {
         goto done;
     }
 
     /* copy the output buffer data to this buffer. */
-    retval = copy_output_buffer(pb, (uint8_t*)*buffer, *buffer_size);
+    retval = copy_output_buffer(pb, (uint8_t*)tmp, tmp_size);
     if (STATUS_SUCCESS != retval)
     {
         goto reclaim_buffer;
     }
 
     /* success. */
+    *buffer = tmp;
+    *buffer_size = tmp_size;
     retval = STATUS_SUCCESS;
     goto done;
 
 reclaim_buffer:
-    release_retval = allocator_reclaim(a, *buffer);
+    release_retval = allocator_reclaim(a, tmp);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
-- 
2.43.0


From 4881456480401e9bd2dec3ca53084f7c2e84a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 30/41] fix: moving descriptors overwrote descriptors already
 at the threshold

---
 src/socket_utilities/vsocket_utility_move_descriptors.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..e67b41e 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <fcntl.h>
 #include <rcpr/socket_utilities.h>
 #include <stddef.h>
 #include <unistd.h>
@@ -53,8 +54,9 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
-        /* Move the descriptor to the threshold or above */
-        new_fd = dup2(old_fd, threshold);
+        /* Move the descriptor to an unused descriptor at or above the
+         * threshold */
+        new_fd = fcntl(old_fd, F_DUPFD, threshold);
         if (new_fd < 0)
         {
             retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
@@ -65,11 +67,10 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
         close(old_fd);
 
         /* Update the descriptor to point to the new location */
-        *curr = threshold;
+        *curr = new_fd;
 
         /* Advance to next descriptor */
         curr = va_arg(args, int*);
-        threshold++;
     }
 
     retval = STATUS_SUCCESS;
-- 
2.43.0


From 62df845c11b026b68f203ab22707c1e8c2e904a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 31/41] fix: setfds closed a descriptor that was already in
 place

---
 src/socket_utilities/vsocket_utility_setfds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..3d03004 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -44,8 +44,11 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
             goto done;
         }
 
-        /* close the old fd. */
-        close(curr);
+        /* close the old fd, unless it is already in place. */
+        if (curr != mapped)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From 7d84c7aa77cb426edbc90436610dd611c48851f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 32/41] fix: a signal or registration made during a trigger
 notification was lost

---
 src/auto_reset_trigger/auto_reset_trigger_step.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_step.c b/src/auto_reset_trigger/auto_reset_trigger_step.c
index 0f96a6b..6bb03c0 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_step.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_step.c
@@ -28,13 +28,18 @@ RCPR_SYM(auto_reset_trigger_step)(RCPR_SYM(auto_reset_trigger)* trigger)
         /* Is there a listener? */
         if (NULL != trigger->callback)
         {
-            /* notify the listener. */
-            (trigger->callback)(trigger->context);
+            /* cache the listener. */
+            RCPR_SYM(auto_reset_trigger_callback) callback = trigger->callback;
+            void* context = trigger->context;
 
-            /* reset the trigger. */
+            /* reset the trigger first, so that a signal or registration made
+             * during the notification is kept. */
             trigger->triggered = false;
             trigger->callback = NULL;
             trigger->context = NULL;
+
+            /* notify the listener. */
+            callback(context);
         }
     }
 }
-- 
2.43.0


From 02ff6dc397af80a02a55eacd286d0e56d8b5cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 33/41] fix: a failed trigger creation left the caller's
 pointer unset

---
 src/auto_reset_trigger/auto_reset_trigger_create.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_create.c b/src/auto_reset_trigger/auto_reset_trigger_create.c
index d71dbb2..0d4e31f 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_create.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_create.c
@@ -72,6 +72,7 @@ RCPR_SYM(auto_reset_trigger_create)(
     retval = allocator_allocate(alloc, (void**)&tmp, sizeof(*tmp));
     if (STATUS_SUCCESS != retval)
     {
+        *trigger = NULL;
         return retval;
     }
 
-- 
2.43.0


From 6dbd2078ec908527ee04fb9d25bd3e93c934db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 34/41] fix: a uuid that failed to parse was partly overwritten

---
 src/uuid/rcpr_uuid_parse_raw_string.c | 6 ++++++
 src/uuid/rcpr_uuid_parse_string.c     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/uuid/rcpr_uuid_parse_raw_string.c b/src/uuid/rcpr_uuid_parse_raw_string.c
index b4ef9e4..fb126b6 100644
--- a/src/uuid/rcpr_uuid_parse_raw_string.c
+++ b/src/uuid/rcpr_uuid_parse_raw_string.c
@@ -53,6 +53,8 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str, size_t length)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid)* output = uuid;
+    RCPR_SYM(rcpr_uuid) parsed;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -64,6 +66,9 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     /* verify that the string length is exactly 36. */
     if (36 != length) goto fail;
 
+    /* parse into a local value, so that failure leaves the output as it was. */
+    uuid = &parsed;
+
     /* read the first four byte values. */
     if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
     if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
@@ -103,6 +108,7 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *output = parsed;
     return STATUS_SUCCESS;
 
 fail:
diff --git a/src/uuid/rcpr_uuid_parse_string.c b/src/uuid/rcpr_uuid_parse_string.c
index d18f04a..37d73eb 100644
--- a/src/uuid/rcpr_uuid_parse_string.c
+++ b/src/uuid/rcpr_uuid_parse_string.c
@@ -48,6 +48,8 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid)* output = uuid;
+    RCPR_SYM(rcpr_uuid) parsed;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -56,6 +58,9 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     /* verify that the string is not NULL. */
     if (NULL == str) goto fail;
 
+    /* parse into a local value, so that failure leaves the output as it was. */
+    uuid = &parsed;
+
     /* read the first four byte values. */
     if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
     if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
@@ -98,6 +103,7 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     if (0 != *str) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *output = parsed;
     return STATUS_SUCCESS;
 
 fail:
-- 
2.43.0


From c9dc09e7e791b4b91050209a3b28fab97e2336de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 35/41] fix: a failed constructor left the caller's pointer
 unset

---
 src/bigint/bigint_clone.c                                  | 3 +++
 src/bigint/bigint_create_zero.c                            | 3 +++
 src/fiber/common/fiber_create.c                            | 3 +++
 src/fiber/common/fiber_create_for_thread.c                 | 3 +++
 src/fiber/common/fiber_scheduler_create.c                  | 3 +++
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 3 +++
 src/fiber/common/fiber_scheduler_discipline_create.c       | 3 +++
 src/list/list_create.c                                     | 3 +++
 src/platform/pthread/thread/thread_cond_create.c           | 3 +++
 src/platform/pthread/thread/thread_create.c                | 3 +++
 src/platform/pthread/thread/thread_mutex_create.c          | 3 +++
 src/platform/pthread/thread/thread_mutex_lock_acquire.c    | 3 +++
 src/psock/psock_br_create_from_psock.c                     | 3 +++
 src/psock/psock_create_from_buffer.c                       | 3 +++
 src/psock/psock_create_from_descriptor.c                   | 3 +++
 src/psock/psock_create_from_hostname_and_port.c            | 3 +++
 src/psock/psock_create_from_listen_address.c               | 3 +++
 src/psock/psock_create_from_user_methods.c                 | 3 +++
 src/queue/queue_create.c                                   | 3 +++
 src/rbtree/rbtree_create.c                                 | 3 +++
 src/slist/slist_create.c                                   | 3 +++
 src/stack/stack_create.c                                   | 3 +++
 22 files changed, 66 insertions(+)

diff --git a/src/bigint/bigint_clone.c b/src/bigint/bigint_clone.c
index 83badd7..cb299e8 100644
--- a/src/bigint/bigint_clone.c
+++ b/src/bigint/bigint_clone.c
@@ -59,6 +59,9 @@ RCPR_SYM(bigint_clone)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(prop_bigint_valid(j));
 
+    /* on failure, the caller's pointer is NULL. */
+    *i = NULL;
+
     /* attempt to allocate memory for the cloned bigint instacne. */
     bigint* tmp = NULL;
     retval =
diff --git a/src/bigint/bigint_create_zero.c b/src/bigint/bigint_create_zero.c
index d7a1010..c230fca 100644
--- a/src/bigint/bigint_create_zero.c
+++ b/src/bigint/bigint_create_zero.c
@@ -71,6 +71,9 @@ RCPR_SYM(bigint_create_zero)(
     RCPR_MODEL_ASSERT(NULL != i);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the caller's pointer is NULL. */
+    *i = NULL;
+
     /* compute the size in bytes based on the bit size. */
     size_t byte_size = size / 8;
 
diff --git a/src/fiber/common/fiber_create.c b/src/fiber/common/fiber_create.c
index 18bd1cf..4ef1c7b 100644
--- a/src/fiber/common/fiber_create.c
+++ b/src/fiber/common/fiber_create.c
@@ -83,6 +83,9 @@ RCPR_SYM(fiber_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* on failure, the caller's pointer is NULL. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_create_for_thread.c b/src/fiber/common/fiber_create_for_thread.c
index 137692d..e546dde 100644
--- a/src/fiber/common/fiber_create_for_thread.c
+++ b/src/fiber/common/fiber_create_for_thread.c
@@ -72,6 +72,9 @@ RCPR_SYM(fiber_create_for_thread)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != fib);
 
+    /* on failure, the caller's pointer is NULL. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create.c b/src/fiber/common/fiber_scheduler_create.c
index b597700..ebe9d25 100644
--- a/src/fiber/common/fiber_scheduler_create.c
+++ b/src/fiber/common/fiber_scheduler_create.c
@@ -78,6 +78,9 @@ RCPR_SYM(fiber_scheduler_create)(
     RCPR_MODEL_ASSERT(NULL != sched);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* on failure, the caller's pointer is NULL. */
+    *sched = NULL;
+
     /* attempt to allocate memory for this fiber_scheduler. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber_scheduler));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index b7f5b06..46cb042 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -138,6 +138,9 @@ RCPR_SYM(fiber_scheduler_create_with_disciplines)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != sched);
 
+    /* on failure, the caller's pointer is NULL. */
+    *sched = NULL;
+
     /* attempt to allocate memory for the fiber scheduler context. */
     retval =
         allocator_allocate(
diff --git a/src/fiber/common/fiber_scheduler_discipline_create.c b/src/fiber/common/fiber_scheduler_discipline_create.c
index a58f98e..9655141 100644
--- a/src/fiber/common/fiber_scheduler_discipline_create.c
+++ b/src/fiber/common/fiber_scheduler_discipline_create.c
@@ -86,6 +86,9 @@ RCPR_SYM(fiber_scheduler_discipline_create)(
             callback_vector,
             callbacks * sizeof(fiber_scheduler_discipline_callback_fn)));
 
+    /* on failure, the caller's pointer is NULL. */
+    *disc = NULL;
+
     /* attempt to allocate memory for this fiber scheduler discipline. */
     retval =
         allocator_allocate(alloc, (void**)&tmp,
diff --git a/src/list/list_create.c b/src/list/list_create.c
index e4af394..3740df1 100644
--- a/src/list/list_create.c
+++ b/src/list/list_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(list_create)(
     /* function contract preconditions. */
     RCPR_MODEL_CONTRACT_CHECK_PRECONDITIONS(RCPR_SYM(list_create), l, a);
 
+    /* on failure, the caller's pointer is NULL. */
+    *l = NULL;
+
     /* attempt to allocate memory for this list. */
     list* tmp = NULL;
     retval = allocator_allocate(a, (void**)&tmp, sizeof(list));
diff --git a/src/platform/pthread/thread/thread_cond_create.c b/src/platform/pthread/thread/thread_cond_create.c
index 549fbe7..b169e75 100644
--- a/src/platform/pthread/thread/thread_cond_create.c
+++ b/src/platform/pthread/thread/thread_cond_create.c
@@ -69,6 +69,9 @@ RCPR_SYM(thread_cond_create)(
     RCPR_MODEL_ASSERT(NULL != cond);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the caller's pointer is NULL. */
+    *cond = NULL;
+
     /* attempt to allocate memory for this condition variable. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_cond));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_create.c b/src/platform/pthread/thread/thread_create.c
index f2caa3a..390199c 100644
--- a/src/platform/pthread/thread/thread_create.c
+++ b/src/platform/pthread/thread/thread_create.c
@@ -84,6 +84,9 @@ RCPR_SYM(thread_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* on failure, the caller's pointer is NULL. */
+    *th = NULL;
+
     /* create a thread attribute structure. */
     retval = pthread_attr_init(&attr);
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_mutex_create.c b/src/platform/pthread/thread/thread_mutex_create.c
index ab52a9e..a528839 100644
--- a/src/platform/pthread/thread/thread_mutex_create.c
+++ b/src/platform/pthread/thread/thread_mutex_create.c
@@ -76,6 +76,9 @@ RCPR_SYM(thread_mutex_create)(
     RCPR_MODEL_ASSERT(NULL != mut);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the caller's pointer is NULL. */
+    *mut = NULL;
+
     /* attempt to allocate memory for this mutex. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_mutex));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_mutex_lock_acquire.c b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
index cacf671..fac8746 100644
--- a/src/platform/pthread/thread/thread_mutex_lock_acquire.c
+++ b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
@@ -59,6 +59,9 @@ RCPR_SYM(thread_mutex_lock_acquire)(
     RCPR_MODEL_ASSERT(prop_thread_mutex_valid(mut));
     RCPR_MODEL_ASSERT(prop_thread_mutex_lock_valid(&mut->child));
 
+    /* on failure, the caller's pointer is NULL. */
+    *lock = NULL;
+
     /* acquire the lock. */
     retval = pthread_mutex_lock(&mut->mutex);
     if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 852bcfc..f35e16f 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -77,6 +77,9 @@ RCPR_SYM(psock_br_create_from_psock)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
 
+    /* on failure, the caller's pointer is NULL. */
+    *br = NULL;
+
     /* attempt to allocate memory for this buffered psock. */
     psock_br* tmp = NULL;
     retval = allocator_allocate(a, (void**)&tmp, sizeof(psock_br));
diff --git a/src/psock/psock_create_from_buffer.c b/src/psock/psock_create_from_buffer.c
index 7369902..01b4e36 100644
--- a/src/psock/psock_create_from_buffer.c
+++ b/src/psock/psock_create_from_buffer.c
@@ -89,6 +89,9 @@ RCPR_SYM(psock_create_from_buffer)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT((buffer != NULL) || (buffer == NULL && size == 0));
 
+    /* on failure, the caller's pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this buffer psock. */
     psock_from_buffer* ps = NULL;
     retval = allocator_allocate(a, (void**)&ps, sizeof(psock_from_buffer));
diff --git a/src/psock/psock_create_from_descriptor.c b/src/psock/psock_create_from_descriptor.c
index 3994f1a..de17e01 100644
--- a/src/psock/psock_create_from_descriptor.c
+++ b/src/psock/psock_create_from_descriptor.c
@@ -84,6 +84,9 @@ RCPR_SYM(psock_create_from_descriptor)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(descriptor >= 0);
 
+    /* on failure, the caller's pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this descriptor psock. */
     psock_from_descriptor* ps = NULL;
     int retval =
diff --git a/src/psock/psock_create_from_hostname_and_port.c b/src/psock/psock_create_from_hostname_and_port.c
index 37ad468..bb60cce 100644
--- a/src/psock/psock_create_from_hostname_and_port.c
+++ b/src/psock/psock_create_from_hostname_and_port.c
@@ -76,6 +76,9 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != hostname);
 
+    /* on failure, the caller's pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to resolve this as an IPv4 address. */
     resolved = gethostbyname2(hostname, AF_INET);
     if (NULL != resolved)
diff --git a/src/psock/psock_create_from_listen_address.c b/src/psock/psock_create_from_listen_address.c
index 7d7c4f8..3e5ae87 100644
--- a/src/psock/psock_create_from_listen_address.c
+++ b/src/psock/psock_create_from_listen_address.c
@@ -73,6 +73,9 @@ RCPR_SYM(psock_create_from_listen_address)(
     RCPR_MODEL_ASSERT(NULL != name);
     RCPR_MODEL_ASSERT(prop_valid_range(name, namelen));
 
+    /* on failure, the caller's pointer is NULL. */
+    *sock = NULL;
+
     /* Create a socket for this address. */
     int desc = socket(AF_INET, SOCK_STREAM, 0);
     if (desc < 0)
diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 8fb38ca..7e9789b 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -99,6 +99,9 @@ RCPR_SYM(psock_create_from_user_methods)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != vtable);
 
+    /* on failure, the caller's pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this user psock. */
     psock_from_user_methods* ps = NULL;
     int retval = allocator_allocate(a, (void**)&ps, sizeof(*ps));
diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 0968be9..a6c94ee 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(queue_create)(
     RCPR_MODEL_ASSERT(NULL != q);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the caller's pointer is NULL. */
+    *q = NULL;
+
     /* attempt to allocate memory for this queue. */
     queue* tmp = NULL;
     status retval = allocator_allocate(a, (void**)&tmp, sizeof(queue));
diff --git a/src/rbtree/rbtree_create.c b/src/rbtree/rbtree_create.c
index 3dfc092..1251934 100644
--- a/src/rbtree/rbtree_create.c
+++ b/src/rbtree/rbtree_create.c
@@ -85,6 +85,9 @@ RCPR_SYM(rbtree_create)(
     RCPR_MODEL_ASSERT(NULL != tree);
     RCPR_MODEL_ASSERT(NULL != a);
 
+    /* on failure, the caller's pointer is NULL. */
+    *tree = NULL;
+
     /* attempt to allocate memory for this rbtree instance. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(rbtree));
     if (STATUS_SUCCESS != retval)
diff --git a/src/slist/slist_create.c b/src/slist/slist_create.c
index c6c8321..7384885 100644
--- a/src/slist/slist_create.c
+++ b/src/slist/slist_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(slist_create)(
     RCPR_MODEL_ASSERT(NULL != list);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the caller's pointer is NULL. */
+    *list = NULL;
+
     /* attempt to allocate memory for this slist. */
     slist* l = NULL;
     int retval =
diff --git a/src/stack/stack_create.c b/src/stack/stack_create.c
index 7126711..ed93c1a 100644
--- a/src/stack/stack_create.c
+++ b/src/stack/stack_create.c
@@ -85,6 +85,9 @@ RCPR_SYM(stack_create)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(stack_size > 0);
 
+    /* on failure, the caller's pointer is NULL. */
+    *st = NULL;
+
     /* attempt to allocate memory for this stack. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(stack));
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 7e0e89a6c33ec6bc13dcb329a2de9d43daec88cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 36/41] fix: a buffered reader reported no socket type

---
 src/psock/psock_br_create_from_psock.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index f35e16f..65277bf 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -108,6 +108,9 @@ RCPR_SYM(psock_br_create_from_psock)(
     /* set the type. */
     tmp->hdr.type = PSOCK_TYPE_BUFFERED;
 
+    /* the socket type is that of the backing socket. */
+    tmp->hdr.socktype = sock->socktype;
+
     /* set the socket. */
     tmp->wrapped = sock;
 
-- 
2.43.0


From acc8dc9d383f8c2ab1b108cc810e0413a3848f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 37/41] fix: create the idle fiber of the async I/O service
 before installing the service

When creating the idle fiber failed, the I/O discipline stayed registered
without it, so every later psock_create_wrap_async succeeded with a
service in which no fiber can wait for a descriptor.
---
 src/psock/psock_create_wrap_async.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..3efec84 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -295,22 +295,26 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        release_retval = resource_release(fiber_resource_handle(idle_fiber));
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+
+        goto cleanup_discipline;
     }
 
     /* set the idle fiber. */
-- 
2.43.0


From 263049e3641701ac56b340759ea831b24bfe20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 38/41] fix: reclaim the stack structure when its region could
 not be unmapped

The fiber that owns the stack is gone after a failed release, so the
structure could no longer be reached.
---
 src/stack/stack_create.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/stack/stack_create.c b/src/stack/stack_create.c
index ed93c1a..2706903 100644
--- a/src/stack/stack_create.c
+++ b/src/stack/stack_create.c
@@ -154,7 +154,7 @@ done:
  */
 static status stack_release(resource* r)
 {
-    status retval;
+    status unmap_retval = STATUS_SUCCESS, retval;
     stack* st = (stack*)r;
     RCPR_MODEL_ASSERT(prop_stack_valid(st));
 
@@ -162,15 +162,20 @@ static status stack_release(resource* r)
     allocator* a = st->alloc;
 
     /* unmap the stack. */
-    retval = munmap(st->region, st->size);
-    if (retval < 0)
+    if (munmap(st->region, st->size) < 0)
     {
-        return ERROR_STACK_UNMAP;
+        unmap_retval = ERROR_STACK_UNMAP;
     }
 
     /* clear the stack structure. */
     RCPR_MODEL_EXEMPT(memset(st, 0, sizeof(stack)));
 
-    /* reclaim the stack structure. */
-    return allocator_reclaim(a, st);
+    /* reclaim the stack structure, even if it could not be unmapped. */
+    retval = allocator_reclaim(a, st);
+    if (STATUS_SUCCESS == retval)
+    {
+        retval = unmap_retval;
+    }
+
+    return retval;
 }
-- 
2.43.0


From 9e4768f4386d6b0a81002647e929b1ddcb84be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 39/41] fix: report that a descriptor read that would block
 read nothing

psock_read_raw hands on the count together with the would-block code, so
its caller took the whole requested size for received.
---
 src/psock/psock_from_descriptor_read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psock/psock_from_descriptor_read.c b/src/psock/psock_from_descriptor_read.c
index 5b39baf..f0c85a0 100644
--- a/src/psock/psock_from_descriptor_read.c
+++ b/src/psock/psock_from_descriptor_read.c
@@ -50,6 +50,8 @@ status RCPR_SYM(psock_from_descriptor_read)(
     {
         if (EAGAIN == errno || EWOULDBLOCK == errno)
         {
+            /* nothing was read. */
+            *size = 0;
             return ERROR_PSOCK_READ_WOULD_BLOCK;
         }
         else
-- 
2.43.0


From e95480f57cce4720d5989d55c0669d0579d7a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 40/41] fix: leave no room for a second descriptor when
 receiving one

The control buffer's alignment padding had room for two descriptors on
64 bit platforms; a peer that sent two left one open in the receiver.
---
 src/psock/psock_read_raw_descriptor.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_read_raw_descriptor.c b/src/psock/psock_read_raw_descriptor.c
index 1862224..eaffbb0 100644
--- a/src/psock/psock_read_raw_descriptor.c
+++ b/src/psock/psock_read_raw_descriptor.c
@@ -84,7 +84,9 @@ RCPR_SYM(psock_read_raw_descriptor)(
     memset(&m, 0, sizeof(m));
     m.msg_iov = &iov;
     m.msg_iovlen = 1;
-    m.msg_controllen = CMSG_SPACE(sizeof(int));
+    /* room for exactly one descriptor; CMSG_SPACE can have room for more, which
+     * would be received and lost. */
+    m.msg_controllen = CMSG_LEN(sizeof(int));
     m.msg_control = buf;
 
     /* set sentry for the receive socket. */
-- 
2.43.0


From 8b3ad355731021fbe22df93a75286a9505ba6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 41/41] fix: connecting by host name used the resolver's shared
 static buffer, so concurrent calls crashed

---
 .../psock_create_from_hostname_and_port.c     | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/psock/psock_create_from_hostname_and_port.c b/src/psock/psock_create_from_hostname_and_port.c
index bb60cce..f0082f9 100644
--- a/src/psock/psock_create_from_hostname_and_port.c
+++ b/src/psock/psock_create_from_hostname_and_port.c
@@ -68,7 +68,8 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
     const char* hostname, unsigned int port)
 {
     status retval;
-    struct hostent* resolved;
+    struct addrinfo hints;
+    struct addrinfo* resolved;
     int desc;
 
     /* parameter sanity checks. */
@@ -80,16 +81,17 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
     *sock = NULL;
 
     /* attempt to resolve this as an IPv4 address. */
-    resolved = gethostbyname2(hostname, AF_INET);
-    if (NULL != resolved)
+    memset(&hints, 0, sizeof(hints));
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    if (0 == getaddrinfo(hostname, NULL, &hints, &resolved))
     {
         struct sockaddr_in addr;
 
-        /* set the socket address family and port. */
-        memset(&addr, 0, sizeof(addr));
-        addr.sin_family = AF_INET;
+        /* set the socket address and port. */
+        memcpy(&addr, resolved->ai_addr, sizeof(addr));
         addr.sin_port = htons(port);
-        memcpy(&addr.sin_addr, resolved->h_addr_list[0], resolved->h_length);
+        freeaddrinfo(resolved);
 
         /* create a socket. */
         desc = socket(AF_INET, SOCK_STREAM, 0);
@@ -113,13 +115,18 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
         struct sockaddr_in6 addr;
 
         /* attempt to resolve this as an IPv6 address. */
-        resolved = gethostbyname2(hostname, AF_INET6);
-        if (NULL == resolved)
+        hints.ai_family = AF_INET6;
+        if (0 != getaddrinfo(hostname, NULL, &hints, &resolved))
         {
             retval = ERROR_PSOCK_HOSTNAME_LOOKUP_FAILURE;
             goto done;
         }
 
+        /* set the socket address and port. */
+        memcpy(&addr, resolved->ai_addr, sizeof(addr));
+        addr.sin6_port = htons(port);
+        freeaddrinfo(resolved);
+
         /* create a socket. */
         desc = socket(AF_INET6, SOCK_STREAM, 0);
         if (desc < 0)
@@ -128,12 +135,6 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
             goto done;
         }
 
-        /* set the socket address family and port. */
-        memset(&addr, 0, sizeof(addr));
-        addr.sin6_family = AF_INET6;
-        addr.sin6_port = htons(port);
-        memcpy(&addr.sin6_addr, resolved->h_addr_list[0], resolved->h_length);
-
         /* attempt to connect to the given address using this socket. */
         retval = connect(desc, (struct sockaddr*)&addr, sizeof(addr));
         if (retval < 0)
-- 
2.43.0

