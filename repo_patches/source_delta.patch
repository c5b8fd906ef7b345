From 48e2bc391c4ad7ca759c203c121953868aa25c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 01/58] fix: recompute handle pointer after the close callback
 in hclose

Closing an object may run other coroutines, which may create handles and
reallocate the handle table; hclose then wrote through a stale pointer and
left the slot marked as used.
---
 handle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handle.c b/handle.c
index 3d658ca..9b5835f 100644
--- a/handle.c
+++ b/handle.c
@@ -155,6 +155,9 @@ int dill_hclose(int h) {
     hndl->vfs->close(hndl->vfs);
     /* Restore the previous state. */
     dill_no_blocking(old);
+    /* Other coroutines may have run in the meantime and made the handle array
+       to be reallocated. We have to recompute the pointer. */
+    hndl = &ctx->handles[h];
     /* Mark the cache as invalid. */
     hndl->ptr = NULL;
     /* Return a handle to the shared pool. */
-- 
2.43.0


From b3bd195e62c17405d2b5775c5fec0cd62ac6060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 02/58] fix: hand a malformed iolist back unmodified

The error path of the iolist check reset the mark on the offending item
instead of on the items marked so far, so after EINVAL the list stayed
poisoned and every later use of it failed.
---
 iol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index c1d4d12..01351ab 100644
--- a/iol.c
+++ b/iol.c
@@ -51,7 +51,9 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     return 0;
 error:;
     struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    /* Unmark exactly those items that were marked above. In the case of a loop
+       in the list 'it' may have been marked as well. */
+    for(it2 = first; nbf; it2 = it2->iol_next, --nbf) it2->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From 06c53a3fa574a82849d8fa5b0d80d0e9ab3d3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 03/58] fix: don't dereference a null list in brecvl

Both ends being null passes the check, but the check itself dereferenced
the last item. Same condition as in mrecvl.
---
 bsock.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..51a0b0d 100644
--- a/bsock.c
+++ b/bsock.c
@@ -58,7 +58,9 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
+    if(dill_slow((last && last->iol_next) ||
+          (!first && last) ||
+          (first && !last))) {
         errno = EINVAL; return -1;}
     return b->brecvl(b, first, last, deadline);
 }
-- 
2.43.0


From 6b02d6cefd65accb29b21954f497e5bd2267aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 04/58] fix: don't index the base64 table with negative values

Plain char may be signed, so bytes above 127 in a (remotely supplied) key
were looked up before the start of the decoding table.
---
 utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index eb3582d..d164ddc 100644
--- a/utils.c
+++ b/utils.c
@@ -166,11 +166,11 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
         0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
 
     for(io = 0, ii = 0, v = 0, rem = 0; ii < in_len; ii++) {
-        if(isspace(in[ii]))
+        if(isspace((uint8_t)in[ii]))
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(uint8_t)in[ii]];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From 13e103926c05277dd2318a614c30da0ccced4bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 05/58] fix: report errors while skipping unwanted data in
 fd_recv

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index 92e9388..67bde4e 100644
--- a/fd.c
+++ b/fd.c
@@ -328,6 +328,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From 52bc3e6de5fce42693892148006e335cb27ded7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 06/58] fix: don't wait for the socket when only empty buffers
 remain to be sent

---
 fd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fd.c b/fd.c
index 67bde4e..e831367 100644
--- a/fd.c
+++ b/fd.c
@@ -182,8 +182,9 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
             sz = 0;
         }
         /* Adjust the iovec array so that it doesn't contain data
-           that was already sent. */
-        while(sz) {
+           that was already sent. Drop empty elements as well so that we don't
+           wait when there's nothing left to send. */
+        while(1) {
             struct iovec *head = &hdr.msg_iov[0];
             if(head->iov_len > sz) {
                 head->iov_base += sz;
-- 
2.43.0


From 31a001a0b8ee690fab7fc677142796df70557ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 07/58] fix: set errno when bundle_mem is passed a null pointer

---
 cr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..c1faea3 100644
--- a/cr.c
+++ b/cr.c
@@ -85,8 +85,7 @@ DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
-    int err;
-    if(dill_slow(!mem)) {err = EINVAL; return -1;}
+    if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
-- 
2.43.0


From 4a07b7ee45da05c926fe6a4f0d035e4f5f59b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 08/58] fix: refuse user-supplied stacks too small for the
 book-keeping

---
 cr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index c1faea3..d7bae59 100644
--- a/cr.c
+++ b/cr.c
@@ -249,6 +249,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -273,10 +275,10 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         uintptr_t top = (uintptr_t)*ptr;
         top += len;
         top &= ~(uintptr_t)15;
+        if(dill_slow(top < (uintptr_t)*ptr + sizeof(struct dill_cr))) {
+            err = ENOMEM; goto error2;}
         stacksz = top - (uintptr_t)*ptr;
         cr = (struct dill_cr*)top;
-        if(dill_slow(stacksz < sizeof(struct dill_cr))) {
-            err = ENOMEM; goto error2;}
     }
 #if defined DILL_CENSUS
     /* Mark the bytes in the stack as unused. */
-- 
2.43.0


From 669495c45d58f42ef10edf7725b9a4d527ff4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 09/58] fix: don't truncate the poll timeout for distant
 deadlines

---
 cr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index d7bae59..32e60f2 100644
--- a/cr.c
+++ b/cr.c
@@ -21,6 +21,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -467,7 +468,11 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    /* If the deadline is too far away for the poll function
+                       wake up earlier and try again. */
+                    timeout = nw >= deadline ? 0 :
+                        deadline - nw > INT_MAX ? INT_MAX :
+                        (int)(deadline - nw);
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From 27123eb6c16910210641580696390fc2d7b60679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 10/58] fix: don't resume a coroutine waiting in hclose when it
 is being closed itself

---
 cr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index 32e60f2..1c0357f 100644
--- a/cr.c
+++ b/cr.c
@@ -385,7 +385,9 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
         /* No blocking calls from this point on. */
         cr->no_blocking1 = 1;
         /* Resume the coroutine if it was blocked. */
-        if(!cr->ready.next)
+        /* A coroutine that is itself waiting in hclose() is not interrupted.
+           It will be resumed once the coroutine it is closing finishes. */
+        if(!cr->ready.next && (cr == ctx->r || !cr->no_blocking2))
             dill_cancel(cr, ECANCELED);
         /* Wait for the coroutine to stop executing. With no clauses added,
            the only mechanism to resume is through dill_cancel(). This is not
-- 
2.43.0


From 2d425e17c156d41cfec1f2cb6ad8b49a8acbfaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 11/58] fix: withdraw the bundle_wait clause when the waiting
 ends

---
 cr.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/cr.c b/cr.c
index 1c0357f..ca7dd8b 100644
--- a/cr.c
+++ b/cr.c
@@ -75,13 +75,20 @@ struct dill_bundle {
     struct dill_hvfs vfs;
     /* List of coroutines in this bundle. */
     struct dill_list crs;
-    /* If somebody is doing hdone() on this bundle, here's the clause
-       to trigger when all coroutines are finished. */
-    struct dill_clause *waiter;
+    /* List of coroutines doing bundle_wait() on this bundle, to be resumed
+       when all coroutines are finished. */
+    struct dill_list waiters;
     /* If true, the bundle was created by bundle_mem. */
     unsigned int mem : 1;
 };
 
+/* Clause used by bundle_wait(). */
+struct dill_bundle_clause {
+    struct dill_clause cl;
+    /* An item in dill_bundle::waiters list. */
+    struct dill_list item;
+};
+
 DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
@@ -91,7 +98,7 @@ int dill_bundle_mem(struct dill_bundle_storage *mem) {
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
     dill_list_init(&b->crs);
-    b->waiter = NULL;
+    dill_list_init(&b->waiters);
     b->mem = 1;
     return dill_hmake(&b->vfs);
 }
@@ -117,6 +124,21 @@ static void *dill_bundle_query(struct dill_hvfs *vfs, const void *type) {
     return NULL;
 }
 
+static void dill_bundle_cancel(struct dill_clause *cl) {
+    struct dill_bundle_clause *bcl = dill_cont(cl,
+        struct dill_bundle_clause, cl);
+    dill_list_erase(&bcl->item);
+}
+
+/* Resume everybody waiting for the bundle to finish. */
+static void dill_bundle_finished(struct dill_bundle *self) {
+    while(!dill_list_empty(&self->waiters)) {
+        struct dill_bundle_clause *bcl = dill_cont(
+            dill_list_next(&self->waiters), struct dill_bundle_clause, item);
+        dill_trigger(&bcl->cl, 0);
+    }
+}
+
 static void dill_bundle_close(struct dill_hvfs *vfs) {
     struct dill_bundle *self = (struct dill_bundle*)vfs;
     struct dill_list *it = &self->crs;
@@ -124,6 +146,7 @@ static void dill_bundle_close(struct dill_hvfs *vfs) {
         struct dill_cr *cr = dill_cont(it, struct dill_cr, bundle);
         dill_cr_close(&cr->vfs);
     }
+    dill_bundle_finished(self);
     if(!self->mem) free(self);
 }
 
@@ -135,13 +158,12 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundle_clause bcl;
+    dill_list_insert(&bcl.item, &self->waiters);
+    dill_waitfor(&bcl.cl, 0, dill_bundle_cancel);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
@@ -355,11 +377,11 @@ void dill_epilogue(void) {
        in the process of being closed. */
     if(!ctx->r->no_blocking1) {
         /* If this is the last coroutine in the bundle and there's someone
-           waiting for hdone() on the bundle unblock them. */
+           waiting for the bundle unblock them. */
         if(dill_list_oneitem(&ctx->r->bundle)) {
             struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
                 struct dill_bundle, crs);
-            if(b->waiter) dill_trigger(b->waiter, 0);
+            dill_bundle_finished(b);
         }
         dill_list_erase(&ctx->r->bundle);
         dill_cr_close(&ctx->r->vfs);
-- 
2.43.0


From d314fff6c74fab3767c2c3d522ce54bd971bc478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 12/58] fix: initialise the events of a new slot of the
 poll-based pollset

---
 poll.c.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poll.c.inc b/poll.c.inc
index a575799..a65c415 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,7 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +156,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
-- 
2.43.0


From cc46e2383e356f952e826a5d12ffa27c8ecfbf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 13/58] fix: don't report events nobody waits for as resumed
 coroutines (poll)

---
 poll.c.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index a65c415..4fe8430 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -194,6 +194,7 @@ int dill_pollset_poll(int timeout) {
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
     int i;
+    int fired = 0;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
         struct dill_fdinfo *fdi = &ctx->fdinfos[pfd->fd];
@@ -202,11 +203,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            fired = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            fired = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -224,6 +227,8 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    /* Return 1 only if at least one coroutine was resumed. There may be events
+       (e.g. POLLHUP) on file descriptors that nobody waits for any more. */
+    return fired;
 }
 
-- 
2.43.0


From 2eb7d6136c3daa4d98a3a2fe0937db096a5c9cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 14/58] fix: make fdclean harmless for file descriptors out of
 range

---
 epoll.c.inc  | 1 +
 kqueue.c.inc | 1 +
 poll.c.inc   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..f2d0f69 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/kqueue.c.inc b/kqueue.c.inc
index 92a0674..85f18f3 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -172,6 +172,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index 4fe8430..344e52e 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -168,6 +168,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From 79cb5a54288a2640ccd7ba1b127c9cd2c05a4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 15/58] fix: don't truncate suffix-delimited messages, allow
 skipping them

---
 suffix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/suffix.c b/suffix.c
index 1dce9e8..ce8e602 100644
--- a/suffix.c
+++ b/suffix.c
@@ -156,21 +156,22 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
+    if(first) it = *first;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
         /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
+        while(it.iol_len == 0) {
             if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
         /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
+        if(it.iol_base) {
             ((uint8_t*)it.iol_base)[0] = self->buf[0];
             it.iol_base = ((uint8_t*)it.iol_base) + 1;
-            it.iol_len--;
         }
+        it.iol_len--;
         /* Read new character into the temporary buffer. */
         memmove(self->buf, self->buf + 1, self->suffixlen - 1);
         rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-- 
2.43.0


From ea1b43f1589ff2438c506003ad0f6c8b0f14b40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 16/58] fix: pass a well-formed list when receiving a
 length-prefixed message

---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index 1746872..8095097 100644
--- a/prefix.c
+++ b/prefix.c
@@ -180,7 +180,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From 939f8dcbc098c3d877e22760b9571b33fdcb9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 17/58] fix: refuse message sizes that don't fit the prefix or
 the return value

---
 prefix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prefix.c b/prefix.c
index 8095097..5de747b 100644
--- a/prefix.c
+++ b/prefix.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -140,6 +141,7 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
         sz >>= 8;
     }
+    if(dill_slow(sz > 0)) {self->outerr = 1; errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
@@ -158,9 +160,13 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
         uint8_t c = szbuf[self->bigendian ? i : (self->hdrlen - i - 1)];
+        if(dill_slow(sz >> 56)) {self->inerr = 1; errno = EMSGSIZE; return -1;}
         sz <<= 8;
         sz |= c;
     }
+    /* Such a size couldn't be returned to the user. */
+    if(dill_slow(sz > SSIZE_MAX)) {
+        self->inerr = 1; errno = EMSGSIZE; return -1;}
     /* Skip the message. */
     if(!first) {
         rc = dill_brecv(self->u, NULL, sz, deadline);
-- 
2.43.0


From e04a27c80c6f57013ee5a18307bef80c6ddcb509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 18/58] fix: refuse terminators longer than 32 bytes

---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index 5c91677..a34523e 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
-- 
2.43.0


From 64c75aa2301e93ab65b470c12f5a012913429996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 19/58] fix: no messages can be sent or received after the
 terminator

---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index a34523e..ad76fb6 100644
--- a/term.c
+++ b/term.c
@@ -157,6 +157,7 @@ error:;
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -164,6 +165,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From 06abecdbdaa70ca758f87a3fd9194cfc7b441b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 20/58] fix: receive messages exactly in the terminator
 protocol

---
 term.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/term.c b/term.c
index ad76fb6..b12a8f0 100644
--- a/term.c
+++ b/term.c
@@ -176,11 +176,15 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
+    /* If there's no iolist, the message is going to be skipped. */
+    struct dill_iolist skip = {NULL, SIZE_MAX, NULL, 0};
+    if(!first) first = last = &skip;
     struct dill_iolist trimmed = {0};
     int rc = dill_ioltrim(first, self->len, &trimmed);
     uint8_t buf[self->len];
     struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
-    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
+    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol :
+        trimmed.iol_next ? last : &trimmed, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
@@ -188,7 +192,9 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    /* Message may still be larger than the buffer supplied by the user. */
+    rc = dill_iolto(buf, sz < self->len ? sz : self->len, first);
+    if(dill_slow(rc < 0)) {errno = EMSGSIZE; return -1;}
     return sz;
 }
 
-- 
2.43.0


From 706e5690d3ab235ca892bbb5c30d50f0a4919406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 21/58] fix: invalidate the handle when detaching prefix,
 suffix and term protocols

---
 prefix.c | 5 ++++-
 suffix.c | 5 ++++-
 term.c   | 9 ++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/prefix.c b/prefix.c
index 5de747b..2dca431 100644
--- a/prefix.c
+++ b/prefix.c
@@ -118,7 +118,10 @@ int dill_prefix_detach(int s) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Invalidate the handle. The underlying socket stays open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index ce8e602..b2ad87a 100644
--- a/suffix.c
+++ b/suffix.c
@@ -121,7 +121,10 @@ int dill_suffix_detach(int s, int64_t deadline) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Invalidate the handle. The underlying socket stays open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/term.c b/term.c
index b12a8f0..fc89fa7 100644
--- a/term.c
+++ b/term.c
@@ -138,17 +138,20 @@ int dill_term_detach(int s, int64_t deadline) {
             struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
             ssize_t sz = dill_term_mrecvl(&self->mvfs, &iol, &iol, deadline);
             if(sz < 0) {
-                if(errno == EPIPE) break;
+                if(self->indone) break;
                 err = errno;
                 goto error;
             }
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Invalidate the handle. The underlying socket stays open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:;
-    int rc = dill_hclose(s);
+    rc = dill_hclose(s);
     dill_assert(rc == 0);
     errno = err;
     return -1;
-- 
2.43.0


From f3ed4327b9af7e3e18720ea21bc00e1bc5a6d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 22/58] fix: check the HTTP version in start lines

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index 8dcb106..b56bf86 100644
--- a/http.c
+++ b/http.c
@@ -177,7 +177,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -226,7 +226,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From ada3132d7dc6042eb2e5f9f74558cd50357a0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 23/58] fix: don't write into empty buffers when receiving HTTP
 lines

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index b56bf86..be5cd92 100644
--- a/http.c
+++ b/http.c
@@ -162,7 +162,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -170,7 +170,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -244,7 +244,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -294,7 +294,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -304,7 +304,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     /* Value. */
     start = pos;
     pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From b6fce9d595b5d7dbf29d5b2bafc9f2b455eb690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 24/58] fix: strip blanks around HTTP field values correctly

---
 http.c  | 9 ++++-----
 utils.c | 6 +++---
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/http.c b/http.c
index be5cd92..5666ffc 100644
--- a/http.c
+++ b/http.c
@@ -257,7 +257,9 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     /* Check whether name contains only valid characters. */
     if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
         errno = EINVAL; return -1;}
-    if (strlen(value) == 0) {errno = EPROTO; return -1;}
+    const char *start = dill_lstrip(value, ' ');
+    const char *end = dill_rstrip(start, ' ');
+    if(dill_slow(start == end)) {errno = EPROTO; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
     iol[0].iol_len = strlen(name);
@@ -267,9 +269,6 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_len = 2;
     iol[1].iol_next = &iol[2];
     iol[1].iol_rsvd = 0;
-    const char *start = dill_lstrip(value, ' ');
-    const char *end = dill_rstrip(start, ' ');
-    dill_assert(start < end);
     iol[2].iol_base = (void*)start;
     iol[2].iol_len = end - start;
     iol[2].iol_next = NULL;
@@ -303,7 +302,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
     if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
diff --git a/utils.c b/utils.c
index d164ddc..234fd0a 100644
--- a/utils.c
+++ b/utils.c
@@ -104,9 +104,9 @@ const char *dill_lstrip(const char *string, char delim) {
 }
 
 const char *dill_rstrip(const char *string, char delim) {
-    const char *end = string + strlen(string) - 1;
-    while(end > string && *end == delim) --end;
-    return ++end;
+    const char *end = string + strlen(string);
+    while(end > string && *(end - 1) == delim) --end;
+    return end;
 }
 
 int dill_random(uint8_t *buf, size_t len) {
-- 
2.43.0


From db60f5d7e803e0ad5bb9a7b1cbd108118b283da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 25/58] fix: refuse values that would break the structure of
 HTTP lines

---
 http.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/http.c b/http.c
index 5666ffc..3bcc5d6 100644
--- a/http.c
+++ b/http.c
@@ -122,12 +122,33 @@ error:
     return u;
 }
 
+/* Check that the string consists of characters other than blanks, control
+   characters and those listed in 'forbidden'. It must not be empty. */
+static int dill_http_istoken(const char *str, const char *forbidden) {
+    const char *it;
+    for(it = str; *it; ++it) {
+        uint8_t c = (uint8_t)*it;
+        if(dill_slow(c <= 0x20 || c >= 0x7f || strchr(forbidden, c))) return 0;
+    }
+    return it != str;
+}
+
+/* Check that the string doesn't contain control characters. */
+static int dill_http_istext(const char *str) {
+    for(; *str; ++str) {
+        uint8_t c = (uint8_t)*str;
+        if(dill_slow((c < 0x20 && c != '\t') || c == 0x7f)) return 0;
+    }
+    return 1;
+}
+
 int dill_http_sendrequest(int s, const char *command, const char *resource,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    if (strpbrk(command, " \t\n") != NULL) {errno = EINVAL; return -1;}
-    if (strpbrk(resource, " \t\n") != NULL) {errno = EINVAL; return -1;}
+    if(dill_slow(!dill_http_istoken(command, ""))) {errno = EINVAL; return -1;}
+    if(dill_slow(!dill_http_istoken(resource, ""))) {
+        errno = EINVAL; return -1;}
     struct dill_iolist iol[4];
     iol[0].iol_base = (void*)command;
     iol[0].iol_len = strlen(command);
@@ -189,6 +210,7 @@ int dill_http_sendstatus(int s, int status, const char *reason, int64_t deadline
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     if(dill_slow(status < 100 || status > 599)) {errno = EINVAL; return -1;}
+    if(dill_slow(!dill_http_istext(reason))) {errno = EINVAL; return -1;}
     char buf[4];
     buf[0] = (status / 100) + '0';
     status %= 100;
@@ -255,8 +277,9 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     /* Check whether name contains only valid characters. */
-    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
+    if(dill_slow(!dill_http_istoken(name, "(),/:;<=>?@[\\]{}\""))) {
         errno = EINVAL; return -1;}
+    if(dill_slow(!dill_http_istext(value))) {errno = EINVAL; return -1;}
     const char *start = dill_lstrip(value, ' ');
     const char *end = dill_rstrip(start, ' ');
     if(dill_slow(start == end)) {errno = EPROTO; return -1;}
-- 
2.43.0


From c4fab8f2a355884d2bdd391f41232668f03e2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 26/58] fix: invalidate the handle when detaching HTTP protocol

---
 http.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 3bcc5d6..552ae46 100644
--- a/http.c
+++ b/http.c
@@ -117,7 +117,10 @@ int dill_http_detach(int s, int64_t deadline) {
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
 error:
-    if(!obj->mem) free(obj);
+    /* Invalidate the handle. The underlying socket is not owned anymore. */
+    obj->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return u;
 }
-- 
2.43.0


From 3124f6fdcd05fece4a4056467bd9392acafcd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 27/58] fix: close the socket when WebSocket upgrade is refused

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 013a516..42265b8 100644
--- a/ws.c
+++ b/ws.c
@@ -119,7 +119,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 4b972171d8e327e13463241e8951b1b86ad48cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 28/58] fix: refuse WebSocket requests without Host field

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 42265b8..5caa0f5 100644
--- a/ws.c
+++ b/ws.c
@@ -271,7 +271,8 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
     }
-    if(dill_slow(!has_upgrade || !has_connection || !has_key || !has_version)) {
+    if(dill_slow(!has_host || !has_upgrade || !has_connection || !has_key ||
+          !has_version)) {
         err = EPROTO; goto error;}
 
     /* Send HTTP response back to the client. */
-- 
2.43.0


From bba9e9ea26f5ca9a9a9826588ab2b9dbc5589620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 29/58] fix: reassemble and unmask WebSocket messages correctly

---
 ws.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ws.c b/ws.c
index 5caa0f5..d92407c 100644
--- a/ws.c
+++ b/ws.c
@@ -380,8 +380,9 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
-    /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    /* Message may consist of multiple frames. Read them one by one.
+       If there's no buffer supplied, the message is skipped. */
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     while(1) {
         struct dill_iolist iol_msg;
@@ -439,19 +440,26 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
         }
         /* Frame may be read into multiple iolist elements. */
+        size_t pos = 0;
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
                 if(dill_slow(rc < 0)) return -1;
-                if(self->server) {
+                if(self->server && it.iol_base) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+                        ((uint8_t*)it.iol_base)[i] ^= mask[(pos + i) % 4];
                 }
             }
+            pos += toread;
             sz -= toread;
-            if(sz == 0) break;
+            if(sz == 0) {
+                /* Next frame continues where this one has ended. */
+                if(it.iol_base) it.iol_base = (uint8_t*)it.iol_base + toread;
+                it.iol_len -= toread;
+                break;
+            }
             if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
-- 
2.43.0


From a4f3b014611a24d13ac37c26312f80d492eb6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 30/58] fix: refuse misplaced WebSocket continuation frames

---
 ws.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ws.c b/ws.c
index d92407c..1670354 100644
--- a/ws.c
+++ b/ws.c
@@ -380,6 +380,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
+    int fragment = 0;
     /* Message may consist of multiple frames. Read them one by one.
        If there's no buffer supplied, the message is skipped. */
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
@@ -394,11 +395,14 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            if(dill_slow(!fragment)) {errno = EPROTO; return -1;}
             break;
         case 1:
+            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_TEXT;
             break;
         case 2:
+            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_BINARY;
             break;
         case 8:
@@ -464,6 +468,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             it = *it.iol_next;
         }
         if(hdr1[0] & 0x80) break;
+        fragment = 1;
     }
     if(dill_slow(self->indone)) {
         if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
-- 
2.43.0


From f6fcce14c0dff79fa50dbf9f8c683ffc20555e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 31/58] fix: refuse WebSocket messages whose size can't be
 returned

---
 ws.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 1670354..10bd407 100644
--- a/ws.c
+++ b/ws.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -432,8 +433,13 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             uint8_t hdr2[8];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
             if(dill_slow(rc < 0)) return -1;
-            sz = dill_getll(hdr2);
+            uint64_t sz64 = dill_getll(hdr2);
+            /* The most significant bit must not be set. */
+            if(dill_slow(sz64 >> 63)) {errno = EPROTO; return -1;}
+            if(dill_slow(sz64 > SSIZE_MAX)) {errno = EMSGSIZE; return -1;}
+            sz = sz64;
         }
+        if(dill_slow(sz > SSIZE_MAX - res)) {errno = EMSGSIZE; return -1;}
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
-- 
2.43.0


From a71d40e3fac9e91f43b0887b2b2148217024244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 32/58] fix: don't mix up WebSocket close frame with an
 unfinished message

---
 ws.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 10bd407..72cc201 100644
--- a/ws.c
+++ b/ws.c
@@ -381,6 +381,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
+    int closing = 0;
     int fragment = 0;
     /* Message may consist of multiple frames. Read them one by one.
        If there's no buffer supplied, the message is skipped. */
@@ -415,7 +416,9 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             iol_msg.iol_len = sizeof(self->msg);
             iol_msg.iol_next = NULL;
             iol_msg.iol_rsvd = 0;
-            self->indone = 1;
+            /* An unfinished message may precede the close frame. */
+            res = 0;
+            closing = 1;
             break;
         default:
             errno = EPROTO;
@@ -476,7 +479,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         if(hdr1[0] & 0x80) break;
         fragment = 1;
     }
-    if(dill_slow(self->indone)) {
+    if(dill_slow(closing)) {
         if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
         if(res >= 2) {
            self->status = dill_gets((uint8_t*)&self->status);
@@ -485,6 +488,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
            self->msglen = (uint8_t)res - 2;
         }
         else self->msglen = 0;
+        self->indone = 1;
         errno = EPIPE;
         return -1;
     }
-- 
2.43.0


From 9beb7a9d285b72320f38fa81cb2cd6ae098b35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 33/58] fix: failure to send or receive WebSocket message is
 final

---
 ws.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 72cc201..13e2ebf 100644
--- a/ws.c
+++ b/ws.c
@@ -42,6 +42,8 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
+    unsigned int outerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -83,6 +85,8 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
+    self->outerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -205,6 +209,8 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
+    self->outerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -323,6 +329,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
@@ -352,11 +359,12 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
         sz += 4;
     }
     rc = dill_bsend(self->u, buf, sz, deadline);
-    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
     /* On the server side we can send the payload as is. */
     if(self->server) {
+        if(!first) return 0;
         rc = dill_bsendl(self->u, first, last, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
         return 0;
     }
     /* On the client side, the payload has to be masked. */
@@ -367,7 +375,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
             uint8_t b = ((uint8_t*)first->iol_base)[i] ^
                 mask[pos++ % sizeof(mask)];
             rc = dill_bsend(self->u, &b, 1, deadline); 
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
         }
         first = first->iol_next;
     }
@@ -378,8 +386,12 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
+    /* Unless the whole message is received the state of the stream
+       is unknown. */
+    self->inerr = 1;
     size_t res = 0;
     int closing = 0;
     int fragment = 0;
@@ -489,9 +501,11 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         }
         else self->msglen = 0;
         self->indone = 1;
+        self->inerr = 0;
         errno = EPIPE;
         return -1;
     }
+    self->inerr = 0;
     return res;
 }
 
-- 
2.43.0


From de2bacb6b7c567f376ca3cca21f133529c7e666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 34/58] fix: never send invalid WebSocket close frame

---
 ws.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ws.c b/ws.c
index 13e2ebf..eac0633 100644
--- a/ws.c
+++ b/ws.c
@@ -563,6 +563,9 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
         (!buf && len > 0))) {errno = EINVAL; return -1;}
+    /* Control frames can't be longer than 125 bytes. There can be no text
+       without a status. */
+    if(dill_slow(len > (status ? 123 : 0))) {errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From ea7ca4a8183fff8e4a52e0babf9b84866476f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 35/58] fix: WebSocket detach invalidates the handle and closes
 it on failure

---
 ws.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/ws.c b/ws.c
index eac0633..6c0ead6 100644
--- a/ws.c
+++ b/ws.c
@@ -582,30 +582,41 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
 
 int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
+    int err;
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
-    if(dill_slow(!self)) return -1;
+    if(dill_slow(!self)) {err = errno; goto error;}
     if(!self->outdone) {
         int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
         ssize_t sz = dill_ws_recvl_base(&self->mvfs, NULL, &iol, &iol,
             deadline);
         if(sz < 0) {
-             if(errno == EPIPE) break;
-             return -1;
+             if(self->indone) break;
+             err = errno;
+             goto error;
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Invalidate the handle. The underlying socket stays open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
+error:
+    if(s >= 0) dill_hclose(s);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From 7638e778edd6ce458a750abd8b45e585900aae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 36/58] fix: report failure to bind UDP socket

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From f007ff423bba09640d6ae06caa37d4728f19d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 37/58] fix: report UDP packets larger than the supplied buffer

---
 udp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udp.c b/udp.c
index bc7b22c..3c7318c 100644
--- a/udp.c
+++ b/udp.c
@@ -187,6 +187,9 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            /* Never pass a part of a datagram to the user. */
+            if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {
+                errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From 4acc3d6e086faa1d5f1b662f8cab5123dd89d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 38/58] fix: release the handle when closing TCP and IPC
 connections

---
 ipc.c | 5 ++---
 tcp.c | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ipc.c b/ipc.c
index 06d64ab..59ef23c 100644
--- a/ipc.c
+++ b/ipc.c
@@ -321,10 +321,9 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
-    return 0;
+    return dill_hclose(s);
 error:
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/tcp.c b/tcp.c
index cdc72c9..1d1db51 100644
--- a/tcp.c
+++ b/tcp.c
@@ -233,10 +233,9 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
-    return 0;
+    return dill_hclose(s);
 error:
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From acea69478070d9d7e9f9b2dca5f1915f82db619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 39/58] fix: don't leak the file descriptor if turning it into
 a socket fails

---
 ipc.c | 12 ++++++++----
 tcp.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index 59ef23c..88e6a87 100644
--- a/ipc.c
+++ b/ipc.c
@@ -106,12 +106,14 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -398,12 +400,14 @@ int dill_ipc_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index 1d1db51..600a086 100644
--- a/tcp.c
+++ b/tcp.c
@@ -100,12 +100,14 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -310,12 +312,14 @@ int dill_tcp_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From 1bb0cafc158943ed68c4da44fe34689a43af4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 40/58] fix: check for missing storage in ipc_listen_mem

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index 88e6a87..dd5f91b 100644
--- a/ipc.c
+++ b/ipc.c
@@ -416,6 +416,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
-- 
2.43.0


From ee2714bac8a66cb0ef14e5039f50912c47319bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 41/58] fix: don't leak memory when ipc_pair fails

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index dd5f91b..429c972 100644
--- a/ipc.c
+++ b/ipc.c
@@ -563,6 +563,7 @@ int dill_ipc_pair(int s[2]) {
     return 0;
 error6:
     rc = dill_hclose(s[0]);
+    free(conn1);
     goto error2;
 error5:
     free(conn1);
-- 
2.43.0


From cc40e7a3086d0975f15a707334b6ef567a270d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 42/58] fix: failure to pass a file descriptor breaks only one
 direction, doesn't crash

---
 ipc.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index 429c972..2cc528b 100644
--- a/ipc.c
+++ b/ipc.c
@@ -33,6 +33,12 @@
 #include "fd.h"
 #include "utils.h"
 
+#if defined MSG_NOSIGNAL
+#define DILL_IPC_NOSIGNAL MSG_NOSIGNAL
+#else
+#define DILL_IPC_NOSIGNAL 0
+#endif
+
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su);
 
 dill_unique_id(dill_ipc_listener_type);
@@ -234,13 +240,15 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     cmsg->cmsg_len = CMSG_LEN(sizeof(fd));
     *((int*)CMSG_DATA(cmsg)) = fd;
     msg.msg_controllen = cmsg->cmsg_len;
+    self->sbusy = 1;
     int rc = dill_fdout(self->fd, deadline);
+    self->sbusy = 0;
     if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
+    ssize_t sz = sendmsg(self->fd, &msg, DILL_IPC_NOSIGNAL);
     if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+       self->outerr = 1;
+       if(errno == EPIPE) errno = ECONNRESET;
+       return -1;
     }
     return 0;
 }
@@ -263,14 +271,13 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     unsigned char control[1024];
     msg.msg_control = control;
     msg.msg_controllen = sizeof(control);
+    self->rbusy = 1;
     int rc = dill_fdin(self->fd, deadline);
+    self->rbusy = 0;
     if(dill_slow(rc < 0)) return -1;
     ssize_t sz = recvmsg(self->fd, &msg, 0);
     if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
-    }
+    if(dill_slow(sz < 0)) {self->inerr = 1; return -1;}
     /* Loop over the auxiliary data to find the embedded file descriptor. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
-- 
2.43.0


From 7326be378dcc5a58970869dd224295e241b76d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 43/58] fix: invalidate the handle when detaching TLS protocol

---
 tls.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 958b10e..d2cf04d 100644
--- a/tls.c
+++ b/tls.c
@@ -277,10 +277,11 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
-    dill_tls_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From 895810065ae7e199bf9df3eee0258ada549724b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 44/58] fix: don't free BIO twice when TLS handshake fails

---
 tls.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index d2cf04d..d124bc7 100644
--- a/tls.c
+++ b/tls.c
@@ -96,7 +96,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -117,14 +117,12 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
         ERR_clear_error();
         int rc = SSL_connect(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
@@ -182,7 +180,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -203,14 +201,12 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
         ERR_clear_error();
         rc = SSL_accept(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
-- 
2.43.0


From c82014338b9caf49d23444f15a30938c6180d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 45/58] fix: invalid ports and modes are refused rather than
 crashing in ipaddr

---
 ipaddr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..d740c39 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -180,6 +180,12 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
     if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    if(dill_slow(!addr || port < 0 || port > 0xffff ||
+          (mode != DILL_IPADDR_IPV4 && mode != DILL_IPADDR_IPV6 &&
+          mode != DILL_IPADDR_PREF_IPV4 && mode != DILL_IPADDR_PREF_IPV6))) {
+        errno = EINVAL;
+        return -1;
+    }
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
@@ -267,7 +273,8 @@ int dill_ipaddr_remote(struct dill_ipaddr *addr, const char *name, int port,
 int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
       const char *name, int port, int mode, int64_t deadline) {
     /* Check the arguments. */
-    if(dill_slow(!addrs || naddrs <= 0 || !name)) {errno = EINVAL; return -1;}
+    if(dill_slow(!addrs || naddrs <= 0 || !name || port < 0 ||
+          port > 0xffff)) {errno = EINVAL; return -1;}
     switch(mode) {
     case 0:
         mode = DILL_IPADDR_PREF_IPV4;
-- 
2.43.0


From f3f7692eb8786463823c4dc721b084819fd6c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 46/58] fix: network interface may have several addresses of
 the same family

---
 ipaddr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index d740c39..6dc155a 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -211,12 +211,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
-- 
2.43.0


From 4fdfe0fa904e1d204b292cc50c0cd6ce78e49a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 47/58] fix: failure of a DNS query is reported rather than
 crashing

---
 ipaddr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 6dc155a..061ad2c 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -353,8 +353,8 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_addrinfo *ai = dns_ai_open(name, portstr,
         mode == DILL_IPADDR_IPV4 ? DNS_T_A : DNS_T_AAAA, &hints,
         resolver, &rc);
-    dill_assert(ai);
     dns_res_close(resolver);
+    if(dill_slow(!ai)) {errno = rc; return -1;}
     /* Wait for the results. */
     int nresults = 0;
     struct addrinfo *it = NULL;
@@ -379,6 +379,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From 92fd9f3f54679afd0430deaa3832f0ea7c77800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 48/58] fix: don't overflow the buffer when sending SOCKS5
 credentials

---
 socks5.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socks5.c b/socks5.c
index a919801..f7a697f 100644
--- a/socks5.c
+++ b/socks5.c
@@ -113,9 +113,9 @@ static int s5_client_auth(int s, const char *username, const char *password,
             uint8_t plen = (uint8_t)strlen(password);
             upauth[0] = RFC1929_VER; // VER = 1
             upauth[1] = ulen; // ULEN
-            strcpy((char *)(upauth + 2), username); // UNAME
+            memcpy(upauth + 2, username, ulen); // UNAME
             upauth[2 + ulen] = plen; // PLEN
-            strcpy((char *)(upauth + 3 + ulen), password); // PASSWD
+            memcpy(upauth + 3 + ulen, password, plen); // PASSWD
             err = dill_bsend(s, (void *)upauth, 3 + ulen + plen, deadline);
             if(dill_slow(err)) return -1;
             uint8_t upauthr[2];
-- 
2.43.0


From 47f0002bca2fb55cf6aef0edfe6ed1c9f23f46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 49/58] fix: don't crash when SOCKS5 proxy chooses unexpected
 authentication method

---
 socks5.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/socks5.c b/socks5.c
index f7a697f..2487f34 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            // proxy chose a method that wasn't requested
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
             uint8_t upauth[513];
@@ -128,7 +128,7 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
     return -1;
 }
-- 
2.43.0


From 1837d07599621984d1d16b78348020d214c5b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 50/58] fix: refuse empty SOCKS5 credentials and host names

---
 socks5.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/socks5.c b/socks5.c
index 2487f34..624f43c 100644
--- a/socks5.c
+++ b/socks5.c
@@ -68,10 +68,12 @@ static int s5_client_auth(int s, const char *username, const char *password,
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
     // validate input, specifically user and pass, which may be NULL
     if(username) {
-        if(strlen(username) > 255) {errno = EINVAL; return -1;}
+        size_t len = strlen(username);
+        if(len < 1 || len > 255) {errno = EINVAL; return -1;}
     }
     if(password) {
-        if(strlen(password) > 255) {errno = EINVAL; return -1;}
+        size_t len = strlen(password);
+        if(len < 1 || len > 255) {errno = EINVAL; return -1;}
     }
     // version identifier/method selection request
     // client passes list of desired auth methods
@@ -358,7 +360,8 @@ static int s5_client_connectbyname(int s, const char *hostname, int port, int64_
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
     // validate input
     if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
-    if(dill_slow(strlen(hostname) > 255)) {errno = EINVAL; return -1;}
+    size_t len = strlen(hostname);
+    if(dill_slow(len < 1 || len > 255)) {errno = EINVAL; return -1;}
     if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
-- 
2.43.0


From 58330e866b80b3e33f3353bab5d9c56c74792cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 51/58] fix: check the arguments before starting the SOCKS5
 handshake

---
 socks5.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/socks5.c b/socks5.c
index 624f43c..02ea5b0 100644
--- a/socks5.c
+++ b/socks5.c
@@ -250,6 +250,7 @@ static int s5_ipaddr_to_s5addr(_socks5_addr *s5, struct dill_ipaddr *addr) {
             memcpy((void *)s5->addr, (void *)&ipv6->sin6_addr, s5->alen);
             return 0;}
     }
+    errno = EINVAL;
     return -1;
 }
 
@@ -358,11 +359,6 @@ static int s5_handle_connection_response(int s, int64_t deadline) {
 static int s5_client_connectbyname(int s, const char *hostname, int port, int64_t deadline) {
     // ensure socket is bytesstream
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
-    // validate input
-    if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
-    size_t len = strlen(hostname);
-    if(dill_slow(len < 1 || len > 255)) {errno = EINVAL; return -1;}
-    if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
     uint8_t conn[262];
@@ -406,8 +402,6 @@ static int s5_client_connectbyname(int s, const char *hostname, int port, int64_
 static int s5_client_connect(int s, struct dill_ipaddr *ipaddr, int64_t deadline) {
     // ensure socket is bytesstream
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
-    // validate input
-    if(dill_slow(!ipaddr)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
     uint8_t conn[262];
@@ -538,6 +532,10 @@ int dill_socks5_proxy_sendreply(int s, int reply, struct dill_ipaddr *ipaddr,
 
 int dill_socks5_client_connect(int s, const char *username,
       const char *password, struct dill_ipaddr *addr, int64_t deadline) {
+    // validate input before anything is sent to the proxy
+    if(dill_slow(!addr)) {errno = EINVAL; return -1;}
+    _socks5_addr s5addr;
+    if(dill_slow(s5_ipaddr_to_s5addr(&s5addr, addr) < 0)) return -1;
     int err = s5_client_auth(s, username, password, deadline);
     if(err < 0) return -1;
     err = s5_client_connect(s, addr, deadline);
@@ -548,6 +546,11 @@ int dill_socks5_client_connect(int s, const char *username,
 int dill_socks5_client_connectbyname(int s, const char *username,
       const char *password, const char *hostname, int port,
       int64_t deadline) {
+    // validate input before anything is sent to the proxy
+    if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
+    size_t len = strlen(hostname);
+    if(dill_slow(len < 1 || len > 255)) {errno = EINVAL; return -1;}
+    if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     int err = s5_client_auth(s, username, password, deadline);
     if(err < 0) return -1;
     err = s5_client_connectbyname(s, hostname, port, deadline);
-- 
2.43.0


From 1202ffb3a44333d23568f8684ee8f7c6048a2e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 52/58] fix: set errno when SOCKS5 authentication is refused by
 the proxy

---
 socks5.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socks5.c b/socks5.c
index 02ea5b0..bee2a41 100644
--- a/socks5.c
+++ b/socks5.c
@@ -205,6 +205,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
+        errno = EACCES;
         return -1;
     }
     // no compatible AUTH (auth fail)
@@ -212,6 +213,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
+    errno = EACCES;
     return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
-- 
2.43.0


From 4391c16f1aa5aae5023564c694afb5f01043b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 53/58] fix: don't truncate SOCKS5 credentials and host names
 with embedded nulls

---
 socks5.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/socks5.c b/socks5.c
index bee2a41..3bcbc93 100644
--- a/socks5.c
+++ b/socks5.c
@@ -190,6 +190,9 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         // read PASSWD
         err = dill_brecv(s, (void *)&(authr[3+ulen]), plen, deadline);
         if(dill_slow(err)) return -1;
+        // strings with embedded nulls can't be passed to the user
+        if(dill_slow(memchr(&authr[2], 0, ulen) ||
+              memchr(&authr[3+ulen], 0, plen))) {errno = EPROTO; return -1;}
         // add null terminators in place
         authr[2+ulen] = 0x00;
         authr[3+ulen+plen] = 0x00;
@@ -316,6 +319,9 @@ static int s5_recv_command_request_response(int s, uint8_t *conn, int64_t deadli
             // Read string + 2 bytes for port
             err = dill_brecv(s, conn + 5, conn[4] + 2, deadline);
             if(dill_slow(err)) return -1;
+            // names with embedded nulls can't be passed to the user
+            if(dill_slow(memchr(conn + 5, 0, conn[4]))) {
+                errno = EPROTO; return -1;}
             break;
         default:
             errno = EPROTO;
-- 
2.43.0


From acc8227e8b08a7b6eacb685cfb9d3646afad69a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 54/58] fix: allow sending empty messages via prefix protocol

---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index 2dca431..fac175b 100644
--- a/prefix.c
+++ b/prefix.c
@@ -146,7 +146,7 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
     }
     if(dill_slow(sz > 0)) {self->outerr = 1; errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
-    int rc = dill_bsendl(self->u, &hdr, last, deadline);
+    int rc = dill_bsendl(self->u, &hdr, last ? last : &hdr, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
     return 0;
 }
-- 
2.43.0


From 8c23ea0623d3558de69afff84ed3e4d1ca6ed4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 55/58] fix: allow sending empty messages via suffix protocol

---
 suffix.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/suffix.c b/suffix.c
index b2ad87a..0d57ba6 100644
--- a/suffix.c
+++ b/suffix.c
@@ -139,9 +139,10 @@ static int dill_suffix_msendl(struct dill_msock_vfs *mvfs,
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     /* TODO: Make sure that message doesn't contain suffix sequence. */
     struct dill_iolist iol = {self->suffix, self->suffixlen, NULL, 0};
-    last->iol_next = &iol;
+    if(last) last->iol_next = &iol;
+    else first = &iol;
     int rc = self->uvfs->bsendl(self->uvfs, first, &iol, deadline);
-    last->iol_next = NULL;
+    if(last) last->iol_next = NULL;
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
     return 0;
 }
-- 
2.43.0


From 0a0c83fd36c0b62bdf689ef3b6b02ffabe525be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 56/58] fix: don't abort when attaching a WebSocket server to
 an invalid handle

---
 ws.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index 6c0ead6..fe4079a 100644
--- a/ws.c
+++ b/ws.c
@@ -299,10 +299,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     if(dill_slow(h < 0)) {err = errno; goto error;}
     return h;
 error:
-    if(s >= 0) {
-        int rc = dill_hclose(s);
-        dill_assert(rc == 0);
-    }
+    if(s >= 0) dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From d3b4b62c6cadfc9e741454a37bb54dbc5694452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 57/58] fix: refuse handles that aren't UDP sockets in udp_send
 and udp_recv functions

---
 udp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/udp.c b/udp.c
index 3c7318c..2ace53e 100644
--- a/udp.c
+++ b/udp.c
@@ -203,32 +203,32 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
       const void *buf, size_t len) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_sendl_(m, addr, &iol, &iol);
+    return dill_udp_sendl_(&obj->mvfs, addr, &iol, &iol);
 }
 
 ssize_t dill_udp_recv(int s, struct dill_ipaddr *addr, void *buf, size_t len,
       int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_recvl_(m, addr, &iol, &iol, deadline);
+    return dill_udp_recvl_(&obj->mvfs, addr, &iol, &iol, deadline);
 }
 
 int dill_udp_sendl(int s, const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_sendl_(m, addr, first, last);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_sendl_(&obj->mvfs, addr, first, last);
 }
 
 ssize_t dill_udp_recvl(int s, struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_recvl_(m, addr, first, last, deadline);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_recvl_(&obj->mvfs, addr, first, last, deadline);
 }
 
 static int dill_udp_msendl(struct dill_msock_vfs *mvfs,
-- 
2.43.0


From 50924fd0ebc0a7d78e96a4448f7c15758de2aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:32 +0000
Subject: [PATCH 58/58] fix: don't overflow the buffer when sending large
 WebSocket messages

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index fe4079a..070a918 100644
--- a/ws.c
+++ b/ws.c
@@ -330,7 +330,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0

