From 593c1cc001d8c4d72ef7166571c898c2417abca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:41 +0000
Subject: [PATCH 01/91] fix: do not touch a serial queue once it has been
 handed over

When a drain finds a serial queue empty, another thread can push on it,
drain it and destroy it right away. thr_queue_drain() then reset its
running_on marker in freed memory.
---
 src/core/thr-job.blk | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/thr-job.blk b/src/core/thr-job.blk
index 14eff80..af02993 100644
--- a/src/core/thr-job.blk
+++ b/src/core/thr-job.blk
@@ -600,18 +600,25 @@ static void thr_queue_drain(thr_queue_t *q)
     }
 
     id = thr_id();
-    atomic_store(&q->running_on, id);
     mpsc_queue_drain_start(&it, &q->q);
     do {
-        mpsc_node_t *m = mpsc_queue_drain_fast(&it, &thr_queue_run_node,
-                                               (data_t){ .ptr = NULL });
-        thr_qnode_t *n = thr_qnode_of(m);
+        mpsc_node_t *m;
+        thr_qnode_t *n;
+
+        atomic_store(&q->running_on, id);
+        m = mpsc_queue_drain_fast(&it, &thr_queue_run_node,
+                                  (data_t){ .ptr = NULL });
+        n = thr_qnode_of(m);
 
         job_run(n->job, n->syn);
         wipe = (n->job == &q->destroy);
+
+        /* As soon as mpsc_queue_drain_end() sees the queue empty, another
+         * thread can take it over, and even destroy it: do not touch it
+         * after that point.
+         */
+        atomic_store(&q->running_on, THR_QUEUE_NOT_RUNNING);
     } while (!mpsc_queue_drain_end(&it, &thr_qnode_destroy));
-    atomic_compare_exchange_strong(&q->running_on, &id,
-                                   THR_QUEUE_NOT_RUNNING);
 
     if (wipe) {
         thr_queue_delete(&q);
-- 
2.43.0


From 94a59333a4db1f01eea42e46013d9e94f16b8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:34 +0000
Subject: [PATCH 02/91] fix: poll for pending events only once epoll is
 initialised

el_has_pending_events() called before any descriptor was registered (or the
first turn of a loop that has a worker) waited on descriptor -1 and hit the
assertion on the result of epoll_wait.
---
 src/core/el-epoll.in.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/el-epoll.in.c b/src/core/el-epoll.in.c
index da250a1..fb8b21e 100644
--- a/src/core/el-epoll.in.c
+++ b/src/core/el-epoll.in.c
@@ -133,6 +133,8 @@ static void el_loop_fds_poll(int timeout)
 
 static bool el_fds_has_pending_events(void)
 {
+    el_fd_initialize();
+
     if (el_epoll_g.pending == 0) {
         el_loop_fds_poll(0);
     }
-- 
2.43.0


From d217eaa6888e4d8550b7df4c2d08c0099c18949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:43 +0000
Subject: [PATCH 03/91] fix: keep the timers heap ordered when a repeated timer
 is re-armed

After its callback a repeated timer was only moved down the heap. It may need
to go up as well: its callback may have armed an earlier timer (which is then
its parent), and a low resolution timer loses its initial tolerance after its
first fire. The heap was then left out of order and due timers were missed.
---
 src/core/el.blk | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 283b103..e4df83a 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1108,7 +1108,9 @@ static void el_timer_process(uint64_t until)
 
                 ev->timer.expiry += ROUND_UP(delta, (uint64_t)ev->timer.repeat);
             }
-            __qhp_down(timer, &_G.timers, ev->timer.heappos);
+            /* The tolerance may have shrunk, and the callback may have put
+             * other timers above this one: both directions are possible. */
+            qhp_fixup(timer, &_G.timers, ev->timer.heappos);
         } else
         if (!EV_FLAG_HAS(ev, TIMER_UPDATED)) {
             el_timer_unregister(&ev);
-- 
2.43.0


From a898aef2a62a4d188866f3485751101e4bc65a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:43 +0000
Subject: [PATCH 04/91] fix: unlink descriptors marked as fired before running
 their callbacks

el_fd_process_fired() reset the head of the list but left the links of its
elements: when one of the callbacks unregistered another marked descriptor,
the list of fired descriptors was corrupted (spurious callbacks, failed
assertions or crashes at a later turn).
---
 src/core/el.blk | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index e4df83a..3cff530 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1483,8 +1483,10 @@ static void el_fd_process_fired(void)
 
     generation = ev_cache_list(&_G.fired);
 
-    dlist_init(&_G.fired);
     tab_for_each_entry(ev, &_G.cache) {
+        /* Properly unlink, the event could be marked again or unregistered
+         * from one of the callbacks below. */
+        dlist_remove(&ev->ev_list);
         EV_FLAG_RST(ev, FD_FIRED);
     }
     tab_for_each_entry(ev, &_G.cache) {
-- 
2.43.0


From f07c50a4a1c28837d5728e56bf82896ed21952c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:23 +0000
Subject: [PATCH 05/91] fix: do not call back a descriptor unregistered during
 el_fds_loop

When the callback of a marked descriptor (or a timer) unregistered the event,
el_fds_loop went on polling its descriptor and called the callback again,
through freed data.
---
 src/core/el.blk | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 3cff530..4655ff8 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1437,8 +1437,9 @@ int el_fds_loop(ev_t **evs, int count, int timeout, ev_fd_loop_flags_t flags)
             timeout = 0;
             has_fired = true;
         }
+        /* The callback may have unregistered the event. */
         pfd[i] = (struct pollfd){
-            .fd = ev->fd.fd,
+            .fd = ev->type == EV_FD ? ev->fd.fd : -1,
             .events = ev->events_wanted
         };
     }
@@ -1459,7 +1460,7 @@ int el_fds_loop(ev_t **evs, int count, int timeout, ev_fd_loop_flags_t flags)
             if (ev->type == EV_WAKE) {
                 ev = ev->wake.read_fd;
             }
-            if (pfd[i].revents) {
+            if (pfd[i].revents && ev->type == EV_FD) {
                 el_fd_fire(ev, pfd[i].revents);
                 has_fired = true;
             }
-- 
2.43.0


From 7bf5d6a490442c8b537a3242eca1e97912721f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:15 +0000
Subject: [PATCH 06/91] fix: do not fire a child unregistered by another
 child's callback

---
 src/core/el.blk | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 4655ff8..5e2de44 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -716,6 +716,7 @@ static void el_sigchld_hook(ev_t *ev, int signo, data_t priv)
             ev_assoc.child = _G.childs.values[pos];
             if (likely(ev_assoc.child)) {
                 ev_assoc.child->child.status = status;
+                ev_assoc.child->child.has_exited = true;
             }
             qv_append(&ev_assocs, ev_assoc);
             qm_del_at(ev_assoc, &_G.childs, pos);
@@ -725,7 +726,8 @@ static void el_sigchld_hook(ev_t *ev, int signo, data_t priv)
     t_seal();
 
     tab_for_each_ptr(ev_assoc, &ev_assocs) {
-        if (likely(ev_assoc->child)) {
+        /* XXX the child may have been unregistered by a previous callback. */
+        if (likely(ev_assoc->child && ev_assoc->child->type == EV_CHILD)) {
             el_child_fire(&ev_assoc->child);
         } else {
             MODULE_METHOD_RUN_INT(at_fork_on_child_terminated, ev_assoc->pid);
-- 
2.43.0


From 0bda7dd573781b3d4d79830b586b2590c4cbfd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:09 +0000
Subject: [PATCH 07/91] fix: do not lose a wake-up when the pipe holds a
 multiple of the read size

---
 src/core/el.blk | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 5e2de44..0c5cff1 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1602,7 +1602,13 @@ static int el_wake_on_event(el_t ev, int fd, short evt, data_t priv)
     if (wake->wake.use_eventfd) {
         RETHROW(read(fd, val, sizeof(uint64_t)));
     } else {
-        while (RETHROW(read(fd, val, sizeof(val))) == sizeof(val));
+        ssize_t res = RETHROW(read(fd, val, sizeof(val)));
+
+        /* XXX the pipe may hold exactly what has just been read: running out
+         * of data must not drop the wake-up. */
+        while (res == sizeof(val)) {
+            res = read(fd, val, sizeof(val));
+        }
     }
 
     if (EV_FLAG_HAS(wake, IS_BLK)) {
-- 
2.43.0


From 80ff4018faad0d0e3ca76a1fbacdf1142a67ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 08/91] fix: mem-fifo: zero the tail of a block shrunk then
 grown in place

mfp_realloc() did not clear the bytes between the old size and the size of
the block when growing the last block of a page in place, so realloc0 could
return stale data.
---
 src/core/mem-fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/mem-fifo.c b/src/core/mem-fifo.c
index c306dd1..46654a7 100644
--- a/src/core/mem-fifo.c
+++ b/src/core/mem-fifo.c
@@ -374,6 +374,10 @@ static void *mfp_realloc(mem_pool_t *_mfp, void *mem, size_t oldsize,
         mem_tool_freelike(mem, oldsize, 0);
         mem_tool_malloclike(mem, req_size, 0, false);
         mem_tool_allow_memory(mem, MIN(req_size, oldsize), true);
+        if (!(flags & MEM_RAW)) {
+            /* the block may have been shrunk, and then hold old data */
+            memset(blk->area + oldsize, 0, alloced_size - oldsize);
+        }
     } else {
         void *old = mem;
 
-- 
2.43.0


From 709ad1eb8ecab732409038954656b16c43458976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 09/91] fix: mem-ring: leave no open frame when the active one
 is released

Releasing the active frame when the previous one is free left rp->pos set,
and the next mem_ring_newframe() panicked.
---
 src/core/mem-ring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index 490427f..f9d2d51 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -370,6 +370,8 @@ void ring_reset_to_prevframe(ring_pool_t *rp, frame_t *fprev, frame_t *frame)
     assert (frame == rp->ring);
 
     frame_unregister(frame);
+    rp->last   = NULL;
+    rp->pos    = NULL;
     rp->ring   = fprev;
     rp->cblk   = fprev->blk;
     fprev->rp &= ~FRAME_IS_FREE;
-- 
2.43.0


From adf220e0c7b8306b704688387a4250fb9a661dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 10/91] fix: mem-ring: hold the lock while sealing a frame

mem_ring_seal() can add or remove blocks, while mem_ring_release() can be
called from other threads and moves blocks too.
---
 src/core/mem-ring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index f9d2d51..db6e58a 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -380,14 +380,12 @@ void ring_reset_to_prevframe(ring_pool_t *rp, frame_t *fprev, frame_t *frame)
 static ALWAYS_INLINE
 void ring_setup_frame(ring_pool_t *rp, ring_blk_t *blk, frame_t *frame)
 {
-    spin_lock(&rp->lock);
     frame->blk = blk;
     frame->rp  = (uintptr_t)rp;
     dlist_add_tail(&rp->fhead, &frame->flist);
 
     rp->ring = frame;
     ring_reset_frame(rp, frame, false);
-    spin_unlock(&rp->lock);
 }
 
 /*------ Public API -{{{-*/
@@ -497,8 +495,10 @@ const void *mem_ring_seal(mem_pool_t *_rp)
     ring_blk_t *blk;
 
     /* Makes a new frame */
+    spin_lock(&rp->lock);
     frame = rp_reserve(rp, sizeof(frame_t), &blk);
     ring_setup_frame(rp, blk, frame);
+    spin_unlock(&rp->lock);
 
     return last;
 }
-- 
2.43.0


From bc90eebc9649b84c5c770c75556fe210a573ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 11/91] fix: mem-ring: account for the frames discarded by a
 rewind

frames_cnt kept counting them, so that a pool rewound once was never reset
nor deleted.
---
 src/core/mem-ring.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index db6e58a..d9f2158 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -668,11 +668,20 @@ void mem_ring_rewind(mem_pool_t *_rp, const void *ckpoint)
     frame_t *frame = cp->frame;
 
     assert (!(frame->rp & FRAME_IS_FREE));
+    spin_lock(&rp->lock);
+    /* the frames discarded here won't be released by anybody else */
+    for (frame_t *it = frame; it != rp->ring; ) {
+        it = dlist_next_entry(it, flist);
+        if (it == rp->ring ? rp->pos != NULL : !(it->rp & FRAME_IS_FREE)) {
+            rp->frames_cnt--;
+        }
+    }
     __dlist_remove(&frame->flist, &rp->fhead);
     rp->ring = frame;
     rp->last = cp->last;
     rp->cblk = cp->cblk;
     rp->pos  = cp->pos;
+    spin_unlock(&rp->lock);
 }
 
 static __thread mem_pool_t *r_pool_g;
-- 
2.43.0


From dd709333d1b5f76313999e467399430982858107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 12/91] fix: qpage: keep the page map consistent when a remap
 grows in place

When the next free block is used entirely, the block after it was left with
BLK_PREV_FREE set, and freeing it then merged pages in use; and the pages
past the new size were cleared without the lock although they were already
given back.
---
 src/core/qpage.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/qpage.c b/src/core/qpage.c
index 2a3c886..b814e6b 100644
--- a/src/core/qpage.c
+++ b/src/core/qpage.c
@@ -607,12 +607,13 @@ static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
     spin_lock(&_G.lock);
     next = blk_next(blk, bsz);
     if ((next->flags & BLK_FREE) && new_n <= bsz + blk_size(next)) {
-        bsz += blk_remove(next);
-        if (bsz > new_n) {
+        uint32_t total = bsz + blk_remove(next);
+
+        if (total > new_n) {
             tmp = blk_next(blk, new_n);
-            blk_insert(tmp, bsz - new_n);
+            blk_insert(tmp, total - new_n);
         } else {
-            next->flags &= ~BLK_PREV_FREE;
+            blk_next(blk, total)->flags &= ~BLK_PREV_FREE;
         }
         blk_setup_backptrs(blk, (blk->flags & BLK_PREV_FREE), new_n);
         spin_unlock(&_G.lock);
-- 
2.43.0


From 649a69480000cf71c89ecf25d4fdfd398f74161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 13/91] fix: qpage: read the segments under the lock

create_arena() may reallocate the vector in another thread.
---
 src/core/qpage.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/core/qpage.c b/src/core/qpage.c
index b814e6b..fca24f7 100644
--- a/src/core/qpage.c
+++ b/src/core/qpage.c
@@ -576,6 +576,23 @@ static inline int32_t qpage_find_seg(qpage_t *qp)
     e_panic("invalid pointer or segment");
 }
 
+/* XXX: _G.segs can be reallocated by create_arena() at any time */
+static inline page_run_t *qpage_get_run(qpage_t *qp, uint32_t *seg)
+{
+    page_desc_t *blk;
+
+    spin_lock(&_G.lock);
+    if (unlikely(*seg >= (uint32_t)_G.segs.len)) {
+        spin_unlock(&_G.lock);
+        *seg = qpage_find_seg(qp);
+        spin_lock(&_G.lock);
+    }
+    blk = _G.segs.tab[*seg];
+    spin_unlock(&_G.lock);
+
+    return run_of(blk, blk_no(blk));
+}
+
 static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
                    uint32_t new_n, uint32_t *new_seg,
                    bool may_move, bool zero)
@@ -585,11 +602,7 @@ static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
     page_run_t *run;
     uint32_t bsz;
 
-    if (unlikely(old_seg > (uint32_t)_G.segs.len)) {
-        old_seg = qpage_find_seg(qp);
-    }
-    tmp   = _G.segs.tab[old_seg];
-    run   = run_of(tmp, blk_no(tmp));
+    run   = qpage_get_run(qp, &old_seg);
     blk   = run->pages + (qp - run->mem_pages);
     assert (blk + old_n <= run->pages + run->npages);
     assert (!(blk->flags & BLK_FREE));
@@ -672,17 +685,13 @@ void *qpage_remap(void *ptr, size_t old_n, uint32_t old_seg,
 void qpage_free_n(void *ptr, size_t npages, uint32_t seg)
 {
     qpage_t *qp = ptr;
-    page_desc_t *blk, *tmp;
+    page_desc_t *blk;
     page_run_t *run;
 
     if (!ptr)
         return;
 
-    if (unlikely(seg > (uint32_t)_G.segs.len)) {
-        seg = qpage_find_seg(qp);
-    }
-    tmp   = _G.segs.tab[seg];
-    run   = run_of(tmp, blk_no(tmp));
+    run   = qpage_get_run(qp, &seg);
     blk   = run->pages + (qp - run->mem_pages);
     assert (blk + npages <= run->pages + run->npages);
     assert (!(blk->flags & BLK_FREE));
-- 
2.43.0


From 1c3f830c634c25106718d55baa370b915180b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 14/91] fix: htlist: splice at the tail of an empty list

The tail of an empty list is NULL and was dereferenced, e.g. when the answer
of a pipelined HTTP query holding memory chunks is merged in an empty output
buffer.
---
 src/container-htlist.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/container-htlist.h b/src/container-htlist.h
index 93e6c62..db29490 100644
--- a/src/container-htlist.h
+++ b/src/container-htlist.h
@@ -170,6 +170,9 @@ static inline void htlist_move(htlist_t * nonnull dst,
 static inline void htlist_splice_tail(htlist_t * nonnull dst,
                                       htlist_t * nonnull src)
 {
+    if (htlist_is_empty(dst)) {
+        htlist_splice(dst, src);
+    } else
     if (!htlist_is_empty(src)) {
         src->tail->next = dst->tail->next;
         dst->tail->next = src->head;
-- 
2.43.0


From f72368a95f10e7b71f7dd4d09ad1d59b8d368ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 15/91] fix: http: ignore empty lines before a request whatever
 the segmentation

Two CRLF before the request line were taken for the end of the headers: when
the request was received together with them the parser went past this end.
---
 src/net/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index f062be5..6e52251 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1240,6 +1240,10 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
     httpd_trigger_t *cb = NULL;
     struct timeval now;
 
+    /* rfc 7230: §3.5: ignore the empty lines before the request line */
+    while (ps_skipstr(ps, "\r\n") == 0) {
+        start = 0;
+    }
     if ((p = memmem(ps->s + start, ps_len(ps) - start, "\r\n\r\n", 4)) == NULL) {
         if (ps_len(ps) > w->cfg->header_size_max) {
             q = httpd_query_create(w, NULL);
-- 
2.43.0


From a856cfe277b7b02520bb39948dbb6db97827b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 16/91] fix: http: do not give the CR that ends a chunk as data

When the data received ended between the CR and the LF that follow a chunk,
and reached on_data_threshold, the CR was given to on_data and the chunk
length became negative.
---
 src/net/http.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index 6e52251..7b00222 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1554,7 +1554,9 @@ static int httpd_parse_chunk(httpd_t *w, pstream_t *ps)
         return PARSE_OK;
     }
     if (plen >= w->cfg->on_data_threshold) {
-        RETHROW(httpd_flush_data(w, q, ps, false));
+        pstream_t tmp = __ps_get_ps(ps, MIN(plen, w->chunk_length));
+
+        RETHROW(httpd_flush_data(w, q, &tmp, false));
     }
     return PARSE_MISSING_DATA;
 }
@@ -2638,7 +2640,9 @@ static int httpc_parse_chunk(httpc_t *w, pstream_t *ps)
         return PARSE_OK;
     }
     if (plen >= w->cfg->on_data_threshold) {
-        RETHROW(httpc_flush_data(w, q, ps, false));
+        pstream_t tmp = __ps_get_ps(ps, MIN(plen, w->chunk_length));
+
+        RETHROW(httpc_flush_data(w, q, &tmp, false));
     }
     return PARSE_MISSING_DATA;
 }
-- 
2.43.0


From 7be5e23b2680769f0a8cea824d91157aa31d3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 17/91] fix: http: reject the chunk sizes that do not fit

The size is stored in an int: bigger ones became negative (or truncated)
lengths.
---
 src/net/http.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 7b00222..095223d 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1522,6 +1522,9 @@ static int httpd_parse_chunk_hdr(httpd_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    if (unlikely(len > INT_MAX - 2)) {
+        goto cancel_query;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
@@ -2617,6 +2620,9 @@ static int httpc_parse_chunk_hdr(httpc_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    if (unlikely(len > INT_MAX - 2)) {
+        return PARSE_ERROR;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
-- 
2.43.0


From aae21ccc14ba6e0ae7c6ca34cff2c2d52d8e90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 18/91] fix: httpd: honour Expect: 100-continue

The name of the header was compared instead of its value.
---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 095223d..098f07f 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1340,7 +1340,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
             break;
 
           case HTTP_WKHDR_EXPECT:
-            q->expect100cont |= http_hdr_equals(qhdr->key, "100-continue");
+            q->expect100cont |= http_hdr_equals(qhdr->val, "100-continue");
             break;
 
           case HTTP_WKHDR_CONNECTION:
-- 
2.43.0


From 4f947c1d326dca632dc3daaea7a12e864d078e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 19/91] fix: httpd: send Connection: close with the last answer
 only

When pipelined queries are pending and the last one ends the connection, the
answers of the others announced the end too, and clients (httpc included)
dropped the following ones.
---
 src/net/http.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 098f07f..c4ce696 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -728,7 +728,11 @@ outbuf_t *httpd_reply_hdrs_start(httpd_query_t *q, int code,
     /* XXX: For CORS purposes, allow all origins for now */
     ob_adds(ob, "Access-Control-Allow-Origin: *\r\n");
 
-    if (q->owner && q->owner->connection_close) {
+    /* only the last answer announces the end of the connection, clients
+     * ignore what comes after it */
+    if (q->owner && q->owner->connection_close
+    &&  dlist_is_last(&q->owner->query_list, &q->query_link))
+    {
         if (!q->conn_close) {
             ob_adds(ob, "Connection: close\r\n");
             q->conn_close = true;
-- 
2.43.0


From d7b42e8caed77f53bffe9571375ce67c1a17a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 20/91] fix: httpc: reject status lines that end after the
 version

The parser went past the end of the line.
---
 src/net/http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index c4ce696..f158505 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -415,7 +415,9 @@ http_parse_status_line(pstream_t *ps, unsigned max_len, httpc_qinfo_t *qi)
         return PARSE_ERROR;
     }
     qi->http_version |= RETHROW(ps_get_ver(&line));
-    __ps_skip(&line, 1);
+    if (ps_skipc(&line, ' ') < 0) {
+        return PARSE_ERROR;
+    }
 
     if (ps_get_ps_chr(&line, ' ', &code) || ps_len(&code) != 3) {
         return PARSE_ERROR;
-- 
2.43.0


From c5b581847e45f60710a894aea4f5e62bdbf8eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 21/91] fix: http: inflate everything received

When the output buffer was filled, what remained of the input was dropped
(chunked bodies), or the last bytes were taken for an incomplete stream
(bodies with a length).
---
 src/net/http.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index f158505..44be218 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -185,19 +185,14 @@ static int http_zlib_inflate(z_stream *s, int *clen,
             return rc;
         }
 
-        if (rc == Z_STREAM_END && ps_len(in)) {
-            return Z_STREAM_ERROR;
+        if (rc == Z_STREAM_END) {
+            return ps_len(in) ? Z_STREAM_ERROR : 0;
         }
-        if (rc == Z_BUF_ERROR) {
-            if (s->avail_in) {
-                continue;
-            }
-            if (flush) {
-                return Z_STREAM_ERROR;
-            }
-            return 0;
+        if (!s->avail_out) {
+            /* there may be more to output, even if the input is consumed */
+            continue;
         }
-        return 0;
+        return s->avail_in || flush ? Z_STREAM_ERROR : 0;
     }
 }
 
-- 
2.43.0


From 20645a6b8da75c034ea4074dac197bfd0f6a90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:47 +0000
Subject: [PATCH 22/91] fix: httpd: close the connection on an unknown
 Transfer-Encoding

The end of the body cannot be found, and its bytes were parsed as the next
request.
---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 44be218..6fcf57b 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1361,7 +1361,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
                 httpd_reject(q, NOT_IMPLEMENTED,
                              "Transfer-Encoding %*pM is unimplemented",
                              (int)ps_len(&qhdr->val), qhdr->val.s);
-                break;
+                goto unrecoverable_error;
             }
             break;
 
-- 
2.43.0


From 69fe8663394e49fa6613ec4c7c1ff028e2c1d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:56 +0000
Subject: [PATCH 23/91] fix: httpd: no inactivity delay while an answer is due

The query being parsed is not counted in w->queries: with one query awaiting
its answer and the next one partly read (the pipeline limit stops the reads
there), the connection was closed by the inactivity timer.
---
 src/net/http.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index 6fcf57b..e187c38 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -2152,19 +2152,11 @@ static int httpd_on_event(el_t evh, int fd, short events, data_t priv)
         goto close;
     }
 
-    /* w->state == (HTTP_PARSER_IDLE | HTTP_PARSER_CLOSE):
-     *   queries > 0 means pending answer, client isn't lagging, we are.
-     *
-     * w->state != (HTTP_PARSER_IDLE | HTTP_PARSER_CLOSE):
-     *   queries is always > 0: the query being parsed has been created.
-     *   So for this case, pending requests without answers exist iff
-     *   queries > 1.
+    /* w->queries counts the queries entirely received but not answered yet
+     * (the query being parsed is not counted): when there are some, client
+     * isn't lagging, we are.
      */
-    if (((w->state == HTTP_PARSER_IDLE || w->state == HTTP_PARSER_CLOSE) &&
-         w->queries > 0) ||
-        ((w->state != HTTP_PARSER_IDLE && w->state != HTTP_PARSER_CLOSE) &&
-         w->queries > 1))
-    {
+    if (w->queries > 0) {
         el_fd_watch_activity(w->ev, POLLINOUT, 0);
     } else if (ob_is_empty(&w->ob)) {
         el_fd_watch_activity(w->ev, POLLINOUT, w->cfg->noact_delay);
-- 
2.43.0


From ef24e0e901a8fd6d88d763061a5349202482b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:52 +0000
Subject: [PATCH 24/91] fix: ic: do not abort queued local async queries twice

Those having a slot are also in ic->queries and aborted from there.
---
 src/iop/rpc-channel.blk | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 3bd579d..1d63952 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -805,7 +805,6 @@ static void ic_cancel_all(ichannel_t *ic)
 
     while (!htlist_is_empty(&ic->local_async_queries)) {
         msg = htlist_pop_entry(&ic->local_async_queries, ic_msg_t, msg_link);
-        __ic_msg_reply_err(ic, msg, IC_MSG_ABORT);
         if (msg->cmd <= 0 || msg->slot == 0) {
             ic_msg_delete(&msg);
         }
-- 
2.43.0


From 6fc667e5fbd2e75e4f8e8e790e2ee88e3676283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:52 +0000
Subject: [PATCH 25/91] fix: ic: count aborted queries out of the queue length

---
 src/iop/rpc-channel.blk | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 1d63952..b4536a2 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -822,6 +822,9 @@ static void ic_cancel_all(ichannel_t *ic)
         qm_del_at(ic_msg, &h, pos);
 
         msg = h.values[pos];
+        if (!msg->canceled) {
+            ic->queue_len--;
+        }
         __ic_msg_reply_err(ic, msg, IC_MSG_ABORT);
         ic_msg_delete(&msg);
     }
-- 
2.43.0


From bd4ae53dbe1a35b5aee3b3599abc6079bfbd73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:53 +0000
Subject: [PATCH 26/91] fix: ic: forget the state of the previous connection on
 disconnection

The pending queries counter prevented the next ic_bye() from closing the
channel, and a stale hdr_checked let data received along with the version
unparsed.
---
 src/iop/rpc-channel.blk | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index b4536a2..be46e25 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2070,6 +2070,9 @@ void ic_disconnect(ichannel_t *ic)
         qv_clear(&ic->iov);
         ic->is_closing = false;
         ic->fd_overflow = false;
+        ic->hdr_checked = false;
+        /* The queries received so far cannot be answered anymore. */
+        ic->pending = 0;
         ic->iov_total_len = 0;
         sb_reset(&ic->rbuf);
     }
-- 
2.43.0


From 2e8bc52f0b284309ce02d06b4c47ae6dae3ec6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:53 +0000
Subject: [PATCH 27/91] fix: ic: do not lose file descriptors when the socket
 is full

The file descriptors of the messages put in the out vector were dropped
when sendmsg failed with EAGAIN.
---
 src/iop/rpc-channel.blk | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index be46e25..bced88e 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -935,6 +935,14 @@ static int ic_write(ichannel_t *ic, int fd)
         ic_msg_t *msg;
         ic_msg_t *last_fd_msg = NULL;
 
+        /* File descriptors of a previous write that could not be done. */
+        htlist_for_each_entry(msg, &ic->iov_list, msg_link) {
+            if (msg->fd >= 0) {
+                fdv[fdc++] = msg->fd;
+                last_fd_msg = msg;
+            }
+        }
+
         while (!htlist_is_empty(&ic->msg_list) && ic->iov_total_len < IC_PKT_MAX) {
             msg = ic_pop_msg(ic);
 
-- 
2.43.0


From da3d5239eb27b5952d0238d12ba88f8dc5887012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:53 +0000
Subject: [PATCH 28/91] fix: ic: complete timed out and cancelled queries once

A callback disconnecting the channel got the query aborted too, and the
message was used after its deletion. Also, the timeout of an async message
decreased the queue length, and the timeout of a cancelled message
decreased it again.
---
 src/iop/rpc-channel.blk | 50 ++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index bced88e..d7fa8ef 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -692,12 +692,9 @@ static void ic_proxify(ichannel_t *pxy_ic, ic_msg_t *msg, int cmd,
     }
 }
 
-void __ic_msg_reply_err(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
+static void
+ic_msg_do_reply_err(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
 {
-    if (msg->canceled) {
-        return;
-    }
-
     if (msg->cb == IC_PROXY_MAGIC_CB) {
         ic_proxify(ic, msg, -status, NULL, 0, NULL);
     } else {
@@ -705,6 +702,13 @@ void __ic_msg_reply_err(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
     }
 }
 
+void __ic_msg_reply_err(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
+{
+    if (!msg->canceled) {
+        ic_msg_do_reply_err(ic, msg, status);
+    }
+}
+
 void __ic_forward_reply_to(ichannel_t *pxy_ic, uint64_t slot, int cmd,
                            const void *res, const void *exn)
 {
@@ -2273,14 +2277,28 @@ void ic_flush(ichannel_t *ic)
     fd_set_features(fd, O_NONBLOCK);
 }
 
-void ic_msg_cancel(ic_msg_t *msg)
+static void ic_msg_set_canceled(ic_msg_t *msg, ic_status_t status)
 {
-    assert (!msg->canceled);
-    if (expect(!msg->async)) {
-        __ic_msg_reply_err(msg->ic, msg, IC_MSG_CANCELED);
+    ichannel_t *ic = msg->ic;
+
+    if (msg->async) {
+        msg->canceled = true;
+        return;
     }
+
+    /* XXX: the callback may disconnect the channel, which must not complete
+     * the query again, and deletes the message. */
     msg->canceled = true;
-    msg->ic->queue_len--;
+    el_unregister(&msg->timeout_timer);
+    ic->queue_len--;
+    ic_msg_do_reply_err(ic, msg, status);
+}
+
+void ic_msg_cancel(ic_msg_t *msg)
+{
+    assert (!msg->canceled);
+    IGNORE(expect(!msg->async));
+    ic_msg_set_canceled(msg, IC_MSG_CANCELED);
 }
 
 static void ic_msg_on_timeout(el_t ev, el_data_t data)
@@ -2288,14 +2306,14 @@ static void ic_msg_on_timeout(el_t ev, el_data_t data)
     ic_msg_t *msg = data.ptr;
     ichannel_t *ic = msg->ic;
     htlist_t *queue = &ic->msg_list;
-
-    if (!msg->async) {
-        __ic_msg_reply_err(msg->ic, msg, IC_MSG_TIMEDOUT);
-    }
+    uint32_t id = ic->id;
 
     msg->timeout_timer = NULL;
-    msg->canceled = true;
-    msg->ic->queue_len--;
+    ic_msg_set_canceled(msg, IC_MSG_TIMEDOUT);
+    if (ic_get_by_id(id) != ic) {
+        /* disconnected by the callback */
+        return;
+    }
 
     while (!htlist_is_empty(queue)
     &&    (htlist_first_entry(queue, ic_msg_t, msg_link)->canceled))
-- 
2.43.0


From 116333d83cf7bff24b239e8b9e744ffeaa653729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 29/91] fix: ic: do not truncate the first packet of a
 seqpacket peer

A UNIX socket server may send up to IC_PKT_MAX bytes in its first packet,
of which the version handshake of the client only kept BUFSIZ.
---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index d7fa8ef..be27c25 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2907,7 +2907,7 @@ static int ic_version_handshake(el_t ev, int fd, short events, data_t priv)
 
     /* Get and parse the version header; determine the peer version. */
   again_blocking:
-    res = _ic_read(ic, events, fd, BUFSIZ);
+    res = _ic_read(ic, events, fd, MAX(BUFSIZ, IC_PKT_MAX));
     if (res < 0) {
         goto error;
     }
-- 
2.43.0


From fbf4661ad91516fdcb249901c9e354bded57c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:56 +0000
Subject: [PATCH 30/91] fix: ic: no busy loop during the version handshake

Waiting for the socket to be writable while nothing is written made the
event loop spin until the version of the peer was received.
---
 src/iop/rpc-channel.blk | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index be27c25..e1d935c 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2214,7 +2214,7 @@ static void ic_queue(ichannel_t *ic, ic_msg_t *msg, uint32_t flags)
     put_unaligned_le32(buffer + IC_MSG_CMD_OFFSET, msg->cmd);
     put_unaligned_le32(buffer + IC_MSG_DLEN_OFFSET,
                        msg->dlen - IC_MSG_HDR_LEN);
-    if (htlist_is_empty(&ic->msg_list) && ic->elh) {
+    if (htlist_is_empty(&ic->msg_list) && ic->elh && ic->is_connected) {
         el_fd_set_mask(ic->elh, POLLINOUT);
     }
 
@@ -3186,8 +3186,7 @@ static int __ic_connect(ichannel_t *ic, int flags, int timeout)
         ic->queuable = true;
     } else
     if (ic->is_unix) {
-        ic->elh = el_fd_register(sock, true, POLLINOUT, &ic_version_handshake,
-                                 ic);
+        ic->elh = el_fd_register(sock, true, POLLIN, &ic_version_handshake, ic);
         if (ic_version_write(ic, sock) < 0) {
             ic_mark_disconnected(ic);
             return -1;
-- 
2.43.0


From c771f3dc3edc999cec34e3b567746e91c91bbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:52 +0000
Subject: [PATCH 31/91] fix: ic: delete accepted channels whose handshake fails

Such a channel was only disconnected, and nobody deletes it when it is not
flagged no_autodel.
---
 src/iop/rpc-channel.blk | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index e1d935c..e1ce1f7 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2118,6 +2118,15 @@ void ic_wipe(ichannel_t *ic)
     el_unregister(&ic->local_async_el);
 }
 
+static void ic_close(ichannel_t *ic)
+{
+    if (ic->is_spawned && !ic->no_autodel) {
+        ic_delete(&ic);
+    } else {
+        ic_mark_disconnected(ic);
+    }
+}
+
 static int ic_event(el_t ev, int fd, short events, data_t priv)
 {
     bool do_parse;
@@ -2154,11 +2163,7 @@ static int ic_event(el_t ev, int fd, short events, data_t priv)
     return 0;
 
 close:
-    if (ic->is_spawned && !ic->no_autodel) {
-        ic_delete(&ic);
-    } else {
-        ic_mark_disconnected(ic);
-    }
+    ic_close(ic);
     return 0;
 }
 
@@ -2875,7 +2880,7 @@ static int ic_tls_handshake(el_t ev, int fd, short events, data_t priv)
       case SSL_HANDSHAKE_PENDING:
         break;
       case SSL_HANDSHAKE_CLOSED:
-        ic_mark_disconnected(ic);
+        ic_close(ic);
         break;
       case SSL_HANDSHAKE_ERROR:
         goto error;
@@ -2884,7 +2889,7 @@ static int ic_tls_handshake(el_t ev, int fd, short events, data_t priv)
     return 0;
 
   error:
-    ic_mark_disconnected(ic);
+    ic_close(ic);
     return -1;
 }
 
@@ -3050,7 +3055,7 @@ static int ic_version_handshake(el_t ev, int fd, short events, data_t priv)
     return 0;
 
   error:
-    ic_mark_disconnected(ic);
+    ic_close(ic);
     return -1;
 }
 
-- 
2.43.0


From c87d97076b0b4dfcb1f3a608683fd742cae84c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:04 +0000
Subject: [PATCH 32/91] fix: ic: delete accepted channels whose version cannot
 be sent

ic_spawn() only disconnected such a channel, which was leaked when not
flagged no_autodel.
---
 src/iop/rpc-channel.blk | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index e1ce1f7..8fab5d0 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -3295,8 +3295,9 @@ void ic_spawn(ichannel_t *ic, int fd, ic_creds_f *creds_fn)
             fd_set_features(fd, FD_FEAT_TCP_NODELAY);
         }
         if (ic_version_write(ic, fd) < 0) {
-            ic_mark_disconnected(ic);
-            return;
+            /* Let the event loop disconnect the channel, and delete it if
+             * needed, our caller may still use it. */
+            shutdown(fd, SHUT_RDWR);
         }
     }
 
-- 
2.43.0


From 7e331e54c222dc40dc091d4f7d9ba2e9487016fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:04 +0000
Subject: [PATCH 33/91] fix: ic: reject answers to queries that were not sent
 yet

The message was deleted while still being in the output queue, which a
peer could use to have it used after its deletion.
---
 src/iop/rpc-channel.blk | 7 +++++--
 src/iop/rpc-channel.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 8fab5d0..5b951b1 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1056,6 +1056,7 @@ static int ic_write(ichannel_t *ic, int fd)
 
             htlist_pop(&ic->iov_list);
             ic_msg_trace(msg, "written on socket");
+            msg->sent = true;
             if (msg->cmd <= 0 || msg->slot == 0) {
                 ic_msg_delete(&msg);
             }
@@ -1112,13 +1113,15 @@ ic_read_process_answer(ichannel_t *ic, int cmd, uint32_t slot,
                        const void *data, int dlen,
                        const ic_msg_t *unpacked_msg)
 {
-    ic_msg_t *tmp = ic_query_take(ic, slot);
+    ic_msg_t *tmp = qm_get_def_safe(ic_msg, &ic->queries, slot, NULL);
     const iop_struct_t *st;
 
-    if (unlikely(!tmp)) {
+    if (unlikely(!tmp || (!tmp->sent && !ic_is_local(ic)))) {
+        /* unknown query, or one that the peer cannot have received yet */
         errno = 0;
         return -1;
     }
+    ic_query_take(ic, slot);
 
     ic_msg_trace(tmp, "processing answer");
 
diff --git a/src/iop/rpc-channel.h b/src/iop/rpc-channel.h
index 6406813..a93e146 100644
--- a/src/iop/rpc-channel.h
+++ b/src/iop/rpc-channel.h
@@ -375,6 +375,7 @@ struct ic_msg_t {
     bool          trace      :  1; /**< Activate tracing for this message. */
     bool          canceled   :  1; /**< Is the query canceled ? */
     ev_priority_t priority   :  2; /**< Priority of the message. */
+    bool          sent       :  1; /**< Is the message fully written ? */
     int32_t  cmd;                  /**< automatically filled by ic_query/reply
                                         */
     uint32_t slot;                 /**< automatically filled by ic_query/reply
-- 
2.43.0


From 800cc9783c33de62bb239671b00c1e6b0613b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:20 +0000
Subject: [PATCH 34/91] fix: ic: always force an exchange at connect time

The client side of a UNIX socket is connected when it receives something,
which never happened if the queries queued by the server at connection
time were cancelled or timed out before being sent.
---
 src/iop/rpc-channel.blk | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 5b951b1..87accb1 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2832,10 +2832,9 @@ static int ic_mark_connected(ichannel_t *ic, int fd)
         RETHROW((*ic->on_creds)(ic, &creds));
 
     }
-    /* force an exchange at connect time, so force NOP if queue is empty */
-    if (htlist_is_empty(&ic->msg_list)) {
-        ic_nop(ic);
-    }
+    /* force an exchange at connect time, whatever is queued may be cancelled
+     * before being sent */
+    ic_nop(ic);
     /* We want to run ic_event and it's obvious that OUT is ready, but let the
      * event loop calls it. */
     el_fd_set_mask(ic->elh, POLLINOUT);
-- 
2.43.0


From f28a1c001fc2149f2de7971c5e63776ae3fad5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:50 +0000
Subject: [PATCH 35/91] fix: file-bin: reject slot sizes too small for the
 headers

A corrupted header led to a division by zero.
---
 src/core/file-bin.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 63ff8fd..fcdab92 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -47,6 +47,11 @@ typedef le32_t slot_hdr_t;
 typedef le32_t rc_hdr_t;
 #define RC_HDR_SIZE  ssizeof(rc_hdr_t)
 
+/* A slot must have some room for its header and the one of a record, even
+ * after the header of the file. */
+#define FILE_BIN_MIN_SLOT_SIZE  \
+    (ssizeof(file_bin_header_t) + ssizeof(slot_hdr_t) + RC_HDR_SIZE)
+
 static struct {
     logger_t logger;
 } file_bin_g = {
@@ -153,6 +158,12 @@ static int file_bin_parse_header(lstr_t path, void *data, size_t len,
     if (strequal(header->version, SIG_0100)) {
         *version = 1;
         *slot_size = le_to_cpu32p(&header->slot_size);
+        if (*slot_size < FILE_BIN_MIN_SLOT_SIZE) {
+            logger_error(&_G.logger, "invalid slot size in '%*pM': %u < %zd",
+                         LSTR_FMT_ARG(path), *slot_size,
+                         FILE_BIN_MIN_SLOT_SIZE);
+            return -1;
+        }
     } else {
         /* Unknown header. File is probably in version 0 */
         *version = 0;
-- 
2.43.0


From 9075a0ee160183d67f1c0cbdabfd338d48c51f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:50 +0000
Subject: [PATCH 36/91] fix: file-bin: compute the end of entries on 64 bits

A corrupted record length overflowed and made an assert fail.
---
 src/core/file-bin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index fcdab92..609db06 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -101,9 +101,9 @@ static off_t file_bin_tell(const file_bin_t *file)
 
 static off_t file_bin_get_entry_end_off(const file_bin_t *f, uint32_t d_len)
 {
-    uint32_t len = d_len;
+    uint64_t len = d_len;
     off_t res;
-    uint32_t nb_slots;
+    uint64_t nb_slots;
     uint32_t remaining = file_bin_remaining_space_in_slot(f);
 
     if (is_at_slot_start(f)) {
-- 
2.43.0


From fea70818ace190b4f68e7f4629565bb274f1ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:50 +0000
Subject: [PATCH 37/91] fix: file-bin: report failures to write slot headers

---
 src/core/file-bin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 609db06..37be84c 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -658,9 +658,10 @@ static int file_bin_write_data(file_bin_t *f, const void *data, uint32_t len,
 
         if (is_at_slot_start(f)) {
             if (r_start) {
-                file_bin_write_slot_header(f, f->cur + SLOT_HDR_SIZE(f));
+                RETHROW(file_bin_write_slot_header(f, f->cur
+                                                   + SLOT_HDR_SIZE(f)));
             } else {
-                file_bin_write_slot_header(f, next_entry);
+                RETHROW(file_bin_write_slot_header(f, next_entry));
             }
         }
 
-- 
2.43.0


From 02d5f2910f75c8e6a31c6633db786bda9c502fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:50 +0000
Subject: [PATCH 38/91] fix: file-bin: return empty records ending a slot

They were not returned until the header of the next slot was written.
---
 src/core/file-bin.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 37be84c..b04b371 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -309,6 +309,13 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
         goto error;
     }
 
+    if (sz == 0 && file->version > 0) {
+        /* The record is complete, even if it ends a slot and the header of
+         * the next one is not there yet. */
+        *rec = LSTR_EMPTY_V;
+        return 0;
+    }
+
     rec_end_off = file_bin_get_entry_end_off(file, sz);
     if (rec_end_off > file->length) {
         slot_hdr_t tmp_size;
@@ -346,14 +353,9 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
     }
 
     if (sz == 0) {
-        if (file->version == 0) {
-            /* In V0, the end of the slots are filled with 0s. Go to error so
-             * that we jump to next slot. */
-            goto error;
-        } else {
-            *rec = LSTR_EMPTY_V;
-            return 0;
-        }
+        /* In V0, the end of the slots are filled with 0s. Go to error so that
+         * we jump to next slot. */
+        goto error;
     }
 
     check_slot_hdr = file_bin_get_next_entry_off(file, sz);
-- 
2.43.0


From b66fa0b6eb9b48f512810842c8391e9fdb77c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:50 +0000
Subject: [PATCH 39/91] fix: file-bin: do not return the last records several
 times

Records spanning over more than two slots were returned once per slot
by t_file_bin_get_last_records.
---
 src/core/file-bin.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index b04b371..180cf60 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -267,7 +267,8 @@ static int _file_bin_skip(file_bin_t *file, off_t toskip)
     return 0;
 }
 
-static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
+static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
+                                     off_t *start)
 {
     off_t prev_off = file->cur;
     off_t rec_end_off;
@@ -305,6 +306,7 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
     if (file_bin_is_finished(file)) {
         return -1;
     }
+    *start = file->cur;
     if (file_bin_get_cpu32(file, &sz) < 0) {
         goto error;
     }
@@ -428,7 +430,7 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
     return 0;
 }
 
-lstr_t file_bin_get_next_record(file_bin_t *file)
+static lstr_t file_bin_get_next_record_at(file_bin_t *file, off_t *start)
 {
     int res;
     lstr_t rec = LSTR_NULL_V;
@@ -436,12 +438,19 @@ lstr_t file_bin_get_next_record(file_bin_t *file)
     assert (file->read_mode);
 
     do {
-        res = _file_bin_get_next_record(file, &rec);
+        res = _file_bin_get_next_record(file, &rec, start);
     } while (res >= 0 && !rec.s);
 
     return rec;
 }
 
+lstr_t file_bin_get_next_record(file_bin_t *file)
+{
+    off_t start;
+
+    return file_bin_get_next_record_at(file, &start);
+}
+
 int t_file_bin_get_last_records(file_bin_t *file, int count, qv_t(lstr) *out)
 {
     off_t save_cur = file->cur;
@@ -460,9 +469,11 @@ int t_file_bin_get_last_records(file_bin_t *file, int count, qv_t(lstr) *out)
         while (file->cur <= prev_slot - RC_HDR_SIZE
             && !file_bin_is_finished(file))
         {
-            lstr_t res = file_bin_get_next_record(file);
+            off_t start = 0;
+            lstr_t res = file_bin_get_next_record_at(file, &start);
 
-            if (!res.s) {
+            if (!res.s || start >= prev_slot) {
+                /* No more record starting in this slot. */
                 break;
             }
             qv_append(&tmp, t_lstr_dup(res));
-- 
2.43.0


From 42f16dd2e8e215dbdf575ef5da2445fee31badca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 40/91] fix: file: do not count the pending data in the result
 of writes

file_write() and file_writev() returned the length of the data plus the
one of the data that was already buffered, which log_fwritev() adds to
the total size of the logs.
---
 src/core/file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/file.c b/src/core/file.c
index 1e73d43..7c02240 100644
--- a/src/core/file.c
+++ b/src/core/file.c
@@ -206,7 +206,8 @@ static ssize_t __file_writev(file_t *f, struct iovec *iov, size_t iovcnt)
     for (size_t i = 0; i < iovcnt; i++) {
         len += iov[i].iov_len;
     }
-    res = len;
+    /* The pending data was already accounted by the previous calls. */
+    res = len - f->obuf.len;
 
     while (len >= BUFSIZ) {
         ssize_t resv = writev(f->fd, iov, iovcnt);
-- 
2.43.0


From 38e45e4b3e8b4cd1a067ca81465b9c674542078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 41/91] fix: file: truncate files when the position is not at
 the end

After having seeked backwards, file_truncate() did not cut what follows
the given length, or replaced existing data by zeros.
---
 src/core/file.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/file.c b/src/core/file.c
index 7c02240..9fac37e 100644
--- a/src/core/file.c
+++ b/src/core/file.c
@@ -338,9 +338,14 @@ int file_truncate(file_t *f, off_t len)
         sb_reset(&f->obuf);
     } else if (len <= f->wpos + f->obuf.len) {
         sb_clip(&f->obuf, len - f->wpos);
+        /* The file may already be longer if we seeked backwards. */
+        RETHROW(ftruncate(f->fd, f->wpos));
     } else { /* len > f->wpos + f->obuf.len */
-        if (len - f->wpos > BUFSIZ) {
-            /* Buffer would be too big: flush */
+        struct stat st;
+
+        RETHROW(fstat(f->fd, &st));
+        if (len - f->wpos > BUFSIZ || st.st_size > f->wpos) {
+            /* Buffer would be too big, or some data follows: flush */
             RETHROW(file_flush(f));
             RETHROW(ftruncate(f->fd, len));
             RETHROW(lseek(f->fd, len, SEEK_SET));
-- 
2.43.0


From 36a839482953a3818b321dcbedd8d94e0180bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 42/91] fix: unix: report close errors in xwrite_file, keep
 files appended to

Write errors may be reported by close(). When xappend_to_file() failed,
it removed the whole file, including what was there before.
---
 src/core/unix.blk | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index 5fca388..083c723 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -604,19 +604,25 @@ ssize_t xwrite_file_extended(const char * nonnull path,
                              const void * nonnull data,
                              ssize_t dlen, int flags, mode_t mode)
 {
-    int fd, res;
+    int fd;
 
     fd = RETHROW(open(path, flags, mode));
-    res = xwrite(fd, data, dlen);
-    if (res < 0) {
-        int save_errno = errno;
-        unlink(path);
-        close(fd);
-        errno = save_errno;
-        return -1;
+    if (xwrite(fd, data, dlen) < 0) {
+        goto error;
+    }
+    if (p_close(&fd) < 0) {
+        goto error;
     }
-    close(fd);
     return dlen;
+
+  error:
+    PROTECT_ERRNO(({
+        if (!(flags & O_APPEND)) {
+            unlink(path);
+        }
+        p_close(&fd);
+    }));
+    return -1;
 }
 
 ssize_t xwritev(int fd, struct iovec *iov, int iovcnt)
-- 
2.43.0


From 8e327c6ee7cd35fb430ffb4d76f0af1912592e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 43/91] fix: unix: report close errors when copying files

---
 src/core/unix.blk | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index 083c723..db661dc 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -218,7 +218,12 @@ off_t filecopy(const char *pathin, const char *pathout)
 
   end:
     PROTECT_ERRNO(p_close(&fdin));
-    PROTECT_ERRNO(p_close(&fdout));
+    if (total < 0) {
+        PROTECT_ERRNO(p_close(&fdout));
+    } else
+    if (p_close(&fdout) < 0) {
+        total = -1;
+    }
 
     return total;
 }
@@ -255,13 +260,16 @@ off_t filecopyat(int dfd_src, const char* name_src,
         goto error;
 
     total = fcopy(fd_src, &st, fd_dst);
-    close(fd_src);
-    close(fd_dst);
+    if (total < 0) {
+        goto error;
+    }
+    p_close(&fd_src);
+    RETHROW(p_close(&fd_dst));
     return total;
 
   error:
-    p_close(&fd_src);
-    p_close(&fd_dst);
+    PROTECT_ERRNO(p_close(&fd_src));
+    PROTECT_ERRNO(p_close(&fd_dst));
 
     /* OG: destination file should be removed upon error ? */
     return -1;
-- 
2.43.0


From f89ecb15c19421904cdb531aec956a04f49f0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 44/91] fix: lstr: check the result of fstat in
 lstr_init_from_fd

---
 src/core/str-l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index dc9ae46..c4e8ad9 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -222,7 +222,7 @@ int lstr_init_from_fd(lstr_t *dst, int fd, int prot, int flags)
     struct stat st;
     void *res;
 
-    if (unlikely(fstat(fd, &st)) < 0) {
+    if (unlikely(fstat(fd, &st) < 0)) {
         return -2;
     }
 
-- 
2.43.0


From fabf1ce85092941d78626f25f1661bc198047d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:21 +0000
Subject: [PATCH 45/91] fix: yaml: report errors when writing raw files

The contents are usually only written when the file is closed.
---
 src/core/yaml.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 99be2b5..a833318 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4842,10 +4842,14 @@ yaml_pack_write_raw_file(const yaml_pack_env_t * nonnull env,
 
     if (file_write(file, contents.s, contents.len) < 0) {
         sb_setf(err, "cannot write in output file: %m");
+        IGNORE(file_close(&file));
         return -1;
     }
 
-    IGNORE(file_close(&file));
+    if (file_close(&file) < 0) {
+        sb_setf(err, "cannot close output file `%s`: %m", fullpath);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From f036f5bd9f0cef1df7c46de6cf7c3455c8821463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 46/91] fix: file-log: try again to open a file after a failed
 rotation

The handler is NULL when the file cannot be closed or the new one cannot
be opened: the next write crashed.
---
 src/core/file-log.blk | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/core/file-log.blk b/src/core/file-log.blk
index d538bd6..7240293 100644
--- a/src/core/file-log.blk
+++ b/src/core/file-log.blk
@@ -492,8 +492,21 @@ void log_file_set_mode(log_file_t *file, uint32_t mode)
     file->mode = mode;
 }
 
+/* Try again to open a file when the last rotation failed. */
+static int log_file_reopen(log_file_t *file, time_t now)
+{
+    if (!file->_internal) {
+        log_file_open_new(file, now);
+    }
+    return file->_internal ? 0 : -1;
+}
+
 static int log_file_rotate_(log_file_t *file, time_t now)
 {
+    if (!file->_internal) {
+        return log_file_reopen(file, now);
+    }
+
     if (file->open_date == now) {
         return 0;
     }
@@ -517,6 +530,10 @@ static int log_file_rotate_(log_file_t *file, time_t now)
 
 static int log_check_rotate(log_file_t *lf)
 {
+    if (!lf->_internal) {
+        return log_file_reopen(lf, time(NULL));
+    }
+
     if (lf->disable_rotation) {
         return 0;
     }
@@ -634,6 +651,8 @@ int log_fwrite_transaction(log_file_t *file, int (^log_b)(void))
     uint64_t orig_total_size = file->total_size;
     off_t fpos;
 
+    RETHROW(log_file_reopen(file, time(NULL)));
+
     log_file_disable_rotation(file);
 
     if (file->is_file_bin) {
-- 
2.43.0


From 84fa008f5c24fb43a3918afc911bf9a57f22f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 47/91] fix: file-log: never delete nor compress the current
 file

It is not the last one when the clock goes backwards, and it may be
larger than the maximum total size: what is then logged was lost.
---
 src/core/file-log.blk | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/file-log.blk b/src/core/file-log.blk
index 7240293..17d0880 100644
--- a/src/core/file-log.blk
+++ b/src/core/file-log.blk
@@ -141,6 +141,12 @@ static void log_file_bgcompress(log_file_t *log_file, const char *path)
         return;
     }
 
+    if (ts == log_file->open_date) {
+        /* Never compress the file being written, that may not be the last
+         * one if the clock went backwards. */
+        return;
+    }
+
     if (qh_add(u64, &log_file->files_being_compressed, ts) < 0) {
         /* File is already being compressed. */
         return;
@@ -193,6 +199,10 @@ static void log_delete_file(log_file_t *log_file, const char *path,
     time_t ts;
 
     log_file_get_file_stamp(log_file, path, &ts);
+    if (ts == log_file->open_date) {
+        /* Never delete the file being written. */
+        return;
+    }
     if (qh_find(u64, &log_file->files_being_compressed, ts) >= 0) {
         /* The file is being compressed, we prevent its deletion for the
          * current rotation. */
-- 
2.43.0


From 910f95e93ca6164d93d2c083f90854a3c55e5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 48/91] fix: file-log: retry the compression when gzip cannot
 be forked

The file was considered as being compressed forever, and was never
deleted.
---
 src/core/file-log.blk | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/file-log.blk b/src/core/file-log.blk
index 17d0880..987a639 100644
--- a/src/core/file-log.blk
+++ b/src/core/file-log.blk
@@ -160,6 +160,7 @@ static void log_file_bgcompress(log_file_t *log_file, const char *path)
     pid = ifork();
     if (pid < 0) {
         logger_error(&logger_g, "unable to fork gzip in the background, %m");
+        qh_del_key(u64, &log_file->files_being_compressed, ts);
         bgcompr_ctx_delete(&ctx);
         return;
     }
-- 
2.43.0


From c997bbd9340ef28580d37c7ecc7a3938716a50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:08 +0000
Subject: [PATCH 49/91] fix: file-log: report flush errors when closing

The data of a binary log was lost and log_file_close() succeeded.
---
 src/core/file-log.blk | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/file-log.blk b/src/core/file-log.blk
index 987a639..36b9e53 100644
--- a/src/core/file-log.blk
+++ b/src/core/file-log.blk
@@ -454,11 +454,11 @@ int log_file_close(log_file_t **lfp)
     if (*lfp) {
         log_file_t *log_file = *lfp;
 
-        log_file_flush(log_file);
+        res = log_file_flush(log_file);
         if (log_file->is_file_bin) {
-            res = file_bin_close(&log_file->_bin_internal);
+            res |= file_bin_close(&log_file->_bin_internal);
         } else {
-            res = file_close(&log_file->_internal);
+            res |= file_close(&log_file->_internal);
         }
         log_file_call_cb(log_file, LOG_FILE_CLOSE, NULL);
         log_file_delete(lfp);
-- 
2.43.0


From f9c361fee8b1401a17510f8bca15af5281b4a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:06 +0000
Subject: [PATCH 50/91] fix: file-bin: do not skip records being written that
 end a slot

The header of the next slot gives the offset of the next entry, which is
not the end of the record when no other one fits in the slot: a reader
following the file lost the record.
---
 src/core/file-bin.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 180cf60..bd7039e 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -320,6 +320,7 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
 
     rec_end_off = file_bin_get_entry_end_off(file, sz);
     if (rec_end_off > file->length) {
+        off_t next_entry = file_bin_get_next_entry_off(file, sz);
         slot_hdr_t tmp_size;
 
         /* There is not enough data in the file to read the record. This could
@@ -331,12 +332,12 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
          *
          * In order to guess in which case we are, read the next slot header
          * (if available) in which there is also the information about the
-         * offset of the end of the record. If the two offsets mismatch, we
-         * are in the first case.
+         * offset of the entry following the record. If the two offsets
+         * mismatch, we are in the first case.
          */
         if (_file_bin_skip(file, file_bin_remaining_space_in_slot(file)) < 0
         ||  file_bin_get_cpu32(file, &tmp_size) < 0
-        ||  rec_end_off == file->cur + tmp_size)
+        ||  next_entry == file->cur + tmp_size)
         {
             file->cur = prev_off;
             return -1;
-- 
2.43.0


From c36040b995d0a1fc5f2b826a17fb5faae3b7438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 51/91] fix: qhat enumeration skips entries after an empty tail
 of a dispatch node

When nothing follows in a dispatch node, the enumerator goes on with the
next node, but kept the low bits of the key it was looking for: the first
entries of that next node were skipped.
---
 src/core/qps-hat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/qps-hat.c b/src/core/qps-hat.c
index 6ceafda..f413172 100644
--- a/src/core/qps-hat.c
+++ b/src/core/qps-hat.c
@@ -1926,11 +1926,13 @@ void qhat_tree_enumerator_find_node(qhat_tree_enumerator_t *en, uint32_t key)
     }
     en->path.depth--;
 
-    shift   = qhat_depth_shift(hat, en->path.depth);
-    new_key = key + (1UL << shift);
+    shift = qhat_depth_shift(hat, en->path.depth);
     if (shift == 32) {
         en->end = true;
     } else {
+        /* Restart from the very beginning of the following node. */
+        new_key  = qhat_depth_prefix(hat, key, en->path.depth);
+        new_key += 1U << shift;
         qhat_tree_enumerator_dispatch_up(en, key, new_key);
     }
 }
-- 
2.43.0


From 9c8cd7457864d0260522c30c0055adcc856d7671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:48 +0000
Subject: [PATCH 52/91] fix: qps: make the state that is opened durable

When the snapshotter is killed after it renamed meta.qps but before it
synced the directory, the store opens in the new state, which a power loss
could still replace by the former one.
---
 src/core/qps.blk | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/qps.blk b/src/core/qps.blk
index fc5e191..2e70259 100644
--- a/src/core/qps.blk
+++ b/src/core/qps.blk
@@ -2513,6 +2513,13 @@ qps_t *_qps_open(const char *path, const char *name, bool load_whole_spool,
     }
     unlockdir(&snapshot_lock);
 
+    /* The last snapshotter may have been killed before it synced its last
+     * rename: what is opened now must not be lost later. */
+    if (fdatasync(fd) < 0) {
+        logger_error(&qps->logger, "unable to sync directory: %m");
+        goto out_close;
+    }
+
     if (fstatat(fd, "meta.qps", &st, 0) < 0) {
         logger_error(&qps->logger, "unable to stat meta.qps: %m");
         goto out_close;
-- 
2.43.0


From 776f0c6a9b035a31da485615c60503c6729c0bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:48 +0000
Subject: [PATCH 53/91] fix: qps: an orphan snapshotter replaces a store that
 is opened again

When its parent dies before it took the snapshotter lock, the store can be
opened again, and then the snapshotter, that takes the lock that was
released meanwhile, replaces the metadata of the opened store.
---
 src/core/qps.blk | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/qps.blk b/src/core/qps.blk
index 2e70259..7a61581 100644
--- a/src/core/qps.blk
+++ b/src/core/qps.blk
@@ -2732,10 +2732,11 @@ qps_snapshot_bg(qps_t *qps, const void *data, size_t dlen,
                 qv_t(u32) t, uint32_t generation)
 {
     dir_lock_t dlock;
-    pid_t pid;
+    pid_t pid, parent;
     struct timeval begin, step_fork, step_end;
 
     lp_gettv(&begin);
+    parent = getpid();
     pid = ifork();
     if (pid < 0) {
         logger_panic(&qps->logger, "unable to fork snapshotter in the "
@@ -2751,6 +2752,11 @@ qps_snapshot_bg(qps_t *qps, const void *data, size_t dlen,
     if (qps_lock_snapshot(qps, &dlock) < 0) {
         logger_fatal(&qps->logger, "QPS: cannot take snapshotter lock");
     }
+    if (getppid() != parent) {
+        /* The parent died before we took the lock: the store may have been
+         * opened again since. */
+        logger_fatal(&qps->logger, "QPS: orphan snapshotter");
+    }
 
     for (int i = 0; i < qps->maps.len; i++) {
         struct timeval start, end;
-- 
2.43.0


From 01e8bca0804120e63d1b4720f6b639a26cd1ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 54/91] fix: http2: obey a lowered SETTINGS_HEADER_TABLE_SIZE

The limit was asserted by the encoder but never applied to it, nor signaled
to the peer's decoder.
---
 src/net/http.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index e187c38..fd24d8e 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -3515,6 +3515,8 @@ typedef struct http2_conn_t {
     /* hpack compression contexts */
     hpack_enc_dtbl_t    enc;
     hpack_dec_dtbl_t    dec;
+    /* True iff a shrink of enc must be signaled in the next header block. */
+    bool                enc_resized;
     /* tracked streams */
     qm_t(qstream)       streams;
     dlist_t             stream_list;
@@ -4633,6 +4635,25 @@ static void http2_conn_pack_single_hdr(http2_conn_t *w, lstr_t key,
     __sb_fixlen(out_, out_->len + len);
 }
 
+/** Start a header block.
+ *
+ * RFC 7541 §4.2: when the peer lowers the maximum size of the dynamic table,
+ * the next header block starts with the new size.
+ */
+static void http2_conn_pack_dts_update(http2_conn_t *w, sb_t *out_)
+{
+    byte *out;
+    int len;
+
+    if (likely(!w->enc_resized)) {
+        return;
+    }
+    out = (byte *)sb_grow(out_, HPACK_BUFLEN_INT);
+    len = hpack_encoder_write_dts_update(&w->enc, w->enc.tbl_size_limit, out);
+    __sb_fixlen(out_, out_->len + len);
+    w->enc_resized = false;
+}
+
 /* }}} */
 /* {{{ Streaming API */
 
@@ -4775,6 +4796,7 @@ http2_stream_send_response_headers(http2_conn_t *w, http2_stream_t *stream,
     int code = 0;
 
     *clen = -1;
+    http2_conn_pack_dts_update(w, &out);
     http2_conn_pack_single_hdr(w, LSTR_IMMED_V(":status"), status, &out);
     while (!ps_done(&headerlines)) {
         lstr_t key;
@@ -4835,6 +4857,7 @@ http2_stream_send_request_headers(http2_conn_t *w, http2_stream_t *stream,
     bool eos;
 
     *clen = -1;
+    http2_conn_pack_dts_update(w, &out);
     http2_conn_pack_single_hdr(w, LSTR_IMMED_V(":method"), method, &out);
     http2_conn_pack_single_hdr(w, LSTR_IMMED_V(":scheme"), scheme, &out);
     http2_conn_pack_single_hdr(w, LSTR_IMMED_V(":path"), path, &out);
@@ -5549,6 +5572,12 @@ http2_conn_process_peer_settings(http2_conn_t *w, uint16_t id, uint32_t val)
     case HTTP2_ID_HEADER_TABLE_SIZE:
         if (val != w->peer_settings.header_table_size) {
             w->enc.tbl_size_max = val;
+            if (w->enc.tbl_size_limit > val) {
+                byte out[HPACK_BUFLEN_INT];
+
+                hpack_encoder_write_dts_update(&w->enc, val, out);
+                w->enc_resized = true;
+            }
         }
         w->peer_settings.header_table_size = val;
         break;
-- 
2.43.0


From 4dc005d11b835c29a9c3652a4df9b2811e74af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 55/91] fix: http2: accept DATA after the headers of a request
 without body

A request with 'Content-Length: 0' (or a GET) may be ended by an empty DATA
frame: the server asserted.
---
 src/net/http.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index fd24d8e..eb0a923 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -6660,12 +6660,16 @@ http2_stream_on_data_server(http2_conn_t *w, http2_stream_t *stream,
     int len;
     int res;
 
-    assert(httpd->state == HTTP_PARSER_BODY
-               || httpd->state == HTTP_PARSER_CHUNK_HDR);
     if (ps_done(&data) && !eos) {
         return;
     }
     switch(httpd->state) {
+    case HTTP_PARSER_CLOSE:
+        /* the request ended with its headers, or was rejected. */
+        if (eos && (stream->events & HTTP2_STREAM_EV_EOS_SENT)) {
+            http2_stream_close_httpd(w, stream);
+        }
+        break;
     case HTTP_PARSER_BODY:
         sb_add_ps(&httpd->ibuf, data);
         ps = ps_initsb(&httpd->ibuf);
-- 
2.43.0


From 8282e4e1f6191e25ee322cc82ff711d43fb855fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 56/91] fix: http2: complete requests without Content-Length

The parsed chunks were never dropped from the input buffer, and the last one
was parsed by the wrong parser: the request never ended.
---
 src/net/http.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index eb0a923..4f4f0fc 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -6724,7 +6724,6 @@ http2_stream_on_data_server(http2_conn_t *w, http2_stream_t *stream,
         }
         break;
     case HTTP_PARSER_CHUNK_HDR:
-        res = PARSE_OK;
         if (!ps_done(&data)) {
             char hdr[12];
 
@@ -6732,21 +6731,20 @@ http2_stream_on_data_server(http2_conn_t *w, http2_stream_t *stream,
             sb_add(&httpd->ibuf, hdr + 2, 10);
             sb_add_ps(&httpd->ibuf, data);
             sb_adds(&httpd->ibuf, "\r\n");
-            ps = ps_initsb(&httpd->ibuf);
-            len = ps_len(&ps);
-            res = httpd_parse_chunk_hdr(httpd, &ps);
-            if (res == PARSE_OK) {
-                res = httpd_parse_chunk(httpd, &ps);
-            }
         }
-        if (eos && res == PARSE_OK) {
+        if (eos) {
             sb_adds(&httpd->ibuf, "0\r\n\r\n");
-            ps = ps_initsb(&httpd->ibuf);
-            len = ps_len(&ps);
-            res = httpd_parse_chunk_hdr(httpd, &ps);
-            if (res == PARSE_OK) {
-                res = httpd_parse_chunk(httpd, &ps);
-            }
+        }
+        ps = ps_initsb(&httpd->ibuf);
+        do {
+            res = (*httpd_parsers[httpd->state])(httpd, &ps);
+        } while (res == PARSE_OK);
+        sb_skip_upto(&httpd->ibuf, ps.p);
+        if (res == PARSE_ERROR) {
+            http2_stream_send_reset(w, stream,
+                                    "malformed response [invalid payload "
+                                    "format or compression]");
+            http2_stream_close_httpd(w, stream);
         }
         break;
     default:
-- 
2.43.0


From 5e37a434273b04cd4bfe4f01627232e0080da334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 57/91] fix: http2: reset the stream of a malformed request
 that is complete

The request was dropped and its stream left half closed: the client waited
for a response for ever.
---
 src/net/http.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index 4f4f0fc..aeb542f 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -6685,10 +6685,8 @@ http2_stream_on_data_server(http2_conn_t *w, http2_stream_t *stream,
             }
         } else if (httpd->chunk_length < len) {
             /* mismatch: DATA frames > content-length */
-            if (!eos) {
-                http2_stream_send_reset(
-                    w, stream, "malformed response [DATA > Content-Length]");
-            }
+            http2_stream_send_reset(
+                w, stream, "malformed response [DATA > Content-Length]");
             http2_stream_close_httpd(w, stream);
             return;
         }
@@ -6699,8 +6697,9 @@ http2_stream_on_data_server(http2_conn_t *w, http2_stream_t *stream,
             sb_skip_upto(&httpd->ibuf, ps.p);
             if (eos) {
                 /* mismatch: content-length > DATA frames.*/
-                http2_stream_trace(w, stream, 2,
-                                   "malformed response [unexpected eos]");
+                http2_stream_send_reset(w, stream,
+                                        "malformed response "
+                                        "[unexpected eos]");
                 http2_stream_close_httpd(w, stream);
                 return;
             }
@@ -6712,11 +6711,9 @@ http2_stream_on_data_server(http2_conn_t *w, http2_stream_t *stream,
             sb_skip_upto(&httpd->ibuf, ps.p);
             return;
         case PARSE_ERROR:
-            if (!eos) {
-                http2_stream_send_reset(w, stream,
-                                        "malformed response [invalid payload "
-                                        "format or compression]");
-            }
+            http2_stream_send_reset(w, stream,
+                                    "malformed response [invalid payload "
+                                    "format or compression]");
             http2_stream_close_httpd(w, stream);
             return;
         default:
-- 
2.43.0


From e12df6cc65d11d37a384902c9aa8a7cf31c1d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 58/91] fix: http2: obey the peer's MAX_CONCURRENT_STREAMS and
 GOAWAY

The client opened streams without limit, even on a connection that is
closing.
---
 src/net/http.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index aeb542f..961d375 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -7569,6 +7569,25 @@ static void http2c_ctx_open_stream(http2c_ctx_t *ctx, httpc_query_t *q)
     dlist_move_tail(&client->active_http2c_ctxs, &ctx->link);
 }
 
+/** Check that a stream can be opened now: the connection is not closing and
+ * the peer accepts one more stream. */
+static bool http2_client_can_open_stream(http2_client_t *client)
+{
+    http2_conn_t *w = client->conn;
+    uint32_t nb_active = 0;
+
+    if (w->closing) {
+        return false;
+    }
+    if (!OPT_ISSET(w->peer_settings.max_concurrent_streams)) {
+        return true;
+    }
+    dlist_for_each(it, &client->active_http2c_ctxs) {
+        nb_active++;
+    }
+    return nb_active < OPT_VAL(w->peer_settings.max_concurrent_streams);
+}
+
 static void http2c_ctx_try_open_stream(http2c_ctx_t *ctx)
 {
     httpc_t *httpc = ctx->httpc;
@@ -7591,7 +7610,7 @@ static void http2c_ctx_try_open_stream(http2c_ctx_t *ctx)
     }
 
     q = dlist_first_entry(&httpc->query_list, httpc_query_t, query_link);
-    if (likely(q->hdrs_done)) {
+    if (likely(q->hdrs_done) && http2_client_can_open_stream(ctx->owner)) {
         http2c_ctx_open_stream(ctx, q);
     }
 }
-- 
2.43.0


From 574140ff5f8daf0a715a7f29a0f011d325702a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 59/91] fix: http2: do not attach new clients to a closing
 connection

---
 src/net/http.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 961d375..fb71b5a 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -7091,7 +7091,12 @@ http2_pool_get_client(httpc_cfg_t *cfg, const sockunion_t *peer_su)
     if (pos & QHASH_COLLISION) {
         /* We already have a client for this address. */
         pos &= ~QHASH_COLLISION;
-        return pool->qclients.values[pos];
+        client = pool->qclients.values[pos];
+        if (likely(!client->conn->closing)) {
+            return client;
+        }
+        /* It does not accept new streams: let it finish on its own. */
+        client->pool = NULL;
     }
 
     w = http2_conn_connect_client_as(peer_su, cfg);
-- 
2.43.0


From 03b9fe51541076e5f799d01b6f38bf53163001a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 60/91] fix: http2: forget the streams that a GOAWAY cancels

They were still counted as pending, so that the connection was kept until
its idle timeout, together with the queries that wait on it.
---
 src/http2.h    | 4 ++++
 src/net/http.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/http2.h b/src/http2.h
index 504b980..be9f167 100644
--- a/src/http2.h
+++ b/src/http2.h
@@ -68,6 +68,10 @@ enum {
     HTTP2_STREAM_EV_1ST_HDRS_EOS_SENT =
         HTTP2_STREAM_EV_1ST_HDRS | HTTP2_STREAM_EV_EOS_SENT,
     /* Masks */
+    HTTP2_STREAM_EV_MASK_DEAD = HTTP2_STREAM_EV_RST_RECV
+                              | HTTP2_STREAM_EV_RST_SENT
+                              | HTTP2_STREAM_EV_CLOSED,
+
     HTTP2_STREAM_EV_MASK_PEER_CANT_WRITE = HTTP2_STREAM_EV_EOS_RECV
                                           | HTTP2_STREAM_EV_RST_RECV
                                           | HTTP2_STREAM_EV_CLOSED,
diff --git a/src/net/http.c b/src/net/http.c
index fb71b5a..ddc589e 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -3742,6 +3742,10 @@ static void http2_conn_close_streams_internal(http2_conn_t *w, int query_max,
         }
 
         http2_stream_on_reset(w, stream, false);
+        if (stream->events && !(stream->events & HTTP2_STREAM_EV_MASK_DEAD)) {
+            w->queries_can_recv -= !(stream->events & HTTP2_STREAM_EV_EOS_RECV);
+            w->queries_can_send -= !(stream->events & HTTP2_STREAM_EV_EOS_SENT);
+        }
         http2_stream_delete(&stream);
     }
 }
-- 
2.43.0


From 4ff22503892851b32cd47a423e78f5f8baadb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 61/91] fix: http2: complete the request whose stream the peer
 resets

The upper layer was not told: a client waited for ever, and a server could
still reply on the stream. A stream reset by both sides was discounted
twice.
---
 src/net/http.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index ddc589e..7c54cb7 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -5126,14 +5126,14 @@ http2_stream_do_recv_rst_stream(http2_conn_t *w, uint32_t stream_id,
                                        "RST_STREAM on idle stream [code %u]",
                                        error_code);
     }
-    if (flags & HTTP2_STREAM_EV_RST_SENT) {
+    if (flags & HTTP2_STREAM_EV_MASK_DEAD) {
         http2_stream_trace(w, stream, 2,
-                           "RST_STREAM ingored (rst sent already) [code %u]",
+                           "RST_STREAM ignored (already reset) [code %u]",
                            error_code);
-        http2_stream_handle_events(w, stream, HTTP2_STREAM_EV_RST_RECV);
         return 0;
     }
     http2_stream_handle_events(w, stream, HTTP2_STREAM_EV_RST_RECV);
+    http2_stream_on_reset(w, stream, true);
     return 0;
 }
 
-- 
2.43.0


From a63afd73d0a28993ebf2d8758d3ad657b17282b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 62/91] fix: http2: complete the request reset for a bad
 WINDOW_UPDATE

It was left pending, and a second such frame asserted.
---
 src/net/http.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index 7c54cb7..c75800f 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -5198,23 +5198,25 @@ http2_stream_do_recv_window_update(http2_conn_t *w, uint32_t stream_id,
         return http2_stream_conn_error(w, stream, PROTOCOL_ERROR,
                                        "WINDOW_UPDATE on idle stream");
     }
+    if (flags & HTTP2_STREAM_EV_MASK_DEAD) {
+        http2_stream_trace(
+            w, stream, 2,
+            "flow control: ignored WINDOW_UPDATE (already reset)");
+        return 0;
+    }
     if (!incr) {
         http2_stream_error(w, stream, PROTOCOL_ERROR,
                            "frame error: WINDOW_UPDATE with 0 increment");
+        http2_stream_on_reset(w, stream, false);
         return 0;
     }
     if (new_size > HTTP2_LEN_WINDOW_SIZE_LIMIT) {
-        if (flags & HTTP2_STREAM_EV_RST_SENT) {
-            http2_stream_trace(
-                w, stream, 2,
-                "flow control: ignored WINDOW_UPDATE (already RST_SENT)");
-            return 0;
-        }
         http2_stream_error(
             w, stream, FLOW_CONTROL_ERROR,
             "flow control: WINDOW_UPDATE cannot increment send-window beyond "
             "limit [cur %d, incr %d, new %jd]",
             stream->send_window, incr, new_size);
+        http2_stream_on_reset(w, stream, false);
         return 0;
     }
     http2_stream_trace(w, stream, 2,
-- 
2.43.0


From dc44ac5a3ba56bcd88a3a5ffc0c6473ee64f2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 63/91] fix: http2: do not serve a stream that was refused

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index c75800f..81523c7 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -5078,7 +5078,7 @@ static int http2_stream_do_recv_headers(http2_conn_t *w, uint32_t stream_id,
         http2_stream_error(
             w, stream, REFUSED_STREAM,
             "server is finalizing, no more stream is accepted");
-        http2_stream_on_reset(w, stream, false);
+        return 0;
     }
     if (!(flags & HTTP2_STREAM_EV_RST_SENT)) {
         if (!flags) {
-- 
2.43.0


From 1d9c11d12acedaa7d76e7450045f23c6f9c10ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 64/91] fix: http2: check the size of RST_STREAM, allow
 PUSH_PROMISE

The assertion on promised streams could never hold.
---
 src/net/http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index 81523c7..f2054fa 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4446,7 +4446,7 @@ http2_stream_handle_events(http2_conn_t *w, http2_stream_t *stream,
             w->queries_can_send--;
             http2_stream_trace(w, stream, 2, "half closed (local)");
         } else if (events == HTTP2_STREAM_EV_PSH_RECV) {
-            assert(w->is_client && !stream->id);
+            assert(w->is_client && stream->id);
             http2_stream_trace(w, stream, 2, "reserved (remote)");
         } else {
             assert(0 && "invalid events on idle stream");
@@ -5526,7 +5526,7 @@ static int http2_conn_parse_rst_stream(http2_conn_t *w, uint32_t stream_id,
 {
     uint32_t error_code;
 
-    if (ps_get_be32(&payload, &error_code) < 0) {
+    if (ps_get_be32(&payload, &error_code) < 0 || !ps_done(&payload)) {
         HTTP2_THROW_ERR(w, FRAME_SIZE_ERROR,
                         "frame error: RST_STREAM with invalid size %jd",
                         ps_len(&payload));
-- 
2.43.0


From 92d4f8e12e90010b0d60ed1266c497fe2bf61a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:24 +0000
Subject: [PATCH 65/91] fix: hpack: decoder: give each entry its own name

When two entries took their name from the same entry, the second one was
left with a dangling pointer once the first one was evicted.
---
 src/net/hpack.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 33b71f9..074fff7 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -1063,12 +1063,10 @@ int hpack_decoder_write_hdr(hpack_dec_dtbl_t *dtbl, hpack_xhdr_t *xhdr,
     *out++ = '\n';
     if (xhdr->flags & XHDR_ADD_DTBL) {
         assert(xhdr->flags & XHDR_NEW_VAL);
-        if (xhdr->flags & XHDR_NEW_KEY) {
+        if ((xhdr->flags & XHDR_NEW_KEY) || ent) {
+            /* XXX: the entry that the name comes from may be evicted before
+             * the new one. */
             key = lstr_dup(key);
-        } else if (ent) {
-            /* new entry in the dyn. table with the same key, old entry loses
-             * ownership of the string buffer. */
-            ent->key = lstr_dupc(key);
         }
         val = lstr_dup(val);
         hpack_dec_dtbl_add_hdr(dtbl, key, val);
-- 
2.43.0


From 762407c0fea8278b11b28e8ab7df503aa7bebd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:24 +0000
Subject: [PATCH 66/91] fix: hpack: size the buffer of decoded headers properly

The size of the value depended on the encoding of the name, and the 4 bytes
of separators were not counted: a buffer overflow.
---
 src/net/hpack.c | 2 +-
 src/net/http.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 074fff7..3e5a293 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -987,7 +987,7 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
         }
         val = __ps_get_ps(in, len);
         /* XXX: huffman encoding maximum compression ratio: 5/8 */
-        vallen = (flags & XHDR_RAW_KEY) ? len : 2u * len;
+        vallen = (flags & XHDR_RAW_VAL) ? len : 2u * len;
     }
     if (add_dtbl) {
         flags |= XHDR_ADD_DTBL;
diff --git a/src/net/http.c b/src/net/http.c
index f2054fa..3a20623 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4551,7 +4551,7 @@ t_http2_conn_decode_header_block(http2_conn_t *w, pstream_t in,
         lstr_t val;
 
         len = RETHROW(hpack_decoder_extract_hdr(dec, &in, &xhdr));
-        out = (byte *)sb_grow(buf, len);
+        out = (byte *)sb_grow(buf, len + 4);
         /* XXX: Decoded header is unpacked into the following format:
          * <DECODED_KEY> + ": " + <DECODED_VALUE> + "\r\n".
          */
-- 
2.43.0


From d93a72ad76e5961c87ee9f083abd21438eaaba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:24 +0000
Subject: [PATCH 67/91] fix: http2: do not reset a stream that both sides have
 ended

---
 src/net/http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 3a20623..d7177b7 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4715,7 +4715,9 @@ static void http2_stream_on_data(http2_conn_t *w, http2_stream_t *stream,
                                  pstream_t data, bool eos)
 {
     if (!http2_stream_has_http1_ctx(stream)) {
-        http2_stream_send_reset_cancel(w, stream, "stream cancelled");
+        if (!eos || !(stream->events & HTTP2_STREAM_EV_EOS_SENT)) {
+            http2_stream_send_reset_cancel(w, stream, "stream cancelled");
+        }
         return;
     }
     if (w->is_client) {
-- 
2.43.0


From 8b022de7385f1c8fb4770e57759eedd171cab560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:24 +0000
Subject: [PATCH 68/91] fix: http2: reset streams do not limit
 INITIAL_WINDOW_SIZE

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index d7177b7..53b4d1e 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -5551,7 +5551,7 @@ http2_conn_on_peer_initial_window_size_changed(http2_conn_t *w, int32_t delta)
     qm_for_each_value(qstream, stream, &w->streams) {
         unsigned flags = stream->events;
 
-        if (!flags || flags & HTTP2_STREAM_EV_CLOSED) {
+        if (!flags || flags & HTTP2_STREAM_EV_MASK_DEAD) {
             continue;
         }
         new_size = (int64_t)stream->send_window + delta;
-- 
2.43.0


From aa0f66f9df2170ba735abc92c7b63d8444cc072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:05 +0000
Subject: [PATCH 69/91] fix: http2: accept responses made of headers only

A response without Content-Length whose HEADERS end the stream was reported
as invalid.
---
 src/net/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 53b4d1e..20c9182 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -7485,6 +7485,10 @@ http2c_ctx_read(http2c_ctx_t *ctx, bool headers, bool eos, sb_t *err)
     ctx->http1_firing = true;
     do {
         rc = (*httpc_parsers[w->state])(w, &ps);
+        if (eos && w->state == HTTP_PARSER_BODY && w->chunk_length < 0) {
+            /* indefinite payload len, ended by its headers */
+            w->chunk_length = ps_len(&ps);
+        }
     } while (rc == PARSE_OK && eos);
     ctx->http1_firing = false;
 
-- 
2.43.0


From d5e861917713841b11fbb7df2abd45b5dc484449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:45 +0000
Subject: [PATCH 70/91] fix: http2: send headers whose value is empty

A header with an empty value, which httpd_reply and httpc_query allow and
HTTP/1 sends, hit an assertion when the connection is in HTTP/2.
---
 src/net/http.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 20c9182..65d2da4 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4618,7 +4618,6 @@ static void http2_headerlines_get_next_hdr(pstream_t *headerlines,
     assert(!ps_done(&ps));
     *key = LSTR_PS_V(&ps);
     ps_trim(&line);
-    assert(!ps_done(&line));
     *val = LSTR_PS_V(&line);
 }
 
-- 
2.43.0


From 3d6def0f2e0174d2f95a1aa8c8ba28cd6535e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:00 +0000
Subject: [PATCH 71/91] fix: http2: accept requests with a Host header

The flag of the Host header was not masked when the pseudo-headers were
validated, so that any request carrying one (with or without :authority)
was reset as malformed.
---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 65d2da4..af7084a 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -5021,7 +5021,7 @@ static bool http2_stream_validate_recv_headrs(http2_header_info_t *info)
     if (flags & HTTP2_HDR_FLAG_HAS_EXTRA_PSEUDO_HDR) {
         return false;
     }
-    flags &= ~(HTTP2_HDR_FLAG_HAS_CONTENT_LENGTH
+    flags &= ~(HTTP2_HDR_FLAG_HAS_CONTENT_LENGTH | HTTP2_HDR_FLAG_HAS_HOST
                | HTTP2_HDR_FLAG_HAS_REGULAR_HEADERS);
 
     carray_for_each_entry(e, http2_valid_pseudo_hdr_combination_g) {
-- 
2.43.0


From 7f600fdc637728401c2f879f265a7ca59d6229eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:00 +0000
Subject: [PATCH 72/91] fix: http2: reject fields that HTTP/1 header lines
 cannot carry

Decoded fields are rewritten as lines of HTTP/1 headers. Line breaks in a
value, or colons, blanks and line breaks in a name, let a peer forge other
headers (RFC 9113 8.2.1: such messages are malformed), and an empty name
closed the whole connection.
---
 src/http2.h    |  1 +
 src/net/http.c | 31 +++++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/http2.h b/src/http2.h
index be9f167..6a09e88 100644
--- a/src/http2.h
+++ b/src/http2.h
@@ -34,6 +34,7 @@ typedef enum http2_header_info_flags_t {
     HTTP2_HDR_FLAG_HAS_REGULAR_HEADERS      =  1 << 6,
     HTTP2_HDR_FLAG_HAS_CONTENT_LENGTH       =  1 << 7,
     HTTP2_HDR_FLAG_HAS_HOST                 =  1 << 8,
+    HTTP2_HDR_FLAG_HAS_INVALID_FIELD        =  1 << 9,
 } http2_header_info_flags_t;
 
 typedef struct http2_header_info_t {
diff --git a/src/net/http.c b/src/net/http.c
index af7084a..8d14d92 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4526,6 +4526,28 @@ static struct {
 #undef PSEUDO_HDR
 };
 
+/** Check that a field can be written as a line of HTTP/1.x headers.
+ *
+ * RFC 9113 §8.2.1: a message whose fields contain these characters is
+ * malformed.
+ */
+static bool http2_is_valid_hdr_field(lstr_t key, lstr_t val)
+{
+    for (int i = key.s[0] == ':'; i < key.len; i++) {
+        unsigned char c = key.s[i];
+
+        if (c <= ' ' || c == ':' || (c >= 'A' && c <= 'Z') || c >= 0x7f) {
+            return false;
+        }
+    }
+    for (int i = 0; i < val.len; i++) {
+        if (val.s[i] == '\0' || val.s[i] == '\r' || val.s[i] == '\n') {
+            return false;
+        }
+    }
+    return true;
+}
+
 /** Decode a header block.
  *
  * \param res: decoded headers info.
@@ -4560,7 +4582,10 @@ t_http2_conn_decode_header_block(http2_conn_t *w, pstream_t in,
         val = LSTR_DATA_V(out + keylen + 2, len - keylen - 4);
         http2_conn_trace(w, 2, "%*pM: %*pM", LSTR_FMT_ARG(key),
                          LSTR_FMT_ARG(val));
-        THROW_ERR_IF(keylen < 1);
+        if (unlikely(!keylen || !http2_is_valid_hdr_field(key, val))) {
+            info.flags |= HTTP2_HDR_FLAG_HAS_INVALID_FIELD;
+            continue;
+        }
         if (unlikely(key.s[0] == ':')) {
             lstr_t *matched_phdr = NULL;
 
@@ -5018,7 +5043,9 @@ static bool http2_stream_validate_recv_headrs(http2_header_info_t *info)
 {
     unsigned flags = info->flags;
 
-    if (flags & HTTP2_HDR_FLAG_HAS_EXTRA_PSEUDO_HDR) {
+    if (flags & (HTTP2_HDR_FLAG_HAS_EXTRA_PSEUDO_HDR |
+                 HTTP2_HDR_FLAG_HAS_INVALID_FIELD))
+    {
         return false;
     }
     flags &= ~(HTTP2_HDR_FLAG_HAS_CONTENT_LENGTH | HTTP2_HDR_FLAG_HAS_HOST
-- 
2.43.0


From b1a7a8841a35c3a0491bd3ef27db85f449da3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:05 +0000
Subject: [PATCH 73/91] fix: http2: count the end of a reset stream once

END_STREAM received on a stream that we already reset decremented the
number of receiving streams a second time: once a GOAWAY is received, the
connection was then closed before its last streams were answered.
---
 src/net/http.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 8d14d92..af0d60b 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4470,7 +4470,8 @@ http2_stream_handle_events(http2_conn_t *w, http2_stream_t *stream,
         return;
     }
     if (events == HTTP2_STREAM_EV_EOS_RECV) {
-        w->queries_can_recv--;
+        /* XXX: a stream that was reset is no longer counted. */
+        w->queries_can_recv -= !(flags & HTTP2_STREAM_EV_RST_SENT);
         if (flags & HTTP2_STREAM_EV_EOS_SENT) {
             http2_stream_trace(w, stream, 2, "stream closed [eos recv]");
         } else {
-- 
2.43.0


From 7c85d800a37b69844372ff714cc38d4c56d12119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:46 +0000
Subject: [PATCH 74/91] fix: http2: interim responses do not end the stream

A request with 'Expect: 100-continue' makes httpd write '100 Continue'
ahead of the response. Over HTTP/2 these headers were sent with END_STREAM
and the query was closed, or an assertion failed when the response was
already there.
---
 src/net/http.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index af0d60b..7cca252 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4840,8 +4840,7 @@ http2_stream_send_response_headers(http2_conn_t *w, http2_stream_t *stream,
         http2_conn_pack_single_hdr(w, key, val, &out);
     }
     lstr_to_int(status, &code);
-    if (code == HTTP_CODE_NO_CONTENT || (code >= 100 && code < 199))
-    {
+    if (code == HTTP_CODE_NO_CONTENT || (code >= 100 && code < 200)) {
         /* rfc 7230: §3.3.2
          * A server MUST NOT send a Content-Length header field in any
          * response with a status code of 1xx (Informational) or 204 (No
@@ -4849,7 +4848,8 @@ http2_stream_send_response_headers(http2_conn_t *w, http2_stream_t *stream,
          */
         *clen = 0;
     }
-    eos = (*clen == 0);
+    /* rfc 9113: §8.1: interim responses do not end the stream. */
+    eos = (*clen == 0) && code >= 200;
     http2_conn_send_headers_block(w, stream->id, ps_initsb(&out), eos);
     if (eos) {
         http2_stream_handle_events(w, stream, HTTP2_STREAM_EV_EOS_SENT);
@@ -6862,7 +6862,12 @@ static void http2_conn_stream_idle_httpd(http2_conn_t *w, httpd_t *httpd)
     http_get_http2_response_hdrs(&chunk, &code, &headerlines);
     http2_stream_send_response_headers(w, stream, code, headerlines,
                                        http2_ctx, &clen);
-    /* TODO: support 1xx informational responses (100-continue) */
+    if (code.s[0] == '1') {
+        /* interim response (100-continue): the response is yet to come. */
+        OB_WRAP(sb_skip_upto, &httpd->ob, chunk.p);
+        http2_conn_stream_idle_httpd(w, httpd);
+        return;
+    }
     assert(clen >= 0 && "TODO: support chunked respones");
     http2_ctx->http2_sync_mark = clen;
     OB_WRAP(sb_skip_upto, &httpd->ob, chunk.p);
-- 
2.43.0


From 8331a63ed9153a0f4ccb1bfb9621854ce142c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:54 +0000
Subject: [PATCH 75/91] fix: http2: accept trailers

Trailers (RFC 9113 8.1) had valid requests reset by the server, and valid
responses failed by the client. They now end the payload, and are ignored
as they are in HTTP/1.
---
 src/net/http.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 7cca252..553727c 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -6668,6 +6668,11 @@ http2_stream_on_headers_server(http2_conn_t *conn, http2_stream_t *stream,
     pstream_t ps;
     int res;
 
+    if (eos && httpd->state != HTTP_PARSER_IDLE && !info->method.s) {
+        /* trailers: they end the payload, and are ignored. */
+        http2_stream_on_data_server(conn, stream, PS_NODATA, true);
+        return;
+    }
     if (httpd_unpack_http2_headers(httpd, info, headerlines, eos) < 0) {
         goto malformed_err;
     }
@@ -7730,6 +7735,11 @@ http2_stream_on_headers_client(http2_conn_t *w, http2_stream_t *stream,
     httpc_t *httpc = stream->http2c_ctx->httpc;
     SB_1k(err);
 
+    if (eos && httpc->state == HTTP_PARSER_BODY && !info->status.s) {
+        /* trailers: they end the payload, and are ignored. */
+        http2_stream_on_data_client(w, stream, PS_NODATA, true);
+        return;
+    }
     if (httpc->state == HTTP_PARSER_IDLE) {
         sb_addf(&httpc->ibuf, "HTTP/1.1 %pL Nothing But Code\r\n",
                 &info->status);
-- 
2.43.0


From 51a4bc720cc8854e61bbe0daf6218e2c64fa8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:17 +0000
Subject: [PATCH 76/91] fix: hpack: entries with a key token and no value token

hpack_encoder_write_hdr() accepts a key_id without val_id, and adds such
headers to the dynamic table, but their eviction hit an assertion.
---
 src/net/hpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 3e5a293..35ebf2a 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -533,7 +533,7 @@ static void hpack_enc_dtbl_evict_last_entry(hpack_enc_dtbl_t *dtbl)
     }
     assert(dtbl->tbl_size >= e.sz);
     dtbl->tbl_size -= e.sz;
-    assert(!e.mre_key || e.mre_val);
+    assert(!e.mre_key || !e.val_id || e.mre_val);
     if (e.mre_key) {
         assert(e.key_id);
         qm_del_key(hpack_insertion_idx, &dtbl->ins_idx, e.key_id);
-- 
2.43.0


From a30975afc11357159ffbf00bda9c03a52de45bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:50 +0000
Subject: [PATCH 77/91] fix: hpack: do not read past the end of a truncated
 header

A header block that ends after the index of a literal had its next byte
read out of bounds.
---
 src/net/hpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 35ebf2a..6af2e8e 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -954,6 +954,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     if (!idx) {
         /* New Name (key) */
         flags |= XHDR_NEW_KEY;
+        if (ps_done(in)) {
+            return LOGE("the key is missing");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_KEY : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the key length");
@@ -978,6 +981,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     }
     if (new_val) {
         flags |= XHDR_NEW_VAL;
+        if (ps_done(in)) {
+            return LOGE("the value is missing");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_VAL : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the value length");
-- 
2.43.0


From f5cafb20f9a35509f410a8606aa1e0e209a1e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:05 +0000
Subject: [PATCH 78/91] fix: qhat: keep the count of compact entries on removal

Removing an entry from a compact leaf decremented the number of entries
but not the number of keys stored in compact leaves, so the statistics
(and the memory overhead computed from them) drifted.
---
 src/core/qps-hat.in.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/qps-hat.in.c b/src/core/qps-hat.in.c
index 5c1049a..8a4000c 100644
--- a/src/core/qps-hat.in.c
+++ b/src/core/qps-hat.in.c
@@ -362,6 +362,7 @@ static bool remove(qhat_path_t *path, type_t *ptr)
         memory.compact->count--;
         if (path->hat->do_stats) {
             path->hat->root->entry_count--;
+            path->hat->root->key_stored_count--;
         }
 
         if (ptr != NULL) {
-- 
2.43.0


From 8bbccd9917ab3a76f156e70e3dbf6e3b4153fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:05 +0000
Subject: [PATCH 79/91] fix: qhat: set0 on an absent key of a nullable trie
 fills the former value

---
 src/core/qps-hat.in.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/qps-hat.in.c b/src/core/qps-hat.in.c
index 8a4000c..88fa757 100644
--- a/src/core/qps-hat.in.c
+++ b/src/core/qps-hat.in.c
@@ -426,6 +426,9 @@ static void set0(qhat_path_t *path, void *ptr)
 static void set0_null(qhat_path_t *path, void *ptr)
 {
     if (!qps_bitmap_set(&path->hat->bitmap, path->key)) {
+        if (ptr != NULL) {
+            p_clear((type_t *)ptr, 1);
+        }
         return;
     }
 
-- 
2.43.0


From 386dbb279c5e47ab9e5f8fad4bb0af548c40ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:50 +0000
Subject: [PATCH 80/91] fix: outbuf: do not overflow the I/O vector with many
 small chunks

ob_write_with compared the number of I/O vectors with the size in bytes
of their array, hence wrote past its end when more than IOV_MAX vectors
were needed for 64k of data.
---
 src/core/str-outbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-outbuf.c b/src/core/str-outbuf.c
index 35e214b..06b4f4e 100644
--- a/src/core/str-outbuf.c
+++ b/src/core/str-outbuf.c
@@ -211,7 +211,7 @@ int ob_write_with(outbuf_t *ob, int fd,
         len = obc->length - obc->offset;
         iov[iovcnt++] = MAKE_IOVEC(obc->u.b + obc->offset, len);
         iov_size += len;
-        if (iov_size > PREPARE_AT_LEAST || iovcnt + 2 >= sizeof(iov))
+        if (iov_size > PREPARE_AT_LEAST || iovcnt + 2 >= countof(iov))
             goto doit;
     }
 
-- 
2.43.0


From ef8de5136109c510920cbbc6468304d1d53d022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:08 +0000
Subject: [PATCH 81/91] fix: qhat: touching a stale path does not make it up to
 date

In debug builds, an operation on a nullable trie which did nothing marked the
path it was given as synchronized although it had not been looked up: the next
operation on it used stale nodes and damaged the trie.
---
 src/qps-hat.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qps-hat.h b/src/qps-hat.h
index 66ac681..1457631 100644
--- a/src/qps-hat.h
+++ b/src/qps-hat.h
@@ -292,8 +292,12 @@ static ALWAYS_INLINE bool qhat_path_is_fully_sync(const qhat_path_t *path)
 static ALWAYS_INLINE void qhat_path_touch(qhat_path_t *path)
 {
 #ifndef NDEBUG
+    bool is_sync = qhat_path_is_sync(path);
+
     path->hat->gen.s.write_access_gen++;
-    path->gen = path->hat->gen;
+    if (is_sync) {
+        path->gen = path->hat->gen;
+    }
 #endif /* NDEBUG */
 }
 
-- 
2.43.0


From 2697f8295750afafb86f7147791386e171b7b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:08 +0000
Subject: [PATCH 82/91] fix: qhat: refresh the path after a removal

The optimization that follows a removal may leave the path on a dispatch node
or on a neighbour leaf: setting the key again with the same path damaged the
trie.
---
 src/core/qps-hat.in.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/qps-hat.in.c b/src/core/qps-hat.in.c
index 88fa757..be5422c 100644
--- a/src/core/qps-hat.in.c
+++ b/src/core/qps-hat.in.c
@@ -397,6 +397,8 @@ static bool remove(qhat_path_t *path, type_t *ptr)
     }
 
     qhat_optimize(path);
+    /* The path may be left on a parent or a neighbour of its leaf. */
+    lookup(path);
     return true;
 
 no_value:
-- 
2.43.0


From 6b013b009d72d90d6662b7e403dec5f43f07372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:05 +0000
Subject: [PATCH 83/91] fix: prometheus: escape double quotes in label values

The exposition format requires backslashes, line feeds and double quotes
to be escaped in label values. A value with a double quote made the whole
scrape unreadable.
---
 src/prometheus-client/metrics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prometheus-client/metrics.c b/src/prometheus-client/metrics.c
index eda9211..e0a5ed2 100644
--- a/src/prometheus-client/metrics.c
+++ b/src/prometheus-client/metrics.c
@@ -638,7 +638,7 @@ static void bridge_simple_value(prom_simple_value_metric_t *metric, sb_t *out)
                 sb_addc(out, ',');
             }
             sb_addf(out, "%s=\"", label_name);
-            sb_adds_slashes(out, label_value, "\\\n", "\\n");
+            sb_adds_slashes(out, label_value, "\\\n\"", "\\n\"");
             sb_addc(out, '"');
         }
         sb_addc(out, '}');
@@ -661,7 +661,7 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
             sb_addc(&label_names, ',');
         }
         sb_addf(&label_names, "%s=\"", label_name);
-        sb_adds_slashes(&label_names, label_value, "\\\n", "\\n");
+        sb_adds_slashes(&label_names, label_value, "\\\n\"", "\\n\"");
         sb_addc(&label_names, '"');
     }
 
-- 
2.43.0


From dc190378f657b2b8b44bfb0c4a1a9f8f685ea99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:05 +0000
Subject: [PATCH 84/91] fix: prometheus: create the buckets of a child under
 the lock

Two threads calling labels() for the same new label values could both
allocate the buckets of the child: what was observed in between in the
first ones was lost (and leaked), and a thread could observe in, or scrape,
buckets being set up.
---
 src/prometheus-client/metrics.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/prometheus-client/metrics.c b/src/prometheus-client/metrics.c
index e0a5ed2..95bc7d4 100644
--- a/src/prometheus-client/metrics.c
+++ b/src/prometheus-client/metrics.c
@@ -550,11 +550,15 @@ static prom_histogram_t *
     child_metric = super_call(prom_histogram, self, labels, label_values);
     child = obj_vcast(prom_histogram, child_metric);
 
-    /* Create the buckets counts if the child was just created */
+    /* Create the buckets counts if the child was just created. The lock of
+     * the parent protects against other threads getting the same child, and
+     * against the scraping. */
+    spin_lock(&self->lock);
     if (!child->bucket_counts) {
-        child->nb_buckets = self->nb_buckets;
         child->bucket_counts = p_new(double, self->nb_buckets);
+        child->nb_buckets = self->nb_buckets;
     }
+    spin_unlock(&self->lock);
 
     return child;
 }
-- 
2.43.0


From e3d3c9708656f4ae6a540f98eb8147897a79406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:22 +0000
Subject: [PATCH 85/91] fix: prometheus: expose values with all their digits

Values were written with six significant digits: a counter above one
million stood still between two scrapes while it was incremented, and the
buckets, sum and count of a histogram did not agree any more.
---
 src/prometheus-client/metrics.c | 38 +++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/prometheus-client/metrics.c b/src/prometheus-client/metrics.c
index 95bc7d4..fc263f7 100644
--- a/src/prometheus-client/metrics.c
+++ b/src/prometheus-client/metrics.c
@@ -626,6 +626,20 @@ void prom_histogram_timer_finish(prom_histogram_timer_ctx_t *ctx)
 /* }}} */
 /* {{{ Bridge function for exposition in text format */
 
+/* Values are written with as many digits as it takes to read them back: six
+ * are not enough for a counter that reached one million. */
+static void bridge_double(double value, sb_t *out)
+{
+    int precision = 6;
+    char buf[64];
+
+    do {
+        snprintf(buf, sizeof(buf), "%.*g", precision, value);
+    } while (precision++ < 17 && strtod(buf, NULL) != value);
+
+    sb_adds(out, buf);
+}
+
 static void bridge_simple_value(prom_simple_value_metric_t *metric, sb_t *out)
 {
     lstr_t name = metric->parent ? metric->parent->name : metric->name;
@@ -648,7 +662,9 @@ static void bridge_simple_value(prom_simple_value_metric_t *metric, sb_t *out)
         sb_addc(out, '}');
     }
 
-    sb_addf(out, " %g\n", metric->value);
+    sb_addc(out, ' ');
+    bridge_double(metric->value, out);
+    sb_addc(out, '\n');
 }
 
 static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
@@ -676,9 +692,11 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
         if (metric->label_values.len) {
             sb_addc(out, ',');
         }
-        sb_addf(out, "le=\"%g\"} %g\n",
-                parent->bucket_upper_bounds[i],
-                metric->bucket_counts[i]);
+        sb_adds(out, "le=\"");
+        bridge_double(parent->bucket_upper_bounds[i], out);
+        sb_adds(out, "\"} ");
+        bridge_double(metric->bucket_counts[i], out);
+        sb_addc(out, '\n');
     }
 
     /* Add the line for the "+Inf" bucket */
@@ -687,7 +705,9 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
     if (metric->label_values.len) {
         sb_addc(out, ',');
     }
-    sb_addf(out, "le=\"+Inf\"} %g\n", metric->count);
+    sb_adds(out, "le=\"+Inf\"} ");
+    bridge_double(metric->count, out);
+    sb_addc(out, '\n');
 
     /* Add the sum line */
     sb_add_lstr(out, parent->name);
@@ -695,7 +715,9 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
     if (metric->label_values.len) {
         sb_addf(out, "{%*pM}", SB_FMT_ARG(&label_names));
     }
-    sb_addf(out, " %g\n", metric->sum);
+    sb_addc(out, ' ');
+    bridge_double(metric->sum, out);
+    sb_addc(out, '\n');
 
     /* Add the count line */
     sb_add_lstr(out, parent->name);
@@ -703,7 +725,9 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
     if (metric->label_values.len) {
         sb_addf(out, "{%*pM}", SB_FMT_ARG(&label_names));
     }
-    sb_addf(out, " %g\n", metric->count);
+    sb_addc(out, ' ');
+    bridge_double(metric->count, out);
+    sb_addc(out, '\n');
 
     sb_addc(out, '\n');
 }
-- 
2.43.0


From 6aa832832ef20aecee97003c06b1a5dbb792df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:24 +0000
Subject: [PATCH 86/91] fix: log: changing a level while another thread logs is
 not an error

The assertions that the logger is up to date fail when another thread calls
logger_set_level() between the test of the level and the logging.
---
 src/core/log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/log.c b/src/core/log.c
index 01e031c..3020c96 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -620,8 +620,9 @@ int logger_vlog(logger_t *logger, int level, const char *prog, int pid,
         .is_silent   = !!(logger->level_flags & LOG_SILENT),
     };
 
-    assert (atomic_load_explicit(&logger->conf_gen, memory_order_acquire)
-            == log_conf_gen_g);
+    /* XXX: the configuration may have been changed by another thread since
+     * the logger was refreshed. */
+    assert (atomic_load_explicit(&logger->conf_gen, memory_order_acquire));
     PROTECT_ERRNO(logger_putv(&ctx,
                               logger_has_level(logger, level) ||
                               level >= LOG_TRACE,
@@ -741,8 +742,9 @@ int __logger_is_traced(logger_t *logger, int lvl, const char *modname,
 void __logger_start(logger_t *logger, int level, const char *prog, int pid,
                     const char *file, const char *func, int line)
 {
-    assert (atomic_load_explicit(&logger->conf_gen, memory_order_acquire)
-            == log_conf_gen_g);
+    /* XXX: the configuration may have been changed by another thread since
+     * the logger was refreshed. */
+    assert (atomic_load_explicit(&logger->conf_gen, memory_order_acquire));
 
     log_thr_g.ml_ctx = (log_ctx_t){
         .logger_name = lstr_dupc(logger->full_name),
-- 
2.43.0


From 5b6de65a24a6ff19a17dee22a929b44e81386207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:37 +0000
Subject: [PATCH 87/91] fix: log: never show intermediate levels to other
 threads

The level of a logger is read without the lock by the threads that log.
While it was being refreshed, it went through its default level (-1 for
loggers that inherit), and resetting it left -3 there until the next
refresh: another thread could lose an error, or log something that no
configuration ever enabled.
---
 src/core/log.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/core/log.c b/src/core/log.c
index 3020c96..1987176 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -256,14 +256,15 @@ static void logger_compute_fullname(logger_t *logger)
 
 void __logger_do_refresh(logger_t *logger)
 {
+    unsigned level_flags;
+    int level;
+
     if (atomic_load_explicit(&logger->conf_gen, memory_order_acquire)
         == log_conf_gen_g)
     {
         return;
     }
 
-    logger->level_flags &= ~LOG_FORCED;
-
     if (logger->parent == NULL && logger != &_G.root_logger) {
         logger->parent = &_G.root_logger;
     }
@@ -296,21 +297,27 @@ void __logger_do_refresh(logger_t *logger)
         }
     }
 
-    logger->level = logger->default_level;
+    /* XXX: other threads may be reading the level and the flags of the
+     * logger without the lock: they must not see intermediate values. */
+    level = logger->default_level;
+    level_flags = logger->level_flags & ~LOG_FORCED;
 
     if (logger->defined_level >= 0) {
-        logger->level = logger->defined_level;
+        level = logger->defined_level;
     } else
     if (logger->parent) {
         if (logger->parent->level_flags & (LOG_FORCED | LOG_RECURSIVE)) {
-            logger->level = logger->parent->level;
-            logger->level_flags |= LOG_FORCED;
+            level = logger->parent->level;
+            level_flags |= LOG_FORCED;
         } else
-        if (logger->level == LOG_INHERITS) {
-            logger->level = logger->parent->level;
+        if (level == LOG_INHERITS) {
+            level = logger->parent->level;
         }
     }
 
+    logger->level = level;
+    logger->level_flags = level_flags;
+
     assert (logger->level >= 0);
     atomic_store_explicit(&logger->conf_gen, log_conf_gen_g,
                           memory_order_release);
@@ -365,6 +372,7 @@ logger_t *logger_get_by_name(lstr_t name)
 int logger_set_level(lstr_t name, int level, unsigned flags)
 {
     logger_t *logger;
+    int old_level;
 
     log_spin_lock();
     logger = logger_get_by_name(name);
@@ -405,12 +413,13 @@ int logger_set_level(lstr_t name, int level, unsigned flags)
     } else {
         logger->level_flags = flags;
     }
-    SWAP(int, logger->level, level);
-    logger->defined_level = logger->level;
+    old_level = logger->level;
+    logger->defined_level = level;
     log_conf_gen_g += 2;
+    __logger_do_refresh(logger);
 
     log_spin_unlock();
-    return level;
+    return old_level;
 }
 
 int logger_reset_level(lstr_t name)
-- 
2.43.0


From 574ea21e946a78131a39b7c5d3ed378302224a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:53 +0000
Subject: [PATCH 88/91] fix: module: methods see modules loaded or released
 meanwhile

---
 src/core/module.c | 51 +++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/core/module.c b/src/core/module.c
index 666c976..43675cb 100644
--- a/src/core/module.c
+++ b/src/core/module.c
@@ -28,7 +28,12 @@
 /* {{{ methods */
 
 qm_khptr_ckey_t(methods, module_method_t, void *);
-qvector_t(methods_cb, void *);
+
+typedef struct module_method_cb_t {
+    const module_t *module;
+    void *cb;
+} module_method_cb_t;
+qvector_t(methods_cb, module_method_cb_t);
 
 typedef struct module_method_impl_t {
     const module_method_t *params;
@@ -531,6 +536,7 @@ void module_implement_method(module_t *module, const module_method_t *method,
 void module_run_method(const module_method_t *method, data_t arg)
 {
     module_method_impl_t *m;
+    qv_t(methods_cb) callbacks;
 
     if (unlikely(_G.methods_dirty)) {
         module_method_register_all_cb();
@@ -542,26 +548,34 @@ void module_run_method(const module_method_t *method, data_t arg)
         return;
     }
 
-    switch (method->type) {
-      case METHOD_VOID:
-        tab_for_each_entry(cb, &m->callbacks) {
-            ((void (*)(void))cb)();
-        }
-        break;
+    /* XXX: the callbacks can load or release modules, and run methods
+     * themselves, so work on a copy of the list and don't call the modules
+     * that are not loaded anymore. */
+    qv_init(&callbacks);
+    qv_extend(&callbacks, m->callbacks.tab, m->callbacks.len);
 
-      case METHOD_INT:
-        tab_for_each_entry(cb, &m->callbacks) {
-            ((void (*)(int))cb)(arg.u32);
+    tab_for_each_ptr(it, &callbacks) {
+        if (!module_is_loaded(it->module)) {
+            continue;
         }
-        break;
 
-      case METHOD_PTR:
-      case METHOD_GENERIC:
-        tab_for_each_entry(cb, &m->callbacks) {
-            ((void (*)(data_t))cb)(arg);
+        switch (method->type) {
+          case METHOD_VOID:
+            ((void (*)(void))it->cb)();
+            break;
+
+          case METHOD_INT:
+            ((void (*)(int))it->cb)(arg.u32);
+            break;
+
+          case METHOD_PTR:
+          case METHOD_GENERIC:
+            ((void (*)(data_t))it->cb)(arg);
+            break;
         }
-        break;
     }
+
+    qv_wipe(&callbacks);
 }
 
 static void module_add_method(module_t *module, module_method_impl_t *method)
@@ -569,7 +583,10 @@ static void module_add_method(module_t *module, module_method_impl_t *method)
     void *cb = qm_get_def(methods, &module->methods, method->params, NULL);
 
     if (cb) {
-        qv_append(&method->callbacks, cb);
+        qv_append(&method->callbacks, ((module_method_cb_t){
+            .module = module,
+            .cb = cb,
+        }));
     }
 }
 
-- 
2.43.0


From cd4dddba297e2f2d40d26f40f952b644f5846e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 89/91] fix: rpc-http: queries left waiting for a connection
 keep their timeout

When a connection gets ready but cannot take all the waiting queries, the
timer was unregistered with the first one that starts, and those left were
put back in the list without any: they could wait forever.
---
 src/iop/rpc-http-client.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/iop/rpc-http-client.c b/src/iop/rpc-http-client.c
index 15996bd..579ead2 100644
--- a/src/iop/rpc-http-client.c
+++ b/src/iop/rpc-http-client.c
@@ -141,20 +141,17 @@ static int http_iop_get_ready_remote(http_iop_channel_t *channel,
 
 static void http_iop_restart_messages(http_iop_channel_t *channel)
 {
-    htlist_t temp;
-
-    htlist_move(&temp, &channel->queries_waiting_conn);
-    while (!htlist_is_empty(&temp)) {
+    while (!htlist_is_empty(&channel->queries_waiting_conn)) {
         http_iop_channel_remote_t *remote;
         httpc_t *httpc;
         http_iop_msg_t *msg;
 
         if (http_iop_get_ready_remote(channel, false, &remote, &httpc) < 0) {
-            htlist_splice(&channel->queries_waiting_conn, &temp);
             return;
         }
 
-        msg = htlist_pop_entry(&temp, http_iop_msg_t, link);
+        msg = htlist_pop_entry(&channel->queries_waiting_conn,
+                               http_iop_msg_t, link);
         http_iop_start_msg(channel, remote, httpc, msg, msg->args);
     }
 }
-- 
2.43.0


From 45d058666d3678e0319535fe4bf5bb2e822017c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 90/91] fix: rpc-http: abort the waiting queries when the
 channel is wiped

Queries still waiting for a connection were deleted without calling their
callback, unlike those already sent.
---
 src/iop/rpc-http-client.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-http-client.c b/src/iop/rpc-http-client.c
index 579ead2..7c49eb2 100644
--- a/src/iop/rpc-http-client.c
+++ b/src/iop/rpc-http-client.c
@@ -99,8 +99,14 @@ static void http_iop_channel_wipe(http_iop_channel_t *channel)
     lstr_wipe(&channel->user);
     lstr_wipe(&channel->password);
     qv_deep_wipe(&channel->remotes, http_iop_channel_remote_delete);
-    htlist_deep_clear(&channel->queries_waiting_conn, http_iop_msg_t, link,
-                      http_iop_msg_delete);
+    while (!htlist_is_empty(&channel->queries_waiting_conn)) {
+        http_iop_msg_t *msg;
+
+        msg = htlist_pop_entry(&channel->queries_waiting_conn,
+                               http_iop_msg_t, link);
+        msg->cb(msg, IC_MSG_ABORT, (opt_http_code_t)OPT_NONE, NULL, NULL);
+        http_iop_msg_delete(&msg);
+    }
     el_unregister(&channel->queries_conn_timeout_el);
 }
 
-- 
2.43.0


From 8d46a24c818e08f0759babae05ff5491612c56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:44 +0000
Subject: [PATCH 91/91] fix: rpc-http: callbacks of expired or canceled queries
 can query again

Their callbacks were called with the query still in the list of the waiting
ones and with the timer being rearmed: a query made by a callback could
register a second timer, which outlived the channel, and be canceled at once,
endlessly.
---
 src/iop/rpc-http-client.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/iop/rpc-http-client.c b/src/iop/rpc-http-client.c
index 7c49eb2..3d2f816 100644
--- a/src/iop/rpc-http-client.c
+++ b/src/iop/rpc-http-client.c
@@ -220,15 +220,17 @@ static void http_iop_on_connect_error(const httpc_t *httpc, int errnum)
     if (!http_iop_channel_has_remote_connections(channel, remote)) {
         /* Cancel remaining messages when there are no available remote
          * connections anymore. */
-        while (!htlist_is_empty(&channel->queries_waiting_conn)) {
+        htlist_t canceled;
+
+        /* XXX The callbacks can make new queries. */
+        htlist_move(&canceled, &channel->queries_waiting_conn);
+        el_unregister(&channel->queries_conn_timeout_el);
+        while (!htlist_is_empty(&canceled)) {
             http_iop_msg_t *msg;
 
-            msg = htlist_first_entry(&channel->queries_waiting_conn,
-                                     http_iop_msg_t, link);
+            msg = htlist_pop_entry(&canceled, http_iop_msg_t, link);
             msg->cb(msg, IC_MSG_CANCELED, (opt_http_code_t)OPT_NONE, NULL,
                     NULL);
-            htlist_pop_entry(&channel->queries_waiting_conn,
-                             http_iop_msg_t, link);
             http_iop_msg_delete(&msg);
         }
     }
@@ -241,8 +243,10 @@ static void http_iop_timeout_queries(el_t el, data_t data)
 {
     http_iop_channel_t *channel = data.ptr;
     struct timeval now;
+    htlist_t expired;
 
     channel->queries_conn_timeout_el = NULL;
+    htlist_init(&expired);
     lp_gettv(&now);
 
     while (!htlist_is_empty(&channel->queries_waiting_conn)) {
@@ -257,11 +261,8 @@ static void http_iop_timeout_queries(el_t el, data_t data)
         if (is_expired(&msg_expiry, &now, &time_left)) {
             logger_trace(&_G.logger, 1, "canceling query `%*pM`: connection "
                          "timeout reached", LSTR_FMT_ARG(msg->rpc->name));
-            msg->cb(msg, IC_MSG_TIMEDOUT, (opt_http_code_t)OPT_NONE, NULL,
-                    NULL);
-            htlist_pop_entry(&channel->queries_waiting_conn, http_iop_msg_t,
-                             link);
-            http_iop_msg_delete(&msg);
+            htlist_pop(&channel->queries_waiting_conn);
+            htlist_add_tail(&expired, &msg->link);
         } else {
             int64_t next_check = timeval_to_msec(time_left);
 
@@ -269,6 +270,15 @@ static void http_iop_timeout_queries(el_t el, data_t data)
             break;
         }
     }
+
+    /* XXX The callbacks can make new queries. */
+    while (!htlist_is_empty(&expired)) {
+        http_iop_msg_t *msg;
+
+        msg = htlist_pop_entry(&expired, http_iop_msg_t, link);
+        msg->cb(msg, IC_MSG_TIMEDOUT, (opt_http_code_t)OPT_NONE, NULL, NULL);
+        http_iop_msg_delete(&msg);
+    }
 }
 
 static void http_iop_register_timeout_check(http_iop_channel_t *channel,
-- 
2.43.0

