From 4f20214229cf7f180662c98a357a09c081615552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 01/36] fix: keep the frame ring consistent when draining stops
 halfway

drain_picture() advanced frame_thread.next while popping pictures. When an
application drained only some of the pending pictures (two calls of
dav1d_get_picture() in a row) and then sent more data, the next frame was
submitted to a slot that was not in line with task_thread.first: pictures
got lost or the decoder blocked forever. Pop from task_thread.first, the
oldest frame in flight, and leave the submission slot alone. Also reset the
error marker of a slot whenever its result is consumed, as a later frame in
the same slot would otherwise be reported as failed.
---
 src/lib.c | 11 +++++------
 src/obu.c |  1 +
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index 8ced796..b4a1447 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -350,9 +350,10 @@ static int output_picture_ready(Dav1dContext *const c, const int drain) {
 
 static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
     unsigned drain_count = 0;
-    int drained = 0;
     do {
-        const unsigned next = c->frame_thread.next;
+        // The oldest frame in flight. frame_thread.next must stay where the
+        // next frame gets submitted, draining can stop halfway.
+        const unsigned next = atomic_load(&c->task_thread.first);
         Dav1dFrameContext *const f = &c->fc[next];
         pthread_mutex_lock(&c->task_thread.lock);
         while (f->n_tile_data > 0)
@@ -370,13 +371,11 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
                                            &first, UINT_MAX);
             if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
                 c->task_thread.cur--;
-            drained = 1;
-        } else if (drained) {
+            atomic_store(&f->task_thread.error, 0);
+        } else {
             pthread_mutex_unlock(&c->task_thread.lock);
             break;
         }
-        if (++c->frame_thread.next == c->n_fc)
-            c->frame_thread.next = 0;
         pthread_mutex_unlock(&c->task_thread.lock);
         const int error = f->task_thread.retval;
         if (error) {
diff --git a/src/obu.c b/src/obu.c
index 78d652b..2935599 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1626,6 +1626,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                                                    &first, UINT_MAX);
                     if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
                         c->task_thread.cur--;
+                    atomic_store(&f->task_thread.error, 0);
                 }
                 const int error = f->task_thread.retval;
                 if (error) {
-- 
2.43.0


From 89d2e3248ae17302a2c65c83cc61f359ed0cc256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 02/36] fix: reallocate the loop restoration line buffer when
 its height changes

dav1d_decode_frame_init() only compared the product of stride and number of
lines. With negative strides the plane pointers depend on the number of
lines alone, so two frame sizes with an equal product made the second one
write outside of the buffer.
---
 src/decode.c   | 4 +++-
 src/internal.h | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index a3b1b9c..7ed34de 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -2963,7 +2963,8 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
     const int num_lines = c->n_tc > 1 ? f->sbh * 4 << sb128 : 12;
     y_stride = f->sr_cur.p.stride[0], uv_stride = f->sr_cur.p.stride[1];
     if (y_stride * num_lines != f->lf.lr_buf_plane_sz[0] ||
-        uv_stride * num_lines * 2 != f->lf.lr_buf_plane_sz[1])
+        uv_stride * num_lines * 2 != f->lf.lr_buf_plane_sz[1] ||
+        num_lines != f->lf.lr_buf_lines)
     {
         dav1d_free_aligned(f->lf.lr_line_buf);
         // lr simd may overread the input, so slightly over-allocate the lpf buffer
@@ -2992,6 +2993,7 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
 
         f->lf.lr_buf_plane_sz[0] = (int) y_stride * num_lines;
         f->lf.lr_buf_plane_sz[1] = (int) uv_stride * num_lines * 2;
+        f->lf.lr_buf_lines = num_lines;
     }
 
     // update allocation for loopfilter masks
diff --git a/src/internal.h b/src/internal.h
index 96bf409..70e7c58 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -300,6 +300,7 @@ struct Dav1dFrameContext {
         int mask_sz /* w*h */, lr_mask_sz;
         int cdef_buf_plane_sz[2]; /* stride*sbh*4 */
         int cdef_buf_sbh;
+        int lr_buf_lines;
         int lr_buf_plane_sz[2]; /* (stride*sbh*4) << sb128 if n_tc > 1, else stride*4 */
         int re_sz /* h */;
         ALIGN(Av1FilterLUT lim_lut, 16);
-- 
2.43.0


From c15005aeaa53a12ec8850b1a6ac46ad5044bef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 03/36] fix: let dav1d_apply_grain() work on a context that
 decoded nothing

The film grain functions of a bitdepth were only set up when the first frame
of that bitdepth got decoded, so applying grain to a picture with another
(or a new) decoder instance called a NULL function pointer.
---
 src/lib.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index b4a1447..a0b1cec 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -491,6 +491,25 @@ int dav1d_apply_grain(Dav1dContext *const c, Dav1dPicture *const out,
         return 0;
     }
 
+    // c may not have decoded anything of this bitdepth itself yet
+    Dav1dFilmGrainDSPContext *const fg = &c->dsp[(in->p.bpc >> 1) - 4].fg;
+    if (!fg->generate_grain_y) {
+        switch (in->p.bpc) {
+#if CONFIG_8BPC
+        case 8:
+            dav1d_film_grain_dsp_init_8bpc(fg);
+            break;
+#endif
+#if CONFIG_16BPC
+        case 10:
+        case 12:
+            dav1d_film_grain_dsp_init_16bpc(fg);
+            break;
+#endif
+        default: abort();
+        }
+    }
+
     int res = dav1d_picture_alloc_copy(c, out, in->p.w, in);
     if (res < 0) goto error;
 
-- 
2.43.0


From fc78443afa38b13d33321f5a0f8c1dacddc20692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:07 +0000
Subject: [PATCH 04/36] fix: do not destroy synchronisation objects that were
 not initialised

When dav1d_open() failed half way, close_internal() destroyed the mutexes and
condition variables of all frame contexts, including those that had not been
set up yet or that the error path had destroyed already.
---
 src/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index a0b1cec..dad41b2 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -664,7 +664,7 @@ static COLD void close_internal(Dav1dContext **const c_out, int flush) {
             dav1d_free(f->frame_thread.tile_start_off);
             dav1d_free_aligned(f->frame_thread.pal);
         }
-        if (c->n_tc > 1) {
+        if (c->n_tc > 1 && f->task_thread.ttd /* initialized */) {
             pthread_mutex_destroy(&f->task_thread.pending_tasks.lock);
             pthread_cond_destroy(&f->task_thread.cond);
             pthread_mutex_destroy(&f->task_thread.lock);
-- 
2.43.0


From 1538c1cca34471f289ae1de97900cb14d86db320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:04 +0000
Subject: [PATCH 05/36] fix: keep the T.35 metadata state consistent when
 allocations fail

A failed allocation of the payload left a reference to an empty list behind,
which made the next T.35 OBU hit an assertion (or leak the list); a failed
allocation of the reference leaked the list when the decoder was closed.
---
 src/obu.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 2935599..9f6d2cf 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1507,9 +1507,14 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             }
 
             if ((c->n_itut_t35 + 1) > INT_MAX / (int)sizeof(*c->itut_t35)) goto error;
+            uint8_t *const payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
+            if (!payload) goto error;
             struct Dav1dITUTT35 *itut_t35 = dav1d_realloc(ALLOC_OBU_META, c->itut_t35,
                                                           (c->n_itut_t35 + 1) * sizeof(*c->itut_t35));
-            if (!itut_t35) goto error;
+            if (!itut_t35) {
+                dav1d_free(payload);
+                goto error;
+            }
             c->itut_t35 = itut_t35;
             memset(c->itut_t35 + c->n_itut_t35, 0, sizeof(*c->itut_t35));
 
@@ -1517,7 +1522,12 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (!c->n_itut_t35) {
                 assert(!c->itut_t35_ref);
                 itut_t35_ctx = dav1d_malloc(ALLOC_OBU_META, sizeof(struct itut_t35_ctx_context));
-                if (!itut_t35_ctx) goto error;
+                if (!itut_t35_ctx) {
+                    dav1d_free(payload);
+                    dav1d_free(c->itut_t35);
+                    c->itut_t35 = NULL;
+                    goto error;
+                }
                 c->itut_t35_ref = dav1d_ref_init(&itut_t35_ctx->ref, c->itut_t35,
                                                  dav1d_picture_free_itut_t35, itut_t35_ctx, 0);
             } else {
@@ -1529,9 +1539,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             itut_t35_ctx->n_itut_t35 = c->n_itut_t35 + 1;
 
             Dav1dITUTT35 *const itut_t35_metadata = &c->itut_t35[c->n_itut_t35];
-            itut_t35_metadata->payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
-            if (!itut_t35_metadata->payload) goto error;
-
+            itut_t35_metadata->payload = payload;
             itut_t35_metadata->country_code = country_code;
             itut_t35_metadata->country_code_extension_byte = country_code_extension_byte;
             itut_t35_metadata->payload_size = payload_size;
-- 
2.43.0


From 175e6cc0128b8c020ced59eb13247f108fcc6e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:04 +0000
Subject: [PATCH 06/36] fix: report a failed task allocation of a tile-threaded
 frame

dav1d_decode_frame() overwrote the error of dav1d_task_create_tile_sbrow()
with the (successful) result of the previous frame and returned an
undecoded picture.
---
 src/decode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 7ed34de..828e182 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3305,9 +3305,11 @@ int dav1d_decode_frame(Dav1dFrameContext *const f) {
                     pthread_cond_wait(&f->task_thread.cond,
                                       &f->task_thread.ttd->lock);
                 }
+                res = f->task_thread.retval;
+            } else {
+                res = DAV1D_ERR(ENOMEM);
             }
             pthread_mutex_unlock(&f->task_thread.ttd->lock);
-            res = f->task_thread.retval;
         } else {
             res = dav1d_decode_frame_main(f);
             if (!res && f->frame_hdr->refresh_context && f->task_thread.update_set) {
-- 
2.43.0


From c107ec55a7386ec7377017c919d3bb97220fbb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:28 +0000
Subject: [PATCH 07/36] fix: survive task allocation failures while a frame
 thread starts tile decoding

---
 src/thread_task.c | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/thread_task.c b/src/thread_task.c
index 1ededde..e4a0910 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -717,26 +717,33 @@ void *dav1d_worker_task(void *data) {
             }
             if (!res) {
                 assert(c->n_fc > 1);
-                for (int p = 1; p <= 2; p++) {
-                    const int res = dav1d_task_create_tile_sbrow(f, p, 0);
-                    if (res) {
-                        pthread_mutex_lock(&ttd->lock);
-                        // memory allocation failed
-                        atomic_store(&f->task_thread.done[2 - p], 1);
-                        atomic_store(&f->task_thread.error, -1);
-                        atomic_fetch_sub(&f->task_thread.task_counter,
-                                         f->frame_hdr->tiling.cols *
-                                         f->frame_hdr->tiling.rows + f->sbh);
-                        atomic_store(&f->sr_cur.progress[p - 1], FRAME_ERROR);
-                        if (p == 2 && atomic_load(&f->task_thread.done[1])) {
-                            assert(!atomic_load(&f->task_thread.task_counter));
-                            dav1d_decode_frame_exit(f, DAV1D_ERR(ENOMEM));
-                            f->n_tile_data = 0;
-                            pthread_cond_signal(&f->task_thread.cond);
-                        } else {
-                            pthread_mutex_unlock(&ttd->lock);
-                        }
+                // memory allocation failures
+                if (dav1d_task_create_tile_sbrow(f, 1, 0)) {
+                    // no task of this frame was queued
+                    pthread_mutex_lock(&ttd->lock);
+                    abort_frame(f, DAV1D_ERR(ENOMEM));
+                    reset_task_cur(c, ttd, t->frame_idx);
+                    atomic_store(&f->task_thread.init_done, 1);
+                    continue;
+                }
+                if (dav1d_task_create_tile_sbrow(f, 2, 0)) {
+                    // the tasks of the entropy pass are running already
+                    const int num_tasks = f->frame_hdr->tiling.cols *
+                                          f->frame_hdr->tiling.rows + f->sbh;
+                    pthread_mutex_lock(&ttd->lock);
+                    atomic_store(&f->task_thread.done[0], 1);
+                    atomic_store(&f->task_thread.error, -1);
+                    atomic_store(&f->sr_cur.progress[1], FRAME_ERROR);
+                    if (atomic_fetch_sub(&f->task_thread.task_counter,
+                                         num_tasks) == num_tasks)
+                    {
+                        assert(atomic_load(&f->task_thread.done[1]));
+                        dav1d_decode_frame_exit(f, DAV1D_ERR(ENOMEM));
+                        f->n_tile_data = 0;
+                        pthread_cond_signal(&f->task_thread.cond);
                     }
+                    reset_task_cur(c, ttd, t->frame_idx);
+                    continue;
                 }
                 pthread_mutex_lock(&ttd->lock);
             } else {
-- 
2.43.0


From a12e30fc9f9ba0461df6cc49af99defe3135b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:22 +0000
Subject: [PATCH 08/36] fix: forget the tile state count when its allocation
 fails

---
 src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 828e182..6c04680 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -2782,7 +2782,10 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
         }
         dav1d_free_aligned(f->ts);
         f->ts = dav1d_alloc_aligned(ALLOC_TILE, sizeof(*f->ts) * n_ts, 32);
-        if (!f->ts) goto error;
+        if (!f->ts) {
+            f->n_ts = 0;
+            goto error;
+        }
         f->n_ts = n_ts;
     }
 
-- 
2.43.0


From 77b5525533a97104a1a39314eac9a08d23ae6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:07 +0000
Subject: [PATCH 09/36] fix: release pictures on the main thread when frame
 threading is not used

---
 src/thread_task.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/thread_task.c b/src/thread_task.c
index e4a0910..29dc77b 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -450,6 +450,20 @@ static inline int get_frame_progress(const Dav1dContext *const c,
     return ((idx << 5) | prog) - 1;
 }
 
+static inline void finish_frame(Dav1dFrameContext *const f) {
+    const int error = atomic_load(&f->task_thread.error);
+    const int res = error == 1 ? DAV1D_ERR(EINVAL) : error ? DAV1D_ERR(ENOMEM) : 0;
+    if (f->c->n_fc > 1) {
+        dav1d_decode_frame_exit(f, res);
+        f->n_tile_data = 0;
+    } else {
+        // dav1d_decode_frame() drops the references of the frame, so that
+        // pictures are released on the main thread only
+        f->task_thread.retval = res;
+    }
+    pthread_cond_signal(&f->task_thread.cond);
+}
+
 static inline void abort_frame(Dav1dFrameContext *const f, const int error) {
     atomic_store(&f->task_thread.error, error == DAV1D_ERR(EINVAL) ? 1 : -1);
     atomic_store(&f->task_thread.task_counter, 0);
@@ -802,11 +816,7 @@ void *dav1d_worker_task(void *data) {
                     atomic_load(&f->task_thread.done[0]) &&
                     (!uses_2pass || atomic_load(&f->task_thread.done[1])))
                 {
-                    error = atomic_load(&f->task_thread.error);
-                    dav1d_decode_frame_exit(f, error == 1 ? DAV1D_ERR(EINVAL) :
-                                            error ? DAV1D_ERR(ENOMEM) : 0);
-                    f->n_tile_data = 0;
-                    pthread_cond_signal(&f->task_thread.cond);
+                    finish_frame(f);
                 }
                 assert(atomic_load(&f->task_thread.task_counter) >= 0);
                 if (!atomic_fetch_or(&ttd->cond_signaled, 1))
@@ -899,11 +909,7 @@ void *dav1d_worker_task(void *data) {
             if (!num_tasks && atomic_load(&f->task_thread.done[0]) &&
                 atomic_load(&f->task_thread.done[1]))
             {
-                error = atomic_load(&f->task_thread.error);
-                dav1d_decode_frame_exit(f, error == 1 ? DAV1D_ERR(EINVAL) :
-                                        error ? DAV1D_ERR(ENOMEM) : 0);
-                f->n_tile_data = 0;
-                pthread_cond_signal(&f->task_thread.cond);
+                finish_frame(f);
             }
             reset_task_cur(c, ttd, t->frame_idx);
             continue;
@@ -929,11 +935,7 @@ void *dav1d_worker_task(void *data) {
         if (!num_tasks && atomic_load(&f->task_thread.done[0]) &&
             (!uses_2pass || atomic_load(&f->task_thread.done[1])))
         {
-            error = atomic_load(&f->task_thread.error);
-            dav1d_decode_frame_exit(f, error == 1 ? DAV1D_ERR(EINVAL) :
-                                    error ? DAV1D_ERR(ENOMEM) : 0);
-            f->n_tile_data = 0;
-            pthread_cond_signal(&f->task_thread.cond);
+            finish_frame(f);
         }
         reset_task_cur(c, ttd, t->frame_idx);
     }
-- 
2.43.0


From 661c8d76c5212dd7d0011b59e194791ee4c3ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 10/36] fix: provide the data properties of every parsing error

---
 src/lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.c b/src/lib.c
index dad41b2..0a39039 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -416,6 +416,7 @@ static int gen_picture(Dav1dContext *const c)
     while (in->sz > 0) {
         const ptrdiff_t res = dav1d_parse_obus(c, in);
         if (res < 0) {
+            dav1d_data_props_copy(&c->cached_error_props, &in->m);
             dav1d_data_unref_internal(in);
         } else {
             assert((size_t)res <= in->sz);
-- 
2.43.0


From 8cafadce904faba96594b086eab6865e044365d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:17 +0000
Subject: [PATCH 11/36] fix: report a parsing error that coincides with a
 finished picture

---
 src/lib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index 0a39039..3fe8327 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -424,8 +424,12 @@ static int gen_picture(Dav1dContext *const c)
             in->data += res;
             if (!in->sz) dav1d_data_unref_internal(in);
         }
-        if (output_picture_ready(c, 0))
+        if (output_picture_ready(c, 0)) {
+            // keep the error for the next call of dav1d_get_picture()
+            if (res < 0 && !c->cached_error)
+                c->cached_error = (int)res;
             break;
+        }
         if (res < 0)
             return (int)res;
     }
-- 
2.43.0


From d1deef23eccb338458aad4820e36de470729c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 12/36] fix: forget a show-existing-frame header that refers to
 no picture

---
 src/obu.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index 9f6d2cf..2f39a08 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1740,6 +1740,9 @@ skip:
     return gb.ptr_end - gb.ptr_start;
 
 error:
+    // a frame that can't be shown must not fail the following OBUs as well
+    if (c->frame_hdr && c->frame_hdr->show_existing_frame)
+        c->frame_hdr = NULL;
     dav1d_data_props_copy(&c->cached_error_props, &in->m);
     dav1d_log(c, gb.error ? "Overrun in OBU bit buffer\n" :
                             "Error parsing OBU data\n");
-- 
2.43.0


From 9fe8a2969f2a8b16576e5e5634497ac65b3677b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 13/36] fix: ivf: do not divide by zero if the file has no
 complete frame header

---
 tools/input/ivf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/input/ivf.c b/tools/input/ivf.c
index d1fa05e..51e0c2b 100644
--- a/tools/input/ivf.c
+++ b/tools/input/ivf.c
@@ -124,7 +124,7 @@ static int ivf_open(IvfInputContext *const c, const char *const file,
         fps[0] = fps[1] = 0;
     }
     c->timebase = (double)timebase[0] / timebase[1];
-    c->step = duration / *num_frames;
+    c->step = *num_frames ? duration / *num_frames : 0;
 
     fseeko(c->f, 32, SEEK_SET);
     c->last_ts = 0;
-- 
2.43.0


From edad731b0999011bf6df1731e8a5e2321dccea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 14/36] fix: input: reject overly large sizes while probing

Sizes of more than INT_MAX made the position negative, which then read
before the start of the probe buffer.
---
 tools/input/annexb.c | 2 +-
 tools/input/parse.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/input/annexb.c b/tools/input/annexb.c
index 8add61c..a3bdd4c 100644
--- a/tools/input/annexb.c
+++ b/tools/input/annexb.c
@@ -50,7 +50,7 @@ static int annexb_probe(const uint8_t *data) {
 
     size_t temporal_unit_size;
     ret = leb(data + cnt, PROBE_SIZE - cnt, &temporal_unit_size);
-    if (ret < 0)
+    if (ret < 0 || temporal_unit_size > INT_MAX / 2)
         return 0;
     cnt += ret;
 
diff --git a/tools/input/parse.h b/tools/input/parse.h
index f39f80f..6f1c427 100644
--- a/tools/input/parse.h
+++ b/tools/input/parse.h
@@ -98,7 +98,7 @@ static inline int parse_obu_header(const uint8_t *buf, int buf_size,
 
     if (has_size_flag) {
         ret = leb(buf, buf_size, obu_size);
-        if (ret < 0)
+        if (ret < 0 || *obu_size > INT_MAX / 2)
             return -1;
         return (int) *obu_size + ret + 1 + extension_flag;
     } else if (!allow_implicit_size)
-- 
2.43.0


From 70a2f1542212a100b0fe5ab7589f727cc6a6bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 15/36] fix: input: do not probe uninitialized data

A file shorter than the probe size, or one that could not be read in
full, left the rest of the buffer unset.
---
 tools/input/input.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/input/input.c b/tools/input/input.c
index 2dfaa97..fe52958 100644
--- a/tools/input/input.c
+++ b/tools/input/input.c
@@ -77,17 +77,18 @@ int input_open(DemuxerContext **const c_out,
         int probe_sz = 0;
         for (i = 0; demuxers[i]; i++)
             probe_sz = imax(probe_sz, demuxers[i]->probe_sz);
-        uint8_t *const probe_data = malloc(probe_sz);
+        uint8_t *const probe_data = calloc(1, probe_sz);
         if (!probe_data) {
             fprintf(stderr, "Failed to allocate memory\n");
             return DAV1D_ERR(ENOMEM);
         }
         FILE *f = fopen(filename, "rb");
         if (!f) {
+            free(probe_data);
             fprintf(stderr, "Failed to open input file %s: %s\n", filename, strerror(errno));
             return errno ? DAV1D_ERR(errno) : DAV1D_ERR(EIO);
         }
-        res = !!fread(probe_data, 1, probe_sz, f);
+        res = fread(probe_data, 1, probe_sz, f) && !ferror(f);
         fclose(f);
         if (!res) {
             free(probe_data);
-- 
2.43.0


From da9629829040a46959e5905760f84e5ea9472f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 16/36] fix: dav1d: initialize elapsed

The first frame time written by --frametimes was computed from it.
---
 tools/dav1d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index eb19a80..e256721 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -198,7 +198,7 @@ int main(const int argc, char *const *const argv) {
     Dav1dContext *c;
     Dav1dData data;
     unsigned n_out = 0, total, fps[2], timebase[2];
-    uint64_t nspf, tfirst, elapsed;
+    uint64_t nspf, tfirst, elapsed = 0;
     double i_fps;
     FILE *frametimes = NULL;
     const unsigned version = dav1d_version_api();
-- 
2.43.0


From 832b8cf3368bda545aa2035fc05c74cd4a4d151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 17/36] fix: obu: report failed allocations as ENOMEM rather
 than EINVAL

As EINVAL they were taken for errors in the data, which the dav1d tool
continues after, with part of the frames missing and exit status 0.
---
 src/obu.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 2f39a08..4cb659e 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1369,7 +1369,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if ((c->n_tile_data + 1) > INT_MAX / (int)sizeof(*c->tile)) goto error;
             struct Dav1dTileGroup *tile = dav1d_realloc(ALLOC_TILE, c->tile,
                                                         (c->n_tile_data + 1) * sizeof(*c->tile));
-            if (!tile) goto error;
+            if (!tile) return DAV1D_ERR(ENOMEM);
             c->tile = tile;
             memset(c->tile + c->n_tile_data, 0, sizeof(*c->tile));
             c->n_tile_data_alloc = c->n_tile_data + 1;
@@ -1508,12 +1508,12 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
 
             if ((c->n_itut_t35 + 1) > INT_MAX / (int)sizeof(*c->itut_t35)) goto error;
             uint8_t *const payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
-            if (!payload) goto error;
+            if (!payload) return DAV1D_ERR(ENOMEM);
             struct Dav1dITUTT35 *itut_t35 = dav1d_realloc(ALLOC_OBU_META, c->itut_t35,
                                                           (c->n_itut_t35 + 1) * sizeof(*c->itut_t35));
             if (!itut_t35) {
                 dav1d_free(payload);
-                goto error;
+                return DAV1D_ERR(ENOMEM);
             }
             c->itut_t35 = itut_t35;
             memset(c->itut_t35 + c->n_itut_t35, 0, sizeof(*c->itut_t35));
@@ -1526,7 +1526,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                     dav1d_free(payload);
                     dav1d_free(c->itut_t35);
                     c->itut_t35 = NULL;
-                    goto error;
+                    return DAV1D_ERR(ENOMEM);
                 }
                 c->itut_t35_ref = dav1d_ref_init(&itut_t35_ctx->ref, c->itut_t35,
                                                  dav1d_picture_free_itut_t35, itut_t35_ctx, 0);
-- 
2.43.0


From ecc760a604db37649c32bec37d263f453f69281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 18/36] fix: dav1d: do not take read errors for the end of the
 input

If the input could not be read or memory for a packet not be allocated, the
tool wrote the frames up to that point and exited with status 0.
---
 tools/dav1d.c          | 10 ++++++++--
 tools/input/annexb.c   | 16 +++++++++++-----
 tools/input/demuxer.h  | 11 +++++++++++
 tools/input/input.h    |  6 ++++++
 tools/input/ivf.c      | 11 ++++++++---
 tools/input/section5.c | 15 ++++++++++-----
 6 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index e256721..a4935fe 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -189,7 +189,7 @@ static void signal_handler(const int s) {
 
 int main(const int argc, char *const *const argv) {
     const int istty = isatty(fileno(stderr));
-    int res = 0;
+    int res = 0, in_res = 0;
     CLISettings cli_settings;
     Dav1dSettings lib_settings;
     DemuxerContext *in;
@@ -334,7 +334,7 @@ int main(const int argc, char *const *const argv) {
 
         if (cli_settings.limit && n_out == cli_settings.limit)
             break;
-    } while (data.sz > 0 || !input_read(in, &data));
+    } while (data.sz > 0 || !(in_res = input_read(in, &data)));
 
     if (data.sz > 0) dav1d_data_unref(&data);
 
@@ -375,6 +375,12 @@ int main(const int argc, char *const *const argv) {
 
     if (frametimes) fclose(frametimes);
 
+    // the end of the input, other than any failure to read it, is no error
+    if (in_res < -1) {
+        fprintf(stderr, "Error reading input: %s\n", strerror(DAV1D_ERR(in_res)));
+        res = in_res;
+    }
+
     input_close(in);
     if (out) {
         if (!cli_settings.quiet && istty)
diff --git a/tools/input/annexb.c b/tools/input/annexb.c
index a3bdd4c..a411a6d 100644
--- a/tools/input/annexb.c
+++ b/tools/input/annexb.c
@@ -147,6 +147,11 @@ static int annexb_open(AnnexbInputContext *const c, const char *const file,
             break;
         fseeko(c->f, len, SEEK_CUR);
     }
+    if (ferror(c->f)) {
+        fprintf(stderr, "Failed to read %s: %s\n", file, strerror(errno));
+        fclose(c->f);
+        return -1;
+    }
     fseeko(c->f, 0, SEEK_SET);
 
     return 0;
@@ -158,23 +163,24 @@ static int annexb_read(AnnexbInputContext *const c, Dav1dData *const data) {
 
     if (!c->temporal_unit_size) {
         res = leb128(c->f, &c->temporal_unit_size);
-        if (res < 0) return -1;
+        if (res < 0) return demuxer_end(c->f);
     }
     if (!c->frame_unit_size) {
         res = leb128(c->f, &c->frame_unit_size);
-        if (res < 0 || (c->frame_unit_size + res) > c->temporal_unit_size) return -1;
+        if (res < 0 || (c->frame_unit_size + res) > c->temporal_unit_size)
+            return demuxer_end(c->f);
         c->temporal_unit_size -= res;
     }
     res = leb128(c->f, &len);
-    if (res < 0 || (len + res) > c->frame_unit_size) return -1;
+    if (res < 0 || (len + res) > c->frame_unit_size) return demuxer_end(c->f);
     uint8_t *ptr = dav1d_data_create(data, len);
-    if (!ptr) return -1;
+    if (!ptr) return DAV1D_ERR(ENOMEM);
     c->temporal_unit_size -= len + res;
     c->frame_unit_size -= len + res;
     if (fread(ptr, len, 1, c->f) != 1) {
         fprintf(stderr, "Failed to read frame data: %s\n", strerror(errno));
         dav1d_data_unref(data);
-        return -1;
+        return demuxer_end(c->f);
     }
 
     return 0;
diff --git a/tools/input/demuxer.h b/tools/input/demuxer.h
index 354db76..bef4bea 100644
--- a/tools/input/demuxer.h
+++ b/tools/input/demuxer.h
@@ -28,6 +28,9 @@
 #ifndef DAV1D_INPUT_DEMUXER_H
 #define DAV1D_INPUT_DEMUXER_H
 
+#include <errno.h>
+#include <stdio.h>
+
 #include "data.h"
 
 typedef struct DemuxerPriv DemuxerPriv;
@@ -43,4 +46,12 @@ typedef struct Demuxer {
     void (*close)(DemuxerPriv *ctx);
 } Demuxer;
 
+/**
+ * Return value of Demuxer.read() when there is no further packet: -1 at the
+ * end of the data, or another negative value if it could not be read.
+ */
+static inline int demuxer_end(FILE *const f) {
+    return ferror(f) ? DAV1D_ERR(EIO) : -1;
+}
+
 #endif /* DAV1D_INPUT_DEMUXER_H */
diff --git a/tools/input/input.h b/tools/input/input.h
index 098219c..775711f 100644
--- a/tools/input/input.h
+++ b/tools/input/input.h
@@ -35,6 +35,12 @@ typedef struct DemuxerContext DemuxerContext;
 int input_open(DemuxerContext **const c_out,
                const char *const name, const char *const filename,
                unsigned fps[2], unsigned *num_frames, unsigned timebase[2]);
+/**
+ * Reads the next packet.
+ *
+ * @return 0 on success, -1 if there is none, or another negative value if it
+ *         could not be read.
+ */
 int input_read(DemuxerContext *ctx, Dav1dData *data);
 int input_seek(DemuxerContext *ctx, uint64_t pts);
 void input_close(DemuxerContext *ctx);
diff --git a/tools/input/ivf.c b/tools/input/ivf.c
index 51e0c2b..862f68e 100644
--- a/tools/input/ivf.c
+++ b/tools/input/ivf.c
@@ -103,6 +103,11 @@ static int ivf_open(IvfInputContext *const c, const char *const file,
         c->last_ts = ts;
         fseeko(c->f, sz, SEEK_CUR);
     }
+    if (ferror(c->f)) {
+        fprintf(stderr, "Failed to read %s: %s\n", file, strerror(errno));
+        fclose(c->f);
+        return -1;
+    }
 
     uint64_t fps_num = (uint64_t) timebase[0] * *num_frames;
     uint64_t fps_den = (uint64_t) timebase[1] * duration;
@@ -155,12 +160,12 @@ static int ivf_read(IvfInputContext *const c, Dav1dData *const buf) {
     ptrdiff_t sz;
     int64_t off;
     uint64_t ts;
-    if (ivf_read_header(c, &sz, &off, &ts)) return -1;
-    if (!(ptr = dav1d_data_create(buf, sz))) return -1;
+    if (ivf_read_header(c, &sz, &off, &ts)) return demuxer_end(c->f);
+    if (!(ptr = dav1d_data_create(buf, sz))) return DAV1D_ERR(ENOMEM);
     if (fread(ptr, sz, 1, c->f) != 1) {
         fprintf(stderr, "Failed to read frame data: %s\n", strerror(errno));
         dav1d_data_unref(buf);
-        return -1;
+        return demuxer_end(c->f);
     }
     buf->m.offset = off;
     buf->m.timestamp = ts;
diff --git a/tools/input/section5.c b/tools/input/section5.c
index 99cb761..6749c6f 100644
--- a/tools/input/section5.c
+++ b/tools/input/section5.c
@@ -120,6 +120,11 @@ static int section5_open(Section5InputContext *const c, const char *const file,
             return -1;
         fseeko(c->f, len, SEEK_CUR); // skip packet
     }
+    if (ferror(c->f)) {
+        fprintf(stderr, "Failed to read %s: %s\n", file, strerror(errno));
+        fclose(c->f);
+        return -1;
+    }
     fseeko(c->f, 0, SEEK_SET);
 
     return 0;
@@ -133,7 +138,7 @@ static int section5_read(Section5InputContext *const c, Dav1dData *const data) {
 
         if (fread(&byte[0], 1, 1, c->f) < 1) {
             if (!first && feof(c->f)) break;
-            return -1;
+            return demuxer_end(c->f);
         }
         const enum Dav1dObuType obu_type = (byte[0] >> 3) & 0xf;
         if (first) {
@@ -151,22 +156,22 @@ static int section5_read(Section5InputContext *const c, Dav1dData *const data) {
             return -1;
         const int has_extension = !!(byte[0] & 0x4);
         if (has_extension && fread(&byte[1], 1, 1, c->f) < 1)
-            return -1;
+            return demuxer_end(c->f);
         size_t len;
         const int res = leb128(c->f, &len);
         if (res < 0)
-            return -1;
+            return demuxer_end(c->f);
         total_bytes += 1 + has_extension + res + len;
         fseeko(c->f, len, SEEK_CUR); // skip packet, we'll read it below
     }
 
     fseeko(c->f, -(off_t)total_bytes, SEEK_CUR);
     uint8_t *ptr = dav1d_data_create(data, total_bytes);
-    if (!ptr) return -1;
+    if (!ptr) return DAV1D_ERR(ENOMEM);
     if (fread(ptr, total_bytes, 1, c->f) != 1) {
         fprintf(stderr, "Failed to read frame data: %s\n", strerror(errno));
         dav1d_data_unref(data);
-        return -1;
+        return demuxer_end(c->f);
     }
 
     return 0;
-- 
2.43.0


From c3ec52867d7557129a257f76aef8ff22ed7dc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 19/36] fix: dav1d: report failed writes

A write that fails only when the buffered data is flushed, i.e. in fprintf(),
fflush() or fclose(), was ignored, and the tool exited with status 0 with
part of the output missing.
---
 tools/dav1d.c         |  2 +-
 tools/output/md5.c    |  5 ++---
 tools/output/muxer.h  | 21 ++++++++++++++++++++-
 tools/output/output.c |  9 +++++----
 tools/output/output.h |  7 ++++++-
 tools/output/xxhash.c |  5 ++---
 tools/output/y4m2.c   | 17 +++++++++--------
 tools/output/yuv.c    |  5 ++---
 8 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index a4935fe..2dc2813 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -388,7 +388,7 @@ int main(const int argc, char *const *const argv) {
         if (cli_settings.verify)
             res |= output_verify(out, cli_settings.verify);
         else
-            output_close(out);
+            res |= output_close(out);
     } else {
         fprintf(stderr, "No data decoded\n");
         res = 1;
diff --git a/tools/output/md5.c b/tools/output/md5.c
index cfad4f0..2e0dafc 100644
--- a/tools/output/md5.c
+++ b/tools/output/md5.c
@@ -259,7 +259,7 @@ static void md5_finish(MD5Context *const md5) {
     md5_update(md5, (const uint8_t *) &len, 8);
 }
 
-static void md5_close(MD5Context *const md5) {
+static int md5_close(MD5Context *const md5) {
     md5_finish(md5);
     for (int i = 0; i < 4; i++)
         fprintf(md5->f, "%2.2x%2.2x%2.2x%2.2x",
@@ -274,8 +274,7 @@ static void md5_close(MD5Context *const md5) {
     md5->bswap_w = 0;
 #endif
 
-    if (md5->f != stdout)
-        fclose(md5->f);
+    return muxer_close_file(md5->f);
 }
 
 static int md5_verify(MD5Context *const md5, const char *md5_str) {
diff --git a/tools/output/muxer.h b/tools/output/muxer.h
index 54b3f6a..7ebb8eb 100644
--- a/tools/output/muxer.h
+++ b/tools/output/muxer.h
@@ -28,6 +28,10 @@
 #ifndef DAV1D_OUTPUT_MUXER_H
 #define DAV1D_OUTPUT_MUXER_H
 
+#include <errno.h>
+#include <stdio.h>
+#include <string.h>
+
 #include "picture.h"
 
 typedef struct MuxerPriv MuxerPriv;
@@ -38,7 +42,7 @@ typedef struct Muxer {
     int (*write_header)(MuxerPriv *ctx, const char *filename,
                         const Dav1dPictureParameters *p, const unsigned fps[2]);
     int (*write_picture)(MuxerPriv *ctx, Dav1dPicture *p);
-    void (*write_trailer)(MuxerPriv *ctx);
+    int (*write_trailer)(MuxerPriv *ctx);
     /**
      * Verifies the muxed data (for example in the md5 muxer). Replaces write_trailer.
      *
@@ -49,4 +53,19 @@ typedef struct Muxer {
     int (*verify)(MuxerPriv *ctx, const char *hash_string);
 } Muxer;
 
+/**
+ * Writes out anything still buffered and closes the file, unless it's stdout.
+ *
+ * @return 0 if all data was written.
+ */
+static inline int muxer_close_file(FILE *const f) {
+    int res = ferror(f);
+    res |= f == stdout ? fflush(f) : fclose(f);
+    if (res) {
+        fprintf(stderr, "Failed to write output: %s\n", strerror(errno));
+        return -1;
+    }
+    return 0;
+}
+
 #endif /* DAV1D_OUTPUT_MUXER_H */
diff --git a/tools/output/output.c b/tools/output/output.c
index f8910d4..475e5da 100644
--- a/tools/output/output.c
+++ b/tools/output/output.c
@@ -242,15 +242,16 @@ int output_write(MuxerContext *const ctx, Dav1dPicture *const p) {
     if ((res = ctx->impl->write_picture(ctx->data, p)) < 0)
         return res;
     if (ctx->one_file_per_frame && ctx->impl->write_trailer)
-        ctx->impl->write_trailer(ctx->data);
+        return ctx->impl->write_trailer(ctx->data);
 
     return 0;
 }
 
-void output_close(MuxerContext *const ctx) {
-    if (!ctx->one_file_per_frame && ctx->impl->write_trailer)
-        ctx->impl->write_trailer(ctx->data);
+int output_close(MuxerContext *const ctx) {
+    const int res = !ctx->one_file_per_frame && ctx->impl->write_trailer ?
+        ctx->impl->write_trailer(ctx->data) : 0;
     free(ctx);
+    return res;
 }
 
 int output_verify(MuxerContext *const ctx, const char *const md5_str) {
diff --git a/tools/output/output.h b/tools/output/output.h
index 6111c86..08db6b0 100644
--- a/tools/output/output.h
+++ b/tools/output/output.h
@@ -35,7 +35,12 @@ typedef struct MuxerContext MuxerContext;
 int output_open(MuxerContext **c, const char *name, const char *filename,
                 const Dav1dPictureParameters *p, const unsigned fps[2]);
 int output_write(MuxerContext *ctx, Dav1dPicture *pic);
-void output_close(MuxerContext *ctx);
+/**
+ * Finishes the output.
+ *
+ * @return 0 if everything was written.
+ */
+int output_close(MuxerContext *ctx);
 /**
  * Verifies the muxed data (for example in the md5 muxer). Replaces output_close.
  *
diff --git a/tools/output/xxhash.c b/tools/output/xxhash.c
index 53e7f2b..6a9d938 100644
--- a/tools/output/xxhash.c
+++ b/tools/output/xxhash.c
@@ -97,7 +97,7 @@ static int xxh3_write(xxh3Context *const xxh3, Dav1dPicture *const p) {
     return 0;
 }
 
-static void xxh3_close(xxh3Context *const xxh3) {
+static int xxh3_close(xxh3Context *const xxh3) {
     XXH128_hash_t hash = XXH3_128bits_digest(xxh3->state);
     XXH3_freeState(xxh3->state);
     XXH128_canonical_t c;
@@ -107,8 +107,7 @@ static void xxh3_close(xxh3Context *const xxh3) {
         fprintf(xxh3->f, "%2.2x", c.digest[i]);
     fprintf(xxh3->f, "\n");
 
-    if (xxh3->f != stdout)
-        fclose(xxh3->f);
+    return muxer_close_file(xxh3->f);
 }
 
 static int xxh3_verify(xxh3Context *const xxh3, const char * xxh3_str) {
diff --git a/tools/output/y4m2.c b/tools/output/y4m2.c
index 40411d1..5d21fb8 100644
--- a/tools/output/y4m2.c
+++ b/tools/output/y4m2.c
@@ -86,19 +86,21 @@ static int write_header(Y4m2OutputContext *const c, const Dav1dPicture *const p)
     aw /= gcd;
     ah /= gcd;
 
-    fprintf(c->f, "YUV4MPEG2 W%u H%u F%u:%u Ip A%"PRIu64":%"PRIu64" C%s\n",
-            fw, fh, c->fps[0], c->fps[1], aw, ah, ss_name);
+    const int res =
+        fprintf(c->f, "YUV4MPEG2 W%u H%u F%u:%u Ip A%"PRIu64":%"PRIu64" C%s\n",
+                fw, fh, c->fps[0], c->fps[1], aw, ah, ss_name);
 
-    return 0;
+    return res < 0 ? res : 0;
 }
 
 static int y4m2_write(Y4m2OutputContext *const c, Dav1dPicture *const p) {
     if (c->first) {
         c->first = 0;
         const int res = write_header(c, p);
-        if (res < 0) return res;
+        if (res < 0) goto error;
     }
-    fprintf(c->f, "FRAME\n");
+    if (fprintf(c->f, "FRAME\n") < 0)
+        goto error;
 
     uint8_t *ptr;
     const int hbd = p->p.bpc > 8;
@@ -135,9 +137,8 @@ error:
     return -1;
 }
 
-static void y4m2_close(Y4m2OutputContext *const c) {
-    if (c->f != stdout)
-        fclose(c->f);
+static int y4m2_close(Y4m2OutputContext *const c) {
+    return muxer_close_file(c->f);
 }
 
 const Muxer y4m2_muxer = {
diff --git a/tools/output/yuv.c b/tools/output/yuv.c
index e0c0ec4..4a70b3e 100644
--- a/tools/output/yuv.c
+++ b/tools/output/yuv.c
@@ -88,9 +88,8 @@ error:
     return -1;
 }
 
-static void yuv_close(YuvOutputContext *const c) {
-    if (c->f != stdout)
-        fclose(c->f);
+static int yuv_close(YuvOutputContext *const c) {
+    return muxer_close_file(c->f);
 }
 
 const Muxer yuv_muxer = {
-- 
2.43.0


From b61ff34a56dbb6c482ae5f1ecc9b802c1efc73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 20/36] fix: output only the highest spatial layer also if the
 sequence changes

The highest layer was taken from the last sequence header that was parsed,
rather than from the one of the picture that is about to be output. With
frame threads that is usually the header of a later sequence, so pictures got
lost or lower layers were output.
---
 src/lib.c | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index 3fe8327..7110fb9 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -306,12 +306,22 @@ static int has_grain(const Dav1dPicture *const pic)
                                         fgdata->chroma_scaling_from_luma);
 }
 
+// The highest spatial layer of the operating point a picture belongs to. The
+// sequence header may have changed since it was decoded.
+static int max_spatial_id(const Dav1dContext *const c, const Dav1dPicture *const p)
+{
+    const Dav1dSequenceHeader *const seq_hdr = p->seq_hdr;
+    const int op_idx =
+        c->operating_point < seq_hdr->num_operating_points ? c->operating_point : 0;
+    const unsigned spatial_mask = seq_hdr->operating_points[op_idx].idc >> 8;
+    return spatial_mask ? ulog2(spatial_mask) : 0;
+}
+
 static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
 {
     int res = 0;
 
-    Dav1dThreadPicture *const in = (c->all_layers || !c->max_spatial_id)
-                                   ? &c->out : &c->cache;
+    Dav1dThreadPicture *const in = c->cache.p.data[0] ? &c->cache : &c->out;
     if (!c->apply_grain || !has_grain(&in->p)) {
         dav1d_picture_move_ref(out, &in->p);
         dav1d_thread_picture_unref(in);
@@ -321,7 +331,7 @@ static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
     res = dav1d_apply_grain(c, out, &in->p);
     dav1d_thread_picture_unref(in);
 end:
-    if (!c->all_layers && c->max_spatial_id && c->out.p.data[0]) {
+    if (in == &c->cache && c->out.p.data[0] && max_spatial_id(c, &c->out.p)) {
         dav1d_thread_picture_move_ref(in, &c->out);
     }
     return res;
@@ -329,23 +339,20 @@ end:
 
 static int output_picture_ready(Dav1dContext *const c, const int drain) {
     if (c->cached_error) return 1;
-    if (!c->all_layers && c->max_spatial_id) {
-        if (c->out.p.data[0] && c->cache.p.data[0]) {
-            if (c->max_spatial_id == c->cache.p.frame_hdr->spatial_id ||
-                c->out.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)
-                return 1;
-            dav1d_thread_picture_unref(&c->cache);
-            dav1d_thread_picture_move_ref(&c->cache, &c->out);
-            return 0;
-        } else if (c->cache.p.data[0] && drain) {
+    if (c->all_layers || !c->out.p.data[0])
+        return c->out.p.data[0] || (c->cache.p.data[0] && drain);
+
+    const int max_sid = max_spatial_id(c, &c->out.p);
+    if (c->cache.p.data[0]) {
+        if (max_spatial_id(c, &c->cache.p) == c->cache.p.frame_hdr->spatial_id ||
+            !max_sid || c->out.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)
             return 1;
-        } else if (c->out.p.data[0]) {
-            dav1d_thread_picture_move_ref(&c->cache, &c->out);
-            return 0;
-        }
+        dav1d_thread_picture_unref(&c->cache);
+    } else if (!max_sid) {
+        return 1;
     }
-
-    return !!c->out.p.data[0];
+    dav1d_thread_picture_move_ref(&c->cache, &c->out);
+    return 0;
 }
 
 static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
-- 
2.43.0


From 67d311e07a12732b8094671734c72650a149cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 21/36] fix: report both errors if a frame and a later chunk
 fail at once

With frame threads, an error of a frame decoded earlier can be noticed while
a later chunk that is itself damaged gets parsed. Only one error was
reported, with the data properties of the later chunk.
---
 src/decode.c   |  2 +-
 src/internal.h |  1 +
 src/lib.c      | 12 ++++++++++--
 src/obu.c      |  2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index 6c04680..ebe0687 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3365,7 +3365,7 @@ int dav1d_submit_frame(Dav1dContext *const c) {
         if (error) {
             f->task_thread.retval = 0;
             c->cached_error = error;
-            dav1d_data_props_copy(&c->cached_error_props, &out_delayed->p.m);
+            dav1d_data_props_copy(&c->delayed_error_props, &out_delayed->p.m);
             dav1d_thread_picture_unref(out_delayed);
         } else if (out_delayed->p.data[0]) {
             const unsigned progress = atomic_load_explicit(&out_delayed->progress[1],
diff --git a/src/internal.h b/src/internal.h
index 70e7c58..f7d1abc 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -193,6 +193,7 @@ struct Dav1dContext {
     enum PictureFlags frame_flags;
     enum Dav1dEventFlags event_flags;
     Dav1dDataProps cached_error_props;
+    Dav1dDataProps delayed_error_props; // belongs to cached_error
     int cached_error;
 
     Dav1dLogger logger;
diff --git a/src/lib.c b/src/lib.c
index 7110fb9..4b8ba68 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -176,6 +176,7 @@ COLD int dav1d_open(Dav1dContext **const c_out, const Dav1dSettings *const s) {
     c->decode_frame_type = s->decode_frame_type;
 
     dav1d_data_props_set_defaults(&c->cached_error_props);
+    dav1d_data_props_set_defaults(&c->delayed_error_props);
 
     if (dav1d_mem_pool_init(ALLOC_OBU_HDR, &c->seq_hdr_pool) ||
         dav1d_mem_pool_init(ALLOC_OBU_HDR, &c->frame_hdr_pool) ||
@@ -432,9 +433,13 @@ static int gen_picture(Dav1dContext *const c)
             if (!in->sz) dav1d_data_unref_internal(in);
         }
         if (output_picture_ready(c, 0)) {
-            // keep the error for the next call of dav1d_get_picture()
-            if (res < 0 && !c->cached_error)
+            if (res < 0) {
+                // a frame decoded earlier failed, too, and is reported next
+                if (c->cached_error) return (int)res;
+                // keep the error for the next call of dav1d_get_picture()
                 c->cached_error = (int)res;
+                dav1d_data_props_copy(&c->delayed_error_props, &c->cached_error_props);
+            }
             break;
         }
         if (res < 0)
@@ -479,6 +484,8 @@ int dav1d_get_picture(Dav1dContext *const c, Dav1dPicture *const out)
     if (c->cached_error) {
         const int res = c->cached_error;
         c->cached_error = 0;
+        dav1d_data_props_copy(&c->cached_error_props, &c->delayed_error_props);
+        dav1d_data_props_unref_internal(&c->delayed_error_props);
         return res;
     }
 
@@ -581,6 +588,7 @@ void dav1d_flush(Dav1dContext *const c) {
     dav1d_ref_dec(&c->itut_t35_ref);
 
     dav1d_data_props_unref_internal(&c->cached_error_props);
+    dav1d_data_props_unref_internal(&c->delayed_error_props);
 
     if (c->n_fc == 1 && c->n_tc == 1) return;
     atomic_store(c->flush, 1);
diff --git a/src/obu.c b/src/obu.c
index 4cb659e..815565d 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1640,7 +1640,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                 if (error) {
                     c->cached_error = error;
                     f->task_thread.retval = 0;
-                    dav1d_data_props_copy(&c->cached_error_props, &out_delayed->p.m);
+                    dav1d_data_props_copy(&c->delayed_error_props, &out_delayed->p.m);
                     dav1d_thread_picture_unref(out_delayed);
                 } else if (out_delayed->p.data[0]) {
                     const unsigned progress = atomic_load_explicit(&out_delayed->progress[1],
-- 
2.43.0


From 086c632b7fccc4e930f5a5ce01c8bbaa669b710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 22/36] fix: assign shown pictures to their temporal unit

Hidden frames took the mark of the beginning of a temporal unit with them,
and pictures that are shown again kept the one of the unit they were decoded
in. If only the highest spatial layer is output, pictures of lower layers got
lost or were output in addition.
---
 src/obu.c     | 12 ++++++++++++
 src/picture.c |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 815565d..f79d139 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1210,6 +1210,16 @@ static void parse_tile_hdr(Dav1dContext *const c, GetBits *const gb) {
     }
 }
 
+// A picture that is shown again belongs to the current temporal unit, not to
+// the one it was decoded in.
+static void update_temporal_unit_flag(Dav1dContext *const c,
+                                      Dav1dThreadPicture *const p)
+{
+    p->flags = (p->flags & ~PICTURE_FLAG_NEW_TEMPORAL_UNIT) |
+               (c->frame_flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT);
+    c->frame_flags &= ~PICTURE_FLAG_NEW_TEMPORAL_UNIT;
+}
+
 ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
     GetBits gb;
     int res;
@@ -1601,6 +1611,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (c->n_fc == 1) {
                 dav1d_thread_picture_ref(&c->out,
                                          &c->refs[c->frame_hdr->existing_frame_idx].p);
+                update_temporal_unit_flag(c, &c->out);
                 dav1d_picture_copy_props(&c->out.p,
                                          c->content_light, c->content_light_ref,
                                          c->mastering_display, c->mastering_display_ref,
@@ -1656,6 +1667,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                 dav1d_thread_picture_ref(out_delayed,
                                          &c->refs[c->frame_hdr->existing_frame_idx].p);
                 out_delayed->visible = 1;
+                update_temporal_unit_flag(c, out_delayed);
                 dav1d_picture_copy_props(&out_delayed->p,
                                          c->content_light, c->content_light_ref,
                                          c->mastering_display, c->mastering_display_ref,
diff --git a/src/picture.c b/src/picture.c
index 290bd09..80af8aa 100644
--- a/src/picture.c
+++ b/src/picture.c
@@ -203,8 +203,8 @@ int dav1d_thread_picture_alloc(Dav1dContext *const c, Dav1dFrameContext *const f
 
     // Don't clear these flags from c->frame_flags if the frame is not going to be output.
     // This way they will be added to the next visible frame too.
-    const int flags_mask = ((f->frame_hdr->show_frame || c->output_invisible_frames) &&
-                            c->max_spatial_id == f->frame_hdr->spatial_id)
+    const int flags_mask = !(f->frame_hdr->show_frame || c->output_invisible_frames) ? ~0 :
+                           c->max_spatial_id == f->frame_hdr->spatial_id
                            ? 0 : (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO);
     p->flags = c->frame_flags;
     c->frame_flags &= flags_mask;
-- 
2.43.0


From 85d63c8f961c5c1184d84cf1819ca4f3f8b371a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 23/36] fix: clear pending frame flags in dav1d_flush

---
 src/lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.c b/src/lib.c
index 4b8ba68..2fc0511 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -567,6 +567,7 @@ void dav1d_flush(Dav1dContext *const c) {
 
     c->drain = 0;
     c->cached_error = 0;
+    c->frame_flags = 0;
 
     for (int i = 0; i < 8; i++) {
         if (c->refs[i].p.p.frame_hdr)
-- 
2.43.0


From e401cbdc22b8dc68d518fe75163baffbe411b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 24/36] fix: drop T.35 metadata of skipped frames

---
 src/obu.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index f79d139..9b23cb5 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1745,6 +1745,13 @@ skip:
         }
     }
 
+    // the metadata of a frame that isn't output doesn't belong to the next one
+    if (c->frame_hdr->show_frame || c->frame_hdr->show_existing_frame) {
+        dav1d_ref_dec(&c->itut_t35_ref);
+        c->itut_t35 = NULL;
+        c->n_itut_t35 = 0;
+    }
+
     dav1d_ref_dec(&c->frame_hdr_ref);
     c->frame_hdr = NULL;
     c->n_tiles = 0;
-- 
2.43.0


From 30691d3d4fe207a80018953bec731a7f51805027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 25/36] fix: reject 0x without digits as value of a command
 line option

---
 tools/dav1d_cli_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/dav1d_cli_parse.c b/tools/dav1d_cli_parse.c
index 134be46..98c745d 100644
--- a/tools/dav1d_cli_parse.c
+++ b/tools/dav1d_cli_parse.c
@@ -307,6 +307,8 @@ static unsigned parse_enum(char *optarg, const EnumParseTable *const tbl,
     unsigned res;
     if (!strncmp(optarg, "0x", 2)) {
         res = (unsigned) strtoul(&optarg[2], &end, 16);
+        if (end == &optarg[2])
+            end = optarg;
     } else {
         res = (unsigned) strtoul(optarg, &end, 0);
     }
-- 
2.43.0


From bc07113b4e63eac1448739157384e2bd1732fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 26/36] fix: drop T.35 metadata of lost frames

---
 src/lib.c | 4 ++++
 src/obu.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index 2fc0511..5f25b8f 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -426,6 +426,10 @@ static int gen_picture(Dav1dContext *const c)
         if (res < 0) {
             dav1d_data_props_copy(&c->cached_error_props, &in->m);
             dav1d_data_unref_internal(in);
+            // the metadata of a lost frame doesn't belong to the next one
+            dav1d_ref_dec(&c->itut_t35_ref);
+            c->itut_t35 = NULL;
+            c->n_itut_t35 = 0;
         } else {
             assert((size_t)res <= in->sz);
             in->sz -= res;
diff --git a/src/obu.c b/src/obu.c
index 9b23cb5..e95da8b 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1576,6 +1576,10 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
     }
     case DAV1D_OBU_TD:
         c->frame_flags |= PICTURE_FLAG_NEW_TEMPORAL_UNIT;
+        // metadata that no frame of the last temporal unit carried is void
+        dav1d_ref_dec(&c->itut_t35_ref);
+        c->itut_t35 = NULL;
+        c->n_itut_t35 = 0;
         break;
     case DAV1D_OBU_PADDING:
         // ignore OBUs we don't care about
-- 
2.43.0


From 74eae64ca89bccff7453bbced26a838c0349dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 27/36] fix: let the --renderer option of dav1dplay take its
 argument

---
 examples/dav1dplay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index 1f64944..ca9336b 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -164,7 +164,7 @@ static void dp_rd_ctx_parse_args(Dav1dPlayRenderContext *rd_ctx,
         { "zerocopy",       0, NULL, 'z' },
         { "gpugrain",       0, NULL, 'g' },
         { "fullscreen",     0, NULL, 'f'},
-        { "renderer",       0, NULL, 'r'},
+        { "renderer",       1, NULL, 'r'},
         { NULL,             0, NULL, 0 },
     };
 
-- 
2.43.0


From 9d0ed2aba0069be49059a1479d47f48a17a090fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 28/36] fix: show the last frames of a stream in dav1dplay

The demuxers return a negative value at the end of the file, which was taken
for an error: the frame returned together with it and all delayed frames were
dropped, and the exit status was 1. Failing to open the input gave 0.
---
 examples/dav1dplay.c | 63 ++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index ca9336b..683a657 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -515,12 +515,20 @@ static void dp_rd_ctx_render(Dav1dPlayRenderContext *rd_ctx)
     SDL_UnlockMutex(rd_ctx->lock);
 }
 
+/**
+ * Decode the next frame, if any
+ *
+ * \return 1 at the end of the stream, when all frames were returned,
+ *         a negative value on error and 0 otherwise.
+ */
 static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
                         Dav1dData *data, DemuxerContext *in_ctx)
 {
     int res;
+    const int at_end = data->sz == 0;
+    *p = NULL;
     // Send data packets we got from the demuxer to dav1d
-    if ((res = dav1d_send_data(c, data)) < 0) {
+    if (!at_end && (res = dav1d_send_data(c, data)) < 0) {
         // On EAGAIN, dav1d can not consume more data and
         // dav1d_get_picture needs to be called first, which
         // will happen below, so just keep going in that case
@@ -530,7 +538,10 @@ static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
             goto err;
         }
     }
-    *p = calloc(1, sizeof(**p));
+    if (!(*p = calloc(1, sizeof(**p)))) {
+        res = DAV1D_ERR(ENOMEM);
+        goto err;
+    }
     // Try to get a decoded frame
     if ((res = dav1d_get_picture(c, *p)) < 0) {
         // In all error cases, even EAGAIN, p needs to be freed as
@@ -543,8 +554,19 @@ static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
         // run of the decoder loop.
         if (res != DAV1D_ERR(EAGAIN))
             goto err;
+        // When there is no more data to feed to the decoder, it is only
+        // done once it returned all the frames decoded from earlier data.
+        if (at_end)
+            return 1;
     }
-    return data->sz == 0 ? input_read(in_ctx, data) : 0;
+    if (data->sz > 0)
+        return 0;
+    // the end of the file is not an error, there can be more frames
+    if ((res = input_read(in_ctx, data)) >= -1)
+        return 0;
+    if (*p)
+        destroy_pic(*p);
+    *p = NULL;
 err:
     fprintf(stderr, "Error decoding frame: %s\n",
             strerror(-res));
@@ -577,7 +599,6 @@ static int decoder_thread_main(void *cookie)
                           fps, &total, timebase)) < 0)
     {
         fprintf(stderr, "Failed to open demuxer\n");
-        res = 1;
         goto cleanup;
     }
 
@@ -587,13 +608,11 @@ static int decoder_thread_main(void *cookie)
 
     if ((res = dav1d_open(&c, &rd_ctx->lib_settings))) {
         fprintf(stderr, "Failed opening dav1d decoder\n");
-        res = 1;
         goto cleanup;
     }
 
     if ((res = input_read(in_ctx, &data)) < 0) {
         fprintf(stderr, "Failed demuxing input\n");
-        res = 1;
         goto cleanup;
     }
 
@@ -621,36 +640,6 @@ static int decoder_thread_main(void *cookie)
     // Release remaining data
     if (data.sz > 0)
         dav1d_data_unref(&data);
-    // Do not drain in case an error occured and caused us to leave the
-    // decoding loop early.
-    if (res < 0)
-        goto cleanup;
-
-    // Drain decoder
-    // When there is no more data to feed to the decoder, for example
-    // because the file ended, we still need to request pictures, as
-    // even though we do not have more data, there can be frames decoded
-    // from data we sent before. So we need to call dav1d_get_picture until
-    // we get an EAGAIN error.
-    do {
-        if (dp_rd_ctx_should_terminate(rd_ctx))
-            break;
-        p = calloc(1, sizeof(*p));
-        res = dav1d_get_picture(c, p);
-        if (res < 0) {
-            free(p);
-            if (res != DAV1D_ERR(EAGAIN)) {
-                fprintf(stderr, "Error decoding frame: %s\n",
-                        strerror(-res));
-                break;
-            }
-        } else {
-            // Queue frame
-            dp_fifo_push(rd_ctx->fifo, p);
-            uint32_t type = rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME;
-            dp_rd_ctx_post_event(rd_ctx, type);
-        }
-    } while (res != DAV1D_ERR(EAGAIN));
 
 cleanup:
     dp_rd_ctx_post_event(rd_ctx, rd_ctx->event_types + DAV1D_EVENT_DEC_QUIT);
@@ -660,7 +649,7 @@ cleanup:
     if (c)
         dav1d_close(&c);
 
-    return (res != DAV1D_ERR(EAGAIN) && res < 0);
+    return res < 0;
 }
 
 int main(int argc, char **argv)
-- 
2.43.0


From 2ab409fcdddfde968a1c455ce95b275cda8b3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 29/36] fix: keep the frames and events of dav1dplay in step

A push that is aborted by a flush lost the picture, but the event for it was
still posted, so that the main thread waited for a picture for ever. After a
pause the player stayed behind, so that the last pictures were not shown and
dp_fifo_destroy() found a FIFO that is not empty; the same happened to pictures
queued after the user quit. Pictures decoded before a seek request were leaked.
---
 examples/dav1dplay.c | 102 +++++++++++++++++++++++++++++--------------
 examples/dp_fifo.c   |  33 ++++++--------
 examples/dp_fifo.h   |  12 ++++-
 3 files changed, 92 insertions(+), 55 deletions(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index 683a657..5ed1057 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -303,6 +303,8 @@ fail:
     return NULL;
 }
 
+static inline void destroy_pic(void *a);
+
 /**
  * Notify about new event
  */
@@ -314,6 +316,18 @@ static void dp_rd_ctx_post_event(Dav1dPlayRenderContext *rd_ctx, uint32_t type)
     SDL_PushEvent(&event);
 }
 
+/**
+ * Pass a picture on to the main thread
+ */
+static void dp_rd_ctx_queue_picture(Dav1dPlayRenderContext *rd_ctx,
+                                    Dav1dPicture *p, uint32_t type)
+{
+    if (dp_fifo_push(rd_ctx->fifo, p))
+        destroy_pic(p);
+    else
+        dp_rd_ctx_post_event(rd_ctx, rd_ctx->event_types + type);
+}
+
 /**
  * Update the decoder context with a new dav1d picture
  *
@@ -372,12 +386,31 @@ static void dp_rd_ctx_seek(Dav1dPlayRenderContext *rd_ctx, int sec)
     if (!rd_ctx->paused)
         rd_ctx->pause_start = SDL_GetTicks();
     rd_ctx->paused = 1;
+    // The events go first, there must not be frames without an event
+    SDL_FlushEvent(rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME);
+    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
+    SDL_UnlockMutex(rd_ctx->lock);
+}
+
+/**
+ * Go on with playing after seeking
+ */
+static void dp_rd_ctx_end_seek(Dav1dPlayRenderContext *rd_ctx)
+{
+    SDL_LockMutex(rd_ctx->lock);
+    rd_ctx->paused = rd_ctx->user_paused;
+    if (!rd_ctx->paused && rd_ctx->seek) {
+        uint32_t now = SDL_GetTicks();
+        rd_ctx->pause_time += now - rd_ctx->pause_start;
+        rd_ctx->pause_start = 0;
+        rd_ctx->last_ticks = now;
+    }
+    rd_ctx->seek = 0;
     SDL_UnlockMutex(rd_ctx->lock);
 }
 
 static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
                         Dav1dData *data, DemuxerContext *in_ctx);
-static inline void destroy_pic(void *a);
 
 /**
  * Seek the stream, if requested
@@ -428,11 +461,8 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
                 pts = TS_TO_PTS(p->m.timestamp);
                 if (pts < target_pts)
                     destroy_pic(p);
-                else {
-                    dp_fifo_push(rd_ctx->fifo, p);
-                    uint32_t type = rd_ctx->event_types + DAV1D_EVENT_SEEK_FRAME;
-                    dp_rd_ctx_post_event(rd_ctx, type);
-                }
+                else
+                    dp_rd_ctx_queue_picture(rd_ctx, p, DAV1D_EVENT_SEEK_FRAME);
             }
         }
         if (!res) {
@@ -441,14 +471,7 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
         }
     }
 out:
-    rd_ctx->paused = rd_ctx->user_paused;
-    if (!rd_ctx->paused && rd_ctx->seek) {
-        uint32_t now = SDL_GetTicks();
-        rd_ctx->pause_time += now - rd_ctx->pause_start;
-        rd_ctx->pause_start = 0;
-        rd_ctx->last_ticks = now;
-    }
-    rd_ctx->seek = 0;
+    dp_rd_ctx_end_seek(rd_ctx);
     SDL_UnlockMutex(rd_ctx->lock);
     if (res)
         fprintf(stderr, "Error seeking, aborting\n");
@@ -629,11 +652,10 @@ static int decoder_thread_main(void *cookie)
             SDL_LockMutex(rd_ctx->lock);
             int seek = rd_ctx->seek;
             SDL_UnlockMutex(rd_ctx->lock);
-            if (!seek) {
-                dp_fifo_push(rd_ctx->fifo, p);
-                uint32_t type = rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME;
-                dp_rd_ctx_post_event(rd_ctx, type);
-            }
+            if (!seek)
+                dp_rd_ctx_queue_picture(rd_ctx, p, DAV1D_EVENT_NEW_FRAME);
+            else
+                destroy_pic(p);
         }
     }
 
@@ -697,13 +719,15 @@ int main(int argc, char **argv)
     // Main loop
 #define NUM_MAX_EVENTS 8
     SDL_Event events[NUM_MAX_EVENTS];
-    int num_frame_events = 0;
+    int num_frame_events = 0, dec_done = 0;
     uint32_t start_time = 0, n_out = 0;
     while (1) {
         int num_events = 0;
-        SDL_WaitEvent(NULL);
-        while (num_events < NUM_MAX_EVENTS && SDL_PollEvent(&events[num_events++]))
-            break;
+        // Do not wait if there are frames to show already
+        if (!num_frame_events || dp_rd_ctx_is_paused(rd_ctx))
+            SDL_WaitEvent(NULL);
+        while (num_events < NUM_MAX_EVENTS && SDL_PollEvent(&events[num_events]))
+            num_events++;
         for (int i = 0; i < num_events; ++i) {
             SDL_Event *e = &events[i];
             if (e->type == SDL_QUIT) {
@@ -727,12 +751,12 @@ int main(int argc, char **argv)
                 } else if (kbde->keysym.sym == SDLK_LEFT ||
                            kbde->keysym.sym == SDLK_RIGHT)
                 {
+                    if (dec_done)
+                        continue;
                     if (kbde->keysym.sym == SDLK_LEFT)
                         dp_rd_ctx_seek(rd_ctx, -5);
                     else if (kbde->keysym.sym == SDLK_RIGHT)
                         dp_rd_ctx_seek(rd_ctx, +5);
-                    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
-                    SDL_FlushEvent(rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME);
                     num_frame_events = 0;
                 }
             } else if (e->type == rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME) {
@@ -743,6 +767,9 @@ int main(int argc, char **argv)
             } else if (e->type == rd_ctx->event_types + DAV1D_EVENT_SEEK_FRAME) {
                 // Dequeue frame and update the render context with it
                 Dav1dPicture *p = dp_fifo_shift(rd_ctx->fifo);
+                // The frame is gone if there was another seek
+                if (!p)
+                    continue;
                 // Do not update textures during termination
                 if (!dp_rd_ctx_should_terminate(rd_ctx)) {
                     dp_rd_ctx_update_with_dav1d_picture(rd_ctx, p);
@@ -750,21 +777,28 @@ int main(int argc, char **argv)
                 }
                 destroy_pic(p);
             } else if (e->type == rd_ctx->event_types + DAV1D_EVENT_DEC_QUIT) {
-                goto out;
+                // Show the remaining frames, but nobody can seek any more
+                dec_done = 1;
+                dp_rd_ctx_end_seek(rd_ctx);
             }
         }
         if (num_frame_events && !dp_rd_ctx_is_paused(rd_ctx)) {
             // Dequeue frame and update the render context with it
             Dav1dPicture *p = dp_fifo_shift(rd_ctx->fifo);
-            // Do not update textures during termination
-            if (!dp_rd_ctx_should_terminate(rd_ctx)) {
-                dp_rd_ctx_update_with_dav1d_picture(rd_ctx, p);
-                dp_rd_ctx_render(rd_ctx);
-                n_out++;
-            }
-            destroy_pic(p);
             num_frame_events--;
+            // The frame is gone if there was a seek
+            if (p) {
+                // Do not update textures during termination
+                if (!dp_rd_ctx_should_terminate(rd_ctx)) {
+                    dp_rd_ctx_update_with_dav1d_picture(rd_ctx, p);
+                    dp_rd_ctx_render(rd_ctx);
+                    n_out++;
+                }
+                destroy_pic(p);
+            }
         }
+        if (dec_done && !num_frame_events)
+            goto out;
     }
 
 out:;
@@ -775,6 +809,8 @@ out:;
 
     int decoder_ret = 0;
     SDL_WaitThread(decoder_thread, &decoder_ret);
+    // Frames queued after the user quit
+    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
     dp_rd_ctx_destroy(rd_ctx);
     SDL_Quit();
     return decoder_ret;
diff --git a/examples/dp_fifo.c b/examples/dp_fifo.c
index 0de00fc..dcc4c8a 100644
--- a/examples/dp_fifo.c
+++ b/examples/dp_fifo.c
@@ -37,8 +37,7 @@ struct dp_fifo
     size_t capacity;
     size_t count;
     void **entries;
-    int push_wait;
-    int flush;
+    unsigned flushes;
 };
 
 
@@ -56,8 +55,7 @@ Dav1dPlayPtrFifo *dp_fifo_create(size_t capacity)
 
     fifo->capacity = capacity;
     fifo->count = 0;
-    fifo->push_wait = 0;
-    fifo->flush = 0;
+    fifo->flushes = 0;
 
     fifo->lock = SDL_CreateMutex();
     if (fifo->lock == NULL) {
@@ -91,23 +89,20 @@ void dp_fifo_destroy(Dav1dPlayPtrFifo *fifo)
 }
 
 // Push to FIFO
-void dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element)
+int dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element)
 {
     SDL_LockMutex(fifo->lock);
+    const unsigned flushes = fifo->flushes;
     while (fifo->count == fifo->capacity) {
-        fifo->push_wait = 1;
         SDL_CondWait(fifo->cond_change, fifo->lock);
-        fifo->push_wait = 0;
-        if (fifo->flush) {
-            SDL_CondSignal(fifo->cond_change);
+        if (fifo->flushes != flushes) {
             SDL_UnlockMutex(fifo->lock);
-            return;
+            return -1;
         }
     }
     fifo->entries[fifo->count++] = element;
-    if (fifo->count == 1)
-        SDL_CondSignal(fifo->cond_change);
     SDL_UnlockMutex(fifo->lock);
+    return 0;
 }
 
 // Helper that shifts the FIFO array
@@ -123,8 +118,10 @@ static void *dp_fifo_array_shift(void **arr, size_t len)
 void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo)
 {
     SDL_LockMutex(fifo->lock);
-    while (fifo->count == 0)
-        SDL_CondWait(fifo->cond_change, fifo->lock);
+    if (fifo->count == 0) {
+        SDL_UnlockMutex(fifo->lock);
+        return NULL;
+    }
     void *res = dp_fifo_array_shift(fifo->entries, fifo->count--);
     if (fifo->count == fifo->capacity - 1)
         SDL_CondSignal(fifo->cond_change);
@@ -135,13 +132,9 @@ void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo)
 void dp_fifo_flush(Dav1dPlayPtrFifo *fifo, void (*destroy_elem)(void *))
 {
     SDL_LockMutex(fifo->lock);
-    fifo->flush = 1;
-    if (fifo->push_wait) {
-        SDL_CondSignal(fifo->cond_change);
-        SDL_CondWait(fifo->cond_change, fifo->lock);
-    }
+    fifo->flushes++;
     while (fifo->count)
         destroy_elem(fifo->entries[--fifo->count]);
-    fifo->flush = 0;
+    SDL_CondSignal(fifo->cond_change);
     SDL_UnlockMutex(fifo->lock);
 }
diff --git a/examples/dp_fifo.h b/examples/dp_fifo.h
index 03d8e47..6855dd8 100644
--- a/examples/dp_fifo.h
+++ b/examples/dp_fifo.h
@@ -47,7 +47,8 @@ void dp_fifo_destroy(Dav1dPlayPtrFifo *fifo);
 /* Shift FIFO
  *
  * Return the first item from the FIFO, thereby removing it from
- * the FIFO and making room for new entries.
+ * the FIFO and making room for new entries, or NULL if the FIFO
+ * is empty.
  */
 void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo);
 
@@ -57,7 +58,14 @@ void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo);
  * If the FIFO is full, this call will block until there is again enough
  * space in the FIFO, so calling this from the "consumer" thread if no
  * other thread will call dp_fifo_shift will lead to a deadlock.
+ *
+ * Returns 0 on success. If the FIFO is flushed while waiting, the item is
+ * not added, remains owned by the caller, and a negative value is returned.
  */
-void dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element);
+int dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element);
 
+/* Flush FIFO
+ *
+ * Remove and destroy all items, and end the wait of a pending push.
+ */
 void dp_fifo_flush(Dav1dPlayPtrFifo *fifo, void (*destroy_elem)(void *));
-- 
2.43.0


From cff31dd1c0cc4e5dcb0f5bb520b0c018f3ab53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 30/36] fix: seeking in dav1dplay: leaked data, endless search,
 end of file

---
 examples/dav1dplay.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index 5ed1057..9e86817 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -431,6 +431,8 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
         pts = FRAME_OFFSET_TO_PTS(rd_ctx->total - 1);
     uint64_t target_pts = pts;
     dav1d_flush(c);
+    // Frames decoded before the seek request was noticed
+    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
     uint64_t shift = FRAME_OFFSET_TO_PTS(5);
     while (1) {
         if (shift > pts)
@@ -440,25 +442,31 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
         Dav1dSequenceHeader seq;
         uint64_t cur_pts;
         do {
+            dav1d_data_unref(data);
             if ((res = input_read(in_ctx, data)))
                 break;
             cur_pts = TS_TO_PTS(data->m.timestamp);
             res = dav1d_parse_sequence_header(&seq, data->data, data->sz);
         } while (res && cur_pts < pts);
-        if (!res && cur_pts <= pts)
+        // When searching from the start, there is nothing earlier to find
+        if (!res && (cur_pts <= pts || shift == pts))
             break;
-        if (shift > pts)
-            shift = pts;
+        if (shift == pts || shift == 0) {
+            res = -1;
+            goto out;
+        }
         pts -= shift;
     }
     if (!res) {
-        pts = TS_TO_PTS(data->m.timestamp);
+        int64_t ts = data->m.timestamp;
+        pts = TS_TO_PTS(ts);
         while (pts < target_pts) {
             Dav1dPicture *p;
             if ((res = decode_frame(&p, c, data, in_ctx)))
                 break;
             if (p) {
-                pts = TS_TO_PTS(p->m.timestamp);
+                ts = p->m.timestamp;
+                pts = TS_TO_PTS(ts);
                 if (pts < target_pts)
                     destroy_pic(p);
                 else
@@ -466,14 +474,14 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
             }
         }
         if (!res) {
-            rd_ctx->last_ts = data->m.timestamp - rd_ctx->spf / rd_ctx->timebase;
-            rd_ctx->current_ts = data->m.timestamp;
+            rd_ctx->last_ts = ts - rd_ctx->spf / rd_ctx->timebase;
+            rd_ctx->current_ts = ts;
         }
     }
 out:
     dp_rd_ctx_end_seek(rd_ctx);
     SDL_UnlockMutex(rd_ctx->lock);
-    if (res)
+    if (res < 0)
         fprintf(stderr, "Error seeking, aborting\n");
     return res;
 }
@@ -626,7 +634,8 @@ static int decoder_thread_main(void *cookie)
     }
 
     rd_ctx->timebase = (double)timebase[1] / timebase[0];
-    rd_ctx->spf = (double)fps[1] / fps[0];
+    // The frame rate is only known if the file header has a duration
+    rd_ctx->spf = fps[0] ? (double)fps[1] / fps[0] : 1.0 / 25;
     rd_ctx->total = total;
 
     if ((res = dav1d_open(&c, &rd_ctx->lib_settings))) {
-- 
2.43.0


From fa4e9390e6a4d0f60c6238f338dd6ed9fa0b3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 31/36] fix: end dav1dplay if the decoder thread cannot be
 created

---
 examples/dav1dplay.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index 9e86817..dd9eba0 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -724,6 +724,12 @@ int main(int argc, char **argv)
 
     // Start decoder thread
     decoder_thread = SDL_CreateThread(decoder_thread_main, "Decoder thread", rd_ctx);
+    if (decoder_thread == NULL) {
+        fprintf(stderr, "SDL_CreateThread failed: %s\n", SDL_GetError());
+        dp_rd_ctx_destroy(rd_ctx);
+        SDL_Quit();
+        return 1;
+    }
 
     // Main loop
 #define NUM_MAX_EVENTS 8
-- 
2.43.0


From 097541f988f4998151d6a7dee241314449fe4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 32/36] Revert "fix: end dav1dplay if the decoder thread cannot
 be created"

This reverts commit fa4e9390e6a4d0f60c6238f338dd6ed9fa0b3dd3.
---
 examples/dav1dplay.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index dd9eba0..9e86817 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -724,12 +724,6 @@ int main(int argc, char **argv)
 
     // Start decoder thread
     decoder_thread = SDL_CreateThread(decoder_thread_main, "Decoder thread", rd_ctx);
-    if (decoder_thread == NULL) {
-        fprintf(stderr, "SDL_CreateThread failed: %s\n", SDL_GetError());
-        dp_rd_ctx_destroy(rd_ctx);
-        SDL_Quit();
-        return 1;
-    }
 
     // Main loop
 #define NUM_MAX_EVENTS 8
-- 
2.43.0


From a432415a9ec604031d9b1a12f97f008ac5d5379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 33/36] Revert "fix: seeking in dav1dplay: leaked data, endless
 search, end of file"

This reverts commit cff31dd1c0cc4e5dcb0f5bb520b0c018f3ab53ee.
---
 examples/dav1dplay.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index 9e86817..5ed1057 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -431,8 +431,6 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
         pts = FRAME_OFFSET_TO_PTS(rd_ctx->total - 1);
     uint64_t target_pts = pts;
     dav1d_flush(c);
-    // Frames decoded before the seek request was noticed
-    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
     uint64_t shift = FRAME_OFFSET_TO_PTS(5);
     while (1) {
         if (shift > pts)
@@ -442,31 +440,25 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
         Dav1dSequenceHeader seq;
         uint64_t cur_pts;
         do {
-            dav1d_data_unref(data);
             if ((res = input_read(in_ctx, data)))
                 break;
             cur_pts = TS_TO_PTS(data->m.timestamp);
             res = dav1d_parse_sequence_header(&seq, data->data, data->sz);
         } while (res && cur_pts < pts);
-        // When searching from the start, there is nothing earlier to find
-        if (!res && (cur_pts <= pts || shift == pts))
+        if (!res && cur_pts <= pts)
             break;
-        if (shift == pts || shift == 0) {
-            res = -1;
-            goto out;
-        }
+        if (shift > pts)
+            shift = pts;
         pts -= shift;
     }
     if (!res) {
-        int64_t ts = data->m.timestamp;
-        pts = TS_TO_PTS(ts);
+        pts = TS_TO_PTS(data->m.timestamp);
         while (pts < target_pts) {
             Dav1dPicture *p;
             if ((res = decode_frame(&p, c, data, in_ctx)))
                 break;
             if (p) {
-                ts = p->m.timestamp;
-                pts = TS_TO_PTS(ts);
+                pts = TS_TO_PTS(p->m.timestamp);
                 if (pts < target_pts)
                     destroy_pic(p);
                 else
@@ -474,14 +466,14 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
             }
         }
         if (!res) {
-            rd_ctx->last_ts = ts - rd_ctx->spf / rd_ctx->timebase;
-            rd_ctx->current_ts = ts;
+            rd_ctx->last_ts = data->m.timestamp - rd_ctx->spf / rd_ctx->timebase;
+            rd_ctx->current_ts = data->m.timestamp;
         }
     }
 out:
     dp_rd_ctx_end_seek(rd_ctx);
     SDL_UnlockMutex(rd_ctx->lock);
-    if (res < 0)
+    if (res)
         fprintf(stderr, "Error seeking, aborting\n");
     return res;
 }
@@ -634,8 +626,7 @@ static int decoder_thread_main(void *cookie)
     }
 
     rd_ctx->timebase = (double)timebase[1] / timebase[0];
-    // The frame rate is only known if the file header has a duration
-    rd_ctx->spf = fps[0] ? (double)fps[1] / fps[0] : 1.0 / 25;
+    rd_ctx->spf = (double)fps[1] / fps[0];
     rd_ctx->total = total;
 
     if ((res = dav1d_open(&c, &rd_ctx->lib_settings))) {
-- 
2.43.0


From adc439a56ff3486266af312bb3d435d0b9cd5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 34/36] Revert "fix: keep the frames and events of dav1dplay in
 step"

This reverts commit 2ab409fcdddfde968a1c455ce95b275cda8b3f17.
---
 examples/dav1dplay.c | 102 ++++++++++++++-----------------------------
 examples/dp_fifo.c   |  33 ++++++++------
 examples/dp_fifo.h   |  12 +----
 3 files changed, 55 insertions(+), 92 deletions(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index 5ed1057..683a657 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -303,8 +303,6 @@ fail:
     return NULL;
 }
 
-static inline void destroy_pic(void *a);
-
 /**
  * Notify about new event
  */
@@ -316,18 +314,6 @@ static void dp_rd_ctx_post_event(Dav1dPlayRenderContext *rd_ctx, uint32_t type)
     SDL_PushEvent(&event);
 }
 
-/**
- * Pass a picture on to the main thread
- */
-static void dp_rd_ctx_queue_picture(Dav1dPlayRenderContext *rd_ctx,
-                                    Dav1dPicture *p, uint32_t type)
-{
-    if (dp_fifo_push(rd_ctx->fifo, p))
-        destroy_pic(p);
-    else
-        dp_rd_ctx_post_event(rd_ctx, rd_ctx->event_types + type);
-}
-
 /**
  * Update the decoder context with a new dav1d picture
  *
@@ -386,31 +372,12 @@ static void dp_rd_ctx_seek(Dav1dPlayRenderContext *rd_ctx, int sec)
     if (!rd_ctx->paused)
         rd_ctx->pause_start = SDL_GetTicks();
     rd_ctx->paused = 1;
-    // The events go first, there must not be frames without an event
-    SDL_FlushEvent(rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME);
-    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
-    SDL_UnlockMutex(rd_ctx->lock);
-}
-
-/**
- * Go on with playing after seeking
- */
-static void dp_rd_ctx_end_seek(Dav1dPlayRenderContext *rd_ctx)
-{
-    SDL_LockMutex(rd_ctx->lock);
-    rd_ctx->paused = rd_ctx->user_paused;
-    if (!rd_ctx->paused && rd_ctx->seek) {
-        uint32_t now = SDL_GetTicks();
-        rd_ctx->pause_time += now - rd_ctx->pause_start;
-        rd_ctx->pause_start = 0;
-        rd_ctx->last_ticks = now;
-    }
-    rd_ctx->seek = 0;
     SDL_UnlockMutex(rd_ctx->lock);
 }
 
 static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
                         Dav1dData *data, DemuxerContext *in_ctx);
+static inline void destroy_pic(void *a);
 
 /**
  * Seek the stream, if requested
@@ -461,8 +428,11 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
                 pts = TS_TO_PTS(p->m.timestamp);
                 if (pts < target_pts)
                     destroy_pic(p);
-                else
-                    dp_rd_ctx_queue_picture(rd_ctx, p, DAV1D_EVENT_SEEK_FRAME);
+                else {
+                    dp_fifo_push(rd_ctx->fifo, p);
+                    uint32_t type = rd_ctx->event_types + DAV1D_EVENT_SEEK_FRAME;
+                    dp_rd_ctx_post_event(rd_ctx, type);
+                }
             }
         }
         if (!res) {
@@ -471,7 +441,14 @@ static int dp_rd_ctx_handle_seek(Dav1dPlayRenderContext *rd_ctx,
         }
     }
 out:
-    dp_rd_ctx_end_seek(rd_ctx);
+    rd_ctx->paused = rd_ctx->user_paused;
+    if (!rd_ctx->paused && rd_ctx->seek) {
+        uint32_t now = SDL_GetTicks();
+        rd_ctx->pause_time += now - rd_ctx->pause_start;
+        rd_ctx->pause_start = 0;
+        rd_ctx->last_ticks = now;
+    }
+    rd_ctx->seek = 0;
     SDL_UnlockMutex(rd_ctx->lock);
     if (res)
         fprintf(stderr, "Error seeking, aborting\n");
@@ -652,10 +629,11 @@ static int decoder_thread_main(void *cookie)
             SDL_LockMutex(rd_ctx->lock);
             int seek = rd_ctx->seek;
             SDL_UnlockMutex(rd_ctx->lock);
-            if (!seek)
-                dp_rd_ctx_queue_picture(rd_ctx, p, DAV1D_EVENT_NEW_FRAME);
-            else
-                destroy_pic(p);
+            if (!seek) {
+                dp_fifo_push(rd_ctx->fifo, p);
+                uint32_t type = rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME;
+                dp_rd_ctx_post_event(rd_ctx, type);
+            }
         }
     }
 
@@ -719,15 +697,13 @@ int main(int argc, char **argv)
     // Main loop
 #define NUM_MAX_EVENTS 8
     SDL_Event events[NUM_MAX_EVENTS];
-    int num_frame_events = 0, dec_done = 0;
+    int num_frame_events = 0;
     uint32_t start_time = 0, n_out = 0;
     while (1) {
         int num_events = 0;
-        // Do not wait if there are frames to show already
-        if (!num_frame_events || dp_rd_ctx_is_paused(rd_ctx))
-            SDL_WaitEvent(NULL);
-        while (num_events < NUM_MAX_EVENTS && SDL_PollEvent(&events[num_events]))
-            num_events++;
+        SDL_WaitEvent(NULL);
+        while (num_events < NUM_MAX_EVENTS && SDL_PollEvent(&events[num_events++]))
+            break;
         for (int i = 0; i < num_events; ++i) {
             SDL_Event *e = &events[i];
             if (e->type == SDL_QUIT) {
@@ -751,12 +727,12 @@ int main(int argc, char **argv)
                 } else if (kbde->keysym.sym == SDLK_LEFT ||
                            kbde->keysym.sym == SDLK_RIGHT)
                 {
-                    if (dec_done)
-                        continue;
                     if (kbde->keysym.sym == SDLK_LEFT)
                         dp_rd_ctx_seek(rd_ctx, -5);
                     else if (kbde->keysym.sym == SDLK_RIGHT)
                         dp_rd_ctx_seek(rd_ctx, +5);
+                    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
+                    SDL_FlushEvent(rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME);
                     num_frame_events = 0;
                 }
             } else if (e->type == rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME) {
@@ -767,9 +743,6 @@ int main(int argc, char **argv)
             } else if (e->type == rd_ctx->event_types + DAV1D_EVENT_SEEK_FRAME) {
                 // Dequeue frame and update the render context with it
                 Dav1dPicture *p = dp_fifo_shift(rd_ctx->fifo);
-                // The frame is gone if there was another seek
-                if (!p)
-                    continue;
                 // Do not update textures during termination
                 if (!dp_rd_ctx_should_terminate(rd_ctx)) {
                     dp_rd_ctx_update_with_dav1d_picture(rd_ctx, p);
@@ -777,28 +750,21 @@ int main(int argc, char **argv)
                 }
                 destroy_pic(p);
             } else if (e->type == rd_ctx->event_types + DAV1D_EVENT_DEC_QUIT) {
-                // Show the remaining frames, but nobody can seek any more
-                dec_done = 1;
-                dp_rd_ctx_end_seek(rd_ctx);
+                goto out;
             }
         }
         if (num_frame_events && !dp_rd_ctx_is_paused(rd_ctx)) {
             // Dequeue frame and update the render context with it
             Dav1dPicture *p = dp_fifo_shift(rd_ctx->fifo);
-            num_frame_events--;
-            // The frame is gone if there was a seek
-            if (p) {
-                // Do not update textures during termination
-                if (!dp_rd_ctx_should_terminate(rd_ctx)) {
-                    dp_rd_ctx_update_with_dav1d_picture(rd_ctx, p);
-                    dp_rd_ctx_render(rd_ctx);
-                    n_out++;
-                }
-                destroy_pic(p);
+            // Do not update textures during termination
+            if (!dp_rd_ctx_should_terminate(rd_ctx)) {
+                dp_rd_ctx_update_with_dav1d_picture(rd_ctx, p);
+                dp_rd_ctx_render(rd_ctx);
+                n_out++;
             }
+            destroy_pic(p);
+            num_frame_events--;
         }
-        if (dec_done && !num_frame_events)
-            goto out;
     }
 
 out:;
@@ -809,8 +775,6 @@ out:;
 
     int decoder_ret = 0;
     SDL_WaitThread(decoder_thread, &decoder_ret);
-    // Frames queued after the user quit
-    dp_fifo_flush(rd_ctx->fifo, destroy_pic);
     dp_rd_ctx_destroy(rd_ctx);
     SDL_Quit();
     return decoder_ret;
diff --git a/examples/dp_fifo.c b/examples/dp_fifo.c
index dcc4c8a..0de00fc 100644
--- a/examples/dp_fifo.c
+++ b/examples/dp_fifo.c
@@ -37,7 +37,8 @@ struct dp_fifo
     size_t capacity;
     size_t count;
     void **entries;
-    unsigned flushes;
+    int push_wait;
+    int flush;
 };
 
 
@@ -55,7 +56,8 @@ Dav1dPlayPtrFifo *dp_fifo_create(size_t capacity)
 
     fifo->capacity = capacity;
     fifo->count = 0;
-    fifo->flushes = 0;
+    fifo->push_wait = 0;
+    fifo->flush = 0;
 
     fifo->lock = SDL_CreateMutex();
     if (fifo->lock == NULL) {
@@ -89,20 +91,23 @@ void dp_fifo_destroy(Dav1dPlayPtrFifo *fifo)
 }
 
 // Push to FIFO
-int dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element)
+void dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element)
 {
     SDL_LockMutex(fifo->lock);
-    const unsigned flushes = fifo->flushes;
     while (fifo->count == fifo->capacity) {
+        fifo->push_wait = 1;
         SDL_CondWait(fifo->cond_change, fifo->lock);
-        if (fifo->flushes != flushes) {
+        fifo->push_wait = 0;
+        if (fifo->flush) {
+            SDL_CondSignal(fifo->cond_change);
             SDL_UnlockMutex(fifo->lock);
-            return -1;
+            return;
         }
     }
     fifo->entries[fifo->count++] = element;
+    if (fifo->count == 1)
+        SDL_CondSignal(fifo->cond_change);
     SDL_UnlockMutex(fifo->lock);
-    return 0;
 }
 
 // Helper that shifts the FIFO array
@@ -118,10 +123,8 @@ static void *dp_fifo_array_shift(void **arr, size_t len)
 void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo)
 {
     SDL_LockMutex(fifo->lock);
-    if (fifo->count == 0) {
-        SDL_UnlockMutex(fifo->lock);
-        return NULL;
-    }
+    while (fifo->count == 0)
+        SDL_CondWait(fifo->cond_change, fifo->lock);
     void *res = dp_fifo_array_shift(fifo->entries, fifo->count--);
     if (fifo->count == fifo->capacity - 1)
         SDL_CondSignal(fifo->cond_change);
@@ -132,9 +135,13 @@ void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo)
 void dp_fifo_flush(Dav1dPlayPtrFifo *fifo, void (*destroy_elem)(void *))
 {
     SDL_LockMutex(fifo->lock);
-    fifo->flushes++;
+    fifo->flush = 1;
+    if (fifo->push_wait) {
+        SDL_CondSignal(fifo->cond_change);
+        SDL_CondWait(fifo->cond_change, fifo->lock);
+    }
     while (fifo->count)
         destroy_elem(fifo->entries[--fifo->count]);
-    SDL_CondSignal(fifo->cond_change);
+    fifo->flush = 0;
     SDL_UnlockMutex(fifo->lock);
 }
diff --git a/examples/dp_fifo.h b/examples/dp_fifo.h
index 6855dd8..03d8e47 100644
--- a/examples/dp_fifo.h
+++ b/examples/dp_fifo.h
@@ -47,8 +47,7 @@ void dp_fifo_destroy(Dav1dPlayPtrFifo *fifo);
 /* Shift FIFO
  *
  * Return the first item from the FIFO, thereby removing it from
- * the FIFO and making room for new entries, or NULL if the FIFO
- * is empty.
+ * the FIFO and making room for new entries.
  */
 void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo);
 
@@ -58,14 +57,7 @@ void *dp_fifo_shift(Dav1dPlayPtrFifo *fifo);
  * If the FIFO is full, this call will block until there is again enough
  * space in the FIFO, so calling this from the "consumer" thread if no
  * other thread will call dp_fifo_shift will lead to a deadlock.
- *
- * Returns 0 on success. If the FIFO is flushed while waiting, the item is
- * not added, remains owned by the caller, and a negative value is returned.
  */
-int dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element);
+void dp_fifo_push(Dav1dPlayPtrFifo *fifo, void *element);
 
-/* Flush FIFO
- *
- * Remove and destroy all items, and end the wait of a pending push.
- */
 void dp_fifo_flush(Dav1dPlayPtrFifo *fifo, void (*destroy_elem)(void *));
-- 
2.43.0


From dba7751231e6f563da71f996777fe541c97f2263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 35/36] Revert "fix: show the last frames of a stream in
 dav1dplay"

This reverts commit 9d0ed2aba0069be49059a1479d47f48a17a090fb.
---
 examples/dav1dplay.c | 63 ++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index 683a657..ca9336b 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -515,20 +515,12 @@ static void dp_rd_ctx_render(Dav1dPlayRenderContext *rd_ctx)
     SDL_UnlockMutex(rd_ctx->lock);
 }
 
-/**
- * Decode the next frame, if any
- *
- * \return 1 at the end of the stream, when all frames were returned,
- *         a negative value on error and 0 otherwise.
- */
 static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
                         Dav1dData *data, DemuxerContext *in_ctx)
 {
     int res;
-    const int at_end = data->sz == 0;
-    *p = NULL;
     // Send data packets we got from the demuxer to dav1d
-    if (!at_end && (res = dav1d_send_data(c, data)) < 0) {
+    if ((res = dav1d_send_data(c, data)) < 0) {
         // On EAGAIN, dav1d can not consume more data and
         // dav1d_get_picture needs to be called first, which
         // will happen below, so just keep going in that case
@@ -538,10 +530,7 @@ static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
             goto err;
         }
     }
-    if (!(*p = calloc(1, sizeof(**p)))) {
-        res = DAV1D_ERR(ENOMEM);
-        goto err;
-    }
+    *p = calloc(1, sizeof(**p));
     // Try to get a decoded frame
     if ((res = dav1d_get_picture(c, *p)) < 0) {
         // In all error cases, even EAGAIN, p needs to be freed as
@@ -554,19 +543,8 @@ static int decode_frame(Dav1dPicture **p, Dav1dContext *c,
         // run of the decoder loop.
         if (res != DAV1D_ERR(EAGAIN))
             goto err;
-        // When there is no more data to feed to the decoder, it is only
-        // done once it returned all the frames decoded from earlier data.
-        if (at_end)
-            return 1;
     }
-    if (data->sz > 0)
-        return 0;
-    // the end of the file is not an error, there can be more frames
-    if ((res = input_read(in_ctx, data)) >= -1)
-        return 0;
-    if (*p)
-        destroy_pic(*p);
-    *p = NULL;
+    return data->sz == 0 ? input_read(in_ctx, data) : 0;
 err:
     fprintf(stderr, "Error decoding frame: %s\n",
             strerror(-res));
@@ -599,6 +577,7 @@ static int decoder_thread_main(void *cookie)
                           fps, &total, timebase)) < 0)
     {
         fprintf(stderr, "Failed to open demuxer\n");
+        res = 1;
         goto cleanup;
     }
 
@@ -608,11 +587,13 @@ static int decoder_thread_main(void *cookie)
 
     if ((res = dav1d_open(&c, &rd_ctx->lib_settings))) {
         fprintf(stderr, "Failed opening dav1d decoder\n");
+        res = 1;
         goto cleanup;
     }
 
     if ((res = input_read(in_ctx, &data)) < 0) {
         fprintf(stderr, "Failed demuxing input\n");
+        res = 1;
         goto cleanup;
     }
 
@@ -640,6 +621,36 @@ static int decoder_thread_main(void *cookie)
     // Release remaining data
     if (data.sz > 0)
         dav1d_data_unref(&data);
+    // Do not drain in case an error occured and caused us to leave the
+    // decoding loop early.
+    if (res < 0)
+        goto cleanup;
+
+    // Drain decoder
+    // When there is no more data to feed to the decoder, for example
+    // because the file ended, we still need to request pictures, as
+    // even though we do not have more data, there can be frames decoded
+    // from data we sent before. So we need to call dav1d_get_picture until
+    // we get an EAGAIN error.
+    do {
+        if (dp_rd_ctx_should_terminate(rd_ctx))
+            break;
+        p = calloc(1, sizeof(*p));
+        res = dav1d_get_picture(c, p);
+        if (res < 0) {
+            free(p);
+            if (res != DAV1D_ERR(EAGAIN)) {
+                fprintf(stderr, "Error decoding frame: %s\n",
+                        strerror(-res));
+                break;
+            }
+        } else {
+            // Queue frame
+            dp_fifo_push(rd_ctx->fifo, p);
+            uint32_t type = rd_ctx->event_types + DAV1D_EVENT_NEW_FRAME;
+            dp_rd_ctx_post_event(rd_ctx, type);
+        }
+    } while (res != DAV1D_ERR(EAGAIN));
 
 cleanup:
     dp_rd_ctx_post_event(rd_ctx, rd_ctx->event_types + DAV1D_EVENT_DEC_QUIT);
@@ -649,7 +660,7 @@ cleanup:
     if (c)
         dav1d_close(&c);
 
-    return res < 0;
+    return (res != DAV1D_ERR(EAGAIN) && res < 0);
 }
 
 int main(int argc, char **argv)
-- 
2.43.0


From 9d120c10437f01fc189c72895b77bf41c679e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 36/36] Revert "fix: let the --renderer option of dav1dplay
 take its argument"

This reverts commit 74eae64ca89bccff7453bbced26a838c0349dd01.
---
 examples/dav1dplay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/dav1dplay.c b/examples/dav1dplay.c
index ca9336b..1f64944 100644
--- a/examples/dav1dplay.c
+++ b/examples/dav1dplay.c
@@ -164,7 +164,7 @@ static void dp_rd_ctx_parse_args(Dav1dPlayRenderContext *rd_ctx,
         { "zerocopy",       0, NULL, 'z' },
         { "gpugrain",       0, NULL, 'g' },
         { "fullscreen",     0, NULL, 'f'},
-        { "renderer",       1, NULL, 'r'},
+        { "renderer",       0, NULL, 'r'},
         { NULL,             0, NULL, 0 },
     };
 
-- 
2.43.0

