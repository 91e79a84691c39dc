#include "host.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <cstdarg>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
extern "C" uint64_t sim_touch(const uint8_t *p, ptrdiff_t stride, int bytes_w, int h);

using sim::mix; using sim::Rng; using sim::fail;
namespace host {

World *W = nullptr;
std::string api_log;
void logf(const char *fmt, ...) {
    if (api_log.size() > 24000) return;
    char b[256];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    char pre[32];
    snprintf(pre, sizeof pre, "@%llu f%d ", (unsigned long long)sim::now(), sim::current());
    api_log += pre; api_log += b; api_log += '\n';
}
static int lib_depth[1024];
struct LibCall { // the harness enters the library
    int f;
    LibCall() { f = sim::current() & 1023; lib_depth[f]++; sim::point(sim::K_API); sim_enter(); }
    ~LibCall() { sim_leave(); lib_depth[f]--; sim::point(sim::K_API); }
    static void sim_enter() { tsan_ign_off(); }
    static void sim_leave() { tsan_ign_on(); }
};
void reset_depth() { memset(lib_depth, 0, sizeof lib_depth); }

static uint64_t hash_bytes(const uint8_t *p, size_t n) {
    uint64_t h = 0x9E3779B97F4A7C15ull ^ n;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, p + i, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
    for (; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
    return mix(h, n);
}
uint64_t d_cll(int a, int b) { return mix(a, b + 1) | 1; }
uint64_t d_mdcv(const uint16_t prim[3][2], const uint16_t wp[2], uint32_t maxl, uint32_t minl) {
    uint64_t h = 7;
    for (int i = 0; i < 3; i++) h = mix(h, (uint64_t)prim[i][0] << 16 | prim[i][1]);
    h = mix(h, (uint64_t)wp[0] << 16 | wp[1]);
    return mix(h, (uint64_t)maxl << 32 | minl) | 1;
}
uint64_t d_t35(int cc, int ext, const uint8_t *p, size_t n) { return mix(mix(cc, ext), hash_bytes(p, n)) | 1; }

// ------------------------------------------------------------ tracked memory
static const uint8_t BUF_DEAD = 0xDB, PG = 0xC7, PIC_DEAD = 0xCD;

static Buf *new_buf(const uint8_t *src, size_t n, int chunk, bool user) {
    Buf b;
    b.id = W->bufs.size();
    b.p = (uint8_t *)malloc(n ? n : 1);
    b.sz = n; b.chunk = chunk; b.user = user;
    memcpy(b.p, src, n);
    b.hash = hash_bytes(b.p, n);
    W->bufs.push_back(b);
    return &W->bufs.back();
}
static void buf_free_cb(const uint8_t *data, void *cookie) {
    HarnessScope hs;
    Buf *b = (Buf *)cookie;
    sim::point(sim::K_CB);
    if (data != b->p) fail("buffer-bad-free", "free callback called with a pointer different from the one handed over (chunk %d)", b->chunk);
    if (b->freed++) fail("buffer-double-free", "%s of chunk %d released twice", b->user ? "user data" : "input buffer", b->chunk);
    if (hash_bytes(b->p, b->sz) != b->hash) fail("buffer-modified", "input buffer of chunk %d was modified while owned by the library", b->chunk);
    memset(b->p, BUF_DEAD, b->sz);
    POISON(b->p, b->sz);
    sim_tsan_release(b);
}
static bool all_is(const uint8_t *p, size_t n, uint8_t v) { return !n || (p[0] == v && !memcmp(p, p + 1, n - 1)); }

static int g_ss_w(int layout) { return layout != DAV1D_PIXEL_LAYOUT_I444; }
static int g_ss_h(int layout) { return layout == DAV1D_PIXEL_LAYOUT_I420 || layout == DAV1D_PIXEL_LAYOUT_I400; }
static const size_t PGUARD = 256;

static int pic_alloc_cb(Dav1dPicture *p, void *cookie) {
    HarnessScope hs;
    Session *S = (Session *)cookie;
    sim::point(sim::K_CB);
    W->pics_alloc++;
    if (W->chk & CK_FIBRE) {
        if (sim::current_is_library()) fail("alloc-on-worker", "picture allocator called on a worker thread");
        if (sim::current() != S->fibre || !lib_depth[sim::current() & 1023])
            fail("alloc-outside-call", "picture allocator called outside of a library call of the decoding thread");
    }
    if (p->p.w <= 0 || p->p.h <= 0 || (p->p.bpc != 8 && p->p.bpc != 10 && p->p.bpc != 12) || p->p.layout > DAV1D_PIXEL_LAYOUT_I444)
        fail("alloc-params", "picture allocator called with %dx%d bpc %d", p->p.w, p->p.h, p->p.bpc);
    if (p->data[0]) fail("alloc-params", "picture allocator called for a picture that has data");
    W->largest_pic = std::max<uint64_t>(W->largest_pic, (uint64_t)p->p.w * p->p.h);
    if ((uint64_t)p->p.w * p->p.h > 1u << 26) return DAV1D_ERR(ENOMEM); // beyond the simulated machine
    if (sim::fault(sim::F_PIC)) return DAV1D_ERR(ENOMEM);
    const AllocCfg &A = S->s.alloc;
    int hbd = p->p.bpc > 8, al_w = (p->p.w + 127) & ~127, al_h = (p->p.h + 127) & ~127;
    bool chroma = p->p.layout != DAV1D_PIXEL_LAYOUT_I400;
    int ssx = g_ss_w(p->p.layout), ssy = g_ss_h(p->p.layout);
    ptrdiff_t ys = ((ptrdiff_t)al_w << hbd) + 64 * A.pad, us = chroma ? ((ptrdiff_t)(al_w >> ssx) << hbd) + 64 * ((A.pad + 1) / 2) : 0;
    size_t sz[3] = {(size_t)ys * al_h, chroma ? (size_t)us * (al_h >> ssy) : 0, 0};
    sz[2] = sz[1];
    PBuf *b = nullptr;
    if (A.mode == 2)
        for (auto &x : W->pbufs)
            if (!x->live && !x->dead && x->base && x->stride[0] == ys && x->stride[1] == us && x->psz[0] == sz[0] && x->psz[1] == sz[1] && x->neg == A.neg) { b = x.get(); break; }
    if (!b) {
        W->pbufs.push_back(std::make_unique<PBuf>());
        b = W->pbufs.back().get();
        b->id = W->pbufs.size();
        b->neg = A.neg;
        b->total = 0;
        for (int i = 0; i < 3; i++) b->total += sz[i] + 64 + 2 * PGUARD;
        b->base = (uint8_t *)aligned_alloc(64, (b->total + 63) & ~63ull);
        memset(b->base, PG, b->total);
        uint8_t *q = b->base;
        for (int i = 0; i < 3; i++) {
            q += PGUARD;
            b->pl[i] = sz[i] ? q : nullptr;
            b->psz[i] = sz[i];
            q += sz[i] + 64 + PGUARD;
        }
        b->stride[0] = ys; b->stride[1] = us;
        for (int i = 0; i < 3; i++) if (b->pl[i]) {
            POISON(b->pl[i] - PGUARD, PGUARD);
            POISON(b->pl[i] + sz[i] + 64, PGUARD);
        }
    } else sim_tsan_acquire(b);
    for (int i = 0; i < 3; i++) if (b->pl[i]) {
        UNPOISON(b->pl[i], b->psz[i] + 64);
        if (A.mode != 2 || A.fill) {
            if (A.fill == 1) memset(b->pl[i], 0xA5, b->psz[i]);
            else if (A.fill == 2) memset(b->pl[i], 0, b->psz[i]);
            else { Rng r(mix(A.fill, b->id * 3 + i)); uint8_t *q = b->pl[i]; for (size_t k = 0; k + 8 <= b->psz[i]; k += 8) { uint64_t v = r.next(); memcpy(q + k, &v, 8); } }
        }
    }
    b->live = 1;
    b->p = p->p;
    for (int i = 0; i < 3; i++) {
        if (!b->pl[i]) { p->data[i] = b->data[i] = nullptr; continue; }
        uint8_t *d = b->pl[i];
        if (A.neg) d += (size_t)(i ? us : ys) * ((i ? al_h >> ssy : al_h) - 1);
        p->data[i] = b->data[i] = d;
    }
    p->stride[0] = A.neg ? -ys : ys;
    p->stride[1] = A.neg ? -us : us;
    p->allocator_data = b;
    return 0;
}
static void verify_pguards(PBuf *b) {
#ifndef SIM_ASAN
    for (int i = 0; i < 3; i++) if (b->pl[i]) {
        if (!all_is(b->pl[i] - PGUARD, PGUARD, PG)) fail("picture-underflow", "write before plane %d of picture buffer %llu", i, (unsigned long long)b->id);
        if (!all_is(b->pl[i] + b->psz[i] + 64, PGUARD, PG)) fail("picture-overflow", "write after plane %d of picture buffer %llu", i, (unsigned long long)b->id);
    }
#endif
}
static void pic_release_cb(Dav1dPicture *p, void *cookie) {
    HarnessScope hs;
    Session *S = (Session *)cookie;
    sim::point(sim::K_CB);
    W->pics_release++;
    PBuf *b = (PBuf *)p->allocator_data;
    bool known = false;
    for (auto &x : W->pbufs) if (x.get() == b) known = true;
    if (!known) fail("picture-bad-release", "release callback called with unknown allocator data");
    if (!b->live) fail("picture-double-release", "picture buffer %llu released twice", (unsigned long long)b->id);
    if ((W->chk & CK_FIBRE) && S->n_fc == 1 && sim::current_is_library())
        fail("release-on-worker", "picture released on a worker thread although frame threading is not used");
    for (int i = 0; i < 3; i++) if (p->data[i] != b->data[i]) fail("picture-bad-release", "release callback called with changed plane pointers");
    if (p->p.w != b->p.w || p->p.h != b->p.h || p->p.layout != b->p.layout || p->p.bpc != b->p.bpc) fail("picture-bad-release", "release callback called with changed picture parameters");
    verify_pguards(b);
    b->live = 0;
    if (S->s.alloc.mode != 2)
        for (int i = 0; i < 3; i++) if (b->pl[i]) { b->dead = true; memset(b->pl[i], PIC_DEAD, b->psz[i]); POISON(b->pl[i], b->psz[i] + 64); }
    sim_tsan_release(b);
}
int World::buf_live() const { int n = 0; for (auto &b : bufs) n += b.given && !b.freed; return n; }
int World::pic_live() const { int n = 0; for (auto &b : pbufs) n += b->live; return n; }
void World::verify_integrity() {
    for (auto &b : bufs) if (b.given) {
#ifndef SIM_ASAN
        if (b.freed && !all_is(b.p, b.sz, BUF_DEAD)) fail("buffer-written-after-release", "input buffer of chunk %d written after its release", b.chunk);
#endif
        if (!b.freed && hash_bytes(b.p, b.sz) != b.hash) fail("buffer-modified", "input buffer of chunk %d was modified", b.chunk);
    }
    for (auto &b : pbufs) {
        verify_pguards(b.get());
#ifndef SIM_ASAN
        if (!b->live && b->dead) for (int i = 0; i < 3; i++) if (b->pl[i] && !all_is(b->pl[i], b->psz[i], PIC_DEAD))
            fail("picture-written-after-release", "picture buffer %llu written after its release", (unsigned long long)b->id);
#endif
    }
}
void World::verify_released() {
    if (chk & CK_BUF) for (auto &b : bufs)
        if (b.given && !b.freed) fail("buffer-leak", "%s of chunk %d never released", b.user ? "user data" : "input buffer", b.chunk);
    if (chk & CK_PIC) for (auto &b : pbufs)
        if (b->live) fail("picture-leak", "picture buffer %llu never released", (unsigned long long)b->id);
    if (chk & CK_LEDGER) {
        sim::Ledger l = sim::ledger();
        if (l.live_blocks) fail("memory-leak", "%llu heap blocks (%llu bytes) never freed:%s", (unsigned long long)l.live_blocks, (unsigned long long)l.live_bytes, sim::ledger_describe().c_str());
        if (l.live_mutexes || l.live_conds) fail("sync-leak", "%llu mutexes and %llu conditions never destroyed", (unsigned long long)l.live_mutexes, (unsigned long long)l.live_conds);
        if (l.live_threads) fail("thread-leak", "%llu threads never joined", (unsigned long long)l.live_threads);
        if (l.live_attrs) fail("sync-leak", "%llu thread attributes never destroyed", (unsigned long long)l.live_attrs);
    }
}
World::~World() {
    for (auto &b : bufs) { UNPOISON(b.p, b.sz); free(b.p); }
    for (auto &b : pbufs) { UNPOISON(b->base, b->total); free(b->base); }
    if (W == this) W = nullptr;
}

// ------------------------------------------------------------ session
static FILE *show_log = getenv("SIM_LOG") ? fopen(getenv("SIM_LOG"), "a") : nullptr; // for debugging
static void log_cb(void *, const char *f, va_list a) { if (show_log) { vfprintf(show_log, f, a); fflush(show_log); } }

int Session::open(const Settings &s_) {
    s = s_;
    fibre = sim::current();
    Dav1dSettings d;
    { LibCall l; dav1d_default_settings(&d); }
    d.n_threads = s.threads; d.max_frame_delay = s.delay; d.apply_grain = s.grain; d.operating_point = s.op;
    d.all_layers = s.all_layers; d.frame_size_limit = s.limit; d.strict_std_compliance = s.strict;
    d.output_invisible_frames = s.invisible; d.inloop_filters = (enum Dav1dInloopFilterType)s.inloop;
    d.decode_frame_type = (enum Dav1dDecodeFrameType)s.dft;
    if (s.alloc.mode) {
        d.allocator.cookie = this;
        d.allocator.alloc_picture_callback = pic_alloc_cb;
        d.allocator.release_picture_callback = pic_release_cb;
    }
    d.logger.cookie = nullptr;
    d.logger.callback = s.logger || show_log ? log_cb : nullptr;
    c = nullptr;
    { LibCall l; n_fc = dav1d_get_frame_delay(&d); }
    int rc;
    { LibCall l; rc = dav1d_open(&c, &d); }
    calls++;
    logf("open threads=%d delay=%d (n_fc %d) grain=%d op=%d all_layers=%d invisible=%d inloop=%d dft=%d limit=%u alloc=%d -> %d", s.threads, s.delay, n_fc, s.grain, s.op, s.all_layers, s.invisible, s.inloop, s.dft, s.limit, s.alloc.mode, rc);
    if (rc > 0) fail("api-rc", "dav1d_open returned the positive value %d", rc);
    if (rc < 0 && c) fail("api-open", "dav1d_open failed with %d but left a context", rc);
    if (!rc && !c) fail("api-open", "dav1d_open succeeded without a context");
    if (!rc && n_fc < 1) fail("api-delay", "reported frame delay %d for settings that were accepted", n_fc);
    return rc;
}
int Session::wrap(const Chunk &ch, Dav1dData *d) {
    memset(d, 0, sizeof *d);
    int rc = 0;
    if (ch.wrap) {
        Buf *b = new_buf(ch.b.data(), ch.b.size(), ch.id, false);
        { LibCall l; rc = dav1d_data_wrap(d, b->p, b->sz, buf_free_cb, b); }
        if (!rc) b->given = true;
        else if (d->data || d->ref) fail("api-handle", "dav1d_data_wrap failed but filled the handle");
    } else {
        uint8_t *p;
        { LibCall l; p = dav1d_data_create(d, ch.b.size()); }
        if (!p) { rc = DAV1D_ERR(ENOMEM); if (d->data || d->ref) fail("api-handle", "dav1d_data_create failed but filled the handle"); }
        else memcpy(p, ch.b.data(), ch.b.size());
    }
    calls++;
    if (rc) return rc;
    d->m.timestamp = ch.ts; d->m.duration = ch.dur; d->m.offset = ch.off;
    if (ch.ud) {
        int32_t v = ch.id;
        Buf *b = new_buf((uint8_t *)&v, sizeof v, ch.id, true);
        { LibCall l; rc = dav1d_data_wrap_user_data(d, b->p, buf_free_cb, b); }
        if (!rc) b->given = true;
        else { unref_data(d); return rc; }
    }
    return 0;
}
int Session::send(Dav1dData *d) {
    Dav1dData before = *d;
    int rc;
    calls++;
    { LibCall l; rc = dav1d_send_data(c, d); }
    logf("send ts=%lld sz=%zu -> %d", (long long)before.m.timestamp, before.sz, rc);
    if (W->chk & CK_API) {
        if (rc > 0) fail("api-rc", "dav1d_send_data returned the positive value %d", rc);
        if (rc == 0 && (d->data || d->sz || d->ref || d->m.user_data.ref)) fail("api-handle", "dav1d_send_data consumed the data but did not clear the handle");
        if (rc == DAV1D_ERR(EAGAIN) && memcmp(&before, d, sizeof before)) fail("api-handle", "dav1d_send_data returned EAGAIN but changed the caller's handle");
        if (rc < 0 && d->data && (d->data != before.data || d->sz != before.sz || d->ref != before.ref))
            fail("api-handle", "dav1d_send_data failed and left a changed handle");
    }
    return rc;
}
int Session::get(Dav1dPicture *p) {
    memset(p, 0, sizeof *p);
    int rc;
    calls++;
    { LibCall l; rc = dav1d_get_picture(c, p); }
    if (rc) logf("get -> %d", rc); else logf("get -> picture %dx%d ts=%lld", p->p.w, p->p.h, (long long)p->m.timestamp);
    if (W->chk & CK_API) {
        if (rc > 0) fail("api-rc", "dav1d_get_picture returned the positive value %d", rc);
        if (rc == 0 && (!p->data[0] || !p->ref || !p->frame_hdr || !p->seq_hdr)) fail("api-picture", "dav1d_get_picture succeeded without a complete picture");
        if (rc < 0 && (p->data[0] || p->ref || p->frame_hdr_ref)) fail("api-picture", "dav1d_get_picture returned %d and a picture", rc);
    }
    return rc;
}
int Session::apply_grain(Dav1dPicture *out, const Dav1dPicture *in) {
    memset(out, 0, sizeof *out);
    calls++;
    LibCall l;
    return dav1d_apply_grain(c, out, in);
}
unsigned Session::flags() {
    enum Dav1dEventFlags f = (enum Dav1dEventFlags)0;
    LibCall l;
    int rc = dav1d_get_event_flags(c, &f);
    if (rc) fail("api-rc", "dav1d_get_event_flags returned %d", rc);
    return (unsigned)f;
}
void Session::flush() { calls++; logf("flush"); { LibCall l; dav1d_flush(c); } logf("flush done"); }
void Session::close() {
    calls++;
    logf("close");
    { LibCall l; dav1d_close(&c); }
    logf("close done");
    if (c) fail("api-close", "dav1d_close did not clear the context pointer");
}
void unref_data(Dav1dData *d) {
    { LibCall l; dav1d_data_unref(d); }
    if ((W->chk & CK_API) && (d->data || d->sz || d->ref || d->m.user_data.ref)) fail("api-handle", "dav1d_data_unref did not clear the handle");
}
void unref_pic(Dav1dPicture *p) {
    { LibCall l; dav1d_picture_unref(p); }
    if ((W->chk & CK_API) && (p->data[0] || p->ref || p->seq_hdr_ref)) fail("api-handle", "dav1d_picture_unref did not clear the handle");
}
uint64_t hash_pixels(const Dav1dPicture &p) {
    uint64_t h = 5;
    int hbd = p.p.bpc > 8, np = p.p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3;
    for (int i = 0; i < np; i++) {
        int w = p.p.w, hh = p.p.h;
        if (i) { int sx = g_ss_w(p.p.layout), sy = g_ss_h(p.p.layout); w = (w + sx) >> sx; hh = (hh + sy) >> sy; }
        const uint8_t *q = (const uint8_t *)p.data[i];
        ptrdiff_t st = p.stride[i > 0];
#ifdef SIM_TSAN
        tsan_ign_off();
        h = mix(h, sim_touch(q, st, w << hbd, hh));
        tsan_ign_on();
#else
        for (int y = 0; y < hh; y++, q += st) h = mix(h, hash_bytes(q, (size_t)w << hbd));
#endif
    }
    return h;
}
#define HX(v) h = mix(h, (uint64_t)(v))
void fill_rec(PicRec &r, const Dav1dPicture &p) {
    r.w = p.p.w; r.h = p.p.h; r.layout = p.p.layout; r.bpc = p.p.bpc;
    r.pix = hash_pixels(p);
    r.ts = p.m.timestamp; r.dur = p.m.duration; r.off = p.m.offset; r.size = p.m.size;
    r.ud = -1;
    if (p.m.user_data.data) {
        bool ok = false;
        for (auto &b : W->bufs) if (b.user && b.p == p.m.user_data.data) {
            if (b.freed) fail("userdata-dead", "a picture carries user data that was already released (chunk %d)", b.chunk);
            ok = true;
            r.ud = b.chunk;
        }
        if (!ok) fail("userdata-unknown", "a picture carries unknown user data");
    }
    const Dav1dFrameHeader *f = p.frame_hdr;
    const Dav1dSequenceHeader *q = p.seq_hdr;
    r.ftype = f->frame_type; r.show = f->show_frame; r.showable = f->showable_frame; r.order = f->frame_offset;
    r.tid = f->temporal_id; r.sid = f->spatial_id; r.fw0 = f->width[0]; r.fw1 = f->width[1]; r.fh = f->height;
    r.rw = f->render_width; r.rh = f->render_height; r.refresh = f->refresh_frame_flags;
    const Dav1dFilmGrainData &g = f->film_grain.data;
    r.grain = g.num_y_points || g.num_uv_points[0] || g.num_uv_points[1] || (g.clip_to_restricted_range && g.chroma_scaling_from_luma);
    uint64_t h = 3;
    HX(r.ftype); HX(r.show); HX(r.showable); HX(r.order); HX(r.tid); HX(r.sid); HX(r.fw0); HX(r.fw1); HX(r.fh); HX(r.rw); HX(r.rh); HX(r.refresh);
    HX(f->error_resilient_mode); HX(f->disable_cdf_update); HX(f->allow_screen_content_tools); HX(f->force_integer_mv); HX(f->frame_id);
    HX(f->primary_ref_frame); HX(f->super_res.width_scale_denominator); HX(f->super_res.enabled); HX(f->allow_intrabc);
    for (int i = 0; i < 7; i++) HX(f->refidx[i]);
    HX(f->hp); HX(f->subpel_filter_mode); HX(f->switchable_motion_mode); HX(f->use_ref_frame_mvs); HX(f->refresh_context);
    HX(f->tiling.cols); HX(f->tiling.rows); HX(f->tiling.update); HX(f->quant.yac); HX(f->quant.ydc_delta); HX(f->quant.qm);
    HX(f->segmentation.enabled); HX(f->segmentation.update_map); HX(f->delta.q.present); HX(f->delta.lf.present); HX(f->all_lossless);
    HX(f->loopfilter.level_y[0]); HX(f->loopfilter.level_y[1]); HX(f->loopfilter.level_u); HX(f->loopfilter.level_v); HX(f->loopfilter.sharpness);
    HX(f->cdef.n_bits); HX(f->cdef.damping); HX(f->restoration.type[0]); HX(f->restoration.type[1]); HX(f->restoration.type[2]);
    HX(f->txfm_mode); HX(f->switchable_comp_refs); HX(f->skip_mode_enabled); HX(f->skip_mode_allowed); HX(f->skip_mode_refs[0]); HX(f->skip_mode_refs[1]); HX(f->warp_motion); HX(f->reduced_txtp_set);
    HX(g.seed); HX(g.num_y_points); HX(g.num_uv_points[0]); HX(g.ar_coeff_lag); HX(g.overlap_flag);
    r.hdr = h;
    h = 9;
    HX(q->profile); HX(q->max_width); HX(q->max_height); HX(q->layout); HX(q->hbd); HX(q->num_operating_points); HX(q->still_picture);
    for (int i = 0; i < q->num_operating_points && i < 32; i++) {
        HX(q->operating_points[i].idc); HX(q->operating_points[i].major_level); HX(q->operating_points[i].minor_level);
        HX(q->operating_parameter_info[i].decoder_buffer_delay); HX(q->operating_parameter_info[i].encoder_buffer_delay);
    }
    HX(q->sb128); HX(q->filter_intra); HX(q->intra_edge_filter); HX(q->inter_intra); HX(q->masked_compound); HX(q->warped_motion);
    HX(q->order_hint); HX(q->order_hint_n_bits); HX(q->super_res); HX(q->cdef); HX(q->restoration); HX(q->film_grain_present);
    HX(q->color_range); HX(q->ss_hor); HX(q->ss_ver); HX(q->monochrome); HX(q->chr);
    r.seq = h;
    r.fhdr = std::make_shared<Dav1dFrameHeader>(*f);
    r.shdr = std::make_shared<Dav1dSequenceHeader>(*q);
    r.cll = p.content_light ? d_cll(p.content_light->max_content_light_level, p.content_light->max_frame_average_light_level) : 0;
    r.mdcv = p.mastering_display ? d_mdcv(p.mastering_display->primaries, p.mastering_display->white_point, p.mastering_display->max_luminance, p.mastering_display->min_luminance) : 0;
    r.t35.clear();
    if (p.n_itut_t35 > 100000) fail("t35-count", "picture claims %zu T.35 payloads", p.n_itut_t35);
    for (size_t i = 0; i < p.n_itut_t35; i++)
        r.t35.push_back(d_t35(p.itut_t35[i].country_code, p.itut_t35[i].country_code_extension_byte, p.itut_t35[i].payload, p.itut_t35[i].payload_size));
}
#define FD(f) do { if ((int64_t)want.f != (int64_t)got.f) return std::string(#f) + " is " + std::to_string((int64_t)got.f) + ", coded as " + std::to_string((int64_t)want.f); } while (0)
std::string diff_seq(const Dav1dSequenceHeader &want, const Dav1dSequenceHeader &got) {
    FD(profile); FD(max_width); FD(max_height); FD(layout); FD(pri); FD(trc); FD(mtrx); FD(chr); FD(hbd); FD(color_range); FD(num_operating_points);
    for (int i = 0; i < want.num_operating_points; i++) {
        FD(operating_points[i].major_level); FD(operating_points[i].minor_level); FD(operating_points[i].initial_display_delay); FD(operating_points[i].idc); FD(operating_points[i].tier);
        FD(operating_points[i].decoder_model_param_present); FD(operating_points[i].display_model_param_present);
        if (!want.operating_points[i].decoder_model_param_present) continue;
        FD(operating_parameter_info[i].decoder_buffer_delay); FD(operating_parameter_info[i].encoder_buffer_delay); FD(operating_parameter_info[i].low_delay_mode);
    }
    FD(still_picture); FD(reduced_still_picture_header); FD(timing_info_present);
    if (want.timing_info_present) { FD(num_units_in_tick); FD(time_scale); FD(equal_picture_interval); if (want.equal_picture_interval) FD(num_ticks_per_picture); }
    FD(decoder_model_info_present);
    if (want.decoder_model_info_present) { FD(encoder_decoder_buffer_delay_length); FD(num_units_in_decoding_tick); FD(buffer_removal_delay_length); FD(frame_presentation_delay_length); }
    FD(display_model_info_present); FD(width_n_bits); FD(height_n_bits); FD(frame_id_numbers_present);
    if (want.frame_id_numbers_present) { FD(delta_frame_id_n_bits); FD(frame_id_n_bits); }
    FD(sb128); FD(filter_intra); FD(intra_edge_filter); FD(inter_intra); FD(masked_compound); FD(warped_motion); FD(dual_filter); FD(order_hint); FD(jnt_comp); FD(ref_frame_mvs);
    FD(screen_content_tools); FD(force_integer_mv); FD(order_hint_n_bits); FD(super_res); FD(cdef); FD(restoration); FD(ss_hor); FD(ss_ver); FD(monochrome);
    FD(color_description_present); FD(separate_uv_delta_q); FD(film_grain_present);
    return "";
}
std::string diff_frame(const Dav1dFrameHeader &want, const Dav1dFrameHeader &got, const Dav1dSequenceHeader &seq) {
    bool inter = want.frame_type == DAV1D_FRAME_TYPE_INTER || want.frame_type == DAV1D_FRAME_TYPE_SWITCH;
    FD(frame_type); FD(width[0]); FD(width[1]); FD(height); FD(frame_offset); FD(temporal_id); FD(spatial_id);
    if (seq.frame_id_numbers_present) FD(frame_id);
    FD(frame_presentation_delay); FD(show_frame); FD(showable_frame); FD(error_resilient_mode); FD(disable_cdf_update); FD(allow_screen_content_tools); FD(force_integer_mv);
    FD(frame_size_override); FD(primary_ref_frame); FD(buffer_removal_time_present);
    for (int i = 0; i < 32; i++) FD(operating_points[i].buffer_removal_time);
    FD(refresh_frame_flags); FD(render_width); FD(render_height); FD(super_res.enabled); FD(super_res.width_scale_denominator); FD(have_render_size); FD(allow_intrabc);
    if (inter) {
        FD(frame_ref_short_signaling);
        for (int i = 0; i < 7; i++) FD(refidx[i]);
        FD(hp); FD(subpel_filter_mode); FD(switchable_motion_mode);
    }
    FD(use_ref_frame_mvs); FD(refresh_context); FD(tiling.uniform); FD(tiling.n_bytes); FD(tiling.log2_cols); FD(tiling.cols); FD(tiling.log2_rows); FD(tiling.rows); FD(tiling.update);
    FD(tiling.min_log2_cols); FD(tiling.max_log2_cols); FD(tiling.max_log2_rows);
    if (want.tiling.uniform) FD(tiling.min_log2_rows);
    for (int i = 0; i <= want.tiling.cols; i++) FD(tiling.col_start_sb[i]);
    for (int i = 0; i <= want.tiling.rows; i++) FD(tiling.row_start_sb[i]);
    FD(quant.yac); FD(quant.ydc_delta); FD(quant.udc_delta); FD(quant.uac_delta); FD(quant.vdc_delta); FD(quant.vac_delta); FD(quant.qm);
    if (want.quant.qm) { FD(quant.qm_y); FD(quant.qm_u); FD(quant.qm_v); }
    FD(segmentation.enabled);
    if (want.segmentation.enabled) {
        FD(segmentation.update_map); FD(segmentation.temporal); FD(segmentation.update_data);
        for (int i = 0; i < 8; i++) {
            FD(segmentation.seg_data.d[i].delta_q); FD(segmentation.seg_data.d[i].delta_lf_y_v); FD(segmentation.seg_data.d[i].delta_lf_y_h); FD(segmentation.seg_data.d[i].delta_lf_u);
            FD(segmentation.seg_data.d[i].delta_lf_v); FD(segmentation.seg_data.d[i].ref); FD(segmentation.seg_data.d[i].skip); FD(segmentation.seg_data.d[i].globalmv);
        }
    }
    for (int i = 0; i < 8; i++) { FD(segmentation.qidx[i]); FD(segmentation.lossless[i]); }
    FD(delta.q.present); FD(delta.q.res_log2); FD(delta.lf.present); FD(delta.lf.res_log2); FD(delta.lf.multi); FD(all_lossless);
    FD(loopfilter.level_y[0]); FD(loopfilter.level_y[1]); FD(loopfilter.level_u); FD(loopfilter.level_v); FD(loopfilter.sharpness);
    if (!want.all_lossless && !want.allow_intrabc) {
        FD(loopfilter.mode_ref_delta_enabled); FD(loopfilter.mode_ref_delta_update);
        for (int i = 0; i < 8; i++) FD(loopfilter.mode_ref_deltas.ref_delta[i]);
        for (int i = 0; i < 2; i++) FD(loopfilter.mode_ref_deltas.mode_delta[i]);
    }
    FD(cdef.n_bits);
    if (want.cdef.damping) {
        FD(cdef.damping);
        for (int i = 0; i < 1 << want.cdef.n_bits; i++) { FD(cdef.y_strength[i]); if (!seq.monochrome) FD(cdef.uv_strength[i]); }
    }
    for (int i = 0; i < 3; i++) FD(restoration.type[i]);
    if (want.restoration.type[0] || want.restoration.type[1] || want.restoration.type[2]) { FD(restoration.unit_size[0]); if (!seq.monochrome) FD(restoration.unit_size[1]); }
    FD(txfm_mode); FD(switchable_comp_refs); FD(skip_mode_allowed); FD(skip_mode_enabled);
    if (want.skip_mode_allowed) { FD(skip_mode_refs[0]); FD(skip_mode_refs[1]); }
    FD(warp_motion); FD(reduced_txtp_set);
    if (inter) for (int i = 0; i < 7; i++) { FD(gmv[i].type); for (int j = 0; j < 6; j++) FD(gmv[i].matrix[j]); }
    FD(film_grain.present);
    if (want.film_grain.present) {
        FD(film_grain.update);
        FD(film_grain.data.seed); FD(film_grain.data.num_y_points); FD(film_grain.data.chroma_scaling_from_luma);
        for (int i = 0; i < want.film_grain.data.num_y_points; i++) for (int j = 0; j < 2; j++) FD(film_grain.data.y_points[i][j]);
        for (int pl = 0; pl < 2; pl++) {
            FD(film_grain.data.num_uv_points[pl]);
            for (int i = 0; i < want.film_grain.data.num_uv_points[pl]; i++) for (int j = 0; j < 2; j++) FD(film_grain.data.uv_points[pl][i][j]);
        }
        FD(film_grain.data.scaling_shift); FD(film_grain.data.ar_coeff_lag); FD(film_grain.data.ar_coeff_shift); FD(film_grain.data.grain_scale_shift);
        int ny = 2 * want.film_grain.data.ar_coeff_lag * (want.film_grain.data.ar_coeff_lag + 1);
        if (want.film_grain.data.num_y_points) for (int i = 0; i < ny; i++) FD(film_grain.data.ar_coeffs_y[i]);
        for (int pl = 0; pl < 2; pl++) {
            if (want.film_grain.data.num_uv_points[pl] || want.film_grain.data.chroma_scaling_from_luma)
                for (int i = 0; i < ny + !!want.film_grain.data.num_y_points; i++) FD(film_grain.data.ar_coeffs_uv[pl][i]);
            if (want.film_grain.data.num_uv_points[pl]) { FD(film_grain.data.uv_mult[pl]); FD(film_grain.data.uv_luma_mult[pl]); FD(film_grain.data.uv_offset[pl]); }
        }
        FD(film_grain.data.overlap_flag); FD(film_grain.data.clip_to_restricted_range);
    }
    return "";
}
std::string show(const PicRec &r) {
    char b[256];
    snprintf(b, sizeof b, "%s frame %dx%d ts=%lld order=%d T%dS%d show=%d pix=%016llx flags=%u t35=%zu",
             frame_type_name(r.ftype), r.w, r.h, (long long)r.ts, r.order, r.tid, r.sid, r.show, (unsigned long long)r.pix, r.flags, r.t35.size());
    return b;
}
bool same_rec(const PicRec &a, const PicRec &b, std::string *why) {
#define D(f) if (a.f != b.f) { *why = #f; return false; }
    D(w) D(h) D(layout) D(bpc) D(pix) D(ts) D(dur) D(off) D(size) D(ud) D(hdr) D(seq) D(cll) D(mdcv) D(t35)
    return true;
#undef D
}
void Session::hold(Dav1dPicture *p, const PicRec &r) {
    Held h;
    h.p = *p; h.r = r;
    memset(p, 0, sizeof *p);
    held.push_back(h);
}
static void check_one(const Held &h) {
    PicRec n;
    fill_rec(n, h.p);
    std::string why;
    if (!same_rec(h.r, n, &why)) fail("picture-changed", "a picture held by the application changed (%s): was %s, is now %s", why.c_str(), show(h.r).c_str(), show(n).c_str());
}
void Session::check_held(bool all, Rng &r) {
    if (!(W->chk & CK_HELD)) return;
    for (auto &h : held) if (all || r.chance(1, 3)) check_one(h);
}
void Session::drop_held(size_t i) {
    if (W->chk & CK_HELD) check_one(held[i]);
    Dav1dPicture p = held[i].p;
    held.erase(held.begin() + i);
    unref_pic(&p);
}

// ------------------------------------------------------------ player
int Player::do_send() {
    const Chunk &k = (*ch)[next];
    if (!have) {
        int rc = S->wrap(k, &d);
        if (rc) { // failed allocation: this chunk is lost
            errs.push_back({rc, true, k.id, got.size(), INT64_MIN, -1});
            next++;
            return rc;
        }
        have = true;
        cur_chunk = k.id;
    }
    int rc = S->send(&d);
    if (rc == DAV1D_ERR(EAGAIN)) {
        if (last_get_eagain && (W->chk & (CK_ORDER | CK_API)))
            fail("stuck", "dav1d_get_picture returned EAGAIN but the decoder does not accept data either (chunk %d)", k.id);
        send_blocked = true;
        return rc;
    }
    send_blocked = false;
    last_get_eagain = false;
    next++;
    have = false;
    if (rc < 0) {
        Err e{rc, true, k.id, got.size(), INT64_MIN, -1};
        if (d.data || d.ref || d.m.user_data.ref) unref_data(&d);
        if (query_err_props) {
            Dav1dDataProps pr{};
            { LibCall l; dav1d_get_decode_error_data_props(S->c, &pr); }
            e.ts = pr.timestamp;
            if (pr.user_data.data) e.ud = *(const int32_t *)pr.user_data.data;
            { LibCall l; dav1d_data_props_unref(&pr); }
        }
        errs.push_back(e);
    }
    memset(&d, 0, sizeof d);
    last_accepted = next;
    return rc;
}
int Player::do_get() {
    Dav1dPicture p;
    int rc = S->get(&p);
    send_blocked = false;
    if (rc == DAV1D_ERR(EAGAIN)) {
        if (on_idle) on_idle(*this);
        eagain_run++;
        last_get_eagain = true;
        return rc;
    }
    eagain_run = 0;
    last_get_eagain = false;
    send_blocked = false;
    if (rc < 0) {
        Err e{rc, false, -1, got.size(), INT64_MIN, -1};
        if (query_err_props) {
            Dav1dDataProps pr{};
            { LibCall l; dav1d_get_decode_error_data_props(S->c, &pr); }
            e.ts = pr.timestamp;
            if (pr.user_data.data) e.ud = *(const int32_t *)pr.user_data.data;
            { LibCall l; dav1d_data_props_unref(&pr); }
        }
        errs.push_back(e);
        if (errs.size() > max_errs) fail("error-loop", "more than %zu errors reported for %zu chunks", max_errs, ch->size());
        return rc;
    }
    PicRec r;
    fill_rec(r, p);
    r.seqno = got.size();
    if (poll_flags) r.flags = S->flags();
    if (on_pic) on_pic(*this, p, r);
    got.push_back(r);
    if (apply_grain_outside) {
        Dav1dPicture o;
        int grc = S->apply_grain(&o, &p);
        if (grc < 0) { errs.push_back({grc, false, -1, got.size(), INT64_MIN, -1}); grain_pix.push_back(0); }
        else { grain_pix.push_back(hash_pixels(o)); unref_pic(&o); }
    }
    if (hold_max > 0) {
        S->hold(&p, r);
        S->check_held(false, rng);
        while ((int)S->held.size() > hold_max || (!S->held.empty() && rng.chance(1, 5))) S->drop_held(rng.below((uint32_t)S->held.size()));
    } else {
        unref_pic(&p);
    }
    return 0;
}
void Player::abandon() {
    if (have && (d.data || d.ref)) unref_data(&d);
    have = false;
    memset(&d, 0, sizeof d);
}
void Player::step() {
    if (done) return;
    bool left = next < ch->size();
    switch (pat) {
    case PAT_CLI: // like the command line tool: one send, one get
        if (left || have) {
            if (phase == 0) { do_send(); phase = 1; }
            else { do_get(); phase = 0; }
            return;
        }
        break;
    case PAT_FILL_DRAIN:
        if (phase == 0 && left) { int rc = do_send(); if (rc == DAV1D_ERR(EAGAIN)) phase = 1; return; }
        if (left) { if (do_get() == DAV1D_ERR(EAGAIN) || !rng.chance(1, 2)) phase = 0; return; }
        break;
    case PAT_RANDOM:
        if (left) { if (rng.chance(3, 5) && !send_blocked) do_send(); else do_get(); return; }
        break;
    case PAT_EAGER:
        if (left && phase == 0) { do_send(); phase = 1; return; }
        if (left) { if (do_get() == DAV1D_ERR(EAGAIN)) phase = 0; return; }
        break;
    }
    // drain: two EAGAINs in a row after the last data
    if (phase != 9) { phase = 9; eagain_run = 0; }
    do_get();
    if (eagain_run >= 2) done = true;
}

// ------------------------------------------------------------ chunks
std::vector<Chunk> cut(const Stream &s, int style, Rng r, int id0, bool user_data) {
    std::vector<Chunk> v;
    size_t n = s.units.size();
    std::vector<bool> cutb(n + 1, false);
    cutb[n] = true;
    for (size_t i = 1; i < n; i++) {
        bool tu = s.units[i].tu != s.units[i - 1].tu;
        bool frame_end = false;
        for (auto &f : s.frames) if (f.last_unit == (int)i - 1) frame_end = true;
        switch (style) {
        case CUT_TU: cutb[i] = tu; break;
        case CUT_FRAME: cutb[i] = frame_end; break;
        case CUT_OBU: cutb[i] = true; break;
        case CUT_RANDOM: cutb[i] = r.chance(1, 3); break;
        case CUT_MULTI: cutb[i] = tu && r.chance(1, 3); break;
        }
    }
    size_t a = 0;
    for (size_t i = 1; i <= n; i++) if (cutb[i]) {
        Chunk c;
        c.id = id0 + (int)v.size();
        c.u0 = a; c.u1 = i;
        c.b = join_units(s, a, i);
        uint32_t off = 0;
        for (size_t u = a; u < i; u++) { for (uint32_t m : s.units[u].marks) c.marks.push_back(off + m); off += (uint32_t)s.units[u].bytes.size(); }
        c.ts = 1000 + 10 * c.id; c.dur = 5 + c.id % 7; c.off = 100000 + 3 * c.id;
        c.ud = user_data && r.chance(2, 3);
        c.wrap = r.chance(3, 4);
        v.push_back(std::move(c));
        a = i;
    }
    return v;
}
const Chunk *chunk_of_unit(const std::vector<Chunk> &ch, size_t u) {
    for (auto &c : ch) if (u >= c.u0 && u < c.u1) return &c;
    return nullptr;
}

// ------------------------------------------------------------ model
bool layered(const Stream &s) { for (auto &q : s.seqs) if (q.slayers > 1) return true; return false; }
static int max_spatial(const SeqP &q, int op) {
    int idc = op < q.nops ? q.idc[op] : q.idc[0];
    int m = idc >> 8, l = 0;
    while (m > 1) { m >>= 1; l++; }
    return (idc >> 8) ? l : 0;
}
std::vector<Exp> model(const Stream &s, const ModelOpt &o) {
    std::vector<Exp> out;
    int cll = -1, mdcv = -1, idc = 0, maxsid = 0, cseq = -1;
    std::vector<int> t35;
    unsigned fl = 0; // 1 new seq, 2 op params
    unsigned newtu = 0; // 4: no picture of this temporal unit was output yet
    std::vector<unsigned> pflags(s.frames.size(), 0);
    std::vector<int> psid(s.frames.size(), 0);
    std::vector<bool> decoded(s.frames.size(), false);
    Exp cache; bool have_cache = false;
    int cache_sid = 0, cache_max = 0;
    auto emit = [&](Exp e, unsigned pf, int sid) {
        e.flags = pf & 3;
        int mx = o.all_layers ? 0 : max_spatial(s.seqs[s.frames[e.src].seq], o.op);
        if (have_cache && (cache_sid == cache_max || (pf & 4) || !mx)) { out.push_back(cache); have_cache = false; }
        if (!mx) { out.push_back(e); return; }
        cache = e; have_cache = true; cache_sid = sid; cache_max = mx;
    };
    for (size_t u = 0; u < s.units.size(); u++) {
        const Unit &x = s.units[u];
        if (x.type != OBU_SEQ && x.type != OBU_TD && x.ext && idc && !((idc >> x.tid & 1) && (idc >> (x.sid + 8) & 1))) continue;
        if (x.type == OBU_SEQ) {
            const SeqP &q = s.seqs[x.seq];
            idc = o.op < q.nops ? q.idc[o.op] : q.idc[0];
            maxsid = max_spatial(q, o.op);
            if (cseq < 0) fl |= 1;
            else if (x.seq_new) { fl |= 1; cll = mdcv = -1; }
            else if (x.seq_op) fl |= 2;
            cseq = x.seq;
        } else if (x.type == OBU_TD) { newtu = 4; t35.clear(); } // payloads of dropped frames are void
        else if (x.meta == 1) cll = x.midx;
        else if (x.meta == 2) mdcv = x.midx;
        else if (x.meta == 3) t35.push_back(x.midx);
        if (x.frame < 0 || s.frames[x.frame].last_unit != (int)u) continue;
        const FrameInfo &f = s.frames[x.frame];
        Exp e;
        e.frame = f.idx; e.src = f.show_existing ? f.src : f.idx; e.seq = f.seq; e.reshown = f.show_existing;
        auto meta = [&] {
            if (cll >= 0) e.cll = d_cll(s.clls[cll].a, s.clls[cll].b);
            if (mdcv >= 0) { auto &m = s.mdcvs[mdcv]; e.mdcv = d_mdcv(m.prim, m.wp, m.maxl, m.minl); }
            for (int t : t35) { auto &p = s.t35s[t]; e.t35.push_back(d_t35(p.cc, p.ext, p.payload.data(), p.payload.size())); }
            t35.clear();
        };
        bool inter = f.type == FRAME_INTER || f.type == FRAME_SWITCH;
        if (f.show_existing) {
            if ((inter && o.dft > 1) || (f.type == FRAME_INTRA && o.dft > 2)) { t35.clear(); continue; } // skipped with its metadata
            if (!decoded[f.src]) continue;
            e.unit = u;
            meta();
            emit(e, pflags[f.src] | newtu, psid[f.src]);
            newtu = 0;
            continue;
        }
        if ((inter && (o.dft > 1 || (o.dft == 1 && !f.refresh))) || (f.type == FRAME_INTRA && (o.dft > 2 || (o.dft == 1 && !f.refresh)))) { if (f.show) t35.clear(); continue; }
        // first OBU of the frame that carries tiles
        for (int k = f.first_unit; k <= f.last_unit; k++)
            if (s.units[k].frame == f.idx && (s.units[k].type == OBU_FRAME || s.units[k].type == OBU_TILE_GRP)) { e.unit = k; break; }
        decoded[f.idx] = true;
        pflags[f.idx] = fl;
        psid[f.idx] = f.sid;
        fl &= ((f.show || o.invisible) && maxsid == f.sid) ? 0 : 3;
        if (f.show) meta();
        if (f.show || o.invisible) { emit(e, pflags[f.idx] | newtu, f.sid); newtu = 0; }
    }
    if (have_cache) out.push_back(cache);
    return out;
}

// ------------------------------------------------------------ oracle
int decode_st(const Stream &s, const OracleOpt &o, std::vector<PicRec> &out, std::string *why) {
    out.assign(s.frames.size(), PicRec());
    int bad = -1;
    World w;
    W = &w;
    sim::Options so;
    so.explicit_sched = true;
    so.fill_mode = 3;
    so.seed = 77;
    sim::run(so, [&] {
        Session S;
        Settings st;
        st.threads = 1; st.delay = 1; st.grain = o.grain; st.op = o.op; st.invisible = 1; st.inloop = o.inloop;
        if (o.track) st.alloc.mode = 1;
        if (S.open(st)) fail("oracle", "cannot open the reference decoder");
        size_t u = 0;
        uint64_t pics = 0;
        auto where = [&] { return o.track && w.pics_alloc == pics ? "before a picture was allocated: " : ""; };
        for (auto &f : s.frames) {
            Chunk c;
            c.b = join_units(s, u, f.last_unit + 1);
            c.ts = f.idx;
            c.id = f.idx;
            u = f.last_unit + 1;
            Dav1dData d;
            S.wrap(c, &d);
            int n = 0;
            pics = w.pics_alloc;
            int rc = S.send(&d);
            if (rc < 0) { unref_data(&d); bad = f.idx; if (why) *why = where() + std::string("send rc ") + std::to_string(rc); break; }
            for (;;) {
                Dav1dPicture p;
                rc = S.get(&p);
                if (rc == DAV1D_ERR(EAGAIN)) break;
                if (rc < 0) { bad = f.idx; if (why) *why = where() + std::string("get rc ") + std::to_string(rc); break; }
                fill_rec(out[f.idx], p);
                n++;
                unref_pic(&p);
            }
            if (bad >= 0) break;
            if (n != (f.op_in[o.op] ? 1 : 0)) { bad = f.idx; if (why) *why = "frame " + std::to_string(f.idx) + " gave " + std::to_string(n) + " pictures"; break; }
        }
        S.close();
    });
    w.verify_integrity();
    W = nullptr;
    return bad;
}
bool make_stream(Knobs &k, const GenOpt &go, const std::string &prefix, Oracle &o) {
    Generator g(k, go, prefix);
    for (o.tries = 1; o.tries <= 60; o.tries++) {
        o.s = g.make();
        o.bad_frame = decode_st(o.s, OracleOpt(), o.pic, &o.why);
        if (o.bad_frame < 0) { o.ok = true; return true; }
        std::vector<PicRec> tmp;
        OracleOpt to;
        to.track = true;
        std::string why;
        if (decode_st(o.s, to, tmp, &why) == o.bad_frame) {
            if (!why.compare(0, 6, "before")) o.wrong = why;
            else if (!why.compare(0, 6, "frame ")) { o.wrong = why; o.wrong_count = true; }
            // tile data can only be refused because of the partition of 4:2:2 blocks, a vector within the picture, or
            // (very rarely) because there is too little of it; then the next, longer, payloads do
            const FrameInfo &f = o.s.frames[o.bad_frame];
            if (o.wrong.empty() && why.find("rc -22") == std::string::npos) o.wrong = why;
            if (o.wrong.empty() && f.eh && f.seq >= 0 && o.s.seqs[f.seq].layout != 2 && !f.eh->allow_intrabc && (int)g.salts.size() > o.bad_frame && g.salts[o.bad_frame] >= 7) o.wrong = "refused tile data: " + why;
            if (!o.wrong.empty()) return false;
        }
        if ((int)g.salts.size() <= o.bad_frame) g.salts.resize(o.bad_frame + 1, 0);
        if (++g.salts[o.bad_frame] > 16) break;
    }
    return false;
}

// ------------------------------------------------------------ comparison
void compare(const Oracle &o, const std::vector<PicRec> &pix, const std::vector<Exp> &e, const std::vector<Chunk> &ch,
             const std::vector<PicRec> &got, const CmpOpt &c) {
    size_t n = std::min(e.size(), got.size());
    for (size_t i = 0; i < n; i++) {
        const PicRec &g = got[i];
        const PicRec &x = pix[e[i].frame];
        const FrameInfo &src = o.s.frames[e[i].src];
        if (c.chk & CK_ORDER) { // identity of the frame, independent of pixels
            if (g.order != src.order || g.ftype != src.type || g.w != src.w || g.h != src.h || g.sid != src.sid || g.tid != src.tid)
                fail("wrong-picture", "%s picture %zu: expected frame %d (%s %dx%d order %d), got %s", c.what, i, e[i].src, frame_type_name(src.type), src.w, src.h, src.order, show(g).c_str());
        }
        if (c.chk & CK_PIX) {
            if (g.w != x.w || g.h != x.h || g.layout != x.layout || g.bpc != x.bpc)
                fail("wrong-format", "%s picture %zu: expected %dx%d bpc %d, got %s", c.what, i, x.w, x.h, x.bpc, show(g).c_str());
            if (g.pix != x.pix)
                fail("pixel-mismatch", "%s picture %zu (frame %d, %s): pixels %016llx differ from the reference %016llx", c.what, i, e[i].src, frame_type_name(src.type),
                     (unsigned long long)g.pix, (unsigned long long)x.pix);
        }
        if (c.chk & CK_HDR) {
            if (g.hdr != x.hdr) fail("header-mismatch", "%s picture %zu (frame %d): frame header differs from the reference: %s", c.what, i, e[i].src, show(g).c_str());
            if (src.eh && g.fhdr && src.sh >= 0) {
                std::string d = diff_seq(o.s.shs[src.sh], *g.shdr);
                if (d.empty()) d = diff_frame(*src.eh, *g.fhdr, o.s.shs[src.sh]);
                if (!d.empty()) fail("header-mismatch", "%s picture %zu (frame %d): %s", c.what, i, e[i].src, d.c_str());
            }
            if (g.seq != x.seq) fail("header-mismatch", "%s picture %zu (frame %d): sequence header differs from the reference", c.what, i, e[i].src);
            if (g.show != (int)src.show || g.showable != (int)src.showable || g.fw1 != src.w || g.fw0 != src.w0 || g.fh != src.h || g.rw != src.rw || g.rh != src.rh)
                fail("header-mismatch", "%s picture %zu (frame %d): frame header does not describe the coded frame: %s; show %d/%d showable %d/%d width %d/%d %d/%d height %d/%d render %dx%d/%dx%d", c.what, i, e[i].src, show(g).c_str(), g.show, src.show, g.showable, src.showable, g.fw0, src.w0, g.fw1, src.w, g.fh, src.h, g.rw, g.rh, src.rw, src.rh);
        }
        if (c.chk & CK_PROPS) {
            const Chunk *k = chunk_of_unit(ch, e[i].unit);
            if (!k) fail("harness", "no chunk for unit %zu", e[i].unit);
            if (g.ts != k->ts || g.dur != k->dur || g.off != k->off || g.size != k->b.size())
                fail("props-mismatch", "%s picture %zu (frame %d): expected ts %lld of chunk %d, got ts %lld dur %lld off %lld size %llu", c.what, i, e[i].src, (long long)k->ts, k->id,
                     (long long)g.ts, (long long)g.dur, (long long)g.off, (unsigned long long)g.size);
            if (g.ud != (k->ud ? k->id : -1)) fail("props-mismatch", "%s picture %zu (frame %d): user data %d instead of %d", c.what, i, e[i].src, g.ud, k->ud ? k->id : -1);
        }
        if (c.chk & CK_META) {
            if (g.cll != e[i].cll) fail("metadata-mismatch", "%s picture %zu (frame %d): wrong content light level", c.what, i, e[i].src);
            if (g.mdcv != e[i].mdcv) fail("metadata-mismatch", "%s picture %zu (frame %d): wrong mastering display metadata", c.what, i, e[i].src);
            if (g.t35 != e[i].t35) fail("metadata-mismatch", "%s picture %zu (frame %d): T.35 payloads differ (%zu expected, %zu attached)", c.what, i, e[i].src, e[i].t35.size(), g.t35.size());
        }
        if (c.chk & CK_FLAGS)
            if (g.flags != e[i].flags) fail("event-flags", "%s picture %zu (frame %d): event flags %u instead of %u", c.what, i, e[i].src, g.flags, e[i].flags);
    }
    if (got.size() > e.size()) fail("extra-picture", "%s %zu pictures returned, %zu expected; extra: %s", c.what, got.size(), e.size(), show(got[n]).c_str());
    if (got.size() < e.size() && !c.prefix) fail("missing-picture", "%s %zu pictures returned, %zu expected; first missing: frame %d", c.what, got.size(), e.size(), e[n].src);
}
}
