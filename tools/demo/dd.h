// Small helpers for demonstrations against libdav1d.
#include <dav1d/dav1d.h>
#include <assert.h>
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct { uint8_t *p; size_t n; int64_t ts; } Chunk;
typedef struct { Chunk *c; int n; } File;
typedef struct {
    uint64_t hash; int64_t ts; int w, h, poc, shown, cll, mdcv; size_t t35; unsigned flags; uint64_t t35hash; int tid, sid;
} Pic;
typedef struct { Pic p[512]; int n; int nerr; struct { int rc; int64_t ts; } e[256]; } Out;

static File load(const char *path) { // IVF
    File f = {0, 0};
    FILE *i = fopen(path, "rb");
    uint8_t h[32];
    if (!i || fread(h, 1, 32, i) != 32) { perror(path); exit(99); }
    while (fread(h, 1, 12, i) == 12) {
        size_t n = h[0] | h[1] << 8 | h[2] << 16 | (size_t)h[3] << 24;
        f.c = realloc(f.c, (f.n + 1) * sizeof *f.c);
        f.c[f.n].p = malloc(n + 1); f.c[f.n].n = n; f.c[f.n].ts = 1000 + f.n;
        if (fread(f.c[f.n].p, 1, n, i) != n) exit(99);
        f.n++;
    }
    fclose(i);
    return f;
}
static File cat_files(File a, File b) {
    File f = {malloc((a.n + b.n) * sizeof(Chunk)), a.n + b.n};
    memcpy(f.c, a.c, a.n * sizeof(Chunk)); memcpy(f.c + a.n, b.c, b.n * sizeof(Chunk));
    for (int i = 0; i < f.n; i++) f.c[i].ts = 1000 + i;
    return f;
}
static uint64_t fnv(uint64_t h, const void *p, size_t n) { const uint8_t *b = p; while (n--) { h ^= *b++; h *= 1099511628211ull; } return h; }
static uint64_t hash_pic(const Dav1dPicture *p) {
    uint64_t h = 14695981039346656037ull;
    int hbd = p->p.bpc > 8;
    for (int pl = 0; pl < (p->p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3); pl++) {
        int sh = pl && p->p.layout != DAV1D_PIXEL_LAYOUT_I444, sv = pl && p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
        int w = (p->p.w + sh) >> sh, hh = (p->p.h + sv) >> sv;
        for (int y = 0; y < hh; y++) h = fnv(h, (const uint8_t *)p->data[pl] + y * p->stride[!!pl], (size_t)w << hbd);
    }
    return h;
}
static Dav1dContext *open_dec(int threads, int delay, void (*tweak)(Dav1dSettings *)) {
    Dav1dSettings s;
    Dav1dContext *c = NULL;
    dav1d_default_settings(&s);
    s.n_threads = threads; s.max_frame_delay = delay; s.apply_grain = 0;
    s.logger.callback = NULL;
    if (tweak) tweak(&s);
    int r = dav1d_open(&c, &s);
    if (r) { printf("dav1d_open: %d\n", r); return NULL; }
    return c;
}
static void note_err(Dav1dContext *c, Out *o, int rc) {
    Dav1dDataProps m; memset(&m, 0, sizeof m);
    dav1d_get_decode_error_data_props(c, &m);
    if (o->nerr < 256) { o->e[o->nerr].rc = rc; o->e[o->nerr].ts = m.timestamp; o->nerr++; }
    dav1d_data_props_unref(&m);
}
static int get_one(Dav1dContext *c, Out *o) { // 1 picture, 0 again, -1 error
    Dav1dPicture p; memset(&p, 0, sizeof p);
    int r = dav1d_get_picture(c, &p);
    if (r == DAV1D_ERR(EAGAIN)) return 0;
    if (r < 0) { note_err(c, o, r); return -1; }
    enum Dav1dEventFlags fl = 0;
    dav1d_get_event_flags(c, &fl);
    if (o->n < 512) {
        Pic *q = &o->p[o->n++];
        memset(q, 0, sizeof *q);
        q->hash = hash_pic(&p); q->ts = p.m.timestamp; q->w = p.p.w; q->h = p.p.h; q->poc = p.frame_hdr->frame_offset; q->shown = p.frame_hdr->show_frame;
        q->cll = p.content_light ? p.content_light->max_content_light_level : -1;
        q->mdcv = p.mastering_display ? (int)p.mastering_display->max_luminance : -1;
        q->t35 = p.n_itut_t35; q->flags = fl; q->tid = p.frame_hdr->temporal_id; q->sid = p.frame_hdr->spatial_id;
        for (size_t i = 0; i < p.n_itut_t35; i++) q->t35hash = fnv(q->t35hash + 7, p.itut_t35[i].payload, p.itut_t35[i].payload_size);
    }
    dav1d_picture_unref(&p);
    return 1;
}
static void send_one(Dav1dContext *c, const Chunk *k, Out *o) {
    Dav1dData d; memset(&d, 0, sizeof d);
    uint8_t *b = dav1d_data_create(&d, k->n);
    if (!b) { if (o->nerr < 256) { o->e[o->nerr].rc = DAV1D_ERR(ENOMEM); o->e[o->nerr].ts = k->ts; o->nerr++; } return; }
    memcpy(b, k->p, k->n);
    d.m.timestamp = k->ts;
    while (d.sz) {
        int r = dav1d_send_data(c, &d);
        if (r == DAV1D_ERR(EAGAIN)) { int g, n = 0; while ((g = get_one(c, o)) == 0 && d.data && ++n < 2) ; continue; }
        if (r < 0) { note_err(c, o, r); dav1d_data_unref(&d); break; }
    }
}
static void drain(Dav1dContext *c, Out *o) { int z = 0; for (int i = 0; i < 4000 && z < 3; i++) { if (get_one(c, o) == 0) z++; else z = 0; } }
static void feed(Dav1dContext *c, const File *f, int from, int to, Out *o) {
    for (int i = from; i < to && i < f->n; i++) { send_one(c, &f->c[i], o); while (get_one(c, o) == 1) ; }
}
static void feed_nodrain(Dav1dContext *c, const File *f, int from, int to, Out *o) { // at most one get per send
    for (int i = from; i < to && i < f->n; i++) { send_one(c, &f->c[i], o); get_one(c, o); }
}
static Out *decode(const File *f, int threads, int delay, void (*tweak)(Dav1dSettings *)) {
    Out *o = calloc(1, sizeof *o);
    Dav1dContext *c = open_dec(threads, delay, tweak);
    if (!c) { o->nerr = 1; return o; }
    feed_nodrain(c, f, 0, f->n, o);
    drain(c, o);
    dav1d_close(&c);
    return o;
}
static int same(const Out *a, const Out *b, const char *what) {
    if (a->n != b->n) { printf("%s: %d pictures instead of %d\n", what, b->n, a->n); return 0; }
    for (int i = 0; i < a->n; i++) if (a->p[i].hash != b->p[i].hash || a->p[i].ts != b->p[i].ts || a->p[i].w != b->p[i].w || a->p[i].h != b->p[i].h) {
        printf("%s: picture %d is different (ts %lld / %lld)\n", what, i, (long long)a->p[i].ts, (long long)b->p[i].ts); return 0; }
    return 1;
}
