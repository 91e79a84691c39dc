#include "play.h"
#include "host.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <getopt.h>
#include <pthread.h>
#if __has_include(<SDL2/SDL.h>)
#include <SDL2/SDL.h>
using namespace sim;
extern "C" {
int play_main(int argc, char **argv);
int sim_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int sim_mutex_destroy(pthread_mutex_t *);
int sim_mutex_lock(pthread_mutex_t *);
int sim_mutex_trylock(pthread_mutex_t *);
int sim_mutex_unlock(pthread_mutex_t *);
int sim_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int sim_cond_destroy(pthread_cond_t *);
int sim_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int sim_cond_signal(pthread_cond_t *);
int sim_cond_broadcast(pthread_cond_t *);
int sim_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int sim_pthread_join(pthread_t, void **);
int sim_io_nanosleep(const struct timespec *, struct timespec *);
}
struct SDL_mutex { pthread_mutex_t m; int owner, depth; };
struct SDL_cond { pthread_cond_t c; };
struct SDL_semaphore { SDL_mutex *m; SDL_cond *c; Uint32 v; };
struct SDL_Thread { pthread_t t; SDL_ThreadFunction fn; void *arg; int ret; };
struct SDL_Window { int id; };
struct SDL_Renderer { SDL_Texture *copied; bool cleared; };
struct SDL_Texture { int w, h; Uint32 fmt; uint64_t hash; bool set; };


namespace play {
struct St {
    Cfg c; Result r;
    std::deque<SDL_Event> q;
    bool waiting = false, ended = false, paused = false;
    Uint32 user_type = SDL_USEREVENT;
    std::set<void *> live;            // SDL objects
    int inits = 0;
    uint64_t t0 = 0;
    std::set<void *> zc;
};
static St *S;
bool available() { return true; }
template <class T> static T *mk(const char *) { T *t = new T(); S->live.insert(t); return t; }
template <class T> static void rm(T *t, const char *what) {
    if (!S->live.erase(t)) fail("sdl-misuse", "%s destroyed twice or unknown", what);
    delete t;
}
static void update(uint64_t h, int w, int hh, bool have_ts, int64_t ts) {
    for (auto &x : S->r.shown) (void)x;
    if (!S->r.shown.empty() && !S->r.shown.back().renders) {}
    S->r.shown.push_back({h, w, hh, ts, have_ts, cli::sim_ns(), 0, 0, S->r.pauses, S->r.seeks});
    host::logf("player: picture %zu %dx%d ts %lld", S->r.shown.size() - 1, w, hh, (long long)ts);
}
static void rendered() {
    if (S->r.shown.empty()) return;
    auto &x = S->r.shown.back();
    if (!x.renders++) x.t_render = cli::sim_ns();
}
static void push(const SDL_Event &e) { S->q.push_back(e); }
static void user() {
    uint64_t from = now();
    size_t shown = 0;
    Rng q(mix(S->c.io.seed, 0x05E4));
    auto idle = [] { return S->waiting && S->q.empty() && S->paused; };
    for (auto &st : S->c.user) {
        auto ready = [&] { return S->ended || (now() >= from + st.points && S->r.shown.size() >= shown + st.frames); };
        block_until([&] { return ready() || idle(); });
        if (!ready()) for (int i = q.range(0, 3000); i-- && !S->ended && !ready();) point(K_API); // nothing happens before the next key
        if (S->ended) return;
        SDL_Event e;
        memset(&e, 0, sizeof e);
        switch (st.a) {
        case A_EXPOSE: case A_RESIZE: e.type = SDL_WINDOWEVENT; e.window.event = st.a == A_EXPOSE ? SDL_WINDOWEVENT_EXPOSED : SDL_WINDOWEVENT_SIZE_CHANGED; break;
        case A_QUIT: e.type = SDL_QUIT; break;
        default:
            e.type = SDL_KEYDOWN;
            e.key.keysym.sym = st.a == A_SPACE ? SDLK_SPACE : st.a == A_LEFT ? SDLK_LEFT : st.a == A_RIGHT ? SDLK_RIGHT : st.a == A_ESC ? SDLK_ESCAPE : SDLK_a;
        }
        host::logf("user: action %d", st.a);
        if (st.a == A_SPACE) S->paused = !S->paused;
        push(e);
        from = now(); shown = S->r.shown.size();
    }
}
// the renderer that takes pictures directly (stands for libplacebo)
static uint64_t hash_of(const Dav1dPicture *p) {
    return host::hash_pixels(*p);
}
Result run_player(const std::vector<std::string> &args, cli::Disk &d, const Cfg &c) {
    St st; S = &st;
    st.c = c;
    std::vector<std::string> store = args;
    std::vector<char *> argv;
    for (auto &a : store) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    optind = 0; opterr = 0; optarg = nullptr;
    uint64_t base = ledger().live_blocks;
    st.r.r = cli::run_proc(d, c.io, [&] {
        st.t0 = cli::sim_ns() - 1000000;
        int u = spawn("user", user);
        int rc;
        { LibScope ls; rc = play_main((int)args.size(), argv.data()); }

        st.ended = true;
        join(u);
        Ledger l = ledger();
        st.r.live_blocks = l.live_blocks - base;
        if (l.live_blocks != base || l.live_mutexes || l.live_conds || l.live_threads) st.r.leaks = ledger_describe();
        if (!st.live.empty()) st.r.leaks += " " + std::to_string(st.live.size()) + " SDL objects";
        if (!st.zc.empty()) st.r.leaks += " " + std::to_string(st.zc.size()) + " renderer buffers";
        return rc;
    });
    st.ended = true;
    S = nullptr;
    return st.r;
}
}
using namespace play;
#define HS HarnessScope hs_
extern "C" {
int SDL_Init(Uint32) { HS; S->inits++; return 0; }
int SDL_InitSubSystem(Uint32) { return 0; }
void SDL_QuitSubSystem(Uint32) {}
void SDL_Quit(void) {}
const char *SDL_GetError(void) { return "simulated"; }
int SDL_SetError(const char *, ...) { return -1; }
void SDL_Log(const char *, ...) {}
void SDL_LogError(int, const char *, ...) {}
void *SDL_memset(void *p, int c, size_t n) { return memset(p, c, n); }
void *SDL_memcpy(void *p, const void *q, size_t n) { return memcpy(p, q, n); }
SDL_mutex *SDL_CreateMutex(void) { HS;
    SDL_mutex *m = mk<SDL_mutex>("mutex");
    if (sim_mutex_init(&m->m, nullptr)) { S->live.erase(m); delete m; return nullptr; }
    m->owner = -1; m->depth = 0;
    return m;
}
void SDL_DestroyMutex(SDL_mutex *m) { HS; if (!m) return; sim_mutex_destroy(&m->m); rm(m, "mutex"); }
int SDL_LockMutex(SDL_mutex *m) { HS;
    if (!m) return -1;
    if (!S->live.count(m)) fail("sdl-misuse", "lock of a destroyed mutex");
    if (m->owner == current()) { m->depth++; return 0; }
    sim_mutex_lock(&m->m);
    m->owner = current(); m->depth = 1;
    return 0;
}
int SDL_TryLockMutex(SDL_mutex *m) { HS;
    if (m->owner == current()) { m->depth++; return 0; }
    if (sim_mutex_trylock(&m->m)) return SDL_MUTEX_TIMEDOUT;
    m->owner = current(); m->depth = 1;
    return 0;
}
int SDL_UnlockMutex(SDL_mutex *m) { HS;
    if (!m) return -1;
    if (!S->live.count(m)) fail("sdl-misuse", "unlock of a destroyed mutex");
    if (m->owner != current()) fail("sdl-misuse", "unlock of a mutex held by another thread");
    if (--m->depth) return 0;
    m->owner = -1;
    sim_mutex_unlock(&m->m);
    return 0;
}
SDL_cond *SDL_CreateCond(void) { HS;
    SDL_cond *c = mk<SDL_cond>("condition");
    if (sim_cond_init(&c->c, nullptr)) { S->live.erase(c); delete c; return nullptr; }
    return c;
}
void SDL_DestroyCond(SDL_cond *c) { HS; if (!c) return; sim_cond_destroy(&c->c); rm(c, "condition"); }
int SDL_CondWait(SDL_cond *c, SDL_mutex *m) { HS;
    if (!S->live.count(c) || !S->live.count(m)) fail("sdl-misuse", "wait on a destroyed condition or mutex");
    if (m->owner != current()) fail("sdl-misuse", "wait without holding the mutex");
    int dep = m->depth;
    m->owner = -1; m->depth = 0;
    sim_cond_wait(&c->c, &m->m);
    m->owner = current(); m->depth = dep;
    return 0;
}
int SDL_CondWaitTimeout(SDL_cond *c, SDL_mutex *m, Uint32 ms) { HS; // the time is over before a signal
    SDL_UnlockMutex(m);
    struct timespec t = {(time_t)(ms / 1000), (long)(ms % 1000) * 1000000};
    sim_io_nanosleep(&t, nullptr);
    SDL_LockMutex(m);
    (void)c;
    return SDL_MUTEX_TIMEDOUT;
}
int SDL_CondSignal(SDL_cond *c) { HS; if (!S->live.count(c)) fail("sdl-misuse", "signal of a destroyed condition"); sim_cond_signal(&c->c); return 0; }
int SDL_CondBroadcast(SDL_cond *c) { HS; if (!S->live.count(c)) fail("sdl-misuse", "signal of a destroyed condition"); sim_cond_broadcast(&c->c); return 0; }
SDL_sem *SDL_CreateSemaphore(Uint32 v) { HS; auto *s = mk<SDL_semaphore>("semaphore"); s->m = SDL_CreateMutex(); s->c = SDL_CreateCond(); s->v = v; return s; }
void SDL_DestroySemaphore(SDL_sem *s) { HS; if (!s) return; SDL_DestroyMutex(s->m); SDL_DestroyCond(s->c); rm(s, "semaphore"); }
int SDL_SemWait(SDL_sem *s) { HS; SDL_LockMutex(s->m); while (!s->v) SDL_CondWait(s->c, s->m); s->v--; SDL_UnlockMutex(s->m); return 0; }
int SDL_SemTryWait(SDL_sem *s) { HS; SDL_LockMutex(s->m); int ok = s->v > 0; if (ok) s->v--; SDL_UnlockMutex(s->m); return ok ? 0 : SDL_MUTEX_TIMEDOUT; }
int SDL_SemPost(SDL_sem *s) { HS; SDL_LockMutex(s->m); s->v++; SDL_CondSignal(s->c); SDL_UnlockMutex(s->m); return 0; }
Uint32 SDL_SemValue(SDL_sem *s) { return s->v; }
static void *tramp(void *a) { SDL_Thread *t = (SDL_Thread *)a; t->ret = t->fn(t->arg); return nullptr; }
#undef SDL_CreateThread
SDL_Thread *SDL_CreateThread(SDL_ThreadFunction fn, const char *, void *arg) { HS;
    SDL_Thread *t = mk<SDL_Thread>("thread");
    t->fn = fn; t->arg = arg; t->ret = 0;
    if (sim_pthread_create(&t->t, nullptr, tramp, t)) { S->live.erase(t); delete t; return nullptr; }
    return t;
}
void SDL_WaitThread(SDL_Thread *t, int *st) { HS; if (!t) return; sim_pthread_join(t->t, nullptr); if (st) *st = t->ret; rm(t, "thread"); }
SDL_threadID SDL_ThreadID(void) { return (SDL_threadID)(current() + 1); }
Uint32 SDL_GetTicks(void) { HS; point(K_CB); return (Uint32)((cli::sim_ns() - S->t0) / 1000000); }
Uint64 SDL_GetTicks64(void) { HS; point(K_CB); return (cli::sim_ns() - S->t0) / 1000000; }
Uint64 SDL_GetPerformanceCounter(void) { HS; point(K_CB); return cli::sim_ns() - S->t0; }
Uint64 SDL_GetPerformanceFrequency(void) { return 1000000000; }
void SDL_Delay(Uint32 ms) { HS;
    S->r.delays++; S->r.delayed_ms += ms;
    struct timespec t = {(time_t)(ms / 1000), (long)(ms % 1000) * 1000000};
    sim_io_nanosleep(&t, nullptr);
}
Uint32 SDL_RegisterEvents(int n) { HS; Uint32 t = S->user_type; S->user_type += n; return t; }
int SDL_PushEvent(SDL_Event *e) { HS; point(K_API); push(*e); return 1; }
static void seen(const SDL_Event &e) {
    if (e.type == SDL_QUIT || (e.type == SDL_KEYDOWN && e.key.keysym.sym == SDLK_ESCAPE)) { if (!S->r.quits++) { S->r.quit_at = now(); S->r.shown_at_quit = S->r.shown.size(); } }
    else if (e.type == SDL_KEYDOWN && e.key.keysym.sym == SDLK_SPACE) S->r.pauses++;
    else if (e.type == SDL_KEYDOWN && (e.key.keysym.sym == SDLK_LEFT || e.key.keysym.sym == SDLK_RIGHT)) { S->r.seeks++; S->r.last_seek_at = now(); }
    else if (e.type == SDL_WINDOWEVENT) S->r.exposes++;
}
int SDL_PollEvent(SDL_Event *e) { HS;
    point(K_API);
    if (S->q.empty()) return 0;
    if (!e) return 1;
    *e = S->q.front(); S->q.pop_front();
    seen(*e);
    return 1;
}
int SDL_WaitEvent(SDL_Event *e) { HS;
    S->waiting = true;
    block_until([] { return !S->q.empty(); });
    S->waiting = false;
    if (e) { *e = S->q.front(); S->q.pop_front(); seen(*e); }
    return 1;
}
int SDL_WaitEventTimeout(SDL_Event *e, int ms) { HS;
    point(K_API);
    if (S->q.empty()) { struct timespec t = {ms / 1000, (long)(ms % 1000) * 1000000}; sim_io_nanosleep(&t, nullptr); }
    if (S->q.empty()) return 0;
    if (e) { *e = S->q.front(); S->q.pop_front(); seen(*e); }
    return 1;
}
void SDL_PumpEvents(void) {}
static bool between(const SDL_Event &e, Uint32 a, Uint32 b) { return e.type >= a && e.type <= b; }
void SDL_FlushEvents(Uint32 a, Uint32 b) { HS;
    point(K_API);
    for (size_t i = 0; i < S->q.size();) if (between(S->q[i], a, b)) S->q.erase(S->q.begin() + i); else i++;
}
void SDL_FlushEvent(Uint32 t) { SDL_FlushEvents(t, t); }
SDL_bool SDL_HasEvents(Uint32 a, Uint32 b) { HS; point(K_API); for (auto &x : S->q) if (between(x, a, b)) return SDL_TRUE; return SDL_FALSE; }
SDL_bool SDL_HasEvent(Uint32 t) { return SDL_HasEvents(t, t); }
int SDL_PeepEvents(SDL_Event *e, int n, SDL_eventaction act, Uint32 a, Uint32 b) { HS;
    point(K_API);
    int k = 0;
    if (act == SDL_ADDEVENT) { for (; k < n; k++) push(e[k]); return k; }
    for (size_t i = 0; i < S->q.size() && k < n;) {
        if (!between(S->q[i], a, b)) { i++; continue; }
        if (e) e[k] = S->q[i];
        k++;
        if (act == SDL_GETEVENT) { seen(S->q[i]); S->q.erase(S->q.begin() + i); } else i++;
    }
    return k;
}
SDL_Window *SDL_CreateWindow(const char *, int, int, int, int, Uint32) { HS; return mk<SDL_Window>("window"); }
void SDL_DestroyWindow(SDL_Window *w) { HS; if (w) rm(w, "window"); }
void SDL_SetWindowResizable(SDL_Window *, SDL_bool) {}
void SDL_SetWindowSize(SDL_Window *, int, int) {}
void SDL_GetWindowSize(SDL_Window *, int *w, int *h) { if (w) *w = 640; if (h) *h = 480; }
void SDL_SetWindowTitle(SDL_Window *, const char *) {}
int SDL_SetWindowFullscreen(SDL_Window *, Uint32) { return 0; }
int SDL_ShowCursor(int) { return 0; }
SDL_bool SDL_SetHint(const char *, const char *) { return SDL_TRUE; }
SDL_Renderer *SDL_CreateRenderer(SDL_Window *, int, Uint32) { HS; return mk<SDL_Renderer>("renderer"); }
void SDL_DestroyRenderer(SDL_Renderer *r) { HS; if (r) rm(r, "renderer"); }
int SDL_RenderSetLogicalSize(SDL_Renderer *, int, int) { return 0; }
int SDL_RenderClear(SDL_Renderer *r) { HS; r->copied = nullptr; return 0; }
int SDL_RenderCopy(SDL_Renderer *r, SDL_Texture *t, const SDL_Rect *, const SDL_Rect *) { HS;
    if (!S->live.count(t)) fail("sdl-misuse", "copy of a destroyed texture");
    r->copied = t;
    return 0;
}
void SDL_RenderPresent(SDL_Renderer *r) { HS;
    if (!r->copied || !S->live.count(r->copied)) fail("player-picture", "nothing is presented");
    if (!S->r.shown.empty() && r->copied->hash != S->r.shown.back().hash) fail("player-picture", "another picture than the last one is presented");
    rendered();
}
SDL_Texture *SDL_CreateTexture(SDL_Renderer *, Uint32 fmt, int, int w, int h) { HS; auto *t = mk<SDL_Texture>("texture"); t->w = w; t->h = h; t->fmt = fmt; t->hash = 0; t->set = false; return t; }
void SDL_DestroyTexture(SDL_Texture *t) { HS; if (t) rm(t, "texture"); }
int SDL_QueryTexture(SDL_Texture *t, Uint32 *f, int *a, int *w, int *h) { HS; if (f) *f = t->fmt; if (a) *a = SDL_TEXTUREACCESS_STREAMING; if (w) *w = t->w; if (h) *h = t->h; return 0; }
int SDL_UpdateYUVTexture(SDL_Texture *t, const SDL_Rect *, const Uint8 *y, int ys, const Uint8 *u, int us, const Uint8 *v, int vs) { HS;
    if (!S->live.count(t)) fail("sdl-misuse", "update of a destroyed texture");
    Dav1dPicture p;
    memset(&p, 0, sizeof p);
    p.data[0] = (void *)y; p.data[1] = (void *)u; p.data[2] = (void *)v;
    p.stride[0] = ys; p.stride[1] = us;
    if (us != vs) fail("player-picture", "different strides of the chroma planes");
    p.p.w = t->w; p.p.h = t->h; p.p.layout = DAV1D_PIXEL_LAYOUT_I420; p.p.bpc = 8;
    t->hash = hash_of(&p); t->set = true;
    update(t->hash, t->w, t->h, false, 0);
    return 0;
}
// called by the simulated renderer in sim/playrdr.c
void sim_rd_update(const Dav1dPicture *p) { HS;
    if (!p->data[0] || !p->frame_hdr || !p->seq_hdr) fail("player-picture", "the renderer is given an empty picture");
    point(K_CB);
    update(hash_of(p), p->p.w, p->p.h, true, p->m.timestamp);
}
void sim_rd_render(void) { HS; point(K_CB); rendered(); }
void *sim_rd_create(void) { HS; return mk<SDL_Window>("window"); }
void sim_rd_destroy(void *w) { HS; rm((SDL_Window *)w, "renderer"); S->r.zc_live = (int)S->zc.size(); }
int sim_rd_alloc(Dav1dPicture *p, void *cookie) { HS;
    if (!S->live.count(cookie)) fail("player-release", "a picture is requested from a renderer that is gone");
    if (fault(F_PIC)) return DAV1D_ERR(ENOMEM);
    int hbd = p->p.bpc > 8, w = (p->p.w + 127) & ~127, h = (p->p.h + 127) & ~127;
    bool mono = p->p.layout == DAV1D_PIXEL_LAYOUT_I400;
    int sx = p->p.layout != DAV1D_PIXEL_LAYOUT_I444, sy = p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
    p->stride[0] = w << hbd; p->stride[1] = mono ? 0 : (w >> sx) << hbd;
    size_t a = (size_t)p->stride[0] * h, b = (size_t)p->stride[1] * (h >> sy);
    uint8_t *m = (uint8_t *)aligned_alloc(64, (a + 2 * b + 127) & ~63ull);
    memset(m, 0x5a, a + 2 * b);
    p->data[0] = m; p->data[1] = mono ? nullptr : m + a; p->data[2] = mono ? nullptr : m + a + b;
    p->allocator_data = m;
    S->zc.insert(m);
    S->r.zc_total++;
    return 0;
}
void sim_rd_release(Dav1dPicture *p, void *cookie) { HS;
    if (!S->live.count(cookie)) fail("player-release", "a picture is returned to a renderer that is gone");
    if (!S->zc.erase(p->allocator_data)) fail("player-release", "a picture is returned to the renderer twice");
    free(p->allocator_data);
}
}
#else
namespace play {
bool available() { return false; }
Result run_player(const std::vector<std::string> &, cli::Disk &, const Cfg &) { sim::fail("no-sdl", "SDL headers are not installed"); }
}
#endif
