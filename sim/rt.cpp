#include "rt.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>
#include <malloc.h>

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#ifdef SIM_TSAN
#include <sanitizer/tsan_interface.h>
extern "C" {
void *__tsan_get_current_fiber(void);
void *__tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void *fiber);
void __tsan_switch_to_fiber(void *fiber, unsigned flags);
void __tsan_acquire(void *addr);
void __tsan_release(void *addr);
}
#endif
extern "C" void sim_tsan_acquire(void *p) {
#ifdef SIM_TSAN
    __tsan_acquire(p);
#endif
    (void)p;
}
extern "C" void sim_tsan_release(void *p) {
#ifdef SIM_TSAN
    __tsan_release(p);
#endif
    (void)p;
}

namespace sim {

const char *const fault_names[NFAULTS] = {"alloc", "thread_create", "mutex_init", "cond_init", "picture_alloc", "io"};

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x165667B19E3779F9ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hash_str(const char *s) {
    uint64_t h = 1469598103934665603ull;
    while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull;
    return mix(h, 17);
}

void (*fail_hook)(const char *kind, const char *msg) = nullptr;
uint8_t *cov_shared = nullptr;
size_t cov_n = 0;

// ---------------------------------------------------------------- fibres
struct Context { void *sp; };

extern "C" void sim_ctx_switch(void **from_sp, void *to_sp);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

enum FState { FS_RUN, FS_MUTEX, FS_COND, FS_JOIN, FS_ONCE, FS_HARNESS, FS_DONE };

struct Fiber {
    int id = 0;
    FState st = FS_RUN;
    void *sp = nullptr;
    uint8_t *stack = nullptr;
    size_t stack_sz = 0;
    std::function<void()> fn;
    int wait_obj = -1;
    int cond_id = -1;
    bool joined = false, library = false;
    char name[24] = "";
    std::function<bool()> pred;
    int prio = 0;
    uint64_t starve_until = 0;
#ifdef SIM_ASAN
    void *fake = nullptr;
#endif
#ifdef SIM_TSAN
    void *tsan = nullptr;
#endif
};

struct MutexObj { int owner = -1; bool live = false; int last = -1; };
struct CondObj { bool live = false; std::vector<int> waiters; };

static const size_t STACK_SZ = 1 << 20;
static std::vector<uint8_t *> stack_pool;

static uint8_t *stack_get() {
    if (!stack_pool.empty()) { auto p = stack_pool.back(); stack_pool.pop_back(); return p; }
    uint8_t *p = (uint8_t *)mmap(nullptr, STACK_SZ + 8192, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap stack"); _exit(99); }
    mprotect(p, 4096, PROT_NONE);
    return p;
}

struct S {
    bool on = false;
    Options o;
    Stats st;
    std::vector<std::unique_ptr<Fiber>> f;
    int cur = -1;
    void *host_sp = nullptr;
#ifdef SIM_ASAN
    void *host_fake = nullptr;
    const void *host_bottom = nullptr; size_t host_size = 0;
#endif
#ifdef SIM_TSAN
    void *host_tsan = nullptr;
#endif
    std::vector<MutexObj> m;
    std::vector<CondObj> c;
    int live_attrs = 0;
    uint64_t k = 0;
    Rng rng;
    std::vector<Dev> rec;
    size_t dev_pos = 0;
    uint64_t next_pre = ~0ull;      // next point at which the strategy wants to be asked
    // strategy state
    int strat = 0;
    uint32_t p_switch = 0;          // /65536
    uint32_t p_hot = 0;
    std::vector<uint64_t> change; size_t change_pos = 0; int low_prio = 0;
    int quantum = 0;
    uint32_t starve_mask = 0; uint64_t starve_end = 0;
    bool fair = false; uint64_t fair_start = 0;
    bool faults_on = true;
    bool dead = false;              // the simulated process has ended
};
static S g;

struct OnceRec { pthread_once_t *p; };
static std::vector<pthread_once_t *> onces;

static int runnable_list(int *out) {
    int n = 0;
    for (auto &fp : g.f) {
        Fiber *f = fp.get();
        if (f->st == FS_HARNESS && f->pred && f->pred()) { f->st = FS_RUN; f->pred = nullptr; }
        if (f->st == FS_RUN) out[n++] = f->id;
    }
    return n;
}

bool active() { return g.on && g.cur >= 0; }
int current() { return g.cur; }
bool current_is_library() { return g.cur >= 0 && g.f[g.cur]->library; }
const char *current_name() { return g.cur >= 0 ? g.f[g.cur]->name : "host"; }
const Stats &stats() { return g.st; }
const std::vector<Dev> &decisions() { return g.rec; }
uint64_t now() { return g.k; }

static std::string describe_blocked() {
    std::string s;
    char b[160];
    for (auto &fp : g.f) {
        Fiber *f = fp.get();
        static const char *const n[] = {"runnable", "mutex", "cond", "join", "once", "harness", "done"};
        if (f->st == FS_DONE) continue;
        snprintf(b, sizeof b, " [%d:%s %s%d", f->id, f->name, n[f->st], f->wait_obj);
        s += b;
        if (f->st == FS_MUTEX && f->wait_obj >= 0) {
            snprintf(b, sizeof b, " owner=%d", g.m[f->wait_obj].owner);
            s += b;
        }
        s += "]";
    }
    return s;
}

void fail(const char *kind, const char *fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (fail_hook) fail_hook(kind, b);
    fprintf(stderr, "SIMFAIL %s: %s\n", kind, b);
    fflush(stderr);
    _exit(77);
}

static void fiber_entry();

static void switch_to(int id) {
    int from = g.cur;
    Fiber *t = g.f[id].get();
    g.st.switches++;
    g.st.shape_hash = mix(g.st.shape_hash, (uint64_t)id * 64 + (from >= 0 ? g.f[from]->st : 9));
    g.cur = id;
    void **save = from >= 0 ? &g.f[from]->sp : &g.host_sp;
    bool dead = from >= 0 && g.f[from]->st == FS_DONE;
#ifdef SIM_ASAN
    void **fs = dead ? nullptr : from >= 0 ? &g.f[from]->fake : &g.host_fake;
    __sanitizer_start_switch_fiber(fs, t->stack, t->stack_sz);
#endif
#ifdef SIM_TSAN
    __tsan_switch_to_fiber(t->tsan, 1);
#endif
    (void)dead;
    sim_ctx_switch(save, t->sp);
    // back on `from`
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(from >= 0 ? g.f[from]->fake : g.host_fake, nullptr, nullptr);
#endif
}

static void switch_to_host() {
    int from = g.cur;
    g.cur = -1;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(nullptr, g.host_bottom, g.host_size);
#endif
#ifdef SIM_TSAN
    __tsan_switch_to_fiber(g.host_tsan, 1);
#endif
    sim_ctx_switch(&g.f[from]->sp, g.host_sp);
    abort();
}

// ---------------------------------------------------------------- strategy
static void strat_init() {
    Rng &r = g.rng;
    int s = g.o.strategy;
    if (s < 0) {
        static const int tab[] = {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6};
        s = tab[r.below(sizeof tab / sizeof *tab)];
    }
    g.strat = s;
    g.st.strategy = s;
    switch (s) {
    case 0: { // sticky random walk
        static const uint32_t p[] = {32768, 8192, 2048, 512, 128};
        g.p_switch = p[r.below(5)];
        break; }
    case 1: { // PCT
        uint64_t est = 1ull << r.range(9, 19);
        int d = r.range(1, 12);
        for (int i = 0; i < d; i++) g.change.push_back(1 + r.next() % est);
        for (size_t i = 0; i < g.change.size(); i++)
            for (size_t j = i + 1; j < g.change.size(); j++)
                if (g.change[j] < g.change[i]) std::swap(g.change[i], g.change[j]);
        g.low_prio = -1;
        break; }
    case 2: // starvation windows
        g.p_switch = 1u << r.range(7, 13);
        break;
    case 3: // preempt right after hand-over operations
        g.p_hot = 1u << r.range(11, 15);
        g.p_switch = 32;
        break;
    case 4: // round robin quantum
        g.quantum = 1 << r.range(0, 10);
        break;
    case 5: // API thread starved
    case 6: // API thread greedy
        g.p_switch = 1u << r.range(7, 13);
        break;
    }
}

static inline bool hot(int kind) {
    return kind == K_ASTORE || kind == K_ARMW || kind == K_UNLOCK || kind == K_SIGNAL || kind == K_BCAST ||
           kind == K_CREATE || kind == K_WAIT;
}

// Chooses the next fibre among the runnable ones. blocked: current cannot continue.
static int strat_choose(const int *r, int n, bool blocked, int kind) {
    Rng &g_ = g.rng;
    int cur = g.cur;
    if (g.fair) { // round robin, quantum 64
        if (!blocked && (g.k - g.fair_start) % 64) return cur;
        for (int i = 0; i < n; i++) if (r[i] > cur) return r[i];
        return r[0];
    }
    switch (g.strat) {
    case 0:
        if (!blocked && (g_.next() & 65535) >= g.p_switch) return cur;
        return r[g_.below(n)];
    case 1: {
        while (g.change_pos < g.change.size() && g.k >= g.change[g.change_pos]) {
            g.change_pos++;
            if (cur >= 0) g.f[cur]->prio = g.low_prio--;
        }
        int best = r[0];
        for (int i = 1; i < n; i++)
            if (g.f[r[i]]->prio > g.f[best]->prio) best = r[i];
        return best; }
    case 2: {
        if (g.k >= g.starve_end) {
            g.starve_mask = (uint32_t)g_.next() & (uint32_t)g_.next();
            g.starve_end = g.k + (1ull << g_.range(4, 14));
        }
        int a[600], m = 0;
        for (int i = 0; i < n; i++) if (!(g.starve_mask >> (r[i] & 31) & 1)) a[m++] = r[i];
        if (!m) { if (!blocked && (g_.next() & 65535) >= g.p_switch) return cur; return r[g_.below(n)]; }
        bool cur_ok = !blocked && !(g.starve_mask >> (cur & 31) & 1);
        if (cur_ok && (g_.next() & 65535) >= g.p_switch) return cur;
        return a[g_.below(m)]; }
    case 3:
        if (!blocked && (g_.next() & 65535) >= (hot(kind) ? g.p_hot : g.p_switch)) return cur;
        return r[g_.below(n)];
    case 4:
        if (!blocked && g.k % g.quantum) return cur;
        for (int i = 0; i < n; i++) if (r[i] > cur) return r[i];
        return r[0];
    case 5:
        if (n > 1 && r[0] == 0) {
            if (!blocked && cur != 0 && (g_.next() & 65535) >= g.p_switch) return cur;
            return r[1 + g_.below(n - 1)];
        }
        if (!blocked && (g_.next() & 65535) >= g.p_switch) return cur;
        return r[g_.below(n)];
    case 6:
        if (r[0] == 0) return 0;
        if (!blocked && (g_.next() & 65535) >= g.p_switch) return cur;
        return r[g_.below(n)];
    }
    return blocked ? r[0] : cur;
}

static int default_choice(const int *r, int n, bool blocked) {
    if (!blocked) return g.cur;
    for (int i = 0; i < n; i++) if (r[i] > g.cur) return r[i];
    return r[0];
}

static void do_spurious(int tid) {
    Fiber *f = g.f[tid].get();
    if (f->st != FS_COND) return;
    CondObj &c = g.c[f->cond_id];
    for (size_t i = 0; i < c.waiters.size(); i++)
        if (c.waiters[i] == tid) { c.waiters.erase(c.waiters.begin() + i); break; }
    f->st = FS_RUN;
    g.st.spurious++;
}

static void cap_check() {
    if (!g.fair && g.k > g.o.step_cap) { g.fair = true; g.fair_start = g.k; }
    // a look at the task queues takes longer the more workers and frame contexts there are
    if (g.fair && g.k - g.fair_start > 8 * g.o.step_cap * (1 + g.f.size() / 16))
        fail("livelock", "no progress after %llu steps (fair scheduling for the last %llu); fibres:%s",
             (unsigned long long)g.k, (unsigned long long)(g.k - g.fair_start), describe_blocked().c_str());
}

// Returns the fibre to run next; handles deviations and recording.
static int decide(bool blocked, int kind) {
    int r[600];
    int n;
    if (g.o.explicit_sched) {
        int want = -1;
        while (g.dev_pos < g.o.devs.size() && g.o.devs[g.dev_pos].k <= g.k) {
            const Dev &d = g.o.devs[g.dev_pos++];
            if (d.k != g.k) continue;
            if (d.type == 'P') { if (d.val >= 0 && d.val < (int)g.f.size()) { do_spurious(d.val); g.rec.push_back(d); } }
            else if (d.type == 'S') want = d.val;
            else if (d.type == 'W') { g.dev_pos--; break; }
        }
        if (!blocked && want < 0 && !g.fair) return g.cur;
        n = runnable_list(r);
        if (!n) return -1;
        int def = default_choice(r, n, blocked);
        if (g.fair) return strat_choose(r, n, blocked, kind);
        if (want >= 0) for (int i = 0; i < n; i++) if (r[i] == want) {
            if (want != def) g.rec.push_back({g.k, 'S', want});
            return want;
        }
        return def;
    }
    if (g.o.spurious && (int)(g.rng.next() & 65535) < g.o.spurious) {
        int w[600], m = 0;
        for (auto &fp : g.f) if (fp->st == FS_COND && m < 600) w[m++] = fp->id;
        if (m) { int t = w[g.rng.below(m)]; do_spurious(t); g.rec.push_back({g.k, 'P', t}); }
    }
    n = runnable_list(r);
    if (!n) return -1;
    int def = default_choice(r, n, blocked);
    if (n == 1 && r[0] == g.cur) return g.cur;
    int c = strat_choose(r, n, blocked, kind);
    if (c != def && !g.fair) g.rec.push_back({g.k, 'S', c});
    return c;
}

void point(Kind kind, uint64_t obj) {
    if (!g.on || g.cur < 0) return;
    g.k++;
    g.st.kinds[kind]++;
    if (kind != K_BB) g.st.trace_hash = mix(g.st.trace_hash, (uint64_t)g.cur << 40 ^ (uint64_t)kind << 32 ^ obj);
    if ((g.k & 1023) == 0) cap_check();
    if (g.f.size() == 1) return;
    int c = decide(false, kind);
    if (c >= 0 && c != g.cur) switch_to(c);
}

static void block() { // current is not FS_RUN: pick another fibre
    g.k++;
    cap_check();
    int c = decide(true, K_WAIT);
    if (c < 0) {
        // let a spurious wakeup not rescue a deadlock: this is one.
        fail("deadlock", "all fibres blocked:%s", describe_blocked().c_str());
    }
    if (c != g.cur) switch_to(c);
}

static void fiber_entry() {
    Fiber *f = g.f[g.cur].get();
#ifdef SIM_ASAN
    {
        const void *b; size_t s;
        __sanitizer_finish_switch_fiber(nullptr, &b, &s);
        if (!g.host_bottom) { g.host_bottom = b; g.host_size = s; }
    }
#endif
    sim_tsan_acquire(f);
    { HarnessScope hs; f->fn(); }
    sim_tsan_release(f);
    f->st = FS_DONE;
    g.k++;
    g.st.trace_hash = mix(g.st.trace_hash, 0xE000 + f->id);
    for (auto &o : g.f) if (o->st == FS_JOIN && o->wait_obj == f->id) o->st = FS_RUN;
    bool all = true;
    for (auto &o : g.f) if (o->st != FS_DONE) all = false;
    if (all || f->id == 0) switch_to_host();
    int c = decide(true, K_EXIT);
    if (c < 0) fail("deadlock", "all fibres blocked:%s", describe_blocked().c_str());
    switch_to(c);
    abort();
}

static int new_fiber(const char *name, const std::function<void()> &fn, bool library) {
    if (g.f.size() >= 590) fail("harness", "too many fibres");
    auto f = std::make_unique<Fiber>();
    f->id = (int)g.f.size();
    f->fn = fn;
    f->library = library;
    snprintf(f->name, sizeof f->name, "%s", name);
    f->stack = stack_get();
    f->stack_sz = STACK_SZ + 8192;
    f->prio = (int)(g.rng.next() >> 40) + 1000;
    uintptr_t top = (uintptr_t)(f->stack + f->stack_sz) & ~(uintptr_t)63;
    void **sp = (void **)top;
    *--sp = nullptr;                 // alignment / fake return address
    *--sp = (void *)fiber_entry;     // ret target
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(f->stack + 4096, f->stack_sz - 4096);
#endif
#ifdef SIM_TSAN
    f->tsan = __tsan_create_fiber(0);
#endif
    sim_tsan_release(f.get());
    g.f.push_back(std::move(f));
    return (int)g.f.size() - 1;
}

int spawn(const char *name, const std::function<void()> &fn) {
    int id = new_fiber(name, fn, false);
    point(K_CREATE, id);
    return id;
}

static void join_fiber(int id) {
    Fiber *t = g.f[id].get();
    point(K_JOIN, id);
    while (t->st != FS_DONE) {
        Fiber *me = g.f[g.cur].get();
        me->st = FS_JOIN;
        me->wait_obj = id;
        block();
    }
    t->joined = true;
    sim_tsan_acquire(t);
}
void join(int id) { join_fiber(id); }

void block_until(const std::function<bool()> &cond) {
    point(K_API);
    while (!cond()) {
        Fiber *me = g.f[g.cur].get();
        me->st = FS_HARNESS;
        me->wait_obj = -1;
        me->pred = cond;
        block();
    }
}

// ---------------------------------------------------------------- faults
// One number per allocation that could fail: same call site and size, same number (numbered by first appearance).
static bool want_classes;
static std::vector<uint32_t> cls;
static std::map<std::pair<uintptr_t, size_t>, uint32_t> cls_ids;
void alloc_classes_record(bool on) { want_classes = on; if (on) { cls.clear(); cls_ids.clear(); } }
const std::vector<uint32_t> &alloc_classes() { return cls; }

static bool plan_fault(FaultType t, void *site = nullptr, size_t size = 0) {
    if (!g.on || !g.faults_on) return false;
    uint64_t i = g.st.asked[t]++;
    if (want_classes && t == F_ALLOC) {
        cls.resize((size_t)i + 1);
        cls[(size_t)i] = cls_ids.emplace(std::make_pair((uintptr_t)site, size), (uint32_t)cls_ids.size()).first->second;
    }
    for (auto &f : g.o.faults)
        if (f.type == t && i >= f.idx && (f.len < 0 || i < f.idx + (uint64_t)f.len)) {
            g.st.fired[t]++;
            g.st.trace_hash = mix(g.st.trace_hash, 0xFA000 + t * 16 + i * 4096);
            return true;
        }
    return false;
}
bool fault(FaultType t) { return plan_fault(t); }
void faults_enable(bool on) { g.faults_on = on; }

// ---------------------------------------------------------------- heap
struct Block { uint8_t *user; uint8_t *base; size_t sz; uint64_t id; };
static const size_t GUARD = 64;
static const uint8_t GUARD_B = 0xFB, FREED_B = 0xDE;
static struct Heap {
    Block *tab = nullptr; size_t cap = 0, n = 0;
    uint64_t next_id = 0, bytes = 0, peak = 0; size_t largest = 0;
    size_t base_n = 0; uint64_t base_bytes = 0, base_id = 0;
    std::vector<Block> quarantine; size_t qbytes = 0; size_t qhead = 0;
} H;

static const size_t MAX_BLOCK = 96u << 20, MAX_HEAP = 512u << 20;
static size_t slot(const void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 32 & (H.cap - 1); }
static void tab_put(const Block &b) {
    if (H.n * 2 >= H.cap) {
        size_t oc = H.cap; Block *ot = H.tab;
        H.cap = oc ? oc * 2 : 4096;
        H.tab = (Block *)calloc(H.cap, sizeof(Block));
        for (size_t i = 0; i < oc; i++) if (ot[i].user) {
            size_t s = slot(ot[i].user);
            while (H.tab[s].user) s = (s + 1) & (H.cap - 1);
            H.tab[s] = ot[i];
        }
        free(ot);
    }
    size_t s = slot(b.user);
    while (H.tab[s].user) s = (s + 1) & (H.cap - 1);
    H.tab[s] = b;
    H.n++;
}
static Block *tab_get(const void *p) {
    if (!H.cap) return nullptr;
    size_t s = slot(p);
    while (H.tab[s].user) { if (H.tab[s].user == p) return &H.tab[s]; s = (s + 1) & (H.cap - 1); }
    return nullptr;
}
static void tab_del(Block *b) {
    size_t i = b - H.tab;
    H.tab[i].user = nullptr;
    H.n--;
    size_t j = i;
    for (;;) {
        j = (j + 1) & (H.cap - 1);
        if (!H.tab[j].user) break;
        size_t k = slot(H.tab[j].user);
        if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
        H.tab[i] = H.tab[j];
        H.tab[j].user = nullptr;
        i = j;
    }
}

static void fill(uint8_t *p, size_t n, uint64_t salt) {
    switch (g.o.fill_mode) {
    case 0: memset(p, 0xA5, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 0x00, n); break;
    default: {
        uint64_t v = mix(salt, g.o.seed + g.o.fill_mode);
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { memcpy(p + i, &v, 8); v = v * 6364136223846793005ull + 1442695040888963407ull; }
        for (; i < n; i++) p[i] = (uint8_t)(v >> (i & 7) * 8);
    } }
}

#if defined(SIM_ASAN) || defined(SIM_TSAN)
#define PLAIN_HEAP 0
#else
#define PLAIN_HEAP 1
#endif

static bool all_byte(const uint8_t *p, size_t n, uint8_t v) {
    if (!n) return true;
    return p[0] == v && !memcmp(p, p + 1, n - 1);
}
static void verify_block(const Block &b) {
#if PLAIN_HEAP
    if (!all_byte(b.user - GUARD, GUARD, GUARD_B))
        fail("heap-underflow", "write before heap block #%llu of %zu bytes", (unsigned long long)b.id, b.sz);
    if (!all_byte(b.user + b.sz, GUARD, GUARD_B))
        fail("heap-overflow", "write after heap block #%llu of %zu bytes", (unsigned long long)b.id, b.sz);
#endif
}
static void verify_quarantine(const Block &b) {
    if (!all_byte(b.user, b.sz, FREED_B)) {
        size_t i = 0;
        while (b.user[i] == FREED_B) i++;
        fail("use-after-free-write", "freed heap block #%llu of %zu bytes was written at offset %zu",
             (unsigned long long)b.id, b.sz, i);
    }
}

static void *heap_alloc(size_t sz, size_t align) {
    if (align < 16) align = 16;
    if (sz > H.largest) H.largest = sz; // also when refused
    if (sz > MAX_BLOCK || H.bytes + sz > MAX_HEAP) return nullptr; // the simulated machine is out of memory
    uint8_t *base, *user;
#if PLAIN_HEAP
    size_t pad = align > GUARD ? align : GUARD;
    if (sz > ((size_t)1 << 40)) return nullptr;
    base = (uint8_t *)memalign(align > 64 ? align : 64, sz + pad + GUARD);
    if (!base) return nullptr;
    user = base + pad;
    memset(user - GUARD, GUARD_B, GUARD);
    memset(user + sz, GUARD_B, GUARD);
#else
    void *q = nullptr;
    if (sz > ((size_t)1 << 40)) return nullptr;
    if (align <= 16) q = malloc(sz);
    else if (posix_memalign(&q, align, sz)) q = nullptr;
    base = user = (uint8_t *)q;
    if (!base) return nullptr;
#endif
    uint64_t id = H.next_id++;
    fill(user, sz, id);
    tab_put({user, base, sz, id});
    H.bytes += sz;
    if (H.bytes > H.peak) H.peak = H.bytes;
    g.st.allocs++;
    g.st.alloc_bytes += sz;
    return user;
}
static void heap_free(void *p) {
    if (!p) return;
    Block *b = tab_get(p);
    if (!b) fail("bad-free", "free of a pointer that is not an allocated block (double free or foreign pointer) on fibre %s",
                 current_name());
    Block x = *b;
    verify_block(x);
    tab_del(b);
    H.bytes -= x.sz;
#if PLAIN_HEAP
    memset(x.user, FREED_B, x.sz);
    H.quarantine.push_back(x);
    H.qbytes += x.sz;
    while ((H.qbytes > (96u << 20) || H.quarantine.size() - H.qhead > 8192) && H.qhead < H.quarantine.size()) {
        Block q = H.quarantine[H.qhead++];
        verify_quarantine(q);
        H.qbytes -= q.sz;
        free(q.base);
    }
#else
    { LibScope ls; free(x.base); }
#endif
}
void check_heap() {
    for (size_t i = 0; i < H.cap; i++) if (H.tab[i].user) verify_block(H.tab[i]);
    for (size_t i = H.qhead; i < H.quarantine.size(); i++) verify_quarantine(H.quarantine[i]);
}
static void heap_flush_quarantine() {
    for (size_t i = H.qhead; i < H.quarantine.size(); i++) { verify_quarantine(H.quarantine[i]); free(H.quarantine[i].base); }
    H.quarantine.clear(); H.qhead = 0; H.qbytes = 0;
}
Ledger ledger() {
    Ledger l{};
    l.live_blocks = H.n > H.base_n ? H.n - H.base_n : 0; l.live_bytes = H.bytes > H.base_bytes ? H.bytes - H.base_bytes : 0;
    for (auto &m : g.m) l.live_mutexes += m.live;
    for (auto &c : g.c) l.live_conds += c.live;
    for (auto &f : g.f) l.live_threads += f->library && !f->joined;
    l.live_attrs = g.live_attrs;
    return l;
}
std::string ledger_describe() {
    std::string s;
    char b[96];
    int n = 0;
    for (size_t i = 0; i < H.cap && n < 6; i++) if (H.tab[i].user && H.tab[i].id >= H.base_id) {
        snprintf(b, sizeof b, " block#%llu(%zu bytes)", (unsigned long long)(H.tab[i].id - H.base_id), H.tab[i].sz);
        s += b; n++;
    }
    return s;
}
void end_process() {
    check_heap();
    g.dead = true;
    for (size_t i = 0; i < H.cap;) {
        if (!H.tab[i].user || H.tab[i].id < H.base_id) { i++; continue; }
        Block x = H.tab[i];
        tab_del(&H.tab[i]); // may move another block here
        H.bytes -= x.sz;
        free(x.base);
    }
    for (auto &m : g.m) m.live = false;
    for (auto &c : g.c) c.live = false;
    for (auto &f : g.f) f->joined = true;
    g.live_attrs = 0;
}
size_t largest_alloc() { return H.largest; }
size_t peak_bytes() { return H.peak; }
void reset_peak() { H.largest = 0; H.peak = H.bytes; }

void reset_once() { for (auto p : onces) { int z = 0; memcpy(p, &z, sizeof z); } onces.clear(); }

// Library globals: saved before the first call, restored to simulate a new process.
extern "C" {
extern char __start_simlib_bss[] __attribute__((weak)), __stop_simlib_bss[] __attribute__((weak));
extern char __start_simlib_data[] __attribute__((weak)), __stop_simlib_data[] __attribute__((weak));
}
static void cold_state(bool restore) {
    static std::vector<char> *save = nullptr;
    size_t nb = __stop_simlib_bss - __start_simlib_bss, nd = __stop_simlib_data - __start_simlib_data;
    auto copy = [](char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i]; };
    if (!save) {
        save = new std::vector<char>(nb + nd);
        if (nb) copy(save->data(), __start_simlib_bss, nb);
        if (nd) copy(save->data() + nb, __start_simlib_data, nd);
    } else if (restore) {
        if (nb) copy(__start_simlib_bss, save->data(), nb);
        if (nd) copy(__start_simlib_data, save->data() + nb, nd);
        onces.clear();
    }
}
size_t library_globals() { return (__stop_simlib_bss - __start_simlib_bss) + (__stop_simlib_data - __start_simlib_data); }

// ---------------------------------------------------------------- run
void run(const Options &o, const std::function<void()> &fn) {
    g.o = o;
    g.st = Stats();
    for (auto &f : g.f) {
        if (f->stack && f->st == FS_DONE) stack_pool.push_back(f->stack);
#ifdef SIM_TSAN
        if (f->tsan) __tsan_destroy_fiber(f->tsan);
#endif
    }
    g.f.clear();
    g.m.clear(); g.c.clear(); g.rec.clear(); g.rec.reserve(1 << 18);
    g.live_attrs = 0;
    g.dead = false;
    g.k = 0; g.dev_pos = 0; g.cur = -1;
    g.rng = Rng(mix(o.seed, 0x5C4ED));
    g.change.clear(); g.change_pos = 0; g.starve_end = 0; g.fair = false;
    g.faults_on = o.fault_active_at_start;
    H.peak = H.bytes; H.largest = 0; H.base_n = H.n; H.base_bytes = H.bytes; H.base_id = H.next_id;
    cold_state(o.cold);
    strat_init();
    g.on = true;
#ifdef SIM_TSAN
    g.host_tsan = __tsan_get_current_fiber();
#endif
#ifdef SIM_ASAN
    g.host_bottom = nullptr;
#endif
    int id = new_fiber("api", fn, false);
    switch_to(id);
    g.on = false;
    g.cur = -1;
    g.st.points = g.k;
    for (auto &f : g.f) if (f->st == FS_DONE) sim_tsan_acquire(f.get());
    for (auto &f : g.f) if (f->st != FS_DONE && !g.dead) {
        fail("thread-leak", "threads still alive after everything was closed:%s", describe_blocked().c_str());
    }
    heap_flush_quarantine();
}

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- seams called by library code
#define HS HarnessScope hs_
extern "C" {

void sim_atomic_point(int kind, const volatile void *addr) { HS;
    (void)addr;
    point(kind == 1 ? K_ALOAD : kind == 2 ? K_ASTORE : K_ARMW);
}

void *sim_malloc(size_t n) { HS; if (plan_fault(F_ALLOC, __builtin_return_address(0), n)) { errno = ENOMEM; return nullptr; } return heap_alloc(n, 16); }
void sim_free(void *p) { HS; if (p) point(K_FREE); heap_free(p); }
void *sim_calloc(size_t a, size_t b) { HS;
    if (plan_fault(F_ALLOC, __builtin_return_address(0), a * b)) { errno = ENOMEM; return nullptr; }
    if (b && a > SIZE_MAX / b) return nullptr;
    void *p = heap_alloc(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void *sim_realloc(void *p, size_t n) { HS;
    if (plan_fault(F_ALLOC, __builtin_return_address(0), n)) { errno = ENOMEM; return nullptr; }
    if (!p) return heap_alloc(n, 16);
    Block *b = tab_get(p);
    if (!b) fail("bad-free", "realloc of a pointer that is not an allocated block");
    size_t os = b->sz;
    void *q = heap_alloc(n, 16);
    if (!q) return nullptr;
    memcpy(q, p, os < n ? os : n);
    heap_free(p);
    return q;
}
int sim_posix_memalign(void **out, size_t al, size_t n) { HS;
    if (plan_fault(F_ALLOC, __builtin_return_address(0), n)) return ENOMEM;
    void *p = heap_alloc(n, al);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) { void *p; return sim_posix_memalign(&p, al, n) ? nullptr : p; }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
char *sim_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *)sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}

// --- mutex
static const uint32_t MMAGIC = 0x4D555458, CMAGIC = 0x434F4E44;
struct Tag { uint32_t magic, id; };
static int mutex_id(pthread_mutex_t *m, const char *op) {
    Tag t;
    memcpy(&t, m, sizeof t);
    if (t.magic == 0 && t.id == 0) { // static initialiser (or zeroed memory, which glibc accepts too)
        t.magic = MMAGIC; t.id = (uint32_t)g.m.size();
        g.m.push_back(MutexObj());
        memcpy(m, &t, sizeof t);
        return (int)t.id;
    }
    if (t.magic != MMAGIC || t.id >= g.m.size())
        fail("sync-misuse", "%s of an uninitialised mutex", op);
    return (int)t.id;
}
int sim_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { HS;
    g.st.mutexes++;
    if (plan_fault(F_MUTEX)) return ENOMEM;
    Tag t = {MMAGIC, (uint32_t)g.m.size()};
    MutexObj o;
    o.live = true;
    g.m.push_back(o);
    memcpy(m, &t, sizeof t);
    return 0;
}
int sim_mutex_destroy(pthread_mutex_t *m) { HS;
    Tag t;
    memcpy(&t, m, sizeof t);
    if (t.magic == 0 && t.id == 0) return 0; // destroying a zeroed mutex is harmless in glibc
    int id = mutex_id(m, "destroy");
    if (!g.m[id].live) fail("sync-misuse", "mutex destroyed twice");
    if (g.m[id].owner >= 0) fail("sync-misuse", "mutex destroyed while locked");
    for (auto &f : g.f) if (f->st == FS_MUTEX && f->wait_obj == id) fail("sync-misuse", "mutex destroyed while waited for");
    g.m[id].live = false;
    t.magic = 0x44454144;
    memcpy(m, &t, sizeof t);
    return 0;
}
static uint64_t tsan_mx[65536]; // stand-in addresses for lock ordering
static void lock_id(int id) {
    Fiber *me = g.f[g.cur].get();
    if (g.m[id].owner == g.cur)
        fail("deadlock", "fibre %d:%s locks a mutex it already holds;%s", g.cur, me->name, describe_blocked().c_str());
    while (g.m[id].owner >= 0) {
        g.st.contended++;
        me->st = FS_MUTEX;
        me->wait_obj = id;
        block();
    }
    g.m[id].owner = g.cur;
    sim_tsan_acquire(&tsan_mx[id & 65535]);
}
static void unlock_id(int id) {
    sim_tsan_release(&tsan_mx[id & 65535]);
    g.m[id].owner = -1;
    for (auto &f : g.f) if (f->st == FS_MUTEX && f->wait_obj == id) f->st = FS_RUN;
}
int sim_mutex_lock(pthread_mutex_t *m) { HS;
    int id = mutex_id(m, "lock");
    if (g.cur < 0) return 0;
    point(K_LOCK, id);
    lock_id(id);
    return 0;
}
int sim_mutex_trylock(pthread_mutex_t *m) { HS;
    int id = mutex_id(m, "trylock");
    if (g.cur < 0) return 0;
    point(K_LOCK, id);
    if (g.m[id].owner >= 0) return EBUSY;
    lock_id(id);
    return 0;
}
int sim_mutex_unlock(pthread_mutex_t *m) { HS;
    int id = mutex_id(m, "unlock");
    if (g.cur < 0) return 0;
    if (g.m[id].owner != g.cur)
        fail("sync-misuse", "fibre %d:%s unlocks a mutex it does not hold", g.cur, current_name());
    unlock_id(id);
    point(K_UNLOCK, id);
    return 0;
}
// --- cond
static int cond_id(pthread_cond_t *c, const char *op) {
    Tag t;
    memcpy(&t, c, sizeof t);
    if (t.magic == 0 && t.id == 0) {
        t.magic = CMAGIC; t.id = (uint32_t)g.c.size();
        g.c.push_back(CondObj());
        memcpy(c, &t, sizeof t);
        return (int)t.id;
    }
    if (t.magic != CMAGIC || t.id >= g.c.size()) fail("sync-misuse", "%s of an uninitialised condition", op);
    return (int)t.id;
}
int sim_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { HS;
    g.st.conds++;
    if (plan_fault(F_COND)) return ENOMEM;
    Tag t = {CMAGIC, (uint32_t)g.c.size()};
    CondObj o;
    o.live = true;
    g.c.push_back(o);
    memcpy(c, &t, sizeof t);
    return 0;
}
int sim_cond_destroy(pthread_cond_t *c) { HS;
    Tag t;
    memcpy(&t, c, sizeof t);
    if (t.magic == 0 && t.id == 0) return 0;
    int id = cond_id(c, "destroy");
    if (!g.c[id].live) fail("sync-misuse", "condition destroyed twice");
    if (!g.c[id].waiters.empty()) fail("sync-misuse", "condition destroyed while waited for");
    g.c[id].live = false;
    t.magic = 0x44454144;
    memcpy(c, &t, sizeof t);
    return 0;
}
int sim_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { HS;
    int id = cond_id(c, "wait"), mid = mutex_id(m, "wait");
    point(K_WAIT, id);
    if (g.m[mid].owner != g.cur) fail("sync-misuse", "condition wait without holding the mutex");
    g.st.cond_waits++;
    unlock_id(mid);
    Fiber *me = g.f[g.cur].get();
    me->st = FS_COND;
    me->wait_obj = id;
    me->cond_id = id;
    g.c[id].waiters.push_back(g.cur);
    block();
    // resumed
    lock_id(mid);
    return 0;
}
struct timespec;
int sim_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    return sim_cond_wait(c, m);
}
static void wake(int id, size_t i) {
    int t = g.c[id].waiters[i];
    g.c[id].waiters.erase(g.c[id].waiters.begin() + i);
    g.f[t]->st = FS_RUN;
}
int sim_cond_signal(pthread_cond_t *c) { HS;
    int id = cond_id(c, "signal");
    point(K_SIGNAL, id);
    if (g.cur < 0 || g.c[id].waiters.empty()) return 0;
    size_t n = g.c[id].waiters.size(), w = 0;
    if (n > 1) {
        g.k++; // own decision index
        if (g.o.explicit_sched) {
            while (g.dev_pos < g.o.devs.size() && g.o.devs[g.dev_pos].k <= g.k) {
                const Dev &d = g.o.devs[g.dev_pos++];
                if (d.k == g.k && d.type == 'W' && d.val < (int)n) { w = d.val; if (w) g.rec.push_back(d); }
            }
        } else if (!g.fair) {
            w = g.rng.below((uint32_t)n);
            if (w) g.rec.push_back({g.k, 'W', (int)w});
        }
    }
    g.st.trace_hash = mix(g.st.trace_hash, 0x51600 + w);
    wake(id, w);
    return 0;
}
int sim_cond_broadcast(pthread_cond_t *c) { HS;
    int id = cond_id(c, "broadcast");
    point(K_BCAST, id);
    if (g.cur < 0) return 0;
    while (!g.c[id].waiters.empty()) wake(id, 0);
    return 0;
}
// --- threads
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) { HS;
    g.st.threads++;
    if (plan_fault(F_THREAD)) return EAGAIN;
    int id = new_fiber("worker", [fn, arg] { LibScope ls; fn(arg); }, true);
    *t = (pthread_t)(id + 1);
    point(K_CREATE, id);
    return 0;
}
int sim_pthread_join(pthread_t t, void **ret) { HS;
    int id = (int)t - 1;
    if (id < 0 || id >= (int)g.f.size() || !g.f[id]->library) fail("sync-misuse", "join of an unknown thread");
    if (g.f[id]->joined) fail("sync-misuse", "thread joined twice");
    join_fiber(id);
    if (ret) *ret = nullptr;
    return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t)(g.cur + 1); }
int sim_pthread_attr_init(pthread_attr_t *) { g.live_attrs++; return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *) { g.live_attrs--; return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    HS;
    int v;
    memcpy(&v, o, sizeof v);
    point(K_ONCE);
    memcpy(&v, o, sizeof v);
    if (v == 0) {
        onces.push_back(o);
        v = 1;
        memcpy(o, &v, sizeof v);
        { LibScope ls; fn(); }
        v = 2;
        sim_tsan_release(o);
        memcpy(o, &v, sizeof v);
        for (auto &f : g.f) if (f->st == FS_ONCE) f->st = FS_RUN;
        point(K_ONCE);
        return 0;
    }
    while (v == 1) {
        Fiber *me = g.f[g.cur].get();
        me->st = FS_ONCE;
        block();
        memcpy(&v, o, sizeof v);
    }
    sim_tsan_acquire(o);
    return 0;
}
int sim_pthread_getaffinity_np(pthread_t, size_t sz, cpu_set_t *s) { HS;
    memset(s, 0, sz);
    for (int i = 0; i < g.o.ncpu; i++) CPU_SET(i, s);
    return 0;
}
long sim_sysconf(int) { return g.o.ncpu; }
int sim_prctl(int op, ...) { HS;
    if (op == 15 && g.cur >= 0) {
        va_list ap;
        va_start(ap, op);
        const char *n = va_arg(ap, const char *);
        va_end(ap);
        snprintf(g.f[g.cur]->name, sizeof g.f[0]->name, "%.15s", n);
    }
    return 0;
}
void *sim_dlsym(void *, const char *) { return nullptr; }
void sim_assert_fail(const char *expr, const char *file, unsigned line, const char *func) {
    const char *b = strrchr(file, '/');
    fail("assert", "assertion `%s' failed in %s (%s:%u)", expr, func, b ? b + 1 : file, line);
}
void sim_abort(void) { fail("abort", "abort() called by the library"); }

// --- coverage
static size_t guard_n = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = (uint32_t)++guard_n;
    sim::cov_n = guard_n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) { HS;
    if (sim::cov_shared && *guard < 65536) sim::cov_shared[*guard] = 1;
    if (g.o.bb_points && g.on && g.cur >= 0) point(K_BB);
}
}
namespace sim {
size_t cov_edges() {
    size_t n = 0;
    if (cov_shared) for (size_t i = 0; i < 65536; i++) n += cov_shared[i];
    return n;
}
}
