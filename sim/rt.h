// Deterministic simulator runtime: fibres, scheduler, locks, heap, faults.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * (uint64_t)n >> 32) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below((uint32_t)den) < num; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const char *s);

enum Kind : uint8_t {
    K_NONE, K_ALOAD, K_ASTORE, K_ARMW, K_LOCK, K_UNLOCK, K_WAIT, K_SIGNAL, K_BCAST,
    K_CREATE, K_JOIN, K_ONCE, K_BB, K_API, K_EXIT, K_FREE, K_CB, NKINDS
};

enum FaultType { F_ALLOC, F_THREAD, F_MUTEX, F_COND, F_PIC, F_IO, NFAULTS };
extern const char *const fault_names[NFAULTS];
struct Fault { int type; uint64_t idx; int len; };  // idx .. idx+len-1 fail (len<0: for ever)

// Non-default scheduling decision.
struct Dev { uint64_t k; int type; int val; };  // 'S' switch to fibre, 'W' waiter choice, 'P' spurious wake

struct Options {
    uint64_t seed = 1;
    bool explicit_sched = false;      // follow devs only
    std::vector<Dev> devs;
    std::vector<Fault> faults;
    bool fault_active_at_start = true;
    int strategy = -1;                // -1: from seed
    bool bb_points = false;
    int spurious = 0;                 // per-65536 chance at a point
    uint64_t step_cap = 30000000;     // then fair mode, then violation
    int fill_mode = 0;
    int ncpu = 4;
    bool cold = false;                // library state as in a new process
    int alloc_zero_limit = 0;
};

struct Stats {
    uint64_t points = 0, switches = 0, kinds[NKINDS] = {0};
    uint64_t allocs = 0, mutexes = 0, conds = 0, threads = 0, alloc_bytes = 0, peak_bytes = 0;
    uint64_t fired[NFAULTS] = {0}, asked[NFAULTS] = {0};
    uint64_t spurious = 0, contended = 0, cond_waits = 0;
    uint64_t trace_hash = 0;          // order of points over fibres
    uint64_t shape_hash = 0;          // order of sync hand-overs (distinct interleavings)
    int strategy = 0;
};

// Runs fn on fibre 0 under the simulator. Returns when it and all other fibres ended.
void run(const Options &o, const std::function<void()> &fn);
const Stats &stats();
void alloc_classes_record(bool on);
const std::vector<uint32_t> &alloc_classes(); // per allocation index: call site and size, numbered by first appearance
const std::vector<Dev> &decisions();  // decisions taken in the last run

// from inside
bool active();
int current();
bool current_is_library();
const char *current_name();
void point(Kind k, uint64_t obj = 0);
int spawn(const char *name, const std::function<void()> &fn);
void join(int id);
void block_until(const std::function<bool()> &cond);   // cooperative wait of a harness fibre
bool fault(FaultType t);               // consult the plan for a harness-level fault
void faults_enable(bool on);
uint64_t now();                        // points so far

// ledger
struct Ledger { uint64_t live_blocks, live_bytes, live_mutexes, live_conds, live_threads, live_attrs; };
Ledger ledger();
std::string ledger_describe();
size_t largest_alloc();
size_t peak_bytes();
void reset_peak();
void check_heap();                     // verify guards and freed memory
size_t library_globals();
void end_process();                    // fibre 0 only: the simulated process ends here, its threads and memory vanish
void reset_once();                     // forget one-time initialisations (new "process")

// violations
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern void (*fail_hook)(const char *kind, const char *msg);

// harness-owned tracked memory (input buffers, pictures) with guards
extern uint8_t *cov_shared;            // bitmap shared between processes
extern size_t cov_n;
size_t cov_edges();
}
// Race detection sees library code only: harness code runs inside HarnessScope,
// library calls made by the harness inside LibScope.
#ifdef SIM_TSAN
extern "C" void AnnotateIgnoreReadsBegin(const char *f, int l);
extern "C" void AnnotateIgnoreReadsEnd(const char *f, int l);
extern "C" void AnnotateIgnoreWritesBegin(const char *f, int l);
extern "C" void AnnotateIgnoreWritesEnd(const char *f, int l);
static inline void tsan_ign_on() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); }
static inline void tsan_ign_off() { AnnotateIgnoreReadsEnd("", 0); AnnotateIgnoreWritesEnd("", 0); }
#else
static inline void tsan_ign_on() {}
static inline void tsan_ign_off() {}
#endif
struct HarnessScope { HarnessScope() { tsan_ign_on(); } ~HarnessScope() { tsan_ign_off(); } };
struct LibScope { LibScope() { tsan_ign_off(); } ~LibScope() { tsan_ign_on(); } };
extern "C" void sim_tsan_acquire(void *p);
extern "C" void sim_tsan_release(void *p);
