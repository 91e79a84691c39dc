// Scenarios: one per property. A case is (property, seed, repetition, overrides, schedule, faults).
#pragma once
#include "host.h"
#include <unordered_map>

struct Case {
    std::string prop;
    uint64_t seed = 1;
    int rep = -1;                       // -1: all repetitions
    std::map<std::string, int> over;
    bool explicit_sched = false;
    std::vector<sim::Dev> devs;
    bool have_faults = false;
    std::vector<sim::Fault> faults;
};

static const size_t MAX_DEVS = 1 << 19, MAX_KNOBS_TXT = 1 << 17, MAX_RUNS = 256, MAX_PROBES = 192;
struct RunRec { uint64_t shape, trace; uint32_t points; uint8_t nontrivial; };
struct Slot { // shared with the parent process
    int status;                         // 0 running, 1 finished, 2 violation
    char kind[64], msg[4096];
    int rep;
    uint64_t trace;
    uint32_t ndevs, nfaults;
    sim::Dev devs[MAX_DEVS];
    sim::Fault faults[64];
    char knobs[MAX_KNOBS_TXT];          // name value lo per line
    char log[32768];
    char desc[2048];
    uint32_t nruns;
    RunRec runs[MAX_RUNS];
    uint64_t fired[sim::NFAULTS], asked[sim::NFAULTS], kinds[sim::NKINDS], spurious, contended, cond_waits, switches, points, threads, allocs;
    uint64_t strat[8], api_calls, pictures, frames, rejected, streams;
    uint32_t nprobes;
    struct { char name[40]; uint64_t n; } probes[MAX_PROBES];
};
extern Slot *slot;
void probe(const char *name, uint64_t n = 1);

struct Env {
    const Case *cs;
    Knobs K, R;                         // stream-level and repetition-level choices
    int rep = 0;
    std::string desc;
    std::vector<sim::Fault> plan;       // faults of this repetition (when not given by the case)
    bool nontrivial = false;
    std::map<std::string, std::shared_ptr<host::Oracle>> streams;
    host::Oracle *stream(const std::string &name, const GenOpt &go);   // nullptr: rejected
    sim::Options sched();
    void main_run(int chk, const std::function<void()> &fn, const sim::Options *base = nullptr);
    void begin(int r);
    void finish();
};
struct Scenario { const char *prop; void (*fn)(Env &); int reps; };
extern const Scenario scenarios[];
extern Env *cur_env;
void run_case(const Case &c, int reps);
void on_fail(const char *kind, const char *msg);
void dump_stream(const char *path, uint64_t seed, const std::map<std::string, int> &over);
