// Driver: seeded search over cases in child processes, replay gate, minimiser.
#include "scen.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#ifdef SIM_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:print_legend=0:use_sigaltstack=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }
#endif
#ifdef SIM_TSAN
extern "C" const char *__tsan_default_options() { return "halt_on_error=0:report_signal_unsafe=0:report_thread_leaks=0:report_destroy_locked=0:report_mutex_bugs=0:detect_deadlocks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:exitcode=0:history_size=4:die_after_fork=0:atexit_sleep_ms=0"; }
#endif
#ifdef SIM_ASAN
static const char *const VARIANT = "asan";
#elif defined(SIM_TSAN)
static const char *const VARIANT = "tsan";
#else
static const char *const VARIANT = "plain";
#endif

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int err_fd = -1;

static std::string sanitizer_text() { // tail of the captured diagnostics
    std::string s;
    if (err_fd < 0) return s;
    off_t n = lseek(err_fd, 0, SEEK_END);
    size_t want = (size_t)std::min<off_t>(n, 6000);
    s.resize(want);
    ssize_t r = pread(err_fd, &s[0], want, 0);
    s.resize(r > 0 ? r : 0);
    return s;
}
static std::string summary_of(const std::string &t) {
    size_t p = t.find("SUMMARY:");
    if (p == std::string::npos) p = t.find("runtime error:");
    if (p == std::string::npos) return t.substr(0, 300);
    size_t b = t.rfind('\n', p);
    b = b == std::string::npos ? 0 : b + 1;
    return t.substr(b, t.find('\n', p) - b);
}
static void crash_handler(int sig, siginfo_t *, void *) {
    const char *k = sig == SIGSEGV ? "crash-segv" : sig == SIGBUS ? "crash-bus" : sig == SIGFPE ? "crash-fpe" : sig == SIGILL ? "crash-ill" : sig == SIGVTALRM ? "hang" : "crash-abort";
    char m[300];
    snprintf(m, sizeof m, "%s on fibre %d:%s", sig == SIGVTALRM ? "no end of a library call (CPU time limit)" : strsignal(sig), sim::current(), sim::current_name());
    on_fail(k, m);
}
#ifdef SIM_ASAN
static void death() {
    std::string t = sanitizer_text(), s = summary_of(t);
    // strip the pid and addresses
    on_fail("sanitizer", (s + " | " + t.substr(0, 2500)).c_str());
}
#endif
#ifdef SIM_TSAN
static int race_seen = 0;
extern "C" void __tsan_on_report(void *) { race_seen = 1; }
extern "C" void sim_check_race() {
    if (!race_seen) return;
    std::string t = sanitizer_text();
    on_fail("data-race", (summary_of(t) + " | " + t.substr(0, 3000)).c_str());
}
#endif

static Slot *new_slot() {
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(99); }
    return (Slot *)p;
}
static void clear_slot(Slot *s) {
    // only the used parts
    s->status = 0; s->kind[0] = s->msg[0] = s->knobs[0] = s->log[0] = s->desc[0] = 0;
    s->ndevs = s->nfaults = s->nruns = s->nprobes = 0;
    s->trace = 0; s->rep = -1;
    memset(s->fired, 0, (char *)&s->nprobes - (char *)s->fired);
}
static void child_setup() {
    err_fd = memfd_create("err", 0);
    if (err_fd >= 0) dup2(err_fd, 2);
    static char alt[1 << 16];
    stack_t st = {};
    st.ss_sp = alt; st.ss_size = sizeof alt;
    sigaltstack(&st, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
#ifdef SIM_ASAN
    __sanitizer_set_death_callback(death);
#endif
    sim::fail_hook = on_fail;
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
static pid_t launch(Slot *s, const Case &c, int reps) {
    clear_slot(s);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p) return p;
    slot = s;
    child_setup();
    run_case(c, reps);
    s->status = 1;
    _exit(0);
}
static void reap_status(Slot *s, int st) { // classify abnormal ends that left no report
    if (s->status) return;
    snprintf(s->kind, sizeof s->kind, "process-died");
    snprintf(s->msg, sizeof s->msg, "simulated process ended with wait status 0x%x without a report", st);
    s->status = 3;
}
struct Result { int status; std::string kind, msg, knobs, log, desc; int rep; uint64_t trace; std::vector<sim::Dev> devs; std::vector<sim::Fault> faults; };
static Result take(Slot *s) {
    Result r;
    r.status = s->status; r.kind = s->kind; r.msg = s->msg; r.knobs = s->knobs; r.log = s->log; r.desc = s->desc; r.rep = s->rep; r.trace = s->trace;
    r.devs.assign(s->devs, s->devs + s->ndevs);
    r.faults.assign(s->faults, s->faults + s->nfaults);
    return r;
}
static Slot *aux = nullptr;
static Result run_one(const Case &c, int reps = 0) {
    if (!aux) aux = new_slot();
    pid_t p = launch(aux, c, reps);
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    reap_status(aux, st);
    return take(aux);
}

// ------------------------------------------------------------------ replay file
static void write_replay(const std::string &path, const Case &c, const Result &r) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(99); }
    fprintf(f, "simreplay 1\nproperty %s\nvariant %s\nseed %llu\nrep %d\nkind %s\ntrace %016llx\n", c.prop.c_str(), VARIANT, (unsigned long long)c.seed, c.rep, r.kind.c_str(), (unsigned long long)r.trace);
    for (auto &x : c.over) fprintf(f, "knob %s %d\n", x.first.c_str(), x.second);
    fprintf(f, "explicit %d\n", c.explicit_sched);
    for (auto &x : c.devs) fprintf(f, "sched %llu %c %d\n", (unsigned long long)x.k, x.type, x.val);
    fprintf(f, "faultplan %d\n", c.have_faults);
    for (auto &x : c.faults) fprintf(f, "fault %s %llu %d\n", sim::fault_names[x.type], (unsigned long long)x.idx, x.len);
    auto block = [&](const char *name, const std::string &t) {
        size_t a = 0;
        while (a < t.size()) { size_t b = t.find('\n', a); if (b == std::string::npos) b = t.size(); fprintf(f, "# %s: %s\n", name, t.substr(a, b - a).c_str()); a = b + 1; }
    };
    block("message", r.msg);
    block("case", r.desc);
    block("choice", r.knobs);
    block("history", r.log);
    fclose(f);
}
static bool read_replay(const std::string &path, Case &c, std::string &kind, uint64_t &trace, std::string &variant) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f) return false;
    char line[8192], a[256], b[256];
    while (fgets(line, sizeof line, f)) {
        unsigned long long u; int v; char ch;
        if (line[0] == '#') continue;
        if (sscanf(line, "property %255s", a) == 1) c.prop = a;
        else if (sscanf(line, "variant %255s", a) == 1) variant = a;
        else if (sscanf(line, "seed %llu", &u) == 1) c.seed = u;
        else if (sscanf(line, "rep %d", &v) == 1) c.rep = v;
        else if (sscanf(line, "kind %255s", a) == 1) kind = a;
        else if (sscanf(line, "trace %llx", &u) == 1) trace = u;
        else if (sscanf(line, "knob %255s %d", a, &v) == 2) c.over[a] = v;
        else if (sscanf(line, "explicit %d", &v) == 1) c.explicit_sched = v;
        else if (sscanf(line, "sched %llu %c %d", &u, &ch, &v) == 3) c.devs.push_back({u, ch, v});
        else if (sscanf(line, "faultplan %d", &v) == 1) c.have_faults = v;
        else if (sscanf(line, "fault %255s %llu %d", b, &u, &v) == 3) for (int i = 0; i < sim::NFAULTS; i++) if (!strcmp(b, sim::fault_names[i])) c.faults.push_back({i, u, v});
    }
    fclose(f);
    return true;
}

// ------------------------------------------------------------------ known findings
struct Known { std::string prop, kind, match, what; };
static std::vector<Known> known;
static void load_known(const char *path) { // lines: known|property|kind|substring of the message|description
    FILE *f = fopen(path, "r");
    if (!f) return;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        if (strncmp(line, "known|", 6)) continue;
        std::vector<std::string> p;
        std::string s = line;
        while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
        size_t a = 0;
        for (;;) { size_t b = s.find('|', a); p.push_back(s.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
        if (p.size() >= 5) known.push_back({p[1], p[2], p[3], p[4]});
    }
    fclose(f);
}
static const Known *is_known(const std::string &prop, const Result &r) {
    for (auto &k : known) if (k.prop == prop && k.kind == r.kind && r.msg.find(k.match) != std::string::npos) return &k;
    return nullptr;
}

// ------------------------------------------------------------------ minimiser
static std::map<std::string, int> parse_knobs(const std::string &t) {
    std::map<std::string, int> m;
    size_t a = 0;
    while (a < t.size()) {
        size_t b = t.find('\n', a);
        if (b == std::string::npos) break;
        char n[256]; int v;
        if (sscanf(t.substr(a, b - a).c_str(), "%255s %d", n, &v) == 2) m[n] = v;
        a = b + 1;
    }
    return m;
}
static void minimise(Case &best, Result &br, double budget) {
    double end = now_s() + budget;
    std::string kind = br.kind;
    auto left = [&] { return end - now_s(); };
    auto attempt = [&](const Case &c) {
        Result r = run_one(c);
        if (r.status == 2 && r.kind == kind && !is_known(c.prop, r)) { best = c; br = r; return true; }
        return false;
    };
    // 1. simpler choices, schedule still drawn from the seed
    static const char *const order[] = {"nf", "nsec", "feat", "two", "r.dmg", "r.ndmg", "r.sp", "r.bb", "r.thr", "r.delay", "r.hold", "r.cut", "r.pat", "r.flushp", "r.closep", "r.graintoo", "r.alloc", "r.grain", "r.invis",
        "r.opx", "r.dftx", "r.inl", "r.strict", "r.log", "r.late", "w", "h", "fmt", "r.nrd", "r.nfl", "hidp", "exp", "keyp", "gop", nullptr};
    for (int round = 0; round < 2 && left() > budget * 0.45; round++) {
        auto ks = parse_knobs(br.knobs);
        for (int i = 0; order[i] && left() > budget * 0.45; i++) for (auto &k : ks) {
            std::string n = k.first;
            bool hit = n == order[i];
            size_t d = n.find('.');
            if (!hit && d != std::string::npos && n.substr(d + 1) == order[i] && n[0] != 'r') hit = true; // per-stream prefix
            if (!hit || left() < budget * 0.45) continue;
            std::vector<int> cand;
            if (!strcmp(order[i], "feat")) { for (int b = 0; b < 29; b++) if (k.second >> b & 1) cand.push_back(k.second & ~(1 << b)); }
            else if (!strcmp(order[i], "nf")) { for (int v = 1; v < k.second; v = v * 2) cand.push_back(v); }
            else if (!strcmp(order[i], "r.thr")) { for (int v : {1, 2, 3, 4}) if (v < k.second) cand.push_back(v); }
            else if (k.second > 0) { cand.push_back(0); if (k.second > 1) cand.push_back(1); }
            int cur = k.second;
            for (int v : cand) {
                if (left() < budget * 0.45) break;
                if (!strcmp(order[i], "feat")) { v = cur & v; if (v == cur) continue; }
                Case c = best;
                c.over[n] = v;
                c.explicit_sched = false; c.devs.clear();
                if (c.have_faults && br.faults.empty()) c.have_faults = false;
                if (attempt(c)) { if (!strcmp(order[i], "feat")) cur = v; else break; }
            }
        }
    }
    // 2. explicit schedule and faults
    {
        Case c = best;
        c.explicit_sched = true; c.devs = br.devs;
        c.have_faults = true; c.faults = br.faults;
        Result r = run_one(c);
        if (r.status != 2 || r.kind != kind) return; // keep the seeded form
        best = c; br = r;
    }
    // 3. fewer faults
    for (size_t i = 0; i < best.faults.size() && left() > 0;) {
        Case c = best;
        c.faults.erase(c.faults.begin() + i);
        if (!attempt(c)) i++;
    }
    // 4. fewer scheduling decisions (ddmin)
    size_t n = 2;
    { Case c = best; c.devs.clear(); if (!c.devs.empty() || best.devs.size()) attempt(c); }
    while (best.devs.size() >= 1 && left() > 0) {
        size_t sz = best.devs.size(), step = std::max<size_t>(1, sz / n);
        bool got = false;
        for (size_t a = 0; a < sz && left() > 0; a += step) {
            Case c = best;
            size_t b = std::min(sz, a + step);
            c.devs.erase(c.devs.begin() + a, c.devs.begin() + b);
            if (attempt(c)) { got = true; break; }
        }
        if (got) { n = std::max<size_t>(2, n - 1); continue; }
        if (step == 1) break;
        n = std::min(best.devs.size(), n * 2);
    }
}

// ------------------------------------------------------------------ search
static void jstr(FILE *f, const std::string &s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

int main(int argc, char **argv) {
    std::string prop, out, replay, kfile, dump, replay_out = "replay.txt";
    double secs = 30, minsecs = 30;
    uint64_t seed = 1;
    long maxcases = 1L << 60;
    int jobs = 8, reps = 0, rep = -1;
    bool verbose = false, keepgoing = false;
    std::map<std::string, int> over;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--prop") prop = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--time") secs = atof(val().c_str());
        else if (a == "--mintime") minsecs = atof(val().c_str());
        else if (a == "--cases") maxcases = atol(val().c_str());
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--reps") reps = atoi(val().c_str());
        else if (a == "--rep") rep = atoi(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-out") replay_out = val();
        else if (a == "--known") kfile = val();
        else if (a == "-v") verbose = true;
        else if (a == "-k") keepgoing = true;
        else if (a == "--dump") dump = val();
        else if (a == "--knob") { std::string n = val(); over[n] = atoi(val().c_str()); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (!kfile.empty()) load_known(kfile.c_str());
    sim::cov_shared = (uint8_t *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if (!dump.empty()) { // write a generated stream as an IVF file
        slot = new_slot();
        dump_stream(dump.c_str(), seed, over);
        return 0;
    }
    if (!replay.empty()) {
        Case c;
        std::string kind, variant;
        uint64_t trace = 0;
        if (!read_replay(replay, c, kind, trace, variant)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        Result r = run_one(c);
        printf("replay: status %d kind %s (recorded %s) trace %016llx (recorded %016llx)\n%s\n", r.status, r.kind.c_str(), kind.c_str(), (unsigned long long)r.trace, (unsigned long long)trace, r.msg.c_str());
        if (verbose) printf("%s\n%s\n%s", r.desc.c_str(), r.knobs.c_str(), r.log.c_str());
        if (r.status == 2 && r.kind == kind && r.trace == trace) return 1;
        return r.status == 1 ? 0 : 4;
    }

    double t0 = now_s();
    struct Worker { Slot *s; pid_t pid = 0; Case c; };
    std::vector<Worker> w(jobs);
    for (auto &x : w) x.s = new_slot();
    std::unordered_set<uint64_t> shapes, traces;
    uint64_t evals = 0, nontriv = 0, started = 0, done_cases = 0;
    uint64_t fired[sim::NFAULTS] = {0}, asked[sim::NFAULTS] = {0}, kinds[sim::NKINDS] = {0}, strat[8] = {0};
    uint64_t spurious = 0, contended = 0, cond_waits = 0, switches = 0, points = 0, threads = 0, allocs = 0, api = 0, pics = 0, frames = 0, rejected = 0, streams = 0, maxpoints = 0;
    std::map<std::string, uint64_t> probes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> known_hits;
    std::map<std::string, std::pair<uint64_t, std::string>> kg;
    Result bad; Case badc; bool found = false; int unrep = 0;
    uint64_t next = 0;
    int running = 0;
    bool stop = false;
    auto merge = [&](Worker &x) {
        Slot *s = x.s;
        for (uint32_t i = 0; i < s->nruns; i++) {
            evals++;
            if (verbose && s->runs[i].points > 3000000) fprintf(stderr, "LONG seed %llu run %u points %u\n", (unsigned long long)x.c.seed, i, s->runs[i].points);
            maxpoints = std::max<uint64_t>(maxpoints, s->runs[i].points);
            traces.insert(s->runs[i].trace);
            if (s->runs[i].nontrivial && shapes.insert(sim::mix(s->runs[i].shape, s->runs[i].trace)).second) nontriv++;
        }
        for (int i = 0; i < sim::NFAULTS; i++) { fired[i] += s->fired[i]; asked[i] += s->asked[i]; }
        for (int i = 0; i < sim::NKINDS; i++) kinds[i] += s->kinds[i];
        for (int i = 0; i < 8; i++) strat[i] += s->strat[i];
        spurious += s->spurious; contended += s->contended; cond_waits += s->cond_waits; switches += s->switches; points += s->points;
        threads += s->threads; allocs += s->allocs; api += s->api_calls; pics += s->pictures; frames += s->frames; rejected += s->rejected; streams += s->streams;
        for (uint32_t i = 0; i < s->nprobes; i++) probes[s->probes[i].name] += s->probes[i].n;
        if (samples.size() < 6 && s->desc[0]) samples.push_back("seed " + std::to_string(x.c.seed) + ": " + s->desc);
    };
    while (running || !stop) {
        if (!stop && (now_s() - t0 > secs || (long)started >= maxcases)) stop = true;
        if (!stop) for (auto &x : w) if (!x.pid) {
            if ((long)started >= maxcases) break;
            x.c = Case();
            x.c.prop = prop; x.c.seed = maxcases == 1 ? seed : sim::mix(seed, next++) >> 16; x.c.over = over; x.c.rep = rep;
            x.pid = launch(x.s, x.c, reps);
            running++; started++;
        }
        if (!running) break;
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (auto &x : w) if (x.pid == p) {
            x.pid = 0; running--; done_cases++;
            reap_status(x.s, st);
            merge(x);
            if (x.s->status >= 2 && !found) {
                Result r = take(x.s);
                if (verbose) fprintf(stderr, "seed %llu rep %d: %s: %s\n   %s\n", (unsigned long long)x.c.seed, r.rep, r.kind.c_str(), r.msg.substr(0, 3000).c_str(), r.desc.c_str());
                const Known *k = is_known(prop, r);
                if (k) { known_hits[k->what]++; break; }
                if (keepgoing) {
                    std::string kk = r.kind; size_t bar = r.msg.find(" | "); if (bar != std::string::npos) kk += " " + r.msg.substr(0, bar);
                    auto &q = kg[kk];
                    if (!q.first++) q.second = "seed " + std::to_string(x.c.seed) + " rep " + std::to_string(r.rep) + ": " + r.msg.substr(0, 300);
                    break;
                }
                Case cc = x.c; cc.rep = r.rep;
                { // the same seed in a fresh process must give the same violation and the same trace
                    Result again = run_one(cc);
                    if (r.status == 3 || again.status != r.status || again.kind != r.kind || again.trace != r.trace) {
                        fprintf(stderr, "%s seed %llu rep %d: first %s %016llx (%s), then %s %016llx (%s)\n", r.status == 3 ? "HARNESS" : "UNREPRODUCIBLE", (unsigned long long)cc.seed, cc.rep, r.kind.c_str(), (unsigned long long)r.trace, r.msg.c_str(),
                                again.kind.c_str(), (unsigned long long)again.trace, again.msg.c_str());
                        if (++unrep > 20) stop = true;
                        break;
                    }
                }
                found = true; stop = true; bad = r; badc = cc;
                for (auto &y : w) if (y.pid) kill(y.pid, SIGKILL);
            }
        }
    }
    double search_s = now_s() - t0;
    int rc = found || !unrep ? 0 : 3;
    for (auto &q : kg) printf("KIND %s x%llu %s\n", q.first.c_str(), (unsigned long long)q.second.first, q.second.second.c_str());
    if (found) {
        Case mc = badc; Result mr = bad;
        if (bad.kind != "hang") minimise(mc, mr, minsecs);
        Result fin = run_one(mc);
        if (fin.status != 2 || fin.kind != mr.kind || fin.trace != mr.trace) { mc = badc; mr = bad; }
        write_replay(replay_out, mc, mr);
        // and the replay file itself, in a newly executed program
        char self[4096];
        ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1);
        if (l > 0) {
            self[l] = 0;
            std::string cmd = std::string(self) + " --replay '" + replay_out + "' >/dev/null 2>&1";
            int s = system(cmd.c_str());
            if (!WIFEXITED(s) || WEXITSTATUS(s) != 1) { fprintf(stderr, "UNREPRODUCIBLE replay file %s (status %x)\n", replay_out.c_str(), s); return 3; }
        }
        printf("violation: %s: %s\n", mr.kind.c_str(), mr.msg.substr(0, 1500).c_str());
        printf("case: seed %llu rep %d, %zu scheduling decisions, %zu faults; %s\n", (unsigned long long)mc.seed, mc.rep, mc.explicit_sched ? mc.devs.size() : mr.devs.size(), mr.faults.size(), mr.desc.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_out.c_str());
        rc = 1;
    }
    for (auto &k : known_hits) printf("KNOWN-FINDING: property=%s %s (hit %llu times)\n", prop.c_str(), k.first.c_str(), (unsigned long long)k.second);
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); return 99; }
        static const char *const kn[] = {"none", "atomic_load", "atomic_store", "atomic_rmw", "lock", "unlock", "cond_wait", "cond_signal", "cond_broadcast", "thread_create", "join", "once", "basic_block", "api_call", "exit", "free", "callback"};
        static const char *const sn[] = {"sticky_random_walk", "pct", "starvation_windows", "preempt_after_handover", "round_robin_quantum", "api_thread_starved", "api_thread_greedy", "other"};
        fprintf(f, "{\"variant\":\"%s\",\"rc\":%d,\"cases\":%llu,\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"distinct_traces\":%zu,\"search_s\":%.3f,\"steps\":%llu,\"max_steps\":%llu,\"switches\":%llu,",
                VARIANT, rc, (unsigned long long)done_cases, (unsigned long long)evals, (unsigned long long)nontriv, traces.size(), search_s, (unsigned long long)points, (unsigned long long)maxpoints, (unsigned long long)switches);
        fprintf(f, "\"contended_locks\":%llu,\"cond_waits\":%llu,\"threads_created\":%llu,\"allocations\":%llu,\"api_calls\":%llu,\"pictures\":%llu,\"frames\":%llu,\"streams\":%llu,\"rejected_streams\":%llu,\"edges\":%zu,\"edges_total\":%zu,",
                (unsigned long long)contended, (unsigned long long)cond_waits, (unsigned long long)threads, (unsigned long long)allocs, (unsigned long long)api, (unsigned long long)pics, (unsigned long long)frames,
                (unsigned long long)streams, (unsigned long long)rejected, sim::cov_edges(), sim::cov_n);
        fprintf(f, "\"faults_fired\":{");
        for (int i = 0; i < sim::NFAULTS; i++) fprintf(f, "\"%s\":%llu,", sim::fault_names[i], (unsigned long long)fired[i]);
        fprintf(f, "\"spurious_wakeup\":%llu},\"fault_opportunities\":{", (unsigned long long)spurious);
        for (int i = 0; i < sim::NFAULTS; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", sim::fault_names[i], (unsigned long long)asked[i]);
        fprintf(f, "},\"points\":{");
        for (int i = 1; i < sim::NKINDS; i++) fprintf(f, "%s\"%s\":%llu", i > 1 ? "," : "", kn[i], (unsigned long long)kinds[i]);
        fprintf(f, "},\"strategies\":{");
        for (int i = 0; i < 7; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", sn[i], (unsigned long long)strat[i]);
        fprintf(f, "},\"probes\":{");
        bool first = true;
        for (auto &p : probes) { if (!first) fputc(',', f); first = false; jstr(f, p.first); fprintf(f, ":%llu", (unsigned long long)p.second); }
        fprintf(f, "},\"known\":{");
        first = true;
        for (auto &p : known_hits) { if (!first) fputc(',', f); first = false; jstr(f, p.first); fprintf(f, ":%llu", (unsigned long long)p.second); }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto &s : samples) { if (!first) fputc(',', f); first = false; jstr(f, s); }
        fprintf(f, "]}\n");
        fclose(f);
    }
    if (verbose || keepgoing) fprintf(stderr, "%llu cases %llu runs (%llu distinct nontrivial) in %.1f s, %llu steps (max %llu), %llu/%llu streams rejected, edges %zu/%zu\n", (unsigned long long)done_cases, (unsigned long long)evals,
        (unsigned long long)nontriv, search_s, (unsigned long long)points, (unsigned long long)maxpoints, (unsigned long long)rejected, (unsigned long long)streams, sim::cov_edges(), sim::cov_n);
    return rc;
}
