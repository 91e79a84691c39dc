#include <cmath>
#include "scen.h"
#include "cli.h"
#include "play.h"
#if __has_include(<xxhash.h>)
#define XXH_INLINE_ALL
#include <xxhash.h>
#endif
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

using namespace host;
using sim::Rng; using sim::mix; using sim::fail;

#ifdef SIM_TSAN
extern "C" void sim_check_race();
#endif
Slot *slot = nullptr;
Env *cur_env = nullptr;

void probe(const char *name, uint64_t n) {
    if (!slot || !n) return;
    for (uint32_t i = 0; i < slot->nprobes; i++) if (!strcmp(slot->probes[i].name, name)) { slot->probes[i].n += n; return; }
    if (slot->nprobes >= MAX_PROBES) return;
    snprintf(slot->probes[slot->nprobes].name, sizeof slot->probes[0].name, "%s", name);
    slot->probes[slot->nprobes++].n = n;
}

static void dump_slot() {
    if (!slot || !cur_env) return;
    Env &e = *cur_env;
    slot->rep = e.rep;
    slot->trace = sim::stats().trace_hash;
    auto &d = sim::decisions();
    slot->ndevs = (uint32_t)std::min(d.size(), MAX_DEVS);
    if (slot->ndevs) memcpy(slot->devs, d.data(), slot->ndevs * sizeof(sim::Dev));
    const auto &f = e.cs->have_faults ? e.cs->faults : e.plan;
    slot->nfaults = (uint32_t)std::min<size_t>(f.size(), 64);
    for (uint32_t i = 0; i < slot->nfaults; i++) slot->faults[i] = f[i];
    size_t n = 0;
    for (const Knobs *k : {&e.K, &e.R}) for (auto &x : k->used) {
        int m = snprintf(slot->knobs + n, MAX_KNOBS_TXT - n, "%s %d\n", x.first.c_str(), x.second);
        if (m < 0 || n + m >= MAX_KNOBS_TXT) break;
        n += m;
    }
    size_t l = api_log.size(), cap = sizeof slot->log - 1;
    memcpy(slot->log, api_log.data() + (l > cap ? l - cap : 0), std::min(l, cap));
    slot->log[std::min(l, cap)] = 0;
    snprintf(slot->desc, sizeof slot->desc, "%s", e.desc.c_str());
}
void on_fail(const char *kind, const char *msg) {
    if (slot && slot->status == 0) {
        snprintf(slot->kind, sizeof slot->kind, "%s", kind);
        snprintf(slot->msg, sizeof slot->msg, "%s", msg);
        dump_slot();
        slot->status = 2;
    }
    _exit(77);
}

// ------------------------------------------------------------------ environment
host::Oracle *Env::stream(const std::string &name, const GenOpt &go) {
    auto it = streams.find(name);
    if (it != streams.end()) return it->second->ok ? it->second.get() : nullptr;
    auto o = std::make_shared<Oracle>();
    make_stream(K, go, name, *o);
    streams[name] = o;
    slot->streams++;
    if (!o->wrong.empty()) fail("valid-stream-rejected", "%s frame %d: %s", o->s.desc.c_str(), o->bad_frame, o->wrong.c_str());
    if (!o->ok) { slot->rejected++; return nullptr; }
    return o.get();
}
static void reset_watchdog() {
    struct itimerval t = {};
#if defined(SIM_ASAN) || defined(SIM_TSAN)
    t.it_value.tv_sec = 120;
#else
    t.it_value.tv_sec = 40;
#endif
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
void Env::begin(int r) {
    rep = r;
    R = Knobs();
    R.seed = mix(cs->seed, 0xBEE0000 + r);
    R.over = cs->over;
    plan.clear();
    nontrivial = false;
    desc.clear();
    reset_watchdog();
}
sim::Options Env::sched() {
    sim::Options o;
    o.seed = mix(R.seed, 0x5EED);
    o.strategy = R.set("r.strat", -1);
#if !defined(SIM_ASAN) && !defined(SIM_TSAN)
    o.bb_points = R.flag("r.bb", 1, 10);
#endif
    if (R.flag("r.sp", 1, 5)) o.spurious = 1 << R.get("r.spr", 3, 11);
    o.fill_mode = R.get("r.fill", 0, 3);
    o.step_cap = o.bb_points ? 5000000 : 500000;
    o.ncpu = R.pick("r.ncpu", {1, 2, 4, 8});
    return o;
}
void Env::main_run(int chk, const std::function<void()> &fn, const sim::Options *base) {
    sim::Options o = base ? *base : sched();
    if (cs->explicit_sched) { o.explicit_sched = true; o.devs = cs->devs; }
    if (cs->have_faults) o.faults = cs->faults;
    else o.faults = plan;
    World w;
    W = &w;
    w.chk = chk;
    reset_depth();
    api_log.clear();
    sim::run(o, fn);
#ifdef SIM_TSAN
    sim_check_race();
#endif
    w.verify_integrity();
    w.verify_released();
    W = nullptr;
    auto &s = sim::stats();
    for (int i = 0; i < sim::NFAULTS; i++) { slot->fired[i] += s.fired[i]; slot->asked[i] += s.asked[i]; }
    for (int i = 0; i < sim::NKINDS; i++) slot->kinds[i] += s.kinds[i];
    slot->spurious += s.spurious; slot->contended += s.contended; slot->cond_waits += s.cond_waits;
    slot->switches += s.switches; slot->points += s.points; slot->threads += s.threads; slot->allocs += s.allocs;
    if (s.strategy >= 0 && s.strategy < 8) slot->strat[s.strategy]++;
    if (slot->nruns < MAX_RUNS) {
        RunRec &r = slot->runs[slot->nruns++];
        r.shape = s.shape_hash; r.trace = s.trace_hash; r.points = (uint32_t)std::min<uint64_t>(s.points, UINT32_MAX);
        r.nontrivial = nontrivial;
    }
}

// ------------------------------------------------------------------ building blocks
enum { V_THREADS = 1, V_LAYERS = 2, V_INVIS = 4, V_INLOOP = 8, V_ALLOC = 16, V_STRICT = 32, V_DFT = 64, V_LOG = 128, V_GRAIN = 256, V_MT = 512 };
static AllocCfg pick_alloc(Env &e, bool custom_only = false) {
    AllocCfg a;
    a.mode = custom_only ? e.R.pick("r.alloc", {1, 1, 2}) : e.R.pick("r.alloc", {0, 0, 1, 1, 2});
    if (a.mode) {
        a.pad = e.R.pick("r.pad", {0, 0, 1, 3});
        a.neg = e.R.flag("r.neg", 1, 4);
        a.fill = e.R.get("r.afill", 0, 9);
    }
    return a;
}
static Settings pick_settings(Env &e, int v, const Stream *s = nullptr) {
    Settings t;
    Knobs &R = e.R;
    t.threads = (v & V_MT) ? R.pick("r.thr", {2, 2, 3, 3, 4, 4, 5, 6, 8, 12, 16}) : R.pick("r.thr", {1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12, 16});
    int dm = R.get("r.delaym", 0, 5);
    t.delay = dm == 0 ? 0 : dm == 1 ? 1 : R.get("r.delay", 2, std::max(2, std::min(t.threads, 10)));
    if ((v & V_THREADS) && R.flag("r.thr0", 1, 24)) t.threads = 0;
    if ((v & V_LAYERS) && s) {
        int nops = 1;
        for (auto &q : s->seqs) nops = std::max(nops, q.nops);
        t.op = R.flag("r.opx", 1, 2) ? R.get("r.op", 0, std::min(nops, 31)) : 0;
        t.all_layers = R.flag("r.alll", 1, 2);
    }
    if (v & V_INVIS) t.invisible = R.flag("r.invis", 1, 3);
    if (v & V_INLOOP) t.inloop = R.flag("r.inl", 1, 3) ? R.get("r.inloop", 0, 7) : 7;
    if (v & V_ALLOC) t.alloc = pick_alloc(e);
    if (v & V_STRICT) t.strict = R.flag("r.strict", 1, 6);
    if (v & V_DFT) t.dft = R.flag("r.dftx", 1, 3) ? R.get("r.dft", 0, 3) : 0;
    if (v & V_LOG) t.logger = R.flag("r.log", 1, 6);
    if (v & V_GRAIN) t.grain = R.flag("r.grain", 1, 2);
    return t;
}
static std::string sdesc(const Settings &s) {
    char b[200];
    snprintf(b, sizeof b, "threads=%d delay=%d grain=%d op=%d all_layers=%d strict=%d invisible=%d inloop=%d dft=%d limit=%u alloc=%d",
             s.threads, s.delay, s.grain, s.op, s.all_layers, s.strict, s.invisible, s.inloop, s.dft, s.limit, s.alloc.mode);
    return b;
}
static bool tu_chunks_only(const Stream &s, const Settings &t) { return !t.all_layers && layered(s); }
static std::vector<Chunk> pick_cut(Env &e, const Stream &s, const Settings &t, int id0, const char *k = "r.cut", bool any = false) {
    int style = tu_chunks_only(s, t) && !any ? e.R.pick(k, {CUT_TU, CUT_TU, CUT_MULTI}) : e.R.pick(k, {CUT_TU, CUT_TU, CUT_FRAME, CUT_OBU, CUT_RANDOM, CUT_MULTI});
    return cut(s, style, Rng(mix(e.R.seed, 0xC07 + id0)), id0, true);
}
static void setup_player(Env &e, Player &p, Session &S, const std::vector<Chunk> &ch, const char *k = "r.pat") {
    p.S = &S;
    p.ch = &ch;
    p.pat = e.R.get(k, 0, NPAT - 1);
    size_t units = 0;
    for (auto &c : ch) units += c.b.size() / 2 + 2;
    p.max_errs = 100 + 4 * units;
}
static void account(const Player &p) { slot->pictures += p.got.size(); slot->api_calls += p.S ? p.S->calls : 0; }

// plain single-threaded run with the same data and settings, default schedule, no faults
static bool ref_run(const std::vector<Chunk> &ch, Settings t, std::vector<PicRec> &got, size_t *nerr = nullptr, std::vector<Player::Err> *errs = nullptr, int pat = PAT_EAGER) {
    t.threads = 1; t.delay = 1;
    t.alloc = AllocCfg();
    World *old = W;
    World w;
    W = &w;
    sim::Options so;
    so.explicit_sched = true; so.fill_mode = 3; so.seed = 77;
    bool opened = true;
    sim::run(so, [&] {
        Session S;
        if (S.open(t)) { opened = false; return; }
        Player p(1);
        p.S = &S; p.ch = &ch; p.pat = pat;
        p.finish();
        got = p.got;
        if (nerr) *nerr = p.errs.size();
        if (errs) *errs = p.errs;
        S.close();
    });
    w.verify_integrity();
    W = old;
    return opened;
}
static void compare_rec(const std::vector<PicRec> &exp, const std::vector<PicRec> &got, const char *what, bool flags = false) {
    size_t n = std::min(exp.size(), got.size());
    for (size_t i = 0; i < n; i++) {
        std::string why;
        if (!same_rec(exp[i], got[i], &why) || (flags && exp[i].flags != got[i].flags)) {
            if (why.empty()) why = "flags";
            fail(why == "pix" ? "pixel-mismatch" : "picture-mismatch", "%s: picture %zu differs in %s: expected %s, got %s", what, i, why.c_str(), show(exp[i]).c_str(), show(got[i]).c_str());
        }
    }
    if (got.size() > exp.size()) fail("extra-picture", "%s: %zu pictures, expected %zu; extra: %s", what, got.size(), exp.size(), show(got[n]).c_str());
    if (got.size() < exp.size()) fail("missing-picture", "%s: %zu pictures, expected %zu; missing: %s", what, got.size(), exp.size(), show(exp[n]).c_str());
}
static std::string err_list(const std::vector<Player::Err> &v) {
    std::string s;
    char b[80];
    for (size_t i = 0; i < v.size() && i < 6; i++) { snprintf(b, sizeof b, " %s rc=%d ts=%lld", v[i].on_send ? "send" : "get", v[i].rc, (long long)v[i].ts); s += b; }
    return s;
}
static void no_errors(const Player &p, const char *what) {
    if (!p.errs.empty()) fail("unexpected-error", "%s: %zu errors reported for a valid stream:%s", what, p.errs.size(), err_list(p.errs).c_str());
}

// ---- damage
static std::vector<uint8_t> random_obu(Rng &r) {
    std::vector<uint8_t> b;
    static const int types[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 0};
    int t = types[r.below(11)];
    bool ext = r.chance(1, 4);
    b.push_back((uint8_t)(t << 3 | ext << 2 | 2));
    if (ext) b.push_back((uint8_t)r.next());
    int n = r.range(0, 40);
    b.push_back((uint8_t)n);
    for (int i = 0; i < n; i++) b.push_back((uint8_t)r.next());
    return b;
}
// One OBU loses bytes from its end, with a size field that says so: it may now end anywhere in a header or a tile size.
static void shrink(Chunk &c, Rng &r) {
    struct O { size_t at, h, l, v; };
    std::vector<O> os;
    for (size_t p = 0; p < c.b.size();) {
        size_t h = 1 + (c.b[p] >> 2 & 1), l = 0, v = 0;
        if (!(c.b[p] & 2)) break;
        bool end = false;
        while (p + h + l < c.b.size() && l < 4) { uint8_t x = c.b[p + h + l]; v |= (size_t)(x & 127) << 7 * l; l++; if (!(x & 128)) { end = true; break; } }
        if (!end || v > c.b.size() - p - h - l) break;
        if (v > 1) os.push_back({p, h, l, v});
        p += h + l + v;
    }
    if (os.empty()) { c.b.resize(std::max<size_t>(1, c.b.size() / 2)); return; }
    O o = os[r.chance(2, 3) ? os.size() - 1 : r.below((uint32_t)os.size())];
    size_t body = o.at + o.h + o.l, nv = o.v;
    std::vector<uint32_t> m;
    for (uint32_t x : c.marks) if (x >= body && x < body + o.v) m.push_back(x);
    if (!m.empty() && r.chance(2, 3)) { int d = (int)(m[r.below((uint32_t)m.size())] - body) + r.range(-1, 5); nv = (size_t)std::max(0, d); }
    else nv = r.below((uint32_t)(r.chance(1, 2) ? std::min<size_t>(o.v, 40) : o.v));
    nv = std::min(nv, o.v - 1);
    c.b.erase(c.b.begin() + body + nv, c.b.begin() + body + o.v);
    for (size_t q = 0; q < o.l; q++) c.b[o.at + o.h + q] = (uint8_t)((nv >> 7 * q & 127) | (q + 1 < o.l ? 128 : 0));
}
static size_t damage(std::vector<Chunk> &ch, size_t lo, size_t hi, Rng r, int n, std::string &desc) {
    size_t first = hi;
    static const char *const names[] = {"flip", "truncate", "drop", "dup", "swap", "noise", "obu", "cut", "hdrflip", "splice", "zero", "size", "merge", "shrink", "tilesize"};
    for (int k = 0; k < n && lo < hi; k++) {
        size_t i = lo + r.below((uint32_t)(hi - lo));
        int op = r.below(15);
        Chunk &c = ch[i];
        size_t sz = c.b.size();
        c.damaged = true;
        char t[64];
        snprintf(t, sizeof t, " %s@%d", names[op], c.id);
        desc += t;
        probe((std::string("damage:") + names[op]).c_str());
        first = std::min(first, i);
        switch (op) {
        case 0: for (int q = r.range(1, 8); q--;) c.b[r.below((uint32_t)sz)] ^= 1 << r.below(8); break;
        case 1: c.b.resize(std::max<size_t>(1, r.below((uint32_t)sz))); break;
        case 2: c.b.clear(); break;
        case 3: { Chunk d = c; ch.insert(ch.begin() + i, d); hi++; break; }
        case 4: if (i + 1 < hi) { std::swap(ch[i].b, ch[i + 1].b); ch[i + 1].damaged = true; } else c.b[0] ^= 8; break;
        case 5: { size_t a = r.below((uint32_t)sz), l = 1 + r.below(32); for (; l-- && a < sz; a++) c.b[a] = (uint8_t)r.next(); break; }
        case 6: { auto o = random_obu(r); if (r.chance(1, 2)) c.b.insert(c.b.begin(), o.begin(), o.end()); else c.b.insert(c.b.end(), o.begin(), o.end()); break; }
        case 7: { size_t a = r.below((uint32_t)sz), l = 1 + r.below((uint32_t)(sz - a)); c.b.erase(c.b.begin() + a, c.b.begin() + a + l); break; }
        case 8: for (int q = r.range(1, 3); q--;) c.b[r.below((uint32_t)std::min<size_t>(sz, 28))] ^= 1 << r.below(8); break;
        case 9: { const Chunk &d = ch[lo + r.below((uint32_t)(hi - lo))]; size_t a = r.below((uint32_t)sz); c.b.resize(a); if (!d.b.empty()) { size_t f = r.below((uint32_t)d.b.size()); std::vector<uint8_t> t2(d.b.begin() + f, d.b.end()); c.b.insert(c.b.end(), t2.begin(), t2.end()); } break; }
        case 10: { size_t a = r.below((uint32_t)sz), l = 1 + r.below(64); for (; l-- && a < sz; a++) c.b[a] = 0; break; }
        case 11: { size_t p = 1 + (c.b[0] >> 2 & 1); if (p < sz) c.b[p] = (uint8_t)r.next(); break; }
        case 12: if (i + 1 < hi) { auto b = ch[i + 1].b; c.b.insert(c.b.end(), b.begin(), b.end()); ch.erase(ch.begin() + i + 1); hi--; } break;
        case 13: shrink(c, r); break;
        case 14:
            if (c.marks.empty()) { c.b[r.below((uint32_t)sz)] ^= 1; break; }
            { size_t m = c.marks[r.below((uint32_t)c.marks.size())]; for (int q = r.range(1, 4); q-- && m < sz; m++) c.b[m] = r.chance(1, 2) ? (uint8_t)r.next() : r.chance(1, 2) ? 0 : 0xff; }
            break;
        }
        if (i < ch.size()) ch[i].marks.clear();
        if (ch[i].b.empty()) { ch.erase(ch.begin() + i); hi--; }
    }
    return first;
}
static const unsigned DAMAGE_LIMIT = 440000; // pixels: every generated picture, few of those that damaged headers describe
static GenOpt gopt(int feat = FT_ALL, int frames = 12, int dim = 256) { GenOpt g; g.feat = feat; g.maxframes = frames; g.maxdim = dim; return g; }

static void note_parallel(Env &e, const Session &S) {
    if (S.n_fc > 1) probe("frame-threaded runs");
    else if (S.s.threads != 1) probe("tile-threaded runs");
    else probe("single-threaded runs");
    e.nontrivial = true;
}

// ------------------------------------------------------------------ C01
static void c01(Env &e) {
    Oracle *o = e.stream("", gopt());
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_INLOOP | V_ALLOC | V_STRICT | V_DFT | V_GRAIN | V_MT, &o->s);
    auto ch = pick_cut(e, o->s, t, 0);
    e.desc = o->s.desc + " | " + sdesc(t);
    std::vector<PicRec> ref;
    size_t nerr = 0;
    if (!ref_run(ch, t, ref, &nerr) || nerr) { probe("settings that report errors when single-threaded"); return; }
    e.main_run(0, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        p.finish();
        note_parallel(e, S);
        no_errors(p, "multi-threaded decode");
        compare_rec(ref, p.got, "multi-threaded decode");
        slot->frames += o->s.frames.size();
        account(p);
        S.close();
    });
}

// dav1d_parse_sequence_header on bytes in a buffer of exactly their size
static int parse_seq(const uint8_t *p, size_t n, Dav1dSequenceHeader *out) {
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    memcpy(b.get(), p, n);
    int rc;
    { LibScope l; rc = dav1d_parse_sequence_header(out, b.get(), n); }
    if (memcmp(b.get(), p, n)) fail("input-modified", "dav1d_parse_sequence_header changed its input");
    return rc;
}

// ------------------------------------------------------------------ random histories (C02, C03, C04, C07, C08, C21)
struct HistOpt { int chk = 0; bool damage_ok = true; bool faults = false; bool readers = false; };
struct Shared { // pictures handed to other application threads
    std::deque<Held> q;
    bool end = false;
    int active = 0;
};
static void reader_fibre(Shared &sh, Session *, uint64_t seed, int chk) {
    Rng r(seed);
    std::deque<Held> mine;
    for (;;) {
        sim::block_until([&] { return !sh.q.empty() || sh.end; });
        if (sh.q.empty()) break;
        sim_tsan_acquire(&sh);
        Held h = sh.q.front();
        sh.q.pop_front();
        mine.push_back(h);
        while (mine.size() > 3 || (!mine.empty() && r.chance(1, 2))) {
            size_t i = r.below((uint32_t)mine.size());
            Held x = mine[i];
            mine.erase(mine.begin() + i);
            for (int k = r.range(0, 3); k--;) sim::point(sim::K_API);
            if (chk & CK_HELD) {
                PicRec n; std::string why;
                fill_rec(n, x.p);
                if (!same_rec(x.r, n, &why)) fail("picture-changed", "a picture owned by another application thread changed (%s): was %s, is %s", why.c_str(), show(x.r).c_str(), show(n).c_str());
            }
            unref_pic(&x.p);
        }
    }
    for (int k = r.range(0, 40); k--;) sim::point(sim::K_API);
    for (auto &x : mine) {
        if (chk & CK_HELD) {
            PicRec n; std::string why;
            fill_rec(n, x.p);
            if (!same_rec(x.r, n, &why)) fail("picture-changed", "a picture owned by another application thread changed (%s) after the decoder was closed", why.c_str());
        }
        unref_pic(&x.p);
    }
}

static void history(Env &e, const HistOpt &H) {
    Oracle *o = e.stream("", gopt());
    if (!o) return;
    Oracle *o2 = e.K.flag("two", 1, 3) ? e.stream("b.", gopt(FT_ALL, 6, 160)) : nullptr;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_INLOOP | V_ALLOC | V_STRICT | V_DFT | V_LOG | V_GRAIN, &o->s);
    bool dmg = H.damage_ok && e.R.flag("r.dmg", 3, 5);
    auto ch = pick_cut(e, o->s, t, 0);
    size_t n1 = ch.size();
    if (o2) { auto c2 = pick_cut(e, o2->s, t, 1000, "r.cut2"); ch.insert(ch.end(), c2.begin(), c2.end()); }
    (void)n1;
    std::string dd;
    if (dmg) {
        damage(ch, 0, ch.size(), Rng(mix(e.R.seed, 0xDA)), e.R.get("r.ndmg", 1, 6), dd);
        if (ch.empty()) return;
        t.limit = e.R.flag("r.lim", 4, 5) ? DAMAGE_LIMIT : 0;
    }
    e.desc = o->s.desc + (o2 ? " + " + o2->s.desc : "") + " | " + sdesc(t) + (dmg ? " | damage:" + dd : "");
    int flushp = e.R.pick("r.flushp", {0, 0, 2, 5, 15});
    int closep = e.R.pick("r.closep", {0, 0, 0, 1, 3});
    int graintoo = e.R.flag("r.graintoo", 1, 5);
    int hold = e.R.pick("r.hold", {0, 0, 1, 3, 8});
    int late = e.R.flag("r.late", 1, 2); // keep pictures beyond close
    if (H.readers) hold = graintoo = 0;
    int nreaders = H.readers ? e.R.get("r.nrd", 1, 3) : 0;
    if (H.faults && e.R.flag("r.flt", 2, 5) && !e.cs->have_faults) {
        Rng r(mix(e.R.seed, 0xFA));
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            static const int ft[] = {sim::F_ALLOC, sim::F_ALLOC, sim::F_ALLOC, sim::F_PIC, sim::F_THREAD, sim::F_MUTEX, sim::F_COND};
            int ty = ft[r.below(7)];
            uint64_t span = ty == sim::F_ALLOC ? (r.chance(1, 2) ? 150 : 2000) : ty == sim::F_PIC ? 20 : 40;
            e.plan.push_back({ty, r.below((uint32_t)span), r.chance(1, 5) ? -1 : r.range(1, 3)});
        }
    }
    e.main_run(H.chk, [&] {
        Shared sh;
        std::vector<int> rd;
        for (int i = 0; i < nreaders; i++) {
            uint64_t sd = mix(e.R.seed, 0x4EAD + i);
            rd.push_back(sim::spawn("app", [&sh, sd, &H] { reader_fibre(sh, nullptr, sd, H.chk); }));
        }
        Session S;
        int rc = S.open(t);
        if (rc) {
            if (e.plan.empty() && !(e.cs->have_faults && !e.cs->faults.empty())) fail("open-failed", "dav1d_open failed with %d", rc);
            probe("open failed");
        } else {
            note_parallel(e, S);
            Player p(e.R.seed);
            setup_player(e, p, S, ch);
            p.hold_max = hold;
            p.apply_grain_outside = graintoo;
            if (nreaders) p.on_pic = [&](Player &pl, Dav1dPicture &pic, PicRec &r) {
                (void)pl;
                // hand a private reference to another application thread; the player keeps nothing
                Held h; h.p = pic; h.r = r;
                sh.q.push_back(h);
                sim_tsan_release(&sh);
                memset(&pic, 0, sizeof pic);
            };
            Rng r(mix(e.R.seed, 0xF1));
            size_t steps = 0;
            bool closed_early = false;
            while (!p.done) {
                p.step();
                if (++steps > 2000000) fail("livelock", "%zu API calls without an end of the stream", steps);
                if (flushp && (int)r.below(100) < flushp) {
                    probe("flush");
                    S.flush();
                    p.last_get_eagain = p.send_blocked = false; p.eagain_run = 0;
                    if (r.chance(1, 6)) S.flush();
                    if (r.chance(1, 8) && !p.have) p.next = r.below((uint32_t)ch.size()), flushp = flushp / 2; // seek
                }
                if (closep && (int)r.below(200) < closep) { closed_early = true; break; }
                if (r.chance(1, 50)) S.flags();
                if (r.chance(1, 25)) { // any bytes, cut anywhere
                    auto &k = ch[r.below((uint32_t)ch.size())];
                    size_t n = r.chance(1, 2) ? k.b.size() : 1 + r.below((uint32_t)std::max<size_t>(1, k.b.size())), f = r.chance(2, 3) ? 0 : r.below((uint32_t)std::max<size_t>(1, n));
                    Dav1dSequenceHeader sh;
                    n = std::min(n, k.b.size());
                    if (n > f) { parse_seq(k.b.data() + f, n - f, &sh); probe("sequence headers parsed on their own"); }
                }
            }
            if (closed_early) { probe("closed with data in flight"); p.abandon(); }
            if (!p.errs.empty()) probe("runs with reported errors");
            account(p);
            if (!late) while (!S.held.empty()) S.drop_held(0);
            S.close();
            if (late && !S.held.empty()) { probe("pictures held beyond close"); if (H.chk & CK_HELD) S.check_held(true, r); }
            while (!S.held.empty()) S.drop_held(0);
        }
        sh.end = true;
        for (int id : rd) sim::join(id);
    });
}
static void c02(Env &e) { HistOpt h; h.chk = CK_API; h.faults = true; h.readers = e.R.flag("r.rd", 1, 8); history(e, h); }
static void c03(Env &e) { HistOpt h; h.chk = CK_LEDGER | CK_BUF | CK_PIC; h.readers = e.R.flag("r.rd", 1, 8); history(e, h); }
static void c04(Env &e) { HistOpt h; h.faults = e.R.flag("r.withf", 1, 10); history(e, h); }
static void c21(Env &e) { HistOpt h; h.readers = e.R.flag("r.rd", 1, 3); h.damage_ok = e.R.flag("r.dok", 1, 2); history(e, h); }

// valid stream decoded with the given checks against the reference run of the same data
static void c07(Env &e) {
    if (e.R.flag("r.h", 1, 2)) { HistOpt h; h.chk = CK_BUF | CK_API; h.faults = e.R.flag("r.withf", 1, 6); history(e, h); return; }
    Oracle *o = e.stream("", gopt());
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_ALLOC | V_GRAIN, &o->s);
    auto ch = pick_cut(e, o->s, t, 0);
    for (auto &c : ch) c.wrap = true;
    e.desc = o->s.desc + " | " + sdesc(t);
    std::vector<PicRec> ref;
    size_t nerr = 0;
    if (!ref_run(ch, t, ref, &nerr) || nerr) return;
    e.main_run(CK_BUF | CK_API, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        p.finish();
        note_parallel(e, S);
        no_errors(p, "decode");
        compare_rec(ref, p.got, "decode with buffers poisoned on release");
        account(p);
        S.close();
    });
}
static void c08(Env &e) {
    if (e.R.flag("r.h", 2, 5)) { HistOpt h; h.chk = CK_PIC | CK_FIBRE | CK_HELD; h.faults = e.R.flag("r.withf", 1, 6); h.readers = e.R.flag("r.rd", 1, 8); history(e, h); return; }
    Oracle *o = e.stream("", gopt());
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_GRAIN | V_INLOOP, &o->s);
    t.alloc = pick_alloc(e, true);
    auto ch = pick_cut(e, o->s, t, 0);
    e.desc = o->s.desc + " | " + sdesc(t);
    std::vector<PicRec> ref;
    size_t nerr = 0;
    if (!ref_run(ch, t, ref, &nerr) || nerr) return;
    int hold = e.R.pick("r.hold", {0, 1, 3, 8, 100});
    e.main_run(CK_PIC | CK_FIBRE | CK_HELD, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        p.hold_max = hold;
        p.finish();
        note_parallel(e, S);
        compare_rec(ref, p.got, "decode with a custom allocator");
        account(p);
        Rng r(mix(e.R.seed, 3));
        S.check_held(true, r);
        if (r.chance(1, 2)) { S.flush(); S.check_held(true, r); }
        S.close();
        S.check_held(true, r);
        while (!S.held.empty()) S.drop_held(0);
    });
}

// ------------------------------------------------------------------ C05
static void c05(Env &e) {
    Oracle *o = e.stream("", gopt(FT_ALL, 8, 160));
    Oracle *o2 = e.stream("b.", gopt(FT_ALL & ~FT_LAYERS, 5, 128));
    if (!o || !o2) return;
    Settings t = pick_settings(e, V_THREADS | V_INVIS | V_ALLOC | V_GRAIN, &o->s);
    auto ch = pick_cut(e, o->s, t, 0), ch2 = pick_cut(e, o2->s, t, 1000, "r.cut2");
    std::vector<PicRec> ref, ref2;
    size_t nerr = 0, nerr2 = 0;
    if (!ref_run(ch, t, ref, &nerr) || nerr || !ref_run(ch2, t, ref2, &nerr2) || nerr2) return;
    bool graintoo = e.R.flag("r.graintoo", 1, 6);
    bool flush_path = e.R.flag("r.fl", 2, 3);
    bool midflush = e.R.flag("r.midflush", 1, 6);
    int hold = e.R.pick("r.hold", {0, 0, 3});
    bool dry = false;
    uint32_t opened = 0; // allocations of dav1d_open
    auto body = [&] {
        bool with_faults = !dry;
        Session S;
        int rc = S.open(t);
        if (dry) opened = (uint32_t)sim::stats().asked[sim::F_ALLOC];
        uint64_t fired_open = 0;
        for (int i = 0; i < sim::NFAULTS; i++) fired_open += sim::stats().fired[i];
        if (rc) {
            if (!fired_open) fail("open-failed", "dav1d_open failed with %d although nothing failed", rc);
            probe("open failed");
            e.nontrivial = true;
            sim::Ledger l = sim::ledger();
            if (l.live_blocks || l.live_mutexes || l.live_conds || l.live_threads || l.live_attrs)
                fail("open-leak", "failed dav1d_open left %llu heap blocks, %llu mutexes, %llu conditions, %llu threads, %llu attributes:%s", (unsigned long long)l.live_blocks, (unsigned long long)l.live_mutexes,
                     (unsigned long long)l.live_conds, (unsigned long long)l.live_threads, (unsigned long long)l.live_attrs, sim::ledger_describe().c_str());
            sim::faults_enable(false);
            Session S2;
            if (S2.open(t)) fail("open-failed", "dav1d_open fails after the failures went away");
            Player q(e.R.seed);
            setup_player(e, q, S2, ch2);
            q.finish();
            no_errors(q, "decode after a failed open");
            compare_rec(ref2, q.got, "decode after a failed open");
            account(q);
            S2.close();
            return;
        }
        if (fired_open) probe("open survived a failure");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        p.hold_max = hold;
        p.apply_grain_outside = graintoo;
        size_t clean = 0; // pictures returned before anything failed
        uint64_t fired = 0;
        p.on_pic = [&](Player &pl, Dav1dPicture &, PicRec &) {
            if (fired == 0) for (int i = 0; i < sim::NFAULTS; i++) fired += sim::stats().fired[i];
            if (!fired) clean = pl.got.size() + 1;
        };
        size_t steps = 0, stop = midflush ? 1 + Rng(mix(e.R.seed, 9)).below(60) : 1u << 30;
        bool incomplete = false;
        while (!p.done && steps < stop) { p.step(); steps++; }
        if (!p.done) { incomplete = true; p.abandon(); }
        for (int i = 0; i < sim::NFAULTS; i++) fired += sim::stats().fired[i];
        if (with_faults && fired) e.nontrivial = true;
        if (fired && !p.errs.empty()) probe("failure reported");
        if (fired && p.errs.empty()) probe("failure without reported error");
        {
            std::vector<PicRec> a(ref.begin(), ref.begin() + std::min(clean, ref.size())), b(p.got.begin(), p.got.begin() + clean);
            if (clean > ref.size()) fail("extra-picture", "%zu pictures returned before any failure, %zu expected", clean, ref.size());
            compare_rec(a, b, "decode before the failure");
        }
        if (!fired && !incomplete) { no_errors(p, "decode"); compare_rec(ref, p.got, "decode without failures"); }
        // nothing reported and nothing missing: then nothing may be wrong
        if (!incomplete && p.errs.empty() && p.got.size() == ref.size()) {
            for (size_t i = 0; i < ref.size(); i++) if (ref[i].pix != p.got[i].pix)
                fail("silent-corruption", "a failed allocation was not reported, no picture is missing, but picture %zu is wrong: expected %s, got %s", i, show(ref[i]).c_str(), show(p.got[i]).c_str());
        }
        account(p);
        sim::faults_enable(false);
        if (flush_path) {
            S.flush();
            Player q(e.R.seed + 1);
            setup_player(e, q, S, ch2);
            q.finish();
            no_errors(q, "decode after the failure went away and a flush");
            compare_rec(ref2, q.got, "decode after the failure went away and a flush");
            account(q);
        }
        while (!S.held.empty()) S.drop_held(0);
        S.close();
    };
    e.desc = o->s.desc + " | " + sdesc(t);
    if (!e.cs->have_faults) {
        dry = true;
        sim::Options so = e.sched();
        { // count what can fail
            World w; W = &w; reset_depth(); api_log.clear();
            sim::alloc_classes_record(true);
            sim::run(so, body);
            sim::alloc_classes_record(false);
            w.verify_integrity();
            W = nullptr;
        }
        // allocations by call site and size: a rare kind is as likely to fail as a frequent one
        std::vector<std::vector<uint32_t>> cls, decoding;
        for (size_t i = 0; i < sim::alloc_classes().size(); i++) {
            uint32_t k = sim::alloc_classes()[i];
            if (k >= cls.size()) cls.resize(k + 1);
            cls[k].push_back((uint32_t)i);
        }
        for (auto &v : cls) { size_t k = std::upper_bound(v.begin(), v.end(), opened) - v.begin(); if (k < v.size()) decoding.emplace_back(v.begin() + k, v.end()); }
        uint64_t cnt[sim::NFAULTS];
        for (int i = 0; i < sim::NFAULTS; i++) cnt[i] = sim::stats().asked[i];
        dry = false;
        Rng r(mix(e.R.seed, 0xFA));
        int n = r.chance(3, 5) ? 1 : r.range(2, 4);
        for (int i = 0; i < n; i++) {
            static const int ft[] = {sim::F_ALLOC, sim::F_ALLOC, sim::F_ALLOC, sim::F_ALLOC, sim::F_ALLOC, sim::F_ALLOC, sim::F_PIC, sim::F_PIC, sim::F_THREAD, sim::F_MUTEX, sim::F_COND};
            int ty = ft[r.below(11)];
            if (!cnt[ty]) ty = sim::F_ALLOC;
            uint64_t idx = r.chance(1, 4) ? r.below((uint32_t)std::min<uint64_t>(cnt[ty], 60)) : r.below((uint32_t)cnt[ty]);
            if (ty == sim::F_ALLOC && r.chance(2, 3)) { auto &cc = r.chance(1, 6) || decoding.empty() ? cls : decoding; auto &v = cc[r.below((uint32_t)cc.size())]; idx = v[r.below((uint32_t)v.size())]; }
            e.plan.push_back({ty, idx, r.chance(1, 6) ? -1 : r.chance(1, 5) ? r.range(2, 8) : 1});
        }
    }
    sim::reset_peak();
    e.main_run(CK_LEDGER | CK_BUF | CK_PIC | CK_API, body);
}

// ------------------------------------------------------------------ C06
static void c06(Env &e) {
    Oracle *o = e.stream("", gopt(FT_ALL, 10));
    Oracle *o2 = e.stream("b.", gopt(FT_ALL, 7, 192));
    if (!o || !o2) return;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_ALLOC | V_GRAIN | V_DFT | V_INLOOP, &o2->s);
    auto ch = pick_cut(e, o->s, t, 0), ch2 = pick_cut(e, o2->s, t, 1000, "r.cut2");
    std::string dd;
    if (e.R.flag("r.dmg", 2, 5)) {
        damage(ch, 0, ch.size(), Rng(mix(e.R.seed, 0xDA)), e.R.get("r.ndmg", 1, 4), dd);
        t.limit = DAMAGE_LIMIT;
        if (ch.empty()) return;
    }
    e.desc = o->s.desc + " -> " + o2->s.desc + " | " + sdesc(t) + (dd.empty() ? "" : " | damage:" + dd);
    std::vector<PicRec> ref;
    size_t nerr = 0;
    if (!ref_run(ch2, t, ref, &nerr) || nerr) return;
    int nfl = e.R.pick("r.nfl", {1, 1, 1, 2, 3});
    int hold = e.R.pick("r.hold", {0, 0, 4});
    bool keep_in = e.R.flag("r.keepin", 1, 2);
    e.main_run(CK_HELD, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        note_parallel(e, S);
        Rng r(mix(e.R.seed, 0xF6));
        for (int k = 0; k < nfl; k++) {
            Player p(e.R.seed + k);
            setup_player(e, p, S, ch);
            p.query_err_props = r.chance(1, 2);
            p.hold_max = hold;
            size_t stop = r.below((uint32_t)(ch.size() * 3 + 4));
            for (size_t i = 0; i < stop && !p.done; i++) p.step();
            if (!p.done) probe("flush with stream in flight");
            if (!p.errs.empty()) probe("flush after errors");
            if (keep_in) { S.flush(); p.abandon(); } else { p.abandon(); S.flush(); }
            account(p);
        }
        { // the query after a flush must not describe old data
            Dav1dDataProps pr{};
            if (!dav1d_get_decode_error_data_props(S.c, &pr)) {
                if (pr.timestamp != INT64_MIN || pr.user_data.data) fail("stale-error-props", "error properties of data sent before the flush (ts %lld) are returned after it", (long long)pr.timestamp);
                dav1d_data_props_unref(&pr);
            }
        }
        if (r.chance(1, 3)) { // nothing may come out of an idle flushed decoder
            for (int i = 0; i < 3; i++) {
                Dav1dPicture pic;
                int rc = S.get(&pic);
                if (rc != DAV1D_ERR(EAGAIN)) fail("stale-output", "dav1d_get_picture returned %d right after a flush", rc);
            }
        }
        S.flags(); // events of before the flush that were not asked for in time
        Player q(e.R.seed + 77);
        setup_player(e, q, S, ch2, "r.pat2");
        q.hold_max = hold;
        q.finish();
        no_errors(q, "decode after flush");
        compare_rec(ref, q.got, "decode after flush", t.all_layers || !layered(o2->s));
        account(q);
        S.close();
        while (!S.held.empty()) S.drop_held(0);
    });
}

// parsing any run of whole OBUs finds the last sequence header in it
static void check_parse_seq(const Stream &s, Rng &r) {
    size_t a = r.below((uint32_t)s.units.size()), b = a + 1 + r.below((uint32_t)std::min<size_t>(s.units.size() - a, r.chance(1, 2) ? 3 : 60));
    if (r.chance(1, 2)) for (size_t i = 0; i < s.units.size(); i++) if (s.units[(a + i) % s.units.size()].sh >= 0) { a = (a + i) % s.units.size(); b = std::max(b, a + 1); break; }
    int sh = -1;
    for (size_t u = a; u < b; u++) if (s.units[u].sh >= 0) sh = s.units[u].sh;
    auto v = join_units(s, a, b);
    Dav1dSequenceHeader h;
    memset(&h, 0xA5, sizeof h);
    int rc = parse_seq(v.data(), v.size(), &h);
    if (sh < 0) { if (rc >= 0) fail("parse-sequence-header", "dav1d_parse_sequence_header returned %d for OBUs %zu..%zu without a sequence header", rc, a, b - 1); return; }
    if (rc) fail("parse-sequence-header", "dav1d_parse_sequence_header returned %d for OBUs %zu..%zu", rc, a, b - 1);
    std::string d = diff_seq(s.shs[sh], h);
    if (!d.empty()) fail("parse-sequence-header", "dav1d_parse_sequence_header of OBUs %zu..%zu: %s", a, b - 1, d.c_str());
    probe("sequence headers parsed on their own");
}

// ------------------------------------------------------------------ model-based output checks: C09 C10 C11 C12 C15 C16
static void model_run(Env &e, int chk, const GenOpt &go, int vary, bool delay, const char *what) {
    Oracle *o = e.stream("", go);
    if (!o) return;
    Settings t = pick_settings(e, vary, &o->s);
    // with frame threads and one dav1d_get_picture per dav1d_send_data nothing is drained inside a temporal unit
    bool any = t.threads > 1 && t.delay != 1 && e.R.get("r.pat", 0, NPAT - 1) == PAT_CLI;
    auto ch = pick_cut(e, o->s, t, 0, "r.cut", any);
    ModelOpt mo; mo.op = t.op; mo.all_layers = t.all_layers; mo.invisible = t.invisible; mo.dft = t.dft;
    auto exp = model(o->s, mo);
    e.desc = o->s.desc + " | " + sdesc(t);
    bool cached = !t.all_layers && layered(o->s);
    e.main_run(CK_API, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        if (chk & CK_HDR) { Rng r(mix(e.R.seed, 0x5E9)); for (int i = 0; i < 6; i++) check_parse_seq(o->s, r); }
        if (delay) p.on_idle = [&](Player &pl) {
            size_t u = pl.last_accepted ? ch[pl.last_accepted - 1].u1 : 0, n = 0;
            for (auto &x : exp) {
                size_t last = o->s.frames[x.frame].last_unit;
                if (last < u) n++;
            }
            size_t bound = (S.n_fc > 1 ? S.n_fc : 0) + (cached ? 1 : 0);
            if (n > pl.got.size() + bound)
                fail("delay-exceeded", "%zu shown frames were sent, only %zu returned when dav1d_get_picture asked for more data (reported delay %d)", n, pl.got.size(), S.n_fc);
            if (n > pl.got.size()) probe("frames held back at try-again");
        };
        p.finish();
        note_parallel(e, S);
        no_errors(p, what);
        CmpOpt c; c.chk = chk; c.what = what;
        compare(*o, o->pic, exp, ch, p.got, c);
        for (auto &x : exp) { if (x.reshown) probe("re-shown frames"); if (!x.t35.empty()) probe("pictures with T.35"); if (x.flags) probe("pictures with event flags"); }
        slot->frames += o->s.frames.size();
        account(p);
        S.close();
    });
}
static void c09(Env &e) {
    if (e.R.flag("r.valid", 1, 2)) {
        model_run(e, CK_PROPS, gopt(), V_THREADS | V_LAYERS | V_INVIS | V_ALLOC | V_DFT, false, "decode");
        return;
    }
    // error properties: the first chunk that fails single-threaded must be named by some reported error, no earlier chunk may
    Oracle *o = e.stream("", gopt(FT_ALL & ~FT_LAYERS));
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_INVIS | V_ALLOC, &o->s);
    t.limit = DAMAGE_LIMIT;
    auto ch = cut(o->s, e.R.pick("r.cut", {CUT_TU, CUT_FRAME, CUT_FRAME, CUT_OBU}), Rng(mix(e.R.seed, 0xC07)), 0, true);
    if (ch.size() < 2) return;
    std::string dd;
    size_t before = ch.size();
    size_t lo = e.R.get("r.dlo", 0, (int)before - 1);
    int64_t open_ts = INT64_MAX; // the frame that is incomplete where the damage starts began here
    for (auto &f : o->s.frames) if (f.first_unit < (int)ch[lo].u0 && f.last_unit >= (int)ch[lo].u0)
        for (auto &c : ch) if ((int)c.u0 <= f.first_unit && f.first_unit < (int)c.u1) open_ts = std::min(open_ts, c.ts);
    damage(ch, lo, lo + 1, Rng(mix(e.R.seed, 0xDA)), 1, dd);
    e.desc = o->s.desc + " | " + sdesc(t) + " | damage:" + dd;
    if (ch.empty()) return;
    std::vector<PicRec> ref;
    std::vector<Player::Err> rerr;
    size_t nerr = 0;
    if (!ref_run(ch, t, ref, &nerr, &rerr)) return;
    e.main_run(0, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        p.finish();
        note_parallel(e, S);
        // every error names a chunk that was sent, not one from before the damage
        int64_t lots = 0;
        { // first damaged position: chunks before it are intact
            size_t i = 0;
            while (i < ch.size() && !ch[i].damaged) i++;
            lots = i < ch.size() ? ch[i].ts : (lo < ch.size() ? ch[lo].ts : INT64_MAX);
            lots = std::min(lots, open_ts);
        }
        for (auto &x : p.errs) {
            const Chunk *k = nullptr;
            for (auto &c : ch) if (c.ts == x.ts) k = &c;
            if (!k) fail("error-props", "an error (%d) was reported with properties (ts %lld) of no chunk that was sent", x.rc, (long long)x.ts);
            if (x.ud != (k->ud ? k->id : -1)) fail("error-props", "an error was reported with ts %lld but user data %d instead of %d", (long long)x.ts, x.ud, k->ud ? k->id : -1);
            if (x.ts < lots) fail("error-props", "an error was reported for the intact chunk ts %lld before the damage (ts %lld)", (long long)x.ts, (long long)lots);
        }
        if (!rerr.empty()) {
            probe("runs with errors to attribute");
            bool found = false;
            // a frame may be spread over several chunks: any of them identifies it
            auto frames_of = [&](int64_t ts) {
                std::set<int> f;
                for (auto &c : ch) if (c.ts == ts) for (size_t u = c.u0; u < c.u1; u++) if (o->s.units[u].frame >= 0) f.insert(o->s.units[u].frame);
                return f;
            };
            std::set<int> want = frames_of(rerr[0].ts);
            for (auto &x : p.errs) {
                if (x.ts == rerr[0].ts) found = true;
                else for (int f : frames_of(x.ts)) if (want.count(f)) found = true;
            }
            if (!found) fail("error-props", "chunk ts %lld fails to decode, but none of the %zu reported errors names it:%s", (long long)rerr[0].ts, p.errs.size(), err_list(p.errs).c_str());
        }
        // properties of the pictures before the damage
        for (size_t i = 0; i < p.got.size() && i < ref.size(); i++) {
            if (ref[i].ts >= lots || p.got[i].ts >= lots) break;
            if (ref[i].ts != p.got[i].ts || ref[i].ud != p.got[i].ud || ref[i].dur != p.got[i].dur || ref[i].off != p.got[i].off)
                fail("props-mismatch", "picture %zu carries ts %lld user data %d instead of ts %lld user data %d", i, (long long)p.got[i].ts, p.got[i].ud, (long long)ref[i].ts, ref[i].ud);
        }
        account(p);
        S.close();
    });
}
static void c10(Env &e) { model_run(e, CK_ORDER | CK_PIX, gopt(FT_ALL, 16, 128), V_THREADS | V_LAYERS | V_INVIS, true, "decode"); }
static void c11(Env &e) { model_run(e, CK_ORDER | CK_PIX, gopt(), V_THREADS | V_LAYERS | V_ALLOC, false, "re-chunked decode"); }
static void c12(Env &e) { model_run(e, CK_ORDER | CK_PIX, gopt(FT_ALL, 14), V_THREADS | V_LAYERS | V_INVIS | V_DFT, false, "restricted decode"); }
static void c15(Env &e) { model_run(e, CK_ORDER | CK_HDR | CK_META, gopt(FT_ALL, 14, 128), V_THREADS | V_LAYERS | V_INVIS | V_DFT, false, "decode"); }
static void c16(Env &e) {
    GenOpt g = gopt(FT_ALL, 14, 96);
    Oracle *o = e.stream("", g);
    if (!o) return;
    model_run(e, CK_ORDER | CK_FLAGS, g, V_THREADS | V_INVIS, false, "decode");
}

// ------------------------------------------------------------------ C13
static void c13(Env &e) {
    GenOpt g = gopt(FT_ALL & ~FT_LAYERS, 8, 200);
    if (e.K.flag("simple", 1, 2)) g.feat = FT_GRAIN | FT_INTER | FT_SHOWEX | FT_HIDDEN | FT_TILES | FT_MULTISEQ | FT_SUPERRES | FT_SIZEOVR;
    Oracle *o = e.stream("", g);
    if (!o) return;
    bool has = false;
    for (auto &p : o->pic) has |= p.grain;
    if (!has) { probe("streams without grain"); return; }
    Settings t = pick_settings(e, V_THREADS | V_INVIS | V_ALLOC, &o->s);
    int mode = e.R.get("r.gmode", 0, 2); // 0 inside, 1 outside through the decoding context, 2 grain off
    t.grain = mode == 0;
    Settings tr = t;
    tr.grain = 1;
    auto ch = pick_cut(e, o->s, t, 0);
    std::vector<PicRec> ref, off;
    size_t nerr = 0;
    if (!ref_run(ch, tr, ref, &nerr) || nerr) return;
    tr.grain = 0;
    if (!ref_run(ch, tr, off, &nerr) || nerr) return;
    e.desc = o->s.desc + " | " + sdesc(t) + (mode == 1 ? " outside" : "");
    bool cross = e.R.flag("r.cross", 1, 4); // grain applied by another, idle decoder
    e.main_run(0, [&] {
        Session S, S2;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        if (cross && S2.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        std::vector<uint64_t> outside;
        if (mode == 1) p.on_pic = [&](Player &, Dav1dPicture &pic, PicRec &r) {
            Dav1dPicture out;
            Session &G = cross ? S2 : S;
            int rc = G.apply_grain(&out, &pic);
            if (rc) fail("grain-failed", "dav1d_apply_grain returned %d", rc);
            outside.push_back(hash_pixels(out));
            if (out.m.timestamp != pic.m.timestamp || out.p.w != pic.p.w || out.p.h != pic.p.h) fail("grain-props", "dav1d_apply_grain changed properties of the picture");
            unref_pic(&out);
            if (hash_pixels(pic) != r.pix) fail("grain-input-changed", "dav1d_apply_grain changed its input picture");
        };
        p.finish();
        note_parallel(e, S);
        no_errors(p, "decode");
        if (mode == 0) compare_rec(ref, p.got, "grain applied inside the decoder");
        else compare_rec(off, p.got, "decode with grain off");
        if (mode == 1) for (size_t i = 0; i < outside.size(); i++)
            if (outside[i] != ref[i].pix) fail("pixel-mismatch", "grain applied by the application differs from grain applied by the decoder for picture %zu (%s)", i, show(ref[i]).c_str());
        for (size_t i = 0; i < ref.size(); i++) if (ref[i].grain) probe("pictures with grain");
        account(p);
        S.close();
        if (cross) S2.close();
    });
}

// ------------------------------------------------------------------ C14
static void c14(Env &e) {
    int n = e.K.get("ninst", 2, 4);
    std::vector<Oracle *> os;
    for (int i = 0; i < n; i++) {
        GenOpt g = gopt(FT_ALL, i ? 5 : 7, 128);
        Oracle *o = e.stream("i" + std::to_string(i) + ".", g);
        if (!o) return;
        os.push_back(o);
    }
    std::vector<Settings> ts;
    std::vector<std::vector<Chunk>> chs;
    std::vector<std::vector<PicRec>> refs(n);
    for (int i = 0; i < n; i++) {
        Settings t;
        std::string q = "r.i" + std::to_string(i);
        t.threads = e.R.pick(q + "thr", {1, 2, 3, 4});
        t.delay = e.R.get(q + "del", 0, 3);
        t.grain = e.R.flag(q + "gr", 1, 3);
        t.invisible = e.R.flag(q + "inv", 1, 4);
        t.alloc.mode = e.R.pick(q + "al", {0, 0, 1, 2});
        ts.push_back(t);
        chs.push_back(cut(os[i]->s, e.R.pick(q + "cut", {CUT_TU, CUT_FRAME, CUT_OBU}), Rng(mix(e.R.seed, 0xC07 + i)), 1000 * i, true));
        size_t nerr = 0;
        if (!ref_run(chs[i], t, refs[i], &nerr) || nerr) return;
        e.desc += "[" + os[i]->s.desc + " | " + sdesc(t) + "] ";
    }
    int again = e.R.get("r.again", 0, 2);
    int flush = e.R.flag("r.flush", 1, 3);
    sim::Options so = e.sched();
#ifndef SIM_ASAN
    so.cold = true;
#endif
    e.main_run(CK_PIC | CK_BUF, [&] {
        std::vector<int> ids;
        for (int i = 0; i < n; i++) ids.push_back(sim::spawn("app", [&, i] {
            for (int k = 0; k <= (i == 0 ? 0 : again); k++) {
                Session S;
                if (S.open(ts[i])) fail("open-failed", "dav1d_open of instance %d failed", i);
                Player p(mix(e.R.seed, i));
                p.S = &S; p.ch = &chs[i]; p.pat = (int)(mix(e.R.seed, i + 50) % NPAT);
                if (flush && k == 1) { for (int z = 0; z < 5; z++) p.step(); p.abandon(); S.flush(); Player np(1); np.S = &S; np.ch = &chs[i]; np.pat = p.pat; np.finish(); compare_rec(refs[i], np.got, "concurrent instance after flush"); }
                else { p.finish(); no_errors(p, "concurrent instance"); compare_rec(refs[i], p.got, "concurrent instance"); }
                account(p);
                S.close();
            }
        }));
        for (int id : ids) sim::join(id);
        e.nontrivial = true;
        probe("concurrent instances", n);
    }, &so);
}

// ------------------------------------------------------------------ C17
static void c17(Env &e) {
    int ns = e.K.get("nsecs", 2, 3);
    std::vector<Oracle *> os;
    bool same = e.K.flag("same", 1, 3); // identical sequence headers before and after the damage
    for (int i = 0; i < ns; i++) {
        GenOpt g = gopt(FT_ALL & ~FT_LAYERS, i == ns - 1 ? 6 : 7, 160);
        Oracle *o = e.stream(same ? "s." : "s" + std::to_string(i) + ".", g);
        if (!o) return;
        os.push_back(o);
    }
    Settings t = pick_settings(e, V_THREADS | V_INVIS | V_ALLOC | V_GRAIN, &os[0]->s);
    t.limit = DAMAGE_LIMIT;
    t.all_layers = 1;
    std::vector<Chunk> ch;
    std::vector<PicRec> exp_last, exp_first;
    std::vector<size_t> start;
    for (int i = 0; i < ns; i++) {
        auto c = cut(os[i]->s, e.R.pick("r.cut" + std::to_string(i), {CUT_TU, CUT_TU, CUT_FRAME, CUT_OBU, CUT_MULTI}), Rng(mix(e.R.seed, 0xC07 + i)), 1000 * i, true);
        size_t nerr = 0;
        if (i == ns - 1 && (!ref_run(c, t, exp_last, &nerr) || nerr)) return;
        if (i == 0 && (!ref_run(c, t, exp_first, &nerr) || nerr)) return;
        start.push_back(ch.size());
        ch.insert(ch.end(), c.begin(), c.end());
    }
    size_t lo = e.R.get("r.dlo", 0, (int)start[ns - 1] - 1);
    std::string dd;
    size_t tail = ch.size() - start[ns - 1];
    // pictures of section 0 that are complete before the damaged chunk
    std::vector<PicRec> pre;
    {
        int64_t lim = ch[lo].ts;
        const Stream &s0 = os[0]->s;
        if (lo < start[1] && ch[lo].u0 > 0) {
            int f = s0.units[ch[lo].u0].frame;
            if (f >= 0) for (size_t i = 0; i < lo; i++) for (size_t u = ch[i].u0; u < ch[i].u1; u++) if (s0.units[u].frame == f) lim = std::min(lim, ch[i].ts);
        }
        for (auto &r : exp_first) { if (r.ts < lim) pre.push_back(r); else break; }
    }
    damage(ch, lo, start[ns - 1], Rng(mix(e.R.seed, 0xDA)), e.R.get("r.ndmg", 1, 5), dd);
    size_t last0 = ch.size() - tail;
    int64_t ts_last = ch[last0].ts;
    for (auto &o : os) e.desc += "[" + o->s.desc + "] ";
    e.desc += "| " + sdesc(t) + " | damage:" + dd;
    // number of chunks that must be accepted before the frames that start in a chunk of the last section are complete
    std::map<int64_t, size_t> complete_at;
    for (size_t i = last0; i < ch.size(); i++) {
        int lastu = 0;
        const Stream &sl = os[ns - 1]->s;
        for (size_t u = ch[i].u0; u < ch[i].u1; u++) if (sl.units[u].frame >= 0) lastu = std::max(lastu, sl.frames[sl.units[u].frame].last_unit);
        size_t k = i;
        while (k + 1 < ch.size() && ch[k].u1 <= (size_t)lastu) k++;
        complete_at[ch[i].ts] = k + 1;
    }
    e.main_run(0, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        size_t base = 0;
        bool in_last = false;
        p.on_pic = [&](Player &pl, Dav1dPicture &, PicRec &r) { if (!in_last && r.ts >= ts_last) { in_last = true; base = pl.got.size(); } };
        p.on_idle = [&](Player &pl) { // progress within the normal delay once intact data flows again
            if (pl.last_accepted <= last0) return;
            size_t n = 0, have = 0;
            int64_t lim = ch[pl.last_accepted - 1].ts;
            if (pl.last_accepted < ch.size() && ch[pl.last_accepted].ts == lim) return;
            for (auto &x : exp_last) if (x.ts < lim && complete_at[x.ts] <= pl.last_accepted) n++;
            for (auto &x : pl.got) if (x.ts >= ts_last) have++;
            size_t bound = (S.n_fc > 1 ? S.n_fc : 0);
            if (n > have + bound) fail("recovery-delay", "%zu intact frames after the damage were sent, only %zu returned (delay %d)", n, have, S.n_fc);
        };
        p.finish();
        note_parallel(e, S);
        if (!p.errs.empty()) probe("runs with reported errors");
        std::vector<PicRec> got_last;
        for (auto &x : p.got) if (x.ts >= ts_last) got_last.push_back(x);
        size_t n = std::min(got_last.size(), exp_last.size());

        auto cmp = [&](const PicRec &a, const PicRec &b, size_t i, const char *what) {
            if (a.pix != b.pix || a.w != b.w || a.h != b.h || a.ts != b.ts) fail("recovery-mismatch", "%s: picture %zu: expected %s, got %s", what, i, show(a).c_str(), show(b).c_str());
            const char *d = a.hdr != b.hdr ? "frame header" : a.seq != b.seq ? "sequence header" : a.dur != b.dur || a.off != b.off || a.size != b.size || a.ud != b.ud ? "data properties" :
                a.cll && a.cll != b.cll ? "content light level" : a.mdcv && a.mdcv != b.mdcv ? "mastering display" :
                a.t35 != b.t35 ? "T.35 payloads" : nullptr;
            if (d) fail("recovery-metadata", "%s: picture %zu differs in its %s: expected %s, got %s", what, i, d, show(a).c_str(), show(b).c_str());
        };
        for (size_t i = 0; i < n; i++) cmp(exp_last[i], got_last[i], i, "after the damage");
        if (got_last.size() != exp_last.size()) fail("recovery-missing", "after the damage: %zu pictures of the intact section returned, %zu expected", got_last.size(), exp_last.size());
        for (auto &x : p.errs) if (x.ts >= ts_last && x.ts != INT64_MIN) fail("recovery-error", "an error (%d) was reported for the intact data after the damage (ts %lld)", x.rc, (long long)x.ts);
        for (size_t i = 0; i < pre.size(); i++) {
            if (i >= p.got.size()) fail("prefix-missing", "before the damage: only %zu of %zu pictures were returned", p.got.size(), pre.size());
            cmp(pre[i], p.got[i], i, "before the damage");
        }
        account(p);
        S.close();
    });
}

// ------------------------------------------------------------------ C22
static void c22(Env &e) {
    Oracle *o = e.stream("", gopt(FT_ALL, 12, 160));
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_ALLOC | V_GRAIN, &o->s);
    auto ch = pick_cut(e, o->s, t, 0);
    e.desc = o->s.desc + " | " + sdesc(t);
    std::vector<PicRec> ref;
    size_t nerr = 0;
    if (!ref_run(ch, t, ref, &nerr) || nerr) return;
    int nrd = e.R.get("r.nrd", 1, 4), mode = e.R.get("r.mode", 0, 2);
    e.main_run(CK_HELD | CK_LEDGER | CK_PIC | CK_BUF, [&] {
        Shared sh;
        std::vector<int> rd;
        for (int i = 0; i < nrd; i++) { uint64_t sd = mix(e.R.seed, 0x4EAD + i); rd.push_back(sim::spawn("app", [&sh, sd] { reader_fibre(sh, nullptr, sd, CK_HELD); })); }
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        note_parallel(e, S);
        for (int k = 0; k < (mode == 1 ? 2 : 1); k++) {
            Player p(e.R.seed + k);
            setup_player(e, p, S, ch);
            p.on_pic = [&](Player &, Dav1dPicture &pic, PicRec &r) {
                Held h; h.p = pic; h.r = r;
                sh.q.push_back(h);
                sim_tsan_release(&sh);
                memset(&pic, 0, sizeof pic);
            };
            if (mode == 1 && k == 0) { // flush while others hold pictures
                for (size_t i = 0, n = ch.size(); i < n && !p.done; i++) p.step();
                p.abandon();
                S.flush();
            } else {
                p.finish();
                no_errors(p, "decode");
                compare_rec(ref, p.got, "decode while other threads release pictures");
            }
            account(p);
        }
        S.close();
        sh.end = true;
        for (int id : rd) sim::join(id);
    });
}

// ------------------------------------------------------------------ C19
static void c19(Env &e) {
    if (e.K.flag("huge", 2, 5)) { // a frame far beyond the limit between two intact sections
        Oracle *a = e.stream("a.", gopt(FT_ALL & ~FT_LAYERS, 5, 120)), *b = e.stream("b.", gopt(FT_ALL & ~FT_LAYERS, 5, 120));
        if (!a || !b) return;
        Knobs hk;
        hk.seed = mix(e.R.seed, 0x19);
        static const int dims[] = {4096, 4097, 8192, 16384, 20000, 32768, 65535, 65536, 65536};
        int hw = dims[e.R.get("r.hw", 0, 8)], hh = dims[e.R.get("r.hh", 0, 8)];
        hk.over["w"] = 1000 + hw; hk.over["h"] = 1000 + hh; hk.over["nf"] = 1;
        Stream hs = Generator(hk, gopt(FT_ALL & ~(FT_LAYERS | FT_META), 2, 256), "").make();
        if (hs.frames.empty()) return;
        uint64_t area = (uint64_t)hs.frames[0].w * hs.frames[0].h;
        if (area < 4096ull * 4096) { probe("crafted frame not large"); return; }
        Settings t = pick_settings(e, V_THREADS | V_INVIS | V_GRAIN, &a->s);
        t.alloc = pick_alloc(e, true);
        uint64_t lims[] = {120 * 120, 1 << 20, area - 1, area - 1, area / 2, 65535u * 256};
        uint64_t lim = lims[e.R.get("r.limk", 0, 5)];
        t.limit = (unsigned)std::min<uint64_t>({lim, area - 1, UINT32_MAX});
        auto ca = pick_cut(e, a->s, t, 0), cb = pick_cut(e, b->s, t, 2000, "r.cutb");
        std::vector<PicRec> ra, rb;
        size_t na = 0, nb = 0;
        Settings tu = t;
        tu.limit = 0;
        if (!ref_run(ca, tu, ra, &na) || na || !ref_run(cb, tu, rb, &nb) || nb) return;
        std::vector<Chunk> ch = ca;
        Chunk h;
        h.b = join_units(hs, 0, hs.frames[0].last_unit + 1);
        h.id = 1000; h.ts = 1000 * 1000 + 17; h.ud = true;
        for (auto &c : ca) h.ts = std::max(h.ts, c.ts + 1);
        size_t hi = ch.size();
        int reps = e.R.pick("r.hrep", {1, 1, 2, 5});
        for (int i = 0; i < reps; i++) ch.push_back(h);
        size_t hend = ch.size();
        ch.insert(ch.end(), cb.begin(), cb.end());
        char d[100];
        snprintf(d, sizeof d, " | crafted %dx%d x%d", hs.frames[0].w, hs.frames[0].h, reps);
        e.desc = a->s.desc + " + " + b->s.desc + " | " + sdesc(t) + d;
        e.main_run(CK_LEDGER | CK_BUF | CK_PIC | CK_API, [&] {
            Session S;
            if (S.open(t)) fail("open-failed", "dav1d_open failed");
            Player p(e.R.seed);
            setup_player(e, p, S, ch);
            bool in = false, out = false;
            size_t base = sim::ledger().live_bytes;
            while (!p.done) {
                if (!in && p.next == hi) { in = true; sim::reset_peak(); base = sim::ledger().live_bytes; }
                p.step();
                if (in && !out && p.next == hend) {
                    out = true;
                    if (sim::largest_alloc() > (4u << 20)) fail("limit-alloc", "%zu bytes were allocated at once for a frame of %llu pixels with a limit of %u", sim::largest_alloc(), (unsigned long long)area, t.limit);
                    if (sim::peak_bytes() > base + (24u << 20)) fail("limit-alloc", "memory use rose by %zu bytes for a frame of %llu pixels with a limit of %u", sim::peak_bytes() - base, (unsigned long long)area, t.limit);
                }
            }
            note_parallel(e, S);
            if (W->largest_pic > t.limit) fail("limit-picture", "the picture allocator was asked for %llu pixels with a limit of %u", (unsigned long long)W->largest_pic, t.limit);
            if (W->largest_pic > 120 * 120) fail("limit-picture", "the picture allocator was asked for %llu pixels, the largest frame within the limit has fewer than %d", (unsigned long long)W->largest_pic, 120 * 120);
            size_t nr = 0;
            for (auto &x : p.errs) {
                if (x.rc == DAV1D_ERR(ERANGE) && (x.ts == h.ts || x.ts == INT64_MIN)) nr++;
                else fail("unexpected-error", "error %d (ts %lld) besides the rejected frame", x.rc, (long long)x.ts);
            }
            if (nr != (size_t)reps) fail("limit-not-reported", "%zu errors for %d frames larger than the limit", nr, reps);
            std::vector<PicRec> exp = ra;
            exp.insert(exp.end(), rb.begin(), rb.end());
            compare_rec(exp, p.got, "decode around a frame larger than the limit");
            probe("frames beyond the limit", reps);
            account(p);
            S.close();
        });
        return;
    }
    GenOpt g = gopt(FT_ALL & ~FT_LAYERS, 12, 200);
    if (e.K.flag("resize", 1, 2)) g.feat = FT_SUPERRES | FT_REFSCALE | FT_SIZEOVR | FT_INTER | FT_SHOWEX | FT_HIDDEN | FT_MULTISEQ | FT_SWITCH | FT_INTRAONLY;
    Oracle *o = e.stream("", g);
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_INVIS | V_GRAIN | V_DFT, &o->s);
    t.alloc = pick_alloc(e, true);
    auto ch = pick_cut(e, o->s, t, 0);
    std::vector<PicRec> full, ref;
    std::vector<Player::Err> rerr;
    size_t nerr = 0;
    if (!ref_run(ch, t, full, &nerr) || nerr) return;
    // limits around the sizes that occur
    std::vector<uint64_t> c;
    for (auto &f : o->s.frames) if (!f.show_existing) for (int k = -1; k <= 1; k++) { c.push_back((uint64_t)f.w * f.h + k); c.push_back((uint64_t)f.w0 * f.h + k); c.push_back((uint64_t)f.w * f.h * 2); }
    uint64_t lim = c[e.R.get("r.lim", 0, 1 << 20) % c.size()];
    if (!lim || lim > UINT32_MAX) lim = 1;
    t.limit = (unsigned)lim;
    e.desc = o->s.desc + " | " + sdesc(t);
    int fbad = -1;
    for (auto &f : o->s.frames) if (!f.show_existing && (uint64_t)f.w * f.h > lim) { fbad = f.idx; break; }
    ModelOpt mo; mo.op = t.op; mo.all_layers = t.all_layers; mo.invisible = t.invisible; mo.dft = t.dft;
    size_t pre = 0;
    for (auto &x : model(o->s, mo)) if (fbad < 0 || x.frame < fbad) pre++;
    if (!ref_run(ch, t, ref, &nerr, &rerr)) return;
    e.main_run(CK_LEDGER | CK_BUF | CK_PIC | CK_API, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        p.finish();
        note_parallel(e, S);
        if (W->largest_pic > t.limit) fail("limit-picture", "the picture allocator was asked for %llu pixels with a limit of %u", (unsigned long long)W->largest_pic, t.limit);
        for (auto &x : p.got) if ((uint64_t)x.w * x.h > t.limit) fail("limit-output", "a picture of %dx%d was returned with a limit of %u", x.w, x.h, t.limit);
        if (fbad < 0) {
            probe("streams within the limit");
            no_errors(p, "decode within the limit");
            compare_rec(full, p.got, "decode within the limit");
        } else {
            probe("streams beyond the limit");
            std::vector<PicRec> a(full.begin(), full.begin() + std::min(pre, full.size())), b(p.got.begin(), p.got.begin() + std::min(pre, p.got.size()));
            compare_rec(a, b, "decode before the frame beyond the limit");
            bool named = false;
            const FrameInfo &f = o->s.frames[fbad];
            for (auto &x : p.errs) {
                if (x.ts == INT64_MIN) named = true;
                for (auto &k : ch) if (k.ts == x.ts && (int)k.u0 <= f.last_unit && (int)k.u1 > f.first_unit) named = true;
            }
            if (!named) fail("limit-not-reported", "frame %d (%dx%d) is larger than the limit %u, but no error was reported for it", fbad, f.w, f.h, t.limit);
            compare_rec(ref, p.got, "decode with frames beyond the limit, against one thread");
        }
        account(p);
        S.close();
    });
}

// ------------------------------------------------------------------ C20
static void expect_err(int rc, const char *what) {
    if (rc >= 0) fail("misuse-accepted", "%s returned %d instead of an error", what, rc);
    probe(what);
}
static int64_t misuse_alloc_dummy(Dav1dPicture *, void *) { return -1; }
static void misuse(Env &e, Session &S, Rng &r) {
    // raw library calls; none of them may have an effect
    Dav1dSettings s;
    dav1d_default_settings(&s);
    s.n_threads = 1;
    sim::Ledger l0 = sim::ledger();
    static char sentinel;
    Dav1dContext *const mark = (Dav1dContext *)&sentinel;
    Dav1dContext *c2 = mark;
    auto bad_open = [&](const char *what, bool delay_too) {
        expect_err(dav1d_open(&c2, &s), what);
        if (c2 && c2 != mark) fail("misuse-handle", "%s left a context", what);
        if (delay_too) expect_err(dav1d_get_frame_delay(&s), "get_frame_delay with bad settings");
    };
    uint8_t buf[64];
    Dav1dData d, d0;
    memset(&d, 0, sizeof d);
    d0 = d;
    Dav1dPicture pic, pic0;
    memset(&pic, 0x5a, sizeof pic);
    pic0 = pic;
    Dav1dSequenceHeader sh;
    enum Dav1dEventFlags fl = (enum Dav1dEventFlags)0x55;
    auto same_d = [&](const char *what) { if (memcmp(&d, &d0, sizeof d)) fail("misuse-handle", "%s changed the data handle", what); };
    auto same_p = [&](const char *what) { if (memcmp(&pic, &pic0, sizeof pic)) fail("misuse-handle", "%s changed the picture", what); };
    void (*nofree)(const uint8_t *, void *) = [](const uint8_t *, void *) { fail("misuse-callback", "the release callback of a rejected call was called"); };
    int k = r.below(36);
    switch (k) {
    case 0: expect_err(dav1d_open(nullptr, &s), "open(NULL, s)"); break;
    case 1: expect_err(dav1d_open(&c2, nullptr), "open(c, NULL)"); if (c2 && c2 != mark) fail("misuse-handle", "open(c, NULL) left a context"); break;
    case 2: { static const int v[] = {-1, 257, INT_MIN, INT_MAX, 1 << 16, -256}; s.n_threads = v[r.below(6)]; bad_open("open with bad n_threads", true); break; }
    case 3: { static const int v[] = {-1, 257, INT_MIN, INT_MAX, 1 << 16, -256}; s.max_frame_delay = v[r.below(6)]; bad_open("open with bad max_frame_delay", true); break; }
    case 4: { static const int v[] = {-1, 32, INT_MIN, INT_MAX, 255}; s.operating_point = v[r.below(5)]; bad_open("open with bad operating_point", false); break; }
    case 5: { static const int v[] = {-1, 4, 1000, INT_MIN, INT_MAX}; int x = v[r.below(5)]; memcpy(&s.decode_frame_type, &x, sizeof x); bad_open("open with bad decode_frame_type", false); break; }
    case 6: s.allocator.alloc_picture_callback = nullptr; bad_open("open without alloc callback", false); break;
    case 7: s.allocator.release_picture_callback = nullptr; bad_open("open without release callback", false); break;
    case 8: s.allocator.alloc_picture_callback = (int (*)(Dav1dPicture *, void *))(void *)misuse_alloc_dummy; bad_open("open with a custom alloc callback only", false); break;
    case 9: s.allocator.release_picture_callback = [](Dav1dPicture *, void *) {}; bad_open("open with a custom release callback only", false); break;
    case 10: s.allocator.cookie = buf; bad_open("open with a cookie for the default allocator", false); break;
    case 11: expect_err(dav1d_get_frame_delay(nullptr), "get_frame_delay(NULL)"); break;
    case 12: expect_err(dav1d_send_data(nullptr, &d), "send_data(NULL, d)"); same_d("send_data(NULL, d)"); break;
    case 13: expect_err(dav1d_send_data(S.c, nullptr), "send_data(c, NULL)"); break;
    case 14: expect_err(dav1d_get_picture(nullptr, &pic), "get_picture(NULL, p)"); same_p("get_picture(NULL, p)"); break;
    case 15: expect_err(dav1d_get_picture(S.c, nullptr), "get_picture(c, NULL)"); break;
    case 16: expect_err(dav1d_get_event_flags(nullptr, &fl), "get_event_flags(NULL, f)"); if (fl != (enum Dav1dEventFlags)0x55) fail("misuse-handle", "get_event_flags(NULL, f) changed the flags"); break;
    case 17: expect_err(dav1d_get_event_flags(S.c, nullptr), "get_event_flags(c, NULL)"); break;
    case 18: expect_err(dav1d_get_decode_error_data_props(S.c, nullptr), "get_decode_error_data_props(c, NULL)"); break;
    case 19: { Dav1dDataProps pr; memset(&pr, 0, sizeof pr); expect_err(dav1d_get_decode_error_data_props(nullptr, &pr), "get_decode_error_data_props(NULL, p)"); break; }
    case 20: expect_err(dav1d_apply_grain(nullptr, &pic, &pic0), "apply_grain(NULL, ...)"); same_p("apply_grain(NULL, ...)"); break;
    case 21: expect_err(dav1d_apply_grain(S.c, nullptr, &pic0), "apply_grain(c, NULL, in)"); break;
    case 22: expect_err(dav1d_apply_grain(S.c, &pic, nullptr), "apply_grain(c, out, NULL)"); same_p("apply_grain(c, out, NULL)"); break;
    case 23: expect_err(dav1d_parse_sequence_header(nullptr, buf, sizeof buf), "parse_sequence_header(NULL, ...)"); break;
    case 24: expect_err(dav1d_parse_sequence_header(&sh, nullptr, 10), "parse_sequence_header(s, NULL, n)"); break;
    case 25: expect_err(dav1d_parse_sequence_header(&sh, buf, 0), "parse_sequence_header(s, p, 0)"); break;
    case 26: expect_err(dav1d_parse_sequence_header(&sh, buf, SIZE_MAX / 2 + 1), "parse_sequence_header(s, p, huge)"); break;
    case 27: if (dav1d_data_create(nullptr, 10)) fail("misuse-accepted", "data_create(NULL) succeeded"); probe("data_create(NULL, n)"); break;
    case 28: if (dav1d_data_create(&d, SIZE_MAX / 2 + 1 + r.below(1000))) fail("misuse-accepted", "data_create(huge) succeeded"); same_d("data_create(d, huge)"); probe("data_create(d, huge)"); break;
    case 29: expect_err(dav1d_data_wrap(nullptr, buf, 10, nofree, nullptr), "data_wrap(NULL, ...)"); break;
    case 30: expect_err(dav1d_data_wrap(&d, nullptr, 10, nofree, nullptr), "data_wrap(d, NULL, ...)"); same_d("data_wrap(d, NULL, ...)"); break;
    case 31: expect_err(dav1d_data_wrap(&d, buf, 10, nullptr, nullptr), "data_wrap without callback"); same_d("data_wrap without callback"); break;
    case 32: expect_err(dav1d_data_wrap(&d, buf, SIZE_MAX / 2 + 1 + r.below(1000), nofree, nullptr), "data_wrap(huge)"); same_d("data_wrap(huge)"); break;
    case 33: expect_err(dav1d_data_wrap_user_data(nullptr, buf, nofree, nullptr), "data_wrap_user_data(NULL, ...)"); break;
    case 34: expect_err(dav1d_data_wrap_user_data(&d, buf, nullptr, nullptr), "data_wrap_user_data without callback"); same_d("data_wrap_user_data without callback"); break;
    case 35: // cleared and null handles
        dav1d_data_unref(nullptr); dav1d_data_props_unref(nullptr); dav1d_picture_unref(nullptr); dav1d_close(nullptr);
        c2 = nullptr; dav1d_close(&c2);
        dav1d_data_unref(&d); dav1d_data_unref(&d);
        if (d.data || d.sz || d.ref) fail("misuse-handle", "unreferencing an empty data handle filled it");
        memset(&pic, 0, sizeof pic); dav1d_picture_unref(&pic); dav1d_picture_unref(&pic);
        if (pic.data[0] || pic.ref) fail("misuse-handle", "unreferencing an empty picture filled it");
        probe("release of null and empty handles");
        break;
    }
    if (S.s.threads == 1) {
        sim::Ledger l1 = sim::ledger();
        if (l0.live_blocks != l1.live_blocks || l0.live_bytes != l1.live_bytes || l0.live_mutexes != l1.live_mutexes || l0.live_conds != l1.live_conds || l0.live_threads != l1.live_threads || l0.live_attrs != l1.live_attrs)
            fail("misuse-leak", "rejected call %d changed what the library holds: %llu blocks / %llu bytes before, %llu / %llu after", k, (unsigned long long)l0.live_blocks, (unsigned long long)l0.live_bytes, (unsigned long long)l1.live_blocks, (unsigned long long)l1.live_bytes);
    }
}
static void c20(Env &e) {
    GenOpt g = gopt(FT_ALL, 8, 96);
    Oracle *o = e.stream("", g);
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_INLOOP | V_DFT | V_GRAIN | V_LOG, &o->s);
    // every documented value is acceptable
    if (e.R.flag("r.rare", 1, 3)) {
        t.threads = e.R.pick("r.thr2", {0, 1, 2, 17, 31, 49, 50, 51, 64});
        if (e.R.flag("r.max", 1, 20)) t.threads = 256;
        t.delay = e.R.pick("r.del2", {0, 1, 2, 7, 8, 9, 16, 17, 64, 255, 256});
        if (e.R.flag("r.op2", 1, 3)) { t.op = e.R.get("r.op3", 0, 31); t.all_layers = 1; }
    }
    auto ch = pick_cut(e, o->s, t, 0);
    e.desc = o->s.desc + " | " + sdesc(t);
    std::vector<PicRec> ref;
    size_t nerr = 0;
    if (!ref_run(ch, t, ref, &nerr)) return;
    if (nerr) { probe("settings that report errors when single-threaded"); return; }
    ModelOpt mo; mo.op = t.op; mo.all_layers = t.all_layers; mo.invisible = t.invisible; mo.dft = t.dft;
    auto exp = model(o->s, mo);
    bool cached = !t.all_layers && layered(o->s);
    int rate = e.R.pick("r.mis", {10, 30, 60});
    e.main_run(CK_LEDGER | CK_BUF | CK_PIC | CK_API, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open rejects documented settings");
        if (S.n_fc > std::max(1, t.threads) && t.threads) fail("api-delay", "reported frame delay %d with %d threads", S.n_fc, t.threads);
        if (t.delay && S.n_fc > t.delay) fail("api-delay", "reported frame delay %d with a maximum of %d", S.n_fc, t.delay);
        Player p(e.R.seed);
        setup_player(e, p, S, ch);
        p.on_idle = [&](Player &pl) {
            size_t u = pl.last_accepted ? ch[pl.last_accepted - 1].u1 : 0, n = 0;
            for (auto &x : exp) if ((size_t)o->s.frames[x.frame].last_unit < u) n++;
            size_t bound = (S.n_fc > 1 ? S.n_fc : 0) + (cached ? 1 : 0);
            if (exp.size() == ref.size() && n > pl.got.size() + bound)
                fail("delay-exceeded", "%zu shown frames were sent, only %zu returned when asked for more data; reported delay %d", n, pl.got.size(), S.n_fc);
        };
        Rng r(mix(e.R.seed, 0x20));
        while (!p.done) {
            p.step();
            if ((int)r.below(100) < rate) { LibScope l; misuse(e, S, r); }
            if (p.have && r.chance(1, 4)) { // inconsistent sizes in a handle that is otherwise fine
                Dav1dData sv = p.d;
                static const size_t bad[] = {0, SIZE_MAX, SIZE_MAX / 2 + 1};
                p.d.sz = bad[r.below(3)];
                Dav1dData b4 = p.d;
                int rc = dav1d_send_data(S.c, &p.d);
                expect_err(rc, "send_data with a bad size");
                if (memcmp(&b4, &p.d, sizeof b4)) fail("misuse-handle", "send_data with a bad size changed the handle");
                p.d = sv;
            }
        }
        note_parallel(e, S);
        no_errors(p, "decode between rejected calls");
        compare_rec(ref, p.got, "decode between rejected calls", false);
        account(p);
        S.close();
        { Rng q(r.next()); Session none; none.s.threads = 1; (void)q; }
    });
}

// ------------------------------------------------------------------ command line tool (C18, C23, C24)
namespace {
struct TPic { int w, h, layout, bpc, rw, rh, chr, hbd; std::vector<uint8_t> px; };
struct Md5 { // RFC 1321, independent of the tool
    static std::string of(const std::vector<uint8_t> &in) {
        static const int sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
        static uint32_t T[64];
        if (!T[0]) for (int i = 0; i < 64; i++) { double x = __builtin_fabs(__builtin_sin(i + 1.0)); T[i] = (uint32_t)(x * 4294967296.0); }
        std::vector<uint8_t> m = in;
        uint64_t bits = (uint64_t)in.size() * 8;
        m.push_back(0x80);
        while (m.size() % 64 != 56) m.push_back(0);
        for (int i = 0; i < 8; i++) m.push_back((uint8_t)(bits >> 8 * i));
        uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
        for (size_t o = 0; o < m.size(); o += 64) {
            uint32_t x[16], v[4] = {h[0], h[1], h[2], h[3]};
            memcpy(x, &m[o], 64);
            for (int i = 0; i < 64; i++) {
                uint32_t f; int g;
                switch (i / 16) {
                case 0: f = (v[1] & v[2]) | (~v[1] & v[3]); g = i; break;
                case 1: f = (v[3] & v[1]) | (~v[3] & v[2]); g = (5 * i + 1) & 15; break;
                case 2: f = v[1] ^ v[2] ^ v[3]; g = (3 * i + 5) & 15; break;
                default: f = v[2] ^ (v[1] | ~v[3]); g = (7 * i) & 15; break;
                }
                uint32_t t = v[0] + f + T[i] + x[g];
                int r = sh[i / 16][i & 3];
                v[0] = v[3]; v[3] = v[2]; v[2] = v[1];
                v[1] += t << r | t >> (32 - r);
            }
            for (int i = 0; i < 4; i++) h[i] += v[i];
        }
        char b[33];
        for (int i = 0; i < 16; i++) snprintf(b + 2 * i, 3, "%02x", h[i / 4] >> 8 * (i & 3) & 255);
        return b;
    }
};
#if __has_include(<xxhash.h>)
std::string xxh_of(const std::vector<uint8_t> &in) {
    XXH128_canonical_t c;
    XXH128_canonicalFromHash(&c, XXH3_128bits(in.data(), in.size()));
    char b[33];
    for (int i = 0; i < 16; i++) snprintf(b + 2 * i, 3, "%02x", c.digest[i]);
    return b;
}
static const bool HAVE_XXH = true;
#else
std::string xxh_of(const std::vector<uint8_t> &) { return ""; }
static const bool HAVE_XXH = false;
#endif
enum { CT_IVF, CT_S5, CT_AB };
enum { MX_MD5, MX_YUV, MX_Y4M, MX_XXH, MX_NULL, MX_NMD5, MX_NYUV, MX_NY4M, NMX };
void leb_put(std::vector<uint8_t> &v, uint64_t x) { do { uint8_t b = x & 127; x >>= 7; v.push_back(b | (x ? 128 : 0)); } while (x); }
struct ToolCase {
    int cont = 0, mux = 0, limit = 0, skip = 0;
    bool to_stdout = false, verify = false, verify_bad = false, probe = false, quiet = false;
    Settings t;
    std::vector<Chunk> pk;            // packets the container holds
    std::vector<size_t> pk_end;       // offset in the file behind each packet
    std::vector<uint8_t> file;
    std::vector<size_t> pk_beg;       // IVF: offset of the packet's header
    std::vector<uint64_t> pk_ts;      // IVF: time stamp in the header
    bool broken = false;              // IVF: time stamps do not increase
    unsigned num = 0, den = 0, dur = 0; // IVF: header fields
    unsigned fps[2] = {25, 1};
    std::vector<TPic> pics;           // expected
    bool errs = false;                // the packets do not decode without errors
    std::string pattern;
    std::vector<std::string> args;
};
std::vector<uint8_t> strip_size(const std::vector<uint8_t> &o) { // one OBU without its size field
    size_t p = 1 + (o[0] >> 2 & 1), q = p;
    while (o[q] & 128) q++;
    q++;
    std::vector<uint8_t> v(o.begin(), o.begin() + p);
    v[0] &= ~2;
    v.insert(v.end(), o.begin() + q, o.end());
    return v;
}
void ivf_fps(ToolCase &c, size_t n) { // what the header and n packet headers say
    uint64_t fn = (uint64_t)c.num * n, fd = (uint64_t)c.den * c.dur;
    if (fn && fd) { uint64_t a = fn, b = fd; while (b) { uint64_t t = a % b; a = b; b = t; } c.fps[0] = (unsigned)(fn / a); c.fps[1] = (unsigned)(fd / a); }
    else c.fps[0] = c.fps[1] = 0;
}
void build_container(Env &e, const Stream &s, ToolCase &c) {
    Knobs &R = e.R;
    Rng r(mix(R.seed, 0xC047));
    auto le = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) c.file.push_back((uint8_t)(v >> 8 * i)); };
    if (c.cont == CT_IVF) {
        c.pk = pick_cut(e, s, c.t, 0);
        unsigned num = R.pick("r.fpsn", {25, 30, 24000, 60, 1, 1000}), den = R.pick("r.fpsd", {1, 1001, 2, 1, 40});
        int dur = R.pick("r.ivfdur", {0, 0, 0, 1, 2});   // frames in the header: right, doubled, 0
        unsigned n = (unsigned)c.pk.size(), d = dur == 0 ? n : dur == 1 ? 2 * n : 0;
        bool broken = R.flag("r.ivfts", 1, 4);
        for (char x : {'D', 'K', 'I', 'F'}) c.file.push_back((uint8_t)x);
        le(0, 2); le(32, 2);
        for (char x : {'A', 'V', '0', '1'}) c.file.push_back((uint8_t)x);
        le(s.seqs[0].maxw, 2); le(s.seqs[0].maxh, 2); le(num, 4); le(den, 4); le(d, 4); le(0, 4);
        c.num = num; c.den = den; c.dur = d;
        ivf_fps(c, n);
        int tsx = R.pick("r.tsbig", {1, 1, 1, 7, 90000, 1 << 30});
        uint64_t ts = 0;
        for (auto &k : c.pk) {
            c.pk_beg.push_back(c.file.size());
            c.pk_ts.push_back(ts);
            if (c.pk_ts.size() > 1 && ts <= c.pk_ts[c.pk_ts.size() - 2]) c.broken = true;
            le(k.b.size(), 4); le(ts, 8);
            c.file.insert(c.file.end(), k.b.begin(), k.b.end());
            c.pk_end.push_back(c.file.size());
            ts = broken ? r.below(5) : ts + (1 + r.below(3)) * (uint64_t)tsx;
        }
    } else if (c.cont == CT_S5) {
        c.pk = cut(s, CUT_TU, r, 0, false);
        for (auto &k : c.pk) { c.file.insert(c.file.end(), k.b.begin(), k.b.end()); c.pk_end.push_back(c.file.size()); }
    } else {
        auto tus = cut(s, CUT_TU, r, 0, false);
        bool strip = R.flag("r.abstrip", 1, 2), split = R.flag("r.absplit", 1, 2);
        for (auto &tu : tus) {
            std::vector<std::vector<std::vector<uint8_t>>> fu(1); // frame units
            for (size_t u = tu.u0; u < tu.u1; u++) {
                auto b = s.units[u].bytes;
                if (strip && r.chance(3, 4)) b = strip_size(b);
                fu.back().push_back(b);
                bool fe = false;
                for (auto &f : s.frames) if (f.last_unit == (int)u) fe = true;
                if (split && fe && u + 1 < tu.u1) fu.emplace_back();
            }
            std::vector<uint8_t> body, pos; std::vector<size_t> ends;
            for (auto &f : fu) {
                std::vector<uint8_t> fb; std::vector<size_t> fe;
                for (auto &b : f) { leb_put(fb, b.size()); fb.insert(fb.end(), b.begin(), b.end()); fe.push_back(fb.size()); }
                leb_put(body, fb.size());
                for (auto x : fe) ends.push_back(body.size() + x);
                body.insert(body.end(), fb.begin(), fb.end());
                for (auto &b : f) { Chunk k; k.b = b; k.id = (int)c.pk.size(); c.pk.push_back(k); }
            }
            leb_put(c.file, body.size());
            for (auto x : ends) c.pk_end.push_back(c.file.size() + x);
            c.file.insert(c.file.end(), body.begin(), body.end());
        }
    }
}
bool has_seq(const std::vector<uint8_t> &b) { // some OBU of the packet is a sequence header (packets of valid streams only)
    size_t p = 0;
    while (p < b.size()) {
        int type = b[p] >> 3 & 15, ext = b[p] >> 2 & 1, sz = b[p] >> 1 & 1;
        if (type == OBU_SEQ) return true;
        p += 1 + ext;
        uint64_t len = b.size() - p;
        if (sz) { len = 0; for (int i = 0; p < b.size(); i++) { uint8_t x = b[p++]; len |= (uint64_t)(x & 127) << 7 * i; if (!(x & 128)) break; } }
        p += len;
    }
    return false;
}
void expect_pics(const std::vector<Chunk> &pk, const Settings &t, std::vector<TPic> &out, bool &errs) {
    Settings u = t;
    u.threads = 1; u.delay = 1; u.alloc = AllocCfg();
    World *old = W;
    World w;
    W = &w;
    sim::Options so;
    so.explicit_sched = true; so.fill_mode = 3; so.seed = 77; so.cold = true;
    out.clear(); errs = false;
    sim::run(so, [&] {
        Session S;
        if (S.open(u)) { errs = true; return; }
        Player p(1);
        p.S = &S; p.ch = &pk; p.pat = PAT_EAGER;
        p.on_pic = [&](Player &, Dav1dPicture &q, PicRec &) {
            TPic x{q.p.w, q.p.h, (int)q.p.layout, q.p.bpc, (int)q.frame_hdr->render_width, (int)q.frame_hdr->render_height, (int)q.seq_hdr->chr, (int)q.seq_hdr->hbd, {}};
            int hb = q.p.bpc > 8, n = q.p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3;
            for (int pl = 0; pl < n; pl++) {
                int cw = pl && q.p.layout != DAV1D_PIXEL_LAYOUT_I444 ? (x.w + 1) >> 1 : x.w, ch = pl && q.p.layout == DAV1D_PIXEL_LAYOUT_I420 ? (x.h + 1) >> 1 : x.h;
                for (int y = 0; y < ch; y++) { const uint8_t *a = (const uint8_t *)q.data[pl] + y * q.stride[!!pl]; x.px.insert(x.px.end(), a, a + (cw << hb)); }
            }
            out.push_back(std::move(x));
        };
        p.finish();
        errs = !p.errs.empty();
        S.close();
    });
    W = old;
}
std::string y4m_head(const TPic &p, const unsigned fps[2]) {
    uint64_t aw = (uint64_t)p.h * p.rw, ah = (uint64_t)p.w * p.rh, a = aw, b = ah;
    while (b) { uint64_t t = a % b; a = b; b = t; }
    static const char *const lay[] = {"mono", "420", "422", "444"};
    std::string c = lay[p.layout];
    if (p.layout == DAV1D_PIXEL_LAYOUT_I420 && p.bpc == 8) c = p.chr == 1 ? "420mpeg2" : p.chr == 2 ? "420" : "420jpeg";
    else if (p.bpc > 8) c += p.layout == DAV1D_PIXEL_LAYOUT_I400 ? std::to_string(p.bpc) : "p" + std::to_string(p.bpc);
    return "YUV4MPEG2 W" + std::to_string(p.w) + " H" + std::to_string(p.h) + " F" + std::to_string(fps[0]) + ":" + std::to_string(fps[1]) + " Ip A" + std::to_string(aw / a) + ":" + std::to_string(ah / a) + " C" + c + "\n";
}
std::vector<uint8_t> render(int mux, const std::vector<TPic> &v, size_t a, size_t n, const unsigned fps[2]) { // frames a .. n-1 in one file
    std::vector<uint8_t> o;
    auto txt = [&](const std::string &s) { o.insert(o.end(), s.begin(), s.end()); };
    if (mux == MX_Y4M && a < n) txt(y4m_head(v[a], fps));
    for (size_t i = a; i < n; i++) {
        if (mux == MX_Y4M) txt("FRAME\n");
        o.insert(o.end(), v[i].px.begin(), v[i].px.end());
    }
    if (mux == MX_MD5 || mux == MX_XXH) { std::string h = mux == MX_MD5 ? Md5::of(o) : xxh_of(o); o.clear(); txt(h + "\n"); }
    return o;
}
std::string frame_name(const std::string &pat, size_t n, const TPic &p) {
    std::string o;
    for (size_t i = 0; i < pat.size(); i++) {
        if (pat[i] != '%') { o += pat[i]; continue; }
        size_t j = i + 1;
        while (j < pat.size() && pat[j] >= '0' && pat[j] <= '9') j++;
        long v = pat[j] == 'n' ? (long)n : pat[j] == 'w' ? p.w : pat[j] == 'h' ? p.h : -1;
        if (v < 0) { o += '%'; continue; }
        std::string num = std::to_string(v), wd = pat.substr(i + 1, j - i - 1);
        if (!wd.empty()) { size_t k = (size_t)atoi(wd.c_str()); while (num.size() < k) num = "0" + num; }
        o += num;
        i = j;
    }
    return o;
}
int one_mux(int m) { return m == MX_NMD5 ? MX_MD5 : m == MX_NYUV ? MX_YUV : m == MX_NY4M ? MX_Y4M : m; }
typedef std::map<std::string, std::vector<uint8_t>> Files;
Files expect_files(const ToolCase &c, size_t n) { // "" is standard output
    Files f;
    if (c.mux == MX_NULL || c.verify || !n) return f;
    if (c.mux >= MX_NMD5) { for (size_t i = 0; i < n; i++) f[frame_name(c.pattern, i, c.pics[i])] = render(one_mux(c.mux), c.pics, i, i + 1, c.fps); return f; }
    f[c.to_stdout ? "" : c.pattern] = render(c.mux, c.pics, 0, n, c.fps);
    return f;
}
Files actual_files(const cli::Disk &d) {
    Files f;
    for (auto &x : d.f) if (x.first != "/in" && x.first != "/frametimes") f[x.first] = *x.second;
    if (!d.out.empty()) f[""] = d.out;
    return f;
}
std::string diff_files(const Files &want, const Files &got) {
    char b[300];
    for (auto &x : want) {
        auto it = got.find(x.first);
        const char *n = x.first.empty() ? "standard output" : x.first.c_str();
        if (it == got.end()) { std::string w = std::string(n) + " is missing (" + std::to_string(x.second.size()) + " bytes expected); there are"; for (auto &y : got) w += " " + y.first; return w.substr(0, 300); }
        if (it->second != x.second) {
            size_t i = 0;
            while (i < x.second.size() && i < it->second.size() && x.second[i] == it->second[i]) i++;
            snprintf(b, sizeof b, "%s has %zu bytes, expected %zu; first difference at byte %zu", n, it->second.size(), x.second.size(), i);
            return b;
        }
    }
    for (auto &x : got) if (!want.count(x.first)) return "unexpected output " + (x.first.empty() ? std::string("on standard output") : x.first);
    return "";
}
bool make_tool(Env &e, ToolCase &c, bool plain_out = false) {
    Knobs &R = e.R;
    Oracle *o = e.stream("", gopt(FT_ALL, 10, 200));
    if (!o) return false;
    c.t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_INLOOP | V_DFT | V_GRAIN, &o->s);
    c.cont = R.pick("r.cont", {CT_IVF, CT_IVF, CT_S5, CT_AB});
    if (c.cont == CT_AB && layered(o->s)) c.t.all_layers = 1;
    build_container(e, o->s, c);
    c.mux = plain_out ? R.pick("r.mux", {MX_YUV, MX_YUV, MX_Y4M}) : R.get("r.mux", 0, NMX - 1);
    if (c.mux == MX_XXH && !HAVE_XXH) c.mux = MX_MD5;
    bool expl_grain = R.flag("r.cligrain", 2, 3), expl_mux = c.mux == MX_NULL || R.flag("r.climux", 1, 2);
    if (!plain_out && (c.mux == MX_MD5 || c.mux == MX_XXH) && R.flag("r.verify", 1, 3)) { c.verify = true; c.verify_bad = R.flag("r.vbad", 1, 3); }
    if (!c.verify && c.mux < MX_NULL) c.to_stdout = R.flag("r.stdout", 1, 4);
    if (c.to_stdout) expl_mux = true;
    static const char *const mn[] = {"md5", "yuv", "yuv4mpeg2", "xxh3", "null", "md5", "yuv", "yuv4mpeg2"}, *const ext[] = {"md5", "yuv", "y4m", "xxh3", "x", "md5", "yuv", "y4m"};
    // the tool's own default for film grain
    if (!expl_grain) c.t.grain = !((c.mux == MX_MD5 || c.mux == MX_XXH) && (expl_mux || c.verify));
    if (c.mux == MX_MD5 && c.verify && !expl_mux) c.t.grain = expl_grain ? c.t.grain : 0;
    c.limit = R.flag("r.lim", 1, 4) ? R.get("r.limit", 1, 8) : 0;
    c.skip = R.flag("r.skipx", 1, 6) ? R.get("r.skip", 1, 6) : 0;
    c.quiet = R.flag("r.quiet", 1, 2);
    c.probe = R.flag("r.probe", 1, 2);
    auto A = [&](const std::string &a, const std::string &b = "") { c.args.push_back(a); if (!b.empty()) c.args.push_back(b); };
    A("dav1d", R.flag("r.longopt", 1, 2) ? "--input" : "-i"); A("/in");
    static const char *const dn[] = {"ivf", "section5", "annexb"};
    if (!c.probe) A("--demuxer", dn[c.cont]);
    if (c.mux >= MX_NMD5) {
        static const char *const pats[] = {"/o%n.", "/o_%3n_%wx%h.", "/f%5n.", "/%w-%n-%%h-%d."};
        c.pattern = std::string(pats[R.get("r.pattern", 0, 3)]) + ext[c.mux];
        if (R.flag("r.framemux", 1, 2)) A("--muxer", std::string("frame") + mn[c.mux]);
        A("-o", c.pattern);
    } else if (c.verify) {
        if (expl_mux || c.mux == MX_XXH) A("--muxer", mn[c.mux]);
    } else if (c.mux == MX_NULL) A("--muxer", "null");
    else {
        c.pattern = std::string("/out.") + ext[c.mux];
        if (expl_mux) A("--muxer", mn[c.mux]);
        A("-o", c.to_stdout ? "-" : c.pattern);
    }
    A("--threads", std::to_string(c.t.threads)); A("--framedelay", std::to_string(c.t.delay));
    A("--strict", "0");
    if (expl_grain) A("--filmgrain", std::to_string(c.t.grain));
    if (c.t.op || R.flag("r.cliop", 1, 4)) A("--oppoint", std::to_string(c.t.op));
    if (!c.t.all_layers || R.flag("r.clial", 1, 4)) A("--alllayers", std::to_string(c.t.all_layers));
    if (c.t.invisible) A("--outputinvisible", "1");
    if (c.t.inloop != 7) {
        static const char *const nm[] = {"none", "deblock", "cdef", "norestoration", "restoration", "nocdef", "nodeblock", "all"};
        A("--inloopfilters", R.flag("r.inlnum", 1, 3) ? std::to_string(c.t.inloop) : nm[c.t.inloop]);
    }
    if (c.t.dft) { static const char *const nm[] = {"all", "reference", "intra", "key"}; A("--decodeframetype", nm[c.t.dft]); }
    if (R.flag("r.clineg", 1, 5)) A("--negstride");
    if (R.flag("r.climask", 1, 8)) A("--cpumask", R.pick("r.maskv", {0, 1}) ? "0x0" : "sse2");
    if (c.limit) A(R.flag("r.longopt", 1, 2) ? "--limit" : "-l", std::to_string(c.limit));
    if (c.skip) A("-s", std::to_string(c.skip));
    if (c.quiet) A("-q");
    if (R.flag("r.eq", 1, 3)) { // the other spellings of the same options
        Rng q(mix(R.seed, 0xE9));
        for (size_t i = 1; i + 1 < c.args.size(); i++) {
            std::string &a = c.args[i], &b = c.args[i + 1];
            if (a[0] != '-' || b[0] == '-' || a == "-q" || a == "--negstride") continue;
            bool num = b.find_first_not_of("0123456789") == std::string::npos;
            if (num && q.chance(1, 3)) { char h[20]; snprintf(h, sizeof h, q.chance(1, 2) ? "0x%x" : "0%o", (unsigned)std::stoul(b)); b = h; }
            if (q.chance(1, 2)) { a += a[1] == '-' ? "=" + b : b; c.args.erase(c.args.begin() + i + 1); }
        }
    }
    return true;
}
void expectations(ToolCase &c, size_t npk) { // what the first npk packets give
    size_t a = std::min<size_t>(c.skip, npk);
    if (c.skip) while (a < npk && !has_seq(c.pk[a].b)) a++;
    std::vector<Chunk> v(c.pk.begin() + a, c.pk.begin() + npk);
    for (size_t i = 0; i < v.size(); i++) v[i].id = (int)i;
    if (v.empty()) { c.pics.clear(); c.errs = false; return; }
    expect_pics(v, c.t, c.pics, c.errs);
    if (c.limit && c.pics.size() > (size_t)c.limit) c.pics.resize(c.limit);
    if (c.verify) {
        std::vector<uint8_t> r = render(c.mux, c.pics, 0, c.pics.size(), c.fps);
        std::string h(r.begin(), r.end());
        if (!h.empty()) h.pop_back();
        size_t z = c.fps[0] * 7 + c.pk.size() * 5 + npk;
        if (c.verify_bad && h.size() > 2 && z % 3 == 0) h.resize(1 + z / 3 % (h.size() - 1)); // too short
        else if (c.verify_bad && !h.empty()) { char &x = h[(size_t)(c.fps[0] * 7 + c.pk.size()) % h.size()]; x = x == '0' ? '1' : '0'; }
        if (h.empty()) h = "00";
        c.args.push_back("--verify");
        c.args.push_back(h);
    }
}
std::string join_args(const std::vector<std::string> &v) { std::string s; for (auto &x : v) { if (!s.empty()) s += ' '; s += x; } return s; }
std::string tail(const std::string &s) { std::string t = s.size() > 300 ? s.substr(s.size() - 300) : s; for (char &x : t) if (x == '\n' || x == '\r') x = ' '; return t; }
cli::Cfg io_cfg(Env &e) {
    Knobs &R = e.R;
    cli::Cfg g;
    g.seed = R.seed;
    g.rd_chunk = R.pick("r.rdc", {0, 0, 1, 7, 100, 5000});
    g.wr_chunk = R.pick("r.wrc", {0, 0, 3, 64, 3000});
    if (g.rd_chunk && g.rd_chunk < 50) g.rd_chunk = R.pick("r.rdc2", {17, 60, 333});
    g.out_tty = R.flag("r.otty", 1, 8); g.err_tty = R.flag("r.etty", 1, 3);
    g.ns_step = R.pick("r.nsstep", {0, 20, 200, 5000});
    g.ns_io = R.pick("r.nsio", {0, 1000, 100000, 5000000});
    if (R.flag("r.stall", 1, 4)) { g.stall_den = R.pick("r.stalld", {3, 20, 200}); g.stall_ns = 1000000ull * R.pick("r.stallms", {5, 200, 30000}); }
    g.oversleep = R.flag("r.oversl", 1, 3);
    return g;
}
struct Count { uint64_t io, alloc, points; cli::Result r; };
// one run with the default schedule and no faults: how many operations there are
Count count_ops(const ToolCase &c, cli::Cfg g, cli::Disk &d) {
    sim::Options so;
    so.explicit_sched = true; so.fill_mode = 3; so.seed = 78; so.cold = true;
    World *old = W; World w; W = &w;
    d = cli::Disk();
    d.f["/in"] = std::make_shared<std::vector<uint8_t>>(c.file);
    Count n{};
    g.sig_from = -1; g.on_out = nullptr;
    sim::run(so, [&] { n.r = cli::run_tool(c.args, d, g); });
    n.io = sim::stats().asked[sim::F_IO]; n.alloc = sim::stats().asked[sim::F_ALLOC]; n.points = sim::stats().points;
    W = old;
    return n;
}
const char *mux_name(int m) { static const char *const n[] = {"md5", "yuv", "y4m", "xxh3", "null", "md5 per frame", "yuv per frame", "y4m per frame"}; return n[m]; }
void count_probes(const ToolCase &c, const cli::Result &r) {
    static const char *const cn[] = {"container:ivf", "container:section5", "container:annexb"};
    probe(cn[c.cont]);
    probe((std::string("muxer:") + mux_name(c.mux)).c_str());
    probe("io:read failed", r.f_read); probe("io:write failed", r.f_write); probe("io:open failed", r.f_open); probe("io:close failed", r.f_close);
    probe("io:short read", r.short_reads); probe("io:short write", r.short_writes); probe("io:disk full", r.full); probe("io:calls", r.io_ops);
    probe("simulated ms", (r.t_end - 1000000000000ull) / 1000000);
    probe(r.code == 0 ? "tool ended with success" : "tool ended with failure");
}
}
// the first frame follows a sequence header within what the tool looks at to recognise the container
static bool recognisable(const Stream &s, const ToolCase &c) {
    size_t o = 16;
    for (auto &u : s.units) {
        if (u.type == OBU_FRAME || u.type == OBU_FRAME_HDR) return o < 1900 && o < c.file.size();
        o += u.bytes.size() + 16;
    }
    return false;
}
static bool not_probed(const Stream &s, const ToolCase &c, const cli::Disk &d) {
    if (!c.probe || c.cont == CT_IVF || d.err.find("probe") == std::string::npos || recognisable(s, c)) return false;
    probe("container not recognised");
    return true;
}
static void tool_run(Env &e, const ToolCase &c, const cli::Cfg &g, cli::Disk &d, cli::Result &r) {
    sim::Options so = e.sched();
    so.cold = true;
    d = cli::Disk();
    d.f["/in"] = std::make_shared<std::vector<uint8_t>>(c.file);
    logf("%s", join_args(c.args).c_str());
    e.main_run(0, [&] { r = cli::run_tool(c.args, d, g); logf("exit %d: %s", r.code, tail(d.err).c_str()); }, &so);
    slot->frames += c.pics.size();
    count_probes(c, r);
}
// ---- C18: exit status is honest
static void c18(Env &e) {
    ToolCase c;
    if (!make_tool(e, c)) return;
    expectations(c, c.pk.size());
    if (c.errs) { probe("settings that report errors"); return; }
    cli::Cfg g = io_cfg(e);
    Knobs &R = e.R;
    cli::Disk d;
    Count n{};
    int kind = R.pick("r.fk", {0, 1, 1, 1, 1, 2, 3, 3, 3}); // none, I/O failure, disk full, failing allocation
    e.desc = join_args(c.args) + " | " + e.stream("", gopt())->s.desc;
    if (kind) n = count_ops(c, g, d);
    if (kind == 1) {
        // failures near the end (flush, close) and at the start (open, probe, scan) get their share
        int where = R.get("r.fwhere", 0, 3);
        uint64_t m = std::max<uint64_t>(n.io, 1), i = where == 0 ? m - 1 - (uint64_t)R.get("r.fend", 0, 3) % m : where == 1 ? (uint64_t)R.get("r.fbeg", 0, 12) % m : Rng(mix(R.seed, 0xF10)).next() % m;
        e.plan.push_back({sim::F_IO, i, R.pick("r.flen", {1, 1, 1, 2, -1})});
        if (R.flag("r.f2", 1, 5)) e.plan.push_back({sim::F_IO, Rng(mix(R.seed, 0xF11)).next() % m, 1});
    } else if (kind == 2) {
        Files w = expect_files(c, c.pics.size());
        uint64_t tot = 0;
        for (auto &x : w) tot += x.second.size();
        int where = R.get("r.fwhere", 0, 3);
        g.space = !tot ? 0 : where == 0 ? tot - 1 - (uint64_t)R.get("r.fend", 0, 40) % tot : Rng(mix(R.seed, 0xF12)).next() % tot;
    } else if (kind == 3) {
        uint64_t m = std::max<uint64_t>(n.alloc, 1), i = R.flag("r.fearly", 1, 3) ? (uint64_t)R.get("r.fbeg", 0, 30) % m : Rng(mix(R.seed, 0xF13)).next() % m;
        e.plan.push_back({sim::F_ALLOC, i, R.pick("r.flen", {1, 1, 2, 5, -1})});
    }
    cli::Result r;
    e.nontrivial = true;
    tool_run(e, c, g, d, r);
    auto &st = sim::stats();
    bool hurt = st.fired[sim::F_IO] || st.fired[sim::F_ALLOC] || r.full;
    if (hurt) probe("tool runs with a failure");
    if (r.code == 0) {
        if (c.verify) {
            if (c.verify_bad) fail("verify-accepted", "exit status 0 although the checksum given to --verify is wrong: %s", e.desc.c_str());
        } else if (c.pics.empty()) fail("empty-success", "exit status 0 although no frame could be decoded: %s", e.desc.c_str());
        std::string w = diff_files(expect_files(c, c.pics.size()), actual_files(d));
        if (!w.empty()) fail("silent-corruption", "exit status 0 but %s (%llu I/O failures, %llu failed allocations, disk full %llu times); stderr: %s", w.c_str(), (unsigned long long)st.fired[sim::F_IO], (unsigned long long)st.fired[sim::F_ALLOC],
                             (unsigned long long)r.full, tail(d.err).c_str());
    } else if (!hurt && !c.pics.empty() && !c.verify_bad) {
        if (!not_probed(e.stream("", gopt())->s, c, d)) fail("tool-failed", "exit status %d without any failure: %s; %s", r.code, tail(d.err).c_str(), e.desc.c_str());
    }
}
// ---- C23: containers
// what is left of the packets when the file ends at byte n; 0: the file cannot be opened
static bool cut_container(const Stream &s, ToolCase &c, size_t n) {
    size_t k = 0;
    while (k < c.pk_end.size() && c.pk_end[k] <= n) k++;
    bool ok = true;
    std::vector<Chunk> v(c.pk.begin(), c.pk.begin() + k);
    if (c.cont == CT_IVF) {
        size_t h = 0;
        while (h < c.pk_beg.size() && c.pk_beg[h] + 12 <= n) h++;
        ivf_fps(c, h);
        ok = n >= 32;
    } else if (c.cont == CT_S5 && k < c.pk.size()) {
        size_t o = k ? c.pk_end[k - 1] : 0;
        Chunk q = c.pk[k];
        q.b.clear();
        for (size_t u = c.pk[k].u0; u < c.pk[k].u1 && o < n; u++) {
            auto &b = s.units[u].bytes;
            if (o + b.size() <= n) { o += b.size(); q.b.insert(q.b.end(), b.begin(), b.end()); continue; }
            size_t h = 1 + (b[0] >> 2 & 1);
            while (b[h] & 128) h++;
            if (n - o < h + 1) ok = false;      // cut within an OBU header
            q.b.clear();
            break;
        }
        if (!q.b.empty()) v.push_back(q);       // whole OBUs of an unfinished temporal unit
    }
    c.pk = v;
    c.file.resize(n);
    return ok;
}
// ---- C20: a command line that makes no sense ends with an error before anything is written
static void c20_cli(Env &e) {
    ToolCase c;
    if (!make_tool(e, c)) return;
    expectations(c, c.pk.size());
    if (c.errs || (c.verify && c.pics.empty())) { probe("settings that report errors"); return; }
    cli::Cfg g = io_cfg(e);
    Rng r(mix(e.R.seed, 0xC11));
    auto drop = [&](const char *lo, const char *sh) {
        for (size_t i = 1; i < c.args.size(); i++) {
            std::string &a = c.args[i];
            size_t n = a == lo || a == sh ? 2 : !a.compare(0, strlen(lo) + 1, std::string(lo) + "=") || (a[1] != '-' && !a.compare(0, 2, sh)) ? 1 : 0;
            if (n) { c.args.erase(c.args.begin() + i, c.args.begin() + i + n); return true; }
        }
        return false;
    };
    static const char *const num[] = {"--threads", "--framedelay", "--limit", "-l", "--skip", "-s", "--filmgrain", "--oppoint", "--alllayers", "--strict", "--outputinvisible", "--realtimecache", "--sizelimit"};
    static const char *const bad_num[] = {"", "x", "3x", "0x", "1e3", "--", "5 ", "1.5", "0xg", "four", "2,"};
    static const char *const en[] = {"--cpumask", "--inloopfilters", "--decodeframetype"}, *const bad_en[] = {"", "foo", "0xz", "al", "allx", "none,", "0x", "3q"};
    static const char *const late[][2] = {{"--threads", "257"}, {"--threads", "-1"}, {"--threads", "4294967295"}, {"--framedelay", "257"}, {"--framedelay", "-2"}, {"--oppoint", "32"}, {"--oppoint", "-1"}, {"--decodeframetype", "4"}, {"--decodeframetype", "0xffffffff"}};
    static const char *const odd[][2] = {{"--nope", ""}, {"-Z", ""}, {"junk", ""}, {"--in", "x"}, {"--sizelimit", "4294967295"}, {"--sizelimit", "65536x65536"}, {"--sizelimit", "10x"}, {"--sizelimit", "10x10x10"},
        {"--realtime", "abc"}, {"--realtime=1/", ""}, {"--realtime=1/x", ""}, {"--realtime=25fps", ""}, {"--quiet=1", ""}, {"--inputs", "/in"}};
    std::vector<std::string> x;
    std::string what;
    bool last = false;
    int k = r.below(10);
    if (k < 3) { x = {num[r.below(13)], bad_num[r.below(11)]}; what = "bad number"; }
    else if (k == 3) { x = {en[r.below(3)], bad_en[r.below(8)]}; what = "bad name"; }
    else if (k == 4) { auto &l = late[r.below(9)]; x = {l[0], l[1]}; last = true; what = "value out of range"; }
    else if (k == 5) { auto &l = odd[r.below(14)]; x = {l[0]}; if (*l[1]) x.push_back(l[1]); what = "bad option"; }
    else if (k == 6) { static const char *const v[] = {"--threads", "--muxer", "-o", "-i", "--limit", "--demuxer", "--frametimes"}; x = {v[r.below(7)]}; last = true; what = "missing value"; }
    else if (k == 7) {
        if (r.chance(1, 2)) { drop("--input", "-i"); what = "no input"; }
        else if (!c.verify && c.mux != MX_NULL && drop("--output", "-o")) what = "no output";
        else { drop("--input", "-i"); x = {"-i", "/missing"}; what = "input that does not exist"; }
    } else if (k == 8) {
        if (r.chance(1, 2)) { if (c.verify || c.mux == MX_NULL) return; drop("--muxer", "--muxer"); x = {"--muxer", r.chance(1, 2) ? "mp4" : "y4m2"}; what = "unknown muxer"; }
        else { drop("--demuxer", "--demuxer"); x = {"--demuxer", r.chance(1, 2) ? "mp4" : "ivff"}; what = "unknown demuxer"; }
    } else {
        if (c.verify) { x = {"-o", "/other.md5"}; what = "verification with an output file"; }
        else { drop("--output", "-o"); drop("--muxer", "--muxer"); x = {"--verify", "00112233445566778899aabbccddeeff", "--muxer", r.chance(1, 2) ? "yuv" : "yuv4mpeg2"}; what = "verification with a picture muxer"; }
    }
    c.args.insert(last || r.chance(1, 2) ? c.args.end() : c.args.begin() + 1, x.begin(), x.end());
    e.desc = what + ": " + join_args(c.args);
    cli::Disk d; cli::Result q;
    tool_run(e, c, g, d, q);
    e.nontrivial = true;
    probe(what.c_str());
    if (!q.code) fail("bad-arguments-accepted", "exit status 0 with a %s: %s", what.c_str(), join_args(c.args).c_str());
    for (auto &f : d.f) if (f.first != "/in") fail("bad-arguments-output", "%s: the tool failed but created %s: %s", what.c_str(), f.first.c_str(), join_args(c.args).c_str());
    if (!d.out.empty()) fail("bad-arguments-output", "%s: the tool failed but wrote %zu bytes to standard output: %s", what.c_str(), d.out.size(), join_args(c.args).c_str());
    if (d.err.empty() && k != 4 && k != 8) fail("bad-arguments-silent", "%s: the tool failed without a message: %s", what.c_str(), join_args(c.args).c_str());
}
static void c20_any(Env &e) { if (e.K.flag("clibad", 1, 4)) c20_cli(e); else c20(e); }
struct DemuxerContext;
extern "C" {
int input_open(DemuxerContext **, const char *, const char *, unsigned[2], unsigned *, unsigned[2]);
int input_read(DemuxerContext *, Dav1dData *);
int input_seek(DemuxerContext *, uint64_t);
void input_close(DemuxerContext *);
}
static void c23_seek(Env &e) { // histories of reads and seeks
    Knobs &R = e.R;
    Oracle *o = e.stream("", gopt(FT_ALL, 10, 200));
    if (!o) return;
    ToolCase c;
    c.t = Settings();
    c.cont = CT_IVF;
    build_container(e, o->s, c);
    if (R.flag("r.sk_cut", 1, 4)) {
        size_t n = Rng(mix(R.seed, 0x5EC)).next() % (c.file.size() + 1);
        if (n < 32) n = 32;
        cut_container(o->s, c, n);
    }
    size_t nh = 0;
    while (nh < c.pk_beg.size() && c.pk_beg[nh] + 12 <= c.file.size()) nh++;
    c.broken = false;
    for (size_t i = 1; i < nh; i++) c.broken |= c.pk_ts[i] <= c.pk_ts[i - 1];
    std::vector<uint64_t> ts;
    for (size_t i = 0; i < nh; i++) ts.push_back(c.broken ? i * (c.dur / nh) : c.pk_ts[i]);
    cli::Cfg g = io_cfg(e);
    sim::Options so = e.sched();
    so.cold = true;
    cli::Disk d;
    d.f["/in"] = std::make_shared<std::vector<uint8_t>>(c.file);
    e.desc = "IVF read/seek history | " + o->s.desc;
    e.nontrivial = true;
    cli::Result r;
    bool probing = R.flag("r.probe", 1, 2);
    int ops = R.get("r.sk_ops", 5, 60);
    double tb = (double)c.num / c.den;
    e.main_run(0, [&] {
        r = cli::run_proc(d, g, [&] {
            DemuxerContext *in = nullptr;
            unsigned fps[2] = {9, 9}, total = 77, tbv[2] = {9, 9};
            int rc;
            { LibScope l; rc = input_open(&in, probing ? nullptr : "ivf", "/in", fps, &total, tbv); }
            if (rc < 0) fail("container-open", "a well-formed IVF file is rejected (%d)", rc);
            if (total != nh || tbv[0] != c.num || tbv[1] != c.den || fps[0] != c.fps[0] || fps[1] != c.fps[1])
                fail("container-header", "IVF file with %zu frame headers, time base %u/%u, rate %u/%u is opened as %u frames, %u/%u, %u/%u", nh, c.num, c.den, c.fps[0], c.fps[1], total, tbv[0], tbv[1], fps[0], fps[1]);
            Rng q(mix(R.seed, 0x5EE));
            size_t at = 0;
            bool known = true;
            for (int i = 0; i < ops; i++) {
                if (!known || q.chance(2, 5)) {
                    // aim at a packet, between packets, before the first or behind the last
                    double t = nh ? (double)ts[q.below(nh)] : 0;
                    int m = q.below(6);
                    if (m == 1) t += 0.3; else if (m == 2 && t >= 1) t -= 0.3; else if (m == 3) t = 0; else if (m == 4) t += 1; else if (m == 5 && q.chance(1, 3)) t = nh ? (double)ts[nh - 1] + 5 : 3;
                    uint64_t T = (uint64_t)llround(t), pts = (uint64_t)llround(t * 1e9 / tb);
                    if (pts > (1ull << 52) || llround((double)pts * tb / 1e9) != (long long)T) continue;
                    size_t want = 0;
                    while (want < nh && ts[want] < T) want++;
                    { LibScope l; rc = input_seek(in, pts); }
                    probe("container:seek");
                    logf("seek %llu (ts %llu) = %d, expect packet %zu of %zu", (unsigned long long)pts, (unsigned long long)T, rc, want, nh);
                    if (want < nh && want >= c.pk.size()) { known = false; continue; } // the rest of a packet that is cut off
                    if ((rc == 0) != (want < nh)) fail("container-seek", "seek to time %llu returned %d, the file has %s packet at or after it", (unsigned long long)T, rc, want < nh ? "a" : "no");
                    known = rc == 0;
                    at = want;
                    continue;
                }
                Dav1dData k;
                memset(&k, 0, sizeof k);
                { LibScope l; rc = input_read(in, &k); }
                probe("container:read");
                if (rc) {
                    if (rc > 0) fail("container-read", "read returned %d", rc);
                    if (at < c.pk.size()) fail("container-read", "packet %zu of %zu could not be read", at, c.pk.size());
                    known = false;
                    continue;
                }
                if (at >= c.pk.size()) fail("container-read", "a packet of %zu bytes was read after the last of %zu", k.sz, c.pk.size());
                if (k.sz != c.pk[at].b.size() || memcmp(k.data, c.pk[at].b.data(), k.sz)) fail("container-read", "packet %zu (%zu bytes) differs from the file's (%zu bytes)", at, k.sz, c.pk[at].b.size());
                if ((uint64_t)k.m.timestamp != ts[at]) fail("container-time", "packet %zu has time stamp %lld, expected %llu", at, (long long)k.m.timestamp, (unsigned long long)ts[at]);
                if (k.m.offset != (int64_t)c.pk_beg[at]) fail("container-time", "packet %zu has offset %lld, expected %zu", at, (long long)k.m.offset, c.pk_beg[at]);
                { LibScope l; dav1d_data_unref(&k); }
                at++;
            }
            { LibScope l; input_close(in); }
            return 0;
        });
        if (r.open_files) fail("container-leak", "%llu files are open after input_close", (unsigned long long)r.open_files);
    }, &so);
    probe("container:histories");
}
static void c23(Env &e) {
    Knobs &R = e.R;
    int kind = R.pick("r.c23", {0, 1, 1, 1, 2, 2, 3, 4, 4});
    if (kind == 4) { c23_seek(e); return; }
    ToolCase c;
    if (!make_tool(e, c)) return;
    Oracle *o = e.stream("", gopt(FT_ALL, 10, 200));
    cli::Cfg g = io_cfg(e);
    cli::Disk d;
    cli::Result r;
    Rng q(mix(R.seed, 0xC23));
    e.desc = join_args(c.args) + " | " + o->s.desc;
    e.nontrivial = true;
    bool openable = true;
    if (kind == 1) {
        if (layered(o->s)) { c.t.all_layers = 1; c.args.push_back("--alllayers"); c.args.push_back("1"); }
        size_t n = 0, sz = c.file.size();
        switch (R.get("r.cutk", 0, 4)) {
        case 0: n = q.next() % (sz + 1); break;
        case 1: n = q.next() % std::min<size_t>(sz + 1, 100); break;
        case 2: case 3: { size_t b = c.pk_end[q.below(c.pk_end.size())]; int x = (int)q.below(30) - 15; n = x < 0 && (size_t)-x > b ? 0 : b + x; break; }
        default: n = sz - std::min<size_t>(sz, q.below(40)); break;
        }
        n = std::min(n, sz);
        openable = cut_container(o->s, c, n);
        probe("container:cut");
        e.desc += " | cut at " + std::to_string(n);
    } else if (kind == 2) {
        auto &f = c.file;
        int m = R.get("r.mutn", 1, 6);
        for (int i = 0; i < m; i++) {
            size_t at = f.empty() ? 0 : q.chance(1, 3) ? q.next() % std::min<size_t>(f.size(), 64) : q.chance(1, 2) && !c.pk_end.empty() ? std::min(f.size() - 1, c.pk_end[q.below(c.pk_end.size())] + q.below(14)) : q.next() % f.size();
            switch (q.below(8)) {
            case 0: if (!f.empty()) f[at] ^= 1 << q.below(8); break;
            case 1: if (!f.empty()) f[at] = (uint8_t)q.next(); break;
            case 2: { static const uint8_t v[] = {0, 0x7f, 0x80, 0xff}; uint8_t x = v[q.below(4)]; for (size_t j = at; j < f.size() && j < at + 1 + q.below(9); j++) f[j] = x; break; }
            case 3: f.resize(at); break;
            case 4: f.insert(f.begin() + at, 1 + q.below(20), (uint8_t)q.next()); break;
            case 5: f.erase(f.begin() + at, f.begin() + std::min(f.size(), at + 1 + q.below(40))); break;
            case 6: { size_t b = f.empty() ? 0 : q.next() % f.size(); std::vector<uint8_t> x(f.begin() + b, f.begin() + std::min(f.size(), b + 1 + q.below(300))); f.insert(f.begin() + at, x.begin(), x.end()); break; }
            default: if (q.chance(1, 8)) f.clear(); else if (q.chance(1, 6)) for (auto &x : f) x = (uint8_t)q.next(); break;
            }
        }
        static const char *const dm[] = {"ivf", "section5", "annexb", "none"};
        if (R.flag("r.wrongdm", 1, 3)) { c.args.push_back("--demuxer"); c.args.push_back(dm[q.below(4)]); }
        if (c.verify) { c.args.push_back("--verify"); c.args.push_back("00"); }
        c.args.push_back("--sizelimit"); c.args.push_back("300000");
        probe("container:damaged");
        tool_run(e, c, g, d, r);
        if (r.code == 0 && !c.verify && c.mux != MX_NULL) {
            size_t n = 0;
            for (auto &x : actual_files(d)) n += x.second.size();
            if (!n) fail("empty-success", "exit status 0 without any output for a damaged file: %s", e.desc.c_str());
        }
        if (r.code == 0 && c.verify) fail("verify-accepted", "exit status 0 with the checksum 00");
        return;
    } else if (kind == 3) { g.in_pipe = true; probe("container:pipe"); }
    expectations(c, c.pk.size());
    if (c.errs) { probe("settings that report errors"); return; }
    tool_run(e, c, g, d, r);
    if (r.code == 0) {
        if (c.verify && c.verify_bad) fail("verify-accepted", "exit status 0 although the checksum given to --verify is wrong: %s", e.desc.c_str());
        if (c.pics.empty()) fail("empty-success", "exit status 0 although no frame could be decoded: %s", e.desc.c_str());
        std::string w = diff_files(expect_files(c, c.pics.size()), actual_files(d));
        if (!w.empty()) fail("container-output", "exit status 0 but %s; %s; stderr: %s", w.c_str(), e.desc.c_str(), tail(d.err).c_str());
    } else if (kind != 3 && openable && !c.pics.empty() && !c.verify_bad) {
        if (!not_probed(e.stream("", gopt())->s, c, d)) fail("tool-failed", "exit status %d: %s; %s", r.code, tail(d.err).c_str(), e.desc.c_str());
    }
}
// ---- C24: pacing, frame times, signals
static void c24(Env &e) {
    Knobs &R = e.R;
    ToolCase c;
    if (!make_tool(e, c, true)) return;
    expectations(c, c.pk.size());
    if (c.errs) { probe("settings that report errors"); return; }
    cli::Cfg g = io_cfg(e);
    int rt = R.pick("r.rt", {0, 1, 1, 2, 2, 2});
    uint64_t nspf = 0;
    if (rt < 2) nspf = c.fps[1] ? 1000000000ull * c.fps[1] / c.fps[0] : 0;
    if (rt == 1) c.args.push_back("--realtime");
    if (rt == 2) {
        static const struct { const char *s; double v; } f[] = {{"30", 30}, {"24000/1001", 24000. / 1001}, {"1000", 1000}, {"0.5", .5}, {"7.25/2", 3.625}, {"60", 60}, {"1e6", 1e6}};
        int i = R.get("r.rtf", 0, 6);
        nspf = (uint64_t)(1e9 / f[i].v);
        c.args.push_back(std::string("--realtime=") + f[i].s);
    }
    uint64_t cache = 0;
    if (R.flag("r.rtc", 1, 2)) { cache = R.pick("r.rtcn", {0, 1, 1, 2, 3, 100}); c.args.push_back("--realtimecache"); c.args.push_back(std::to_string(cache)); }
    bool ft = R.flag("r.ftimes", 1, 2);
    if (ft) { c.args.push_back("--frametimes"); c.args.push_back("/frametimes"); }
    bool sig = R.flag("r.sig", 2, 5);
    e.desc = join_args(c.args) + " | " + e.stream("", gopt())->s.desc;
    cli::Disk d;
    cli::Result r;
    if (sig) {
        cli::Cfg g2 = g;
        Count n = count_ops(c, g2, d);
        g.sig_from = (int)(Rng(mix(R.seed, 0x516)).next() % std::max<uint64_t>(n.points, 1));
    }
    // where each frame begins in the output
    std::vector<uint64_t> beg;
    uint64_t tot = 0;
    for (size_t i = 0; i < c.pics.size(); i++) {
        if (c.mux == MX_Y4M && i == 0) tot += y4m_head(c.pics[0], c.fps).size();
        beg.push_back(i ? tot : 0);
        tot += (c.mux == MX_Y4M ? 6 : 0) + c.pics[i].px.size();
    }
    auto started = [&](uint64_t b) { size_t n = 0; while (n < beg.size() && beg[n] < b) n++; return n; };
    if (rt && nspf) g.on_out = [&](uint64_t total) {
        size_t n = started(total);
        if (n < 2 || n - 1 <= cache || !cli::sim_first()) return;
        uint64_t m = n - 1, min = (nspf - 1) * (m - cache), now = cli::sim_ns() - cli::sim_first();
        if (now < min) fail("pacing-early", "frame %zu appears in the output %llu ns after the start; at %llu ns per frame with a cache of %llu frames this must not be before %llu ns", n, (unsigned long long)now, (unsigned long long)nspf, (unsigned long long)cache, (unsigned long long)min);
        probe("pacing:frames checked");
    };
    e.nontrivial = true;
    tool_run(e, c, g, d, r);
    if (r.signalled) probe("signal delivered");
    probe("pacing:sleeps", r.sleeps);
    probe("pacing:slept ms", r.slept_ns / 1000000);
    Files got = actual_files(d);
    size_t n = 0;
    bool match = false;
    if (!r.signalled) {
        if (r.code) {
            if (c.pics.empty()) { probe("nothing to output"); return; }
            if (not_probed(e.stream("", gopt())->s, c, d)) return;
            fail("tool-failed", "exit status %d: %s; %s", r.code, tail(d.err).c_str(), e.desc.c_str());
        }
        if (c.pics.empty()) fail("empty-success", "exit status 0 although no frame could be decoded: %s", e.desc.c_str());
    }
    size_t lo = r.code ? 0 : c.pics.size();
    std::string why;
    for (n = c.pics.size() + 1; n-- > lo;) { std::string w = diff_files(expect_files(c, n), got); if (w.empty()) { match = true; break; } if (why.empty()) why = w; }
    if (!match) fail(r.signalled ? "signal-output" : "container-output", "exit status %d%s, but the output is not a sequence of whole frames: %s; %s", r.code, r.signalled ? " after a signal" : "", why.c_str(), e.desc.c_str());
    if (r.signalled) {
        size_t a = started(r.logical_at_sig), b = started(r.logical);
        if (b > a + 2) fail("signal-ignored", "%zu frames were written after the signal", b - a);
    }
    if (r.bad_sleeps) fail("pacing-sleep", "the tool slept for an invalid time");
    if (!rt && r.sleeps) fail("pacing-sleep", "the tool slept %llu times (%llu ns) although --realtime was not given", (unsigned long long)r.sleeps, (unsigned long long)r.slept_ns);
    if (rt && !r.signalled) {
        uint64_t max = n > cache ? nspf * (n - cache) + n : 0;
        if (r.slept_ns > max) fail("pacing-late", "the tool slept %llu ns for %zu frames of %llu ns with a cache of %llu: at most %llu ns are needed", (unsigned long long)r.slept_ns, n, (unsigned long long)nspf, (unsigned long long)cache, (unsigned long long)max);
    }
    if (ft) {
        auto it = d.f.find("/frametimes");
        std::string t = it == d.f.end() ? "" : std::string(it->second->begin(), it->second->end());
        std::vector<uint64_t> v;
        size_t p = 0;
        while (p < t.size()) {
            size_t q = t.find('\n', p);
            if (q == std::string::npos || q == p || t.find_first_not_of("0123456789", p) < q) fail("frametimes", "line %zu of the frame times file is malformed", v.size() + 1);
            v.push_back(strtoull(t.c_str() + p, nullptr, 10));
            p = q + 1;
        }
        size_t lines = nspf || !c.quiet ? n : 0;
        if (v.size() != lines) fail("frametimes", "the frame times file has %zu lines for %zu frames; %s", v.size(), n, e.desc.c_str());
        uint64_t sum = 0, maxt = r.t_end - r.t_first + (rt ? nspf * n : 0) + 1;
        for (size_t i = 0; i < v.size(); i++) {
            if (v[i] > maxt) fail("frametimes", "frame %zu took %llu ns in the frame times file, more than the whole run (%llu ns)", i + 1, (unsigned long long)v[i], (unsigned long long)maxt);
            sum += v[i];
            if (rt && nspf && sum < (nspf - 1) * (i + 1)) fail("frametimes", "the first %zu frames took %llu ns in the frame times file, at %llu ns per frame", i + 1, (unsigned long long)sum, (unsigned long long)nspf);
        }
        if (sum > maxt) fail("frametimes", "the frame times add up to %llu ns, more than the whole run (%llu ns)", (unsigned long long)sum, (unsigned long long)maxt);
        if (lines) probe("frame times checked");
    }
}
// ---- C25: what is held does not grow with the length of the input
static void c25(Env &e) {
    Oracle *o = e.stream("", gopt(FT_ALL, 5, 96));
    if (!o) return;
    Settings t = pick_settings(e, V_THREADS | V_LAYERS | V_INVIS | V_INLOOP | V_ALLOC | V_STRICT | V_DFT | V_GRAIN, &o->s);
    if (t.threads > 5 || !t.threads) t.threads = 2 + t.threads % 4;
    if (t.delay > 4 || !t.delay) t.delay = 1 + t.delay % 4;
    auto ch = pick_cut(e, o->s, t, 0);
    std::string dd;
    if (e.R.flag("r.dmg", 1, 3)) {
        damage(ch, 0, ch.size(), Rng(mix(e.R.seed, 0xDA)), e.R.get("r.ndmg", 1, 4), dd);
        if (ch.empty()) return;
        t.limit = DAMAGE_LIMIT;
    }
    enum { RUN_ON, DRAIN, FLUSH };
    int mode = e.R.pick("r.between", {RUN_ON, RUN_ON, DRAIN, FLUSH});
    bool steady = t.threads == 1 || e.R.flag("r.steady", 1, 2); // every round behaves the same: compare exactly
    int warm = 6 + t.threads, rounds = 3 * warm;
    sim::Options so = e.sched();
    if (steady) so.explicit_sched = true;
    static const char *const mn[] = {"run on", "drain", "flush"};
    e.desc = o->s.desc + " | " + sdesc(t) + " | " + std::to_string(rounds) + " rounds, " + mn[mode] + (steady ? ", steady" : "") + (dd.empty() ? "" : " | damage:" + dd);
    enum { M_BLOCKS, M_BYTES, M_LOCKS, M_THREADS, M_PICS, M_BUFS, NM };
    static const char *const names[] = {"heap blocks", "heap bytes", "locks and conditions", "threads", "picture buffers", "input buffers"};
    e.main_run(CK_LEDGER | CK_BUF | CK_PIC, [&] {
        Session S;
        if (S.open(t)) fail("open-failed", "dav1d_open failed");
        std::vector<std::array<uint64_t, NM>> m;
        auto measure = [&] {
            sim::Ledger l = sim::ledger();
            m.push_back({l.live_blocks, l.live_bytes, l.live_mutexes + l.live_conds, l.live_threads, (uint64_t)W->pic_live(), (uint64_t)W->buf_live()});
        };
        if (mode == RUN_ON) {
            std::vector<Chunk> all;
            for (int r = 0; r < rounds; r++) for (auto c : ch) { c.ts += 100000 * r; all.push_back(c); }
            Player p(e.R.seed);
            setup_player(e, p, S, all);
            p.pat = PAT_EAGER;
            while (!p.done) {
                p.step();
                if (m.size() < p.last_accepted / ch.size()) measure();
            }
            account(p);
        } else for (int r = 0; r < rounds; r++) {
            Player p(e.R.seed);
            setup_player(e, p, S, ch);
            p.finish();
            account(p);
            if (mode == FLUSH) S.flush();
            measure();
        }
        note_parallel(e, S);
        if ((int)m.size() < warm + 4) { probe("input refused"); S.close(); return; }
        e.nontrivial = true;
        probe("rounds of the same input", m.size());
        for (int k = 0; k < NM; k++) {
            std::string v;
            for (auto &x : m) v += " " + std::to_string(x[k]);
            if (steady) { // buffers of several sizes may swap places for a while, but not grow and grow
                uint64_t top[3] = {0, 0, 0};
                size_t from = warm / 2, third = (m.size() - from) / 3;
                for (size_t i = from; i < from + 3 * third; i++) top[(i - from) / third] = std::max(top[(i - from) / third], m[i][k]);
                if (top[0] < top[1] && top[1] < top[2]) fail("growth", "the %s in use grow with repeated input:%s", names[k], v.c_str());
            } else {
                bool up = true;
                for (size_t i = m.size() - 7; i < m.size(); i++) up &= m[i][k] > m[i - 1][k];
                if (up) fail("growth", "the %s in use grow with repeated input:%s", names[k], v.c_str());
            }
        }
        S.close();
    }, &so);
}
// ---- C26: the player
static void c26(Env &e) {
    Knobs &R = e.R;
    Oracle *o = e.stream("", gopt(FT_ALL, 10, 130));
    if (!o) return;
    ToolCase c;
    c.cont = CT_IVF;
    c.t = Settings();
    c.t.threads = R.pick("t.threads", {1, 2, 3, 4});
    c.t.delay = R.pick("t.delay", {1, 1, 2, 3, 4});
    c.t.grain = 1;
    bool untimed = R.flag("r.untimed", 1, 2);
    int tsx = untimed ? R.pick("r.tsx", {1, 1, 7, 40}) : R.pick("r.tsx", {1, 1, 1, 2, 7});
    if (!R.over.count("r.tsbig")) R.over["r.tsbig"] = tsx; // time stamps that make sense
    build_container(e, o->s, c);
    if (c.pk.empty()) return;
    if (R.flag("r.damage", 1, 5)) { // bits of the packets change, the container stays whole
        Rng q(mix(R.seed, 0xDA26));
        for (int n = 1 + (int)q.below(3); n--;) {
            size_t i = q.below((uint32_t)c.pk.size());
            auto &b = c.pk[i].b;
            if (b.empty()) continue;
            size_t at = q.chance(1, 2) ? q.below((uint32_t)b.size()) : q.below((uint32_t)std::min<size_t>(b.size(), 40));
            b[at] ^= 1 << q.below(8);
            c.file[c.pk_end[i] - b.size() + at] = b[at];
        }
    }
    bool sdl = R.flag("r.sdl", 1, 3);
    for (auto &q : o->s.seqs) if (q.layout != 1 || q.bpc != 8) sdl = false;
    bool gpu = R.flag("r.gpugrain", 1, 3), zero = R.flag("r.zerocopy", 1, 3);
    if (gpu && !sdl) c.t.grain = 0;
    std::string dd;
    std::vector<Chunk> v = c.pk;
    for (size_t i = 0; i < v.size(); i++) { v[i].id = (int)i; v[i].ts = c.broken ? (int64_t)(i * (c.dur / v.size())) : (int64_t)c.pk_ts[i]; v[i].dur = 0; }
    std::vector<PicRec> E;
    size_t nerr = 0;
    Settings t = c.t;
    if (!ref_run(v, t, E, &nerr)) return;
    std::vector<std::string> a = {"dav1dplay"};
    auto A = [&](const std::string &x, const std::string &y = "") { a.push_back(x); if (!y.empty()) a.push_back(y); };
    A(R.flag("r.longopt", 1, 2) ? "--input" : "-i", "/in");
    if (untimed) A(R.flag("r.lo2", 1, 2) ? "--untimed" : "-u");
    A("--threads", std::to_string(c.t.threads));
    A("--framedelay", std::to_string(c.t.delay));
    if (sdl) A("-r", "sdl");
    if (gpu) A("--gpugrain");
    if (zero) A("-z");
    if (R.flag("r.hq", 1, 4)) A("--highquality");
    if (R.flag("r.fs", 1, 4)) A("-f");
    play::Cfg pc;
    pc.io = io_cfg(e);
    // what the user does
    // (seeking, failing allocations and failing thread creation break the player, see known_findings)
    int mood = R.pick("r.mood", {0, 1, 3, 4}); // nothing, pauses, quits, anything but seeking
    int n = mood ? R.get("r.nact", 1, 8) : 0;
    for (int i = 0; i < n; i++) {
        play::Step s;
        std::string k = "a" + std::to_string(i);
        switch (mood) {
        case 1: s.a = (play::Act)R.pick(k + ".what", {play::A_SPACE, play::A_SPACE, play::A_SPACE, play::A_EXPOSE, play::A_OTHER}); break;
        case 3: s.a = (play::Act)R.pick(k + ".what", {play::A_QUIT, play::A_ESC, play::A_EXPOSE, play::A_RESIZE, play::A_SPACE}); break;
        default: s.a = (play::Act)R.pick(k + ".what", {play::A_SPACE, play::A_EXPOSE, play::A_RESIZE, play::A_OTHER, play::A_EXPOSE, play::A_QUIT});
        }
        s.points = R.pick(k + ".after", {0, 5, 50, 500, 5000, 50000});
        s.frames = R.pick(k + ".frames", {0, 0, 1, 2, 4});
        pc.user.push_back(s);
    }
    int sp = 0;
    for (auto &s : pc.user) sp += s.a == play::A_SPACE;
    if (sp & 1) pc.user.push_back({play::A_SPACE, 500, 0}); // nobody leaves it paused for ever
    e.desc = join_args(a) + " | " + o->s.desc + " | actions";
    for (auto &s : pc.user) e.desc += " " + std::to_string(s.a) + "@" + std::to_string(s.points) + "/" + std::to_string(s.frames);
    e.nontrivial = true;
    sim::Options so = e.sched();
    so.cold = true;
    cli::Disk d;
    d.f["/in"] = std::make_shared<std::vector<uint8_t>>(c.file);
    play::Result r;
    logf("%s", e.desc.c_str());
    e.main_run(0, [&] { r = play::run_player(a, d, pc); logf("exit %d: %s", r.r.code, tail(d.err).c_str()); }, &so);
    slot->frames += r.shown.size();
    probe("player:pictures shown", r.shown.size());
    probe("player:pauses", r.pauses); probe("player:seeks", r.seeks); probe("player:quits", r.quits); probe("player:exposes", r.exposes);
    probe("player:delays", r.delays); probe("player:zero-copy pictures", r.zc_total);
    probe(sdl ? "player:sdl renderer" : "player:direct renderer");
    if (r.r.t_end > 1000000000000ull) probe("simulated ms", (r.r.t_end - 1000000000000ull) / 1000000);
    std::string err = tail(d.err);
    if (nerr) probe("player:damaged streams");
    bool odd = false; // damage can lead to pictures the SDL renderer does not take
    for (auto &x : E) odd |= sdl && (x.layout != 1 || x.bpc != 8);
    if (odd) return;
    if (r.r.exited) fail("player-exit", "the player exits with status %d: %s", r.r.code, err.c_str());
    // what was shown
    auto same = [&](const play::Shown &s, const PicRec &p) { return s.hash == p.pix && s.w == p.w && s.h == p.h && (!s.have_ts || s.ts == p.ts); };
    for (size_t i = 0; i < r.shown.size(); i++) {
        if (i >= E.size()) fail("player-picture", "more pictures (%zu) are shown than the stream has (%zu)", r.shown.size(), E.size());
        if (!same(r.shown[i], E[i])) fail("player-picture", "picture %zu shown (%dx%d ts %lld) is not picture %zu of the stream: %s", i, r.shown[i].w, r.shown[i].h, (long long)r.shown[i].ts, i, show(E[i]).c_str());
    }
    bool all = r.shown.size() == E.size();
    if (nerr && !r.quits && !r.r.code) fail("player-status", "exit status 0, the stream has %zu errors: %s", nerr, err.c_str());
    if (all && !nerr && !r.r.code && !r.leaks.empty()) fail("player-leak", "left behind at the end of the player: %s", r.leaks.c_str());
    if (r.zc_live > 1 || (r.zc_live && !r.r.code && !r.quits)) fail("player-release", "the renderer is destroyed while %d pictures use its buffers", r.zc_live);
    if (r.quits && r.zc_live) fail("player-quit-leak", "a picture queued after the user quit is not released");
    // what the decoder still has at the end of the file
    size_t rest = c.t.delay + 2;
    for (auto &x : E) rest += x.ts >= v.back().ts;
    if (!r.quits && !nerr && !all && !c.broken && (r.shown.size() + rest < E.size() || !r.r.code)) fail("player-missing", "%zu of %zu pictures were shown, exit status %d", r.shown.size(), E.size(), r.r.code);
    for (size_t i = 0; i < r.shown.size(); i++) if (!r.shown[i].renders && !r.quits) fail("player-render", "picture %zu was not rendered", i);
    if (r.quits && r.shown.size() > r.shown_at_quit + 1) fail("player-quit", "%zu pictures are shown after the user quit", r.shown.size() - r.shown_at_quit);
    if (untimed && r.delays) fail("player-delay", "the player waits %llu times although --untimed is given", (unsigned long long)r.delays);
    double unit = 1000. * c.den / c.num;
    if (!untimed) {
        double tot = 0;
        for (size_t i = 0; i < r.shown.size() && i < E.size(); i++) {
            double diff = (double)(E[i].ts - (i ? E[i - 1].ts : 0)) * unit;
            if (diff > 1e9) { tot = 1e18; break; }
            tot += std::max(0., diff) + 1;
            if (!i || r.pauses || !r.shown[i].renders || !r.shown[i - 1].renders) continue;
            double was = (r.shown[i].t_render - r.shown[i - 1].t_render) / 1e6;
            if (was < diff - 2) fail("player-early", "picture %zu is shown %.1f ms after the one before, by the time stamps %.1f ms", i, was, diff);
        }
        probe("player:timing checked");
        if (r.delayed_ms > tot) fail("player-late", "the player waits %llu ms, the pictures need at most %.0f ms", (unsigned long long)r.delayed_ms, tot);
    }
    if (!r.quits && !nerr && (!all || r.r.code)) fail("player-end", "the end of the file is taken for an error: %zu of %zu pictures were shown, exit status %d", r.shown.size(), E.size(), r.r.code);
}
const Scenario scenarios[] = {
    {"C01", c01, 6}, {"C02", c02, 6}, {"C03", c03, 6}, {"C04", c04, 6}, {"C05", c05, 10}, {"C06", c06, 6}, {"C07", c07, 6}, {"C08", c08, 6},
    {"C09", c09, 6}, {"C10", c10, 6}, {"C11", c11, 6}, {"C12", c12, 6}, {"C13", c13, 6}, {"C14", c14, 4}, {"C15", c15, 6}, {"C16", c16, 6},
    {"C17", c17, 6}, {"C18", c18, 6}, {"C19", c19, 6}, {"C20", c20_any, 6}, {"C21", c21, 4}, {"C22", c22, 6},
    {"C23", c23, 6}, {"C24", c24, 6}, {"C25", c25, 6}, {"C26", c26, 6}, {nullptr, nullptr, 0}
};

void run_case(const Case &c, int reps) {
    const Scenario *s = scenarios;
    while (s->prop && c.prop != s->prop) s++;
    if (!s->prop) { fprintf(stderr, "unknown property %s\n", c.prop.c_str()); _exit(98); }
    Env e;
    cur_env = &e;
    e.cs = &c;
    e.K.seed = c.seed;
    e.K.over = c.over;
    int a = 0, b = reps > 0 ? reps : s->reps;
    if (c.rep >= 0) { a = c.rep; b = c.rep + 1; }
    for (int r = a; r < b; r++) {
        e.begin(r);
        s->fn(e);
        if (slot->desc[0] == 0) snprintf(slot->desc, sizeof slot->desc, "%s", e.desc.c_str());
    }
    cur_env = nullptr;
}

// knobs d.feat d.frames d.dim d.cut select the stream; one IVF frame per chunk
void dump_stream(const char *path, uint64_t seed, const std::map<std::string, int> &over) {
    Knobs k;
    k.seed = seed; k.over = over;
    GenOpt g = gopt(k.set("d.feat", FT_ALL), k.set("d.frames", 12), k.set("d.dim", 256));
    Oracle o;
    if (!make_stream(k, g, "", o)) { fprintf(stderr, "rejected: %s\n", o.why.c_str()); exit(1); }
    auto ch = cut(o.s, k.set("d.cut", CUT_TU), Rng(seed), 0, false);
    FILE *f = fopen(path, "wb");
    if (!f) { perror(path); exit(1); }
    auto le = [](uint8_t *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = (uint8_t)(v >> 8 * i); };
    uint8_t h[32] = {'D', 'K', 'I', 'F', 0, 0, 32, 0, 'A', 'V', '0', '1'};
    le(h + 12, o.s.seqs[0].maxw, 2); le(h + 14, o.s.seqs[0].maxh, 2); le(h + 16, 30, 4); le(h + 20, 1, 4); le(h + 24, ch.size(), 4);
    fwrite(h, 1, 32, f);
    for (size_t i = 0; i < ch.size(); i++) {
        uint8_t q[12];
        le(q, ch[i].b.size(), 4); le(q + 4, i, 8);
        fwrite(q, 1, 12, f);
        fwrite(ch[i].b.data(), 1, ch[i].b.size(), f);
    }
    fclose(f);
    printf("%s\n", o.s.desc.c_str());
    for (auto &x : o.s.frames) printf("frame %d type %d show %d showex %d slot %d refresh %02x %dx%d grain %d tid %d sid %d tu %d\n", x.idx, x.type, x.show, x.show_existing, x.slot, x.refresh, x.w, x.h, x.grain, x.tid, x.sid, x.tu);
}
