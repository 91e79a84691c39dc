// Decoder session layer: tracked input buffers and pictures, API call rules,
// reference model of the expected output.
#pragma once
#include "gen.h"
#include <climits>
extern "C" {
#include "dav1d/dav1d.h"
}
#include <deque>
#include <memory>
#include <set>

namespace host {

enum Chk { // which contracts a run verifies (crashes, hangs and sanitizer reports always count)
    CK_BUF = 1, CK_PIC = 2, CK_LEDGER = 4, CK_API = 8, CK_ORDER = 0x10, CK_PIX = 0x20, CK_PROPS = 0x40,
    CK_META = 0x80, CK_FLAGS = 0x100, CK_HDR = 0x200, CK_DELAY = 0x400, CK_HELD = 0x800, CK_FIBRE = 0x1000
};

struct PicRec {
    int w = 0, h = 0, layout = 0, bpc = 0;
    uint64_t pix = 0;
    int64_t ts = 0, dur = 0, off = 0; uint64_t size = 0; int ud = -1;
    // header
    int ftype = 0, show = 0, showable = 0, order = 0, tid = 0, sid = 0, fw0 = 0, fw1 = 0, fh = 0, rw = 0, rh = 0, refresh = 0;
    uint64_t hdr = 0, seq = 0;
    uint64_t cll = 0, mdcv = 0; std::vector<uint64_t> t35;
    bool grain = false;
    unsigned flags = 0;
    size_t seqno = 0; // n-th picture returned
    std::shared_ptr<Dav1dFrameHeader> fhdr; std::shared_ptr<Dav1dSequenceHeader> shdr;
};

// metadata digests used on both sides
uint64_t d_cll(int a, int b);
uint64_t d_mdcv(const uint16_t prim[3][2], const uint16_t wp[2], uint32_t maxl, uint32_t minl);
uint64_t d_t35(int cc, int ext, const uint8_t *p, size_t n);

struct Chunk {
    std::vector<uint8_t> b;
    int id = 0;
    int64_t ts = 0, dur = 0, off = -1;
    bool ud = false, wrap = true;
    bool damaged = false;
    size_t u0 = 0, u1 = 0; // unit range
    std::vector<uint32_t> marks; // offsets of the tile size fields, while the bytes are undamaged
    int inst = 0;
};

// ---- tracked buffers (input data, user data), one pool per run
struct Buf {
    uint8_t *p = nullptr; size_t sz = 0; uint64_t hash = 0; int chunk = -1;
    int freed = 0; bool user = false; bool given = false; uint64_t id = 0;
};
struct PBuf {
    uint8_t *base = nullptr; size_t total = 0; uint8_t *pl[3] = {0}; size_t psz[3] = {0}; ptrdiff_t stride[2] = {0};
    Dav1dPictureParameters p{}; int live = 0; uint64_t id = 0; bool neg = false, dead = false; void *data[3] = {0};
};

struct World { // everything the application side owns during one run
    int chk = 0;
    std::deque<Buf> bufs;
    std::deque<std::unique_ptr<PBuf>> pbufs;
    uint64_t pics_alloc = 0, pics_release = 0;
    uint64_t largest_pic = 0;      // luma pixels requested
    std::set<int> lib_fibres_calling_alloc;
    int buf_live() const;
    int pic_live() const;
    void verify_released();        // every tracked buffer and picture released exactly once
    void verify_integrity();
    ~World();
};
extern World *W;
void reset_depth();
// human-readable record of the API calls of the current run
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern std::string api_log;

struct AllocCfg { int mode = 0; /* 0 default allocator, 1 fresh guarded, 2 recycling */ int pad = 0; bool neg = false; int fill = 0; };

struct Settings {
    int threads = 1, delay = 1, grain = 0, op = 0, all_layers = 1, strict = 0, invisible = 0, inloop = DAV1D_INLOOPFILTER_ALL, dft = 0;
    unsigned limit = 0;
    AllocCfg alloc;
    bool logger = false;
};

struct Held { Dav1dPicture p; PicRec r; };

struct Session {
    Dav1dContext *c = nullptr;
    Settings s;
    int n_fc = 1;
    bool releases_on_app = true; // release callback allowed on application fibres only (no frame threading)
    std::deque<Held> held;
    std::vector<int> free_pool;
    int api_depth = 0;
    int fibre = -1;
    uint64_t calls = 0;
    int open(const Settings &s_);       // returns rc
    int wrap(const Chunk &ch, Dav1dData *d);
    int send(Dav1dData *d);
    int get(Dav1dPicture *p);
    int apply_grain(Dav1dPicture *out, const Dav1dPicture *in);
    unsigned flags();
    void flush();
    void close();
    void hold(Dav1dPicture *p, const PicRec &r);   // takes over the reference
    void drop_held(size_t i);
    void check_held(bool all, sim::Rng &r);
    ~Session() {}
};
void unref_data(Dav1dData *d);
void unref_pic(Dav1dPicture *p);
void fill_rec(PicRec &r, const Dav1dPicture &p);
uint64_t hash_pixels(const Dav1dPicture &p);
bool same_rec(const PicRec &a, const PicRec &b, std::string *why);
std::string show(const PicRec &r);

// ---- player: one API call per step
enum { PAT_CLI, PAT_FILL_DRAIN, PAT_RANDOM, PAT_EAGER, NPAT };
struct Player {
    Session *S = nullptr;
    const std::vector<Chunk> *ch = nullptr;
    size_t next = 0;
    int pat = 0;
    sim::Rng rng;
    Dav1dData d{};            // pending, not yet accepted
    bool have = false;
    int cur_chunk = -1;
    std::vector<PicRec> got;
    struct Err { int rc; bool on_send; int chunk; size_t npics; int64_t ts; int ud; };
    std::vector<Err> errs;
    bool poll_flags = true;
    int hold_max = 0;          // pictures kept by the application
    bool drop_on_send_error = true;
    bool apply_grain_outside = false;
    std::vector<uint64_t> grain_pix;
    bool last_get_eagain = false, send_blocked = false;
    int eagain_run = 0;
    bool done = false;
    int phase = 0;
    size_t last_accepted = 0;  // chunks accepted so far
    size_t max_errs = 100000;
    std::function<void(Player &)> on_idle; // a get returned EAGAIN: everything sent has been parsed
    std::function<void(Player &, Dav1dPicture &, PicRec &)> on_pic;
    bool query_err_props = true;
    explicit Player(uint64_t seed) : rng(seed) {}
    void step();
    int do_send();
    int do_get();
    void finish() { while (!done) step(); }
    void abandon();            // drop unsent data
};

// ---- chunking
enum { CUT_TU, CUT_FRAME, CUT_OBU, CUT_RANDOM, CUT_MULTI, NCUT };
std::vector<Chunk> cut(const Stream &s, int style, sim::Rng r, int id0, bool user_data);

// ---- reference model of what must be output
struct Exp {
    int frame = -1;     // header index (show-existing or shown frame)
    int src = -1;       // frame whose pixels are shown
    size_t unit = 0;    // OBU whose chunk provides the properties
    uint64_t cll = 0, mdcv = 0; std::vector<uint64_t> t35;
    unsigned flags = 0; // event flags
    int seq = 0;
    bool reshown = false;
};
struct ModelOpt { int op = 0, all_layers = 1, invisible = 0, dft = 0; };
std::vector<Exp> model(const Stream &s, const ModelOpt &o);
bool layered(const Stream &s);      // some sequence has several spatial layers

// ---- single-threaded oracle: pixels of every frame in header order
struct Oracle {
    Stream s;
    std::vector<PicRec> pic;      // per header index (show-existing included), w/o grain
    bool ok = false;
    int bad_frame = -1;
    std::string why;
    int tries = 0;
    std::string wrong;            // a valid stream was refused before its tile data was read, or gave a wrong number of pictures
    bool wrong_count = false;
};
struct OracleOpt { int op = 0, inloop = DAV1D_INLOOPFILTER_ALL; bool grain = false; bool visible_only = false, track = false; };
// decodes stream `s` frame by frame on one thread; returns index of first failing frame or -1
int decode_st(const Stream &s, const OracleOpt &o, std::vector<PicRec> &out, std::string *why);
// generation with rejection of streams whose random payload is not decodable
bool make_stream(Knobs &k, const GenOpt &go, const std::string &prefix, Oracle &o);

// first field in which a header differs from what was coded; empty if none
std::string diff_seq(const Dav1dSequenceHeader &want, const Dav1dSequenceHeader &got);
std::string diff_frame(const Dav1dFrameHeader &want, const Dav1dFrameHeader &got, const Dav1dSequenceHeader &seq);

// compare; fails with "<kind>" on difference
struct CmpOpt { int chk = 0; const char *what = ""; bool prefix = false; };
void compare(const Oracle &o, const std::vector<PicRec> &pix, const std::vector<Exp> &e, const std::vector<Chunk> &ch,
             const std::vector<PicRec> &got, const CmpOpt &c);
const Chunk *chunk_of_unit(const std::vector<Chunk> &ch, size_t unit);
}
