// Seeded AV1 stream generator with a model of what the stream shows.
#pragma once
#include "rt.h"
#include "dav1d/headers.h"
#include <memory>
#include <map>
#include <string>
#include <vector>

// Named random choices: every value depends only on (seed, name), can be
// overridden by name (used by the minimiser), and is logged.
struct Knobs {
    uint64_t seed = 1;
    std::map<std::string, int> over;
    std::map<std::string, int> used;
    int get(const std::string &name, int lo, int hi);
    int pick(const std::string &name, std::initializer_list<int> v);
    bool flag(const std::string &name, int num, int den);
    int set(const std::string &name, int v); // default value, overridable
    sim::Rng rng(const std::string &name) const { return sim::Rng(sim::mix(seed, sim::hash_str(name.c_str()))); }
};

enum Feat {
    FT_TILES = 1, FT_SUPERRES = 2, FT_REFSCALE = 4, FT_SCC = 8, FT_SEG = 0x10, FT_DELTAQ = 0x20,
    FT_CDEF = 0x40, FT_LR = 0x80, FT_GRAIN = 0x100, FT_LAYERS = 0x200, FT_SHOWEX = 0x400, FT_HIDDEN = 0x800,
    FT_META = 0x1000, FT_MULTISEQ = 0x2000, FT_TILEGROUPS = 0x4000, FT_QM = 0x8000, FT_GMV = 0x10000,
    FT_MFMV = 0x20000, FT_SWITCH = 0x40000, FT_FRAMEID = 0x80000, FT_PAD = 0x100000, FT_ERRRES = 0x200000,
    FT_LOSSLESS = 0x400000, FT_LF = 0x800000, FT_SIZEOVR = 0x1000000, FT_INTRAONLY = 0x2000000,
    FT_DECMODEL = 0x4000000, FT_STILL = 0x8000000, FT_INTER = 0x10000000,
    FT_ALL = 0x1fffffff
};

enum { OBU_SEQ = 1, OBU_TD = 2, OBU_FRAME_HDR = 3, OBU_TILE_GRP = 4, OBU_METADATA = 5, OBU_FRAME = 6,
       OBU_REDUNDANT = 7, OBU_PADDING = 15 };
enum { FRAME_KEY = 0, FRAME_INTER = 1, FRAME_INTRA = 2, FRAME_SWITCH = 3 };

struct T35 { int cc, ext; std::vector<uint8_t> payload; };
struct CLL { int a, b; };
struct MDCV { uint16_t prim[3][2], wp[2]; uint32_t maxl, minl; };

struct FrameInfo {
    int idx = 0;             // header index in decode order
    int type = 0;
    bool show_existing = false; int slot = -1; int src = -1; // src: frame whose pixels are shown
    bool show = false, showable = false;
    int refresh = 0;
    int w = 0, w0 = 0, h = 0, rw = 0, rh = 0;
    int tid = 0, sid = 0, tu = 0, seq = 0;
    bool has_ext = false;
    bool grain = false;
    int order = 0;
    std::vector<int> deps;   // frames used as references
    bool key_restart = false;// first frame of an independent section (shown key after sequence header)
    bool op_in[32];          // belongs to operating point i
    // metadata active at this frame (for shown / re-shown frames)
    int cll = -1, mdcv = -1; std::vector<int> t35;
    int first_unit = 0, last_unit = 0;
    bool new_seq = false, new_op = false; // first frame after such a header
    int salt = 0;
    std::shared_ptr<Dav1dFrameHeader> eh; // header as written (not for frames shown again)
    int sh = -1;             // sequence header in force
};

struct Unit { int type = 0; std::vector<uint8_t> bytes; int hdr_len = 0; int frame = -1, tu = 0, tid = 0, sid = 0; bool ext = false;
    int seq = -1, sh = -1; bool seq_new = false, seq_op = false; // sequence header units: index into seqs, differs from the previous one
    int meta = 0, midx = -1;                            // metadata units: 1 cll 2 mdcv 3 t35
    std::vector<uint32_t> marks;                        // tile group units: offsets of the tile size fields
};

struct SeqP {
    int profile, layout, bpc, maxw, maxh, wbits, hbits;
    bool still = false, reduced = false, timing = false, equal_pic = false, decmodel = false, display_model = false;
    int nops = 1; int idc[32] = {0}; bool op_dm[32] = {false}; int op_salt = 0, opp_salt = 0;
    int ebd_len = 10, brd_len = 8, fpd_len = 6;
    bool frame_id = false; int dfid_bits = 4, fid_bits = 8;
    bool sb128, filter_intra, edge, inter_intra, masked, warped, dual, order_hint, jnt, mfmv;
    int order_bits = 0, sct = 2, fimv = 2;
    bool superres, cdef, lr, sep_uv, grain;
    int ss_hor, ss_ver; bool mono;
    bool cdesc = false, range = false; int pri = 2, trc = 2, mtrx = 2, chr = 0;
    int tlayers = 1, slayers = 1;
    uint32_t major[32], minor[32];
};

struct Stream {
    std::vector<Unit> units;
    std::vector<FrameInfo> frames;
    std::vector<SeqP> seqs;
    std::vector<Dav1dSequenceHeader> shs; // as written, one per sequence header unit
    std::vector<CLL> clls; std::vector<MDCV> mdcvs; std::vector<T35> t35s;
    int ntus = 0;
    std::string desc;
};

struct GenOpt {
    int feat = FT_ALL;
    int maxdim = 256;       // upper bound for frame dimensions
    int maxframes = 12;
    bool force_key_sections = false; // several independent sections
    bool still_only = false;
};

struct Generator {
    Knobs &K;
    GenOpt o;
    std::string pre;           // knob name prefix
    std::vector<int> salts;    // per frame payload salt (rejection sampling)
    Generator(Knobs &k, const GenOpt &opt, const std::string &prefix) : K(k), o(opt), pre(prefix) {}
    Stream make();
};
std::vector<uint8_t> join_units(const Stream &s, size_t from, size_t to);
const char *frame_type_name(int t);
