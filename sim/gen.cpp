#include "gen.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>

using sim::Rng;

int Knobs::get(const std::string &name, int lo, int hi) {
    auto it = over.find(name);
    int v;
    if (it != over.end()) v = it->second;
    else { Rng r = rng(name); v = r.range(lo, hi); }
    used[name] = v;
    return v;
}
int Knobs::pick(const std::string &name, std::initializer_list<int> l) {
    auto it = over.find(name);
    int v;
    if (it != over.end()) v = it->second;
    else { Rng r = rng(name); v = *(l.begin() + r.below((uint32_t)l.size())); }
    used[name] = v;
    return v;
}
bool Knobs::flag(const std::string &name, int num, int den) {
    auto it = over.find(name);
    int v;
    if (it != over.end()) v = it->second;
    else { Rng r = rng(name); v = r.chance(num, den); }
    used[name] = v;
    return v != 0;
}
int Knobs::set(const std::string &name, int v) {
    auto it = over.find(name);
    if (it != over.end()) v = it->second;
    used[name] = v;
    return v;
}

namespace {

struct BW {
    std::vector<uint8_t> b; int nb = 0; uint8_t cur = 0;
    void bit(int v) { cur = (uint8_t)(cur << 1 | (v & 1)); if (++nb == 8) { b.push_back(cur); nb = 0; cur = 0; } }
    void put(int n, uint32_t v) { for (int i = n - 1; i >= 0; i--) bit(v >> i & 1); }
    void align() { while (nb) bit(0); }
    void trailing() { bit(1); align(); }
    void su(int n, int v) { put(n, (uint32_t)v & ((1u << n) - 1)); }
    void vlc(uint32_t v) {
        v++;
        int n = 0;
        while (v >> (n + 1)) n++;
        for (int i = 0; i < n; i++) bit(0);
        bit(1);
        if (n) put(n, v & ((1u << n) - 1));
    }
    void ns(unsigned max, unsigned v) { // mirrors get_uniform
        int l = 0;
        while (max >> l) l++;
        unsigned m = (1u << l) - max;
        if (v < m) put(l - 1, v);
        else { unsigned x = v + m; put(l - 1, x >> 1); bit(x & 1); }
    }
    // random self-delimiting subexp code; `small` biases to short codes
    unsigned subexp_u(Rng &r, unsigned nlog, int small) {
        unsigned n = 2u << nlog, v = 0;
        for (int i = 0;; i++) {
            int bb = i ? 3 + i - 1 : 3;
            if (n < v + 3 * (1u << bb)) { unsigned max = n - v + 1, x = r.below(max); ns(max, x); return v + x; }
            int more = !r.chance(small, 8);
            bit(more);
            if (!more) { unsigned x = r.below(1u << bb); put(bb, x); return v + x; }
            v += 1u << bb;
        }
    }
    int subexp(Rng &r, unsigned nlog, int small, int ref) { // returns the value that is decoded relative to ref
        unsigned v = subexp_u(r, nlog, small), n = 2u << nlog, rf = (unsigned)(ref + (1 << nlog));
        auto inv = [](unsigned c, unsigned x) { return x > 2 * c ? x : x & 1 ? c - ((x + 1) >> 1) : c + (x >> 1); };
        return (int)(rf * 2 <= n ? inv(rf, v) : n - inv(n - rf, v)) - (1 << nlog);
    }
};

void uleb(std::vector<uint8_t> &o, uint32_t v, int pad = 0) {
    do {
        uint8_t c = v & 0x7f;
        v >>= 7;
        if (v || pad > 0) c |= 0x80;
        o.push_back(c);
        if (!v && pad > 0) { for (int i = 0; i < pad - 1; i++) o.push_back(0x80); o.push_back(0); break; }
    } while (v);
}

struct Slot {
    bool valid = false, showable = false;
    int w, h, w0, order, type, frame, fid, rw, rh;
    int seg_dq[8];
    bool keyhidden = false;
    bool grain = false;
    int tid = 0, sid = 0;
    std::shared_ptr<Dav1dFrameHeader> eh;
};

int tile_log2(int sz, int tgt) { int k = 0; while ((sz << k) < tgt) k++; return k; }
int poc_diff(int bits, int a, int b) {
    if (!bits) return 0;
    int mask = 1 << (bits - 1), d = a - b;
    return (d & (mask - 1)) - (d & mask);
}

void payload(std::vector<uint8_t> &out, Rng r, size_t n, int mode) {
    size_t base = out.size();
    out.resize(base + n);
    uint8_t *p = out.data() + base;
    size_t i = 0;
    if (mode == 0) {
        while (i < n) { uint64_t v = r.next(); for (int k = 0; k < 8 && i < n; k++) p[i++] = (uint8_t)(v >> 8 * k); }
        return;
    }
    // mixtures of runs: mode 1..3 zero-ish, 4..6 ff-ish, 7 both
    while (i < n) {
        int len = 1 + (int)r.below(mode == 7 ? 12 : 24);
        int runp = (mode - 1) % 3; // 0: 25% 1: 50% 2: 80%
        int is_run = r.chance(runp == 0 ? 3 : runp == 1 ? 6 : 10, 12);
        uint8_t fillb = mode <= 3 ? 0 : mode <= 6 ? 0xff : r.chance(1, 2) ? 0 : 0xff;
        if (is_run) { for (int k = 0; k < len && i < n; k++) p[i++] = fillb; }
        else { if (runp == 2) len = 1 + len / 6; for (int k = 0; k < len && i < n; k++) p[i++] = (uint8_t)r.next(); }
    }
}

struct Gen {
    int cur_tid = 0, cur_sid = 0;
    Generator &G; Knobs &K; GenOpt &o; Stream s; Slot slot[8]; int feat; uint64_t seed;
    SeqP q; int tu = -1; int last_fid = 0; int hint = 0;
    int last_seq_written = -1; bool seq_op_only = false;
    bool first_in_seq = true, flag_newseq = false, flag_newop = false;
    int cur_cll = -1, cur_mdcv = -1; std::vector<int> pend_t35;
    int nframes;
    bool longp = false; // very long or wide pictures
    explicit Gen(Generator &g) : G(g), K(g.K), o(g.o) {
        seed = sim::mix(K.seed, sim::hash_str(g.pre.c_str()));
    }
    std::string n(const char *x) { return G.pre + x; }
    Rng fr(int frame, const char *what) { return Rng(sim::mix(sim::mix(seed, (uint64_t)frame * 7919 + 13), sim::hash_str(what))); }
    bool F(int f) const { return (feat & f) == f; }
    int hot = 0; // tools that most frames of this stream use
    bool rare(Rng &r, int f, uint32_t den) const { uint32_t x = (uint32_t)r.next(); return F(f) && ((hot & f) ? x % 8 < 6 : x % den == 0); }

    void emit(int type, const std::vector<uint8_t> &body, int frame, bool ext, int tid, int sid, Rng &r) {
        Unit u;
        u.type = type; u.frame = frame; u.tu = tu; u.ext = ext; u.tid = tid; u.sid = sid;
        u.bytes.push_back((uint8_t)(type << 3 | (ext ? 4 : 0) | 2));
        if (ext) u.bytes.push_back((uint8_t)(tid << 5 | sid << 3));
        uleb(u.bytes, (uint32_t)body.size(), r.chance(1, 16) ? 1 + (int)r.below(2) : 0);
        u.hdr_len = (int)u.bytes.size();
        u.bytes.insert(u.bytes.end(), body.begin(), body.end());
        s.units.push_back(std::move(u));
    }

    void new_seq_params(int si) {
        Rng r = Rng(sim::mix(seed, 0x5E9 + si));
        q = SeqP();
        int fmt = K.get(n("fmt") + (si ? std::to_string(si) : ""), 0, 19);
        // layout: 0 400, 1 420, 2 422, 3 444
        static const int lay[20] = {1,1,1,1,1,1,1,1,1,1, 1,1,3,3,3,2,2,0,0,1};
        static const int bp[20]  = {8,8,8,8,8,8,8,10,10,10, 12,8,8,10,12,8,10,8,10,8};
        q.layout = lay[fmt % 20]; q.bpc = bp[fmt % 20];
        q.profile = q.bpc == 12 || q.layout == 2 ? 2 : q.layout == 3 ? 1 : 0;
        q.mono = q.layout == 0;
        q.ss_hor = q.layout != 3; q.ss_ver = q.layout <= 1;
        std::string sfx = si ? std::to_string(si) : "";
        int wk = K.get(n("w") + sfx, 0, 99), hk = K.get(n("h") + sfx, 0, 99);
        auto dim = [&](int k, Rng rr) {
            int m = o.maxdim;
            if (k >= 1000) return k - 1000;       // explicit override
            if (k < 30) return 16 + (int)rr.below(std::max(1, std::min(m, 72) - 16));
            if (k < 60) return 16 + (int)rr.below(std::max(1, std::min(m, 136) - 16));
            if (k < 90) return 16 + (int)rr.below(std::max(1, std::min(m, 264) - 16));
            if (k < 94) return 1 + (int)rr.below(16);
            return 64 + (int)rr.below(std::max(1, m - 64));
        };
        q.maxw = dim(wk, Rng(r.next())); q.maxh = dim(hk, Rng(r.next()));
        int lg = K.get(n("long") + sfx, 0, 79);
        if (lg < 3 && o.maxdim >= 192 && wk < 1000 && hk < 1000) { // more superblock rows than bits in a word, wider than a tile may be
            int a = 2049 + (int)r.below(2300), b = 8 + (int)r.below(56);
            if (lg == 2 && r.chance(1, 2)) a += 2300;
            q.maxw = lg < 2 ? b : a; q.maxh = lg < 2 ? a : b;
            longp = true;
        }
        if (q.layout == 2) { q.maxw = std::min(q.maxw, 8 + (q.maxw & 31)); q.maxh = std::min(q.maxh, 8 + (q.maxh & 31)); }
        q.wbits = 16; q.hbits = 16;
        if (r.chance(1, 3)) { q.wbits = 1; while ((q.maxw * 2) >> q.wbits && q.wbits < 16) q.wbits++; q.hbits = 1; while ((q.maxh * 2) >> q.hbits && q.hbits < 16) q.hbits++; }
        q.reduced = F(FT_STILL) && r.chance(1, 60);
        q.still = q.reduced || (F(FT_STILL) && r.chance(1, 60));
        q.timing = F(FT_DECMODEL) && r.chance(1, 4);
        q.equal_pic = r.chance(1, 2);
        q.decmodel = q.timing && r.chance(1, 2);
        q.display_model = r.chance(1, 4);
        q.ebd_len = r.range(1, 31); q.brd_len = r.range(1, 31); q.fpd_len = r.range(1, 31);
        q.tlayers = q.slayers = 1;
        if (F(FT_LAYERS) && !q.reduced && K.flag(n("layers") + sfx, 1, 6)) { q.tlayers = r.range(1, 3); q.slayers = r.range(1, 3); }
        q.nops = 1;
        if (q.tlayers * q.slayers > 1) {
            q.nops = 0;
            // descending quality operating points
            for (int sl = q.slayers; sl >= 1; sl--)
                for (int tl = q.tlayers; tl >= 1; tl--)
                    q.idc[q.nops++] = ((1 << sl) - 1) << 8 | ((1 << tl) - 1);
        } else if (r.chance(1, 8)) { q.nops = r.range(1, 3); }
        q.op_salt = (int)r.below(1000);
        for (int i = 0; i < q.nops; i++) { q.op_dm[i] = r.chance(1, 2); q.major[i] = r.below(8); q.minor[i] = r.below(4); }
        q.frame_id = F(FT_FRAMEID) && !q.reduced && r.chance(1, 6);
        q.dfid_bits = 6 + (int)r.below(6); q.fid_bits = q.dfid_bits + 1 + (int)r.below(4);
        if (q.fid_bits > 16) q.fid_bits = 16;
        q.sb128 = r.chance(1, 3); q.filter_intra = r.chance(2, 3); q.edge = r.chance(2, 3);
        q.inter_intra = r.chance(2, 3); q.masked = r.chance(2, 3); q.warped = r.chance(2, 3); q.dual = r.chance(1, 2);
        q.order_hint = r.chance(7, 8); q.jnt = q.order_hint && r.chance(1, 2); q.mfmv = F(FT_MFMV) && q.order_hint && r.chance(3, 4);
        q.order_bits = q.order_hint ? r.range(4, 8) : 0;
        q.sct = F(FT_SCC) ? (r.chance(1, 2) ? 2 : (int)r.below(2)) : 0;
        q.fimv = q.sct ? (r.chance(2, 3) ? 2 : (int)r.below(2)) : 2;
        q.superres = F(FT_SUPERRES) && r.chance(1, 3);
        q.cdef = F(FT_CDEF) && r.chance(3, 4);
        q.lr = F(FT_LR) && r.chance(2, 3);
        q.sep_uv = !q.mono && r.chance(1, 3);
        q.grain = F(FT_GRAIN) && r.chance(1, 2);
        { Rng cr(sim::mix(seed, 0xC01 + si)); // colour description, own draws
            q.cdesc = cr.chance(1, 2);
            q.pri = q.cdesc ? 1 + (int)cr.below(12) : 2; q.trc = q.cdesc ? 1 + (int)cr.below(18) : 2; q.mtrx = q.cdesc ? 1 + (int)cr.below(14) : 2;
            if (q.cdesc && q.profile == 1 && cr.chance(1, 4)) { q.pri = 1; q.trc = 13; q.mtrx = 0; }
            q.chr = (int)cr.below(3); q.range = cr.chance(1, 2); }
        if (q.reduced) { q.timing = q.decmodel = q.display_model = false; q.sct = 2; q.fimv = 2; q.order_hint = false; q.order_bits = 0; q.mfmv = q.jnt = false; }
    }

    void write_seq(Rng &rr) {
        BW b;
        Dav1dSequenceHeader h;
        memset(&h, 0, sizeof h);
        Rng r(sim::mix(seed, 0x0B0 + q.opp_salt));
        b.put(3, q.profile); b.bit(q.still); b.bit(q.reduced);
        if (q.reduced) { b.put(3, q.major[0]); b.put(2, q.minor[0]); }
        else {
            b.bit(q.timing);
            if (q.timing) {
                b.put(32, 1 + (q.op_salt & 7)); b.put(32, 30 + q.nops); b.bit(q.equal_pic);
                if (q.equal_pic) b.vlc(q.nops * 3);
                b.bit(q.decmodel);
                if (q.decmodel) { b.put(5, q.ebd_len - 1); b.put(32, 77); b.put(5, q.brd_len - 1); b.put(5, q.fpd_len - 1); }
            }
            b.bit(q.display_model);
            b.put(5, q.nops - 1);
            for (int i = 0; i < q.nops; i++) {
                b.put(12, q.idc[i]); b.put(3, q.major[i]); b.put(2, q.minor[i]);
                if (q.major[i] + 2 > 3) b.bit(q.minor[i] & 1);
                if (q.decmodel) {
                    b.bit(q.op_dm[i]);
                    if (q.op_dm[i]) {
                        auto &pi = h.operating_parameter_info[i];
                        b.put(q.ebd_len, pi.decoder_buffer_delay = (uint32_t)r.next() & 0x7fffffff & ((1u << q.ebd_len) - 1));
                        b.put(q.ebd_len, pi.encoder_buffer_delay = (uint32_t)r.next() & ((1u << q.ebd_len) - 1));
                        b.bit(pi.low_delay_mode = r.next() & 1);
                    }
                }
                if (q.display_model) { b.bit(i & 1); if (i & 1) b.put(4, i & 15); }
            }
        }
        b.put(4, q.wbits - 1); b.put(4, q.hbits - 1); b.put(q.wbits, q.maxw - 1); b.put(q.hbits, q.maxh - 1);
        if (!q.reduced) { b.bit(q.frame_id); if (q.frame_id) { b.put(4, q.dfid_bits - 2); b.put(3, q.fid_bits - q.dfid_bits - 1); } }
        b.bit(q.sb128); b.bit(q.filter_intra); b.bit(q.edge);
        if (!q.reduced) {
            b.bit(q.inter_intra); b.bit(q.masked); b.bit(q.warped); b.bit(q.dual); b.bit(q.order_hint);
            if (q.order_hint) { b.bit(q.jnt); b.bit(q.mfmv); }
            b.bit(q.sct == 2); if (q.sct != 2) b.bit(q.sct);
            if (q.sct) { b.bit(q.fimv == 2); if (q.fimv != 2) b.bit(q.fimv); }
            if (q.order_hint) b.put(3, q.order_bits - 1);
        }
        b.bit(q.superres); b.bit(q.cdef); b.bit(q.lr);
        b.bit(q.bpc > 8);
        if (q.profile == 2 && q.bpc > 8) b.bit(q.bpc == 12);
        if (q.profile != 1) b.bit(q.mono);
        b.bit(q.cdesc);
        if (q.cdesc) { b.put(8, q.pri); b.put(8, q.trc); b.put(8, q.mtrx); }
        bool srgb = !q.mono && q.pri == 1 && q.trc == 13 && q.mtrx == 0;
        if (!srgb) b.bit(q.range);
        if (srgb) b.bit(q.sep_uv);
        else if (!q.mono) {
            if (q.profile == 2 && q.bpc == 12) { b.bit(q.ss_hor); if (q.ss_hor) b.bit(q.ss_ver); }
            if (q.ss_hor && q.ss_ver) b.put(2, q.chr);
            b.bit(q.sep_uv);
        }
        b.bit(q.grain);
        b.trailing();
        h.profile = (uint8_t)q.profile; h.still_picture = q.still; h.reduced_still_picture_header = q.reduced;
        h.max_width = q.maxw; h.max_height = q.maxh; h.layout = (Dav1dPixelLayout)q.layout; h.hbd = (uint8_t)((q.bpc - 8) / 2);
        h.color_description_present = q.cdesc; h.pri = (Dav1dColorPrimaries)q.pri; h.trc = (Dav1dTransferCharacteristics)q.trc; h.mtrx = (Dav1dMatrixCoefficients)q.mtrx;
        h.color_range = srgb || q.range; h.chr = q.layout == 1 ? (Dav1dChromaSamplePosition)q.chr : DAV1D_CHR_UNKNOWN;
        h.ss_hor = q.layout != 3; h.ss_ver = q.layout <= 1; h.monochrome = q.mono; h.separate_uv_delta_q = !q.mono && q.sep_uv;
        h.num_operating_points = (uint8_t)q.nops;
        for (int i = 0; i < q.nops; i++) {
            auto &op = h.operating_points[i];
            op.major_level = (uint8_t)(q.major[i] + (q.reduced ? 0 : 2)); op.minor_level = (uint8_t)q.minor[i]; op.initial_display_delay = 10;
            if (q.reduced) break;
            op.idc = (uint16_t)q.idc[i];
            if (q.major[i] + 2 > 3) op.tier = q.minor[i] & 1;
            op.decoder_model_param_present = q.decmodel && q.op_dm[i];
            op.display_model_param_present = q.display_model && (i & 1);
            if (op.display_model_param_present) op.initial_display_delay = (uint8_t)((i & 15) + 1);
        }
        if (q.reduced) h.num_operating_points = 1;
        h.timing_info_present = q.timing; h.display_model_info_present = q.display_model; h.decoder_model_info_present = q.decmodel;
        if (q.timing) {
            h.num_units_in_tick = 1 + (q.op_salt & 7); h.time_scale = 30 + q.nops; h.equal_picture_interval = q.equal_pic;
            if (q.equal_pic) h.num_ticks_per_picture = q.nops * 3 + 1;
        }
        if (q.decmodel) {
            h.encoder_decoder_buffer_delay_length = (uint8_t)q.ebd_len; h.num_units_in_decoding_tick = 77;
            h.buffer_removal_delay_length = (uint8_t)q.brd_len; h.frame_presentation_delay_length = (uint8_t)q.fpd_len;
        }
        h.width_n_bits = (uint8_t)q.wbits; h.height_n_bits = (uint8_t)q.hbits;
        h.frame_id_numbers_present = q.frame_id;
        if (q.frame_id) { h.delta_frame_id_n_bits = (uint8_t)q.dfid_bits; h.frame_id_n_bits = (uint8_t)q.fid_bits; }
        h.sb128 = q.sb128; h.filter_intra = q.filter_intra; h.intra_edge_filter = q.edge;
        if (!q.reduced) { h.inter_intra = q.inter_intra; h.masked_compound = q.masked; h.warped_motion = q.warped; h.dual_filter = q.dual; h.order_hint = q.order_hint; h.jnt_comp = q.jnt; h.ref_frame_mvs = q.mfmv; }
        h.screen_content_tools = (Dav1dAdaptiveBoolean)q.sct; h.force_integer_mv = (Dav1dAdaptiveBoolean)(q.sct ? q.fimv : 2); h.order_hint_n_bits = (uint8_t)q.order_bits;
        h.super_res = q.superres; h.cdef = q.cdef; h.restoration = q.lr; h.film_grain_present = q.grain;
        s.shs.push_back(h);
        emit(OBU_SEQ, b.b, -1, false, 0, 0, rr);
        Unit &u = s.units.back();
        u.seq = (int)s.seqs.size() - 1; u.sh = (int)s.shs.size() - 1;
        u.seq_new = u.seq != last_seq_written && !seq_op_only;
        u.seq_op = u.seq != last_seq_written && seq_op_only;
        last_seq_written = u.seq;
        seq_op_only = false;
    }

    void write_meta(Rng &r, bool ext, int tid, int sid) {
        int k = (int)r.below(10);
        std::vector<uint8_t> v;
        if (k < 2) {
            CLL c = {(int)r.below(65536), (int)r.below(65536)};
            v = {1, (uint8_t)(c.a >> 8), (uint8_t)c.a, (uint8_t)(c.b >> 8), (uint8_t)c.b, 0x80};
            cur_cll = (int)s.clls.size();
            s.clls.push_back(c);
        } else if (k < 4) {
            MDCV m;
            BW b;
            b.put(8, 2);
            for (auto &p : m.prim) for (auto &x : p) { x = (uint16_t)r.next(); b.put(16, x); }
            for (auto &x : m.wp) { x = (uint16_t)r.next(); b.put(16, x); }
            m.maxl = (uint32_t)r.next(); b.put(32, m.maxl);
            m.minl = (uint32_t)r.next(); b.put(32, m.minl);
            b.trailing();
            v = b.b;
            cur_mdcv = (int)s.mdcvs.size();
            s.mdcvs.push_back(m);
        } else if (k < 9) {
            T35 t;
            t.cc = r.chance(1, 4) ? 0xff : (int)r.below(255);
            t.ext = t.cc == 0xff ? (int)r.below(256) : 0;
            int len = 1 + (int)r.below(r.chance(1, 4) ? 200 : 12);
            for (int i = 0; i < len; i++) t.payload.push_back((uint8_t)r.next());
            if (r.chance(1, 4)) t.payload.back() = 0;
            v.push_back(4);
            v.push_back((uint8_t)t.cc);
            if (t.cc == 0xff) v.push_back((uint8_t)t.ext);
            v.insert(v.end(), t.payload.begin(), t.payload.end());
            v.push_back(0x80);
            if (r.chance(1, 4)) v.push_back(0);
            pend_t35.push_back((int)s.t35s.size());
            s.t35s.push_back(t);
        } else { // unknown / ignored metadata
            v.push_back((uint8_t)(r.chance(1, 2) ? 3 + 2 * r.below(2) : 6 + r.below(20)));
            for (int i = 0; i < 5; i++) v.push_back((uint8_t)r.next());
            v.push_back(0x80);
        }
        emit(OBU_METADATA, v, -1, ext, tid, sid, r);
        Unit &u = s.units.back();
        if (k < 2) { u.meta = 1; u.midx = cur_cll; }
        else if (k < 4) { u.meta = 2; u.midx = cur_mdcv; }
        else if (k < 9) { u.meta = 3; u.midx = pend_t35.back(); }
    }

    void start_tu(Rng &r) {
        tu++;
        emit(OBU_TD, {}, -1, false, 0, 0, r);
    }

    void write_grain(BW &b, Rng r, bool inter, const int *refidx, Slot &ns_, FrameInfo &fi, Dav1dFrameHeader &eh) {
        Dav1dFilmGrainData &gd = eh.film_grain.data;
        int seed = (int)r.below(65536);
        b.put(16, seed);
        bool update = !inter || r.chance(3, 4);
        if (inter) b.bit(update);
        eh.film_grain.update = update;
        if (!update) {
            int k = refidx[r.below(7)];
            b.put(3, k); ns_.grain = slot[k].grain; fi.grain = ns_.grain;
            if (slot[k].eh) gd = slot[k].eh->film_grain.data;
            gd.seed = seed;
            return;
        }
        gd.seed = seed;
        int npts[3] = {0, 0, 0};
        npts[0] = (int)(r.chance(1, 4) ? 0 : 1 + r.below(r.chance(1, 4) ? 14 : 4));
        auto pts = [&](int np, uint8_t (*o)[2]) {
            std::vector<int> x;
            while ((int)x.size() < np) { int v = (int)r.below(256); if (std::find(x.begin(), x.end(), v) == x.end()) x.push_back(v); }
            std::sort(x.begin(), x.end());
            for (int v : x) { b.put(8, v); int y = (int)r.below(256); b.put(8, y); (*o)[0] = (uint8_t)v; (*o)[1] = (uint8_t)y; o++; }
        };
        b.put(4, npts[0]); pts(npts[0], gd.y_points);
        bool cfl = false;
        if (!q.mono) { cfl = r.chance(1, 3); b.bit(cfl); }
        if (!(q.mono || cfl || (q.ss_hor && q.ss_ver && !npts[0]))) {
            bool both = r.chance(3, 4), k420 = q.ss_hor && q.ss_ver;
            for (int pl = 1; pl < 3; pl++) {
                npts[pl] = both ? 1 + (int)r.below(5) : (k420 ? 0 : (int)r.below(3));
                b.put(4, npts[pl]); pts(npts[pl], gd.uv_points[pl - 1]);
            }
        }
        gd.num_y_points = npts[0]; gd.num_uv_points[0] = npts[1]; gd.num_uv_points[1] = npts[2]; gd.chroma_scaling_from_luma = cfl;
        int shift = (int)r.below(4), lag = (int)r.below(4);
        b.put(2, shift); b.put(2, lag);
        gd.scaling_shift = shift + 8; gd.ar_coeff_lag = lag;
        int ny = 2 * lag * (lag + 1);
        auto coef = [&] { int v = r.chance(1, 3) ? (int)r.below(256) : 120 + (int)r.below(17); b.put(8, v); return (int8_t)(v - 128); };
        if (npts[0]) for (int i = 0; i < ny; i++) gd.ar_coeffs_y[i] = coef();
        for (int pl = 1; pl < 3; pl++) if (npts[pl] || cfl) for (int i = 0; i < ny + !!npts[0]; i++) gd.ar_coeffs_uv[pl - 1][i] = coef();
        b.put(2, (uint32_t)(gd.ar_coeff_shift = r.below(4))); gd.ar_coeff_shift += 6;
        b.put(2, gd.grain_scale_shift = (int)r.below(4));
        for (int pl = 0; pl < 2; pl++) if (npts[pl + 1]) {
            b.put(8, gd.uv_mult[pl] = (int)r.below(256)); gd.uv_mult[pl] -= 128;
            b.put(8, gd.uv_luma_mult[pl] = (int)r.below(256)); gd.uv_luma_mult[pl] -= 128;
            b.put(9, gd.uv_offset[pl] = (int)r.below(512)); gd.uv_offset[pl] -= 256;
        }
        b.bit(gd.overlap_flag = r.chance(1, 2));
        bool clip = r.chance(1, 2);
        b.bit(gd.clip_to_restricted_range = clip);
        fi.grain = ns_.grain = npts[0] || npts[1] || npts[2] || (clip && cfl);
    }

    // layers only depend on lower layers, so that every operating point is decodable
    bool lay_ok(const Slot &sl) const { return sl.valid && sl.tid <= cur_tid && sl.sid <= cur_sid; }
    bool is_layered() const { return q.tlayers * q.slayers > 1; }
    bool compat(const Slot &sl, int w0, int h) const {
        return lay_ok(sl) && w0 * 2 >= sl.w && h * 2 >= sl.h && w0 <= sl.w * 16 && h <= sl.h * 16;
    }

    // One frame header + tiles. kind: 0 shown key, 1 inter, 2 intra-only, 3 switch, 4 hidden key
    void frame(int kind, bool show, int tid, int sid, bool newsection) {
        int fi_idx = (int)s.frames.size();
        cur_tid = tid; cur_sid = sid;
        FrameInfo fi;
        fi.idx = fi_idx; fi.tu = tu; fi.tid = tid; fi.sid = sid; fi.seq = (int)s.seqs.size() - 1;
        fi.has_ext = q.tlayers * q.slayers > 1;
        Rng r = fr(fi_idx, "hdr");
        int salt = fi_idx < (int)G.salts.size() ? G.salts[fi_idx] : 0;
        fi.salt = salt;
        int type = kind == 0 || kind == 4 ? FRAME_KEY : kind == 1 ? FRAME_INTER : kind == 2 ? FRAME_INTRA : FRAME_SWITCH;
        bool isinter = type == FRAME_INTER || type == FRAME_SWITCH;
        fi.type = type; fi.show = show;
        hint = (hint + 1);
        Slot nsl;
        for (auto &x : nsl.seg_dq) x = 0;
        auto ehp = std::make_shared<Dav1dFrameHeader>();
        Dav1dFrameHeader &eh = *ehp; // what the decoder is told
        memset(&eh, 0, sizeof eh);
        eh.frame_type = (Dav1dFrameType)type; eh.temporal_id = (uint8_t)(fi.has_ext ? tid : 0); eh.spatial_id = (uint8_t)(fi.has_ext ? sid : 0);
        // --- size
        int W = q.maxw, H = q.maxh;
        bool override_ = type == FRAME_SWITCH;
        int use_ref_slot = -1;
        if (!q.reduced && (F(FT_SIZEOVR) || q.slayers > 1) && type != FRAME_SWITCH) {
            if (q.slayers > 1 && r.chance(1, 2)) {
                int sh = q.slayers - 1 - sid;
                if (sh > 1) sh = 1;
                W = std::max(1, q.maxw >> sh); H = std::max(1, q.maxh >> sh);
                override_ = W != q.maxw || H != q.maxh;
            } else if (r.chance(1, F(FT_REFSCALE) ? 8 : 100000)) {
                override_ = true;
                W = std::max(1, q.maxw * r.range(9, 16) / 16); H = std::max(1, q.maxh * r.range(9, 16) / 16);
                if (r.chance(1, 3)) { W = std::max(1, q.maxw * r.range(5, 16) / 16); H = std::max(1, q.maxh * r.range(5, 16) / 16); }
            } else if (r.chance(1, 20)) override_ = true;
        }
        bool sres = q.superres && r.chance(1, 2);
        int denom = sres ? 9 + (int)r.below(8) : 8;
        if (sres && W < 17) { sres = false; denom = 8; }
        auto w0of = [&](int w) { return sres ? std::max((w * 8 + (denom >> 1)) / denom, std::min(16, w)) : w; };
        bool error_res = (type == FRAME_KEY && show) || type == FRAME_SWITCH || q.reduced || rare(r, FT_ERRRES, 10);
        int refidx[7] = {0};
        bool short_sig = false;
        std::vector<int> comp;
        if (isinter) {
            if (override_ && type != FRAME_SWITCH && !error_res && r.chance(1, 2)) {
                // copy size from one of the references
                int k = (int)r.below(8);
                if (lay_ok(slot[k])) { use_ref_slot = k; W = slot[k].w; H = slot[k].h; }
            }
            for (int k = 0; k < 8; k++) if (compat(slot[k], w0of(W), H)) comp.push_back(k);
            if (comp.empty() && sres) { sres = false; denom = 8; for (int k = 0; k < 8; k++) if (compat(slot[k], W, H)) comp.push_back(k); }
            if (comp.empty()) { // fall back to the size of an existing reference
                int k = (int)r.below(8);
                while (!lay_ok(slot[k])) k = (k + 1) & 7;
                W = slot[k].w; H = slot[k].h; override_ = true;
                for (int j = 0; j < 8; j++) if (compat(slot[j], W, H)) comp.push_back(j);
                use_ref_slot = -1;
            }
            if (use_ref_slot >= 0 && std::find(comp.begin(), comp.end(), use_ref_slot) == comp.end()) use_ref_slot = -1;
        }
        if (!override_ && (W != q.maxw || H != q.maxh)) override_ = true;
        int w0 = w0of(W);
        fi.w = W; fi.h = H; fi.w0 = w0; fi.rw = W; fi.rh = H;

        BW b;
        if (!q.reduced) {
            b.bit(0);
            b.put(2, type); b.bit(show);
            if (show && q.decmodel && !q.equal_pic) b.put(q.fpd_len, eh.frame_presentation_delay = (uint32_t)r.next() & (q.fpd_len == 32 ? ~0u : (1u << q.fpd_len) - 1));
            if (!show) { fi.showable = r.chance(7, 8); b.bit(fi.showable); }
            else fi.showable = type != FRAME_KEY;
            if (!((type == FRAME_KEY && show) || type == FRAME_SWITCH)) b.bit(error_res);
        } else fi.showable = false;
        bool disable_cdf = r.chance(1, 6);
        b.bit(disable_cdf);
        bool sct = q.sct == 2 ? r.chance(1, 2) : q.sct;
        if (q.sct == 2) b.bit(sct);
        bool fimv = false;
        if (sct) { fimv = q.fimv == 2 ? r.chance(1, 4) : q.fimv; if (q.fimv == 2) b.bit(fimv); }
        if (!isinter) fimv = true;
        int fid = 0;
        if (q.frame_id) { fid = last_fid = (last_fid + 1) & ((1 << q.fid_bits) - 1); b.put(q.fid_bits, fid); }
        if (!q.reduced && type != FRAME_SWITCH) b.bit(override_);
        int order = 0;
        if (q.order_hint) {
            order = hint;
            if (!show && r.chance(2, 3)) order += r.range(1, 4); // future frame
            order &= (1 << q.order_bits) - 1;
            b.put(q.order_bits, order);
        }
        fi.order = order;
        eh.show_frame = show || q.reduced; eh.showable_frame = fi.showable; eh.error_resilient_mode = error_res; eh.disable_cdf_update = disable_cdf;
        eh.allow_screen_content_tools = sct; eh.force_integer_mv = fimv; eh.frame_id = fid; eh.frame_size_override = !q.reduced && override_; eh.frame_offset = (uint8_t)order;
        int primary = 7;
        if (isinter) {
            for (int i = 0; i < 7; i++) refidx[i] = comp[r.below((uint32_t)comp.size())];
            if (use_ref_slot >= 0) refidx[r.below(7)] = use_ref_slot;
            if (q.order_hint && comp.size() == 8 && !is_layered() && r.chance(1, 4)) short_sig = true;
        }
        if (!error_res && isinter) { primary = r.chance(3, 4) ? (int)r.below(7) : 7; b.put(3, primary); }
        if (q.decmodel) {
            bool brt = r.chance(1, 2);
            b.bit(eh.buffer_removal_time_present = brt);
            if (brt) for (int i = 0; i < q.nops; i++) if (q.op_dm[i]) {
                int it = q.idc[i] >> tid & 1, is = q.idc[i] >> (sid + 8) & 1;
                if (!q.idc[i] || (it && is)) b.put(q.brd_len, eh.operating_points[i].buffer_removal_time = (uint32_t)r.next() & ((1u << q.brd_len) - 1));
            }
        }
        int refresh = 0xff;
        auto order_hints = [&] {
            if (q.order_hint) for (int i = 0; i < 8; i++) b.put(q.order_bits, slot[i].valid ? slot[i].order : 0);
        };
        auto write_size = [&](bool use_ref) {
            if (use_ref) {
                int found = -1;
                for (int i = 0; i < 7; i++) if (use_ref_slot >= 0 && refidx[i] == use_ref_slot) { found = i; break; }
                if (found < 0) for (int i = 0; i < 7; i++) b.bit(0);
                else {
                    for (int i = 0; i < found; i++) b.bit(0);
                    b.bit(1);
                    fi.rw = slot[use_ref_slot].rw; fi.rh = slot[use_ref_slot].rh;
                    if (q.superres) { b.bit(sres); if (sres) b.put(3, denom - 9); }
                    return;
                }
            }
            if (override_) { b.put(q.wbits, W - 1); b.put(q.hbits, H - 1); }
            if (q.superres) { b.bit(sres); if (sres) b.put(3, denom - 9); }
            bool rs = r.chance(1, 10);
            b.bit(eh.have_render_size = rs);
            if (rs) { fi.rw = 1 + (int)r.below(65536); fi.rh = 1 + (int)r.below(65536); b.put(16, fi.rw - 1); b.put(16, fi.rh - 1); }
        };
        bool intrabc = false, mfmv = false, hp = false;
        int rrefresh = (int)r.below(256);
        { int m = (int)r.below(4); if (m == 0) rrefresh &= (int)r.below(256); if (m == 1) rrefresh = 1 << r.below(8); if (r.chance(1, 12)) rrefresh = 0; }
        if (is_layered() && (tid || sid)) rrefresh &= 0xf0; // slots 0..3 hold the base layer
        if (!isinter) {
            if (type == FRAME_KEY && show) refresh = 0xff;
            else {
                refresh = newsection ? 0xff : rrefresh;
                if (type == FRAME_INTRA && refresh == 0xff) refresh = 0xfe;
                b.put(8, refresh);
                if (refresh != 0xff && error_res) order_hints();
            }
            write_size(false);
            if (sct && !sres) { intrabc = r.chance(1, 3) && salt < 6; b.bit(intrabc); }
        } else {
            if (type == FRAME_SWITCH) refresh = 0xff;
            else { refresh = rrefresh; b.put(8, refresh); }
            if (error_res) order_hints();
            if (q.order_hint) b.bit(short_sig);
            if (short_sig) {
                int l = (int)r.below(8), gold = (int)r.below(8);
                if (gold == l) gold = (gold + 1) & 7;
                b.put(3, l); b.put(3, gold);
                set_short_refs(refidx, l, gold, order);
            }
            for (int i = 0; i < 7; i++) {
                if (!short_sig) b.put(3, refidx[i]);
                if (q.frame_id) {
                    int d = (fid - slot[refidx[i]].fid + (1 << q.fid_bits)) & ((1 << q.fid_bits) - 1);
                    if (d < 1 || d > (1 << q.dfid_bits)) { fprintf(stderr, "gen: frame id delta %d\n", d); abort(); }
                    b.put(q.dfid_bits, d - 1);
                }
            }
            write_size(!error_res && override_);
            if (!fimv) { hp = r.chance(1, 2); b.bit(hp); }
            bool sw = r.chance(1, 2);
            eh.subpel_filter_mode = DAV1D_FILTER_SWITCHABLE;
            b.bit(sw); if (!sw) { int m = (int)r.below(4); b.put(2, m); eh.subpel_filter_mode = (Dav1dFilterMode)m; }
            b.bit(eh.switchable_motion_mode = r.chance(2, 3));
            if (!error_res && q.mfmv && q.order_hint) { mfmv = r.chance(2, 3); b.bit(mfmv); }
            for (int i = 0; i < 7; i++) fi.deps.push_back(slot[refidx[i]].frame);
        }
        bool refresh_ctx = false;
        if (!q.reduced && !disable_cdf) { refresh_ctx = r.chance(3, 4); b.bit(!refresh_ctx); }
        eh.primary_ref_frame = (uint8_t)primary; eh.refresh_frame_flags = (uint8_t)refresh; eh.render_width = fi.rw; eh.render_height = fi.rh;
        eh.width[0] = w0; eh.width[1] = W; eh.height = H; eh.super_res.enabled = sres; eh.super_res.width_scale_denominator = (uint8_t)denom;
        eh.allow_intrabc = intrabc; eh.frame_ref_short_signaling = short_sig; eh.hp = hp; eh.use_ref_frame_mvs = mfmv; eh.refresh_context = refresh_ctx;
        if (isinter) for (int i = 0; i < 7; i++) eh.refidx[i] = (int8_t)refidx[i];
        // --- tiling
        std::vector<int> cs, rs;
        int log2c, log2r;
        {
            bool uni = r.chance(1, 2);
            b.bit(eh.tiling.uniform = uni);
            int sbl = 6 + q.sb128, sbm = (1 << sbl) - 1, sbw = (w0 + sbm) >> sbl, sbh = (H + sbm) >> sbl;
            int maxtw = 4096 >> sbl, maxta = 4096 * 2304 >> (2 * sbl);
            int minc = tile_log2(maxtw, sbw), maxc = tile_log2(1, std::min(sbw, 64)), maxr = tile_log2(1, std::min(sbh, 64));
            int mint = std::max(tile_log2(maxta, sbw * sbh), minc);
            bool many = F(FT_TILES) && r.chance(3, 4);
            eh.tiling.min_log2_cols = (uint8_t)minc; eh.tiling.max_log2_cols = (uint8_t)maxc; eh.tiling.max_log2_rows = (uint8_t)maxr;
            if (uni) {
                log2c = minc;
                while (log2c < maxc) { bool inc = many && r.chance(2, 3); b.bit(inc); if (!inc) break; log2c++; }
                int tw = 1 + ((sbw - 1) >> log2c);
                for (int x = 0; x < sbw; x += tw) cs.push_back(x);
                log2r = std::max(mint - log2c, 0);
                eh.tiling.min_log2_rows = (uint8_t)log2r;
                while (log2r < maxr) { bool inc = many && r.chance(1, 2); b.bit(inc); if (!inc) break; log2r++; }
                int th = 1 + ((sbh - 1) >> log2r);
                for (int y = 0; y < sbh; y += th) rs.push_back(y);
            } else {
                int widest = 0, ta = sbw * sbh;
                for (int x = 0; x < sbw && cs.size() < 64;) {
                    int m = std::min(sbw - x, maxtw), tw = m > 1 ? (many ? 1 + (int)r.below(m) : m) : 1;
                    if (m > 1) b.ns(m, tw - 1);
                    cs.push_back(x); x += tw; widest = std::max(widest, tw);
                }
                log2c = tile_log2(1, (int)cs.size());
                if (mint) ta >>= mint + 1;
                int maxth = std::max(ta / widest, 1);
                for (int y = 0; y < sbh && rs.size() < 64;) {
                    int m = std::min(sbh - y, maxth), th = m > 1 ? (many ? 1 + (int)r.below(m) : m) : 1;
                    if (m > 1) b.ns(m, th - 1);
                    rs.push_back(y); y += th;
                }
                log2r = tile_log2(1, (int)rs.size());
            }
            cs.push_back(sbw); rs.push_back(sbh);
        }
        int ncol = (int)cs.size() - 1, nrow = (int)rs.size() - 1, ntiles = ncol * nrow, nbytes = 4;
        eh.tiling.cols = (uint8_t)ncol; eh.tiling.rows = (uint8_t)nrow; eh.tiling.log2_cols = (uint8_t)log2c; eh.tiling.log2_rows = (uint8_t)log2r;
        for (int i = 0; i <= ncol; i++) eh.tiling.col_start_sb[i] = (uint16_t)cs[i];
        for (int i = 0; i <= nrow; i++) eh.tiling.row_start_sb[i] = (uint16_t)rs[i];
        if (log2c || log2r) { b.put(log2c + log2r, eh.tiling.update = (uint16_t)r.below(ntiles)); nbytes = r.chance(1, 2) ? 4 : 3; b.put(2, nbytes - 1); eh.tiling.n_bytes = (uint8_t)nbytes; }
        // --- quant
        bool lossless_try = rare(r, FT_LOSSLESS, 12);
        int yac = lossless_try ? 0 : r.chance(1, 3) ? (int)r.below(256) : r.chance(1, 2) ? (int)r.below(40) : 100 + (int)r.below(156);
        b.put(8, eh.quant.yac = (uint8_t)yac);
        bool delta_ll = true;
        auto dq = [&] { int v = 0; bool p = !lossless_try && r.chance(1, 6); b.bit(p); if (p) { v = (int)r.below(128) - 64; b.su(7, v); if (v) delta_ll = false; } return (int8_t)v; };
        eh.quant.ydc_delta = dq();
        if (!q.mono) {
            bool diff = false;
            if (q.sep_uv) { diff = r.chance(1, 2); b.bit(diff); }
            eh.quant.vdc_delta = eh.quant.udc_delta = dq(); eh.quant.vac_delta = eh.quant.uac_delta = dq();
            if (diff) { eh.quant.vdc_delta = dq(); eh.quant.vac_delta = dq(); }
        }
        bool qm = rare(r, FT_QM, 5);
        b.bit(eh.quant.qm = qm);
        if (qm) { b.put(4, eh.quant.qm_y = (uint8_t)r.below(16)); b.put(4, eh.quant.qm_v = eh.quant.qm_u = (uint8_t)r.below(16)); if (q.sep_uv) b.put(4, eh.quant.qm_v = (uint8_t)r.below(16)); }
        // --- segmentation
        bool seg = rare(r, FT_SEG, 4);
        b.bit(eh.segmentation.enabled = seg);
        for (auto &x : eh.segmentation.seg_data.d) x.ref = -1;
        if (seg) {
            bool upd_map = true, upd_data = true, temporal = false;
            if (primary != 7) {
                upd_map = r.chance(1, 2); b.bit(upd_map);
                if (upd_map) { temporal = r.chance(1, 2); b.bit(temporal); }
                upd_data = r.chance(2, 3); b.bit(upd_data);
            }
            eh.segmentation.update_map = upd_map; eh.segmentation.temporal = temporal; eh.segmentation.update_data = upd_data;
            if (upd_data) {
                int act = 1 + (int)r.below(8);
                for (int i = 0; i < 8; i++) {
                    bool on = i < act;
                    bool p = on && r.chance(1, 2);
                    b.bit(p); nsl.seg_dq[i] = 0; if (p) { int v = (int)r.below(100) - 50; b.su(9, v); nsl.seg_dq[i] = v; }
                    Dav1dSegmentationData &sd = eh.segmentation.seg_data.d[i];
                    sd.delta_q = (int16_t)nsl.seg_dq[i];
                    int8_t *lf[4] = {&sd.delta_lf_y_v, &sd.delta_lf_y_h, &sd.delta_lf_u, &sd.delta_lf_v};
                    for (int j = 0; j < 4; j++) { p = on && r.chance(1, 4); b.bit(p); if (p) b.su(7, *lf[j] = (int8_t)((int)r.below(128) - 64)); }
                    p = on && isinter && r.chance(1, 8); b.bit(p); if (p) b.put(3, sd.ref = (int8_t)r.below(8));
                    b.bit(sd.skip = on && r.chance(1, 10));
                    b.bit(sd.globalmv = on && isinter && r.chance(1, 10));
                }
            } else { memcpy(nsl.seg_dq, slot[refidx[primary]].seg_dq, sizeof nsl.seg_dq); eh.segmentation.seg_data = slot[refidx[primary]].eh->segmentation.seg_data; }
        }
        bool dqp = false;
        if (yac) { dqp = rare(r, FT_DELTAQ, 5); b.bit(eh.delta.q.present = dqp); }
        if (dqp) {
            b.put(2, eh.delta.q.res_log2 = (uint8_t)r.below(4));
            bool dlf = false;
            if (!intrabc) { dlf = r.chance(1, 2); b.bit(eh.delta.lf.present = dlf); }
            if (dlf) { b.put(2, eh.delta.lf.res_log2 = (uint8_t)r.below(4)); b.bit(eh.delta.lf.multi = r.chance(1, 2)); }
        }
        bool all_ll = true;
        for (int i = 0; i < 8; i++) {
            int qi = seg ? std::min(255, std::max(0, yac + nsl.seg_dq[i])) : yac;
            if (!(qi == 0 && delta_ll)) all_ll = false;
            eh.segmentation.qidx[i] = (uint8_t)qi; eh.segmentation.lossless[i] = qi == 0 && delta_ll;
        }
        eh.all_lossless = all_ll;
        // --- loop filter
        auto &lfd = eh.loopfilter.mode_ref_deltas;
        { static const int8_t d0[8] = {1, 0, 0, 0, -1, 0, -1, -1}; memcpy(lfd.ref_delta, d0, 8); }
        if (!all_ll && !intrabc && primary != 7) lfd = slot[refidx[primary]].eh->loopfilter.mode_ref_deltas;
        eh.loopfilter.mode_ref_delta_enabled = eh.loopfilter.mode_ref_delta_update = 1;
        if (!all_ll && !intrabc) {
            bool lfon = F(FT_LF) && r.chance(5, 6);
            int l0 = lfon ? (int)r.below(64) : 0, l1 = lfon ? (int)r.below(64) : 0;
            if (r.chance(1, 8)) l0 = 0;
            b.put(6, eh.loopfilter.level_y[0] = (uint8_t)l0); b.put(6, eh.loopfilter.level_y[1] = (uint8_t)l1);
            if (!q.mono && (l0 || l1)) { b.put(6, eh.loopfilter.level_u = (uint8_t)r.below(64)); b.put(6, eh.loopfilter.level_v = (uint8_t)r.below(64)); }
            b.put(3, eh.loopfilter.sharpness = (uint8_t)r.below(8));
            bool mre = r.chance(1, 2);
            b.bit(mre);
            eh.loopfilter.mode_ref_delta_enabled = mre; eh.loopfilter.mode_ref_delta_update = 0;
            if (mre) {
                bool u = r.chance(1, 2);
                b.bit(eh.loopfilter.mode_ref_delta_update = u);
                if (u) for (int i = 0; i < 10; i++) { bool p = r.chance(1, 4); b.bit(p); if (p) b.su(7, (i < 8 ? lfd.ref_delta[i] : lfd.mode_delta[i - 8]) = (int8_t)((int)r.below(128) - 64)); }
            }
        }
        if (!all_ll && q.cdef && !intrabc) {
            b.put(2, eh.cdef.damping = (uint8_t)r.below(4)); eh.cdef.damping += 3;
            int nbits = (int)r.below(4);
            b.put(2, eh.cdef.n_bits = (uint8_t)nbits);
            for (int i = 0; i < 1 << nbits; i++) { b.put(6, eh.cdef.y_strength[i] = (uint8_t)r.below(64)); if (!q.mono) b.put(6, eh.cdef.uv_strength[i] = (uint8_t)r.below(64)); }
        }
        if ((!all_ll || sres) && q.lr && !intrabc) {
            int t[3] = {(int)r.below(4), 0, 0};
            b.put(2, t[0]);
            if (!q.mono) { t[1] = (int)r.below(4); t[2] = (int)r.below(4); b.put(2, t[1]); b.put(2, t[2]); }
            for (int i = 0; i < 3; i++) eh.restoration.type[i] = (Dav1dRestorationType)t[i];
            if (t[0] || t[1] || t[2]) {
                bool x = r.chance(1, 3);
                int us = 6 + q.sb128 + x;
                b.bit(x); if (x && !q.sb128) { bool y = r.chance(1, 2); b.bit(y); us += y; }
                eh.restoration.unit_size[0] = eh.restoration.unit_size[1] = (uint8_t)us;
                if ((t[1] || t[2]) && q.ss_hor && q.ss_ver) { bool y = r.chance(1, 2); b.bit(y); eh.restoration.unit_size[1] -= y; }
            }
        }
        if (!all_ll) { bool x = r.chance(1, 2); b.bit(x); eh.txfm_mode = x ? DAV1D_TX_SWITCHABLE : DAV1D_TX_LARGEST; }
        bool comp_refs = false;
        if (isinter) { comp_refs = r.chance(2, 3); b.bit(eh.switchable_comp_refs = comp_refs); }
        if (comp_refs && q.order_hint && skip_mode_refs(refidx, order, eh.skip_mode_refs)) { eh.skip_mode_allowed = 1; b.bit(eh.skip_mode_enabled = r.chance(1, 2)); }
        if (!error_res && isinter && q.warped) b.bit(eh.warp_motion = r.chance(2, 3));
        b.bit(eh.reduced_txtp_set = r.chance(1, 4));
        for (auto &g : eh.gmv) g.matrix[2] = g.matrix[5] = 1 << 16;
        if (isinter) {
            for (int i = 0; i < 7; i++) {
                bool on = rare(r, FT_GMV, 6);
                b.bit(on);
                if (!on) continue;
                int t = (int)r.below(3); // 0 rotzoom 1 translation 2 affine
                int32_t *m = eh.gmv[i].matrix;
                int32_t rm[6] = {0, 0, 1 << 16, 0, 0, 1 << 16};
                if (primary != 7) memcpy(rm, slot[refidx[primary]].eh->gmv[i].matrix, sizeof rm);
                eh.gmv[i].type = t == 0 ? DAV1D_WM_TYPE_ROT_ZOOM : t == 1 ? DAV1D_WM_TYPE_TRANSLATION : DAV1D_WM_TYPE_AFFINE;
                b.bit(t == 0); if (t) b.bit(t == 1);
                int small = r.chance(2, 3) ? 8 : 4;
                if (t != 1) { m[2] = (1 << 16) + 2 * b.subexp(r, 12, small, (rm[2] - (1 << 16)) >> 1); m[3] = 2 * b.subexp(r, 12, small, rm[3] >> 1); m[4] = -m[3]; m[5] = m[2]; }
                if (t == 2) { m[4] = 2 * b.subexp(r, 12, small, rm[4] >> 1); m[5] = (1 << 16) + 2 * b.subexp(r, 12, small, (rm[5] - (1 << 16)) >> 1); }
                int bits = t != 1 ? 12 : 9 - !hp, shift = t != 1 ? 10 : 13 + !hp;
                m[0] = b.subexp(r, bits, 6, rm[0] >> shift) * (1 << shift); m[1] = b.subexp(r, bits, 6, rm[1] >> shift) * (1 << shift);
            }
        }
        if (q.grain && (show || fi.showable)) {
            bool p = r.chance(2, 3);
            b.bit(eh.film_grain.present = p);
            if (p) write_grain(b, fr(fi_idx, "grain"), type == FRAME_INTER, refidx, nsl, fi, eh);
        }
        // --- emit
        Rng re = fr(fi_idx, "emit");
        bool ext = fi.has_ext;
        fi.new_seq = flag_newseq; fi.new_op = flag_newop;
        flag_newseq = flag_newop = false;
        if (F(FT_META)) { int nm = re.chance(1, 3) ? 1 + (int)re.below(3) : 0; for (int i = 0; i < nm; i++) write_meta(re, ext && re.chance(1, 2), tid, sid); }
        if (F(FT_PAD)) pad(re);
        fi.first_unit = (int)s.units.size();
        // tiles
        std::vector<std::vector<uint8_t>> tiles;
        int sbl = 6 + q.sb128;
        Rng rp = fr(fi_idx, "payload");
        for (int ty = 0; ty < nrow; ty++) for (int tx = 0; tx < ncol; tx++) {
            int tw = std::min(cs[tx + 1] << sbl, w0) - (cs[tx] << sbl), th = std::min(rs[ty + 1] << sbl, H) - (rs[ty] << sbl);
            uint64_t ps = sim::mix(rp.next(), 0x1000 + salt);
            Rng pr(ps);
            int mode = pr.chance(1, 2) ? 0 : 1 + (int)pr.below(7);
            if (q.layout == 2 || intrabc) mode = pr.chance(1, 8) ? 0 : pr.chance(2, 3) ? 3 : 2;
            int mult = salt < 3 ? 1 : salt < 6 ? 2 : 4;
            size_t len = 40 + (size_t)((tw + 7) & ~7) * ((th + 7) & ~7) * (q.mono ? 2 : q.layout == 3 ? 5 : 3) / 2 * mult;
            if (yac < 20 || q.bpc > 8) len *= 2;
            if (salt >= 12) { mode = 3; }
            if ((uint64_t)w0 * H > 1u << 22) len = 40; // oversized frames are never decoded
            std::vector<uint8_t> t;
            payload(t, Rng(pr.next()), len, mode);
            if (salt >= 14) std::fill(t.begin(), t.end(), salt == 14 ? 0 : salt == 15 ? 0xff : 0x55);
            tiles.push_back(std::move(t));
        }
        int ngroups = F(FT_TILEGROUPS) && ntiles > 1 && re.chance(1, 2) ? 1 + (int)re.below(std::min(ntiles, 4)) : 1;
        bool frame_obu = re.chance(1, 2);
        std::vector<int> gstart{0};
        for (int g = 1; g < ngroups; g++) gstart.push_back(1 + (int)re.below(ntiles - 1));
        std::sort(gstart.begin(), gstart.end());
        gstart.erase(std::unique(gstart.begin(), gstart.end()), gstart.end());
        gstart.push_back(ntiles);
        if (!frame_obu) {
            BW h = b;
            h.trailing();
            emit(OBU_FRAME_HDR, h.b, fi_idx, ext, tid, sid, re);
            if (F(FT_PAD) && re.chance(1, 8)) emit(OBU_REDUNDANT, h.b, fi_idx, ext, tid, sid, re);
        } else b.align();
        for (size_t g = 0; g + 1 < gstart.size(); g++) {
            BW t;
            if (g == 0 && frame_obu) t = b;
            int st = gstart[g], en = gstart[g + 1] - 1;
            if (ntiles > 1) {
                bool pos = gstart.size() > 2 || re.chance(1, 8);
                t.bit(pos);
                if (pos) { t.put(log2c + log2r, st); t.put(log2c + log2r, en); }
            }
            t.align();
            std::vector<uint32_t> marks;
            for (int k = st; k <= en; k++) {
                marks.push_back((uint32_t)t.b.size());
                if (k != en) { uint32_t sz = (uint32_t)tiles[k].size() - 1; for (int x = 0; x < nbytes; x++) t.b.push_back((uint8_t)(sz >> 8 * x)); }
                t.b.insert(t.b.end(), tiles[k].begin(), tiles[k].end());
            }
            emit(g == 0 && frame_obu ? OBU_FRAME : OBU_TILE_GRP, t.b, fi_idx, ext, tid, sid, re);
            for (auto &m : marks) m += s.units.back().hdr_len;
            s.units.back().marks = marks;
            if (!frame_obu && g + 2 < gstart.size() && F(FT_PAD) && re.chance(1, 10)) {
                BW h = b; h.trailing();
                // the header is unaligned only for separate header OBUs
                emit(OBU_REDUNDANT, h.b, fi_idx, ext, tid, sid, re);
            }
        }
        fi.last_unit = (int)s.units.size() - 1;
        fi.refresh = refresh;
        fi.src = fi_idx;
        fi.cll = cur_cll; fi.mdcv = cur_mdcv; fi.t35 = pend_t35;
        pend_t35.clear();
        fi.key_restart = newsection;
        nsl.valid = true; nsl.showable = fi.showable; nsl.w = W; nsl.h = H; nsl.w0 = w0; nsl.order = order; nsl.type = type;
        nsl.tid = tid; nsl.sid = sid;
        nsl.eh = fi.eh = ehp; fi.sh = (int)s.shs.size() - 1;
        nsl.frame = fi_idx; nsl.fid = fid; nsl.rw = fi.rw; nsl.rh = fi.rh; nsl.keyhidden = type == FRAME_KEY && !show;
        for (int i = 0; i < 8; i++) if (refresh >> i & 1) slot[i] = nsl;
        for (int i = 0; i < 32; i++) {
            int idc = i < q.nops ? q.idc[i] : q.idc[0];
            fi.op_in[i] = !idc || !fi.has_ext || ((idc >> tid & 1) && (idc >> (sid + 8) & 1));
        }
        s.frames.push_back(fi);
    }

    void pad(Rng &re) {
        if (re.chance(1, 12)) { std::vector<uint8_t> v; int l = (int)re.below(20); for (int i = 0; i < l; i++) v.push_back((uint8_t)re.next()); v.push_back(0x80); emit(OBU_PADDING, v, -1, false, 0, 0, re); }
        if (re.chance(1, 24)) { std::vector<uint8_t> v{1, 2, 3}; emit(9 + (int)re.below(5), v, -1, false, 0, 0, re); }
    }

    void set_short_refs(int *refidx, int l, int gold, int order) {
        for (int i = 0; i < 7; i++) refidx[i] = -1;
        refidx[0] = l; refidx[3] = gold;
        int cur = 1 << (q.order_bits - 1), sh[8], used[8] = {0};
        for (int i = 0; i < 8; i++) sh[i] = cur + poc_diff(q.order_bits, slot[i].order, order);
        used[l] = used[gold] = 1;
        int best = -1, bi = -1;
        for (int i = 0; i < 8; i++) if (!used[i] && sh[i] >= cur && sh[i] >= best) { bi = i; best = sh[i]; }
        if (bi >= 0) { refidx[6] = bi; used[bi] = 1; }
        for (int which = 4; which <= 5; which++) {
            best = 1 << 30; bi = -1;
            for (int i = 0; i < 8; i++) if (!used[i] && sh[i] >= cur && sh[i] < best) { bi = i; best = sh[i]; }
            if (bi >= 0) { refidx[which] = bi; used[bi] = 1; }
        }
        for (int k = 1; k < 7; k++) if (refidx[k] < 0) {
            best = -1; bi = -1;
            for (int i = 0; i < 8; i++) if (!used[i] && sh[i] < cur && sh[i] >= best) { bi = i; best = sh[i]; }
            if (bi >= 0) { refidx[k] = bi; used[bi] = 1; }
        }
        best = 1 << 30; bi = 0;
        for (int i = 0; i < 8; i++) if (sh[i] < best) { best = sh[i]; bi = i; }
        for (int k = 0; k < 7; k++) if (refidx[k] < 0) refidx[k] = bi;
    }

    // 7.20 of the specification: the two references of a skip mode block, as indices into refidx
    bool skip_mode_refs(const int *refidx, int poc, int8_t out[2]) {
        int fwd = -1, bwd = -1, fwd2 = -1;
        auto hint = [&](int i) { return (int)slot[refidx[i]].order; };
        for (int i = 0; i < 7; i++) {
            int d = poc_diff(q.order_bits, hint(i), poc);
            if (d < 0 && (fwd < 0 || poc_diff(q.order_bits, hint(i), hint(fwd)) > 0)) fwd = i;
            if (d > 0 && (bwd < 0 || poc_diff(q.order_bits, hint(i), hint(bwd)) < 0)) bwd = i;
        }
        if (fwd < 0) return false;
        if (bwd < 0) {
            for (int i = 0; i < 7; i++)
                if (poc_diff(q.order_bits, hint(i), hint(fwd)) < 0 && (fwd2 < 0 || poc_diff(q.order_bits, hint(i), hint(fwd2)) > 0)) fwd2 = i;
            if (fwd2 < 0) return false;
            bwd = fwd2;
        }
        out[0] = (int8_t)std::min(fwd, bwd); out[1] = (int8_t)std::max(fwd, bwd);
        return true;
    }

    bool show_existing(int tid, int sid) {
        std::vector<int> c;
        for (int k = 0; k < 8; k++) if (slot[k].valid && slot[k].showable && slot[k].tid <= tid && slot[k].sid == sid &&
                                        !(is_layered() && slot[k].type == FRAME_KEY && (tid || sid))) c.push_back(k);
        if (c.empty()) return false;
        int fi_idx = (int)s.frames.size();
        Rng r = fr(fi_idx, "showex");
        int k = c[r.below((uint32_t)c.size())];
        for (int x : c) if (slot[x].keyhidden && r.chance(1, 2)) k = x;
        FrameInfo fi;
        fi.idx = fi_idx; fi.show_existing = true; fi.show = true; fi.slot = k; fi.src = slot[k].frame; fi.tu = tu;
        fi.type = slot[k].type; fi.tid = tid; fi.sid = sid; fi.seq = (int)s.seqs.size() - 1;
        fi.has_ext = q.tlayers * q.slayers > 1;
        fi.w = slot[k].w; fi.h = slot[k].h; fi.w0 = slot[k].w0; fi.rw = slot[k].rw; fi.rh = slot[k].rh; fi.order = slot[k].order;
        fi.grain = slot[k].grain;
        fi.deps.push_back(slot[k].frame);
        if (F(FT_META)) { int nm = r.chance(1, 3) ? 1 + (int)r.below(2) : 0; for (int i = 0; i < nm; i++) write_meta(r, false, 0, 0); }
        BW b;
        b.bit(1); b.put(3, k);
        if (q.decmodel && !q.equal_pic) b.put(q.fpd_len, 1);
        if (q.frame_id) b.put(q.fid_bits, slot[k].fid);
        b.trailing();
        fi.first_unit = fi.last_unit = (int)s.units.size();
        emit(OBU_FRAME_HDR, b.b, fi_idx, fi.has_ext, tid, sid, r);
        fi.cll = cur_cll; fi.mdcv = cur_mdcv; fi.t35 = pend_t35;
        pend_t35.clear();
        if (slot[k].type == FRAME_KEY) {
            slot[k].showable = false;
            slot[k].keyhidden = false;
            Slot x = slot[k];
            for (auto &sl : slot) sl = x;
            fi.refresh = 0xff;
        }
        for (int i = 0; i < 32; i++) {
            int idc = i < q.nops ? q.idc[i] : q.idc[0];
            fi.op_in[i] = !idc || !fi.has_ext || ((idc >> tid & 1) && (idc >> (sid + 8) & 1));
        }
        s.frames.push_back(fi);
        return true;
    }

    void run() {
        feat = K.set(n("feat"), o.feat);
        // per-stream feature swarm: drop a random subset so that rare mixes appear
        {
            Rng r = K.rng(n("swarm"));
            int keep = K.get(n("swarm"), 0, 3);
            if (keep == 0) feat &= (int)(r.next() | r.next());
            if (keep == 1) feat &= (int)(r.next() | r.next() | r.next());
            feat |= o.feat & FT_INTER;
            Rng h = K.rng(n("hot"));
            if (h.chance(1, 2)) { // FT_LOSSLESS and FT_ERRRES seldom: they rule out other tools
                static const int tools[] = {FT_QM, FT_SEG, FT_DELTAQ, FT_GMV, FT_SEG, FT_QM, FT_SEG, FT_DELTAQ, FT_GMV, FT_LOSSLESS, FT_ERRRES};
                for (int i = h.range(1, 3); i > 0; i--) hot |= tools[h.below(11)];
            }
        }
        nframes = K.get(n("nf"), 1, o.maxframes);
        int nsec = 1;
        if (o.force_key_sections) nsec = K.get(n("nsec"), 2, 3);
        s.seqs.clear();
        int made = 0;
        Rng g = K.rng(n("gop"));
        int keyp = K.pick(n("keyp"), {0, 0, 8, 30, 100}); // percent of extra key frames
        int hidp = K.pick(n("hidp"), {0, 20, 50});
        int exp_ = K.pick(n("exp"), {0, 20, 50});
        for (int sec = 0; sec < nsec && (made < nframes || sec == 0 || o.force_key_sections); sec++) {
            int quota = nsec > 1 ? std::max(1, (nframes + nsec - 1) / nsec) : nframes;
            section(sec, quota, made, g, keyp, hidp, exp_);
        }
        s.ntus = tu + 1;
        char d[160];
        const SeqP &z = s.seqs[0];
        snprintf(d, sizeof d, "%dx%d layout%d %dbit frames=%zu tus=%d T%dS%d", z.maxw, z.maxh, z.layout, z.bpc, s.frames.size(), s.ntus, z.tlayers, z.slayers);
        s.desc = d;
    }

    void key_tu(Rng &r, int seqmode) { // 0 same header repeated, 1 new sequence, 2 op params changed
        start_tu(r);
        if (seqmode == 1) {
            int si = (int)s.seqs.size();
            bool same = false;
            if (si && r.chance(1, 3)) same = true; // identical header
            if (!same) {
                new_seq_params(si);
                s.seqs.push_back(q);
                if (si) {
                    // identical by chance is practically impossible (sizes and flags differ); compared anyway by the oracle
                }
                for (auto &x : slot) x.valid = false;
                cur_cll = cur_mdcv = -1;
                flag_newseq = true;
                hint = 0;
            }
        } else if (seqmode == 2 && q.decmodel && q.ebd_len >= 10) {
            bool any = false;
            for (int i = 0; i < q.nops; i++) any |= q.op_dm[i];
            if (any) {
                q.opp_salt++;
                s.seqs.push_back(q);
                seq_op_only = true;
                flag_newop = true;
            }
        }
        write_seq(r);
    }

    void section(int sec, int quota, int &made, Rng &g, int keyp, int hidp, int exp_) {
        Rng r0(sim::mix(seed, 0xAB00 + sec));
        int target = made + quota;
        bool fresh = true;
        while (made < target && !(longp && s.frames.size() >= 5 && !fresh)) {
            Rng r(sim::mix(seed, 0xC0000 + (uint64_t)s.frames.size() * 31 + tu));
            if (fresh || r.chance(keyp, 100)) {
                int mode = 1;
                if (!fresh) mode = F(FT_MULTISEQ) && r.chance(1, 4) ? 1 : r.chance(1, 4) ? 2 : 0;
                if (sec && fresh) mode = F(FT_MULTISEQ) && r.chance(1, 2) ? 1 : 0;
                if (s.seqs.empty()) mode = 1;
                key_tu(r, mode);
                int tid = 0;
                bool any = false;
                for (auto &x : slot) any |= x.valid;
                if (mode == 1 && !any && !o.force_key_sections && F(FT_HIDDEN) && q.slayers == 1 && !q.still && !q.reduced && r.chance(1, 5)) {
                    // the sequence starts with a key frame that is not shown
                    frame(4, false, tid, 0, true);
                    made++;
                    if (!(F(FT_SHOWEX) && r.chance(1, 2) && show_existing(tid, 0))) inter_like(r, true, tid, 0);
                    made++;
                    fresh = false;
                    continue;
                }
                frame(0, true, tid, 0, true);
                made++;
                layer_rest(r, tid, made, target, hidp, exp_);
                fresh = false;
                continue;
            }
            if (q.still || q.reduced) { // still picture sequences: key frames only
                key_tu(r, 0);
                frame(0, true, 0, 0, true);
                made++;
                continue;
            }
            start_tu(r);
            if (r.chance(1, 10)) write_seq(r);
            int tid = (int)r.below(q.tlayers);
            // hidden frames first
            shown(r, tid, 0, made, target, hidp, exp_);
            layer_rest(r, tid, made, target, hidp, exp_);
        }
        (void)g;
    }
    // the shown frame of one layer, with hidden frames in front of it
    void shown(Rng &r, int tid, int sid, int &made, int target, int hidp, int exp_) {
        if (F(FT_HIDDEN)) while (r.chance(hidp, 100) && made < target + 2) { inter_like(r, false, tid, sid); made++; }
        bool done = false;
        if (F(FT_SHOWEX) && r.chance(exp_, 100)) done = show_existing(tid, sid);
        if (!done) inter_like(r, true, tid, sid);
        made++;
    }
    void layer_rest(Rng &r, int tid, int &made, int target, int hidp, int exp_) {
        for (int sl = 1; sl < q.slayers; sl++) {
            if (r.chance(1, 12)) break; // a temporal unit may lack upper layers
            shown(r, tid, sl, made, target, hidp, exp_);
        }
    }
    void inter_like(Rng &r, bool show, int tid, int sid) {
        bool any = false;
        for (auto &x : slot) any |= x.valid;
        int all = 0;
        for (auto &x : slot) all += x.valid;
        if (!any) { frame(0, true, tid, sid, false); return; }
        int k = 1;
        if (!F(FT_INTER)) k = 2;
        else if (F(FT_INTRAONLY) && r.chance(1, 12)) k = 2;
        else if (F(FT_SWITCH) && !(is_layered() && (tid || sid)) && r.chance(1, 25)) k = 3;
        else if (!show && q.slayers == 1 && r.chance(1, 8)) k = 4;
        frame(k, show, tid, sid, false);
    }
};
} // namespace

Stream Generator::make() {
    Gen g(*this);
    g.run();
    return std::move(g.s);
}

std::vector<uint8_t> join_units(const Stream &s, size_t from, size_t to) {
    std::vector<uint8_t> v;
    for (size_t i = from; i < to && i < s.units.size(); i++) v.insert(v.end(), s.units[i].bytes.begin(), s.units[i].bytes.end());
    return v;
}
const char *frame_type_name(int t) { static const char *const n[] = {"key", "inter", "intra", "switch"}; return n[t & 3]; }
