// Cycle-level environment around one or more verilated caches.
// Built once per cache configuration; CLW, DBW, ABW, OBW are macros.
#include "Vc.h"
#include "verilated.h"
#include <cstdint>
#include <cstring>
#include <deque>
#include <memory>
#include <unordered_map>
#include <vector>
#include <stdexcept>

// A simulation that does not converge is an outcome to report, not a reason to abort the process.
void vl_fatal(const char *, int, const char *, const char *msg) VL_MT_UNSAFE { throw std::runtime_error(msg); }
void vl_stop(const char *, int, const char *) VL_MT_UNSAFE { throw std::runtime_error("stop"); }

static constexpr int clog2(int n) { int r = 0; while ((1 << r) < n) r++; return r; }
static constexpr int LENW = clog2(DBW / 8);
static constexpr int MLENW = clog2(CLW / 8);
static constexpr int NW = CLW / 32;        // words per line
static constexpr int DW = (DBW + 31) / 32; // words per processor datum

// ---- bit access on verilator ports --------------------------------------
struct Buf { uint32_t w[40]; };
template <class T> static inline void load(Buf &b, const T &v) {
  uint64_t x = (uint64_t)v; b.w[0] = (uint32_t)x; b.w[1] = (uint32_t)(x >> 32);
}
template <std::size_t N> static inline void load(Buf &b, const VlWide<N> &v) {
  for (std::size_t i = 0; i < N; i++) b.w[i] = v[i];
}
template <class T> static inline void store(const Buf &b, T &v) {
  v = (T)(((uint64_t)b.w[1] << 32) | b.w[0]);
}
template <std::size_t N> static inline void store(const Buf &b, VlWide<N> &v) {
  for (std::size_t i = 0; i < N; i++) v[i] = b.w[i];
}
static inline uint64_t getf(const Buf &b, int lo, int n) {
  uint64_t r = 0;
  for (int i = 0; i < n;) {
    int p = lo + i, k = p & 31; int take = 32 - k; if (take > n - i) take = n - i;
    uint64_t part = (b.w[p >> 5] >> k); if (take < 32) part &= ((1u << take) - 1);
    r |= part << i; i += take;
  }
  return r;
}
static inline void setf(Buf &b, int lo, int n, uint64_t v) {
  for (int i = 0; i < n;) {
    int p = lo + i, k = p & 31; int take = 32 - k; if (take > n - i) take = n - i;
    uint32_t m = take < 32 ? ((1u << take) - 1) : 0xffffffffu;
    b.w[p >> 5] = (b.w[p >> 5] & ~(m << k)) | ((uint32_t)((v >> i) & m) << k);
    i += take;
  }
}

// ---- scenario ------------------------------------------------------------
struct Op {
  uint32_t core, type, len, flags; // flags bit0: wait until own earlier ops answered
  uint32_t opaque, gap, phase, pad;
  uint64_t addr;
  uint32_t data[4];
};
struct Sched {            // per core
  uint32_t resp_pat[8];   // 256-cycle rdy patterns, repeated
  uint32_t mem_pat[8];
  uint32_t lat[32];       // memory latency per request, cyclic (>=1)
  uint32_t resp_n, mem_n, lat_n, pad;
};
struct Hdr {
  uint32_t ncores, nops, memseed, initseed;
  uint32_t reset_len, junk, maxcycles, stall_limit;
  uint32_t drain, nresets, trace, pad;
  uint32_t reset_at_op[8], reset_delay[8], reset_dur[8];
};
enum { EV_ACCEPT = 1, EV_RESP, EV_MREQ, EV_MRESP, EV_PROTO, EV_END, EV_RESET, EV_POKE, EV_RDY };
// event record: 16 x u32: kind, cycle, core, a, b, c, d, e, data[8..]
struct Ev { uint32_t kind, cycle, core, a, b, c, d, e; uint64_t addr; uint32_t mask, idx; uint32_t data[16]; };

static inline uint32_t mix(uint64_t a, uint32_t seed) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull + (uint64_t)seed * 0xD1B54A32D192ED03ull + 0x1234567;
  x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x *= 0x94D049BB133111EBull; x ^= x >> 29;
  return (uint32_t)x;
}

struct Mem {
  uint32_t seed; std::unordered_map<uint64_t, uint32_t> m;
  uint32_t rd(uint64_t a) { a &= ~3ull; auto it = m.find(a); return it == m.end() ? mix(a, seed) : it->second; }
  void wr(uint64_t a, uint32_t v) { m[a & ~3ull] = v; }
};
static uint32_t amo(int t, uint32_t m, uint32_t a) {
  switch (t) {
  case 3: return m + a; case 4: return m & a; case 5: return m | a; case 6: return a;
  case 7: return (int32_t)m < (int32_t)a ? m : a; case 8: return m < a ? m : a;
  case 9: return (int32_t)m > (int32_t)a ? m : a; case 10: return m > a ? m : a;
  case 11: return m ^ a; }
  return m;
}
struct MResp { uint64_t ready; Buf b; int type; uint32_t opaque; };
struct Core {
  std::unique_ptr<VerilatedContext> ctx; std::unique_ptr<Vc> d;
  std::vector<int> ops; size_t next = 0; uint64_t next_ok = 0; int outstanding = 0;
  std::deque<int> infl; std::deque<MResp> q; uint64_t lastready = 0; uint32_t nreq = 0;
};

static const uint64_t AMASK = ABW >= 64 ? ~0ull : ((1ull << ABW) - 1);

// port layouts, msb first: type opaque addr len [mask] data
static constexpr int RQ_LEN = DBW, RQ_ADDR = DBW + LENW, RQ_OPQ = RQ_ADDR + ABW, RQ_TYPE = RQ_OPQ + OBW;
static constexpr int RS_LEN = DBW, RS_TEST = DBW + LENW, RS_OPQ = RS_TEST + 2, RS_TYPE = RS_OPQ + OBW;
static constexpr int MQ_MASK = CLW, MQ_LEN = CLW + NW, MQ_ADDR = MQ_LEN + MLENW, MQ_OPQ = MQ_ADDR + ABW, MQ_TYPE = MQ_OPQ + OBW;
static constexpr int MR_MASK = CLW, MR_LEN = CLW + NW, MR_TEST = MR_LEN + MLENW, MR_OPQ = MR_TEST + 2, MR_TYPE = MR_OPQ + OBW;
static constexpr int RQ_W = RQ_TYPE + 4, MR_W = MR_TYPE + 4, RS_W = RS_TYPE + 4, MQ_W = MQ_TYPE + 4;

extern "C" int cfg(int *o) { o[0] = CLW; o[1] = DBW; o[2] = ABW; o[3] = OBW; o[4] = sizeof(Op); o[5] = sizeof(Sched); o[6] = sizeof(Hdr); o[7] = sizeof(Ev); return 8; }

static uint32_t jk(uint32_t &s) { s ^= s << 13; s ^= s >> 17; s ^= s << 5; return s; }

// trace record for one core and cycle: inputs and outputs, packed words
// [reset,req_en,resp_rdy,mreq_rdy,mresp_en | req_rdy,resp_en,mreq_en,mresp_rdy] + msgs
extern "C" int run(const Hdr *h, const Op *ops, const Sched *sc, Ev *ev, int evcap,
                   uint32_t *tr, int trcap, int *ntr, uint64_t *memdump, int memcap, int *nmem) {
  int nev = 0; *ntr = 0; *nmem = 0;
  const int trw = 9 + 40 * 4;
  auto emit = [&](uint32_t kind, uint64_t cyc, uint32_t core) -> Ev & {
    static Ev dummy; if (nev >= evcap) { nev = evcap; return dummy; }
    Ev &e = ev[nev++]; memset(&e, 0, sizeof e); e.kind = kind; e.cycle = (uint32_t)cyc; e.core = core; return e; };
  Mem mem; mem.seed = h->memseed;
  int N = h->ncores; std::vector<Core> cs(N);
  uint32_t js = h->junk * 2654435761u + 88172645u; if (!js) js = 1;
  for (int c = 0; c < N; c++) {
    cs[c].ctx.reset(new VerilatedContext); cs[c].ctx->randSeed((int)(h->initseed + 7919 * c + 1));
    cs[c].ctx->randReset(h->initseed ? 2 : 0);
    cs[c].d.reset(new Vc(cs[c].ctx.get()));
  }
  int npoke = 0; std::vector<int> pokes; std::vector<int> phase_left;
  uint32_t maxphase = 0;
  for (uint32_t i = 0; i < h->nops; i++) {
    if ((int)ops[i].core < N) cs[ops[i].core].ops.push_back(i); else pokes.push_back(i);
    if (ops[i].phase > maxphase) maxphase = ops[i].phase;
  }
  phase_left.assign(maxphase + 2, 0);
  for (uint32_t i = 0; i < h->nops; i++) phase_left[ops[i].phase]++;
  uint32_t curphase = 0; size_t nextpoke = 0;
  uint32_t left = h->nops;
  uint64_t cyc = 0; uint32_t stall = 0, drain = 0; int status = 0;
  uint32_t nextreset = 0; int64_t rst_at = -1; uint32_t rst_left = h->reset_len; bool first = true;
  Buf z; memset(&z, 0, sizeof z);
  try { for (;; cyc++) {
    if (cyc >= h->maxcycles) { status = 2; break; }
    // ---- resets
    bool rst = false;
    if (rst_left > 0) { rst = true; rst_left--; }
    else if (rst_at >= 0 && (int64_t)cyc >= rst_at) {
      rst_at = -1; rst = true; rst_left = h->reset_dur[nextreset] - 1; nextreset++;
      emit(EV_RESET, cyc, 0).a = nextreset - 1;
      for (auto &c : cs) { // environment forgets everything in flight
        for (int i : c.infl) { phase_left[ops[i].phase]--; left--; }
        c.infl.clear(); c.q.clear(); c.outstanding = 0;
      }
    }
    while (curphase <= maxphase && phase_left[curphase] == 0) curphase++;
    bool progress = false, joint = true;
    // pokes: single step per cycle, own phase
    if (!rst && nextpoke < pokes.size() && ops[pokes[nextpoke]].phase == curphase) {
      const Op &o = ops[pokes[nextpoke]];
      mem.wr(o.addr & AMASK, o.data[0]); Ev &e = emit(EV_POKE, cyc, o.core); e.idx = pokes[nextpoke]; e.addr = o.addr; e.data[0] = o.data[0];
      nextpoke++; phase_left[o.phase]--; left--; progress = true;
    }
    for (int c = 0; c < N; c++) {
      Core &k = cs[c]; Vc *d = k.d.get(); const Sched &S = sc[c];
      auto bit = [&](const uint32_t *p, uint32_t n) { if (!n) return true; uint32_t i = cyc % n; return (bool)((p[i >> 5] >> (i & 31)) & 1); };
      bool rr = bit(S.resp_pat, S.resp_n), mr = bit(S.mem_pat, S.mem_n);
      if (!(rr && mr)) joint = false;
      d->reset = rst; d->mnp_rdy = rr; d->msq_rdy = mr;
      // memory response
      bool mv = !rst && !k.q.empty() && k.q.front().ready <= cyc;
      Buf mb = z; if (mv) mb = k.q.front().b; else if (h->junk) for (int i = 0; i < (MR_W + 31) / 32; i++) mb.w[i] = jk(js);
      if (h->junk && !mv) { int hi = MR_W & 31; if (hi) mb.w[MR_W >> 5] &= (1u << hi) - 1; }
      store(mb, d->msp_msg);
      d->msp_en = 0;
      // processor request
      bool want = false; int oi = -1;
      if (!rst && k.next < k.ops.size() && rst_at < 0) {
        oi = k.ops[k.next]; const Op &o = ops[oi];
        want = o.phase == curphase && cyc >= k.next_ok + o.gap && (!(o.flags & 1) || k.outstanding == 0);
      }
      Buf rb = z;
      if (want) { const Op &o = ops[oi];
        for (int i = 0; i < DW; i++) setf(rb, 32 * i, DBW - 32 * i < 32 ? DBW - 32 * i : 32, o.data[i]);
        setf(rb, RQ_LEN, LENW, o.len); setf(rb, RQ_ADDR, ABW, o.addr); setf(rb, RQ_OPQ, OBW, o.opaque); setf(rb, RQ_TYPE, 4, o.type);
      } else if (h->junk) { for (int i = 0; i < (RQ_W + 31) / 32; i++) rb.w[i] = jk(js); int hi = RQ_W & 31; if (hi) rb.w[RQ_W >> 5] &= (1u << hi) - 1; }
      store(rb, d->mnq_msg);
      d->mnq_en = 0;
      d->clk = 0; d->eval();
      bool q0 = d->mnq_rdy, m0 = d->msp_rdy;
      bool send = want && q0, msend = mv && m0;
      d->mnq_en = send; d->msp_en = msend;
      d->eval();
      bool q1 = d->mnq_rdy, m1 = d->msp_rdy;
      if (!rst && q0 != q1) { Ev &e = emit(EV_PROTO, cyc, c); e.a = 1; e.b = send; e.c = msend; }
      if (!rst && m0 != m1) { Ev &e = emit(EV_PROTO, cyc, c); e.a = 2; }
      bool se = d->mnp_en, me = d->msq_en;
      if (h->trace && *ntr < trcap && c == 0) {
        uint32_t *t = tr + (size_t)(*ntr) * trw; (*ntr)++; memset(t, 0, trw * 4);
        t[0] = rst; t[1] = send; t[2] = rr; t[3] = mr; t[4] = msend; t[5] = q1; t[6] = se; t[7] = me; t[8] = m1;
        Buf x; memset(&x, 0, sizeof x);
        memcpy(t + 9, &rb, 160); memcpy(t + 49, &mb, 160);
        load(x, d->mnp_msg); memcpy(t + 89, &x, 160); memset(&x, 0, sizeof x);
        load(x, d->msq_msg); memcpy(t + 129, &x, 160);
      }
      if (!rst) {
        if (se && !rr) { Ev &e = emit(EV_PROTO, cyc, c); e.a = 3; }
        if (me && !mr) { Ev &e = emit(EV_PROTO, cyc, c); e.a = 4; }
        if (msend) { Ev &e = emit(EV_MRESP, cyc, c); e.a = k.q.front().type; k.q.pop_front(); progress = true; }
        if (send) {
          Ev &e = emit(EV_ACCEPT, cyc, c); e.idx = oi; k.infl.push_back(oi); k.outstanding++; k.next++; k.next_ok = cyc + 1; progress = true;
          if (nextreset < h->nresets && (int)h->reset_at_op[nextreset] <= oi && rst_at < 0) rst_at = cyc + 1 + h->reset_delay[nextreset];
        }
        if (me && mr) {
          Buf b; memset(&b, 0, sizeof b); load(b, d->msq_msg);
          Ev &e = emit(EV_MREQ, cyc, c); e.a = getf(b, MQ_TYPE, 4); e.b = getf(b, MQ_OPQ, OBW); e.c = getf(b, MQ_LEN, MLENW);
          e.addr = getf(b, MQ_ADDR, ABW); e.mask = getf(b, MQ_MASK, NW);
          for (int i = 0; i < NW; i++) e.data[i] = b.w[i];
          progress = true;
          // memory acts at arrival, answers later, in order per cache
          uint64_t la = e.addr & ~(uint64_t)(CLW / 8 - 1);
          MResp r; memset(&r.b, 0, sizeof r.b); r.type = e.a; r.opaque = e.b;
          if (e.a == 0) for (int i = 0; i < NW; i++) setf(r.b, 32 * i, 32, mem.rd(la + 4 * i));
          else if (e.a == 1) { for (int i = 0; i < NW; i++) if ((e.mask >> i) & 1) mem.wr(la + 4 * i, e.data[i]); }
          else if (e.a >= 3 && e.a <= 11) { uint32_t old = mem.rd(e.addr); mem.wr(e.addr, amo(e.a, old, e.data[0])); setf(r.b, 0, 32, old);
          }
          setf(r.b, MR_OPQ, OBW, e.b); setf(r.b, MR_TYPE, 4, e.a); setf(r.b, MR_LEN, MLENW, e.a == 1 ? 0 : e.c);
          if (e.a == 0) setf(r.b, MR_MASK, NW, e.mask);
          if (h->junk) { // fields the cache documents as ignored
            setf(r.b, MR_TEST, 2, jk(js)); setf(r.b, MR_LEN, MLENW, jk(js)); setf(r.b, MR_MASK, NW, jk(js));
            if (e.a == 1) for (int i = 0; i < NW; i++) setf(r.b, 32 * i, 32, jk(js));
          }
          uint32_t L = S.lat_n ? S.lat[k.nreq % S.lat_n] : 1; if (!L) L = 1; k.nreq++;
          r.ready = cyc + L; if (r.ready < k.lastready + 1) r.ready = k.lastready + 1; k.lastready = r.ready;
          k.q.push_back(r);
        }
        if (se && rr) {
          Buf b; memset(&b, 0, sizeof b); load(b, d->mnp_msg);
          Ev &e = emit(EV_RESP, cyc, c); e.a = getf(b, RS_TYPE, 4); e.b = getf(b, RS_OPQ, OBW); e.c = getf(b, RS_TEST, 2); e.d = getf(b, RS_LEN, LENW);
          for (int i = 0; i < DW; i++) e.data[i] = getf(b, 32 * i, DBW - 32 * i < 32 ? DBW - 32 * i : 32);
          progress = true;
          if (!k.infl.empty()) { e.idx = k.infl.front(); phase_left[ops[k.infl.front()].phase]--; left--; k.infl.pop_front(); k.outstanding--; }
          else e.idx = 0xffffffffu;
        }
      }
      d->clk = 1; d->eval();
    }
    if (progress || rst) stall = 0;
    else {
      bool waiting = false; // only count cycles in which nothing external explains the silence
      for (auto &k : cs) { if (!k.q.empty() && k.q.front().ready > cyc) waiting = true;
        if (k.next < k.ops.size()) { const Op &o = ops[k.ops[k.next]]; if (k.infl.empty() && cyc < k.next_ok + o.gap) waiting = true; } }
      if (rst_at >= 0) waiting = true;
      if (joint && !waiting && left > 0) stall++;
    }
    if (left == 0) { if (++drain > h->drain && rst_at < 0) { status = 0; break; } }
    if (stall > h->stall_limit) { status = 1; break; }
    if (nev > evcap - 64) { status = 3; break; }
  } } catch (const std::exception &) { status = 4; }
  Ev &e = emit(EV_END, cyc, 0); e.a = status; e.b = left;
  for (auto &p : mem.m) { if (*nmem >= memcap) break; memdump[2 * *nmem] = p.first; memdump[2 * *nmem + 1] = p.second; (*nmem)++; }
  return nev;
}
