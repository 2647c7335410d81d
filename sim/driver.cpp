// Deterministic simulator core: N caches, one shared memory, scripted
// processors. Everything that happens is decided by the scenario blob; no
// clock, no random source, no thread is consulted.
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <array>
#include <vector>
#include <deque>
#include <dlfcn.h>

typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32;

static inline u64 mix(u64 z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static inline u64 mix2(u64 a, u64 b) { return mix(a ^ mix(b)); }

struct Api {
  void* (*create)(u64); void (*destroy)(void*);
  void (*in)(void*, int, int, const u32*, int, int, int, const u32*);
  void (*eval)(void*); void (*out)(void*, int*, u32*, u32*); void (*clk)(void*);
};

enum { EV_REQ = 1, EV_RESP, EV_MREQ, EV_MSRV, EV_MRESP, EV_RST, EV_UNRST, EV_EXT,
       EV_PROTO, EV_END, EV_ABORT, EV_RDY };

struct Ev { i64 v[9]; uint8_t data[64]; };

enum { F_TYPE, F_OPQ, F_ADDR, F_LEN, F_TEST, F_MASK, F_DATA, NF };
struct Lay { int lsb[NF], w[NF]; int n; };

static u64 getf(const u32* m, int lsb, int w) {  // w <= 64
  u64 r = 0;
  for (int i = 0; i < w;) {
    int b = lsb + i, o = b & 31, k = 32 - o; if (k > w - i) k = w - i;
    u64 part = (m[b >> 5] >> o) & (k == 32 ? 0xffffffffULL : ((1ULL << k) - 1));
    r |= part << i; i += k;
  }
  return r;
}
static void putf(u32* m, int lsb, int w, u64 v) {
  for (int i = 0; i < w;) {
    int b = lsb + i, o = b & 31, k = 32 - o; if (k > w - i) k = w - i;
    u32 msk = (k == 32 ? 0xffffffffu : (((u32)1 << k) - 1)) << o;
    m[b >> 5] = (m[b >> 5] & ~msk) | (((u32)(v >> i) << o) & msk); i += k;
  }
}
static void getb(const u32* m, const Lay& l, uint8_t* d) {
  for (int i = 0; i < l.w[F_DATA]; i += 8) d[i >> 3] = (uint8_t)getf(m, l.lsb[F_DATA] + i, 8);
}
static void putb(u32* m, const Lay& l, const uint8_t* d) {
  for (int i = 0; i < l.w[F_DATA]; i += 8) putf(m, l.lsb[F_DATA] + i, 8, d[i >> 3]);
}

struct Req { i64 gap, type, opq, addr, len, phase; uint8_t data[32]; };
struct MemOp { i64 idx, type, opq, addr, len, mask; uint8_t data[64]; i64 srv_at, post; };
struct MemRsp { MemOp op; uint8_t data[64]; i64 at; };
struct Win { i64 s, l; };
struct Rst { i64 after, delay, cycles; };
struct Ext { i64 inst, after, delay, addr, data; i64 due; bool done; };

struct Inst {
  Api* api; void* h; Lay creq, cresp, mreq, mresp; int lineb, dbytes; u64 noise;
  i64 mdepth, mcool, rcool, pdepth, mfree = 0, rfree = 0;   // closed-loop back-pressure
  std::vector<Req> reqs; std::vector<uint8_t> rst_stall, mst_stall;
  std::vector<Win> rw, mw; std::vector<Win> lat; std::vector<Rst> resets;
  size_t next = 0, nresets_done = 0; i64 last_accept = -1; std::deque<i64> inflight;
  std::deque<MemOp> mq; std::deque<MemRsp> rq; i64 mcount = 0, last_srv = -1, last_rsp = -1;
  i64 rst_until = -1, rst_at = -1; bool in_reset = false; bool rdy_seen = false;
  std::vector<i64> acc_cycle;
};

struct Mem {
  u64 seed; std::unordered_map<u64, u32> w;
  u32 init(u64 wa) const { return (u32)mix2(seed, wa); }
  u32 rd(u64 wa) { auto it = w.find(wa); return it == w.end() ? init(wa) : it->second; }
  void wr(u64 wa, u32 v) { w[wa] = v; }
  uint8_t rb(u64 a) { return rd(a >> 2) >> (8 * (a & 3)); }
};

static u32 amo(int t, u32 m, u32 a) {
  switch (t) {
    case 3: return m + a; case 4: return m & a; case 5: return m | a; case 6: return a;
    case 7: return (int32_t)m < (int32_t)a ? m : a; case 8: return m < a ? m : a;
    case 9: return (int32_t)m > (int32_t)a ? m : a; case 10: return m > a ? m : a;
    case 11: return m ^ a;
  }
  return m;
}

struct Out { Ev* buf; i64 cap, n; bool over; 
  Ev& add(i64 kind, i64 inst, i64 cyc, i64 a=0, i64 b=0, i64 c=0, i64 d=0, i64 e=0, i64 f=0) {
    static Ev dummy; if (n >= cap) { over = true; return dummy; }
    Ev& x = buf[n++]; x.v[0]=kind; x.v[1]=inst; x.v[2]=cyc; x.v[3]=a; x.v[4]=b; x.v[5]=c;
    x.v[6]=d; x.v[7]=e; x.v[8]=f; memset(x.data, 0, 64); return x; }
};

static void serve(Mem& mem, Out& o, int inst, i64 cyc, const MemOp& op, int lineb, uint8_t* res) {
  memset(res, 0, 64);
  u64 am = ~0ULL;
  if (op.type == 0) {
    i64 n = op.len ? op.len : lineb;
    for (i64 k = 0; k < n && k < 64; k++) res[k] = mem.rb((u64)(op.addr + k) & am);
  } else if (op.type == 1) {
    for (int j = 0; j < lineb / 4; j++) if (op.mask >> j & 1) {
      u32 v; memcpy(&v, op.data + 4 * j, 4); 
      u64 a = (u64)op.addr + 4 * j;
      if (a & 3) { for (int k = 0; k < 4; k++) { u32 w = mem.rd((a+k) >> 2); int s = 8*((a+k)&3);
          w = (w & ~(0xffu << s)) | ((u32)op.data[4*j+k] << s); mem.wr((a+k) >> 2, w);} }
      else mem.wr(a >> 2, v);
    }
  } else if (op.type >= 3 && op.type <= 11) {
    u32 old = mem.rd((u64)op.addr >> 2), a; memcpy(&a, op.data, 4);
    mem.wr((u64)op.addr >> 2, amo((int)op.type, old, a)); memcpy(res, &old, 4);
  }
  Ev& e = o.add(EV_MSRV, inst, cyc, op.idx, op.type, op.opq, op.addr, op.len, op.mask);
  memcpy(e.data, op.type == 1 ? op.data : res, 64);
}

static void noise_msg(u32* m, int n, u64 seed, u64 inst, u64 cyc, u64 port) {
  int words = (n + 31) / 32;
  for (int i = 0; i < words; i++) m[i] = seed ? (u32)mix2(seed ^ (inst << 56) ^ (port << 48), cyc * 64 + i) : 0;
  if (n & 31) m[words - 1] &= (((u32)1 << (n & 31)) - 1);
}

extern "C" void* api_load(const char* path) {
  void* l = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!l) return nullptr;
  Api* a = new Api;
  a->create = (void* (*)(u64))dlsym(l, "dut_create");
  a->destroy = (void (*)(void*))dlsym(l, "dut_destroy");
  a->in = (void (*)(void*, int, int, const u32*, int, int, int, const u32*))dlsym(l, "dut_in");
  a->eval = (void (*)(void*))dlsym(l, "dut_eval");
  a->out = (void (*)(void*, int*, u32*, u32*))dlsym(l, "dut_out");
  a->clk = (void (*)(void*))dlsym(l, "dut_clk");
  return a;
}

extern "C" i64 sim_run(Api** apis, const i64* b, Ev* buf, i64 cap) {
  Out o{buf, cap, 0, false};
  i64 ninst = *b++; Mem mem; mem.seed = (u64)*b++; u64 xseed = (u64)*b++;
  i64 maxc = *b++, drain = *b++, mem_at_reset = *b++, late = *b++, next_ext = *b++;
  std::vector<Inst> I(ninst);
  std::vector<Ext> ext;
  std::vector<i64> phase_left; 
  for (i64 i = 0; i < ninst; i++) {
    Inst& s = I[i]; s.api = apis[i];
    Lay* ls[4] = {&s.creq, &s.cresp, &s.mreq, &s.mresp};
    for (auto l : ls) { for (int f = 0; f < NF; f++) { l->lsb[f] = (int)*b++; l->w[f] = (int)*b++; } l->n = (int)*b++; }
    s.lineb = (int)*b++; s.dbytes = (int)*b++; s.noise = (u64)*b++;
    s.mdepth = *b++; s.mcool = *b++; s.rcool = *b++; s.pdepth = *b++;
    i64 n = *b++; s.reqs.resize(n);
    for (auto& r : s.reqs) {
      r.gap = *b++; r.type = *b++; r.opq = *b++; r.addr = *b++; r.len = *b++; r.phase = *b++;
      memcpy(r.data, b, 32); b += 4;
      if ((i64)phase_left.size() <= r.phase) phase_left.resize(r.phase + 1, 0);
      phase_left[r.phase]++;
    }
    n = *b++; s.rst_stall.assign(maxc + 1, 0);
    while (n--) { i64 st = *b++, l = *b++; for (i64 k = st; k < st + l && k <= maxc; k++) s.rst_stall[k] = 1; }
    n = *b++; s.mst_stall.assign(maxc + 1, 0);
    while (n--) { i64 st = *b++, l = *b++; for (i64 k = st; k < st + l && k <= maxc; k++) s.mst_stall[k] = 1; }
    n = *b++; while (n--) { Win w; w.s = *b++; w.l = *b++; s.lat.push_back(w); }
    n = *b++; while (n--) { Rst r; r.after = *b++; r.delay = *b++; r.cycles = *b++; s.resets.push_back(r); }
    s.h = s.api->create(xseed ? mix2(xseed, i) | 1 : 0);
    s.acc_cycle.assign(s.reqs.size(), -1);
  }
  while (next_ext--) { Ext e; e.inst = *b++; e.after = *b++; e.delay = *b++; e.addr = *b++; e.data = *b++; e.due = -1; e.done = false; ext.push_back(e); }
  size_t cur_phase = 0;
  auto adv = [&]() { while (cur_phase < phase_left.size() && phase_left[cur_phase] == 0) cur_phase++; };
  adv();
  u32 m1[40], m2[40], o1[40], o2[40]; int f[4];
  i64 idle_since = -1, cyc = 0; int reason = 1;
  // power-on reset: two cycles for everyone
  for (auto& s : I) { s.rst_at = 0; s.rst_until = 2; s.in_reset = true; }
  for (i64 i = 0; i < ninst; i++) o.add(EV_RST, i, 0, 1);
  for (; cyc < maxc; cyc++) {
    // external agents and memory service
    for (auto& e : ext) {
      if (!e.done && e.due < 0 && (e.after < 0 || (e.inst < ninst && e.after < (i64)I[e.inst].acc_cycle.size() && I[e.inst].acc_cycle[e.after] >= 0)))
        e.due = (e.after < 0 ? 0 : I[e.inst].acc_cycle[e.after]) + e.delay;
      if (!e.done && e.due >= 0 && cyc >= e.due) {
        e.done = true; mem.wr((u64)e.addr >> 2, (u32)e.data);
        o.add(EV_EXT, 0, cyc, e.addr, e.data);
      }
    }
    for (i64 i = 0; i < ninst; i++) {
      Inst& s = I[i];
      // reset faults
      if (s.in_reset && cyc >= s.rst_until) { s.in_reset = false; s.rdy_seen = false; s.rq.clear(); o.add(EV_UNRST, i, cyc); }
      if (!s.in_reset && s.nresets_done < s.resets.size()) {
        Rst& r = s.resets[s.nresets_done];
        bool trig = r.after < 0 ? cyc >= r.delay
          : (r.after < (i64)s.acc_cycle.size() && s.acc_cycle[r.after] >= 0 && cyc >= s.acc_cycle[r.after] + r.delay);
        if (trig) {
          s.nresets_done++; s.in_reset = true; s.rst_until = cyc + (r.cycles < 1 ? 1 : r.cycles);
          o.add(EV_RST, i, cyc, 0);
          for (i64 k : s.inflight) { o.add(EV_ABORT, i, cyc, k); phase_left[s.reqs[k].phase]--; }
          s.inflight.clear(); adv();
          if (!late) s.rq.clear();
          if (mem_at_reset) for (auto& m : s.mq) {
            MemRsp q; q.op = m; serve(mem, o, i, cyc, m, s.lineb, q.data);
            q.at = cyc + m.post; if (late) s.rq.push_back(q);
          }
          s.mq.clear();
        }
      }
    }
    for (i64 i = 0; i < ninst; i++) {
      Inst& s = I[i];
      while (!s.mq.empty() && s.mq.front().srv_at <= cyc) {
        MemRsp r; r.op = s.mq.front(); s.mq.pop_front();
        serve(mem, o, i, cyc, r.op, s.lineb, r.data);
        r.at = cyc + r.op.post; if (r.at <= s.last_rsp) r.at = s.last_rsp + 1; s.last_rsp = r.at;
        s.rq.push_back(r);
      }
    }
    bool busy = false;
    for (i64 i = 0; i < ninst; i++) {
      Inst& s = I[i]; const MemRsp* mr = nullptr;
      int rr = !s.rst_stall[cyc] && cyc >= s.rfree;
      int mrdy = !s.mst_stall[cyc] && cyc >= s.mfree && (!s.mdepth || (i64)(s.mq.size() + s.rq.size()) < s.mdepth);
      if (!s.rq.empty() && s.rq.front().at <= cyc) mr = &s.rq.front();
      noise_msg(m1, s.creq.n, s.noise, i, cyc, 1);
      noise_msg(m2, s.mresp.n, s.noise, i, cyc, 2);
      if (mr) {
        putf(m2, s.mresp.lsb[F_TYPE], s.mresp.w[F_TYPE], mr->op.type);
        putf(m2, s.mresp.lsb[F_OPQ], s.mresp.w[F_OPQ], mr->op.opq);
        if (!s.noise) {
          putf(m2, s.mresp.lsb[F_LEN], s.mresp.w[F_LEN], mr->op.type == 1 ? 0 : mr->op.len);
          putf(m2, s.mresp.lsb[F_MASK], s.mresp.w[F_MASK], mr->op.type == 0 ? mr->op.mask : 0);
        }
        if (!(s.noise && mr->op.type == 1)) putb(m2, s.mresp, mr->op.type == 1 ? (const uint8_t*)memset(o1, 0, 64) : mr->data);
      }
      s.api->in(s.h, s.in_reset, 0, m1, rr, mrdy, mr != nullptr, m2);
      s.api->eval(s.h);
      s.api->out(s.h, f, o1, o2);
      bool issue = false;
      if (!s.in_reset && f[0]) {
        if (!s.rdy_seen) { s.rdy_seen = true; o.add(EV_RDY, i, cyc); }
        if (s.next < s.reqs.size()) {
          Req& r = s.reqs[s.next];
          if ((!s.pdepth || (i64)s.inflight.size() < s.pdepth) && (size_t)r.phase <= cur_phase && cyc >= s.last_accept + 1 + r.gap) {
            issue = true;
            memset(m1, 0, sizeof m1);
            putf(m1, s.creq.lsb[F_TYPE], s.creq.w[F_TYPE], r.type);
            putf(m1, s.creq.lsb[F_OPQ], s.creq.w[F_OPQ], r.opq);
            putf(m1, s.creq.lsb[F_ADDR], s.creq.w[F_ADDR], r.addr);
            putf(m1, s.creq.lsb[F_LEN], s.creq.w[F_LEN], r.len);
            putb(m1, s.creq, r.data);
            s.api->in(s.h, 0, 1, m1, rr, mrdy, mr != nullptr, m2);
            s.api->eval(s.h);
            int g[4]; s.api->out(s.h, g, o1, o2);
            if (!g[0]) o.add(EV_PROTO, i, cyc, 4);  // ready withdrawn by enable
            f[1] = g[1]; f[2] = g[2]; f[3] = g[3];
          }
        }
      }
      if (!s.in_reset) {
        if (mr) {
          if (!f[3]) o.add(EV_PROTO, i, cyc, 3);
          Ev& e = o.add(EV_MRESP, i, cyc, mr->op.idx, mr->op.type, mr->op.opq, mr->op.addr);
          memcpy(e.data, mr->data, 64); s.rq.pop_front();
        }
        if (issue) {
          Req& r = s.reqs[s.next];
          Ev& e = o.add(EV_REQ, i, cyc, s.next, r.type, r.opq, r.addr, r.len);
          memcpy(e.data, r.data, 32);
          s.acc_cycle[s.next] = cyc; s.last_accept = cyc; s.inflight.push_back(s.next); s.next++;
        }
        if (f[1]) {
          if (!rr) o.add(EV_PROTO, i, cyc, 1);
          s.rfree = cyc + 1 + s.rcool;
          i64 idx = -1;
          // a response in the cycle its own request is accepted would be combinational
          if (!s.inflight.empty()) { idx = s.inflight.front(); s.inflight.pop_front(); phase_left[s.reqs[idx].phase]--; }
          Ev& e = o.add(EV_RESP, i, cyc, idx, getf(o1, s.cresp.lsb[F_TYPE], s.cresp.w[F_TYPE]),
            getf(o1, s.cresp.lsb[F_OPQ], s.cresp.w[F_OPQ]), getf(o1, s.cresp.lsb[F_TEST], s.cresp.w[F_TEST]),
            getf(o1, s.cresp.lsb[F_LEN], s.cresp.w[F_LEN]));
          getb(o1, s.cresp, e.data);
        }
        if (f[2]) {
          if (!mrdy) o.add(EV_PROTO, i, cyc, 2);
          s.mfree = cyc + 1 + s.mcool;
          MemOp m; m.idx = s.mcount; m.type = getf(o2, s.mreq.lsb[F_TYPE], s.mreq.w[F_TYPE]);
          m.opq = getf(o2, s.mreq.lsb[F_OPQ], s.mreq.w[F_OPQ]); m.addr = getf(o2, s.mreq.lsb[F_ADDR], s.mreq.w[F_ADDR]);
          m.len = getf(o2, s.mreq.lsb[F_LEN], s.mreq.w[F_LEN]); m.mask = getf(o2, s.mreq.lsb[F_MASK], s.mreq.w[F_MASK]);
          memset(m.data, 0, 64); getb(o2, s.mreq, m.data);
          Win l = s.lat.empty() ? Win{0, 0} : s.lat[s.mcount % s.lat.size()]; s.mcount++;
          m.srv_at = cyc + 1 + l.s; if (m.srv_at < s.last_srv) m.srv_at = s.last_srv; s.last_srv = m.srv_at;
          m.post = l.l; s.mq.push_back(m);
          Ev& e = o.add(EV_MREQ, i, cyc, m.idx, m.type, m.opq, m.addr, m.len, m.mask);
          memcpy(e.data, m.data, 64);
        }
      }
      else if (mr) s.rq.pop_front();              // an answer that arrives in reset is lost
      s.api->clk(s.h);
      if (s.in_reset || s.next < s.reqs.size() || !s.inflight.empty() || !s.mq.empty() || !s.rq.empty() || f[1] || f[2] || !s.rdy_seen) busy = true;
    }
    adv();
    if (o.over) { reason = 2; break; }
    if (busy) idle_since = -1;
    else { if (idle_since < 0) idle_since = cyc; if (cyc - idle_since >= drain) { reason = 0; break; } }
  }
  o.over = false; if (o.n >= o.cap) o.n = o.cap - 1;
  o.add(EV_END, 0, cyc, reason);
  for (auto& s : I) s.api->destroy(s.h);
  return o.n;
}
