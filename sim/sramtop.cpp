// Thin C API around one verilated SRAM: run a whole port schedule.
#include "VDut.h"
#include "verilated.h"
#include <cstring>
#include <cstdint>

template <class T> static inline void setm(T& p, const uint32_t* w) {
  uint64_t v = w[0];
  if (sizeof(T) > 4) v |= (uint64_t)w[1] << 32;
  p = (T)v;
}
template <std::size_t N> static inline void setm(VlWide<N>& p, const uint32_t* w) {
  for (std::size_t i = 0; i < N; i++) p[i] = w[i];
}
template <class T> static inline void getm(const T& p, uint32_t* w) {
  uint64_t v = p;
  w[0] = (uint32_t)v;
  if (sizeof(T) > 4) w[1] = (uint32_t)(v >> 32);
}
template <std::size_t N> static inline void getm(const VlWide<N>& p, uint32_t* w) {
  for (std::size_t i = 0; i < N; i++) w[i] = p[i];
}

// ops: per cycle {reset, val, type, idx, wdata[nw], wben[nw]}; out: rdata[nw]
// seen in the cycle, before its clock edge.
extern "C" void sram_run(uint64_t seed, const uint32_t* ops, int n, int nw, uint32_t* out) {
  VerilatedContext ctx;
  if (seed) { ctx.randReset(2); ctx.randSeed((int)(seed & 0x7fffffff)); } else ctx.randReset(0);
  VDut t(&ctx, "TOP");
  for (int i = 0; i < n; i++, ops += 4 + 2 * nw, out += nw) {
    t.clk = 0; t.reset = ops[0] & 1; t.port0_val = ops[1] & 1; t.port0_type = ops[2] & 1; t.port0_idx = ops[3];
    setm(t.port0_wdata, ops + 4); setm(t.port0_wben, ops + 4 + nw);
    t.eval();
    getm(t.port0_rdata, out);
    t.clk = 1; t.eval();
  }
  t.final();
}
