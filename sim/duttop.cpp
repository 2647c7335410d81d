// Thin C API around one verilated cache. Compiled once per configuration,
// with DUT_* message widths coming from the generated header itself.
#include "VDut.h"
#include "verilated.h"
#include <cstring>
#include <cstdint>
#include <memory>

template <class T> static inline void setm(T& p, const uint32_t* w) {
  uint64_t v = w[0];
  if (sizeof(T) > 4) v |= (uint64_t)w[1] << 32;
  p = (T)v;
}
template <std::size_t N> static inline void setm(VlWide<N>& p, const uint32_t* w) {
  for (std::size_t i = 0; i < N; i++) p[i] = w[i];
}
template <class T> static inline void getm(const T& p, uint32_t* w) {
  uint64_t v = p;
  w[0] = (uint32_t)v;
  if (sizeof(T) > 4) w[1] = (uint32_t)(v >> 32);
}
template <std::size_t N> static inline void getm(const VlWide<N>& p, uint32_t* w) {
  for (std::size_t i = 0; i < N; i++) w[i] = p[i];
}

struct H { VerilatedContext ctx; VDut* top; };

extern "C" {
void* dut_create(uint64_t seed) {
  H* h = new H;
  if (seed) { h->ctx.randReset(2); h->ctx.randSeed((int)(seed & 0x7fffffff)); }
  else h->ctx.randReset(0);
  h->top = new VDut(&h->ctx, "TOP");
  return h;
}
void dut_destroy(void* v) { H* h = (H*)v; h->top->final(); delete h->top; delete h; }
void dut_in(void* v, int reset, int req_en, const uint32_t* req, int resp_rdy,
            int memreq_rdy, int memresp_en, const uint32_t* memresp) {
  VDut* t = ((H*)v)->top;
  t->clk = 0;
  t->reset = reset;
  t->mem_minion_ifc___05Freq___05Fen = req_en;
  setm(t->mem_minion_ifc___05Freq___05Fmsg, req);
  t->mem_minion_ifc___05Fresp___05Frdy = resp_rdy;
  t->mem_master_ifc___05Freq___05Frdy = memreq_rdy;
  t->mem_master_ifc___05Fresp___05Fen = memresp_en;
  setm(t->mem_master_ifc___05Fresp___05Fmsg, memresp);
}
void dut_eval(void* v) { ((H*)v)->top->eval(); }
void dut_out(void* v, int* f, uint32_t* resp, uint32_t* memreq) {
  VDut* t = ((H*)v)->top;
  f[0] = t->mem_minion_ifc___05Freq___05Frdy & 1;
  f[1] = t->mem_minion_ifc___05Fresp___05Fen & 1;
  f[2] = t->mem_master_ifc___05Freq___05Fen & 1;
  f[3] = t->mem_master_ifc___05Fresp___05Frdy & 1;
  getm(t->mem_minion_ifc___05Fresp___05Fmsg, resp);
  getm(t->mem_master_ifc___05Freq___05Fmsg, memreq);
}
void dut_clk(void* v) {
  VDut* t = ((H*)v)->top;
  t->clk = 1; t->eval();   // the falling edge is evaluated with the next inputs
}
}
