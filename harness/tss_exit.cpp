// The end of a thread: exit functions, clean-up of values, notification, what they may do themselves, and failures.
#include "vp.hpp"
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <src/tss_pthread.cpp>
using namespace boost::sync;
#ifndef FA
#define FA 0, 0, 0
#endif
#ifndef CA
#define CA 0, 0
#endif
#define AI static inline __attribute__((always_inline))
#define X extern "C"
#ifndef PROP
#define PROP 0
#endif
#define PA(p, c, id) do { if (PROP == 0 || PROP == p) vp_assert(c, id); } while (0)
struct item;
#define NV 16
AI item* obj(unsigned long k) { return (item*)(k + 1); }
AI unsigned long no(item* p) { return (unsigned long)p - 1; }
typedef thread_specific_ptr<item> TP;
static vp_cell<TP> P0, P1, P2;
static vp_cell<mutex> M[2]; static vp_cell<condition_variable> CV[2];
static item* val[3][2];                     // what the specification says
static vp_u32 got[3*NV], want[3*NV];
static unsigned char gone[3] = {0, 0, 1}, ending[2], ended[2];
static vp_u32 live, nf, now, base;          // copies of functors, functions registered, order of calls
static vp_u32 ran[8], when[8], who[8], nested[8], fact[8] = {FA}, cact[3] = {CA}; static unsigned char killing, did[3], req[2], reqt[2]; static vp_u32 nb[2];
static vp_u32 nv;
X void vpx_run(vp_u32 k); X void vpx_cleaned(vp_u32 i, item* p);
struct fn { vp_u32 k; explicit fn(vp_u32 n) : k(n) { ++live; } fn(fn const& o) : k(o.k) { ++live; } ~fn() { --live; } void operator()() const { vpx_run(k); } };
template <int I> static void clean(item* p) { vpx_cleaned(I, p); }
AI TP& tp(int i) { return i == 0 ? P0.v : i == 1 ? P1.v : P2.v; }
AI void drop(int i, int t) { if (val[i][t]) { want[i*NV + no(val[i][t])]++; val[i][t] = 0; } }
X void vpx_set(int i, int t) { item* n = obj(nv++); drop(i, t); item* o = n; val[i][t] = n; tp(i).reset(o); }
X void vpx_rel(int i, int t) { item* r = tp(i).release(); PA(16, r == val[i][t], 12); val[i][t] = 0; }
X bool vpx_reg(int t) {                      // at_thread_exit; false: it failed
  vp_u32 k = nf++; who[k] = t; nested[k] = ending[t];
  try { at_thread_exit(fn(k)); } catch (...) { who[k] = 99; return false; }
  return true;
}
X bool vpx_req(int m, int t) {               // hands a locked mutex over
  bool ok = true;
  try { unique_lock<mutex> l(M[m].v); notify_all_at_thread_exit(CV[m].v, boost::move(l)); PA(17, !l.owns_lock(), 30); } catch (...) { ok = false; }
  PA(17, vp_mutex_owner(M[m].v.native_handle()) == (ok ? t + 1u : 0u), 31);
  if (ok) { req[m]++; reqt[m] = t; }
  return ok;
}
AI void held(int id) { for (int m = 0; m < 2; ++m) if (req[m]) { PA(17, vp_mutex_owner(M[m].v.native_handle()) == reqt[m] + 1u, id); PA(17, vp_cond_bcast(CV[m].v.native_handle()) == nb[m], id + 1); } }
X void vpx_checkv(int t) {
  for (int i = 0; i < 3; ++i) if (!gone[i]) PA(16, tp(i).get() == val[i][t], 10);
}
X void vpx_run(vp_u32 k) {
  vp_u32 t = vp_thread_id();
  PA(16, who[k] == t, 20); PA(16, ending[t], 21); PA(16, ran[k] == 0, 22); ran[k]++; when[k] = ++now;
  for (vp_u32 j = 0; j < 4; ++j) if (j < nf && j != k && who[j] == t && !nested[j] && !nested[k]) PA(16, j > k ? ran[j] == 1 : ran[j] == 0, 23);   // reverse order
  vpx_checkv(t); held(32);
  switch (fact[k]) {
  case 1: if (!gone[0]) vpx_set(0, t); break;
  case 2: if (!gone[1]) vpx_rel(1, t); break;
  case 3: vpx_reg(t); break;
  case 4: if (!req[1]) vpx_req(1, t); break;
  case 5: if (!gone[1]) vpx_set(1, t); break;
  case 6: if (!gone[0]) { killing = 1; tp(0).~TP(); killing = 0; drop(0, 0); drop(0, 1); gone[0] = 1; } break;
  default: break;
  }
}
X void vpx_cleaned(vp_u32 i, item* p) {
  vp_u32 t = vp_thread_id();
  got[i*NV + no(p)]++; PA(15, got[i*NV + no(p)] == 1, 13); held(34);
  if (!ending[t]) {                                                 // reset, or the pointer is destroyed
    if (did[i]) return;
    if (cact[i] == 7) { did[i] = 1; vpx_set(i, t); } else if (cact[i] == 8) { did[i] = 1; vpx_set(i ^ 1, t); }
    return;
  }
  if (val[i][t] == p) { val[i][t] = 0; want[i*NV + no(p)]++; }      // the end of the thread took it
  for (vp_u32 j = 0; j < 4; ++j) if (j < nf && who[j] == t && !nested[j] && val[i][t] == 0 && !did[i] && !killing) PA(16, ran[j] == 1 || fact[j] != 0, 24);
  if (did[i]) return;
  did[i] = 1;
  switch (cact[i]) {
  case 1: if (!gone[i ^ 1]) vpx_set(i ^ 1, t); break;
  case 2: if (!gone[i]) vpx_set(i, t); break;
  case 3: vpx_reg(t); break;
  case 4: if (!gone[i ^ 1]) { killing = 1; tp(i ^ 1).~TP(); killing = 0; drop(i ^ 1, 0); drop(i ^ 1, 1); gone[i ^ 1] = 1; } break;
  case 5: if (gone[2]) { new (&P2.v) TP(&clean<2>); gone[2] = 0; vpx_set(2, t); } break;
  case 6: if (!req[1]) vpx_req(1, t); break;
  default: break;
  }
}
X void vpx_end(int t) {
  vp_set_thread(t); ending[t] = 1; vp_u32 r0 = req[0] && reqt[0] == t, r1;
  vp_thread_exit(); ended[t] = 1;
  for (int i = 0; i < 3; ++i) if (!gone[i]) PA(15, val[i][t] == 0, 14);           // everything was taken
  for (vp_u32 k = 0; k < 5; ++k) if (k < nf) PA(16, ran[k] == ((who[k] == 0 && ended[0]) || (who[k] == 1 && ended[1])), 25);
  r1 = req[1] && reqt[1] == t; (void)r0;
  for (int m = 0; m < 2; ++m) if (req[m]) {
    if (reqt[m] == t) { PA(17, vp_mutex_owner(M[m].v.native_handle()) == 0, 36); PA(17, vp_cond_bcast(CV[m].v.native_handle()) == nb[m] + 1, 37); nb[m]++; req[m] = 0; }
    else { PA(17, vp_mutex_owner(M[m].v.native_handle()) == reqt[m] + 1u, 38); PA(17, vp_cond_bcast(CV[m].v.native_handle()) == nb[m], 39); }
  }
}
#define CK(o) PA(15, got[o] == want[o], 15);
#define CK8(o) CK(o) CK(o+1) CK(o+2) CK(o+3) CK(o+4) CK(o+5) CK(o+6) CK(o+7)
X void vpx_checkc() { CK8(0) CK8(16) CK8(32) }
X void vpx_start(int t) { vp_set_thread(t); vpx_set(1, t); vpx_rel(1, t); }
X void vpx_mset(int i, int t) { if (vp_nd_bool()) vpx_set(i, t); }
X void vpx_new() { new (&P0.v) TP(&clean<0>); new (&P1.v) TP(&clean<1>); base = vp_heap_live(); }
X void vpx_fail(int what, int n) {           // an operation whose n-th request to the system, if there is one, is refused
  vp_u32 h = vp_heap_live(), l = live; (void)l; vp_set_failbudget(n); bool ok;
  if (what == 0) { ok = vpx_reg(0); PA(16, live == l + ok, 26); }
  else if (what == 1) ok = vpx_req(0, 0);
  else { ok = true; item* o = val[0][0]; item* n = obj(nv++); try { P0.v.reset(n); } catch (...) { ok = false; } if (ok) { val[0][0] = o; drop(0, 0); val[0][0] = n; } PA(15, P0.v.get() == val[0][0], 16); }
  vp_u32 code = vp_fail_code(); if (what == 0) PA(16, ok == (code == 0), 27); else if (what == 1) PA(17, ok == (code == 0), 41); else PA(15, ok == (code == 0), 42); vp_set_failbudget(0); vp_clear_fail(); (void)h;
  
}
#define S(t) vpx_start(t);
#define V(i, t) vp_set_thread(t); vpx_mset(i, t);
#define W(i, t) vp_set_thread(t); vpx_set(i, t);
#define R(t) vp_set_thread(t); vpx_reg(t);
#define N(m, t) vp_set_thread(t); vpx_req(m, t);
#define E(t) vpx_end(t);
#define F(w, n) vp_set_thread(0); vpx_fail(w, n);
#define DT(i, t) vp_set_thread(t); tp(i).~TP(); drop(i, 0); drop(i, 1); gone[i] = 1;
#define DD(i) vp_set_thread(2); tp(i).~TP(); drop(i, 0); drop(i, 1); gone[i] = 1;
extern "C" void vp_init() {}
extern "C" void vp_main() {
  for (int m = 0; m < 2; ++m) { new (&M[m].v) mutex; new (&CV[m].v) condition_variable; }
  vpx_new();
  SEQ
  vpx_checkc();
  PA(16, live == 0, 28); PA(18, vp_heap_live() <= base + gone[0] + gone[1] + !gone[2], 40);
  vp_cover(true, 50); vp_cover(got[0] + got[1] + got[2] + got[3] + got[4] + got[5] >= 1 || nv < 3, 51);
}
