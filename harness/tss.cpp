// Thread-specific storage: histories of operations by several threads on several pointers.
#include "vp.hpp"
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <src/tss_pthread.cpp>
using namespace boost::sync;
#ifndef SEQ
#define SEQ B(0) B(1) U U
#endif
#define AI static inline __attribute__((always_inline))

#ifndef PROP
#define PROP 0
#endif
#define PA(p, c, id) do { if (PROP == 0 || PROP == p) vp_assert(c, id); } while (0)
#define NOBJ 8
static vp_u32 got[4*NOBJ], want[4*NOBJ];          // clean-ups made and due, by pointer instance and value
#ifdef DEFCL                                      // the default clean-up: the value is deleted
struct item { char c; ~item(); static void operator delete(void*) {} };
static vp_cell<item> pool[NOBJ];
AI item* obj(unsigned long k) { return &pool[k].v; }
AI unsigned long no(item* p) { return (vp_cell<item>*)p - pool; }
item::~item() { got[no(this)]++; }
#else
struct item;                                      // never looked at: a value is a number
AI item* obj(unsigned long k) { return (item*)(k + 1); }
AI unsigned long no(item* p) { return (unsigned long)p - 1; }
#endif
#ifndef NOCL                                      // instances without a clean-up function
#define NOCL 0
#endif
typedef thread_specific_ptr<item> TP;
#ifdef DEFCL
#define MAKE(p, I) new (p) TP()
#else
template <int I> static void clean(item* p) { got[I*NOBJ + no(p)]++; }
#define MAKE(p, I) ((NOCL >> I & 1) ? new (p) TP((void (*)(item*))0) : new (p) TP(&clean<I>))
#endif
static vp_cell<TP> P0, P1;                       // two places for pointers; instances 0, 1 at first, 2, 3 when made again
static item* val[2][2];                          // [place][thread]: what the specification says
static unsigned char inst[2], gone[2], again[2], ended[2];
extern "C" void vp_init() {}
AI TP& tp(int i) { return i ? P1.v : P0.v; }
#ifdef DEFCL
AI void due(int, item* o) { if (o) want[no(o)]++; }
#else
AI void due(int i, item* o) { if (o && !(NOCL >> inst[i] & 1)) want[inst[i]*NOBJ + no(o)]++; }
#endif
extern "C" void vpx_checkv() {
  for (int t = 0; t < 2; ++t) if (!ended[t]) { vp_set_thread(t);
    if (!gone[0]) PA(14, P0.v.get() == val[0][t], 10);
    if (!gone[1]) PA(14, P1.v.get() == val[1][t], 11); }
}
#define CK(o) PA(15, got[o] == want[o], 20);
#define CK8(o) CK(o) CK(o+1) CK(o+2) CK(o+3) CK(o+4) CK(o+5) CK(o+6) CK(o+7)
extern "C" void vpx_checkc() { CK8(0) CK8(8) CK8(16) CK8(24) }
extern "C" void vpx_op(int i, int t, int step) {             // an operation of thread t on the pointer at place i
  item* n = obj(1 + step); item* o = val[i][t];
  switch (vp_nd_lt(4)) {
  case 0: tp(i).reset(n); due(i, o); val[i][t] = n; break;
  case 1: tp(i).reset(); due(i, o); val[i][t] = 0; break;
  case 2: tp(i).reset(o); break;
  default: { item* r = tp(i).release(); PA(14, r == o, 12); val[i][t] = 0; }
  }
}
extern "C" void vpx_destroy(int i) { tp(i).~TP(); due(i, val[i][0]); due(i, val[i][1]); val[i][0] = val[i][1] = 0; gone[i] = 1; }
extern "C" void vpx_create(int i) { if (i) MAKE(&P1.v, 3); else MAKE(&P0.v, 2); inst[i] += 2; again[i] = 1; gone[i] = 0; }
extern "C" void vpx_finish(int t) {
  vp_thread_exit(); ended[t] = 1;
  for (int i = 0; i < 2; ++i) if (!gone[i]) { due(i, val[i][t]); val[i][t] = 0; }
}
extern "C" void vpx_begin(int t) { vp_set_thread(t); ended[t] = 0; item* o = val[1][t]; if (!gone[1]) { tp(1).reset(obj(0)); item* r = tp(1).release(); PA(14, r == obj(0), 13); } else { tp(0).reset(obj(0)); item* r = tp(0).release(); PA(14, r == obj(0), 13); } }
extern "C" void vpx_any(int t, int s) { vp_set_thread(t); bool i = vp_nd_bool(); if (i) { if (!gone[1]) vpx_op(1, t, s); } else { if (!gone[0]) vpx_op(0, t, s); } }
AI void who(int t) { vp_set_thread(t); }
// the history: events at fixed places, operations on values chosen by the solver
#define K vpx_checkv(); vpx_checkc();
#define B(t) vpx_begin(t);                                                                              // thread t (a new thread if one ended) starts using the storage
#define U ++n; if ((vp_nd_bool() && !ended[0]) || ended[1]) { if (!ended[0]) vpx_any(0, n); } else vpx_any(1, n); K          // some operation by some thread on some pointer
#define V(t) ++n; vpx_any(t, n); K
#define D(i, t) vp_set_thread(t); vpx_destroy(i); K
#define C(i, t) vp_set_thread(t); vpx_create(i); K
#define E(t) vp_set_thread(t); vpx_finish(t); K
extern "C" void vp_main() {
  MAKE(&P0.v, 0); MAKE(&P1.v, 1); inst[1] = 1; ended[0] = ended[1] = 1; int n = 0;
  SEQ
  vp_cover(NOCL || got[2] + got[2 + NOBJ] + got[2 + 2*NOBJ] + got[2 + 3*NOBJ] == 1, 50); vp_cover(true, 51);
}
