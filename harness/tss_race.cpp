// Thread-specific storage: data races and memory errors among threads that use different pointers, end, create and destroy pointers.
// PROG: what the threads do one after another; PRE: what another thread does before the n-th lock operation inside the operation marked I(n).
#include "vp.hpp"
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <src/tss_pthread.cpp>
using namespace boost::sync;
#ifndef PRE
#define PRE
#endif
#define X extern "C"
struct item;
typedef thread_specific_ptr<item> TP;
static item* obj(unsigned long k) { return (item*)(k + 1); }
static vp_cell<TP> P[4]; static vp_u32 got[4][16], want[4][16]; static item* val[4][3]; static vp_u32 nv, inst[4], base, live, ran, reg, slack; static unsigned char gone[4];
template <int I> static void clean(item* p) { got[I][(unsigned long)p - 1]++; }
struct fn { fn() { ++live; } fn(fn const&) { ++live; } ~fn() { --live; } void operator()() const { ++ran; } };
static inline void drop(int i, int t) { if (val[i][t]) { want[inst[i]][(unsigned long)val[i][t] - 1]++; val[i][t] = 0; } }
X void vpx_set(int i, int t) { vp_set_thread(t); vp_user_acq(i); item* n = obj(nv++); P[i].v.reset(n); drop(i, t); val[i][t] = n; vp_assert(P[i].v.get() == n, 10); vp_user_rls(i); }
X void vpx_get(int i, int t) { vp_set_thread(t); vp_user_acq(i); vp_assert(P[i].v.get() == val[i][t], 11); vp_user_rls(i); }
X void vpx_reg(int t) { vp_set_thread(t); at_thread_exit(fn()); ++reg; }
X void vpx_del(int i, int t) { vp_set_thread(t); vp_user_acq(i); P[i].v.~TP(); for (int u = 0; u < 3; ++u) drop(i, u); gone[i] = 1; ++slack; vp_user_rls(i); }          // slack: the bookkeeping of keys may keep something for a key given back
X void vpx_new(int i, int n, int t) {
  vp_set_thread(t); vp_user_acq(i); inst[i] = n; gone[i] = 0;
  if (n == 0) new (&P[i].v) TP(&clean<0>); else if (n == 1) new (&P[i].v) TP(&clean<1>); else if (n == 2) new (&P[i].v) TP(&clean<2>); else new (&P[i].v) TP(&clean<3>);
  vp_user_rls(i);
}
X void vpx_end(int t) { vp_set_thread(t); vp_thread_exit(); for (int i = 0; i < 4; ++i) drop(i, t); }
#define S(i, t) vpx_set(i, t);
#define G(i, t) vpx_get(i, t);
#define R(t) vpx_reg(t);
#define D(i, t) vpx_del(i, t);
#define N(i, n, t) vpx_new(i, n, t);
#define E(t) vpx_end(t);
#define I(n) vp_preempt_at(n);
X void vpx_preempt() { PRE }
extern "C" void vp_init() {}
extern "C" void vp_main() {
  N(0, 0, 2) N(1, 1, 2) base = vp_heap_live();
  PROG
#ifdef HITS
  vp_cover(vp_preempt_left() == 0, 52);
#endif
#define CV(i, v) vp_assert(got[i][v] == want[i][v], 20);
#define CK(i) CV(i, 0) CV(i, 1) CV(i, 2) CV(i, 3) CV(i, 4) CV(i, 5) CV(i, 6) CV(i, 7)
  CK(0) CK(1) CK(2) CK(3)
  vp_assert(vp_heap_live() <= base + slack && live == 0 && ran == reg, 21);
  vp_cover(true, 50);
}
