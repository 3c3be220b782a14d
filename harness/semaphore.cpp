// Semaphore.
#include "vp.hpp"
#include "config.hpp"
#ifdef SEM_EMULATION
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#endif
#include <boost/sync/exceptions/overflow_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include "timedkind.hpp"
using namespace boost::sync;
static vp_cell<semaphore> Sm;
static inline semaphore& S() { return Sm.v; }
static vp_u32 init_n, posted, got[4];
static inline vp_u32 total() { return got[0] + got[1] + got[2] + got[3]; }
static inline void took(int i) { got[i]++; vp_assert(total() <= init_n + posted, 1); }
static inline void do_wait(int i) { S().wait(); took(i); }
static inline bool do_try(int i) { bool r = S().try_wait(); if (r) took(i); return r; }
static inline bool do_timed(int i) { bool r = vp_timed_wait(S()); if (r) took(i); return r; }
static inline void do_post() { posted++; S().post(); }
static inline vp_u32 drain() { vp_u32 n = 0; if (S().try_wait()) { n++; if (S().try_wait()) { n++; if (S().try_wait()) { n++; if (S().try_wait()) n++; } } } return n; }
#ifndef SEQ
extern "C" void vp_init() { 
#ifdef FIXED
  init_n = INIT;
#else
  init_n = vp_nd_lt(INIT + 1);
#endif
  new (&Sm.v) semaphore(init_n); }
#endif
#define ALL3 (vp_is_done(0) && vp_is_done(1) && vp_is_done(2))
#if SCEN == 1       // two waiters, one post, any initial count
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() { vp_u32 left = drain(); vp_assert(vp_is_done(2), 2); vp_assert(total() + left == init_n + 1, 3); vp_assert(left == 0 || (vp_is_done(0) && vp_is_done(1)), 4);
  vp_cover(left == 1, 50); vp_cover(left == 0 && vp_is_done(0) && vp_is_done(1), 51); vp_cover(!vp_is_done(0), 52); }
#elif SCEN == 2     // waiter, attempt, two posts
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_try(1); }
extern "C" void vp_thread_2() { do_post(); do_post(); }
extern "C" void vp_quiesce() { vp_u32 left = drain(); vp_assert(ALL3, 2); vp_assert(total() + left == init_n + 2, 3); vp_cover(left == 2, 50); vp_cover(got[1], 51); vp_cover(!got[1], 52); }
#elif SCEN == 3     // a timed waiter and a waiter
extern "C" void vp_thread_0() { do_timed(0); }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() { vp_u32 left = drain(); vp_assert(vp_is_done(0) && vp_is_done(2), 2); vp_assert(total() + left == init_n + 1, 3); vp_assert(left == 0 || vp_is_done(1), 4); vp_cover(got[0], 50); vp_cover(!got[0], 51); vp_cover(!vp_is_done(1), 52); }
#elif SCEN == 4     // enough units: attempts and timed waits all succeed
extern "C" void vp_thread_0() { bool r = do_try(0); vp_assert(r, 5); }
extern "C" void vp_thread_1() { bool r = do_timed(1); vp_assert(r, 6); }
extern "C" void vp_thread_2() { do_wait(2); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 2); vp_assert(drain() == 0, 3); vp_cover(true, 50); }
#elif SCEN == 5     // two timed waiters, one post
extern "C" void vp_thread_0() { do_timed(0); }
extern "C" void vp_thread_1() { do_timed(1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() { vp_u32 left = drain(); vp_assert(ALL3, 2); vp_assert(total() + left == init_n + 1, 3); vp_cover(left == 1 && init_n == 0, 50); vp_cover(got[0] && got[1], 51); }
#elif SCEN == 6     // a unit that is there before the attempt starts and that nobody else takes
extern "C" void vp_thread_0() { vp_yield(); vp_u32 p = posted; bool d = vp_is_done(2); bool r = do_try(0); vp_assert(r || !(init_n + (d ? p : 0) >= 1), 7); vp_cover(!r, 50); vp_cover(r, 51); }
extern "C" void vp_thread_1() { vp_yield(); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 2); vp_assert(total() + drain() == init_n + 1, 3); }
#elif SCEN == 7     // two waiters, two posts: nobody stays blocked
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { do_post(); do_post(); }
extern "C" void vp_quiesce() { vp_u32 left = drain(); vp_assert(ALL3, 2); vp_assert(total() + left == init_n + 2, 3); vp_cover(left == 0, 50); }
#elif SCEN == 8     // a waiter and a timed waiter, two posts
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_timed(1); }
extern "C" void vp_thread_2() { do_post(); do_post(); }
extern "C" void vp_quiesce() { vp_u32 left = drain(); vp_assert(ALL3, 2); vp_assert(total() + left == init_n + 2, 3); vp_cover(left == 0 && !init_n, 50); vp_cover(left == 1, 51); }
#elif SCEN == 10    // sequential: every count is usable, the largest cannot be exceeded
extern "C" void vp_init() {}
extern "C" void vp_main() {
  vp_u32 v = vp_nd_u32(); bool thrown = false;
  try { new (&Sm.v) semaphore(v); } catch (resource_error&) { thrown = true; }
#ifdef SEM_EMULATION
  vp_assert(!thrown, 10); const vp_u32 maxv = 0xffffffffu;
#else
  const vp_u32 maxv = 0x7fffffffu; vp_assert(thrown == (v > maxv), 10);
#endif
  if (thrown) return;
  bool over = false, other = false;
  try { S().post(); } catch (overflow_error&) { over = true; } catch (...) { other = true; }
  vp_assert(!other && over == (v == maxv), 11);
  vp_u32 n = v == maxv ? v : v + 1;
  bool a = S().try_wait(); vp_assert(a, 12);
  bool b = S().try_wait(); vp_assert(b == (n >= 2), 13);
  if (b) { bool c = S().try_wait(); vp_assert(c == (n >= 3), 14); if (c && n > 3) { S().wait(); bool e = vp_timed_wait(S()); vp_assert(e == (n >= 5), 15); } }
  vp_cover(over, 50); vp_cover(!over && b, 51);
}
#endif
