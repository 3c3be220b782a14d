// Auto-reset event: scenarios selected by SCEN. Implementation selected by the configuration macros / EVENT_EMULATION.
#include "vp.hpp"
#include "config.hpp"
#ifdef EVENT_EMULATION
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#else
#include <boost/sync/events/auto_reset_event.hpp>
#endif
#include "timedkind.hpp"
using namespace boost::sync;
static vp_cell<auto_reset_event> Ev;
static inline auto_reset_event& E() { return Ev.v; }
static vp_u32 got[4], tried[4];
static vp_u32 posted;
static inline void do_wait(int i) { E().wait(); got[i] = 1; }
static inline void do_try(int i) { bool r = E().try_wait(); tried[i] = 1; if (r) got[i] = 1; }
static inline void do_timed(int i) { bool r = vp_timed_wait(E()); tried[i] = 1; if (r) got[i] = 1; }
static inline void do_post() { posted++; E().post(); }
static vp_u32 total() { return got[0] + got[1] + got[2] + got[3]; }

// with nobody waiting any number of posts is remembered once: earlier waits leave no trace
static inline void aftermath() { E().post(); E().post(); bool a = E().try_wait(), b = E().try_wait(); vp_assert(a, 40); vp_assert(!b, 41); }
extern "C" void vp_init() { new (&Ev.v) auto_reset_event();
#if SCEN == 7
  E().post();
#endif
}

#if SCEN == 1      // two waiters, one post: exactly one is released
extern "C" void vp_thread_0() { do_wait(0); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_1() { do_wait(1); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(2), 2);
  vp_assert(total() == 1, 3);
  vp_assert(!E().try_wait(), 4);
  vp_cover(vp_is_done(0), 50); vp_cover(vp_is_done(1), 51);
}
#elif SCEN == 2    // both waiters blocked, then two posts: both are released, nothing is left over
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { vp_yield(); vp_assume(vp_is_asleep(0) && vp_is_asleep(1)); do_post(); do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 5);
  vp_assert(!E().try_wait(), 6);
  aftermath(); vp_cover(vp_is_done(0) && vp_is_done(1), 52);
}
#elif SCEN == 3    // one waiter, two concurrent posters
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_post(); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 7);
  bool r1 = E().try_wait(); bool r2 = E().try_wait();
  vp_assert(!r2, 8);
  aftermath(); vp_cover(r1, 53); vp_cover(!r1, 54);
}
#elif SCEN == 4    // one post, a timed waiter and a blocking waiter: the signal is neither lost nor duplicated
extern "C" void vp_thread_0() { do_timed(0); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_1() { do_wait(1); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(0) && vp_is_done(2), 9);
  vp_assert(total() == 1, 10);
  vp_assert(!E().try_wait(), 11);
  if (vp_is_done(1)) aftermath(); vp_cover(got[0], 55); vp_cover(got[1], 56); 
}
#elif SCEN == 5    // a timed waiter and a trying thread, one post: at most one gets it, otherwise it is still there
extern "C" void vp_thread_0() { do_timed(0); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_1() { do_try(1); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 12);
  vp_u32 n = total();
  bool r = E().try_wait();
  vp_assert(n + r == 1, 13);
  vp_assert(!E().try_wait(), 14);
  aftermath(); vp_cover(got[0], 57); vp_cover(got[1], 58); vp_cover(n == 0, 59);
}
#elif SCEN == 6    // two posts with a timed waiter: never more than one signal left, never fewer than one success in all
extern "C" void vp_thread_0() { do_timed(0); }
extern "C" void vp_thread_1() { do_post(); do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(0) && vp_is_done(1), 15);
  bool r = E().try_wait();
  vp_assert(got[0] || r, 16);
  vp_assert(!E().try_wait(), 17);
  aftermath(); vp_cover(got[0] && r, 60); vp_cover(got[0] && !r, 61); vp_cover(!got[0], 62);
}
#elif SCEN == 7    // signalled at the start; two trying threads and a post
extern "C" void vp_thread_0() { do_try(0); }
extern "C" void vp_thread_1() { do_try(1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 18);
  vp_u32 n = total();
  bool r = E().try_wait();
  vp_assert(n + r >= 1 && n + r <= 2, 19);
  vp_assert(!E().try_wait(), 20);
  aftermath(); vp_cover(n == 2, 63); vp_cover(n == 1 && !r, 64); vp_cover(n == 1 && r, 65);
}
#elif SCEN == 8    // two timed waiters and one post
extern "C" void vp_thread_0() { do_timed(0); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_1() { do_timed(1); vp_assert(total() <= posted, 1); }
extern "C" void vp_thread_2() { do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 12);
  vp_u32 n = total();
  bool r = E().try_wait();
  vp_assert(n + r == 1, 13);
  vp_assert(!E().try_wait(), 14);
  aftermath(); vp_cover(got[0], 57); vp_cover(got[1], 58); vp_cover(n == 0, 59);
}
#elif SCEN == 9    // after a timed-out wait the event behaves as if it had never been made: one post releases the blocked waiter, the next stays
extern "C" void vp_thread_0() { do_timed(0); }
extern "C" void vp_thread_1() { vp_yield(); vp_assume(vp_is_done(0) && !got[0]); do_wait(1); }
extern "C" void vp_thread_2() { vp_yield(); vp_assume(vp_is_done(0) && !got[0]); do_post(); do_post(); }
extern "C" void vp_quiesce() {
  bool r = E().try_wait(), r2 = E().try_wait();
  vp_assert(vp_is_done(1), 21);
  vp_assert(!r2, 22);
  if (vp_is_done(1)) aftermath(); vp_cover(r, 66); vp_cover(!r, 67);
}
#elif SCEN == 10   // a post that finds the event signalled adds nothing; a wait that comes later gets exactly one
extern "C" void vp_thread_0() { do_post(); do_post(); do_post(); vp_yield(); bool a = E().try_wait(), b = E().try_wait(); vp_assert(a && !b, 23); E().post(); }
extern "C" void vp_thread_1() { vp_yield(); vp_assume(vp_is_done(0)); do_wait(1); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 24); vp_assert(!E().try_wait(), 25); aftermath(); vp_cover(true, 68); }
#elif SCEN == 11   // a waiter that was released waits again: the second post pays for the second wait
extern "C" void vp_thread_0() { do_wait(0); do_wait(1); vp_assert(posted == 2, 26); }
extern "C" void vp_thread_1() { do_post(); vp_yield(); vp_assume(got[0]); do_post(); }
extern "C" void vp_quiesce() { vp_assert(!vp_is_done(1) || vp_is_done(0), 27); vp_assert(!E().try_wait(), 28); if (vp_is_done(0)) aftermath(); vp_cover(vp_is_done(0), 69); }
#elif SCEN == 12   // a blocked waiter is preferred: whoever tries concurrently, the event never stays signalled with a thread blocked on it
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_try(1); }
extern "C" void vp_thread_2() { do_post(); do_post(); }
extern "C" void vp_quiesce() {
  vp_assert(vp_is_done(1) && vp_is_done(2), 29);
  bool r = E().try_wait();
  vp_assert(vp_is_done(0) || !r, 30);
  vp_assert(vp_is_done(0) || got[1], 31);
  vp_assert(total() + r >= 1 && total() + r <= 2, 32);
  vp_assert(!E().try_wait(), 33);
  if (vp_is_done(0)) aftermath(); vp_cover(vp_is_done(0) && got[1], 70); vp_cover(vp_is_done(0) && r, 71);
}
#endif
