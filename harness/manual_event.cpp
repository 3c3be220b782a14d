// Manual-reset event.
#include "vp.hpp"
#include "config.hpp"
#ifdef EVENT_EMULATION
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/events/manual_reset_event.hpp>
#endif
#include "timedkind.hpp"
using namespace boost::sync;
static vp_cell<manual_reset_event> Ev;
static inline manual_reset_event& E() { return Ev.v; }
static vp_u32 started, completed, gone, fin[4];
static inline void do_set() { vp_yield(); ++started; E().set(); vp_yield(); ++completed; }
static inline void do_wait(int i) { E().wait(); vp_assert(started > 0, 1); fin[i] = 1; }
extern "C" void vp_init() { new (&Ev.v) manual_reset_event();
#if SCEN == 2 || SCEN == 9
  E().set(); E().set(); started = completed = 1;
#endif
}
#define SIGNALLED (E().try_wait())
#if SCEN == 1       // one set releases both waiters and stays
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { do_set(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 2); bool a = SIGNALLED, b = SIGNALLED; vp_assert(a && b, 3); vp_cover(true, 50); }
#elif SCEN == 2     // set at the start: every wait returns at once and none consumes the signal; resetting once undoes any number of sets
extern "C" void vp_thread_0() { do_wait(0); bool r = vp_timed_wait(E()); vp_assert(r, 4); }
extern "C" void vp_thread_1() { bool r = E().try_wait(); vp_assert(r, 5); }
extern "C" void vp_thread_2() { E().wait(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 2); vp_assert(SIGNALLED, 3); E().reset(); vp_assert(!SIGNALLED, 6); E().reset(); vp_assert(!SIGNALLED, 6); E().set(); vp_assert(SIGNALLED, 7); vp_cover(true, 50); }
#elif SCEN == 3     // set racing with reset: nobody is blocked while it is signalled
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_set(); }
extern "C" void vp_thread_2() { E().reset(); }
extern "C" void vp_quiesce() { bool s = SIGNALLED; vp_assert(vp_is_done(1) && vp_is_done(2), 2); vp_assert(vp_is_done(0) || !s, 8); vp_cover(s, 50); vp_cover(!s && vp_is_done(0), 51); vp_cover(!s && !vp_is_done(0), 52); }
#elif SCEN == 4     // set, reset, set: the waiter is released by the last set at the latest
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_set(); E().reset(); do_set(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 2); vp_assert(SIGNALLED, 3); vp_cover(true, 50); }
#elif SCEN == 5     // timed wait against a set: a wait that starts after the set succeeds, one that ends before it fails
extern "C" void vp_thread_0() { vp_yield(); bool c = completed; bool r = vp_timed_wait(E()); vp_assert(!c || r, 9); vp_assert(!r || started, 10); vp_cover(r, 53); vp_cover(!r, 54); vp_cover(!r && started, 55); }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { do_set(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 2); vp_assert(SIGNALLED, 3); }
#elif SCEN == 6     // no wait that starts after the reset completes
extern "C" void vp_thread_0() { do_set(); E().reset(); vp_yield(); gone = 1; }
extern "C" void vp_thread_1() { vp_yield(); bool g = gone; bool r = E().try_wait(); vp_assert(!(g && r), 11); vp_assert(!r || started, 12); vp_cover(r, 56); vp_cover(g, 57); }
extern "C" void vp_thread_2() { vp_yield(); bool g = gone; bool r = vp_timed_wait(E()); vp_assert(!(g && r), 11); vp_assert(!r || started, 12); vp_cover(r, 58); vp_cover(g && !r, 59); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 2); vp_assert(!SIGNALLED, 13); }
#elif SCEN == 7     // a timed-out waiter leaves no trace: the next waiter is released
extern "C" void vp_thread_0() { bool r = vp_timed_wait(E()); vp_cover(!r, 54); do_wait(0); }
extern "C" void vp_thread_1() { do_set(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 2); vp_assert(SIGNALLED, 3); vp_cover(true, 50); E().reset(); vp_assert(!SIGNALLED, 6); }
#elif SCEN == 8     // two setters
extern "C" void vp_thread_0() { do_wait(0); }
extern "C" void vp_thread_1() { do_set(); }
extern "C" void vp_thread_2() { do_set(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 2); vp_assert(SIGNALLED, 3); E().reset(); vp_assert(!SIGNALLED, 6); vp_cover(true, 50); }
#elif SCEN == 9     // reset while set, two waiters
extern "C" void vp_thread_0() { vp_yield(); bool g = gone; bool r = E().try_wait(); vp_assert(!(g && r), 11); vp_cover(g, 57); vp_cover(r, 56); }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { E().reset(); vp_yield(); gone = 1; }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(2), 2); vp_assert(!SIGNALLED, 13); vp_cover(vp_is_done(1), 50); vp_cover(!vp_is_done(1), 51); }
#elif SCEN == 10    // both waiters asleep, then set and a later reset by a released waiter: the other one is blocked only if reset came
extern "C" void vp_thread_0() { do_wait(0); E().reset(); vp_yield(); gone = 1; }
extern "C" void vp_thread_1() { do_wait(1); }
extern "C" void vp_thread_2() { do_set(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(2), 2); vp_assert(!SIGNALLED, 13); vp_cover(vp_is_done(1), 50); vp_cover(!vp_is_done(1), 51); }
#endif
