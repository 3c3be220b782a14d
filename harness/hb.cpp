// Visibility: accesses to client data are markers; a conflicting access must happen after the ones already made.
#include "vp.hpp"
#include "config.hpp"
#include <time.h>
#define OBJ_MUTEX (PRIM >= 1 && PRIM <= 4)
#if PRIM == 1
#include <boost/sync/mutexes/mutex.hpp>
typedef boost::sync::mutex obj;
#elif PRIM == 2
#ifdef NO_TIMEDLOCK
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <boost/sync/mutexes/timed_mutex.hpp>
typedef boost::sync::timed_mutex obj;
#elif PRIM == 3
#include <boost/sync/mutexes/spin_mutex.hpp>
typedef boost::sync::spin_mutex obj;
#elif PRIM == 4
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
typedef boost::sync::shared_spin_mutex obj;
#elif PRIM == 5
#ifdef EVENT_EMULATION
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#else
#include <boost/sync/events/auto_reset_event.hpp>
#endif
typedef boost::sync::auto_reset_event obj;
#elif PRIM == 6
#ifdef EVENT_EMULATION
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/events/manual_reset_event.hpp>
#endif
typedef boost::sync::manual_reset_event obj;
#elif PRIM == 7
#ifdef SEM_EMULATION
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#endif
typedef boost::sync::semaphore obj;
#endif
#include "timedkind.hpp"
static vp_cell<obj> Ob;
static inline obj& O() { return Ob.v; }
#define BITS(...) (vp_u64(__VA_ARGS__))
#if PRIM == 7
extern "C" void vp_init() { new (&Ob.v) obj(0); }
#else
extern "C" void vp_init() { new (&Ob.v) obj(); }
#endif
#define ALL3 (vp_is_done(0) && vp_is_done(1) && vp_is_done(2))
#if PRIM <= 4
// accesses 0..7 write the protected data: they conflict with each other and with the reads 8..15
static inline void wr(int i) { vp_access(i, 0xffff, 1); vp_yield(); }
static inline void rd(int i) { vp_access(8 + i, 0xff, 2); vp_yield(); }
static inline void do_lock(int i) { O().lock(); wr(i); O().unlock(); }
static inline bool do_try(int i) { bool r = O().try_lock(); if (r) { wr(i); O().unlock(); } return r; }
#if PRIM == 2
static inline bool do_timed(int i) { bool r = O().timed_lock(vp_abs10()); if (r) { wr(i); O().unlock(); } return r; }
static inline bool do_for(int i) { bool r = O().try_lock_for(std::chrono::seconds(10)); if (r) { wr(i); O().unlock(); } return r; }
static inline bool do_until(int i) { bool r = O().try_lock_until(std::chrono::steady_clock::time_point(std::chrono::seconds(5010))); if (r) { wr(i); O().unlock(); } return r; }
#endif
#if PRIM == 4
static inline void do_shared(int i) { O().lock_shared(); rd(i); O().unlock_shared(); }
static inline bool do_try_shared(int i) { bool r = O().try_lock_shared(); if (r) { rd(i); O().unlock_shared(); } return r; }
#endif
#if SCEN == 1
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { do_lock(1); }
extern "C" void vp_thread_2() { bool r = do_try(2); vp_cover(r, 50); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 9); O().lock(); vp_access(7, 0xffff, 3); vp_cover(true, 51); }
#elif SCEN == 2
extern "C" void vp_thread_0() { do_lock(0); do_try(3); }
extern "C" void vp_thread_1() { do_try(1); do_lock(2); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 9); bool r = O().try_lock(); vp_assert(r, 10); vp_access(7, 0xffff, 3); vp_cover(vp_executed(3), 50); vp_cover(vp_executed(1), 51); }
#elif SCEN == 3   // timed
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { bool r = do_timed(1); vp_cover(r, 50); vp_cover(!r, 51); }
extern "C" void vp_thread_2() { bool r = do_for(2); vp_cover(r, 52); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 9); bool r = O().try_lock(); vp_assert(r, 10); vp_access(7, 0xffff, 3); }
#elif SCEN == 4
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { bool r = do_until(1); vp_cover(r, 50); vp_cover(!r, 51); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 9); bool r = O().try_lock(); vp_assert(r, 10); vp_access(7, 0xffff, 3); }
#elif SCEN == 5   // readers and a writer
extern "C" void vp_thread_0() { do_shared(0); }
extern "C" void vp_thread_1() { do_lock(1); }
extern "C" void vp_thread_2() { bool r = do_try_shared(2); vp_cover(r && vp_executed(1), 50); vp_cover(r && !vp_executed(1), 51); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 9); bool r = O().try_lock(); vp_assert(r, 10); vp_access(7, 0xffff, 3); vp_cover(true, 52); }
#elif SCEN == 6   // two readers that overlap, then a writer that tries
extern "C" void vp_thread_0() { do_shared(0); }
extern "C" void vp_thread_1() { do_shared(1); }
extern "C" void vp_thread_2() { bool r = do_try(2); vp_cover(r && vp_executed(8) && vp_executed(9), 50); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 9); O().lock(); vp_access(7, 0xffff, 3); O().unlock(); O().lock_shared(); rd(7); O().unlock_shared(); }
#elif SCEN == 7   // writer, then readers see it; a second write comes after both
extern "C" void vp_thread_0() { do_lock(0); do_shared(0); }
extern "C" void vp_thread_1() { do_try_shared(1); do_lock(1); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 9); bool r = O().try_lock_shared(); vp_assert(r, 10); rd(7); vp_cover(vp_executed(9), 50); }
#endif
#else
// signals: marker i is written before post i; what a completed wait must know is asserted after it
static vp_u32 done[4];
#if PRIM == 6
static inline void post(int i) { vp_access(i, 0, 1); O().set(); vp_yield(); done[i] = 1; }
#else
static inline void post(int i) { vp_access(i, 0, 1); O().post(); vp_yield(); done[i] = 1; }
#endif
static inline bool w(int how) {
#if HOW == 0
  O().wait(); return true;
#elif HOW == 1
  return O().try_wait();
#else
  return vp_timed_wait(O());
#endif
}
#if SCEN == 1     // one poster, two waiters: whoever is released sees what was written before the post
extern "C" void vp_thread_0() { if (w(0)) { vp_assert(vp_knows(0), 2); vp_cover(true, 50); } }
extern "C" void vp_thread_1() { if (w(0)) { vp_assert(vp_knows(0), 2); vp_cover(true, 51); } }
extern "C" void vp_thread_2() { post(0); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(2), 9); }
#elif SCEN == 2   // two posters: a wait that starts after posts have returned, with none in between, sees all of them
extern "C" void vp_thread_0() { post(0); }
extern "C" void vp_thread_1() { post(1); }
extern "C" void vp_thread_2() { vp_yield(); bool d0 = done[0], d1 = done[1];
  if (w(0)) {
#if PRIM == 7
  vp_assert(vp_knows(0) || vp_knows(1), 4);
#else
  vp_assert(!d0 || vp_knows(0), 3); vp_assert(!d1 || vp_knows(1), 3); vp_assert(vp_knows(0) || vp_knows(1), 4);
#endif
  vp_cover(d0 && d1, 50); vp_cover(!d0, 51); } }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 9); }
#elif SCEN == 3   // a chain: what was written before the first post is visible after the second wait
extern "C" void vp_thread_0() { post(0); }
extern "C" void vp_thread_1() { O().wait(); vp_assert(vp_knows(0), 5); vp_access(1, 0, 1);
#if PRIM == 6
  O().set();
#else
  O().post();
#endif
}
extern "C" void vp_thread_2() { if (w(0)) { vp_assert(vp_knows(0), 6); vp_cover(vp_knows(1), 50); } }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0), 9); }
#elif SCEN == 4   // manual-reset: a reset in between does not hide an earlier writer from a wait that a later set releases
extern "C" void vp_thread_0() { post(0); vp_yield(); O().reset(); post(1); }
extern "C" void vp_thread_1() { vp_yield(); bool d1 = done[1]; if (w(0)) { vp_assert(vp_knows(0), 2); vp_assert(!d1 || vp_knows(1), 3); vp_cover(!vp_knows(1), 50); vp_cover(d1, 51); } }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0), 9); }
#elif SCEN == 5   // one thread posts several times: a wait sees everything up to the last post that returned before it started
extern "C" void vp_thread_0() { post(0); post(1); post(2); }
extern "C" void vp_thread_1() { vp_yield(); bool d1 = done[1], d2 = done[2]; if (w(0)) { vp_assert(vp_knows(0), 2);
#if PRIM != 7
  vp_assert(!d1 || vp_knows(1), 3); vp_assert(!d2 || vp_knows(2), 3);
#endif
  vp_cover(d2, 50); vp_cover(!d2 && d1, 51); } }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0), 9); }
#endif
#endif
