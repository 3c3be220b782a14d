// Mutual exclusion. KIND: 1 mutex, 2 timed_mutex, 3 spin_mutex, 4 shared_spin_mutex (exclusive). SCEN selects the scenario.
#include "vp.hpp"
#include "config.hpp"
#include <time.h>
#if KIND == 1
#include <boost/sync/mutexes/mutex.hpp>
typedef boost::sync::mutex mtx;
#elif KIND == 2
#ifdef NO_TIMEDLOCK
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <boost/sync/mutexes/timed_mutex.hpp>
typedef boost::sync::timed_mutex mtx;
#elif KIND == 3
#include <boost/sync/mutexes/spin_mutex.hpp>
typedef boost::sync::spin_mutex mtx;
#else
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
typedef boost::sync::shared_spin_mutex mtx;
#endif
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/std_chrono.hpp>
static vp_cell<mtx> Mx;
static inline mtx& M() { return Mx.v; }
static vp_u32 owner, epoch, active, got[4];
static inline timespec deadline() { timespec ts; ts.tv_sec = 1500000010; ts.tv_nsec = 0; return ts; }
static inline void enter(int i) { vp_assert(owner == 0, 1); owner = i + 1; got[i]++; }
static inline void cs(int i) { enter(i); vp_yield(); vp_assert(owner == vp_u32(i + 1), 1); owner = 0; }
static inline void do_lock(int i) { M().lock(); cs(i); M().unlock(); }
static inline bool do_try(int i) { bool r = M().try_lock(); if (r) { cs(i); M().unlock(); } return r; }
#if KIND == 2
static inline bool do_timed(int i) { bool r = M().timed_lock(deadline()); if (r) { cs(i); M().unlock(); } return r; }
static inline bool do_for(int i) { bool r = M().try_lock_for(std::chrono::seconds(10)); if (r) { cs(i); M().unlock(); } return r; }
static inline bool do_until(int i) { bool r = M().try_lock_until(std::chrono::steady_clock::time_point(std::chrono::seconds(5010))); if (r) { cs(i); M().unlock(); } return r; }
#endif
// an attempt on a mutex that nobody holds or contends for during the call succeeds
static inline void begin() { vp_yield(); ++active; ++epoch; }
static inline void end() { vp_yield(); --active; }
static inline bool fair_try(int i) {
  vp_yield(); vp_u32 a = active, e = epoch;
  bool r = M().try_lock();
  vp_assert(r || a != 0 || epoch != e, 2);
  if (r) { cs(i); M().unlock(); }
  return r;
}
static inline void free_at_end() { bool r = M().try_lock(); vp_assert(r, 4); if (r) M().unlock(); }
extern "C" void vp_init() { new (&Mx.v) mtx(); }

#if SCEN == 1       // three blocking owners
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { do_lock(1); }
extern "C" void vp_thread_2() { do_lock(2); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 3); free_at_end(); vp_cover(true, 50); }
#elif SCEN == 2     // an owner, an attempt and a second owner
extern "C" void vp_thread_0() { begin(); do_lock(0); end(); }
extern "C" void vp_thread_1() { bool r = fair_try(1); vp_cover(r, 51); vp_cover(!r, 52); }
extern "C" void vp_thread_2() { begin(); do_lock(2); end(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 3); free_at_end(); vp_cover(true, 50); }
#elif SCEN == 3     // repeated acquisition
extern "C" void vp_thread_0() { do_lock(0); do_lock(0); }
extern "C" void vp_thread_1() { do_lock(1); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 3); free_at_end(); vp_cover(true, 50); }
#elif SCEN == 4     // an attempt fails on a held mutex and leaves it held
extern "C" void vp_thread_0() { M().lock(); enter(0); vp_yield(); vp_yield(); owner = 0; M().unlock(); }
extern "C" void vp_thread_1() { bool r1 = do_try(1); bool r2 = do_try(1); vp_cover(!r1 && !r2, 53); vp_cover(!r1 && r2, 54); vp_cover(r1, 55); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 3); free_at_end(); }
#elif SCEN == 5     // timed attempts against owners
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { bool r = do_timed(1); vp_cover(r, 56); vp_cover(!r, 57); }
extern "C" void vp_thread_2() { do_lock(2); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 3); free_at_end(); vp_cover(true, 50); }
#elif SCEN == 6     // relative and other-clock timed attempts
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { bool r = do_for(1); vp_cover(r, 56); vp_cover(!r, 57); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 3); free_at_end(); vp_cover(true, 50); }
#elif SCEN == 7
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { bool r = do_until(1); vp_cover(r, 56); vp_cover(!r, 57); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 3); free_at_end(); vp_cover(true, 50); }
#elif SCEN == 8     // two attempts racing for a free mutex with a third that locks
extern "C" void vp_thread_0() { begin(); do_try(0); end(); }
extern "C" void vp_thread_1() { fair_try(1); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 3); vp_assert(got[0] + got[1] >= 1, 5); free_at_end(); vp_cover(got[0] && got[1], 50); vp_cover(got[0] && !got[1], 58); }
#elif SCEN == 9     // two timed attempts and an owner: a timeout leaves the queue in order
extern "C" void vp_thread_0() { do_lock(0); }
extern "C" void vp_thread_1() { bool r = do_timed(1); vp_cover(!r, 57); }
extern "C" void vp_thread_2() { bool r = do_timed(2); vp_cover(!r, 59); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1) && vp_is_done(2), 3); free_at_end(); vp_cover(got[1] && got[2], 50); }
#elif SCEN == 10     // two owners compete with a timed attempt: the owners are never stranded by it
extern "C" void vp_thread_0() { do_lock(0); do_lock(0); }
extern "C" void vp_thread_1() { do_timed(1); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 3); free_at_end(); vp_cover(got[1] != 0, 50); vp_cover(got[1] == 0, 51); }
#endif
