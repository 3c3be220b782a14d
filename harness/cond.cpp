// Condition variables under every interleaving. KIND: 1 condition_variable+mutex, 2 condition_variable+timed_mutex, 3 condition_variable_any+mutex, 4 condition_variable_any+spin_mutex
#include "vp.hpp"
#include "config.hpp"
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <time.h>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/std_chrono.hpp>
using namespace boost::sync;
#if KIND == 1
typedef condition_variable cv; typedef boost::sync::mutex mtx;
#elif KIND == 2
typedef condition_variable cv; typedef boost::sync::timed_mutex mtx;
#elif KIND == 3
typedef condition_variable_any cv; typedef boost::sync::mutex mtx;
#else
typedef condition_variable_any cv; typedef boost::sync::spin_mutex mtx;
#endif
typedef unique_lock<mtx> lk;
static vp_cell<cv> Cv; static vp_cell<mtx> Mx;
static inline cv& C() { return Cv.v; } static inline mtx& M() { return Mx.v; }
static vp_u32 owner, ready, inwait[3], noted[3];
static inline void in(int i) { vp_assert(owner == 0, 1); owner = i + 1; }
static inline void out(int i) { vp_assert(owner == vp_u32(i + 1), 1); owner = 0; }
static inline timespec abs10() { timespec ts; ts.tv_sec = 1500000010; ts.tv_nsec = 0; return ts; }
#ifndef TW
#define TW 0
#endif
// untimed wait without predicate; the lock is given up while waiting and is held again afterwards
static inline void do_wait(lk& l, int i) { out(i); C().wait(l); vp_assert(l.owns_lock(), 2); in(i); }
static inline bool do_timed(lk& l, int i) { out(i); bool r;
#if TW == 0
  r = C().timed_wait(l, abs10());
#elif TW == 1
  r = C().wait_for(l, std::chrono::seconds(10)) == cv_status::no_timeout;
#elif TW == 2
  r = C().wait_until(l, std::chrono::steady_clock::time_point(std::chrono::seconds(5010))) == cv_status::no_timeout;
#endif
  vp_assert(l.owns_lock(), 2); in(i); return r; }
struct pred { int i; bool operator()() const { vp_assert(owner == 0 || owner == vp_u32(i + 1), 3); return ready != 0; } };
static inline void leave(lk& l, int i) { out(i); l.unlock(); }
extern "C" void vp_init() { new (&Cv.v) cv(); new (&Mx.v) mtx(); }
#define ALL3 (vp_is_done(0) && vp_is_done(1) && vp_is_done(2))
#if SCEN == 1      // predicate waits, notify_all
extern "C" void vp_thread_0() { lk l(M()); in(0); out(0); C().wait(l, pred{0}); vp_assert(l.owns_lock(), 2); in(0); vp_assert(ready, 4); leave(l, 0); }
extern "C" void vp_thread_1() { lk l(M()); in(1); out(1); C().wait(l, pred{1}); vp_assert(l.owns_lock(), 2); in(1); vp_assert(ready, 4); leave(l, 1); }
extern "C" void vp_thread_2() { { lk l(M()); in(2); vp_yield(); ready = 1; leave(l, 2); } C().notify_all(); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 5); vp_assert(M().try_lock(), 6); vp_cover(true, 50); }
#elif SCEN == 2    // both asleep, one notification releases one of them, a second the other
extern "C" void vp_thread_0() { lk l(M()); in(0); do_wait(l, 0); leave(l, 0); }
extern "C" void vp_thread_1() { lk l(M()); in(1); do_wait(l, 1); leave(l, 1); }
extern "C" void vp_thread_2() { vp_yield(); vp_assume(vp_is_asleep(0) && vp_is_asleep(1)); C().notify_one(); noted[0] = 1; C().notify_one(); noted[1] = 1; }
extern "C" void vp_quiesce() { vp_assert(!noted[1] || (vp_is_done(0) && vp_is_done(1)), 7); vp_assert(M().try_lock(), 6); vp_cover(ALL3, 50); }
#elif SCEN == 3    // a notification made after the waiter has released the lock is not lost (notifying without the lock)
extern "C" void vp_thread_0() { lk l(M()); in(0); inwait[0] = 1; do_wait(l, 0); leave(l, 0); }
extern "C" void vp_thread_1() { vp_u32 s; { lk l(M()); in(1); s = inwait[0]; leave(l, 1); } if (s) { C().notify_one(); noted[0] = 1; } }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(1), 5); vp_assert(!noted[0] || vp_is_done(0), 8); vp_cover(noted[0] != 0, 50); }
#elif SCEN == 4    // the same with notify_all under the lock and two waiters
extern "C" void vp_thread_0() { lk l(M()); in(0); inwait[0] = 1; do_wait(l, 0); leave(l, 0); }
extern "C" void vp_thread_1() { lk l(M()); in(1); inwait[1] = 1; do_wait(l, 1); leave(l, 1); }
extern "C" void vp_thread_2() { lk l(M()); in(2); noted[0] = inwait[0]; noted[1] = inwait[1]; C().notify_all(); leave(l, 2); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(2), 5); vp_assert(!noted[0] || vp_is_done(0), 8); vp_assert(!noted[1] || vp_is_done(1), 8); vp_cover(noted[0] && noted[1], 50); }
#elif SCEN == 5    // a timed and an untimed waiter, one notification: somebody gets it
extern "C" void vp_thread_0() { lk l(M()); in(0); inwait[0] = 1; bool r = do_timed(l, 0); if (r) noted[1] = 1; leave(l, 0); vp_cover(r, 51); vp_cover(!r, 52); }
extern "C" void vp_thread_1() { lk l(M()); in(1); inwait[1] = 1; do_wait(l, 1); leave(l, 1); }
extern "C" void vp_thread_2() { lk l(M()); in(2); if (inwait[0] && inwait[1]) { C().notify_one(); noted[0] = 1; } leave(l, 2); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(2), 5); vp_assert(!noted[0] || noted[1] || vp_is_done(1), 9); vp_cover(noted[0] && vp_is_done(1), 53); vp_cover(noted[0] && noted[1], 54); }
#elif SCEN == 6    // timed predicate wait: false only if the predicate is false, true only if it is true
extern "C" void vp_thread_0() { lk l(M()); in(0); out(0);
#if TW == 0
  bool r = C().timed_wait(l, abs10(), pred{0});
#elif TW == 1
  bool r = C().wait_for(l, std::chrono::seconds(10), pred{0});
#else
  bool r = C().wait_until(l, std::chrono::steady_clock::time_point(std::chrono::seconds(5010)), pred{0});
#endif
  vp_assert(l.owns_lock(), 2); in(0); vp_assert(r == (ready != 0), 10); leave(l, 0); vp_cover(r, 51); vp_cover(!r, 52); }
extern "C" void vp_thread_1() { { lk l(M()); in(1); ready = 1; leave(l, 1); } C().notify_one(); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 5); }
#elif SCEN == 7    // a waiter that was notified competes with others for the lock
extern "C" void vp_thread_0() { lk l(M()); in(0); inwait[0] = 1; do_wait(l, 0); vp_yield(); leave(l, 0); }
extern "C" void vp_thread_1() { lk l(M()); in(1); vp_yield(); leave(l, 1); }
extern "C" void vp_thread_2() { lk l(M()); in(2); noted[0] = inwait[0]; C().notify_one(); vp_yield(); leave(l, 2); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(1) && vp_is_done(2), 5); vp_assert(!noted[0] || vp_is_done(0), 8); vp_cover(noted[0] != 0, 50); }
#endif
