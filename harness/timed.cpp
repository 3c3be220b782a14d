// Timed operations, virtual clock, sequential. PRIM selects the primitive, FORM the time type and overload.
#include "vp.hpp"
#include "config.hpp"
#if PRIM == 2
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/upgrade_lock.hpp>
#include <time.h>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/std_chrono.hpp>
#if FORM >= 10 && FORM < 20
#define BOOST_CHRONO_VERSION 2
#include <boost/chrono/duration.hpp>
#include <boost/chrono/time_point.hpp>
#include <boost/chrono/system_clocks.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#endif
#if FORM >= 20
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#endif
using namespace boost::sync;

// ---- the primitive: avail() says whether the operation can succeed at once, arrives() makes it possible
#if PRIM == 1 || PRIM == 2         // timed_mutex (2: emulated)
#include <boost/sync/mutexes/timed_mutex.hpp>
typedef timed_mutex prim; static vp_cell<prim> P;
static void make(bool a) { new (&P.v) prim(); if (!a) {
#if PRIM == 1
  vp_set_thread(1); P.v.lock(); vp_set_thread(0);
#else
  P.v.lock();
#endif
} }
#if PRIM == 2
static inline void release() { P.v.unlock(); }
#endif
template <class T> static bool op_timed(T const& t) { return P.v.timed_lock(t); }
template <class T> static bool op_for(T const& t) { return P.v.try_lock_for(t); }
template <class T> static bool op_until(T const& t) { return P.v.try_lock_until(t); }
#elif PRIM == 3 || PRIM == 4       // semaphore (4: emulated)
#if PRIM == 4
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#endif
typedef semaphore prim; static vp_cell<prim> P;
static void make(bool a) { new (&P.v) prim(a ? 1 : 0); }
static inline void release() { P.v.post(); }
#elif PRIM == 5 || PRIM == 6       // auto_reset_event
#if PRIM == 6
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#else
#include <boost/sync/events/auto_reset_event.hpp>
#endif
typedef auto_reset_event prim; static vp_cell<prim> P;
static void make(bool a) { new (&P.v) prim(); if (a) P.v.post(); }
static inline void release() { P.v.post(); }
#elif PRIM == 7 || PRIM == 8       // manual_reset_event
#if PRIM == 8
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/events/manual_reset_event.hpp>
#endif
typedef manual_reset_event prim; static vp_cell<prim> P;
static void make(bool a) { new (&P.v) prim(); if (a) P.v.set(); }
static inline void release() { P.v.set(); }
#elif PRIM == 9 || PRIM == 10 || PRIM == 11 || PRIM == 12      // condition variables: 9 condition_variable, 10 condition_variable_any, with predicate; 11, 12 without
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#if PRIM == 9 || PRIM == 11
typedef condition_variable prim;
#else
typedef condition_variable_any prim;
#endif
static vp_cell<prim> P; static vp_cell<boost::sync::mutex> Mx; static vp_u32 ready;
struct pred { bool operator()() const { vp_assert(vp_mutex_owner(Mx.v.native_handle()) == 1, 11); return ready != 0; } };
static void make(bool a) { new (&P.v) prim(); new (&Mx.v) boost::sync::mutex(); ready = a; }
static inline void release() { ready = 1; }
typedef unique_lock<boost::sync::mutex> lk;
#define CVOP(name, E) template <class T> static bool name(T const& t) { lk l(Mx.v); bool r = E; vp_assert(l.owns_lock() && vp_mutex_owner(Mx.v.native_handle()) == 1, 12); if (r) PR; return r; }
#if PRIM == 9 || PRIM == 10
#define PR vp_assert(ready != 0, 13)
CVOP(op_timed, P.v.timed_wait(l, t, pred())) CVOP(op_for, P.v.wait_for(l, t, pred())) CVOP(op_until, P.v.wait_until(l, t, pred()))
#else
#define PR (void)0
CVOP(op_timed, P.v.timed_wait(l, t)) CVOP(op_for, P.v.wait_for(l, t) == cv_status::no_timeout) CVOP(op_until, P.v.wait_until(l, t) == cv_status::no_timeout)
#endif
#elif PRIM >= 13 && PRIM <= 15     // lock objects over a mutex that records the deadline it is given
#include <boost/sync/mutexes/timed_mutex.hpp>
typedef timed_mutex prim; static vp_cell<prim> P;
static void make(bool a) { new (&P.v) prim(); if (!a) { vp_set_thread(1); P.v.lock(); vp_set_thread(0); } }
#if PRIM == 13
template <class T> static bool op_timed(T const& t) { unique_lock<prim> l(P.v, t); bool r = l.owns_lock(); l.release(); return r; }
template <class T> static bool op_for(T const& t) { unique_lock<prim> l(P.v, defer_lock); bool r = l.try_lock_for(t); l.release(); return r; }
template <class T> static bool op_until(T const& t) { unique_lock<prim> l(P.v, defer_lock); bool r = l.try_lock_until(t); l.release(); return r; }
#else
template <class T> static bool op_timed(T const& t) { unique_lock<prim> l(P.v, defer_lock); bool r = l.timed_lock(t); l.release(); return r; }
template <class T> static bool op_for(T const& t) { unique_lock<prim> l(P.v, defer_lock); bool r = l.timed_lock(t); l.release(); return r; }
template <class T> static bool op_until(T const& t) { unique_lock<prim> l(P.v, t); bool r = l.owns_lock(); l.release(); return r; }
#endif
#endif
#if PRIM >= 3 && PRIM <= 8
template <class T> static bool op_timed(T const& t) { return P.v.timed_wait(t); }
template <class T> static bool op_for(T const& t) { return P.v.wait_for(t); }
template <class T> static bool op_until(T const& t) { return P.v.wait_until(t); }
#endif
#if PRIM == 1 || PRIM == 3 || PRIM >= 13
#define RELEASED 0
#else
static vp_u32 released;
#ifndef HOOKED
#define HOOKED 1
#endif
#define RELEASED released
extern "C" void vp_cond_hook() { if (HOOKED && !released && vp_nd_bool()) { released = 1; release(); } }
extern "C" void vp_futex_hook(void*) { if (HOOKED && !released && vp_nd_bool()) { released = 1; release(); } }
#endif
#ifndef DMIN
#define DMIN -2
#endif
#ifndef DMAX
#define DMAX 3
#endif
extern "C" void vp_init() {}
template <bool a> static inline __attribute__((always_inline)) void run() {
  
#ifdef CROSS
  vp_clk_start(700000000, 400000000);
#else
  vp_u32 rn = vp_nd_nsec(), mn = vp_nd_nsec(); vp_clk_start(rn, mn);
#endif
  make(a);
  // the requested point: sec + nsec relative to the current time, in steps of UNIT
  int sec = int(vp_nd_lt(DMAX - DMIN + 1)) + DMIN; vp_u32 ns;
#if FORM == 1 || FORM == 2 || FORM == 11 || FORM == 4 || FORM == 14 || FORM == 0 || FORM == 3 || FORM == 13 || FORM == 6 || FORM == 5
  ns = vp_nd_nsec(); long long d = sec * 1000000000LL + ns;
#elif FORM == 8 || FORM == 12
  vp_u32 sub = vp_nd_lt(1000); ns = sub*1000000u; long long d = sec * 1000LL + sub;
#elif FORM >= 20
  vp_u32 sub = vp_nd_lt(1000); if (vp_nd_bool()) sub += 999000u; ns = sub*1000u; long long d = sec * 1000000LL + sub;
#elif FORM == 7
  ns = 0; long long d = sec;
#endif
  vp_deadline_rel((vp_u64)(long long)sec, ns);
  bool none = sec < 0 || (sec == 0 && ns == 0);
  if (none) vp_never_block(true);
  bool r;
#if FORM == 0
  { timespec t; t.tv_sec = vp_clk_sec(0) + sec; t.tv_nsec = vp_clk_nsec(0) + ns; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; } r = op_timed(t); }
#elif FORM == 6
  { timespec t; t.tv_sec = vp_clk_sec(0) + sec; t.tv_nsec = vp_clk_nsec(0) + ns; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; } r = op_until(t); }
#elif FORM == 1
  r = op_for(std::chrono::nanoseconds(d));
#elif FORM == 2
  r = op_timed(std::chrono::nanoseconds(d));
#elif FORM == 8
  r = op_timed(std::chrono::milliseconds(d));
#elif FORM == 7
  r = op_for(std::chrono::seconds(d));
#elif FORM == 3
  r = op_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(d));
#elif FORM == 4
  r = op_until(std::chrono::steady_clock::now() + std::chrono::nanoseconds(d));
#elif FORM == 5
  r = op_timed(std::chrono::steady_clock::now() + std::chrono::nanoseconds(d));
#elif FORM == 11
  r = op_for(boost::chrono::nanoseconds(d));
#elif FORM == 12
  r = op_timed(boost::chrono::milliseconds(d));
#elif FORM == 13
  r = op_until(boost::chrono::time_point<boost::chrono::system_clock, boost::chrono::nanoseconds>(boost::chrono::nanoseconds((long long)(vp_clk_sec(0)*1000000000LL + vp_clk_nsec(0)) + d)));
#elif FORM == 14
  r = op_until(boost::chrono::time_point<boost::chrono::steady_clock, boost::chrono::nanoseconds>(boost::chrono::nanoseconds((long long)(vp_clk_sec(1)*1000000000LL + vp_clk_nsec(1)) + d)));
#elif FORM == 20
  r = op_timed(boost::posix_time::microseconds(d));
#elif FORM == 21
  vp_assume(vp_clk_nsec(0) % 1000 == 0);
  { boost::posix_time::ptime e(boost::gregorian::date(1970, 1, 1)); r = op_timed(e + boost::posix_time::microseconds((long long)(vp_clk_sec(0)*1000000LL + vp_clk_nsec(0)/1000) + d)); }
#endif
#if PRIM == 11 || PRIM == 12
  (void)a;
  vp_assert(r || vp_deadline_passed(), 1);           // no early timeout
  if (none) vp_assert(!r, 4);
#else
  if (a) { vp_assert(r, 2); vp_assert(vp_blocked_calls() == 0, 3); }
  else {
    vp_assert(r || vp_deadline_passed(), 1);
    if (none && !RELEASED) vp_assert(!r, 4);
  }
  vp_cover(a, 50);
#endif
  vp_cover(!a && !r && !none && vp_blocked_calls() > 0, 51); 
#if !defined(HOOKED) || HOOKED
  vp_cover(!a && r, 52);
#endif
  vp_cover(!a && none, 53);
#if PRIM == 1 || PRIM == 2 || PRIM >= 13 || ((PRIM == 11 || PRIM == 12) && !defined(CROSS))
#else
  vp_cover(vp_blocked_calls() == 2 && !r, 54);
#endif
}
extern "C" void vp_main() {
#ifdef ONLY_A
  run<ONLY_A>();
#else
  if (vp_nd_bool()) run<true>(); else run<false>();
#endif
}
