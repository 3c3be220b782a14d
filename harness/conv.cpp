// Time conversions: the deadline that reaches the operating system equals the one requested, for every value.
// The request is q whole seconds and a sub-second part; FORM says in which type it is expressed, PRIM through which primitive it goes.
#include "vp.hpp"
#include "config.hpp"
#include <time.h>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/std_chrono.hpp>
#if FORM >= 30 && FORM < 50
#define BOOST_CHRONO_VERSION 2
#include <boost/chrono/duration.hpp>
#include <boost/chrono/time_point.hpp>
#include <boost/chrono/system_clocks.hpp>
#include <boost/sync/support/boost_chrono.hpp>
namespace CH = boost::chrono;
#define RATIO boost::ratio
#else
#include <chrono>
namespace CH = std::chrono;
#define RATIO std::ratio
#endif
#if FORM >= 50
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#endif
using namespace boost::sync;
#if PRIM == 1
#include <boost/sync/mutexes/timed_mutex.hpp>
typedef timed_mutex prim; static vp_cell<prim> P;
static void make() { new (&P.v) prim(); vp_set_thread(1); P.v.lock(); vp_set_thread(0); }
template <class T> static bool op(T const& t) { return P.v.timed_lock(t); }
#elif PRIM == 3
#include <boost/sync/semaphore.hpp>
typedef semaphore prim; static vp_cell<prim> P;
static void make() { new (&P.v) prim(0); }
template <class T> static bool op(T const& t) { return P.v.timed_wait(t); }
#elif PRIM == 5
#include <boost/sync/events/auto_reset_event.hpp>
typedef auto_reset_event prim; static vp_cell<prim> P;
static void make() { new (&P.v) prim(); }
template <class T> static bool op(T const& t) { return P.v.timed_wait(t); }
#elif PRIM == 7
#include <boost/sync/events/manual_reset_event.hpp>
typedef manual_reset_event prim; static vp_cell<prim> P;
static void make() { new (&P.v) prim(); }
template <class T> static bool op(T const& t) { return P.v.timed_wait(t); }
#elif PRIM == 9
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
typedef condition_variable prim; static vp_cell<prim> P; static vp_cell<boost::sync::mutex> Mx;
static void make() { new (&P.v) prim(); new (&Mx.v) boost::sync::mutex(); }
template <class T> static bool op(T const& t) { unique_lock<boost::sync::mutex> l(Mx.v); return P.v.timed_wait(l, t); }
#endif
#if PRIM == 1 || PRIM == 3 || PRIM == 9
#define ABSOLUTE 1      // the primitive hands an absolute time to the system: recorded even when it has passed
#else
#define ABSOLUTE 0
#endif
extern "C" void vp_init() {}
typedef long long ll;
// tells the solver a quotient it would have to find by division: count*unit nanoseconds are q seconds and r nanoseconds
// and, in units, q seconds and k units
static inline ll K0(ll count, ll unit, ll q, ll r) { count = (ll)vp_opaque(count); vp_know((vp_u64)count*(vp_u64)unit, q, r, 1000000000); return count; }
static inline ll K(ll count, ll unit, ll q, ll k) { count = K0(count, unit, q, k*unit); vp_know(count, q, k, 1000000000/unit); return count; }
static inline ll nd_ll() { return (ll)vp_nd_u64(); }
#ifndef QMAX
#define QMAX 9000000000LL
#endif
extern "C" void vp_main() {
#ifdef SMALL
  ll ns0 = vp_nd_nsec(), s0 = vp_nd_lt(3);
#else
  ll ns0 = vp_nd_u32(); vp_assume(ns0 < 1000000000); ll s0 = nd_ll(); vp_assume(s0 >= 0 && s0 < 4000000000LL);
#endif
  vp_clk_set(s0, ns0);
  make();
  
#ifdef SMALL
  ll q = (ll)vp_nd_lt(6) - 2;
#else
  ll q = nd_ll();
#endif
#ifdef SMALL
  ll sub = vp_nd_u32(); vp_assume(sub < 8 || (sub >= 500 && sub < 502) || (sub >= 996 && sub < 1004) || (sub >= 500000 && sub < 500004) || (sub >= 999996 && sub < 1000000) || (sub >= 9999998 && sub < 10000000) || (sub >= 500000000 && sub < 500000004) || (sub >= 999999992 && sub < 1000000000));
#else
  ll sub = vp_nd_u32();
#endif
  bool point = false; bool r;     // q seconds and sub nanoseconds; point: since the epoch
  vp_assume(q >= -QMAX && q <= QMAX);
#if FORM == 1 || FORM == 31             // nanoseconds
  vp_assume(sub < 1000000000); r = op(CH::nanoseconds(K0(q*1000000000LL + sub, 1, q, sub)));
#elif FORM == 2 || FORM == 32
  vp_assume(sub < 1000000); r = op(CH::microseconds(K(q*1000000LL + sub, 1000, q, sub))); sub *= 1000;
#elif FORM == 3 || FORM == 33
  vp_assume(sub < 1000); r = op(CH::milliseconds(K(q*1000LL + sub, 1000000, q, sub))); sub *= 1000000;
#elif FORM == 4 || FORM == 34
  sub = 0; r = op(CH::seconds(K0(q, 1000000000, q, 0)));
#elif FORM == 5 || FORM == 35
  sub = 0; vp_assume(q >= -100000000 && q <= 100000000); r = op(CH::minutes(K0(q, 60000000000LL, q*60, 0))); q *= 60;
#elif FORM == 6 || FORM == 36
  sub = 0; vp_assume(q >= -2000000 && q <= 2000000); r = op(CH::hours(K0(q, 3600000000000LL, q*3600, 0))); q *= 3600;
#elif FORM == 7 || FORM == 37           // a narrow signed count
  vp_assume(q >= -2000000 && q <= 2000000 && sub < 1000); int c = int(vp_opaque(q*1000 + sub)); K(c, 1000000, q, sub); r = op(CH::duration<int, RATIO<1, 1000> >(c)); sub *= 1000000;
#elif FORM == 8 || FORM == 38           // an unsigned count
  vp_assume(q >= 0 && q <= 4000000 && sub < 1000); unsigned c = unsigned(vp_opaque(q*1000 + sub)); K(c, 1000000, q, sub); r = op(CH::duration<unsigned, RATIO<1, 1000> >(c)); sub *= 1000000;
#elif FORM == 9 || FORM == 39           // ticks of 100 ns
  vp_assume(sub < 10000000); r = op(CH::duration<ll, RATIO<1, 10000000> >(K(q*10000000LL + sub, 100, q, sub))); sub *= 100;
#elif FORM == 10 || FORM == 40          // a period that is neither a multiple nor a fraction of a second: 3/8 s
  { sub = vp_nd_lt(8); vp_assume(q >= -2000000000LL && q <= 2000000000LL); ll d = q*8 + sub; ll m = q*3; ll e = sub*375000000LL; if (e >= 1000000000) { e -= 1000000000; m++; } if (e >= 1000000000) { e -= 1000000000; m++; } r = op(CH::duration<ll, RATIO<3, 8> >(K0(d, 375000000LL, m, e))); q = m; sub = e; }
#elif FORM == 11 || FORM == 41          // time points of the system clock
  point = true; vp_assume(sub < 1000000000); r = op(CH::time_point<CH::system_clock, CH::nanoseconds>(CH::nanoseconds(K0(q*1000000000LL + sub, 1, q, sub))));
#elif FORM == 12 || FORM == 42
  point = true; vp_assume(sub < 1000000); r = op(CH::time_point<CH::system_clock, CH::microseconds>(CH::microseconds(K(q*1000000LL + sub, 1000, q, sub)))); sub *= 1000;
#elif FORM == 13 || FORM == 43
  point = true; vp_assume(sub < 1000); r = op(CH::time_point<CH::system_clock, CH::milliseconds>(CH::milliseconds(K(q*1000LL + sub, 1000000, q, sub)))); sub *= 1000000;
#elif FORM == 14 || FORM == 44
  point = true; sub = 0; r = op(CH::time_point<CH::system_clock, CH::seconds>(CH::seconds(K0(q, 1000000000, q, 0))));
#elif FORM == 15 || FORM == 45
  point = true; sub = 0; vp_assume(q >= -2000000 && q <= 2000000); r = op(CH::time_point<CH::system_clock, CH::hours>(CH::hours(K0(q, 3600000000000LL, q*3600, 0)))); q *= 3600;
#elif FORM == 20                        // POSIX time, including times that do not fit in 64 bits of nanoseconds
  point = true; vp_assume(sub < 1000000000); timespec ts; ts.tv_sec = q; ts.tv_nsec = sub; r = op(ts);
#elif FORM == 51                        // Boost.DateTime
  vp_assume(sub < 1000000); r = op(boost::posix_time::microseconds(K(q*1000000LL + sub, 1000, q, sub))); sub *= 1000;
#elif FORM == 52
  vp_assume(sub < 1000); r = op(boost::posix_time::milliseconds(K(q*1000LL + sub, 1000000, q, sub))); sub *= 1000000;
#elif FORM == 53
  sub = 0; r = op(boost::posix_time::seconds((long)K0(q, 1000000000, q, 0)));
#elif FORM == 54
  { ll h = nd_ll(), mi = nd_ll(), s = nd_ll(); vp_assume(h >= -2000 && h <= 2000 && mi >= 0 && mi < 60 && s >= 0 && s < 60 && sub < 1000000); sub = 0; q = h*3600 + mi*60 + s; K(h*3600000000LL + mi*60000000LL + s*1000000LL, 1000, q, 0); r = op(boost::posix_time::hours(h) + boost::posix_time::minutes(mi) + boost::posix_time::seconds(s)); q = h*3600 + mi*60 + s; }
#elif FORM == 55
  point = true; vp_assume(sub < 1000000); vp_assume(q >= 0 && q <= 4000000000LL);
  { boost::posix_time::ptime e(boost::gregorian::date(1970, 1, 1)); r = op(e + boost::posix_time::microseconds(K(q*1000000LL + sub, 1000, q, sub))); sub *= 1000; }
#endif
  ll es = q, en = sub;
  if (!point) { es += s0; en += ns0; if (en >= 1000000000) { en -= 1000000000; es++; } }
  bool future = es > s0 || (es == s0 && en > ns0);
  vp_assert(!r, 1);
  if (future || ABSOLUTE) {
    vp_assert(vp_rec_count() >= 1, 2);
    vp_assert((ll)vp_rec_nsec() == en && (ll)vp_rec_sec() == es, 3);
  }
  vp_cover(future, 50); 
#if FORM != 8 && FORM != 38 
  vp_cover(!future, 51);
#endif
}
