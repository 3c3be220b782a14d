// A mutex that records what is done to it. Every operation may succeed, fail or throw, as the solver chooses.
#ifndef RECMUTEX_HPP
#define RECMUTEX_HPP
#include "vp.hpp"
#include <chrono>
#include <boost/sync/locks.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <cerrno>
using namespace boost::sync;
enum { EXC = 0, SHR = 1, UPG = 2 };
struct rec_failure { int x; };
struct rec; static inline vp_u32 rec_no(const rec*);
static vp_u32 cnt[2][3];           // acquisitions in force, per mutex and mode
static vp_u32 n_block, n_try, n_timed, n_rel, n_conv; // calls made
static vp_u32 watch[2];            // the mutex must not become free
static vp_u32 throws_off;
static long long rec_time;         // the time last passed
static inline vp_u32 held(vp_u32 i) { return cnt[i][0] + cnt[i][1] + cnt[i][2]; }
static inline void may_throw() { if (!throws_off && vp_nd_bool()) throw rec_failure(); }
static inline void acq(vp_u32 i, int m) { cnt[i][m]++; }
static inline void rel(vp_u32 i, int m) { vp_assert(cnt[i][m] > 0, 1); cnt[i][m]--; vp_assert(!watch[i] || held(i) > 0, 2); n_rel++; }
static inline void chg(vp_u32 i, int from, int to) { vp_assert(cnt[i][from] > 0, 3); cnt[i][from]--; cnt[i][to]++; }
template <class R, class P> static inline long long tval(std::chrono::duration<R, P> const& d) { return d.count(); }
template <class C, class D> static inline long long tval(std::chrono::time_point<C, D> const& d) { return d.time_since_epoch().count(); }
struct rec {
  unsigned pad;
  void do_lock(int m) { n_block++; may_throw(); acq(rec_no(this), m); }
  bool do_try(int m) { n_try++; may_throw(); if (!vp_nd_bool()) return false; acq(rec_no(this), m); return true; }
  template <class T> bool do_timed(T const& t, int m) { n_timed++; rec_time = tval(t); may_throw(); if (!vp_nd_bool()) return false; acq(rec_no(this), m); return true; }
  bool do_conv(int a, int b, bool can_fail) { n_conv++; may_throw(); if (can_fail && !vp_nd_bool()) return false; chg(rec_no(this), a, b); return true; }
  void lock() { do_lock(EXC); } bool try_lock() { return do_try(EXC); } void unlock() { rel(rec_no(this), EXC); }
  template <class T> bool timed_lock(T const& t) { return do_timed(t, EXC); }
  template <class T> bool try_lock_for(T const& t) { return do_timed(t, EXC); }
  template <class T> bool try_lock_until(T const& t) { return do_timed(t, EXC); }
  void lock_shared() { do_lock(SHR); } bool try_lock_shared() { return do_try(SHR); } void unlock_shared() { rel(rec_no(this), SHR); }
  template <class T> bool timed_lock_shared(T const& t) { return do_timed(t, SHR); }
  template <class T> bool try_lock_shared_for(T const& t) { return do_timed(t, SHR); }
  template <class T> bool try_lock_shared_until(T const& t) { return do_timed(t, SHR); }
  void lock_upgrade() { do_lock(UPG); } bool try_lock_upgrade() { return do_try(UPG); } void unlock_upgrade() { rel(rec_no(this), UPG); }
  template <class T> bool timed_lock_upgrade(T const& t) { return do_timed(t, UPG); }
  template <class T> bool try_lock_upgrade_for(T const& t) { return do_timed(t, UPG); }
  template <class T> bool try_lock_upgrade_until(T const& t) { return do_timed(t, UPG); }
  void unlock_upgrade_and_lock() { do_conv(UPG, EXC, false); }
  bool try_unlock_upgrade_and_lock() { return do_conv(UPG, EXC, true); }
  template <class T> bool timed_unlock_upgrade_and_lock(T const& t) { rec_time = tval(t); return do_conv(UPG, EXC, true); }
  bool try_unlock_shared_and_lock() { return do_conv(SHR, EXC, true); }
  template <class T> bool timed_unlock_shared_and_lock(T const& t) { rec_time = tval(t); return do_conv(SHR, EXC, true); }
  void unlock_and_lock_shared() { do_conv(EXC, SHR, false); }
  void unlock_upgrade_and_lock_shared() { do_conv(UPG, SHR, false); }
  void unlock_and_lock_upgrade() { do_conv(EXC, UPG, false); }
  bool try_unlock_shared_and_lock_upgrade() { return do_conv(SHR, UPG, true); }
  template <class T> bool timed_unlock_shared_and_lock_upgrade(T const& t) { rec_time = tval(t); return do_conv(SHR, UPG, true); }
};
static rec R0, R1;
static inline vp_u32 rec_no(const rec* p) { vp_assert(p == &R0 || p == &R1, 4); return p == &R0 ? 0 : 1; }
static inline rec& mx(bool second) { return second ? R1 : R0; }
#endif
