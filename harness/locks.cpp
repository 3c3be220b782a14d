// Lock objects: every history of operations on two lock objects over two mutexes. KIND 1 unique_lock, 2 shared_lock, 3 upgrade_lock; STEPS operations.
#include "recmutex.hpp"
#if KIND == 1
typedef unique_lock<rec> LK; enum { M = EXC };
#elif KIND == 2
typedef shared_lock<rec> LK; enum { M = SHR };
#else
typedef upgrade_lock<rec> LK; enum { M = UPG };
#endif
#ifndef STEPS
#define STEPS 2
#endif
static vp_cell<LK> A, B;
static rec* em[2]; static bool eo[2];      // expected mutex and ownership of A and B
static vp_u32 given[2];                    // acquisitions the lock objects no longer answer for
static inline vp_u32 owners(rec* m) { return (eo[0] && em[0] == m) + (eo[1] && em[1] == m); }
static inline void check1(LK& l, int i) { vp_assert(l.mutex() == em[i], 10); vp_assert(l.owns_lock() == eo[i], 11); vp_assert(bool(l) == eo[i] && !l == !eo[i], 12); }
static inline void check_counts() {
  vp_assert(cnt[0][M] == owners(&R0) + given[0] && cnt[1][M] == owners(&R1) + given[1], 13);
  for (int k = 0; k < 3; ++k) if (k != M) vp_assert(cnt[0][k] == 0 && cnt[1][k] == 0, 14);
}
static inline void check() { check1(A.v, 0); check1(B.v, 1); check_counts(); }
static inline void set(int i, rec* m, bool o) { em[i] = m; eo[i] = o; }
static inline bool is_owned_by_someone(rec* m) { return owners(m) + (m == &R0 ? given[0] : given[1]) > 0; }
static void make(LK* l, int i, rec& m) {
  vp_u32 c = vp_nd_lt(6); bool ok = true; vp_u32 b0 = n_block, t0 = n_try, d0 = n_timed, before = cnt[rec_no(&m)][M];
  if (c == 2) acq(rec_no(&m), M);
  try {
    switch (c) {
    case 0: new (l) LK(); break;
    case 1: new (l) LK(m); break;
    case 2: new (l) LK(m, adopt_lock); break;
    case 3: new (l) LK(m, defer_lock); break;
    case 4: new (l) LK(m, try_to_lock); break;
    default: new (l) LK(m, std::chrono::nanoseconds(77)); vp_assert(rec_time == 77, 15); break;
    }
  } catch (rec_failure&) { ok = false; }
  vp_assert(n_block == b0 + (c == 1) && n_try == t0 + (c == 4) && n_timed == d0 + (c == 5), 16);
  if (!ok) { vp_assert(c == 1 || c >= 4, 17); vp_assert(cnt[rec_no(&m)][M] == before, 18); new (l) LK(); set(i, 0, false); vp_cover(c == 1, 60); return; }
  if (c == 0) set(i, 0, false);
  else set(i, &m, c == 1 || c == 2 || (c >= 4 && cnt[rec_no(&m)][M] > before));
  vp_cover(c == 5 && eo[i], 61);
}
extern "C" void vp_init() {}
static vp_u32 done_ops;
static void step() {
  vp_u32 o = vp_nd_lt(13); LK& a = A.v; int err = 0; bool failed = false; bool r = false;
  vp_u32 b0 = n_block, t0 = n_try, d0 = n_timed, r0 = n_rel; vp_u32 had = em[0] ? cnt[em[0] == &R0 ? 0 : 1][M] : 0;
  rec* p = 0; bool is_lock = o >= 1 && o <= 5;
  try {
    switch (o) {
    case 1: a.lock(); r = true; break;
    case 2: r = a.try_lock(); break;
    case 3: r = a.timed_lock(std::chrono::nanoseconds(5)); vp_assert(rec_time == 5, 20); break;
    case 4: r = a.try_lock_for(std::chrono::nanoseconds(6)); vp_assert(rec_time == 6, 20); break;
    case 5: r = a.try_lock_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(7))); vp_assert(rec_time == 7, 20); break;
    case 6: a.unlock(); break;
    default: break;
    }
  } catch (lock_error& e) { err = e.native_error(); vp_assert(err != 0, 21); }
  catch (rec_failure&) { failed = true; }
  if (is_lock) {
    int want = !em[0] ? EPERM : eo[0] ? EDEADLK : 0;
    vp_assert(err == want, 22);
    vp_assert(n_block == b0 + (!want && o == 1) && n_try == t0 + (!want && o == 2) && n_timed == d0 + (!want && o >= 3) && n_rel == r0, 23);
    if (!want) {
      bool got = cnt[em[0] == &R0 ? 0 : 1][M] > had;
      vp_assert(failed || r == got, 24); vp_assert(!failed || !got, 25);
      eo[0] = got; vp_cover(got, 62); vp_cover(failed, 63);
    }
    vp_cover(err == EDEADLK, 64);
  } else if (o == 6) {
    int want = !em[0] || !eo[0] ? EPERM : 0;
    vp_assert(err == want && n_rel == r0 + !want, 26); if (!want) eo[0] = false;
  } else if (o == 7) {
    p = a.release(); vp_assert(p == em[0] && n_rel == r0, 27); if (eo[0]) given[p == &R0 ? 0 : 1]++; set(0, 0, false);
  } else if (o == 8 || o == 9) {
    if (o == 8) a.swap(B.v); else swap(a, B.v);
    rec* m = em[0]; bool w = eo[0]; set(0, em[1], eo[1]); set(1, m, w); vp_assert(n_rel == r0, 28);
  } else if (o == 10) { // moving out and back
    LK t(boost::move(a)); vp_assert(t.mutex() == em[0] && t.owns_lock() == eo[0], 29); vp_assert(!a.mutex() && !a.owns_lock() && n_rel == r0, 30);
    LK u(boost::move(t)); a.swap(u);
  } else if (o == 11) { // move assignment: the destination gets what the source had; what the destination had is either with the source or released
    rec* m = em[0]; bool w = eo[0]; a = boost::move(B.v); set(0, em[1], eo[1]);
    if (B.v.owns_lock() || B.v.mutex()) { set(1, m, w); vp_assert(n_rel == r0, 31); } else { vp_assert(n_rel == r0 + w, 32); set(1, 0, false); }
  } else if (o == 12) { // destruction
    a.~LK(); vp_assert(n_rel == r0 + eo[0], 33); set(0, 0, false); new (&A.v) LK();
  }
  vp_assert(n_block == b0 + (is_lock && n_block != b0), 34);
  check();
}
extern "C" void vp_main() {
  make(&A.v, 0, mx(vp_nd_bool())); make(&B.v, 1, mx(vp_nd_bool())); check();
  for (int i = 0; i < STEPS; ++i) step();
  vp_cover(eo[0] && eo[1] && em[0] != em[1], 65);
  A.v.~LK(); B.v.~LK();
  set(0, 0, false); set(1, 0, false); check_counts();
}
