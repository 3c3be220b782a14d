// Scoped guards: every way of leaving the scope, every outcome of the mutex operations, nested use.
#include "recmutex.hpp"
struct leave { int x; };
extern "C" void vp_init() {}
template <class Gd, int M> static inline __attribute__((always_inline)) void simple() {
  rec& m = mx(vp_nd_bool()); vp_u32 i = rec_no(&m); bool adopt = vp_nd_bool(), inside = false, threw = false, left = false; bool how = vp_nd_bool(); vp_u32 r0 = n_rel;
  if (adopt) acq(i, M);
  try {
    if (adopt) { Gd g(m, adopt_lock); inside = true; vp_assert(cnt[i][M] == 1 && n_block == 0 && n_try == 0 && n_timed == 0 && n_rel == r0, 10); if (how) throw leave(); }
    else { Gd g(m); inside = true; vp_assert(cnt[i][M] == 1 && n_block == 1 && n_rel == r0, 11); if (how) throw leave(); }
  } catch (leave&) { left = true; } catch (rec_failure&) { threw = true; }
  vp_assert(held(0) == 0 && held(1) == 0, 12);
  vp_assert(n_rel == r0 + inside, 13); vp_assert(inside || (threw && !adopt), 14); vp_assert(left == (inside && how), 15);
  vp_cover(threw, 50); vp_cover(left && adopt, 51); vp_cover(inside && !left && !adopt, 52);
}
extern "C" void vp_main() {
#if SCEN == 1
  simple<lock_guard<rec>, EXC>();
#elif SCEN == 2
  simple<shared_lock_guard<rec>, SHR>();
#elif SCEN == 3   // unlock_guard over a mutex: released inside the scope, acquired again afterwards, whatever happens; a failed re-acquisition is reported
  rec& m = mx(vp_nd_bool()); vp_u32 i = rec_no(&m); bool how = vp_nd_bool(), left = false, threw = false; acq(i, EXC);
  try { unlock_guard<rec> g(m); vp_assert(held(i) == 0 && n_rel == 1 && n_block == 0, 20); if (how) { throws_off = 1; throw leave(); } } catch (leave&) { left = true; } catch (rec_failure&) { threw = true; }
  vp_assert(n_block == 1 && n_rel == 1 && left == how, 21); vp_assert(cnt[i][EXC] == !threw && cnt[i][SHR] == 0 && cnt[i][UPG] == 0, 22);
  vp_cover(left, 53); vp_cover(threw, 54); vp_cover(!left && !threw, 55);
#elif SCEN == 4   // unlock_guard over a unique_lock
  rec& m = mx(vp_nd_bool()); vp_u32 i = rec_no(&m); bool how = vp_nd_bool(), left = false, threw = false; acq(i, EXC);
  { unique_lock<rec> l(m, adopt_lock);
    try { unlock_guard< unique_lock<rec> > g(l); vp_assert(held(i) == 0 && !l.owns_lock() && l.mutex() == &m, 23); if (how) { throws_off = 1; throw leave(); } } catch (leave&) { left = true; } catch (rec_failure&) { threw = true; }
    vp_assert(l.owns_lock() == !threw && l.mutex() == &m && cnt[i][EXC] == !threw && left == how, 24); }
  vp_assert(held(i) == 0 && n_rel == 1 + !threw, 25);
  vp_cover(left, 53); vp_cover(threw, 54);
#elif SCEN == 5   // nested: lock_guard, unlock_guard inside, shared_lock_guard of another mutex inside; exceptions anywhere
  bool how1 = vp_nd_bool(), how2 = vp_nd_bool(), how3 = vp_nd_bool(); bool left = false, threw = false; vp_u32 stage = 0;
  try { lock_guard<rec> a(R0); stage = 1; vp_assert(cnt[0][EXC] == 1, 30); if (how1) throw leave();
    { shared_lock_guard<rec> s(R1); stage = 2; vp_assert(cnt[0][EXC] == 1 && cnt[1][SHR] == 1, 31);
      throws_off = 1;
      { unlock_guard<rec> u(R0); stage = 3; vp_assert(cnt[0][EXC] == 0 && cnt[1][SHR] == 1, 32); if (how2) throw leave(); { lock_guard<rec> c(R0); vp_assert(cnt[0][EXC] == 1, 33); if (how3) throw leave(); } vp_assert(cnt[0][EXC] == 0, 34); }
      vp_assert(cnt[0][EXC] == 1 && cnt[1][SHR] == 1, 35); throws_off = 0; }
    vp_assert(cnt[0][EXC] == 1 && cnt[1][SHR] == 0, 36);
  } catch (leave&) { left = true; } catch (rec_failure&) { threw = true; }
  vp_assert(held(0) == 0 && held(1) == 0, 37); vp_cover(left && stage == 3, 56); vp_cover(threw && stage == 1, 57); vp_cover(threw && stage == 0, 58); vp_cover(!left && !threw, 59);
#elif SCEN == 6   // lock objects as guards: unique, shared and upgrade locks leaving by exception
  bool how = vp_nd_bool(); bool left = false, threw = false; vp_u32 st = 0;
  try { unique_lock<rec> a(R0); st = 1; vp_assert(cnt[0][EXC] == 1, 40); upgrade_lock<rec> b(R1); st = 2; vp_assert(cnt[1][UPG] == 1, 41); shared_lock<rec> c(R1); st = 3; vp_assert(cnt[1][SHR] == 1, 42); if (how) throw leave(); } catch (leave&) { left = true; } catch (rec_failure&) { threw = true; }
  vp_assert(held(0) == 0 && held(1) == 0 && n_rel == st, 43); vp_assert(threw == (st < 3), 44); vp_cover(left, 60); vp_cover(threw && st == 2, 61);
#endif
}
