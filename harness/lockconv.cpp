// Conversions between unique_lock, shared_lock and upgrade_lock: chains of STEPS conversions, every source state, every outcome at the mutex.
#include "recmutex.hpp"
#ifndef STEPS
#define STEPS 2
#endif
typedef unique_lock<rec> UL; typedef shared_lock<rec> SL; typedef upgrade_lock<rec> GL;
static vp_cell<UL> U; static vp_cell<SL> S; static vp_cell<GL> G;
static rec* em[3]; static bool eo[3];  // expected state of U, S, G, in the order of the modes
static inline void chk(rec* m, bool o, int i) { vp_assert(m == em[i], 10); vp_assert(o == eo[i], 11); }
static inline void check() {
  chk(U.v.mutex(), U.v.owns_lock(), 0); chk(S.v.mutex(), S.v.owns_lock(), 1); chk(G.v.mutex(), G.v.owns_lock(), 2);
  for (int k = 0; k < 3; ++k) { vp_assert(cnt[0][k] == (eo[k] && em[k] == &R0), 13); vp_assert(cnt[1][k] == (eo[k] && em[k] == &R1), 14); }
}
template <class L> static void make(L* l, int i, rec& m) {
  vp_u32 c = vp_nd_lt(3);
  if (c == 0) { new (l) L(); em[i] = 0; eo[i] = false; }
  else if (c == 1) { new (l) L(m, defer_lock); em[i] = &m; eo[i] = false; }
  else { acq(rec_no(&m), i); new (l) L(m, adopt_lock); em[i] = &m; eo[i] = true; }
}
extern "C" void vp_init() {}
static const std::chrono::nanoseconds T(9);
// the source of the conversion: it may become the destination's or stay
static inline void before(int from) { if (eo[from]) watch[em[from] == &R0 ? 0 : 1] = 1; }
static inline void after() { watch[0] = watch[1] = 0; }
// D t(move(src), ...) then swapped into the destination; its previous content is released
#define CONV(DST, D, d, SRC, s, CTOR, CANFAIL, TIMED) { \
  before(s); bool failed = false; vp_u32 c0 = n_conv, r0 = n_rel, k0 = n_block + n_try + n_timed; bool owned = eo[s]; rec* m = em[s]; \
  try { D t CTOR; after(); vp_assert(n_rel == r0 && n_conv == c0 + owned && n_block + n_try + n_timed == k0, 20); if (TIMED && owned) vp_assert(rec_time == 9, 21); \
    bool took = !owned || t.owns_lock(); vp_assert(CANFAIL || took, 22); \
    if (took) { vp_assert(t.mutex() == m && t.owns_lock() == owned, 23); vp_assert(!SRC.v.mutex() && !SRC.v.owns_lock(), 24); em[s] = 0; eo[s] = false; } \
    else { vp_assert(SRC.v.mutex() == m && SRC.v.owns_lock(), 25); vp_assert(!t.mutex() && !t.owns_lock(), 26); m = 0; owned = false; } \
    vp_cover(took && owned, 50); vp_cover(CANFAIL && !took, 51); \
    DST.v.swap(t); em[d] = m; eo[d] = owned; \
  } catch (rec_failure&) { failed = true; after(); } \
  if (failed) { vp_assert(owned, 27); vp_cover(true, 52); } }
#define ASSIGN(DST, d, SRC, s) { \
  vp_u32 c0 = n_conv, r0 = n_rel, k0 = n_block + n_try + n_timed; bool owned = eo[s], had = eo[d]; rec* m = em[s]; bool failed = false; \
  if (!(had && em[d] == m)) before(s); \
  try { DST.v = boost::move(SRC.v); } catch (rec_failure&) { failed = true; } after(); \
  vp_assert(n_conv == c0 + owned && n_block + n_try + n_timed == k0, 30); \
  if (failed) { vp_assert(owned && n_rel == r0, 31); vp_cover(true, 53); } \
  else { vp_assert(n_rel == r0 + had, 32); em[s] = 0; eo[s] = false; em[d] = m; eo[d] = owned; vp_cover(owned && had, 54); } }
template <int N> static inline __attribute__((always_inline)) void step() {
  switch (vp_nd_lt(13)) {
  case 0: CONV(U, UL, 0, G, 2, (boost::move(G.v)), false, false) break;
  case 1: CONV(U, UL, 0, G, 2, (boost::move(G.v), try_to_lock), true, false) break;
  case 2: CONV(U, UL, 0, S, 1, (boost::move(S.v), try_to_lock), true, false) break;
  case 3: CONV(U, UL, 0, S, 1, (boost::move(S.v), T), true, true) break;
  case 4: CONV(S, SL, 1, U, 0, (boost::move(U.v)), false, false) break;
  case 5: CONV(S, SL, 1, G, 2, (boost::move(G.v)), false, false) break;
  case 6: CONV(G, GL, 2, U, 0, (boost::move(U.v)), false, false) break;
  case 7: CONV(G, GL, 2, S, 1, (boost::move(S.v), try_to_lock), true, false) break;
  case 8: CONV(G, GL, 2, S, 1, (boost::move(S.v), T), true, true) break;
  case 9: ASSIGN(U, 0, G, 2) break;
  case 10: ASSIGN(S, 1, U, 0) break;
  case 11: ASSIGN(S, 1, G, 2) break;
  default: ASSIGN(G, 2, U, 0) break;
  }
  check();
}
extern "C" void vp_main() {
  make(&U.v, 0, mx(vp_nd_bool())); make(&S.v, 1, mx(vp_nd_bool())); make(&G.v, 2, mx(vp_nd_bool())); check();
  for (int i = 0; i < STEPS; ++i) step<0>();
  U.v.~UL(); S.v.~SL(); G.v.~GL();
  vp_assert(held(0) == 0 && held(1) == 0, 40);
}
