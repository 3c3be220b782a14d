// Arithmetic of the internal time units: time points and durations, all values.
#include "vp.hpp"
#include "config.hpp"
#include <time.h>
#include <boost/sync/detail/time_units.hpp>
using namespace boost::sync::detail;
typedef long long ll;
#ifdef SMALL
static inline ll nd_ll() { return (ll)vp_nd_lt(6) - 2; }
#else
static inline ll nd_ll() { return (ll)vp_nd_u64(); }
#endif
static inline bool norm(timespec const& t) { return t.tv_nsec >= 0 && t.tv_nsec < 1000000000; }
extern "C" void vp_init() {}
extern "C" void vp_main() {
  ll s = nd_ll(), n = vp_nd_u32(); vp_assume(s > -4000000000LL && s < 4000000000LL && n < 1000000000);
#if LAW != 4 && LAW != 6
  ll q = nd_ll(), r = vp_nd_u32(); vp_assume(q > -5000000000LL && q < 5000000000LL && r < 1000000000);
  ll d = (ll)vp_opaque(q*1000000000LL + r); 
  ll mq = r ? -q - 1 : -q, mr = r ? 1000000000 - r : 0; 
#if LAW == 2
  vp_know(d, q, r, 1000000000);
  vp_know(-d, mq, mr, 1000000000);
#else
  vp_know(d, q, r, 1000000000);
#endif
  system_duration D(d);
#endif
  system_time_point t(s, (unsigned)n);
#if LAW == 1          // addition
  ll es = s + q, en = n + r; if (en >= 1000000000) { en -= 1000000000; es++; }
  system_time_point u = t + D;
  vp_assert(norm(u.get()), 1); vp_assert(u.get().tv_sec == es && u.get().tv_nsec == en, 2);
  system_time_point w = t; w += D; vp_assert(w.get().tv_sec == es && w.get().tv_nsec == en, 3);
  vp_cover(d < 0, 50); vp_cover(d > 0 && en < n, 51);
#elif LAW == 2        // subtraction
  ll es = s + mq, en = n + mr; if (en >= 1000000000) { en -= 1000000000; es++; }
  system_time_point u = t - D;
  vp_assert(norm(u.get()), 1); vp_assert(u.get().tv_sec == es && u.get().tv_nsec == en, 2);
  system_time_point w = t; w -= D; vp_assert(w.get().tv_sec == es && w.get().tv_nsec == en, 3);
  vp_cover(d < 0, 50); vp_cover(d > 0 && en > n, 51);
#elif LAW == 3        // (t + d) - t = d
  vp_assert(((t + D) - t).get() == d, 4);
  vp_cover(d < 0, 50); vp_cover(d > 0, 51);
#elif LAW == 4        // difference of two arbitrary time points
  ll s2 = nd_ll(), n2 = vp_nd_u32(); vp_assume(s2 > -4000000000LL && s2 < 4000000000LL && n2 < 1000000000);
  system_time_point t2(s2, (unsigned)n2);
  ll ds = (ll)vp_opaque(s2 - s); ll e = (ll)vp_opaque(ds*1000000000LL); vp_assert((t2 - t).get() == e + (n2 - n), 5); vp_assert((t - t2).get() == -e + (n - n2), 6);
  vp_cover(s2 < s && n2 > n, 50);
#elif LAW == 5        // durations, and a time point made from one
  ll e = nd_ll(); vp_assume(e > -(1LL << 61) && e < (1LL << 61) && d > -(1LL << 61) && d < (1LL << 61));
  system_duration E(e), F = D; F += E; vp_assert(F.get() == d + e && (D + E).get() == d + e && (D - E).get() == d - e && (-D).get() == -d, 7); F -= E; vp_assert(F.get() == d, 8);
  system_time_point z(D); vp_assert(norm(z.get()) && z.get().tv_sec == q && z.get().tv_nsec == r, 9);
  system_time_point o; vp_assert(o.get().tv_sec == 0 && o.get().tv_nsec == 0, 10);
  vp_cover(d < 0, 50);
#elif LAW == 6        // the current time is what the clock says
  vp_clk_set(s, n); system_time_point nw = system_time_point::now(); vp_assert(nw.get().tv_sec == s && nw.get().tv_nsec == n, 11); vp_cover(true, 50);
#endif
}
