// Reader/writer exclusion of shared_spin_mutex.
#include "vp.hpp"
#include "config.hpp"
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
using boost::sync::shared_spin_mutex;
static vp_cell<shared_spin_mutex> Mx;
static inline shared_spin_mutex& M() { return Mx.v; }
static vp_u32 writers, readers, wtouch, wactive, ractive, rtouch, got[4];
#if SCEN == 1 || SCEN == 3 || SCEN == 4
#define vp_cover_r() vp_cover(readers == 2, 50);
#else
#define vp_cover_r()
#endif
static inline void wcs(int i) { vp_assert(writers == 0 && readers == 0, 1); writers = 1; got[i]++; vp_yield(); vp_assert(writers == 1 && readers == 0, 1); writers = 0; }
static inline void rcs(int i) { vp_assert(writers == 0, 2); readers++; got[i]++; vp_cover_r() vp_yield(); vp_assert(writers == 0, 2); readers--; }
static inline void wr(int i) { vp_yield(); wactive++; wtouch++; M().lock(); wcs(i); M().unlock(); vp_yield(); wactive--; }
static inline void rd(int i) { vp_yield(); ractive++; rtouch++; M().lock_shared(); rcs(i); M().unlock_shared(); vp_yield(); ractive--; }
static inline bool trd(int i) { vp_yield(); ractive++; rtouch++; vp_u32 a = wactive, e = wtouch; bool r = M().try_lock_shared(); vp_assert(r || a || e != wtouch, 3); if (r) { rcs(i); M().unlock_shared(); } vp_yield(); ractive--; return r; }
static inline bool twr(int i) { vp_yield(); wactive++; wtouch++; vp_u32 a = wactive - 1 + ractive, e = wtouch + rtouch; bool r = M().try_lock(); vp_assert(r || a || e != wtouch + rtouch, 4); if (r) { wcs(i); M().unlock(); } vp_yield(); wactive--; return r; }
static inline void free_at_end() { bool r = M().try_lock(); vp_assert(r, 6); if (r) { bool s = M().try_lock_shared(); vp_assert(!s, 7); bool w = M().try_lock(); vp_assert(!w, 7); M().unlock(); }
  bool a = M().try_lock_shared(); bool b = M().try_lock_shared(); bool w = M().try_lock(); vp_assert(a && b && !w, 8); if (a) M().unlock_shared(); w = M().try_lock(); vp_assert(!w, 8); if (b) M().unlock_shared(); w = M().try_lock(); vp_assert(w, 8); if (w) M().unlock(); }
extern "C" void vp_init() { new (&Mx.v) shared_spin_mutex(); }
#define ALL3 (vp_is_done(0) && vp_is_done(1) && vp_is_done(2))
#if SCEN == 1
extern "C" void vp_thread_0() { wr(0); }
extern "C" void vp_thread_1() { rd(1); }
extern "C" void vp_thread_2() { rd(2); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 5); free_at_end(); vp_cover(true, 51); }
#elif SCEN == 2
extern "C" void vp_thread_0() { wr(0); }
extern "C" void vp_thread_1() { rd(1); }
extern "C" void vp_thread_2() { wr(2); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 5); free_at_end(); vp_cover(true, 51); }
#elif SCEN == 3   // attempts
extern "C" void vp_thread_0() { bool r = twr(0); vp_cover(r, 52); vp_cover(!r, 53); }
extern "C" void vp_thread_1() { bool r = trd(1); vp_cover(r, 54); vp_cover(!r, 55); }
extern "C" void vp_thread_2() { rd(2); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 5); free_at_end(); vp_cover(true, 51); }
#elif SCEN == 4   // shared attempts against other readers only
extern "C" void vp_thread_0() { rd(0); }
extern "C" void vp_thread_1() { bool r = trd(1); vp_cover(r, 54); }
extern "C" void vp_thread_2() { bool r = trd(2); vp_cover(r, 54); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 5); vp_assert(got[0] && got[1] && got[2], 9); free_at_end(); }
#elif SCEN == 5   // a writer attempt against readers coming and going
extern "C" void vp_thread_0() { wr(0); }
extern "C" void vp_thread_1() { bool r = trd(1); vp_cover(r, 54); vp_cover(!r, 55); }
extern "C" void vp_thread_2() { bool r = twr(2); vp_cover(r, 52); vp_cover(!r, 53); }
extern "C" void vp_quiesce() { vp_assert(ALL3, 5); free_at_end(); vp_cover(true, 51); }
#elif SCEN == 6   // a reader comes back while a writer waits
extern "C" void vp_thread_0() { wr(0); }
extern "C" void vp_thread_1() { rd(1); rd(1); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 5); free_at_end(); vp_cover(true, 51); }
#elif SCEN == 7   // sequential modes: a held mutex refuses the conflicting modes, any number of readers coexist
extern "C" void vp_thread_0() { M().lock_shared(); readers++; M().lock_shared(); readers++; vp_yield(); vp_assert(writers == 0, 2); readers--; M().unlock_shared(); vp_yield(); vp_assert(writers == 0, 2); readers--; M().unlock_shared(); }
extern "C" void vp_thread_1() { wr(1); }
extern "C" void vp_quiesce() { vp_assert(vp_is_done(0) && vp_is_done(1), 5); free_at_end(); vp_cover(true, 51); }
#endif
