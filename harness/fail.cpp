// Refused system calls: one call that the solver chooses fails with an error number that it chooses. The operation has to throw the exception of its kind with that number and change nothing.
#include "vp.hpp"
#include "config.hpp"
#include <time.h>
#if KIND == 3
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include <boost/sync/exceptions/overflow_error.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
using namespace boost::sync;
enum { NONE, LOCK, WAIT, RESOURCE, OVER, OTHER };
static vp_u32 kind, code;
template <class E> static inline void seen(vp_u32 k, E const& e) { kind = k; code = e.native_error(); runtime_exception const& r = e; vp_assert((vp_u32)r.native_error() == code, 1); }
#define TRY(x) kind = NONE; code = 0; vp_clear_fail(); vp_set_failbudget(1); \
  try { x; } catch (lock_error& e) { seen(LOCK, e); } catch (wait_error& e) { seen(WAIT, e); } catch (resource_error& e) { seen(RESOURCE, e); } catch (overflow_error& e) { seen(OVER, e); } catch (...) { kind = OTHER; } \
  vp_set_failbudget(0);
#define EXPECT(k) vp_assert(kind == (vp_fail_code() ? (vp_u32)(k) : (vp_u32)NONE), 2); vp_assert(code == vp_fail_code(), 3);
static inline timespec abs10() { timespec ts; ts.tv_sec = 1500000010; ts.tv_nsec = 0; return ts; }
extern "C" void vp_init() {}
#define MINE(m) (vp_mutex_owner((m).native_handle()) == 1)
#define FREE(m) (vp_mutex_owner((m).native_handle()) == 0)

#if KIND == 1 || KIND == 2
#if KIND == 1
typedef mutex M;
#else
typedef timed_mutex M;
#endif
static vp_cell<M> m;
extern "C" void vp_main() {
  vp_set_failbudget(0); new (&m.v) M();
  bool busy = vp_nd_bool(); vp_u32 w = vp_nd_lt(KIND == 1 ? 5 : 8); if (busy) { vp_set_mutex_owner(m.v.native_handle(), 2); vp_assume(w == 1 || w == 4 || w == 5 || w == 7); }
  bool r = true, owns = false; unique_lock<M> l(m.v, defer_lock), l2;
  if (w == 0) { TRY(m.v.lock()) }
  else if (w == 1) { TRY(r = m.v.try_lock()) }
  else if (w == 2) { TRY(l.lock(); owns = true) vp_assert(l.owns_lock() == owns && l.mutex() == &m.v, 10); vp_assert(MINE(m.v) == owns, 11); if (owns) l.unlock(); r = false; }
  else if (w == 3) { TRY({ lock_guard<M> g(m.v); owns = true; }) r = false; }
  else if (w == 4) { TRY(r = l.try_lock()) vp_assert(l.owns_lock() == (r && kind == NONE), 12); if (l.owns_lock()) l.release(); }
#if KIND == 2
  else if (w == 5) { TRY(r = m.v.timed_lock(abs10())) }
  else if (w == 6) { TRY(r = m.v.try_lock_for(std::chrono::seconds(1))) }
  else { TRY(r = l.timed_lock(abs10())) vp_assert(l.owns_lock() == (r && kind == NONE), 13); if (l.owns_lock()) l.release(); }
#endif
  EXPECT(LOCK)
  if (busy) { vp_assert(vp_mutex_owner(m.v.native_handle()) == 2, 14); vp_assert(kind != NONE || !r, 15); }
  else if (kind != NONE) vp_assert(FREE(m.v), 16); else if (w != 2 && w != 3) vp_assert(r && MINE(m.v), 17); else vp_assert(FREE(m.v), 18);
  vp_cover(kind == LOCK, 50); vp_cover(kind == NONE && !busy, 51); vp_cover(busy && !r && kind == NONE, 52);
}
#elif KIND == 3                     // emulated timed mutex
static vp_cell<timed_mutex> m;
extern "C" void vp_cond_hook() {}
extern "C" void vp_main() {
  vp_set_failbudget(0); vp_u32 m0 = vp_mutex_live(), c0 = vp_cond_live(); bool made = false, r = false;
  TRY(new (&m.v) timed_mutex(); made = true)
  EXPECT(RESOURCE) vp_assert(made == (kind == NONE), 20); if (!made) { vp_assert(vp_mutex_live() == m0 && vp_cond_live() == c0, 21); vp_cover(true, 50); return; }
  m.v.lock();
  TRY(r = m.v.timed_lock(abs10()))
  EXPECT(LOCK) if (kind == NONE) vp_assert(!r, 22);
  vp_cover(kind == LOCK, 51); vp_cover(kind == NONE, 52);
  r = m.v.try_lock(); vp_assert(!r, 23);          // still held by the one who locked it, and usable
  m.v.unlock(); r = m.v.try_lock(); vp_assert(r, 24);
}
#elif KIND == 4 || KIND == 5        // semaphores
#if KIND == 4
#include <boost/sync/semaphore.hpp>
#else
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#endif
static vp_cell<semaphore> s;
extern "C" void vp_main() {
  vp_set_failbudget(0); vp_u32 m0 = vp_mutex_live(), c0 = vp_cond_live(), s0 = vp_sem_live(), init = vp_nd_u32(); bool made = false, posted = false;
#if KIND == 4
  TRY(new (&s.v) semaphore(init); made = true)
  if (vp_fail_code() == 0 && init > 0x7fffffffu) { vp_assert(kind == RESOURCE && code == 22, 20); vp_cover(true, 53); } else { EXPECT(RESOURCE) }
#else
  TRY(new (&s.v) semaphore(init); made = true)
  EXPECT(RESOURCE)
#endif
  vp_assert(made == (kind == NONE), 21); if (!made) { vp_assert(vp_mutex_live() == m0 && vp_cond_live() == c0 && vp_sem_live() == s0, 22); vp_cover(true, 50); return; }
  bool full = init == (KIND == 4 ? 0x7fffffffu : 0xffffffffu);
  TRY(s.v.post(); posted = true)
  if (vp_fail_code() == 0 && full) vp_assert(kind == OVER && code == 75, 23); else { EXPECT(OVER) }
  vp_assert(posted == (kind == NONE), 24);
#if KIND == 4
  vp_assert(vp_sem_value(&s.v) == init + posted, 25);
#else
  if (init == 0) { bool t = s.v.try_wait(); vp_assert(t == posted, 26); t = s.v.try_wait(); vp_assert(!t, 27); }
  if (full) { bool t = s.v.try_wait(); vp_assert(t, 28); }
#endif
  vp_cover(kind == OVER && full, 51); vp_cover(posted && init == 0, 52);
}
#elif KIND == 6 || KIND == 7        // condition variables
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#if KIND == 6
typedef condition_variable CV;
#else
typedef condition_variable_any CV;
#endif
static vp_cell<CV> c; static vp_cell<mutex> m; static vp_u32 tests;
extern "C" void vp_cond_hook() {}
struct pred { bool operator()() const { return ++tests > 2; } };
struct never { bool operator()() const { return false; } };
extern "C" void vp_main() {
  vp_set_failbudget(0); new (&m.v) mutex(); vp_u32 m0 = vp_mutex_live(), c0 = vp_cond_live(); bool made = false;
  TRY(new (&c.v) CV(); made = true)
  EXPECT(RESOURCE) vp_assert(made == (kind == NONE), 20); if (!made) { vp_assert(vp_mutex_live() == m0 && vp_cond_live() == c0, 21); vp_cover(true, 50); return; }
  unique_lock<mutex> l(m.v); vp_u32 w = vp_nd_lt(4);
  if (w == 0) { TRY(c.v.wait(l)) }
  else if (w == 1) { TRY(c.v.wait(l, pred())) }
  else if (w == 2) { TRY(c.v.timed_wait(l, abs10())) }
  else { TRY(c.v.timed_wait(l, abs10(), pred())) }
  EXPECT(WAIT)
  vp_assert(l.owns_lock() && l.mutex() == &m.v && MINE(m.v), 22);
  vp_cover(kind == WAIT && w == 0, 51); vp_cover(kind == WAIT && w == 1, 52); vp_cover(kind == WAIT && w == 2, 53); vp_cover(kind == WAIT && w == 3, 54); vp_cover(kind == NONE, 55);
}
#elif KIND == 8 || KIND == 9        // emulated events: construction and waits
#if KIND == 8
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
typedef auto_reset_event EV;
#define POST e.v.post()
#else
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
typedef manual_reset_event EV;
#define POST e.v.set()
#endif
static vp_cell<EV> e; static bool hooked;
extern "C" void vp_cond_hook() { if (!hooked) { hooked = true; POST; } }
extern "C" void vp_main() {
  vp_set_failbudget(0); vp_u32 m0 = vp_mutex_live(), c0 = vp_cond_live(); bool made = false, r;
  TRY(new (&e.v) EV(); made = true)
  EXPECT(RESOURCE) vp_assert(made == (kind == NONE), 20); if (!made) { vp_assert(vp_mutex_live() == m0 && vp_cond_live() == c0, 21); vp_cover(true, 50); return; }
  bool timed = vp_nd_bool(); r = true;
  if (timed) { TRY(r = e.v.timed_wait(abs10())) } else { TRY(e.v.wait()) }
  EXPECT(WAIT)
  if (kind != NONE) { vp_assert(!hooked, 22); bool t = e.v.try_wait(); vp_assert(!t, 23); POST; t = e.v.try_wait(); vp_assert(t, 24); }
  vp_cover(kind == WAIT && timed, 51); vp_cover(kind == WAIT && !timed, 52); vp_cover(kind == NONE, 53);
}
#endif
