// the timed wait used by a scenario: TW 0 absolute POSIX time, 1 duration, 2 time point of another clock, 3 system_clock time point, 4/5 through timed_wait
#ifndef VP_TIMEDKIND_HPP
#define VP_TIMEDKIND_HPP
#include <time.h>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/std_chrono.hpp>
#ifndef TW
#define TW 0
#endif
static inline timespec vp_abs10() { timespec ts; ts.tv_sec = 1500000010; ts.tv_nsec = 0; return ts; }
template <class E> static inline bool vp_timed_wait(E& e) {
#if TW == 0
  return e.timed_wait(vp_abs10());
#elif TW == 1
  return e.wait_for(std::chrono::seconds(10));
#elif TW == 2
  return e.wait_until(std::chrono::steady_clock::time_point(std::chrono::seconds(5010)));
#elif TW == 3
  return e.wait_until(std::chrono::system_clock::time_point(std::chrono::seconds(1500000010)));
#endif
}
#endif
