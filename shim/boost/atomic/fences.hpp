#ifndef BOOST_ATOMIC_FENCES_HPP_INCLUDED_
#define BOOST_ATOMIC_FENCES_HPP_INCLUDED_
#include <boost/atomic/atomic.hpp>
namespace boost {
BOOST_FORCEINLINE void atomic_thread_fence(memory_order o) noexcept { __atomic_thread_fence(atomics::vpdetail::mo(o)); }
BOOST_FORCEINLINE void atomic_signal_fence(memory_order o) noexcept { __atomic_signal_fence(atomics::vpdetail::mo(o)); }
}
#endif
