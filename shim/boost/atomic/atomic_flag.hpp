#ifndef BOOST_ATOMIC_ATOMIC_FLAG_HPP_INCLUDED_
#define BOOST_ATOMIC_ATOMIC_FLAG_HPP_INCLUDED_
#include <boost/atomic/atomic.hpp>
namespace boost {
class atomic_flag { bool v;
public:
    constexpr atomic_flag() noexcept : v(false) {}
    atomic_flag(atomic_flag const&) = delete; atomic_flag& operator=(atomic_flag const&) = delete;
    BOOST_FORCEINLINE bool test_and_set(memory_order o = memory_order_seq_cst) volatile noexcept { return __atomic_exchange_n(&v, true, atomics::vpdetail::mo(o)); }
    BOOST_FORCEINLINE void clear(memory_order o = memory_order_seq_cst) volatile noexcept { __atomic_store_n(&v, false, atomics::vpdetail::mo(o)); }
    BOOST_FORCEINLINE bool test(memory_order o = memory_order_seq_cst) const volatile noexcept { return __atomic_load_n(&v, atomics::vpdetail::mo(o)); }
};
}
#endif
