// Verification shim: boost::atomic on compiler builtins, so that operations and memory orders stay visible in the IR
// (the x86 backend of Boost.Atomic uses inline assembly for the opaque operations, which erases the order).
#ifndef BOOST_ATOMIC_ATOMIC_HPP_INCLUDED_
#define BOOST_ATOMIC_ATOMIC_HPP_INCLUDED_
#include <boost/config.hpp>
#include <boost/memory_order.hpp>
#include <atomic>
#include <cstddef>
#define BOOST_ATOMIC_BOOL_LOCK_FREE 2
#define BOOST_ATOMIC_INT_LOCK_FREE 2
#define BOOST_ATOMIC_FLAG_LOCK_FREE 2
namespace boost { namespace atomics {
namespace vpdetail {
BOOST_FORCEINLINE constexpr int mo(boost::memory_order o) { 
    return o == boost::memory_order_relaxed ? __ATOMIC_RELAXED : o == boost::memory_order_consume ? __ATOMIC_CONSUME :
           o == boost::memory_order_acquire ? __ATOMIC_ACQUIRE : o == boost::memory_order_release ? __ATOMIC_RELEASE :
           o == boost::memory_order_acq_rel ? __ATOMIC_ACQ_REL : __ATOMIC_SEQ_CST; }
BOOST_FORCEINLINE constexpr int fmo(boost::memory_order o) {
    return o == boost::memory_order_acq_rel ? __ATOMIC_ACQUIRE : o == boost::memory_order_release ? __ATOMIC_RELAXED : mo(o); }
}
template <typename T> class atomic {
    alignas(sizeof(T)) T v;
public:
    typedef T value_type;
    typedef T difference_type;
    static constexpr bool is_always_lock_free = true;
    atomic() noexcept : v() {}
    constexpr atomic(T x) noexcept : v(x) {}
    atomic(atomic const&) = delete; atomic& operator=(atomic const&) = delete;
    bool is_lock_free() const volatile noexcept { return true; }
    T& value() noexcept { return v; }
    volatile T& value() volatile noexcept { return v; }
    T const& value() const noexcept { return v; }
    T& storage() noexcept { return v; }
    BOOST_FORCEINLINE T load(memory_order o = memory_order_seq_cst) const volatile noexcept { return __atomic_load_n(&v, vpdetail::mo(o)); }
    BOOST_FORCEINLINE void store(T x, memory_order o = memory_order_seq_cst) volatile noexcept { __atomic_store_n(&v, x, vpdetail::mo(o)); }
    BOOST_FORCEINLINE T exchange(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return __atomic_exchange_n(&v, x, vpdetail::mo(o)); }
    BOOST_FORCEINLINE bool compare_exchange_weak(T& e, T d, memory_order s, memory_order f) volatile noexcept { return __atomic_compare_exchange_n(&v, &e, d, true, vpdetail::mo(s), vpdetail::mo(f)); }
    BOOST_FORCEINLINE bool compare_exchange_weak(T& e, T d, memory_order s = memory_order_seq_cst) volatile noexcept { return __atomic_compare_exchange_n(&v, &e, d, true, vpdetail::mo(s), vpdetail::fmo(s)); }
    BOOST_FORCEINLINE bool compare_exchange_strong(T& e, T d, memory_order s, memory_order f) volatile noexcept { return __atomic_compare_exchange_n(&v, &e, d, false, vpdetail::mo(s), vpdetail::mo(f)); }
    BOOST_FORCEINLINE bool compare_exchange_strong(T& e, T d, memory_order s = memory_order_seq_cst) volatile noexcept { return __atomic_compare_exchange_n(&v, &e, d, false, vpdetail::mo(s), vpdetail::fmo(s)); }
#define VP_RMW(name, builtin) \
    BOOST_FORCEINLINE T fetch_##name(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return builtin(&v, x, vpdetail::mo(o)); } \
    BOOST_FORCEINLINE void opaque_##name(T x, memory_order o = memory_order_seq_cst) volatile noexcept { (void)builtin(&v, x, vpdetail::mo(o)); }
    VP_RMW(add, __atomic_fetch_add) VP_RMW(sub, __atomic_fetch_sub) VP_RMW(and, __atomic_fetch_and) VP_RMW(or, __atomic_fetch_or) VP_RMW(xor, __atomic_fetch_xor)
#undef VP_RMW
    BOOST_FORCEINLINE T add(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return (T)(fetch_add(x, o) + x); }
    BOOST_FORCEINLINE T sub(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return (T)(fetch_sub(x, o) - x); }
    BOOST_FORCEINLINE T bitwise_and(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return (T)(fetch_and(x, o) & x); }
    BOOST_FORCEINLINE T bitwise_or(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return (T)(fetch_or(x, o) | x); }
    BOOST_FORCEINLINE T bitwise_xor(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return (T)(fetch_xor(x, o) ^ x); }
    BOOST_FORCEINLINE bool add_and_test(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return add(x, o) != 0; }
    BOOST_FORCEINLINE bool sub_and_test(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return sub(x, o) != 0; }
    BOOST_FORCEINLINE bool and_and_test(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return bitwise_and(x, o) != 0; }
    BOOST_FORCEINLINE bool or_and_test(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return bitwise_or(x, o) != 0; }
    BOOST_FORCEINLINE bool bit_test_and_set(unsigned b, memory_order o = memory_order_seq_cst) volatile noexcept { return (fetch_or((T)((T)1 << b), o) & ((T)1 << b)) != 0; }
    BOOST_FORCEINLINE bool bit_test_and_reset(unsigned b, memory_order o = memory_order_seq_cst) volatile noexcept { return (fetch_and((T)~((T)1 << b), o) & ((T)1 << b)) != 0; }
    BOOST_FORCEINLINE operator T() const volatile noexcept { return load(); }
    BOOST_FORCEINLINE T operator=(T x) volatile noexcept { store(x); return x; }
    BOOST_FORCEINLINE T operator++() volatile noexcept { return add(1); }
    BOOST_FORCEINLINE T operator++(int) volatile noexcept { return fetch_add(1); }
    BOOST_FORCEINLINE T operator--() volatile noexcept { return sub(1); }
    BOOST_FORCEINLINE T operator--(int) volatile noexcept { return fetch_sub(1); }
    BOOST_FORCEINLINE T operator+=(T x) volatile noexcept { return add(x); }
    BOOST_FORCEINLINE T operator-=(T x) volatile noexcept { return sub(x); }
    BOOST_FORCEINLINE T operator&=(T x) volatile noexcept { return bitwise_and(x); }
    BOOST_FORCEINLINE T operator|=(T x) volatile noexcept { return bitwise_or(x); }
};
} using atomics::atomic; 
typedef atomic<int> atomic_int; typedef atomic<unsigned> atomic_uint; typedef atomic<bool> atomic_bool;
}
#endif
