// harness vocabulary: implemented by model/model.h (CBMC) and model/replay.c (native)
#ifndef VP_HPP
#define VP_HPP
#include <new>
typedef unsigned int vp_u32; typedef unsigned long long vp_u64;
extern "C" {
void vp_assert(bool c, int id) noexcept;
void vp_cover(bool c, int id) noexcept;
void vp_assume(bool c) noexcept;
bool vp_nd_bool() noexcept;
vp_u32 vp_nd_lt(vp_u32 n) noexcept;
vp_u32 vp_nd_u32() noexcept;
vp_u32 vp_nd_nsec() noexcept;
vp_u64 vp_nd_u64() noexcept; vp_u64 vp_opaque(vp_u64 x) noexcept;   // identity that the compiler does not look through
vp_u32 vp_thread_id() noexcept;
void vp_yield() noexcept;
void vp_wait_flag(vp_u32* p) noexcept;
void vp_access(vp_u32 i, vp_u64 conflicts, int id) noexcept;
bool vp_executed(vp_u32 i) noexcept;
bool vp_knows(vp_u32 i) noexcept;
vp_u32 vp_heap_live() noexcept; vp_u32 vp_mutex_live() noexcept; vp_u32 vp_cond_live() noexcept; vp_u32 vp_sem_live() noexcept;
vp_u32 vp_mutex_owner(void* m) noexcept; void vp_set_mutex_owner(void* m, vp_u32 o) noexcept;
vp_u32 vp_sem_value(void* m) noexcept;
bool vp_is_done(vp_u32 t) noexcept; bool vp_is_blocked(vp_u32 t) noexcept; bool vp_is_asleep(vp_u32 t) noexcept; bool vp_in_pause(vp_u32 t) noexcept;
vp_u32 vp_cond_signals() noexcept; vp_u32 vp_cond_broadcasts() noexcept; vp_u32 vp_seq_waits() noexcept; vp_u32 vp_spur_left() noexcept;
void vp_set_thread(vp_u32 t) noexcept;
vp_u32 vp_fail_code() noexcept; vp_u32 vp_fail_site() noexcept; void vp_clear_fail() noexcept; void vp_set_failbudget(vp_u32) noexcept;
void vp_deadline_rel(vp_u64 sec, vp_u64 nsec) noexcept; void vp_deadline_clk(vp_u32 clk, vp_u64 sec, vp_u64 nsec) noexcept;
bool vp_deadline_passed() noexcept; void vp_no_deadline() noexcept; void vp_never_block(bool f) noexcept; vp_u32 vp_blocked_calls() noexcept;
vp_u64 vp_clk_sec(vp_u32 clk) noexcept; vp_u64 vp_clk_nsec(vp_u32 clk) noexcept; void vp_clk_start(vp_u32 rn, vp_u32 mn) noexcept; void vp_advance() noexcept;
void vp_know(vp_u64 x, vp_u64 q, vp_u64 r, vp_u64 c) noexcept;   // x = q*c + r, 0 <= r < c
void vp_clk_set(vp_u64 sec, vp_u64 nsec) noexcept; vp_u64 vp_rec_sec() noexcept; vp_u64 vp_rec_nsec() noexcept; vp_u32 vp_rec_count() noexcept;
void vp_thread_exit(); void vp_preempt_at(vp_u32) noexcept; vp_u32 vp_preempt_left() noexcept; void vp_user_rls(vp_u32) noexcept; void vp_user_acq(vp_u32) noexcept; vp_u32 vp_cond_bcast(void* c) noexcept;
void vp_init(); void vp_quiesce(); void vp_main();
void vp_thread_0(); void vp_thread_1(); void vp_thread_2(); void vp_thread_3();
}
template <unsigned A> struct vp_word { typedef unsigned char type; };
template <> struct vp_word<2> { typedef unsigned short type; };
template <> struct vp_word<4> { typedef unsigned int type; };
template <> struct vp_word<8> { typedef unsigned long type; };
// raw storage made of words: objects of the code under test live at constant addresses
template <class T> union vp_cell {
    typename vp_word<alignof(T)>::type w[sizeof(T)/alignof(T)]; T v;
    constexpr vp_cell() : w() {} ~vp_cell() {}
};
#endif
