// Native replay: runs the compiled code under test under the schedule and the inputs the solver found.
// Built by tools/engine.py together with the harness's own (uninstrumented apart from scheduling points) object code.
#define VP_NATIVE 1
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <new>
#include <vector>
#include <map>
#include <ucontext.h>
typedef unsigned long long vpr_u64_;
static u_int64_t vpr_dummy;
extern "C" {
#include "model_native.h"
}
static std::vector<vpr_u64_> vpr_inputs; static size_t vpr_ipos;
static std::vector<int> vpr_sched;
static int vpr_failures; static int vpr_want = -2; static int vpr_covered[1000];
extern "C" void vpr_fail(const char* what, int id)
{
    printf("FAILED %s %d\n", what, id); ++vpr_failures; fflush(stdout);
    if (!strcmp(what, "assert")) { if (vpr_want == id) { printf("REPRODUCED\n"); fflush(stdout); _Exit(1); } }
    else { printf("REPRODUCED\n"); fflush(stdout); _Exit(1); }
}
extern "C" void vpr_assume(int c) { if (!c) { printf("DIVERGED assumption\n"); fflush(stdout); _Exit(vpr_failures ? 1 : 3); } }
extern "C" void vpr_cover(int id) { if (id >= 0 && id < 1000 && !vpr_covered[id]) { vpr_covered[id] = 1; printf("COVER %d \n", id); } }
extern "C" u64 vpr_in(void)
{
    if (vpr_ipos >= vpr_inputs.size()) { return 0; }
    return vpr_inputs[vpr_ipos++];
}
// ---- coroutines
static ucontext_t vpr_main, vpr_ctx[8]; static bool vpr_step_mode;
static void vpr_yield() { if (vpr_step_mode && vp_t < VP_NT) { u32 t = vp_t; swapcontext(&vpr_ctx[t], &vpr_main); vp_t = t; } }
#define PASS(R, n, P, A) extern "C" R vpn_##n P { return M_##n A; }
#define YIELD(R, n, P, A) extern "C" R vpn_##n P { if (vpr_step_mode && vp_t < VP_NT) { vp_pre_##n A; vpr_yield(); } return M_##n A; }
#define TWO(R, n, P, A) extern "C" R vpn_##n P { if (!(vpr_step_mode && vp_t < VP_NT)) return M_##n A; vp_pre_none(); vpr_yield(); vp_blocking = 0; R r = M_##n##_begin A; if (vp_blocking) { vp_blocking = 0; vpr_yield(); r = M_##n##_end A; } return r; }
extern "C" void vpn_vp_assert(bool c, int id) { VP_ASSERT(c, id); }
extern "C" void vpn_vp_cover(bool c, int id) { VP_COVER(c, id); }
extern "C" void vpn_vp_assume(bool c) { VP_ASSUME(c); }
extern "C" void vpn_vp_access(u32 i, u64 m, int id) { VP_ACCESS_BODY(i, m, id); }
PASS(bool, vp_nd_bool, (), ()) PASS(u32, vp_nd_lt, (u32 n), (n)) PASS(u32, vp_nd_u32, (), ())
#ifdef VP_TIME_SEQ
PASS(u32, vp_nd_nsec, (), ())
#endif
 PASS(u64, vp_nd_u64, (), ()) PASS(u64, vp_opaque, (u64 x), (x)) PASS(u32, vp_thread_id, (), ())
PASS(bool, vp_executed, (u32 i), (i)) PASS(bool, vp_knows, (u32 i), (i))
PASS(u32, vp_heap_live, (), ()) PASS(u32, vp_mutex_live, (), ()) PASS(u32, vp_cond_live, (), ()) PASS(u32, vp_sem_live, (), ())
PASS(u32, vp_mutex_owner, (ptr m), (m)) PASS(void, vp_set_mutex_owner, (ptr m, u32 o), (m, o)) PASS(u32, vp_sem_value, (ptr m), (m))
PASS(bool, vp_is_done, (u32 t), (t)) PASS(bool, vp_is_blocked, (u32 t), (t)) PASS(bool, vp_is_asleep, (u32 t), (t)) PASS(bool, vp_in_pause, (u32 t), (t))
PASS(u32, vp_cond_signals, (), ()) PASS(u32, vp_cond_broadcasts, (), ()) PASS(u32, vp_seq_waits, (), ()) PASS(u32, vp_spur_left, (), ()) PASS(void, vp_set_thread, (u32 t), (t))
PASS(u32, vp_fail_code, (), ()) PASS(u32, vp_fail_site, (), ()) PASS(void, vp_clear_fail, (), ()) PASS(void, vp_set_failbudget, (u32 n), (n))
#ifdef VP_TIME_SEQ
PASS(void, vp_deadline_rel, (u64 s, u64 n), (s, n)) PASS(void, vp_deadline_clk, (u32 c, u64 s, u64 n), (c, s, n)) PASS(bool, vp_deadline_passed, (), ()) PASS(void, vp_no_deadline, (), ())
PASS(void, vp_never_block, (bool f), (f)) PASS(u32, vp_blocked_calls, (), ()) PASS(u64, vp_clk_sec, (u32 c), (c)) PASS(u64, vp_clk_nsec, (u32 c), (c)) PASS(void, vp_clk_start, (u32 a, u32 b), (a, b)) PASS(void, vp_advance, (), ()) PASS(void, vp_know, (u64 x, u64 q, u64 r, u64 c), (x, q, r, c)) PASS(void, vp_clk_set, (u64 s, u64 n), (s, n)) PASS(u64, vp_rec_sec, (), ()) PASS(u64, vp_rec_nsec, (), ()) PASS(u32, vp_rec_count, (), ())
#endif
YIELD(void, vp_yield, (), ()) YIELD(void, vp_wait_flag, (ptr p), (p)) YIELD(u32, sched_yield, (), ())
extern "C" void vpr_pause() { if (vpr_step_mode && vp_t < VP_NT) { vp_pre_pause(); vpr_yield(); } M_vp_pause(); }
extern "C" void vpn_vp_pause() { vpr_pause(); }
PASS(u32, clock_gettime, (u32 c, ptr p), (c, p)) PASS(u64, _ZNSt6chrono3_V212system_clock3nowEv, (), ()) PASS(u64, _ZNSt6chrono3_V212steady_clock3nowEv, (), ()) PASS(u64, _ZN5boost6chrono12system_clock3nowEv, (), ()) PASS(u64, _ZN5boost6chrono12steady_clock3nowEv, (), ())
PASS(ptr, __errno_location, (), ())
PASS(u32, pthread_mutex_init, (ptr m, ptr a), (m, a)) PASS(u32, pthread_mutex_destroy, (ptr m), (m))
PASS(u32, pthread_mutexattr_init, (ptr a), (a)) PASS(u32, pthread_mutexattr_settype, (ptr a, u32 k), (a, k)) PASS(u32, pthread_mutexattr_destroy, (ptr a), (a))
YIELD(u32, pthread_mutex_lock, (ptr m), (m)) YIELD(u32, pthread_mutex_trylock, (ptr m), (m)) YIELD(u32, pthread_mutex_timedlock, (ptr m, ptr t), (m, t)) YIELD(u32, pthread_mutex_clocklock, (ptr m, u32 c, ptr t), (m, c, t)) YIELD(u32, pthread_mutex_unlock, (ptr m), (m))
PASS(u32, pthread_condattr_init, (ptr a), (a)) PASS(u32, pthread_condattr_setclock, (ptr a, u32 c), (a, c)) PASS(u32, pthread_condattr_destroy, (ptr a), (a))
PASS(u32, pthread_cond_init, (ptr m, ptr a), (m, a)) PASS(u32, pthread_cond_destroy, (ptr m), (m))
TWO(u32, pthread_cond_wait, (ptr c, ptr m), (c, m)) TWO(u32, pthread_cond_timedwait, (ptr c, ptr m, ptr t), (c, m, t)) TWO(u32, pthread_cond_clockwait, (ptr c, ptr m, u32 k, ptr t), (c, m, k, t))
YIELD(u32, pthread_cond_signal, (ptr c), (c)) YIELD(u32, pthread_cond_broadcast, (ptr c), (c))
PASS(u32, sem_init, (ptr s, u32 a, u32 b), (s, a, b)) PASS(u32, sem_destroy, (ptr s), (s)) PASS(u32, sem_getvalue, (ptr s, ptr p), (s, p))
YIELD(u32, sem_wait, (ptr s), (s)) YIELD(u32, sem_trywait, (ptr s), (s)) YIELD(u32, sem_timedwait, (ptr s, ptr t), (s, t)) YIELD(u32, sem_clockwait, (ptr s, u32 c, ptr t), (s, c, t)) YIELD(u32, sem_post, (ptr s), (s))
TWO(u32, futex, (ptr a, u32 op, u32 v, ptr ts, ptr a2, u32 v3), (a, op, v, ts, a2, v3))
extern "C" long vpn_syscall(long n, ...)
{
    va_list ap; va_start(ap, n); long x[6]; for (int i = 0; i < 6; ++i) x[i] = va_arg(ap, long); va_end(ap);
    if (n != 202) { printf("DIVERGED syscall\n"); _Exit(3); }
    return (long)(s32)vpn_futex((ptr)x[0], (u32)x[1], (u32)x[2], (ptr)x[3], (ptr)x[4], (u32)x[5]);
}
extern "C" void vpn___assert_fail(ptr a, ptr b, u32 c, ptr d) { printf("%s:%u: assertion %s\n", (char*)b, c, (char*)a); vpr_fail("assertion in the code failed", -1); _Exit(1); }
extern "C" void vpn_abort() { vpr_fail("abort called", -1); _Exit(1); }
// ---- heap
#ifdef VP_RACEMON
static void vpr_born(ptr p, u64 n); static void vpr_die(ptr p);   // memory is never reused
#else
static void vpr_born(ptr, u64) {} static void vpr_die(ptr p) { free(p); }
#endif
static bool vpr_inject_new() { if (vp_inject_at(FS_NEW)) { vp_fail_site = FS_NEW; vp_fail_code = E_NOMEM; return true; } ++vp_heap_live; return false; }
extern "C" ptr vpn__Znwm(u64 n) { if (vpr_inject_new()) throw std::bad_alloc(); ptr p = (ptr)malloc(n); vpr_born(p, n); return p; }
extern "C" ptr vpn__Znam(u64 n) { return vpn__Znwm(n); }
extern "C" ptr vpn_malloc(u64 n) { if (vpr_inject_new()) return 0; return (ptr)malloc(n); }
extern "C" ptr vpn_calloc(u64 a, u64 b) { if (vpr_inject_new()) return 0; return (ptr)calloc(a, b); }
extern "C" ptr vpn__ZnwmRKSt9nothrow_t(u64 n, ptr) { return vpn_malloc(n); }
extern "C" ptr vpn_realloc(ptr p, u64 n) { if (vpr_inject_new()) return 0; if (p) --vp_heap_live; return (ptr)realloc(p, n); }
extern "C" void vpn_free(ptr p) { if (p) { --vp_heap_live; vpr_die(p); } }
extern "C" void vpn__ZdlPv(ptr p) { vpn_free(p); }
extern "C" void vpn__ZdlPvm(ptr p, u64) { vpn_free(p); }
extern "C" void vpn__ZdaPv(ptr p) { vpn_free(p); }
extern "C" void vpn__ZdaPvm(ptr p, u64) { vpn_free(p); }
// ---- atomics
static std::map<void*, int> vpr_locs;
static int vpr_loc(void* p) { int& i = vpr_locs[p]; if (!i) i = (int)vpr_locs.size() < VP_NLOC ? (int)vpr_locs.size() : VP_NLOC; return i; }
static void vpr_sp() { if (vpr_step_mode && vp_t < VP_NT) { vp_pre_none(); vpr_yield(); } }
static bool vpr_okflag;
extern "C" bool vpr_ok() { return vpr_okflag; }
#define ATOM(S, T) \
extern "C" T vpr_load##S(T* p, u32 o) { vpr_sp(); T v = *p; vp_hb_load(vpr_loc(p), o); return v; } \
extern "C" void vpr_store##S(T* p, T v, u32 o) { vpr_sp(); bool c = *p != v; *p = v; vp_hb_store(vpr_loc(p), o); vp_wr(0, c); } \
extern "C" T vpr_cas##S(T* p, T e, T v, u32 weak, u32 o, u32 fo) { vpr_sp(); T old = *p; bool ok = old == e && !(weak && vp_weak_fail()); \
  if (ok) { *p = v; vp_hb_rmw(vpr_loc(p), o); vp_wr(0, old != v); } else vp_hb_load(vpr_loc(p), fo); vpr_okflag = ok; return old; } \
extern "C" T vpr_xchg##S(T* p, T v, u32 o) { vpr_sp(); T old = *p; *p = v; vp_hb_rmw(vpr_loc(p), o); vp_wr(0, old != v); return old; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64) ATOM(p, ptr)
#define RMW(S, T, ST) \
extern "C" T vpr_rmw##S(T* p, T v, u32 op, u32 o) { vpr_sp(); T old = *p, n = old; switch (op) { case 0: n = old + v; break; case 1: n = old - v; break; case 2: n = old & v; break; \
  case 3: n = old | v; break; case 4: n = old ^ v; break; case 5: n = v; break; case 6: n = ~(old & v); break; case 7: n = old > v ? old : v; break; case 8: n = old < v ? old : v; break; \
  case 9: n = (ST)old > (ST)v ? old : v; break; case 10: n = (ST)old < (ST)v ? old : v; break; } *p = n; vp_hb_rmw(vpr_loc(p), o); vp_wr(0, n != old); return old; }
RMW(8, u8, s8) RMW(16, u16, s16) RMW(32, u32, s32) RMW(64, u64, s64)
extern "C" void vpr_fence(u32 o) { vp_hb_fence(o); }
// ---- thread-local variables of the code under test
static std::map<std::pair<void*, u32>, void*> vpr_tlsmap;
extern "C" ptr vpr_tls(ptr p, u64 n) { void*& q = vpr_tlsmap[std::make_pair((void*)p, vp_t)]; if (!q) { q = malloc(n); memcpy(q, p, n); } return (ptr)q; }
#include "replay_tss.h"
extern "C" { void vp_init(); void vp_quiesce(); void vp_main(); void vp_thread_0(); void vp_thread_1(); void vp_thread_2(); void vp_thread_3(); }
#if VP_NT > 0
static void vpr_entry(int i)
{
    vp_t = i;
    try {
        switch (i) {
        case 0: vp_thread_0(); break;
#if VP_NT > 1
        case 1: vp_thread_1(); break;
#endif
#if VP_NT > 2
        case 2: vp_thread_2(); break;
#endif
#if VP_NT > 3
        case 3: vp_thread_3(); break;
#endif
        }
    } catch (...) { vpr_fail("uncaught exception in thread", -1); }
    vp_dead[i] = 1;
    for (;;) swapcontext(&vpr_ctx[i], &vpr_main);
}
#endif
int main(int argc, char** argv)
{
    // usage: replay TRACE [ASSERT-ID]; TRACE: "S t t t ..." and "I v v v ..."
    setvbuf(stdout, 0, _IONBF, 0);
    FILE* f = fopen(argv[1], "r"); if (!f) return 4;
    if (argc > 2) vpr_want = atoi(argv[2]);
    char k[8]; char tok[64]; bool ins = false;
    while (fscanf(f, "%63s", tok) == 1) {
        if (!strcmp(tok, "S")) ins = false; else if (!strcmp(tok, "I")) ins = true;
        else if (ins) vpr_inputs.push_back(strtoull(tok, 0, 10)); else vpr_sched.push_back(atoi(tok));
    }
    (void)k; (void)vpr_dummy;
    vp_t = VP_NT;
    vp_init();
#if VP_NT > 0
    vpr_step_mode = true;
    for (int i = 0; i < VP_NT; ++i) {
        getcontext(&vpr_ctx[i]); size_t sz = 1 << 20;
        vpr_ctx[i].uc_stack.ss_sp = malloc(sz); vpr_ctx[i].uc_stack.ss_size = sz; vpr_ctx[i].uc_link = &vpr_main;
        makecontext(&vpr_ctx[i], (void (*)())vpr_entry, 1, i);
        vp_t = i; swapcontext(&vpr_main, &vpr_ctx[i]);
    }
    for (size_t s = 0; s < vpr_sched.size(); ++s) {
        u32 t = vpr_sched[s];
        if (t >= VP_NT || !vp_may(t)) { printf("DIVERGED schedule step %zu thread %u\n", s, t); return vpr_failures ? 1 : 3; }
        vp_t = t; swapcontext(&vpr_main, &vpr_ctx[t]);
    }
    bool any = false; for (u32 t = 0; t < VP_NT; ++t) any |= vp_strict(t) != 0;
    vpr_step_mode = false;
    if (!any) {
        // threads that spin are really stuck only if they stay stuck when they go on spinning
        vpr_step_mode = true;
        for (int n = 0; n < 64; ++n) for (u32 t = 0; t < VP_NT; ++t)
            if (!vp_dead[t] && vp_blk[t] == BK_PAUSE) { vp_weak_left = 0; vp_spur_left = 0; vp_t = t; swapcontext(&vpr_main, &vpr_ctx[t]); }
        vpr_step_mode = false;
        vp_t = VP_NT; vp_quiesce();
    }
#else
    vp_t = 0;
    vp_main();
#endif
    printf("COMPLETED failures=%d\n", vpr_failures);
    return vpr_failures ? 1 : 0;
}
