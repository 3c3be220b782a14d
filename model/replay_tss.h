#ifdef VP_TSS
PASS(u32, pthread_key_create, (u32* k, ptr d), ((ptr)k, d)) PASS(u32, pthread_key_delete, (u32 k), (k)) PASS(ptr, pthread_getspecific, (u32 k), (k)) PASS(u32, pthread_setspecific, (u32 k, ptr v), (k, v)) PASS(u32, pthread_once, (ptr c, ptr f), (c, f))
PASS(void, vp_thread_exit, (), ()) PASS(u32, vp_cond_bcast, (ptr c), (c))
PASS(void, vp_preempt_at, (u32 n), (n)) PASS(u32, vp_preempt_left, (), ())
#endif
#ifdef VP_RACEMON
// happens-before by vector clocks over the accesses of the compiled code
#include <set>
#include <array>
typedef std::array<u64, VP_CTX> vpr_vc; static vpr_vc vpr_clk[VP_CTX]; static std::map<void*, vpr_vc> vpr_rel;
static std::map<u64, vpr_vc> vpr_lr, vpr_lw; static std::map<u64, u64> vpr_heap, vpr_dead;
static bool vpr_tracked(u64 a) { auto i = vpr_heap.upper_bound(a); if (i != vpr_heap.begin() && (--i, a < i->first + i->second)) return true; return false; }
extern "C" void vpr_acq(void* p, u32 t) { for (int i = 0; i < VP_CTX; ++i) if (vpr_rel[p][i] > vpr_clk[t][i]) vpr_clk[t][i] = vpr_rel[p][i]; }
extern "C" void vpr_rls(void* p, u32 t) { for (int i = 0; i < VP_CTX; ++i) if (vpr_clk[t][i] > vpr_rel[p][i]) vpr_rel[p][i] = vpr_clk[t][i]; ++vpr_clk[t][t]; }
static void vpr_see(u64 a, u64 n, bool w)
{
    { auto i = vpr_dead.upper_bound(a); if (i != vpr_dead.begin() && (--i, a < i->first + i->second)) vpr_fail("freed memory used", -1); }
    if (!vpr_tracked(a)) return;
    u32 t = vp_t; if (!vpr_clk[t][t]) vpr_clk[t][t] = 1;
    for (u64 b = a; b < a + n; ++b) {
        for (u32 u = 0; u < VP_CTX; ++u) if (u != t && (vpr_lw[b][u] > vpr_clk[t][u] || (w && vpr_lr[b][u] > vpr_clk[t][u]))) vpr_fail("data race", -1);
        (w ? vpr_lw : vpr_lr)[b][t] = vpr_clk[t][t];
    }
}
extern "C" void vpr_rd(ptr p, u64 n) { vpr_see((u64)p, n, false); }
extern "C" void vpr_wr(ptr p, u64 n) { vpr_see((u64)p, n, true); }
static void vpr_born(ptr p, u64 n) { if (p) { vpr_heap[(u64)p] = n; } }
static void vpr_die(ptr p) { auto i = vpr_heap.find((u64)p); if (i != vpr_heap.end()) { vpr_see(i->first, i->second, true); vpr_dead[i->first] = i->second; } }
PASS(void, vp_user_rls, (u32 i), (i)) PASS(void, vp_user_acq, (u32 i), (i))
#endif
