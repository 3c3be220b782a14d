/* Operating-system, clock, exception and scheduling model shared by the CBMC encoding and the native replay.
 *
 * CBMC:   included by the C generated from the LLVM IR of the harness (tools/ll2c.py); nondeterminism is symbolic.
 * Native: included by model/replay.c (VP_NATIVE); nondeterminism comes from the solver's assignment.
 */
#ifndef VP_MODEL_H
#define VP_MODEL_H

typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
typedef unsigned __int128 u128; typedef __int128 s128;
typedef u8 *ptr;

#ifndef VP_NT
#define VP_NT 0           /* number of concurrent threads; context VP_NT is the initialiser/observer */
#endif
#ifndef VP_CTX
#define VP_CTX (VP_NT + 1)
#endif
#ifndef VP_SPURIOUS
#define VP_SPURIOUS 1     /* budget of spurious wake-ups / EINTR returns over the whole execution */
#endif
#ifndef VP_WEAK
#define VP_WEAK 1         /* budget of spurious weak compare-exchange failures */
#endif
#ifndef VP_FAILBUDGET
#define VP_FAILBUDGET 0   /* budget of injected operating-system failures */
#endif

#ifdef VP_NATIVE
  void vpr_fail(const char *what, int id);
  void vpr_assume(int c);
  void vpr_cover(int id);
  u64 vpr_in(void);
  void *malloc(unsigned long); void free(void *);
# define VP_ASSUME(c) vpr_assume(!!(c))
# define VP_ASSERT(c, id) do { if (!(c)) vpr_fail("assert", (int)(id)); } while (0)
# define VP_COVER(c, id) do { if (c) vpr_cover((int)(id)); } while (0)
# define VP_MODEL_ASSERT(c, what) do { if (!(c)) vpr_fail(what, -1); } while (0)
# define VP_IN() vpr_in()
#else
  u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void);
# define ND_u8 nondet_u8
# define ND_u16 nondet_u16
# define ND_u32 nondet_u32
# define ND_u64 nondet_u64
# define UBV(n) unsigned __CPROVER_bitvector[n]
# define SBV(n) signed __CPROVER_bitvector[n]
  static u64 vp_in;
# define VP_ASSUME(c) __CPROVER_assume(c)
# define VP_ASSERT(c, id) __CPROVER_assert(c, "A:" #id)
# define VP_COVER(c, id) __CPROVER_assert(!(c), "C:" #id)
# define VP_MODEL_ASSERT(c, what) __CPROVER_assert(c, "M:" what)
  static u64 vp_in_(void) { u64 x = nondet_u64(); vp_in = x; return x; }
# define VP_IN() vp_in_()
  void *malloc(__CPROVER_size_t); void free(void *);
#endif

#define M_vp_assert(c, id) VP_ASSERT((c) & 1, id)
#define M_vp_cover(c, id) VP_COVER((c) & 1, id)
#define M_vp_assume(c) VP_ASSUME((c) & 1)
#define VP_FAIL(what) VP_MODEL_ASSERT(0, what)
#define VP_UNREACHABLE() do { VP_MODEL_ASSERT(0, "unreachable code reached"); VP_ASSUME(0); } while (0)
#ifdef VP_CHECK_ARITH
#define VP_DIV0(x) VP_MODEL_ASSERT((x) != 0, "division by zero")
#define VP_OVF_add(T, a, b) VP_MODEL_ASSERT(!__CPROVER_overflow_plus((T)(a), (T)(b)), "signed overflow")
#define VP_OVF_sub(T, a, b) VP_MODEL_ASSERT(!__CPROVER_overflow_minus((T)(a), (T)(b)), "signed overflow")
#define VP_OVF_mul(T, a, b) VP_MODEL_ASSERT(!__CPROVER_overflow_mult((T)(a), (T)(b)), "signed overflow")
#else
#define VP_DIV0(x) ((void)0)
#define VP_OVF_add(T, a, b) ((void)0)
#define VP_OVF_sub(T, a, b) ((void)0)
#define VP_OVF_mul(T, a, b) ((void)0)
#endif

/* ------------------------------------------------------------------ threads */
static u32 vp_t = VP_NT;           /* running context */
static u8 vp_blocking;             /* set by a *_begin function that has to wait */
static u8 vp_dead[VP_CTX];         /* thread has finished */
static u8 vp_uncaught[VP_CTX];

static u32 vp_spur_left = VP_SPURIOUS, vp_weak_left = VP_WEAK, vp_fail_left = VP_FAILBUDGET;

#define BIT(t) (1u << (t))
enum { BK_NONE, BK_MUTEX, BK_MUTEX_T, BK_SEM, BK_SEM_T, BK_COND, BK_COND_T, BK_FUTEX, BK_FUTEX_T, BK_PAUSE, BK_FLAG };
static u8  vp_blk[VP_CTX];         /* what the next step of the thread waits for */
static ptr vp_obj[VP_CTX];         /* its mutex, semaphore, futex word, flag */
static ptr vp_mtx[VP_CTX];         /* condition variable waits: the mutex */
static u8  vp_woken[VP_CTX];
static u8  vp_expired[VP_CTX];     /* a timed condition wait that has left the queue because of its timeout */
static u32 vp_chg = ~0u, vp_chg2 = ~0u;  /* threads for which something has been written since their last pause / the one before */
static u32 vp_errno_[VP_CTX];
static u8  vp_late;                /* concurrent mode: deadlines have passed */

#define VP_OP(t) do { VP_ASSUME(vp_may(t)); VP_LOG(t); } while (0)
#ifndef VP_NATIVE
static u32 vp_log;
#define VP_LOG(t) (vp_log = (t))
static u32 vp_cs;                  /* the running context stops before the operation with this number */
static u32 vp_csin_(void) { return nondet_u16(); }
#define VP_CSIN() vp_csin_()
#endif
static u8 vp_may(u32 t);
#define VP_DONE(i) do { vp_dead[i] = 1; pc_##i = 0xffffffffu; } while (0)
#define VP_UNCAUGHT() do { VP_MODEL_ASSERT(0, "uncaught exception in thread"); vp_uncaught[vp_t] = 1; } while (0)

static u8 vp_nd_bool(void) { u64 x = VP_IN(); VP_ASSUME(x <= 1); return (u8)x; }
static u32 vp_nd_lt(u32 n) { u64 x = VP_IN(); VP_ASSUME(x < n); return (u32)x; }
static u8 M_vp_nd_bool(void) { return vp_nd_bool(); }
static u32 M_vp_nd_lt(u32 n) { return vp_nd_lt(n); }
static u32 M_vp_nd_u32(void) { u64 x = VP_IN(); VP_ASSUME(x <= 0xffffffffULL); return (u32)x; }
static u64 M_vp_nd_u64(void) { return VP_IN(); }
static u32 M_vp_thread_id(void) { return vp_t; }

static u8 vp_spurious(void)
{
    if (vp_spur_left == 0) return 0;
    if (!vp_nd_bool()) return 0;
    --vp_spur_left; return 1;
}
#ifdef VP_TSS
static u32 vp_fail_at;            /* the failing call is fixed by the query: heap shapes stay concrete */
#endif
static u8 vp_inject(void)
{
#ifdef VP_TSS
    if (vp_fail_at == 0) return 0;
    return --vp_fail_at == 0;
#endif
#if VP_FAILBUDGET > 0
    if (vp_fail_left == 0) return 0;
    if (!vp_nd_bool()) return 0;
    --vp_fail_left; return 1;
#else
    return 0;
#endif
}

#ifndef VP_FAILSITES
#define VP_FAILSITES (~0u)        /* the calls that may fail */
#endif
#define vp_inject_at(site) (((VP_FAILSITES) >> (site) & 1u) && vp_inject())
static u32 vp_any_error(u32 a, u32 b) { u32 x = vp_nd_lt(134); VP_ASSUME(x != 0 && x != a && x != b); return x; }   /* any error number without a meaning of its own */

/* ------------------------------------------------------------------ happens-before monitor (bit sets of markers) */
#ifndef VP_NLOC
#define VP_NLOC 12
#endif
static u64 vp_K[VP_CTX], vp_E;           /* what each context knows; everything executed */
static u64 vp_rel[VP_NLOC + 1];          /* knowledge carried by atomic locations */
static u64 vp_frel[VP_CTX], vp_facq[VP_CTX];
#ifdef VP_NO_HB
#define vp_hb_load(l, o) ((void)0)
#define vp_hb_store(l, o) ((void)0)
#define vp_hb_rmw(l, o) ((void)0)
#define vp_hb_fence(o) ((void)0)
#define vp_hb_acq(p) ((void)0)
#define vp_hb_rls(p) ((void)0)
#else
/* order codes: 0 relaxed, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst */
static void vp_hb_load(u32 l, u32 o)
{
    u64 r = vp_rel[l];
    if (o == 2 || o >= 4) vp_K[vp_t] |= r; else vp_facq[vp_t] |= r;
}
static void vp_hb_store(u32 l, u32 o)
{
    if (o >= 3) vp_rel[l] = vp_K[vp_t]; else vp_rel[l] = vp_frel[vp_t];
}
static void vp_hb_rmw(u32 l, u32 o)
{
    u64 r = vp_rel[l];
    if (o == 2 || o >= 4) vp_K[vp_t] |= r; else vp_facq[vp_t] |= r;
    if (o >= 3) vp_rel[l] = r | vp_K[vp_t]; else vp_rel[l] = r | vp_frel[vp_t];  /* release sequence continues */
}
static void vp_hb_fence(u32 o)
{
    if (o == 2 || o >= 4) vp_K[vp_t] |= vp_facq[vp_t];
    if (o >= 3) vp_frel[vp_t] = vp_K[vp_t];
}
#define vp_hb_acq(p) (vp_K[vp_t] |= (p))
#define vp_hb_rls(p) ((p) |= vp_K[vp_t])
#endif
/* ---- data races: one access of the solver's choice is watched, bit 63 of vp_K tells who is ordered after it */
#ifdef VP_RACEMON
static u64 vp_user[8];                   /* synchronisation by the user of the library */
#ifdef VP_NATIVE
#undef vp_hb_acq
#undef vp_hb_rls
void vpr_acq(void* p, u32 t); void vpr_rls(void* p, u32 t);
#define vp_hb_acq(p) vpr_acq(&(p), vp_t)
#define vp_hb_rls(p) vpr_rls(&(p), vp_t)
#else
static ptr vp_w_p; static u64 vp_w_n; static u8 vp_w_on, vp_w_wr; static u32 vp_w_t;
static u8 nondet_u8_w(void);
static void vp_race(ptr p, u64 n, u8 wr, u8 lib)
{
    if (!lib && !__CPROVER_DYNAMIC_OBJECT(p)) return;
    if (vp_w_on) {
        if (vp_w_t != vp_t && (wr || vp_w_wr) && !(vp_K[vp_t] >> 63) && __CPROVER_same_object(p, vp_w_p)) {
            u64 a = __CPROVER_POINTER_OFFSET(p), b = __CPROVER_POINTER_OFFSET(vp_w_p);
            VP_MODEL_ASSERT(!(a < b + vp_w_n && b < a + n), "data race");
        }
    } else { u8 x; if (x) { vp_w_on = 1; vp_w_p = p; vp_w_n = n; vp_w_wr = wr; vp_w_t = vp_t; vp_K[vp_t] |= 1ULL << 63; } }
}
#define VP_RACE_RD(p, n, lib) vp_race((ptr)(p), (n), 0, lib)
#define VP_RACE_WR(p, n, lib) vp_race((ptr)(p), (n), 1, lib)
#endif
static void M_vp_user_rls(u32 i) { vp_hb_rls(vp_user[i]); }
static void M_vp_user_acq(u32 i) { vp_hb_acq(vp_user[i]); }
#endif
#ifndef VP_RACE_RD
#define VP_RACE_RD(p, n, lib) ((void)0)
#define VP_RACE_WR(p, n, lib) ((void)0)
#endif
/* value really changed -> spinning threads may make progress */
static void vp_wr(u32 l, u8 changed) { (void)l; if (changed) vp_chg |= ~BIT(vp_t); }
static void vp_rd(u32 l) { (void)l; }
static u8 vp_weak_fail(void)
{
    if (vp_weak_left == 0) return 0;
    if (!vp_nd_bool()) return 0;
    --vp_weak_left; vp_chg |= BIT(vp_t); return 1;
}
/* harness markers: access number i (unique per execution) that conflicts with the accesses in mask */
#define VP_ACCESS_BODY(i, mask, id) do { VP_ASSERT(((vp_E & (mask)) & ~vp_K[vp_t]) == 0, id); vp_E |= 1ULL << (i); vp_K[vp_t] |= 1ULL << (i); } while (0)
#define M_vp_access(i, mask, id) VP_ACCESS_BODY(i, mask, id)
static u8 M_vp_executed(u32 i) { return (u8)(vp_E >> i & 1); }
static u8 M_vp_knows(u32 i) { return (u8)(vp_K[vp_t] >> i & 1); }

/* ------------------------------------------------------------------ yields and pauses */
static void vp_pre_none(void) { vp_blk[vp_t] = BK_NONE; }
static void vp_pre_pause(void) { vp_blk[vp_t] = BK_PAUSE; }
static void M_vp_pause(void) { vp_chg2 = (vp_chg2 & ~BIT(vp_t)) | (vp_chg & BIT(vp_t)); vp_chg &= ~BIT(vp_t); }
#define vp_pre_vp_pause vp_pre_pause
#define vp_pre_vp_yield vp_pre_none
#define vp_pre_sched_yield vp_pre_pause
static void M_vp_yield(void) {}
static u32 M_sched_yield(void) { M_vp_pause(); return 0; }
/* waits until *(u32*)p is nonzero (harness flag) */
static void vp_pre_vp_wait_flag(ptr p) { vp_blk[vp_t] = BK_FLAG; vp_obj[vp_t] = p; }
static void M_vp_wait_flag(ptr p) { VP_ASSUME(*(u32*)p != 0); vp_blk[vp_t] = BK_NONE; }

/* ------------------------------------------------------------------ division and multiplication by 10^9 */
#define VP_G 1000000000LL
#ifndef VP_RT0_SEC
#define VP_RT0_SEC 1500000000LL
#endif
#ifndef VP_MONO0_SEC
#define VP_MONO0_SEC 5000LL
#endif
#if defined(VP_TIME_SEQ) && !defined(VP_NATIVE) && (!defined(VP_REC) || defined(VP_SMALL))
/* exact for every operand; operands near the times of the query go through a case split instead of a divider circuit */
#define VP_W 24
#define VP_X23 VP_X(1) VP_X(2) VP_X(3) VP_X(4) VP_X(5) VP_X(6) VP_X(7) VP_X(8) VP_X(9) VP_X(10) VP_X(11) VP_X(12) VP_X(13) VP_X(14) VP_X(15) VP_X(16) VP_X(17) VP_X(18) VP_X(19) VP_X(20) VP_X(21) VP_X(22) VP_X(23)
typedef struct { u8 in; s64 q, r; } vp_dm;
static vp_dm vp_divmod9(s64 x)      /* floor division if x lies in one of the windows */
{
    vp_dm d = { 0, 0, 0 }; s64 b = 0, qb = 0;
    if (x >= -8*VP_G && x < (-8 + VP_W)*VP_G) { d.in = 1; b = -8*VP_G; qb = -8; }
    else if (x >= (VP_RT0_SEC - 8)*VP_G && x < (VP_RT0_SEC - 8 + VP_W)*VP_G) { d.in = 1; b = (VP_RT0_SEC - 8)*VP_G; qb = VP_RT0_SEC - 8; }
    else if (x >= (VP_MONO0_SEC - 8)*VP_G && x < (VP_MONO0_SEC - 8 + VP_W)*VP_G) { d.in = 1; b = (VP_MONO0_SEC - 8)*VP_G; qb = VP_MONO0_SEC - 8; }
    {
        s64 y = x - b, m = 0; u8 k = 0;
#define VP_X(i) if (y >= (s64)(i)*VP_G) { m = (s64)(i)*VP_G; k = (u8)(i); }
        VP_X23
#undef VP_X
        d.q = qb + k; d.r = y - m;
    }
    return d;
}
#ifdef VP_EXACT_DIV
#define VP_OUTW(e) (e)
#else
#define VP_OUTW(e) nondet_u64()     /* over-approximation outside the windows; queries that fail because of it are repeated exactly */
#endif
static u64 VP_SDIV9(u64 x) { vp_dm d = vp_divmod9((s64)x); if (d.in) return (u64)(d.q < 0 && d.r != 0 ? d.q + 1 : d.q); return VP_OUTW((u64)((s64)x / VP_G)); }
static u64 VP_SREM9(u64 x) { vp_dm d = vp_divmod9((s64)x); if (d.in) return (u64)(d.q < 0 && d.r != 0 ? d.r - VP_G : d.r); return VP_OUTW((u64)((s64)x % VP_G)); }
static u64 VP_UDIV9(u64 x) { vp_dm d = vp_divmod9((s64)x); if (d.in && (s64)x >= 0) return (u64)d.q; return VP_OUTW(x / (u64)VP_G); }
static u64 VP_UREM9(u64 x) { vp_dm d = vp_divmod9((s64)x); if (d.in && (s64)x >= 0) return (u64)d.r; return VP_OUTW(x % (u64)VP_G); }
static u64 VP_MUL9(u64 x)
{
    s64 s = (s64)x, b, y; u64 m = 0;
    if (s >= -8 && s < -8 + VP_W) b = -8; else if (s >= VP_RT0_SEC - 8 && s < VP_RT0_SEC - 8 + VP_W) b = VP_RT0_SEC - 8; else if (s >= VP_MONO0_SEC - 8 && s < VP_MONO0_SEC - 8 + VP_W) b = VP_MONO0_SEC - 8;
    else return x * (u64)VP_G;
    y = s - b;
#define VP_X(i) if (y == (s64)(i)) m = (u64)(i)*(u64)VP_G;
    VP_X23
#undef VP_X
    return (u64)b*(u64)VP_G + m;
}
static void M_vp_know(u64 x, u64 q, u64 r, u64 c) { (void)x; (void)q; (void)r; (void)c; }
#elif defined(VP_REC) && !defined(VP_NATIVE)
/* Quotients are looked up among multiples that are known because the harness announced them or a multiplication made them:
   if p = q*c is known and p <= x < p + c then the floor of x / c is q. Exact division only if VP_EXACT_DIV. */
#ifndef VP_NK
#define VP_NK 5
#endif
static s64 vp_mul_p[VP_NK], vp_mul_q[VP_NK], vp_mul_c[VP_NK]; static u8 vp_nmul;
static void vp_know(s64 p, s64 q, s64 c) { for (u8 i = 0; i < VP_NK; ++i) if (vp_nmul == i) { vp_mul_p[i] = p; vp_mul_q[i] = q; vp_mul_c[i] = c; } if (vp_nmul < VP_NK) ++vp_nmul; }
typedef struct { u8 in; s64 q, r; } vp_dm;
static vp_dm vp_divmodc(s64 x, s64 c)
{
    vp_dm d = { 0, 0, 0 };
    for (u8 i = 0; i < VP_NK; ++i) if (i < vp_nmul && vp_mul_c[i] == c) {
        s64 y = (s64)((u64)x - (u64)vp_mul_p[i]);
        if (y >= 0 && y < c) { d.in = 1; d.q = vp_mul_q[i]; d.r = y; }
        else if (y < 0 && y >= -c) { d.in = 1; d.q = vp_mul_q[i] - 1; d.r = y + c; }
        else if (y >= c && y < 2*c) { d.in = 1; d.q = vp_mul_q[i] + 1; d.r = y - c; }
    }
    return d;
}
#ifdef VP_EXACT_DIV
#define VP_OUTW(e) (e)
#else
#define VP_OUTW(e) nondet_u64()
#endif
static u64 VP_SDIVC(u64 x, u64 c) { vp_dm d = vp_divmodc((s64)x, (s64)c); if (d.in) return (u64)(d.q < 0 && d.r != 0 ? d.q + 1 : d.q); return VP_OUTW((u64)((s64)x / (s64)c)); }
static u64 VP_SREMC(u64 x, u64 c) { vp_dm d = vp_divmodc((s64)x, (s64)c); if (d.in) return (u64)(d.q < 0 && d.r != 0 ? d.r - (s64)c : d.r); return VP_OUTW((u64)((s64)x % (s64)c)); }
static u64 VP_UDIVC(u64 x, u64 c) { vp_dm d = vp_divmodc((s64)x, (s64)c); if (d.in && (s64)x >= 0) return (u64)d.q; return VP_OUTW(x / c); }
static u64 VP_UREMC(u64 x, u64 c) { vp_dm d = vp_divmodc((s64)x, (s64)c); if (d.in && (s64)x >= 0) return (u64)d.r; return VP_OUTW(x % c); }
static u64 VP_MUL9(u64 x)
{
    s64 s = (s64)x; u64 p = 0; u8 f = 0;
#ifdef VP_MULLOOK
    for (u8 i = 0; i < VP_NK; ++i) if (!f && i < vp_nmul && vp_mul_c[i] == VP_G) {
        if (s == vp_mul_q[i]) { p = (u64)vp_mul_p[i]; f = 1; }
        else if (s == vp_mul_q[i] + 1) { p = (u64)vp_mul_p[i] + (u64)VP_G; f = 1; }
        else if (s == vp_mul_q[i] - 1) { p = (u64)vp_mul_p[i] - (u64)VP_G; f = 1; }
        else if (s == -vp_mul_q[i]) { p = 0 - (u64)vp_mul_p[i]; f = 1; }
    }
#endif
    if (!f) { p = x * (u64)VP_G; if (s > -9223372036LL && s < 9223372036LL) vp_know((s64)p, s, VP_G); }
    return p;
}
/* a product that has been computed before is not computed again */
static u64 vp_mm_x[6], vp_mm_c[6], vp_mm_p[6]; static u8 vp_nmm;
static u64 VP_MULC(u64 x, u64 c)
{
    if (c == (u64)VP_G) return VP_MUL9(x);
    u64 p = 0; u8 f = 0, i;
    for (i = 0; i < 6; ++i) if (!f && i < vp_nmm && vp_mm_c[i] == c && vp_mm_x[i] == x) { p = vp_mm_p[i]; f = 1; }
    if (!f) { p = x*c; for (i = 0; i < 6; ++i) if (vp_nmm == i) { vp_mm_x[i] = x; vp_mm_c[i] = c; vp_mm_p[i] = p; } if (vp_nmm < 6) ++vp_nmm; }
    return p;
}
static void M_vp_know(u64 x, u64 q, u64 r, u64 c) { vp_know((s64)(x - r), (s64)q, (s64)c); }
#else
static void M_vp_know(u64 x, u64 q, u64 r, u64 c) { (void)x; (void)q; (void)r; (void)c; }
#define VP_SDIV9(x) ((u64)((s64)(x) / VP_G))
#define VP_SREM9(x) ((u64)((s64)(x) % VP_G))
#define VP_UDIV9(x) ((u64)(x) / (u64)VP_G)
#define VP_UREM9(x) ((u64)(x) % (u64)VP_G)
#define VP_MUL9(x) ((u64)(x) * (u64)VP_G)
#endif
#if !(defined(VP_REC) && !defined(VP_NATIVE) && !defined(VP_SMALL))
#define VP_MULC(x, c) ((c) == (u64)VP_G ? VP_MUL9(x) : (u64)((x)*(c)))
#define VP_SDIVC(x, c) ((c) == (u64)VP_G ? VP_SDIV9(x) : (u64)((s64)(x) / (s64)(c)))
#define VP_SREMC(x, c) ((c) == (u64)VP_G ? VP_SREM9(x) : (u64)((s64)(x) % (s64)(c)))
#define VP_UDIVC(x, c) ((c) == (u64)VP_G ? VP_UDIV9(x) : (u64)((x) / (c)))
#define VP_UREMC(x, c) ((c) == (u64)VP_G ? VP_UREM9(x) : (u64)((x) % (c)))
#endif
static u64 M_vp_opaque(u64 x) { return x; }
/* ------------------------------------------------------------------ clocks */
typedef struct { s64 sec; s64 nsec; } vp_ts;      /* layout of struct timespec */
static vp_ts vp_el;            /* elapsed virtual time */
static vp_ts vp_rt0 = { VP_RT0_SEC, 0 }, vp_mono0 = { VP_MONO0_SEC, 0 };
static vp_ts vp_add(vp_ts a, vp_ts b)
{
    vp_ts r; r.sec = a.sec + b.sec; r.nsec = a.nsec + b.nsec;
    if (r.nsec >= 1000000000) { r.nsec -= 1000000000; r.sec += 1; }
    return r;
}
static vp_ts vp_sub(vp_ts a, vp_ts b)
{
    vp_ts r; r.sec = a.sec - b.sec; r.nsec = a.nsec - b.nsec;
    if (r.nsec < 0) { r.nsec += 1000000000; r.sec -= 1; }
    return r;
}
static u8 vp_tlt(vp_ts a, vp_ts b) { return (u8)(a.sec < b.sec || (a.sec == b.sec && a.nsec < b.nsec)); }
static u8 vp_tle(vp_ts a, vp_ts b) { return (u8)!vp_tlt(b, a); }
#ifndef VP_LATE_SEC
#define VP_LATE_SEC 1000000
#endif
static vp_ts vp_now(u32 clk)
{
    vp_ts e = vp_el;
#ifndef VP_TIME_SEQ
    if (vp_late) e.sec += VP_LATE_SEC;
#endif
    return vp_add(clk == 0 ? vp_rt0 : vp_mono0, e);
}
static u32 M_clock_gettime(u32 clk, ptr ts)
{
    /* CLOCK_REALTIME 0, CLOCK_MONOTONIC 1, and the raw/coarse/boottime variants */
    *(vp_ts*)ts = vp_now(clk == 0 || clk == 5 ? 0 : 1); return 0;
}
static u64 vp_ns(vp_ts t) { return VP_MUL9((u64)t.sec) + (u64)t.nsec; }
static u64 M__ZNSt6chrono3_V212system_clock3nowEv(void) { return vp_ns(vp_now(0)); }
static u64 M__ZNSt6chrono3_V212steady_clock3nowEv(void) { return vp_ns(vp_now(1)); }
static u64 M__ZN5boost6chrono12system_clock3nowEv(void) { return vp_ns(vp_now(0)); }
static u64 M__ZN5boost6chrono12steady_clock3nowEv(void) { return vp_ns(vp_now(1)); }

#ifdef VP_TIME_SEQ
/* sequential timing mode: a blocking call with a deadline on a clock, or without one */
static u8 vp_rd_set;          /* the harness has announced the requested deadline */
static vp_ts vp_rd_el;        /* the requested deadline, in elapsed time */
static u8 vp_blocked_calls;   /* how many blocking calls were made */
static u8 vp_never_block;     /* the harness expects that no blocking call is made */
static vp_ts vp_to_el(u32 clk, vp_ts t) { return vp_sub(t, clk == 0 ? vp_rt0 : vp_mono0); }
#ifndef VP_MAXADV
#define VP_MAXADV 7
#endif
/* a subsecond part: near 0, near one half, or near one second */
#ifndef VP_NSBITS
#define VP_NSBITS 10
#endif
static u32 vp_nsec(void)
{
#if VP_NSBITS == 0
    { u64 k = VP_IN(); VP_ASSUME(k < 3); return k == 0 ? 0u : k == 1 ? 500000000u : 999999999u; }
#else
    u64 k = VP_IN(), x = VP_IN(); VP_ASSUME(k < 3); VP_ASSUME(x < (1u << VP_NSBITS));
    return (u32)x + (k == 0 ? 0u : k == 1 ? 500000000u - (1u << (VP_NSBITS - 1)) : 1000000000u - (1u << VP_NSBITS));
#endif
}
static u32 M_vp_nd_nsec(void) { return vp_nsec(); }
static s64 vp_jump; static u8 vp_blk_rt;   /* last jump; the blocking call waits for a realtime time point */
static void vp_advance(void)
{
    vp_ts d; u64 s = VP_IN();
    VP_ASSUME(s <= VP_MAXADV);
    d.sec = (s64)s; d.nsec = (s64)vp_nsec(); vp_el = vp_add(vp_el, d);
#ifdef VP_CLOCK_JUMP
    /* the realtime clock is set forward, the monotonic clock is not */
    vp_jump = vp_nd_lt(VP_CLOCK_JUMP + 1); vp_rt0.sec += vp_jump;
#endif
}
/* checks the deadline handed to the operating system; D in elapsed time */
static void vp_check_deadline(u8 has, vp_ts D)
{
    if (vp_blocked_calls < 255) ++vp_blocked_calls;
    VP_ASSERT(!vp_never_block, 901);                                  /* must not block at all */
    if (vp_rd_set) {
        VP_ASSERT(has, 902);                                           /* unbounded block in a timed operation */
        if (has) VP_ASSERT(vp_tle(D, vp_rd_el) || vp_tle(D, vp_el), 903);   /* would block past the requested deadline */
    }
}
enum { OUT_OK, OUT_INTR, OUT_TIMEOUT };
/* outcome of a blocking call; can_ok: success possible */
static vp_ts vp_rec_ts; static u32 vp_rec_n;     /* the deadline handed to the operating system last, on the realtime clock */
#ifdef VP_REC
#define VP_RECTS(x) (vp_rec_ts = (x), ++vp_rec_n)
#else
#define VP_RECTS(x) ((void)0)
#endif
static u32 vp_block(u8 has, vp_ts D, u8 can_ok)
{
#ifdef VP_REC
    VP_ASSERT(has, 902); vp_el = D; (void)can_ok; return OUT_TIMEOUT;
#endif
    vp_check_deadline(has, D);
    u32 o = vp_nd_lt(3);
    vp_advance();
    if (vp_blk_rt) D.sec -= vp_jump;
    if (o == OUT_OK) VP_ASSUME(can_ok);
    if (o == OUT_INTR) { VP_ASSUME(vp_spur_left > 0); --vp_spur_left; }
    if (o == OUT_TIMEOUT) { VP_ASSUME(has); VP_ASSUME(vp_tle(D, vp_el)); }
    return o;
}
static u8 vp_rd_bad(vp_ts t) { return (u8)(t.nsec < 0 || t.nsec >= 1000000000); }
#endif

static ptr M___errno_location(void) { return (ptr)&vp_errno_[vp_t]; }
#define VP_ERR(e) (vp_errno_[vp_t] = (e), (u32)-1)
#define E_PERM 1
#define E_INTR 4
#define E_AGAIN 11
#define E_NOMEM 12
#define E_BUSY 16
#define E_INVAL 22
#define E_DEADLK 35
#define E_OVERFLOW 75
#define E_TIMEDOUT 110
static u32 vp_fail_code;          /* the error the model injected last (0: none) */
static u32 vp_fail_site;          /* which kind of call */
enum { FS_NONE, FS_MUTEX_INIT, FS_COND_INIT, FS_SEM_INIT, FS_MUTEX_LOCK, FS_MUTEX_TRYLOCK, FS_MUTEX_TIMEDLOCK, FS_COND_WAIT, FS_COND_TIMEDWAIT,
       FS_SEM_WAIT, FS_SEM_TRYWAIT, FS_SEM_TIMEDWAIT, FS_SEM_POST, FS_NEW, FS_KEY_CREATE, FS_SETSPECIFIC, FS_ONCE, FS_CONDATTR };
static u32 M_vp_fail_code(void) { return vp_fail_code; }
static u32 M_vp_fail_site(void) { return vp_fail_site; }
static void M_vp_clear_fail(void) { vp_fail_code = 0; vp_fail_site = 0; }
#ifdef VP_TSS
static void M_vp_set_failbudget(u32 n) { vp_fail_at = n; }
#else
static void M_vp_set_failbudget(u32 n) { vp_fail_left = n; }
#endif

/* ------------------------------------------------------------------ mutexes: u32[0] = owner + 1, u32[1] = magic, u64[1] = knowledge */
#define MX(m) (((u32*)(m))[0])
#define MXREL(m) (((u64*)(m))[1])
#define ME (vp_t + 1)
static u32 vp_mutex_live;        /* initialised and not destroyed */
static u32 M_pthread_mutex_init(ptr m, ptr attr)
{
    (void)attr;
    if (vp_inject_at(FS_MUTEX_INIT)) { vp_fail_code = vp_any_error(0,0); vp_fail_site = FS_MUTEX_INIT; return vp_fail_code; }
    MX(m) = 0; MXREL(m) = 0; ++vp_mutex_live; return 0;
}
static u32 M_pthread_mutex_destroy(ptr m) { VP_MODEL_ASSERT(MX(m) == 0, "locked mutex destroyed"); --vp_mutex_live; return 0; }
static void vp_mx_take(ptr m) { MX(m) = ME; vp_hb_acq(MXREL(m)); vp_chg |= ~BIT(vp_t); }
static void vp_mx_drop(ptr m) { vp_hb_rls(MXREL(m)); MX(m) = 0; vp_chg |= ~BIT(vp_t); }
static void vp_pre_pthread_mutex_lock(ptr m) { vp_blk[vp_t] = BK_MUTEX; vp_obj[vp_t] = m; }
#ifdef VP_TSS
static u32 vp_pre_at;                    /* another thread runs before the n-th lock operation */
static void M_vp_preempt_at(u32 n) { vp_pre_at = n; }
static u32 M_vp_preempt_left(void) { return vp_pre_at; }
#if defined(VP_PREEMPT) && defined(VP_NATIVE)
#define F_vpx_preempt vpx_preempt
void vpx_preempt(void);
#elif defined(VP_PREEMPT)
static void F_vpx_preempt(void);
#else
#define F_vpx_preempt() ((void)0)
#endif
#endif
static u32 M_pthread_mutex_lock(ptr m)
{
#ifdef VP_TSS
    if (vp_pre_at != 0 && --vp_pre_at == 0) { u32 t = vp_t; F_vpx_preempt(); vp_t = t; }
#endif
#ifndef VP_TSS
    if (vp_inject_at(FS_MUTEX_LOCK)) { vp_fail_code = vp_any_error(4,0); vp_fail_site = FS_MUTEX_LOCK; return vp_fail_code; }
#endif
#ifdef VP_EINTR_BUG
    if (vp_spurious()) return E_INTR;
#endif
#ifdef VP_TIME_SEQ
    { vp_ts z = {0, 0}; if (MX(m) != 0) { VP_MODEL_ASSERT(MX(m) != ME, "self-deadlock"); vp_check_deadline(0, z); vp_advance(); MX(m) = 0; } }
#else
    VP_MODEL_ASSERT(MX(m) != ME, "self-deadlock");
    VP_ASSUME(MX(m) == 0);
#endif
    vp_mx_take(m); return 0;
}
#define vp_pre_pthread_mutex_trylock(m) vp_pre_none()
static u32 M_pthread_mutex_trylock(ptr m)
{
    if (vp_inject_at(FS_MUTEX_TRYLOCK)) { vp_fail_code = vp_any_error(16,4); vp_fail_site = FS_MUTEX_TRYLOCK; return vp_fail_code; }
#ifdef VP_EINTR_BUG
    if (vp_spurious()) return E_INTR;
#endif
    if (MX(m) != 0) return E_BUSY;
    vp_mx_take(m); return 0;
}
static void vp_pre_pthread_mutex_timedlock(ptr m, ptr ts) { (void)ts; vp_blk[vp_t] = BK_MUTEX_T; vp_obj[vp_t] = m; }
static u32 vp_timedlock(ptr m, u32 clk, ptr tsp)
{
    if (vp_inject_at(FS_MUTEX_TIMEDLOCK)) { vp_fail_code = vp_any_error(110,4); vp_fail_site = FS_MUTEX_TIMEDLOCK; return vp_fail_code; }
#ifdef VP_TIME_SEQ
    if (MX(m) != 0) {
        vp_ts t = *(vp_ts*)tsp;
        VP_ASSERT(!vp_rd_bad(t), 905); VP_RECTS(t);
        VP_MODEL_ASSERT(MX(m) != ME, "self-deadlock");
        if (vp_rd_bad(t)) return E_INVAL;
        vp_ts D = vp_to_el(clk, t);
        if (vp_tle(D, vp_el)) return E_TIMEDOUT;      /* already expired: does not block */
        vp_blk_rt = clk == 0; u32 o = vp_block(1, D, 1);
        if (o == OUT_INTR) { VP_ASSUME(0); }
        if (o == OUT_TIMEOUT) return E_TIMEDOUT;
        MX(m) = 0;
    }
    vp_mx_take(m); return 0;
#else
    (void)clk; (void)tsp;
    VP_MODEL_ASSERT(MX(m) != ME, "self-deadlock");
    if (MX(m) != 0) { vp_late = 1; return E_TIMEDOUT; }
    vp_mx_take(m); return 0;
#endif
}
static u32 M_pthread_mutex_timedlock(ptr m, ptr ts) { return vp_timedlock(m, 0, ts); }
static void vp_pre_pthread_mutex_clocklock(ptr m, u32 c, ptr ts) { (void)c; vp_pre_pthread_mutex_timedlock(m, ts); }
static u32 M_pthread_mutex_clocklock(ptr m, u32 c, ptr ts) { return vp_timedlock(m, c, ts); }
#define vp_pre_pthread_mutex_unlock(m) vp_pre_none()
static u32 M_pthread_mutex_unlock(ptr m)
{
    VP_MODEL_ASSERT(MX(m) == ME, "unlocking a mutex that the thread does not own");
#ifdef VP_EINTR_BUG
    if (vp_spurious()) return E_INTR;
#endif
    vp_mx_drop(m); return 0;
}
static u32 M_pthread_mutexattr_init(ptr a) { (void)a; return 0; }
static u32 M_pthread_mutexattr_settype(ptr a, u32 k) { (void)a; (void)k; return 0; }
static u32 M_pthread_mutexattr_destroy(ptr a) { (void)a; return 0; }

/* ------------------------------------------------------------------ condition variables: u32[0] = clock */
static u32 M_pthread_condattr_init(ptr a) { *(u32*)a = 0; return 0; }
static u32 M_pthread_condattr_setclock(ptr a, u32 c) { *(u32*)a = c; return 0; }
static u32 M_pthread_condattr_destroy(ptr a) { (void)a; return 0; }
static u32 vp_cond_live;
static u32 M_pthread_cond_init(ptr c, ptr a)
{
    if (vp_inject_at(FS_COND_INIT)) { vp_fail_code = vp_any_error(0,0); vp_fail_site = FS_COND_INIT; return vp_fail_code; }
    ((u32*)c)[0] = a ? *(u32*)a : 0; ++vp_cond_live; return 0;
}
static u32 M_pthread_cond_destroy(ptr c) { (void)c; --vp_cond_live; return 0; }

static void vp_cond_begin(ptr c, ptr m, u8 timed)
{
    VP_MODEL_ASSERT(MX(m) == ME, "condition wait without owning the mutex");
    vp_mx_drop(m);
    vp_blk[vp_t] = timed ? BK_COND_T : BK_COND; vp_obj[vp_t] = c; vp_mtx[vp_t] = m; vp_woken[vp_t] = 0; vp_expired[vp_t] = 0; vp_blocking = 1;
}
static u32 vp_cond_end(u8 timed)
{
    ptr m = vp_mtx[vp_t];
    VP_ASSUME(MX(m) == 0);
    u8 w = vp_woken[vp_t], x = vp_expired[vp_t];
    vp_blk[vp_t] = BK_NONE; vp_obj[vp_t] = 0;
    u32 r = 0;
    if (!w) {
        if (timed && (x || !vp_spurious())) { r = E_TIMEDOUT; vp_late = 1; }
        else if (!timed) { VP_ASSUME(vp_spur_left > 0); --vp_spur_left; }
    }
#ifdef VP_EINTR_BUG
    if (r == 0 && vp_spurious()) r = E_INTR;
#endif
    vp_mx_take(m); return r;
}
static u8 vp_cw(u32 t, ptr c) { return (u8)((vp_blk[t] == BK_COND || vp_blk[t] == BK_COND_T) && vp_obj[t] == c && !vp_woken[t] && !vp_expired[t]); }
static u32 M_pthread_cond_wait_begin(ptr c, ptr m)
{
    if (vp_inject_at(FS_COND_WAIT)) { vp_fail_code = vp_any_error(4,0); vp_fail_site = FS_COND_WAIT; vp_blocking = 0; return vp_fail_code; }
    vp_cond_begin(c, m, 0); return 0;
}
static u32 M_pthread_cond_wait_end(ptr c, ptr m) { (void)c; (void)m; return vp_cond_end(0); }
static u32 M_pthread_cond_timedwait_begin(ptr c, ptr m, ptr ts)
{
    (void)ts;
    if (vp_inject_at(FS_COND_TIMEDWAIT)) { vp_fail_code = vp_any_error(110,4); vp_fail_site = FS_COND_TIMEDWAIT; vp_blocking = 0; return vp_fail_code; }
    vp_cond_begin(c, m, 1); return 0;
}
static u32 M_pthread_cond_timedwait_end(ptr c, ptr m, ptr ts) { (void)c; (void)m; (void)ts; return vp_cond_end(1); }
static u32 M_pthread_cond_clockwait_begin(ptr c, ptr m, u32 k, ptr ts) { (void)k; return M_pthread_cond_timedwait_begin(c, m, ts); }
static u32 M_pthread_cond_clockwait_end(ptr c, ptr m, u32 k, ptr ts) { (void)c; (void)m; (void)k; (void)ts; return vp_cond_end(1); }
#define vp_pre_pthread_cond_signal(c) vp_pre_none()
#define vp_pre_pthread_cond_broadcast(c) vp_pre_none()
static u32 vp_n_signal, vp_n_broadcast;
static u32 M_pthread_cond_signal(ptr c)
{
    ++vp_n_signal;
#if VP_NT > 0
    u32 w = vp_nd_lt(VP_NT + 1), t; u8 untimed = 0, any = 0;
    for (t = 0; t < VP_NT; ++t) if (vp_cw(t, c)) { any = 1; if (vp_blk[t] == BK_COND) untimed = 1; }
    if (w == VP_NT) {
        /* nobody is there, or every waiter has timed out before this notification */
        VP_ASSUME(!untimed);
        for (t = 0; t < VP_NT; ++t) if (vp_cw(t, c)) vp_expired[t] = 1;
    } else for (t = 0; t < VP_NT; ++t) if (t == w) { VP_ASSUME(vp_cw(t, c)); vp_woken[t] = 1; }
    (void)any;
#endif
    return 0;
}
static u32 M_pthread_cond_broadcast(ptr c)
{
    ++vp_n_broadcast;
#ifdef VP_TSS
    ++((u32*)c)[9];
#endif
#if VP_NT > 0
    u32 t; u8 x = 0;
    for (t = 0; t < VP_NT; ++t) if (vp_cw(t, c) && vp_blk[t] == BK_COND_T) x = 1;
    if (x) x = vp_nd_bool();     /* timed waiters may have timed out before */
    for (t = 0; t < VP_NT; ++t) if (vp_cw(t, c)) { if (x && vp_blk[t] == BK_COND_T) vp_expired[t] = 1; else vp_woken[t] = 1; }
#endif
    return 0;
}
/* sequential mode: the wait releases the mutex, anything may happen, the mutex is taken again */
static u32 vp_seq_waits;
#if defined(VP_COND_HOOK) && defined(VP_NATIVE)
#define F_vp_cond_hook vp_cond_hook
void vp_cond_hook(void);
#elif defined(VP_COND_HOOK)
static void F_vp_cond_hook(void);
#else
#define F_vp_cond_hook() ((void)0)
#endif
static u32 vp_cond_seq(ptr c, ptr m, u8 timed, u32 clk, ptr tsp)
{
    (void)c; (void)clk; (void)tsp; (void)timed;
    if (vp_inject_at(timed ? FS_COND_TIMEDWAIT : FS_COND_WAIT)) { vp_fail_code = vp_any_error(110,4); vp_fail_site = timed ? FS_COND_TIMEDWAIT : FS_COND_WAIT; return vp_fail_code; }
    VP_MODEL_ASSERT(MX(m) == ME, "condition wait without owning the mutex");
    ++vp_seq_waits;
#ifdef VP_TIME_SEQ
    {
        vp_ts D = {0, 0}; u32 r = 0;
        if (timed) {
            vp_ts t = *(vp_ts*)tsp; VP_ASSERT(!vp_rd_bad(t), 905); VP_RECTS(t);
            if (vp_rd_bad(t)) return E_INVAL;
            D = vp_to_el(clk, t);
        }
        vp_mx_drop(m);
        if (timed && vp_tle(D, vp_el)) r = E_TIMEDOUT;
        else {
            vp_blk_rt = clk == 0; u32 o = vp_block(timed, D, 1);
            if (o == OUT_TIMEOUT) r = E_TIMEDOUT;
        }
        F_vp_cond_hook();
        vp_mx_take(m);
        return r;
    }
#else
    {
        u32 r = 0;
        vp_mx_drop(m);
        if (timed && vp_nd_bool()) r = E_TIMEDOUT;
        F_vp_cond_hook();
        vp_mx_take(m);
        return r;
    }
#endif
}
static u32 M_pthread_cond_wait(ptr c, ptr m) { return vp_cond_seq(c, m, 0, 0, 0); }
static u32 M_pthread_cond_timedwait(ptr c, ptr m, ptr ts) { return vp_cond_seq(c, m, 1, ((u32*)c)[0], ts); }
static u32 M_pthread_cond_clockwait(ptr c, ptr m, u32 k, ptr ts) { return vp_cond_seq(c, m, 1, k, ts); }

/* ------------------------------------------------------------------ semaphores: u32[0] = count, u64[1] = knowledge */
#define SM(s) (((u32*)(s))[0])
#define SMREL(s) (((u64*)(s))[1])
static u32 vp_sem_live;
static u32 M_sem_init(ptr s, u32 shared, u32 v)
{
    (void)shared;
    if (vp_inject_at(FS_SEM_INIT)) { vp_fail_code = vp_any_error(4,0); vp_fail_site = FS_SEM_INIT; return VP_ERR(vp_fail_code); }
    if (v > 0x7fffffffu) return VP_ERR(E_INVAL);
    SM(s) = v; SMREL(s) = 0; ++vp_sem_live; return 0;
}
static u32 M_sem_destroy(ptr s) { (void)s; --vp_sem_live; return 0; }
static void vp_pre_sem_wait(ptr s) { vp_blk[vp_t] = BK_SEM; vp_obj[vp_t] = s; }
static void vp_sm_take(ptr s) { SM(s) = SM(s) - 1; vp_hb_acq(SMREL(s)); vp_chg |= ~BIT(vp_t); }
static u32 M_sem_wait(ptr s)
{
    if (vp_inject_at(FS_SEM_WAIT)) { vp_fail_code = E_INVAL; vp_fail_site = FS_SEM_WAIT; return VP_ERR(vp_fail_code); }
    if (vp_spurious()) return VP_ERR(E_INTR);
#ifdef VP_TIME_SEQ
    { vp_ts z = {0, 0}; if (SM(s) == 0) { vp_check_deadline(0, z); vp_advance(); SM(s) = 1; } }
#else
    VP_ASSUME(SM(s) > 0);
#endif
    vp_sm_take(s); return 0;
}
#define vp_pre_sem_trywait(s) vp_pre_none()
static u32 M_sem_trywait(ptr s)
{
    if (vp_inject_at(FS_SEM_TRYWAIT)) { vp_fail_code = E_INVAL; vp_fail_site = FS_SEM_TRYWAIT; return VP_ERR(vp_fail_code); }
    if (vp_spurious()) return VP_ERR(E_INTR);
    if (SM(s) == 0) return VP_ERR(E_AGAIN);
    vp_sm_take(s); return 0;
}
static void vp_pre_sem_timedwait(ptr s, ptr ts) { (void)ts; vp_blk[vp_t] = BK_SEM_T; vp_obj[vp_t] = s; }
static u32 vp_sem_timedwait(ptr s, u32 clk, ptr tsp)
{
    if (vp_inject_at(FS_SEM_TIMEDWAIT)) { vp_fail_code = E_INVAL; vp_fail_site = FS_SEM_TIMEDWAIT; return VP_ERR(vp_fail_code); }
#ifdef VP_TIME_SEQ
    if (SM(s) == 0) {
        vp_ts t = *(vp_ts*)tsp; VP_ASSERT(!vp_rd_bad(t), 905); VP_RECTS(t);
        if (vp_rd_bad(t)) return VP_ERR(E_INVAL);
        vp_ts D = vp_to_el(clk, t);
        if (vp_tle(D, vp_el)) return VP_ERR(E_TIMEDOUT);
        vp_blk_rt = clk == 0; u32 o = vp_block(1, D, 1);
        if (o == OUT_INTR) return VP_ERR(E_INTR);
        if (o == OUT_TIMEOUT) return VP_ERR(E_TIMEDOUT);
        SM(s) = 1;
    }
    vp_sm_take(s); return 0;
#else
    (void)clk; (void)tsp;
    if (vp_spurious()) return VP_ERR(E_INTR);
    if (SM(s) == 0) { vp_late = 1; return VP_ERR(E_TIMEDOUT); }
    vp_sm_take(s); return 0;
#endif
}
static u32 M_sem_timedwait(ptr s, ptr ts) { return vp_sem_timedwait(s, 0, ts); }
static void vp_pre_sem_clockwait(ptr s, u32 c, ptr ts) { (void)c; vp_pre_sem_timedwait(s, ts); }
static u32 M_sem_clockwait(ptr s, u32 c, ptr ts) { return vp_sem_timedwait(s, c, ts); }
#define vp_pre_sem_post(s) vp_pre_none()
static u32 M_sem_post(ptr s)
{
    if (vp_inject_at(FS_SEM_POST)) { vp_fail_code = E_OVERFLOW; vp_fail_site = FS_SEM_POST; return VP_ERR(vp_fail_code); }
    if (SM(s) == 0x7fffffffu) return VP_ERR(E_OVERFLOW);
    vp_hb_rls(SMREL(s)); SM(s) = SM(s) + 1; vp_chg |= ~BIT(vp_t); return 0;
}
static u32 M_sem_getvalue(ptr s, ptr p) { *(u32*)p = SM(s); return 0; }

/* ------------------------------------------------------------------ futexes */
#define FX_OP(op) ((op) & 127u)
static u32 vp_n_futex_wait, vp_n_futex_wake;
static u8 vp_fw(u32 t, ptr a) { return (u8)((vp_blk[t] == BK_FUTEX || vp_blk[t] == BK_FUTEX_T) && vp_obj[t] == a && !vp_woken[t]); }
static u32 vp_futex_wake(ptr a, u32 n)
{
    u32 cnt = 0; ++vp_n_futex_wake;
#if VP_NT > 0
    u32 t;
    if ((s32)n >= VP_NT) { for (t = 0; t < VP_NT; ++t) if (vp_fw(t, a)) { vp_woken[t] = 1; ++cnt; } }
    else {
        u32 k;
        for (k = 0; k < VP_NT; ++k) if (k < n) {
            u32 w = vp_nd_lt(VP_NT + 1);
            if (w == VP_NT) { for (t = 0; t < VP_NT; ++t) VP_ASSUME(!vp_fw(t, a)); }
            else { for (t = 0; t < VP_NT; ++t) if (t == w) { VP_ASSUME(vp_fw(t, a)); vp_woken[t] = 1; } ++cnt; }
        }
    }
#else
    (void)a; (void)n;
#endif
    return cnt;
}
static u32 M_futex_begin(ptr a, u32 op, u32 val, ptr ts, ptr a2, u32 val3)
{
    u32 o = FX_OP(op); (void)a2; (void)val3;
    vp_blocking = 0;
    if (o == 0 || o == 9) {
        if (*(u32*)a != val) return VP_ERR(E_AGAIN);
        vp_blk[vp_t] = ts ? BK_FUTEX_T : BK_FUTEX; vp_obj[vp_t] = a; vp_woken[vp_t] = 0; vp_blocking = 1; ++vp_n_futex_wait;
        return 0;
    }
    if (o == 1 || o == 10) return vp_futex_wake(a, val);
    VP_MODEL_ASSERT(0, "unmodelled futex operation"); return 0;
}
static u32 M_futex_end(ptr a, u32 op, u32 val, ptr ts, ptr a2, u32 val3)
{
    (void)a; (void)op; (void)val; (void)a2; (void)val3; (void)ts;
    u8 timed = vp_blk[vp_t] == BK_FUTEX_T, w = vp_woken[vp_t];
    vp_blk[vp_t] = BK_NONE; vp_obj[vp_t] = 0;
    if (w) return 0;
    if (timed && !vp_spurious()) { vp_late = 1; return VP_ERR(E_TIMEDOUT); }
    if (!timed) { VP_ASSUME(vp_spur_left > 0); --vp_spur_left; }
    if (vp_nd_bool()) return VP_ERR(E_INTR);
    return 0;
}
#if defined(VP_FUTEX_HOOK) && defined(VP_NATIVE)
#define F_vp_futex_hook vp_futex_hook
void vp_futex_hook(ptr a);
#elif defined(VP_FUTEX_HOOK)
static void F_vp_futex_hook(ptr a);
#else
#define F_vp_futex_hook(a) ((void)0)
#endif
static u32 M_futex(ptr a, u32 op, u32 val, ptr tsp, ptr a2, u32 val3)
{
    u32 o = FX_OP(op); (void)a2; (void)val3; (void)tsp;
    if (o == 1 || o == 10) { ++vp_n_futex_wake; return 0; }
    if (o == 0 || o == 9) {
        if (*(u32*)a != val) return VP_ERR(E_AGAIN);
        ++vp_n_futex_wait;
#ifdef VP_TIME_SEQ
        vp_ts D = {0, 0};
        if (tsp) {
            vp_ts t = *(vp_ts*)tsp;
            VP_ASSERT(!vp_rd_bad(t) && (o == 9 || t.sec >= 0), 905);
            if (vp_rd_bad(t) || (o == 0 && t.sec < 0)) return VP_ERR(E_INVAL);
            if (o == 0) { D = vp_add(vp_el, t); VP_RECTS(vp_add(vp_rt0, D)); }
            else D = vp_to_el((op & 256u) ? 0 : 1, t);
            if (vp_tle(D, vp_el)) return VP_ERR(E_TIMEDOUT);
        }
        vp_blk_rt = o == 9 && (op & 256u) != 0; u32 x = vp_block(tsp != 0, D, 1);
        F_vp_futex_hook(a);
        if (x == OUT_INTR) return VP_ERR(E_INTR);
        if (x == OUT_TIMEOUT) return VP_ERR(E_TIMEDOUT);
        return 0;
#else
        F_vp_futex_hook(a);
        return 0;
#endif
    }
    VP_MODEL_ASSERT(0, "unmodelled futex operation"); return 0;
}

/* ------------------------------------------------------------------ exceptions */
static u32 VP_EXC; static ptr VP_EXCP;
static ptr vp_caught[VP_CTX][3]; static u32 vp_ncaught[VP_CTX];
#define VP_EXC_TI(p) (((u32*)(p))[-4])
#define VP_THROW(p, ti) do { VP_EXCP = (p); VP_EXC_TI(VP_EXCP) = (ti); VP_EXC = (ti); } while (0)
#define VP_RETHROW() do { VP_EXCP = vp_caught[vp_t][vp_ncaught[vp_t] - 1]; VP_EXC = VP_EXC_TI(VP_EXCP); } while (0)
#ifndef VP_NATIVE
static ptr M___cxa_allocate_exception(u64 n) { ptr p = (ptr)malloc(n + 16); VP_ASSUME(p != 0); return p + 16; }
static void M___cxa_free_exception(ptr p) { (void)p; }
static ptr M___cxa_begin_catch(ptr p) { vp_caught[vp_t][vp_ncaught[vp_t]] = p; vp_ncaught[vp_t]++; return p; }
static void M___cxa_end_catch(void) { vp_ncaught[vp_t]--; }
static void M___clang_call_terminate(ptr p) { (void)p; VP_MODEL_ASSERT(0, "terminate called"); VP_ASSUME(0); }
static void M__ZSt9terminatev(void) { VP_MODEL_ASSERT(0, "terminate called"); VP_ASSUME(0); }
static void M___cxa_pure_virtual(void) { VP_MODEL_ASSERT(0, "pure virtual call"); VP_ASSUME(0); }
static void M__ZNSt9exceptionD2Ev(ptr p) { (void)p; }
static void M__ZNSt13runtime_errorD2Ev(ptr p) { (void)p; }
static void M__ZNSt11logic_errorD2Ev(ptr p) { (void)p; }
/* containers are never near their largest size: these are only reached in states that do not exist */
#define VP_NEVER(what) do { VP_MODEL_ASSERT(0, what); VP_ASSUME(0); } while (0)
static void M__ZSt20__throw_length_errorPKc(ptr s) { (void)s; VP_NEVER("container too long"); }
static void M__ZSt17__throw_bad_allocv(void) { VP_NEVER("size of an allocation out of range"); }
static void M__ZSt28__throw_bad_array_new_lengthv(void) { VP_NEVER("size of an allocation out of range"); }
static void M_abort(void) { VP_MODEL_ASSERT(0, "abort called"); VP_ASSUME(0); }
static void M___assert_fail(ptr a, ptr b, u32 c, ptr d) { (void)a; (void)b; (void)c; (void)d; VP_MODEL_ASSERT(0, "assertion in the code failed"); VP_ASSUME(0); }
static u32 M___cxa_guard_acquire(ptr g) { return *(u8*)g == 0; }
static void M___cxa_guard_release(ptr g) { *(u8*)g = 1; }
static void M___cxa_guard_abort(ptr g) { (void)g; }
static u32 M___cxa_atexit(ptr f, ptr a, ptr d) { (void)f; (void)a; (void)d; return 0; }
#endif

/* ------------------------------------------------------------------ heap */
static u32 vp_ti_badalloc = 0x7ffffff0u;
static u32 vp_heap_live;          /* objects allocated with operator new / malloc and not freed */
#ifndef VP_NATIVE
typedef struct { ptr p; u64 w; } vp_pair;
static ptr vp_alloc(u64 n)
{
    ptr p;
    if (vp_inject_at(FS_NEW)) {
        vp_fail_site = FS_NEW; vp_fail_code = E_NOMEM;
        return 0;
    }
#ifdef VP_TSS
    /* the types only help the solver: nodes of a queue of keys are words, tables of pairs a pointer and a word, the rest pointers */
    if (n == 512) p = (ptr)malloc(sizeof(u32)*128);
    else if (n == 4) p = (ptr)malloc(sizeof(u32));
    else if (n % 16 == 0 && n <= 64) { vp_pair* q = (vp_pair*)malloc(sizeof(vp_pair)*(n/16)); q[0].w = 0; if (n > 16) q[1].w = 0; if (n > 32) q[2].w = 0; if (n > 48) q[3].w = 0; p = (ptr)q; }
    else p = (ptr)malloc(sizeof(ptr)*((n + 7)/8));
    VP_ASSUME(p != 0); ++vp_heap_live; return p;
#else
    p = (ptr)malloc(n); VP_ASSUME(p != 0); ++vp_heap_live; return p;
#endif
}
#ifdef VP_TSS
#define VP_PDIFF(a, b) (__CPROVER_same_object(a, b) ? (u64)(__CPROVER_POINTER_OFFSET(a) - __CPROVER_POINTER_OFFSET(b)) : (u64)(a) - (u64)(b))
#else
#define VP_PDIFF(a, b) ((u64)(a) - (u64)(b))
#endif
static ptr M__Znwm(u64 n)
{
    ptr p = vp_alloc(n);
    if (!p) { ptr e = M___cxa_allocate_exception(8); VP_THROW(e, vp_ti_badalloc); }
    return p;
}
static ptr M__Znam(u64 n) { return M__Znwm(n); }
static ptr M_malloc(u64 n) { return vp_alloc(n); }
static ptr M__ZnwmRKSt9nothrow_t(u64 n, ptr x) { (void)x; return vp_alloc(n); }
static void vp_dealloc(ptr p) { if (p) { VP_RACE_WR(p, __CPROVER_OBJECT_SIZE(p), 0); --vp_heap_live; free(p); } }
static void M__ZdlPv(ptr p) { vp_dealloc(p); }
static void M__ZdlPvm(ptr p, u64 n) { (void)n; vp_dealloc(p); }
static void M__ZdaPv(ptr p) { vp_dealloc(p); }
static void M__ZdaPvm(ptr p, u64 n) { (void)n; vp_dealloc(p); }
static void M_free(ptr p) { vp_dealloc(p); }
static ptr M_realloc(ptr p, u64 n)
{
    /* sizes are multiples of 8 in the code under test; old contents up to the smaller size */
    ptr q = vp_alloc(n);
    if (!q) return 0;
    if (p) {
        u64 o = __CPROVER_OBJECT_SIZE(p), m = o < n ? o : n, i;
        for (i = 0; i + 8 <= m; i += 8) *(u64*)(q + i) = *(u64*)(p + i);
        vp_dealloc(p);
    }
    return q;
}
static ptr M_calloc(u64 a, u64 b) { ptr p = vp_alloc(a*b); if (p) __CPROVER_array_set(p, (u8)0); return p; }
static void M_memmove(ptr d, ptr s, u64 n)
{
    u64 i;
    if (n == 0) return;
    VP_RACE_RD(s, n, 0); VP_RACE_WR(d, n, 0);
#ifdef VP_TSS
    for (i = 0; i + 8 <= n; i += 8) if (i & 8) *(u64*)(d + i) = *(u64*)(s + i); else *(ptr*)(d + i) = *(ptr*)(s + i);   /* containers only move into fresh memory */
    VP_ASSUME((n & 7) == 0); return;
#endif
    if (d <= s) for (i = 0; i + 8 <= n; i += 8) *(u64*)(d + i) = *(u64*)(s + i);
    else for (i = n; i >= 8; i -= 8) *(u64*)(d + i - 8) = *(u64*)(s + i - 8);
    VP_ASSUME((n & 7) == 0);
}
static void M_memset(ptr d, u8 v, u64 n)
{
    u64 i, w = v * 0x0101010101010101ULL;
    for (i = 0; i + 8 <= n; i += 8) *(u64*)(d + i) = w;
    VP_ASSUME((n & 7) == 0);
}
#define VP_MEMSET(p, v, n) do { typedef struct { u8 b[n]; } B_; B_ x_; u32 i_; for (i_ = 0; i_ < (n); ++i_) x_.b[i_] = (v); *(B_*)(p) = x_; } while (0)
#endif
static u32 M_vp_heap_live(void) { return vp_heap_live; }
static u32 M_vp_mutex_live(void) { return vp_mutex_live; }
static u32 M_vp_cond_live(void) { return vp_cond_live; }
static u32 M_vp_sem_live(void) { return vp_sem_live; }

#ifdef VP_TSS
/* ------------------------------------------------------------------ thread-specific keys, thread end */
#ifndef VP_NKEYS
#define VP_NKEYS 2
#endif
static u32 vp_nkeys; static ptr vp_key_dtor[VP_NKEYS]; static ptr vp_key_val[VP_NKEYS][VP_CTX]; static u8 vp_exiting[VP_CTX];
static u32 M_pthread_key_create(ptr k, ptr d)
{
    if (vp_inject_at(FS_KEY_CREATE)) { vp_fail_site = FS_KEY_CREATE; vp_fail_code = E_AGAIN; return E_AGAIN; }
    VP_MODEL_ASSERT(vp_nkeys < VP_NKEYS, "too many thread-specific keys of the system"); VP_ASSUME(vp_nkeys < VP_NKEYS);
    *(u32*)k = vp_nkeys; vp_key_dtor[vp_nkeys] = d; ++vp_nkeys; return 0;
}
static u32 M_pthread_key_delete(u32 k) { vp_key_dtor[k] = 0; return 0; }
static ptr M_pthread_getspecific(u32 k) { VP_MODEL_ASSERT(k < vp_nkeys, "key not created"); return vp_key_val[k][vp_t]; }
static u32 M_pthread_setspecific(u32 k, ptr v)
{
    VP_MODEL_ASSERT(k < vp_nkeys, "key not created");
    if (v && vp_inject_at(FS_SETSPECIFIC)) { vp_fail_site = FS_SETSPECIFIC; vp_fail_code = E_NOMEM; return E_NOMEM; }
    vp_key_val[k][vp_t] = v; return 0;
}
static u64 vp_once_rel;
static u32 M_pthread_once(ptr ctl, ptr fn) { if (*(u32*)ctl == 0) { *(u32*)ctl = 2; ((void (*)(void))fn)(); vp_hb_rls(vp_once_rel); } else vp_hb_acq(vp_once_rel); return 0; }
/* the running thread ends: destructors of non-null values, up to PTHREAD_DESTRUCTOR_ITERATIONS times */
static void M_vp_thread_exit(void)
{
    u32 i, k;
    vp_exiting[vp_t] = 1;
    for (i = 0; i < 4; ++i)
        for (k = 0; k < VP_NKEYS; ++k) {
            ptr v = vp_key_val[k][vp_t];
            if (k < vp_nkeys && v != 0 && vp_key_dtor[k] != 0) { vp_key_val[k][vp_t] = 0; ((void (*)(ptr))vp_key_dtor[k])(v); }
        }
    vp_exiting[vp_t] = 0; vp_dead[vp_t] = 1;
}
#endif
/* ------------------------------------------------------------------ observers for harnesses */
#ifdef VP_TSS
static u32 M_vp_cond_bcast(ptr c) { return ((u32*)c)[9]; }
#endif
static u32 M_vp_mutex_owner(ptr m) { return MX(m); }           /* owner context + 1, 0 free */
static u32 M_vp_sem_value(ptr s) { return SM(s); }
static u8 M_vp_is_done(u32 t) { return vp_dead[t]; }
static u8 M_vp_is_blocked_futex(u32 t) { return (u8)(vp_blk[t] == BK_FUTEX || vp_blk[t] == BK_FUTEX_T); }
static u8 M_vp_in_pause(u32 t) { return (u8)(vp_blk[t] == BK_PAUSE && !vp_dead[t]); }
static u8 M_vp_is_blocked(u32 t) { return (u8)(vp_blk[t] != BK_NONE); }
/* a waiter on a futex word, condition variable or semaphore that nothing has woken yet */
static u8 M_vp_is_asleep(u32 t)
{
    u8 k = vp_blk[t];
    if (vp_dead[t]) return 0;
    if (k == BK_SEM || k == BK_SEM_T) return (u8)(SM(vp_obj[t]) == 0);
    return (u8)((k == BK_FUTEX || k == BK_FUTEX_T || k == BK_COND || k == BK_COND_T) && !vp_woken[t] && !vp_expired[t]);
}
static u32 M_vp_cond_signals(void) { return vp_n_signal; }
static u32 M_vp_cond_broadcasts(void) { return vp_n_broadcast; }
static u32 M_vp_seq_waits(void) { return vp_seq_waits; }
static u32 M_vp_spur_left(void) { return vp_spur_left; }
static void M_vp_set_mutex_owner(ptr m, u32 o) { MX(m) = o; }
static void M_vp_set_thread(u32 t) { vp_t = t; }

#ifdef VP_TIME_SEQ
/* requested deadline in elapsed time: now + d */
static void M_vp_deadline_rel(u64 sec, u64 nsec) { vp_ts d; d.sec = (s64)sec; d.nsec = (s64)nsec; vp_rd_el = vp_add(vp_el, d); vp_rd_set = 1; }
static void M_vp_deadline_clk(u32 clk, u64 sec, u64 nsec) { vp_ts d; d.sec = (s64)sec; d.nsec = (s64)nsec; vp_rd_el = vp_to_el(clk, d); vp_rd_set = 1; }
static u8 M_vp_deadline_passed(void) { return vp_tle(vp_rd_el, vp_el); }
static void M_vp_no_deadline(void) { vp_rd_set = 0; }
static void M_vp_never_block(u8 f) { vp_never_block = f; }
static u32 M_vp_blocked_calls(void) { return vp_blocked_calls; }
static u64 M_vp_clk_sec(u32 clk) { return (u64)vp_now(clk).sec; }
static u64 M_vp_clk_nsec(u32 clk) { return (u64)vp_now(clk).nsec; }
static void M_vp_clk_start(u32 rn, u32 mn) { vp_rt0.nsec = rn; vp_mono0.nsec = mn; }
static void M_vp_advance(void) { vp_advance(); }
static void M_vp_clk_set(u64 sec, u64 nsec) { vp_rt0.sec = (s64)sec; vp_rt0.nsec = (s64)nsec; }
static u64 M_vp_rec_sec(void) { return (u64)vp_rec_ts.sec; }
static u64 M_vp_rec_nsec(void) { return (u64)vp_rec_ts.nsec; }
static u32 M_vp_rec_count(void) { return vp_rec_n; }
#endif

#endif
