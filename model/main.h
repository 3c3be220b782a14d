/* scheduler: included after the generated code */
#ifndef VP_R
#define VP_R 1
#endif
/* can take a step that changes something, without help from the environment */
static u8 vp_strict(u32 t)
{
    if (vp_dead[t]) return 0;
    switch (vp_blk[t]) {
    case BK_NONE: return 1;
    case BK_MUTEX: return MX(vp_obj[t]) == 0;
    case BK_MUTEX_T: return 1;
    case BK_SEM: return SM(vp_obj[t]) > 0;
    case BK_SEM_T: return 1;
    case BK_COND: return vp_woken[t] && MX(vp_mtx[t]) == 0;
    case BK_COND_T: return MX(vp_mtx[t]) == 0;
    case BK_FUTEX: return vp_woken[t];
    case BK_FUTEX_T: return 1;
    case BK_PAUSE: return ((vp_chg | vp_chg2) >> t) & 1;
    case BK_FLAG: return *(u32*)vp_obj[t] != 0;
    }
    return 1;
}
/* can take a step at all (spurious wake-ups, signals, useless spinning) */
static u8 vp_may(u32 t)
{
    if (vp_dead[t]) return 0;
    switch (vp_blk[t]) {
    case BK_SEM: return SM(vp_obj[t]) > 0 || vp_spur_left > 0;
    case BK_COND: return (vp_woken[t] || vp_spur_left > 0) && MX(vp_mtx[t]) == 0;
    case BK_FUTEX: return vp_woken[t] || vp_spur_left > 0;
    case BK_PAUSE: return 1;
#ifdef VP_EINTR_BUG
    case BK_MUTEX: return MX(vp_obj[t]) == 0 || vp_spur_left > 0;
#endif
    }
    return vp_strict(t);
}
#ifndef VP_NATIVE
int main(void)
{
    vp_t = VP_NT;
    vp_gen_init();
    F_vp_init();
    vp_K[VP_NT] = 0;
#if VP_NT > 0
    u32 i;
    vp_round(1);
    for (i = 0; i < VP_R; ++i) vp_round(0);
    {
        u8 any = 0; u32 j;
        for (j = 0; j < VP_NT; ++j) any |= vp_strict(j);
        __CPROVER_assert(!any, "D:depth");
        if (!any) { vp_t = VP_NT; F_vp_quiesce(); }
    }
#else
    vp_t = 0;
    F_vp_main();
#endif
    return 0;
}
#endif
