from query import Q
CHECKS = {}
def add(pid, *qs): CHECKS.setdefault(pid, []).extend(qs)

# ---------------------------------------------------------------- C01
NT_M = {1: 3, 2: 3, 3: 2, 4: 2, 5: 3, 6: 2, 7: 2, 8: 2, 9: 3, 10: 2}
def mutexq(pid, tag, kind, scens, defs=(), mdefs=(), **kw):
    for s in scens:
        add(pid, Q('%s_s%d' % (tag, s), 'mutex.cpp', nt=NT_M[s], rounds=4, defs=['KIND=%d' % kind, 'SCEN=%d' % s] + list(defs), mdefs=mdefs, **kw))
mutexq('C01', 'mutex', 1, (1, 2, 3, 4, 8))
mutexq('C01', 'timed_mutex', 2, (1, 2, 3, 4, 5, 6, 7, 8, 9, 10))
mutexq('C01', 'spin_mutex', 3, (1, 2, 3, 4, 8))
mutexq('C01', 'spin_mutex_ttas', 3, (1, 2, 3, 4, 8), defs=['ATOMIC_BOOL_LOCKFREE=2'])
mutexq('C01', 'shared_spin_mutex', 4, (1, 2, 3, 4, 8))

# ---------------------------------------------------------------- C02
for s in (1, 2, 3, 4, 5, 6, 7):
    add('C02', Q('shared_spin_s%d' % s, 'shared_spin.cpp', nt=2 if s in (6, 7) else 3, rounds=4, defs=['SCEN=%d' % s]))

# ---------------------------------------------------------------- C03
NT_A = {6: 2, 10: 2, 11: 2}
def autoq(pid, tag, scens, tw=(0,), defs=(), mdefs=(), **kw):
    for s in scens:
        for t in tw:
            add(pid, Q('%s_s%d%s' % (tag, s, '_t%d' % t if t else ''), 'auto_event.cpp', nt=NT_A.get(s, 3), rounds=4, defs=['SCEN=%d' % s, 'TW=%d' % t] + list(defs), mdefs=mdefs, **kw))
autoq('C03', 'auto_event', (1, 2, 3, 4, 5, 7, 10, 11, 12))
autoq('C03', 'auto_event', (5,), tw=(1,))

# ---------------------------------------------------------------- C04
NT_E = {4: 2, 7: 2}
def manq(pid, tag, scens, tw=(0,), defs=(), mdefs=(), **kw):
    for s in scens:
        for t in tw:
            add(pid, Q('%s_s%d%s' % (tag, s, '_t%d' % t if t else ''), 'manual_event.cpp', nt=NT_E.get(s, 3), rounds=4, defs=['SCEN=%d' % s, 'TW=%d' % t] + list(defs), mdefs=mdefs, **kw))
manq('C04', 'manual_event', (1, 2, 3, 4, 5, 6, 7, 8, 9, 10))
manq('C04', 'manual_event', (2, 5, 6), tw=(1,))

# ---------------------------------------------------------------- C05
def semq(pid, tag, scens, tw=(0,), defs=(), mdefs=(), **kw):
    for s in scens:
        for t in tw:
            init = {1: 2, 2: 1, 3: 1, 4: 3, 5: 1, 6: 1}.get(s, 0)
            d = ['SCEN=%d' % s, 'TW=%d' % t] + list(defs)
            n = '%s_s%d%s' % (tag, s, '_t%d' % t if t else '')
            if s == 10: add(pid, Q(n, 'semaphore.cpp', nt=0, defs=d + ['SEQ'], mdefs=mdefs, **kw))
            else: add(pid, Q(n, 'semaphore.cpp', nt=3, rounds=4, defs=d + ['INIT=%d' % init] + (['FIXED'] if s == 4 else []), mdefs=mdefs, **kw))
semq('C05', 'semaphore', (1, 2, 3, 4, 5, 6, 7, 8, 10), mdefs=['VP_SPURIOUS=2'])
semq('C05', 'semaphore', (3, 4), tw=(1, 2), mdefs=['VP_SPURIOUS=2'])

# ---------------------------------------------------------------- C06
def hbq(tag, prim, scens, hows=(0,), tw=(0,), defs=(), **kw):
    for s in scens:
        for h in hows:
            for t in (tw if h == 2 else (0,)):
                two = (prim <= 4 and s in (2, 4, 7)) or (prim > 4 and s in (4, 5))
                n = '%s_s%d' % (tag, s) + ('' if prim <= 4 else '_' + ('wait', 'try', 'timed')[h]) + ('_t%d' % t if t else '')
                add('C06', Q(n, 'hb.cpp', nt=2 if two else 3, rounds=4, hb=True, defs=['PRIM=%d' % prim, 'SCEN=%d' % s, 'HOW=%d' % h, 'TW=%d' % t] + list(defs), **kw))
hbq('hb_mutex', 1, (1, 2))
hbq('hb_timed_mutex', 2, (1, 2, 3, 4))
hbq('hb_timed_mutex_emul', 2, (1, 3, 4), defs=['NO_TIMEDLOCK'])
hbq('hb_spin_mutex', 3, (1, 2))
hbq('hb_spin_mutex_ttas', 3, (1, 2), defs=['ATOMIC_BOOL_LOCKFREE=2'])
hbq('hb_shared_spin', 4, (1, 2, 5, 6, 7))
hbq('hb_auto_event', 5, (1, 2, 3, 5), hows=(0, 1, 2))
hbq('hb_auto_event_sem', 5, (1, 2, 3, 5), hows=(0, 1, 2), defs=['BOOST_SYNC_USE_PTHREAD'])
hbq('hb_auto_event_emul', 5, (1, 2, 5), hows=(0, 1, 2), defs=['BOOST_SYNC_USE_PTHREAD', 'EVENT_EMULATION'])
hbq('hb_manual_event', 6, (1, 2, 3, 4, 5), hows=(0, 1, 2))
hbq('hb_manual_event_emul', 6, (1, 2, 4), hows=(0, 1, 2), defs=['BOOST_SYNC_USE_PTHREAD', 'EVENT_EMULATION'])
hbq('hb_semaphore', 7, (1, 2, 3), hows=(0, 1, 2))
hbq('hb_semaphore_emul', 7, (1, 2), hows=(0, 1, 2), defs=['SEM_EMULATION'])

# ---------------------------------------------------------------- C07
NT_C = {3: 2, 6: 2}
def condq(pid, tag, kind, scens, tw=(0,), defs=(), mdefs=(), **kw):
    for s in scens:
        for t in tw:
            add(pid, Q('%s_s%d%s' % (tag, s, '_t%d' % t if t else ''), 'cond.cpp', nt=NT_C.get(s, 3), rounds=4, defs=['KIND=%d' % kind, 'SCEN=%d' % s, 'TW=%d' % t] + list(defs), mdefs=mdefs, **kw))
condq('C07', 'cv_mutex', 1, (1, 2, 3, 4, 5, 6, 7))
condq('C07', 'cv_mutex', 1, (5, 6), tw=(1, 2))
condq('C07', 'cv_timed_mutex', 2, (1, 2, 5))
condq('C07', 'cv_any_mutex', 3, (1, 2, 3, 4, 5, 6, 7))
condq('C07', 'cv_any_mutex', 3, (6,), tw=(1, 2))
condq('C07', 'cv_any_spin', 4, (3, 6))

# ---------------------------------------------------------------- C08
PRIMS = {1: 'timed_mutex', 2: 'timed_mutex_emul', 3: 'semaphore', 4: 'semaphore_emul', 5: 'auto_event', 6: 'auto_event_emul', 7: 'manual_event', 8: 'manual_event_emul', 9: 'cv_pred', 10: 'cv_any_pred', 11: 'cv', 12: 'cv_any',
  13: 'unique_lock', 14: 'unique_lock_timed'}
FORMS = {0: 'timespec', 1: 'ns', 2: 'ns_timed', 8: 'ms', 7: 's', 3: 'system_clock', 4: 'steady_clock', 5: 'steady_clock_timed', 6: 'timespec_until', 11: 'boost_ns', 12: 'boost_ms', 13: 'boost_system_clock', 14: 'boost_steady_clock', 20: 'date_time_duration', 21: 'ptime'}
def timedq(pid, prim, form, defs=(), mdefs=(), **kw):
    hooks = ()
    if prim in (2, 4, 6, 8, 9, 10, 11, 12): hooks = ('vp_cond_hook',)
    if prim in (5, 7): hooks = ('vp_futex_hook',)
    cross = form in (4, 5, 14)
    quick = form in (0, 1, 2, 3, 4, 6) or prim in (1, 9)
    md = ['VP_TIME_SEQ', 'VP_NT=0', 'VP_CTX=2', 'VP_WEAK=0', 'VP_SPURIOUS=1'] + (['VP_CLOCK_JUMP=1', 'VP_NSBITS=0', 'VP_MAXADV=1'] if cross else ['VP_NSBITS=6', 'VP_MAXADV=3']) + list(mdefs)
    d = ['PRIM=%d' % prim, 'FORM=%d' % form] + (['CROSS', 'DMIN=-1', 'DMAX=1'] if cross else []) + (['HOOKED=0'] if cross and prim in (5, 7) else []) + list(defs)
    add(pid, Q('timed_%s_%s' % (PRIMS[prim], FORMS[form]), 'timed.cpp', nt=0, defs=d, mdefs=md, hooks=hooks, unwind=kw.pop('unwind', 3), flags=['--sat-solver', 'cadical'], tier='quick' if quick else 'thorough', cost=10 if cross or prim in (5, 7) else 1, **kw))
for pr in sorted(PRIMS):
    for fo in sorted(FORMS): timedq('C08', pr, fo)

# ---------------------------------------------------------------- C09
C9L = [dict(defs=['SMALL'], mdefs=['VP_SMALL', 'VP_NSBITS=6'], timeout=200), dict(defs=['SMALL'], mdefs=['VP_SMALL', 'VP_NSBITS=0'], timeout=200)]
CPRIM = {1: 'timed_mutex', 3: 'semaphore', 5: 'auto_event', 7: 'manual_event', 9: 'condition_variable'}
def convq(prim, form, **kw):
    add('C09', Q('conv_%s_%d' % (CPRIM[prim], form), 'conv.cpp', nt=0, defs=['PRIM=%d' % prim, 'FORM=%d' % form], mdefs=['VP_TIME_SEQ', 'VP_REC', 'VP_CTX=2', 'VP_WEAK=0', 'VP_SPURIOUS=0'], unwind=10, timeout=150, ladder=C9L, flags=['--sat-solver', 'cadical'], **kw))
CFORMS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 51, 52, 53, 54, 55)
for fo in CFORMS: convq(3, fo)
for pr in (1, 5, 7, 9):
    for fo in (1, 11, 20): convq(pr, fo, cost=10 if pr in (5, 7) else 1)
for l in (1, 2, 3, 4, 5, 6):
    add('C09', Q('arith_%d' % l, 'tparith.cpp', nt=0, defs=['LAW=%d' % l], mdefs=['VP_TIME_SEQ', 'VP_REC', 'VP_MULLOOK', 'VP_CTX=2', 'VP_WEAK=0', 'VP_SPURIOUS=0'], unwind=10, timeout=120, ladder=C9L, flags=['--sat-solver', 'cadical']))

# ---------------------------------------------------------------- C10, C11, C12 lock objects and guards
LKM = ['VP_WEAK=0', 'VP_SPURIOUS=0']
for k, n in ((1, 'unique_lock'), (2, 'shared_lock'), (3, 'upgrade_lock')):
    add('C10', Q('%s_history' % n, 'locks.cpp', nt=0, defs=['KIND=%d' % k, 'STEPS=3'], mdefs=LKM, unwind=5))
add('C11', Q('conversions', 'lockconv.cpp', nt=0, defs=['STEPS=3'], mdefs=LKM, unwind=5))
for s_ in (1, 2, 3, 4, 5, 6): add('C12', Q('guards_s%d' % s_, 'guards.cpp', nt=0, defs=['SCEN=%d' % s_], mdefs=LKM))

# ---------------------------------------------------------------- C13 refused system calls
FK = {1: 'mutex', 2: 'timed_mutex', 3: 'timed_mutex_emul', 4: 'semaphore', 5: 'semaphore_emul', 6: 'cv', 7: 'cv_any', 8: 'auto_event_emul', 9: 'manual_event_emul'}
for k_, n in sorted(FK.items()):
    site = '((1u<<FS_MUTEX_INIT)|(1u<<FS_COND_INIT)|(1u<<FS_SEM_INIT)|(1u<<FS_SEM_POST)|(1u<<FS_COND_WAIT)|(1u<<FS_COND_TIMEDWAIT)%s)' % ('|(1u<<FS_MUTEX_LOCK)|(1u<<FS_MUTEX_TRYLOCK)|(1u<<FS_MUTEX_TIMEDLOCK)' if k_ in (1, 2) else '')
    add('C13', Q('fail_' + n, 'fail.cpp', nt=0, defs=['KIND=%d' % k_], mdefs=['VP_FAILBUDGET=1', 'VP_FAILSITES=' + site, 'VP_CTX=2', 'VP_WEAK=0', 'VP_SPURIOUS=0'], hooks=('vp_cond_hook',) if k_ in (3, 6, 7, 8, 9) else (), unwind=5))

# ---------------------------------------------------------------- C14 ... C18 thread-specific storage
TSM = ['VP_TSS', 'VP_CTX=3', 'VP_WEAK=0', 'VP_SPURIOUS=0']
TSF = ['--max-field-sensitivity-array-size', '130', '--object-bits', '11']
def tssq(prop, src, name, seq, defs=(), **kw): add(prop, Q(name, src, nt=0, defs=['PROP=' + prop[1:], 'SEQ=' + seq] + list(defs), mdefs=TSM, unwind=6, flags=TSF + (['--pointer-check'] if prop == 'C18' else []), timeout=300, **kw))
HIST = (('ops', 'B(0) B(1) U U U U'), ('end', 'B(0) B(1) U U U E(0) U'), ('end2', 'B(0) B(1) U U E(0) B(0) U E(1) U'), ('del', 'B(0) B(1) U U D(0,1) U'), ('del_ends', 'B(0) B(1) U U D(1,0) U E(0) E(1)'),
        ('recycle', 'B(0) B(1) U U D(0,1) C(0,0) U U'), ('recycle_end', 'B(0) B(1) U U D(0,1) C(0,0) U E(1) E(0)'), ('recycle2', 'B(0) B(1) U U D(1,0) E(1) C(1,0) B(1) U U'))
for pr_ in ('C14', 'C15'):
    for n, sq in HIST: tssq(pr_, 'tss.cpp', 'hist_' + n, sq)
    for n, sq in (('recycle', HIST[5][1]), ('recycle2', HIST[7][1]), ('recycle_end', HIST[6][1])): tssq(pr_, 'tss.cpp', 'nocleanup_' + n, sq, defs=['NOCL=%d' % (3 if n != 'recycle_end' else 5)])
    for n, sq in (HIST[1], HIST[6]): tssq(pr_, 'tss.cpp', 'default_' + n, sq, defs=['DEFCL'])
def exitq(prop, name, seq, fa=None, ca=None, **kw): tssq(prop, 'tss_exit.cpp', 'exit_' + name, seq, defs=(['FA=' + fa] if fa else []) + (['CA=' + ca] if ca else []), **kw)
for pr_ in ('C15', 'C16'):
    exitq(pr_, 'plain', 'S(0) R(0) R(0) V(0,0) V(1,0) E(0)')
    exitq(pr_, 'two', 'S(0) S(1) R(0) R(1) V(0,0) V(0,1) E(1) E(0)')
    for a_ in (1, 2, 3, 5, 6): exitq(pr_, 'fn%d' % a_, 'S(0) R(0) R(0) V(0,0) V(1,0) E(0)', fa='0, %d, 0' % a_)
    exitq(pr_, 'cl1', 'S(0) R(0) V(0,0) V(1,0) E(0)', ca='1, 0', cost=8)
    exitq(pr_, 'cl2', 'S(0) R(0) V(0,0) V(1,0) E(0)', ca='2, 0', cost=4)
    for a_ in (3, 4): exitq(pr_, 'cl%d' % a_, 'S(0) R(0) W(0,0) V(1,0) E(0)', ca='%d, 0' % a_)
    exitq(pr_, 'cl5', 'S(0) R(0) W(0,0) DD(1) E(0)', ca='5, 0')
for n, sq, ca_ in (('reset_sets', 'S(0) W(0,0) V(0,0) V(0,0) E(0)', '7, 0'), ('reset_sets_other', 'S(0) W(0,0) V(1,0) V(0,0) E(0)', '8, 0'), ('destroy_sets_other', 'S(0) S(1) W(0,0) V(0,1) V(1,0) DT(0,0) E(0) E(1)', '8, 0')):
    exitq('C15', n, sq, ca=ca_)
for n_ in (1, 2, 3): exitq('C15', 'fail_reset%d' % n_, 'F(2,%d) E(0)' % n_)
exitq('C15', 'fail_replace', 'S(0) V(0,0) F(2,1) E(0)')
exitq('C16', 'three', 'R(0) R(0) R(0) E(0)')
exitq('C16', 'nest2', 'R(0) R(0) W(0,0) E(0)', fa='3, 3, 0')
exitq('C16', 'nest_cl', 'R(0) W(0,0) E(0)', fa='0, 3, 0', ca='3, 0')
for n_ in (1, 2, 3, 4): exitq('C16', 'fail_register%d' % n_, 'F(0,%d) E(0)' % n_)
exitq('C16', 'fail_register_again', 'S(0) F(0,1) F(0,2) E(0)')
exitq('C17', 'one', 'S(0) R(0) V(0,0) V(1,0) N(0,0) E(0)')
exitq('C17', 'first', 'N(0,0) R(0) W(0,0) E(0)')
exitq('C17', 'both', 'S(0) N(0,0) R(0) N(1,0) V(0,0) E(0)')
exitq('C17', 'threads', 'S(0) S(1) N(0,0) N(1,1) R(0) V(0,0) V(1,1) E(0) E(1)')
exitq('C17', 'threads2', 'N(0,0) N(1,1) R(0) W(0,0) W(1,1) E(1) E(0)')
exitq('C17', 'again', 'N(0,0) W(0,0) E(0) S(1) N(0,1) V(0,1) E(1)')
exitq('C17', 'fn', 'S(0) N(0,0) R(0) R(0) V(0,0) E(0)', fa='0, 4, 0')
exitq('C17', 'fn_sets', 'S(0) N(0,0) R(0) R(0) V(0,0) E(0)', fa='0, 1, 0')
exitq('C17', 'cl', 'S(0) N(0,0) R(0) W(0,0) E(0)', ca='6, 0')
exitq('C17', 'cl_sets', 'S(0) N(0,0) R(0) V(0,0) E(0)', ca='2, 0')
for n_ in (1, 2, 3, 4): exitq('C17', 'fail%d' % n_, 'F(1,%d) E(0)' % n_)
def raceq(prog, pre=''):
    n = sum(q.name.startswith('race_') for q in CHECKS.get('C18', ())) + 1
    add('C18', Q('race_%02d' % n, 'tss_race.cpp', nt=0, defs=['PROG=' + prog] + (['PRE=' + pre, 'HITS'] if pre else []), mdefs=TSM + ['VP_RACEMON'], unwind=12 if 'N(3' in prog else 8, flags=TSF + ['--pointer-check'], race=True, hb=True, timeout=300))
raceq('S(0,0) S(1,1) G(0,0) E(0) E(1)')                                      # different pointers
raceq('S(0,0) S(0,1) G(0,0) R(1) E(1) R(0) E(0)')                            # the same pointer
raceq('S(0,0) S(1,0) S(0,1) D(1,2) E(0) E(1)')
raceq('S(0,0) S(1,1) D(0,2) E(0) E(1)')
raceq('S(0,0) D(0,2) S(1,0) E(0)')
raceq('S(0,0) S(1,1) D(1,0) N(1,2,0) S(1,1) E(0) E(1)')
raceq('S(0,0) S(1,1) D(0,0) D(1,1) E(0) E(1)')                               # two pointers destroyed
raceq('S(0,0) D(0,0) N(2,2,1) S(2,1) E(0) E(1)')                             # one destroyed, one created
raceq('N(2,2,0) N(3,3,1) S(2,0) S(3,1) E(0) E(1)')                           # two created
raceq('N(2,2,0) D(1,1) N(3,3,1) D(0,0) S(2,0) S(3,1) E(0) E(1)')
raceq('S(0,0) S(1,1) E(1) D(0,0) N(3,3,2) E(0)')
raceq('S(0,0) I(1) D(0,0) E(0) E(1)', 'N(2,2,1) S(2,1)')
raceq('S(0,0) I(1) D(0,0) E(0) E(1)', 'D(1,1) N(3,3,1) S(3,1)')
raceq('I(1) N(2,2,0) S(2,0) E(0) E(1)', 'D(1,1) N(3,3,1) S(3,1)')
raceq('S(0,0) S(1,1) E(0) S(0,0) E(0) E(1)')                                 # a new thread after one ended
raceq('S(0,0) I(1) S(1,1) E(0) E(1)', 'D(0,2)')                              # first use of the storage / a pointer is destroyed
raceq('S(0,0) I(1) S(1,0) E(0)', 'D(0,2)')                                   # the storage grows / a pointer is destroyed
raceq('S(0,0) I(1) S(1,0) E(0)', 'S(0,1) S(1,1) E(1)')
raceq('S(0,0) I(1) N(2,2,2) S(2,0) E(0) E(1)', 'S(1,1)')                     # a pointer is created / first use
raceq('S(0,0) I(1) N(2,2,2) S(2,0) E(0) E(1)', 'D(1,1) N(3,3,1) S(3,1)')
raceq('S(0,0) S(0,1) I(1) D(0,2) E(0) E(1)', 'S(1,0) E(0)')                  # a pointer is destroyed / a thread with a value ends
raceq('S(0,0) S(0,1) I(1) D(0,2) E(0) E(1)', 'E(0)')
raceq('S(0,0) S(0,1) I(2) D(0,2) S(1,1) E(1)', 'E(0)')
raceq('S(0,0) S(0,1) D(0,2) I(1) N(0,2,2) S(0,1) E(1)', 'E(0)')
for n_ in (1, 2, 3, 4):
    raceq('S(0,0) S(1,0) S(1,1) I(%d) E(0) E(1)' % n_, 'D(1,2)')             # a thread ends / a pointer is destroyed
    raceq('S(0,0) S(1,0) S(1,1) I(%d) E(0) E(1)' % n_, 'D(0,2)')
    raceq('S(0,0) S(1,0) S(1,1) I(%d) E(0) E(1)' % n_, 'D(1,1) N(1,2,1) S(1,1)')
    raceq('S(0,0) S(1,0) S(1,1) I(%d) E(0)' % n_, 'E(1)')                    # two threads end
    raceq('S(0,0) S(1,1) I(%d) E(0) E(1)' % min(n_, 3), 'N(2,2,2) S(2,1)')
raceq('R(0) S(1,1) I(1) E(0)', 'R(1) E(1)')
raceq('R(0) R(1) I(1) E(0) E(1)', 'E(1)')
raceq('S(0,0) I(1) R(1) E(0) E(1)', 'R(2) E(2)')
for n, sq in HIST[1:]: tssq('C18', 'tss.cpp', 'mem_' + n, sq)
for n, fa, ca in (('plain', '0, 0, 0', '0, 0'), ('fn1', '0, 1, 0', '0, 0'), ('fn3', '0, 3, 0', '0, 0'), ('fn6', '0, 6, 0', '0, 0'), ('cl2', '0, 0, 0', '2, 0'), ('cl4', '0, 0, 0', '4, 0')):
    exitq('C18', n, 'S(0) R(0) R(0) W(0,0) V(1,0) E(0)', fa=fa, ca=ca)
for n_ in (1, 2, 3, 4): exitq('C18', 'fail_register%d' % n_, 'F(0,%d) E(0)' % n_)
for n_ in (1, 2, 3): exitq('C18', 'fail_notify%d' % n_, 'F(1,%d) E(0)' % n_)
for n_ in (1, 2, 3): exitq('C18', 'fail_reset%d' % n_, 'F(2,%d) E(0)' % n_)

# the same with compiler-based thread-local storage of the context (threads are not replaced after their end here)
TLS = ['BOOST_SYNC_USE_COMPILER_TLS']
for pr_ in ('C14', 'C15'): tssq(pr_, 'tss.cpp', 'tls_del_ends', HIST[4][1], defs=TLS); tssq(pr_, 'tss.cpp', 'tls_recycle_end', HIST[6][1], defs=TLS)
def exitt(prop, name, seq, fa=None, ca=None): tssq(prop, 'tss_exit.cpp', 'tls_exit_' + name, seq, defs=TLS + (['FA=' + fa] if fa else []) + (['CA=' + ca] if ca else []))
for pr_ in ('C15', 'C16', 'C17'):
    exitt(pr_, 'all', 'S(0) S(1) N(0,0) R(0) R(1) V(0,0) V(1,1) E(1) E(0)')
    exitt(pr_, 'fn1', 'S(0) N(0,0) R(0) R(0) V(0,0) V(1,0) E(0)', fa='0, 1, 0')
    exitt(pr_, 'cl4', 'S(0) N(0,0) R(0) W(0,0) V(1,0) E(0)', ca='2, 0')
    for n_ in (1, 2, 3, 4): exitt(pr_, 'fail%d' % n_, 'F(%d,%d) E(0)' % ({'C15': 2, 'C16': 0, 'C17': 1}[pr_], n_))

# ---------------------------------------------------------------- C19 timeouts racing with signals
SP = ['VP_SPURIOUS=2']
autoq('C19', 'auto_event', (4, 5, 6, 8, 9), tw=(0, 1, 2, 3))
manq('C19', 'manual_event', (5, 7), tw=(0, 1, 2, 3))
semq('C19', 'semaphore', (3, 5), tw=(0, 1, 2, 3), mdefs=SP)
mutexq('C19', 'timed_mutex', 2, (5, 6, 7, 9, 10))
mutexq('C19', 'timed_mutex_emul', 2, (5, 6, 7, 9, 10), defs=['NO_TIMEDLOCK'])
condq('C19', 'cv_mutex', 1, (5, 6), tw=(0, 1, 2))
condq('C19', 'cv_any_mutex', 3, (5, 6), tw=(0, 1, 2))

# ---------------------------------------------------------------- C20 portable fallbacks
PT = ['BOOST_SYNC_USE_PTHREAD']
autoq('C20', 'auto_event_semaphore', (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), defs=PT)
autoq('C20', 'auto_event_emulation', (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), defs=PT + ['EVENT_EMULATION'])
manq('C20', 'manual_event_emulation', (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), defs=PT + ['EVENT_EMULATION'])
semq('C20', 'semaphore_emulation', (1, 2, 3, 4, 5, 6, 7, 8, 10), defs=['SEM_EMULATION'])
mutexq('C20', 'timed_mutex_emulation', 2, (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), defs=['NO_TIMEDLOCK'])
for pr in (2, 4, 6, 8):
    for fo in (0, 1, 3, 4): timedq('C20', pr, fo)
EB = ['BOOST_SYNC_HAS_PTHREAD_EINTR_BUG']
mutexq('C20', 'mutex_eintr', 1, (1, 2, 4), defs=EB, mdefs=['VP_EINTR_BUG'])
mutexq('C20', 'timed_mutex_eintr', 2, (1, 2, 5), defs=EB, mdefs=['VP_EINTR_BUG'])
condq('C20', 'cv_eintr', 1, (1, 2, 5), defs=EB, mdefs=['VP_EINTR_BUG'])

_CONC = ('2 or 3 threads of 1 or 2 operations each (SCEN in the harness), every interleaving of their atomic operations, system calls and markers with at most 4 scheduler rounds '
  '(every thread runs a solver-chosen stretch per round; raised to 6 where a goal is not reached in 4), 1 spurious wake-up or EINTR and 1 spurious weak compare-exchange failure anywhere, timeouts at any moment')
BOUNDS = {'*': _CONC,
 'C05': _CONC + '; 2 spurious wake-ups; initial count up to 3 in the concurrent scenarios; the sequential one covers every count from 0 to the maximum',
 'C06': _CONC + '; happens-before from the declared memory orders (knowledge sets per thread, location, release sequence and fence)',
 'C07': _CONC + '; predicates are flags under the lock',
 'C08': 'one timed operation against an environment that the solver drives: durations of -2..3 s (-1..1 s for other clocks) plus a sub-second part in one of three windows of 64 ns (next to 0, half a second and a second; one value per window for other clocks), up to 3 blocking calls, each of which ends by a wake-up, EINTR, a signal or a timeout, the clocks advancing by 0..3 s (0..1 s) and a symbolic sub-second part at every reading; the steady clock is unrelated to the system clock, which jumps forward once in the cross-clock forms',
 'C09': 'every 64-bit number of units for which the result is representable in nanoseconds (seconds and sub-second part symbolic); one conversion per query. Fallback, used only when the solver does not finish on the complete range (listed under reduced_bounds): 6 values of the seconds and 6 bits of the sub-second part',
 'C10': 'histories of two constructions (any of 6 ways) and 3 operations out of 13 on two lock objects over two mutexes whose every outcome (success, failure, exception) is symbolic; then both are destroyed',
 'C11': 'chains of 3 conversions between a unique, a shared and an upgrade lock over two mutexes, every constructor of the source, every outcome (success, failure, exception) of the mutex',
 'C12': 'one or two guards, adopting or acquiring, every outcome of the mutex, scope left normally or by an exception, nested and interleaved with an unlock_guard',
 'C13': 'one operation per query, one call that the solver chooses refuses with an error number it chooses; after that the primitive is used again',
 'C14': 'histories of 4 to 7 steps: up to 4 thread-specific pointers (2 alive at a time), 2 threads (and threads that replace ended ones); the places of destroy/create/end are fixed per query (8 shapes, plus pointers without clean-up function and with the default one), the operations on values (which thread, which pointer, set/clear/set the same/release) are symbolic',
 'C15': 'the histories of C14, and ends of threads with up to 3 functions and 3 values that set, release, register, create, destroy or ask for a notification while the thread ends; clean-up functions called by reset or by the destruction of a pointer that do so; a refused allocation or pthread_setspecific in each of the first 3 requests',
 'C16': 'up to 3 functions per thread registered by the thread and up to 2 levels registered by functions, clean-up functions that register, 2 threads, a refused request at each of the first 4 places',
 'C17': 'up to 2 requests by up to 2 threads, combined with functions and values that set, register or ask for another notification; a refused request at each of the first 4 places',
 'C18': 'programs of up to 9 operations by 2 or 3 threads in which another thread runs before the n-th lock operation inside an operation (n up to 4, one preemption), happens-before race detection on every byte the library reads or writes, pointer checks (bounds, freed memory) on every dereference, balance of the heap; the histories of C14/C15 with pointer checks',
 'C19': _CONC + '; relative, absolute (timespec), system_clock and steady_clock deadlines',
 'C20': _CONC + '; the timed operations as C08 on the emulated primitives; EINTR-returning pthread_cond_wait/pthread_mutex_lock in the configurations for platforms known to do so'}
_OUT = 'Windows and Mach implementations (not compilable here); executions that only a weaker memory than sequential consistency allows, other than those the happens-before monitor of C06/C18 reports as missing synchronisation; more threads, operations and rounds than stated; platforms where the futex, clock or pthread functions do not follow POSIX/Linux'
OUTSIDE = {'*': _OUT,
 'C03': _OUT + '; more than 1023 posts waiting for blocked threads or 4194303 blocked threads (the widths of the two counters)',
 'C08': 'the system clock set back during a wait; deadlines beyond the range of 64-bit nanoseconds; how late the operating system schedules a thread whose deadline has passed; Windows and Mach',
 'C09': 'values not representable as 64-bit nanoseconds (the property does not speak of them), floating-point representations, special values of Boost.DateTime; Windows',
 'C10': 'longer histories; mutexes that throw from unlock', 'C11': 'longer chains; mutexes that throw from unlock', 'C12': 'mutexes that throw from unlock',
 'C13': 'errors that only a destroyed or corrupted primitive produces (EINVAL, EPERM of unlock); failing locks of the internal mutex of emulations; BOOST_SYNC_USE_STD_SYSTEM_ERROR (std::system_error builds strings, not encodable here)',
 'C14': 'Windows TLS; more pointers, threads and steps', 'C15': 'Windows TLS; more pointers, threads and steps', 'C16': 'Windows TLS; more functions',
 'C17': 'Windows TLS; more requests', 'C18': 'programs, preemption points and heap shapes other than the listed ones; races only a second preemption exposes'}
ASSUME = ['clang 18 translates the source correctly to LLVM IR at -O1 without optimisation of memory operations, and the IR-to-C encoder (tools/ll2c.py) is faithful (checked on every run by replaying witnesses of reached goals on the compiled code)',
 'CBMC 6.11 and its SAT back ends decide correctly',
 'the operating system behaves as model/model.h says: POSIX mutexes, condition variables and semaphores, futex (atomic compare and block, spurious wake-ups, EINTR, ETIMEDOUT), clocks that advance by any amount, malloc that succeeds unless a failure is injected',
 'client code is correct: it unlocks what it owns, does not destroy primitives in use, and its functions do not throw where the library forbids it',
 'atomic operations on different objects are interleaved sequentially consistently; C06 and C18 check in addition that the declared memory orders give the happens-before edges']
def describe(q, v):
    return 'query %s (harness %s, %s), see the assertion with this number in the harness' % (q.name, q.src, ' '.join(q.defs))
_T = {'conc': 'bounded symbolic execution of the library\'s LLVM IR (CBMC/SAT): symbolic schedule by lazy sequentialisation, symbolic spurious failures and timeouts, native replay of counterexamples',
 'seq': 'bounded symbolic execution of the library\'s LLVM IR (CBMC/SAT): symbolic operations, arguments and outcomes, native replay of counterexamples',
 'time': 'bounded symbolic execution of the library\'s LLVM IR (CBMC/SAT): symbolic times, clock readings, wake-ups and timeouts, native replay of counterexamples',
 'tss': 'bounded symbolic execution of the library\'s LLVM IR (CBMC/SAT): symbolic histories over the real bookkeeping and heap, pointer checks and a happens-before race monitor (C18), native replay of counterexamples'}
TECHNIQUE = {'*': _T['conc'], **{p: _T['time'] for p in ('C08', 'C09')}, **{p: _T['seq'] for p in ('C10', 'C11', 'C12', 'C13')}, **{p: _T['tss'] for p in ('C14', 'C15', 'C16', 'C17', 'C18')}}
_N = 'Every assertion is decided by the solver for all values of the symbolic inputs and schedules within the bounds: %s. Trusts clang\'s front end, the IR-to-C encoder, CBMC and the model of the operating system calls (model/model.h); solver witnesses are replayed on the compiled code.'
NOTE = {p: _N % BOUNDS.get(p, BOUNDS['*']) for p in CHECKS}
NOTE['*'] = _N % BOUNDS['*']
