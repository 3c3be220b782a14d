#!/usr/bin/env python3
"""One solver query: a harness under one configuration and one bound."""
import os, sys, re, json, time, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E, ll2c

class Q:
    """name; src (harness file); nt threads (0: sequential vp_main); rounds; defs for the harness; mdefs for the model; flags for CBMC"""
    def __init__(self, name, src, nt=0, rounds=0, defs=(), mdefs=(), flags=(), unwind=0, race=False, std='c++17', checks=(), hooks=(), max_rounds=None,
                 timeout=500, ignore=(), mem_gb=10, hb=False, backend=None, tier='quick', extra=(), cost=1, thorough_rounds=None, ladder=()):
        self.__dict__.update(locals()); del self.__dict__['self']

class Result:
    def __init__(self): self.status = 'error'; self.violations = []; self.notes = []; self.stats = {}; self.covers = {}; self.asserts = 0; self.wall = 0; self.encoded = []; self.rounds = 0; self.samples = []; self.replays = 0

def run_query(q, workroot, keep=False):
    """q.ladder: configurations with smaller bounds to fall back on when the solver does not finish (code written in another way can be harder to decide)"""
    t0 = time.time(); steps = [None] + list(q.ladder); flag = os.path.join(workroot, 'hard'); notes = []
    if q.ladder and os.path.exists(flag) and len(open(flag).read()) >= 3: steps = steps[1:] if len(steps) > 1 else steps
    base = (q.defs, q.mdefs, q.timeout)
    for i, st in enumerate(steps):
        if st: q.defs = list(base[0]) + list(st.get('defs', ())); q.mdefs = list(base[1]) + list(st.get('mdefs', ())); q.timeout = st.get('timeout', base[2])
        r = run_query1(q, workroot, keep)
        r.level = i if len(steps) > len(q.ladder) else i + 1
        if r.status != 'error' or not (r.timed_out or getattr(r, 'refuted', None)): break
        notes += r.notes
        if q.ladder:
            try: open(flag, 'a').write('x')
            except OSError: pass
    q.defs, q.mdefs, q.timeout = base
    r.notes = notes + r.notes; r.wall = time.time() - t0
    return r

def run_query1(q, workroot, keep):
    r = Result(); r.timed_out = False; t0 = time.time()
    work = os.path.join(workroot, re.sub(r'\W', '_', q.name)); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        _run(q, work, r)
    except (E.EngineError, ll2c.Unsupported) as ex:
        r.status = 'error'; r.notes.append('%s: %s' % (type(ex).__name__, str(ex)[:4000])); r.timed_out = 'solver timeout' in str(ex)
    if r.status == 'error' and getattr(r, 'refuted', None) and 'VP_TIME_SEQ' in q.mdefs and 'VP_EXACT_DIV' not in q.mdefs:
        q.mdefs = list(q.mdefs) + ['VP_EXACT_DIV']; return run_query1(q, workroot, keep)     # the case split of divisions was too coarse
    r.wall = time.time() - t0
    if not keep and r.status != 'violation': shutil.rmtree(work, ignore_errors=True)
    return r

def _run(q, work, r):
    threads = ['vp_thread_%d' % i for i in range(q.nt)]
    seq = ['vp_init', 'vp_quiesce'] if q.nt else ['vp_init', 'vp_main']
    seq += list(q.hooks) + sorted(set(re.findall(r'(?m)^(?:extern "C"|X) [\w ]*?\b(vpx_\w+)\(', open(os.path.join(E.VERIF, 'harness', q.src)).read())))
    fin = E.build_ll(os.path.join(E.VERIF, 'harness', q.src), work, defs=q.defs, std=q.std, entries=threads + seq, extra=q.extra)
    cf, g = E.encode(fin, work, threads=threads, seq=seq, race=q.race)
    r.encoded = list(source_functions(work)); r.visible = g.visible_ops
    rounds = q.rounds; maxr = q.max_rounds or (rounds + 2 if rounds else 0)
    base = ['VP_NT=%d' % q.nt] + list(q.mdefs)
    if not q.hb and 'VP_NO_HB' not in base: base.append('VP_NO_HB')
    if 'vpx_preempt' in seq: base.append('VP_PREEMPT')
    if 'vp_cond_hook' in q.hooks: base.append('VP_COND_HOOK')
    if 'vp_futex_hook' in q.hooks: base.append('VP_FUTEX_HOOK')
    grow = 1
    while True:
        defs = base + ['VP_R=%d' % rounds]
        uw = max(rounds + 2, q.nt + 3, q.unwind, 6) if q.nt or not q.unwind else q.unwind*grow
        flags = ['--unwind', str(uw)] + list(q.flags) + (['--' + q.backend] if q.backend else [])
        rc, o, e, t, cmd = E.cbmc(cf, work, defs, flags, timeout=q.timeout, mem_gb=q.mem_gb)
        if rc == -999: raise E.EngineError('solver timeout after %ds (rounds %d)' % (q.timeout, rounds))
        res, st = E.parse_results(o); unknown = None
        if res is None: raise E.EngineError('cbmc failed rc=%s %s %s' % (rc, st.get('error', ''), (e or o)[-1500:]))
        for k, v in st.items():
            if isinstance(v, (int, float)): r.stats[k] = r.stats.get(k, 0) + v if k in ('solver_s', 'vccs', 'vccs_solved', 'symex_s') else max(v, r.stats.get(k, 0))
        r.stats['queries'] = r.stats.get('queries', 0) + 1
        r.rounds = rounds; r.covers = {}; fails = []; r.known_hit = set(); cprop = {}; r.asserts = 0; unwound = []
        for prop, desc, status, tr in res:
            k, v = E.kind(desc)
            if k == 'C':
                r.covers[v] = r.covers.get(v, False) or status == 'FAILURE'
                if status == 'FAILURE': cprop.setdefault(v, prop)
            elif k == 'U':
                if status == 'FAILURE': unwound.append(prop)
            elif k == 'D': r.depth_complete = status == 'SUCCESS'
            else:
                r.asserts += 1
                if status == 'FAILURE' and 'no candidates' in desc: raise E.EngineError('outside the encoding: ' + desc + ' ' + prop)
                if status == 'FAILURE' and k == 'A' and v in getattr(q, 'known', ()): r.known_hit.add(v)
                elif status == 'FAILURE' and v not in q.ignore: fails.append((prop, desc, k, v))
                elif status not in ('SUCCESS', 'FAILURE'): unknown = (prop, status)
        if unknown and not fails: raise E.EngineError('property %s: %s' % unknown)     # what follows a memory error is unknown
        if unwound: r.notes.append('loop bound reached: ' + ', '.join(unwound[:6]))
        missing = sorted(i for i, ok in r.covers.items() if not ok)
        if fails: break
        if missing and q.nt and rounds < maxr: rounds += 1; continue
        if missing and unwound and not q.nt and grow < 4: grow *= 2; continue    # a loop needs more iterations than the bound gives it
        break
    r.missing = missing if not fails else []
    r.unwound = unwound
    env = (cf, g, fin, work, defs, flags)
    if not fails:
        r.status = 'ok'
        w = sorted(cprop.items())
        if getattr(q, 'witness', 'one') == 'one': w = w[-1:]
        for cid, prop in w: witness(q, r, env, cid, prop)
        return
    # counterexamples: trace, native replay
    order = sorted(fails, key=lambda x: 0 if x[2] == 'A' else 1)
    refuted = []; seen = set()
    for prop, desc, k, v in order:
        if (k, v) in seen: continue
        if len(seen) >= 6 or r.violations: break
        seen.add((k, v))
        x = replay(q, r, env, prop, str(v) if k == 'A' else '-1')
        if x is None: continue
        sched, ins, rc, so, tf, exe = x
        rec = dict(prop=prop, desc=desc, kind=k, id=v, trace=tf, exe=exe, schedule=sched, inputs=ins, replay_rc=rc, replay_out=so[-2000:])
        if rc == 1 or rc < 0 and rc != -999: r.violations.append(rec)
        elif k == 'P':
            rc, so, se = E.run(['valgrind', '-q', '--error-exitcode=1', '--undef-value-errors=no', exe, tf, '-1'], timeout=120); r.replays += 1
            rec['replay_rc'] = rc; rec['replay_out'] = (so + se)[-3000:]
            (r.violations if rc == 1 else refuted).append(rec)
        else: refuted.append(rec)
    r.refuted = refuted
    if r.violations: r.status = 'violation'
    elif refuted: r.status = 'error'; r.notes.append('counterexample not reproduced natively: ' + '; '.join('%s rc=%s %s' % (x['desc'], x['replay_rc'], x['replay_out'][-300:]) for x in refuted))
    else: r.status = 'error'

def modelled():
    """functions that model/replay.cpp provides under the name vpn_<name>"""
    t = open(os.path.join(E.VERIF, 'model', 'replay.cpp')).read() + open(os.path.join(E.VERIF, 'model', 'replay_tss.h')).read()
    return set(re.findall(r'\b(?:PASS|YIELD|TWO)\([^,]+, (\w+),', t)) | set(re.findall(r'\bvpn_(\w+)', t))
def replay(q, r, env, prop, want):
    cf, g, fin, work, defs, flags = env
    rc, o, e, t, cmd = E.cbmc(cf, work, defs, flags + ['--trace', '--property', prop], timeout=q.timeout, mem_gb=q.mem_gb)
    res, st = E.parse_results(o)
    tr = [x for x in (res or []) if x[2] == 'FAILURE' and x[3]]
    if not tr: r.notes.append('no trace for ' + prop); return None
    sched, ins = E.trace_streams(tr[0][3])
    tf = os.path.join(work, 'trace_%s.txt' % re.sub(r'\W', '_', prop)); open(tf, 'w').write('S %s\nI %s\n' % (' '.join(map(str, sched)), ' '.join(map(str, ins))))
    names = {n for n in g.unknown if not n.startswith('&')} | {'syscall'}
    names &= modelled()
    exe = os.path.join(work, 'replay')
    if not os.path.exists(exe): E.build_native(fin, work, names, defs, 'VP_RACEMON' in defs)
    rc, so, se = E.run([exe, tf, want], timeout=60)
    r.replays += 1
    return sched, ins, rc, so, tf, exe

def witness(q, r, env, cid, prop):
    """the solver's witness of a cover goal is run on the compiled code, which has to reach the same goal without any assertion failing"""
    try: x = replay(q, r, env, prop, '-2')
    except E.EngineError as ex:
        r.notes.append('witness %d: %s' % (cid, str(ex)[-600:])); r.replays = 0; return
    if x is None: return
    sched, ins, rc, so, tf, exe = x
    ok = rc in (0, 3) and ('COVER %d ' % cid) in so      # 3: what follows the goal is not part of the witness
    if not ok: r.notes.append('witness of cover %d not confirmed natively: rc=%s %s' % (cid, rc, so[-200:])); r.replays -= 1
    else: r.samples.append(dict(cover=cid, schedule=' '.join(map(str, sched)), inputs=' '.join(map(str, ins[:40]))))

def source_functions(work):
    """functions of the library that clang compiled into the module (before inlining)"""
    out = set()
    for ln in open(os.path.join(work, 'mod.ll')):
        if ln.startswith('define'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            n = m.group(1).strip('"')
            if '4sync' in n or 'boost' in n: out.add(n)
    return sorted(out)

if __name__ == '__main__':
    import checks
    name = sys.argv[1]
    for cid, qs in checks.CHECKS.items():
        for q in qs:
            if q.name == name or cid == name:
                r = run_query(q, '/tmp/vpq', keep=True)
                print(cid, q.name, r.status, 'rounds', r.rounds, 'covers', r.covers, 'missing', getattr(r, 'missing', None), 'wall %.1f' % r.wall, r.stats)
                for n in r.notes: print('   NOTE', n)
                for v in r.violations: print('   VIOLATION', v['desc'], v['prop'], v['replay_rc'], v['replay_out'][-300:])
