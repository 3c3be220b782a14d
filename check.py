#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree.
exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: no answer."""
import os, sys, json, time, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'tools'))
import query, checks, engine as E

def known():
    try: return json.load(open(os.path.join(HERE, 'known_findings.json')))
    except FileNotFoundError: return {'findings': [], 'fixed': []}

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    spec = checks.CHECKS[pid]
    qs = [q for q in spec if (tier == 'thorough' or q.tier == 'quick') and (not only or only in q.name)]
    if tier == 'thorough':
        for q in qs: q.rounds = q.thorough_rounds if getattr(q, 'thorough_rounds', None) else q.rounds; q.timeout = max(q.timeout, 3000)
    kf = [k for k in known()['findings'] if k['property'] == pid]
    for q in qs:
        q.known = {k['assert'] for k in kf if k['query'] == q.name}
        q.witness = 'all' if tier == 'thorough' else 'one'
    workroot = tempfile.mkdtemp(prefix='vp_%s_' % pid, dir=os.environ.get('VP_TMP', '/tmp'))
    results = {}
    jobs = int(os.environ.get('VP_JOBS', '8'))
    viol = None; hung = False
    try:
        ex = cf.ProcessPoolExecutor(max_workers=jobs)
        futs = {ex.submit(query.run_query, q, workroot): q for q in sorted(qs, key=lambda q: -q.cost)}
        limit = 800 if tier == 'quick' else None; it = cf.as_completed(futs, timeout=limit)
        while True:
            try: f = next(it)
            except StopIteration: break
            except cf.TimeoutError:
                late = [q for g, q in futs.items() if q.name not in results]
                for q in late:
                    r = query.Result(); r.status = 'undecided'; r.notes.append('not decided within the time of the check'); results[q.name] = r
                for g in futs: g.cancel()
                hung = True; break
            q = futs[f]
            try: r = f.result()
            except cf.CancelledError: continue
            except Exception as e:
                r = query.Result(); r.notes.append('internal: %r' % e)
            if r.status == 'error' and getattr(r, 'timed_out', False): r.status = 'undecided'
            results[q.name] = r
            print('%-44s %-9s rounds=%d asserts=%d covers=%d/%d %.1fs' % (q.name, r.status, r.rounds, r.asserts, sum(map(bool, r.covers.values())), len(r.covers), r.wall), flush=True)
            for n in r.notes: print('    note: ' + n[:700], flush=True)
            if r.status == 'violation' and not viol:
                viol = (q, r)
                for g in futs: g.cancel()
                break
        if viol or hung:
            for p in list(getattr(ex, '_processes', {}).values()):
                try:
                    os.system('pkill -TERM -P %d 2>/dev/null' % p.pid); p.terminate()
                except Exception: pass
        ex.shutdown(wait=not viol and not hung, cancel_futures=True)
        code = finish(pid, tier, seed, qs, results, viol, kf, t0)
    finally:
        shutil.rmtree(workroot, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def finish(pid, tier, seed, qs, results, viol, kf, t0):
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    rdir = os.path.join(ev, pid + '.replay'); shutil.rmtree(rdir, ignore_errors=True)
    code = 0
    errs = [n for n, r in results.items() if r.status == 'error']
    for k in kf:
        r = results.get(k['query'])
        if r and k['assert'] in getattr(r, 'known_hit', ()): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        q, r = viol; v = r.violations[0]
        os.makedirs(rdir); 
        for s, d in ((v['exe'], 'replay'), (v['trace'], 'trace.txt')):
            if os.path.exists(s): shutil.copy(s, os.path.join(rdir, d))
        for s in ('native.ll', 'enc.c'):
            p = os.path.join(os.path.dirname(v['exe']), s)
            if os.path.exists(p): shutil.copy(p, rdir)
        path = os.path.join(rdir, 'violation.json')
        json.dump(dict(property=pid, query=q.name, harness=q.src, defs=q.defs, model_defs=q.mdefs, threads=q.nt, rounds=r.rounds, assertion=v['desc'], what=checks.describe(q, v), schedule=v['schedule'], inputs=v['inputs'],
                       native_replay='%s/replay %s/trace.txt %s' % (rdir, rdir, v['id'] if v['kind'] == 'A' else -1), native_exit=v['replay_rc'], native_output=v['replay_out']), open(path, 'w'), indent=1)
        print('%s: assertion %s failed (%s); native replay exit %s' % (q.name, v['desc'], checks.describe(q, v), v['replay_rc']))
        print('VIOLATION property=%s replay=%s' % (pid, path)); code = 1
    elif errs or not any(r.status == 'ok' for r in results.values()):
        print('NO ANSWER: ' + ', '.join(errs)); code = 2
    tot = lambda k: sum(r.stats.get(k, 0) for r in results.values())
    enc = sorted({f for r in results.values() for f in r.encoded})
    miss = {n: r.missing for n, r in results.items() if getattr(r, 'missing', None)}
    cov = dict(states=int(tot('steps')), transitions=int(sum(getattr(r, 'visible', 0)*max(r.rounds, 1) for r in results.values())),
      traces_validated_against_impl=sum(r.replays for r in results.values()),
      samples=[dict(query=n, witness=s) for n, r in results.items() for s in r.samples][:6] or [dict(query=n, asserts=r.asserts) for n, r in list(results.items())[:3]],
      meaning='states: steps of the symbolic executions; transitions: visible operations times contexts per query; traces_validated: solver witnesses replayed on the compiled code',
      queries=[dict(name=q.name, harness=q.src, defs=list(q.defs), threads=q.nt, rounds=results[q.name].rounds, assertions=results[q.name].asserts, covers_reached=sum(map(bool, results[q.name].covers.values())), covers=len(results[q.name].covers),
                    status=results[q.name].status, depth_complete=getattr(results[q.name], 'depth_complete', None), loop_bounds_hit=getattr(results[q.name], 'unwound', []), stats=results[q.name].stats, wall_s=round(results[q.name].wall, 2)) for q in qs if q.name in results],
      solver_queries=int(tot('queries')), assertions_decided=sum(r.asserts for r in results.values()), solver_s=round(tot('solver_s'), 2), sat_clauses_max=max([r.stats.get('clauses', 0) for r in results.values()] or [0]),
      functions_encoded=len(enc), functions=enc[:400], covers_missed=miss, undecided=[n for n, r in results.items() if r.status == 'undecided'], reduced_bounds={n: r.level for n, r in results.items() if getattr(r, 'level', 0)}, bounds=checks.BOUNDS.get(pid, checks.BOUNDS['*']), outside=checks.OUTSIDE.get(pid, checks.OUTSIDE['*']))
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=checks.ASSUME, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0), open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    if code == 0: print('OK property=%s tier=%s queries=%d assertions=%d solver=%.1fs wall=%.1fs' % (pid, tier, len(results), cov['assertions_decided'], cov['solver_s'], time.time() - t0))
    und = [n for n, r in results.items() if r.status == 'undecided']
    if und: print('UNDECIDED within the time limit (listed in the evidence): ' + ', '.join(und))
    if miss: print('covers not reached: %s' % miss)
    return code
main()
