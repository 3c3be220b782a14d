#!/usr/bin/env python3
"""Compiles a harness against /repo's sources, encodes it (LLVM IR -> C), runs CBMC, extracts and replays counterexamples."""
import os, re, subprocess, sys, json, time, hashlib, shutil, resource
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
import ll2c
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['-I' + VERIF + '/shim', '-I' + REPO + '/include', '-I' + VERIF + '/harness', '-I' + REPO]

class EngineError(Exception):
    pass

def run(cmd, timeout=None, mem_gb=12, cwd=None):
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim, cwd=cwd, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -999, '', 'timeout'

def build_ll(src, work, defs=(), std='c++17', entries=(), extra=()):
    """C++ -> inlined, cleaned textual IR"""
    os.makedirs(work, exist_ok=True)
    raw = os.path.join(work, 'raw.ll')
    cmd = [LLVM + 'clang++', '-std=' + std] + INC + ['-D' + d for d in defs] + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize',
           '-fno-stack-protector', '-w', '-S', '-emit-llvm', src, '-o', raw]
    rc, o, e = run(cmd, timeout=300)
    if rc != 0: raise EngineError('compile failed: ' + src + '\n' + e[-6000:])
    text = open(raw).read()
    text = per_thread(re.sub(r'\b(noinline|optnone)\b ?', '', text))
    out = []
    for ln in text.split('\n'):
        if ln.startswith('define'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln); nm = m.group(1).strip('"')
            if nm in entries:
                ln = re.sub(r'^define (linkonce_odr |internal |weak_odr )?', 'define ', ln)
            else:
                ln = re.sub(r'^define (dso_local )?(?!internal|linkonce|weak|private|available)', r'define internal ', ln)
                ln = re.sub(r'^define linkonce_odr (dso_local )?', 'define internal ', ln)
                ln = re.sub(r'^define weak_odr (dso_local )?', 'define internal ', ln)
                ln = re.sub(r'\b(hidden|protected)\b ', '', ln)
                ln = re.sub(r' comdat(\([^)]*\))?', '', ln)
                if re.search(r' #\d+', ln): ln = re.sub(r' (#\d+)', r' alwaysinline \1', ln, count=1)
                else: ln = ln.replace(') {', ') alwaysinline {') if ') {' in ln else re.sub(r' personality', ' alwaysinline personality', ln, count=1)
        out.append(ln)
    mod = os.path.join(work, 'mod.ll'); open(mod, 'w').write('\n'.join(out))
    fin = os.path.join(work, 'final.ll')
    passes = 'always-inline,globaldce,function(sroa,early-cse,simplifycfg,sccp,instsimplify,adce,simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,jump-threading,simplifycfg,sccp,adce,simplifycfg),globaldce'
    rc, o, e = run([LLVM + 'opt', '-S', '-passes=' + passes, mod, '-o', fin], timeout=300)
    if rc != 0: raise EngineError('opt failed\n' + e[-4000:])
    text = open(fin).read(); t2 = drop_padding(text)
    if t2 != text: open(fin, 'w').write(t2)
    return fin

def per_thread(text):
    """Thread-local variables become arrays indexed by the modelled thread."""
    types = {}
    def decl(m):
        types[m.group(1)] = m.group(3)
        return '%s =%s global [8 x %s] zeroinitializer' % (m.group(1), m.group(2), m.group(3))
    def decl1(m):
        if m.group(4) not in ('null', '0', 'false', 'zeroinitializer'): raise EngineError('thread-local variable with an initial value: ' + m.group(1))
        return decl(m)
    text = re.sub(r'(?m)^(@[-\w$.]+) =([ \w]*?) thread_local(?:\([a-z]+\))? global ([\w.%]+) (\w+)', decl1, text)
    if not types: return text
    n = [0]
    def use(m):
        n[0] += 1; g = m.group(2)
        if g not in types: raise EngineError('thread-local variable: ' + g)
        return '  %%vptls%d = call i32 @vp_thread_id()\n  %s = getelementptr inbounds [8 x %s], ptr %s, i32 0, i32 %%vptls%d' % (n[0], m.group(1), types[g], g, n[0])
    text = re.sub(r'(?m)^  (%[-\w$.]+) = call [^@]*@llvm\.threadlocal\.address\.p0\(ptr [^@]*(@[-\w$.]+)\)', use, text)
    if not re.search(r'(?m)^declare [^@]*@vp_thread_id\(', text): text += '\ndeclare i32 @vp_thread_id()\n'
    return text

def drop_padding(text):
    """Copies of padding (from a local that is never written) do nothing."""
    out = []
    for fn in re.split(r'(?m)^(?=define )', text):
        for a in re.findall(r'(?m)^  (%[-\w$.]+) = alloca \[\d+ x i8\]', fn):
            use = re.compile(r'(?<![-\w$.%])' + re.escape(a) + r'(?![-\w$.])')
            lines = [l for l in fn.split('\n') if use.search(l) and ' = alloca ' not in l and '@llvm.lifetime.' not in l]
            if lines and all(re.search(r'call void @llvm\.memcpy\S*\(ptr [^,]*, ptr [^,]*' + re.escape(a) + r', i64 \d+, ', l) and len(use.findall(l)) == 1 for l in lines):
                for l in lines: fn = fn.replace(l + '\n', '', 1)
        out.append(fn)
    return ''.join(out)

def encode(fin, work, threads=(), seq=('vp_init', 'vp_quiesce'), race=False):
    mod = ll2c.Module(open(fin).read())
    seq = [s for s in seq if s in mod.funcs]
    g = ll2c.Gen(mod, threads=threads, seq=seq, race=race)
    c = g.generate()
    cf = os.path.join(work, 'enc.c'); open(cf, 'w').write(c)
    return cf, g


CBMC_FLAGS = ['--no-standard-checks', '--drop-unused-functions', '--slice-formula', '--no-malloc-may-fail', '--json-ui', '--unwinding-assertions', '--verbosity', '8']

def cbmc(cf, work, defs=(), flags=(), timeout=600, mem_gb=12):
    cmd = ['cbmc', cf, '-I', VERIF + '/model'] + ['-D' + d for d in defs] + [f for f in CBMC_FLAGS if not ('--trace' in flags and f == '--slice-formula')] + list(flags)
    t0 = time.time()
    rc, o, e = run(cmd, timeout=timeout, mem_gb=mem_gb)
    return rc, o, e, time.time() - t0, cmd

def parse_results(out):
    """[(property, description, status, trace)], stats"""
    res = []; st = {}
    try: js = json.loads(out)
    except Exception: return None, st
    err = [x['messageText'] for x in js if x.get('messageType') == 'ERROR']
    for x in js:
        if 'result' in x:
            for r in x['result']: res.append((r['property'], r['description'], r['status'], r.get('trace')))
        m = x.get('messageText', '')
        k = re.match(r'(\d+) variables, (\d+) clauses', m)
        if k: st['variables'] = int(k.group(1)); st['clauses'] = int(k.group(2))
        k = re.match(r'Runtime Solver: ([\d.e+-]+)s', m)
        if k: st['solver_s'] = st.get('solver_s', 0) + float(k.group(1))
        k = re.match(r'Runtime Symex: ([\d.e+-]+)s', m)
        if k: st['symex_s'] = float(k.group(1))
        k = re.match(r'size of program expression: (\d+) steps', m)
        if k: st['steps'] = int(k.group(1))
        k = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
        if k: st['vccs'] = int(k.group(1)); st['vccs_solved'] = int(k.group(2))
    if err and not res: st['error'] = '; '.join(err)
    return (res or None), st

def trace_streams(trace):
    """schedule and inputs of a CBMC trace"""
    sched = []; ins = []
    for s in trace:
        if s.get('stepType') != 'assignment': continue
        l = s.get('lhs')
        if l == 'vp_log': sched.append(num(s['value']))
        elif l == 'vp_in': ins.append(num(s['value']))
    # the static initialisation of the two variables comes first
    return sched[1:], ins[1:]

def num(v):
    if 'binary' in v: return int(v['binary'], 2)
    m = re.match(r'-?\d+', v.get('data', '0'))
    return int(m.group(0))

def kind(desc):
    """('A', id) assertion, ('C', id) cover, ('M', text), ('U', text) unwinding, ('D','depth'), ('P', text) other (memory safety)"""
    m = re.match(r'(?:assertion )?([ACMD]):(.*)', desc)
    if m:
        k, r = m.groups()
        if k in 'AC':
            n = re.findall(r'\d+', re.sub(r'u32|s32|u64', '', r)); return k, int(n[0])
        return k, r
    if desc.startswith('unwinding assertion') or desc.startswith('recursion unwinding'): return 'U', desc
    return 'P', desc

# ------------------------------------------------------------------ native replay
ORDN = {'unordered': 0, 'monotonic': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}
RMWN = {'add': 0, 'sub': 1, 'and': 2, 'or': 3, 'xor': 4, 'xchg': 5, 'nand': 6, 'umax': 7, 'umin': 8, 'max': 9, 'min': 10}
def native_ll(text, names):
    out = []; decl = {}
    def ty(t): return 'p' if t == 'ptr' else t[1:]
    tls = {}
    used = set(re.findall(r'@([-\w$.]+)\b(?!\()', text))
    for ln in text.split('\n'):
        m = re.match(r'^(@\S+ = .*?)thread_local(?:\([a-z]+\))? (.*?(?:global|constant) )(.*)$', ln)
        if m: ln = m.group(1) + m.group(2) + m.group(3)
        if ln.startswith('declare'):
            n = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            if n and n.group(1) in names:
                if n.group(1) in used: out.append(ln)      # its address is taken
                ln = ln.replace('@' + n.group(1) + '(', '@vpn_' + n.group(1) + '(')
            out.append(ln); continue
        src = ln.strip(); ind = '  '
        m = re.match(r'(%\S+) = load atomic (?:volatile )?(\S+), ptr (.+?)(?: syncscope\("[^"]*"\))? (\w+), align \d+', src)
        if m:
            decl['vpr_load' + ty(m[2])] = 'declare %s @vpr_load%s(ptr, i32)' % (m[2], ty(m[2]))
            out.append('%s%s = call %s @vpr_load%s(ptr %s, i32 %d)' % (ind, m[1], m[2], ty(m[2]), m[3], ORDN[m[4]])); continue
        m = re.match(r'store atomic (?:volatile )?(i\d+|ptr) (.+?), ptr (.+?)(?: syncscope\("[^"]*"\))? (\w+), align \d+', src)
        if m:
            decl['vpr_store' + ty(m[1])] = 'declare void @vpr_store%s(ptr, %s, i32)' % (ty(m[1]), m[1])
            out.append('%scall void @vpr_store%s(ptr %s, %s %s, i32 %d)' % (ind, ty(m[1]), m[3], m[1], m[2], ORDN[m[4]])); continue
        m = re.match(r'(%\S+) = cmpxchg (weak )?(?:volatile )?ptr (.+), (i\d+|ptr) ([^,]+), (i\d+|ptr) ([^,]+?)(?: syncscope\("[^"]*"\))? (\w+) (\w+), align \d+', src)
        if m:
            r = m[1]; nm = re.sub(r'\W', '_', r); T = m[4]
            decl['vpr_cas' + ty(T)] = 'declare %s @vpr_cas%s(ptr, %s, %s, i32, i32, i32)' % (T, ty(T), T, T); decl['vpr_ok'] = 'declare zeroext i1 @vpr_ok()'
            out.append('%s%%vpc%s.o = call %s @vpr_cas%s(ptr %s, %s %s, %s %s, i32 %d, i32 %d, i32 %d)' % (ind, nm, T, ty(T), m[3], T, m[5], T, m[7], 1 if m[2] else 0, ORDN[m[8]], ORDN[m[9]]))
            out.append('%s%%vpc%s.k = call zeroext i1 @vpr_ok()' % (ind, nm))
            out.append('%s%%vpc%s.s = insertvalue { %s, i1 } poison, %s %%vpc%s.o, 0' % (ind, nm, T, T, nm))
            out.append('%s%s = insertvalue { %s, i1 } %%vpc%s.s, i1 %%vpc%s.k, 1' % (ind, r, T, nm, nm)); continue
        m = re.match(r'(%\S+) = atomicrmw (?:volatile )?(\w+) ptr (.+), (i\d+|ptr) ([^,]+?)(?: syncscope\("[^"]*"\))? (\w+), align \d+', src)
        if m:
            T = m[4]
            if T == 'ptr':
                decl['vpr_xchgp'] = 'declare ptr @vpr_xchgp(ptr, ptr, i32)'
                out.append('%s%s = call ptr @vpr_xchgp(ptr %s, ptr %s, i32 %d)' % (ind, m[1], m[3], m[5], ORDN[m[6]]))
            else:
                decl['vpr_rmw' + ty(T)] = 'declare %s @vpr_rmw%s(ptr, %s, i32, i32)' % (T, ty(T), T)
                out.append('%s%s = call %s @vpr_rmw%s(ptr %s, %s %s, i32 %d, i32 %d)' % (ind, m[1], T, ty(T), m[3], T, m[5], RMWN[m[2]], ORDN[m[6]]))
            continue
        m = re.match(r'fence (syncscope\("[^"]*"\) )?(\w+)', src)
        if m:
            if not m[1]:
                decl['vpr_fence'] = 'declare void @vpr_fence(i32)'; out.append('%scall void @vpr_fence(i32 %d)' % (ind, ORDN[m[2]]))
            continue
        if re.match(r'(tail )?call void asm sideeffect "[^"]*(pause|nop)', src):
            decl['vpr_pause'] = 'declare void @vpr_pause()'; out.append(ind + 'call void @vpr_pause()'); continue
        m = re.match(r'(%\S+) = (?:tail )?call .*@llvm\.threadlocal\.address\.p0\(ptr .*?(@[-\w$.]+)\)', src)
        if m:
            decl['vpr_tls'] = 'declare ptr @vpr_tls(ptr, i64)'; out.append('%s%s = call ptr @vpr_tls(ptr %s, i64 64)' % (ind, m[1], m[2])); continue
        if 'call' in ln or 'invoke' in ln:
            ln = re.sub(r'@([-\w$.]+)\(', lambda q: '@vpn_' + q.group(1) + '(' if q.group(1) in names else q.group(0), ln)
        # addresses of modelled functions
        out.append(ln)
    out += [d for d in decl.values()]
    return '\n'.join(out)

def race_ll(t):
    """reports of plain memory accesses, for the replay of data races"""
    sz = lambda T: 8 if T == 'ptr' else max(1, int(T[1:])//8) if re.match(r'i\d+$', T) else 16
    out = []
    for ln in t.split('\n'):
        m = re.match(r'\s*%\S+ = load (?:volatile )?(i\d+|ptr|[<{\[].*?[>}\]]), ptr (.+?), align', ln)
        if m: out.append('  call void @vpr_rd(ptr %s, i64 %d)' % (m[2], sz(m[1])))
        m = re.match(r'\s*store (?:volatile )?(i\d+|ptr|[<{\[].*?[>}\]]) .*, ptr (.+?), align', ln)
        if m: out.append('  call void @vpr_wr(ptr %s, i64 %d)' % (m[2], sz(m[1])))
        m = re.match(r'\s*(?:tail )?call void @llvm\.mem(?:cpy|move)\S*\(ptr (?:[^%@,]*)([%@][^,]+), ptr (?:[^%@,]*)([%@][^,]+), i64 ([^,]+), ', ln)
        if m: out.append('  call void @vpr_wr(ptr %s, i64 %s)\n  call void @vpr_rd(ptr %s, i64 %s)' % (m[1], m[3], m[2], m[3]))
        out.append(ln)
    return '\n'.join(out) + '\ndeclare void @vpr_rd(ptr, i64)\ndeclare void @vpr_wr(ptr, i64)\n'

def build_native(fin, work, names, defs, race=False):
    t = native_ll(open(fin).read(), names)
    if race: t = race_ll(t)
    n = os.path.join(work, 'native.ll'); open(n, 'w').write(t)
    exe = os.path.join(work, 'replay')
    for cmd in ([LLVM + 'clang', '-O0', '-w', '-c', n, '-o', n + '.o'],
                ['clang++', '-O0', '-g', '-w', '-I' + VERIF + '/model'] + ['-D' + d for d in defs] + ['-c', VERIF + '/model/replay.cpp', '-o', os.path.join(work, 'rt.o')],
                ['clang++', n + '.o', os.path.join(work, 'rt.o'), '-o', exe]):
        rc, o, e = run(cmd, timeout=300)
        if rc != 0: raise EngineError('native build failed: ' + ' '.join(cmd) + '\n' + e[-3000:])
    return exe
