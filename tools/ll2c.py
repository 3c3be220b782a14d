#!/usr/bin/env python3
"""Translates textual LLVM IR (clang 18) into C for CBMC.

Two kinds of output per function:
  * sequential functions: plain C functions, exceptions as a pending flag;
  * thread step machines: the (fully inlined) thread function becomes a function that executes from one visible
    operation (atomic access, OS call, marker) to the next and returns; registers live across a yield are static.

Everything that is not defined in the module is a call to the model (M_<name> in model/model.h).
"""
import re, sys

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- lexer / parser

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
 | (?P<loc>%(?:"[^"]*"|[-\w$.]+))
 | (?P<meta>!(?:[-\w$.]+)?)
 | (?P<attr>\#\d+)
 | (?P<comdat>\$(?:"[^"]*"|[-\w$.]+))
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def lex(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            if s[pos:].strip() == '': break
            raise Unsupported('lex: ' + s[pos:pos+60])
        k = m.lastgroup; out.append((k, m.group(k))); pos = m.end()
    return out

def unq(s):
    s = s[1:]
    if s.startswith('"'): s = s[1:-1]
    return s

PARAM_ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','readnone','writeonly','signext','zeroext','inreg','returned',
  'immarg','nofree','dead_on_unwind','writable','noext','nest','swiftself','allocptr','immarg','inrange','nofpclass','captures'}
PARAM_ATTRS_ARG = {'align','dereferenceable','dereferenceable_or_null','sret','byval','elementtype','byref','inalloca','preallocated','range','initializes','nofpclass'}

class Par:
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        x = self.peek(); self.i += 1; return x
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str': self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise Unsupported('expected %s at %s' % (v, self.t[self.i:self.i+8]))
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v): T = ('i', int(v[1:]))
            elif v == 'ptr':
                if self.peek()[1] == 'addrspace': raise Unsupported('addrspace')
                T = ('ptr',)
            elif v in ('void','label','metadata','token'): T = (v,)
            elif v == 'float': T = ('f', 32)
            elif v == 'double': T = ('f', 64)
            elif v == 'x86_fp80': T = ('f', 80)
            elif v == 'opaque': T = ('opaque',)
            else: raise Unsupported('type ' + v)
        elif k == 'loc': T = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); T = ('arr', n, e)
        elif v == '{': T = ('st', False, self._fields('}'))
        elif v == '<':
            if self.acc('{'):
                f = self._fields('}'); self.exp('>'); T = ('st', True, f)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); T = ('vec', n, e)
        else: raise Unsupported('type tok ' + str(v))
        if self.peek()[1] == '(' and T[0] != 'label' and self._isfn():
            self.exp('('); ps = []; va = False
            while not self.acc(')'):
                if self.peek()[0] == 'dots': self.next(); va = True
                else: ps.append(self.type())
                self.acc(',')
            T = ('fn', T, tuple(ps), va)
        return T
    def _isfn(self):
        # called after a return type: "(types...)" follows only in call signatures for varargs
        depth = 0; j = self.i
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(': depth += 1
            elif v == ')':
                depth -= 1
                if depth == 0: return True
            elif self.t[j][0] in ('glob', 'loc', 'num') : return False
            j += 1
        return False
    def _fields(self, end):
        f = []
        while not self.acc(end):
            f.append(self.type()); self.acc(',')
        return tuple(f)
    def attrs(self):
        """skips parameter attributes"""
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS: self.next(); 
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == '(':
                    self.skip_paren()
                elif self.peek()[0] == 'num': self.next()
            elif k == 'str': self.next(); (self.acc('=') and self.next())
            else: return
    def skip_paren(self):
        d = 0
        while True:
            k, v = self.next()
            if k is None: raise Unsupported('paren')
            if k == 'str': continue
            if v == '(': d += 1
            if v == ')':
                d -= 1
                if d == 0: return
    def value(self, T):
        k, v = self.next()
        if k == 'loc': return ('reg', unq(v))
        if k == 'glob': return ('glob', unq(v))
        if k == 'num':
            if T[0] == 'f': return ('fp', v)
            return ('int', int(v, 0))
        if k == 'str':
            return ('str', decode(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v in ('null',): return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                self.acc('inbounds'); 
                while self.peek()[0] == 'word' and self.peek()[1] in ('nuw','nusw','inrange'): 
                    w = self.next()[1]
                    if w == 'inrange' and self.peek()[1] == '(': self.skip_paren()
                self.exp('('); bt = self.type(); self.exp(',')
                pt = self.type(); pv = self.value(pt); idx = []
                while self.acc(','):
                    self.acc('inrange'); it = self.type(); idx.append((it, self.value(it)))
                self.exp(')'); return ('gep', bt, pv, idx)
            if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
                self.exp('('); st = self.type(); sv = self.value(st); self.exp('to'); dt = self.type(); self.exp(')')
                return ('cast', v, st, sv, dt)
            if v in ('add','sub','mul','xor','and','or','shl'):
                while self.peek()[1] in ('nuw','nsw'): self.next()
                self.exp('('); t1 = self.type(); a = self.value(t1); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('bin', v, t1, a, b)
            if v == 'blockaddress': raise Unsupported('blockaddress')
            if v == 'dso_local_equivalent' or v == 'no_cfi': return self.value(T)
        if v in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.acc('{'): end = '}>'
            els = []
            while True:
                if end == '}>':
                    if self.peek()[1] == '}': self.next(); self.exp('>'); break
                elif self.acc(end): break
                t = self.type(); els.append((t, self.value(t))); self.acc(',')
            return ('agg', els)
        raise Unsupported('value ' + str(v) + ' in ' + ' '.join(x[1] for x in self.t[:40]))
    def tv(self):
        T = self.type(); self.attrs(); return T, self.value(T)

def decode(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

class Func:
    pass
class Ins:
    def __init__(self, **k): self.__dict__.update(k)

LINKAGE = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external',
  'dso_local','dso_preemptable','hidden','protected','default','dllimport','dllexport','unnamed_addr','local_unnamed_addr','externally_initialized','noundef'}

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.aliases = {}
        self.attrgroups = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln or ln[0] in ';!' or ln.startswith('source_filename') or ln.startswith('target') or ln.startswith('module asm') or ln.startswith('$'):
                i += 1; continue
            if ln.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attrgroups[m.group(1)] = m.group(2)
                i += 1; continue
            if ln[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', ln)
                p = Par(lex(m.group(2)), self)
                self.types[unq(m.group(1))] = p.type() if m.group(2) != 'opaque' else ('opaque',)
                i += 1; continue
            if ln[0] == '@':
                self.parse_global(strip_meta(ln)); i += 1; continue
            if ln.startswith('declare'):
                self.parse_fn_header(ln, True); i += 1; continue
            if ln.startswith('define'):
                f = self.parse_fn_header(ln, False)
                body = []; i += 1
                while lines[i] != '}': body.append(lines[i]); i += 1
                self.parse_body(f, body); i += 1; continue
            i += 1

    def parse_global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)', ln)
        name = unq(m.group(1)); p = Par(lex(m.group(2)), self)
        ext = False; tls = False
        while True:
            k, v = p.peek()
            if v in LINKAGE:
                if v in ('external', 'extern_weak', 'available_externally') : ext = v != 'available_externally'
                p.next()
            elif v == 'thread_local':
                tls = True; p.next()
                if p.peek()[1] == '(': p.skip_paren()
            elif v == 'addrspace': p.next(); p.skip_paren()
            elif v == 'alias':
                p.next(); T = p.type(); p.exp(','); t2 = p.type(); self.aliases[name] = p.value(t2); return
            elif v == 'ifunc': raise Unsupported('ifunc')
            else: break
        k, v = p.next()
        if v not in ('global', 'constant'): raise Unsupported('global ' + ln[:100])
        if name.startswith('llvm.'):
            return
        T = p.type(); init = None
        if not ext:
            init = p.value(T)
        self.globals[name] = dict(type=T, init=init, tls=tls, const=(v == 'constant'))

    def parse_fn_header(self, ln, isdecl):
        ln = strip_meta(ln)
        p = Par(lex(ln), self); p.next()
        while True:
            k, v = p.peek()
            if k == 'word' and (v in LINKAGE or v in PARAM_ATTRS or v in ('fastcc','ccc','coldcc','noinline') or v.endswith('cc') ): p.next()
            elif k == 'word' and v in PARAM_ATTRS_ARG: p.attrs()
            elif k == 'str': p.next()
            else: break
        R = p.type(); k, v = p.next()
        if k != 'glob': raise Unsupported('fn header ' + ln[:120])
        name = unq(v); p.exp('('); params = []; va = False
        while not p.acc(')'):
            if p.peek()[0] == 'dots': p.next(); va = True
            else:
                T = p.type(); p.attrs(); rn = None
                if p.peek()[0] == 'loc': rn = unq(p.next()[1])
                params.append((T, rn))
            p.acc(',')
        rest = ln[ln.rfind(')'):] if isdecl else ln
        nounwind = False
        while p.peek()[0] is not None:
            k, v = p.next()
            if v == 'nounwind': nounwind = True
            if k == 'attr' and 'nounwind' in self_attr(self, v): nounwind = True
            if k == 'attr': pass
        f = Func(); f.name = name; f.ret = R; f.params = params; f.va = va; f.nounwind = nounwind; f.attrrefs = re.findall(r'#\d+', ln)
        cnt = 0
        f.params = []
        for T, rn in params:
            if rn is None: rn = str(cnt); cnt += 1
            elif rn.isdigit(): cnt = int(rn) + 1
            f.params.append((T, rn))
        f.firstlabel = str(cnt)
        if isdecl: self.decls[name] = f
        else: self.funcs[name] = f
        return f

    def parse_body(self, f, body):
        f.blocks = []  # (label, [Ins])
        cur = None
        j = 0
        # join continuation lines (switch tables, landingpad clauses, invoke)
        joined = []
        while j < len(body):
            ln = body[j]
            if ln.strip() == '' or ln.lstrip().startswith(';'): j += 1; continue
            if re.match(r'^\s.*\bswitch ', ln) and ln.rstrip().endswith('['):
                acc = ln
                while True:
                    j += 1; acc += ' ' + body[j].strip()
                    if body[j].strip().startswith(']'): break
                ln = acc
            elif ' = landingpad ' in ln:
                acc = ln
                while j + 1 < len(body) and re.match(r'^\s{6,}(catch|cleanup|filter)\b', body[j+1]):
                    j += 1; acc += ' ' + body[j].strip()
                ln = acc
            elif re.match(r'^\s+(%\S+ = )?invoke ', ln) and j + 1 < len(body) and body[j+1].strip().startswith('to label'):
                ln = ln + ' ' + body[j+1].strip(); j += 1
            joined.append(ln); j += 1
        for ln in joined:
            m = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
            if m:
                l = m.group(1)
                if l.startswith('"'): l = l[1:-1]
                cur = (l, []); f.blocks.append(cur); continue
            if cur is None:
                cur = (f.firstlabel, []); f.blocks.append(cur)
            cur[1].append(self.parse_ins(ln))

    def parse_ins(self, ln):
        src = ln.strip()
        ln = strip_meta(src)
        p = Par(lex(ln), self); res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = unq(p.next()[1]); p.next()
        k, op = p.next()
        I = Ins(op=op, res=res, src=src, T=('void',), ops=[])
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]; I.op = op
        if op == 'alloca':
            p.acc('inalloca'); I.aty = p.type(); I.count = None
            if p.acc(','):
                if p.peek()[1] != 'align':
                    t, v = p.tv(); I.count = (t, v)
            I.T = ('ptr',)
        elif op == 'load':
            I.atomic = p.acc('atomic'); p.acc('volatile'); I.T = p.type(); p.exp(','); I.ops = [p.tv()]; I.order = None
            if I.atomic:
                if p.peek()[1] == 'syncscope': p.next(); p.skip_paren()
                I.order = p.next()[1]
        elif op == 'store':
            I.atomic = p.acc('atomic'); p.acc('volatile'); a = p.tv(); p.exp(','); b = p.tv(); I.ops = [a, b]; I.order = None
            if I.atomic:
                if p.peek()[1] == 'syncscope': p.next(); p.skip_paren()
                I.order = p.next()[1]
        elif op == 'fence':
            I.single = False
            if p.peek()[1] == 'syncscope': p.next(); p.skip_paren(); I.single = True
            I.order = p.next()[1]
        elif op == 'cmpxchg':
            I.weak = p.acc('weak'); p.acc('volatile'); a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv(); I.ops = [a, b, c]
            if p.peek()[1] == 'syncscope': p.next(); p.skip_paren()
            I.order = p.next()[1]; I.forder = p.next()[1]; I.T = ('st', False, (b[0], ('i', 1)))
        elif op == 'atomicrmw':
            p.acc('volatile'); I.rmw = p.next()[1]; a = p.tv(); p.exp(','); b = p.tv(); I.ops = [a, b]
            if p.peek()[1] == 'syncscope': p.next(); p.skip_paren()
            I.order = p.next()[1]; I.T = b[0]
        elif op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
            I.bt = p.type(); p.exp(','); base = p.tv(); idx = []
            while p.acc(','): idx.append(p.tv())
            I.base = base; I.idx = idx; I.ops = [base] + idx; I.T = ('ptr',)
        elif op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            I.flags = []
            while p.peek()[1] in ('nuw','nsw','exact','disjoint','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): I.flags.append(p.next()[1])
            T, a = p.tv(); p.exp(','); b = p.value(T); I.T = T; I.ops = [(T, a), (T, b)]
        elif op == 'fneg':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            T, a = p.tv(); I.T = T; I.ops = [(T, a)]
        elif op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','samesign'): p.next()
            I.pred = p.next()[1]; T, a = p.tv(); p.exp(','); b = p.value(T); I.T = ('i', 1); I.ops = [(T, a), (T, b)]
        elif op in ('zext','sext','trunc','bitcast','inttoptr','ptrtoint','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','addrspacecast'):
            while p.peek()[1] in ('nneg','nuw','nsw'): p.next()
            a = p.tv(); p.exp('to'); I.T = p.type(); I.ops = [a]
        elif op == 'freeze':
            a = p.tv(); I.T = a[0]; I.ops = [a]
        elif op == 'select':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv(); I.ops = [a, b, c]; I.T = b[0]
        elif op == 'phi':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            I.T = p.type(); I.inc = []
            while True:
                p.exp('['); v = p.value(I.T); p.exp(','); l = unq(p.next()[1]); p.exp(']'); I.inc.append((v, l))
                if not p.acc(','): break
        elif op == 'br':
            if p.acc('label'): I.targets = [unq(p.next()[1])]; I.cond = None
            else:
                t, c = p.tv(); I.cond = (t, c); I.ops = [(t, c)]; p.exp(','); p.exp('label'); a = unq(p.next()[1]); p.exp(','); p.exp('label'); b = unq(p.next()[1]); I.targets = [a, b]
        elif op == 'switch':
            t, v = p.tv(); I.ops = [(t, v)]; p.exp(','); p.exp('label'); d = unq(p.next()[1]); p.exp('['); I.cases = []
            while not p.acc(']'):
                ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); I.cases.append((cv, unq(p.next()[1])))
            I.default = d; I.targets = [d] + [c[1] for c in I.cases]
        elif op == 'ret':
            if p.acc('void'): I.ops = []
            else: I.ops = [p.tv()]
            I.targets = []
        elif op == 'unreachable': I.targets = []
        elif op == 'resume': I.ops = [p.tv()]; I.targets = []
        elif op == 'extractvalue':
            a = p.tv(); I.idx = []
            while p.acc(','): I.idx.append(int(p.next()[1]))
            I.ops = [a]; I.T = self.elt(a[0], I.idx)
        elif op == 'insertvalue':
            a = p.tv(); p.exp(','); b = p.tv(); I.idx = []
            while p.acc(','): I.idx.append(int(p.next()[1]))
            I.ops = [a, b]; I.T = a[0]
        elif op == 'landingpad':
            I.T = p.type(); I.clauses = []; I.cleanup = False
            while p.peek()[0] is not None:
                w = p.next()[1]
                if w == 'cleanup': I.cleanup = True
                elif w == 'catch': t = p.type(); I.clauses.append(('catch', p.value(t)))
                elif w == 'filter': t = p.type(); I.clauses.append(('filter', p.value(t)))
                else: raise Unsupported('landingpad ' + src)
        elif op in ('call', 'invoke'):
            while True:
                k, v = p.peek()
                if k == 'word' and (v in PARAM_ATTRS or v in ('fastcc','ccc','coldcc','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc')): p.next()
                elif k == 'word' and v in PARAM_ATTRS_ARG: p.attrs()
                elif k == 'str': p.next()
                else: break
            R = p.type(); I.fnty = None
            if R[0] == 'fn': I.fnty = R; R = R[1]
            I.T = R
            if p.acc('asm'):
                while p.peek()[0] == 'word': p.next()
                I.asm = p.next()[1]; p.exp(','); I.constraint = p.next()[1]; I.callee = None
            else:
                I.asm = None
                I.callee = p.value(('ptr',))
            p.exp('('); args = []
            while not p.acc(')'):
                if p.peek()[1] == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        if v == '(' : d += 1
                        if v == ')' : d -= 1
                    args.append((('metadata',), ('null',)))
                else: args.append(p.tv())
                p.acc(',')
            I.args = args; I.ops = list(args)
            if I.callee and I.callee[0] not in ('glob',): I.ops.append((('ptr',), I.callee))
            I.attrs = []
            while p.peek()[0] == 'attr' or p.peek()[0] == 'word' and p.peek()[1] not in ('to',) or p.peek()[1] == '[':
                k, v = p.next()
                if v == '[':
                    while not p.acc(']'): p.next()
                else: I.attrs.append(v)
            I.nounwind = any(a == 'nounwind' or a.startswith('#') and 'nounwind' in self.attrgroups.get(a, '') for a in I.attrs)
            if op == 'invoke':
                p.exp('to'); p.exp('label'); a = unq(p.next()[1]); p.exp('unwind'); p.exp('label'); b = unq(p.next()[1]); I.targets = [a, b]
            # attribute groups come after the bodies in the file: resolved lazily
        elif op == 'va_arg' or op == 'extractelement' or op == 'insertelement' or op == 'shufflevector':
            raise Unsupported(op)
        else:
            raise Unsupported('instruction ' + src)
        return I

    def call_nounwind(self, I):
        if any(a == 'nounwind' or a.startswith('#') and re.search(r'\bnounwind\b', self.attrgroups.get(a, '')) for a in I.attrs): return True
        if I.callee and I.callee[0] == 'glob':
            f = self.funcs.get(I.callee[1]) or self.decls.get(I.callee[1])
            if f: return any(re.search(r'\bnounwind\b', self.attrgroups.get(a, '')) for a in f.attrrefs) or f.nounwind
        return False

    # ------------------------------------------------------------ types
    def res(self, T):
        while T[0] == 'named':
            T = self.types[T[1]]
        return T
    def elt(self, T, idx):
        for i in idx:
            T = self.res(T)
            T = T[2][i] if T[0] == 'st' else T[2]
        return T
    def align(self, T):
        T = self.res(T); k = T[0]
        if k == 'i': return {1:1, 8:1, 16:2, 32:4, 64:8, 128:16}.get(T[1]) or min(16, max(1, 1 << ((T[1]+7)//8 - 1).bit_length()))
        if k == 'ptr': return 8
        if k == 'f': return {32:4, 64:8, 80:16}[T[1]]
        if k == 'arr': return self.align(T[2])
        if k == 'st': return 1 if T[1] else max([self.align(x) for x in T[2]] or [1])
        if k == 'vec': return self.size(T)
        raise Unsupported('align ' + str(T))
    def size(self, T):
        T = self.res(T); k = T[0]
        if k == 'i':
            b = (T[1]+7)//8; a = self.align(T); return (b + a - 1)//a*a
        if k == 'ptr': return 8
        if k == 'f': return {32:4, 64:8, 80:16}[T[1]]
        if k == 'arr': return T[1]*self.size(T[2])
        if k == 'st':
            o = 0
            for x in T[2]:
                if not T[1]: a = self.align(x); o = (o + a - 1)//a*a
                o += self.size(x)
            a = self.align(T); return (o + a - 1)//a*a
        if k == 'vec': return T[1]*self.size(T[2])
        raise Unsupported('size ' + str(T))
    def off(self, T, i):
        T = self.res(T); o = 0
        for j, x in enumerate(T[2]):
            if not T[1]: a = self.align(x); o = (o + a - 1)//a*a
            if j == i: return o
            o += self.size(x)
        raise Unsupported('off')

def self_attr(mod, a): return mod.attrgroups.get(a, '')

def strip_meta(ln):
    # drop trailing metadata attachments and "align" after the last comma is kept (ignored by the parser)
    out = re.sub(r', ![\w.]+ ![\w.]+(?=,|$|\s)', '', ln)
    out = re.sub(r'(, )?![\w.]+ !(?:\d+|DI\w+\([^)]*\))', '', out)
    out = re.sub(r'\s+;.*$', '', out) if ';' in out and '"' not in out else out
    return out

# ---------------------------------------------------------------- C generation

ORD = {'unordered': 0, 'monotonic': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5, None: 0}

# model functions at which a thread yields before executing (visible operations)
VISIBLE = {'pthread_mutex_lock','pthread_mutex_trylock','pthread_mutex_timedlock','pthread_mutex_unlock','pthread_mutex_clocklock',
 'pthread_cond_signal','pthread_cond_broadcast','sem_wait','sem_trywait','sem_timedwait','sem_clockwait','sem_post',
 'vp_yield','vp_pause','sched_yield','pthread_once','vp_wait_flag'}
TWOPHASE = {'pthread_cond_wait','pthread_cond_timedwait','pthread_cond_clockwait','syscall'}
DROP = re.compile(r'^llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|donothing|stackrestore|stacksave|prefetch|annotation|var\.annotation)')

def cid(name):
    return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group(0)), name)

class Gen:
    def __init__(self, mod, threads=(), seq=(), race=False, globprefix=''):
        self.m = mod; self.threads = list(threads); self.seq = list(seq); self.race = race
        self.structs = {}; self.structdefs = []; self.arrs = {}
        self.gneed = []; self.gseen = set(); self.fneed = []; self.fseen = set(); self.unknown = set()
        self.loc = {}; self.tis = {}; self.pcdefs = []; self.maxpc = 0; self.order = None
        self.encoded = []
        self.visible_ops = 0

    # types
    def ct(self, T):
        m = self.m; k = T[0]
        if k == 'named': 
            return self.ct_struct(m.res(T))
        if k == 'i':
            n = T[1]
            if n == 1: return 'u8'
            if n in (8, 16, 32, 64): return 'u%d' % n
            if n == 128: return 'u128'
            return 'UBV(%d)' % n
        if k == 'ptr': return 'ptr'
        if k == 'void': return 'void'
        if k == 'f': return {32: 'float', 64: 'double', 80: 'long double'}[T[1]]
        if k in ('st', 'arr'): return self.ct_struct(T)
        raise Unsupported('ctype ' + str(T))
    def ct_struct(self, T):
        if T in self.structs: return self.structs[T]
        if T[0] == 'arr':
            e = self.ct(T[2]); nm = 'A%d' % len(self.structs)
            self.structs[T] = nm
            self.structdefs.append('typedef struct { %s a[%d]; } %s;' % (e, max(T[1], 1), nm))
            return nm
        if T[0] != 'st': return self.ct(T)
        fs = [self.ct(x) for x in T[2]]
        nm = 'S%d' % len(self.structs); self.structs[T] = nm
        body = ' '.join('%s f%d;' % (f, i) for i, f in enumerate(fs)) or 'char dummy;'
        self.structdefs.append('typedef struct { %s } %s%s;' % (body, '__attribute__((packed)) ' if T[1] else '', nm))
        return nm
    def sct(self, T):
        n = T[1]
        if n == 1: return 's8'
        if n in (8, 16, 32, 64): return 's%d' % n
        if n == 128: return 's128'
        return 'SBV(%d)' % n
    def fieldpath(self, T, idx):
        s = ''
        for i in idx:
            T = self.m.res(T)
            if T[0] == 'st': s += '.f%d' % i; T = T[2][i]
            else: s += '.a[%d]' % i; T = T[2]
        return s

    # constants / values
    def needg(self, name):
        if name in self.m.funcs:
            if name not in self.fseen: self.fseen.add(name); self.fneed.append(name)
            return '((ptr)&%s)' % self.fname(name)
        if name in self.m.aliases:
            return self.val(('ptr',), self.m.aliases[name])
        if name in self.m.globals:
            if name not in self.gseen: self.gseen.add(name); self.gneed.append(name)
            if self.m.globals[name]['tls']: return '((ptr)&TLS_%s[vp_t])' % cid(name)
            return '((ptr)&%s)' % self.gname(name)
        if name in self.m.decls:
            self.unknown.add('&' + name)
            return '((ptr)&X_%s)' % cid(name)
        raise Unsupported('unknown global ' + name)
    def gname(self, n): return 'G_' + cid(n)
    def fname(self, n): return 'F_' + cid(n)
    def intlit(self, T, v):
        n = T[1]; v &= (1 << n) - 1
        if n <= 32: return '((%s)%dU)' % (self.ct(T), v)
        if n <= 64: return '((%s)%dULL)' % (self.ct(T), v)
        if n == 128: return '((u128)%dULL<<64|(u128)%dULL)' % (v >> 64, v & (2**64-1))
        return '((%s)%dULL)' % (self.ct(T), v)
    def gepconst(self, bt, idx):
        """(constant offset, [(cexpr, scale)])"""
        off = 0; var = []; T = None
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = self.m.size(bt); T = bt
                if iv[0] in ('int', 'zero', 'null'): off += sext(iv[1] if iv[0] == 'int' else 0, it[1])*sz
                else: var.append((it, iv, sz))
            else:
                R = self.m.res(T)
                if R[0] == 'st':
                    off += self.m.off(R, iv[1] if iv[0] == 'int' else 0); T = R[2][iv[1] if iv[0] == 'int' else 0]
                else:
                    T = R[2]; sz = self.m.size(T)
                    if iv[0] in ('int', 'zero'): off += sext(iv[1] if iv[0] == 'int' else 0, it[1])*sz
                    else: var.append((it, iv, sz))
        return off, var
    def val(self, T, v):
        k = v[0]
        if k == 'reg': return self.reg(v[1])
        if k == 'int': 
            if T[0] == 'ptr': return '((ptr)%dULL)' % v[1]
            return self.intlit(T, v[1])
        if k == 'null': return '((ptr)0)'
        if k == 'undef':
            if T[0] == 'i': return 'ND_%s()' % (self.ct(T) if T[1] in (1, 8, 16, 32, 64) else 'u64')
            if T[0] == 'ptr': return '((ptr)0)'
            if T[0] == 'f': return '((%s)0)' % self.ct(T)
            return '((%s){0})' % self.ct(T)
        if k == 'zero':
            if T[0] == 'i': return self.intlit(T, 0)
            if T[0] == 'ptr': return '((ptr)0)'
            if T[0] == 'f': return '((%s)0)' % self.ct(T)
            return '((%s){0})' % self.ct(T)
        if k == 'glob': return self.needg(v[1])
        if k == 'fp':
            return fplit(v[1], T)
        if k == 'gep':
            off, var = self.gepconst(v[1], v[3])
            if var: raise Unsupported('const gep var')
            return '(%s + %d)' % (self.val(('ptr',), v[2]), off) if off else self.val(('ptr',), v[2])
        if k == 'cast':
            _, op, st, sv, dt = v
            return self.cast(op, st, self.val(st, sv), dt)
        if k == 'bin':
            _, op, t, a, b = v
            o = {'add':'+','sub':'-','mul':'*','xor':'^','and':'&','or':'|','shl':'<<'}[op]
            return '((%s)(%s %s %s))' % (self.ct(t), self.val(t, a), o, self.val(t, b))
        if k == 'agg':
            return '((%s)%s)' % (self.ct(T), self.init(T, v))
        if k == 'str':
            return '((%s)%s)' % (self.ct(T), self.init(T, v))
        raise Unsupported('val ' + str(v))
    def init(self, T, v):
        R = self.m.res(T)
        if v[0] == 'agg':
            els = [self.init(t, x) for t, x in v[1]]
            if R[0] == 'arr': return '{{' + ','.join(els) + '}}'
            return '{' + ','.join(els) + '}'
        if v[0] == 'str': return '{{' + ','.join(str(b) for b in v[1]) + '}}'
        if v[0] in ('zero', 'undef'):
            if R[0] in ('st', 'arr'): return '{0}'
            return '0'
        return self.val(T, v)
    def cast(self, op, st, e, dt):
        if op == 'trunc':
            if dt[1] == 1: return '((u8)(%s & 1))' % e
            return '((%s)(%s))' % (self.ct(dt), e)
        if op == 'zext': return '((%s)(%s))' % (self.ct(dt), e)
        if op == 'sext':
            if st[1] == 1: return '((%s)(0 - (%s)(%s)))' % (self.ct(dt), self.ct(dt), e)
            return '((%s)(%s)(%s)(%s))' % (self.ct(dt), self.sct(dt), self.sct(st), e)
        if op == 'ptrtoint': return '((%s)(u64)(%s))' % (self.ct(dt), e)
        if op == 'inttoptr': return '((ptr)(u64)(%s))' % e
        if op in ('bitcast', 'addrspacecast'):
            if st == dt: return e
            raise Unsupported('bitcast')
        if op == 'fptoui': return '((%s)(%s))' % (self.ct(dt), e)
        if op == 'fptosi': return '((%s)(%s)(%s))' % (self.ct(dt), self.sct(dt), e)
        if op == 'uitofp': return '((%s)(%s))' % (self.ct(dt), e)
        if op == 'sitofp': return '((%s)(%s)(%s))' % (self.ct(dt), self.sct(st), e)
        if op in ('fptrunc', 'fpext'): return '((%s)(%s))' % (self.ct(dt), e)
        raise Unsupported('cast ' + op)
    def reg(self, r):
        return self.rp + cid(r)

    # pointer resolution for atomic locations: (global, offset) or None
    def resolve(self, f, v, depth=0):
        if v[0] == 'glob': return (v[1], 0)
        if v[0] == 'gep':
            off, var = self.gepconst(v[1], v[3])
            b = self.resolve(f, v[2], depth+1)
            return (b[0], b[1]+off) if b and not var else None
        if v[0] == 'reg' and depth < 50:
            I = f.defs.get(v[1])
            if I is not None and I.op == 'getelementptr':
                off, var = self.gepconst(I.bt, I.idx)
                b = self.resolve(f, I.base[1], depth+1)
                return (b[0], b[1]+off) if b and not var else None
            if I is not None and I.op in ('bitcast',): return self.resolve(f, I.ops[0][1], depth+1)
        return None
    def is_local(self, f, v, depth=0):
        """pointer into an alloca of this function"""
        if v[0] == 'reg' and depth < 50:
            I = f.defs.get(v[1])
            if I is None: return False
            if I.op == 'alloca': return True
            if I.op == 'getelementptr': return self.is_local(f, I.base[1], depth+1)
            if I.op == 'phi': return False
        return False
    def locid(self, f, v):
        r = self.resolve(f, v)
        if r is None: return 0
        if r not in self.loc: self.loc[r] = len(self.loc) + 1
        return self.loc[r]

    # type infos
    def ti(self, v):
        if v[0] == 'null': return 1
        n = v[1]
        if n not in self.tis: self.tis[n] = len(self.tis) + 2
        return self.tis[n]
    def ti_bases(self, n):
        g = self.m.globals.get(n)
        if not g or not g['init'] or g['init'][0] != 'agg': return []
        out = []
        for t, v in g['init'][1][2:]:
            if v[0] == 'glob' and v[1].startswith('_ZTI'): out.append(v[1])
        return out

    # ---------------------------------------------------------- function bodies
    def analyse(self, f):
        f.defs = {}
        f.bmap = {}
        for l, ins in f.blocks:
            f.bmap[l] = ins
            for I in ins:
                if I.res is not None: f.defs[I.res] = I

    def is_visible(self, I):
        if I.op in ('cmpxchg', 'atomicrmw'): return True
        if I.op in ('load', 'store') and I.atomic: return True
        if I.op in ('call', 'invoke'):
            if I.asm is not None: return 'pause' in I.asm or 'nop' in I.asm
            if I.callee[0] == 'glob':
                return I.callee[1] in VISIBLE or I.callee[1] in TWOPHASE
        return False

    def gen_function(self, name, step=None):
        """step: thread index for a step machine, None for a sequential function"""
        f = self.m.funcs[name]; self.analyse(f); self.cur = f; self.step = step
        self.encoded.append(name)
        self.rp = 'r%d_' % step if step is not None else 'r_'
        out = []; statics = set(); self.out = out
        preds = {}
        for l, ins in f.blocks:
            for t in ins[-1].__dict__.get('targets', []): preds.setdefault(t, []).append(l)
        # liveness across yields
        live_static = set()
        if step is not None:
            live_static = self.liveness(f)
        self.pc = 0; self.pcs = []; self.headers = {}
        body = []
        self.out = body
        if step is None:
            self.order = None
            for bi, (l, ins) in enumerate(f.blocks):
                body.append('L_%s: ;' % cid(l))
                for I in ins:
                    self.emit(f, l, I)
        else:
            segs, order, heads = self.segments(f)
            self.order = order; self.backcase = []
            for key in sorted(order, key=lambda k: order[k]):
                l, part = key
                self.curseg = key
                if key in heads:
                    k = self.newpc(); self.headers[l] = k
                    self.pcs.pop(); self.backcase.append(' case %d: if (vp_cs <= %d) return; goto L_%s;' % (k, k, cid(l)))
                if part == 0: body.append('L_%s: ;' % cid(l))
                else: body.append('P%d_%s_%d: ;' % (step, cid(l), part))
                items, kind = segs[key]
                for I in items: self.emit(f, l, I)
                if items and items[-1].op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke') and not kind: continue
                self.seg_end(f, l, part, kind)
        decl = []; sdecl = []
        for l, ins in f.blocks:
            for I in ins:
                if I.op == 'alloca':
                    cnt = 1
                    if I.count is not None:
                        if I.count[1][0] != 'int': raise Unsupported('vla')
                        cnt = I.count[1][1]
                    d = '%s a_%s%s%s;' % (self.ct(I.aty), self.rp, cid(I.res), '[%d]' % cnt if cnt != 1 else '')
                    (sdecl if step is not None else decl).append(d)
                elif I.res is not None and I.T[0] != 'void':
                    d = '%s %s;' % (self.ct(I.T), self.reg(I.res))
                    if step is not None and I.res in live_static: sdecl.append(d)
                    else: decl.append(d)
        if step is not None:
            res = ['/* thread %d: %s */' % (step, name)] + ['static ' + d for d in sdecl]
            res.append('static u32 pc_%d;' % step)
            res.append('static void vp_step_%d(void) {' % step)
            res += ['  ' + d for d in decl]
            self.maxpc = max(getattr(self, 'maxpc', 0), self.pc)
            res.append('  switch (pc_%d) { case 0: goto L_%s;%s%s default: return; }' % (step, cid(f.blocks[0][0]), ''.join(' case %d: goto Y%d_%d;' % (k, step, k) for k in self.pcs), ''.join(self.backcase)))
            res += ['  ' + b for b in body]
            res.append('}')
            return res
        sig = self.sig(f)
        res = ['%s {' % sig] + ['  ' + d for d in decl] + ['  ' + b for b in body] + ['}']
        return res

    def sig(self, f):
        ps = ', '.join('%s r_%s' % (self.ct(T), cid(rn)) for T, rn in f.params) or 'void'
        return 'static %s %s(%s)' % (self.ct(f.ret), self.fname(f.name), ps)

    def uses(self, I):
        out = set()
        def w(v):
            if v[0] == 'reg': out.add(v[1])
            elif v[0] == 'gep':
                w(v[2])
            elif v[0] == 'agg':
                for t, x in v[1]: w(x)
        for t, v in I.ops: w(v)
        return out

    def liveness(self, f):
        # chunk-level backward liveness; collect registers live right at yields (args of the visible op included)
        livein = {l: set() for l, _ in f.blocks}
        changed = True
        static = set()
        def blockpass(l, ins, collect):
            # live out: successors' livein minus phis + phi uses
            live = set()
            term = ins[-1]
            for t in term.__dict__.get('targets', []):
                s = set(livein[t])
                for J in f.bmap[t]:
                    if J.op != 'phi': break
                    s.discard(J.res)
                    for v, pl in J.inc:
                        if pl == l and v[0] == 'reg': s.add(v[1])
                live |= s
            for I in reversed(ins):
                if I.op == 'phi':
                    continue
                after = set(live)
                if I.res is not None: live.discard(I.res)
                live |= self.uses(I)
                if collect and self.is_visible(I):
                    static.update(live)
                    if self.cutkind(I):
                        static.update(after)
            for I in ins:
                if I.op != 'phi': break
            # phi results are defined at the block start: their use keeps them live-in for edges handled above
            return live
        while changed:
            changed = False
            for l, ins in reversed(f.blocks):
                n = blockpass(l, ins, False)
                if n != livein[l]: livein[l] = n; changed = True
        for l, ins in f.blocks: blockpass(l, ins, True)
        for l, p in self.segments(f)[2]:
            static |= livein[l]
        return static

    def goto(self, f, frm, to):
        if self.order is not None and self.order[(to, 0)] <= self.order[self.curseg]:
            g = self.goto_(f, frm, to)
            return g.replace('goto L_%s;' % cid(to), '{ vp_pre_none(); pc_%d = %d; return; }' % (self.step, self.headers[to]))
        return self.goto_(f, frm, to)

    def cutkind(self, I):
        """operations at which a thread always stops: pauses, and waits after they have begun"""
        if I.op in ('call', 'invoke'):
            if I.asm is not None: return 'pause' if ('pause' in I.asm or 'nop' in I.asm) else None
            if I.callee[0] == 'glob':
                n = I.callee[1]
                if n in ('sched_yield', 'vp_pause'): return 'pause'
                if n in TWOPHASE: return 'two'
        return None

    def segments(self, f):
        segs = {}; succ = {}; roots = [(f.blocks[0][0], 0)]
        for l, ins in f.blocks:
            part = 0; cur = []
            for I in ins:
                k = self.cutkind(I)
                if k == 'pause':
                    segs[(l, part)] = (cur, ('pause', I)); succ[(l, part)] = []
                    part += 1; roots.append((l, part)); cur = [('presumed', I)]; cur = []
                    segs_first = I
                    # the resumed part starts with the pause itself
                    cur.append(Ins(op='vp.pause', res=I.res, src=I.src, T=I.T, ops=[], call=I))
                    if I.op == 'invoke': cur.append(Ins(op='br', res=None, cond=None, targets=[I.targets[0]], ops=[], T=('void',), src=I.src))
                elif k == 'two':
                    segs[(l, part)] = (cur, ('two', I)); succ[(l, part)] = [(l, part+2)]
                    roots.append((l, part+1))
                    segs[(l, part+1)] = ([Ins(op='vp.end', res=I.res, src=I.src, T=I.T, ops=I.ops, call=I)], ('fall', None)); succ[(l, part+1)] = [(l, part+2)]
                    part += 2; cur = []
                    if I.op == 'invoke': cur.append(Ins(op='br', res=None, cond=None, targets=[I.targets[0]], ops=[], T=('void',), src=I.src))
                else: cur.append(I)
            segs[(l, part)] = (cur, None)
            succ[(l, part)] = [(t, 0) for t in cur[-1].__dict__.get('targets', [])]
        # depth-first order from all roots; remaining back edges are cut at loop headers
        state = {}; post = []; heads = set()
        for r in roots:
            if r in state: continue
            st = [(r, iter(succ[r]))]; state[r] = 1
            while st:
                n, it = st[-1]
                for m in it:
                    if state.get(m) == 1: heads.add(m)
                    elif m not in state:
                        state[m] = 1; st.append((m, iter(succ[m]))); break
                else:
                    state[n] = 2; post.append(n); st.pop()
        order = {n: i for i, n in enumerate(reversed(post))}
        for n in order:
            for m in succ[n]:
                if order[m] <= order[n]: heads.add(m)
        return segs, order, heads

    def seg_end(self, f, l, part, kind):
        o = self.out; t = self.step
        k, I = kind
        if k == 'fall':
            o.append('goto P%d_%s_%d;' % (t, cid(l), part + 1)); return
        if k == 'pause':
            o.append('vp_pre_pause(); pc_%d = PC_%d_%s_%d; return;' % (t, t, cid(l), part + 1)); return
        if k == 'two':
            n, args, asg = self.twoargs(I)
            self.yield_()
            o.append('%sM_%s_begin(%s); if (vp_blocking) { vp_blocking = 0; pc_%d = PC_%d_%s_%d; return; } goto P%d_%s_%d;' % (asg, n, ', '.join(args), t, t, cid(l), part + 1, t, cid(l), part + 2))
            return

    def twoargs(self, I):
        n = I.callee[1]; args = [self.val(*a) for a in I.args]
        asg = '' if I.res is None or I.T[0] == 'void' else self.reg(I.res) + ' = '
        if n == 'syscall':
            if I.args[0][1] != ('int', 202): raise Unsupported('syscall number ' + str(I.args[0]))
            a = list(I.args[1:])
            while len(a) < 6: a.append((('i', 64), ('int', 0)))
            args = []
            for i, (ty, v) in enumerate(a[:6]):
                e = self.val(ty, v)
                if i in (0, 3, 4): args.append(e if ty[0] == 'ptr' else '(ptr)(u64)' + e)
                else: args.append('(u32)(u64)' + e)
            n = 'futex'
            if self.m.res(I.T) == ('i', 64) and asg: asg += '(u64)(s64)(s32)'
        self.unknown.add(n)
        return n, args, asg

    def resume_label(self, l, part):
        k = self.newpc(); t = self.step; self.visible_ops += 1
        self.out.append('Y%d_%d: if (vp_cs <= %d) return; VP_OP(%d);' % (t, k, k, t))
        self.pcdefs.append('#define PC_%d_%s_%d %d' % (t, cid(l), part, k))

    def goto_(self, f, frm, to):
        """edge code with phi assignments"""
        phis = []
        for J in f.bmap[to]:
            if J.op != 'phi': break
            for v, pl in J.inc:
                if pl == frm:
                    phis.append((J, v)); break
        if not phis: return 'goto L_%s;' % cid(to)
        phis = [(J, v) for J, v in phis if not (v[0] == 'reg' and v[1] == J.res)]
        if len(phis) == 1:
            J, v = phis[0]
            return '{ %s = %s; goto L_%s; }' % (self.reg(J.res), self.val(J.T, v), cid(to))
        # parallel copy: temporaries only where needed
        srcs = {v[1] for J, v in phis if v[0] == 'reg'}
        dsts = {J.res for J, v in phis}
        s = '{ '
        if srcs & dsts:
            for n, (J, v) in enumerate(phis): s += '%s t%d = %s; ' % (self.ct(J.T), n, self.val(J.T, v))
            for n, (J, v) in enumerate(phis): s += '%s = t%d; ' % (self.reg(J.res), n)
        else:
            for J, v in phis: s += '%s = %s; ' % (self.reg(J.res), self.val(J.T, v))
        return s + 'goto L_%s; }' % cid(to)

    def newpc(self):
        self.pc += 1; self.pcs.append(self.pc); return self.pc

    def yield_(self, pre=''):
        if self.step is None: return
        k = self.newpc(); t = self.step; self.visible_ops += 1
        self.out.append('%s pc_%d = %d; Y%d_%d: if (vp_cs <= %d) return; VP_OP(%d);' % (pre or 'vp_pre_none();', t, k, t, k, k, t))

    def retzero(self, f):
        if self.step is not None: return 'VP_UNCAUGHT(); VP_DONE(%d); return;' % self.step
        if f.ret[0] == 'void': return 'return;'
        return 'return %s;' % self.val(f.ret, ('zero',))

    def racecheck(self, f, ptrv, T, write):
        if not self.race: return
        v = ptrv
        if self.is_local(f, v): return
        r = self.resolve(f, v)
        if r is not None and r[0] in self.m.globals and self.m.globals[r[0]]['const']: return
        if r is not None and not r[0].startswith('vpd_') and self.race == 'marked': return
        lib = 1 if r is not None and r[0] in self.m.globals and '5boost4sync' in r[0] else 0
        if r is not None and r[0] in self.m.globals and not lib: return       # the harness's own bookkeeping
        self.out.append('VP_RACE_%s(%s, %d, %d);' % ('WR' if write else 'RD', self.val(('ptr',), v), self.m.size(T), lib))

    def emit(self, f, l, I):
        o = self.out; op = I.op
        if op == 'phi': return
        R = self.reg(I.res) if I.res is not None else None
        V = lambda tv: self.val(tv[0], tv[1])
        if op == 'alloca':
            o.append('')
            # address taken on the fly
            self.allocas = getattr(self, 'allocas', set())
            o[-1] = ';'
            return
        if op == 'load':
            T, pv = I.ops[0]
            if I.atomic:
                self.yield_()
                o.append('%s = *(%s*)(%s); vp_hb_load(%d, %d); vp_rd(%d);' % (R, self.ct(I.T), V(I.ops[0]), self.locid(f, pv), ORD[I.order], self.locid(f, pv)))
            else:
                self.racecheck(f, pv, I.T, False)
                o.append('%s = *(%s*)(%s);' % (R, self.ct(I.T), V(I.ops[0])))
            return
        if op == 'store':
            (vt, v), (pt, pv) = I.ops
            if I.atomic:
                self.yield_()
                o.append('{ %s *p_ = (%s*)(%s); %s v_ = %s; u8 c_ = *p_ != v_; *p_ = v_; vp_hb_store(%d, %d); vp_wr(%d, c_); }' % (self.ct(vt), self.ct(vt), V(I.ops[1]), self.ct(vt), V(I.ops[0]), self.locid(f, pv), ORD[I.order], self.locid(f, pv)))
            else:
                self.racecheck(f, pv, vt, True)
                o.append('*(%s*)(%s) = %s;' % (self.ct(vt), V(I.ops[1]), V(I.ops[0])))
            return
        if op == 'fence':
            if not I.single: o.append('vp_hb_fence(%d);' % ORD[I.order])
            return
        if op == 'cmpxchg':
            self.yield_()
            T = I.ops[1][0]; ct = self.ct(T); L = self.locid(f, I.ops[0][1])
            o.append('{ %s *p_ = (%s*)(%s); %s e_ = %s; %s o_ = *p_; u8 ok_ = (o_ == e_)%s; if (ok_) { %s n_ = %s; *p_ = n_; vp_hb_rmw(%d, %d); vp_wr(%d, o_ != n_); } else { vp_hb_load(%d, %d); vp_rd(%d); } %s.f0 = o_; %s.f1 = ok_; }' % (
                ct, ct, V(I.ops[0]), ct, V(I.ops[1]), ct, ' && !(o_ == e_ && vp_weak_fail())' if I.weak else '', ct, V(I.ops[2]), L, ORD[I.order], L, L, ORD[I.forder], L, R, R))
            return
        if op == 'atomicrmw':
            self.yield_()
            T = I.ops[1][0]; ct = self.ct(T); L = self.locid(f, I.ops[0][1])
            new = {'add': 'o_ + v_', 'sub': 'o_ - v_', 'and': 'o_ & v_', 'or': 'o_ | v_', 'xor': 'o_ ^ v_', 'xchg': 'v_', 'nand': '~(o_ & v_)',
                   'umax': 'o_ > v_ ? o_ : v_', 'umin': 'o_ < v_ ? o_ : v_'}.get(I.rmw)
            if new is None:
                if T[0] == 'i' and I.rmw in ('max', 'min'):
                    new = '((%s)o_ %s (%s)v_) ? o_ : v_' % (self.sct(T), '>' if I.rmw == 'max' else '<', self.sct(T))
                else: raise Unsupported('rmw ' + I.rmw)
            o.append('{ %s *p_ = (%s*)(%s); %s v_ = %s; %s o_ = *p_; *p_ = (%s)(%s); vp_hb_rmw(%d, %d); vp_wr(%d, o_ != *p_); %s = o_; }' % (
                ct, ct, V(I.ops[0]), ct, V(I.ops[1]), ct, ct, new, L, ORD[I.order], L, R))
            return
        if op == 'getelementptr':
            off, var = self.gepconst(I.bt, I.idx)
            e = V(I.base)
            if off: e = '%s + %d' % (e, off) if off > 0 else '%s - %d' % (e, -off)
            for it, iv, sz in var:
                x = self.val(it, iv)
                x = '(s64)(%s)%s' % (self.sct(it), x)
                e = '%s + %s*%d' % (e, x, sz) if sz != 1 else '%s + %s' % (e, x)
            o.append('%s = %s;' % (R, e)); return
        # multiplications and divisions by large constants (time units): the model may decide them by case analysis (same value for every operand)
        mc = re.match(r"^(?:\('int', )?(-?\d+)\)?$", str(I.ops[1][1])) if op in ('udiv', 'urem', 'sdiv', 'srem', 'mul') and I.T in (('i', 64), ('i', 32)) else None
        if mc:
            c = int(mc.group(1)); n = I.T[1]
            if op[0] == 'u': c &= (1 << n) - 1
            elif c >= 1 << (n - 1): c -= 1 << n
            if op == 'mul' and n == 64 and 1000 <= c < 1 << 62:
                if 'nsw' in I.flags: o.append('VP_OVF_mul(%s, %s, %s);' % (self.sct(I.T), V(I.ops[0]), V(I.ops[1])))
                o.append('%s = VP_MULC(%s, %dULL);' % (R, V(I.ops[0]), c)); return
            if op != 'mul' and 1000 <= abs(c) < 1 << 62:
                x = '(u64)%s' % V(I.ops[0]) if op[0] == 'u' else '(u64)(s64)(%s)%s' % (self.sct(I.T), V(I.ops[0]))
                e = 'VP_%sC(%s, %dULL)' % (op.upper(), x, abs(c))
                if c < 0 and op == 'sdiv': e = '(0 - %s)' % e
                o.append('%s = (%s)%s;' % (R, self.ct(I.T), e)); return
        if op == 'sub' and I.T == ('i', 64) and self.step is None:      # difference of two pointers
            d = [f.defs.get(x[1][1]) if x[1][0] == 'reg' else None for x in I.ops]
            if all(x is not None and x.op == 'ptrtoint' for x in d):
                o.append('%s = VP_PDIFF(%s, %s);' % (R, V(d[0].ops[0]), V(d[1].ops[0]))); return
        if op in ('add','sub','mul','udiv','urem','and','or','xor'):
            s = {'add':'+','sub':'-','mul':'*','udiv':'/','urem':'%','and':'&','or':'|','xor':'^'}[op]
            e = '(%s)(%s %s %s)' % (self.ct(I.T), V(I.ops[0]), s, V(I.ops[1]))
            if I.T == ('i', 1): e = '(%s) & 1' % e
            if op in ('udiv', 'urem'): o.append('VP_DIV0(%s);' % V(I.ops[1]))
            if 'nsw' in I.flags and op in ('add', 'sub', 'mul') and I.T[1] in (32, 64): o.append('VP_OVF_%s(%s, %s, %s);' % (op, self.sct(I.T), V(I.ops[0]), V(I.ops[1])))
            o.append('%s = %s;' % (R, e)); return
        if op in ('sdiv', 'srem'):
            s = '/' if op == 'sdiv' else '%'; st = self.sct(I.T)
            o.append('VP_DIV0(%s);' % V(I.ops[1]))
            o.append('%s = (%s)((%s)%s %s (%s)%s);' % (R, self.ct(I.T), st, V(I.ops[0]), s, st, V(I.ops[1]))); return
        if op in ('shl', 'lshr', 'ashr'):
            n = I.T[1]
            a, b = V(I.ops[0]), V(I.ops[1])
            if op == 'shl': o.append('%s = (%s)((%s)%s << %s);' % (R, self.ct(I.T), self.ct(I.T) if n >= 32 else 'u32', a, b))
            elif op == 'lshr': o.append('%s = (%s)(%s >> %s);' % (R, self.ct(I.T), a, b))
            else: o.append('%s = (%s)((%s)%s >> %s);' % (R, self.ct(I.T), self.sct(I.T), a, b))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            s = {'fadd':'+','fsub':'-','fmul':'*','fdiv':'/'}[op]
            o.append('%s = %s %s %s;' % (R, V(I.ops[0]), s, V(I.ops[1]))); return
        if op == 'fneg': o.append('%s = -%s;' % (R, V(I.ops[0]))); return
        if op == 'icmp':
            T = I.ops[0][0]; a, b = V(I.ops[0]), V(I.ops[1])
            if I.pred[0] == 's':
                st = self.sct(T) if T[0] == 'i' else 's64'; a = '(%s)%s' % (st, a); b = '(%s)%s' % (st, b)
            s = {'eq':'==','ne':'!=','ugt':'>','uge':'>=','ult':'<','ule':'<=','sgt':'>','sge':'>=','slt':'<','sle':'<='}[I.pred]
            o.append('%s = (u8)(%s %s %s);' % (R, a, s, b)); return
        if op == 'fcmp':
            a, b = V(I.ops[0]), V(I.ops[1])
            base = {'eq':'==','gt':'>','ge':'>=','lt':'<','le':'<=','ne':'!='}
            if I.pred in ('ord', 'uno'):
                e = '(%s == %s && %s == %s)' % (a, a, b, b)
                if I.pred == 'uno': e = '!' + e
            elif I.pred == 'one': e = '(%s < %s || %s > %s)' % (a, b, a, b)
            elif I.pred == 'ueq': e = '!(%s < %s || %s > %s)' % (a, b, a, b)
            elif I.pred[0] == 'o': e = '(%s %s %s)' % (a, base[I.pred[1:]], b)
            elif I.pred == 'une': e = '(%s != %s)' % (a, b)
            else:
                inv = {'gt':'<=','ge':'<','lt':'>=','le':'>'}[I.pred[1:]]
                e = '!(%s %s %s)' % (a, inv, b)
            o.append('%s = (u8)%s;' % (R, e)); return
        if op in ('zext','sext','trunc','bitcast','inttoptr','ptrtoint','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','addrspacecast'):
            o.append('%s = %s;' % (R, self.cast(op, I.ops[0][0], V(I.ops[0]), I.T))); return
        if op == 'freeze': o.append('%s = %s;' % (R, V(I.ops[0]))); return
        if op == 'select':
            if self.m.res(I.T)[0] in ('st', 'arr'):
                o.append('if (%s) %s = %s; else %s = %s;' % (V(I.ops[0]), R, V(I.ops[1]), R, V(I.ops[2])))
            else: o.append('%s = %s ? %s : %s;' % (R, V(I.ops[0]), V(I.ops[1]), V(I.ops[2])))
            return
        if op == 'extractvalue':
            o.append('%s = %s%s;' % (R, V(I.ops[0]), self.fieldpath(I.ops[0][0], I.idx))); return
        if op == 'insertvalue':
            a = I.ops[0]
            if a[1][0] == 'undef': pass
            elif not (a[1][0] == 'reg' and a[1][1] == I.res): o.append('%s = %s;' % (R, V(a)))
            o.append('%s%s = %s;' % (R, self.fieldpath(I.T, I.idx), V(I.ops[1]))); return
        if op == 'br':
            if I.cond is None: o.append(self.goto(f, l, I.targets[0]))
            else: o.append('if (%s) %s else %s' % (V(I.cond), self.goto(f, l, I.targets[0]), self.goto(f, l, I.targets[1])))
            return
        if op == 'switch':
            T = I.ops[0][0]
            s = ''
            for cv, tgt in I.cases:
                s += 'if (%s == %s) %s else ' % (V(I.ops[0]), self.val(T, cv), self.goto(f, l, tgt))
            o.append(s + self.goto(f, l, I.default)); return
        if op == 'ret':
            if self.step is not None: o.append('VP_DONE(%d); return;' % self.step)
            elif I.ops: o.append('return %s;' % V(I.ops[0]))
            else: o.append('return;')
            return
        if op == 'unreachable':
            o.append('VP_UNREACHABLE(); ' + self.retzero(f)); return
        if op == 'landingpad':
            s = ''
            for kind, v in I.clauses:
                if kind == 'filter': raise Unsupported('filter')
                if v[0] == 'null': s += '1 ? %d : ' % self.ti(v)
                else: s += 'vp_ti_match(ti_, %d) ? %d : ' % (self.ti(v), self.ti(v))
            o.append('{ u32 ti_ = VP_EXC; %s.f0 = VP_EXCP; VP_EXC = 0; %s.f1 = %s0;' % (R, R, s))
            if not I.cleanup and not any(v[0] == 'null' for k, v in I.clauses):
                o.append('if (%s.f1 == 0) { VP_EXC = ti_; %s }' % (R, self.retzero(f)))
            o.append('}')
            return
        if op == 'resume':
            o.append('{ %s e_ = %s; VP_EXCP = e_.f0; VP_EXC = VP_EXC_TI(e_.f0); %s }' % (self.ct(I.ops[0][0]), V(I.ops[0]), self.retzero(f))); return
        if op in ('call', 'invoke'):
            self.emit_call(f, l, I, R); return
        if op == 'vp.pause':
            self.resume_label(*self.curseg)
            if I.call.asm is not None or I.call.callee[1] == 'vp_pause': o.append('M_vp_pause();')
            else: o.append(('%s = ' % R if R and I.T[0] != 'void' else '') + 'M_sched_yield();')
            return
        if op == 'vp.end':
            self.resume_label(*self.curseg)
            n, args, asg = self.twoargs(I.call)
            o.append('%sM_%s_end(%s);' % (asg, n, ', '.join(args))); return
        raise Unsupported('emit ' + op)

    def after(self, f, l, I, maythrow):
        o = self.out
        if I.op == 'invoke':
            if maythrow:
                o.append('if (VP_EXC) %s else %s' % (self.goto(f, l, I.targets[1]), self.goto(f, l, I.targets[0])))
            else: o.append(self.goto(f, l, I.targets[0]))
        elif maythrow:
            o.append('if (VP_EXC) { %s }' % self.retzero(f))

    def emit_call(self, f, l, I, R):
        o = self.out
        V = lambda tv: self.val(tv[0], tv[1])
        if I.asm is not None:
            if 'pause' in I.asm or 'nop' in I.asm:
                o.append('M_vp_pause();')
            elif I.asm.strip('"') == '': pass
            else: raise Unsupported('asm ' + I.src)
            self.after(f, l, I, False); return
        asg = '' if R is None or I.T[0] == 'void' else R + ' = '
        if I.callee[0] != 'glob':
            # indirect call
            ft = '%s (*)(%s)' % (self.ct(I.T), ', '.join(self.ct(t) for t, v in I.args) or 'void')
            o.append('%s((%s)%s)(%s);' % (asg, ft, self.val(('ptr',), I.callee), ', '.join(V(a) for a in I.args)))
            self.after(f, l, I, not self.m.call_nounwind(I)); return
        n = I.callee[1]
        while n in self.m.aliases and self.m.aliases[n][0] == 'glob': n = self.m.aliases[n][1]
        if DROP.match(n):
            if asg and n.startswith('llvm.stacksave'): o.append(asg + '(ptr)0;')
            self.after(f, l, I, False); return
        if n.startswith('llvm.'):
            self.intrinsic(f, I, n, R); self.after(f, l, I, False); return
        if n in self.m.funcs:
            if n not in self.fseen: self.fseen.add(n); self.fneed.append(n)
            o.append('%s%s(%s);' % (asg, self.fname(n), ', '.join(V(a) for a in I.args)))
            self.after(f, l, I, not self.m.call_nounwind(I)); return
        args = [V(a) for a in I.args]
        if n == '__cxa_throw':
            o.append('VP_THROW(%s, %d);' % (args[0], self.ti(I.args[1][1])))
            if I.op == 'invoke': o.append(self.goto(f, l, I.targets[1]))
            else: o.append(self.retzero(f))
            return
        if n == '__cxa_rethrow':
            o.append('VP_RETHROW();')
            if I.op == 'invoke': o.append(self.goto(f, l, I.targets[1]))
            else: o.append(self.retzero(f))
            return
        if n in TWOPHASE:
            n2, args2, asg2 = self.twoargs(I)
            o.append('%sM_%s(%s);' % (asg2, n2, ', '.join(args2)))
            self.after(f, l, I, False); return
        if n in VISIBLE and self.step is not None:
            self.yield_('vp_pre_%s(%s);' % (n, ', '.join(args)))
        self.unknown.add(n)
        o.append('%sM_%s(%s);' % (asg, cid(n), ', '.join(args)))
        self.after(f, l, I, not self.m.call_nounwind(I))

    def intrinsic(self, f, I, n, R):
        o = self.out; V = lambda tv: self.val(tv[0], tv[1]); A = I.args
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n.startswith('llvm.memset'):
            isset = n.startswith('llvm.memset')
            ln = A[2][1]
            if self.race and ln[0] == 'int' and ln[1]:
                for q, w in ((0, 'WR'), (1, 'RD')):
                    if (q == 0 or not isset) and not self.is_local(f, A[q][1]) and self.resolve(f, A[q][1]) is None: o.append('VP_RACE_%s(%s, %d, 0);' % (w, V(A[q]), ln[1]))
            if ln[0] == 'int':
                N = ln[1]
                if N == 0: return
                if isset:
                    if A[1][1][0] not in ('int', 'zero'): raise Unsupported('memset value')
                    b = (A[1][1][1] if A[1][1][0] == 'int' else 0) & 255; off = 0
                    while off < N:
                        w = 8 if N - off >= 8 else 4 if N - off >= 4 else 2 if N - off >= 2 else 1
                        o.append('*(u%d*)(%s + %d) = %dULL;' % (w*8, V(A[0]), off, int.from_bytes(bytes([b])*w, 'little'))); off += w
                else: o.append('{ typedef struct { u8 b[%d]; } B_; *(B_*)(%s) = *(B_*)(%s); }' % (N, V(A[0]), V(A[1])) if N not in (1, 2, 4, 8) else
                               '*(u%d*)(%s) = *(u%d*)(%s);' % (N*8, V(A[0]), N*8, V(A[1])))
            else:
                o.append('%s(%s, %s, %s);' % ('M_memset' if isset else 'M_memmove', V(A[0]), V(A[1]), V(A[2])))
            return
        if n.startswith('llvm.eh.typeid.for'):
            o.append('%s = %dU;' % (R, self.ti(A[0][1]))); return
        if n.startswith('llvm.expect'): o.append('%s = %s;' % (R, V(A[0]))); return
        if n.startswith('llvm.is.constant'): o.append('%s = 0;' % R); return
        if n.startswith('llvm.objectsize'): o.append('%s = (%s)-1;' % (R, self.ct(I.T))); return
        if n.startswith('llvm.trap'): o.append('VP_FAIL("trap");'); return
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.', n)
        if m:
            a, b = V(A[0]), V(A[1]); k = m.group(1); s = '>' if 'max' in k else '<'
            if k[0] == 's': o.append('%s = (%s)%s %s (%s)%s ? %s : %s;' % (R, self.sct(I.T), a, s, self.sct(I.T), b, a, b))
            else: o.append('%s = %s %s %s ? %s : %s;' % (R, a, s, b, a, b))
            return
        if n.startswith('llvm.abs'):
            o.append('%s = (%s)%s < 0 ? (%s)(0 - %s) : %s;' % (R, self.sct(I.T), V(A[0]), self.ct(I.T), V(A[0]), V(A[0]))); return
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow', n)
        if m:
            T = A[0][0]; ct = self.ct(T) if m.group(1) == 'u' else self.sct(T)
            s = {'add':'plus','sub':'minus','mul':'mult'}[m.group(2)]; op = {'add':'+','sub':'-','mul':'*'}[m.group(2)]
            o.append('%s.f0 = (%s)(%s %s %s); %s.f1 = (u8)__CPROVER_overflow_%s((%s)%s, (%s)%s);' % (R, self.ct(T), V(A[0]), op, V(A[1]), R, s, ct, V(A[0]), ct, V(A[1]))); return
        m = re.match(r'llvm\.(u|s)(add|sub)\.sat', n)
        if m:
            T = A[0][0]; a, b = V(A[0]), V(A[1]); N = T[1]
            if m.group(1) == 'u':
                if m.group(2) == 'sub': o.append('%s = %s < %s ? 0 : %s - %s;' % (R, a, b, a, b))
                else: o.append('%s = (%s)(%s + %s) < %s ? (%s)-1 : (%s)(%s + %s);' % (R, self.ct(T), a, b, a, self.ct(T), self.ct(T), a, b))
                return
            st = self.sct(T); cop = {'add':'plus','sub':'minus'}[m.group(2)]; op = {'add':'+','sub':'-'}[m.group(2)]
            mx = self.intlit(T, (1 << (N-1)) - 1); mn = self.intlit(T, 1 << (N-1))
            o.append('%s = __CPROVER_overflow_%s((%s)%s, (%s)%s) ? ((%s)%s < 0 ? %s : %s) : (%s)(%s %s %s);' % (R, cop, st, a, st, b, st, a, mn, mx, self.ct(T), a, op, b)); return
        m = re.match(r'llvm\.fsh([lr])\.', n)
        if m:
            T = A[0][0]; N = T[1]; a, b, c = V(A[0]), V(A[1]), V(A[2])
            ct = self.ct(T)
            if m.group(1) == 'l': o.append('%s = (%s %% %d) ? (%s)((%s << (%s %% %d)) | (%s >> (%d - %s %% %d))) : %s;' % (R, c, N, ct, a, c, N, b, N, c, N, a))
            else: o.append('%s = (%s %% %d) ? (%s)((%s << (%d - %s %% %d)) | (%s >> (%s %% %d))) : %s;' % (R, c, N, ct, a, N, c, N, b, c, N, b))
            return
        if n.startswith('llvm.threadlocal.address'):
            o.append('%s = %s;' % (R, V(A[0]))); return
        if n.startswith('llvm.ctpop') or n.startswith('llvm.ctlz') or n.startswith('llvm.cttz') or n.startswith('llvm.bswap'):
            o.append('%s = %s_%d(%s);' % (R, n.split('.')[1], A[0][0][1], V(A[0]))); self.unknown.add(n); return
        raise Unsupported('intrinsic ' + n)

    # ---------------------------------------------------------- module
    def generate(self):
        body = []
        for i, t in enumerate(self.threads):
            body += self.gen_function(t, step=i) + ['']
        for s in self.seq:
            if s not in self.fseen: self.fseen.add(s); self.fneed.append(s)
        protos = []; done = set()
        while self.fneed:
            n = self.fneed.pop(0)
            if n in done: continue
            done.add(n)
            protos.append(self.sig(self.m.funcs[n]) + ';')
            body += self.gen_function(n) + ['']
        gl = []; gdone = []; k = 0
        self.rp = 'r_'
        while self.gneed:
            n = self.gneed.pop(0); g = self.m.globals[n]; ct = self.ct(g['type']) if g['type'][0] != 'opaque' and self.m.res(g['type'])[0] != 'opaque' else 'u64'
            if n.startswith('_ZTV') or n.startswith('_ZTS') or n.startswith('_ZTI'):
                gl.append(('static u64 %s[32];' % self.gname(n), None)); continue
            if g['tls']:
                ini = self.init(g['type'], g['init']) if g['init'] else '0'
                gl.append(('static %s TLS_%s[VP_NT];' % (ct, cid(n)), None))
                if ini not in ('0', '{0}', '((ptr)0)'): raise Unsupported('tls init')
                continue
            if g['init'] is None:
                gl.append(('extern %s %s;' % (ct, self.gname(n)), None))
            else:
                ini = self.init(g['type'], g['init'])
                gl.append(('static %s %s;' % (ct, self.gname(n)), 'static %s %s = %s;' % (ct, self.gname(n), ini)))
            while self.fneed:   # functions referenced from initialisers
                fn = self.fneed.pop(0)
                if fn in done: continue
                done.add(fn); protos.append(self.sig(self.m.funcs[fn]) + ';'); body += self.gen_function(fn) + ['']
        out = ['/* generated by ll2c.py - do not edit */', '#include "model.h"'] + self.pcdefs
        out += self.structdefs
        # typeinfo match table
        tm = ['static u8 vp_ti_match(u32 thrown, u32 c) {', '  if (c == thrown || c == 1) return 1;']
        allt = dict(self.tis)
        for n in list(allt):
            seen = set(); st = [n]
            while st:
                x = st.pop()
                for b in self.ti_bases(x):
                    if b not in seen: seen.add(b); st.append(b)
            for b in seen:
                if b in allt: tm.append('  if (thrown == %d && c == %d) return 1;' % (allt[n], allt[b]))
        tm += ['  return 0;', '}']
        out += [g for g, _ in gl]
        ext = sorted(x[1:] for x in self.unknown if x[0] == '&')
        for x in ext: out.append('static u64 X_%s;' % cid(x))
        out += tm + protos + [d for _, d in gl if d] + [''] + body
        # scheduler glue
        if self.threads:
            out.append('#define VP_MAXPC %d' % self.maxpc)
            out.append('static void vp_round(u8 init) {')
            for i in range(len(self.threads)): out.append('  vp_t = %d; vp_cs = init ? 0 : VP_CSIN(); vp_step_%d();' % (i, i))
            out.append('}')
        out.append('static void vp_gen_init(void) {')
        if '_ZTISt9bad_alloc' in self.tis: out.append('  vp_ti_badalloc = %d;' % self.tis['_ZTISt9bad_alloc'])
        out.append('}')
        out.append('#include "main.h"')
        return '\n'.join(out) + '\n'

def sext(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n-1) else v

def fplit(s, T):
    import struct
    if s.startswith('0x'):
        if s[2] in 'KLMHR': raise Unsupported('fp80 literal')
        d = struct.unpack('>d', struct.pack('>Q', int(s, 16)))[0]
    else: d = float(s)
    if d != d: return '(0.0/0.0)'
    if d in (float('inf'), float('-inf')): return '(%s1.0/0.0)' % ('-' if d < 0 else '')
    return '((%s)%s)' % ({32:'float', 64:'double'}[T[1]], d.hex())

# alloca address: registers of alloca instructions denote addresses
def patch_alloca(gen):
    orig = Gen.reg
    def reg(self, r):
        I = getattr(self, 'cur', None) and self.cur.defs.get(r)
        if I is not None and I.op == 'alloca':
            return '((ptr)&a_%s%s)' % (self.rp, cid(r))
        return orig(self, r)
    Gen.reg = reg
patch_alloca(Gen)
