"""x86-64 front end: the assembled object file (objdump) executed symbolically on the shared core."""
import os, re, subprocess, tempfile, shutil, time
from dv import terms as t
from dv.symex import *
REPO = os.environ.get('REPO', '/repo')

class Ins:
    __slots__ = ('addr', 'op', 'args', 'text')
    def __repr__(self): return '%x: %s' % (self.addr, self.text)

def assemble(path=None):
    path = path or REPO + '/cpp/AsmX8664.s'
    d = tempfile.mkdtemp(prefix='dvasm')
    try:
        r = subprocess.run(['g++', '-c', path, '-o', d + '/a.o'], capture_output=True, text=True)
        if r.returncode: raise Unsupported('assembler: ' + r.stderr[:300])
        txt = subprocess.run(['objdump', '-d', '-z', '--no-show-raw-insn', d + '/a.o'], capture_output=True, text=True).stdout
        sym = subprocess.run(['objdump', '-t', d + '/a.o'], capture_output=True, text=True).stdout
        rel = subprocess.run(['objdump', '-r', d + '/a.o'], capture_output=True, text=True).stdout
    finally: shutil.rmtree(d, ignore_errors=True)
    return AsmProgram(txt, sym, rel)

def split_args(s):
    r = []; d = 0; c = ''
    for ch in s:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ',' and d == 0: r.append(c.strip()); c = ''
        else: c += ch
    if c.strip(): r.append(c.strip())
    return r

class AsmProgram:
    def __init__(self, txt, sym, rel=''):
        self.ins = {}; self.order = []; self.entry = {}
        self.reloc = any('R_X86' in l for l in rel.split('\n'))
        for l in sym.split('\n'):
            m = re.match(r'([0-9a-f]+) g\s.*\.text\s+\S+\s+(\S+)', l)
            if m: self.entry[m.group(2)] = int(m.group(1), 16)
        for l in txt.split('\n'):
            m = re.match(r'\s*([0-9a-f]+):\s+(.*)', l)
            if not m: continue
            i = Ins(); i.addr = int(m.group(1), 16); i.text = re.sub(r'\s+', ' ', m.group(2).split('#')[0].strip())
            w = i.text.split(' ', 1); i.op = w[0]
            if i.op in ('rep', 'repz', 'bnd', 'notrack', 'lock'):
                w2 = w[1].split(' ', 1) if len(w) > 1 else ['']
                i.op = w2[0] if w2[0] in ('ret', 'retq') else w[0] + ' ' + w2[0]; w = [i.op] + w2[1:]
            i.args = split_args(w[1]) if len(w) > 1 else []
            self.ins[i.addr] = i; self.order.append(i.addr)
        self.next = {a: b for a, b in zip(self.order, self.order[1:])}

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REG = {}
for _r in R64:
    REG[_r] = (_r, 64, 0)
    if _r[1:].isdigit():
        REG[_r + 'd'] = (_r, 32, 0); REG[_r + 'w'] = (_r, 16, 0); REG[_r + 'b'] = (_r, 8, 0)
    else:
        REG['e' + _r[1:]] = (_r, 32, 0); REG[_r[1:]] = (_r, 16, 0)
for a, b in (('al', 'rax'), ('bl', 'rbx'), ('cl', 'rcx'), ('dl', 'rdx'), ('sil', 'rsi'), ('dil', 'rdi'), ('bpl', 'rbp'), ('spl', 'rsp')): REG[a] = (b, 8, 0)
for a, b in (('ah', 'rax'), ('bh', 'rbx'), ('ch', 'rcx'), ('dh', 'rdx')): REG[a] = (b, 8, 8)
CALLEE_SAVED = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
ARGS = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}

class XExec(Exec):
    def __init__(self, prog):
        Exec.__init__(self); self.prog = prog
        self.max_steps = 20000
    # operands -------------------------------------------------------
    def reg(self, st, name):
        b, w, o = REG[name]
        v = st.env[b]
        if isinstance(v, Ptr):
            if w == 64: return v
            raise Unsupported('part of a pointer register')
        return v if w == 64 else t.extract(v, o + w - 1, o)
    def setreg(self, st, name, v):
        b, w, o = REG[name]
        if w == 64: st.env[b] = v; return
        if isinstance(v, Ptr): raise Unsupported('pointer truncated')
        if w == 32: st.env[b] = t.zext(v, 64); return
        old = st.env[b]
        if isinstance(old, Ptr): raise Unsupported('partial write of a pointer register')
        parts = []
        if o + w < 64: parts.append(t.extract(old, 63, o + w))
        parts.append(v)
        if o: parts.append(t.extract(old, o - 1, 0))
        st.env[b] = t.concat(*parts)
    def ea(self, st, a):
        m = re.match(r'^(%\w+:)?(-?0x[0-9a-f]+|-?\d+)?\((%\w+)?(?:,(%\w+),(\d))?\)$', a)
        if not m or m.group(1): raise Unsupported('address ' + a)
        k = int(m.group(2), 0) if m.group(2) else 0
        base = self.reg(st, m.group(3)[1:]) if m.group(3) else t.const(0, 64)
        idx = None
        if m.group(4): idx = self.reg(st, m.group(4)[1:])
        sc = int(m.group(5) or 1)
        if isinstance(idx, Ptr) and not isinstance(base, Ptr) and sc == 1: base, idx = idx, base
        if isinstance(idx, Ptr): raise Unsupported('two pointers added')
        off = t.const(k, 64)
        if idx is not None: off = t.add(off, t.mul(idx, t.const(sc, 64)))
        if isinstance(base, Ptr): return Ptr(base.obj, t.add(base.off, off))
        return t.add(base, off)
    def get(self, st, a, w):
        if a[0] == '%':
            n = a[1:]
            if n.startswith('xmm'):
                v = st.env[n]; return v if w == 128 else t.extract(v, w - 1, 0)
            v = self.reg(st, n)
            return v
        if a[0] == '$': return t.const(int(a[1:], 0), w)
        p = self.ea(st, a)
        if not isinstance(p, Ptr): raise Unsupported('absolute address')
        return self.load(st, p, w // 8)
    def put(self, st, a, w, v):
        if a[0] == '%':
            n = a[1:]
            if n.startswith('xmm'): st.env[n] = v if v.w == 128 else t.zext(v, 128)
            else: self.setreg(st, n, v)
            return
        p = self.ea(st, a)
        if not isinstance(p, Ptr): raise Unsupported('absolute address')
        self.store(st, p, w // 8, v)
    def width(self, op, base, args):
        for a in args:
            if a[0] == '%' and a[1:] in REG: return REG[a[1:]][1]
        s = op[len(base):]
        if s in SUF: return SUF[s]
        raise Unsupported('operand size of ' + op)
    # flags ------------------------------------------------------------
    def flag(self, st, f):
        v = st.env['f' + f]
        if v is None: v = t.fresh('undefflag', 1)
        return v
    def szp(self, st, r):
        st.env['fz'] = t.eq(r, t.const(0, r.w)); st.env['fs'] = t.extract(r, r.w - 1, r.w - 1)
        st.env['fp'] = None
    def cond(self, st, c):
        neg = c[0] == 'n'
        if neg: c = c[1:]
        F = lambda x: self.flag(st, x)
        if c in ('b', 'c', 'nae'): r = F('c')
        elif c == 'ae': r = t.not_(F('c'))
        elif c in ('e', 'z'): r = F('z')
        elif c == 'be': r = t.or_(F('c'), F('z'))
        elif c == 'a': r = t.not_(t.or_(F('c'), F('z')))
        elif c == 's': r = F('s')
        elif c == 'o': r = F('o')
        elif c == 'p': r = F('p')
        elif c == 'l': r = t.xor(F('s'), F('o'))
        elif c == 'ge': r = t.not_(t.xor(F('s'), F('o')))
        elif c == 'le': r = t.or_(F('z'), t.xor(F('s'), F('o')))
        elif c == 'g': r = t.not_(t.or_(F('z'), t.xor(F('s'), F('o'))))
        else: raise Unsupported('condition ' + c)
        return t.not_(r) if neg else r
    def addsub(self, st, a, b, c, sub):
        """a +- b +- c with flags; c is a 1-bit term or None"""
        w = a.w
        x = t.zext(a, w + 1); y = t.zext(b, w + 1)
        s = (t.sub if sub else t.add)(x, y)
        if c is not None: s = (t.sub if sub else t.add)(s, t.zext(c, w + 1))
        r = t.extract(s, w - 1, 0)
        st.env['fc'] = t.extract(s, w, w)
        sa, sb, sr = (t.extract(v, w - 1, w - 1) for v in (a, b, r))
        if sub: st.env['fo'] = t.and_(t.xor(sa, sb), t.xor(sa, sr))
        else: st.env['fo'] = t.and_(t.not_(t.xor(sa, sb)), t.xor(sa, sr))
        self.szp(st, r)
        return r
    # ------------------------------------------------------------------
    def run_fn(self, st, name, args):
        """SysV call of `name`; args: Ptr, 64-bit term, or narrower term (upper half arbitrary)"""
        if name not in self.prog.entry: raise Unsupported('no routine ' + name)
        env = {}
        for r in R64: env[r] = t.var('reg!' + r, 64)
        for i in range(16): env['xmm%d' % i] = t.var('reg!xmm%d' % i, 128)
        for f in 'czsop': env['f' + f] = None
        for r, a in zip(ARGS, args):
            if isinstance(a, t.T) and a.w < 64: a = t.concat(t.var('junk!' + r, 64 - a.w), a)
            env[r] = a
        stk = self.new_obj(st, 'stack', 1024 + 8, oid='stk:asm')
        env['rsp'] = P(stk, 1024)
        st.mem[stk].put(1024, 8, t.var('return!addr', 64))
        saved = st.env; st.env = env; init = dict(env)
        self.stack.append(name)
        outs = []; work = [(self.prog.entry[name], st)]; steps = 0
        try:
            while work:
                pc, s = work.pop()
                while True:
                    steps += 1
                    if steps > self.max_steps: raise Unsupported('too many steps')
                    self.tick()
                    i = self.prog.ins.get(pc)
                    if i is None: raise Unsupported('control leaves the text')
                    self.cur = i
                    try: nxt = self.step(s, i)
                    except PathEnd: break
                    if nxt is None: pc = self.prog.next.get(pc)
                    elif nxt == 'ret':
                        p = s.env['rsp']
                        ok = isinstance(p, Ptr) and p.obj == stk and t.isc(p.off) and p.off.v == 1024
                        self.oblige(s, t.boolc(ok), 'stack pointer restored')
                        if ok: self.oblige(s, t.eq(s.mem[stk].get(1024, 8), t.var('return!addr', 64)), 'return address intact')
                        for r in CALLEE_SAVED:
                            v = s.env[r]
                            self.oblige(s, t.eq(v, init[r]) if isinstance(v, t.T) else t.false(), 'callee-saved register %s preserved' % r)
                        outs.append((s, s.env['rax'])); break
                    elif isinstance(nxt, tuple):
                        c, tgt = nxt
                        d = self.decide(s, c)
                        if d is None:
                            self.leak('branch', c)
                            s2 = s.fork(); s2.assume(c); work.append((tgt, s2)); s.assume(t.not_(c)); pc = self.prog.next.get(pc)
                        else: pc = tgt if d else self.prog.next.get(pc)
                    else: pc = nxt
        finally: self.stack.pop()
        res = []
        for s, r in outs:
            s.env = dict(saved); s.mem.pop(stk, None); res.append((s, r))
        return res
    def loc(self): return '%s+%s' % (self.stack[-1] if self.stack else '?', getattr(self, 'cur', ''))
    def step(self, st, i):
        op = i.op; A = i.args; env = st.env
        if op in ('ret', 'retq'): return 'ret'
        if op in ('nop', 'nopw', 'nopl', 'endbr64', 'data16', 'vzeroupper'): return None
        if op in ('jmp', 'jmpq'): return int(A[0].split()[0], 16)
        if op[0] == 'j': return (self.cond(st, op[1:]), int(A[0].split()[0], 16))
        if any('xmm' in a for a in A): return self.sse(st, i)
        if op.startswith('set'):
            self.put(st, A[0], 8, self.cond(st, op[3:]).zext8() if hasattr(t.T, 'zext8') else t.zext(self.cond(st, op[3:]), 8)); return None
        if op.startswith('cmov'):
            w = self.width(op, op, A)
            c = self.cond(st, op[4:]); a = self.get(st, A[0], w); b = self.get(st, A[1], w)
            if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('cmov of pointers')
            self.put(st, A[1], w, t.ite(c, a, b)); return None
        if op in ('movabs', 'movabsq'): self.put(st, A[1], 64, self.get(st, A[0], 64)); return None
        m = re.match(r'^mov([zs])([bwl])([wlq]?)$', op) or re.match(r'^mov([zs])(b|w|l)x?$', op)
        if m or op in ('movslq', 'movzx', 'movsx', 'movsxd'):
            dw = REG[A[1][1:]][1]
            if A[0][0] == '%': sw = REG[A[0][1:]][1]
            elif m: sw = SUF[m.group(2)]
            else: sw = 32
            z = op[3] == 'z'
            v = self.get(st, A[0], sw)
            self.put(st, A[1], dw, t.zext(v, dw) if z else t.sext(v, dw)); return None
        if op in ('cltq', 'cdqe'): self.put(st, '%rax', 64, t.sext(self.get(st, '%eax', 32), 64)); return None
        if op in ('xchg', 'xchgq', 'xchgl'):
            w = self.width(op, 'xchg', A); a = self.get(st, A[0], w); b = self.get(st, A[1], w)
            self.put(st, A[0], w, b); self.put(st, A[1], w, a); return None
        if op in ('push', 'pushq'):
            v = self.get(st, A[0], 64); p = env['rsp'].addc(-8); env['rsp'] = p; self.store(st, p, 8, v); return None
        if op in ('pop', 'popq'):
            p = env['rsp']; v = self.load(st, p, 8); env['rsp'] = p.addc(8); self.put(st, A[0], 64, v); return None
        if op in ('lea', 'leaq', 'leal'):
            w = REG[A[1][1:]][1]; p = self.ea(st, A[0])
            if w != 64:
                if isinstance(p, Ptr): raise Unsupported('32-bit lea of pointer')
                p = t.extract(p, w - 1, 0)
            self.put(st, A[1], w, p); return None
        if op in ('clc', 'stc'): env['fc'] = t.boolc(op == 'stc'); return None
        if op == 'cmc': env['fc'] = t.not_(self.flag(st, 'c')); return None
        for base in ('mov', 'add', 'adc', 'adcx', 'adox', 'sub', 'sbb', 'cmp', 'and', 'or', 'xor', 'test', 'neg', 'not', 'inc', 'dec', 'shl', 'sal', 'shr', 'sar', 'rcl', 'rcr', 'rol', 'ror', 'mul', 'imul', 'mulx', 'bt', 'andn', 'shld', 'shrd'):
            if op == base or (op[:-1] == base and op[-1] in SUF): break
        else: raise Unsupported('instruction ' + i.text)
        if base in ('shl', 'sal', 'shr', 'sar', 'rcl', 'rcr', 'rol', 'ror') and len(A) == 2:
            w = self.width(op, base, A[1:])
        elif base in ('bt',): w = self.width(op, base, A[1:])
        else: w = self.width(op, base, A)
        g = lambda k: self.get(st, A[k], w)
        if base == 'mov':
            v = g(0); self.put(st, A[1], w, v); return None
        if base in ('add', 'sub', 'cmp'):
            b, a = g(0), g(1)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if base == 'cmp':
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: a, b = a.off, b.off
                    else: raise Unsupported('pointer compare')
                else:
                    if isinstance(b, Ptr):
                        if base == 'sub': raise Unsupported('pointer subtraction')
                        a, b = b, a
                    if isinstance(b, Ptr): raise Unsupported('pointer arithmetic')
                    for f in 'czsop': env['f' + f] = None
                    self.put(st, A[1], w, Ptr(a.obj, t.add(a.off, b) if base == 'add' else t.sub(a.off, b))); return None
            r = self.addsub(st, a, b, None, base != 'add')
            if base != 'cmp': self.put(st, A[1], w, r)
            return None
        if base in ('adc', 'sbb'):
            b, a = g(0), g(1); r = self.addsub(st, a, b, self.flag(st, 'c'), base == 'sbb'); self.put(st, A[1], w, r); return None
        if base in ('adcx', 'adox'):
            f = 'fc' if base == 'adcx' else 'fo'
            keep = dict(env); b, a = g(0), g(1); r = self.addsub(st, a, b, self.flag(st, f[1]), False); c = env['fc']
            for q in 'czsop': env['f' + q] = keep['f' + q]
            env[f] = c; self.put(st, A[1], w, r); return None
        if base in ('and', 'or', 'xor', 'test'):
            if base == 'xor' and A[0] == A[1]: r = t.const(0, w)
            else:
                b, a = g(0), g(1)
                if isinstance(a, Ptr) and base == 'test' and A[0] == A[1]: raise Unsupported('pointer test')
                r = {'and': t.and_, 'test': t.and_, 'or': t.or_, 'xor': t.xor}[base](a, b)
            env['fc'] = t.false(); env['fo'] = t.false(); self.szp(st, r)
            if base != 'test': self.put(st, A[1], w, r)
            return None
        if base == 'andn':
            r = t.and_(g(0), t.not_(g(1))); env['fc'] = t.false(); env['fo'] = t.false(); self.szp(st, r); self.put(st, A[2], w, r); return None
        if base == 'neg':
            a = g(0); r = self.addsub(st, t.const(0, w), a, None, True); nz = t.not_(t.eq(a, t.const(0, w))); env['fc'] = nz if not any(q.op == 'eq' for q in t.topo([nz])) or a.op == 'ite' else env['fc']; self.put(st, A[0], w, r); return None
        if base == 'not': self.put(st, A[0], w, t.not_(g(0))); return None
        if base in ('inc', 'dec'):
            c = env['fc']; r = self.addsub(st, g(0), t.const(1, w), None, base == 'dec'); env['fc'] = c; self.put(st, A[0], w, r); return None
        if base in ('shl', 'sal', 'shr', 'sar', 'rcl', 'rcr', 'rol', 'ror'):
            if len(A) == 1: n = 1; d = A[0]
            else:
                d = A[1]
                cnt = self.get(st, A[0], 8)
                if not t.isc(cnt): raise Unsupported('variable shift')
                n = cnt.v & (63 if w == 64 else 31)
            if n == 0: return None
            a = self.get(st, d, w)
            k = t.const(n, w)
            if base in ('shl', 'sal'):
                if n >= w: raise Unsupported('shift')
                r = t.shl(a, k); env['fc'] = t.extract(a, w - n, w - n); env['fo'] = t.xor(t.extract(r, w - 1, w - 1), env['fc']) if n == 1 else None; self.szp(st, r)
            elif base in ('shr', 'sar'):
                r = (t.lshr if base == 'shr' else t.ashr)(a, k); env['fc'] = t.extract(a, n - 1, n - 1)
                env['fo'] = (t.extract(a, w - 1, w - 1) if base == 'shr' else t.false()) if n == 1 else None; self.szp(st, r)
            elif base == 'rcl':
                if n != 1: raise Unsupported('rcl by more than 1')
                c = self.flag(st, 'c'); r = t.concat(t.extract(a, w - 2, 0), c); env['fc'] = t.extract(a, w - 1, w - 1); env['fo'] = None
            elif base == 'rcr':
                if n != 1: raise Unsupported('rcr by more than 1')
                c = self.flag(st, 'c'); r = t.concat(c, t.extract(a, w - 1, 1)); env['fc'] = t.extract(a, 0, 0); env['fo'] = None
            elif base == 'rol':
                r = t.concat(t.extract(a, w - n - 1, 0), t.extract(a, w - 1, w - n)); env['fc'] = t.extract(r, 0, 0); env['fo'] = None
            else:
                r = t.concat(t.extract(a, n - 1, 0), t.extract(a, w - 1, n)); env['fc'] = t.extract(r, w - 1, w - 1); env['fo'] = None
            self.put(st, d, w, r); return None
        if base == 'bt':
            n = g(0)
            if not t.isc(n): raise Unsupported('variable bt')
            a = self.get(st, A[1], w); env['fc'] = t.extract(a, n.v % w, n.v % w); return None
        if base in ('shld', 'shrd'):
            cnt = self.get(st, A[0], 8)
            if not t.isc(cnt) or not 0 < cnt.v < w: raise Unsupported('variable shift')
            n = cnt.v; s = self.get(st, A[1], w); d = self.get(st, A[2], w)
            if base == 'shld': r = t.concat(t.extract(d, w - n - 1, 0), t.extract(s, w - 1, w - n)); env['fc'] = t.extract(d, w - n, w - n)
            else: r = t.concat(t.extract(s, n - 1, 0), t.extract(d, w - 1, n)); env['fc'] = t.extract(d, n - 1, n - 1)
            env['fo'] = None; self.szp(st, r); self.put(st, A[2], w, r); return None
        if base == 'mul':
            a = self.get(st, {64: '%rax', 32: '%eax'}[w], w); b = g(0)
            p = t.mul(t.zext(a, 2 * w), t.zext(b, 2 * w))
            hi = t.extract(p, 2 * w - 1, w); lo = t.extract(p, w - 1, 0)
            self.put(st, {64: '%rax', 32: '%eax'}[w], w, lo); self.put(st, {64: '%rdx', 32: '%edx'}[w], w, hi)
            env['fc'] = env['fo'] = t.not_(t.eq(hi, t.const(0, w))); env['fz'] = env['fs'] = env['fp'] = None
            return None
        if base == 'mulx':
            a = self.get(st, {64: '%rdx', 32: '%edx'}[w], w); b = g(0)
            p = t.mul(t.zext(a, 2 * w), t.zext(b, 2 * w))
            self.put(st, A[1], w, t.extract(p, w - 1, 0)); self.put(st, A[2], w, t.extract(p, 2 * w - 1, w)); return None
        if base == 'imul':
            if len(A) == 1: raise Unsupported('one-operand imul')
            r = t.mul(g(0), g(1)); self.put(st, A[-1], w, r)
            for f in 'czsop': env['f' + f] = None
            return None
        raise Unsupported('instruction ' + i.text)
    def mem128(self, st, a, aligned):
        """128-bit source operand; legacy SSE memory operands must be 16-byte aligned"""
        if a[0] != '%' and aligned:
            p = self.ea(st, a)
            if not isinstance(p, Ptr): raise Unsupported('absolute address')
            al = (st.mem[p.obj].meta.get('align', 4) if p.obj in st.mem else 1)
            ok = al % 16 == 0 and t.isc(p.off) and p.off.v % 16 == 0
            if not ok: self.oblige(st, t.false(), '16-byte alignment of the memory operand'); raise PathEnd()
        return self.get(st, a, 128)
    def sse(self, st, i):
        op = i.op; A = i.args; env = st.env
        X = lambda a: a[0] == '%' and a[1:].startswith('xmm')
        if op in ('movdqu', 'movups', 'movupd', 'lddqu', 'movdqa', 'movaps', 'movapd'):
            al = op in ('movdqa', 'movaps', 'movapd')
            if X(A[1]): self.put(st, A[1], 128, self.mem128(st, A[0], al))
            else:
                if al: self.mem128(st, A[1], True)
                self.put(st, A[1], 128, self.get(st, A[0], 128))
            return None
        if op in ('movd', 'movq'):
            w = 32 if op == 'movd' else 64
            if X(A[1]):
                v = self.get(st, A[0], w) if X(A[0]) or A[0][0] != '%' else self.reg(st, A[0][1:])
                if isinstance(v, Ptr): raise Unsupported('pointer in xmm')
                env[A[1][1:]] = t.zext(t.extract(v, w - 1, 0) if v.w > w else v, 128)
            else:
                v = self.get(st, A[0], 128)
                if A[1][0] == '%': w = REG[A[1][1:]][1]
                self.put(st, A[1], w, t.extract(v, w - 1, 0))
            return None
        if op == 'pshufd':
            k = int(A[0][1:], 0); s = self.mem128(st, A[1], True)
            env[A[2][1:]] = t.concat(*[t.extract(s, 32 * (k >> 2 * j & 3) + 31, 32 * (k >> 2 * j & 3)) for j in (3, 2, 1, 0)]); return None
        if op == 'pblendvb':
            if len(A) == 3: A = A[1:]
            s = self.mem128(st, A[0], True); d = env[A[1][1:]]; m = env['xmm0']
            r = []
            for j in range(15, -1, -1):
                c = t.extract(m, 8 * j + 7, 8 * j + 7)
                r.append(t.ite(c, t.extract(s, 8 * j + 7, 8 * j), t.extract(d, 8 * j + 7, 8 * j)))
            env[A[1][1:]] = t.concat(*r); return None
        if op in ('pand', 'por', 'pxor', 'pandn', 'andps', 'orps', 'xorps', 'andnps'):
            s = self.mem128(st, A[0], True); d = env[A[1][1:]]; o = op.replace('ps', '') if op.endswith('ps') else op[1:]
            if o == 'xor' and A[0] == A[1]: r = t.const(0, 128)
            else: r = {'and': lambda: t.and_(d, s), 'or': lambda: t.or_(d, s), 'xor': lambda: t.xor(d, s), 'andn': lambda: t.and_(t.not_(d), s)}[o]()
            env[A[1][1:]] = r; return None
        m = re.match(r'^pcmpeq([bwdq])$', op)
        if m:
            w = {'b': 8, 'w': 16, 'd': 32, 'q': 64}[m.group(1)]; s = self.mem128(st, A[0], True); d = env[A[1][1:]]
            r = []
            for j in range(128 // w - 1, -1, -1):
                e = t.eq(t.extract(s, w * j + w - 1, w * j), t.extract(d, w * j + w - 1, w * j))
                r.append(t.sext(e, w))
            env[A[1][1:]] = t.concat(*r); return None
        if op == 'pmovmskb':
            s = env[A[0][1:]]
            self.put(st, A[1], REG[A[1][1:]][1], t.zext(t.concat(*[t.extract(s, 8 * j + 7, 8 * j + 7) for j in range(15, -1, -1)]), REG[A[1][1:]][1])); return None
        if op in ('ptest',):
            s = self.mem128(st, A[0], True); d = env[A[1][1:]]
            env['fz'] = t.eq(t.and_(s, d), t.const(0, 128)); env['fc'] = t.eq(t.and_(s, t.not_(d)), t.const(0, 128)); env['fo'] = env['fs'] = t.false(); env['fp'] = None
            return None
        m = re.match(r'^p(add|sub)([bwdq])$', op)
        if m:
            w = {'b': 8, 'w': 16, 'd': 32, 'q': 64}[m.group(2)]; s = self.mem128(st, A[0], True); d = env[A[1][1:]]
            f = t.add if m.group(1) == 'add' else t.sub
            env[A[1][1:]] = t.concat(*[f(t.extract(d, w * j + w - 1, w * j), t.extract(s, w * j + w - 1, w * j)) for j in range(128 // w - 1, -1, -1)]); return None
        m = re.match(r'^punpck([lh])(bw|wd|dq|qdq)$', op)
        if m:
            w = {'bw': 8, 'wd': 16, 'dq': 32, 'qdq': 64}[m.group(2)]; s = self.mem128(st, A[0], True); d = env[A[1][1:]]
            o = 64 if m.group(1) == 'h' else 0; r = []
            for j in range(64 // w):
                r += [t.extract(d, o + w * j + w - 1, o + w * j), t.extract(s, o + w * j + w - 1, o + w * j)]
            env[A[1][1:]] = t.concat(*reversed(r)); return None
        raise Unsupported('instruction ' + i.text)
