"""Integer reading of bit-vector terms.

conv(t) gives an integer polynomial equal to the unsigned value of t.  Machine
wrap-around, word slicing and carries become floor atoms floor(P/m), kept in a
canonical form in which nested floors telescope, so a word-by-word carry chain
and the whole-number formula it implements become the same polynomial.
Remaining goals go to z3 as linear integer arithmetic over the monomials.
"""
import z3, time
from dv import terms as t
from dv.symex import SLOW

class TooHard(Exception): pass

INF = None

class Ctx:
    def __init__(self, bounds=None, mulbound=None):
        self.atoms = []          # id -> ('t', term) | ('f', poly, m)
        self.akey = {}
        self.lo = []; self.hi = []
        self.memo = {}
        self.vb = bounds or {}   # var term -> (lo, hi)
        self.limit = 6000; self.telescope = True
        self.cuts = {}
        self.pb = {}             # known bounds of whole polynomials (constant and sign stripped)
    def pkey(self, p):
        ms = sorted(m for m in p if m != ())
        if not ms: return None, 0
        sg = 1 if p[ms[0]] > 0 else -1
        return tuple((m, sg * p[m]) for m in ms), sg
    # -------------------------------------------------- polynomials
    # poly: dict monomial(tuple of atom ids sorted) -> coeff
    def const(self, k): return {(): k} if k else {}
    def add(self, p, q, c=1):
        r = dict(p)
        for m, k in q.items():
            v = r.get(m, 0) + c * k
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def scale(self, p, c): return {m: k * c for m, k in p.items()} if c else {}
    def mul(self, p, q):
        r = {}
        if len(p) * len(q) > self.limit: raise TooHard('product too large')
        for m1, k1 in p.items():
            for m2, k2 in q.items():
                m = tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + k1 * k2
        return {m: k for m, k in r.items() if k}
    def key(self, p): return tuple(sorted(p.items()))
    def atom(self, key, lo, hi):
        i = self.akey.get(key)
        if i is None:
            i = len(self.atoms); self.akey[key] = i
            self.atoms.append(key); self.lo.append(lo); self.hi.append(hi)
        else:
            self.lo[i] = max(self.lo[i], lo); self.hi[i] = min(self.hi[i], hi)
        return i
    def mono_bounds(self, m):
        lo, hi = 1, 1
        for a in m:
            x = (lo * self.lo[a], lo * self.hi[a], hi * self.lo[a], hi * self.hi[a])
            lo, hi = min(x), max(x)
        return lo, hi
    def bounds(self, p):
        lo = hi = 0
        for m, k in p.items():
            a, b = self.mono_bounds(m)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        ky, sg = self.pkey(p)
        b = self.pb.get(ky)
        if b is not None:
            k = p.get((), 0)
            if sg > 0: lo = max(lo, b[0] + k); hi = min(hi, b[1] + k)
            else: lo = max(lo, k - b[1]); hi = min(hi, k - b[0])
        return lo, hi
    def floor(self, p, m, hint=None):
        """floor(p / m)"""
        if m == 1: return p
        q = {}; r = {}
        half = m // 2
        for mo, k in p.items():
            if mo == (): continue
            d = k // m; e = k - d * m
            if e > half: e -= m; d += 1
            if d: q[mo] = d
            if e: r[mo] = e
        k = p.get((), 0)
        qoff = 0
        # gcd normalisation
        from math import gcd
        g = m
        for c in r.values(): g = gcd(g, c)
        if g > 1:
            r = {mo: c // g for mo, c in r.items()}
            k = k // g; m = m // g
        d = k // m; e = k - d * m
        # prefer a small absolute constant
        qoff = d; k = e
        if k > m // 2: k -= m; qoff += 1
        if m == 1:
            r = self.add(q, r)
            return self.add(r, self.const(qoff))
        if not r:
            return self.add(q, self.const(qoff + (k // m)))
        R0 = self.add(r, self.const(k))
        lo, hi = self.bounds(R0)
        if lo // m == hi // m:
            return self.add(q, self.const(qoff + lo // m))
        # flatten one nested floor with coefficient +-1
        fl = [mo for mo, c in r.items() if len(mo) == 1 and abs(c) == 1 and self.atoms[mo[0]][0] == 'f']
        if fl:
            mo = min(fl, key=lambda x: (self.atoms[x[0]][2], x))
            c = r.pop(mo)
            B = dict(self.atoms[mo[0]][1]); n = self.atoms[mo[0]][2]
            A = self.add(r, self.const(k))
            h = None
            P = self.scale(A, n)
            if c == 1: P = self.add(P, B)
            else: P = self.add(self.add(P, B, -1), self.const(n - 1))
            sub = self.floor(P, n * m)
            res = self.add(self.add(q, sub), self.const(qoff))
            if hint: self.note(res, hint)
            return res
        R = self.add(r, self.const(k))
        lo, hi = self.bounds(R)
        lo //= m; hi //= m
        if hint:
            base = self.add(q, self.const(qoff))
            if not base or set(base) == {()}:
                b = base.get((), 0)
                lo = max(lo, hint[0] - b); hi = min(hi, hint[1] - b)
        if lo == hi:
            return self.add(q, self.const(qoff + lo))
        a = self.atom(('f', self.key(R), m), lo, hi)
        if self.lo[a] == self.hi[a]:
            return self.add(q, self.const(qoff + self.lo[a]))
        res = self.add(self.add(q, {(a,): 1}), self.const(qoff))
        return res
    def note(self, p, b):
        """record the bound b=(lo,hi) of polynomial p"""
        k = p.get((), 0)
        ky, sg = self.pkey(p)
        if ky is None: return
        if sg > 0: lo, hi = b[0] - k, b[1] - k
        else: lo, hi = k - b[1], k - b[0]
        if len(ky) == 1 and len(ky[0][0]) == 1 and ky[0][1] == 1:
            a = ky[0][0][0]
            self.lo[a] = max(self.lo[a], lo); self.hi[a] = min(self.hi[a], hi)
            return
        o = self.pb.get(ky)
        if o is not None: lo = max(lo, o[0]); hi = min(hi, o[1])
        self.pb[ky] = (lo, hi)
    def red(self, p):
        """replace atoms that have become constant"""
        if not any(self.lo[a] == self.hi[a] for m in p for a in m): return p
        r = {}
        for m, k in p.items():
            mm = []
            for a in m:
                if self.lo[a] == self.hi[a]: k *= self.lo[a]
                else: mm.append(a)
            mm = tuple(mm)
            r[mm] = r.get(mm, 0) + k
        return {m: k for m, k in r.items() if k}
    # -------------------------------------------------- conversion
    def conv(self, root):
        order = [x for x in t.topo([root]) if x.id not in self.memo]
        for x in order:
            if x.op == 'extract':
                b = x.a[0]
                if b.w not in self.cuts: self.cuts[b.w] = set()
                self.cuts[b.w].add(x.v); self.cuts[b.w].add(x.v + x.w)
        for x in order:
            if True:
                self.memo[x.id] = self.conv1(x)
        return self.red(self.memo[root.id][0])
    def itv(self, x):
        return self.memo[x.id][1]
    def conv1(self, x):
        op = x.op; w = x.w
        G = lambda y: self.memo[y.id]
        full = (0, min(t.M(w), t.umax(x)))
        if op == 'const': return self.const(x.v), (x.v, x.v)
        if op == 'concat':
            p = {}; lo = hi = 0; sh = w
            for y in x.a:
                sh -= y.w
                yp, (a, b) = G(y)
                p = self.add(p, yp, 1 << sh)
                lo += a << sh; hi += b << sh
            return self.red(p), (lo, hi)
        if op == 'lin':
            p = {}; lo = hi = x.v[1]
            k = x.v[1]
            if k >> (w - 1): k -= 1 << w
            lo = hi = k
            p = self.const(k)
            for c, y in zip(x.v[0], x.a):
                if c >> (w - 1): c -= 1 << w
                yp, (a, b) = G(y)
                p = self.add(p, yp, c)
                if c > 0: lo += c * a; hi += c * b
                else: lo += c * b; hi += c * a
            return self.wrap(p, (lo, hi), w, full)
        if op == 'mul':
            (p, (a, b)), (q, (c, d)) = G(x.a[0]), G(x.a[1])
            return self.wrap(self.mul(p, q), (a * c, b * d), w, full)
        if op == 'extract':
            y = x.a[0]; lo_b = x.v; n = w
            p, (a, b) = G(y)
            f1 = self.floor(p, 1 << lo_b, (a >> lo_b, b >> lo_b)) if lo_b else p
            if lo_b: self.note(f1, (a >> lo_b, b >> lo_b))
            i1 = (a >> lo_b, b >> lo_b)
            top = lo_b + n
            if (a >> top) == (b >> top):
                v = a >> top
                r = self.add(f1, self.const(-(v << n)))
                return r, (i1[0] - (v << n), i1[1] - (v << n))
            f2 = self.floor(p, 1 << top, (a >> top, b >> top))
            self.note(f2, (a >> top, b >> top))
            return self.add(f1, f2, -(1 << n)), full
        if op in ('udiv', 'urem') and t.isc(x.a[1]) and x.a[1].v:
            p, (a, b) = G(x.a[0]); c = x.a[1].v
            f = self.floor(p, c, (a // c, b // c)); self.note(f, (a // c, b // c))
            if op == 'udiv': return f, (a // c, b // c)
            return self.add(p, f, -c), (0, min(c - 1, b))
        # everything else is an opaque bounded integer
        return self.opaque(x, full)
    def opaque(self, x, full):
        b = self.vb.get(x)
        lo, hi = full
        if b: lo, hi = max(lo, b[0]), min(hi, b[1])
        if lo == hi: return self.const(lo), (lo, lo)
        return {(self.atom(('t', x), lo, hi),): 1}, (lo, hi)
    def wrap(self, p, iv, w, full):
        lo, hi = iv
        p = self.red(p)
        a, b = self.bounds(p)
        lo = max(lo, a); hi = min(hi, b)
        self.note(p, (lo, hi))
        if lo >> w == hi >> w:
            v = lo >> w
            return self.add(p, self.const(-(v << w))), (lo - (v << w), hi - (v << w))
        for k in self.cuts.get(w, ()):
            if 0 < k < w:
                g = self.floor(p, 1 << k, (lo >> k, hi >> k))
                self.note(g, (lo >> k, hi >> k))
        if self.telescope:
            ks = [k for k in self.cuts.get(w, ()) if 0 < k < w and lo >= -(1 << k) and hi < (1 << k)]
            if ks:      # the sign alone: floor(p / 2^w) = floor(p / 2^k) for -2^k <= p < 2^k
                g = self.red(self.floor(p, 1 << min(ks), (-1, 0)))
                return self.add(p, g, -(1 << w)), full
        f = self.floor(p, 1 << w, (lo >> w, hi >> w))
        self.note(f, (lo >> w, hi >> w))
        f = self.red(f)
        return self.add(p, f, -(1 << w)), full

class Lia:
    """z3 linear integer arithmetic over the monomials of a Ctx"""
    def __init__(self, ctx, timeout=8000):
        self.c = ctx; self.vars = {}; self.s = z3.Solver(); self.s.set('timeout', timeout * SLOW[0])
        self.sub = {}; self.defined = set(); self.calls = 0; self.time = 0.0
    def block(self, p, lo, hi):
        """treat the polynomial p as one unknown with the given bounds (linear change of variables)"""
        p = self.norm(p)
        ms = [m for m, k in p.items() if m != () and abs(k) == 1]
        if not ms or len(p) < 2:
            self.add(self.poly(p) >= lo); self.add(self.poly(p) <= hi); return
        m = min(ms)
        key = ('b', self.c.key(p))
        i = self.c.atom(key, lo, hi)
        k = p[m]
        rest = {x: -c * k for x, c in p.items() if x != m}
        rest[(i,)] = k
        self.sub[m] = rest
    def norm(self, p):
        if not self.sub: return p
        for _ in range(50):
            hit = [m for m in p if m in self.sub]
            if not hit: return p
            p = dict(p)
            for m in hit:
                k = p.pop(m, 0)
                if k: p = self.c.add(p, self.sub[m], k)
        return p
    def define(self, a):
        """definition of floor atom a"""
        k = self.c.atoms[a]
        P = dict(k[1]); q = k[2]
        self.defined.add(a)
        for mo in P:
            for b in mo:
                if len(mo) == 1 and self.c.atoms[b][0] == 'f' and b not in self.defined: self.define(b)
        if self.sub:
            P = self.norm(P)
            Q = {}; R = {}
            for mo, c in P.items():
                d = c // q; e = c - d * q
                if e > q // 2: e -= q; d += 1
                if mo == (): d, e = 0, c
                if d: Q[mo] = d
                if e: R[mo] = e
            if Q and len(R) <= 12:
                i = len(self.c.atoms); self.c.atoms.append(('w', a)); self.c.lo.append(-(1 << 4096)); self.c.hi.append(1 << 4096)
                rest = dict(Q); rest = self.c.add(rest, {(i,): 1})
                self.sub[(a,)] = self.c.add({(i,): 1}, Q)
                w = self.mono((i,))
                self.s.add(q * w <= self.poly(R), self.poly(R) < q * w + q)
                v = self.poly({(a,): 1}); self.s.add(v >= self.c.lo[a], v <= self.c.hi[a]) if len(Q) < 8 else None
                return
        v = self.mono((a,))
        z = self.poly(P)
        self.s.add(q * v <= z, z < q * v + q)
    def poly(self, p):
        for mo in p:
            if len(mo) == 1 and self.c.atoms[mo[0]][0] == 'f' and mo[0] not in self.defined: self.define(mo[0])
        p = self.norm(p)
        r = []
        for m, k in p.items():
            r.append(k if m == () else k * self.mono(m))
        return z3.Sum(*r) if len(r) > 1 else (r[0] if r else z3.IntVal(0)) if not (len(r) == 1 and isinstance(r[0], int)) else z3.IntVal(r[0])
    def mono(self, m):
        v = self.vars.get(m)
        if v is None:
            v = z3.Int('m_' + '_'.join(map(str, m))); self.vars[m] = v
            lo, hi = self.c.mono_bounds(m)
            self.s.add(v >= lo, v <= hi)
            if len(m) == 1:
                a = m[0]
                if self.c.atoms[a][0] == 'f' and a not in self.defined: self.define(a)
        return v
    def add(self, f): self.s.add(f)
    def check(self, *extra):
        t0 = time.time(); self.calls += 1
        self.s.push()
        for e in extra: self.s.add(e)
        r = self.s.check()
        mod = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.time += time.time() - t0
        return r, mod

# ------------------------------------------------------------- case analysis
def bool_leaves(roots):
    """comparison atoms and boolean variables that steer ite/boolean structure"""
    r = []
    for x in t.topo(roots):
        if x.op in ('ult', 'eq', 'slt'): r.append(x)
        elif x.w == 1 and x.op in ('var', 'uf', 'extract'):
            r.append(x)
    return r

class Stats:
    def __init__(self): self.cases = 0; self.lia = 0; self.time = 0.0

def words_subst(roots, ww=32):
    """replace variables wider than ww bits by concatenations of word variables"""
    m = {}
    for x in t.topo(roots):
        if x.op in ('var',) and x.w > ww and x.w % ww == 0:
            m[x] = t.concat(*[t.var('%s.w%d' % (x.v, i), ww) for i in range(x.w // ww - 1, -1, -1)])
    return m

def subfix(terms, sub):
    """substitute until nothing changes (a replaced condition may only appear after another replacement)"""
    for _ in range(12):
        n = t.subst(terms, sub)
        if all(a is b for a, b in zip(n, terms)): break
        terms = n
    return n

class IntProver:
    """prove: hyps => goals (all width-1 terms) by case analysis + LIA"""
    def __init__(self, hyps, bounds=None, facts=None, timeout=8000, maxcases=400, deadline=None, opaque_uf=True):
        self.hyps = list(hyps); self.bounds = bounds or {}; self.stats = Stats()
        self.maxcases = maxcases; self.timeout = timeout; self.facts = facts or []
        self.fail = None; self.deadline = deadline
    def leaf_con(self, ctx, lia, x, val):
        """z3 constraint for comparison x having boolean value val"""
        if x.op == 'ult':
            a, b = ctx.conv(x.a[0]), ctx.conv(x.a[1])
            d = ctx.add(b, a, -1)
            return lia.poly(d) >= 1 if val else lia.poly(d) <= 0
        if x.op == 'eq':
            a, b = ctx.conv(x.a[0]), ctx.conv(x.a[1])
            d = ctx.add(b, a, -1)
            return lia.poly(d) == 0 if val else lia.poly(d) != 0
        if x.op == 'slt':
            def sg(y):
                p = ctx.conv(y)
                return p
            raise TooHard('slt')
        p = ctx.conv(x)
        return lia.poly(p) == (1 if val else 0)
    def prove(self, goals, semantic=None):
        """goals: list of boolean terms.  semantic(ctx, lia, subst) may add goals as z3 formulas."""
        return self._go(list(self.hyps), list(goals), [], semantic, {})
    def _go(self, hyps, goals, lits, semantic, sub):
        if self.deadline and time.time() > self.deadline: self.fail = 'deadline'; return False
        hyps = [h for h in hyps if not (t.isc(h) and h.v)]
        if any(t.isc(h) for h in hyps): return True
        extra = semantic.terms if semantic else []
        ex2 = subfix(extra, sub) if extra and sub else list(extra)
        leaves = self.pick(hyps + goals, None, ex2)
        if leaves is None:
            return self.final(hyps, goals, lits, semantic, sub)
        x = leaves
        self.stats.cases += 1
        if self.stats.cases > self.maxcases: self.fail = 'too many cases'; return False
        for val in (True, False):
            m = {x: t.boolc(val)}
            h2 = t.subst(hyps, m); g2 = t.subst(goals, m)
            l2 = [(t.subst([y], m)[0], v) for y, v in lits] + [(x, val)]
            s2 = {k: t.subst([v], m)[0] for k, v in sub.items()}
            s2[x] = t.boolc(val)
            if any(t.isc(h) and not h.v for h in h2): continue
            # feasibility
            if not self.feasible(h2, l2): continue
            if not self._go(h2, g2, l2, semantic, s2): return False
        return True
    def pick(self, roots, done, arith=()):
        """innermost undecided condition that steers arithmetic (an ite condition or a comparison used as a number)"""
        under = []
        seen = set(); st = list(roots)
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.w == 1 and x.op in ('and', 'xor'): st.extend(x.a)
            elif x.op in ('ult', 'eq', 'slt'): under.extend(x.a)
            elif x.w == 1 and x.op == 'ite': st.extend(x.a)
            else: under.extend(x.a if x.w == 1 else [x])
        under.extend(arith)
        need = None
        for x in t.topo(under):
            c = None
            if x.op == 'ite': c = x.a[0]
            elif x.w == 1 and x.op in ('and', 'xor', 'ult', 'eq', 'slt'): c = x
            if c is not None and not t.isc(c):
                need = c; break
        if need is None: return None
        # a boolean leaf of need
        while need.w == 1 and need.op in ('and', 'xor'):
            need = [y for y in need.a if not t.isc(y)][0]
        return need
    def mk(self, hyps, lits):
        ctx = Ctx(self.bounds)
        lia = Lia(ctx, self.timeout)
        for f in self.facts: f(ctx, lia)
        for x, v in lits:
            if t.isc(x): 
                if bool(x.v) != v: lia.add(z3.BoolVal(False))
                continue
            try: lia.add(self.leaf_con(ctx, lia, x, v))
            except TooHard: pass
        for h in hyps:
            if t.isc(h): continue
            try:
                c = self.form(ctx, lia, h)
                lia.add(c)
            except TooHard: pass
        return ctx, lia
    def form(self, ctx, lia, x):
        """boolean term -> z3 formula"""
        if t.isc(x): return z3.BoolVal(bool(x.v))
        if x.op in ('ult', 'eq'): return self.leaf_con(ctx, lia, x, True)
        if x.op == 'and' and x.w == 1: return z3.And(*[self.form(ctx, lia, y) for y in x.a])
        if x.op == 'xor' and x.w == 1:
            r = self.form(ctx, lia, x.a[0])
            for y in x.a[1:]: r = z3.Xor(r, self.form(ctx, lia, y))
            return r
        if x.w == 1:
            return lia.poly(ctx.conv(x)) == 1
        raise TooHard('form')
    def feasible(self, hyps, lits):
        try: ctx, lia = self.mk(hyps, lits)
        except TooHard: return True
        self.stats.lia += 1
        r, _ = lia.check()
        self.stats.time += lia.time
        return r != z3.unsat
    def final(self, hyps, goals, lits, semantic, sub):
        try:
            ctx, lia = self.mk(hyps, lits)
            fs = []
            for g in goals:
                if t.isc(g):
                    if g.v: continue
                    fs.append(('goal', z3.BoolVal(False))); continue
                fs.append((t.show(g, 4), self.form(ctx, lia, g)))
            if semantic: fs += semantic(ctx, lia, sub)
        except TooHard as e:
            self.fail = 'too hard: %s' % e; return False
        for nm, f in fs:
            self.stats.lia += 1
            r, m = lia.check(z3.Not(f))
            if r != z3.unsat:
                self.fail = '%s: %s (%s)' % (nm, r, [(t.show(x, 3), v) for x, v in lits][:8])
                self.stats.time += lia.time
                self.ctx = ctx; self.model = m
                return False
        self.stats.time += lia.time
        return True
