"""Prover portfolio: decides obligations (path condition => condition)."""
import time, z3
from dv import terms as t, ints
from dv.symex import SLOW, simplify_cond, decide_facts, State, z3_check, term_size, _z3memo

P256 = 2**256 - 2**32 - 0x3d1
N256 = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141

class Result:
    __slots__ = ('ok', 'by', 'info', 'model', 'time')
    def __init__(self, ok, by, info=None, model=None): self.ok = ok; self.by = by; self.info = info; self.model = model; self.time = 0

# uninterpreted symbols with an integer meaning: name -> (modulus, poly builder on Ctx polynomials)
SEM = {
    'fadd': (P256, lambda c, a, b: c.add(a, b)),
    'fsub': (P256, lambda c, a, b: c.add(a, b, -1)),
    'fmul': (P256, lambda c, a, b: c.mul(a, b)),
    'nadd': (N256, lambda c, a, b: c.add(a, b)),
    'nmul': (N256, lambda c, a, b: c.mul(a, b)),
}
RANGE = {k: v[0] for k, v in SEM.items()}
RANGE.update({'finv': P256, 'ninv': N256})
def uf_ranges(roots):
    """range facts of the named symbols occurring in roots"""
    r = []
    for x in t.topo(roots):
        if x.op == 'uf' and x.w == 256 and x.v in RANGE: r.append(t.ult(x, t.const(RANGE[x.v], 256)))
        elif x.op == 'extract' and x.w == 256 and x.a[0].op == 'uf' and x.a[0].v in ('ptadd', 'ptdbl', 'ptmul', 'ptnorm'): r.append(t.ult(x, t.const(P256, 256)))
    return r


class ModGoal:
    """impl < m and impl == spec polynomial (mod m) where spec = uf from SEM"""
    def __init__(self, impl, spec):
        self.terms = [impl] + list(spec.a)
        self.m, self.f = SEM[spec.v]
    def __call__(self, ctx, lia, sub):
        ts = ints.subfix(self.terms, sub) if sub else self.terms
        polys = [ctx.conv(x) for x in ts]
        return mod_goal(ctx, lia, polys[0], self.f(ctx, *polys[1:]), self.m)

def leftover(ctx, d, m):
    return [mo for mo, k in d.items() if k % m and len(mo) == 1 and ctx.atoms[mo[0]][0] in 'fw']

def congruent(ctx, lia, d, m, assume=(), depth=0):
    """d == 0 (mod m) in every case allowed by lia and `assume`; floor atoms whose value the
    context determines are replaced, atoms of small range are split on"""
    lia.poly(d)
    d = dict(lia.norm(d))
    # the residual form may only take values divisible by m
    L = {mo: (k % m if k % m <= m // 2 else k % m - m) for mo, k in d.items() if k % m}
    if not L: return True
    if len(L) <= 6:
        z = lia.poly(L); ex = list(assume)
        for _ in range(4):
            r, mod = lia.check(*ex)
            if r == z3.unsat: return True
            if r != z3.sat: break
            v = mod.eval(z, model_completion=True).as_long()
            if v % m: break
            ex.append(z != v)
    for _ in range(6):
        if all(k % m == 0 for k in d.values()): return True
        left = leftover(ctx, d, m)
        if not left: return False
        for mo in left: lia.poly({mo: 1})
        r, mod = lia.check(*assume)
        if r == z3.unsat: return True
        if r != z3.sat: break
        ch = False
        for mo in left:
            v = mod.eval(lia.poly({mo: 1}), model_completion=True).as_long()
            r2, _ = lia.check(lia.poly({mo: 1}) != v, *assume)
            if r2 == z3.unsat:
                k = d.pop(mo); d = ctx.add(d, ctx.const(k * v)); ch = True
        if not ch: break
    if depth >= 4: return False
    left = [mo for mo in leftover(ctx, d, m) if ctx.hi[mo[0]] - ctx.lo[mo[0]] <= 3]
    if not left: return False
    mo = min(left, key=lambda x: ctx.hi[x[0]] - ctx.lo[x[0]])
    for v in range(ctx.lo[mo[0]], ctx.hi[mo[0]] + 1):
        e = dict(d); k = e.pop(mo); e = ctx.add(e, ctx.const(k * v))
        if not congruent(ctx, lia, e, m, tuple(assume) + (lia.poly({mo: 1}) == v,), depth + 1): return False
    return True

def mod_goal(ctx, lia, impl, spec, m):
    goals = [('range', z3.And(lia.poly(impl) >= 0, lia.poly(impl) <= m - 1))]
    goals.append(('congruence', z3.BoolVal(congruent(ctx, lia, ctx.add(impl, spec, -1), m))))
    return goals

def product_facts(ms):
    """bound products of reduced operands: for monomials built from word variables of x and y"""
    return []

def generalize(roots):
    """replace concatenations of pieces of uninterpreted values by arbitrary values (proving more)"""
    mp = {}
    for x in t.topo(roots):
        if x.op == 'concat' and x.w >= 64 and all(y.op == 'extract' and y.a[0].op == 'uf' for y in x.a):
            mp[x] = t.var('gen!%d' % x.id, x.w)
    if not mp: return None
    # outermost first: a concat may be part of another concat's flattening only, so order is irrelevant
    return t.subst(roots, mp)

def shared_cut(c):
    """replace every shared slice met first from the root of c by an arbitrary value: a carry chain
    remains over words that are used more than once"""
    order = t.topo([c]); n = {}
    wrap = lambda x: x.op == 'concat' and len(x.a) == 2 and t.isc(x.a[0]) and x.a[0].v == 0
    for x in order:
        if wrap(x): continue
        for y in x.a:
            while wrap(y): y = y.a[1]
            n[y] = n.get(y, 0) + 1
    mp = {x: t.var('cut!%d' % x.id, x.w) for x in order if x.op in ('extract', 'lin') and x.w == 32 and n.get(x, 0) > 1}
    if not mp: return None
    g = t.subst([c], mp)[0]
    return g if any(v.v.startswith('cut!') for v in t.topo([g]) if v.op == 'var') else None

def ckey(c):
    """equations up to the order of their sides and of commutative operands"""
    if c.op != 'eq': return c
    return frozenset((y.v, frozenset(y.a)) if y.op == 'uf' and y.v in ('fadd', 'fmul', 'nadd', 'nmul') else y for y in c.a)

class Prover:
    def __init__(self, deadline=None):
        self.deadline = deadline
        self.by = {}
        self.solver_time = 0.0
        self.domain = []         # extra provers: f(pc, cond) -> Result or None
        self.bv_first = True; self.retries = 2
        self.bv_timeout = 4000
        self.products = []       # (x, y, m): x, y < m known; bound their product
        self.cache = {}
        self.wws = [32]
        self.proved = []         # (pc, cond) discharged so far
        self.inst = {}           # instances of obligations proved earlier
    def instances(self, proved, mapping):
        """obligations proved for arbitrary operands hold for the given choice of operands"""
        for pc, cond in proved:
            q = t.subst(list(pc) + [cond], mapping)
            self.inst.setdefault(ckey(q[-1]), []).append(set(h for h in q[:-1] if not t.isc(h) or not h.v))
    def prove(self, pc, cond, int_ok=True, bv_ok=True):
        key = (tuple(pc), cond)
        if key in self.cache: return self.cache[key]
        t0 = time.time(); r = None
        if self.inst and ckey(cond) in self.inst:
            h = set(pc)
            if any(q <= h for q in self.inst[ckey(cond)]): r = Result(True, 'instance of a proved obligation')
        if r is None: r = self._prove(pc, cond, int_ok, bv_ok)
        if not r.ok and r.by != 'z3' and r.by != 'final' and self.retries > 0 and t0 + 1.5 < time.time() and (not self.deadline or time.time() < self.deadline - 20):
            # a solver gave up: once more with longer limits before this counts as a failed obligation
            self.retries -= 1; SLOW[0] = 6
            for k in [k for k, v in self.cache.items() if k[0] == 'cong' and not v]: del self.cache[k]
            try: r = self._prove(pc, cond, int_ok, bv_ok)
            finally: SLOW[0] = 1
        r.time = time.time() - t0
        if r.ok and r.by != 'simplification': self.proved.append((tuple(pc), cond))
        self.solver_time += r.time
        if r.ok: self.by[r.by] = self.by.get(r.by, 0) + 1
        self.cache[key] = r
        return r
    def congruent(self, pc, x, y, m, leaves=()):
        """x = y (mod m) for all values allowed by pc (y: a named symbol or a plain term);
        the leaves are generalised to arbitrary values in their ranges"""
        hy = list(pc)
        hy += [f for f in uf_ranges([x, y]) if f not in hy]
        if leaves:
            mp = {l: t.var('leaf!%d' % i, l.w) for i, l in enumerate(leaves)}
            new = set(mp.values())
            q = t.subst(hy + [x, y], mp); x, y = q[-2:]
            hy = [h for h in q[:-2] if not t.isc(h) and all(v in new for v in t.topo([h]) if v.op in ('var', 'uf'))]
        hy = [h for h in hy if term_size([h], 60) <= 60]
        key = ('cong', tuple(hy), x, y, m)
        if key in self.cache: return self.cache[key]
        class Q:
            def __init__(q): q.terms = [x] + (list(y.a) if y.op == 'uf' and y.v in SEM else [y])
            def __call__(q, ctx, lia, sub):
                p = [ctx.conv(z) for z in (ints.subfix(q.terms, sub) if sub else q.terms)]
                s = SEM[y.v][1](ctx, *p[1:]) if y.op == 'uf' and y.v in SEM else p[1]
                return [('congruence', z3.BoolVal(congruent(ctx, lia, ctx.add(p[0], s, -1), m)))]
        pr = ints.IntProver(hy, deadline=self.deadline)
        try: ok = pr.prove([], Q())
        except ints.TooHard: ok = False
        self.cache[key] = ok
        return ok
    def _prove(self, pc, cond, int_ok, bv_ok):
        if t.isc(cond):
            if cond.v: return Result(True, 'simplification')
            # must show the path infeasible
        st = State()
        for c in pc: st.assume(c)
        c2 = simplify_cond(cond, st.facts)
        if t.isc(c2) and c2.v: return Result(True, 'simplification')
        # substitute decided literals into the condition
        m = {k: t.boolc(v) for k, v in st.facts.items() if k.op in ('ult', 'eq', 'slt', 'uf', 'var', 'extract', 'and')}
        if m:
            c3 = t.subst([c2], m)[0]
            if t.isc(c3) and c3.v: return Result(True, 'simplification')
            c2 = c3 if not t.isc(c3) else c2
        if c2.op == 'and' and c2.w == 1 and len(c2.a) <= 64:
            last = None
            for x in c2.a:
                r = self._prove(pc, x, int_ok, bv_ok)
                if not r.ok: return r
                last = r
            return last
        info = []
        for d in self.domain:
            r = d(self, pc, c2)
            if r is not None:
                if r.ok: return r
                info.append(r.info)
                if r.by == 'final': return r
        if c2.op == 'eq' and not t.isc(c2):
            r = self.congruence(pc, c2, int_ok, bv_ok)
            if r is not None: return r
        if int_ok and c2.op in ('eq', 'xor', 'ult') and term_size([c2], 120) >= 120:
            g = shared_cut(c2)
            if g is not None and term_size([g], 400) < 400:
                if t.isc(g):
                    if g.v: return Result(True, 'simplification')
                else:
                    dl = self.deadline; self.deadline = min(dl or 1e18, time.time() + 4)
                    try:
                        r = self.int_prove1([], g)
                        if r.ok: return r
                    except ints.TooHard: pass
                    finally: self.deadline = dl
        g = generalize(list(pc) + [c2])
        if g is not None:
            known = set(v for v in t.topo(g) if v.op == 'var' and v.v.startswith('gen!'))
            hy = [h for h in g[:-1] if term_size([h], 200) < 200 and not any(v.op == 'uf' for v in t.topo([h]))]
            if g[-1].op != 'uf' and not any(v.op == 'uf' for v in t.topo([g[-1]])):
                r, _ = z3_check(hy + [t.not_(g[-1])], self.bv_timeout, 6000)
                if r == 'unsat': return Result(True, 'z3 bit-vectors')
                if int_ok:
                    try:
                        r = self.int_prove(hy, g[-1])
                        if r.ok: return r
                    except ints.TooHard: pass
        pc = list(pc)
        for f in uf_ranges([c2] + pc):
            if f not in pc and not t.isc(f): pc.append(f)
        ops = set(); sz = 0
        for x in t.topo([c2] + list(pc)):
            ops.add('widemul' if x.op == 'mul' and x.w > 32 or x.op in ('udiv', 'urem') and x.w > 64 else x.op); sz += 1
        model = None
        if bv_ok and 'widemul' not in ops and sz < 6000 and not ('mul' in ops and sz > 60):
            r, mod = z3_check(list(pc) + [t.not_(c2)], self.bv_timeout if int_ok else 3 * self.bv_timeout, 6000)
            if r == 'unsat': return Result(True, 'z3 bit-vectors')
            if r == 'sat':
                model = mod; info.append('z3 bit-vectors: sat')
                if not any(x.op == 'uf' for x in t.topo([c2] + list(pc))):
                    return Result(False, 'z3', 'refuted by z3 (bit-vectors)', model)
            else: info.append('z3 bit-vectors: unknown')
        if int_ok:
            try:
                r = self.int_prove(pc, c2)
                if r.ok: return r
                info.append(r.info)
            except ints.TooHard as e: info.append('integer arithmetic: %s' % e)
        return Result(False, 'undischarged', '; '.join(str(x) for x in info)[:1500], model)
    def congruence(self, pc, c, int_ok, bv_ok):
        """f(x..) = f(y..) from x = y, componentwise"""
        a, b = c.a
        if a.op == b.op == 'extract' and a.v == b.v: a, b = a.a[0], b.a[0]
        if not (a.op == b.op == 'uf' and a.v == b.v and len(a.a) == len(b.a)): return None
        last = Result(True, 'simplification')
        for x, y in zip(a.a, b.a):
            if x is y: continue
            if x.w != y.w: return None
            r = self._prove(pc, t.eq(x, y), int_ok, bv_ok)
            if not r.ok: return None
            last = r
        return last
    def int_prove(self, pc, c):
        small = [h for h in pc if term_size([h], 40) <= 40]
        if len(small) < len(pc):
            r = self.int_prove1(small, c)
            if r.ok: return r
        return self.int_prove1(pc, c)
    def int_prove1(self, pc, c):
        r = None
        for ww in self.wws:
            r = self.int_prove2(pc, c, ww)
            if r.ok: return r
        return r
    def int_prove2(self, pc, c, ww):
        roots = list(pc) + [c]
        sub = ints.words_subst(roots, ww)
        roots = t.subst(roots, sub) if sub else roots
        hyps = roots[:-1]; g = roots[-1]
        facts = [prod_bound(*(t.subst([x, y], sub) if sub else [x, y]), m) for x, y, m in self.products]
        sem = None
        if g.op == 'eq':
            a, b = g.a
            for x, y in ((a, b), (b, a)):
                if x.op == 'uf' and x.v in SEM and y.op != 'uf':
                    sem = ModGoal(y, x)
                    if x.v in ('fmul', 'nmul') and not self.products: facts.append(prod_bound(x.a[0], x.a[1], SEM[x.v][0]))
                    break
        pr = ints.IntProver(hyps, facts=facts, deadline=self.deadline)
        ok = pr.prove([] if sem else [g], sem)
        return Result(ok, 'integer arithmetic (z3 LIA)', pr.fail)

def prod_bound(x, y, m):
    def f(ctx, lia):
        p = ctx.mul(ctx.conv(x), ctx.conv(y))
        lia.block(p, 0, (m - 1) ** 2)
    return f
