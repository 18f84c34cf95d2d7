"""Loop invariants, checked at every visit of a loop head ("cuts").

At a visit the invariant is proved for the current values (an obligation), then
the loop's variables are replaced by fresh ones about which only the invariant
is known.  Every other cell or register that depends on replaced variables is
havocked.  Because the fresh variables have the same names at each visit, the
obligations of all later visits are literally the same terms and are proved once."""
import z3
from fractions import Fraction
from dv import terms as t, ints
from dv.symex import *
from dv.spec import discharge

def deps(x, memo):
    """does term x mention a cut variable"""
    r = memo.get(x)
    if r is None:
        r = any(y.op == 'var' and isinstance(y.v, str) and y.v.startswith('cut!') for y in t.topo([x]))
        memo[x] = r
    return r

class CutFailed(Unsupported): pass

class Cutter:
    def __init__(self, task, prover, name):
        self.task = task; self.prover = prover; self.name = name
        self.visits = 0; self.cache = {}; self.base_pc = None; self.head = None
    def havoc(self, ex, st, keep):
        """replace every value depending on cut variables, except the role cells, by arbitrary ones"""
        memo = {}
        for k in list(st.mem):
            o = st.mem[k]
            bad = [s for s in o.starts if isinstance(o.cells[s][0], t.T) and (k, s) not in keep and deps(o.cells[s][0], memo)]
            if bad:
                w = st.wobj(k)
                for s in bad:
                    n = w.cells[s][1]; w.put(s, n, t.var('cut!junk!%s+%d' % (k, s), 8 * n))
        for k, v in list(st.env.items()):
            if isinstance(v, t.T) and deps(v, memo): st.env[k] = t.var('cut!env!%s' % (k,), v.w)
            elif isinstance(v, Ptr) and deps(v.off, memo): st.env[k] = Ptr(v.obj, t.var('cut!env!%s' % (k,), 64))
        pc = [c for c in st.pc if not deps(c, memo)]
        st.pc = (); st.facts = {}
        for c in pc: st.assume(c)
    def obligation(self, what, pc, c):
        """prove pc => c, memoised"""
        key = (tuple(pc), c)
        r = self.cache.get(key)
        if r is None:
            r = self.prover.prove(pc, c)
            self.cache[key] = r
        if r.ok: self.task.count(r.by)
        else: self.task.fail(self.name, what, r.info or r.by, None); 
        return r.ok

    def flush(self, ex, sub=None):
        """discharge the obligations generated since the previous visit (sub: generalisation of the iteration's own terms)"""
        for o in ex.obs:
            roots = list(o.pc) + [o.cond]
            if sub: roots = t.subst(roots, sub)
            self.obligation('%s @ %s' % (o.kind, o.loc), roots[:-1], roots[-1])
        ex.obs = []

def cell(st, role, n=32):
    return st.mem[role[0]].get(role[1], n)
def setcell(st, role, v):
    st.wobj(role[0]).put(role[1], v.w // 8, v)

def regions(st, n=32):
    """all (object, offset) with a complete writable n-byte region made of aligned cells"""
    r = []
    for k, o in st.mem.items():
        if o.ro or k.startswith('@'): continue
        if not isinstance(o.size, int): continue
        for s in o.starts:
            if s % 4 or s + n > o.size: continue
            ok = True; pos = s
            while pos < s + n:
                c = o.cells.get(pos)
                if c is None or isinstance(c[0], Ptr): ok = False; break
                pos += c[1]
            if ok and pos == s + n: r.append((k, s))
    return r

# ------------------------------------------------------------------ polynomial case analysis
class PolyCases:
    """IntProver 'semantic': evaluates a check on the integer polynomials of `terms` in every feasible case"""
    def __init__(self, terms, check):
        self.terms = terms; self.check = check
    def __call__(self, ctx, lia, sub):
        ts = ints.subfix(self.terms, sub) if sub else self.terms
        polys = [ctx.conv(x) for x in ts]
        eqs = []
        for x, v in getattr(self, 'lits', ()):
            if t.isc(x) or x.op in ('ult', 'slt', 'eq'): continue
            try: eqs.append(ctx.add(ctx.conv(x), ctx.const(1 if v else 0), -1))
            except ints.TooHard: pass
        ok = self.go(ctx, lia, polys, eqs, (), 0)
        return [('polynomial identities', z3.BoolVal(ok))]
    def go(self, ctx, lia, polys, eqs, assume, depth):
        fl = set()
        for p in polys + eqs:
            for mo in p:
                for a in mo:
                    if ctx.atoms[a][0] == 'f' and ctx.hi[a] - ctx.lo[a] <= 3: fl.add(a)
        for a in sorted(fl):
            lia.poly({(a,): 1})
        r, mod = lia.check(*assume)
        if r == z3.unsat: return True
        if r != z3.sat: return False
        val = {}
        for a in sorted(fl):
            x = lia.poly({(a,): 1})
            v = mod.eval(x, model_completion=True)
            if v is None: continue
            v = v.as_long()
            r2, _ = lia.check(x != v, *assume)
            if r2 == z3.unsat: val[a] = v
        if len(val) < len(fl):
            a = min(x for x in fl if x not in val)
            if depth > 6: return False
            x = lia.poly({(a,): 1})
            return all(self.go(ctx, lia, polys, eqs, assume + (x == v,), depth + 1) for v in range(ctx.lo[a], ctx.hi[a] + 1))
        f = lambda p: psub(ctx, p, {a: ctx.const(v) for a, v in val.items()})
        polys = [f(p) for p in polys]; eqs = [f(p) for p in eqs]
        # eliminate atoms by the linear equalities of this case
        elim = {}
        for e in eqs:
            e = psub(ctx, e, elim)
            c = [mo for mo, k in e.items() if len(mo) == 1 and abs(k) == 1]
            if not c: continue
            # prefer plain variables over floor atoms
            mo = min(c, key=lambda m: (ctx.atoms[m[0]][0] == 'f', m))
            k = e[mo]; rest = {m: -v * k for m, v in e.items() if m != mo}
            elim = {a: psub(ctx, p, {mo[0]: rest}) for a, p in elim.items()}
            elim[mo[0]] = rest
        self.last = [psub(ctx, p, elim) for p in polys]
        return bool(self.check(ctx, self.last, lambda p: psub(ctx, psub(ctx, p, {a: ctx.const(v) for a, v in val.items()}), elim), lia, assume))

def psub(ctx, p, m):
    if not m or not any(a in m for mo in p for a in mo): return p
    r = {}
    for mo, k in p.items():
        q = {(): k}
        for a in mo:
            q = ctx.mul(q, m[a] if a in m else {(a,): 1})
        r = ctx.add(r, q)
    return r

def poly_prove(pc, terms, check, deadline=None, maxcases=400):
    sem = PolyCases(terms, check)
    pr = ints.IntProver(pc, deadline=deadline, maxcases=maxcases)
    orig = pr.final
    def final(hyps, goals, lits, semantic, sub):
        sem.lits = list(lits) + [(h, True) for h in hyps]
        return orig(hyps, goals, lits, semantic, sub)
    pr.final = final
    ok = pr.prove([], sem)
    return ok, pr.fail

# ------------------------------------------------------------------ modular inverse
def uinv(x, m): return t.uf('uinv', 256, x, m)

class InverseCut(Cutter):
    """binary extended GCD.  Roles x, y, a, b; invariant (v value, m odd modulus, v != 0):
    x odd, a < m, b < m, x = a v (mod m), y = b v (mod m),
    every odd common divisor of x and y divides m and v,  x y < 2^E, (after the first step) y even."""
    def __init__(self, task, prover, name, v, m):
        Cutter.__init__(self, task, prover, name); self.v = v; self.m = m
        self.roles = None; self.E = 512; self.even = False; self.done = False; self.stuck = False
    def __call__(self, ex, f, label, st):
        if self.stuck: return
        if self.roles is None:
            want = {'x': self.m, 'y': self.v, 'a': t.const(0, 256), 'b': t.const(1, 256)}
            got = {k: [] for k in want}
            for rg in regions(st):
                o = st.mem[rg[0]]
                if rg in self.exclude: continue
                c = o.get(rg[1], 32)
                for k, v in want.items():
                    if c is v: got[k].append(rg)
            if any(not v for v in got.values()): return
            self.cands = got
            self.roles = self.pick or {k: v[-1] for k, v in got.items()}    # most recently created
            if any(self.roles[k] not in got[k] for k in want): self.roles = None; return
            self.head = (f.name, label); self.base = list(st.pc)
            self.start(st); return
        if (f.name, label) != self.head: return
        if self.done: return
        self.flush(ex)
        self.step(ex, st)
    exclude = (); pick = None; cands = None
    def names(self):
        self.X = t.concat(t.var('cut!xh', 255), t.const(1, 1))
        self.Y = t.concat(t.var('cut!yh', 255), t.const(0, 1)) if self.even else t.var('cut!y', 256)
        self.A = t.var('cut!a', 256); self.B = t.var('cut!b', 256)
    def fresh(self, ex, st):
        r = self.roles; self.names()
        keep = {r[k] for k in r}
        for k, v in (('x', self.X), ('y', self.Y), ('a', self.A), ('b', self.B)): setcell(st, r[k], v)
        self.havoc(ex, st, keep)
        for c in self.facts(): st.assume(c)
    def facts(self):
        return [t.ult(self.A, self.m), t.ult(self.B, self.m)]
    def start(self, st):
        # m, v, 0, 1: m = 0 v + 1 m ; v = 1 v + 0 m; common divisors of (m, v) divide m and v; m v < 2^512; m is odd by precondition
        ok = True
        for c in (t.eq(t.extract(self.m, 0, 0), t.const(1, 1)), t.ult(self.v, self.m), t.ult(t.const(1, 256), self.m)):
            ok = self.obligation('loop invariant established', list(st.pc), c) and ok
        if not ok: self.stuck = True; raise CutFailed('loop invariant not established')
        self.fresh(None, st)
    def step(self, ex, st):
        self.visits += 1
        r = self.roles
        x, y, a, b = (cell(st, r[k]) for k in 'xyab')
        X, Y, A, B = self.X, self.Y, self.A, self.B
        pc = list(st.pc)
        key = ('step', x, y, a, b, tuple(pc), X, Y)
        res = self.cache.get(key)
        if res is None:
            fails = []
            def ob(what, c):
                rr = self.prover.prove(pc, c)
                if rr.ok: self.task.count(rr.by)
                else: fails.append((what, rr.info))
            ob('loop invariant: x stays odd', t.eq(t.extract(x, 0, 0), t.const(1, 1)))
            ob('loop invariant: y is even', t.eq(t.extract(y, 0, 0), t.const(0, 1)))
            ob('loop invariant: a < modulus', t.ult(a, self.m))
            ob('loop invariant: b < modulus', t.ult(b, self.m))
            def chk(ctx, ps, red, lia, assume):
                nx, ny, na, nb, ox, oy, oa, ob_, v, m = ps
                matom = [k for k in m if len(k) == 1]
                M = ctx.add
                OX = M(ox, ctx.mul(oa, v), -1); OY = M(oy, ctx.mul(ob_, v), -1)
                # modulus as k atom + rest with k a power of two: equality modulo m (odd) is equality at atom = -rest / k
                mm = None
                for mo, k in m.items():
                    if len(mo) == 1 and abs(k) & (abs(k) - 1) == 0 and not any(mo[0] in q for q in m if q != mo):
                        mm = mo[0]; at0 = {q: Fraction(-kk, k) for q, kk in m.items() if q != mo}; break
                def ideal(P):
                    for c in (1, 2, 4):
                        for al in (0, 1, -1, 2, -2, 4, -4):
                            for be in (0, 1, -1, 2, -2, 4, -4):
                                Q = M(M(ctx.scale(P, c), OX, -al), OY, -be)
                                if not any(psub(ctx, Q, {mm: at0}).values()): return True
                    return False
                if mm is None or not ideal(M(nx, ctx.mul(na, v), -1)) or not ideal(M(ny, ctx.mul(nb, v), -1)): self.why = 'congruence'; return False
                def comb(P):
                    return any(not M(M(P, nx, -al), ny, -be) for al in (0, 1, -1, 2, -2) for be in (0, 1, -1, 2, -2))
                if not comb(ox) or not comb(oy): self.why = 'common divisors'; return False
                d = M(ctx.mul(ox, oy), ctx.scale(ctx.mul(nx, ny), 2 if self.even else 1), -1)
                if any(k < 0 for k in d.values()) or any(ctx.lo[q] < 0 for mo in d for q in mo):
                    self.why = 'product does not shrink'; return False
                return True
            self.why = ''
            ok, info = poly_prove([c for c in pc if term_size([c], 60) <= 60], [x, y, a, b, X, Y, A, B, self.v, self.m], chk, self.prover.deadline)
            if ok: self.task.count('polynomial arithmetic over the integers', 3)
            else: fails.append(('loop invariant: congruences, divisors and measure', '%s %s' % (self.why, info)))
            res = fails; self.cache[key] = res
        else: self.task.count('loop invariant step (memoised)', 5)
        if res:
            for w, i in res: self.task.fail(self.name, w, i)
            self.stuck = True; raise CutFailed('loop invariant not maintained')
        if self.even: self.E -= 1
        self.even = True
        self.fresh(ex, st)
        if self.E <= 1:
            # x y < 2 and y even: y = 0; then x divides m and v, which are coprime: x = 1 = a v (mod m)
            self.done = True
            setcell(st, r['x'], t.const(1, 256)); setcell(st, r['y'], t.const(0, 256)); setcell(st, r['a'], uinv(self.v, self.m))
            st.assume(t.ult(uinv(self.v, self.m), self.m))
            self.task.notes.append('%s: modular inverse established after %d iterations' % (self.name, self.visits))

def try_roles(task, run):
    """run(task, pick) -> cutter; which memory cells play the roles of the loop invariant is found by trial:
    the invariant is proved for the choice made, so a wrong choice can only fail"""
    from itertools import product, islice
    from dv.spec import Task
    def one(pick):
        tk = Task(task.name); return tk, run(tk, pick)
    tk, c = first = one(None)
    if c is not None and c.stuck and c.cands:
        ks = sorted(c.cands)
        combos = product(*[c.cands[k][::-1] for k in ks])
        for q in islice(combos, 1, 40):
            if len(set(q)) < len(q): continue
            tk, c = one(dict(zip(ks, q)))
            if c is None or not c.stuck: break
        else: tk = first[0]
    task.total += tk.total; task.ok += tk.ok; task.failed += tk.failed; task.unsupported += tk.unsupported
    for k, v in tk.by.items(): task.by[k] = task.by.get(k, 0) + v
    task.functions.update(tk.functions); task.assumed |= tk.assumed; task.notes += tk.notes; task.covers += tk.covers; task.time += tk.time

# ------------------------------------------------------------------ product modulo the order
class MulModCut(Cutter):
    """z = 2 z + bit x (mod n) over the bits of y from the top; invariant z < n, z = x * (y >> remaining)"""
    def __init__(self, task, prover, name, x, y, n, result):
        Cutter.__init__(self, task, prover, name); self.x = x; self.y = y; self.n = n; self.result = result
        self.role = None; self.bit = 255; self.stuck = False; self.exclude = ()
    def __call__(self, ex, f, label, st):
        if self.stuck: return
        if self.role is None:
            z = t.const(0, 256)
            c = [r for r in regions(st) if r not in self.exclude and cell(st, r) is z]
            if not c: return
            self.role = c[-1]; self.head = (f.name, label)
        elif (f.name, label) != self.head: return
        else:
            if self.bit < 0: return
            z = cell(st, self.role); yb = t.extract(self.y, self.bit, self.bit); b = t.var('ybit', 1)
            self.flush(ex, {yb: b})
            old = self.Z
            rest = {}
            z2 = t.subst([z], {yb: b})[0]
            pc = [t.subst([c], {yb: b})[0] for c in st.pc if term_size([c], 60) <= 60]
            key = (z2, tuple(pc))
            res = self.cache.get(key)
            if res is None:
                def sem(ctx, lia, sub):
                    ts = t.subst([z2, old, self.x, b], sub)
                    p = [ctx.conv(q) for q in ts]
                    spec = ctx.add(ctx.scale(p[1], 2), ctx.mul(p[3], p[2]))
                    from dv.prove import mod_goal
                    return mod_goal(ctx, lia, p[0], spec, self.n)
                class S: terms = [z2, old, self.x, b]
                s = S(); s.__class__.__call__ = lambda _s, ctx, lia, sub: sem(ctx, lia, sub)
                # split on the bit first
                ok = True; info = None
                for v in (0, 1):
                    m = {b: t.const(v, 1)}
                    hy = t.subst(pc, m) if pc else []
                    zz = t.subst([z2], m)[0]
                    def mk(v=v, zz=zz):
                        class Q: terms = [zz, old, self.x]
                        def call(_s, ctx, lia, sub):
                            from dv.prove import mod_goal
                            p = [ctx.conv(q) for q in (ints.subfix([zz, old, self.x], sub) if sub else [zz, old, self.x])]
                            spec = ctx.scale(p[1], 2)
                            if v: spec = ctx.add(spec, p[2])
                            return mod_goal(ctx, lia, p[0], spec, self.n)
                        Q.__call__ = call
                        return Q()
                    pr = ints.IntProver(hy, deadline=self.prover.deadline)
                    if not pr.prove([], mk()): ok = False; info = pr.fail
                res = (ok, info); self.cache[key] = res
                if ok: self.task.count('integer arithmetic (z3 LIA)', 2)
            else: self.task.count('loop invariant step (memoised)', 2)
            if not res[0]:
                self.task.fail(self.name, 'loop invariant: z = 2 z + bit x (mod n), z < n at bit %d' % self.bit, res[1]); self.stuck = True; return
            self.bit -= 1
        self.Z = t.var('cut!z', 256)
        setcell(st, self.role, self.Z); self.havoc(ex, st, {self.role})
        st.assume(t.ult(self.Z, t.const(self.n, 256)))
        if self.bit < 0: setcell(st, self.role, self.result)
