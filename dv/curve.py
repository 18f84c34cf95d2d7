"""Curve-level reasoning: polynomials over F_p with case analysis (group law), and
the Z-module of points (scalar multiplication).  secp256k1: y^2 = x^3 + 7."""
from dv import terms as t
from dv.prove import P256, N256, Result
from dv.symex import *
from dv.cppnum import fadd, fsub, fmul, finv, isfe
p = P256

# ------------------------------------------------------------------ sparse polynomials over F_p
# monomial: tuple of (var, exponent) sorted by var; polynomial: dict monomial -> nonzero residue
def pc(k):
    k %= p
    return {(): k} if k else {}
def pv(v): return {((v, 1),): 1}
def padd(a, b, c=1):
    r = dict(a)
    for m, k in b.items():
        s = (r.get(m, 0) + c * k) % p
        if s: r[m] = s
        else: r.pop(m, None)
    return r
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for v, e in b: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
class Big(Exception): pass
def pmul(a, b):
    if len(a) * len(b) > 400000: raise Big()
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            q = mmul(m, n)
            r[q] = (r.get(q, 0) + k * l) % p
    return {m: k for m, k in r.items() if k}
def pscale(a, c): return {m: k * c % p for m, k in a.items() if k * c % p}
def ppow(a, n):
    r = pc(1)
    for _ in range(n): r = pmul(r, a)
    return r
def pvars(a): return {v for m in a for v, e in m}
def psubst(a, v, b):
    """a with variable v replaced by polynomial b"""
    r = {}; pw = [pc(1)]
    for m, k in a.items():
        e = dict(m).get(v, 0)
        rest = tuple(x for x in m if x[0] != v)
        while len(pw) <= e: pw.append(pmul(pw[-1], b))
        r = padd(r, pmul({rest: k}, pw[e]))
    return r
def lead(a):
    return max(a, key=lambda m: (sum(e for _, e in m), m))
def pdiv(a, b):
    """exact quotient a / b or None (lexicographic by a fixed variable order)"""
    if not b: return None
    vs = sorted(pvars(a) | pvars(b))
    def key(m):
        d = dict(m); return tuple(d.get(v, 0) for v in vs)
    lb = max(b, key=key); kb = pow(b[lb], p - 2, p); db = dict(lb)
    q = {}; a = dict(a); n = 0
    while a:
        n += 1
        if n > 4000: return None
        la = max(a, key=key); da = dict(la)
        for v, e in db.items():
            if da.get(v, 0) < e: return None
        m = tuple(sorted((v, e - db.get(v, 0)) for v, e in da.items() if e > db.get(v, 0)))
        c = a[la] * kb % p
        q[m] = c
        a = padd(a, pmul({m: c}, b), -1)
    return q

class Case:
    """knowledge of one case: substitutions, rewriting rules v^k -> poly, known nonzero polynomials"""
    def __init__(self):
        self.subs = []; self.rules = []; self.nz = []; self.bad = False; self.eqs = []
        self.sqrtless = set()
        self.lits = {}
    def fork(self):
        c = Case(); c.subs = list(self.subs); c.rules = list(self.rules); c.nz = list(self.nz); c.bad = self.bad; c.eqs = list(self.eqs); c.lits = dict(self.lits)
        return c
    def red(self, a):
        for v, b in self.subs:
            if any(v == x for m in a for x, e in m): a = psubst(a, v, b)
        ch = True; n = 0
        while ch:
            ch = False; n += 1
            if n > 60: raise Big()
            for mono, b in self.rules:
                d = dict(mono)
                hit = [m for m in a if all(dict(m).get(v, 0) >= e for v, e in d.items())]
                if not hit: continue
                ch = True
                for m in hit:
                    k = a.pop(m, 0) if False else a[m]
                    a = padd(a, {m: k}, -1)
                    q = tuple((v, e - d.get(v, 0)) for v, e in m if e > d.get(v, 0))
                    a = padd(a, pmul({q: k}, b))
        return a
    def strip(self, a):
        """divide out known nonzero factors"""
        a = self.red(a)
        if not a: return a
        ch = True
        while ch and len(a) > 0 and not self.isconst(a):
            ch = False
            for z in self.nz:
                if self.isconst(z): continue
                q = pdiv(a, z)
                if q is not None:
                    a = q; ch = True; break
        return a
    def strip0(self, a):
        """apply substitutions only, divide out known nonzero factors, then reduce and divide again"""
        for v, b in self.subs:
            if any(v == x for m in a for x, e in m): a = psubst(a, v, b)
        return self.strip(self.divide(a))
    def divide(self, a):
        ch = True
        while ch and a and not self.isconst(a):
            ch = False
            for z in self.nz:
                if self.isconst(z): continue
                q = pdiv(a, z)
                if q is not None: a = q; ch = True; break
        return a
    def isconst(self, a): return len(a) == 1 and () in a
    def zero(self, a):
        """True/False/None"""
        a = self.strip0(a)
        if not a: return True
        if self.isconst(a): return False
        for z in self.nz:
            if not self.red(padd(pmul(pc(1), a), z, -1)): return False
        # known nonzero only after multiplying by a conjugate: a * z reduces to a product of nonzero polynomials
        for z in self.nz:
            if len(z) * len(a) < 3000:
                w = self.strip(pmul(a, z))
                if self.isconst(w): return False
                # a z = 0 with z nonzero
                if not w: return True
        return None
    def assume_zero(self, a):
        a = self.strip0(a)
        if not a: return
        if self.isconst(a): self.bad = True; return
        # linear variable with constant coefficient
        for v in sorted(pvars(a), reverse=True):
            ms = [m for m in a if any(x == v for x, e in m)]
            if len(ms) == 1 and ms[0] == ((v, 1),):
                k = pow(a[ms[0]], p - 2, p)
                b = {m: (-c * k) % p for m, c in a.items() if m != ms[0]}
                self.addsub(v, b); return
        # otherwise a rewriting rule on the leading monomial
        l = lead(a); k = pow(a[l], p - 2, p)
        self.rules.append((l, {m: (-c * k) % p for m, c in a.items() if m != l}))
        self.recheck()
    def addsub(self, v, b):
        self.subs = [(x, psubst(y, v, b)) for x, y in self.subs] + [(v, b)]
        rs = self.rules; self.rules = []
        pend = []
        for mono, y in rs:
            e = padd({mono: 1}, y, -1)
            e2 = psubst(e, v, b)
            if e2 == e: self.rules.append((mono, y))
            elif e2: pend.append(e2)
        for e in pend:
            e = self.red(e)
            if not e: continue
            if self.isconst(e): self.bad = True; return
            self.assume_zero(e) if not self.canon(e) else None
        self.recheck()
    def canon(self, e):
        """keep curve equations oriented as y^2 -> ..."""
        for m in e:
            if len(m) == 1 and m[0][1] == 2 and m[0][0].startswith('y') and e[m] and not any(m[0][0] == x for n in e if n != m for x, _ in n):
                k = pow(e[m], p - 2, p)
                self.rules.append((m, {n: (-c * k) % p for n, c in e.items() if n != m})); return True
        return False
    def recheck(self):
        nz = []
        for z in self.nz:
            z = self.red(z)
            if not z: self.bad = True; return
            if not self.isconst(z): nz.append(z)
        self.nz = nz
    def assume_nonzero(self, a):
        a = self.strip0(a)
        if not a: self.bad = True; return
        if self.isconst(a): return
        self.nz.append(a)
        # consistency: no product of two nonzero polynomials may vanish
        for z in self.nz:
            if not self.red(pmul(a, z)): self.bad = True; return

class FieldDomain:
    """terms over fadd/fsub/fmul/finv -> polynomials; `leaf` maps leaf terms to polynomials"""
    def __init__(self, leaf):
        self.leaf = leaf; self.memo = {}
    def poly(self, x):
        r = self.memo.get(x)
        if r is None:
            for y in t.topo([x]):
                if y not in self.memo: self.memo[y] = self.poly1(y)
            r = self.memo[x]
        return r
    def poly1(self, x):
        if x in self.leaf: return self.leaf[x]
        if t.isc(x): return pc(x.v)
        if x.op == 'uf' and x.v in ('fadd', 'fsub', 'fmul'):
            a, b = self.memo[x.a[0]], self.memo[x.a[1]]
            if a is None or b is None: return None
            return padd(a, b) if x.v == 'fadd' else padd(a, b, -1) if x.v == 'fsub' else pmul(a, b)
        return None

def undecided(roots):
    """first undecided comparison used as an ite condition (innermost first)"""
    for x in t.topo(roots):
        c = None
        if x.op == 'ite' and x.w > 1: c = x.a[0]
        elif x.w == 1 and x.op in ('and', 'xor', 'eq', 'ult'): c = x
        elif x.w == 1 and x.op == 'ite': c = x.a[0]
        if c is None or t.isc(c): continue
        while c.w == 1 and c.op in ('and', 'xor'):
            c = [y for y in c.a if not t.isc(y)][0]
        return c
    return None

def explore(case, roots, dom, goal, budget, trail=()):
    """split on undecided comparisons until the roots are ite-free, then goal(case, polys)"""
    budget[0] -= 1
    if budget[0] < 0: raise Unsupported('too many field cases')
    c = undecided(roots)
    if c is None:
        return goal(case, roots, trail)
    if c.op == 'eq' and c.a[0].w > 1:
        a, b = dom.poly(c.a[0]), dom.poly(c.a[1])
        if a is None or b is None: raise Unsupported('comparison outside the field domain: %s' % t.show(c, 3))
        d = padd(a, b, -1)
        v = case.zero(d)
        if v is not None:
            return explore(case, t.subst(roots, {c: t.boolc(v)}), dom, goal, budget, trail)
        for v in (True, False):
            k = case.fork()
            (k.assume_zero if v else k.assume_nonzero)(d)
            if k.bad: continue
            r = explore(k, t.subst(roots, {c: t.boolc(v)}), dom, goal, budget, trail + ((t.show(c, 4), v),))
            if r is not True: return r
        return True
    # any other literal is free
    for v in (True, False):
        r = explore(case, t.subst(roots, {c: t.boolc(v)}), dom, goal, budget, trail + ((t.show(c, 4), v),))
        if r is not True: return r
    return True

# ------------------------------------------------------------------ group law
CURVE_B = 7
# -7 is not a cube modulo p, so no point has y = 0
assert (p - 1) % 3 == 0 and pow(-CURVE_B % p, (p - 1) // 3, p) != 1
def curve_rule(case, x, y):
    case.rules.append((((y, 2),), padd(ppow(pv(x), 3), pc(CURVE_B))))

def finite(case, X, Y, Z, n):
    """operand n is finite: X = xn Zn, Y = yn Zn, Zn != 0, (xn, yn) on the curve"""
    x, y, z = 'x%d' % n, 'y%d' % n, 'z%d' % n
    curve_rule(case, x, y); case.assume_nonzero(pv(z)); case.assume_nonzero(pv(y))    # x^3 + 7 has no root: see NOROOT
    return {X: pmul(pv(x), pv(z)), Y: pmul(pv(y), pv(z)), Z: pv(z)}
def infinite(case, X, Y, Z, n):
    y = 'w%d' % n
    case.assume_nonzero(pv(y))
    return {X: pc(0), Y: pv(y), Z: pc(0)}

def goal_zero(case, R):
    X, Y, Z = R
    return case.zero(X) is True and case.zero(Z) is True and case.zero(Y) is False
def goal_same(case, R, x, y, den=None):
    """R is the finite point (x, y): x = xn/xd, y = yn/yd with known nonzero denominators"""
    X, Y, Z = R
    (xn, xd), (yn, yd) = x, y
    if case.zero(Z) is not False: return 'z may be 0'
    if case.zero(padd(pmul(X, xd), pmul(Z, xn), -1)) is not True: return 'x coordinate'
    if case.zero(padd(pmul(Y, yd), pmul(Z, yn), -1)) is not True: return 'y coordinate'
    return True

def add_cases(A, B=None):
    """A, B: coordinate terms of the operands (B None for doubling).
    yields (label, case, leaf map, goal(case, R))"""
    one = pc(1); V = pv
    def fin(n): return (V('x%d' % n), one), (V('y%d' % n), one)
    if B is None:
        c = Case(); l = infinite(c, *A, 1)
        yield 'infinity', c, l, lambda c, R: goal_zero(c, R)
        c = Case(); l = finite(c, *A, 1)
        yield 'tangent', c, l, tangent
        return
    for za in (0, 1):
        for zb in (0, 1):
            if za or zb:
                c = Case(); l = {}
                l.update(infinite(c, *A, 1) if za else finite(c, *A, 1))
                l.update(infinite(c, *B, 2) if zb else finite(c, *B, 2))
                if za and zb: g = lambda c, R: goal_zero(c, R)
                else:
                    n = 2 if za else 1
                    g = lambda c, R, n=n: goal_same(c, R, *fin(n))
                yield 'infinity %d%d' % (za, zb), c, l, g
    def both():
        c = Case(); l = dict(finite(c, *A, 1)); l.update(finite(c, *B, 2)); return c, l
    c, l = both(); c.assume_nonzero(padd(V('x1'), V('x2'), -1))
    yield 'chord', c, l, chord
    c, l = both(); c.assume_zero(padd(V('x2'), V('x1'), -1)); c.assume_zero(padd(V('y2'), V('y1')))
    yield 'opposite', c, l, lambda c, R: goal_zero(c, R)
    c, l = both(); c.assume_zero(padd(V('x2'), V('x1'), -1)); c.assume_zero(padd(V('y2'), V('y1'), -1))
    yield 'equal', c, l, tangent
def tangent(c, R):
    # slope 3 x^2 / 2 y
    x, y = pv('x1'), pv('y1'); n = pscale(pmul(x, x), 3); d = pscale(y, 2)
    return slope(c, R, n, d, x, y, x)
def chord(c, R):
    x1, y1, x2, y2 = (pv(k) for k in ('x1', 'y1', 'x2', 'y2'))
    return slope(c, R, padd(y1, y2, -1), padd(x1, x2, -1), x1, y1, x2)
def slope(c, R, n, d, x1, y1, x2):
    # x3 = (n/d)^2 - x1 - x2 ; y3 = (n/d)(x1 - x3) - y1
    d2 = pmul(d, d); d3 = pmul(d2, d)
    xn = padd(pmul(n, n), pmul(d2, padd(x1, x2)), -1)
    yn = padd(pmul(n, padd(pmul(x1, d2), xn, -1)), pmul(y1, d3), -1)
    return goal_same(c, R, (xn, d2), (yn, d3))

def prove_sum(task, name, A, B, R, pcs=()):
    """obligations: R (three terms) represents A + B (B None: 2 A) for all valid A, B"""
    ok = True
    for lab, case, leaf, goal in add_cases(A, B):
        dom = FieldDomain(leaf)
        bud = [3000]
        n = [0]
        def g(c, roots, trail):
            n[0] += 1
            u = roots[0].a[0] if roots[0].op == 'extract' else None
            if u is not None and u.op == 'uf' and u.v == 'ptdbl' and all(x is t.extract(u, 256 * i + 255, 256 * i) for i, x in enumerate(roots)):
                # the contract of the doubling function: twice an operand
                if B is not None and any(u.a[0] is point(*q) for q in (A, B)) and lab in ('equal', 'infinity 11'): return True
                return 'doubling used in case %s' % lab
            ps = [dom.poly(x) for x in roots]
            if any(q is None for q in ps): return 'result is not a field expression'
            r = goal(c, ps)
            if r is True: return True
            return 'wrong result (%s) in case %s with %s' % (r, lab, trail[-6:])
        try: r = explore(case, list(R), dom, g, bud)
        except Big: r = None; task.unsupported.append('%s: case %s: polynomials too large' % (name, lab)); ok = False; continue
        except Unsupported as e: task.unsupported.append('%s: case %s: %s' % (name, lab, e)); ok = False; continue
        if r is True: task.count('polynomial identities over F_p', max(1, n[0]))
        else: task.fail(name, 'group law, case ' + lab, r); ok = False
    return ok

# ------------------------------------------------------------------ Z-module of points
def point(x, y, z): return t.concat(z, y, x)
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
def gpoint(): return point(t.const(GX, 256), t.const(GY, 256), t.const(1, 256))
def ptadd(a, b): return t.uf('ptadd', 768, a, b)
def ptdbl(a): return t.uf('ptdbl', 768, a)
def ptmul(a, n): return t.uf('ptmul', 768, a, n)
def ptnorm(a): return t.uf('ptnorm', 768, a)

# multilinear integer polynomials over bits: dict frozenset(bits) -> int
def madd(a, b, c=1):
    r = dict(a)
    for m, k in b.items():
        s = r.get(m, 0) + c * k
        if s: r[m] = s
        else: r.pop(m, None)
    return r
def mmulb(a, b):
    if len(a) * len(b) > 200000: raise Big()
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            q = m | n; r[q] = r.get(q, 0) + k * l
    return {m: k for m, k in r.items() if k}
ONE = frozenset()

class Module:
    """classes of point terms as sums of (multilinear coefficient) * (base point)"""
    def __init__(self, scalars, bases):
        """scalars: terms whose bits are symbolic; bases: point term -> name"""
        self.scalars = list(scalars); self.bases = dict(bases); self.memo = {}; self.cmemo = {}
        self.zero = point(t.const(0, 256), t.const(1, 256), t.const(0, 256))
    def bits(self, c):
        """leaf bits of the scalars that a condition depends on, or None when it depends on something else"""
        r = set()
        for x in t.topo([c]):
            if x.op == 'var': 
                if not any(x is s for s in self.scalars): return None
            if x.op == 'uf': return None
        seen = set(); st = [c]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'extract' and any(x.a[0] is s for s in self.scalars):
                r |= {(x.a[0], i) for i in range(x.v if isinstance(x.v, int) else x.v[1], (x.v if isinstance(x.v, int) else x.v[1]) + x.w)}
                continue
            if any(x is s for s in self.scalars): r |= {(x, i) for i in range(x.w)}; continue
            st.extend(x.a)
        return r
    def cond(self, c):
        r = self.cmemo.get(c)
        if r is not None: return r
        b = self.bits(c)
        if b is None or len(b) > 9: raise Unsupported('condition outside the scalar domain: %s' % t.show(c, 3))
        b = sorted(b, key=lambda q: (q[0].id, q[1]))
        from dv.ints import subfix
        # evaluate on every assignment of the bits
        vals = {}
        bylo = {}
        for s, i in b: bylo.setdefault(s, []).append(i)
        for a in range(1 << len(b)):
            env = {}
            for s in bylo:
                v = 0
                for k, (s2, i) in enumerate(b):
                    if s2 is s and a >> k & 1: v |= 1 << i
                env[s] = t.const(v, s.w)
            q = t.subst([c], env)[0]
            if not t.isc(q): raise Unsupported('condition not decided by the scalar')
            vals[a] = q.v
        # Moebius transform
        f = [vals[a] for a in range(1 << len(b))]
        for k in range(len(b)):
            for a in range(1 << len(b)):
                if a >> k & 1: f[a] -= f[a ^ (1 << k)]
        r = {frozenset((b[k][0].id, b[k][1]) for k in range(len(b)) if a >> k & 1): v for a, v in enumerate(f) if v}
        self.cmemo[c] = r
        return r
    def cls(self, z, y, x):
        key = (z, y, x)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self.cls1(z, y, x)
        return r
    def clsp(self, pt):
        return self.cls(t.extract(pt, 767, 512), t.extract(pt, 511, 256), t.extract(pt, 255, 0))
    def cls1(self, z, y, x):
        pt = point(x, y, z)
        if pt is self.zero: return {}
        n = self.bases.get(pt)
        if n is not None: return {n: {ONE: 1}}
        if pt.op == 'uf' and pt.v in ('ptadd', 'ptdbl', 'ptmul'):
            a = self.clsp(pt.a[0])
            if pt.v == 'ptdbl': return {k: {m: 2 * c for m, c in q.items()} for k, q in a.items()}
            if pt.v == 'ptmul':
                sc = self.scalar(pt.a[1]); return {k: mmulb(q, sc) for k, q in a.items()}
            b = self.clsp(pt.a[1])
            r = {k: dict(v) for k, v in a.items()}
            for k, v in b.items():
                r[k] = madd(r.get(k, {}), v)
            return {k: v for k, v in r.items() if v}
        conds = [w.a[0] for w in (z, y, x) if w.op == 'ite']
        if conds:
            c = conds[0]
            f = lambda w, i: w.a[i] if w.op == 'ite' and w.a[0] is c else w
            a = self.cls(f(z, 1), f(y, 1), f(x, 1)); b = self.cls(f(z, 2), f(y, 2), f(x, 2))
            m = self.cond(c); r = {}
            for k in a.keys() | b.keys():
                d = madd(a.get(k, {}), b.get(k, {}), -1)
                v = madd(b.get(k, {}), mmulb(m, d))
                if v: r[k] = v
            return r
        raise Unsupported('not a point expression: %s' % t.show(pt, 3))
    def scalar(self, s):
        if t.isc(s): return {ONE: s.v} if s.v else {}
        if any(s is q for q in self.scalars): return {frozenset([(s.id, i)]): 1 << i for i in range(s.w)}
        raise Unsupported('scalar outside the domain')
    def form(self, n):
        return {frozenset([(n.id, i)]): 1 << i for i in range(n.w)}

def same_mod(a, b, m):
    d = madd(a, b, -1)
    return all(k % m == 0 for k in d.values())

# ------------------------------------------------------------------ field terms modulo polynomial identity
class Canon:
    """rewrites field expressions to a canonical representative: equal polynomials become the same term"""
    def __init__(self):
        self.dom = FieldDomain({}); self.by = {}; self.memo = {}
    def leafpoly(self, x): return {((x.id, 1),): 1}
    def poly(self, x):
        for y in t.topo([x]):
            if y in self.dom.memo: continue
            if y.w == 256 and not t.isc(y) and not (y.op == 'uf' and y.v in ('fadd', 'fsub', 'fmul')):
                self.dom.leaf[y] = self.leafpoly(y)
            elif y.w != 256: self.dom.leaf[y] = pc(0)
        return self.dom.poly(x)
    def canon(self, roots):
        """replace every comparison of field expressions and every maximal field expression by canonical symbols"""
        m = {}
        for x in t.topo(roots):
            if x.op == 'eq' and x.a[0].w == 256 and all(isfe(y) or self.known(y) for y in x.a) and any(y.op == 'uf' and y.v in ('fadd', 'fsub', 'fmul') for y in x.a):
                try: d = padd(self.poly(x.a[0]), self.poly(x.a[1]), -1)
                except Big: continue
                if not d: m[x] = t.true(); continue
                if len(d) == 1 and () in d: m[x] = t.false(); continue
                l = max(d); k = pow(d[l], p - 2, p)
                key = tuple(sorted((q, c * k % p) for q, c in d.items()))
                m[x] = self.by.setdefault(('eq', key), t.var('feq!%d' % len(self.by), 1))
            elif x.op == 'uf' and x.v in ('fadd', 'fsub', 'fmul'):
                try: d = self.poly(x)
                except Big: continue
                key = tuple(sorted(d.items()))
                if len(d) == 0 or (len(d) == 1 and () in d): m[x] = t.const(d.get((), 0), 256)
                else: m[x] = self.by.setdefault(('v', key), t.var('fval!%d' % len(self.by), 256))
        return t.subst(roots, m), m
    reduced = ()
    def known(self, y): return any(y is r for r in self.reduced)

def field_domain(reduced=()):
    """a prover step: field expressions equal as polynomials over F_p are equal (both sides are reduced)"""
    def f(prover, pcs, c):
        if not any(x.op == 'uf' and x.v in ('fadd', 'fsub', 'fmul') for x in t.topo([c])): return None
        k = Canon(); k.reduced = tuple(reduced)
        try: (c2,), m = k.canon([c])
        except Big: return None
        if t.isc(c2): return Result(bool(c2.v), 'polynomial identities over F_p', 'refuted over F_p') if c2.v else None
        if c2 is c: return None
        from dv.symex import z3_check
        r, mod = z3_check([t.not_(c2)], 2000)
        if r == 'unsat': return Result(True, 'polynomial identities over F_p')
        return None
    return f
