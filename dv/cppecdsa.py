"""Contracts of the C++ ECDSA functions."""
from dv import terms as t, curve
from dv.symex import *
from dv.spec import *
from dv.cppnum import *
from dv.cpppt import *
from dv.prove import P256, N256, Result
NC = lambda: t.const(N256, 256)
def modn(x): return t.ite(t.ult(x, NC()), x, t.sub(x, NC()))

def hmac256(key, kl, msg, ml): return t.uf('hmac256:%d:%d' % (kl, ml), 256, *[x for x in (key, msg) if x is not None])
def h_hmac(c, ret, key, kl, msg, ml):
    """SHA-256 HMAC of constant-size strings; the general statement is property C17"""
    if not (t.isc(kl) and t.isc(ml)): raise Unsupported('getHmac with symbolic lengths')
    k = c.r(key, kl.v) if kl.v else None; m = c.r(msg, ml.v) if ml.v else None
    c.w(ret, hmac256(k, kl.v, m, ml.v))

def sign_terms(d, h, k):
    """(success, r, s) for private key d, hash bytes h (in memory order), nonce k"""
    px = t.extract(ptnorm(ptmul(gpoint(), k)), 255, 0)
    r = modn(px)
    s0 = nmul(nadd(nmul(px, d), bswap(h)), ninv(k))    # nadd, nmul: sum and product of integers modulo n
    neg = t.sub(NC(), s0)
    s = t.ite(t.ult(neg, s0), neg, s0)
    ok = t.and_(t.ne(k, Z()), t.ult(k, NC()), t.ne(r, Z()), t.ne(s0, Z()))
    return ok, r, s
def e_sign(c, d, h, k, oR, oS):
    dv = c.r256(d); hv = c.r256(h); kv = c.r256(k)
    for a, b in ((oR, oS), (oR, d), (oR, k), (oS, d), (oS, k), (oR, h), (oS, h)): c.distinct(a, b)
    ok, r, s = sign_terms(dv, hv, kv)
    c.w(oR, t.ite(ok, r, c.r256(oR))); c.w(oS, t.ite(ok, s, c.r256(oS)))
    return ok
def e_signh(c, d, h, oR, oS):
    dv = c.r256(d); hv = c.r256(h)
    for a, b in ((oR, oS), (oR, d), (oS, d), (oR, h), (oS, h)): c.distinct(a, b)
    k = bswap(hmac256(bswap(dv), 32, hv, 32))
    ok, r, s = sign_terms(dv, hv, k)
    c.w(oR, t.ite(ok, r, c.r256(oR))); c.w(oS, t.ite(ok, s, c.r256(oS)))
    return ok
def valid_key(q):
    return t.and_(t.not_(zeroq(q)), t.eq(q[2], t.const(1, 256)), curveq(q))
def e_verify(c, Q, h, r, s):
    q = rpt(c, Q); hv = c.r256(h); rv = c.r256(r); sv = c.r256(s)
    w = ninv(sv); u1 = nmul(w, bswap(hv)); u2 = nmul(w, rv)
    pt = ptnorm(ptadd(ptmul(gpoint(), u1), ptmul(ptt(q), u2)))
    co = [t.extract(pt, 256 * i + 255, 256 * i) for i in range(3)]
    rng = t.and_(*[x for v in (rv, sv) for x in (t.ult(Z(), v), t.ult(v, NC()))])
    return t.and_(rng, valid_key(q), t.not_(zeroq(co)), t.eq(rv, modn(co[0])))
E_ = 'Ecdsa::'
SIGN = E_ + 'sign(Uint256 const&, Sha256Hash const&, Uint256 const&, Uint256&, Uint256&)'
SIGNH = E_ + 'signWithHmacNonce(Uint256 const&, Sha256Hash const&, Uint256&, Uint256&)'
VERIFY = E_ + 'verify(CurvePoint const&, Sha256Hash const&, Uint256 const&, Uint256 const&)'
MULMOD = E_ + 'multiplyModOrder(Uint256&, Uint256 const&)'
HMAC = 'Sha256::getHmac(unsigned char const*, unsigned long, unsigned char const*, unsigned long)'
SPECS = {SIGN: e_sign, SIGNH: e_signh, VERIFY: e_verify, HMAC: h_hmac}

def o256(ex, st, name):
    o = ex.new_obj(st, name, 32, oid=name); st.mem[o].put(0, 32, t.var(name, 256)); return P(o)
def s_sign(ex, st): return [o256(ex, st, n) for n in ('d', 'h', 'k', 'outR', 'outS')]
def s_signh(ex, st): return [o256(ex, st, n) for n in ('d', 'h', 'outR', 'outS')]
def s_verify(ex, st): return [objpt(ex, st, 'Q')[0]] + [o256(ex, st, n) for n in ('h', 'r', 's')]

class PointCanon:
    """normalised points are functions of the class: ptnorm of sums is rewritten to a canonical order of the summands
    (commutativity and associativity of the group; valid for points on the curve)"""
def canon_norm(roots):
    m = {}
    for x in t.topo(roots):
        if x.op == 'uf' and x.v == 'ptnorm':
            parts = []
            st = [x.a[0]]
            while st:
                y = st.pop()
                if y.op == 'uf' and y.v == 'ptadd': st.extend(y.a)
                elif y.op == 'uf' and y.v == 'ptdbl': st.extend([y.a[0], y.a[0]])
                else: parts.append(y)
            if len(parts) > 1:
                parts.sort(key=lambda y: y.id)
                m[x] = t.uf('ptnormsum', 768, *parts)
    return t.subst(roots, m) if m else roots

def verify_domain(q):
    """group facts for a public key: n Q is the point at infinity for every point on the curve (prime group order)"""
    V = valid_key(q)
    nq = ptmul(ptt(q), NC())
    co = [t.extract(nq, 256 * i + 255, 256 * i) for i in range(3)]
    sub = {t.eq(co[0], Z()): t.true(), t.eq(co[1], Z()): t.false(), t.eq(co[2], Z()): t.true()}
    def f(prover, pcs, c):
        if not any(x.op == 'uf' and x.v.startswith('pt') for x in t.topo([c])): return None
        by = 'group facts + z3'
        k = curve.Canon(); k.reduced = tuple(q)
        cs = list(pcs)
        def chk(conds):
            conds = canon_norm(conds)
            try: conds, _ = k.canon(conds)
            except curve.Big: pass
            if any(t.isc(x) and not x.v for x in conds): return True
            r, m = z3_check(conds, 8000, 20000)
            return r == 'unsat'
        # key valid: use the facts;  key invalid: no facts about multiples of the key
        a = t.subst(cs + [t.not_(c), V], sub)
        if not chk(a): return None
        if not chk(cs + [t.not_(c), t.not_(V)]): return None
        return Result(True, by)
    return f

def check_ecdsa(S, task, dem, setup):
    pr = S.prover()
    def s(ex, st):
        a = setup(ex, st)
        ex.recog = lambda st, x: recog(pr, list(st.pc), x)
        if 'Q' in st.mem:
            q = [st.mem['Q'].get(32 * i, 32) for i in range(3)]
            pr.domain.append(verify_domain(q))
        return a
    S.check(task, dem, s, prover=pr)

# ---------------------------------------------------------------- lemma: a created signature verifies (C11)
def nadd_p(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = (r.get(m, 0) + k * c) % N256
        if c: r[m] = c
        else: r.pop(m, None)
    return r
def nmul_p(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            q = tuple(sorted(m + m2)); v = (r.get(q, 0) + c * c2) % N256
            if v: r[q] = v
            else: r.pop(q, None)
    return r
def npoly(x, leaf):
    if x in leaf: return leaf[x]
    if t.isc(x): return {(): x.v % N256} if x.v % N256 else {}
    if x.op == 'uf' and x.v == 'nmul': return nmul_p(npoly(x.a[0], leaf), npoly(x.a[1], leaf))
    if x.op == 'uf' and x.v == 'nadd': return nadd_p(npoly(x.a[0], leaf), npoly(x.a[1], leaf))
    raise Unsupported('scalar expression %s' % x.op)

def lemma_roundtrip(task):
    """over the contracts of sign and verify: if sign(d, h, k) succeeds with (r, s) then verify accepts (r, s) and (r, n - s) for the key d G.
    Uses: scalar multiples of a fixed point form a module over the integers modulo n (n G = infinity, n prime), x(-P) = x(P)."""
    name = 'lemma: created signatures verify'
    d, h, k = (t.var(v, 256) for v in 'dhk')
    ok, r, s = sign_terms(d, h, k)
    s0 = nmul(nadd(nmul(t.extract(ptnorm(ptmul(gpoint(), k)), 255, 0), d), bswap(h)), ninv(k))
    # the value returned is s0 or n - s0, both in [1, n) when s0 is
    pc = [ok, t.ult(s0, NC())]
    from dv.prove import Prover
    pv = Prover()
    def ob(what, c):
        rr, m = z3_check(pc + [t.not_(c)], 10000)
        if rr == 'unsat': task.count('z3 bit-vectors')
        else: task.fail(name, what, rr)
    ob('s is s0 or n - s0', t.or_(t.eq(s, s0), t.eq(s, t.sub(NC(), s0))))
    ob('s and n - s lie in [1, n)', t.and_(t.ult(Z(), s), t.ult(s, NC()), t.ult(Z(), t.sub(NC(), s)), t.ult(t.sub(NC(), s), NC())))
    ob('r lies in [1, n)', t.or_(t.not_(t.ult(t.extract(ptnorm(ptmul(gpoint(), k)), 255, 0), PC())), t.and_(t.ult(Z(), r), t.ult(r, NC()))))
    # verify's specification on the returned values
    class Cell:
        def __init__(s, vals): s.vals = vals
        def r256(s, p, off=0): return s.vals[p][off // 32]
        def require(s, *a): pass
    q = ptnorm(ptmul(gpoint(), d)); co = tuple(t.extract(q, 256 * i + 255, 256 * i) for i in range(3))
    rv = t.var('r', 256); sv = t.var('s', 256)
    res = e_verify(Cell({'Q': co, 'h': (h,), 'r': (rv,), 's': (sv,)}), 'Q', 'h', 'r', 's')
    norms = [x for x in t.topo([res]) if x.op == 'uf' and x.v == 'ptnorm' and x is not q]
    if len(norms) != 1: task.fail(name, 'shape of the verification equation', len(norms)); return
    V = {m: {(m,): 1} for m in ('k', 'ki', 'z', 'r', 'd', 'w')}
    w = ninv(sv)
    leaf = {w: V['w'], bswap(h): V['z'], rv: V['r'], d: V['d'], k: V['k']}
    def cls(p):
        """coefficient of G"""
        if p.op == 'uf' and p.v == 'ptadd': return nadd_p(cls(p.a[0]), cls(p.a[1]))
        if p.op == 'uf' and p.v == 'ptmul': return nmul_p(cls(p.a[0]), npoly(p.a[1], leaf))
        if p.op == 'uf' and p.v == 'ptnorm': return cls(p.a[0])
        if p.op == 'uf' and p.v == 'ptdbl': return nmul_p(cls(p.a[0]), {(): 2})
        if p is gpoint(): return {(): 1}
        if p is q or p is point(*co): return V['d']
        raise Unsupported('point expression')
    try: c = cls(norms[0])
    except Unsupported as e: task.fail(name, 'verification equation', str(e)); return
    # r in sign is reduced modulo n: congruent to x(kG)
    S0 = nmul_p(nadd_p(nmul_p(V['r'], V['d']), V['z']), V['ki'])
    R1 = nadd_p(nmul_p(V['k'], V['ki']), {(): N256 - 1})           # k k^-1 = 1
    for sgn, lab in ((1, 's0'), (-1, 'n - s0')):
        R2 = nadd_p({m: v * sgn % N256 for m, v in nmul_p(S0, V['w']).items()}, {(): N256 - 1})   # s w = 1
        lhs = nadd_p({m: v * sgn % N256 for m, v in c.items()}, V['k'], -1)                    # sgn c - k
        # = - sgn w (z + r d) R1 + k R2
        zrd = nadd_p(nmul_p(V['r'], V['d']), V['z'])
        rhs = nadd_p({m: -sgn * v % N256 for m, v in nmul_p(nmul_p(V['w'], zrd), R1).items()}, nmul_p(V['k'], R2))
        if nadd_p(lhs, rhs, -1) == {}: task.count('polynomial identity over Z/n')
        else: task.fail(name, 'verification sum equals +-k G for s = %s' % lab, nadd_p(lhs, rhs, -1))
    # hence the sum is not infinity (0 < k < n) and has the x coordinate of k G; remaining part of the predicate
    X = t.extract(norms[0], 255, 0); xk = t.extract(ptnorm(ptmul(gpoint(), k)), 255, 0)
    facts = [t.eq(X, xk), t.not_(zeroq([t.extract(norms[0], 256 * i + 255, 256 * i) for i in range(3)])), valid_key(co), t.eq(rv, r), t.ult(xk, PC()), t.ult(X, PC())]
    for lab, sc in (('s', s), ('n - s', t.sub(NC(), s))):
        rr, m = z3_check(pc + facts + [t.eq(sv, sc), t.not_(res)], 10000)
        if rr == 'unsat': task.count('z3 bit-vectors')
        else: task.fail(name, 'verification accepts (r, %s)' % lab, rr)
    task.functions[name] = 1
