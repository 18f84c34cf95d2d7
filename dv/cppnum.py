"""Contracts of the C++ number classes and their verification units."""
from dv import terms as t
from dv.symex import *
from dv.spec import *
from dv.prove import P256, N256
Z256 = lambda: t.const(0, 256)
PC = lambda: t.const(P256, 256)

def isfe(x, facts=None, depth=0):
    """syntactic: x < p"""
    if t.isc(x): return x.v < P256
    if x.op == 'uf' and x.v in ('fadd', 'fsub', 'fmul', 'finv', 'fred'): return True
    if x.op == 'extract' and x.a[0].op == 'uf' and x.a[0].v in ('ptadd', 'ptdbl', 'ptmul', 'ptnorm') and x.w == 256: return True
    if x.op == 'ite': return isfe(x.a[1], facts) and isfe(x.a[2], facts)
    if facts is not None and facts.get(t.ult(x, PC())): return True
    return False

def isnfe(x, facts=None):
    """syntactic: x < n"""
    if t.isc(x): return x.v < N256
    if x.op == 'uf' and x.v in ('nadd', 'nmul', 'ninv', 'nred', 'nsub'): return True
    if x.op == 'ite': return isnfe(x.a[1], facts) and isnfe(x.a[2], facts)
    if facts is not None and facts.get(t.ult(x, t.const(N256, 256))): return True
    return False

def decider(st, c):
    if c.op in ('and', 'xor') and c.w == 1 and not (c.op == 'xor' and len(c.a) == 2 and any(t.isc(y) for y in c.a)):
        m = {}; seen = set(); stk = [c]
        while stk:
            y = stk.pop()
            if y in seen: continue
            seen.add(y)
            if y.op in ('and', 'xor') and y.w == 1: stk.extend(y.a)
            elif y.op == 'ult':
                d = decider(st, y)
                if d is not None: m[y] = t.boolc(d)
        if m:
            r = t.subst([c], m)[0]
            if t.isc(r): return bool(r.v)
        return None
    x = c; neg = False
    if x.op == 'xor' and len(x.a) == 2 and any(t.isc(y) for y in x.a):
        neg = True; x = [y for y in x.a if not t.isc(y)][0]
    if x.op == 'ult' and t.isc(x.a[1]):
        k = x.a[1].v
        if k >= P256 and isfe(x.a[0], st.facts): return not neg
        if k >= N256 and isnfe(x.a[0], st.facts): return not neg
    return None

def uf2(name, a, b, comm):
    if comm and b.id < a.id: a, b = b, a
    return t.uf(name, 256, a, b)
def fadd(a, b): return uf2('fadd', a, b, True)
def fsub(a, b): return uf2('fsub', a, b, False)
def fmul(a, b): return uf2('fmul', a, b, True)
def finv(a): return t.uf('finv', 256, a)

def en(c, e):
    c.require(t.eq(t.extract(e, e.w - 1, 1), t.const(0, e.w - 1)), 'enable is 0 or 1')
    return t.extract(e, 0, 0)
def fe(c, p, off=0):
    x = c.r256(p, off)
    c.require(t.ult(x, PC()), 'field element is reduced')
    return x

def add257(x, y, e): return t.add(t.zext(x, 257), t.zext(t.ite(e, y, Z256()), 257))
def sub257(x, y, e): return t.sub(t.zext(x, 257), t.zext(t.ite(e, y, Z256()), 257))

def u_add(c, this, other, e):
    c.distinct(this, other); e = en(c, e)
    s = add257(c.r256(this), c.r256(other), e)
    c.w(this, t.extract(s, 255, 0)); return t.zext(t.extract(s, 256, 256), 32)
def u_sub(c, this, other, e):
    c.distinct(this, other); e = en(c, e)
    s = sub257(c.r256(this), c.r256(other), e)
    c.w(this, t.extract(s, 255, 0)); return t.zext(t.extract(s, 256, 256), 32)
def u_shl(c, this):
    x = c.r256(this); c.w(this, t.shl(x, t.const(1, 256))); return t.zext(t.extract(x, 255, 255), 32)
def u_shr(c, this, e):
    e = en(c, e); x = c.r256(this); c.w(this, t.ite(e, t.lshr(x, t.const(1, 256)), x))
def u_replace(c, this, other, e):
    e = en(c, e); c.w(this, t.ite(e, c.r256(other), c.r256(this)))
def u_swap(c, this, other, e):
    e = en(c, e); x = c.r256(this); y = c.r256(other)
    c.w(this, t.ite(e, y, x)); c.w(other, t.ite(e, x, y))
def u_eq(c, a, b): return t.eq(c.r256(a), c.r256(b))
def u_ne(c, a, b): return t.ne(c.r256(a), c.r256(b))
def u_lt(c, a, b): return t.ult(c.r256(a), c.r256(b))
def u_le(c, a, b): return t.ule(c.r256(a), c.r256(b))
def u_gt(c, a, b): return t.ult(c.r256(b), c.r256(a))
def u_ge(c, a, b): return t.ule(c.r256(b), c.r256(a))
def bswap(x):
    n = x.w // 8
    return t.concat(*[t.extract(x, 8 * i + 7, 8 * i) for i in range(n)])
def u_getbe(c, this, out):
    c.w(out, bswap(c.r256(this)))
def u_ctor0(c, this): c.w(this, Z256())
def u_ctor_b(c, this, b): c.w(this, bswap(c.r256(b)))
def u_ctor_f(c, this, f): c.w(this, c.r256(f))

def f_add(c, this, other):
    c.distinct(this, other); c.w(this, fadd(fe(c, this), fe(c, other)))
def f_sub(c, this, other):
    c.distinct(this, other); c.w(this, fsub(fe(c, this), fe(c, other)))
def f_dbl(c, this):
    x = fe(c, this); c.w(this, fadd(x, x))
def f_sqr(c, this):
    x = fe(c, this); c.w(this, fmul(x, x))
def f_mul(c, this, other):
    c.w(this, fmul(fe(c, this), fe(c, other)))
def f_inv(c, this):
    c.w(this, finv(fe(c, this)))
def inverse_of(v, m):
    """v^-1 mod m (0 for v = 0); the named symbols are used for the two primes"""
    if t.isc(m) and m.v == P256: return t.ite(t.eq(v, Z256()), Z256(), finv(v)) if False else finv(v)
    if t.isc(m) and m.v == N256: return t.uf('ninv', 256, v)
    return t.ite(t.eq(v, Z256()), Z256(), t.uf('uinv', 256, v, m))
def coprime(c, v, m):
    """gcd(v, m) = 1 or v = 0; for the two primes this follows from 0 <= v < m"""
    if t.isc(m) and m.v in (P256, N256): return
    c.require(t.or_(t.eq(v, Z256()), t.uf('coprime', 1, v, m)), 'value and modulus are coprime, or the value is 0')
def u_recip(c, this, mod):
    c.distinct(this, mod)
    v = c.r256(this); m = c.r256(mod)
    c.require(t.eq(t.extract(m, 0, 0), t.const(1, 1)), 'modulus is odd')
    c.require(t.ult(t.const(1, 256), m), 'modulus exceeds 1')
    c.require(t.ult(v, m), 'value is below the modulus')
    coprime(c, v, m)
    c.w(this, inverse_of(v, m))
def nfe(c, p, what='value is below the group order'):
    x = c.r256(p); c.require(t.ult(x, t.const(N256, 256)), what); return x
def linform(x):
    """x = sum c_i leaf_i + k along one branch of its conditionals (only a guess, proved by recog)"""
    if t.isc(x): return {}, x.v
    if x.op == 'ite': return linform(x.a[2])
    if x.op == 'lin':
        r = {}; k = t.sgn(x.v[1], x.w) if x.v[1] >> (x.w - 1) else x.v[1]
        for c, y in zip(x.v[0], x.a):
            if c >> (x.w - 1): c -= 1 << x.w
            q, m = linform(y)
            for a, b in q.items(): r[a] = r.get(a, 0) + c * b
            k += c * m
        return r, k
    if x.op == 'extract' and x.a[0].op in ('lin', 'ite') and x.a[0].w <= 264 and x is t.extract(x.a[0], x.w - 1, 0): return linform(x.a[0])
    if x.op == 'concat' and t.isc(x.a[0]) and x.a[0].v == 0 and len(x.a) == 2: return linform(x.a[1])
    if x.w > 256 and x.kz >> 256 == (1 << (x.w - 256)) - 1:
        y = t.extract(x, 255, 0)
        if y is not x: return linform(y)
    return {x: 1}, 0
def recog(prover, pc, x):
    """a canonical term congruent to x modulo the group order (proved), or x itself.
    Only used in positions that depend on the value modulo the order."""
    if t.isc(x) or x.op in ('uf', 'var'): return x
    f, k = linform(x)
    f = {a: c for a, c in f.items() if c % N256 and a.w > 8}
    if not f or len(f) > 3 or any(a.w > 256 for a in f): return x
    f = {(a if a.w == 256 else t.zext(a, 256)): c for a, c in f.items()}
    pos = [a for a, c in f.items() if c % N256 == 1]
    if len(pos) != len(f): return x
    pos.sort(key=lambda a: a.id)
    if pos == [x]: return x
    if len(pos) == 1: return pos[0] if prover.congruent(pc, x, pos[0], N256, pos) else x
    r = pos[0]
    for a in pos[1:]: r = nadd(r, a)
    return r if prover.congruent(pc, x, r, N256, pos) else x
def nmul(a, b): return uf2('nmul', a, b, True)
def nadd(a, b): return uf2('nadd', a, b, True)
def ninv(a): return t.uf('ninv', 256, a)
def e_mulmod(c, x, y):
    c.distinct(x, y)
    a = nfe(c, x); b = c.r256(y)
    if c.ex.recog: a = c.ex.recog(c.st, a); b = c.ex.recog(c.st, b)
    c.w(x, nmul(a, b))
def f_replace(c, this, other, e): u_replace(c, this, other, e)
def f_ctor(c, this, v):
    x = c.r256(v); c.w(this, t.ite(t.ult(x, PC()), x, t.sub(x, PC())))

U = 'Uint256::'; F = 'FieldInt::'
SPECS = {
    U + 'add(Uint256 const&, unsigned int)': u_add,
    U + 'subtract(Uint256 const&, unsigned int)': u_sub,
    U + 'shiftLeft1()': u_shl,
    U + 'shiftRight1(unsigned int)': u_shr,
    U + 'replace(Uint256 const&, unsigned int)': u_replace,
    U + 'swap(Uint256&, unsigned int)': u_swap,
    U + 'operator==(Uint256 const&) const': u_eq, U + 'operator!=(Uint256 const&) const': u_ne,
    U + 'operator<(Uint256 const&) const': u_lt, U + 'operator<=(Uint256 const&) const': u_le,
    U + 'operator>(Uint256 const&) const': u_gt, U + 'operator>=(Uint256 const&) const': u_ge,
    U + 'reciprocal(Uint256 const&)': u_recip,
    U + 'getBigEndianBytes(unsigned char*) const': u_getbe,
    U + 'Uint256()': u_ctor0, U + 'Uint256(unsigned char const*)': u_ctor_b, U + 'Uint256(FieldInt const&)': u_ctor_f,
    F + 'add(FieldInt const&)': f_add, F + 'subtract(FieldInt const&)': f_sub, F + 'multiply2()': f_dbl,
    F + 'square()': f_sqr, F + 'multiply(FieldInt const&)': f_mul, F + 'reciprocal()': f_inv,
    F + 'replace(FieldInt const&, unsigned int)': f_replace,
    F + 'operator==(FieldInt const&) const': u_eq, F + 'operator!=(FieldInt const&) const': u_ne,
    F + 'operator<(FieldInt const&) const': u_lt, F + 'operator<=(FieldInt const&) const': u_le,
    F + 'operator>(FieldInt const&) const': u_gt, F + 'operator>=(FieldInt const&) const': u_ge,
    F + 'operator<(Uint256 const&) const': u_lt, F + 'operator>=(Uint256 const&) const': u_ge,
    F + 'FieldInt(Uint256 const&)': f_ctor,
    'Ecdsa::multiplyModOrder(Uint256&, Uint256 const&)': e_mulmod,
}
