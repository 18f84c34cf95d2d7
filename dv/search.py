"""Concrete counterexample search against the real compiled code (never counted as proof)."""
import random, time, threading, json
from dv import oracle as o
from dv.oracle import P, N, M
H = lambda x: '%064x' % x
W = lambda x: ''.join('%08x' % (x >> 32 * i & 0xFFFFFFFF) for i in range(8))     # Java word order
def unW(s): return sum(int(s[8*i:8*i+8], 16) << 32 * i for i in range(len(s) // 8))
hx = lambda b: b.hex() if len(b) else '-'
us = lambda s: 'null' if s is None else (''.join('%04x' % ord(c) for c in s) or '-')
ah = lambda s: s.encode('latin-1').hex() or '-'

class Case:
    __slots__ = ('t', 'line', 'exp', 'note')
    def __init__(self, t, line, exp, note=''): self.t = t; self.line = line; self.exp = exp; self.note = note
    def bad(self, r):
        if callable(self.exp): return self.exp(r)
        return None if r == self.exp else 'expected %s' % self.exp[:400]

WORDS = [0, 1, 2, 0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0x7FFFFFFF, 0x3D1, 0x3D0, 0xFFFFFC2F, 0xFFFF0000, 0xFFFF]
HINTS = []    # values from counterexample models of failed obligations
def rnd(r):
    """a 256-bit value biased towards carry chains and the moduli"""
    if HINTS and r.random() < .5:
        h = r.choice(HINTS) % M
        return h if r.random() < .7 else h ^ (1 << r.randrange(256))
    k = r.randrange(12)
    if k < 3: return r.getrandbits(256)
    if k < 6: return sum((r.choice(WORDS) if r.random() < .75 else r.getrandbits(32)) << 32 * i for i in range(8))
    if k == 6: return (1 << r.randrange(257)) + r.randrange(-3, 4) & M - 1
    if k == 7: return (r.choice((P, N, P - N, (P + 1) // 2, (N + 1) // 2, M - P, M - N)) + r.randrange(-4, 5)) % M
    if k == 8: return r.getrandbits(r.randrange(1, 257))
    if k == 9: return M - 1 - r.getrandbits(r.randrange(1, 257))
    if k == 10:
        x = r.getrandbits(256); i = r.randrange(8); return x & ~(0xFFFFFFFF << 32 * i) | r.choice(WORDS) << 32 * i
    return r.randrange(8)
def pair(r):
    a = rnd(r); k = r.randrange(6)
    if k == 0: return a, a
    if k == 1: return a, a ^ (1 << r.randrange(256))
    if k == 2: return a, (M - 1 - a + r.randrange(3)) % M
    if k == 3: return a, (a + r.choice((1, -1, 1 << 32, -(1 << 32), 1 << r.randrange(256)))) % M
    return a, rnd(r)
def fe(r):
    x = rnd(r); return x if x < P else x - P if r.random() < .5 else r.randrange(P)
def fpair(r):
    a, b = pair(r); a %= P; b %= P
    if r.random() < .2: b = (P - a + r.randrange(-2, 3)) % P
    return a, b
def sc(r):
    k = r.randrange(8)
    if k == 0: return r.randrange(1, 40)
    if k == 1: return N - r.randrange(1, 40)
    if k == 2: return max(1, rnd(r) % N)
    if k == 3: return max(1, sum(r.choice((0, 0, 15, 1, 8, r.randrange(16))) << 4 * i for i in range(64)) % N)
    return r.randrange(1, N)
def anysc(r):
    k = r.randrange(5)
    if k == 0: return r.choice((0, 1, 2, N, N - 1, N + 1, N + 2, 2 * N % M, M - 1, P, P - 1))
    if k == 1: return rnd(r)
    if k == 2: return N + r.randrange(M - N)
    return sc(r)
def point(r):
    k = r.randrange(8)
    if k == 0: return None
    if k < 3: return o.ec_mul(r.randrange(1, 20), o.G)
    if k == 3: return o.ec_mul(N - r.randrange(1, 20), o.G)
    if k == 4:
        while True:
            p = o.lift_x(r.randrange(0, 50) if r.random() < .5 else P - r.randrange(1, 50))
            if p: return p if r.random() < .5 else (p[0], P - p[1])
    return o.ec_mul(r.randrange(1, N), o.G)
def zc(r):
    k = r.randrange(4)
    if k == 0: return 1
    z = fe(r); return z or 1
def rep(r, p=None):
    return o.proj(p, zc(r))
CP = ('pure', 'asm')

# ---------------------------------------------------------------- Java array layout helper
class JA:
    """a word array: 256-bit slots with random garbage"""
    def __init__(self, r, nslots):
        self.s = [r.getrandbits(256) if r.random() < .7 else M - 1 for _ in range(nslots)]
        self.extra = 0
    def hex(self): return ''.join(W(x) for x in self.s)
def jexpect(arr, dest, temps, ret):
    """response check: arr after, destinations {slot: value}, temp slots unconstrained, ret string"""
    want = dict(enumerate(arr.s)); want.update(dest)
    def f(resp):
        q = resp.split(' ')
        if len(q) != 2: return 'unexpected response'
        if ret is not None and q[0] != ret: return 'return value should be ' + ret
        v = [unW(q[1][64*i:64*i+64]) for i in range(len(arr.s))]
        for i, x in enumerate(v):
            if i in temps and i not in dest: continue
            if x != want[i]: return 'slot %d should be %s' % (i, H(want[i]))
    return f
def jslots(r, n, used, extra=1):
    """n distinct free slots in random order"""
    c = [i for i in range(n) if i not in used]; r.shuffle(c); return c

def c01(r, n):
    for _ in range(n):
        a, b = pair(r); e = r.randrange(2)
        for c in CP:
            t = c + ':U'
            s = a + b * e; yield Case(t, 'u add %s %s %d' % (H(a), H(b), e), '%s %s %d' % (H(s % M), H(b), s >> 256))
            s = a - b * e; yield Case(t, 'u sub %s %s %d' % (H(a), H(b), e), '%s %s %d' % (H(s % M), H(b), s < 0))
            yield Case(t, 'u shl %s' % H(a), '%s %s %d' % (H(2 * a % M), H(0), a >> 255))
            yield Case(t, 'u shr %s - %d' % (H(a), e), '%s %s 0' % (H(a >> e), H(0)))
            if r.random() < .1:
                yield Case(t, 'u add1 %s %s' % (H(a), H(b)), '%s %s %d' % (H((a + b) % M), H(b), (a + b) >> 256))
                yield Case(t, 'u sub1 %s %s' % (H(a), H(b)), '%s %s %d' % (H((a - b) % M), H(b), a < b))
                yield Case(t, 'u shr1 %s' % H(a), '%s %s 0' % (H(a >> 1), H(0)))
        A = JA(r, 4); x, y, z = r.randrange(4), r.randrange(4), r.randrange(4)
        A.s[y] = b; A.s[x] = a; b2 = A.s[y]
        s = a + b2 * e; yield Case('java', 'w Int256Math uintAdd %s %d %d %d %d' % (A.hex(), 8*x, 8*y, e, 8*z), jexpect(A, {z: s % M}, (), str(s >> 256)))
        s = a - b2 * e; yield Case('java', 'w Int256Math uintSubtract %s %d %d %d %d' % (A.hex(), 8*x, 8*y, e, 8*z), jexpect(A, {z: s % M}, (), str(int(s < 0))))
        yield Case('java', 'w Int256Math uintShiftLeft1 %s %d %d' % (A.hex(), 8*x, 8*z), jexpect(A, {z: 2 * a % M}, (), str(a >> 255)))
        yield Case('java', 'w Int256Math uintShiftRight1 %s %d %d %d' % (A.hex(), 8*x, e, 8*z), jexpect(A, {z: a >> e}, (), 'void'))

def c02(r, n):
    for _ in range(n):
        a, b = pair(r); e = r.randrange(2)
        al = r.random() < .1
        B = '=' if al else H(b)
        if al: b = a
        cmp = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
        for c in CP:
            t = c + ':U'
            for k, v in cmp.items():
                yield Case(t, 'u %s %s %s' % (k, H(a), B), '%s %s %d' % (H(a), H(b), v))
            if a < P and b < P:
                for k, v in cmp.items(): yield Case(t, 'f %s %s %s' % (k, H(a), B), '%s %s %d' % (H(a), H(b), v))
                yield Case(t, 'f rep %s %s %d' % (H(a), B, e), '%s %s 0' % (H(b if e else a), H(b)))
            yield Case(t, 'u rep %s %s %d' % (H(a), B, e), '%s %s 0' % (H(b if e else a), H(b)))
            yield Case(t, 'u swap %s %s %d' % (H(a), B, e), '%s %s 0' % ((H(b), H(a)) if e else (H(a), H(b))))
        A = JA(r, 3); x, y = r.randrange(3), r.randrange(3)
        A.s[y] = b; A.s[x] = a; b = A.s[y]
        yield Case('java', 'w Int256Math equalTo %s %d %d' % (A.hex(), 8*x, 8*y), jexpect(A, {}, (), str(int(a == b))))
        yield Case('java', 'w Int256Math lessThan %s %d %d' % (A.hex(), 8*x, 8*y), jexpect(A, {}, (), str(int(a < b))))
        yield Case('java', 'w Int256Math isZero %s %d' % (A.hex(), 8*x), jexpect(A, {}, (), str(int(a == 0))))
        yield Case('java', 'w Int256Math replace %s %d %d %d' % (A.hex(), 8*x, 8*y, e), jexpect(A, {x: b if e else a}, (), 'void'))
        yield Case('java', 'w Int256Math swap %s %d %d %d' % (A.hex(), 8*x, 8*y, e), jexpect(A, {x: b, y: a} if e else {}, (), 'void'))
        if a < P and b < P and x + 0 < 1: pass

def c03(r, n):
    from math import gcd
    for i in range(n):
        k = r.randrange(4)
        m = P if k == 0 else N if k == 1 else (r.choice((3, 5, 7, 9, 15, M - 1, 2**255 + 1, 2**255 - 19, 3**160, 2**128 + 1)) if k == 2 else rnd(r) | 1)
        if m < 3: m = 3
        kk = r.randrange(6)
        x = 0 if kk == 0 and r.random() < .5 else r.choice((1, 2, m - 1, m - 2, (m + 1) // 2, m // 2)) % m if kk == 1 else rnd(r) % m
        if x and gcd(x, m) != 1: continue
        v = pow(x, -1, m) if x else 0
        for c in CP:
            yield Case(c + ':U', 'u inv %s %s' % (H(x), H(m)), '%s %s 0' % (H(v), H(m)))
            if m == P: yield Case(c + ':U', 'f inv %s' % H(x), '%s %s 0' % (H(v), H(0)))
        A = JA(r, 10); u = jslots(r, 4, ()); sx, sy = u[0], u[1]; sz = r.choice((u[2], sx, sy)); A.s[sx] = x; A.s[sy] = m
        yield Case('java', 'w Int256Math reciprocal %s %d %d %d %d' % (A.hex(), 8*sx, 8*sy, 8*sz, 32), jexpect(A, {sz: v}, range(4, 10), 'void'))

def c04(r, n):
    J = (('fieldAdd', lambda a, b: a + b, 1, 2), ('fieldSubtract', lambda a, b: a - b, 1, 2), ('fieldMultiply', lambda a, b: a * b, 5, 2),
         ('fieldMultiply2', lambda a, b: 2 * a, 1, 1), ('fieldSquare', lambda a, b: a * a, 5, 1))
    for _ in range(n):
        a, b = fpair(r); u = rnd(r)
        for c in CP:
            t = c + ':U'
            for k, v in (('mul', a * b),) + ((('add', a + b), ('sub', a - b)) if a is not b else ()):
                yield Case(t, 'f %s %s %s' % (k, H(a), H(b)), '%s %s 0' % (H(v % P), H(b)))
            yield Case(t, 'f mul %s =' % H(a), '%s %s 0' % (H(a * a % P), H(a * a % P)))
            yield Case(t, 'f dbl %s' % H(a), '%s %s 0' % (H(2 * a % P), H(0)))
            yield Case(t, 'f sqr %s' % H(a), '%s %s 0' % (H(a * a % P), H(0)))
            yield Case(t, 'f fromU %s' % H(u), '%s - 0' % H(u % P))
        for nm, f, tw, ar in J:
            A = JA(r, 3 + tw); x, y, z = r.randrange(3), r.randrange(3), r.randrange(3)
            A.s[y] = b; A.s[x] = a; b2 = A.s[y]
            yield Case('java', 'w Int256Math %s %s %d %s%d %d' % (nm, A.hex(), 8*x, '%d ' % (8*y) if ar == 2 else '', 8*z, 24), jexpect(A, {z: f(a, b2) % P}, range(3, 3 + tw), 'void'))

MU = 2**256 + 2**32 + 0x3D1
def c05(r, n):
    t = 'asm:A'
    for _ in range(n):
        a, b = pair(r); e = r.randrange(2); al = r.random() < .1
        j = r.choice(('', 'j'))
        s = a + b * e; yield Case(t, 'a add' + j + ' %s %s %d' % (H(a), H(b), e), '%s %s %d' % (H(s % M), H(b), s >> 256))
        s = a - b * e; yield Case(t, 'a sub' + j + ' %s %s %d' % (H(a), H(b), e), '%s %s %d' % (H(s % M), H(b), s < 0))
        yield Case(t, 'a shl %s' % H(a), lambda q, a=a: None if q.split() == [H(2 * a % M), '5a5a5a5a' * 8, str(a >> 255)] else 'wrong shift')
        yield Case(t, 'a shr' + j + ' %s - %d' % (H(a), e), lambda q, a=a, e=e: None if q.split()[0] == H(a >> e) and 'overrun' not in q else 'wrong shift')
        B = '=' if al else H(b)
        if al: b = a
        yield Case(t, 'a rep' + j + ' %s %s %d' % (H(a), B, e), '%s %s 0' % (H(b if e else a), H(b)))
        yield Case(t, 'a swap' + j + ' %s %s %d' % (H(a), B, e), '%s %s 0' % ((H(b), H(a)) if e else (H(a), H(b))))
        yield Case(t, 'a eq %s %s' % (H(a), B), '%s %s %d' % (H(a), H(b), a == b))
        yield Case(t, 'a lt %s %s' % (H(a), B), '%s %s %d' % (H(a), H(b), a < b))
        yield Case(t, 'a Fmul %s %s' % (H(a), H(b)), '%0128x %s %s ok' % (a * b, H(a), H(b)))
        q = a * b if r.random() < .7 else a << 256 | b
        yield Case(t, 'a F0 %0128x' % q, '%0192x %0128x - ok' % (q * MU % (1 << 768), q))
        h = rnd(r)
        if h * P < 1 << 512: yield Case(t, 'a F1 %s' % H(h), '%0128x %s - ok' % (h * P % (1 << 512), H(h)))
        x = q; y = (q * MU >> 512) * P % (1 << 512)
        yield Case(t, 'a F2 %0128x %0128x' % (x, y), '%072x %0128x %0128x ok' % ((x - y) % (1 << 288), x, y))
        x, y = r.getrandbits(512), a << 256 | b
        yield Case(t, 'a F2 %0128x %0128x' % (x, y), '%072x %0128x %0128x ok' % ((x - y) % (1 << 288), x, y))

def ptres(want, tail=None):
    """response holds coordinates of a valid representation of point want"""
    def f(q):
        w = q.split(' ')
        try: c = [int(x, 16) for x in w[:3]]
        except ValueError: return 'unexpected response'
        if len(c) < 3: return 'unexpected response'
        if any(x >= P for x in c): return 'coordinate not reduced'
        if want is None:
            if not (c[0] == 0 and c[1] and c[2] == 0): return 'should represent the point at infinity'
        elif c[2] == 0 or o.affine(c) != want: return 'should represent %s' % (want,)
        if tail is not None and w[3:] != tail: return 'operand modified, expected %s' % tail
    return f
def pl(c): return ' '.join(H(x) for x in c)
def jpt(want, arr, pslot, temps):
    def f(resp):
        q = resp.split(' ')
        if len(q) != 2: return 'unexpected response'
        v = [unW(q[1][64*i:64*i+64]) for i in range(len(arr.s))]
        for i, x in enumerate(v):
            if i in temps or pslot <= i < pslot + 3: continue
            if x != arr.s[i]: return 'slot %d modified' % i
        c = v[pslot:pslot + 3]
        if callable(want): return want(c)
        return ptres(want)(pl(c))
    return f
def c06(r, n):
    for _ in range(n):
        p = point(r); k = r.randrange(5)
        q = p if k == 0 else (p and (p[0], P - p[1])) if k == 1 else None if k == 2 and r.random() < .5 else point(r)
        rp, rq = rep(r, p), rep(r, q)
        if k == 0 and r.random() < .3: rq = rp
        s = o.ec_add(p, q); d = o.ec_add(p, p)
        for c in CP:
            yield Case(c + ':P', 'p add %s %s' % (pl(rp), pl(rq)), ptres(s, pl(rq).split(' ')))
            yield Case(c + ':P', 'p dbl ' + pl(rp), ptres(d, []))
        A = JA(r, 20); A.s[0:3] = rp; A.s[3:6] = rq
        if r.random() < .5: A.s[0:3], A.s[3:6] = rq, rp; po, qo = 24, 0
        else: po, qo = 0, 24
        yield Case('java', 'w CurvePointMath add %s %d %d 48' % (A.hex(), po, qo), jpt(s, A, po // 8, range(6, 20)))
        A = JA(r, 12); A.s[0:3] = rp
        yield Case('java', 'w CurvePointMath twice %s 0 24' % A.hex(), jpt(d, A, 0, range(3, 11)))

def c07(r, n):
    for _ in range(n):
        p = point(r); k = anysc(r); rp = rep(r, p); s = o.ec_mul(k % N, p)
        for c in CP: yield Case(c + ':P', 'p mul %s %s' % (pl(rp), H(k)), ptres(s, [H(k)]))
        A = JA(r, 4 + 69); A.s[0:3] = rp; A.s[3] = k
        yield Case('java', 'w CurvePointMath multiply %s 0 24 32' % A.hex(), jpt(s, A, 0, range(4, 73)))

def norm_of(c):
    if c[2]: i = o.inv(c[2], P); return (c[0] * i % P, c[1] * i % P, 1)
    return (int(c[0] != 0), int(c[1] != 0), 0)
def c08(r, n):
    for i in range(n):
        p = point(r); c = rep(r, p)
        if r.random() < .3: c = tuple(r.choice((0, 1, fe(r), P - 1)) for _ in range(3))
        nz = norm_of(c); z = int(c[0] == 0 and c[1] != 0 and c[2] == 0)
        on = int(not z and (c[1]**2 - c[0]**3 - 7) % P == 0)
        d = rep(r, p) if r.random() < .4 else c if r.random() < .4 else tuple(r.choice((c[j], fe(r))) for j in range(3))
        for k in CP:
            t = k + ':P'
            yield Case(t, 'p norm ' + pl(c), pl(nz))
            yield Case(t, 'p norm ' + pl(nz), pl(nz))
            yield Case(t, 'p zero ' + pl(c), str(z))
            yield Case(t, 'p curve ' + pl(nz), str(int(not (nz[0] == 0 and nz[1] and nz[2] == 0) and (nz[1]**2 - nz[0]**3 - 7) % P == 0)))
            yield Case(t, 'p curve ' + pl(c), str(on))
            yield Case(t, 'p eq %s %s' % (pl(c), pl(d)), '%d %d' % (tuple(c) == tuple(d), tuple(c) != tuple(d)))
            e = r.randrange(2)
            yield Case(t, 'p rep %s %s %d' % (pl(c), pl(d), e), pl(d if e else c) + ' ' + pl(d))
            if nz[2]: yield Case(t, 'p comp ' + pl(nz), bytes([2 + (nz[1] & 1)]).hex() + H(nz[0]))
            if i % 8 == 0:
                s = sc(r); q = o.ec_mul(s, o.G)
                yield Case(t, 'p pub ' + H(s), pl(q + (1,)))
            if i == 0: yield Case(t, 'p consts', ' '.join(pl(x) for x in ((o.GX, o.GY, 1), (0, 1, 0), (N, 0, 7), (0, 1))))
        A = JA(r, 12); A.s[0:3] = c
        yield Case('java', 'w CurvePointMath normalize %s 0 24' % A.hex(), jpt(lambda v, nz=nz: None if tuple(v) == nz else 'normalized value should be ' + pl(nz), A, 0, range(3, 12)))
        yield Case('java', 'w CurvePointMath isZero %s 0' % A.hex(), jexpect(A, {}, (), str(z)))
        A = JA(r, 10); A.s[0:3] = c
        yield Case('java', 'w CurvePointMath isOnCurve %s 0 24' % A.hex(), jexpect(A, {}, range(3, 10), str(on)))
        A = JA(r, 6); A.s[0:3] = c; A.s[3:6] = d; e = r.randrange(2)
        yield Case('java', 'w CurvePointMath replace %s 0 24 %d' % (A.hex(), e), jexpect(A, dict(enumerate(d)) if e else {}, (), 'void'))

def msgh(r, d=None, k=None):
    q = r.randrange(6)
    if q == 0: return H(rnd(r))
    if q == 1: return H(N + r.randrange(M - N) if r.random() < .7 else M - 1)
    if q == 2: return H(r.choice((0, 1, N, N - 1, N + 1, M - 1)))
    return H(r.getrandbits(256))
SENT_R, SENT_S = 'c' * 64, 'd' * 64
def signcases(r, d, hh, k):
    w = o.ecdsa_sign(d, bytes.fromhex(hh), k)
    for c in CP:
        e = ('1 %s %s' % (H(w[0]), H(w[1]))) if w else '0 %s %s' % (SENT_R, SENT_S)
        yield Case(c + ':E', 'e sign %s %s %s' % (H(d), hh, H(k)), e + ' %s %s %s' % (H(d), H(k), hh))
    je = ('true %s %s' % (W(w[0]), W(w[1]))) if w else 'false %s %s' % ('c' * 64, 'd' * 64)
    yield Case('java', 'sign %s %s %s' % (W(d), hh, W(k)), je)
def c09(r, n):
    for i in range(n):
        d = sc(r); k = anysc(r) if r.random() < .4 else sc(r); hh = msgh(r)
        if r.random() < .15 and 0 < k < N:     # force s = 0
            rr = o.ec_mul(k, o.G)[0] % N; z = (-rr * d) % N
            hh = H(z if r.random() < .5 or z + N >= M else z + N)
        if r.random() < .4 and 0 < k < N:      # r*d close to 0 or n, so that z + r*d is close to n, 2n, 2^256
            rr = o.ec_mul(k, o.G)[0] % N; w = r.choice((N - 1, N - 2, 1, 2, M - N, N - (M - N), M - N - 1, M - N + 1)) % N
            if rr: d = pow(rr, -1, N) * w % N or 1; hh = H(r.choice((M - 1, N, N + 1, N - 1, N - w, M - w, 2 * N - w, 2 * N - w - 1, M - w - 1, N - w - 1, N - w + 1)) % M)
        yield from signcases(r, d, hh, k)
        x, y = rnd(r) % N, rnd(r)
        for _ in range(4):
            x, y = rnd(r) % N, rnd(r)
            for c in CP:
                yield Case(c + ':E', 'e mulord %s %s' % (H(x), H(y)), '%s %s' % (H(x * y % N), H(y)))
        A = JA(r, 4); A.s[1] = x
        yield Case('java', 'W Ecdsa multiplyModOrder %s 8 %s 0 16' % (A.hex(), W(y)), lambda q, A=A, x=x, y=y: None if (q.split(' ') + [''] * 3)[1][64:128] == W(x * y % N) and q.split(' ')[1][:64] == W(A.s[0]) and q.split(' ')[2] == W(y) else 'product mod order should be ' + H(x * y % N))
def c10(r, n):
    for i in range(n):
        d = sc(r); q = o.ec_mul(d, o.G); k = r.randrange(1, N); hh = msgh(r)
        w = o.ecdsa_sign(d, bytes.fromhex(hh), k)
        if not w: continue
        R, S = w; Q = q + (1,)
        m = r.randrange(13)
        if m == 1: S = N - S
        elif m == 2: R = rnd(r)
        elif m == 3: S = rnd(r)
        elif m == 4: R, S = r.choice(((0, S), (R, 0), (N, S), (R, N), (R + N if R + N < M else N, S), (R, S + N if S + N < M else N + 1)))
        elif m == 5: Q = o.proj(q, zc(r))
        elif m == 6: Q = r.choice(((0, 1, 0), (0, 0, 0), (0, 0, 1), (1, 1, 0), (q[0], q[1], 0), (0, fe(r), 0), (fe(r), fe(r), 1), (q[0], (q[1] + 1) % P, 1)))
        elif m == 7: hh = H(int(hh, 16) ^ 1 << r.randrange(256))
        elif m == 8:   # u1 G + u2 Q = infinity
            z = -R * d % N; hh = H(z)
        elif m == 9:   # x(kG) reduced wraps: r + n < p
            while True:
                rr = r.randrange(1, P - N); p = o.lift_x(rr + N)
                if p: break
            # choose Q = r^-1 (s R - z G)
            S = r.randrange(1, N); z = int(hh, 16)
            i1 = o.inv(rr, N); Qa = o.ec_add(o.ec_mul(S * i1 % N, p), o.ec_mul(-z * i1 % N, o.G))
            if Qa is None: continue
            Q = Qa + (1,); R = rr
        elif m == 10:  # r + n representation trick: r' = x + n - too small
            R = (R + r.choice((P - N, 1, -1))) % M
        elif m == 11: # kG = both terms equal (doubling inside add): u1 G = u2 Q
            z = R * d % N; hh = H(z)
            kk = 2 * z * o.inv(S, N) % N; R2 = o.ec_mul(kk, o.G)
        ok = o.ecdsa_verify(Q, bytes.fromhex(hh), R, S)
        for c in CP: yield Case(c + ':E', 'e ver %s %s %s %s' % (pl(Q), hh, H(R), H(S)), str(int(ok)))
        yield Case('java', 'ver %s %s %s %s' % (''.join(map(W, Q)), hh, W(R), W(S)), 'true' if ok else 'false')
def c11(r, n):
    for i in range(n):
        d = sc(r); k = sc(r); hh = msgh(r)
        if i % 2:
            rr = o.ec_mul(k, o.G)[0] % N; w = r.choice((N - 1, N - 2, M - N, N - (M - N)))
            if rr: d = pow(rr, -1, N) * w % N or 1; hh = H(r.choice((M - 1, N + 1, N - w + 1, 2 * N - w, M - w)) % M)
        q = o.ec_mul(d, o.G)
        w = o.ecdsa_sign(d, bytes.fromhex(hh), k)
        if not w: continue
        yield from signcases(r, d, hh, k)
        for S in (w[1], N - w[1]):
            for c in CP: yield Case(c + ':E', 'e ver %s %s %s %s' % (pl(q + (1,)), hh, H(w[0]), H(S)), '1')
            yield Case('java', 'ver %s %s %s %s' % (''.join(map(W, q + (1,))), hh, W(w[0]), W(S)), 'true')
def c12(r, n):
    for i in range(n):
        d = sc(r); hh = msgh(r); k = int.from_bytes(o.hmac('sha256', d.to_bytes(32, 'big'), bytes.fromhex(hh)), 'big')
        w = o.ecdsa_sign(d, bytes.fromhex(hh), k)
        if not w: continue
        for c in CP: yield Case(c + ':E', 'e hmac %s %s' % (H(d), hh), '1 %s %s %s - %s' % (H(w[0]), H(w[1]), H(d), hh))
        yield Case('java', 'sign %s %s hmac' % (W(d), hh), 'true %s %s' % (W(w[0]), W(w[1])))

def lens(r, B, big=True):
    k = r.randrange(6)
    if k == 0: return r.randrange(3 * B)
    if k < 4: return max(0, B * r.randrange(1, 5) + r.randrange(-20, 20))
    if k == 4: return r.randrange(12)
    return r.randrange(40 * B if big else 4 * B)
def rb(r, n):
    k = r.randrange(5)
    if k == 0: return bytes([r.choice((0, 0xFF, 0x80, 0x7F))]) * n
    if k == 1: return bytes(r.choice((0, 0xFF, 0x80)) for _ in range(n))
    return r.randbytes(n)
def hashcases(r, n, B, cname, jcls, f, extra=None):
    for i in range(n):
        m = rb(r, i if i <= 2 * B + 20 and i < n // 2 else lens(r, B)); e = hx(f(m))
        yield Case('pure:H', 'h %s %s' % (cname, hx(m)), e)
        yield Case('java', 'b %s getHash %s' % (jcls, hx(m)), e)
        if extra: yield from extra(m)
def split(r, m, B):
    k = r.randrange(1, 8); c = sorted(r.choice((r.randrange(len(m) + 1), min(len(m), B * r.randrange(4)), min(len(m), B * r.randrange(1, 3) + r.randrange(-2, 3)))) for _ in range(k))
    ps = []; a = 0
    for x in c: x = max(a, x); ps.append(m[a:x]); a = x
    ps.append(m[a:]); return ps
def c13(r, n):
    def ex(m):
        yield Case('pure:H', 'h sha256d ' + hx(m), hx(o.sha256d(m)))
        yield Case('java', 'b Sha256 getDoubleHash ' + hx(m), hx(o.sha256d(m)))
        yield Case('pure:H', 'h inc256 ' + ' '.join(hx(x) for x in split(r, m, 64)), hx(o.sha256(m)))
    yield from hashcases(r, n, 64, 'sha256', 'Sha256', o.sha256, ex)
def c14(r, n):
    yield from hashcases(r, n, 128, 'sha512', 'Sha512', o.sha512, lambda m: [Case('pure:H', 'h inc512 ' + ' '.join(hx(x) for x in split(r, m, 128)), hx(o.sha512(m)))])
def c15(r, n): yield from hashcases(r, n, 64, 'ripemd', 'Ripemd160', o.ripemd160)
def c16(r, n): yield from hashcases(r, n, 136, 'keccak', 'Keccak256', o.keccak256)
def c17(r, n):
    for i in range(n):
        for nm, B, cn, jc in (('sha256', 64, 'hmac256', 'Sha256'), ('sha512', 128, 'hmac512', 'Sha512')):
            k = rb(r, i if i <= B + 8 and i < n // 2 else r.choice((B - 1, B, B + 1, 0, lens(r, B, False)))); m = rb(r, lens(r, B, False))
            e = hx(o.hmac(nm, k, m))
            yield Case('pure:H', 'h %s %s %s' % (cn, hx(k), hx(m)), e)
            yield Case('java', 'b %s getHmac %s %s' % (jc, hx(k), hx(m)), e)

def zb(r, n):
    b = bytearray(r.randbytes(n)); z = r.choice((0, 0, 0, 1, 2, r.randrange(n + 1), n))
    b[:z] = bytes(z)
    if r.random() < .1: b = bytearray(b'\xff' * n)
    return bytes(b)
def xser(k, c, dp, i, fp): return bytes.fromhex('0488ADE4') + bytes([dp]) + fp + i.to_bytes(4, 'big') + c + b'\0' + k.to_bytes(32, 'big')
def c18(r, n):
    for i in range(n):
        h = zb(r, 20); v = r.choice((0, 0, 5, 111, 255, r.randrange(256)))
        k = r.choice((rnd(r), r.getrandbits(256), r.getrandbits(8 * r.randrange(1, 32))))
        c = r.randrange(2); s = o.b58check(bytes([v]) + h)
        yield Case('pure:B', 'b epub %s %d' % (hx(h), v), ah(s))
        yield Case('pure:B', 'b epriv %s %d %d' % (H(k), v, c), ah(o.b58check(bytes([v]) + k.to_bytes(32, 'big') + b'\1' * c)))
        x = (k, zb(r, 32), r.randrange(256), r.choice((0, 0x80000000, 0xFFFFFFFF, r.getrandbits(32))), r.randbytes(4))
        yield Case('pure:B', 'b exprv %s %s %d %d %s' % (H(k), hx(x[1]), x[2], x[3], hx(x[4])), ah(o.b58check(xser(*x))))
        d = zb(r, r.randrange(60)); yield Case('java', 'b Base58Check bytesToBase58 ' + hx(d), us(o.b58check(d)))
        yield Case('java', 'b Base58Check rawBytesToBase58 ' + hx(d), us(o.b58(d)))
def mut(r, s):
    """near-miss strings"""
    s = list(s); k = r.randrange(12)
    if not s: return '1' * r.randrange(3)
    if k == 0: s[r.randrange(len(s))] = r.choice(o.B58)
    elif k == 1: s.insert(0, '1')
    elif k == 2: del s[0]
    elif k == 3: s.insert(r.randrange(len(s) + 1), r.choice(o.B58))
    elif k == 4: s[r.randrange(len(s))] = r.choice('0OIl \t~!\x7f')
    elif k == 5: del s[r.randrange(len(s))]
    elif k == 6 and len(s) > 1: i = r.randrange(len(s) - 1); s[i], s[i + 1] = s[i + 1], s[i]
    elif k == 7: s = ['1'] * len(s)
    elif k == 8: s = ['z'] * len(s)
    elif k == 9: s[r.randrange(len(s))] = chr(r.randrange(128, 256))
    return ''.join(s)
def rawck(b): return o.b58(b + o.sha256d(b)[:4])
def c19(r, n):
    for i in range(n):
        # address
        p = bytes([r.choice((0, 0, 5, 255, r.randrange(256)))]) + zb(r, 20)
        s = o.b58check(p)
        k = r.randrange(8)
        if k < 3: s = mut(r, s)
        elif k == 3: s = rawck(zb(r, r.choice((20, 22, 21, 19, 24))))
        elif k == 4: s = o.b58(p + r.randbytes(4))
        elif k == 5 and r.random() < .5: # overflow: value + 2^200
            b = p + o.sha256d(p)[:4]; s = o.b58((int.from_bytes(b, 'big') + (r.randrange(1, 57) << 200)).to_bytes(26, 'big').lstrip(b'\0'))
        w = o.b58checkdec(s, 25)
        nul = ' n' if r.random() < .1 else ''
        yield Case('pure:B', 'b dpub %s%s' % (ah(s), nul), '1 %s %d' % (hx(w[1:]), w[0] if not nul else 0xCC) if w is not None and len(s) else '0 %s 204' % ('cc' * 20))
        yield Case('java', 's Base58Check base58ToBytes ' + us(s), jdec(o.b58checkdec(s)))
        # private key
        v = r.choice((0x80, 0, r.randrange(256))); kk = r.choice((rnd(r), r.getrandbits(256), r.getrandbits(200))); c = r.randrange(2)
        p = bytes([v]) + kk.to_bytes(32, 'big') + (b'' if not c else bytes([1 if r.random() < .8 else r.randrange(256)]))
        s = o.b58check(p); k = r.randrange(7)
        if k < 2: s = mut(r, s)
        elif k == 2: s = rawck(zb(r, r.choice((32, 33, 34, 35, 31))))
        w = o.b58checkdec(s, 37); cc = 0
        if w is None: w = o.b58checkdec(s, 38); cc = 1
        if w is not None and cc and w[33] != 1: w = None
        nul = ' n' if r.random() < .1 else ''
        if w is not None: q = (1, int.from_bytes(w[1:33], 'big')); e = '%s %s %s %s %s %s %s %s' % (1, H(q[1]), w[0] if not nul else 204, cc if not nul else 1, 1, H(q[1]), w[0] if not nul else 0x33, cc if not nul else 0)
        else: e = '0 %s 204 1 0 %s 51 0' % ('c' * 64, '3' * 64)
        yield Case('pure:B', 'b dpriv %s%s' % (ah(s), nul), e)
        # extended key
        if i % 3 == 0:
            kk = r.choice((sc(r), sc(r), 0, N, N + 1, M - 1, r.getrandbits(256)))
            x = (kk, r.randbytes(32), r.randrange(256), r.getrandbits(32), r.randbytes(4)); p = bytearray(xser(*x))
            m = r.randrange(6)
            if m == 0: p[r.randrange(4)] ^= 1 << r.randrange(8)
            elif m == 1: p[45] = r.choice((1, 128, 255))
            s = o.b58check(bytes(p))
            if m == 2: s = mut(r, s)
            w = o.b58checkdec(s, 82) if len(s) == 111 else None
            if w is not None and (w[:4] != bytes.fromhex('0488ADE4') or w[45] or not 0 < int.from_bytes(w[46:], 'big') < N): w = None
            if w is None: f = lambda q: None if q.startswith('0 %s %s 204 %d %s' % ('c' * 64, 'cc' * 32, 0xCCCCCCCC, 'cc' * 4)) else 'should be rejected leaving the output unmodified'
            else:
                kv = int.from_bytes(w[46:], 'big')
                e = '1 %s %s %d %d %s %s' % (H(kv), hx(w[13:45]), w[4], int.from_bytes(w[9:13], 'big'), hx(w[5:9]), pl(o.ec_mul(kv, o.G) + (1,)))
                f = e
            yield Case('pure:B', 'b dxprv ' + ah(s), f)
        # Java decoder, arbitrary short payloads and odd strings
        q = r.choice((o.b58check(zb(r, r.randrange(8))), o.b58(zb(r, r.randrange(6))), mut(r, o.b58check(zb(r, r.randrange(40)))), '', '1', '11', '111', '1111', '2', 'zz', '0', 'é', '1' * r.randrange(10)))
        yield Case('java', 's Base58Check base58ToBytes ' + us(q), jdec(o.b58checkdec(q)))
        yield Case('java', 's Base58Check base58ToRawBytes ' + us(q), jdec(o.b58dec(q)))
IAE = 'EXC java.lang.IllegalArgumentException'
def isiae(q):
    return None if q.startswith(IAE) or q.startswith('EXC java.lang.NumberFormatException') else 'should be rejected with an illegal-argument error'
def jdec(w): return isiae if w is None else hx(w)
def c20(r, n):
    yield from c18(r, n)
    for i in range(n):
        p = bytes([r.choice((0, r.randrange(256)))]) + zb(r, 20); yield Case('pure:B', 'b dpub ' + ah(o.b58check(p)), '1 %s %d' % (hx(p[1:]), p[0]))
        v = r.randrange(256); k = r.choice((rnd(r), r.getrandbits(256))); c = r.randrange(2)
        yield Case('pure:B', 'b dpriv ' + ah(o.b58check(bytes([v]) + k.to_bytes(32, 'big') + b'\1' * c)), '1 %s %d %d 1 %s %d %d' % (H(k), v, c, H(k), v, c))
        x = (sc(r), zb(r, 32), r.randrange(256), r.getrandbits(32), r.randbytes(4))
        if i % 4 == 0: yield Case('pure:B', 'b dxprv ' + ah(o.b58check(xser(*x))), '1 %s %s %d %d %s %s' % (H(x[0]), hx(x[1]), x[2], x[3], hx(x[4]), pl(o.ec_mul(x[0], o.G) + (1,))))
        d = zb(r, r.randrange(90)); yield Case('java', 's Base58Check base58ToBytes ' + us(o.b58check(d)), hx(d))
def c21(r, n):
    for i in range(n):
        k = sc(r); c = zb(r, 32); d = r.randrange(255); ix = r.choice((0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, r.getrandbits(32))); fp = r.randbytes(4); pi = r.getrandbits(32)
        w = o.ckd(k, c, d, ix)
        e = '%s %s %d %d %s %s' % (H(w[0]), hx(w[1]), w[2], w[3], hx(w[4]), pl(o.ec_mul(w[0], o.G) + (1,)))
        for t in CP: yield Case(t + ':X', 'x child %s %s %d %d %s %d' % (H(k), hx(c), d, pi, hx(fp), ix), e)
        if i % 5 == 0:
            e = '%s %s %d %d %s %s' % (H(k), hx(c), d, pi, hx(fp), pl(o.ec_mul(k, o.G) + (1,)))
            yield Case('pure:X', 'x ctor %s %s %d %d %s' % (H(k), hx(c), d, pi, hx(fp)), e)
def hrp(r):
    k = r.randrange(6)
    if k == 0: return 'bc'
    if k == 1: return '1' * r.randrange(1, 5)
    s = ''.join(chr(r.randrange(33, 127)) for _ in range(r.choice((1, 2, 3, 5, r.randrange(1, 84)))))
    return s.lower() if r.random() < .9 else s
def jstr(w): return isiae if w is None else us(w)
def c22(r, n):
    for i in range(n):
        h = hrp(r); d = [r.randrange(32) for _ in range(r.randrange(0, max(1, 86 - len(h))))]
        k = r.randrange(10)
        if k == 0 and d: d[r.randrange(len(d))] = r.choice((32, 33, 64, 127, 128, 255, 224))
        elif k == 1: h = r.choice(('', 'a' * 83, 'a' * 84, 'A', 'b\x7f', 'b\x20', '\x21', '~', 'é', 'aB'))
        elif k == 2: d = [r.randrange(32) for _ in range(90 - 7 - len(h) + r.randrange(-1, 3))] if len(h) < 80 else d
        yield Case('java', 'g2b %s %s' % (us(h), hx(bytes(d))), jstr(o.bech32_enc(h, d)))
        v = r.choice((0, 1, 16, 17, -1, r.randrange(17))); p = rb(r, r.choice((0, 1, 2, 20, 32, 40, 41, r.randrange(45)))); h = r.choice(('bc', 'tb', h))
        yield Case('java', 's2b %s %d %s' % (us(h), v, hx(p)), jstr(o.segwit_enc(h, v, p)))
def mutb(r, s):
    k = r.randrange(12); L = list(s)
    if not L: return s
    i = r.randrange(len(L))
    if k == 0: L[i] = r.choice(o.BA)
    elif k == 1: L[i] = L[i].swapcase()
    elif k == 2: return s.upper()
    elif k == 3: L[i] = r.choice('bio1 \x7f\x80é')
    elif k == 4: del L[i]
    elif k == 5: L.insert(i, r.choice(o.BA))
    elif k == 6: return s.replace('1', '')
    elif k == 7: j = s.rfind('1'); return s[:j].upper() + s[j:]
    elif k == 8: j = s.rfind('1'); return s[:j] + s[j:].upper()
    elif k == 9: return s[:r.randrange(len(s))]
    elif k == 10: return s[s.rfind('1'):]
    elif k == 11: return s.upper()[:i] + s[i:]
    return ''.join(L)
def c23(r, n):
    for i in range(n):
        h = hrp(r); d = [r.randrange(32) for _ in range(r.randrange(0, max(1, 84 - len(h))))]
        s = o.bech32_enc(h, d) or 'a1lqfn3a'
        if r.random() < .12:   # valid checksum over too long strings / wrong constants
            hh = h.lower(); c = o.polymod(o.hexp(hh) + d + [0] * 6) ^ r.choice((1, 0, 0x2bc830a3)); s = hh + '1' + ''.join(o.BA[x] for x in d) + ''.join(o.BA[c >> 5 * (5 - i) & 31] for i in range(6))
        if r.random() < .08:
            hh = r.choice(('', 'a' * 84, 'a' * 83, 'b\x7f', '\x20')); dd = d[:2]; c = o.polymod(o.hexp(hh) + dd + [0] * 6) ^ 1; s = hh + '1' + ''.join(o.BA[x] for x in dd) + ''.join(o.BA[c >> 5 * (5 - i) & 31] for i in range(6))
        if r.random() < .5: s = mutb(r, s)
        w = o.bech32_dec(s)
        yield Case('java', 'b2g ' + us(s), isiae if w is None else '%s %s' % (us(w[0]), hx(bytes(w[1]))))
        # segwit
        v = r.randrange(20) % 32; nb = r.choice((2, 20, 32, 40, 1, 41, 0, r.randrange(45))); p = r.randbytes(nb)
        bits = ''.join('{:08b}'.format(b) for b in p); bits += r.choice(('0', '0', '1')) * (-len(bits) % 5)
        if r.random() < .3: bits += r.choice(('00000', '00001', '0000000000'))
        dd = [v] + [int(bits[j:j + 5], 2) for j in range(0, len(bits), 5)]
        if r.random() < .05: dd = []
        s = o.bech32_enc('bc', dd) or 'bc1gmk9yu'
        if r.random() < .2: s = mutb(r, s)
        w = o.segwit_dec(s)
        yield Case('java', 'b2s ' + us(s), isiae if w is None else '%s %d %s' % (us(w[0]), w[1], hx(w[2])))
        if o.bech32_dec(s) is not None: pass

def ctcmp(q):
    if q not in ('same', 'unsuccessful'): return 'sequence of branches and addresses depends on the operands'
def c24(r, n):
    Hh = lambda *x: ''.join(W(v) for v in x)
    U2 = 'uadd usub urep uswap ueq une ult ule ugt uge heq hne ufromb hctor'.split(); U1 = 'ushl ushr ugetbe ffromu'.split()
    F2 = 'fadd fsub fmul frep feq fne flt fle fgt fge'.split(); F1 = 'fdbl fsqr finv'.split()
    P2 = 'padd prep peq pne'.split(); P1 = 'ptwice pnorm pzero pcurve'.split()
    def val(op):
        if op in U2: return Hh(*pair(r))
        if op in U1: return Hh(rnd(r))
        if op in F2: return Hh(*fpair(r))
        if op in F1: return Hh(fe(r))
        if op == 'urecip': return Hh(fe(r))
        if op == 'ureciN': return Hh(rnd(r) % N)
        if op in P1: return Hh(*rep(r))
        if op in P2:
            p = point(r); q = p if r.random() < .2 else (o.ec_neg(p) if hasattr(o, "ec_neg") else p and (p[0], P - p[1])) if r.random() < .2 else point(r)
            return Hh(*(rep(r, p) + rep(r, q)))
        if op == 'pcomp':
            p = point(r)
            while p is None: p = point(r)
            return Hh(*p, 1)
        if op == 'pmul': return Hh(*rep(r), rnd(r))
        if op == 'ppub': return Hh(r.randrange(1, N) if r.random() < .7 else r.choice((1, 2, N - 1, N - 2)))
        if op in ('sign', 'signh'): return Hh(sc(r) or 1, rnd(r), sc(r) or 1)
    for i in range(n):
        for op in U2 + U1 + F2 + F1 + P2 + P1 + ['urecip', 'ureciN', 'pcomp'] + (['pmul', 'ppub', 'sign', 'signh'] if i % 8 == 0 else []):
            for cfg in ('pure', 'asm'):
                e = lambda: r.randrange(2)
                yield Case('trace:' + cfg, '%s %s %d %s %d' % (op, val(op), e(), val(op), e()), ctcmp)
def c26(r, n):
    for i in range(n):
        b = rb(r, 32); c = b if r.random() < .3 else bytes(x ^ (1 << r.randrange(8) if j == (i % 32) else 0) for j, x in enumerate(b)) if r.random() < .6 else rb(r, 32)
        s = b[::-1].hex(); t = ''.join(x.upper() if r.random() < .5 else x for x in s)
        yield Case('pure:C', 'c hb ' + hx(b), hx(b)); yield Case('pure:C', 'c hs ' + ah(t), hx(b))
        yield Case('pure:C', 'c heq %s %s' % (hx(b), hx(c)), '%d %d' % (b == c, b != c))
        yield Case('java', 'hb ' + hx(b), '%s %s' % (hx(b), us(s))); yield Case('java', 'hs ' + us(t), '%s %s' % (hx(b), us(s)))
        g = (b[::-1] > c[::-1]) - (b[::-1] < c[::-1])
        def f(q, g=g, e=b == c):
            w = q.split(' ')
            if len(w) != 8 or int(w[0]) != g or int(w[1]) != -g: return 'ordering should be %d' % g
            if w[2] != str(e).lower() or w[3] != w[2]: return 'equality should be %s' % e
            if e and w[4] != 'true': return 'hash codes of equal objects differ'
            if w[5] != 'false' or w[6] != 'false' or w[7] != 'true': return 'equality with foreign objects'
        yield Case('java', 'hcmp %s %s' % (hx(b), hx(c)), f)
        bad = r.choice((b[:31], b + b'\0', b'')); yield Case('java', 'hb ' + hx(bad), isiae)
        k = r.randrange(64); bs = r.choice((t[:63], t + '0', '', t[:k] + r.choice('gG /:@`x-+\u0660é') + t[k + 1:])); yield Case('java', 'hs ' + us(bs), isiae)
def c27(r, n):
    for i in range(n):
        a = rnd(r); s = H(a); t = ''.join(x.upper() if r.random() < .5 else x for x in s)
        for c in CP:
            yield Case(c + ':C', 'c us ' + ah(t), s); yield Case(c + ':C', 'c ub ' + s, s); yield Case(c + ':C', 'c gb ' + s, s)
            if a < P: yield Case(c + ':C', 'c fs ' + ah(t), s)
        k = r.randrange(48, 58) if i % 3 == 0 else r.choice(b'abcdefABCDEF'); yield Case('pure:C', 'c phd %d' % k, str(int(chr(k), 16)))
        if i < 400: yield Case('pure:C', 'c phd %d' % (i - 60), str(int(chr(i - 60), 16)) if 0 <= i - 60 < 128 and chr(i - 60) in '0123456789abcdefABCDEF' else '-1')
        A = JA(r, 3); x = r.randrange(3); A.s[x] = a
        B = JA(r, 3); want = list(B.s); want[x] = a; WW = ''.join(map(W, want))
        yield Case('java', 'h2u %s %s %d' % (us(t), B.hex(), 8 * x), WW); yield Case('java', 'b2u %s %s %d' % (s, B.hex(), 8 * x), WW)
        yield Case('java', 'u2h %s %d' % (A.hex(), 8 * x), us(s)); yield Case('java', 'u2b %s %d' % (A.hex(), 8 * x), s)
        k = r.randrange(64); bs = r.choice((t[:63], t + '0', '', t[:k] + r.choice('gG /:@`x-+\u0660é') + t[k + 1:]))
        yield Case('java', 'h2u %s %s 0' % (us(bs), B.hex()), isiae)
        yield Case('java', 'b2u %s %s 0' % (hx(r.choice((bytes(31), bytes(33), b''))), B.hex()), isiae)
        v = r.getrandbits(32); yield Case('pure:C', 'c sbu %d' % v, '%08x' % v)
def c28(r, n):
    for i in range(n):
        for g in (c01, c02, c04): yield from (c for c in g(r, 2) if c.t == 'java')
        if i % 4 == 0: yield from (c for c in c03(r, 2) if c.t == 'java')
        if i % 4 == 1:
            for g in (c06, c08): yield from (c for c in g(r, 2) if c.t == 'java')
        if i % 16 == 2: yield from (c for c in c07(r, 1) if c.t == 'java')
        if i % 8 == 3: yield from (c for c in c09(r, 1) if c.t == 'java')
def c25(r, n):
    gens = [(c01, 3), (c02, 3), (c03, 2), (c04, 3), (c05, 3), (c06, 2), (c07, 1), (c08, 2), (c09, 1), (c10, 1), (c12, 1), (c13, 2), (c14, 2), (c15, 2), (c16, 2), (c17, 2), (c18, 2), (c19, 2), (c21, 1), (c22, 2), (c23, 3), (c26, 2), (c27, 2)]
    def crash(c):
        e = c.exp
        def f(q):
            if q.startswith('CRASH') or q.startswith('HANG'): return 'must not fail'
            if q.startswith('EXC') and (e is not isiae): return 'must not throw'
            if q.startswith('EXC') and not q.startswith(IAE) and not q.startswith('EXC java.lang.NumberFormatException'): return 'undocumented exception'
            if 'overrun' in q: return 'write outside the destination'
        return Case(c.t, c.line, f)
    for i in range(n):
        for g, k in gens:
            for c in g(r, k): yield crash(c)
GEN = {'C%02d' % i: globals().get('c%02d' % i) for i in range(1, 29)}
SIZE = {'C01': 700, 'C02': 400, 'C03': 60, 'C04': 500, 'C05': 500, 'C06': 120, 'C07': 14, 'C08': 80, 'C09': 10, 'C10': 14, 'C11': 7, 'C12': 10, 'C13': 330, 'C14': 560, 'C15': 240, 'C16': 260, 'C17': 300,
        'C18': 120, 'C19': 110, 'C20': 70, 'C21': 10, 'C22': 500, 'C23': 900, 'C24': 16, 'C25': 4, 'C26': 250, 'C27': 300, 'C28': 60}

def run(prop, builder, seed, budget, violations, stats):
    """violations: list to extend with dicts; stats: dict"""
    g = GEN.get(prop)
    if g is None: return
    r = random.Random(seed * 1000003 + int(prop[1:]))
    t0 = None; procs = {}; lock = threading.Lock()
    stats.update(evaluations=0, distinct=0, skipped=[], samples=[])
    seen = set()
    while t0 is None or time.time() - t0 < budget:
        cases = list(g(r, SIZE[prop]))
        by = {}
        for c in cases:
            key = (c.t, c.line)
            if key in seen: continue
            seen.add(key); by.setdefault(c.t, []).append(c)
        # spread over several processes per target
        work = []
        for t, cs in by.items():
            k = 1 if t == 'java' else min(3, max(1, len(cs) // 20))
            for j in range(k): work.append((t, j, cs[j::k]))
        def go(t, j, cs):
            if (t, j) not in procs: procs[(t, j)] = builder.proc(t)
            p = procs[(t, j)]
            if p is None:
                with lock:
                    if t not in stats['skipped']: stats['skipped'].append(t)
                return
            for i in range(0, len(cs), 2000):
                ch = cs[i:i + 2000]
                res = p.run([c.line for c in ch], max_crashes=5)
                for c, q in zip(ch, res):
                    if q == '?':
                        with lock:
                            nm = t + ' ' + ' '.join(c.line.split(' ')[:3 if c.line[:2] in ('w ', 'W ', 'b ', 's ') and t == 'java' else 2])
                            if nm not in stats['skipped']: stats['skipped'].append(nm)
                        continue
                    try: b = c.bad(q)
                    except Exception as e: b = 'unexpected response'
                    with lock:
                        stats['evaluations'] += 1
                        if b: violations.append({'target': c.t, 'line': c.line, 'got': q, 'why': b})
        def safe(*w):
            try: go(*w)
            except Exception as e:
                with lock: stats['skipped'].append('%s: %r' % (w[0], e))
        ths = [threading.Thread(target=safe, args=w) for w in work]
        for x in ths: x.start()
        for x in ths: x.join()
        if not stats['samples'] and cases: stats['samples'] = [{'target': c.t, 'line': c.line[:300]} for c in r.sample(cases, min(5, len(cases)))]
        if violations: break
        if t0 is None: t0 = time.time()
    stats['distinct'] = len(seen)
    for p in procs.values():
        if p: p.stop()
