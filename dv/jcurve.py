"""Contracts and verification units of the Java point arithmetic and ECDSA."""
from dv import terms as t, curve, cuts, cpppt, cppecdsa as ce
from dv.symex import *
from dv.spec import *
from dv.cppnum import *
from dv.cpppt import rpt, wpt, ptt, zeroq, curveq, ranges, leaves_ok, run_rel
from dv.curve import point, ptadd, ptdbl, ptmul, ptnorm, gpoint
from dv.java import *
from dv.jvm import PKG
from dv.prove import P256, N256

CPM = 'CurvePointMath.'
PTEMP = {'add': 112, 'twice': 64, 'multiply': 520, 'normalize': 72, 'isOnCurve': 56}
def pt(c, v, o): return sl(c, v, o, 24, 'point')
def j_add(c, v, p, q, tm):
    p, q = pt(c, v, p), pt(c, v, q)
    w = temp(c, v, tm, 112, (p, 24), (q, 24)); apart(c, p, 24, q, 24, 'the points are apart')
    a, b = rpt(c, p), rpt(c, q); junk(c, w, 112); wpt(c, p, ptadd(ptt(a), ptt(b)))
def j_twice(c, v, p, tm):
    p = pt(c, v, p); w = temp(c, v, tm, 64, (p, 24)); a = rpt(c, p); junk(c, w, 64); wpt(c, p, ptdbl(ptt(a)))
def j_mul(c, v, p, n, tm):
    p, n = pt(c, v, p), sl(c, v, n)
    w = temp(c, v, tm, 520, (p, 24), (n, 8)); apart(c, p, 24, n, 8, 'point and scalar are apart')
    a = rpt(c, p); k = c.r256(n); junk(c, w, 520); wpt(c, p, ptmul(ptt(a), k))
def j_norm(c, v, p, tm):
    p = pt(c, v, p); w = temp(c, v, tm, 72, (p, 24)); a = rpt(c, p); junk(c, w, 72); wpt(c, p, ptnorm(ptt(a)))
def j_replace(c, v, p, q, e):
    p, q = pt(c, v, p), pt(c, v, q); same_or_apart(c, p, q, 24); e = en(c, e); a, b = rpt(c, p), rpt(c, q)
    wpt(c, p, t.concat(*[t.ite(e, y, x) for x, y in reversed(list(zip(a, b)))]))
def j_iszero(c, v, p): return b32(zeroq(rpt(c, pt(c, v, p))))
def j_oncurve(c, v, p, tm):
    p = pt(c, v, p); w = temp(c, v, tm, 56, (p, 24)); a = rpt(c, p); junk(c, w, 56); return b32(curveq(a))
def j_base(c):
    q = c.ex.new_array(c.st, 'I', 24); wpt(c, q, gpoint()); return q
SPECS.update({
    CPM + 'add([IIII)': j_add, CPM + 'twice([III)': j_twice, CPM + 'multiply([IIII)': j_mul, CPM + 'normalize([III)': j_norm,
    CPM + 'replace([IIII)': j_replace, CPM + 'isZero([II)': j_iszero, CPM + 'isOnCurve([III)': j_oncurve, CPM + 'checkPoint([II)': checkPoint,
    CPM + 'copy([II[II)': m_copy(24), CPM + 'getBasePoint()': j_base,
})

def setpt(ex, st, oid, vals=None):
    vs = [vals[i] if vals else t.var('%s.%s' % (oid, k), 256) for i, k in enumerate('xyz')]
    for i, x in enumerate(vs): st.mem[oid].put(32 * i, 32, x)
    return vs
def getp(st, oid): return [st.mem[oid].get(32 * i, 32) for i in range(3)]

class JavaPt:
    """how the relational proofs of cpppt address the Java functions"""
    names = {'add': CPM + 'add([IIII)', 'twice': CPM + 'twice([III)', 'multiply': CPM + 'multiply([IIII)', 'normalize': CPM + 'normalize([III)'}
    sig = {'add': 'pq', 'twice': 'p', 'multiply': 'pn', 'normalize': 'p'}
    @classmethod
    def setup(w, fn, ex, st):
        regs = {k: (8 if k == 'n' else 24, None) for k in w.sig[fn]}; n = PTEMP[fn]; regs['temp'] = (n, None)
        v, o = words(ex, st, regs); vals = {}
        for k in w.sig[fn]:
            if k == 'n': vals[k] = st.mem['val.n'].get(0, 32)
            else: vals[k] = setpt(ex, st, 'val.' + k)
        return [v] + [o[k] for k in w.sig[fn]] + [o['temp']], vals
    @staticmethod
    def result(st, args): return getp(st, 'val.p')
    @classmethod
    def modifies(w, fn): return lambda a: [(P('val.p'), 96), (P('val.temp'), 4 * PTEMP[fn])]

def punits():
    """point functions with an exact contract"""
    r = {}
    def one(ex, st, tmp=0):
        regs = {'p': (24, None)}
        if tmp: regs['temp'] = (tmp, None)
        v, o = words(ex, st, regs); setpt(ex, st, 'val.p'); return [v, o['p']] + ([o['temp']] if tmp else [])
    def two(ex, st):
        v, o = words(ex, st, {'p': (24, None), 'q': (24, None)}); setpt(ex, st, 'val.p'); setpt(ex, st, 'val.q'); return [v, o['p'], o['q'], b32(t.var('en', 1))]
    def same(ex, st):
        v, o = words(ex, st, {'p': (24, None)}); setpt(ex, st, 'val.p'); return [v, o['p'], o['p'], b32(t.var('en', 1))]
    r[CPM + 'replace([IIII)'] = [('', two), (' [same point]', same)]
    r[CPM + 'isZero([II)'] = [('', one)]; r[CPM + 'checkPoint([II)'] = [('', one)]
    r[CPM + 'isOnCurve([III)'] = [('', lambda ex, st: one(ex, st, 56))]
    def cp(ex, st):
        v, o = words(ex, st, {'p': (24, None)}); w, q = words(ex, st, {'q': (24, None)}, 'dst'); return [v, o['p'], w, q['q']]
    r[CPM + 'copy([II[II)'] = [('', cp)]
    r[CPM + 'getBasePoint()'] = [('', lambda ex, st: [])]
    return r

# ------------------------------------------------------------------ ECDSA
EC = 'Ecdsa.'
HCLS = PKG + 'Sha256Hash'
HASH = 'Lio/nayuki/bitcoin/crypto/Sha256Hash;'
def find(S, pre):
    r = [k for k in S.prog.bydem if k.startswith(pre)]
    return r[0] if r else pre
SIGN = EC + 'sign([I%s[I[I[I)' % HASH; SIGNH = EC + 'signWithHmacNonce([I%s[I[I)' % HASH; VERIFY = EC + 'verify([I%s[I[I)' % HASH
MULMOD = EC + 'multiplyModOrder([II[III)'

def hcell(c, h):
    """the byte array held by a Sha256Hash"""
    o = c.ex.deref(c.st, h); off, ds = c.ex.ifield(HCLS, 'hash')
    p = o.get(off, 8)
    if not isinstance(p, Ptr): raise Unsupported('hash object without contents')
    return p
def hobj(ex, st, name, val=None):
    """a Sha256Hash whose 32 bytes are the variable `name` (memory order)"""
    p = ex.instance(st, HCLS, name + '.obj', oid=name + '.obj')
    b = ex.new_array(st, 'B', 32, name, oid=name, ro=True)
    st.mem[name].put(0, 32, val if val is not None else t.var(name, 256))
    st.mem[p.obj].put(ex.ifield(HCLS, 'hash')[0], 8, b)
    st.mem[p.obj].ro = True
    return p
def newbytes(c, v, n=32, name='bytes'):
    p = c.ex.new_array(c.st, 'B', n, name); c.w(p, v); return p
def newhash(c, v):
    p = c.ex.instance(c.st, HCLS, 'hash'); b = newbytes(c, v)
    c.st.mem[p.obj].put(c.ex.ifield(HCLS, 'hash')[0], 8, b); return p
def h_tobytes(c, h): return newbytes(c, c.r256(hcell(c, h)))
def j_b2u(c, b, d, o):
    c.w(sl(c, d, o), bswap(c.r256(ba(c, b))))
def ba(c, b, n=32):
    o = c.ex.deref(c.st, b)
    c.require(t.eq(o.meta['len'], c32(n)), 'byte array has %d bytes' % n); return b
def j_u2b(c, s, o): return newbytes(c, bswap(c.r256(sl(c, s, o))))
def j_mulmod(c, x, xo, y, yo, tm):
    x, q, y = sl(c, x, xo), sl(c, x, tm, 16), sl(c, y, yo)
    apart(c, q, 16, x, 8); apart(c, q, 16, y, 8); same_or_apart(c, x, y, 8)
    a = c.r256(x); b = c.r256(y); c.require(t.ult(a, t.const(N256, 256)), 'factor below the order')
    if c.ex.recog: a = c.ex.recog(c.st, a); b = c.ex.recog(c.st, b)
    junk(c, q, 16); c.w(x, nmul(a, b))
def int8(c, a, n=8):
    o = c.ex.deref(c.st, a); c.require(t.eq(o.meta['len'], c32(n)), 'array of %d words' % n); return a
def j_sign(c, d, h, k, oR, oS):
    for a in (d, k, oR, oS): int8(c, a)
    return b32(ce.e_sign(c, d, hcell(c, h), k, oR, oS))
def j_signh(c, d, h, oR, oS):
    for a in (d, oR, oS): int8(c, a)
    return b32(ce.e_signh(c, d, hcell(c, h), oR, oS))
def j_verify(c, Q, h, r, s):
    int8(c, Q, 24); int8(c, r); int8(c, s)
    return b32(ce.e_verify(c, Q, hcell(c, h), r, s))
def j_hmac(c, key, msg):
    kl, ml = (c.ex.deref(c.st, b).meta['len'] for b in (key, msg))
    if not (t.isc(kl) and t.isc(ml)): raise Unsupported('getHmac with symbolic lengths')
    k = c.r(key, kl.v) if kl.v else None; m = c.r(msg, ml.v) if ml.v else None
    return newhash(c, ce.hmac256(k, kl.v, m, ml.v))
SPECS.update({EC + 'multiplyModOrder([II[III)': j_mulmod, SIGN: j_sign, SIGNH: j_signh, VERIFY: j_verify,
    'Sha256Hash.toBytes()': h_tobytes, J + 'bytesToUint([B[II)': j_b2u, J + 'uintToBytes([II)': j_u2b, 'Sha256.getHmac([B[B)': j_hmac})

def s_sign(ex, st): return [arr(ex, st, 'd', 8), hobj(ex, st, 'h'), arr(ex, st, 'k', 8), arr(ex, st, 'outR', 8), arr(ex, st, 'outS', 8)]
def s_signh(ex, st): return [arr(ex, st, 'd', 8), hobj(ex, st, 'h'), arr(ex, st, 'outR', 8), arr(ex, st, 'outS', 8)]
def s_verify(ex, st):
    q = [t.var('Q.' + k, 256) for k in 'xyz']
    return [arr(ex, st, 'Q', 24, q), hobj(ex, st, 'h'), arr(ex, st, 'r', 8), arr(ex, st, 's', 8)]

def mulmod_units():
    """the second factor lies in another array, or in the same array at another place or at the place of the first"""
    def other(ex, st):
        v, o = words(ex, st, {'x': (8, None), 'temp': (16, None)}); w, q = words(ex, st, {'y': (8, None)}, 'second')
        return [v, o['x'], w, q['y'], o['temp']], 'val.x', ('second.y',), ['val.x', 'second.y']
    def same(ex, st):
        v, o = words(ex, st, {'x': (8, None), 'y': (8, None), 'temp': (16, None)})
        return [v, o['x'], v, o['y'], o['temp']], 'val.x', ('val.y',), ['val.x', 'val.y']
    return [(' [two arrays]', other), (' [one array]', same)]
def check_mulmod(S, task):
    for lab, su in mulmod_units():
        pr = S.prover()
        def setup(ex, st):
            a, x, (y,), exc = su(ex, st)
            X, Y = st.mem[x].get(0, 32), st.mem[y].get(0, 32)
            ex.cutter = cuts.MulModCut(task, pr, MULMOD, X, Y, N256, nmul(X, Y)); ex.cutter.exclude = [(k, 0) for k in exc]
            return a
        S.check(task, MULMOD, setup, prover=pr, label=lab, ignore=TEMP_IGNORE)
