"""Java conversions and hash objects (C26, C27): contracts with exceptional outcomes."""
from dv import terms as t, misc, jlib
from dv.symex import *
from dv.spec import *
from dv.cppnum import bswap
from dv.java import *
from dv import jcurve as jc
from dv.jvm import PKG

IAE = ('exc', 'java/lang/IllegalArgumentException'); NPE = ('exc', 'java/lang/NullPointerException')
STR = 'Ljava/lang/String;'
H2U = J + 'hexToUint(%s[II)' % STR; U2H = J + 'uintToHex([II)'; U2B = J + 'uintToBytes([II)'; B2U = J + 'bytesToUint([B[II)'
HB = 'Sha256Hash.<init>([B)'; HS = 'Sha256Hash.<init>(%s)' % STR
H = 'Sha256Hash.'

def text(ex, st, name, n=64):
    """a string of n arbitrary characters; n None: of any length but 64"""
    if n is None:
        ln = t.var('len.' + name, 32); st.assume(t.sle(c32(0), ln)); st.assume(t.ne(ln, c32(64)))
        p = P(ex.new_obj(st, name, None, meta={'kind': 'C', 'es': 2, 'len': ln, 'cls': 'java/lang/String'}, oid=name)); st.mem[name].ro = True
        return p
    p = ex.new_array(st, 'C', n, vals=[t.var('%s[%d]' % (name, i), 16) for i in range(n)], oid=name, ro=True)
    st.mem[name].meta['cls'] = 'java/lang/String'; return p
def anybytes(ex, st, name):
    """a byte array of any length but 32"""
    ln = t.var('len.' + name, 32); st.assume(t.sle(c32(0), ln)); st.assume(t.ne(ln, c32(32)))
    return P(ex.new_obj(st, name, t.zext(ln, 64), meta={'kind': 'B', 'es': 1, 'len': ln}, oid=name, ro=True))
def hexval(c, s):
    """(well-formed, number denoted) of a string of 64 characters; the digit definition is that of misc.hexdef"""
    o = c.ex.deref(c.st, s)
    cs = [t.zext(o.get(2 * i, 2), 32) for i in range(64)]
    ok = t.and_(*[t.or_(*misc.is_hex(x)) for x in cs])
    return ok, t.concat(*[t.trunc(misc.hexdef(x), 4) for x in cs])
def slen(c, p): return c.ex.deref(c.st, p).meta['len']
def isnull(p): return isinstance(p, Ptr) and p.obj is None
def either(c, ok, good, bad):
    """[(state, result)]: ok -> good(c), otherwise the exception `bad`"""
    s2 = c.st.fork(); s2.assume(t.not_(ok))
    c.st.assume(ok); r = good()
    return [(c.st, r), (s2, bad)]
def s_h2u(c, s, v, o):
    if isnull(s): return NPE
    q = sl(c, v, o)
    if not t.isc(slen(c, s)): return IAE
    ok, x = hexval(c, s)
    return either(c, ok, lambda: c.w(q, x), IAE)
def digits(c, x, n=64):
    return c.ex.mkstring(c.st, [jlib.hexdigit(t.extract(x, 4 * i + 3, 4 * i)) for i in reversed(range(n))])
def s_u2h(c, v, o): return digits(c, c.r256(sl(c, v, o)))
def s_b2u(c, b, v, o):
    if isnull(b): return NPE
    q = sl(c, v, o)
    if not t.isc(slen(c, b)): return IAE
    c.w(q, bswap(c.r256(b)))
def s_hstr(c, h): return digits(c, c.r256(jc.hcell(c, h)))
def s_eq(c, h, o):
    if isnull(o) or c.st.mem[o.obj].meta.get('cls') != jc.HCLS: return c32(0)
    return b32(t.eq(c.r256(jc.hcell(c, h)), c.r256(jc.hcell(c, o))))

def w1(ex, st): return words(ex, st, {'x': (8, None)})
def num(ex, st): v, o = w1(ex, st); return [v, o['x']]
UNITS = {
    H2U: (s_h2u, [('', lambda ex, st: [text(ex, st, 's')] + num(ex, st)), (' [other length]', lambda ex, st: [text(ex, st, 's', None)] + num(ex, st)), (' [null]', lambda ex, st: [NULL] + num(ex, st))]),
    U2H: (s_u2h, [('', num)]),
    U2B: (jc.j_u2b, [('', num)]),
    B2U: (s_b2u, [('', lambda ex, st: [arr_b(ex, st, 'b')] + num(ex, st)), (' [other length]', lambda ex, st: [anybytes(ex, st, 'b')] + num(ex, st)), (' [null]', lambda ex, st: [NULL] + num(ex, st))]),
    H + 'toBytes()': (jc.h_tobytes, [('', lambda ex, st: [jc.hobj(ex, st, 'h')])]),
    H + 'toString()': (s_hstr, [('', lambda ex, st: [jc.hobj(ex, st, 'h')])]),
    H + 'equals(Ljava/lang/Object;)': (s_eq, [('', lambda ex, st: [jc.hobj(ex, st, 'h'), jc.hobj(ex, st, 'g')]), (' [same object]', lambda ex, st: (lambda p: [p, p])(jc.hobj(ex, st, 'h'))),
        (' [null]', lambda ex, st: [jc.hobj(ex, st, 'h'), NULL]), (' [other class]', lambda ex, st: [jc.hobj(ex, st, 'h'), ex.instance(st, 'java/lang/Object', 'o', oid='o')])]),
}
def arr_b(ex, st, name):
    p = ex.new_array(st, 'B', 32, name, oid=name, ro=True); st.mem[name].put(0, 32, t.var(name, 256)); return p
def check(S, task, dem, lab, su):
    spec = UNITS[dem][0]; nt = S.nothrow; S.nothrow = False
    try: S.check(task, dem, su, label=lab, spec=spec)
    finally: S.nothrow = nt

def run(S, task, name, dem, setup, post):
    """executes `dem`; post(ex, pre, args, outcomes, ob) states the obligations"""
    if not S.has(dem): task.unsupported.append('function %s not found' % dem); return
    nt = S.nothrow; S.nothrow = False
    try:
        ex = S.exec({dem}); pre = S.base.fork(); args = setup(ex, pre); pr = S.prover()
        outs = ex.call_fn(pre.fork(), S.prog.fn(S.prog.bydem[dem]), args)
        discharge_obs(task, pr, name, ex); task.count('simplification', ex.n_trivial)
        def ob(st, what, c): discharge(task, pr, name, 'post: ' + what, list(st.pc), c)
        if not outs: task.fail(name, 'function returns', 'no execution reaches the end')
        post(ex, pre, args, outs, ob)
        for s, r in outs: compare_states(task, ex, pr, name, pre, s, None, pre, None, list(s.pc), [k for k in pre.mem if k == 'new'])
        task.functions[name] = 1
    except Unsupported as e: task.unsupported.append('%s: %s' % (name, e))
    finally: S.nothrow = nt
def check_ctor(S, task):
    """both constructors: the object holds a fresh array with the right bytes, or the documented exception is thrown"""
    def new(f):
        return lambda ex, st: [ex.instance(st, jc.HCLS, 'new', oid='new')] + f(ex, st)
    def holds(want):
        def post(ex, pre, args, outs, ob):
            c = C(ex, pre.fork(), 'assume')
            ok, x = want(c, args[1])
            for s, r in outs:
                if isinstance(r, tuple): ob(s, 'exception %s only for malformed text' % (r[1],), t.not_(ok) if r == IAE else t.false()); continue
                ob(s, 'malformed text is rejected', ok)
                p = s.mem['new'].get(ex.ifield(jc.HCLS, 'hash')[0], 8)
                if not isinstance(p, Ptr) or p.obj is None: ob(s, 'contents set', t.false()); continue
                ob(s, 'contents are an array of their own', t.boolc(p.obj not in pre.mem))
                o = s.mem[p.obj]; ob(s, '32 bytes', t.eq(o.meta['len'], c32(32)))
                ob(s, 'contents equal the given value', t.eq(o.get(0, 32), x))
        return post
    def throws(e):
        def post(ex, pre, args, outs, ob):
            for s, r in outs: ob(s, 'outcome is %s' % e[1], t.boolc(r == e))
        return post
    run(S, task, HB, HB, new(lambda ex, st: [arr_b(ex, st, 'b')]), holds(lambda c, b: (t.true(), c.r256(b))))
    run(S, task, HB + ' [other length]', HB, new(lambda ex, st: [anybytes(ex, st, 'b')]), throws(IAE))
    run(S, task, HB + ' [null]', HB, new(lambda ex, st: [NULL]), throws(NPE))
    run(S, task, HS, HS, new(lambda ex, st: [text(ex, st, 's')]), holds(hexval))
    run(S, task, HS + ' [other length]', HS, new(lambda ex, st: [text(ex, st, 's', None)]), throws(IAE))
    run(S, task, HS + ' [null]', HS, new(lambda ex, st: [NULL]), throws(NPE))
def check_order(S, task):
    """compareTo has the sign of the comparison of the displayed (byte-reversed) values; hashCode is a function of the bytes"""
    dem = H + 'compareTo(%s)' % jc.HASH
    def post(ex, pre, args, outs, ob):
        c = C(ex, pre.fork(), 'assume'); a = c.r256(jc.hcell(c, args[0])); b = c.r256(jc.hcell(c, args[1]))
        for s, r in outs:
            if not isinstance(r, t.T): ob(s, 'no exception', t.false()); continue
            z = c32(0)
            ob(s, 'negative exactly when less', t.eq(t.slt(r, z), t.ult(a, b)))
            ob(s, 'zero exactly when equal', t.eq(t.eq(r, z), t.eq(a, b)))
    run(S, task, dem, dem, lambda ex, st: [jc.hobj(ex, st, 'h'), jc.hobj(ex, st, 'g')], post)
    run(S, task, dem + ' [same object]', dem, lambda ex, st: (lambda p: [p, p])(jc.hobj(ex, st, 'h')), post)
    run(S, task, dem + ' [null]', dem, lambda ex, st: [jc.hobj(ex, st, 'h'), NULL], lambda ex, pre, args, outs, ob: [ob(s, 'outcome is NullPointerException', t.boolc(r == NPE)) for s, r in outs])
    def det(ex, pre, args, outs, ob):
        for s, r in outs:
            vs = {x.v for x in t.topo([r] + list(s.pc)) if x.op == 'var'} if isinstance(r, t.T) else {'exception'}
            ob(s, 'hash code is a function of the bytes', t.boolc(vs <= {'h'}))
    run(S, task, H + 'hashCode()', H + 'hashCode()', lambda ex, st: [jc.hobj(ex, st, 'h')], det)
