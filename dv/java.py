"""Java verification sessions, contracts and verification units of the arithmetic classes."""
import tempfile, shutil
from dv import terms as t, jvm, cpp, curve, cuts
from dv.symex import *
from dv.spec import *
from dv.cppnum import *
from dv.prove import P256, N256

c32 = lambda v: t.const(v, 32)
class JSession(cpp.Session):
    def __init__(self, deadline=None):
        self.config = 'java'; self.deadline = deadline
        d = tempfile.mkdtemp(prefix='dvjava')
        try:
            self.prog = jvm.JProg(); self.prog.load(jvm.compile_java(d))
        finally: shutil.rmtree(d, ignore_errors=True)
        ex = jvm.JExec(self.prog)
        self.base = ex.run_ctors()
        self.specs = dict(SPECS); self.ext = {}; self.nothrow = True
    def exec(self, exclude=(), only=None):
        ex = jvm.JExec(self.prog)
        ex.nid = 100000; ex.deadline = self.deadline; ex.ext.update(self.ext); ex.decider = decider; ex.nothrow = self.nothrow
        for k, f in self.specs.items():
            if k in exclude or (only is not None and k not in only): continue
            ex.contracts[k] = as_contract(f)
        return ex

# ------------------------------------------------------------------ the shared word array
def off(name): return t.concat(t.const(0, 1), t.var('off.' + name, 28), t.const(0, 3))
def words(ex, st, regs, name='val'):
    """the array `val` with disjoint regions {name: words}; returns (array, {name: offset term})"""
    ln = t.var('len.' + name, 32)
    p = P(ex.new_obj(st, name, None, meta={'kind': 'I', 'es': 4, 'len': ln, 'regions': {}}, oid=name))
    st.assume(t.sle(c32(0), ln)); offs = {}
    rg = st.mem[name].meta['regions']
    for k, (n, v) in regs.items():
        o = off(k); oid = '%s.%s' % (name, k); offs[k] = o
        rg[o] = (oid, n)
        ex.new_obj(st, oid, 4 * n, oid=oid, meta={'kind': 'I', 'es': 4, 'len': c32(n)})
        for i in range(0, 4 * n, 32):
            st.mem[oid].put(i, 32, v[i // 32] if v else t.var('%s+%d' % (oid, i), 256))
        st.assume(t.sle(c32(n), t.sub(ln, o)))
    return p, offs
def arr(ex, st, name, n, vals=None, kind='I', ro=False):
    """an int array of concrete length holding 256-bit variables"""
    p = ex.new_array(st, kind, n, name, oid=name, ro=ro)
    for i in range(0, 4 * n, 32):
        st.mem[name].put(i, 32, vals[i // 32] if vals else t.var('%s+%d' % (name, i) if n > 8 else name, 256))
    return p

J = 'Int256Math.'
NW = 8
def sl(c, val, o, n=NW, what='operand'): return c.ex.slot(c.st, val, o, n, what)
def junk(c, p, n):
    """the words of temporary space hold arbitrary values afterwards"""
    if c.ex.slotjunk is None: return
    for i in range(0, 4 * n, 32):
        c.ex.slotjunk += 1
        c.w(p, t.var('junk!%d' % c.ex.slotjunk, 256), i)
def temp(c, val, o, n, *ops):
    """n words of temporary space at o, apart from the operands (address, words)"""
    p = sl(c, val, o, n, 'temporary space')
    for q, m in ops: apart(c, p, n, q, m)
    return p
def apart(c, p, n, q, m, what='temporary space and operand are apart'):
    if p.obj != q.obj: return
    a, b = p.off.v, q.off.v
    if a < b + 4 * m and b < a + 4 * n: c.require(t.false(), what)
def same_or_apart(c, p, q, n, what='operands are equal or apart'):
    if p.obj == q.obj and p.off.v != q.off.v: apart(c, p, n, q, n, what)

def checkUint(c, a, o): sl(c, a, o)
def checkEnable(c, e): en(c, e)
def checkFieldInt(c, a, o): fe(c, sl(c, a, o))
def checkPoint(c, a, o):
    p = sl(c, a, o, 24)
    for i in (0, 32, 64): fe(c, p, i)
def m_add(c, v, x, y, e, z):
    x, y, z = sl(c, v, x), sl(c, v, y), sl(c, v, z)
    e = en(c, e); s = add257(c.r256(x), c.r256(y), e)
    c.w(z, t.extract(s, 255, 0)); return t.zext(t.extract(s, 256, 256), 32)
def m_sub(c, v, x, y, e, z):
    x, y, z = sl(c, v, x), sl(c, v, y), sl(c, v, z)
    e = en(c, e); s = sub257(c.r256(x), c.r256(y), e)
    c.w(z, t.extract(s, 255, 0)); return t.zext(t.extract(s, 256, 256), 32)
def m_shl(c, v, x, z):
    x, z = sl(c, v, x), sl(c, v, z); a = c.r256(x)
    c.w(z, t.shl(a, t.const(1, 256))); return t.zext(t.extract(a, 255, 255), 32)
def m_shr(c, v, x, e, z):
    x, z = sl(c, v, x), sl(c, v, z); a = c.r256(x); e = en(c, e)
    c.w(z, t.ite(e, t.lshr(a, t.const(1, 256)), a))
def m_recip(c, v, x, y, z, tm):
    x, y, z = sl(c, v, x), sl(c, v, y), sl(c, v, z)
    q = temp(c, v, tm, 48, (x, 8), (y, 8), (z, 8))
    a, m = c.r256(x), c.r256(y)
    c.require(t.eq(t.extract(m, 0, 0), t.const(1, 1)), 'modulus is odd')
    c.require(t.ult(t.const(1, 256), m), 'modulus exceeds 1')
    c.require(t.ult(a, m), 'value is below the modulus')
    coprime(c, a, m)
    junk(c, q, 48)
    c.w(z, inverse_of(a, m))
def m_field(op, n):
    def f(c, v, x, y, z, tm):
        x, y, z = sl(c, v, x), sl(c, v, y), sl(c, v, z)
        q = temp(c, v, tm, n, (x, 8), (y, 8), (z, 8))
        r = op(fe(c, x), fe(c, y)); junk(c, q, n); c.w(z, r)
    return f
def m_field1(op, n):
    def f(c, v, x, z, tm):
        x, z = sl(c, v, x), sl(c, v, z)
        q = temp(c, v, tm, n, (x, 8), (z, 8))
        r = op(fe(c, x)); junk(c, q, n); c.w(z, r)
    return f
def m_copy(n):
    def f(c, s, so, d, do):
        p, q = sl(c, s, so, n), sl(c, d, do, n)
        vs = [c.r256(p, i) for i in range(0, 4 * n, 32)]
        for i, x in enumerate(vs): c.w(q, x, 32 * i)
    return f
def m_replace(c, v, x, y, e):
    x, y = sl(c, v, x), sl(c, v, y); e = en(c, e)
    c.w(x, t.ite(e, c.r256(y), c.r256(x)))
def m_swap(c, v, x, y, e):
    x, y = sl(c, v, x), sl(c, v, y); e = en(c, e); a, b = c.r256(x), c.r256(y)
    c.w(x, t.ite(e, b, a)); c.w(y, t.ite(e, a, b))
b32 = lambda x: t.zext(x, 32)
def m_eq(c, v, x, y): return b32(t.eq(c.r256(sl(c, v, x)), c.r256(sl(c, v, y))))
def m_lt(c, v, x, y): return b32(t.ult(c.r256(sl(c, v, x)), c.r256(sl(c, v, y))))
def m_eqi(c, x, y): return b32(t.eq(x, y))
def m_lt2(c, v, x, w, y): return b32(t.ult(c.r256(sl(c, v, x)), c.r256(sl(c, w, y))))
def m_zero(c, v, x): return b32(t.eq(c.r256(sl(c, v, x)), Z256()))
SPECS = {
    J + 'checkUint([II)': checkUint, J + 'checkEnable(I)': checkEnable, J + 'checkFieldInt([II)': checkFieldInt,
    J + 'uintAdd([IIIII)': m_add, J + 'uintSubtract([IIIII)': m_sub, J + 'uintShiftLeft1([III)': m_shl, J + 'uintShiftRight1([IIII)': m_shr,
    J + 'reciprocal([IIIII)': m_recip, J + 'fieldAdd([IIIII)': m_field(fadd, 8), J + 'fieldSubtract([IIIII)': m_field(fsub, 8),
    J + 'fieldMultiply2([IIII)': m_field1(lambda x: fadd(x, x), 8), J + 'fieldSquare([IIII)': m_field1(lambda x: fmul(x, x), 40),
    J + 'fieldMultiply([IIIII)': m_field(fmul, 40), J + 'copy([II[II)': m_copy(8), J + 'replace([IIII)': m_replace, J + 'swap([IIII)': m_swap,
    J + 'equalTo([III)': m_eq, J + 'lessThan([III)': m_lt, J + 'equalTo(II)': m_eqi, J + 'lessThan([II[II)': m_lt2, J + 'isZero([II)': m_zero,
}

# ------------------------------------------------------------------ verification units
def partitions(xs):
    """all ways of letting operands share a slot"""
    if not xs: yield []; return
    for p in partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)): yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]
def unit(sig, tmp=0, prod=None, recip=False):
    """sig: operand letters in argument order, 'e' an enable bit, 't' the temporary space; yields (label, setup)"""
    ops = [a for a in sig if a not in 'et']
    for part in partitions(ops):
        name = {a: ''.join(sorted(g)) for g in part for a in g}
        if recip and name['x'] == name['y']: continue
        def setup(ex, st, name=name):
            regs = {n: (8, None) for n in sorted(set(name.values()))}
            if 't' in sig: regs['temp'] = (tmp, None)
            v, o = words(ex, st, regs)
            if prod:
                x, y = (st.mem['val.' + name[q]].get(0, 32) for q in prod)
                ex.products = [(x, y, P256)]
            return [v] + [b32(t.var('en', 1)) if a == 'e' else o['temp'] if a == 't' else o[name[a]] for a in sig]
        lab = '' if len(part) == len(ops) else ' [%s]' % ', '.join('='.join(g) for g in part if len(g) > 1)
        yield lab, setup
TEMPS = {'reciprocal': 48, 'fieldAdd': 8, 'fieldSubtract': 8, 'fieldMultiply2': 8, 'fieldSquare': 40, 'fieldMultiply': 40}
SIGS = {'uintAdd([IIIII)': 'xyez', 'uintSubtract([IIIII)': 'xyez', 'uintShiftLeft1([III)': 'xz', 'uintShiftRight1([IIII)': 'xez',
        'reciprocal([IIIII)': 'xyzt', 'fieldAdd([IIIII)': 'xyzt', 'fieldSubtract([IIIII)': 'xyzt', 'fieldMultiply2([IIII)': 'xzt', 'fieldSquare([IIII)': 'xzt',
        'fieldMultiply([IIIII)': 'xyzt', 'replace([IIII)': 'xye', 'swap([IIII)': 'xye', 'equalTo([III)': 'xy', 'lessThan([III)': 'xy', 'isZero([II)': 'x',
        'checkUint([II)': 'x', 'checkFieldInt([II)': 'x', 'checkEnable(I)': None, 'equalTo(II)': None, 'lessThan([II[II)': None, 'copy([II[II)': None}
def units(dem):
    """dem without class -> [(label, setup)]"""
    s = SIGS[dem]; n = dem.split('(')[0]
    if s is not None:
        prod = {'fieldMultiply': 'xy', 'fieldSquare': 'xx'}.get(n)
        return list(unit(s, TEMPS.get(n, 0), prod, n == 'reciprocal'))
    if n == 'checkEnable': return [('', lambda ex, st: [b32(t.var('en', 1))])]
    if dem == 'equalTo(II)': return [('', lambda ex, st: [t.var('x', 32), t.var('y', 32)])]
    def two(ex, st):
        v, o = words(ex, st, {'x': (8, None)}); w, q = words(ex, st, {'y': (8, None)}, 'dst')
        return [v, o['x'], w, q['y']]
    r = [(' [two arrays]', two)]
    for lab, su in unit('xy'):
        r.append((' [one array]' + lab, lambda ex, st, su=su: (lambda a: [a[0], a[1], a[0], a[2]])(su(ex, st))))
    return r
def ignore(st, args=None): return [(k, 0, 1 << 30) for k in st.mem if k.endswith('.temp')]
TEMP_IGNORE = [('val.temp', 0, 1 << 30)]
def group(x): return ''.join(sorted(x))
def check_num(S, task, n):
    """all operand patterns of a function; patterns with shared operands are instances of the general one"""
    first = None
    for lab, su in units(n):
        pr = S.prover()
        if first is not None and lab.startswith(' ['):
            m = {}
            for g in lab[2:-1].split(', '):
                if '=' in g and ' ' not in g:
                    for a in g.split('='):
                        m[t.var('val.%s+0' % a, 256)] = t.var('val.%s+0' % group(g.split('=')), 256)
                        m[t.var('off.' + a, 28)] = t.var('off.' + group(g.split('=')), 28)
            if m: pr.instances(first, m)
        S.check(task, J + n, su, label=lab, ignore=TEMP_IGNORE, prover=pr)
        if first is None: first = pr.proved

RECIP = 'reciprocal([IIIII)'
def check_recip(S, task, zero):
    """reciprocal: value 0, and any other value by the invariant of the loop"""
    dem = J + RECIP; first = None
    for lab, su in units(RECIP):
        names = dict((a, n) for n in ([group(g.split('=')) for g in lab[2:-1].split(', ')] if lab else []) for a in n)
        x, y, z = ('val.' + names.get(a, a) for a in 'xyz')
        def run(tk, pick):
            pr = S.prover(); cut = None; v = t.const(0, 256) if zero else t.var(x + '+0', 256)
            if not zero:
                cut = cuts.InverseCut(tk, pr, dem, v, t.var(y + '+0', 256)); cut.exclude = [(x, 0), (y, 0), (z, 0)]; cut.pick = pick
            def setup(ex, st):
                a = su(ex, st)
                if zero: st.mem[x].put(0, 32, v)
                else: st.assume(t.ne(v, t.const(0, 256))); ex.cutter = cut
                return a
            S.check(tk, dem, setup, label=lab + (' [value 0]' if zero else ''), ignore=TEMP_IGNORE, prover=pr)
            return cut
        cuts.try_roles(task, run)
