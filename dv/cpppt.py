"""Contracts of the C++ point and ECDSA functions."""
from dv import terms as t, curve
from dv.symex import *
from dv.spec import *
from dv.cppnum import *
from dv.curve import point, ptadd, ptdbl, ptmul, ptnorm, gpoint
from dv.prove import P256, N256

def rpt(c, p):
    """the three reduced coordinates"""
    return tuple(fe(c, p, o) for o in (0, 32, 64))
def ptt(q): return point(*q)
def wpt(c, p, v):
    for i, o in enumerate((0, 32, 64)):
        c.w(p, t.extract(v, 256 * i + 255, 256 * i), o)
def apart(c, a, b):
    c.distinct(a, b, 'operands are distinct objects')
def p_add(c, this, other):
    apart(c, this, other)
    a = rpt(c, this); b = rpt(c, other); wpt(c, this, ptadd(ptt(a), ptt(b)))
def p_twice(c, this): wpt(c, this, ptdbl(ptt(rpt(c, this))))
def p_mul(c, this, n):
    k = c.r256(n); wpt(c, this, ptmul(ptt(rpt(c, this)), k))
def p_norm(c, this): wpt(c, this, ptnorm(ptt(rpt(c, this))))
def p_replace(c, this, other, e):
    e = en(c, e); a = rpt(c, this); b = rpt(c, other)
    wpt(c, this, t.concat(*[t.ite(e, y, x) for x, y in reversed(list(zip(a, b)))]))
Z = lambda: t.const(0, 256)
def zeroq(a): return t.and_(t.eq(a[0], Z()), t.ne(a[1], Z()), t.eq(a[2], Z()))
def curveq(a):
    x, y, z = a
    return t.and_(t.eq(fmul(y, y), fadd(fmul(fmul(x, x), x), t.const(7, 256))), t.not_(zeroq(a)))
def p_iszero(c, this): return zeroq(rpt(c, this))
def p_oncurve(c, this): return curveq(rpt(c, this))
def eq3(c, a, b):
    return t.and_(*[t.eq(x, y) for x, y in zip(rpt(c, a), rpt(c, b))])
def p_eq(c, a, b): return eq3(c, a, b)
def p_ne(c, a, b): return t.not_(eq3(c, a, b))
def p_comp(c, this, out):
    x, y, z = rpt(c, this)
    c.w(out, t.concat(t.const(0, 6), t.const(1, 1), t.extract(y, 0, 0)))
    c.w(out, bswap(x), 1)
def p_pub(c, out, k):
    v = c.r256(k)
    c.require(t.ult(Z(), v), 'private exponent is not 0'); c.require(t.ult(v, t.const(N256, 256)), 'private exponent below the order')
    wpt(c, out, ptnorm(ptmul(gpoint(), v)))
CP = 'CurvePoint::'
SPECS = {
    CP + 'add(CurvePoint const&)': p_add, CP + 'twice()': p_twice, CP + 'multiply(Uint256 const&)': p_mul, CP + 'normalize()': p_norm,
    CP + 'replace(CurvePoint const&, unsigned int)': p_replace, CP + 'isZero() const': p_iszero, CP + 'isOnCurve() const': p_oncurve,
    CP + 'operator==(CurvePoint const&) const': p_eq, CP + 'operator!=(CurvePoint const&) const': p_ne,
    CP + 'toCompressedPoint(unsigned char*) const': p_comp, CP + 'privateExponentToPublicPoint(Uint256 const&)': p_pub,
}

def objpt(ex, st, name, vals=None):
    o = ex.new_obj(st, name, 96, oid=name)
    vs = []
    for i, k in enumerate('xyz'):
        v = vals[i] if vals else t.var('%s.%s' % (name, k), 256)
        st.mem[o].put(32 * i, 32, v); vs.append(v)
    return P(o), vs
def getpt(st, p): 
    o = st.mem[p.obj]; k = p.off.v
    return [o.get(k + 32 * i, 32) for i in range(3)]

def leaves_ok(terms, allowed):
    bad = {x.v for x in t.topo(list(terms)) if x.op == 'var' and x not in allowed}
    return sorted(str(b) for b in bad)

def run_rel(S, task, dem, setup, post, modifies, label='', spec=None, exclude=()):
    """verify a function whose result is described by a relation: post(task, ex, prover, state, ret) raises the obligations;
    everything outside `modifies` must keep its value"""
    name = dem + label; t0 = __import__('time').time()
    if not S.has(dem): task.unsupported.append('function %s not found' % dem); return
    spec = spec or S.specs[dem]
    ex = S.exec(set(exclude) | {dem})
    pre = S.base.fork(); args = setup(ex, pre); pr = S.prover()
    fn = S.prog.fn(S.prog.bydem[dem])
    try:
        ex.obs = []
        sst = pre.fork(); c = C(ex, sst, 'assume'); spec(c, *args); ex.obs = []
        ist = pre.fork()
        for q in c.pre: ist.assume(q)
        outs = ex.call_fn(ist, fn, args)
        discharge_obs(task, pr, name, ex)
        task.count('simplification', ex.n_trivial)
        for st, rv in outs:
            # frame
            sp = pre.fork()
            for p, n in modifies(args):
                for s, e in [(p.off.v + i, 32) for i in range(0, n, 32)] if n % 32 == 0 else [(p.off.v, n)]:
                    sp.wobj(p.obj).put(s, e, st.mem[p.obj].get(s, e))
            compare_states(task, ex, pr, name, pre, st, None, sp, None, list(st.pc))
            post(task, ex, pr, st, rv, args)
        if not outs: task.fail(name, 'function returns', 'no execution reaches the end')
        task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
        task.functions[name] = 1
    except Unsupported as e: task.unsupported.append('%s: %s' % (name, e))
    except Deadline: task.unsupported.append('%s: time limit' % name)
    except curve.Big: task.unsupported.append('%s: polynomials too large' % name)
    task.time += __import__('time').time() - t0

def ranges(task, ex, pr, name, st, R):
    for k, v in zip('xyz', R):
        c = t.ult(v, PC())
        if isfe(v, st.facts) or (decider(st, c) is True): task.count('simplification')
        else: discharge(task, pr, name, 'coordinate %s is reduced' % k, list(st.pc), c)

class CppPt:
    names = {'add': CP + 'add(CurvePoint const&)', 'twice': CP + 'twice()', 'multiply': CP + 'multiply(Uint256 const&)', 'normalize': CP + 'normalize()'}
    @staticmethod
    def setup(fn, ex, st):
        vals = {}
        a, vals['p'] = objpt(ex, st, 'this'); r = [a]
        if fn == 'add': b, vals['q'] = objpt(ex, st, 'other'); r.append(b)
        if fn == 'multiply':
            vals['n'] = t.var('n', 256); b = ex.new_obj(st, 'n', 32, oid='n'); st.mem[b].put(0, 32, vals['n']); r.append(P(b))
        return r, vals
    @staticmethod
    def result(st, args): return getpt(st, args[0])
    @staticmethod
    def modifies(fn): return lambda a: [(a[0], 96)]
def rel_setup(W, fn, V):
    def setup(ex, st):
        a, v = W.setup(fn, ex, st); V.clear()
        V['A'] = v['p']; V['B'] = v.get('q'); V['n'] = v.get('n'); return a
    return setup

def check_add(S, task, W=CppPt):
    dem = W.names['add']; V = {}
    setup = rel_setup(W, 'add', V)
    def post(task, ex, pr, st, rv, args):
        R = W.result(st, args); ranges(task, ex, pr, dem, st, R)
        bad = leaves_ok(R, set(V['A'] + V['B']))
        if bad: task.fail(dem, 'result depends on the operands only', bad[:5])
        else: task.count('simplification')
        curve.prove_sum(task, dem, V['A'], V['B'], R)
    run_rel(S, task, dem, setup, post, W.modifies('add'))
def check_twice(S, task, W=CppPt):
    dem = W.names['twice']; V = {}
    setup = rel_setup(W, 'twice', V)
    def post(task, ex, pr, st, rv, args):
        R = W.result(st, args); ranges(task, ex, pr, dem, st, R)
        bad = leaves_ok(R, set(V['A']))
        if bad: task.fail(dem, 'result depends on the operands only', bad[:5])
        else: task.count('simplification')
        curve.prove_sum(task, dem, V['A'], None, R)
    run_rel(S, task, dem, setup, post, W.modifies('twice'))
def check_multiply(S, task, W=CppPt):
    dem = W.names['multiply']; V = {}
    setup = rel_setup(W, 'multiply', V)
    def post(task, ex, pr, st, rv, args):
        R = W.result(st, args); ranges(task, ex, pr, dem, st, R)
        bad = leaves_ok(R, set(V['A'] + [V['n']]))
        if bad: task.fail(dem, 'result depends on the operands only', bad[:5])
        else: task.count('simplification')
        M = curve.Module([V['n']], {point(*V['A']): 'P'})
        k = M.cls(R[2], R[1], R[0])
        got = k.get('P', {})
        if curve.same_mod(got, M.form(V['n']), N256) and set(k) <= {'P'}: task.count('Z-module arithmetic', len(M.memo))
        else:
            d = curve.madd(got, M.form(V['n']), -1)
            task.fail(dem, 'result is n * P', 'coefficient differs from n in the monomials %s' % [(sorted(i for _, i in m), c) for m, c in list(d.items())[:4]])
    run_rel(S, task, dem, setup, post, W.modifies('multiply'))

def simple_units():
    """point functions with an exact contract"""
    one = lambda ex, st: [objpt(ex, st, 'a')[0]]
    two = lambda ex, st: [objpt(ex, st, 'a')[0], objpt(ex, st, 'b')[0]]
    def alias(ex, st):
        a = objpt(ex, st, 'a')[0]; return [a, a]
    e = lambda f: (lambda ex, st: f(ex, st) + [t.zext(t.var('en', 1), 32)])
    def comp(ex, st): return one(ex, st) + [P(ex.new_obj(st, 'out', 33, oid='out'))]
    def pub(ex, st):
        o = ex.new_obj(st, 'ret', 96, oid='ret'); k = ex.new_obj(st, 'k', 32, oid='k'); st.mem[k].put(0, 32, t.var('k', 256)); return [P(o), P(k)]
    return {
        CP + 'replace(CurvePoint const&, unsigned int)': [('', e(two)), (' [same object]', e(alias))],
        CP + 'isZero() const': [('', one)], CP + 'isOnCurve() const': [('', one)],
        CP + 'operator==(CurvePoint const&) const': [('', two), (' [same object]', alias)],
        CP + 'operator!=(CurvePoint const&) const': [('', two), (' [same object]', alias)],
        CP + 'toCompressedPoint(unsigned char*) const': [('', comp)],
        CP + 'privateExponentToPublicPoint(Uint256 const&)': [('', pub)],
    }
def check_simple(S, task, dem, lab, setup, ignore=()):
    pr = S.prover(); red = []
    def s(ex, st):
        a = setup(ex, st)
        for o in st.mem.values():
            if o.size == 96:
                for k in o.starts:
                    if isinstance(o.cells[k][0], t.T): red.append(o.cells[k][0])
        return a
    def dom(prover, pcs, c): return curve.field_domain(red)(prover, pcs, c)
    pr.domain.append(dom)
    S.check(task, dem, s, label=lab, prover=pr, ignore=ignore)

def check_normalize(S, task, W=CppPt):
    dem = W.names['normalize']; V = {}
    setup = rel_setup(W, 'normalize', V)
    def post(task, ex, pr, st, rv, args):
        R = W.result(st, args); ranges(task, ex, pr, dem, st, R)
        X, Y, Zc = V['A']
        bad = leaves_ok(R, set(V['A']))
        if bad: task.fail(dem, 'result depends on the point only', bad[:5])
        one = curve.pc(1); v = curve.pv
        def run(lab, case, leaf, goal):
            class D(curve.FieldDomain):
                def poly1(d, x):
                    if x.op == 'uf' and x.v == 'finv':
                        q = d.memo[x.a[0]]
                        if q is None: return None
                        z = case.zero(q)
                        if z is True: return curve.pc(0)
                        if z is False:
                            n = 'i%d' % x.id; i = v(n)
                            l = curve.padd(curve.pmul(q, i), one, -1)
                            ld = curve.lead(l); k = pow(l[ld], P256 - 2, P256)
                            r = (ld, {m: (-c * k) % P256 for m, c in l.items() if m != ld})
                            if r not in case.rules: case.rules.append(r)
                            return i
                        return None
                    return curve.FieldDomain.poly1(d, x)
            dom = D(leaf)
            def g(c, roots, trail):
                for r in case.rules:
                    if r not in c.rules: c.rules.append(r)
                ps = [dom.poly(x) for x in roots]
                if any(q is None for q in ps): return 'not a field expression'
                return True if goal(c, ps) is True else 'wrong result in case %s with %s' % (lab, trail)
            try: r = curve.explore(case, list(R), dom, g, [500])
            except (curve.Big, Unsupported) as e: task.unsupported.append('%s: %s' % (dem, e)); return
            if r is True: task.count('polynomial identities over F_p', 3)
            else: task.fail(dem, 'normal form, case ' + lab, r)
        c = curve.Case(); c.assume_nonzero(v('z'))
        leaf = {X: v('x'), Y: v('y'), Zc: v('z')}
        def goal(c, R):
            x, y, z = R
            return (c.zero(curve.padd(curve.pmul(x, v('z')), v('x'), -1)) is True and c.zero(curve.padd(curve.pmul(y, v('z')), v('y'), -1)) is True
                    and c.zero(curve.padd(z, one, -1)) is True)
        run('finite', c, leaf, goal)
        c = curve.Case(); c.assume_nonzero(v('y'))
        leaf = {X: curve.pc(0), Y: v('y'), Zc: curve.pc(0)}
        run('infinity', c, leaf, lambda c, R: c.zero(R[0]) is True and c.zero(curve.padd(R[1], one, -1)) is True and c.zero(R[2]) is True)
        # already normalized: unchanged (idempotent)
        c = curve.Case()
        run('normalized', c, {X: v('x'), Y: v('y'), Zc: one}, lambda c, R: c.zero(curve.padd(R[0], v('x'), -1)) is True and c.zero(curve.padd(R[1], v('y'), -1)) is True and c.zero(curve.padd(R[2], one, -1)) is True)
    run_rel(S, task, dem, setup, post, W.modifies('normalize'))
