"""Conversions, hash objects (C26, C27), constant-time checks (C24) and safety-only runs (C25) for the C++ code."""
import re, time
from dv import terms as t, cpp, cppnum, cppecdsa, cpppt, hashes
from dv.symex import *
from dv.spec import *
from dv.cppnum import bswap, PC
from dv.cpp import obj256

# ---------------------------------------------------------------- specifications
PHD = 'Utils::parseHexDigit(int)'; SBU = 'Utils::storeBigUint32(unsigned int, unsigned char*)'
def is_hex(ch):
    """ch (32 bits) is a hexadecimal digit character; definition"""
    r = lambda a, b: t.ult(t.sub(ch, t.const(ord(a), 32)), t.const(ord(b) - ord(a) + 1, 32))
    return r('0', '9'), r('a', 'f'), r('A', 'F')
def hexdef(ch):
    d, l, u = is_hex(ch); c = lambda n: t.const(n % (1 << 32), 32)
    return t.ite(d, t.sub(ch, c(48)), t.ite(l, t.sub(ch, c(87)), t.ite(u, t.sub(ch, c(55)), c(-1))))
def hv(ch): return t.uf('hexvalid', 1, ch)
def hn(ch): return t.uf('hexnibble', 4, ch)
def s_phd_def(c, ch): return hexdef(ch)
def s_phd(c, ch):
    """the value of the digit as a 4-bit number when the character is a digit, else -1; hexvalid and hexnibble name the definition above"""
    return t.ite(hv(ch), t.zext(hn(ch), 32), t.const(0xffffffff, 32))
def s_sbu(c, x, arr): c.w(arr, bswap(x))
def hexstr(c, p, n=64):
    """number denoted by n hexadecimal digits, big-endian"""
    ds = []
    for i in range(n):
        ch = t.sext(c.r(p, 1, i), 32)
        c.require(hv(ch), 'character %d is a hexadecimal digit' % i)
        ds.append(hn(ch))
    return t.concat(*ds)
def s_ustr(c, this, s): c.w(this, hexstr(c, s))
def s_fstr(c, this, s):
    v = hexstr(c, s); c.require(t.ult(v, PC()), 'value is below the field modulus'); c.w(this, v)
def s_pstr(c, this, xs, ys):
    x = hexstr(c, xs); y = hexstr(c, ys)
    for v in (x, y): c.require(t.ult(v, PC()), 'value is below the field modulus')
    for i, v in enumerate((x, y, t.const(1, 256))): c.w(this, v, 32 * i)
def s_pxy(c, this, x, y):
    vs = [cppnum.fe(c, x), cppnum.fe(c, y), t.const(1, 256)]
    for i, v in enumerate(vs): c.w(this, v, 32 * i)
def s_p0(c, this):
    for i, v in enumerate((0, 1, 0)): c.w(this, t.const(v, 256), 32 * i)
def s_hstr(c, this, s): c.w(this, hexstr(c, s))   # least significant byte first
def s_hbytes(c, this, b, n):
    c.require(t.eq(n, t.const(32, n.w)), 'length argument is 32'); c.w(this, c.r256(b))
def s_heq(c, a, b): return t.eq(c.r256(a), c.r256(b))
def s_hne(c, a, b): return t.ne(c.r256(a), c.r256(b))

def strobj(ex, st, name, n=64):
    o = ex.new_obj(st, name, n + 1, oid=name, meta={'strlen': n}, ro=True)
    for i in range(n): st.mem[o].put(i, 1, t.var('%s[%d]' % (name, i), 8))
    st.mem[o].put(n, 1, t.const(0, 8))
    return P(o)
def blank(ex, st, name, n): return P(ex.new_obj(st, name, n, oid=name))
H = 'Sha256Hash::'
HCT = {H + 'Sha256Hash(char const*)': s_hstr, H + 'Sha256Hash(unsigned char const*, unsigned long)': s_hbytes,
       H + 'operator==(Sha256Hash const&) const': s_heq, H + 'operator!=(Sha256Hash const&) const': s_hne}
def two(ex, st): return [obj256(ex, st, 'a'), obj256(ex, st, 'b')]
def al(ex, st): a = obj256(ex, st, 'a'); return [a, a]
UNITS = {
    PHD: (s_phd_def, [('', lambda ex, st: [t.var('ch', 32)])]),
    SBU: (s_sbu, [('', lambda ex, st: [t.var('x', 32), blank(ex, st, 'arr', 4)])]),
    'Uint256::Uint256(char const*)': (s_ustr, [('', lambda ex, st: [blank(ex, st, 'this', 32), strobj(ex, st, 's')])]),
    'FieldInt::FieldInt(char const*)': (s_fstr, [('', lambda ex, st: [blank(ex, st, 'this', 32), strobj(ex, st, 's')])]),
    'CurvePoint::CurvePoint(char const*, char const*)': (s_pstr, [('', lambda ex, st: [blank(ex, st, 'this', 96), strobj(ex, st, 's'), strobj(ex, st, 't')])]),
    'CurvePoint::CurvePoint(FieldInt const&, FieldInt const&)': (s_pxy, [('', lambda ex, st: [blank(ex, st, 'this', 96)] + two(ex, st)), (' [same object]', lambda ex, st: [blank(ex, st, 'this', 96)] + al(ex, st))]),
    'CurvePoint::CurvePoint()': (s_p0, [('', lambda ex, st: [blank(ex, st, 'this', 96)])]),
    H + 'Sha256Hash(char const*)': (s_hstr, [('', lambda ex, st: [blank(ex, st, 'this', 32), strobj(ex, st, 's')])]),
    H + 'Sha256Hash(unsigned char const*, unsigned long)': (s_hbytes, [('', lambda ex, st: [blank(ex, st, 'this', 32), obj256(ex, st, 'b'), t.const(32, 64)])]),
    H + 'operator==(Sha256Hash const&) const': (s_heq, [('', two), (' [same object]', al)]),
    H + 'operator!=(Sha256Hash const&) const': (s_hne, [('', two), (' [same object]', al)]),
}
def base(dem):
    """constructors exist as complete and base object variants with the same demangled name"""
    return dem
def check(S, task, dem, lab, setup):
    spec = UNITS[dem][0]
    if not S.has(dem) and dem in (PHD, SBU, 'FieldInt::FieldInt(char const*)'):
        # an internal helper may have been restructured: its callers are then checked with it inlined
        task.unsupported.append('function %s not found' % dem); return
    saved = dict(S.specs)
    try:
        if dem != PHD and S.has(PHD): S.specs[PHD] = s_phd
        elif dem != PHD: task.unsupported.append('%s: no hexadecimal digit function' % dem); return
        if dem in ('CurvePoint::CurvePoint(char const*, char const*)',): S.specs['FieldInt::FieldInt(char const*)'] = s_fstr
        S.check(task, dem, setup, label=lab, spec=spec)
    finally: S.specs.clear(); S.specs.update(saved)

def lemma_conv(task):
    """over the contracts: bytes -> number -> bytes and back, and digits -> number -> digits, are identities"""
    x = t.var('x', 256)
    pr = __import__('dv.prove', fromlist=['Prover']).Prover()
    n = 'lemma: conversions are inverse'
    discharge(task, pr, n, 'number to bytes to number', [], t.eq(bswap(bswap(x)), x))
    # a character c with value v is one of the two spellings of v
    ch = t.var('c', 32); d, l, u = is_hex(ch); v = hexdef(ch); c = lambda k: t.const(k, 32)
    low = lambda v: t.ite(t.ult(v, c(10)), t.add(v, c(48)), t.add(v, c(87)))
    up = lambda v: t.ite(t.ult(v, c(10)), t.add(v, c(48)), t.add(v, c(55)))
    valid = t.or_(d, l, u)
    discharge(task, pr, n, 'a digit is a spelling of its value', [], t.or_(t.not_(valid), t.and_(t.ult(v, c(16)), t.or_(t.eq(ch, low(v)), t.eq(ch, up(v))))))
    w = t.zext(t.var('w', 4), 32)
    for nm, f in (('lower', low), ('upper', up)):
        q = t.subst([v, valid], {ch: f(w)})
        discharge(task, pr, n, '%s case digit has its value' % nm, [], t.and_(t.eq(q[0], w), q[1]))
    discharge(task, pr, n, 'not a digit gives -1', [], t.or_(valid, t.eq(v, c(0xffffffff))))
    task.functions[n] = 1

# ---------------------------------------------------------------- constant time
def ct_ok_callees(): return set(ct_units()) | {PHD}
def ct_units():
    U = dict(cpp.num_units())
    r = {k: v for k, v in U.items()}
    for k, v in cpppt.simple_units().items(): r[k] = v
    CPn = 'CurvePoint::'
    pt = lambda ex, st: cpppt.objpt(ex, st, 'a')[0]
    r[CPn + 'add(CurvePoint const&)'] = [('', lambda ex, st: [pt(ex, st), cpppt.objpt(ex, st, 'b')[0]])]
    r[CPn + 'twice()'] = [('', lambda ex, st: [pt(ex, st)])]
    r[CPn + 'normalize()'] = [('', lambda ex, st: [pt(ex, st)])]
    r[CPn + 'multiply(Uint256 const&)'] = [('', lambda ex, st: [pt(ex, st), obj256(ex, st, 'n')])]
    r['FieldInt::reciprocal()'] = [('', lambda ex, st: [obj256(ex, st, 'a')])]
    r['Uint256::reciprocal(Uint256 const&)'] = None
    r[cppecdsa.MULMOD] = [('', lambda ex, st: [obj256(ex, st, 'x'), obj256(ex, st, 'y')])]
    for k in ('Sha256Hash(unsigned char const*, unsigned long)', 'operator==(Sha256Hash const&) const', 'operator!=(Sha256Hash const&) const'):
        r[H + k] = UNITS[H + k][1]
    r['CurvePoint::CurvePoint(FieldInt const&, FieldInt const&)'] = UNITS['CurvePoint::CurvePoint(FieldInt const&, FieldInt const&)'][1]
    r['CurvePoint::CurvePoint()'] = UNITS['CurvePoint::CurvePoint()'][1]
    return r
KINDS = ('branch', 'address', 'division', 'strchr', 'length')
def is_ptr_leak(k): return k in KINDS
def report(task, name, leaks, what='does not depend on the operand values'):
    n = 0
    for k, loc, x in leaks:
        if not is_ptr_leak(k): continue
        n += 1
        vs = sorted({y.v if isinstance(y.v, str) else str(y.v) for y in t.topo([x]) if y.op == 'var'})[:4]
        task.fail(name, 'ct: %s @ %s %s' % (k, loc, what), 'depends on %s: %s' % (vs, t.show(x, 4)[:300]))
        if n >= 4: break
    if not n: task.count('symbolic execution (no secret-dependent branch or address)')
def ct_run(S, task, dem, lab, setup, spec=None, exclude=(), only=None):
    name = dem + lab; t0 = time.time()
    if not S.has(dem): task.unsupported.append('function %s not found' % dem); return
    saved = dict(S.specs)
    for k, f in HCT.items(): S.specs[k] = f
    for k in ('CurvePoint::CurvePoint(FieldInt const&, FieldInt const&)', 'CurvePoint::CurvePoint()'): S.specs[k] = UNITS[k][0]
    try:
        ex = S.exec(set(exclude) | {dem}, only); ex.leaks = None
        pre = S.base.fork(); args = setup(ex, pre)
        f = spec or S.specs.get(dem)
        ist = pre.fork()
        if f is not None:
            sst = pre.fork(); c = C(ex, sst, 'assume'); ex.obs = []; f(c, *args)
            for q in c.pre: ist.assume(q)
        ex.leaks = []
        outs = ex.call_fn(ist, S.prog.fn(S.prog.bydem[dem]), args)
        report(task, name, ex.leaks)
        bad = set(ex.used_contracts) - ct_ok_callees() - set(k for k in S.specs if k.startswith('asm_'))
        bad -= CT_HASH
        if bad: task.unsupported.append('%s: callee not shown constant-time: %s' % (name, sorted(bad)))
        task.functions[name] = 1
        task.assumed |= set('constant-time contract of callee: ' + k for k in ex.used_contracts)
    except Unsupported as e: task.unsupported.append('%s: %s' % (name, e))
    except Deadline: task.unsupported.append('%s: time limit' % name)
    finally: S.specs.clear(); S.specs.update(saved); task.time += time.time() - t0
COMP = 'Sha256::compress(unsigned int*, unsigned char const*)'
CT_HASH = {cppecdsa.HMAC, COMP}

class Forget:
    """at every visit of a loop head all symbolic values of writable objects become arbitrary (dropping facts is sound here)"""
    def __call__(self, ex, f, label, st):
        for k in list(st.mem):
            o = st.mem[k]
            if o.ro or k.startswith('@'): continue
            bad = [s for s in o.starts if isinstance(o.cells[s][0], t.T) and not t.isc(o.cells[s][0])]
            if not bad: continue
            w = st.wobj(k)
            for s in bad:
                n = w.cells[s][1]; w.put(s, n, t.var('any!%s+%d' % (k, s), 8 * n))
        for k, v in list(st.env.items()):
            if isinstance(v, t.T) and not t.isc(v): st.env[k] = t.var('any!env!%s' % (k,), v.w)
        st.pc = (); st.facts = {}; ex.obs = []
def ct_loop(S, task, dem):
    """functions with long loops: the preconditions of callees and the assertions are decided by C03/C09"""
    if dem == cppecdsa.MULMOD: su = lambda ex, st: [obj256(ex, st, 'x'), obj256(ex, st, 'y')]
    else: su = lambda ex, st: [obj256(ex, st, 'this'), obj256(ex, st, 'm')]
    def setup(ex, st):
        ex.cutter = Forget(); return su(ex, st)
    ct_run(S, task, dem, '', setup)

SIGNS = {cppecdsa.SIGN: cppecdsa.s_sign, cppecdsa.SIGNH: cppecdsa.s_signh}
def ct_sign(S, task, dem):
    """successful executions: exactly one path returns true, and no address depends on the operands"""
    name = dem; t0 = time.time()
    if not S.has(dem): task.unsupported.append('function %s not found' % dem); return
    try:
        pr = S.prover()
        ex = S.exec({dem}); ex.nomerge = True
        pre = S.base.fork(); args = SIGNS[dem](ex, pre)
        ex.recog = lambda st, x: cppnum.recog(pr, list(st.pc), x)
        sst = pre.fork(); c = C(ex, sst, 'assume'); ex.obs = []; S.specs[dem](c, *args)
        ist = pre.fork()
        for q in c.pre: ist.assume(q)
        ex.leaks = []
        ctd = {}
        for callee in (cppecdsa.SIGN,):
            if callee != dem and callee in ex.contracts: ctd[callee] = 1
        outs = ex.call_fn(ist, S.prog.fn(S.prog.bydem[dem]), args)
        report(task, name, [l for l in ex.leaks if l[0] != 'branch'])
        succ = []
        for s, rv in outs:
            if t.isc(rv) and not rv.v: continue
            d = ex.decide(s, rv)
            if d is False: continue
            succ.append((s, rv))
        if not succ: task.fail(name, 'ct: some execution succeeds (vacuity)', len(outs))
        elif len(succ) == 1: task.count('symbolic execution (one successful path)')
        else: task.fail(name, 'ct: all successful executions follow the same branches', '%d different successful paths; they differ in %s' % (len(succ), [t.show(x, 3)[:150] for x in succ[0][0].pc if x not in succ[1][0].pc][:3]))
        bad = set(ex.used_contracts) - ct_ok_callees() - set(k for k in S.specs if k.startswith('asm_')) - CT_HASH - set(SIGNS)
        if bad: task.unsupported.append('%s: callee not shown constant-time: %s' % (name, sorted(bad)))
        task.functions[name] = 1
        task.assumed |= set('constant-time contract of callee: ' + k for k in ex.used_contracts)
    except Unsupported as e: task.unsupported.append('%s: %s' % (name, e))
    except Deadline: task.unsupported.append('%s: time limit' % name)
    task.time += time.time() - t0

def ct_hmac(S, task):
    """HMAC with 32-byte key and message, as used for the nonce: branches and addresses depend on the lengths only"""
    from dv import hashes as h
    def setup(ex, st):
        o = ex.new_obj(st, 'ret', 32, oid='ret')
        return [P(o), obj256(ex, st, 'key'), t.const(32, 64), obj256(ex, st, 'msg'), t.const(32, 64)]
    hspecs = {k for k in S.specs if k.startswith('Sha256::') and 'compress' in k}
    ct_run(S, task, cppecdsa.HMAC, '', setup, spec=lambda c, *a: None, only=hspecs)
@hashes.guarded
def ct_compress(S, task):
    def setup(ex, st):
        o = ex.new_obj(st, 'state', 32, oid='state'); b = ex.new_obj(st, 'block', 64, oid='block')
        for i in range(8): st.mem[o].put(4 * i, 4, t.var('h%d' % i, 32))
        for i in range(64): st.mem[b].put(i, 1, t.var('b%d' % i, 8))
        return [P(o), P(b)]
    if S.has(COMP): ct_run(S, task, COMP, '', setup, spec=lambda c, *a: None, only=())
def ct_asm(task, n, lab, setup):
    from dv import asmspec, x86, props
    prog = props.asmprog(); name = n + lab
    f, sig, ret = asmspec.ASM[n]
    try:
        ex = x86.XExec(prog); ex.decider = cppnum.decider; ex.leaks = []
        pre = State(); args = setup(ex, pre)
        sst = pre.fork(); c = C(ex, sst, 'assume'); ex.obs = []; ex.leaks = None; f(c, *args); ex.leaks = []
        ist = pre.fork()
        for q in c.pre: ist.assume(q)
        ex.run_fn(ist, n, args)
        report(task, 'x86-64 ' + name, ex.leaks); task.functions['x86-64 ' + name] = 1
    except Unsupported as e: task.unsupported.append('%s: %s' % (name, e))
    except Deadline: task.unsupported.append('%s: time limit' % name)
