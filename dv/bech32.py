"""Java Bech32 (C22, C23): checksum, prefix check, encoder and decoder of 5-bit groups, segregated-witness regrouping.

The specification of a call is a list of validity literals V and a result: the call returns the result when every literal
holds and throws IllegalArgumentException otherwise.  Named symbols (each defined by the contract that introduces it):
  hrpok:n(chars)         the prefix check accepts these characters            (checkHumanReadablePart)
  bech32.polymod:n(x)    fold of the checksum step over n 5-bit groups from 1 (polymod)
  lower(c)               the lower-case form of an ASCII character, other characters unchanged
  b32ok(c), b32val(c)    c is in the alphabet, its index                      (ALPHABET.indexOf)"""
import time
from dv import terms as t, jlib
from dv.symex import *
from dv.spec import *
from dv.hashes import guarded, missing, run1, frame
from dv.loops import Template, LoopCut
from dv.jmisc import IAE, NPE

c16 = lambda v: t.const(v, 16)
c32 = lambda v: t.const(v, 32)
B = 'Bech32.'; STR = 'Ljava/lang/String;'
HRP = B + 'checkHumanReadablePart([C)'; POLY = B + 'polymod([B)'
ENC = B + 'bitGroupsToBech32(%s[B)' % STR; DEC = B + 'bech32ToBitGroups(%s)' % STR
SENC = B + 'segwitToBech32(%sI[B)' % STR; SDEC = B + 'bech32ToSegwit(%s)' % STR
ALPHA = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GEN = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]

# ------------------------------------------------------------------ specification
def rng(c, lo, hi): return t.and_(t.ule(t.const(lo, c.w), c), t.ule(c, t.const(hi, c.w)))
def okchar(c): return t.and_(rng(c, 33, 126), t.not_(rng(c, 65, 90)))
def lowdef(c): return t.ite(rng(c, 65, 90), t.add(c, t.const(32, c.w)), c)
def lower(c): return t.uf('lower', 16, c)
def b32ok(c): return t.uf('b32ok', 1, c)
def b32val(c): return t.uf('b32val', 5, c)
def okdef(c): return t.or_(*[t.eq(c, c16(ord(x))) for x in ALPHA])
def valdef(c):
    r = t.const(0, 5)
    for i, x in enumerate(ALPHA): r = t.ite(t.eq(c, c16(ord(x))), t.const(i, 5), r)
    return r
def hrpok(cs): return t.uf('hrpok:%d' % len(cs), 1, t.concat(*reversed(cs)))
def polymod(gs): return t.uf('bech32.polymod:%d' % len(gs), 30, t.concat(*reversed(gs))) if gs else t.const(1, 30)
def step(r, g):
    """one checksum step: r (30 bits), g (5 bits)"""
    x = t.concat(t.extract(r, 24, 0), g)
    for i in range(5): x = t.xor(x, t.ite(t.extract(r, 25 + i, 25 + i), t.const(GEN[i], 30), t.const(0, 30)))
    return x
def expand(cs): return [t.zext(t.extract(c, 7, 5), 5) for c in cs] + [t.const(0, 5)] + [t.extract(c, 4, 0) for c in cs]
def symbol(g):
    """character of a 5-bit group"""
    return t.tab(tuple(ord(x) for x in ALPHA), g, 16) if False else tabterm(g)
def tabterm(g):
    r = None
    xs = [c16(ord(x)) for x in ALPHA]
    for k in range(5):
        b = t.extract(g, k, k)
        xs = [t.ite(b, xs[i + 1], xs[i]) for i in range(0, len(xs), 2)]
    return xs[0]
def definitions(roots):
    """definitional facts of the named symbols in roots"""
    r = []
    for x in t.topo(roots):
        if x.op != 'uf': continue
        a = x.a[0]
        if x.v == 'lower': r.append(t.eq(x, lowdef(a)))
        elif x.v == 'b32ok': r.append(t.eq(x, okdef(a)))
        elif x.v == 'b32val': r.append(t.eq(x, valdef(a)))
        elif x.v.startswith('hrpok:'): r.append(t.eq(x, t.and_(*[okchar(t.extract(a, 16 * i + 15, 16 * i)) for i in range(a.w // 16)])))
    return [x for x in r if not t.isc(x)]

# ------------------------------------------------------------------ discharge with hypotheses limited to the condition's variables
_vars = {}
def tvars(x):
    r = _vars.get(x)
    if r is None:
        if x.op == 'var': r = frozenset([x.v])
        else: r = frozenset().union(*[tvars(y) for y in x.a if isinstance(y, t.T)]) if x.a else frozenset()
        _vars[x] = r
    return r
def cone(hyps, c):
    v = tvars(c)
    return [h for h in hyps if tvars(h) <= v]
def D(task, prover, fn, what, pc, c):
    if t.isc(c) and c.v: task.count('simplification'); return True
    h = cone(pc, c); h += [d for d in definitions(h + [c]) if d not in h]
    r = prover.prove(h, c)
    if r.ok: task.count(r.by); return True
    h = list(pc); h += definitions(h + [c])
    return discharge(task, prover, fn, what, h, c)
def D_obs(task, prover, fn, ex):
    for o in ex.obs: D(task, prover, fn, '%s @ %s' % (o.kind, o.loc), o.pc, o.cond)
    task.count('simplification', ex.n_trivial); ex.obs = []; ex.n_trivial = 0

class Valid:
    """validity literals of a call"""
    def __init__(self, lits, prover):
        self.lits = [x for x in lits if not (t.isc(x) and x.v)]; self.prover = prover
        self.never = any(t.isc(x) for x in self.lits)
        st = State()
        for x in self.lits: st.assume(x)
        self.facts = st.facts
    def rejects(self, task, fn, pc):
        """pc is impossible for valid arguments"""
        if self.never: task.count('simplification'); return True
        for x in reversed(pc):
            if decide_facts(x, self.facts) is False: task.count('simplification'); return True
        for x in list(reversed(pc))[:2]:
            h = cone(self.lits, x); h += [d for d in definitions(h + [x]) if d not in h]
            r = self.prover.prove(h, t.not_(x))
            if r.ok: task.count(r.by); return True
        h = list(pc) + self.lits; h += definitions(h)
        return discharge(task, self.prover, fn, 'post: valid arguments are not rejected', h, t.false())
    def holds(self, task, fn, s):
        """every literal follows from the path"""
        ok = True
        for x in self.lits:
            if decide_facts(x, s.facts) is True: task.count('simplification'); continue
            ok &= D(task, self.prover, fn, 'post: invalid arguments are rejected', list(s.pc), x)
            if not ok: break
        return ok

def nothrow_off(f):
    def g(S, task, *a):
        nt = S.nothrow; S.nothrow = False
        try: return f(S, task, *a)
        finally: S.nothrow = nt
    return g

# ------------------------------------------------------------------ contracts
def alen(c, p): return c.ex.deref(c.st, p).meta['len']
def s_hrp(c, a):
    if a.obj is None: return NPE
    n = alen(c, a)
    if not t.isc(n):
        inside = t.and_(t.ule(c32(1), n), t.ule(n, c32(83)))
        d = c.ex.decide(c.st, inside)
        if d is False: return IAE
        s2 = c.st.fork()
        c.st.assume(inside); c.st.assume(t.var('hrpok', 1)); s2.assume(t.not_(t.and_(inside, t.var('hrpok', 1))))
        return [(c.st, None), (s2, IAE)]
    n = n.v
    if not 1 <= n <= 83: return IAE
    cs = c.ex.chars(c.st, a); ok = hrpok(cs)
    d = decide_facts(ok, c.st.facts)
    if d is False: return IAE
    s2 = c.st.fork() if d is None else None
    c.st.assume(ok)
    # accepted characters are below 128: the same values, written as 7-bit quantities
    o = c.st.wobj(a.obj); o.meta = dict(o.meta)
    for i, x in enumerate(cs): o.put(2 * i, 2, t.zext(t.extract(x, 6, 0), 16))
    if s2 is None: return
    s2.assume(t.not_(ok))
    return [(c.st, None), (s2, IAE)]
def s_poly(c, a):
    if a.obj is None: return NPE
    es = c.ex.elems(c.st, a)
    for i, x in enumerate(es): c.require(t.ult(x, t.const(32, 8)), 'every element is a 5-bit group')
    return t.zext(polymod([t.extract(x, 4, 0) for x in es]), 32)
def stub(name):
    """callee of the segregated-witness functions: returns or throws, remembering its arguments"""
    def f(c, *args):
        for a in args:
            if isinstance(a, Ptr) and a.obj is None: return NPE
        s2 = c.st.fork()
        for s, ok in ((c.st, True), (s2, False)):
            key = []
            for a in args: key.append((a.obj, tuple(c.ex.elems(s, a)) if s.mem[a.obj].meta.get('kind') == 'B' else None))
            s.aux = dict(s.aux); s.aux['call'] = s.aux.get('call', ()) + ((name, tuple(key), ok),)
        return [(c.st, result_of(c, name)), (s2, IAE)]
    return f
def result_of(c, name):
    if name == ENC: 
        p = c.ex.mkstring(c.st, [t.var('out', 16)]); return p
    return c.ex.decoded(c)
def sess(S):
    for k, f in ((HRP, s_hrp), (POLY, s_poly)):
        if S.has(k): S.specs[k] = f
def newex(S, *excl):
    ex = S.exec(exclude=excl); ex.use_z3 = False; ex.max_depth = 4000
    return ex

# ------------------------------------------------------------------ checksum and prefix check
class PolyT(Template):
    """after T groups the register is the fold over them"""
    def __init__(self, n): self.n = n; self.cell = None
    def T(self, case): return t.zext(t.var('T', 31), 64)
    def inv(self, T): return t.ule(T, self.n)
    def expected(self): return self.n
    def match(self, ex, f, st, changed):
        cs = [c for c in changed if c[0] == 'env' and isinstance(st.env.get(c[1]), t.T) and st.env[c[1]].w == 32 and not self.linear(c)]
        if len(cs) != 1: return False
        self.cell = cs[0]; self.start = st.env[self.cell[1]]; return True
    def linear(self, c): return self.guess(c)[0] == 'lin'
    def role_cells(self, ex, st): return [self.cell]
    def init(self, ex, st): return [('register starts at 1', t.eq(self.start, c32(1)))]
    def write(self, ex, st, case, T): st.env[self.cell[1]] = t.zext(t.var('r', 30), 32)
    def back(self, ex, st, case, T):
        want = step(t.var('r', 30), t.uf('b5:data', 5, T))
        return [('checksum step', t.eq(st.env[self.cell[1]], t.zext(want, 32)))]
    def final(self, ex, st): st.env[self.cell[1]] = t.zext(t.var('fold', 30), 32)
@guarded
def check_poly(S, task):
    """every number of groups"""
    if missing(S, task, POLY): return
    ex = S.exec(exclude=[POLY]); pr = S.prover(); st = S.base.fork()
    n = t.zext(t.var('n', 31), 32)
    def read(ex_, st_, off, k):
        if k != 1: raise Unsupported('wide read')
        return t.zext(t.uf('b5:data', 5, off), 8)
    p = P(ex.new_obj(st, 'data', t.zext(n, 64), oid='data', ro=True, meta={'kind': 'B', 'es': 1, 'len': n, 'read': read, 'tok': 'data'}))
    pre = st.fork(); tp = PolyT(t.zext(n, 64)); lc = LoopCut(task, pr, POLY, [tp]); ex.loopcut = lc
    outs = run1(S, ex, st, POLY, [p])
    for s, r in outs:
        if not isinstance(r, t.T): task.fail(POLY, 'returns normally', str(r)); continue
        discharge(task, pr, POLY, 'post: result is the fold over all groups', list(s.pc), t.eq(r, t.zext(t.var('fold', 30), 32))); frame(task, POLY, pre, s, ())
    if not lc.cuts: task.fail(POLY, 'loop over the groups', 'no loop over the symbolic length was met')
    D_obs(task, pr, POLY, ex); task.functions[POLY] = 1
@guarded
@nothrow_off
def check_hrp(S, task):
    """every length"""
    if missing(S, task, HRP): return
    pr = S.prover()
    for n in list(range(0, 84)) + [None]:
        ex = newex(S, HRP); st = S.base.fork()
        if n is None:
            ln = t.zext(t.var('len', 31), 32); st.assume(t.ult(c32(83), ln)); V = Valid([t.false()], pr)
            p = P(ex.new_obj(st, 's', None, meta={'kind': 'C', 'es': 2, 'len': ln}, oid='s', ro=True)); ex.use_z3 = True
        else:
            cs = [t.var('c[%d]' % i, 16) for i in range(n)]
            p = ex.new_array(st, 'C', n, vals=cs, oid='s', ro=True)
            V = Valid([x for c in cs for x in (t.ule(c16(33), c), t.ule(c, c16(126)), t.not_(rng(c, 65, 90)))] if n else [t.false()], pr)
        nm = '%s [length %s]' % (HRP, 'above 83' if n is None else n)
        pre = st.fork(); outs = run1(S, ex, st, HRP, [p]); outcomes(task, ex, pr, nm, pre, outs, V, lambda s, r, nm: task.count('simplification') if r is None else task.fail(nm, 'returns nothing', str(r)))
        if len(task.failed) > 4: break
    task.functions = {HRP: 1}
def outcomes(task, ex, pr, nm, pre, outs, V, good):
    if not outs: task.fail(nm, 'function returns', 'no execution reaches the end')
    for s, r in outs:
        if isinstance(r, tuple):
            if r != IAE: task.fail(nm, 'no exception but IllegalArgumentException', r[1]); continue
            V.rejects(task, nm, s.pc); continue
        if V.never:
            task.fail(nm, 'post: invalid arguments are rejected', 'a path returns normally') if not pr.prove(list(s.pc) + definitions(list(s.pc)), t.false()).ok else task.count('z3 bit-vectors'); continue
        if V.holds(task, nm, s): good(s, r, nm)
        frame(task, nm, pre, s, ())
    D_obs(task, pr, nm, ex)
    task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)

# ------------------------------------------------------------------ encoder
def string(ex, st, name, n, v=None):
    p = ex.new_array(st, 'C', n, vals=v or [t.var('%s[%d]' % (name, i), 16) for i in range(n)], oid=name, ro=True)
    st.mem[name].meta['cls'] = 'java/lang/String'; return p
def symstring(ex, st, name):
    ln = t.zext(t.var('len.' + name, 31), 32)
    p = P(ex.new_obj(st, name, None, meta={'kind': 'C', 'es': 2, 'len': ln, 'cls': 'java/lang/String'}, oid=name, ro=True)); return p, ln
def barr(ex, st, name, n): return ex.new_array(st, 'B', n, name, vals=[t.var('%s[%d]' % (name, i), 8) for i in range(n)], oid=name, ro=True)
def symbytes(ex, st, name):
    ln = t.zext(t.var('len.' + name, 31), 32)
    def read(ex_, st_, off, k): return t.concat(*reversed([t.uf('byte:' + name, 8, t.add(off, t.const(i, 64))) for i in range(k)]))
    return P(ex.new_obj(st, name, t.zext(ln, 64), oid=name, ro=True, meta={'kind': 'B', 'es': 1, 'len': ln, 'read': read})), ln
def same_bytes(task, pr, nm, s, what, got, want):
    if len(got) != len(want): task.fail(nm, what + ' length', '%d, specified %d' % (len(got), len(want))); return False
    for i, (x, y) in enumerate(zip(got, want)):
        if x is y: task.count('simplification'); continue
        # the checksum may be any value
        m = {u: t.var('any30', 30) for u in t.topo([x, y]) if u.op == 'uf' and u.v.startswith('bech32.polymod')}
        if len(m) == 1:
            q = pr.prove([], t.eq(*t.subst([x, y], m)))
            if q.ok: task.count(q.by); continue
        if not D(task, pr, nm, 'post: %s[%d]' % (what, i), list(s.pc), t.eq(x, y)): return False
    return True
def enc_spec(hs, ds):
    g = [t.extract(d, 4, 0) for d in ds]
    p = t.xor(polymod(expand(hs) + g + [t.const(0, 5)] * 6), t.const(1, 30))
    return hs + [c16(ord('1'))] + [symbol(x) for x in g] + [symbol(t.extract(p, 5 * i + 4, 5 * i)) for i in reversed(range(6))]
@guarded
@nothrow_off
def check_enc(S, task, hs):
    """prefix lengths hs, every data length that fits"""
    sess(S)
    if missing(S, task, ENC): return
    pr = S.prover()
    for h in hs:
        for d in range(0, 84 - h):
            ex = newex(S, ENC); st = S.base.fork()
            a = [string(ex, st, 'h', h), barr(ex, st, 'd', d)]; pre = st.fork()
            cs = ex.chars(st, a[0]); ds = ex.elems(st, a[1])
            V = Valid([hrpok(cs) if S.has(HRP) else t.and_(*[okchar(c) for c in cs])] + [t.eq(t.extract(x, 7, 5), t.const(0, 3)) for x in ds], pr)
            want = enc_spec(cs, ds)
            def good(s, r, nm):
                if not isinstance(r, Ptr): task.fail(nm, 'returns a string', str(r)); return
                same_bytes(task, pr, nm, s, 'character', ex.chars(s, r), want)
            outcomes(task, ex, pr, '%s [%d characters, %d groups]' % (ENC, h, d), pre, run1(S, ex, st, ENC, a), V, good)
            if len(task.failed) > 4: break
        if len(task.failed) > 4: break
    task.functions = {ENC: 1}
@guarded
@nothrow_off
def check_enc_other(S, task, which):
    """arguments outside the length limits, null arguments"""
    sess(S)
    if missing(S, task, ENC): return
    ex = newex(S, ENC); pr = S.prover(); st = S.base.fork(); ex.use_z3 = True; want = IAE; nm = '%s [%s]' % (ENC, which)
    if which == 'null':
        for a in ((NULL, barr(ex, st, 'd', 3)), (string(ex, st, 'h', 2), NULL), (NULL, NULL)):
            for s, r in run1(S, ex, st.fork(), ENC, list(a)): task.count('symbolic execution') if r == NPE else task.fail(nm, 'outcome is NullPointerException', str(r))
        task.functions = {ENC: 1}; return
    h, hl = symstring(ex, st, 'h'); d, dl = symbytes(ex, st, 'd')
    if which == 'prefix length': st.assume(t.not_(t.and_(t.ule(c32(1), hl), t.ule(hl, c32(83)))))
    else:
        st.assume(t.and_(t.ule(c32(1), hl), t.ule(hl, c32(83)))); st.assume(t.ult(c32(83), t.add(hl, dl)))      # both below 2^31
    ex.chararray = lambda ex, st, p: [(st, P(ex.new_obj(st, 'chars', None, meta={'kind': 'C', 'es': 2, 'len': hl})))]
    class DataT(Template):
        force = 'any'
        def T(self, case): return t.zext(t.var('T', 31), 64)
        def inv(self, T): return t.ule(T, t.zext(dl, 64))
        def expected(self): return t.zext(dl, 64)
    lc = LoopCut(task, pr, nm, [DataT()]); lc.throws = (ex.depth + 1, IAE[1]); ex.loopcut = lc; pre = st.fork()
    outs = run1(S, ex, st, ENC, [h, d])
    V = Valid([t.false()], pr); outcomes(task, ex, pr, nm, pre, outs, V, lambda *a: None)
    task.functions = {ENC: 1}

# ------------------------------------------------------------------ decoder
def hooks(ex, task, pr, nm):
    ex.seps = 0
    def indexof(ex, st, p, k, last):
        cs = ex.chars(st, p); n = len(cs); c = c16(k.v)
        for j, x in enumerate(cs):
            if x.op == 'uf' and x.v == 'lower': continue
            vs = [v for v in t.topo([x]) if v.op == 'var' and v.w == 16]
            if len(vs) != 1: raise Unsupported('search in computed text')
            y = lowdef(vs[0]); r = x is y or prove_eq(pr, st, x, y)
            if not r: raise Unsupported('text searched is not the lower-case form of the input')
            cs[j] = lower(vs[0])
        o = st.wobj(p.obj)
        for j, x in enumerate(cs): o.put(2 * j, 2, x)
        outs = []
        for j in (range(n - 1, -1, -1) if last else range(n)):
            e = t.eq(cs[j], c); s2 = st.fork(); s2.assume(e); s2.aux['sep'] = (j, last); outs.append((s2, c32(j))); st.assume(t.not_(e))
        st.aux = dict(st.aux); st.aux['sep'] = (-1, last); outs.append((st, c32(0xFFFFFFFF)))
        return outs
    def digitof(ex, st, cs, k, last):
        if [c.v for c in cs] != [ord(x) for x in ALPHA] or not (k.w == 32 and k.op == 'concat' and k.a[-1].w == 16 and all(t.isc(y) and not y.v for y in k.a[:-1])): return None
        c = k.a[-1]; ok = b32ok(c); d = decide_facts(ok, st.facts)
        r = []
        if d is not True:
            s2 = st.fork() if d is None else st; s2.assume(t.not_(ok)); r.append((s2, c32(0xFFFFFFFF)))
        if d is not False: st.assume(ok); r.append((st, t.zext(b32val(c), 32)))
        return r
    ex.indexof = indexof; ex.digitof = digitof
def prove_eq(pr, st, x, y):
    c = t.eq(x, y)
    return pr.prove(cone(list(st.pc), c), c).ok or pr.prove(list(st.pc), c).ok
def dec_spec(cs, sep, hashrp):
    """(validity literals, prefix characters, data groups) with the last separator at sep"""
    lo = [lower(c) for c in cs]; n = len(cs)
    if sep < 0: return [t.false()], None, None
    h = lo[:sep]; x = lo[sep + 1:]
    V = [t.eq(lo[sep], c16(49))] + [t.ne(c, c16(49)) for c in x]
    if not 1 <= sep <= 83 or len(x) < 6: return V + [t.false()], None, None
    V += [hrpok(h) if hashrp else t.and_(*[okchar(c) for c in h])] + [b32ok(c) for c in x]
    g = [b32val(c) for c in x]
    V.append(t.eq(polymod(expand(h) + g), t.const(1, 30)))
    return V, h, g[:-6]
def mixed(cs):
    any_ = lambda xs: t.not_(t.and_(*[t.not_(x) for x in xs]))
    return t.and_(any_([rng(c, 97, 122) for c in cs]), any_([rng(c, 65, 90) for c in cs])) if cs else t.false()
@guarded
@nothrow_off
def check_dec(S, task, Ls):
    """strings of these lengths"""
    sess(S)
    if missing(S, task, DEC): return
    pr = S.prover()
    for L in Ls:
        ex = newex(S, DEC); st = S.base.fork(); nm = '%s [length %d]' % (DEC, L)
        a = [string(ex, st, 's', L)]; pre = st.fork(); cs = ex.chars(st, a[0]); hooks(ex, task, pr, nm)
        outs = run1(S, ex, st, DEC, a); mix = mixed(cs); Vs = {}
        if not outs: task.fail(nm, 'function returns', 'no execution reaches the end')
        def valid(sep):
            if sep not in Vs:
                V, h, g = dec_spec(cs, sep, S.has(HRP)); Vs[sep] = (Valid(V, pr), h, g)
            return Vs[sep]
        mixpc = {}
        for s, r in outs:
            if isinstance(r, tuple) and r != IAE: task.fail(nm, 'no exception but IllegalArgumentException', r[1]); continue
            sp = s.aux.get('sep') if L else (-1, True)
            pcs = list(s.pc)
            if sp is None:
                # rejected (or accepted) before looking for the separator: must be mixed case
                if r != IAE: task.fail(nm, 'post: invalid arguments are rejected', 'accepted without separator search'); continue
                D(task, pr, nm, 'post: only mixed case is rejected before the separator is looked for', pcs, mix); continue
            if not sp[1]: task.fail(nm, 'post: the last separator splits the string', 'the first occurrence is used'); break
            sep = sp[0]; V, h, g = valid(sep)
            # the part of the path before the separator literals says: not mixed
            k = next((i for i, x in enumerate(pcs) if any(y.op == 'uf' and y.v == 'lower' for y in t.topo([x]))), len(pcs)) if L else len(pcs)
            key = tuple(pcs[:k])
            if key not in mixpc: mixpc[key] = D(task, pr, nm, 'post: mixed case is rejected', list(key), t.not_(mix))
            if r == IAE: V.rejects(task, nm, pcs[k:]); continue
            if V.never: task.fail(nm, 'post: invalid arguments are rejected', 'separator at %d accepted' % sep); break
            if not V.holds(task, nm, s): break
            if not isinstance(r, Ptr): task.fail(nm, 'returns an array', str(r)); continue
            o = s.mem[r.obj]
            if o.meta.get('kind') != 'L' or o.meta['len'] is not c32(2) or r.obj in pre.mem: task.fail(nm, 'returns a new pair', str(o.meta)); continue
            x, y = o.get(0, 8), o.get(8, 8)
            if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj and y.obj and s.mem[x.obj].meta.get('cls') == 'java/lang/String' and s.mem[y.obj].meta.get('kind') == 'B' and y.obj not in pre.mem):
                task.fail(nm, 'pair of a string and a new byte array', str((x, y))); continue
            same_bytes(task, pr, nm, s, 'prefix character', ex.chars(s, x), h)
            same_bytes(task, pr, nm, s, 'group', ex.elems(s, y), [t.zext(v, 8) for v in g])
            frame(task, nm, pre, s, ())
            if len(task.failed) > 4: break
        D_obs(task, pr, nm, ex)
        task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
        if len(task.failed) > 4: break
    task.functions = {DEC: 1}
@guarded
@nothrow_off
def check_dec_other(S, task):
    sess(S)
    if missing(S, task, DEC): return
    ex = newex(S, DEC); pr = S.prover(); st = S.base.fork(); ex.use_z3 = True; nm = DEC + ' [null]'
    for s, r in run1(S, ex, st.fork(), DEC, [NULL]): task.count('symbolic execution') if r == NPE else task.fail(nm, 'outcome is NullPointerException', str(r))
    nm = DEC + ' [length above 90]'
    p, ln = symstring(ex, st, 's'); st.assume(t.ult(c32(90), ln)); pre = st.fork()
    outcomes(task, ex, pr, nm, pre, run1(S, ex, st, DEC, [p]), Valid([t.false()], pr), lambda *a: None)
    task.functions = {DEC: 1}

# ------------------------------------------------------------------ segregated witness
def regroup(ws):
    """8-bit bytes to 5-bit groups, the last one filled with zero bits; most significant bit first"""
    bits = t.concat(*ws); n = bits.w; pad = -n % 5
    if pad: bits = t.concat(bits, t.const(0, pad))
    return [t.extract(bits, bits.w - 5 * i - 1, bits.w - 5 * i - 5) for i in range(bits.w // 5)]
@guarded
@nothrow_off
def check_senc(S, task, ns):
    """programs of these lengths (None: all other lengths)"""
    if missing(S, task, SENC) or missing(S, task, ENC): return
    pr = S.prover(); S.specs[ENC] = stub(ENC)
    for n in ns:
        ex = S.exec(exclude=[SENC]); st = S.base.fork(); nm = '%s [program length %s]' % (SENC, n if n is not None else 'outside 2..40')
        v = t.var('ver', 32); h = string(ex, st, 'h', 5)
        if n is None: w, wl = symbytes(ex, st, 'w'); st.assume(t.not_(t.and_(t.ule(c32(2), wl), t.ule(wl, c32(40)))))
        else: w = barr(ex, st, 'w', n); ws = ex.elems(st, w)
        pre = st.fork(); outs = run1(S, ex, st, SENC, [h, v, w])
        okv = t.ule(v, c32(16))
        if not outs: task.fail(nm, 'function returns', 'no execution reaches the end')
        for s, r in outs:
            call = s.aux.get('call', ())
            if not call:
                if r != IAE: task.fail(nm, 'invalid arguments give IllegalArgumentException', str(r)); continue
                if n is not None: discharge(task, pr, nm, 'post: valid arguments are not rejected', list(s.pc), t.not_(okv))
                else: task.count('simplification')
                continue
            if n is None: task.fail(nm, 'post: invalid program length is rejected', 'encoded'); continue
            if len(call) != 1: task.fail(nm, 'one encoding', str(len(call))); continue
            name, (ka, kd), ok = call[0]
            discharge(task, pr, nm, 'post: invalid version is rejected', list(s.pc), okv)
            if ka[0] != h.obj: task.fail(nm, 'prefix is the given one', str(ka[0]))
            same_bytes(task, pr, nm, s, 'group', list(kd[1]), [t.trunc(v, 8)] + [t.zext(g, 8) for g in regroup(ws)])
            if ok and not (isinstance(r, Ptr) and s.mem[r.obj].meta.get('cls') == 'java/lang/String' and ex.chars(s, r) == [t.var('out', 16)]): task.fail(nm, 'post: result of the encoder', str(r))
            elif not ok and r != IAE: task.fail(nm, 'post: rejection by the encoder', str(r))
            else: task.count('simplification')
            frame(task, nm, pre, s, ())
        D_obs(task, pr, nm, ex); task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
        if len(task.failed) > 4: break
    ex = S.exec(exclude=[SENC]); st = S.base.fork()
    for a in ((NULL, barr(ex, st, 'd', 3)), (string(ex, st, 'h', 2), NULL)):
        for s, r in run1(S, ex, st.fork(), SENC, [a[0], c32(1), a[1]]): task.count('symbolic execution') if r == NPE else task.fail(SENC + ' [null]', 'outcome is NullPointerException', str(r))
    task.functions = {SENC: 1}
@guarded
@nothrow_off
def check_sdec(S, task, ds):
    """decoded data of these lengths"""
    if missing(S, task, SDEC) or missing(S, task, DEC): return
    pr = S.prover(); S.specs[DEC] = stub(DEC)
    for d in ds:
        ex = S.exec(exclude=[SDEC]); st = S.base.fork(); nm = '%s [%d groups]' % (SDEC, d)
        p = string(ex, st, 's', 9); gs = [t.var('g[%d]' % i, 5) for i in range(d)]
        def decoded(c):
            h = c.ex.mkstring(c.st, [t.var('prefix', 16)]); b = c.ex.new_array(c.st, 'B', d, vals=[t.zext(g, 8) for g in gs])
            q = c.ex.new_array(c.st, 'L', 2); o = c.st.wobj(q.obj); o.put(0, 8, h); o.put(8, 8, b); c.st.aux['dec'] = h.obj
            return q
        ex.decoded = decoded; pre = st.fork(); outs = run1(S, ex, st, SDEC, [p]); n = (d - 1) * 5 // 8 if d else 0; pad = (d - 1) * 5 - 8 * n if d else 0
        lits = [t.false()]
        if d >= 1 and 2 <= n <= 40 and pad < 5:
            bits = t.concat(*gs[1:]); lits = [t.ule(gs[0], t.const(16, 5)), t.eq(t.extract(bits, pad - 1, 0), t.const(0, pad)) if pad else t.true()]
            want = [t.extract(bits, bits.w - 8 * i - 1, bits.w - 8 * i - 8) for i in range(n)]
        V = Valid(lits, pr)
        if not outs: task.fail(nm, 'function returns', 'no execution reaches the end')
        for s, r in outs:
            call = s.aux.get('call', ())
            if len(call) != 1 or call[0][1][0][0] != p.obj: task.fail(nm, 'the string is decoded once', str(call)); continue
            if not call[0][2]:
                task.count('simplification') if r == IAE else task.fail(nm, 'post: rejection by the decoder', str(r)); continue
            if isinstance(r, tuple):
                if r != IAE: task.fail(nm, 'no exception but IllegalArgumentException', r[1]); continue
                V.rejects(task, nm, s.pc); continue
            if V.never:
                if not pr.prove(list(s.pc), t.false()).ok: task.fail(nm, 'post: invalid arguments are rejected', 'a path returns normally')
                continue
            if not V.holds(task, nm, s): continue
            o = s.mem[r.obj] if isinstance(r, Ptr) and r.obj else None
            if o is None or o.meta.get('kind') != 'L' or o.meta['len'] is not c32(3) or r.obj in pre.mem: task.fail(nm, 'returns a new triple', str(r)); continue
            x, y, z = o.get(0, 8), o.get(8, 8), o.get(16, 8)
            if not (all(isinstance(q, Ptr) and q.obj for q in (x, y, z)) and x.obj == s.aux.get('dec') and s.mem[y.obj].meta.get('box') == 32 and s.mem[z.obj].meta.get('kind') == 'B' and z.obj not in pre.mem):
                task.fail(nm, 'triple of the prefix, a number and a new byte array', str((x, y, z))); continue
            D(task, pr, nm, 'post: version', list(s.pc), t.eq(s.mem[y.obj].get(0, 4), t.zext(gs[0], 32)))
            same_bytes(task, pr, nm, s, 'program byte', ex.elems(s, z), want); frame(task, nm, pre, s, ())
        D_obs(task, pr, nm, ex); task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
        if len(task.failed) > 4: break
    ex = S.exec(exclude=[SDEC])
    for s, r in run1(S, ex, S.base.fork(), SDEC, [NULL]): task.count('symbolic execution') if r == NPE else task.fail(SDEC + ' [null]', 'outcome is NullPointerException', str(r))
    task.functions = {SDEC: 1}

# ------------------------------------------------------------------ lemmas over the contracts
def lemmas(task):
    from dv.prove import Prover
    pr = Prover(); nm = 'lemma Bech32'
    def ob(what, hyps, c): discharge(task, pr, nm, what, hyps, c)
    r = t.var('r', 30); cs = [t.var('c%d' % i, 5) for i in range(6)]
    a, z = r, r
    for i in range(6): a = step(a, cs[i]); z = step(z, t.const(0, 5))
    ob('appending six groups adds them to the register after six zero groups', [], t.eq(a, t.xor(z, t.concat(*cs))))
    # hence: polymod(x ++ c) = 1 exactly for c = polymod(x ++ 0^6) xor 1 (the encoder's choice), so the checksum is unique
    g = t.var('g', 5); s = symbol(g)
    ob('every group is written as a character of the alphabet', [], okdef(s))
    ob('reading the character gives the group back', [], t.eq(valdef(s), g))
    ob('alphabet characters are lower case and no separator', [], t.and_(t.not_(rng(s, 65, 90)), t.ne(s, c16(49))))
    c = t.var('c', 16)
    ob('writing the group of an alphabet character gives the character', [okdef(c)], t.eq(symbol(valdef(c)), c))
    ob('accepted prefix characters are their own lower-case form', [okchar(c)], t.eq(lowdef(c), c))
    ob('lower-case form is idempotent', [], t.eq(lowdef(lowdef(c)), lowdef(c)))
    ob('lower-case form has no upper-case letter', [], t.not_(rng(lowdef(c), 65, 90)))
    # regrouping: decode(encode(w)) = w and the padding accepted is the padding produced, for every program length
    for n in range(2, 41):
        ws = [t.var('w%d' % i, 8) for i in range(n)]; gs = regroup(ws); d = len(gs) + 1
        m = (d - 1) * 5 // 8; pad = (d - 1) * 5 - 8 * m; bits = t.concat(*gs)
        ob('program of %d bytes: length and padding' % n, [], t.boolc(m == n and pad < 5))
        ob('program of %d bytes: padding is zero' % n, [], t.eq(t.extract(bits, pad - 1, 0), t.const(0, pad)) if pad else t.true())
        ob('program of %d bytes: regrouped back' % n, [], t.and_(*[t.eq(t.extract(bits, bits.w - 8 * i - 1, bits.w - 8 * i - 8), ws[i]) for i in range(n)]))
        qs = [t.var('q%d' % i, 5) for i in range(len(gs))]; qb = t.concat(*qs)
        back = regroup([t.extract(qb, qb.w - 8 * i - 1, qb.w - 8 * i - 8) for i in range(n)])
        ob('program of %d bytes: groups with zero padding are regrouped to themselves' % n, [t.eq(t.extract(qb, pad - 1, 0), t.const(0, pad))] if pad else [], t.and_(*[t.eq(x, y) for x, y in zip(back, qs)]))
    ds = [d for d in range(1, 83) if (d - 1) * 5 - 8 * ((d - 1) * 5 // 8) < 5 and 2 <= (d - 1) * 5 // 8 <= 40]
    ob('accepted data lengths are the encoder\'s', [], t.boolc(ds == [1 + (8 * n + 4) // 5 for n in range(2, 41)]))
    task.functions[nm] = 1
