"""Java hash functions: contracts and verification units, on the sequences of dv/hashes."""
from dv import terms as t, hashspec as HS, jlib
from dv.symex import *
from dv.spec import *
from dv.loops import Template, LoopCut
from dv import hashes as h
from dv.hashes import S256, S512, RMD, KEC, Alg, Creal, Cuf, bytes_of, join, dig, seqterm, guarded, missing, run1, finish, frame, pad_blocks, cmp_terms
from dv.java import c32, arr
from dv.jcurve import newbytes, newhash
from dv.jmisc import NPE

COMP = {'sha256': 'Sha256.compress([I[BI)', 'sha512': 'Sha512.compress([J[BI)', 'ripemd160': 'Ripemd160.compress([I[BI)', 'keccak256': 'Keccak256.absorb([J)'}
CONT = 'Sha256.getHash([B[II)'
z64 = lambda n: t.zext(n, 64)

def barr(ex, st, name, n):
    """a byte array of n bytes; n a number, or a 32-bit term for a symbolic length"""
    if isinstance(n, int):
        p = ex.new_array(st, 'B', n, name, vals=[t.var('%s[%d]' % (name, i), 8) for i in range(n)], oid=name, ro=True)
        return p
    tok = name
    def read(ex_, st_, off, k):
        return t.concat(*reversed([t.uf('byte:' + tok, 8, t.add(off, t.const(i, 64))) for i in range(k)]))
    return P(ex.new_obj(st, name, z64(n), oid=name, ro=True, meta={'kind': 'B', 'es': 1, 'len': n, 'read': read, 'tok': tok}))
def blen(c, p): return c.ex.deref(c.st, p).meta['len']
def seg(c, p, lo=0, n=None):
    """the bytes of the array p (from lo, n of them)"""
    o = c.ex.deref(c.st, p)
    if n is None: n = t.sub(o.meta['len'], c32(lo))
    if t.isc(n):
        if not n.v: return []
        return [('b', tuple(c.r(p, 1, lo + i) for i in range(n.v)))]
    if 'tail' in o.meta:
        off, tok, src, k = o.meta['tail']
        if lo or n is not o.meta['len'] or off not in o.meta['cover']: raise Unsupported('part of a composed array')
        return [('b', tuple(o.get(i, 1) for i in range(off))), ('a', tok, src, z64(k))]
    tok = o.meta.get('tok')
    if tok is None: raise Unsupported('array of symbolic length with unknown contents')
    return [('a', tok, t.const(lo, 64), z64(n))]
def IV(alg): return t.const(sum(v << (alg.w * i) for i, v in enumerate(alg.iv)), 8 * alg.sbytes)
def CC(S, alg, s, blk): return Cuf(alg, s, blk) if S.has(COMP[alg.name]) else Creal(alg, s, blk)

def specs(S):
    r = {}
    for alg in (S256, S512, RMD):
        def comp(c, s, b, n, alg=alg):
            c.require(t.ule(n, blen(c, b)), 'the blocks lie inside the array')
            if t.isc(n):
                c.require(t.boolc(n.v % alg.B == 0), 'whole blocks'); v = c.r(s, alg.sbytes); by = seg(c, b, 0, n)
                by = by[0][1] if by else ()
                for i in range(0, n.v, alg.B): v = Cuf(alg, v, join(by[i:i + alg.B]))
                if n.v: c.w(s, v)
                return
            k = alg.B.bit_length() - 1
            c.require(t.eq(t.extract(n, k - 1, 0), t.const(0, k)), 'whole blocks'); c.require(t.sle(c32(0), n), 'length not negative')
            c.w(s, t.uf(alg.name + '.fold', 8 * alg.sbytes, c.r(s, alg.sbytes), seqterm(seg(c, b, 0, n))))
        r[COMP[alg.name]] = comp
    r[COMP['keccak256']] = lambda c, s: c.w(s, Cuf(KEC, c.r(s, 200), t.const(0, 8)))
    def cont(c, msg, s, pre):
        """continues the hash of a prefix of whole blocks that is folded into the state"""
        v = c.r(s, 32)
        if v is IV(S256) and t.isc(pre) and pre.v == 0: q = []
        elif v.op == 'uf' and v.v == 'sha256.compress' and v.a[0] is IV(S256) and t.isc(pre) and pre.v == 64: q = [('b', tuple(bytes_of(v.a[1])))]
        else: raise Unsupported('hash continued from an unknown state')
        x = seg(c, msg); c.w(s, t.fresh('dead', 256)); return newhash(c, dig(S256, q + x))
    r[CONT] = cont
    one = lambda alg: lambda c, m: NPE if m.obj is None else newbytes(c, dig(alg, seg(c, m)), h.HLEN[alg.name] // 8)
    for alg in (S512, RMD, KEC): r['%s.getHash([B)' % alg.cls] = one(alg)
    r['Sha256.getHash([B)'] = lambda c, m: NPE if m.obj is None else newhash(c, dig(S256, seg(c, m)))
    r['Sha256.getDoubleHash([B)'] = lambda c, m: NPE if m.obj is None else newhash(c, dig(S256, [('b', tuple(bytes_of(dig(S256, seg(c, m)))))]))
    r['Sha512.getHmac([B[B)'] = lambda c, k, m: newbytes(c, hmac(c, S512, k, m), 64)
    return {k: v for k, v in r.items() if S.has(k)}
def hmac_def(c, alg, k, m):
    kl = blen(c, k)
    if t.isc(kl) and kl.v <= alg.B: kb = list(seg(c, k)[0][1]) if kl.v else []
    else:
        if decide_facts(t.ule(kl, c32(alg.B)), c.st.facts) is not False and not t.isc(kl): raise Unsupported('key length not split into cases')
        kb = bytes_of(dig(alg, seg(c, k)))
    kb += [t.const(0, 8)] * (alg.B - len(kb))
    x = lambda v: ('b', tuple(t.xor(b, t.const(v, 8)) for b in kb))
    inner = dig(alg, [x(0x36)] + seg(c, m))
    return dig(alg, [x(0x5C), ('b', tuple(bytes_of(inner)))])
def hmac(c, alg, k, m):
    kl, ml = blen(c, k), blen(c, m)
    if t.isc(kl) and t.isc(ml):
        a = [join([c.r(p, 1, i) for i in range(n.v)]) for p, n in ((k, kl), (m, ml)) if n.v]
        return t.uf('hmac%s:%d:%d' % (alg.name[3:], kl.v, ml.v), h.HLEN[alg.name], *a)
    return hmac_def(c, alg, k, m)

def symcopy(ex, st, dst, src, n, es):
    """copy of a whole array of symbolic length behind a constant prefix"""
    o = st.mem[src.obj]; d = st.wobj(dst.obj)
    if 'tok' not in o.meta or es != 1 or not t.isc(dst.off) or not t.isc(src.off) or 'tail' in d.meta or not d.meta.get('zero'): raise Unsupported('array copy of symbolic length')
    if d.meta['len'] is not t.add(n, c32(dst.off.v)): raise Unsupported('array copy that does not fill the array')
    if d.overlapping(dst.off.v, 1 << 20): raise Unsupported('copy over written elements')
    m = dict(d.meta); m['tail'] = (dst.off.v, o.meta['tok'], src.off, n); m['cover'] = {dst.off.v}; d.meta = m

# ------------------------------------------------------------------ units
def sess(S):
    """hash contracts on top of the session"""
    sp = specs(S)
    for k, f in sp.items(): S.specs[k] = f
    return sp
def newex(S, *excl):
    ex = S.exec(exclude=excl); ex.symcopy = symcopy; return ex
def state(ex, st, alg, vals=None):
    k = 'I' if alg.w == 32 else 'J'
    p = ex.new_array(st, k, alg.nst, 'state', oid='this')
    for i in range(alg.nst): st.mem['this'].put(i * alg.w // 8, alg.w // 8, vals[i] if vals else t.var('hs%d' % i, alg.w))
    return p
def creal(alg, s, blk):
    if alg is not KEC: return Creal(alg, s, blk)
    # lane (x, y) is element x + 5 y
    A = {(i % 5, i // 5): t.extract(s, 64 * i + 63, 64 * i) for i in range(25)}
    A = HS.keccak_f(A)
    return t.concat(*reversed([A[i % 5, i // 5] for i in range(25)]))
@guarded
def check_compress(S, task, alg):
    """one block: the specified compression; the state array only is written"""
    dem = COMP[alg.name]; sess(S)
    if missing(S, task, dem): return
    ex = newex(S, dem); pr = S.prover(); st = S.base.fork()
    s = state(ex, st, alg); S0 = st.mem['this'].get(0, alg.sbytes); args = [s]; blk = None
    if alg is not KEC:
        args += [barr(ex, st, 'block', alg.B), c32(alg.B)]; blk = st.mem['block'].get(0, alg.B)
    pre = st.fork(); outs = run1(S, ex, st, dem, args); spec = creal(alg, S0, blk); n = alg.sbytes; wd = alg.w
    for s2, r in outs:
        if r is not None: task.fail(dem, 'returns normally', str(r)); continue
        A = [s2.mem['this'].get(i, wd // 8) for i in range(0, n, wd // 8)]
        B = [t.extract(spec, 8 * i + wd - 1, 8 * i) for i in range(0, n, wd // 8)]
        cmp_terms(task, dem, 'result equals the specified compression', A, B); frame(task, dem, pre, s2, ('this',))
    finish(task, pr, dem, ex, pre, outs)

class BlocksT(Template):
    """after T blocks the state is the fold over them"""
    def __init__(self, alg, q): self.alg = alg; self.q = q
    def T(self, case): return t.zext(t.var('T', 31 - (self.alg.B.bit_length() - 1)), 64)
    def inv(self, T): return t.ule(T, self.q)
    def expected(self): return self.q
    def role_cells(self, ex, st): return [('this', 0, self.alg.sbytes)]
    def match(self, ex, f, st, changed): return any(c[0] == 'this' for c in changed)
    def init(self, ex, st): return [('state untouched before the loop', t.boolc(st.mem['this'].get(0, self.alg.sbytes) is t.var('s0', 8 * self.alg.sbytes)))]
    def write(self, ex, st, case, T):
        o = st.wobj('this'); wd = self.alg.w // 8
        for i in range(self.alg.nst): o.put(wd * i, wd, t.var('hs%d' % i, self.alg.w))
    def back(self, ex, st, case, T):
        al = self.alg; wd = al.w // 8
        S = t.concat(*reversed([t.var('hs%d' % i, al.w) for i in range(al.nst)]))
        blk = join([t.uf('byte:msg', 8, t.lin([(al.B, T)], j, 64)) for j in range(al.B)])
        want = Creal(al, S, blk); o = st.mem['this']
        from dv import sweep
        A = [o.get(wd * i, wd) for i in range(al.nst)]; B = [t.extract(want, al.w * i + al.w - 1, al.w * i) for i in range(al.nst)]
        return [('one block compressed', t.boolc(all(a is b for a, b in zip(A, B)) or sweep.equal(A, B)[0]))]
    def final(self, ex, st): st.wobj('this').put(0, self.alg.sbytes, t.uf(self.alg.name + '.fold', 8 * self.alg.sbytes, t.var('s0', 8 * self.alg.sbytes), seqterm([('a', 'msg', t.const(0, 64), t.lin([(self.alg.B, self.q)], 0, 64))])))
def length(alg, r0=0):
    """(blocks as a 64-bit term, block bytes as a 32-bit term, length = blocks * B + r0 as a 32-bit term)"""
    k = alg.B.bit_length() - 1
    v = t.var('q', 31 - k)
    return t.zext(v, 64), t.concat(t.const(0, 1), v, t.const(0, k)), t.concat(t.const(0, 1), v, t.const(r0, k))
@guarded
def check_blocks(S, task, alg):
    """the loop over the blocks, for every number of blocks"""
    dem = COMP[alg.name]; sess(S)
    if missing(S, task, dem): return
    ex = newex(S, dem); pr = S.prover(); st = S.base.fork(); p = state(ex, st, alg)
    s0 = t.var('s0', 8 * alg.sbytes); st.mem['this'].put(0, alg.sbytes, s0)
    q, n, _ = length(alg); L = t.zext(t.var('len', 31), 32); st.assume(t.ule(n, L))
    msg = barr(ex, st, 'msg', L); pre = st.fork()
    ex.loopcut = LoopCut(task, pr, dem, [BlocksT(alg, q)])
    outs = run1(S, ex, st, dem, [p, msg, n])
    want = t.uf(alg.name + '.fold', 8 * alg.sbytes, s0, seqterm([('a', 'msg', t.const(0, 64), z64(n))]))
    for s, r in outs:
        if r is not None: task.fail(dem, 'returns normally', str(r)); continue
        discharge(task, pr, dem, 'post: fold over all blocks', s.pc, t.eq(s.mem['this'].get(0, alg.sbytes), want)); frame(task, dem, pre, s, ('this',))
    if not ex.loopcut.cuts: task.fail(dem, 'loop over the blocks', 'no loop over the symbolic length was met')
    finish(task, pr, dem, ex, pre, outs)

def result(task, pr, nm, ex, pre, s, r, want, n, cls=None):
    """r is a new array (or hash object) with the bytes want"""
    if not isinstance(r, Ptr): task.fail(nm, 'returns normally', str(r)); return
    if cls:
        o = s.mem[r.obj]
        if o.meta.get('cls') != cls or r.obj in pre.mem: task.fail(nm, 'returns a new hash object', str(o.meta)); return
        r = o.get(ex.ifield(cls, 'hash')[0], 8)
        if not isinstance(r, Ptr): task.fail(nm, 'hash object has contents', ''); return
    if r.obj in pre.mem: task.fail(nm, 'returns a new array', ''); return
    o = s.mem[r.obj]
    if o.meta['len'] is not c32(n): task.fail(nm, 'result length', t.show(o.meta['len'], 3)); return
    got = [o.get(i, 1) for i in range(n)]
    for i in range(n):
        if got[i] is want[i]: task.count('simplification')
        else: discharge(task, pr, nm, 'post: digest byte %d' % i, s.pc, t.eq(got[i], want[i]))
def be(alg, v): return [x for i in range(alg.nst) for x in reversed(bytes_of(t.extract(v, alg.w * i + alg.w - 1, alg.w * i)))] if alg is not RMD else bytes_of(v)
@guarded
def check_hash(S, task, alg, lo, hi):
    """message of q blocks and r bytes: padding, length field, final compressions, output; r from lo to hi-1"""
    from dv.jcurve import HCLS
    sess(S); sha = alg is S256
    dem = CONT if sha else '%s.getHash([B)' % alg.cls
    if missing(S, task, dem): return
    pr = S.prover(); HB = 'Sha256Hash.<init>([B)'; n8 = h.HLEN[alg.name] // 8
    for r0 in range(lo, hi):
        for prefix in ((0, 64) if sha else (0,)):
            ex = newex(S, dem); st = S.base.fork()
            q, qn, n = length(alg, r0); msg = barr(ex, st, 'msg', n)
            args = [msg] + ([state(ex, st, alg, ), c32(prefix)] if sha else [])
            pre = st.fork(); outs = run1(S, ex, st, dem, args)
            v = t.concat(*reversed([t.var('hs%d' % i, 32) for i in range(8)])) if sha else IV(alg)
            v = t.uf(alg.name + '.fold', 8 * alg.sbytes, v, seqterm([('a', 'msg', t.const(0, 64), z64(qn))])) if S.has(COMP[alg.name]) else None
            tail = [t.uf('byte:msg', 8, t.add(z64(qn), t.const(j, 64))) for j in range(r0)]
            for blk in pad_blocks(alg, tail, t.add(z64(n), t.const(prefix, 64)), 16 if alg is S512 else 8): v = CC(S, alg, v, join(blk))
            nm = '%s [length %d mod %d]%s' % (dem, r0, alg.B, ' [prefix %d]' % prefix if prefix else '')
            for s, r in outs:
                result(task, pr, nm, ex, pre, s, r, be(alg, v), n8, HCLS if sha else None); frame(task, nm, pre, s, ('this',))
            finish(task, pr, nm, ex, pre, outs)
        if len(task.failed) > 4: break
    if lo == 0: null(S, task, '%s.getHash([B)' % alg.cls, 1)
    task.functions = {dem: 1}
def null(S, task, dem, n, which=0):
    """a null argument gives NullPointerException"""
    if missing(S, task, dem): return
    nt = S.nothrow; S.nothrow = False
    try:
        ex = newex(S, dem, CONT); st = S.base.fork(); a = [barr(ex, st, 'a%d' % i, 3) for i in range(n)]; a[which] = NULL; pre = st.fork()
        outs = run1(S, ex, st, dem, a); nm = dem + ' [null]'
        for s, r in outs:
            if r == NPE: task.count('symbolic execution')
            else: task.fail(nm, 'outcome is NullPointerException', str(r))
            frame(task, nm, pre, s, ())
        finish(task, S.prover(), nm, ex, pre, outs)
    finally: S.nothrow = nt
@guarded
def check_static(S, task, dem):
    sess(S)
    if missing(S, task, dem): return
    pr = S.prover(); ex = newex(S, dem); st = S.base.fork(); n = t.zext(t.var('len', 31), 32)
    args = [barr(ex, st, 'msg', n)]; pre = st.fork(); fn = S.prog.fn(S.prog.bydem[dem])
    verify(task, ex, pr, dem, lambda e, s: e.call_fn(s, fn, args), S.specs[dem], pre, args)
    task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
    null(S, task, dem, 1)
@guarded
def check_hmac(S, task, alg, lo, hi):
    """RFC 2104 for key lengths lo..hi-1 (hi None: all longer keys) and messages of every length"""
    sess(S); dem = '%s.getHmac([B[B)' % alg.cls
    if missing(S, task, dem): return
    pr = S.prover(); fn = S.prog.fn(S.prog.bydem[dem])
    for kl in ([None] if hi is None else range(lo, hi)):
        ex = newex(S, dem); st = S.base.fork()
        if kl is None:
            n = t.zext(t.var('keyLen', 31), 32); st.assume(t.ult(c32(alg.B), n)); k = barr(ex, st, 'key', n)
        else: k = barr(ex, st, 'key', kl)
        ml = t.zext(t.var('len', 31), 32)
        if alg is S512: st.assume(t.ule(ml, c32((1 << 31) - 1 - 128)))      # the inner message must fit a Java array
        m = barr(ex, st, 'msg', ml)
        new = newhash if alg is S256 else lambda c, v: newbytes(c, v, 64)
        args = [k, m]; pre = st.fork()
        verify(task, ex, pr, '%s [key length %s]' % (dem, 'longer than a block' if kl is None else kl), lambda e, s: e.call_fn(s, fn, args), lambda c, k, m: new(c, hmac_def(c, alg, k, m)), pre, args)
        task.assumed |= set('contract of callee: ' + x for x in ex.used_contracts)
        if len(task.failed) > 4: break
    if lo == 0: null(S, task, dem, 2, 0); null(S, task, dem, 2, 1)
    task.functions = {dem: 1}

class JKeccakT(h.KeccakT):
    def T(self, case): return t.lin([(136, t.zext(t.var('Q', 24), 64))], case, 64)
    def lane(self, j): return j
@guarded
def check_keccak_hash(S, task, lo, hi):
    sess(S); dem = 'Keccak256.getHash([B)'
    if missing(S, task, dem): return
    pr = S.prover()
    class X:
        @staticmethod
        def C(alg, s): return Cuf(KEC, s, t.const(0, 8)) if S.has(COMP['keccak256']) else creal(KEC, s, None)
    ex = newex(S, dem); st = S.base.fork(); n = t.var('len', 31); msg = barr(ex, st, 'msg', t.zext(n, 32)); n64 = z64(n)
    tp = JKeccakT(X, n64); tp.only_loop = True; tp.found = None
    ex.loopcut = LoopCut(task, pr, dem, [tp]); pre = st.fork()
    outs = run1(S, ex, st, dem, [msg])
    if tp.found is None: task.fail(dem, 'loop over the message', 'no loop over the symbolic length was met'); return
    finish(task, pr, dem + ' [loop]', ex, pre, [(None, None)])
    known = tp.found; key = tp.key
    for r0 in range(lo, hi):
        ex = newex(S, dem); st = S.base.fork()
        q = t.var('q', 24); n = t.lin([(136, t.zext(q, 64))], r0, 64); n32 = t.trunc(n, 32); st.assume(t.ule(n, t.const((1 << 31) - 1, 64)))
        msg = barr(ex, st, 'msg', n32); pre = st.fork()
        tp = JKeccakT(X, n); tp.final_residue = r0; tp.known = known; tp.force = key
        ex.loopcut = LoopCut(task, pr, dem, [tp])
        outs = run1(S, ex, st, dem, [msg])
        v = t.uf('keccak.absorbed', 1600, seqterm([('a', 'msg', t.const(0, 64), n)]))
        A = [t.extract(v, 64 * i + 63, 64 * i) for i in range(25)]
        k = r0 // 8; A[k] = t.xor(A[k], t.const(1 << (8 * (r0 % 8)), 64)); A[16] = t.xor(A[16], t.const(0x80 << 56, 64))
        v = X.C(KEC, t.concat(*reversed(A)))
        nm = '%s [length %d mod 136]' % (dem, r0)
        for s, r in outs:
            result(task, pr, nm, ex, pre, s, r, bytes_of(t.extract(v, 255, 0)), 32); frame(task, nm, pre, s, ())
        if not ex.loopcut.cuts: task.fail(nm, 'loop over the message', 'no loop over the symbolic length was met')
        finish(task, pr, nm, ex, pre, outs)
        if len(task.failed) > 4: break
    if lo == 0: null(S, task, dem, 1)
    task.functions = {dem: 1}
