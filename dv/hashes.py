"""Hash functions: abstract hasher states, contracts, verification units (C++).

A hasher that has seen the byte sequence q is represented by uninterpreted
terms state(q), buffer(q), bufferLen(q), total(q); their meaning is the fold of
the compression function over the whole blocks of q, the remaining bytes, their
number and |q|.  The obligations that make this a valid abstraction are proved
on the real code:
  compress  = the specified compression function (dv/hashspec.py), exact terms
  append    = per byte: store it, and compress when the block is full (loop
              invariant over a symbolic length, for every buffer fill)
  getHash   = padding, length field and final compressions for every buffer
              fill and symbolic total length
so digest(q) below is the standard's digest of q."""
from dv import terms as t, hashspec as H
from dv.symex import *
from dv.spec import *
from dv.loops import Template, LoopCut
from dv.llvm import StructT, ArrT, IntT

class Alg:
    def __init__(self, name, cls, w, B, iv, compress):
        self.name = name; self.cls = cls; self.w = w; self.B = B; self.iv = iv; self.compress = compress; self.nst = len(iv)
        self.sbytes = self.nst * w // 8
S256 = Alg('sha256', 'Sha256', 32, 64, H.H256, H.sha256_compress)
S512 = Alg('sha512', 'Sha512', 64, 128, H.H512, H.sha512_compress)
RMD = Alg('ripemd160', 'Ripemd160', 32, 64, H.RIV, H.ripemd_compress)
KEC = Alg('keccak256', 'Keccak256', 64, 136, [0] * 25, None)
CF = {'sha256': 'Sha256::compress(unsigned int*, unsigned char const*)', 'sha512': 'Sha512::compress()',
      'ripemd160': 'Ripemd160::compress(unsigned int*, unsigned char const*, unsigned long)', 'keccak256': 'Keccak256::absorb(unsigned long (*) [5])'}
MAXLEN = 1 << 61

def bytes_of(x):
    """memory-order bytes of a term"""
    return [t.extract(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)]
def join(bs): return t.concat(*reversed(bs))
def Cuf(alg, S, blk):
    """compression as an uninterpreted function of memory-order terms"""
    return t.uf(alg.name + '.compress', alg.sbytes * 8, S, blk)
def Creal(alg, S, blk):
    w = alg.w; n = alg.nst
    if alg is KEC:
        A = {(x, y): t.extract(S, 64 * (5 * x + y) + 63, 64 * (5 * x + y)) for x in range(5) for y in range(5)}
        A = H.keccak_f(A)
        return t.concat(*reversed([A[i // 5, i % 5] for i in range(25)]))
    s = [t.extract(S, w * i + w - 1, w * i) for i in range(n)]
    return t.concat(*reversed(alg.compress(s, bytes_of(blk))))
class Ctx:
    """which functions of the program are replaced by contracts"""
    def __init__(self, S): self.S = S
    def C(self, alg, S, blk=None):
        if blk is None: blk = t.const(0, 8)
        return Cuf(alg, S, blk) if self.S.has(CF[alg.name]) else Creal(alg, S, blk)
    def fields(self, alg): return fields(self.S.prog, alg)

def fields(prog, alg):
    """offsets of (state, total length, buffer, fill) in the hasher object, found by shape"""
    for f in prog.fns.values():
        ty = None
        p = f.parser
        for n in ('%%class.%s' % alg.cls, '%%struct.%s' % alg.cls, '%%"class.%s"' % alg.cls):
            try:
                if n in p.types or n in p.lazy:
                    if n not in p.types: p.toks(p.lazy[n]); p.types[n] = p.type()
                    ty = p.types[n]; break
            except Exception: pass
        if ty is None or not isinstance(ty, StructT): continue
        r = {}
        for i, (x, o) in enumerate(zip(ty.fs, ty.offs)):
            if isinstance(x, ArrT) and isinstance(x.e, IntT):
                if x.e.n == alg.w and x.n == 8: r['state'] = o
                elif x.e.n == 8 and x.n == alg.B: r['buf'] = o
            elif isinstance(x, IntT):
                if x.n == 64 and 'total' not in r: r['total'] = o
                elif x.n == 32 or 'total' in r: r['fill'] = (o, x.n // 8)
        if len(r) == 4:
            r['size'] = ty.size
            return r
    raise Unsupported('hasher object of %s has an unknown layout' % alg.cls)

# ------------------------------------------------------------------ sequences
SEQ = {}
def norm(segs):
    out = []
    for s in segs:
        if s[0] == 'b':
            if not s[1]: continue
            if out and out[-1][0] == 'b': out[-1] = ('b', out[-1][1] + tuple(s[1])); continue
            out.append(('b', tuple(s[1])))
        elif s[0] == 'a':
            if t.isc(s[3]) and s[3].v == 0: continue
            if out and out[-1][0] == 'a' and out[-1][1] == s[1] and t.add(out[-1][2], out[-1][3]) is s[2]:
                out[-1] = ('a', s[1], out[-1][2], t.add(out[-1][3], s[3])); continue
            out.append(s)
        else: out.append(s)
    return tuple(out)
def seqlen(segs):
    n = t.const(0, 64)
    for s in segs:
        n = t.add(n, t.const(len(s[1]), 64) if s[0] == 'b' else s[3] if s[0] == 'a' else s[2])
    return n
def shape(segs):
    sh = []; args = []
    for s in segs:
        if s[0] == 'b': sh.append('%d' % len(s[1])); args.append(join(s[1]))
        elif s[0] == 'a': sh.append('[%s]' % s[1]); args += [s[2], s[3]]
        else: sh.append('*'); args.append(s[1])
    return '+'.join(sh), args
def seqterm(segs):
    segs = norm(segs)
    sh, args = shape(segs)
    r = t.uf('seq:' + sh, 64, *args) if args else t.var('seq:empty', 64)
    SEQ[r.id] = segs
    return r
def digest(alg, segs, bits):
    segs = norm(segs)
    sh, args = shape(segs)
    if not segs: return t.var('%s:0' % alg.name, bits)
    return t.uf('%s:%s' % (alg.name, sh), bits, *args)
HLEN = {'sha256': 256, 'sha512': 512, 'ripemd160': 160, 'keccak256': 256}
def dig(alg, segs): return digest(alg, segs, HLEN[alg.name])
def seg_from(c, p, n):
    """the byte sequence at p of length n"""
    if t.isc(n):
        if n.v == 0: return []
        if n.v > 4096: raise Unsupported('constant length %d' % n.v)
        if p.obj is not None and c.st.mem.get(p.obj) is not None and t.isc(p.off):
            return [('b', tuple(bytes_of(c.r(p, n.v))))] if 'read' not in c.st.mem[p.obj].meta else [('b', tuple(c.r(p, 1, i) for i in range(n.v)))]
        return [('b', tuple(c.r(p, 1, i) for i in range(n.v)))]
    if p.obj is None: raise Unsupported('null array with symbolic length')
    o = c.ex.bounds(c.st, p, n, 'read')
    tok = o.meta.get('tok')
    if tok is None: raise Unsupported('symbolic length of a plain array')
    return [('a', tok, p.off, n)]

def sym_array(ex, st, name, size):
    """array of symbolic length"""
    def read(ex_, st_, off, n):
        if n > 8: raise Unsupported('wide read of a symbolic array')
        return t.concat(*reversed([t.uf('byte:' + name, 8, t.add(off, t.const(i, 64))) for i in range(n)]))
    oid = ex.new_obj(st, name, size, oid=name, ro=True, meta={'read': read, 'tok': name})
    return P(oid)

# ------------------------------------------------------------------ hasher abstraction
def st_terms(alg, segs):
    q = seqterm(segs)
    return {'state': t.uf(alg.name + '.state', 8 * alg.sbytes, q), 'buf': t.uf(alg.name + '.buf', 8 * alg.B, q),
            'fill': t.uf(alg.name + '.fill', 32, q), 'total': t.uf(alg.name + '.total', 64, q)}
def put_seq(c, alg, F, p, segs):
    d = st_terms(alg, segs)
    c.w(p, d['state'], F['state']); c.w(p, d['buf'], F['buf']); c.w(p, d['total'], F['total'])
    c.w(p, t.zext(d['fill'], 8 * F['fill'][1]) if F['fill'][1] > 4 else d['fill'], F['fill'][0])
def get_seq(c, alg, F, p):
    s = c.r(p, alg.sbytes, F['state']); tot = c.r(p, 8, F['total']); fill = c.r(p, F['fill'][1], F['fill'][0])
    if t.isc(s) and t.isc(tot) and t.isc(fill) and tot.v == 0 and fill.v == 0:
        iv = sum(v << (alg.w * i) for i, v in enumerate(alg.iv))
        if s.v == iv: return ()
        raise Unsupported('hasher with unknown initial state')
    if s.op == 'uf' and s.v == alg.name + '.state' and s.a[0].id in SEQ:
        segs = SEQ[s.a[0].id]; d = st_terms(alg, segs)
        if tot is d['total'] and fill is (t.zext(d['fill'], fill.w) if fill.w > 32 else d['fill']) and c.r(p, alg.B, F['buf']) is d['buf']: return segs
    return None

def specs(S):
    """contracts for callers of the hash functions"""
    X = Ctx(S); r = {}
    for alg in (S256, S512):
        try: F = X.fields(alg)
        except Unsupported: F = None
        cl = alg.cls + '::'
        if F is not None:
            def append(c, this, b, n, alg=alg, F=F):
                segs = get_seq(c, alg, F, this)
                if segs is None: raise Unsupported('append to a hasher in an unknown state')
                if t.isc(n) and n.v == 0: put_seq(c, alg, F, this, segs); return this
                put_seq(c, alg, F, this, list(segs) + seg_from(c, b, n)); return this
            r[cl + 'append(unsigned char const*, unsigned long)'] = append
            def final(c, alg, F, this):
                segs = get_seq(c, alg, F, this)
                if segs is None: raise Unsupported('getHash of a hasher in an unknown state')
                for k, n in (('state', alg.sbytes), ('buf', alg.B), ('total', 8)): c.w(this, t.fresh('dead', 8 * n), F[k])
                c.w(this, t.fresh('dead', 8 * F['fill'][1]), F['fill'][0])
                return dig(alg, segs)
            if alg is S256: r[cl + 'getHash()'] = lambda c, ret, this, F=F: c.w(ret, final(c, S256, F, this))
            else: r[cl + 'getHash(unsigned char*)'] = lambda c, this, ret, F=F: c.w(ret, final(c, S512, F, this))
    r[CF['sha256']] = lambda c, s, b: c.w(s, Cuf(S256, c.r(s, 32), c.r(b, 64)))
    try:
        F5 = X.fields(S512)
        r[CF['sha512']] = lambda c, this: c.w(this, Cuf(S512, c.r(this, 64, F5['state']), c.r(this, 128, F5['buf'])), F5['state'])
    except Unsupported: pass
    def absorb(c, s): c.w(s, Cuf(KEC, c.r(s, 200), t.const(0, 8)))
    r[CF['keccak256']] = absorb
    def rcomp(c, s, b, n):
        if t.isc(n):
            c.require(t.boolc(n.v % 64 == 0), 'whole blocks')
            v = c.r(s, 20)
            for i in range(0, n.v, 64): v = Cuf(RMD, v, c.r(b, 64, i) if 'read' not in c.st.mem[b.obj].meta else join([c.r(b, 1, i + j) for j in range(64)]))
            if n.v: c.w(s, v)
            return
        c.require(t.eq(t.extract(n, 5, 0), t.const(0, 6)), 'whole blocks')
        c.w(s, t.uf('ripemd160.fold', 160, c.r(s, 20), seqterm(seg_from(c, b, n))))
    r[CF['ripemd160']] = rcomp
    M = 'unsigned char const*, unsigned long'
    r['Sha256::getHash(%s)' % M] = lambda c, ret, m, n: c.w(ret, dig(S256, seg_from(c, m, n)))
    r['Sha256::getDoubleHash(%s)' % M] = lambda c, ret, m, n: c.w(ret, dig(S256, [('b', tuple(bytes_of(dig(S256, seg_from(c, m, n)))))]))
    for alg in (S512, RMD, KEC):
        r['%s::getHash(%s, unsigned char*)' % (alg.cls, M)] = lambda c, m, n, ret, alg=alg: c.w(ret, dig(alg, seg_from(c, m, n)))
    r['Sha256::getHmac(%s, %s)' % (M, M)] = lambda c, ret, k, kl, m, ml: c.w(ret, hmac(c, S256, k, kl, m, ml))
    r['Sha512::getHmac(%s, %s, unsigned char*)' % (M, M)] = lambda c, k, kl, m, ml, ret: c.w(ret, hmac(c, S512, k, kl, m, ml))
    return {k: v for k, v in r.items() if S.has(k)}
def hmac_def(c, alg, k, kl, m, ml):
    """RFC 2104"""
    B = alg.B
    ks = seg_from(c, k, kl)
    if t.isc(kl): short = kl.v <= B
    else:
        short = decide_facts(t.ule(kl, t.const(B, 64)), c.st.facts)
        if short is None: raise Unsupported('key length not split into cases')
    if short:
        kb = list(ks[0][1]) if ks else []
        if len(kb) != (kl.v if t.isc(kl) else -1): raise Unsupported('key bytes')
    else: kb = bytes_of(dig(alg, ks))
    kb += [t.const(0, 8)] * (B - len(kb))
    x = lambda v: ('b', tuple(t.xor(b, t.const(v, 8)) for b in kb))
    inner = dig(alg, [x(0x36)] + seg_from(c, m, ml))
    return dig(alg, [x(0x5C), ('b', tuple(bytes_of(inner)))])
def hmac(c, alg, k, kl, m, ml):
    if t.isc(kl) and t.isc(ml):
        a = [c.r(p, n.v) for p, n in ((k, kl), (m, ml)) if n.v]
        return t.uf('hmac%s:%d:%d' % (alg.name[3:], kl.v, ml.v), HLEN[alg.name], *a)
    return hmac_def(c, alg, k, kl, m, ml)

# ------------------------------------------------------------------ verification units
def guarded(f):
    def g(S, task, *a):
        t.LAZY[0] = True
        import time
        t0 = time.time()
        try: f(S, task, *a)
        except Unsupported as e: task.unsupported.append('%s: %s' % (task.name, e))
        except Deadline: task.unsupported.append('%s: time limit' % task.name)
        task.time += time.time() - t0
    return g
def missing(S, task, dem):
    if S.has(dem): return False
    task.unsupported.append('function %s not found' % dem); return True
def run1(S, ex, st, dem, args):
    fn = S.prog.fn(S.prog.bydem[dem])
    return ex.call_fn(st, fn, args)
def finish(task, prover, name, ex, pre, outs):
    discharge_obs(task, prover, name, ex, batch=False)
    task.count('simplification', ex.n_trivial)
    task.functions[name] = 1
    task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
    if not outs: task.fail(name, 'function returns', 'no execution reaches the end')

def frame(task, name, pre, s, allowed, label='frame'):
    """every pre-existing object outside `allowed` is unchanged"""
    ok = True
    for k, o in pre.mem.items():
        if k in allowed: continue
        b = s.mem.get(k)
        if b is o: continue
        if b is None or b.starts != o.starts or any(b.cells[x][0] is not o.cells[x][0] and not same_ptr(b.cells[x][0], o.cells[x][0]) for x in o.starts): ok = False
    if ok: task.count('simplification')
    else: task.fail(name, label, 'an object outside the declared results is modified')

def words_obj(ex, st, name, n, wd):
    o = ex.new_obj(st, name, n, oid=name)
    for i in range(0, n, wd): st.mem[o].put(i, wd, t.var('%s%d' % (name, i), 8 * wd))
    return P(o)
def cmp_terms(task, name, what, A, B):
    from dv import sweep
    if all(a is b for a, b in zip(A, B)): task.count('simplification', len(A)); return
    ok, calls, idx = sweep.equal(A, B)
    if ok: task.count('sweeping (z3 bit-vectors)', len(A))
    else: task.fail(name, what, 'refuted by evaluation on sample values' if idx is not None and calls == 0 else 'terms could not be proved equal')

@guarded
def check_compress(S, task, alg):
    dem = CF[alg.name]
    if missing(S, task, dem): return
    ex = S.exec(exclude=(dem,)); pr = S.prover(); st = S.base.fork()
    if alg is S512:
        F = fields(S.prog, alg); this = words_obj(ex, st, 'this', F['size'], 8 if F['size'] % 8 == 0 else 4)
        S0 = st.mem['this'].get(F['state'], 64); blk = st.mem['this'].get(F['buf'], 128); args = [this]; so = F['state']
    else:
        this = words_obj(ex, st, 'this', alg.sbytes, alg.w // 8); S0 = st.mem['this'].get(0, alg.sbytes); args = [this]; so = 0; blk = None
        if alg is not KEC:
            b = words_obj(ex, st, 'block', alg.B, 1); st.mem['block'].ro = True
            blk = st.mem['block'].get(0, alg.B); args.append(b)
        if alg is RMD: args.append(t.const(64, 64))
    pre = st.fork()
    outs = run1(S, ex, st, dem, args)
    spec = Creal(alg, S0, blk)
    for s, r in outs:
        n = alg.sbytes; wd = alg.w
        A = [s.mem['this'].get(so + i, wd // 8) for i in range(0, n, wd // 8)]
        B = [t.extract(spec, 8 * i + wd - 1, 8 * i) for i in range(0, n, wd // 8)]
        cmp_terms(task, dem, 'result equals the specified compression', A, B)
        o0 = pre.mem['this']; o1 = s.mem['this']
        okf = all(o1.get(x, o0.cells[x][1]) is o0.cells[x][0] for x in o0.starts if not (so <= x < so + n))
        if okf: task.count('simplification')
        else: task.fail(dem, 'frame', 'other fields of the hasher modified')
        frame(task, dem, pre, s, ('this',))
    finish(task, pr, dem, ex, pre, outs)

class AppendT(Template):
    def __init__(self, X, alg, F, n, seq0, tok, this='this'):
        self.X = X; self.alg = alg; self.F = F; self.n = n; self.seq0 = seq0; self.tok = tok; self.this = this
    def cases(self): return range(self.alg.B)
    def inv(self, T): return t.ule(T, self.n)
    def expected(self): return self.n
    def roles(self):
        F = self.F; al = self.alg
        return [(self.this, F['state'], al.sbytes), (self.this, F['buf'], al.B), (self.this, F['fill'][0], F['fill'][1])]
    def role_cells(self, ex, st): return self.roles()
    def match(self, ex, f, st, changed): return any(c[0] == self.this for c in changed)
    def init(self, ex, st):
        d = st_terms(self.alg, self.seq0); o = st.mem[self.this]
        return [('hasher fields not touched before the loop', t.boolc(all(o.get(a, n) is t.zext(d[k], 8 * n) for (x, a, n), k in zip(self.roles(), ('state', 'buf', 'fill')))))]
    def write(self, ex, st, case, T):
        al = self.alg; F = self.F; o = st.wobj(self.this); wd = al.w // 8
        for i in range(al.nst): o.put(F['state'] + wd * i, wd, t.var('hs%d' % i, al.w))
        for i in range(al.B): o.put(F['buf'] + i, 1, t.var('hb%d' % i, 8))
        o.put(F['fill'][0], F['fill'][1], t.const(case, 8 * F['fill'][1]))
    def back(self, ex, st, case, T):
        al = self.alg; F = self.F; o = st.mem[self.this]; wd = al.w // 8
        S = t.concat(*reversed([t.var('hs%d' % i, al.w) for i in range(al.nst)]))
        x = t.uf('byte:' + self.tok, 8, T)
        r = []
        if case < al.B - 1: nf = case + 1; want = S
        else:
            nf = 0; want = self.X.C(al, S, join([t.var('hb%d' % i, 8) for i in range(al.B - 1)] + [x]))
        r.append(('buffer fill', t.eq(o.get(F['fill'][0], F['fill'][1]), t.const(nf, 8 * F['fill'][1]))))
        r.append(('chaining state', t.eq(o.get(F['state'], al.sbytes), want)))
        for i in range(nf):
            r.append(('buffer byte %d' % i, t.eq(o.get(F['buf'] + i, 1), x if i == case else t.var('hb%d' % i, 8))))
        return r
    def final(self, ex, st):
        d = st_terms(self.alg, list(self.seq0) + [('a', self.tok, t.const(0, 64), self.n)])
        o = st.wobj(self.this)
        for (x, a, n), k in zip(self.roles(), ('state', 'buf', 'fill')): o.put(a, n, t.zext(d[k], 8 * n))

def seq_hasher(ex, st, alg, F):
    """a hasher object that has seen an arbitrary sequence"""
    ex.new_obj(st, 'this', F['size'], oid='this'); p = P('this')
    segs = (('s', t.var('q0', 64), t.var('|q0|', 64)),)
    c = C(ex, st, 'assume'); put_seq(c, alg, F, p, segs)
    return p, segs

@guarded
def check_append(S, task, alg):
    dem = alg.cls + '::append(unsigned char const*, unsigned long)'
    if missing(S, task, dem): return
    X = Ctx(S); F = X.fields(alg)
    # symbolic length
    ex = S.exec(exclude=(dem,)); pr = S.prover(); st = S.base.fork()
    this, segs = seq_hasher(ex, st, alg, F)
    n = t.var('len', 64); st.assume(t.ult(n, t.const(MAXLEN, 64)))
    msg = sym_array(ex, st, 'msg', n)
    pre = st.fork()
    tp = AppendT(X, alg, F, n, segs, 'msg')
    ex.loopcut = LoopCut(task, pr, dem, [tp])
    outs = run1(S, ex, st, dem, [this, msg, n])
    want = st_terms(alg, list(segs) + [('a', 'msg', t.const(0, 64), n)])
    tot0 = st_terms(alg, segs)['total']
    for s, r in outs:
        o = s.mem['this']
        for (x, a, k), kk in zip(tp.roles(), ('state', 'buf', 'fill')):
            discharge(task, pr, dem, 'post: %s of the extended sequence' % kk, s.pc, t.eq(o.get(a, k), t.zext(want[kk], 8 * k)))
        discharge(task, pr, dem, 'post: total length', s.pc, t.eq(o.get(F['total'], 8), t.add(tot0, n)))
        discharge(task, pr, dem, 'post: returns the object itself', s.pc, t.boolc(same_ptr(r, this)))
        frame(task, dem, pre, s, ('this',))
    if not ex.loopcut.cuts: task.fail(dem, 'loop over the message', 'no loop over the symbolic length was met')
    finish(task, pr, dem, ex, pre, outs)
    # null array with length zero
    ex = S.exec(exclude=(dem,)); st = S.base.fork(); this, segs = seq_hasher(ex, st, alg, F); pre = st.fork()
    outs = run1(S, ex, st, dem, [this, NULL, t.const(0, 64)])
    for s, r in outs:
        frame(task, dem + ' [empty]', pre, s, ('this',))
        for (x, a, k), kk in zip(tp.roles(), ('state', 'buf', 'fill')):
            discharge(task, pr, dem + ' [empty]', 'post: %s unchanged' % kk, s.pc, t.eq(s.mem['this'].get(a, k), pre.mem['this'].get(a, k)))
    finish(task, pr, dem + ' [empty]', ex, pre, outs)

def pad_blocks(alg, bs, total, lenbytes):
    """blocks of the padded tail: bs = buffered bytes, total = message length in bytes (64-bit)"""
    B = alg.B; z = t.const(0, 8)
    x = list(bs) + [t.const(0x80, 8)]
    while len(x) % B != B - lenbytes: x.append(z)
    bits = t.shl(total, t.const(3, 64))
    if alg is RMD: x += bytes_of(bits)
    else:
        # SHA-512's length field has 128 bits; messages are shorter than 2^61 bytes here
        x += [z] * (lenbytes - 8) + list(reversed(bytes_of(bits)))
    return [x[i:i + B] for i in range(0, len(x), B)]

@guarded
def check_final(S, task, alg, lo, hi):
    """member getHash for buffer fills lo..hi-1"""
    dem = 'Sha256::getHash()' if alg is S256 else 'Sha512::getHash(unsigned char*)'
    app = alg.cls + '::append(unsigned char const*, unsigned long)'
    if missing(S, task, dem): return
    X = Ctx(S); F = X.fields(alg); pr = S.prover(); wd = alg.w // 8
    for L in range(lo, hi):
        ex = S.exec(exclude=(dem, app)); st = S.base.fork()
        ex.new_obj(st, 'this', F['size'], oid='this'); o = st.mem['this']
        s0 = [t.var('hs%d' % i, alg.w) for i in range(alg.nst)]; bs = [t.var('hb%d' % i, 8) for i in range(alg.B)]
        for i in range(alg.nst): o.put(F['state'] + wd * i, wd, s0[i])
        for i in range(alg.B): o.put(F['buf'] + i, 1, bs[i])
        o.put(F['fill'][0], F['fill'][1], t.const(L, 8 * F['fill'][1]))
        lb = alg.B.bit_length() - 1
        total = t.concat(t.var('q', 64 - lb), t.const(L, lb))
        st.assume(t.ult(total, t.const(MAXLEN, 64)))
        o.put(F['total'], 8, total)
        n = HLEN[alg.name] // 8
        ex.new_obj(st, 'ret', n, oid='ret')
        pre = st.fork()
        outs = run1(S, ex, st, dem, [P('ret'), P('this')] if alg is S256 else [P('this'), P('ret')])
        v = t.concat(*reversed(s0))
        for blk in pad_blocks(alg, bs[:L], total, 8 if alg is S256 else 16): v = X.C(alg, v, join(blk))
        want = [x for i in range(alg.nst) for x in reversed(bytes_of(t.extract(v, alg.w * i + alg.w - 1, alg.w * i)))]
        nm = '%s [buffer fill %d]' % (dem, L)
        for s, r in outs:
            got = [s.mem['ret'].get(i, 1) for i in range(n)]
            if any(a is not b for a, b in zip(got, want)): 
                for i in range(n): discharge(task, pr, nm, 'post: digest byte %d' % i, s.pc, t.eq(got[i], want[i])) if i % 8 == 0 or got[i] is not want[i] else task.count('simplification')
            else: task.count('simplification', n)
            frame(task, nm, pre, s, ('this', 'ret'))
        finish(task, pr, nm, ex, pre, outs)
        if len(task.failed) > 4: break
    task.functions = {dem: 1}

@guarded
def check_ctor(S, task, alg):
    dem = '%s::%s()' % (alg.cls, alg.cls)
    if missing(S, task, dem): return
    F = fields(S.prog, alg); ex = S.exec(exclude=(dem,)); pr = S.prover(); st = S.base.fork()
    ex.new_obj(st, 'this', F['size'], oid='this'); pre = st.fork()
    outs = run1(S, ex, st, dem, [P('this')])
    for s, r in outs:
        o = s.mem['this']; iv = sum(v << (alg.w * i) for i, v in enumerate(alg.iv))
        discharge(task, pr, dem, 'post: initial value', s.pc, t.eq(o.get(F['state'], alg.sbytes), t.const(iv, 8 * alg.sbytes)))
        discharge(task, pr, dem, 'post: length 0', s.pc, t.eq(o.get(F['total'], 8), t.const(0, 64)))
        discharge(task, pr, dem, 'post: empty buffer', s.pc, t.eq(o.get(*F['fill']), t.const(0, 8 * F['fill'][1])))
        frame(task, dem, pre, s, ('this',))
    finish(task, pr, dem, ex, pre, outs)

M_ = 'unsigned char const*, unsigned long'
@guarded
def check_static(S, task, dem, nargs, body):
    """functions over messages of symbolic length, given by their contract text"""
    if missing(S, task, dem): return
    spec = S.specs[dem]; pr = S.prover()
    ex = S.exec(exclude=(dem,)); st = S.base.fork()
    args = body(ex, st); pre = st.fork()
    fn = S.prog.fn(S.prog.bydem[dem])
    verify(task, ex, pr, task.name, lambda e, s: e.call_fn(s, fn, args), spec, pre, args)
    task.functions = {dem: 1}
    task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
def msg_args(ex, st, name='msg', nm='len'):
    n = t.var(nm, 64); st.assume(t.ult(n, t.const(MAXLEN, 64)))
    return [sym_array(ex, st, name, n), n]
def retobj(ex, st, n): ex.new_obj(st, 'ret', n, oid='ret'); return P('ret')

@guarded
def check_hmac(S, task, alg, lo, hi):
    """key lengths lo..hi-1 (hi None: every longer key), messages of symbolic length; RFC 2104 as the specification"""
    dem = '%s::getHmac(%s, %s%s)' % (alg.cls, M_, M_, '' if alg is S256 else ', unsigned char*')
    if missing(S, task, dem): return
    pr = S.prover(); fn = S.prog.fn(S.prog.bydem[dem])
    for kl in ([None] if hi is None else range(lo, hi)):
        ex = S.exec(exclude=(dem,)); st = S.base.fork()
        ret = retobj(ex, st, HLEN[alg.name] // 8)
        if kl is None:
            k, n = msg_args(ex, st, 'key', 'keyLen'); st.assume(t.ult(t.const(alg.B, 64), n))
        else:
            n = t.const(kl, 64); k = words_obj(ex, st, 'key', kl, 1) if kl else NULL
            if kl: st.mem['key'].ro = True
        m, ml = msg_args(ex, st)
        args = [ret, k, n, m, ml] if alg is S256 else [k, n, m, ml, ret]
        sp = (lambda c, r, *a: c.w(r, hmac_def(c, alg, *a))) if alg is S256 else (lambda c, *a: c.w(a[-1], hmac_def(c, alg, *a[:-1])))
        pre = st.fork()
        verify(task, ex, pr, '%s [key length %s]' % (dem, 'longer than a block' if kl is None else kl), lambda e, s: e.call_fn(s, fn, args), sp, pre, args)
        task.assumed |= set('contract of callee: ' + x for x in ex.used_contracts)
        if len(task.failed) > 4: break
    task.functions = {dem: 1}

class RipemdT(Template):
    def __init__(self, X, q): self.X = X; self.q = q
    def inv(self, T): return t.ule(T, self.q)
    def expected(self): return self.q
    def role_cells(self, ex, st): return [('this', 0, 20)]
    def match(self, ex, f, st, changed): return any(c[0] == 'this' for c in changed)
    def init(self, ex, st): return [('state untouched before the loop', t.boolc(st.mem['this'].get(0, 20) is t.var('s0', 160)))]
    def write(self, ex, st, case, T):
        o = st.wobj('this')
        for i in range(5): o.put(4 * i, 4, t.var('hs%d' % i, 32))
    def back(self, ex, st, case, T):
        S = t.concat(*reversed([t.var('hs%d' % i, 32) for i in range(5)]))
        blk = join([t.uf('byte:msg', 8, t.lin([(64, T)], j, 64)) for j in range(64)])
        want = Creal(RMD, S, blk); o = st.mem['this']; r = []
        from dv import sweep
        A = [o.get(4 * i, 4) for i in range(5)]; B = [t.extract(want, 32 * i + 31, 32 * i) for i in range(5)]
        if all(a is b for a, b in zip(A, B)) or sweep.equal(A, B)[0]: return [('one block compressed', t.true())]
        return [('one block compressed', t.false())]
    def final(self, ex, st): st.wobj('this').put(0, 20, t.uf('ripemd160.fold', 160, t.var('s0', 160), seqterm([('a', 'msg', t.const(0, 64), t.lin([(64, self.q)], 0, 64))])))

@guarded
def check_ripemd_compress(S, task):
    dem = CF['ripemd160']
    if missing(S, task, dem): return
    ex = S.exec(exclude=(dem,)); pr = S.prover(); st = S.base.fork()
    ex.new_obj(st, 'this', 20, oid='this'); st.mem['this'].put(0, 20, t.var('s0', 160))
    q = t.zext(t.var('q', 55), 64); n = t.lin([(64, q)], 0, 64)
    msg = sym_array(ex, st, 'msg', n); pre = st.fork()
    ex.loopcut = LoopCut(task, pr, dem, [RipemdT(Ctx(S), q)])
    outs = run1(S, ex, st, dem, [P('this'), msg, n])
    want = t.uf('ripemd160.fold', 160, t.var('s0', 160), seqterm([('a', 'msg', t.const(0, 64), n)]))
    for s, r in outs:
        discharge(task, pr, dem, 'post: fold over all blocks', s.pc, t.eq(s.mem['this'].get(0, 20), want))
        frame(task, dem, pre, s, ('this',))
    if not ex.loopcut.cuts: task.fail(dem, 'loop over the blocks', 'no loop over the symbolic length was met')
    finish(task, pr, dem, ex, pre, outs)

@guarded
def check_ripemd_hash(S, task, lo, hi):
    dem = 'Ripemd160::getHash(%s, unsigned char*)' % M_
    if missing(S, task, dem): return
    X = Ctx(S); pr = S.prover()
    for r0 in range(lo, hi):
        ex = S.exec(exclude=(dem,)); st = S.base.fork(); ret = retobj(ex, st, 20)
        q = t.zext(t.var('q', 55), 64); qn = t.lin([(64, q)], 0, 64); n = t.add(qn, t.const(r0, 64))
        msg = sym_array(ex, st, 'msg', n); pre = st.fork()
        outs = run1(S, ex, st, dem, [msg, n, ret])
        iv = t.const(sum(v << (32 * i) for i, v in enumerate(H.RIV)), 160)
        v = t.uf('ripemd160.fold', 160, iv, seqterm([('a', 'msg', t.const(0, 64), qn)]))
        tail = [t.uf('byte:msg', 8, t.add(qn, t.const(j, 64))) for j in range(r0)]
        for blk in pad_blocks(RMD, tail, n, 8): v = X.C(RMD, v, join(blk))
        nm = '%s [length %d mod 64]' % (dem, r0)
        for s, r in outs:
            for i in range(5):
                discharge(task, pr, nm, 'post: digest word %d' % i, s.pc, t.eq(s.mem['ret'].get(4 * i, 4), t.extract(v, 32 * i + 31, 32 * i)))
            frame(task, nm, pre, s, ('ret',))
        finish(task, pr, nm, ex, pre, outs)
        if len(task.failed) > 4: break
    # empty message given as a null pointer
    if lo == 0:
        ex = S.exec(exclude=(dem,)); st = S.base.fork(); ret = retobj(ex, st, 20); pre = st.fork()
        outs = run1(S, ex, st, dem, [NULL, t.const(0, 64), ret])
        v = iv = t.const(sum(v << (32 * i) for i, v in enumerate(H.RIV)), 160)
        for blk in pad_blocks(RMD, [], t.const(0, 64), 8): v = X.C(RMD, v, join(blk))
        for s, r in outs:
            discharge(task, pr, dem + ' [null, 0]', 'post: digest', s.pc, t.eq(s.mem['ret'].get(0, 20), v)); frame(task, dem, pre, s, ('ret',))
        finish(task, pr, dem + ' [null, 0]', ex, pre, outs)
    task.functions = {dem: 1}

class KeccakT(Template):
    modulus = 136
    def __init__(self, X, n): self.X = X; self.n = n; self.obj = None
    def cases(self): return range(136)
    def T(self, case): return t.lin([(136, t.var('Q', 64))], case, 64)
    def inv(self, T): return t.ule(T, self.n)
    def expected(self): return self.n
    def match(self, ex, f, st, changed):
        for c in changed:
            if c[0] != 'env' and st.mem[c[0]].size == 200: self.obj = c[0]; return True
        return False
    def role_cells(self, ex, st): return [(self.obj, 0, 200)]
    def init(self, ex, st): return [('state is zero before the loop', t.eq(st.mem[self.obj].get(0, 200), t.const(0, 1600)))]
    def write(self, ex, st, case, T):
        o = st.wobj(self.obj)
        for i in range(25): o.put(8 * i, 8, t.var('ks%d' % i, 64))
    def lane(self, j): return 5 * (j % 5) + j // 5     # lane (x, y) with j = x + 5 y is stored at a[x][y]
    def back(self, ex, st, case, T):
        A = [t.var('ks%d' % i, 64) for i in range(25)]
        x = t.uf('byte:msg', 8, T); k = self.lane(case // 8)
        A[k] = t.xor(A[k], t.shl(t.zext(x, 64), t.const(8 * (case % 8), 64)))
        v = t.concat(*reversed(A))
        if case == 135: v = self.X.C(KEC, v)
        return [('state lane %d' % i, t.eq(st.mem[self.obj].get(8 * i, 8), t.extract(v, 64 * i + 63, 64 * i))) for i in range(25)]
    def final(self, ex, st): st.wobj(self.obj).put(0, 200, t.uf('keccak.absorbed', 1600, seqterm([('a', 'msg', t.const(0, 64), self.n)])))

@guarded
def check_keccak_hash(S, task, lo, hi):
    """absorbing loop, and finalization for lengths lo..hi-1 modulo 136"""
    dem = 'Keccak256::getHash(%s, unsigned char*)' % M_
    if missing(S, task, dem): return
    X = Ctx(S); pr = S.prover()
    # the loop, once, for every T and n
    ex = S.exec(exclude=(dem,)); st = S.base.fork(); ret = retobj(ex, st, 32); msg, n = msg_args(ex, st)
    tp = KeccakT(X, n); tp.only_loop = True; tp.found = None
    ex.loopcut = LoopCut(task, pr, dem, [tp]); pre = st.fork()
    outs = run1(S, ex, st, dem, [msg, n, ret])
    if tp.found is None: task.fail(dem, 'loop over the message', 'no loop over the symbolic length was met'); return
    finish(task, pr, dem + ' [loop]', ex, pre, [(None, None)])
    known = tp.found; key = tp.key
    for r0 in range(lo, hi):
        ex = S.exec(exclude=(dem,)); st = S.base.fork(); ret = retobj(ex, st, 32)
        q = t.zext(t.var('q', 53), 64); n = t.lin([(136, q)], r0, 64)
        msg = sym_array(ex, st, 'msg', n); pre = st.fork()
        tp = KeccakT(X, n); tp.final_residue = r0      # n = 136 q + r0 with q < 2^53
        tp.known = known; tp.force = key
        ex.loopcut = LoopCut(task, pr, dem, [tp])
        outs = run1(S, ex, st, dem, [msg, n, ret])
        v = t.uf('keccak.absorbed', 1600, seqterm([('a', 'msg', t.const(0, 64), n)]))
        A = [t.extract(v, 64 * i + 63, 64 * i) for i in range(25)]
        k = tp.lane(r0 // 8); A[k] = t.xor(A[k], t.const(1 << (8 * (r0 % 8)), 64))
        k = tp.lane(16); A[k] = t.xor(A[k], t.const(0x80 << 56, 64))
        v = X.C(KEC, t.concat(*reversed(A)))
        nm = '%s [length %d mod 136]' % (dem, r0)
        for s, r in outs:
            for i in range(4):
                k = tp.lane(i)
                discharge(task, pr, nm, 'post: digest lane %d' % i, s.pc, t.eq(s.mem['ret'].get(8 * i, 8), t.extract(v, 64 * k + 63, 64 * k)))
            frame(task, nm, pre, s, ('ret',))
        if not ex.loopcut.cuts: task.fail(nm, 'loop over the message', 'no loop over the symbolic length was met')
        finish(task, pr, nm, ex, pre, outs)
        if len(task.failed) > 4: break
    task.functions = {dem: 1}
