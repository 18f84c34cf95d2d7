"""Base58Check (C++): contracts and verification units.

Numbers of L bytes are read big-endian.  The byte-array helpers are proved
against whole-number contracts for the four lengths the library uses; encoder
and decoder are then executed over these contracts for every digit count and
every number of leading zeros (encoder) / every string length (decoder)."""
from dv import terms as t, hashes as H
from dv.symex import *
from dv.spec import *
from dv.hashes import guarded, missing, run1, finish, frame, dig, S256

B = 'Base58Check::'
ISZERO = B + 'isZero(unsigned char const*, unsigned long)'
MOD = B + 'mod58(unsigned char const*, unsigned long)'
DIV = B + 'divide58(unsigned char const*, unsigned char*, unsigned long)'
MUL = B + 'multiply58(unsigned char*, unsigned long)'
ADD = B + 'addUint8(unsigned char*, unsigned char, unsigned long)'
ENC = B + 'bytesToBase58Check(unsigned char*, unsigned char*, unsigned long, char*)'
DEC = B + 'base58CheckToBytes(char const*, unsigned char*, unsigned long)'
LENS = (25, 37, 38, 82)
ALPHA = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
assert len(ALPHA) == 58

def ln(n):
    if not t.isc(n) or not 0 < n.v <= 200: raise Unsupported('array length is not a constant')
    return n.v
def rd(c, p, L): return t.concat(*[c.r(p, 1, i) for i in range(L)])          # big-endian value
def wr(c, p, v):
    L = v.w // 8
    for i in range(L): c.w(p, t.extract(v, 8 * (L - i) - 1, 8 * (L - 1 - i)), i)
b1 = lambda c: c
# --------------------------------------------------------- contracts, plain form (what the bodies are proved against)
def p_iszero(c, p, n):
    v = rd(c, p, ln(n)); return t.eq(v, t.const(0, v.w))
def p_mod(c, p, n):
    v = rd(c, p, ln(n)); return t.trunc(t.urem(v, t.const(58, v.w)), 8)
def p_div(c, p, q, n):
    v = rd(c, p, ln(n)); c.require(t.boolc(p.obj != q.obj), 'separate arrays'); wr(c, q, t.udiv(v, t.const(58, v.w)))
def p_mul(c, p, n):
    v = rd(c, p, ln(n)); W = v.w + 8
    r = t.mul(t.zext(v, W), t.const(58, W)); wr(c, p, t.trunc(r, v.w)); return t.ne(t.extract(r, W - 1, v.w), t.const(0, 8))
def p_add(c, p, y, n):
    v = rd(c, p, ln(n)); W = v.w + 8
    r = t.add(t.zext(v, W), t.zext(y, W)); wr(c, p, t.trunc(r, v.w)); return t.ne(t.extract(r, W - 1, v.w), t.const(0, 8))
PLAIN = {ISZERO: p_iszero, MOD: p_mod, DIV: p_div, MUL: p_mul, ADD: p_add}
# --------------------------------------------------------- the same contracts for callers
# b58div(V, c) means floor(V / c), b58mod(V, c) means floor(V / c) mod 58
def base(v):
    if v.op == 'uf' and v.v == 'b58div': return v.a[0], v.a[1].v
    return v, 1
CW = 1024
def c_iszero(c, p, n):
    v = rd(c, p, ln(n)); b, k = base(v)
    return iszero(b, k)
def iszero(b, k): return t.ult(b, t.const(k, b.w)) if k >> b.w == 0 else t.true()
def c_mod(c, p, n):
    v = rd(c, p, ln(n)); r = digit(*base(v)); c.st.assume(t.ult(r, t.const(58, 8))); return r
def digit(b, k): return t.uf('b58mod', 8, b, t.const(k, CW))
def c_div(c, p, q, n):
    v = rd(c, p, ln(n)); b, k = base(v); c.require(t.boolc(p.obj != q.obj), 'separate arrays')
    wr(c, q, t.uf('b58div', v.w, b, t.const(k * 58, CW)))
# mul58/add: low bytes and overflow flag of 58 V and V + y
def c_mul(c, p, n):
    v = rd(c, p, ln(n)); wr(c, p, t.uf('b58mul', v.w, v)); return t.uf('b58mulo', 1, v)
def c_add(c, p, y, n):
    v = rd(c, p, ln(n)); wr(c, p, t.uf('b58add', v.w, v, y)); return t.uf('b58addo', 1, v, y)
CALL = {ISZERO: c_iszero, MOD: c_mod, DIV: c_div, MUL: c_mul, ADD: c_add}

@guarded
def check_helper(S, task, dem, L):
    if missing(S, task, dem): return
    pr = S.prover(); pr.wws = [8]
    ex = S.exec(exclude=(dem,)); st = S.base.fork(); n = t.const(L, 64)
    a = P(ex.new_obj(st, 'x', L, oid='x')); out = 'x'
    for i in range(L): st.mem['x'].put(i, 1, t.var('x%d' % i, 8))
    args = [a, n]
    if dem == DIV: args = [a, P(ex.new_obj(st, 'y', L, oid='y')), n]; out = 'y'
    if dem == ADD: args = [a, t.var('y', 8), n]
    pre = st.fork()
    outs = run1(S, ex, st, dem, args)
    sp = pre.fork(); c = C(ex, sp, 'assume'); want = PLAIN[dem](c, *args)
    nm = '%s [%d bytes]' % (dem, L)
    for s, r in outs:
        whole = lambda s: rd(C(ex, s, 'assume'), P(out), L)
        if dem in (DIV, MUL, ADD): discharge(task, pr, nm, 'post: the array as one number', s.pc, t.eq(whole(s), whole(sp)))
        else: frame(task, nm, pre, s, ())
        if want is not None: discharge(task, pr, nm, 'post: return value', s.pc, t.eq(r, want))
        frame(task, nm, pre, s, (out,))
    finish(task, pr, nm, ex, pre, outs)
    task.functions = {dem: 1}

# ------------------------------------------------------------------ encoder
BUF = {25: 36, 37: 53, 38: 53, 82: 112}
XPRV = (0x04, 0x88, 0xAD, 0xE4)
POS = {v: k for k, v in enumerate(ALPHA)}
def alpha(d): return t.tab(tuple(ALPHA) + (0,), 8, d)
def payload_term(bs): return t.concat(*bs)
def checksum(bs):
    d = dig(S256, [('b', tuple(H.bytes_of(dig(S256, [('b', tuple(bs))]))))])
    return H.bytes_of(d)[:4]
def c_enc(c, data, temp, n, out):
    L = ln(n) + 4
    bs = [c.r(data, 1, i) for i in range(L - 4)]
    if L == 82:
        for b, k in zip(bs, XPRV): c.require(t.eq(b, t.const(k, 8)), 'header of an extended private key')
    elif L not in BUF: raise Unsupported('encoder called with %d bytes' % L)
    for p, k in ((data, L), (temp, L), (out, BUF[L])):
        o = c.ex.bounds(c.st, p, k, 'write')
    c.require(t.boolc(len({data.obj, temp.obj, out.obj}) == 3), 'separate arrays')
    for p in (data, temp): c.w(p, t.fresh('dead', 8 * L))
    c.w(out, encstr(L, bs))
def encstr(L, bs): return t.uf('b58check:%d' % L, 8 * BUF[L], payload_term(bs))      # text, NUL, unspecified bytes

@guarded
def check_enc(S, task, L, zlo=0, zhi=None):
    """bytesToBase58Check: every number of leading zero bytes in [zlo, zhi) and of digits"""
    dem = ENC
    if missing(S, task, dem): return
    pr = S.prover()
    for z in (range(zlo, L + 1 if zhi is None else zhi) if L != 82 else [0]):
        # the first z of the L bytes (payload, checksum) are zero, the next is not; facts about checksum bytes are only assumed
        ex = S.exec(exclude=(dem,)); ex.nomerge = True; st = S.base.fork()
        N = L - 4
        bs = [t.const(0, 8) if i < z else t.var('d%d' % i, 8) for i in range(N)]
        if L == 82: bs[:4] = [t.const(k, 8) for k in XPRV]
        full = bs + checksum(bs)
        for i in range(z):
            if i >= N: st.assume(t.eq(full[i], t.const(0, 8)))
        if z < L: st.assume(t.ne(full[z], t.const(0, 8)))
        data, temp, out = (P(ex.new_obj(st, n, k, oid=n)) for n, k in (('data', L), ('temp', L), ('out', BUF[L])))
        for i in range(N): st.mem['data'].put(i, 1, bs[i])
        V = t.concat(*full)
        known = {}
        def dec(st, c, V=V, z=z):
            d = cppdecider(st, c)
            if d is not None: return d
            # V < k for constants: at least 8 (L - z - 1) + 1 and at most 8 (L - z) bits
            if c.op == 'xor' and len(c.a) == 2 and t.isc(c.a[1]):
                d = dec(st, c.a[0]); return None if d is None else not d
            if c.op == 'ult' and t.isc(c.a[1]) and c.a[0] is V:
                k = c.a[1].v
                if (1 << 8 * (L - z)) <= k: return True
                if L == 82:
                    lo = int.from_bytes(bytes(XPRV), 'big') << (8 * (L - 4))
                    if k <= lo: return False
                    if k >= lo + (1 << 8 * (L - 4)): return True
                elif z < L and k <= 1 << 8 * (L - z - 1): return False
            return None
        ex.decider = dec
        pre = st.fork()
        outs = run1(S, ex, st, dem, [data, temp, t.const(N, 64), out])
        nm = '%s [%d bytes, %d leading zeros]' % (dem, L, z)
        ks = set()
        for s, r in outs:
            # number of digits on this path, from the text written: reconstructed from the path condition
            ks |= check_text(task, pr, nm, s, V, L, z)
            frame(task, nm, pre, s, ('data', 'temp', 'out'))
        # the digit counts possible for z leading zeros must all be present
        lo, hi = (1 << 8 * (L - z - 1), (1 << 8 * (L - z)) - 1) if z < L else (0, 0)
        if L == 82: lo = int.from_bytes(bytes(XPRV), 'big') << (8 * (L - 4)); hi = lo + (1 << 8 * (L - 4)) - 1
        need = set(range(digits(lo), digits(hi) + 1))
        if not need <= ks: task.fail(nm, 'every digit count is reached', 'missing %s' % sorted(need - ks))
        else: task.count('simplification')
        finish(task, pr, nm, ex, pre, outs)
        if len(task.failed) > 3: break
    task.functions = {dem: 1}
def digits(v):
    k = 0
    while v: v //= 58; k += 1
    return k
from dv.cppnum import decider as cppdecider
def check_text(task, pr, nm, s, V, L, z):
    """the text in 'out' is z ones, then the k digits of V most significant first, then NUL, for the k with 58^(k-1) <= V < 58^k"""
    o = s.mem['out']; ks = set()
    hi = (1 << 8 * (L - z)) - 1 if z < L else 0
    for k in range(0, digits(hi) + 1):
        # is V's digit count k possible on this path?
        up = iszero(V, 58 ** k); down = t.not_(iszero(V, 58 ** (k - 1))) if k else t.true()
        st = State()
        for c in s.pc: st.assume(c)
        a = decide_facts(up, st.facts); b = decide_facts(down, st.facts)
        if t.isc(up): a = bool(up.v)
        if t.isc(down): b = bool(down.v)
        if a is False or b is False: continue
        if a is None and rangefact(s, V, 58 ** k, L, z) is False: continue
        if b is None and k and rangefact(s, V, 58 ** (k - 1), L, z) is True: continue
        ks.add(k)
        want = [t.const(ALPHA[0], 8)] * z + [alpha(digit(V, 58 ** (k - 1 - i))) for i in range(k)] + [t.const(0, 8)]
        pc = tuple(s.pc) + tuple(x for x in (up, down) if not t.isc(x))
        for i, w in enumerate(want):
            if i >= o.size: task.fail(nm, 'text fits the buffer', '%d digits' % k); break
            g = o.get(i, 1)
            if g is w: task.count('simplification'); continue
            if not (t.isc(g) and t.isc(w)) and same_alpha(g, w): task.count('simplification'); continue
            if not discharge(task, pr, nm, 'post: character %d of %d' % (i, len(want) - 1), pc, t.eq(g, w)): break
    return ks
def same_alpha(g, w):
    return g.op == 'tab' and w.op == 'tab' and g.v[:58] == w.v[:58] and t.trunc(g.a[0], 8) is t.trunc(w.a[0], 8)
def rangefact(s, V, k, L, z):
    """V < k decided by the known range of V"""
    lo, hi = (1 << 8 * (L - z - 1), (1 << 8 * (L - z)) - 1) if z < L else (0, 0)
    if L == 82: lo = int.from_bytes(bytes(XPRV), 'big') << (8 * (L - 4)); hi = lo + (1 << 8 * (L - 4)) - 1
    if hi < k: return True
    if lo >= k: return False
    return None

# ------------------------------------------------------------------ decoder
def chars_at(c, p):
    """characters of the NUL-terminated string at p (constant length)"""
    o = c.st.mem[p.obj]; n = o.meta.get('strlen')
    if not isinstance(n, int) or not (t.isc(p.off) and p.off.v == 0): raise Unsupported('string of unknown length')
    return [c.r(p, 1, i) for i in range(n)]
def dec_ok(L, cs): return t.uf('b58ok:%d:%d' % (L, len(cs)), 1, *([t.concat(*cs)] if cs else []))
def dec_val(L, cs): return t.uf('b58val:%d:%d' % (L, len(cs)), 8 * L, *([t.concat(*cs)] if cs else []))
def c_dec(c, s, out, n):
    L = ln(n); c.require(t.boolc(L >= 4), 'length at least 4')
    cs = chars_at(c, s); ok = dec_ok(L, cs)
    c.ex.bounds(c.st, out, L, 'write')
    c.require(t.boolc(s.obj != out.obj), 'separate arrays')
    d = c.ex.decide(c.st, ok, z3=False)
    r = []
    for v in (True, False):
        if d is not None and d != v: continue
        st = c.st.fork() if v else c.st
        st.assume(ok if v else t.not_(ok))
        c2 = C(c.ex, st, c.mode)
        if v: wr(c2, out, dec_val(L, cs))
        else: c2.w(out, t.fresh('dead', 8 * L))
        r.append((st, t.boolc(v)))
    return r
def dec_def(L, cs):
    """definition of dec_ok and dec_val"""
    v = t.const(0, 8 * L); ok = []
    mem = tuple(1 if i in POS or i == 0 else 0 for i in range(256)); idx = tuple(POS.get(i, 58 if i == 0 else 0) for i in range(256))
    for ch in cs:
        ok.append(t.not_(t.uf('b58mulo', 1, v))); v = t.uf('b58mul', 8 * L, v)
        ok.append(t.ne(t.tab(mem, 8, ch), t.const(0, 8)))
        d = t.tab(idx, 8, ch)
        ok.append(t.not_(t.uf('b58addo', 1, v, d))); v = t.uf('b58add', 8 * L, v, d)
    bs = [t.extract(v, 8 * (L - i) - 1, 8 * (L - 1 - i)) for i in range(L)]
    ones = t.const(0, 8); go = t.true()
    for ch in cs:
        go = t.and_(go, t.eq(ch, t.const(49, 8))); ones = t.add(ones, t.zext(go, 8))
    zeros = t.const(0, 8); go = t.true()
    for b in bs:
        go = t.and_(go, t.eq(b, t.const(0, 8))); zeros = t.add(zeros, t.zext(go, 8))
    lead = (cs, bs, t.eq(ones, zeros))
    cks = checksum(bs[:-4])
    return ok, lead, [t.eq(a, b) for a, b in zip(bs[-4:], cks)], v

def string_obj(ex, st, name, n):
    o = ex.new_obj(st, name, n + 1, oid=name, ro=True, meta={'strlen': n})
    cs = [t.var('%s%d' % (name, i), 8) for i in range(n)]
    for i in range(n):
        st.mem[o].put(i, 1, cs[i]); st.assume(t.ne(cs[i], t.const(0, 8)))
    st.mem[o].put(n, 1, t.const(0, 8))
    return P(o), cs

@guarded
def check_dec(S, task, L, n):
    dem = DEC
    if missing(S, task, dem): return
    pr = S.prover(); ex = S.exec(exclude=(dem,)); ex.nomerge = True; ex.use_z3 = False; st = S.base.fork()
    sp, cs = string_obj(ex, st, 'str', n)
    out = P(ex.new_obj(st, 'out', L, oid='out')); pre = st.fork()
    outs = run1(S, ex, st, dem, [sp, out, t.const(L, 64)])
    okc, lead, ck, v = dec_def(L, cs)
    nm = '%s [%d characters, %d bytes]' % (dem, n, L)
    t_ = f_ = 0
    for s, r in outs:
        # characters, leading ones and checksum are discharged separately: on acceptance all hold, on rejection one fails
        if t.isc(r) and r.v:
            t_ += 1
            for i, x in enumerate(okc): discharge(task, pr, nm, 'accepted: %s of character %d' % (('no overflow', 'alphabet', 'no overflow')[i % 3], i // 3), s.pc, x)
            check_lead(task, pr, nm, s, lead, True)
            for i, x in enumerate(ck): discharge(task, pr, nm, 'accepted: checksum byte %d' % i, s.pc, x)
            discharge(task, pr, nm, 'post: decoded bytes', s.pc, t.eq(rd(C(ex, s, 'assume'), out, L), v))
        else:
            f_ += 1
            st2 = State()
            for c in s.pc: st2.assume(c)
            if not t.isc(r): discharge(task, pr, nm, 'returns a constant', s.pc, t.false()); continue
            if any(decide_facts(simplify_cond(x, st2.facts), st2.facts) is False for x in okc + ck): task.count('simplification')
            else: check_lead(task, pr, nm, s, lead, False)
        frame(task, nm, pre, s, ('out',))
    if not t_ or not f_: task.fail(nm, 'acceptance and rejection both reachable', 'accepting paths %d, rejecting paths %d' % (t_, f_))
    finish(task, pr, nm, ex, pre, outs)
    task.functions = {dem: 1}
def check_lead(task, pr, nm, s, lead, want):
    cs, bs, cond = lead
    st = State()
    for c in s.pc: st.assume(c)
    for i in range(max(len(cs), len(bs)) + 1):
        a = decide_facts(t.eq(cs[i], t.const(49, 8)), st.facts) if i < len(cs) else False
        b = decide_facts(t.eq(bs[i], t.const(0, 8)), st.facts) if i < len(bs) else False
        if a is None or b is None: break
        if a and b: continue
        if (not a and not b) == want: task.count('simplification'); return
        break
    what = 'accepted: as many leading ones as leading zero bytes' if want else 'rejected: some condition fails'
    discharge(task, pr, nm, what, lean(s, cond), cond if want else t.not_(cond))
def lean(s, c):
    """path conditions about the same symbols as c"""
    vs = {x for x in t.topo([c]) if x.op in ('var', 'uf') }
    return tuple(x for x in s.pc if x.op != 'tab' and set(y for y in t.topo([x]) if y.op in ('var', 'uf')) <= vs)
CALL.update({ENC: c_enc, DEC: c_dec})
def specs(S): return {k: f for k, f in CALL.items() if S.has(k)}

# ------------------------------------------------------------------ public functions
PUB_E = B + 'pubkeyHashToBase58Check(unsigned char const*, unsigned char, char*)'
PRV_E = B + 'privateKeyToBase58Check(Uint256 const&, unsigned char, bool, char*)'
EXT_E = B + 'extendedPrivateKeyToBase58Check(ExtendedPrivateKey const&, char*)'
PUB_D = B + 'pubkeyHashFromBase58Check(char const*, unsigned char*, unsigned char*)'
PRV_D = B + 'privateKeyFromBase58Check(char const*, Uint256&, unsigned char*, bool*)'
EXT_D = B + 'extendedPrivateKeyFromBase58Check(char const*, ExtendedPrivateKey&)'
from dv.llvm import StructT, ArrT, IntT
from dv.cppnum import bswap
from dv.prove import P256, N256
def le(v): return [t.extract(v, 8 * i + 7, 8 * i) for i in range(v.w // 8)]
def be(v): return list(reversed(le(v)))
def structty(prog, cls):
    for f in prog.fns.values():
        p = f.parser
        for n in ('%%class.%s' % cls, '%%struct.%s' % cls):
            if n in p.types: return p.types[n]
            if n in p.lazy and p.lazy[n] != 'opaque':
                p.toks(p.lazy[n]); p.types[n] = p.type(); return p.types[n]
    raise Unsupported('type %s not found' % cls)
def xlayout(prog):
    """field offsets of ExtendedPrivateKey, recognised by their types"""
    ty = structty(prog, 'ExtendedPrivateKey'); r = {'size': ty.size}
    for x, o in zip(ty.fs, ty.offs):
        if isinstance(x, StructT) and x.size == 32: r['priv'] = o
        elif isinstance(x, StructT) and x.size == 96: r['pub'] = o
        elif isinstance(x, ArrT) and x.size == 32: r['chain'] = o
        elif isinstance(x, ArrT) and x.size == 4: r['fp'] = o
        elif isinstance(x, IntT) and x.n == 8: r['depth'] = o
        elif isinstance(x, IntT) and x.n == 32: r['index'] = o
    if len(r) != 7: raise Unsupported('layout of ExtendedPrivateKey')
    return r
def xpadding(prog, F, name):
    ty = structty(prog, 'ExtendedPrivateKey'); r = []; at = 0
    for x, o in list(zip(ty.fs, ty.offs)) + [(None, ty.size)]:
        if o > at: r.append((name, at, o))
        at = o + (x.size if x is not None else 0)
    return tuple(r)
def keyobj(ex, st, name, F):
    p = P(ex.new_obj(st, name, F['size'], oid=name)); o = st.mem[name]
    v = {'priv': t.var(name + '.priv', 256), 'chain': t.var(name + '.chain', 256), 'depth': t.var(name + '.depth', 8),
         'index': t.var(name + '.index', 32), 'fp': t.var(name + '.fp', 32)}
    for k in v: o.put(F[k], v[k].w // 8, v[k])
    for i, k in enumerate('xyz'):
        c = t.var('%s.pub.%s' % (name, k), 256); o.put(F['pub'] + 32 * i, 32, c); st.assume(t.ult(c, t.const(P256, 256))); v['pub' + k] = c
    return p, v
def rkey(c, F, p): return {k: c.r(p, n, F[k]) for k, n in (('priv', 32), ('chain', 32), ('depth', 1), ('index', 4), ('fp', 4))}

def s_pub_e(c, h, ver, out): c.w(out, encstr(25, [ver] + [c.r(h, 1, i) for i in range(20)]))
def s_prv_e(c, k, ver, comp, out):
    d = be(c.r256(k))
    if not t.isc(comp): raise Unsupported('flag not split')
    c.w(out, encstr(38, [ver] + d + [t.const(1, 8)]) if comp.v & 1 else encstr(37, [ver] + d))
def s_ext_e(F):
    def f(c, k, out):
        v = rkey(c, F, k)
        c.w(out, encstr(82, [t.const(x, 8) for x in XPRV] + [v['depth']] + le(v['fp']) + be(v['index']) + le(v['chain']) + [t.const(0, 8)] + be(v['priv'])))
    return f
def byte_at(v, i): L = v.w // 8; return t.extract(v, 8 * (L - i) - 1, 8 * (L - 1 - i))
def s_pub_d(c, s, out, ver):
    cs = chars_at(c, s)
    if not 25 <= len(cs) <= 35: return t.false()
    ok = dec_ok(25, cs); v = dec_val(25, cs)
    for i in range(20): c.w(out, t.ite(ok, byte_at(v, 1 + i), c.r(out, 1, i)), i)
    if ver.obj is not None: c.w(ver, t.ite(ok, byte_at(v, 0), c.r(ver, 1)))
    return ok
def s_prv_d(c, s, out, ver, comp):
    cs = chars_at(c, s)
    if not 38 <= len(cs) <= 52: return t.false()
    ok7 = dec_ok(37, cs); v7 = dec_val(37, cs); v8 = dec_val(38, cs)
    ok8 = t.and_(t.not_(ok7), dec_ok(38, cs), t.eq(byte_at(v8, 33), t.const(1, 8)))
    sel = lambda i, old: t.ite(ok7, byte_at(v7, i), t.ite(ok8, byte_at(v8, i), old))
    if ver.obj is not None: c.w(ver, sel(0, c.r(ver, 1)))
    for i in range(32): c.w(out, sel(32 - i, c.r(out, 1, i)), i)
    if comp.obj is not None: c.w(comp, t.ite(ok7, t.const(0, 8), t.ite(ok8, t.const(1, 8), c.r(comp, 1))))
    return t.xor(ok7, ok8)
def s_ext_d(F):
    from dv.cppecdsa import ptmul, ptnorm, gpoint
    def f(c, s, out):
        cs = chars_at(c, s)
        if len(cs) != 111: return t.false()
        v = dec_val(82, cs); bs = [byte_at(v, i) for i in range(82)]
        d = t.concat(*bs[46:78])
        ok = t.and_(dec_ok(82, cs), *[t.eq(b, t.const(k, 8)) for b, k in zip(bs, XPRV)], t.eq(bs[45], t.const(0, 8)),
                    t.ult(t.const(0, 256), d), t.ult(d, t.const(N256, 256)))
        r = []
        for z in (True, False):
            st = c.st.fork() if z else c.st
            st.assume(ok if z else t.not_(ok)); c2 = C(c.ex, st, c.mode)
            if z:
                q = ptnorm(ptmul(gpoint(), d))
                c2.w(out, d, F['priv'])
                for i in range(3): c2.w(out, t.extract(q, 256 * i + 255, 256 * i), F['pub'] + 32 * i)
                for i in range(32): c2.w(out, bs[13 + i], F['chain'] + i)
                c2.w(out, bs[4], F['depth']); c2.w(out, t.concat(*bs[9:13]), F['index'])
                for i in range(4): c2.w(out, bs[5 + i], F['fp'] + i)
            r.append((st, t.boolc(z)))
        return r
    return f

@guarded
def check_public(S, task, what, arg=None):
    pr = S.prover(); F = xlayout(S.prog)
    dem = {'pub_e': PUB_E, 'prv_e': PRV_E, 'ext_e': EXT_E, 'pub_d': PUB_D, 'prv_d': PRV_D, 'ext_d': EXT_D}[what]
    if missing(S, task, dem): return
    spec = {'pub_e': s_pub_e, 'prv_e': s_prv_e, 'ext_e': s_ext_e(F), 'pub_d': s_pub_d, 'prv_d': s_prv_d, 'ext_d': s_ext_d(F)}[what]
    ex = S.exec(exclude=(dem,)); st = S.base.fork(); fn = S.prog.fn(S.prog.bydem[dem]); lab = ''
    obj = lambda n, k: P(ex.new_obj(st, n, k, oid=n))
    def arr(n, k):
        p = obj(n, k); st.mem[n].put(0, k, t.var(n, 8 * k)); return p
    if what == 'pub_e': args = [arr('hash', 20), t.var('version', 8), obj('out', 36)]
    elif what == 'prv_e': args = [arr('key', 32), t.var('version', 8), t.const(arg, 1), obj('out', 53)]; lab = ' [%scompressed]' % ('' if arg else 'un')
    elif what == 'ext_e': args = [keyobj(ex, st, 'key', F)[0], obj('out', 112)]
    else:
        n, nulls = arg; lab = ' [%s characters%s]' % (n, ', null outputs' if nulls else '')
        if isinstance(n, int): s, cs = string_obj(ex, st, 'str', n)
        else:
            # any other length
            lo, hi = n; ln_ = t.var('strlen', 64); lab = ' [fewer than %d or more than %d characters]' % (lo, hi)
            st.assume(t.ult(ln_, t.const(1 << 62, 64)))
            st.assume(t.not_(t.and_(t.ule(t.const(lo, 64), ln_), t.ule(ln_, t.const(hi, 64)))))
            s = P(ex.new_obj(st, 'str', t.add(ln_, t.const(1, 64)), oid='str', ro=True, meta={'strlen': ln_}))
        if what == 'pub_d': args = [s, arr('out', 20), NULL if nulls else arr('ver', 1)]
        elif what == 'prv_d': args = [s, arr('out', 32), NULL if nulls else arr('ver', 1), NULL if nulls else arr('comp', 1)]
        else: args = [s, keyobj(ex, st, 'out', F)[0]]
        if not isinstance(n, int): spec = lambda c, *a: t.false()
    pre = st.fork()
    verify(task, ex, pr, dem + lab, lambda e, s: e.call_fn(s, fn, args), spec, pre, args,
           ignore=xpadding(S.prog, F, 'out') if what == 'ext_d' else ())
    task.functions = {dem: 1}
    task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)

# ------------------------------------------------------------------ extended private keys
X_ = 'ExtendedPrivateKey::'
CTOR0 = X_ + 'ExtendedPrivateKey()'
CTOR = X_ + 'ExtendedPrivateKey(Uint256 const&, unsigned char const*, unsigned char, unsigned int, unsigned char const*)'
CHILD = X_ + 'getChildKey(unsigned int) const'
def wkey(c, F, p, priv, pub, chain, depth, index, fp):
    """chain, fp: byte lists in memory order; pub: 768-bit point"""
    c.w(p, priv, F['priv'])
    for i in range(3): c.w(p, t.extract(pub, 256 * i + 255, 256 * i), F['pub'] + 32 * i)
    for i, b in enumerate(chain): c.w(p, b, F['chain'] + i)
    c.w(p, depth, F['depth']); c.w(p, index, F['index'])
    for i, b in enumerate(fp): c.w(p, b, F['fp'] + i)
def zerokey(c, F, p): wkey(c, F, p, t.const(0, 256), t.const(1 << 256, 768), [t.const(0, 8)] * 32, t.const(0, 8), t.const(0, 32), [t.const(0, 8)] * 4)
def s_ctor0(F): return lambda c, this: zerokey(c, F, this)
def s_ctor(F):
    from dv.curve import ptmul, ptnorm, gpoint
    def f(c, this, k, ch, dep, idx, fp):
        v = c.r256(k); c.require(t.ult(t.const(0, 256), v)); c.require(t.ult(v, t.const(N256, 256)))
        wkey(c, F, this, v, ptnorm(ptmul(gpoint(), v)), [c.r(ch, 1, i) for i in range(32)], dep, idx, [c.r(fp, 1, i) for i in range(4)])
    return f
def s_child(F):
    """BIP 32, CKDpriv"""
    from dv.curve import ptmul, ptnorm, gpoint
    def f(c, ret, this, idx):
        v = rkey(c, F, this); q = [c.r(this, 32, F['pub'] + 32 * i) for i in range(3)]
        for x in q: c.require(t.ult(x, t.const(P256, 256)))
        c.require(t.ult(t.const(0, 256), v['priv']), 'valid private key'); c.require(t.ult(v['priv'], t.const(N256, 256)), 'valid private key')
        c.require(t.ult(v['depth'], t.const(255, 8)), 'depth below 255')
        comp = [t.concat(t.const(1, 7), t.extract(q[1], 0, 0))] + be(q[0])        # 02/03, x big-endian
        hard = t.extract(idx, 31, 31)
        pre = [t.ite(hard, a, b) for a, b in zip([t.const(0, 8)] + be(v['priv']), comp)]
        msg = pre + be(idx)
        h = t.uf('hmac512:32:37', 512, v['chain'], t.concat(*reversed(msg)))
        hb = le(h); il = t.concat(*hb[:32])
        s = t.add(t.zext(il, 257), t.zext(v['priv'], 257)); n = t.const(N256, 257)
        child = t.trunc(t.ite(t.ult(s, n), s, t.sub(s, n)), 256)
        bad = t.not_(t.and_(t.ult(il, t.const(N256, 256)), t.ne(child, t.const(0, 256))))
        r = []
        for z in (True, False):
            st = c.st.fork() if z else c.st
            st.assume(bad if z else t.not_(bad)); c2 = C(c.ex, st, c.mode)
            if z: zerokey(c2, F, ret)
            else:
                idb = le(dig(H.RMD, [('b', tuple(le(dig(S256, [('b', tuple(comp))]))))]))[:4]
                wkey(c2, F, ret, child, ptnorm(ptmul(gpoint(), child)), hb[32:], t.add(v['depth'], t.const(1, 8)), idx, idb)
            r.append((st, None))
        return r
    return f
def xspecs(S):
    F = xlayout(S.prog)
    return {k: f for k, f in ((CTOR0, s_ctor0(F)), (CTOR, s_ctor(F))) if S.has(k)}
@guarded
def check_key(S, task, what, arg=None):
    pr = S.prover(); F = xlayout(S.prog); dem = {'ctor0': CTOR0, 'ctor': CTOR, 'child': CHILD}[what]; lab = ''
    if missing(S, task, dem): return
    ex = S.exec(exclude=(dem,)); st = S.base.fork(); fn = S.prog.fn(S.prog.bydem[dem])
    obj = lambda n, k: P(ex.new_obj(st, n, k, oid=n))
    def arr(n, k):
        p = obj(n, k); st.mem[n].put(0, k, t.var(n, 8 * k)); return p
    if what == 'ctor0': args = [obj('this', F['size'])]; spec = s_ctor0(F)
    elif what == 'ctor': args = [obj('this', F['size']), arr('key', 32), arr('chain', 32), t.var('depth', 8), t.var('index', 32), arr('fp', 4)]; spec = s_ctor(F)
    else:
        p, v = keyobj(ex, st, 'key', F); lab = ' [%s]' % ('hardened' if arg else 'normal')
        ex.nomerge = True
        args = [obj('ret', F['size']), p, t.concat(t.const(arg, 1), t.var('index', 31))]; spec = s_child(F)
    pre = st.fork()
    verify(task, ex, pr, dem + lab, lambda e, s: e.call_fn(s, fn, args), spec, pre, args, ignore=xpadding(S.prog, F, 'this') + xpadding(S.prog, F, 'ret'))
    task.functions = {dem: 1}
    task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)

# ------------------------------------------------------------------ encode and decode are inverse (lemmas over the contracts)
def lemma_positional(task):
    """base-58 digits as the encoder's contract defines them (digit i of V is floor(V / 58^i) mod 58, as many as
    58^(k-1) <= V < 58^k) and Horner evaluation as the decoder's contract defines it are inverse."""
    import z3
    nm = 'lemma: positional notation'
    def ob(what, hyps, goal):
        s = z3.Solver(); s.set('timeout', 20000); s.add(*hyps); s.add(z3.Not(goal)); r = s.check()
        if r == z3.unsat: task.count('z3 integers')
        elif r == z3.sat: task.fail(nm, what, 'refuted')
        else: task.unsupported.append('%s: %s: unknown' % (nm, what))
    def co(what, b):
        if b: task.count('simplification')
        else: task.fail(nm, what, 'false')
    V, q, d, r, H, X, y = z3.Ints('V q d r H X y')
    for i in range(112):
        c = 58 ** i
        # nested division: q = floor(V / 58^i), d = q mod 58  =>  floor(V / 58^(i+1)) = (q - d) / 58; so the Horner step restores q
        ob('floor(V / 58^%d) = 58 floor(V / 58^%d) + digit %d' % (i, i + 1, i),
           [V == c * (58 * q + d) + r, 0 <= r, r < c, 0 <= d, d < 58],
           z3.And(58 * c * q <= V, V < 58 * c * (q + 1), c * (58 * q + d) <= V, V < c * (58 * q + d + 1)))
        ob('digit count after a nonzero first digit, step %d' % i,
           [c <= H, H < 58 * c, 0 <= d, d < 58], z3.And(58 * c <= 58 * H + d, 58 * H + d < 58 * 58 * c))
    ob('the last digit of 58 H + d is d', [0 <= d, d < 58, X == 58 * H + d, 58 * q <= X, X < 58 * q + 58], z3.And(q == H, X - 58 * q == d))
    for L in LENS:
        ob('no overflow of %d bytes while the Horner value is at most V' % L, [0 <= H, 0 <= d, d < 58, 58 * H + d <= V, V < 256 ** L], z3.And(58 * H < 256 ** L, 58 * H + d < 256 ** L))
        # leading zero bytes: V with z zero bytes of L
        for z in range(L):
            ob('%d bytes, %d leading zeros' % (L, z), [256 ** (L - z - 1) <= V, V < 256 ** (L - z)], z3.And(V < 256 ** (L - z), V > 0))
            if L != 82:
                k = digits(256 ** (L - z) - 1)
                co('text of %d bytes with %d zeros fits the buffer' % (L, z), z + k + 1 <= BUF[L])
        co('text of %d zero bytes fits the buffer' % L, L + 1 <= BUF[L] or L == 82)
    for d0 in range(58): co('alphabet position of digit %d' % d0, POS[ALPHA[d0]] == d0)
    for ch in range(256): co('alphabet character %d' % ch, ch not in POS or ALPHA[POS[ch]] == ch)
    co('the leading-zero character is digit zero', POS[49] == 0 and 0 not in POS)
    co('a nonzero first digit is not the leading-zero character', all(ALPHA[i] != 49 for i in range(1, 58)))
    lo = int.from_bytes(bytes(XPRV), 'big') << 624; hi = lo + (1 << 624) - 1
    co('extended private keys always have 111 digits', digits(lo) == digits(hi) == 111 and 112 <= BUF[82])
    # one string cannot be canonical for 37 and for 38 bytes: same value, same number of ones, different number of zero bytes
    z37, z38, L1 = z3.Ints('z37 z38 ones')
    for z in range(38):
        ob('37 against 38 bytes, %d zeros' % z, [256 ** (37 - z - 1) <= V if z < 37 else V == 0, V < 256 ** (37 - z), 0 <= V], z3.And(V < 256 ** (38 - z - 1)))
    task.functions[nm] = 1

@guarded
def lemma_fields(S, task):
    """decoding the payload an encoder's contract writes returns the fields; encoding the fields a decoder's contract
    returns rebuilds the payload"""
    nm = 'lemma: fields'; F = xlayout(S.prog); pr = S.prover()
    g = globals()
    import dv.base58 as me
    saved = me.dec_ok, me.dec_val, me.encstr
    box = {}
    def run(spec, args, mk, dec=None):
        """dec: {L: (ok, value)}"""
        ex = S.exec(); st = S.base.fork()
        me.dec_ok = lambda L, cs: dec[L][0] if L in dec else t.false()
        me.dec_val = lambda L, cs: dec[L][1] if L in dec else t.const(0, 8 * L)
        me.encstr = lambda L, bs: box.setdefault('e', (L, t.concat(*bs))) and t.const(0, 8 * BUF[L])
        box.clear(); mk_ = mk(ex, st); c = C(ex, st, 'assume')
        r = spec(c, *mk_)
        return (r if isinstance(r, list) else [(st, r)]), box.get('e')
    def arr(ex, st, n, k, v=None):
        p = P(ex.new_obj(st, n, k, oid=n)); st.mem[n].put(0, k, v if v is not None else t.var(n, 8 * k)); return p
    def text(ex, st, n): return string_obj(ex, st, 'text', n)[0]
    def ck(v): return t.concat(v, *checksum([byte_at(v, i) for i in range(v.w // 8)]))
    def eqs(what, pc, x, y): discharge(task, pr, nm, what, pc, t.eq(x, y))
    try:
        # --- fields -> text -> fields
        def mk(ex, st): return [arr(ex, st, 'hash', 20), t.var('ver', 8), arr(ex, st, 'out', 36)]
        _, (L, v) = run(s_pub_e, None, mk)
        (st, r), = run(s_pub_d, None, lambda ex, st: [text(ex, st, 30), arr(ex, st, 'out', 20), arr(ex, st, 'v', 1)], {L: (t.true(), ck(v))})[0]
        eqs('address hash', st.pc, st.mem['out'].get(0, 20), t.var('hash', 160)); eqs('address version', st.pc, st.mem['v'].get(0, 1), t.var('ver', 8)); eqs('address accepted', st.pc, r, t.true())
        for comp in (0, 1):
            def mk(ex, st): return [arr(ex, st, 'key', 32), t.var('ver', 8), t.const(comp, 1), arr(ex, st, 'out', 53)]
            _, (L, v) = run(s_prv_e, None, mk)
            (st, r), = run(s_prv_d, None, lambda ex, st: [text(ex, st, 51), arr(ex, st, 'out', 32), arr(ex, st, 'v', 1), arr(ex, st, 'c', 1)], {L: (t.true(), ck(v))})[0]
            eqs('private key', st.pc, st.mem['out'].get(0, 32), t.var('key', 256)); eqs('private key version', st.pc, st.mem['v'].get(0, 1), t.var('ver', 8))
            eqs('compression flag', st.pc, st.mem['c'].get(0, 1), t.const(comp, 8)); eqs('private key accepted', st.pc, r, t.true())
        _, (L, v) = run(s_ext_e(F), None, lambda ex, st: [keyobj(ex, st, 'key', F)[0], arr(ex, st, 'out', 112)])
        for st, r in run(s_ext_d(F), None, lambda ex, st: [text(ex, st, 111), keyobj(ex, st, 'out', F)[0]], {L: (t.true(), ck(v))})[0]:
            pc = tuple(st.pc) + (t.ult(t.const(0, 256), t.var('key.priv', 256)), t.ult(t.var('key.priv', 256), t.const(N256, 256)))
            if not r.v: discharge(task, pr, nm, 'a valid extended key is accepted', pc, t.false()); continue
            for k in ('priv', 'chain', 'depth', 'index', 'fp'):
                x = t.var('key.' + k, 8 * {'priv': 32, 'chain': 32, 'depth': 1, 'index': 4, 'fp': 4}[k])
                eqs('extended key ' + k, pc, st.mem['out'].get(F[k], x.w // 8), x)
        # --- text -> fields -> text (payload; the checksum is a function of it)
        def back(what, L, spec_d, mkd, spec_e, mke, okc):
            v = t.var('payload', 8 * L); ck_ok = t.and_(*[t.eq(a, b) for a, b in zip([byte_at(v, L - 4 + i) for i in range(4)], checksum([byte_at(v, i) for i in range(L - 4)]))])
            for st, r in run(spec_d, None, mkd, {L: (t.true(), v)})[0]:
                if t.isc(r) and not r.v: continue
                _, e = run(spec_e, None, lambda ex, st2: mke(ex, st2, st))
                eqs('%s: same payload length' % what, st.pc, t.const(e[0], 8), t.const(L, 8))
                eqs('%s: payload' % what, tuple(st.pc) + (r, ck_ok), ck(e[1]), v)
        back('address', 25, s_pub_d, lambda ex, st: [text(ex, st, 30), arr(ex, st, 'out', 20), arr(ex, st, 'v', 1)],
             s_pub_e, lambda ex, st, d: [arr(ex, st, 'h', 20, d.mem['out'].get(0, 20)), d.mem['v'].get(0, 1), arr(ex, st, 'o', 36)], None)
        for comp in (0, 1):
            back('private key', 37 + comp, s_prv_d, lambda ex, st: [text(ex, st, 51), arr(ex, st, 'out', 32), arr(ex, st, 'v', 1), arr(ex, st, 'c', 1)],
                 s_prv_e, lambda ex, st, d: [arr(ex, st, 'h', 32, d.mem['out'].get(0, 32)), d.mem['v'].get(0, 1), t.const(comp, 1), arr(ex, st, 'o', 53)], None)
        def rekey(ex, st, d):
            p = keyobj(ex, st, 'k2', F)[0]
            for k, n in (('priv', 32), ('chain', 32), ('depth', 1), ('index', 4), ('fp', 4)): st.mem['k2'].put(F[k], n, d.mem['out'].get(F[k], n))
            return [p, arr(ex, st, 'o', 112)]
        back('extended key', 82, s_ext_d(F), lambda ex, st: [text(ex, st, 111), keyobj(ex, st, 'out', F)[0]], s_ext_e(F), rekey, None)
    finally: me.dec_ok, me.dec_val, me.encstr = saved
    task.functions[nm] = 1
