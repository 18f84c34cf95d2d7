"""Trusted contracts of the Java library methods the code uses.  f(ex, st, args) -> [(state, result)]; a result
('exc', class) is an exception."""
from dv import terms as t
from dv.symex import *

c32 = lambda v: t.const(v, 32)
LIB = {}
def lib(*names):
    def d(f):
        for n in names: LIB[n] = f
        return f
    return d
def one(f):
    return lambda ex, st, a: [(st, f(ex, st, *a))]
def exc(c): return ('exc', 'java/lang/' + c)
NPE = exc('NullPointerException'); IAE = exc('IllegalArgumentException'); NFE = exc('NumberFormatException')
SIOOBE = exc('StringIndexOutOfBoundsException')

def addr(ex, st, p, idx, n, what):
    """address of n elements from index idx (both terms); the range must lie inside the array"""
    o = ex.deref(st, p); es = o.meta['es']
    q = ex.region(st, o, idx)
    if q is not None:
        oid, k, m = q
        if not t.isc(n) or not (0 <= k and k + n.v <= m):
            ex.oblige(st, t.false(), '%s inside the declared operands of the shared array (in-bounds)' % what); raise PathEnd()
        ex.n_trivial += 1
        return P(oid, es * k)
    if 'regions' in o.meta: raise Unsupported('array index %s' % t.show(idx, 3)[:80])
    ln = o.meta['len']
    c = t.and_(t.ule(n, ln), t.ule(idx, t.sub(ln, n)))          # lengths are not negative
    if t.isc(c) and not c.v:
        ex.oblige(st, c, 'out-of-bounds %s' % what); raise PathEnd()
    ex.oblige(st, c, 'array range in-bounds (%s)' % what)
    off = t.zext(idx, 64)
    return Ptr(p.obj, off if es == 1 else t.mul(off, t.const(es, 64)))

@lib('java/util/Objects.requireNonNull(Ljava/lang/Object;)')
def _(ex, st, a):
    if isinstance(a[0], Ptr) and a[0].obj is None: return [(st, NPE)]
    return [(st, a[0])]
@lib('java/lang/Object.<init>()', 'java/lang/AssertionError.<init>()', 'java/lang/AssertionError.<init>(Ljava/lang/Object;)', 'java/lang/IllegalArgumentException.<init>()',
     'java/lang/IllegalArgumentException.<init>(Ljava/lang/String;)', 'java/lang/IllegalStateException.<init>()', 'java/lang/IllegalStateException.<init>(Ljava/lang/String;)')
def _(ex, st, a): return [(st, None)]
LIB['java/lang/Class.desiredAssertionStatus()'] = lambda ex, st, a: [(st, c32(1))]

def rot(w, left):
    def f(ex, st, a):
        x, k = a
        if not t.isc(k): raise Unsupported('rotation by a variable distance')
        k = k.v % w
        if not left: k = (w - k) % w
        if not k: return [(st, x)]
        return [(st, t.concat(t.extract(x, w - 1 - k, 0), t.extract(x, w - 1, w - k)))]
    return f
for _c, _d, _w in (('Integer', 'I', 32), ('Long', 'J', 64)):
    LIB['java/lang/%s.rotateLeft(%sI)' % (_c, _d)] = rot(_w, True)
    LIB['java/lang/%s.rotateRight(%sI)' % (_c, _d)] = rot(_w, False)
    LIB['java/lang/%s.reverseBytes(%s)' % (_c, _d)] = one(lambda ex, st, x: t.concat(*[t.extract(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)]))

def signed_nonneg(ex, st, x, what):
    pass

def copy_elems(ex, st, dst, src, n, es):
    """n: term"""
    if t.isc(n):
        ex.copy(st, dst, src, n.v * es); return
    h = getattr(ex, 'symcopy', None)
    if h is None: raise Unsupported('array copy of symbolic length')
    h(ex, st, dst, src, n, es)
@lib('java/lang/System.arraycopy(Ljava/lang/Object;ILjava/lang/Object;II)')
def _(ex, st, a):
    src, so, dst, do, n = a
    x = ex.deref(st, src); y = ex.deref(st, dst)
    if x.meta['kind'] != y.meta['kind']: raise Unsupported('arraycopy between kinds')
    p = addr(ex, st, src, so, n, 'read'); q = addr(ex, st, dst, do, n, 'write')
    copy_elems(ex, st, q, p, n, x.meta['es'])
    return [(st, None)]
@lib('java/util/Arrays.fill([IIII)', 'java/util/Arrays.fill([BIIB)')
def _(ex, st, a):
    arr, lo, hi, v = a
    n = t.sub(hi, lo)
    if not t.isc(n): raise Unsupported('fill of symbolic range')
    o = ex.deref(st, arr); es = o.meta['es']
    p = addr(ex, st, arr, lo, n, 'write')
    v = t.trunc(v, 8 * es)
    fill(ex, st, p, n.v, es, v)
    return [(st, None)]
def fill(ex, st, p, n, es, v):
    if t.isc(p.off) and p.off.v % 32 == 0 and n * es % 32 == 0 and es == 4 and t.isc(v):
        w = t.const(sum(v.v << 32 * i for i in range(8)), 256)
        for i in range(0, n * es, 32): ex.store(st, p.addc(i), 32, w)
    else:
        for i in range(n): ex.store(st, p.addc(i * es), es, v)
@lib('java/util/Arrays.fill([BB)', 'java/util/Arrays.fill([II)', 'java/util/Arrays.fill([JJ)')
def _(ex, st, a):
    arr, v = a
    o = ex.deref(st, arr); n = o.meta['len']; es = o.meta['es']
    if not t.isc(n): raise Unsupported('fill of symbolic array')
    fill(ex, st, P(arr.obj), n.v, es, t.trunc(v, 8 * es))
    return [(st, None)]
@lib('array.clone()')
def _(ex, st, a):
    o = ex.deref(st, a[0]); n = o.meta['len']
    q = ex.new_array(st, o.meta['kind'], n, 'clone')
    copy_elems(ex, st, q, P(a[0].obj), n, o.meta['es'])
    return [(st, q)]
def copy_of_range(ex, st, arr, lo, hi):
    """concrete lo, hi"""
    o = ex.deref(st, arr); n = o.meta['len']; es = o.meta['es']
    q = ex.new_array(st, o.meta['kind'], hi - lo, 'copy')
    if t.isc(n):
        m = min(n.v, hi)
        if m > lo: ex.copy(st, q, P(arr.obj, lo * es), (m - lo) * es)
        return q
    raise Unsupported('copyOf of symbolic array')
@lib('java/util/Arrays.copyOf([BI)', 'java/util/Arrays.copyOf([II)')
def _(ex, st, a):
    arr, n = a
    if not t.isc(n): raise Unsupported('copyOf to symbolic length')
    if t.sgn(n.v, 32) < 0: return [(st, exc('NegativeArraySizeException'))]
    h = getattr(ex, 'copyof', None)
    o = ex.deref(st, arr)
    if not t.isc(o.meta['len']) and h is not None: return h(ex, st, arr, n.v)
    return [(st, copy_of_range(ex, st, arr, 0, n.v))]
@lib('java/util/Arrays.copyOfRange([BII)', 'java/util/Arrays.copyOfRange([III)')
def _(ex, st, a):
    arr, lo, hi = a
    if not (t.isc(lo) and t.isc(hi)): raise Unsupported('copyOfRange with symbolic bounds')
    l, h = t.sgn(lo.v, 32), t.sgn(hi.v, 32)
    n = ex.deref(st, arr).meta['len']
    if l > h: return [(st, IAE)]
    if l < 0 or (t.isc(n) and l > n.v): return [(st, exc('ArrayIndexOutOfBoundsException'))]
    return [(st, copy_of_range(ex, st, arr, l, h))]
@lib('java/util/Arrays.equals([B[B)')
def _(ex, st, a):
    x, y = ex.elems(st, a[0]), ex.elems(st, a[1])
    if len(x) != len(y): return [(st, c32(0))]
    return [(st, t.zext(t.and_(*[t.eq(p, q) for p, q in zip(x, y)]) if x else t.true(), 32))]

# ------------------------------------------------------------------ strings
S_ = 'java/lang/String.'
@lib(S_ + 'length()')
def _(ex, st, a): return [(st, ex.deref(st, a[0]).meta['len'])]
@lib(S_ + 'charAt(I)')
def _(ex, st, a):
    q, es = str_elem(ex, st, a[0], a[1])
    if q is None: return [(st, SIOOBE)]
    return [(st, t.zext(ex.load(st, q, 2), 32))]
def str_elem(ex, st, s, i):
    o = ex.deref(st, s); n = o.meta['len']
    if t.isc(i) and t.isc(n) and not 0 <= t.sgn(i.v, 32) < n.v: return None, 0
    ex.oblige(st, t.ult(i, n), 'string index in-bounds (charAt)')
    return Ptr(s.obj, t.mul(t.zext(i, 64), t.const(2, 64))), 2
def conc(x, what):
    if not t.isc(x): raise Unsupported('symbolic ' + what)
    return t.sgn(x.v, 32)
def substring(ex, st, s, lo, hi):
    cs = ex.chars(st, s)
    if lo < 0 or hi > len(cs) or lo > hi: return [(st, SIOOBE)]
    return [(st, ex.mkstring(st, cs[lo:hi]))]
LIB[S_ + 'substring(II)'] = lambda ex, st, a: substring(ex, st, a[0], conc(a[1], 'index'), conc(a[2], 'index'))
LIB[S_ + 'substring(I)'] = lambda ex, st, a: substring(ex, st, a[0], conc(a[1], 'index'), len(ex.chars(st, a[0])))
def ishex(c):
    r = lambda lo, hi: t.and_(t.ule(t.const(ord(lo), 16), c), t.ule(c, t.const(ord(hi), 16)))
    return t.or_(r('0', '9'), r('a', 'f'), r('A', 'F'))
def text(ex, st, p):
    cs = ex.chars(st, p)
    if not all(t.isc(c) for c in cs): raise Unsupported('symbolic text')
    return ''.join(chr(c.v) for c in cs)
@lib(S_ + 'matches(Ljava/lang/String;)')
def _(ex, st, a):
    import re
    pat = text(ex, st, a[1]); ln = ex.deref(st, a[0]).meta['len']
    m = re.fullmatch(r'\[0-9a-fA-F\](\*|\+|\{(\d+)\})', pat)
    if not m: raise Unsupported('regular expression ' + pat)
    if not t.isc(ln):
        if m[2] and ex.decide(st, t.eq(ln, c32(int(m[2])))) is False: return [(st, c32(0))]
        raise Unsupported('regular expression on text of symbolic length')
    cs = ex.chars(st, a[0])
    if m[2] and len(cs) != int(m[2]): return [(st, c32(0))]
    if m[1] == '+' and not cs: return [(st, c32(0))]
    return [(st, t.zext(t.and_(*[ishex(c) for c in cs]) if cs else t.true(), 32))]
def index_of(last):
    def f(ex, st, a):
        cs = ex.chars(st, a[0]); k = a[1]
        r = c32(0xFFFFFFFF)
        if t.isc(k) and not all(t.isc(c) for c in cs) and getattr(ex, 'indexof', None): return ex.indexof(ex, st, a[0], k, last)
        if all(t.isc(c) for c in cs) and not t.isc(k) and getattr(ex, 'digitof', None):
            v = ex.digitof(ex, st, cs, k, last)
            if v is not None: return v if isinstance(v, list) else [(st, v)]
        for i in (range(len(cs)) if last else reversed(range(len(cs)))):
            r = t.ite(t.eq(t.zext(cs[i], 32), k), c32(i), r)
        return [(st, r)]
    return f
LIB[S_ + 'indexOf(I)'] = index_of(False); LIB[S_ + 'lastIndexOf(I)'] = index_of(True)
@lib(S_ + 'toCharArray()')
def _(ex, st, a):
    o = ex.deref(st, a[0]); n = o.meta['len']
    if t.isc(n): return [(st, ex.new_array(st, 'C', n.v, 'chars', vals=ex.chars(st, a[0])))]
    h = getattr(ex, 'chararray', None)
    if h: return h(ex, st, a[0])
    raise Unsupported('toCharArray of symbolic length')
@lib(S_ + '<init>([C)')
def _(ex, st, a):
    cs = ex.chars(st, a[1])
    o = st.wobj(a[0].obj); o.meta = {'kind': 'C', 'es': 2, 'len': c32(len(cs)), 'cls': 'java/lang/String'}; o.size = 2 * len(cs)
    for i, c in enumerate(cs): o.put(2 * i, 2, c)
    o.ro = True
    return [(st, None)]
@lib(S_ + 'isEmpty()')
def _(ex, st, a): return [(st, t.zext(t.eq(ex.deref(st, a[0]).meta['len'], c32(0)), 32))]
HEXD = '0123456789abcdef'
def hexdigit(n):
    """4-bit term -> lower-case character"""
    n8 = t.zext(n, 16)
    return t.ite(t.ult(n, t.const(10, 4)), t.add(n8, t.const(48, 16)), t.add(n8, t.const(87, 16)))
@lib('java/lang/Integer.valueOf(I)', 'java/lang/Byte.valueOf(B)', 'java/lang/Long.valueOf(J)')
def _(ex, st, a):
    p = ex.instance(st, 'box', 'box'); st.mem[p.obj].put(0, a[0].w // 8, a[0]); st.mem[p.obj].meta = {'cls': 'java/lang/Integer', 'box': a[0].w}
    return [(st, p)]
@lib('java/lang/Integer.intValue()')
def _(ex, st, a): return [(st, ex.deref(st, a[0]).get(0, 4))]
@lib(S_ + 'format(Ljava/lang/String;[Ljava/lang/Object;)')
def _(ex, st, a):
    f = text(ex, st, a[0])
    o = ex.deref(st, a[1])
    if f not in ('%08x', '%02x') or o.meta['len'].v != 1: raise Unsupported('format ' + f)
    b = o.get(0, 8)
    if not isinstance(b, Ptr): raise Unsupported('format argument')
    v = ex.deref(st, b).get(0, 4); n = int(f[2])
    if f == '%02x':
        # a Byte: Integer.toHexString of a byte prints its two digits
        if getattr(ex, 'fmtbyte', True): v = t.trunc(v, 8)
    return [(st, ex.mkstring(st, [hexdigit(t.extract(v, 4 * i + 3, 4 * i)) for i in reversed(range(n))]))]
def digit(c):
    """value of a hexadecimal digit character (4 bits)"""
    c8 = t.trunc(c, 8)
    d = t.sub(c8, t.const(48, 8)); l = t.sub(t.or_(c8, t.const(32, 8)), t.const(87, 8))
    return t.trunc(t.ite(t.ult(c, t.const(58, 16)), d, l), 4)
def parse_num(w, maxdigits):
    """parse of at most maxdigits digits in base 16, which cannot overflow.  An optional sign is accepted by Java; the
    characters are required to be digits here, so a caller that passes a sign fails an obligation."""
    def f(ex, st, a):
        cs = ex.chars(st, a[0])
        if not (t.isc(a[1]) and a[1].v == 16): raise Unsupported('number base')
        if not cs: return [(st, NFE)]
        if len(cs) > maxdigits: raise Unsupported('parse of %d digits' % len(cs))
        ok = t.and_(*[ishex(c) for c in cs])
        d = ex.decide(st, ok)
        r = t.zext(t.concat(*[digit(c) for c in cs]), w)
        if d is True: return [(st, r)]
        s2 = st.fork(); s2.assume(t.not_(ok)); st.assume(ok)
        # other text: either a signed number or NumberFormatException
        sign = t.and_(t.or_(t.eq(cs[0], t.const(43, 16)), t.eq(cs[0], t.const(45, 16))), *[ishex(c) for c in cs[1:]]) if len(cs) > 1 else t.false()
        ex.oblige(s2, t.not_(sign), 'no sign accepted as part of the digits')
        return [(st, r), (s2, NFE)]
    return f
LIB['java/lang/Integer.parseInt(Ljava/lang/String;I)'] = parse_num(32, 7)
LIB['java/lang/Long.parseLong(Ljava/lang/String;I)'] = parse_num(64, 15)

# ------------------------------------------------------------------ StringBuilder, ByteArrayOutputStream: the contents are one value
def buf(st, p): return st.mem[p.obj].cells[0][0]
def setbuf(st, p, v): st.wobj(p.obj).put(0, 1, v)
SB = 'java/lang/StringBuilder.'
@lib(SB + '<init>()')
def _(ex, st, a): setbuf(st, a[0], ('text',)); return [(st, None)]
@lib(SB + '<init>(Ljava/lang/String;)')
def _(ex, st, a): setbuf(st, a[0], ('text',) + tuple(ex.chars(st, a[1]))); return [(st, None)]
@lib(SB + 'append(C)')
def _(ex, st, a): setbuf(st, a[0], buf(st, a[0]) + (t.trunc(a[1], 16),)); return [(st, a[0])]
@lib(SB + 'append(Ljava/lang/String;)')
def _(ex, st, a): setbuf(st, a[0], buf(st, a[0]) + tuple(ex.chars(st, a[1]))); return [(st, a[0])]
@lib(SB + 'reverse()')
def _(ex, st, a):
    v = buf(st, a[0]); setbuf(st, a[0], v[:1] + v[:0:-1]); return [(st, a[0])]
@lib(SB + 'toString()')
def _(ex, st, a): return [(st, ex.mkstring(st, list(buf(st, a[0])[1:])))]
@lib(SB + 'length()')
def _(ex, st, a): return [(st, c32(len(buf(st, a[0])) - 1))]
BO = 'java/io/ByteArrayOutputStream.'
@lib(BO + '<init>()')
def _(ex, st, a): setbuf(st, a[0], ('bytes',)); return [(st, None)]
@lib(BO + '<init>(I)')
def _(ex, st, a): setbuf(st, a[0], ('bytes',)); return [(st, None)]
@lib(BO + 'write(I)')
def _(ex, st, a): setbuf(st, a[0], buf(st, a[0]) + (t.trunc(a[1], 8),)); return [(st, None)]
@lib(BO + 'write([B)', BO + 'writeBytes([B)', 'java/io/OutputStream.write([B)')
def _(ex, st, a): setbuf(st, a[0], buf(st, a[0]) + tuple(ex.elems(st, a[1]))); return [(st, None)]
@lib(BO + 'write([BII)')
def _(ex, st, a):
    lo, n = conc(a[2], 'offset'), conc(a[3], 'length')
    setbuf(st, a[0], buf(st, a[0]) + tuple(ex.elems(st, a[1])[lo:lo + n])); return [(st, None)]
@lib(BO + 'size()')
def _(ex, st, a): return [(st, c32(len(buf(st, a[0])) - 1))]
@lib(BO + 'toByteArray()')
def _(ex, st, a):
    v = buf(st, a[0])[1:]
    return [(st, ex.new_array(st, 'B', len(v), 'bytes', vals=list(v)))]
