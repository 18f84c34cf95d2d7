"""Hash-consed bit-vector terms with a normalising constructor set.

Every term is a bit-vector of a fixed width w.  Booleans are width-1 vectors.
The constructors apply only equalities that hold for every valuation, so two
terms that become the same object denote the same function of the variables.
`evaluate` gives the reference semantics used to cross-check the constructors
(see selftest) and to replay models.
"""
import sys, hashlib
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'w', 'a', 'v', 'id', 'kz', 'iv', '__weakref__')
    def __repr__(self):
        return show(self, 4)

_tab = {}
_cnt = [0]

def _mk(op, w, a, v, kz=0):
    k = (op, w, tuple([x.id for x in a]), v)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.a = a; t.v = v; t.kz = kz; t.iv = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t

def M(w):
    return (1 << w) - 1

def reset():
    _tab.clear()
    _cc.clear()

_cc = {}
def const(v, w):
    k = (v, w)
    t = _cc.get(k)
    if t is None:
        v &= (1 << w) - 1
        t = _mk('const', w, (), v, ~v & M(w))
        _cc[k] = t
    return t

def true(): return const(1, 1)
def false(): return const(0, 1)
def boolc(b): return const(1 if b else 0, 1)
def isc(t): return t.op == 'const'

def var(name, w):
    return _mk('var', w, (), name)

_fresh = [0]
def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)

# ---------------------------------------------------------------- UF
UF_EVAL = {}      # name -> python function(*ints)->int, for evaluate()
def uf(name, w, *args):
    return _mk('uf', w, tuple(args), name)

def tab(values, ew, idx):
    """constant table lookup: values (tuple of ints of width ew), index term."""
    if isc(idx):
        if idx.v < len(values):
            return const(values[idx.v], ew)
        return fresh('oob', ew)
    kz = M(ew)
    for x in values: kz &= ~x
    return _mk('tab', ew, (idx,), tuple(values), kz)

# ---------------------------------------------------------------- structure
def parts(t):
    """list of parts, most significant first"""
    return t.a if t.op == 'concat' else (t,)

def concat(*ts):
    """most significant first"""
    # flatten
    l = []
    for t in ts:
        if t is None or t.w == 0: continue
        if t.op == 'concat': l.extend(t.a)
        else: l.append(t)
    return _concat(l)

def _concat(l):
    out = []
    for t in l:
        if out:
            p = out[-1]
            if p.op == 'const' and t.op == 'const':
                out[-1] = const((p.v << t.w) | t.v, p.w + t.w); continue
            m = _join(p, t)
            if m is not None:
                out[-1] = m; continue
        out.append(t)
    if len(out) == 1: return out[0]
    # lift a common if-then-else
    c = None
    for t in out:
        if t.op == 'ite':
            if c is None: c = t.a[0]
            elif c is not t.a[0]: c = False; break
        elif t.op != 'const' or True:
            if t.op == 'const' and False: continue
            c = False; break
    if c:
        return ite(c, _concat(_flat([t.a[1] for t in out])), _concat(_flat([t.a[2] for t in out])))
    w = 0; kz = 0
    for t in out:
        kz = (kz << t.w) | t.kz
        w += t.w
    return _mk('concat', w, tuple(out), None, kz)

def _flat(l):
    r = []
    for t in l:
        if t.op == 'concat': r.extend(t.a)
        else: r.append(t)
    return r

def _join(p, t):
    """p (more significant) directly above t: are they adjacent slices of one term?"""
    if p.op == 'extract' and t.op == 'extract' and p.a[0] is t.a[0] and p.v == t.v + t.w:
        return extract(p.a[0], p.v + p.w - 1, t.v)
    if p.op == 'extract' and p.v == t.w and p.a[0] is t.a and False:
        return None
    if p.op == 'extract' and t is extract_try(p.a[0], p.v - 1, p.v - t.w):
        # t is the (simplified) slice of the same base directly below
        return extract(p.a[0], p.v + p.w - 1, p.v - t.w)
    if t.op == 'extract' and t.v + t.w + p.w <= t.a[0].w and p.op in ('ite', 'xor', 'and', 'lin', 'mul'):
        if p is extract_try(t.a[0], t.v + t.w + p.w - 1, t.v + t.w):
            return extract(t.a[0], t.v + t.w + p.w - 1, t.v)
    return None

LAZY = [False]   # keep slices of sums and bitwise expressions as they are (hash functions: many rotations of the same word)
def extract_try(b, hi, lo):
    if lo < 0 or hi >= b.w or hi < lo: return None
    return extract(b, hi, lo)

def extract(t, hi, lo):
    w = hi - lo + 1
    if w == t.w: return t
    assert 0 <= lo <= hi < t.w, (hi, lo, t.w)
    op = t.op
    if op == 'const': return const(t.v >> lo, w)
    if (t.kz >> lo) & M(w) == M(w): return const(0, w)
    if op == 'extract': return extract(t.a[0], hi + t.v, lo + t.v)
    if op == 'concat':
        pos = 0; res = []
        for p in reversed(t.a):
            l = max(lo, pos); h = min(hi, pos + p.w - 1)
            if l <= h:
                res.append(extract(p, h - pos, l - pos))
            pos += p.w
            if pos > hi: break
        res.reverse()
        if len(res) == 1: return res[0]
        return concat(*res)
    if op == 'ite':
        return ite(t.a[0], extract(t.a[1], hi, lo), extract(t.a[2], hi, lo))
    if LAZY[0] and op in ('lin', 'and', 'xor', 'mul'):
        return _mk('extract', w, (t,), lo, (t.kz >> lo) & M(w))
    if op == 'lin' and hi == t.w - 1 and lo and not LAZY[0]:
        a, b = interval(t)
        if a >> lo == b >> lo: return const(a >> lo, w)
    if op == 'lin' and lo == 0:
        return lin([(c, extract(x, hi, 0)) for c, x in zip(t.v[0], t.a)], t.v[1], w)
    if op == 'mul' and lo == 0:
        return mul(extract(t.a[0], hi, 0), extract(t.a[1], hi, 0))
    if op == 'and':
        return and_(*[extract(x, hi, lo) for x in t.a])
    if op == 'xor':
        return xor(*[extract(x, hi, lo) for x in t.a])
    if op == 'orneg' and lo == t.w - 1:
        return ne(t.a[0], const(0, t.w))
    if op == 'tab' :
        return tab(tuple((x >> lo) & M(w) for x in t.v), w, t.a[0])
    # drop zero top part
    kzs = (t.kz >> lo) & M(w)
    n = 0
    while n < w and (kzs >> (w - 1 - n)) & 1: n += 1
    if n:
        return concat(const(0, n), extract(t, hi - n, lo))
    return _mk('extract', w, (t,), lo, kzs)

def zext(t, w):
    if w == t.w: return t
    assert w > t.w
    return concat(const(0, w - t.w), t)

def sext(t, w):
    if w == t.w: return t
    n = w - t.w
    s = extract(t, t.w - 1, t.w - 1)
    if isc(s): return concat(const(M(n) if s.v else 0, n), t)
    if t.w == 1: return ite(t, const(M(w), w), const(0, w))
    if t.op == 'ite': return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.op in ('lin', 'extract') and not LAZY[0]:
        a, b = interval(t); h = 1 << (t.w - 1)
        if -h < a < 0 and b < h - 1:
            return lin([(1, zext(lin([(1, t)], h, t.w), w))], -h, w)
    return concat(ite(s, const(M(n), n), const(0, n)), t)

def trunc(t, w):
    return extract(t, w - 1, 0)

# ---------------------------------------------------------------- linear
def lin(pairs, k, w):
    """sum coef*term + k (mod 2^w), canonical"""
    m = M(w); d = {}; k &= m
    stack = [(c & m, t) for c, t in pairs]
    while stack:
        c, t = stack.pop()
        if not c: continue
        op = t.op
        if op == 'const':
            k = (k + c * t.v) & m; continue
        if op == 'lin':
            k = (k + c * t.v[1]) & m
            for c2, x in zip(t.v[0], t.a):
                stack.append(((c * c2) & m, x))
            continue
        if op == 'concat':
            a = t.a
            if a[-1].op == 'const':
                lo = a[-1]
                if lo.v:
                    k = (k + c * lo.v) & m
                    t = concat(*a[:-1], const(0, lo.w))
                # c * (hi << n): coefficient only matters mod 2^(w-n); and x<<n with hi==extract low bits
                n = lo.w
                hi = extract(t, w - 1, n)
                # if this is (y << n) with y having at least w bits known: canonical as coefficient
                src = _shl_src(t, n, w)
                if src is not None:
                    stack.append(((c << n) & m, src)); continue
            elif a[0].op == 'const' and a[0].v:
                # 1..1 in the high part: subtract
                hi = a[0]
                k = (k + c * (hi.v << (w - hi.w))) & m
                stack.append((c, concat(const(0, hi.w), *a[1:]))); continue
        if op == 'ite' and t.a[1].op == 'const' and t.a[2].op == 'const':
            # ite(b,k1,k0) = k0 + (k1-k0)*zext(b)
            b = t.a[0]
            k = (k + c * t.a[2].v) & m
            cc = (c * (t.a[1].v - t.a[2].v)) & m
            if w == 1:
                x = b
            else:
                x = _mk('concat', w, (const(0, w - 1), b), None, m & ~1) if b.op != 'ite' else concat(const(0, w - 1), b)
            if x.op == 'ite':   # avoid loops
                d[x] = (d.get(x, 0) + cc) & m
                continue
            if cc:
                d[x] = (d.get(x, 0) + cc) & m
            continue
        d[t] = (d.get(t, 0) + c) & m
    # combine ites having the same condition
    ites = [t for t in d if t.op == 'ite' and d[t]]
    if len(ites) > 1:
        by = {}
        for t in ites: by.setdefault(t.a[0], []).append(t)
        for cnd, ts in by.items():
            if len(ts) > 1:
                x = lin([(d[t], t.a[1]) for t in ts], 0, w)
                y = lin([(d[t], t.a[2]) for t in ts], 0, w)
                for t in ts: del d[t]
                r = ite(cnd, x, y)
                return lin([(c, t) for t, c in d.items()] + [(1, r)], k, w)
    items = [(t, c) for t, c in d.items() if c]
    if not items: return const(k, w)
    if w == 1:
        # addition mod 2 is xor
        return xor(*([t for t, c in items] + ([const(1, 1)] if k & 1 else [])))
    if len(items) == 1:
        t, c = items[0]
        if c == 1:
            if k == 0: return t
            if k & ~t.kz == 0:
                return _orconst(t, k)
        # power of two multiples as shifts
        if k == 0 and c & (c - 1) == 0:
            n = c.bit_length() - 1
            return concat(extract(t, w - 1 - n, 0), const(0, n))
        if t.op == 'concat' and len(t.a) == 2 and t.a[1].w == 1 and isc(t.a[0]) and t.a[0].v == 0:
            b = t.a[1]
            return ite(b, const(c + k, w), const(k, w))
        if k == 0 and t.op == 'ite' :
            return ite(t.a[0], lin([(c, t.a[1])], 0, w), lin([(c, t.a[2])], 0, w))
    # terms with pairwise disjoint bits and unit coefficient: it is a concatenation
    if k == 0 or True:
        ok = True; acc = ~k & m
        for t, c in items:
            if c != 1 or (~t.kz & m) & ~acc: ok = False; break
            acc &= t.kz
        if ok and len(items) > 1:
            r = const(k, w)
            for t, c in items: r = _ordisj(r, t)
            return r
    items.sort(key=lambda p: p[0].id)
    tz = None
    for t, c in items:
        z = (c & -c).bit_length() - 1
        zz = 0; kz = t.kz
        while kz & 1: kz >>= 1; zz += 1
        tz = z + zz if tz is None else min(tz, z + zz)
    if k: tz = min(tz, (k & -k).bit_length() - 1)
    kz = M(min(tz, w)) if tz else 0
    # upper bound
    ub = k
    for t, c in items: ub += c * (~t.kz & m)
    if ub <= m:
        kz |= m & ~M(ub.bit_length())
    return _mk('lin', w, tuple(t for t, c in items), (tuple(c for t, c in items), k), kz)

def _shl_src(t, n, w):
    """t = concat(hi, 0_n) of width w.  If hi is the low slice of a term y of width w, return y."""
    a = t.a
    if len(a) == 2 and a[0].op == 'extract' and a[0].v == 0 and a[0].a[0].w == w:
        return a[0].a[0]
    return None

def _orconst(t, k):
    return _ordisj(t, const(k, t.w))

def _ordisj(x, y):
    """x|y where bits are disjoint (known-zero complementary) -> concat split at boundaries if possible"""
    if isc(x) and x.v == 0: return y
    if isc(y) and y.v == 0: return x
    w = x.w
    bs = sorted(set(_bounds(x)) | set(_bounds(y)) | {0, w})
    res = []
    ok = True
    for lo, hi in zip(bs, bs[1:]):
        a = extract(x, hi - 1, lo); b = extract(y, hi - 1, lo)
        if isc(a) and a.v == 0: res.append(b)
        elif isc(b) and b.v == 0: res.append(a)
        elif isc(a) and isc(b): res.append(const(a.v | b.v, a.w))
        else:
            ok = False; break
    if ok:
        res.reverse()
        return concat(*res)
    return None if False else _xor_raw([x, y])

def _bounds(t):
    """bit positions where the known-zero status changes / concat boundaries"""
    r = []
    if t.op == 'concat':
        p = 0
        for x in reversed(t.a):
            p += x.w; r.append(p)
    else:
        kz = t.kz; prev = None
        if kz:
            b = kz ^ (kz >> 1)
            i = 0
            while b:
                if b & 1: r.append(i + 1)
                b >>= 1; i += 1
        if t.op == 'const':
            pass
    return [x for x in r if 0 < x < t.w]

def add(*ts): return lin([(1, t) for t in ts], 0, ts[0].w)
def sub(a, b): return lin([(1, a), (-1, b)], 0, a.w)
def neg(a): return lin([(-1, a)], 0, a.w)

def mul(a, b):
    if isc(a): a, b = b, a
    if isc(b): return lin([(b.v, a)], 0, a.w)
    if a.w == 1: return and_(a, b)
    if b.id < a.id: a, b = b, a
    w = a.w
    for x, y in ((a, b), (b, a)):
        if x.op == 'concat' and len(x.a) == 2 and x.a[1].w == 1 and isc(x.a[0]) and x.a[0].v == 0:
            return ite(x.a[1], y, const(0, w))
        if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
            return ite(x.a[0], mul(x.a[1], y), mul(x.a[2], y))
    ub = (~a.kz & M(w)) * (~b.kz & M(w))
    kz = M(w) & ~M(ub.bit_length()) if ub <= M(w) else 0
    return _mk('mul', w, (a, b), None, kz)

# ---------------------------------------------------------------- bitwise (algebraic normal form)
ANF_LIMIT = 6

def not_(a):
    return xor(a, const(M(a.w), a.w))

def _xor_raw(ts):
    ts = sorted(ts, key=lambda t: t.id)
    w = ts[0].w
    kz = M(w)
    for t in ts: kz &= t.kz
    return _mk('xor', w, tuple(ts), None, kz)

def xor(*ts):
    w = ts[0].w
    k = 0; d = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        op = t.op
        if op == 'const': k ^= t.v
        elif op == 'xor': stack.extend(t.a)
        else:
            if t in d: del d[t]
            else: d[t] = 1
    if not d: return const(k, w)
    if len(d) == 1:
        t = next(iter(d))
        if k == 0: return t
        if t.op == 'ite':
            return ite(t.a[0], xor(t.a[1], const(k, w)), xor(t.a[2], const(k, w)))
        if t.op == 'concat':
            res = []; pos = w
            for p in t.a:
                pos -= p.w
                res.append(xor(p, const(k >> pos, p.w)))
            return concat(*res)
        if k & ~t.kz == 0: return _ordisj(t, const(k, w))
        return _xor_raw([t, const(k, w)])
    items = list(d)
    ites = [t for t in items if t.op == 'ite']
    if len(ites) > 1:
        by = {}
        for t in ites: by.setdefault(t.a[0], []).append(t)
        for cnd, l in by.items():
            if len(l) > 1:
                rest = [t for t in items if t not in l]
                r = ite(cnd, xor(*[t.a[1] for t in l]), xor(*[t.a[2] for t in l]))
                return xor(*(rest + [r, const(k, w)]))
    # merge operands with disjoint support
    part = [t for t in items if t.kz and t.op == 'concat']
    if len(part) > 1:
        for i in range(len(part)):
            for j in range(i + 1, len(part)):
                x, y = part[i], part[j]
                if (~x.kz & M(w)) & (~y.kz & M(w)) == 0:
                    rest = [t for t in items if t is not x and t is not y]
                    z = _ordisj(x, y)
                    if z.op != 'xor':
                        return xor(*(rest + [z, const(k, w)]))
    # all operands concatenations (or constants) with a common boundary: split
    if all(t.op == 'concat' for t in items):
        bs = None
        for t in items:
            b = set(_bounds(t))
            bs = b if bs is None else bs & b
        if bs:
            bb = sorted(bs | {0, w}); res = []
            for lo, hi in zip(bb, bb[1:]):
                res.append(xor(*([extract(t, hi - 1, lo) for t in items] + [const(k >> lo, hi - lo)])))
            res.reverse()
            return concat(*res)
    # known-zero common part
    kz = M(w)
    for t in items: kz &= t.kz
    if kz and k & kz == 0:
        hi = w
        n = 0
        while n < w and (kz >> (w - 1 - n)) & 1: n += 1
        m = 0
        while m < w - n and (kz >> m) & 1: m += 1
        if n or m:
            mid = xor(*([extract(t, w - 1 - n, m) for t in items] + [const(k >> m, w - n - m)]))
            return concat(const(0, n) if n else None, mid, const(0, m) if m else None)
    if k: items.append(const(k, w))
    return _xor_raw(items)

def and_(*ts):
    w = ts[0].w
    k = M(w); d = {}
    stack = list(ts)
    xs = []
    while stack:
        t = stack.pop()
        op = t.op
        if op == 'const': k &= t.v
        elif op == 'and': stack.extend(t.a)
        else: d[t] = 1
    if k == 0: return const(0, w)
    if not d: return const(k, w)
    items = list(d)
    # ite masks
    for t in items:
        if t.op == 'ite' and w > 1:
            a, b = t.a[1], t.a[2]
            if isc(a) and isc(b) and {a.v, b.v} == {0, M(w)}:
                rest = [x for x in items if x is not t]
                r = and_(*(rest + [const(k, w)])) if rest else const(k, w)
                z = const(0, w)
                return ite(t.a[0], r, z) if a.v else ite(t.a[0], z, r)
    ites = [t for t in items if t.op == 'ite']
    if len(ites) > 1:
        by = {}
        for t in ites: by.setdefault(t.a[0], []).append(t)
        for cnd, l in by.items():
            if len(l) > 1:
                rest = [t for t in items if t not in l]
                r = ite(cnd, and_(*[t.a[1] for t in l]), and_(*[t.a[2] for t in l]))
                return and_(*(rest + [r, const(k, w)]))
    # constant masks and known zeros: split into runs
    kz = ~k & M(w)
    for t in items: kz |= t.kz
    if kz == M(w): return const(0, w)
    if kz:
        runs = []
        i = 0
        while i < w:
            b = (kz >> i) & 1; j = i
            while j < w and (kz >> j) & 1 == b: j += 1
            runs.append((i, j, b)); i = j
        if len(runs) <= 9:
            res = []
            for lo, hi, b in runs:
                if b: res.append(const(0, hi - lo))
                else: res.append(and_(*[extract(t, hi - 1, lo) for t in items]))
            res.reverse()
            return concat(*res)
        items.append(const(k, w)) if k != M(w) else None
        return _and_raw(items)
    if len(items) == 1: return items[0]
    # x & ~x
    # distribute over small xors (algebraic normal form)
    mons = None
    n = 1
    for t in items:
        if t.op == 'xor': n *= len(t.a)
    if 1 < n <= ANF_LIMIT:
        acc = [[]]
        for t in items:
            if t.op == 'xor': acc = [m + [x] for m in acc for x in t.a]
            else: acc = [m + [t] for m in acc]
        return xor(*[and_(*m) for m in acc])
    # eq(x,c1) & eq(x,c2)
    if w == 1:
        seen = {}
        for t in items:
            if t.op == 'eq' and isc(t.a[1]):
                o = seen.get(t.a[0])
                if o is not None and o is not t.a[1]: return const(0, 1)
                seen[t.a[0]] = t.a[1]
    if n > 1:
        # complement pair
        s = set(items)
        for t in items:
            if t.op == 'xor':
                if xor(t, const(M(w), w)) in s: return const(0, w)
    return _and_raw(items)

def _and_raw(items):
    items.sort(key=lambda t: t.id)
    kz = 0
    for t in items: kz |= t.kz
    return _mk('and', items[0].w, tuple(items), None, kz)

def or_(a, b, *more):
    if more: return or_(or_(a, b), *more)
    w = a.w
    if a is b: return a
    if isc(a): a, b = b, a
    if isc(b):
        if b.v == 0: return a
        if b.v == M(w): return b
        if isc(a): return const(a.v | b.v, w)
    if (~a.kz & M(w)) & (~b.kz & M(w)) == 0:
        r = _ordisj(a, b)
        if r.op != 'xor': return r
    if w > 1 and (neg(a) is b):
        if b.op in ('lin',) and not (a.op == 'lin' and b.id > a.id and False): pass
        x = a if _simpler(a, b) else b
        return _mk('orneg', w, (x,), None, 0)
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], or_(a.a[1], b.a[1]), or_(a.a[2], b.a[2]))
    if w > 1:
        # fully masked operands
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
                return ite(x.a[0], or_(x.a[1], y), or_(x.a[2], y))
        if (a.op == 'concat' or b.op == 'concat') :
            ba, bb_ = set(_bounds(a)), set(_bounds(b))
            bs = ba & bb_
            if isc(b): bs = ba
            for x in (a, b):
                kz = x.kz
            if bs:
                bb = sorted(bs | {0, w})
                return concat(*[or_(extract(a, hi - 1, lo), extract(b, hi - 1, lo)) for lo, hi in reversed(list(zip(bb, bb[1:])))])
    return xor(a, b, and_(a, b))

def _simpler(a, b):
    # choose the argument whose linear form has coefficient 1 / is not linear
    if a.op != 'lin' and b.op == 'lin': return True
    if b.op != 'lin' and a.op == 'lin': return False
    return a.id < b.id

def shl(a, n):
    if isc(n):
        n = n.v
        if n == 0: return a
        if n >= a.w: return const(0, a.w)
        return concat(extract(a, a.w - 1 - n, 0), const(0, n))
    return _mk('shl', a.w, (a, n), None)

def lshr(a, n):
    if isc(n):
        n = n.v
        if n == 0: return a
        if n >= a.w: return const(0, a.w)
        return concat(const(0, n), extract(a, a.w - 1, n))
    return _mk('lshr', a.w, (a, n), None)

def ashr(a, n):
    if isc(n):
        n = n.v
        if n == 0: return a
        n = min(n, a.w - 1)
        return sext(extract(a, a.w - 1, n), a.w)
    return _mk('ashr', a.w, (a, n), None)

def rotl(a, n):
    n %= a.w
    if n == 0: return a
    return concat(extract(a, a.w - 1 - n, 0), extract(a, a.w - 1, a.w - n))
def rotr(a, n): return rotl(a, (-n) % a.w)

# ---------------------------------------------------------------- ite / predicates
def ite(c, a, b):
    if isc(c): return a if c.v else b
    if a is b: return a
    if c.op == 'xor' and c.a and any(isc(x) for x in c.a):
        return ite(not_(c), b, a)
    w = a.w
    if w == 1:
        if isc(a) and isc(b): return c if a.v else not_(c)
        if isc(a): return or_(c, b) if a.v else and_(not_(c), b)
        if isc(b): return or_(not_(c), a) if b.v else and_(c, a)
        return xor(and_(c, xor(a, b)), b)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if isc(a) and isc(b):
        if a.v == 1 and b.v == 0: return concat(const(0, w - 1), c)
        if a.v == 0 and b.v == 1: return concat(const(0, w - 1), not_(c))
    return _mk('ite', w, (c, a, b), None, a.kz & b.kz)

def eq(a, b):
    if a is b: return true()
    if isc(a) and isc(b): return boolc(a.v == b.v)
    w = a.w
    if isc(a): a, b = b, a
    if w == 1: return not_(xor(a, b))
    if isc(b):
        if b.v & a.kz: return false()
        op = a.op
        if op == 'concat':
            h = a.a[0]
            if h.op == 'ite' and isc(h.a[1]) and isc(h.a[2]) and h.a[1].v == M(h.w) and h.a[2].v == 0:
                lo = concat(*a.a[1:])
                if h.a[0] is extract(lo, lo.w - 1, lo.w - 1):      # sign extension of lo
                    k = b.v & M(lo.w)
                    return eq(lo, const(k, lo.w)) if b.v >> lo.w == (M(h.w) if k >> (lo.w - 1) else 0) else false()
            pos = w; r = []
            for p in a.a:
                pos -= p.w
                r.append(eq(p, const(b.v >> pos, p.w)))
            if len([x for x in r if not isc(x)]) <= 8 or True:
                return and_(*r)
        if op == 'ite':
            x, y = a.a[1], a.a[2]
            if isc(x) or isc(y):
                return ite(a.a[0], eq(x, b), eq(y, b))
        if op == 'xor':
            ks = [x for x in a.a if isc(x)]
            if ks:
                return eq(xor(a, ks[0]), const(b.v ^ ks[0].v, w))
            if b.v == 0 and len(a.a) == 2: return eq(a.a[0], a.a[1])
            if b.v == 0 and len(a.a) > 2:
                for c in a.a:       # x | y is kept as x ^ y ^ (x & y)
                    if c.op == 'and' and len(c.a) == 2 and xor(*[x for x in a.a if x is not c]) is xor(c.a[0], c.a[1]):
                        z = const(0, w); return and_(eq(c.a[0], z), eq(c.a[1], z))
        if op == 'lin':
            if a.v[1]:
                return eq(lin(list(zip(a.v[0], a.a)), 0, w), const(b.v - a.v[1], w))
            if len(a.a) == 1 and a.v[0][0] & 1:
                inv = pow(a.v[0][0], -1, 1 << w)
                return eq(a.a[0], const(b.v * inv, w))
            if len(a.a) == 2 and b.v == 0 and set(a.v[0]) == {1, M(w)}:
                return eq(a.a[0], a.a[1])
        if op == 'extract' and False: pass
        return _mk('eq', 1, (a, b), None, 0)
    if a.op == 'concat' and b.op == 'concat':
        ba, bb = set(_bounds(a)), set(_bounds(b))
        bs = sorted((ba & bb) | {0, w})
        if len(bs) > 2:
            r = [eq(extract(a, hi - 1, lo), extract(b, hi - 1, lo)) for lo, hi in zip(bs, bs[1:])]
            if any(isc(x) for x in r):
                return and_(*r)
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
    d = lin([(1, a), (-1, b)], 0, w) if (a.op == 'lin' or b.op == 'lin') else None
    if d is not None:
        if isc(d): return boolc(d.v == 0)
        if d.op != 'lin' or len(d.a) + (1 if d.v[1] else 0) < 2: return eq(d, const(0, w))
        if d.v[1] and len(d.a) == 1: return eq(d, const(0, w))
    if b.id < a.id: a, b = b, a
    return _mk('eq', 1, (a, b), None, 0)

def ne(a, b): return not_(eq(a, b))

def umin(t):
    if t.op == 'const': return t.v
    if t.op == 'concat':
        r = 0
        for p in t.a: r = (r << p.w) | umin(p)
        return r
    return 0
def umax(t):
    if t.op == 'ite': return max(umax(t.a[1]), umax(t.a[2]))
    if t.op == 'concat':
        r = 0
        for p in t.a: r = (r << p.w) | umax(p)
        return r
    if t.op == 'urem' and isc(t.a[1]) and t.a[1].v: return min(t.a[1].v - 1, umax(t.a[0]))
    if t.op == 'udiv' and isc(t.a[1]) and t.a[1].v: return umax(t.a[0]) // t.a[1].v
    if t.op == 'tab': return max(t.v)
    return ~t.kz & M(t.w)

def _ivnorm(lo, hi, w):
    if (hi - lo) >> w: return (0, M(w))
    s = lo >> w
    lo -= s << w; hi -= s << w
    if hi >> w: lo -= 1 << w; hi -= 1 << w
    return (lo, hi)

def interval(t):
    """(lo, hi) such that the value of t is congruent modulo 2^w to an integer in [lo, hi]"""
    if t.iv is not None: return t.iv
    st = [t]
    while st:
        x = st[-1]
        if x.iv is not None: st.pop(); continue
        if x.op in ('lin', 'extract', 'concat', 'ite', 'mul'):
            todo = [y for y in (x.a[1:] if x.op == 'ite' else x.a) if y.iv is None]
            if todo: st.extend(todo); continue
        x.iv = _iv(x); st.pop()
    return t.iv

def _iv(x):
    op = x.op; w = x.w
    if op == 'const': return (x.v, x.v)
    um = umax(x); lo = None
    if op == 'lin':
        lo = hi = sgn(x.v[1], w)
        for c, y in zip(x.v[0], x.a):
            c = sgn(c, w); a, b = y.iv
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
        lo, hi = _ivnorm(lo, hi, w)
    elif op == 'extract':
        a, b = x.a[0].iv
        lo, hi = _ivnorm(a >> x.v, b >> x.v, w)
    elif op == 'concat':
        lo = hi = 0
        for y in x.a:
            a, b = y.iv if y.iv[0] >= 0 else (0, umax(y))
            lo = (lo << y.w) + a; hi = (hi << y.w) + b
    elif op == 'ite':
        (a, b), (c, d) = x.a[1].iv, x.a[2].iv
        lo, hi = _ivnorm(min(a, c), max(b, d), w)
    elif op == 'mul':
        (a, b), (c, d) = x.a[0].iv, x.a[1].iv
        v = (a * c, a * d, b * c, b * d)
        lo, hi = _ivnorm(min(v), max(v), w)
    else: return (0, um)
    if lo >= 0: hi = min(hi, um)
    elif hi - lo > um: lo, hi = 0, um
    return (lo, hi)

def ult(a, b):
    if a is b: return false()
    if isc(a) and isc(b): return boolc(a.v < b.v)
    w = a.w
    if umax(a) < umin(b): return true()
    if umin(a) >= umax(b): return false()
    if w > 1 and not LAZY[0] and (a.op == 'lin' or b.op == 'lin'):
        (al, ah), (bl, bh) = interval(a), interval(b)
        if al >= 0 and bl >= 0:
            if ah < bl: return true()
            if al >= bh: return false()
    if w == 1: return and_(not_(a), b)
    if isc(b) and b.v == 1: return eq(a, const(0, w))
    if isc(a) and a.v == 0: return ne(b, a)
    # strip common known-zero top
    n = 0
    kz = a.kz & b.kz
    while n < w - 1 and (kz >> (w - 1 - n)) & 1: n += 1
    if n: return ult(extract(a, w - 1 - n, 0), extract(b, w - 1 - n, 0))
    if a.op == 'ite' and isc(b) and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if isc(b) and b.v == M(w): return ne(a, b)
    # compare with a power of two: top bits zero
    if isc(b) and b.v & (b.v - 1) == 0:
        n = b.v.bit_length() - 1
        return eq(extract(a, w - 1, n), const(0, w - n))
    return _mk('ult', 1, (a, b), None, 0)
def ule(a, b): return not_(ult(b, a))

def slt(a, b):
    if a is b: return false()
    w = a.w
    sa = extract(a, w - 1, w - 1); sb = extract(b, w - 1, w - 1)
    if isc(sa) and isc(sb):
        if sa.v != sb.v: return boolc(sa.v)
        return ult(a, b)
    if isc(b) and b.v == 0: return sa
    if isc(a) and a.v == M(w): return not_(sb)     # -1 < b  <=> b >= 0
    for x, y, f in ((a, b, lambda p: slt(p, b)), (b, a, lambda p: slt(a, p))):
        if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]) and isc(y):
            return ite(x.a[0], f(x.a[1]), f(x.a[2]))
    return _mk('slt', 1, (a, b), None, 0)
def sle(a, b): return not_(slt(b, a))

def udiv(a, b):
    w = a.w
    if isc(b) and b.v:
        if isc(a): return const(a.v // b.v, w)
        if b.v & (b.v - 1) == 0:
            return lshr(a, const(b.v.bit_length() - 1, w))
        if umax(a) < b.v: return const(0, w)
        n = 0
        while n < w - 1 and (a.kz >> (w - 1 - n)) & 1: n += 1
        if n and (w - n) >= b.v.bit_length():
            return concat(const(0, n), udiv(extract(a, w - 1 - n, 0), const(b.v, w - n)))
        ub = umax(a) // b.v
        return _mk('udiv', w, (a, b), None, M(w) & ~M(ub.bit_length()))
    return _mk('udiv', w, (a, b), None, 0)

def urem(a, b):
    w = a.w
    if isc(b) and b.v:
        if isc(a): return const(a.v % b.v, w)
        if b.v & (b.v - 1) == 0:
            n = b.v.bit_length() - 1
            return zext(extract(a, n - 1, 0), w) if n else const(0, w)
        if umax(a) < b.v: return a
        n = 0
        while n < w - 1 and (a.kz >> (w - 1 - n)) & 1: n += 1
        if n and (w - n) >= b.v.bit_length():
            return concat(const(0, n), urem(extract(a, w - 1 - n, 0), const(b.v, w - n)))
        return _mk('urem', w, (a, b), None, M(w) & ~M((b.v - 1).bit_length()))
    return _mk('urem', w, (a, b), None, 0)

def sdiv(a, b):
    w = a.w
    sa = extract(a, w - 1, w - 1); sb = extract(b, w - 1, w - 1)
    if isc(sa) and isc(sb):
        x = neg(a) if sa.v else a
        y = neg(b) if sb.v else b
        r = udiv(x, y)
        return neg(r) if sa.v != sb.v else r
    return _mk('sdiv', w, (a, b), None, 0)

def srem(a, b):
    w = a.w
    sa = extract(a, w - 1, w - 1); sb = extract(b, w - 1, w - 1)
    if isc(sa) and isc(sb):
        x = neg(a) if sa.v else a
        y = neg(b) if sb.v else b
        r = urem(x, y)
        return neg(r) if sa.v else r
    return _mk('srem', w, (a, b), None, 0)

# ---------------------------------------------------------------- evaluation
def topo(roots):
    seen = set(); out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for x in t.a:
            if x.id not in seen: st.append((x, False))
    return out

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class NoEval(Exception): pass

def evaluate(roots, env, memo=None, default=None):
    """env: name->int for vars (or callable).  Returns list of ints."""
    memo = {} if memo is None else memo
    for t in topo([r for r in roots if r.id not in memo]):
        i = t.id
        if i in memo: continue
        op = t.op; a = t.a; w = t.w
        if op == 'const': r = t.v
        elif op == 'var':
            if t.v in env: r = env[t.v]
            elif default is not None: r = default(t)
            else: raise NoEval(t.v)
            r &= M(w)
        elif op == 'uf':
            f = UF_EVAL.get(t.v)
            if f is None:
                if default is not None and getattr(default, 'ufs', False):
                    h = hashlib.sha256(repr((t.v, w, [memo[x.id] for x in a])).encode()).digest() * (w // 256 + 1)
                    r = int.from_bytes(h, 'big') & M(w)
                else: raise NoEval('uf ' + t.v)
            else: r = f(*[memo[x.id] for x in a]) & M(w)
        elif op == 'concat':
            r = 0
            for x in a: r = (r << x.w) | memo[x.id]
        elif op == 'extract': r = (memo[a[0].id] >> t.v) & M(w)
        elif op == 'lin':
            r = t.v[1]
            for c, x in zip(t.v[0], a): r += c * memo[x.id]
            r &= M(w)
        elif op == 'mul': r = (memo[a[0].id] * memo[a[1].id]) & M(w)
        elif op == 'xor':
            r = 0
            for x in a: r ^= memo[x.id]
        elif op == 'and':
            r = M(w)
            for x in a: r &= memo[x.id]
        elif op == 'orneg':
            x = memo[a[0].id]; r = (x | -x) & M(w)
        elif op == 'ite': r = memo[a[1].id] if memo[a[0].id] else memo[a[2].id]
        elif op == 'eq': r = int(memo[a[0].id] == memo[a[1].id])
        elif op == 'ult': r = int(memo[a[0].id] < memo[a[1].id])
        elif op == 'slt': r = int(sgn(memo[a[0].id], a[0].w) < sgn(memo[a[1].id], a[1].w))
        elif op == 'tab':
            x = memo[a[0].id]
            r = t.v[x] if x < len(t.v) else 0
        elif op == 'shl':
            n = memo[a[1].id]; r = (memo[a[0].id] << n) & M(w) if n < w else 0
        elif op == 'lshr':
            n = memo[a[1].id]; r = memo[a[0].id] >> n if n < w else 0
        elif op == 'ashr':
            n = min(memo[a[1].id], w - 1); r = (sgn(memo[a[0].id], w) >> n) & M(w)
        elif op == 'udiv':
            y = memo[a[1].id]; r = memo[a[0].id] // y if y else M(w)
        elif op == 'urem':
            y = memo[a[1].id]; r = memo[a[0].id] % y if y else memo[a[0].id]
        elif op in ('sdiv', 'srem'):
            x = sgn(memo[a[0].id], w); y = sgn(memo[a[1].id], w)
            if y == 0: r = (M(w) if x >= 0 else 1) if op == 'sdiv' else x & M(w)
            else:
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                r = (q if op == 'sdiv' else x - q * y) & M(w)
        else: raise NoEval(op)
        memo[i] = r
    return [memo[r.id] for r in roots]

def subst(roots, m):
    """substitute terms: m maps T -> T (same width); rebuilt through the constructors"""
    memo = {k.id: v for k, v in m.items()}
    for t in topo(roots):
        if t.id in memo: continue
        memo[t.id] = rebuild(t, [memo[x.id] for x in t.a]) if t.a else t
    return [memo[r.id] for r in roots]

def rebuild(t, a):
    if all(x is y for x, y in zip(t.a, a)): return t
    op = t.op
    if op == 'concat': return concat(*a)
    if op == 'extract': return extract(a[0], t.v + t.w - 1, t.v)
    if op == 'lin': return lin(list(zip(t.v[0], a)), t.v[1], t.w)
    if op == 'mul': return mul(*a)
    if op == 'xor': return xor(*a)
    if op == 'and': return and_(*a)
    if op == 'ite': return ite(*a)
    if op == 'eq': return eq(*a)
    if op == 'ult': return ult(*a)
    if op == 'slt': return slt(*a)
    if op == 'tab': return tab(t.v, t.w, a[0])
    if op == 'uf': return uf(t.v, t.w, *a)
    if op == 'orneg': return or_(a[0], neg(a[0]))
    if op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        return globals()[op](*a)
    raise Exception(op)

def show(t, depth=6):
    if t.op == 'const': return ('%d' % t.v if t.v < 1000 else hex(t.v)) + ':%d' % t.w
    if t.op == 'var': return t.v
    if depth == 0: return '#%d' % t.id
    s = lambda x: show(x, depth - 1)
    if t.op == 'extract': return '%s[%d:%d]' % (s(t.a[0]), t.v + t.w - 1, t.v)
    if t.op == 'concat': return '{' + ','.join(map(s, t.a)) + '}'
    if t.op == 'lin':
        r = []
        for c, x in zip(t.v[0], t.a):
            c = c - (1 << t.w) if c >> (t.w - 1) else c
            r.append(('' if c == 1 else '%d*' % c) + s(x))
        if t.v[1]: r.append(str(t.v[1] - (1 << t.w) if t.v[1] >> (t.w - 1) else t.v[1]))
        return '(' + ' + '.join(r) + ')'
    if t.op == 'uf': return '%s(%s)' % (t.v, ', '.join(map(s, t.a)))
    if t.op == 'tab': return 'tab[%s]' % s(t.a[0])
    return '%s(%s)' % (t.op, ', '.join(map(s, t.a)))

# ---------------------------------------------------------------- z3
def to_z3(roots, memo=None, ctx=None):
    import z3
    memo = {} if memo is None else memo
    def B(x): return x == z3.BitVecVal(1, 1)
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    for t in topo(roots):
        if t.id in memo: continue
        op = t.op; a = [memo[x.id] for x in t.a]; w = t.w
        if op == 'const': r = z3.BitVecVal(t.v, w)
        elif op == 'var': r = z3.BitVec(t.v, w)
        elif op == 'uf':
            f = z3.Function('%s/%d' % (t.v, w), *[z3.BitVecSort(x.w) for x in t.a], z3.BitVecSort(w)) if a else None
            r = f(*a) if a else z3.BitVec('uf_%s' % t.v, w)
        elif op == 'concat': r = z3.Concat(*a)
        elif op == 'extract': r = z3.Extract(t.v + w - 1, t.v, a[0])
        elif op == 'lin':
            r = None
            for c, x in zip(t.v[0], a):
                if c == 1: y = x
                else: y = x * z3.BitVecVal(c, w)
                if c == M(w) and r is not None: r = r - x; continue
                r = y if r is None else r + y
            if t.v[1]: r = r + z3.BitVecVal(t.v[1], w)
        elif op == 'mul': r = a[0] * a[1]
        elif op == 'xor':
            r = a[0]
            for x in a[1:]: r = r ^ x
        elif op == 'and':
            r = a[0]
            for x in a[1:]: r = r & x
        elif op == 'orneg': r = a[0] | -a[0]
        elif op == 'ite': r = z3.If(B(a[0]), a[1], a[2])
        elif op == 'eq': r = z3.If(a[0] == a[1], one, zero)
        elif op == 'ult': r = z3.If(z3.ULT(a[0], a[1]), one, zero)
        elif op == 'slt': r = z3.If(a[0] < a[1], one, zero)
        elif op == 'shl': r = a[0] << a[1]
        elif op == 'lshr': r = z3.LShR(a[0], a[1])
        elif op == 'ashr': r = a[0] >> a[1]
        elif op == 'udiv': r = z3.UDiv(a[0], a[1])
        elif op == 'urem': r = z3.URem(a[0], a[1])
        elif op == 'sdiv': r = a[0] / a[1]
        elif op == 'srem': r = z3.SRem(a[0], a[1])
        elif op == 'tab':
            r = z3.BitVecVal(0, w)
            iw = t.a[0].w
            for i in range(len(t.v) - 1, -1, -1):
                r = z3.If(a[0] == z3.BitVecVal(i, iw), z3.BitVecVal(t.v[i], w), r)
        else: raise Exception('z3 ' + op)
        memo[t.id] = r
    return [memo[r.id] for r in roots]
