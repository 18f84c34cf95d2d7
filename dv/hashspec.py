"""Independent term-level definitions of the hash compression functions (FIPS 180-4, RIPEMD-160, Keccak-f[1600]).
Constants are computed from their definitions (roots of primes, LFSR), not copied from /repo."""
from dv import terms as t

def primes(n):
    r = []; k = 2
    while len(r) < n:
        if all(k % p for p in r if p * p <= k): r.append(k)
        k += 1
    return r
def iroot(k, n):
    lo, hi = 0, 1
    while hi ** k <= n: hi *= 2
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def frac_root(k, p, bits): return iroot(k, p << (k * bits)) & ((1 << bits) - 1)
K256 = [frac_root(3, p, 32) for p in primes(64)]
K512 = [frac_root(3, p, 64) for p in primes(80)]
H256 = [frac_root(2, p, 32) for p in primes(8)]
H512 = [frac_root(2, p, 64) for p in primes(8)]

def be_words(block, w):
    n = w // 8
    return [t.concat(*block[i:i + n]) for i in range(0, len(block), n)]
def sha2(state, block, w, rounds, K, S0, S1, s0, s1):
    """state: 8 words, block: byte terms"""
    W = be_words(block, w)
    R = t.rotr
    def sig(x, p): return t.xor(R(x, p[0]), R(x, p[1]), t.lshr(x, t.const(p[2], w)))
    def SIG(x, p): return t.xor(*[R(x, k) for k in p])
    for i in range(16, rounds):
        W.append(t.add(sig(W[i - 2], s1), W[i - 7], sig(W[i - 15], s0), W[i - 16]))
    a, b, c, d, e, f, g, h = state
    for i in range(rounds):
        ch = t.xor(t.and_(e, f), t.and_(t.not_(e), g))
        maj = t.xor(t.and_(a, b), t.and_(a, c), t.and_(b, c))
        t1 = t.add(h, SIG(e, S1), ch, t.const(K[i], w), W[i])
        t2 = t.add(SIG(a, S0), maj)
        h, g, f, e, d, c, b, a = g, f, e, t.add(d, t1), c, b, a, t.add(t1, t2)
    return [t.add(x, y) for x, y in zip(state, (a, b, c, d, e, f, g, h))]
def sha256_compress(state, block): return sha2(state, block, 32, 64, K256, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))
def sha512_compress(state, block): return sha2(state, block, 64, 80, K512, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))

# RIPEMD-160: message permutation rho, pi(i) = 9 i + 5 mod 16; shift amounts per round and message word
RHO = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
def _perms():
    l = list(range(16)); r = [(9 * i + 5) % 16 for i in range(16)]
    L, R = [], []
    for k in range(5):
        L.append(l); R.append(r)
        l = [RHO[x] for x in l]; r = [RHO[x] for x in r]
    return L, R
RML, RMR = _perms()
SHIFT = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],      # shift of message word x in round k, both lines
         [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
         [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
         [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
         [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
RKL = [0] + [iroot(2, p << 60) for p in (2, 3, 5, 7)]
RKR = [iroot(3, p << 90) for p in (2, 3, 5, 7)] + [0]
RIV = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
def rf(k, x, y, z):
    n = t.not_
    return (lambda: t.xor(x, y, z), lambda: t.or_(t.and_(x, y), t.and_(n(x), z)), lambda: t.xor(t.or_(x, n(y)), z),
            lambda: t.or_(t.and_(x, z), t.and_(y, n(z))), lambda: t.xor(x, t.or_(y, n(z))))[k]()
def ripemd_compress(state, block):
    X = [t.concat(*reversed(block[4 * i:4 * i + 4])) for i in range(16)]
    def line(perm, K, order):
        A, B, C, D, E = state
        for k in range(5):
            for j in range(16):
                m = perm[k][j]
                T = t.add(t.rotl(t.add(A, rf(order[k], B, C, D), X[m], t.const(K[k], 32)), SHIFT[k][m]), E)
                A, E, D, C, B = E, D, t.rotl(C, 10), B, T
        return A, B, C, D, E
    a, b, c, d, e = line(RML, RKL, (0, 1, 2, 3, 4)); A, B, C, D, E = line(RMR, RKR, (4, 3, 2, 1, 0))
    h = state
    return [t.add(h[1], c, D), t.add(h[2], d, E), t.add(h[3], e, A), t.add(h[4], a, B), t.add(h[0], b, C)]

# Keccak-f[1600]; lane (x, y) at index x + 5 y
def _keccak_consts():
    rot = {(0, 0): 0}; x, y = 1, 0
    for k in range(24):
        rot[(x, y)] = (k + 1) * (k + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    rc = []; r = 1
    for i in range(24):
        v = 0
        for j in range(7):
            if r & 1: v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r >> 7 else 0)
        rc.append(v)
    return rot, rc
KROT, KRC = _keccak_consts()
def keccak_round(A, i):
    """A: dict (x, y) -> lane"""
    C = [t.xor(*[A[x, y] for y in range(5)]) for x in range(5)]
    D = [t.xor(C[(x - 1) % 5], t.rotl(C[(x + 1) % 5], 1)) for x in range(5)]
    B = {}
    for x in range(5):
        for y in range(5): B[y, (2 * x + 3 * y) % 5] = t.rotl(t.xor(A[x, y], D[x]), KROT[x, y])
    A = {(x, y): t.xor(B[x, y], t.and_(t.not_(B[(x + 1) % 5, y]), B[(x + 2) % 5, y])) for x in range(5) for y in range(5)}
    A[0, 0] = t.xor(A[0, 0], t.const(KRC[i], 64))
    return A
def keccak_f(A):
    for i in range(24): A = keccak_round(A, i)
    return A

def selftest():
    """the definitions above evaluated on constants against hashlib / the reference oracle"""
    import hashlib, random
    from dv import oracle
    r = random.Random(5)
    old = t.LAZY[0]
    for n in (0, 3, 55, 56, 64, 111, 112, 119, 127, 128, 135, 136, 200):
        m = r.randbytes(n)
        def pad(B, lb, be=True):
            p = m + b'\x80'; p += bytes(-(len(p) + lb) % B)
            return p + (8 * n).to_bytes(lb, 'big' if be else 'little')
        def fold(f, iv, w, B, p):
            s = [t.const(x, w) for x in iv]
            for i in range(0, len(p), B): s = f(s, [t.const(x, 8) for x in p[i:i + B]])
            return [x.v for x in s]
        assert b''.join(x.to_bytes(4, 'big') for x in fold(sha256_compress, H256, 32, 64, pad(64, 8))) == hashlib.sha256(m).digest()
        assert b''.join(x.to_bytes(8, 'big') for x in fold(sha512_compress, H512, 64, 128, pad(128, 16))) == hashlib.sha512(m).digest()
        assert b''.join(x.to_bytes(4, 'little') for x in fold(ripemd_compress, RIV, 32, 64, pad(64, 8, False))) == oracle.ripemd160(m)
        A = {(x, y): 0 for x in range(5) for y in range(5)}
        p = bytearray(m + b'\1'); p += bytes(-len(p) % 136); p[-1] |= 0x80
        for i in range(0, len(p), 136):
            for j in range(17): A[j % 5, j // 5] ^= int.from_bytes(p[i + 8 * j:i + 8 * j + 8], 'little')
            A = {k: v.v for k, v in keccak_f({k: t.const(v, 64) for k, v in A.items()}).items()}
        assert b''.join(A[j % 5, j // 5].to_bytes(8, 'little') for j in range(4)) == oracle.keccak256(m)
    return True
if __name__ == '__main__': print(selftest())
