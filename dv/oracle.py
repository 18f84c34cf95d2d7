"""Independent Python reference functions (used for concrete search and as documentation of the spec functions)."""
import hashlib, hmac as _h
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
M = 1 << 256
INF = None

def sha256(b): return hashlib.sha256(b).digest()
def sha256d(b): return sha256(sha256(b))
def sha512(b): return hashlib.sha512(b).digest()
def hmac(name, k, m): return _h.new(k, m, name).digest()

# ---- RIPEMD-160 (from its specification)
def ripemd160(msg):
    def f(j, x, y, z):
        return (x ^ y ^ z, (x & y) | (~x & z), (x | ~y) ^ z, (x & z) | (y & ~z), x ^ (y | ~z))[j] & 0xFFFFFFFF
    r = [list(range(16)), [7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8], [3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12],
         [1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2], [4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13]]
    rr = [[5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12],[6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2],[15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13],
          [8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14],[12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11]]
    s = [[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8],[7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12],[11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5],
         [11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12],[9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6]]
    ss = [[8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6],[9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11],[9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5],
          [15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8],[8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11]]
    K = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]; KK = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]
    rol = lambda x, n: ((x << n) | (x >> (32 - n))) & 0xFFFFFFFF
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    m = msg + b'\x80' + b'\0' * ((55 - len(msg)) % 64) + (8 * len(msg) & (2**64 - 1)).to_bytes(8, 'little')
    for o in range(0, len(m), 64):
        X = [int.from_bytes(m[o + 4*i:o + 4*i + 4], 'little') for i in range(16)]
        a, b, c, d, e = h; A, B, C, D, E = h
        for j in range(80):
            k = j // 16
            t = (rol((a + f(k, b, c, d) + X[r[k][j % 16]] + K[k]) & 0xFFFFFFFF, s[k][j % 16]) + e) & 0xFFFFFFFF
            a, e, d, c, b = e, d, rol(c, 10), b, t
            t = (rol((A + f(4 - k, B, C, D) + X[rr[k][j % 16]] + KK[k]) & 0xFFFFFFFF, ss[k][j % 16]) + E) & 0xFFFFFFFF
            A, E, D, C, B = E, D, rol(C, 10), B, t
        h = [(h[1] + c + D) & 0xFFFFFFFF, (h[2] + d + E) & 0xFFFFFFFF, (h[3] + e + A) & 0xFFFFFFFF, (h[4] + a + B) & 0xFFFFFFFF, (h[0] + b + C) & 0xFFFFFFFF]
    return b''.join(x.to_bytes(4, 'little') for x in h)

# ---- Keccak-256 (original padding)
def keccak_f(A):
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & (2**64 - 1) if n else x
    R = 1
    for rnd in range(24):
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
        A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
        x, y = 1, 0; cur = A[x][y]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, A[x][y] = A[x][y], rol(cur, (t + 1) * (t + 2) // 2 % 64)
        A = [[A[x][y] ^ (~A[(x + 1) % 5][y] & A[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        for j in range(7):
            R = ((R << 1) ^ ((R >> 7) * 0x71)) % 256
            if R & 2: A[0][0] ^= 1 << ((1 << j) - 1)
    return A
def keccak256(msg):
    rate = 136
    m = bytearray(msg); pad = rate - len(m) % rate
    m += b'\x01' + b'\0' * (pad - 1); m[-1] |= 0x80
    A = [[0] * 5 for _ in range(5)]
    for o in range(0, len(m), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(m[o + 8*i:o + 8*i + 8], 'little')
        A = keccak_f(A)
    return b''.join(A[i % 5][i // 5].to_bytes(8, 'little') for i in range(4))

# ---- curve (affine points are (x, y) or None)
def inv(a, m): return pow(a, -1, m) if a % m else 0
def ec_add(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0: return None
        l = 3 * p[0] * p[0] * inv(2 * p[1], P) % P
    else: l = (q[1] - p[1]) * inv(q[0] - p[0], P) % P
    x = (l * l - p[0] - q[0]) % P
    return (x, (l * (p[0] - x) - p[1]) % P)
def _jdbl(p):
    X, Y, Z = p
    if not Z or not Y: return (1, 1, 0)
    S = 4 * X * Y * Y % P; Mm = 3 * X * X % P
    x = (Mm * Mm - 2 * S) % P
    return (x, (Mm * (S - x) - 8 * Y * Y * Y * Y) % P, 2 * Y * Z % P)
def _jadd(p, q):
    if not p[2]: return q
    if not q[2]: return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        return _jdbl(p) if s1 == s2 else (1, 1, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P; h3 = h * h2 % P; v = u1 * h2 % P
    x = (r * r - h3 - 2 * v) % P
    return (x, (r * (v - x) - s1 * h3) % P, p[2] * q[2] * h % P)
def ec_mul(k, p):
    if p is None: return None
    r = (1, 1, 0); a = (p[0], p[1], 1)
    for b in bin(k)[2:] if k else '':
        r = _jdbl(r)
        if b == '1': r = _jadd(r, a)
    if not r[2]: return None
    i = inv(r[2], P); i2 = i * i % P
    return (r[0] * i2 % P, r[1] * i2 * i % P)
G = (GX, GY)
def on_curve(x, y): return (y * y - x * x * x - 7) % P == 0
def lift_x(x):
    r = (x * x * x + 7) % P; y = pow(r, (P + 1) // 4, P)
    return (x, y) if y * y % P == r else None
def proj(p, z):
    """projective representation with coordinate z (homogeneous x/z, y/z)"""
    if p is None: return (0, z % P or 1, 0)
    return (p[0] * z % P, p[1] * z % P, z % P)
def affine(c):
    x, y, z = c
    if z == 0: return None
    i = inv(z, P); return (x * i % P, y * i % P)

def ecdsa_sign(d, h, k):
    if not 0 < k < N: return None
    r = ec_mul(k, G)[0] % N
    if r == 0: return None
    s = inv(k, N) * (int.from_bytes(h, 'big') + r * d) % N
    if s == 0: return None
    return r, min(s, N - s)
def ecdsa_verify(q, h, r, s):
    """q: raw coordinates (x, y, z)"""
    x, y, z = q
    if z != 1 or not on_curve(x, y): return False
    if not (0 < r < N and 0 < s < N): return False
    w = inv(s, N); u1 = int.from_bytes(h, 'big') * w % N; u2 = r * w % N
    p = ec_add(ec_mul(u1, G), ec_mul(u2, (x, y)))
    return p is not None and p[0] % N == r

# ---- Base58
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58(b):
    n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s
def b58check(b): return b58(b + sha256d(b)[:4])
def b58dec(s):
    """canonical decode to bytes, or None"""
    n = 0
    for c in s:
        i = B58.find(c)
        if i < 0: return None
        n = n * 58 + i
    z = len(s) - len(s.lstrip('1'))
    return b'\0' * z + n.to_bytes((n.bit_length() + 7) // 8, 'big')
def b58checkdec(s, size=None):
    """payload of exactly the canonical encodings, else None"""
    b = b58dec(s)
    if b is None or len(b) < 4 or (size is not None and len(b) != size): return None
    if sha256d(b[:-4])[:4] != b[-4:]: return None
    return b[:-4]

# ---- BIP 32
def ckd(k, c, depth, i):
    pub = ec_mul(k, G); comp = bytes([2 + (pub[1] & 1)]) + pub[0].to_bytes(32, 'big')
    data = (b'\0' + k.to_bytes(32, 'big') if i >> 31 else comp) + i.to_bytes(4, 'big')
    I = hmac('sha512', c, data)
    l = int.from_bytes(I[:32], 'big'); ck = (l + k) % N
    fp = ripemd160(sha256(comp))[:4]
    if l >= N or ck == 0: return None
    return ck, I[32:], depth + 1, i, fp

# ---- Bech32
BA = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
def polymod(v):
    c = 1
    for x in v:
        t = c >> 25; c = ((c & 0x1ffffff) << 5) ^ x
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if t >> i & 1: c ^= g
    return c
def hexp(h): return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]
def bech32_enc(h, data):
    """None when the arguments are outside the documented limits"""
    if h is None or data is None: return None
    if not 1 <= len(h) <= 83 or any(not 33 <= ord(c) <= 126 for c in h) or any('A' <= c <= 'Z' for c in h): return None
    if any(not 0 <= d < 32 for d in data): return None
    if len(h) + 1 + len(data) + 6 > 90: return None
    c = polymod(hexp(h) + list(data) + [0] * 6) ^ 1
    return h + '1' + ''.join(BA[d] for d in data) + ''.join(BA[c >> 5 * (5 - i) & 31] for i in range(6))
def bech32_dec(s):
    if s is None or len(s) > 90: return None
    if any(c.isupper() for c in s if ord(c) < 128) and any(c.islower() for c in s if ord(c) < 128): return None
    if any(not 33 <= ord(c) <= 126 for c in s): return None
    s = s.lower(); i = s.rfind('1')
    if i < 1 or len(s) - i - 1 < 6: return None
    h, d = s[:i], s[i + 1:]
    if len(h) > 83 or any(c not in BA for c in d): return None
    v = [BA.index(c) for c in d]
    if polymod(hexp(h) + v) != 1: return None
    return h, v[:-6]
def segwit_enc(h, ver, prog):
    if h is None or prog is None or not 0 <= ver <= 16 or not 2 <= len(prog) <= 40: return None
    bits = ''.join('{:08b}'.format(b) for b in prog); bits += '0' * (-len(bits) % 5)
    return bech32_enc(h, [ver] + [int(bits[i:i + 5], 2) for i in range(0, len(bits), 5)])
def segwit_dec(s):
    r = bech32_dec(s)
    if r is None or not r[1]: return None
    h, v = r
    if not 0 <= v[0] <= 16: return None
    bits = ''.join('{:05b}'.format(x) for x in v[1:]); n = len(bits) // 8
    if len(bits) % 8 >= 5 or '1' in bits[8 * n:]: return None
    if not 2 <= n <= 40: return None
    return h, v[0], bytes(int(bits[8*i:8*i + 8], 2) for i in range(n))
