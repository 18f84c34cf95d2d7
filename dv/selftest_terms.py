"""Random differential test of the normalising constructors against naive semantics."""
import random, sys
from dv import terms as t
def run(n=20000, seed=1):
    R = random.Random(seed)
    for it in range(n // 200):
        names = {('x%d' % i): w for i, w in enumerate([1, 8, 8, 32, 32, 32, 64, 64, 1, 1])}
        env = {}
        for k, w in names.items():
            env[k] = R.choice([0, 1, t.M(w), R.getrandbits(w), 1 << (w - 1)]) & t.M(w)
        pool = [(t.var(k, w), env[k]) for k, w in names.items()]
        for w in (1, 8, 32, 64):
            for v in (0, 1, t.M(w), R.getrandbits(w), 1 << R.randrange(w), t.M(w) >> R.randrange(w)):
                pool.append((t.const(v, w), v & t.M(w)))
        S = lambda v, w: v - (1 << w) if v >> (w - 1) else v
        for k in range(200):
            a, va = R.choice(pool)
            same = [p for p in pool if p[0].w == a.w]
            b, vb = R.choice(same); c, vc = R.choice(same)
            w = a.w; m = t.M(w)
            f = R.randrange(22)
            if f == 0: r, v = t.add(a, b, c), (va + vb + vc) & m
            elif f == 1: r, v = t.sub(a, b), (va - vb) & m
            elif f == 2: r, v = t.mul(a, b), (va * vb) & m
            elif f == 3: r, v = t.and_(a, b), va & vb
            elif f == 4: r, v = t.or_(a, b), va | vb
            elif f == 5: r, v = t.xor(a, b), va ^ vb
            elif f == 6: r, v = t.not_(a), ~va & m
            elif f == 7:
                n = R.randrange(w); r, v = t.shl(a, t.const(n, w)), (va << n) & m
            elif f == 8:
                n = R.randrange(w); r, v = t.lshr(a, t.const(n, w)), va >> n
            elif f == 9:
                n = R.randrange(w); r, v = t.ashr(a, t.const(n, w)), (S(va, w) >> n) & m
            elif f == 10: r, v = t.neg(a), -va & m
            elif f == 11: r, v = t.eq(a, b), int(va == vb)
            elif f == 12: r, v = t.ult(a, b), int(va < vb)
            elif f == 13: r, v = t.slt(a, b), int(S(va, w) < S(vb, w))
            elif f == 14:
                cnd, vcn = R.choice([p for p in pool if p[0].w == 1])
                r, v = t.ite(cnd, a, b), va if vcn else vb
            elif f == 15:
                lo = R.randrange(w); hi = R.randrange(lo, w)
                r, v = t.extract(a, hi, lo), (va >> lo) & t.M(hi - lo + 1)
                if hi - lo + 1 not in (1, 8, 32, 64):
                    r, v = t.zext(r, 64), v
            elif f == 16:
                x = [p for p in pool if p[0].w <= 32]; y, vy = R.choice(x)
                if y.w == 32: z = (t.concat(y, R.choice([(a, va)])[0]), (vy << w) | va)
                else: z = (t.zext(y, 32), vy)
                if z[0].w not in (1, 8, 32, 64): continue
                r, v = z
            elif f == 17: 
                w2 = {1: 8, 8: 32, 32: 64, 64: 64}[w]
                r, v = t.sext(a, w2), S(va, w) & t.M(w2)
            elif f == 18: r, v = t.or_(a, t.neg(a)), (va | -va) & m
            elif f == 19 :
                n = R.choice([1, 2, 3, 58, 64, 24]) & m
                if not n: continue
                r, v = (t.udiv(a, t.const(n, w)), va // n) if R.random() < .5 else (t.urem(a, t.const(n, w)), va % n)
            elif f == 20 and w > 1:
                if S(vb, w) == 0 or not t.isc(b): continue
                x, y = S(va, w), S(vb, w)
                q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
                r, v = (t.sdiv(a, b), q & m) if R.random() < .5 else (t.srem(a, b), (x - q * y) & m)
            else:
                if w < 8: continue
                r, v = t.rotl(a, R.randrange(w)), None
                continue
            got = t.evaluate([r], env)[0]
            assert got == v, (f, a, b, r, got, v, va, vb)
            assert v & r.kz == 0, ('kz', f, a, b, r)
            assert t.umin(r) <= v <= t.umax(r)
            if r.w in (1, 8, 32, 64) and len(pool) < 400: pool.append((r, v))
        t.reset()
    return n
if __name__ == '__main__':
    for s in range(int(sys.argv[1]) if len(sys.argv) > 1 else 10):
        run(20000, s)
    print('ok')
