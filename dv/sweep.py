"""Equality of two term graphs by sweeping: nodes that agree on random inputs are proved equal bottom-up
(z3, on a small cone whose leaves are already merged nodes) and merged, so the two graphs meet round by round."""
import random, time
from dv import terms as t
from dv.symex import z3_check

def equal(A, B, pc=(), seed=1, budget=60, samples=6):
    """returns (ok, number of solver calls, first differing index)"""
    pairs = [(a, b) for a, b in zip(A, B) if a is not b]
    if not pairs: return True, 0, None
    order = t.topo([x for p in pairs for x in p])
    rnd = random.Random(seed)
    class Def:
        ufs = True
        def __call__(s, x): return rnd.getrandbits(x.w)
    envs = []
    sig = {x.id: [] for x in order}
    for k in range(samples):
        env = {}
        for x in order:
            if x.op == 'var': env[x.v] = rnd.getrandbits(x.w)
        memo = {}
        t.evaluate([x for x in order], env, memo, Def())
        for x in order: sig[x.id].append(memo[x.id])
    for i, (a, b) in enumerate(zip(A, B)):
        if a is not b and sig[a.id] != sig[b.id]: return False, 0, i
    rep = {}; cls = {}; calls = 0; t0 = time.time(); failed = set()
    def cone(roots, depth):
        """copy of the roots with subterms below depth replaced by variables"""
        memo = {}; fr = {}
        def go(x, d):
            k = (x.id, d)
            if k in memo: return memo[k]
            if t.isc(x) or x.op == 'var': r = x
            elif d == 0:
                r = fr.get(x.id)
                if r is None: r = fr[x.id] = t.var('cone!%d' % x.id, x.w)
            else: r = t.rebuild(x, [go(y, d - 1) for y in x.a])
            memo[k] = r
            return r
        # a node must be abstracted consistently: cut at fixed height from the top only where not reachable shallower
        depthof = {}
        st = [(x, 0) for x in roots]
        while st:
            x, d = st.pop(0)
            if x.id in depthof: continue
            depthof[x.id] = d
            st.extend((y, d + 1) for y in x.a)
        memo2 = {}
        def go2(x):
            r = memo2.get(x.id)
            if r is not None: return r
            if t.isc(x) or x.op == 'var': r = x
            elif depthof[x.id] >= depth: r = t.var('cone!%d' % x.id, x.w)
            else: r = t.rebuild(x, [go2(y) for y in x.a])
            memo2[x.id] = r
            return r
        return [go2(x) for x in roots]
    for x in order:
        y = t.rebuild(x, [rep[c.id] for c in x.a]) if x.a else x
        s = (x.w, tuple(sig[x.id]))
        if x.w >= 8 and not t.isc(y):
            c = cls.setdefault(s, [])
            if y not in c:
                for z in c[:2]:
                    done = False
                    if time.time() - t0 > budget: break
                    for d in (2, 3, 5, 8):
                        p = cone([y, z], d)
                        calls += 1
                        if p[0] is p[1]: done = True; break
                        r, _ = z3_check([t.ne(p[0], p[1])], 3000, 3000)
                        if r == 'unsat': done = True; break
                    if done: y = z; break
                if y not in c: c.append(y)
        rep[x.id] = y
    for i, (a, b) in enumerate(zip(A, B)):
        if a is not b and rep[a.id] is not rep[b.id]:
            r, _ = z3_check(list(pc) + [t.ne(rep[a.id], rep[b.id])], 5000, 3000)
            if r != 'unsat': return False, calls, i
    return True, calls, None
