"""Unbounded loops by invariant.

At the first arrival at a loop head one iteration is tried; if both leaving and
continuing are possible the loop is cut.  The invariant after T iterations is
  * role cells: given by a template (the abstract state after T steps),
  * every other cell the body changes: start + k T (k found in the trial), or
    start + k (T mod m) when the template has a modulus, or arbitrary.
Obligations: the invariant holds on arrival; each body case (run from a head
state with everything else symbolic) re-establishes it for T + 1; leaving the
loop implies T = expected.  The continuation starts from the invariant at
T = expected, so nothing is bounded and termination is shown as well."""
from dv import terms as t
from dv.symex import *
from dv.spec import discharge

def natural_loop(cfg, head):
    preds = {l: [] for l in cfg.labels}
    for l in cfg.labels:
        for s in cfg.succs[l]: preds[s].append(l)
    reach = set(); w = [head]
    while w:
        x = w.pop()
        for s in cfg.succs[x]:
            if s not in reach: reach.add(s); w.append(s)
    loop = {head}; w = [p for p in preds[head] if p in reach]
    while w:
        x = w.pop()
        if x in loop: continue
        loop.add(x); w.extend(preds[x])
    return loop

class Confine:
    throws = None
    def __init__(self, fname, head, loop, depth):
        self.fname = fname; self.head = head; self.loop = loop; self.depth = depth; self.back = []; self.exits = []
    def at(self, ex, f, label, st):
        if f.name != self.fname or ex.depth != self.depth: return None
        if label == self.head: self.back.append(st); return []
        if label not in self.loop:
            if self.throws is not None and f.blocks[label][-1][1] == 'athrow': return None
            self.exits.append(st); return []
        return None

class Template:
    """default: no role cells, expected number of iterations unknown"""
    modulus = None
    def cases(self): return [None]
    def match(self, ex, f, st, changed): return True     # is this the loop the template is for?
    def T(self, case): return t.fresh('T', 64)
    def inv(self, T): return t.true()
    def expected(self): raise NotImplementedError
    def role_cells(self, ex, st): return []              # [(obj, off, n)]
    def init(self, ex, st): return []                    # [(what, cond)] on arrival
    def write(self, ex, st, case, T): pass               # head state
    def back(self, ex, st, case, T): return []           # [(what, cond)]
    def final(self, ex, st): pass                        # role cells at T = expected

class LoopCut:
    throws = None        # (depth, class): this exception is the specified outcome in every case, so the loop body may throw it
    def __init__(self, task, prover, name, templates):
        self.task = task; self.prover = prover; self.name = name; self.templates = templates
        self.conf = []; self.cuts = 0; self.loops = {}; self.skip = set()
    def at(self, ex, f, label, st, prev):
        if self.conf:
            r = self.conf[-1].at(ex, f, label, st)
            if r is not None: return r
            if self.conf[-1].depth == ex.depth or True: return None
        if ex.ctor_mode: return None
        key = (f.name, label, ex.depth)
        for k in [k for k in st.aux if isinstance(k, tuple) and k[0] == 'cut' and k[1] == f.name and k[3] == ex.depth]:
            lp = self.loops[k[1:]]
            if label == k[2]:
                if st.aux[k] == 'enter': st.aux = dict(st.aux); st.aux[k] = 'exit'; return None
                if prev in lp:
                    ex.oblige(st, t.false(), 'loop leaves after its last iteration'); return []
            elif label not in lp:
                st.aux = dict(st.aux); del st.aux[k]
        if label not in f.cfg.heads: return None
        if key not in self.loops: self.loops[key] = natural_loop(f.cfg, label)
        loop = self.loops[key]
        if prev in loop or key in self.skip: return None
        return self.cut(ex, f, label, st, loop, key)
    def run_body(self, ex, f, label, st, loop):
        c = Confine(f.name, label, loop, ex.depth); c.throws = self.throws; self.conf.append(c)
        try:
            rets = []
            st.prev = 'done'
            for l, i, s in ex.block(f, label, 0, st, rets, None): ex.run(f, l, s, None, rets, i)
        finally: self.conf.pop()
        for s, r in rets:
            if isinstance(r, tuple) and self.throws is not None and r[0] == 'exc' and ex.depth == self.throws[0]:
                if r[1] == self.throws[1]: continue
                self.task.fail(self.name, 'outcome of the loop is %s' % self.throws[1], r[1]); continue
            c.exits.append(s)
        return c
    def diff(self, ex, a, b, f, label):
        """cells of pre-existing objects and live environment slots that differ"""
        r = {}
        for o in a.mem:
            x = a.mem[o]; y = b.mem.get(o)
            if y is x or y is None: continue
            bs = set()
            for q in (x, y):
                for s in q.starts: bs.add(s); bs.add(s + q.cells[s][1])
            bs = sorted(bs)
            for lo, hi in zip(bs, bs[1:]):
                hx = x.overlapping(lo, hi - lo); hy = y.overlapping(lo, hi - lo)
                if not hx and not hy: continue
                u = x.get(lo, hi - lo) if hx else None; v = y.get(lo, hi - lo) if hy else None
                if u is v or same_ptr(u, v): continue
                # whole cells rather than fragments
                for q in (x, y):
                    for s in q.overlapping(lo, hi - lo):
                        if q.cells[s][1] <= 8: lo = min(lo, s); hi = max(hi, s + q.cells[s][1])
                r[(o, lo, hi - lo)] = 1
        for k in ex.loop_env(f, label, a):
            u = a.env.get(k); v = b.env.get(k)
            if u is v or same_ptr(u, v): continue
            r[('env', k, 0)] = 1
        return r
    def cget(self, st, c):
        if c[0] == 'env': return st.env.get(c[1])
        o = st.mem[c[0]]
        if not o.overlapping(c[1], c[2]): return None
        return o.get(c[1], c[2])
    def cput(self, st, c, v):
        if c[0] == 'env': st.env[c[1]] = v
        elif v is None: st.wobj(c[0]).clear(c[1], c[2])
        else: st.wobj(c[0]).put(c[1], c[2], v)
    def scale(self, v0, k, T):
        """v0 + k T"""
        w = 64 if isinstance(v0, Ptr) else v0.w
        x = t.trunc(T, w) if w <= T.w else t.zext(T, w)
        if isinstance(v0, Ptr): return Ptr(v0.obj, t.lin([(1, v0.off), (k, x)], 0, 64))
        return t.lin([(1, v0), (k, x)], 0, w)
    def cut(self, ex, f, label, st, loop, key):
        obs = ex.obs; nt = ex.n_trivial; ex.obs = []; lk = ex.leaks
        if lk is not None: ex.leaks = []
        try: c = self.run_body(ex, f, label, st.fork(), loop)
        finally: ex.obs = obs; ex.n_trivial = nt; ex.leaks = lk
        if not c.back or not c.exits and not any(getattr(x, 'force', None) in (key, 'any') for x in self.templates): return None
        nm = '%s loop in %s' % (self.name, ex.stack[-1] if ex.stack else f.name)
        changed = {}
        for b in c.back: changed.update(self.diff(ex, st, b, f, label))
        tp = None
        for x in self.templates:
            x.guess = lambda c2: self.guess(st, c.back, c2)
            if x.match(ex, f, st, changed): tp = x; break
        if tp is None: raise Unsupported('loop without an invariant template in %s' % (ex.stack[-1] if ex.stack else f.name))
        roles = tp.role_cells(ex, st)
        def is_role(c): return any(c[0] == o and c[1] < a + n and a < c[1] + c[2] for o, a, n in roles if o != 'env') or c in roles
        kinds = {}
        for c2 in changed:
            if is_role(c2): continue
            g = self.guess(st, c.back, c2)
            if g[0] != 'junk': kinds[c2] = g      # anything else that changes is found by the body runs
        for what, cond in tp.init(ex, st): discharge(self.task, self.prover, nm, 'on arrival: ' + what, st.pc, cond)
        exp = tp.expected()
        known = getattr(tp, 'known', None)
        if known is not None: kinds = known
        for attempt in range(12):
            if known is not None: break      # this very loop was verified before, with these cell kinds, for every T
            todo = []; bad = False
            obs0 = ex.obs; ex.obs = []; nt = ex.n_trivial; lk = ex.leaks
            if lk is not None: ex.leaks = list(lk)
            pend = []; shape = []
            for case in tp.cases():
                s = st.fork(); T = tp.T(case)
                self.havoc(ex, s, kinds, T, case, tp, st)
                s.assume(tp.inv(T))
                hs = s.fork()
                cf = self.run_body(ex, f, label, s, loop)
                for b in cf.back:
                    for c2 in self.diff(ex, hs, b, f, label):
                        if is_role(c2): continue
                        if c2 not in kinds: kinds[c2] = ('junk',); bad = True
                    for c2, kd in list(kinds.items()):
                        if kd[0] == 'junk': continue
                        want = self.value(self.cget(st, c2), kd, t.add(T, t.const(1, 64)), case, tp, 1)
                        got = self.cget(b, c2)
                        if not self.same(b, want, got):
                            if kd[0] == 'lin' and tp.modulus: kinds[c2] = ('mod', kd[1])
                            else: kinds[c2] = ('junk',)
                            bad = True
                    if not bad:
                        for what, cond in tp.back(ex, b, case, T): pend.append(('preserved%s: %s' % ('' if case is None else ' [case %s]' % (case,), what), b.pc, cond))
                        shape.append(('iteration count stays in range', b.pc, tp.inv(t.add(T, t.const(1, 64)))))
                for e in cf.exits: shape.append(('the loop ends after the last element only', e.pc, t.eq(T, exp)))
                if bad: break
            if bad:
                ex.obs = obs0; ex.n_trivial = nt; ex.leaks = lk; continue
            ex.obs = obs0 + ex.obs
            # is this the iteration scheme the template is about (one step per iteration, expected number of iterations)?
            for what, pc, cond in shape:
                if t.isc(cond) and cond.v: self.task.count('simplification'); continue
                r = self.prover.prove(pc, cond)
                if not r.ok: raise Unsupported('%s: not the iteration scheme of the invariant (%s)' % (nm, what))
                self.task.count(r.by)
            for what, pc, cond in pend: discharge(self.task, self.prover, nm, what, pc, cond)
            break
        else: raise Unsupported('no loop invariant found')
        self.cuts += 1; tp.found = kinds; tp.key = key
        if getattr(tp, 'only_loop', False): return []
        s = st.fork()
        for c2, kd in kinds.items():
            self.cput(s, c2, self.value(self.cget(st, c2), kd, exp, 'final', tp, 0, s))
        tp.final(ex, s)
        s.aux = dict(s.aux); s.aux[('cut',) + key] = 'enter'; s.prev = 'done'
        return [(label, s)]
    def guess(self, st, backs, c):
        v0 = self.cget(st, c); ks = set()
        for b in backs:
            v1 = self.cget(b, c)
            if v0 is None or v1 is None: return ('junk',)
            if isinstance(v0, Ptr):
                if not isinstance(v1, Ptr) or v1.obj != v0.obj: return ('junk',)
                d = t.sub(v1.off, v0.off)
            elif isinstance(v1, Ptr) or v0.w != v1.w: return ('junk',)
            else: d = t.sub(v1, v0)
            if not t.isc(d): return ('junk',)
            ks.add(t.sgn(d.v, d.w))
        return ('lin', ks.pop()) if len(ks) == 1 else ('junk',)
    def same(self, st, want, got):
        if want is got or same_ptr(want, got): return True
        if isinstance(want, Ptr) and isinstance(got, Ptr) and want.obj == got.obj: want, got = want.off, got.off
        if not isinstance(want, t.T) or not isinstance(got, t.T) or want.w != got.w: return False
        c = t.eq(want, got)
        if t.isc(c): return bool(c.v)
        return self.prover.prove(st.pc, c).ok
    def value(self, v0, kd, T, case, tp, step, st=None):
        if kd[0] == 'junk':
            return None if v0 is None or isinstance(v0, Ptr) else t.fresh('junk', v0.w)
        if kd[0] == 'lin': return self.scale(v0, kd[1], T)
        m = tp.modulus
        if case == 'final': r = t.const(tp.final_residue, 64)
        else: r = t.const((case + step) % m, 64)
        return self.scale(v0, kd[1], r)
    def havoc(self, ex, s, kinds, T, case, tp, st0):
        for c2, kd in kinds.items():
            self.cput(s, c2, self.value(self.cget(st0, c2), kd, T, case, tp, 0))
        tp.write(ex, s, case, T)
