"""Contract plumbing.  A contract is a Python function f(c, *args) that, on a
state, checks its preconditions with c.require and then writes the
postcondition state.  The same function is used
  * at call sites (preconditions become obligations of the caller), and
  * as the specification when the function itself is verified
    (preconditions are assumed, the resulting state is what the body must match,
     cell by cell, for every object in memory - so the frame is checked too)."""
import re
from dv import terms as t
from dv.symex import *

class C:
    def __init__(self, ex, st, mode):
        self.ex = ex; self.st = st; self.mode = mode; self.pre = []
    def require(self, cond, what='precondition'):
        if self.mode == 'oblige':
            self.ex.oblige(self.st, cond, 'precondition: ' + what)
        else:
            self.st.assume(cond); self.pre.append(cond)
    def r(self, p, n, off=0):
        return self.ex.load(self.st, p.addc(off) if off else p, n)
    def w(self, p, v, off=0):
        self.ex.store(self.st, p.addc(off) if off else p, v.w // 8, v)
    def r256(self, p, off=0): return self.r(p, 32, off)
    def distinct(self, a, b, what='operands are distinct objects'):
        if a.obj != b.obj: return
        self.require(t.ne(a.off, b.off), what)

def as_contract(f):
    def g(ex, st, args):
        c = C(ex, st, 'oblige')
        r = f(c, *args)
        if isinstance(r, list): return r
        return [(st, r)]
    g.spec = f
    return g

SAFE_RE = re.compile(r'precondition|dereference|use-after|out-of-bounds|in-bounds|read-only|overflow|shift amount|division|assert|unreachable|memcpy of|strlen|bool result|uninitialised|exception|array size|null')
class Outcome: pass

class Task:
    """collects obligations and results for one verification unit"""
    def __init__(self, name):
        self.name = name; self.total = 0; self.ok = 0; self.by = {}; self.failed = []
        self.functions = {}; self.unsupported = []; self.bounded = []; self.assumed = set(); self.time = 0.0
        self.covers = 0; self.notes = []
    def count(self, by, n=1):
        self.total += n; self.ok += n; self.by[by] = self.by.get(by, 0) + n
    def fail(self, fn, ob, info, model=None):
        self.total += 1
        self.failed.append({'function': fn, 'obligation': ob, 'info': str(info)[:2000], 'model': model})
    def dump(self):
        d = {k: getattr(self, k) for k in ('name', 'total', 'ok', 'by', 'failed', 'functions', 'unsupported', 'bounded', 'time', 'covers', 'notes')}
        d['assumed'] = sorted(self.assumed)
        return d

def model_values(model, names):
    r = {}
    if model is None: return r
    for d in model.decls():
        try:
            v = model[d]
            if d.arity() == 0: r[d.name()] = hex(v.as_long())
        except Exception: pass
    return r

def cell_partition(*objs):
    bs = set()
    for o in objs:
        for s in o.starts: bs.add(s); bs.add(s + o.cells[s][1])
    return sorted(bs)

def compare_states(task, ex, prover, fn, pre, impl, iret, spec, sret, pc, ignore=()):
    """obligations: impl state equals spec state on every object of the pre-state, and returns agree"""
    obs = []
    for k in pre.mem:
        if k in ignore: continue
        a = impl.mem.get(k); b = spec.mem.get(k)
        if a is b: continue
        if a is None or b is None:
            obs.append(('object %s vanished' % k, t.false())); continue
        bs = set()
        # the specification's cells are the unit of comparison
        cover = []
        for s in b.starts: cover.append((s, s + b.cells[s][1]))
        for s in a.starts:
            lo, hi = s, s + a.cells[s][1]
            if not b.overlapping(lo, hi - lo): cover.append((lo, hi))
        for lo, hi in sorted(set(cover)):
            if any(isinstance(g, tuple) and g[0] == k and g[1] <= lo and hi <= g[2] for g in ignore): continue    # struct padding
            x = a.get(lo, hi - lo); y = b.get(lo, hi - lo)
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                ok = same_ptr(x, y)
                obs.append(('%s[%d..%d] pointer unchanged' % (k, lo, hi), t.boolc(ok))); continue
            if x is y: task.count('simplification'); continue
            obs.append(('%s[%d..%d] equals specified value' % (k, lo, hi), t.eq(x, y)))
    if sret is not None:
        if isinstance(sret, tuple):
            obs.append(('outcome is %s' % (sret,), t.boolc(iret == sret)))
        elif isinstance(iret, tuple): obs.append(('no exception (%s)' % (iret[1],), t.false()))
        elif isinstance(sret, Ptr):
            compare_objects(task, pre, impl, iret, spec, sret, obs, 'result')
        elif sret is not ANY:
            if iret is None or isinstance(iret, Ptr): obs.append(('return value', t.false()))
            else: obs.append(('return value', t.eq(iret, sret)))
    for what, c in obs:
        discharge(task, prover, fn, 'post: ' + what, pc, c)

def compare_objects(task, pre, impl, p, spec, q, obs, what, depth=0):
    """p (implementation) and q (specification) are the same old object, or both new objects with equal contents"""
    if same_ptr(p, q): task.count('simplification'); return
    if not isinstance(p, Ptr) or p.obj is None or q.obj is None or p.obj in pre.mem or q.obj in pre.mem or depth > 3:
        obs.append((what + ' pointer', t.false())); return
    a, b = impl.mem[p.obj], spec.mem[q.obj]
    ma, mb = a.meta or {}, b.meta or {}
    if ma.get('cls') != mb.get('cls') or ma.get('kind') != mb.get('kind') or not (isinstance(p.off, t.T) and t.isc(p.off) and p.off is q.off):
        obs.append((what + ' has the specified type', t.false())); return
    if 'len' in mb and ma['len'] is not mb['len']:
        obs.append((what + ' length', t.eq(ma['len'], mb['len'])))
        return
    if ma.get('cls') and ma.get('kind') is None: a.size = b.size = None
    for s in b.starts:
        y, n = b.cells[s]; x = a.get(s, n)
        if isinstance(y, Ptr): compare_objects(task, pre, impl, x, spec, y, obs, '%s[%d]' % (what, s), depth + 1)
        elif isinstance(x, Ptr): obs.append(('%s[%d] equals specified value' % (what, s), t.false()))
        elif x is y: task.count('simplification')
        else: obs.append(('%s[%d] equals specified value' % (what, s), t.eq(x, y)))

ANY = object()
SAFETY = [False]     # C25: keep only the obligations about memory, arithmetic, assertions and callee preconditions
def _undef(c): return any(y.op == 'var' and isinstance(y.v, str) and y.v.startswith('undef!') for y in t.topo([c]))

def discharge(task, prover, fn, what, pc, c):
    if t.isc(c) and c.v:
        task.count('simplification'); return True
    if SAFETY[0] and not SAFE_RE.search(what):
        if not _undef(c): return True
        what = 'uninitialised memory reaches an observable value: ' + what
    r = prover.prove(pc, c)
    if r.ok:
        task.count(r.by); return True
    task.fail(fn, what, r.info or r.by, model_values(r.model, None))
    return False

def discharge_obs(task, prover, fn, ex, batch=True):
    obs = ex.obs
    if batch and len(obs) > 3:
        # try all conditions of obligations with no undecided path split together
        conds = [o.cond for o in obs]
        common = list(obs[0].pc)
        n = len(common)
        for o in obs:
            k = 0
            while k < n and k < len(o.pc) and o.pc[k] is common[k]: k += 1
            n = k
        common = common[:n]
        if all(not (t.isc(c) and not c.v) for c in conds):
            try:
                roots = common + conds
                sub = __import__('dv.ints', fromlist=['x']).words_subst(roots)
                from dv import ints
                rr = t.subst(roots, sub) if sub else roots
                if not any(x.op in ('uf',) for x in t.topo(conds)):
                    from dv.prove import prod_bound
                    facts = [prod_bound(*(t.subst([x, y], sub) if sub else [x, y]), m) for x, y, m in prover.products]
                    pr = ints.IntProver(rr[:n], facts=facts, timeout=4000, maxcases=0, deadline=prover.deadline)
                    if pr.prove(rr[n:]):
                        task.count('integer arithmetic (z3 LIA)', len(obs))
                        ex.obs = []
                        return
            except Exception: pass
    for o in obs:
        discharge(task, prover, fn, '%s @ %s' % (o.kind, o.loc), o.pc, o.cond)
    ex.obs = []

def verify(task, ex, prover, name, fn_call, spec, pre, args, ignore=(), covers=True):
    """verify one function against its contract from pre-state `pre` with argument values `args`.
    fn_call(ex, st) -> list of (state, ret) executes the real body."""
    t0 = time.time()
    ex.obs = []; triv0 = ex.n_trivial
    # specification run
    sst = pre.fork()
    c = C(ex, sst, 'assume')
    saved = ex.obs; ex.obs = []
    r = spec(c, *args)
    spec_obs = ex.obs; ex.obs = saved
    souts = r if isinstance(r, list) else [(sst, r)]
    for o in spec_obs:
        discharge(task, prover, name, 'specification well-defined: ' + o.kind, o.pc, o.cond)
    ist = pre.fork()
    for p in c.pre: ist.assume(p)
    if covers and c.pre:
        rr, _ = z3_check(list(ist.pc), 3000)
        if rr == 'unsat':
            task.fail(name, 'precondition satisfiable (vacuity)', 'contradictory precondition')
        else: task.covers += 1
    iouts = fn_call(ex, ist)
    discharge_obs(task, prover, name, ex)
    task.count('simplification', ex.n_trivial - triv0)
    reach = 0
    for s, rv in iouts:
        for s2, rv2 in souts:
            pc = list(s.pc)
            for x in s2.pc:
                if x not in s.pc: pc.append(x)
            if len(iouts) > 1 or len(souts) > 1:
                st = State()
                dead = False
                for x in pc:
                    if decide_facts(x, st.facts) is False: dead = True; break
                    st.assume(x)
                if dead: continue
                rr, _ = z3_check(pc, 2000)
                if rr == 'unsat': continue
            reach += 1
            compare_states(task, ex, prover, name, pre, s, rv, s2, rv2, pc, ignore)
    if not iouts: task.fail(name, 'function returns', 'no execution reaches the end')
    elif not reach: task.fail(name, 'some outcome matches the specification (vacuity)', 'no common outcome')
    task.functions[name] = task.functions.get(name, 0) + 1
    task.time += time.time() - t0
    return iouts
