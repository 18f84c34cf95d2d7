"""Symbolic execution core shared by the LLVM, JVM and x86 front ends.

Memory is a set of objects; an object is a map from byte offsets to cells
(term or pointer, length).  States fork at undecided branches and are merged
again at the immediate post-dominator.  A callee is replaced by its contract
(a Python function giving the post-state) when one is registered, so every
function is checked against the contracts of the functions it calls.
"""
import bisect, time
from dv import terms as t

class Unsupported(Exception): pass
class Deadline(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)
    def add(self, d): return Ptr(self.obj, t.add(self.off, d))
    def addc(self, n): return Ptr(self.obj, t.add(self.off, t.const(n, 64)))
NULL = Ptr(None, t.const(0, 64))
def P(obj, off=0): return Ptr(obj, t.const(off, 64))
def same_ptr(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off is b.off

class Obj:
    """cells: start -> (value, nbytes); starts sorted"""
    __slots__ = ('cells', 'starts', 'size', 'name', 'ro', 'meta', 'owner')
    def __init__(self, name, size, ro=False, meta=None):
        self.cells = {}; self.starts = []; self.size = size; self.name = name
        self.ro = ro; self.meta = meta or {}; self.owner = None
    def copy(self):
        o = Obj.__new__(Obj)
        o.cells = dict(self.cells); o.starts = list(self.starts); o.size = self.size
        o.name = self.name; o.ro = self.ro; o.meta = self.meta; o.owner = None
        return o
    def overlapping(self, off, n):
        i = bisect.bisect_right(self.starts, off) - 1
        r = []
        if i < 0: i = 0
        s = self.starts
        while i < len(s) and s[i] < off + n:
            if s[i] + self.cells[s[i]][1] > off: r.append(s[i])
            i += 1
        return r
    def put(self, off, n, v):
        c = self.cells.get(off)
        if c is not None and c[1] == n:
            self.cells[off] = (v, n); return
        for s in self.overlapping(off, n):
            val, ln = self.cells[s]
            del self.cells[s]; self.starts.pop(bisect.bisect_left(self.starts, s))
            if s < off:
                self._ins(s, off - s, _slice(val, 0, off - s))
            if s + ln > off + n:
                self._ins(off + n, s + ln - off - n, _slice(val, off + n - s, s + ln - off - n))
        self._ins(off, n, v)
    def _ins(self, off, n, v):
        if v is None: return
        self.cells[off] = (v, n)
        bisect.insort(self.starts, off)
    def clear(self, off, n):
        self.put(off, n, t.const(0, 8 * n))
        del self.cells[off]; self.starts.pop(bisect.bisect_left(self.starts, off))
    def get(self, off, n, ex=None):
        c = self.cells.get(off)
        if c is not None and c[1] == n: return c[0]
        pieces = []
        pos = off
        for s in self.overlapping(off, n):
            val, ln = self.cells[s]
            if s > pos:
                pieces.append(undef(self.name, pos, s - pos)); pos = s
            h = min(off + n, s + ln)
            if isinstance(val, Ptr): raise Unsupported('partial pointer read')
            pieces.append(_slice(val, pos - s, h - pos)); pos = h
        if pos < off + n: pieces.append(undef(self.name, pos, off + n - pos))
        pieces.reverse()
        return t.concat(*pieces)

def undef(name, off, n):
    return t.var('undef!%s+%d' % (name, off), 8 * n)

def _slice(val, o, n):
    if isinstance(val, Ptr): return None
    return t.extract(val, 8 * (o + n) - 1, 8 * o)

class State:
    __slots__ = ('mem', 'env', 'pc', 'facts', 'prev', 'aux', 'leaks')
    def __init__(self):
        self.mem = {}; self.env = {}; self.pc = (); self.facts = {}; self.prev = None
        self.aux = {}; self.leaks = None
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.env = dict(self.env); s.pc = self.pc; s.facts = dict(self.facts)
        s.prev = self.prev; s.aux = dict(self.aux)
        for o in s.mem.values(): o.owner = None
        return s
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self:
            o = o.copy(); o.owner = self; self.mem[oid] = o
        return o
    def assume(self, c):
        """record condition c as true on this path"""
        if t.isc(c): return
        self.pc = self.pc + (c,)
        self._fact(c, True)
    def _fact(self, c, v):
        if t.isc(c): return
        self.facts[c] = v
        if v and c.op == 'and':
            for x in c.a: self._fact(x, True)
        if c.op == 'xor' and any(t.isc(x) for x in c.a):
            n = t.not_(c)
            if n.op != 'xor' or not any(t.isc(x) for x in n.a):
                self._fact(n, not v)

def decide_facts(c, facts, memo=None):
    if t.isc(c): return bool(c.v)
    v = facts.get(c)
    if v is not None: return v
    if c.op not in ('and', 'xor'): return None
    if memo is None: memo = {}
    elif c in memo: return memo[c]
    r = memo[c] = _decide_facts(c, facts, memo)
    return r
def _decide_facts(c, facts, memo):
    if c.op == 'and':
        allt = True
        for x in c.a:
            d = decide_facts(x, facts, memo)
            if d is False: return False
            if d is None: allt = False
        if allt: return True
        return None
    if c.op == 'xor':
        r = False
        for x in c.a:
            d = decide_facts(x, facts, memo)
            if d is None: return None
            r ^= d
        return r
    return None

def simplify_cond(c, facts, memo=None):
    """partially evaluate a boolean under known facts"""
    if t.isc(c): return c
    v = facts.get(c)
    if v is not None: return t.boolc(v)
    if c.op not in ('and', 'xor'): return c
    if memo is None: memo = {}
    elif c in memo: return memo[c]
    f = t.and_ if c.op == 'and' else t.xor
    r = memo[c] = f(*[simplify_cond(x, facts, memo) for x in c.a])
    return r

class Ob:
    """one proof obligation: under path condition pc, cond must hold"""
    __slots__ = ('kind', 'loc', 'pc', 'cond', 'status', 'by', 'info')
    def __init__(self, kind, loc, pc, cond):
        self.kind = kind; self.loc = loc; self.pc = pc; self.cond = cond
        self.status = None; self.by = None; self.info = None
    def __repr__(self): return 'Ob(%s @ %s: %s)' % (self.kind, self.loc, t.show(self.cond, 5))

_z3memo = {}
_sizes = {}
def term_size(roots, limit):
    seen = set(); st = list(roots); n = 0
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); n += 1
        if n > limit: return n
        st.extend(x.a)
    return n

SLOW = [1]      # factor on solver time limits (second attempt)
def z3_check(conds, timeout=2000, limit=4000):
    """'sat'/'unsat'/'unknown' for a conjunction of width-1 terms"""
    import z3
    if term_size(conds, limit) > limit: return 'unknown', None
    zs = t.to_z3(list(conds), _z3memo)
    s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
    s.set('timeout', timeout * SLOW[0])
    for z in zs: s.add(z == z3.BitVecVal(1, 1))
    r = s.check()
    if r == z3.sat: return 'sat', s.model()
    return ('unsat' if r == z3.unsat else 'unknown'), None

class Exec:
    """front-end independent part"""
    def __init__(self):
        self.obs = []            # undischarged-at-generation obligations
        self.n_trivial = 0       # obligations discharged by simplification
        self.contracts = {}
        self.used_contracts = {}
        self.inlined = {}
        self.deadline = None
        self.max_depth = 400
        self.feas_cache = {}
        self.leaks = None        # list of (kind, loc, term)
        self.nid = 0
        self.stack = []
        self.steps = 0
        self.decider = None
        self.cutter = None
        self.recog = None
        self.nomerge = False     # enumerate paths instead of merging at joins
        self.use_z3 = True
        self.z3_timeout = 1500
        self.z3_time = 0.0
    # ---------------------------------------------------------- obligations
    def loc(self): return ' < '.join(reversed(self.stack[-3:]))
    def tick(self):
        self.steps += 1
        if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline:
            raise Deadline()
    def oblige(self, st, cond, kind, loc=None):
        d = self.decide(st, cond, z3=False)
        if d is True:
            self.n_trivial += 1; return
        cond = simplify_cond(cond, st.facts)
        self.obs.append(Ob(kind, loc or self.loc(), st.pc, cond))
        st.assume(cond)
    def decide(self, st, c, z3=True):
        d = decide_facts(c, st.facts)
        if d is not None: return d
        if self.decider:
            d = self.decider(st, c)
            if d is not None: return d
        if not z3 or not self.use_z3: return None
        key = (st.pc, c)
        r = self.feas_cache.get(key)
        if r is None:
            t0 = time.time()
            a, _ = z3_check(st.pc + (c,), self.z3_timeout)
            if a == 'unsat': r = (False,)
            else:
                b, _ = z3_check(st.pc + (t.not_(c),), self.z3_timeout)
                r = (True,) if b == 'unsat' else (None,)
            self.z3_time += time.time() - t0
            self.feas_cache[key] = r
        return r[0]
    # ---------------------------------------------------------- memory
    def new_obj(self, st, name, size, ro=False, meta=None, oid=None):
        if oid is None:
            self.nid += 1; oid = '%s#%d' % (name, self.nid)
        o = Obj(oid, size, ro, meta); o.owner = st
        st.mem[oid] = o
        return oid
    def bounds(self, st, p, n, what):
        if p.obj is None:
            self.oblige(st, t.false(), 'null-dereference'); raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None:
            self.oblige(st, t.false(), 'use-after-scope'); raise PathEnd()
        if isinstance(n, int): n = t.const(n, 64)
        sz = o.size
        if sz is None: return o
        if isinstance(sz, int): sz = t.const(sz, 64)
        off = p.off
        if t.isc(off) and t.isc(sz) and t.isc(n):
            v = t.sgn(off.v, 64)
            if v < 0 or v + n.v > sz.v:
                self.oblige(st, t.false(), 'out-of-bounds %s' % what); raise PathEnd()
            self.n_trivial += 1
            return o
        # 0 <= off, off + n <= size  (as unsigned, no wrap because sizes < 2^63)
        c = t.and_(t.ule(n, sz), t.ule(off, t.sub(sz, n)))
        self.oblige(st, c, 'in-bounds %s' % what)
        return o
    def resolve(self, st, p):
        """region split: symbolic base offsets registered in the object"""
        o = st.mem.get(p.obj)
        if o is not None and 'regions' in o.meta and not t.isc(p.off):
            off = p.off; k = 0
            if off.op == 'lin': k = off.v[1]
            base = t.sub(off, t.const(k, 64))
            r = o.meta['regions'].get(base)
            if r is not None:
                return Ptr(r, t.const(k, 64))
        return p
    def load(self, st, p, n):
        p = self.resolve(st, p)
        o = self.bounds(st, p, n, 'read')
        if t.isc(p.off):
            if 'read' in o.meta and not o.overlapping(p.off.v, n):
                return o.meta['read'](self, st, p.off, n)
            return o.get(p.off.v, n)
        self.leak('address', p.off)
        if 'read' in o.meta: return o.meta['read'](self, st, p.off, n)
        return self.sym_load(st, o, p.off, n)
    def positions(self, st, o, off, n):
        """possible concrete offsets of a symbolic offset: k + c*idx"""
        if off.op == 'lin':
            cs = [c for c in off.v[0]]; k = off.v[1]
            step = 0
            from math import gcd
            for c, x in zip(off.v[0], off.a):
                z = 0; kz = x.kz
                while kz & 1: z += 1; kz >>= 1
                step = gcd(step, c << z) if c < (1 << 63) else gcd(step, (1 << 64) - c << z)
            start = k % step if step else k
        else:
            z = 0; kz = off.kz
            while kz & 1 and z < 6: z += 1; kz >>= 1
            step = 1 << z; start = 0
        hi = min(o.size - n, t.umax(off)) if isinstance(o.size, int) else None
        if hi is None: raise Unsupported('symbolic index into unbounded object')
        r = list(range(start, hi + 1, step))
        if len(r) > 300: raise Unsupported('symbolic index over %d positions' % len(r))
        return r
    def sym_load(self, st, o, off, n):
        ps = self.positions(st, o, off, n)
        vals = [o.get(x, n) for x in ps]
        if all(not isinstance(v, Ptr) and t.isc(v) for v in vals) and len(ps) > 1:
            # table over an index
            step = ps[1] - ps[0]
            sh = step.bit_length() - 1
            if step == 1 << sh:
                idx = t.lshr(t.sub(off, t.const(ps[0], 64)), t.const(sh, 64)) if ps[0] else t.lshr(off, t.const(sh, 64))
                return t.tab(tuple(v.v for v in vals), 8 * n, idx)
        r = vals[-1]
        for x, v in list(zip(ps, vals))[-2::-1]:
            r = t.ite(t.eq(off, t.const(x, 64)), v, r)
        return r
    def store(self, st, p, n, v):
        p = self.resolve(st, p)
        o = self.bounds(st, p, n, 'write')
        if o.ro:
            self.oblige(st, t.false(), 'write to read-only object %s' % o.name); raise PathEnd()
        if t.isc(p.off):
            st.wobj(p.obj).put(p.off.v, n, v); return
        self.leak('address', p.off)
        w = o.meta.get('write')
        if w: return w(self, st, p, n, v)
        w = st.wobj(p.obj)
        for x in self.positions(st, o, p.off, n):
            old = w.get(x, n)
            w.put(x, n, t.ite(t.eq(p.off, t.const(x, 64)), v, old))
    def copy(self, st, dst, src, n):
        dst = self.resolve(st, dst); src = self.resolve(st, src)
        if n == 0: return
        so = self.bounds(st, src, n, 'read'); do = self.bounds(st, dst, n, 'write')
        if do.ro:
            self.oblige(st, t.false(), 'write to read-only object %s' % do.name); raise PathEnd()
        if not t.isc(dst.off): raise Unsupported('memcpy to symbolic offset')
        if not t.isc(src.off):
            for i in range(n):
                v = self.load(st, src.addc(i), 1)
                st.wobj(dst.obj).put(dst.off.v + i, 1, v)
            return
        a = src.off.v; b = dst.off.v
        if 'read' in so.meta:
            for i in range(n):
                v = self.load(st, src.addc(i), 1)
                st.wobj(dst.obj).put(b + i, 1, v)
            return
        cells = []
        pos = a
        for s in so.overlapping(a, n):
            val, ln = so.cells[s]
            lo = max(s, a); h = min(a + n, s + ln)
            if lo > pos: cells.append((pos, lo - pos, None))
            if lo == s and h == s + ln: cells.append((lo, ln, val))
            else:
                x = _slice(val, lo - s, h - lo)
                cells.append((lo, h - lo, x))
            pos = h
        if pos < a + n: cells.append((pos, a + n - pos, None))
        w = st.wobj(dst.obj)
        for off, ln, val in cells:
            if val is None: w.put(off - a + b, ln, undef(so.name, off, ln))
            else: w.put(off - a + b, ln, val)
    def leak(self, kind, term):
        if self.leaks is not None: self.leaks.append((kind, self.loc(), term))
    # ---------------------------------------------------------- merge
    def merge(self, states):
        """merge a list of states (same program point) as far as possible"""
        if len(states) <= 1: return states
        out = [states[-1]]
        for s in reversed(states[:-1]):
            done = False
            for i, o in enumerate(out):
                m = self.merge2(s, o)
                if m is not None:
                    out[i] = m; done = True; break
            if not done: out.insert(0, s)
        return out
    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        ca = t.true(); cb = t.true()
        for c in a.pc[n:]: ca = t.and_(ca, c)
        for c in b.pc[n:]: cb = t.and_(cb, c)
        # the selecting condition: prefer a simple literal
        sel = ca
        if a.pc[n:] and b.pc[n:] and a.pc[n] is t.not_(b.pc[n]): sel = a.pc[n]
        elif not a.pc[n:] or not b.pc[n:]:
            return None
        return self.merge_with(a, b, sel, n, ca, cb)
    def mval(self, sel, x, y):
        if x is y: return x
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                return Ptr(x.obj, t.ite(sel, x.off, y.off))
            return None
        if isinstance(x, t.T) and isinstance(y, t.T) and x.w == y.w: return t.ite(sel, x, y)
        if isinstance(x, list) or isinstance(x, tuple):
            if type(x) == type(y) and len(x) == len(y):
                r = [self.mval(sel, p, q) for p, q in zip(x, y)]
                if any(v is None for v in r): return None
                return type(x)(r)
        if x == y: return x
        return None
    def merge_with(self, a, b, sel, n, ca, cb):
        if set(a.mem) != set(b.mem): 
            # objects created on one side only: keep both (unreachable from the other side)
            pass
        m = State()
        for k in a.mem.keys() | b.mem.keys():
            x = a.mem.get(k); y = b.mem.get(k)
            if x is y or y is None: m.mem[k] = x; x.owner = None; continue
            if x is None: m.mem[k] = y; y.owner = None; continue
            if x.size is not y.size and x.size != y.size:
                if isinstance(x.size, t.T) or isinstance(y.size, t.T):
                    return None
                return None
            z = Obj(x.name, x.size, x.ro, x.meta); z.owner = m
            if x.starts == y.starts and all(x.cells[s][1] == y.cells[s][1] for s in x.starts):
                z.starts = list(x.starts)
                for s in x.starts:
                    v1, ln = x.cells[s]; v2 = y.cells[s][0]
                    v = v1 if v1 is v2 else self.mval(sel, v1, v2)
                    if v is None: return None
                    z.cells[s] = (v, ln)
            else:
                bs = set()
                for o in (x, y):
                    for s in o.starts: bs.add(s); bs.add(s + o.cells[s][1])
                bs = sorted(bs)
                for lo, hi in zip(bs, bs[1:]):
                    if not x.overlapping(lo, hi - lo) and not y.overlapping(lo, hi - lo): continue
                    try:
                        v1 = x.get(lo, hi - lo); v2 = y.get(lo, hi - lo)
                    except Unsupported: return None
                    v = self.mval(sel, v1, v2)
                    if v is None: return None
                    z._ins(lo, hi - lo, v)
            m.mem[k] = z
        for k, x in a.env.items():
            y = b.env.get(k, self)
            if y is self: continue
            if x is y: m.env[k] = x
            else:
                v = self.mval(sel, x, y)
                if v is not None: m.env[k] = v
                elif self.must_merge(k): return None
        if a.prev != b.prev: m.prev = None
        else: m.prev = a.prev
        m.pc = a.pc[:n]
        m.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        for k in a.aux:
            if a.aux.get(k) != b.aux.get(k): return None
        if set(a.aux) != set(b.aux): return None
        m.aux = dict(a.aux)
        rest = t.or_(ca, cb)
        if not t.isc(rest):
            m.assume(rest)
        return m
    def must_merge(self, key): return False

class PathEnd(Exception): pass

# ------------------------------------------------------------------ CFG
class CFG:
    """blocks: label -> object with .succs (list of labels); exits have no succs.
    dead: labels that end in a failure (assert_fail/throw) - ignored for post-dominance."""
    def __init__(self, entry, succs, dead=()):
        self.entry = entry; self.succs = succs; self.dead = set(dead)
        labels = []
        seen = set(); st = [entry]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); labels.append(x)
            st.extend(succs[x])
        self.labels = labels
        # close dead: a block all of whose successors are dead is dead
        ch = True
        while ch:
            ch = False
            for l in labels:
                if l not in self.dead and succs[l] and all(s in self.dead for s in succs[l]):
                    self.dead.add(l); ch = True
        EXIT = None
        rs = {l: [s for s in succs[l] if s not in self.dead] for l in labels}
        full = set(labels) | {EXIT}
        pd = {l: set(full) for l in labels}
        pd[EXIT] = {EXIT}
        ch = True
        order = list(reversed(labels))
        while ch:
            ch = False
            for l in order:
                ss = rs[l] if rs[l] else [EXIT]
                n = None
                for s in ss:
                    n = set(pd[s]) if n is None else n & pd[s]
                n = n | {l}
                if n != pd[l]: pd[l] = n; ch = True
        self.ipdom = {}
        for l in labels:
            c = pd[l] - {l}
            best = None
            for x in c:
                if x is EXIT: continue
                # immediate: every other strict postdominator postdominates x
                if all((y is EXIT) or y is x or y in pd[x] for y in c):
                    best = x; break
            self.ipdom[l] = best
        # back edges / loop headers (via dominance-free DFS)
        color = {}; self.heads = set()
        st = [(entry, iter(succs[entry]))]; color[entry] = 1
        while st:
            x, it = st[-1]
            for s in it:
                if color.get(s) == 1: self.heads.add(s)
                elif s not in color:
                    color[s] = 1; st.append((s, iter(succs[s]))); break
            else:
                color[x] = 2; st.pop()
