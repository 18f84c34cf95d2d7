"""LLVM IR (clang -O0, opaque pointers) parser and symbolic executor."""
import re, subprocess, os, sys
from dv import terms as t
from dv.symex import *

TOK = re.compile(r'''c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|[%@]"[^"]*"|[%@][\w.$\-]+|"[^"]*"|-?\d+(?:\.\d+e[+-]?\d+)?|0x[0-9A-Fa-f]+|\.\.\.|[A-Za-z_][\w.]*|![\w.]*|\#\d+|[()\[\]{}<>,=*:]''')

class Ty:
    pass
class IntT(Ty):
    def __init__(self, n): self.n = n; self.size = (n + 7) // 8; self.align = min(8, max(1, 1 << (self.size - 1).bit_length()))
class PtrT(Ty):
    size = 8; align = 8
class VoidT(Ty):
    size = 0; align = 1
class ArrT(Ty):
    def __init__(self, n, e): self.n = n; self.e = e; self.size = n * e.size; self.align = e.align
class StructT(Ty):
    def __init__(self, fs, packed):
        self.fs = fs; off = 0; self.offs = []; al = 1
        for f in fs:
            if not packed:
                off = (off + f.align - 1) // f.align * f.align; al = max(al, f.align)
            self.offs.append(off); off += f.size
        self.align = al
        self.size = (off + al - 1) // al * al
class FnT(Ty):
    size = 0; align = 1

ATTRS = set('noundef nonnull zeroext signext nocapture readonly writeonly noalias immarg returned inreg readnone dso_local nofree dead_on_unwind writable unnamed_addr local_unnamed_addr allocptr'.split())
PATTRS = set('dereferenceable dereferenceable_or_null sret byval align allocsize memory captures range initializes'.split())

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x')
    def __init__(self, op, dst=None, ty=None, a=(), x=None):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.x = x

class Fn:
    def __init__(self, name, mod):
        self.name = name; self.mod = mod; self.params = []; self.ret = None
        self.blocks = {}; self.order = []; self.cfg = None; self.sret = False

class Parser:
    def __init__(self, prog, mod, text):
        self.prog = prog; self.mod = mod; self.types = {}; self.text = text
        self.lazy = {}
    def toks(self, s):
        self.s = TOK.findall(s); self.i = 0
    def peek(self): return self.s[self.i] if self.i < len(self.s) else None
    def next(self):
        x = self.s[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if x != y: raise Unsupported('parse: expected %s got %s in %s' % (x, y, ' '.join(self.s)[:200]))
    def type(self):
        x = self.next()
        if x == 'void': r = VoidT()
        elif x == 'ptr': r = PtrT()
        elif x == 'metadata': r = VoidT()
        elif re.fullmatch(r'i\d+', x): r = IntT(int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); r = ArrT(n, e)
        elif x in ('{', '<'):
            packed = False
            if x == '<':
                if self.peek() != '{': raise Unsupported('vector type')
                self.expect('{'); packed = True
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            if packed: self.expect('>')
            r = StructT(fs, packed)
        elif x[0] == '%': r = self.named(x)
        elif x in ('float', 'double', 'half', 'x86_fp80'): raise Unsupported('floating point')
        else: raise Unsupported('type %s' % x)
        # function type  ret (args)
        if self.peek() == '(' and getattr(self, 'fnty_ok', False):
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
            r2 = FnT(); r2.ret = r; return r2
        return r
    def named(self, x):
        if x not in self.types:
            if x not in self.lazy: raise Unsupported('opaque type ' + x)
            sv = (self.s, self.i)
            self.toks(self.lazy[x]); self.types[x] = self.type()
            self.s, self.i = sv
        return self.types[x]
    def attrs(self):
        r = {}
        while True:
            p = self.peek()
            if p in ATTRS: self.next(); r[p] = True
            elif p in PATTRS:
                self.next()
                if p == 'align' and self.peek() != '(':
                    self.next(); continue
                d = 0
                while True:
                    y = self.next()
                    if y == '(': d += 1
                    if y == ')':
                        d -= 1
                        if d == 0: break
                r[p] = True
            elif p and p[0] == '#': self.next()
            else: return r
    def value(self, ty):
        x = self.next()
        if x[0] == '%': return ('r', x)
        if x[0] == '@': return ('g', self.gname(x[1:].strip('"')))
        if re.fullmatch(r'-?\d+', x): return ('c', int(x))
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('n',)
        if x in ('undef', 'poison'): return ('u',)
        if x == 'zeroinitializer': return ('z',)
        if x.startswith('c"'): return ('s', unescape(x[2:-1]))
        if x == '[' or x == '{' or x == '<':
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<': self.expect('{')
            vs = []
            if self.peek() not in (']', '}'):
                while True:
                    ety = self.type(); vs.append((ety, self.value(ety)))
                    if not self.accept(','): break
            if x == '<': self.expect('}')
            self.expect(close)
            return ('a', vs)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            self.expect('(')
            bty = self.type(); self.expect(','); self.expect('ptr'); b = self.value(None)
            idx = []
            while self.accept(','):
                while self.peek() == 'inrange': self.next()
                ity = self.type(); idx.append((ity, self.value(ity)))
            self.expect(')')
            return ('gep', bty, b, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast'):
            raise Unsupported('constexpr ' + x)
        raise Unsupported('value %s' % x)
    def gname(self, n):
        return self.prog.localname(self.mod, n)
    def parse(self):
        lines = self.text.split('\n')
        prog = self.prog
        # first pass: local (internal/private) names
        loc = set()
        for l in lines:
            m = re.match(r'@("?[\w.$\-]+"?) = (?:dso_local )?(private|internal) ', l)
            if m: loc.add(m.group(1).strip('"'))
            m = re.match(r'define (internal|private) .*?@("?[\w.$\-]+"?)\(', l)
            if m: loc.add(m.group(2).strip('"'))
        prog.locals[self.mod] = loc
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, d = l.split(' = type ', 1)
                if d.strip() != 'opaque': self.lazy[n] = d
            i += 1
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                self.glob(l)
            elif l.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                self.func(l, lines[i + 1:j])
                i = j
            i += 1
    def glob(self, l):
        m = re.match(r'@("?[\w.$\-]+"?) = (.*)$', l)
        name = m.group(1).strip('"'); rest = m.group(2)
        if name == 'llvm.global_ctors':
            for f in re.findall(r'ptr @("?[\w.$\-]+"?), ptr', rest):
                self.prog.ctors.append(self.gname(f.strip('"')))
            return
        if name.startswith('llvm.'): return
        if ' alias ' in rest:
            m = re.search(r'ptr @("?[\w.$\-]+"?)\s*$', rest)
            self.prog.alias[name] = self.gname(m.group(1).strip('"')); return
        ext = bool(re.match(r'(dso_local )?external', rest))
        m = re.search(r'\b(global|constant) ', rest)
        isc = m.group(1) == 'constant'
        rest = rest[m.end():]
        self.toks(rest)
        ty = self.type()
        gn = self.gname(name)
        if ext:
            self.prog.gext.setdefault(gn, ty); return
        v = self.value(ty)
        self.prog.globals[gn] = (ty, v, isc)
    def func(self, head, body):
        m = re.match(r'define (.*?)@("?[\w.$\-]+"?)\((.*)\)(.*)$', head)
        pre, name, args, post = m.groups()
        name = self.gname(name.strip('"'))
        f = Fn(name, self.mod)
        self.toks(pre)
        while self.peek() in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak', 'weak_odr', 'hidden', 'available_externally', 'linkonce', 'preemptable', 'protected'): self.next()
        self.attrs(); f.ret = self.type()
        # params: need the balanced closing paren of the args
        depth = 0; s = head[head.index('@'):]
        k = s.index('('); d = 0
        for q in range(k, len(s)):
            if s[q] == '(': d += 1
            if s[q] == ')':
                d -= 1
                if d == 0: break
        self.toks(s[k + 1:q])
        n = 0
        while self.peek() is not None:
            if self.accept('...'): break
            ty = self.type(); at = self.attrs()
            pn = self.next() if self.peek() and self.peek()[0] == '%' else '%%%d' % n
            n += 1
            if 'sret' in at: f.sret = True
            f.params.append((ty, pn, at))
            self.accept(',')
        f.nunnamed = n
        f.text = body
        f.parser = self
        self.prog.fns[name] = f
    def body(self, f):
        cur = None; first = True
        buf = None
        unnamed = len([1 for ty, pn, at in f.params if re.fullmatch(r'%\d+', pn)])
        for l in f.text:
            if not l.strip(): continue
            m = re.match(r'^("?[\w.$\-]+"?):', l)
            if m and not l.startswith(' '):
                cur = '%' + m.group(1); f.blocks[cur] = []; f.order.append(cur); first = False
                continue
            if cur is None:
                cur = '%' + str(unnamed); f.blocks[cur] = []; f.order.append(cur)
            if buf is not None:
                buf += ' ' + l
                if l.strip() == ']':
                    l = buf; buf = None
                else: continue
            elif l.strip().startswith('switch') and ']' not in l:
                buf = l; continue
            l = re.sub(r'(, )?!\w+ !\d+', '', l)
            l = re.sub(r'; .*$', '', l)
            self.toks(l)
            ins = self.inst()
            if ins is not None: f.blocks[cur].append(ins)
        succs = {}; dead = set()
        for b in f.order:
            ins = f.blocks[b]
            last = ins[-1]
            if last.op == 'br': succs[b] = list(dict.fromkeys(last.x))
            elif last.op == 'switch': succs[b] = list(dict.fromkeys([last.x[0]] + [d for _, d in last.x[1]]))
            else: succs[b] = []
            if last.op == 'unreachable': dead.add(b)
        f.cfg = CFG(f.order[0], succs, dead)
    def tv(self):
        ty = self.type(); self.attrs(); return (ty, self.value(ty))
    def inst(self):
        dst = None
        if self.peek()[0] == '%' and self.s[self.i + 1] == '=':
            dst = self.next(); self.next()
        op = self.next()
        if op in ('tail', 'musttail', 'notail'): op = self.next()
        if op == 'alloca':
            ty = self.type(); cnt = None
            if self.accept(','):
                if self.peek() != 'align': cnt = self.tv()
            return Inst('alloca', dst, ty, x=cnt)
        if op == 'load':
            if self.peek() in ('volatile', 'atomic'): raise Unsupported('volatile')
            ty = self.type(); self.expect(','); p = self.tv()
            return Inst('load', dst, ty, (p,))
        if op == 'store':
            v = self.tv(); self.expect(','); p = self.tv()
            return Inst('store', None, v[0], (v, p))
        if op == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next(); inb = True
            bty = self.type(); self.expect(','); b = self.tv(); idx = []
            while self.accept(','): idx.append(self.tv())
            return Inst('gep', dst, bty, (b,) + tuple(idx), inb)
        if op == 'br':
            if self.accept('label'):
                return Inst('br', x=(self.next(),))
            c = self.tv(); self.expect(','); self.expect('label'); a = self.next(); self.expect(','); self.expect('label'); b = self.next()
            return Inst('br', a=(c,), x=(a, b))
        if op == 'switch':
            v = self.tv(); self.expect(','); self.expect('label'); d = self.next(); self.expect('[')
            cs = []
            while not self.accept(']'):
                c = self.tv(); self.expect(','); self.expect('label'); cs.append((c[1][1], self.next()))
            return Inst('switch', a=(v,), x=(d, cs))
        if op == 'ret':
            if self.peek() == 'void': return Inst('ret')
            return Inst('ret', a=(self.tv(),))
        if op == 'unreachable': return Inst('unreachable')
        if op == 'phi':
            ty = self.type(); ins = []
            while True:
                self.expect('['); v = self.value(ty); self.expect(','); l = self.next(); self.expect(']')
                ins.append((l, v))
                if not self.accept(','): break
            return Inst('phi', dst, ty, x=ins)
        if op == 'select':
            c = self.tv(); self.expect(','); a = self.tv(); self.expect(','); b = self.tv()
            return Inst('select', dst, a[0], (c, a, b))
        if op == 'icmp':
            self.accept('samesign')
            pr = self.next(); ty = self.type(); a = self.value(ty); self.expect(','); b = self.value(ty)
            return Inst('icmp', dst, ty, ((ty, a), (ty, b)), pr)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            fl = set()
            while self.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): fl.add(self.next())
            ty = self.type(); a = self.value(ty); self.expect(','); b = self.value(ty)
            return Inst('bin', dst, ty, ((ty, a), (ty, b)), (op, fl))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            while self.peek() in ('nneg', 'nuw', 'nsw'): self.next()
            a = self.tv()
            if op == 'freeze': return Inst('cast', dst, a[0], (a,), op)
            self.expect('to'); ty = self.type()
            return Inst('cast', dst, ty, (a,), op)
        if op == 'call':
            self.attrs()
            self.fnty_ok = True
            ty = self.type()
            self.fnty_ok = False
            if isinstance(ty, FnT): ty = ty.ret
            callee = self.value(None)
            self.expect('(')
            args = []
            while not self.accept(')'):
                if self.peek() == 'metadata': 
                    while self.peek() not in (',', ')'): self.next()
                else: args.append(self.tv())
                self.accept(',')
            return Inst('call', dst, ty, tuple(args), callee)
        if op == 'extractvalue':
            raise Unsupported('extractvalue')
        if op in ('fence',): return None
        raise Unsupported('instruction ' + op)

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

class Program:
    def __init__(self):
        self.fns = {}; self.globals = {}; self.gext = {}; self.alias = {}; self.ctors = []; self.locals = {}
        self.base = None; self.dem = {}
    def localname(self, mod, n):
        return mod + '::' + n if n in self.locals.get(mod, ()) else n
    def add(self, mod, text):
        Parser(self, mod, text).parse()
    def finish(self):
        names = list(self.fns) + list(self.alias)
        raw = [n.split('::')[-1] for n in names]
        out = subprocess.run(['llvm-cxxfilt'] + raw, capture_output=True, text=True).stdout.split('\n') if raw else []
        for n, d in zip(names, out): self.dem[n] = d
        self.bydem = {}
        for n, d in self.dem.items(): self.bydem.setdefault(d, n)
    def fn(self, name):
        while name in self.alias: name = self.alias[name]
        f = self.fns.get(name)
        if f is not None and not f.blocks: f.parser.body(f)
        return f

class LExec(Exec):
    def __init__(self, prog):
        Exec.__init__(self)
        self.prog = prog
        self.ext = dict(EXTERNALS)
        self.depth = 0
        self.ctor_mode = False
        self.loopcut = None; self.merge_at = None
        self.hooks = {}          # (fn name, label) -> callable at block entry
    # ---- initial state
    def base_state(self):
        st = State()
        for g, (ty, v, isc) in self.prog.globals.items():
            o = Obj(g, ty.size, ro=isc); o.owner = st
            st.mem['@' + g] = o
            o.name = '@' + g
            self.init(st, o, 0, ty, v)
        return st
    def init(self, st, o, off, ty, v):
        k = v[0]
        if k == 'z':
            if ty.size: o.put(off, ty.size, t.const(0, 8 * ty.size))
        elif k == 's':
            for i, b in enumerate(v[1]): o.put(off + i, 1, t.const(b, 8))
        elif k == 'c': o.put(off, ty.size, t.const(v[1], 8 * ty.size))
        elif k == 'a':
            if isinstance(ty, ArrT):
                for i, (et, ev) in enumerate(v[1]): self.init(st, o, off + i * ty.e.size, et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]): self.init(st, o, off + ty.offs[i], et, ev)
        elif k in ('g', 'n', 'gep'): o.put(off, 8, self.val(st, {}, PtrT(), v))
        elif k == 'u': pass
        else: raise Unsupported('initializer')
    def run_ctors(self, order=None):
        st = self.base_state()
        self.ctor_mode = True
        for c in (order or self.prog.ctors):
            rs = self.call_fn(st, self.prog.fn(c), [])
            if len(rs) != 1: raise Unsupported('global constructor forks')
            st = rs[0][0]
        self.ctor_mode = False
        for o in st.mem.values():
            if o.name.startswith('@'): o.ro = True
        return st
    # ---- values
    def val(self, st, env, ty, v):
        k = v[0]
        if k == 'r':
            return env[v[1]]
        if k == 'c': return t.const(v[1], ty.n)
        if k == 'g':
            n = v[1]
            while n in self.prog.alias: n = self.prog.alias[n]
            if n in self.prog.fns: return ('fn', n)
            return P('@' + n)
        if k == 'n': return NULL
        if k == 'u':
            if isinstance(ty, PtrT): return NULL
            return t.fresh('undef', ty.n)
        if k == 'z':
            if isinstance(ty, PtrT): return NULL
            return t.const(0, ty.n)
        if k == 'gep':
            return self.gep(self.val(st, env, PtrT(), v[2]), v[1], [(it, self.val(st, env, it, iv)) for it, iv in v[3]])
        raise Unsupported('value kind ' + k)
    def gep(self, p, ty, idx):
        if not isinstance(p, Ptr): raise Unsupported('gep on non-pointer')
        off = p.off
        first = True
        pairs = [(1, off)]; k = 0
        for it, iv in idx:
            i = t.sext(iv, 64) if iv.w < 64 else iv
            if first:
                pairs.append((ty.size, i)); first = False
            elif isinstance(ty, ArrT):
                ty = ty.e; pairs.append((ty.size, i))
            elif isinstance(ty, StructT):
                if not t.isc(i): raise Unsupported('gep struct')
                k += ty.offs[i.v]; ty = ty.fs[i.v]
            else: raise Unsupported('gep type')
        return Ptr(p.obj, t.lin(pairs, k, 64))
    # ---- functions
    def call_fn(self, st, f, args):
        """execute f's body; returns list of (state, ret)"""
        self.depth += 1
        if self.depth > 60: raise Unsupported('call depth')
        self.stack.append(self.prog.dem.get(f.name, f.name))
        try:
            saved = (st.env, st.prev)
            st.env = {}; st.prev = None
            keep = set(st.mem)
            for (ty, pn, at), a in zip(f.params, args): st.env[pn] = a
            rets = []
            outs = self.run(f, f.cfg.entry, st, None, rets)
            assert not outs
            for s, r in rets: s.env = {'ret': r}; s.prev = None
            self.merge_at = (f, None)
            ms = self.merge([s for s, r in rets]) if not self.nomerge else [s for s, r in rets]
            res = []
            for s in ms:
                r = s.env.get('ret')
                s.env = saved[0]; s.prev = saved[1]
                if len(ms) > 1: s.env = dict(saved[0])
                for k in list(s.mem):
                    if k not in keep and k.startswith('stk:'): del s.mem[k]
                res.append((s, r))
            return res
        finally:
            self.stack.pop(); self.depth -= 1
    def must_merge(self, key): return key == 'ret'
    def loop_env(self, f, label, st):
        """environment slots that live across a loop head"""
        return [x.dst for x in f.blocks[label] if x.op == 'phi']
    def is_fail(self, f, label):
        n = 0
        while n < 6:
            ins = f.blocks[label]
            i = 0
            for x in ins:
                if x.op == 'call' and x.x[0] == 'g' and x.x[1] in ('__assert_fail', 'abort', '__assert'): return x
                if x.op not in ('load', 'gep', 'cast', 'bin', 'icmp', 'phi'): break
            else: return None
            x = ins[-1]
            if len(ins) == 1 and x.op == 'br' and len(x.x) == 1: label = x.x[0]; n += 1; continue
            return None
        return None
    def assert_text(self, x):
        try:
            g = self.prog.globals[x.a[0][1][1]]
            return g[1][1].rstrip(b'\0').decode()
        except Exception: return '?'
    def run(self, f, label, st, stop, rets, idx=0):
        """run from block label until block stop (exclusive); returns states that reached stop"""
        out = []
        work = [(label, idx, st)]
        while work:
            label, idx, st = work.pop()
            self.tick()
            if idx == 0:
                h = self.hooks.get((f.name, label))
                if h is not None:
                    r = h(self, f, label, st)
                    if r is not None:
                        for l2, s2 in r: work.append((l2, 0, s2))
                        continue
                prev = st.prev
                self.phis(f, label, st)
                if self.loopcut is not None:
                    r = self.loopcut.at(self, f, label, st, prev)
                    if r is not None:
                        for l2, s2 in r: work.append((l2, 0, s2))
                        continue
                if label == stop:
                    out.append(st); continue
                if self.cutter is not None and label in f.cfg.heads: self.cutter(self, f, label, st)
            res = self.block(f, label, idx, st, rets, stop)
            for x in res: work.append(x)
        return out
    def phis(self, f, label, st):
        if st.prev is None or st.prev == 'done': return
        new = []
        for ins in f.blocks[label]:
            if ins.op != 'phi': break
            for l, v in ins.x:
                if l == st.prev:
                    new.append((ins.dst, self.val(st, st.env, ins.ty, v))); break
            else: raise Unsupported('phi edge')
        for d, v in new: st.env[d] = v
        st.prev = 'done'
    def block(self, f, label, idx, st, rets, stop):
        ins = f.blocks[label]
        n = len(ins)
        while idx < n:
            x = ins[idx]; op = x.op
            env = st.env
            try:
                if op == 'load':
                    p = self.val(st, env, PtrT(), x.a[0][1])
                    if not isinstance(p, Ptr): raise Unsupported('load via non-pointer')
                    ty = x.ty
                    v = self.load(st, p, ty.size)
                    if isinstance(ty, IntT):
                        if isinstance(v, Ptr): raise Unsupported('pointer read as integer')
                        if ty.n != v.w: v = t.trunc(v, ty.n)
                    elif isinstance(ty, PtrT):
                        if isinstance(v, t.T):
                            if t.isc(v) and v.v == 0: v = NULL
                            else: raise Unsupported('integer read as pointer')
                    env[x.dst] = v
                elif op == 'store':
                    ty = x.ty
                    v = self.val(st, env, ty, x.a[0][1]); p = self.val(st, env, PtrT(), x.a[1][1])
                    if isinstance(v, t.T) and v.w != 8 * ty.size: v = t.zext(v, 8 * ty.size)
                    self.store(st, p, ty.size, v)
                elif op == 'bin':
                    a = self.val(st, env, x.ty, x.a[0][1]); b = self.val(st, env, x.ty, x.a[1][1])
                    env[x.dst] = self.binop(st, x.x[0], x.x[1], a, b)
                elif op == 'cast':
                    a = self.val(st, env, x.a[0][0], x.a[0][1])
                    env[x.dst] = self.cast(st, x.x, a, x.ty)
                elif op == 'gep':
                    b = self.val(st, env, PtrT(), x.a[0][1])
                    env[x.dst] = self.gep(b, x.ty, [(it, self.val(st, env, it, iv)) for it, iv in x.a[1:]])
                elif op == 'icmp':
                    a = self.val(st, env, x.ty, x.a[0][1]); b = self.val(st, env, x.ty, x.a[1][1])
                    env[x.dst] = self.icmp(x.x, a, b)
                elif op == 'alloca':
                    cnt = 1
                    if x.x is not None:
                        c = self.val(st, env, x.x[0], x.x[1])
                        if not t.isc(c): raise Unsupported('variable alloca')
                        cnt = c.v
                    self.nid += 1
                    oid = 'stk:%s#%d' % (x.dst, self.nid)
                    o = Obj(oid, x.ty.size * cnt); o.owner = st; st.mem[oid] = o
                    env[x.dst] = P(oid)
                elif op == 'phi': pass
                elif op == 'select':
                    c = self.val(st, env, x.a[0][0], x.a[0][1])
                    a = self.val(st, env, x.ty, x.a[1][1]); b = self.val(st, env, x.ty, x.a[2][1])
                    if t.isc(c): env[x.dst] = a if c.v else b
                    else:
                        d = self.decide(st, c, z3=False)
                        if d is not None: env[x.dst] = a if d else b
                        else:
                            self.leak('select', c)
                            v = self.mval(c, a, b)
                            if v is None:
                                s2 = st.fork(); st.assume(c); s2.assume(t.not_(c))
                                st.env[x.dst] = a; s2.env[x.dst] = b
                                return [(label, idx + 1, st), (label, idx + 1, s2)]
                            env[x.dst] = v
                elif op == 'call':
                    res = self.call(f, st, x)
                    if len(res) == 1:
                        st, r = res[0]
                        if x.dst is not None: st.env[x.dst] = r
                    else:
                        o = []
                        for s2, r in res:
                            s2.env = dict(s2.env)
                            if x.dst is not None: s2.env[x.dst] = r
                            o.append((label, idx + 1, s2))
                        return o
                elif op == 'br':
                    if len(x.x) == 1:
                        st.prev = label
                        return [(x.x[0], 0, st)]
                    c = self.val(st, env, x.a[0][0], x.a[0][1])
                    return self.branch(f, label, st, [(c, x.x[0]), (t.not_(c), x.x[1])], rets, stop)
                elif op == 'switch':
                    v = self.val(st, env, x.a[0][0], x.a[0][1])
                    cs = []; rest = t.true()
                    for k, l in x.x[1]:
                        e = t.eq(v, t.const(k, v.w)); cs.append((e, l)); rest = t.and_(rest, t.not_(e))
                    cs.append((rest, x.x[0]))
                    return self.branch(f, label, st, cs, rets, stop)
                elif op == 'ret':
                    r = self.val(st, env, x.a[0][0], x.a[0][1]) if x.a else None
                    rets.append((st, r)); return []
                elif op == 'unreachable':
                    self.oblige(st, t.false(), 'reaches unreachable/assertion failure'); return []
                else: raise Unsupported(op)
            except PathEnd:
                return []
            idx += 1
        raise Unsupported('block without terminator')
    def branch(self, f, label, st, cases, rets, stop):
        live = []
        for c, l in cases:
            if t.isc(c) and not c.v: continue
            x = self.is_fail(f, l)
            if x is not None and not self.ctor_mode:
                self.oblige(st, t.not_(c), 'assert(%s)' % self.assert_text(x)); continue
            live.append((c, l))
        if len(live) == 1:
            st.prev = label
            return [(live[0][1], 0, st)]
        l2 = []
        for c, l in live:
            d = self.decide(st, c)
            if d is True: l2 = [(c, l)]; break
            if d is None: l2.append((c, l))
        live = l2
        if not live: return []
        if len(live) == 1:
            c, l = live[0]
            st.assume(c) if not t.isc(c) and decide_facts(c, st.facts) is None else None
            st.prev = label
            return [(l, 0, st)]
        for c, l in live: self.leak('branch', c)
        j = f.cfg.ipdom.get(label) if not self.nomerge else None
        states = []
        self.forks = getattr(self, 'forks', 0) + 1
        self.bdepth = getattr(self, 'bdepth', 0) + 1
        if self.bdepth > self.max_depth:
            self.bdepth = 0
            raise Unsupported('unbounded symbolic loop in %s' % self.prog.dem.get(f.name, f.name))
        nr = len(rets)
        for i, (c, l) in enumerate(live):
            s = st.fork() if i < len(live) - 1 else st
            s.assume(c); s.prev = label
            states += self.run(f, l, s, j, rets) if j is not None else self.run(f, l, s, None, rets)
        self.bdepth -= 1
        if j is None: return []
        self.merge_at = (f, j)
        ms = self.merge(states)
        return [(j, -1 if False else 0, s) for s in ms]
    # ---- calls
    def call(self, f, st, x):
        k = x.x
        if k[0] == 'r':
            v = st.env[k[1]]
            if not (isinstance(v, tuple) and v[0] == 'fn'): raise Unsupported('indirect call')
            name = v[1]
        else: name = k[1]
        while name in self.prog.alias: name = self.prog.alias[name]
        args = [self.val(st, st.env, ty, v) for ty, v in x.a]
        return self.invoke(st, name, args)
    def invoke(self, st, name, args):
        dem = self.prog.dem.get(name, name)
        c = self.contracts.get(dem)
        if c is not None and not self.ctor_mode:
            self.used_contracts[dem] = self.used_contracts.get(dem, 0) + 1
            self.stack.append(dem)
            try: r = c(self, st, args)
            finally: self.stack.pop()
            return r
        fn = self.prog.fn(name)
        if fn is not None:
            self.inlined[dem] = self.inlined.get(dem, 0) + 1
            return self.call_fn(st, fn, args)
        base = name
        for pre in self.ext:
            if base == pre or (pre.endswith('*') and base.startswith(pre[:-1])):
                return self.ext[pre](self, st, args)
        raise Unsupported('external function ' + dem)
    # ---- operations
    def binop(self, st, op, fl, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('arithmetic on pointer')
        w = a.w
        if op in ('add', 'sub', 'mul'):
            f = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op]
            r = f(a, b)
            if 'nsw' in fl and not (t.isc(a) and t.isc(b) and self._nsw_const(op, a, b)):
                # the signed result must be representable
                W = w + 1 if op != 'mul' else 2 * w
                wide = f(t.sext(a, W), t.sext(b, W))
                self.oblige(st, t.eq(t.sext(r, W), wide), 'signed overflow (%s)' % op)
            return r
        if op == 'and': return t.and_(a, b)
        if op == 'or': return t.or_(a, b)
        if op == 'xor': return t.xor(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if not (t.isc(b) and b.v < w):
                self.oblige(st, t.ult(b, t.const(w, w)) , 'shift amount in range')
            return {'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr}[op](a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not (t.isc(b) and b.v):
                self.oblige(st, t.ne(b, t.const(0, w)), 'division by zero')
            if op in ('sdiv', 'srem') and not (t.isc(b) and b.v != t.M(w)):
                self.oblige(st, t.not_(t.and_(t.eq(a, t.const(1 << (w - 1), w)), t.eq(b, t.const(t.M(w), w)))), 'division overflow')
            if not t.isc(a) : self.leak('division', a)
            return {'udiv': t.udiv, 'urem': t.urem, 'sdiv': t.sdiv, 'srem': t.srem}[op](a, b)
        raise Unsupported(op)
    def _nsw_const(self, op, a, b):
        x = t.sgn(a.v, a.w); y = t.sgn(b.v, a.w)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        return -(1 << (a.w - 1)) <= r < (1 << (a.w - 1))
    def cast(self, st, op, a, ty):
        if op == 'zext': return t.zext(a, ty.n)
        if op == 'sext': return t.sext(a, ty.n)
        if op == 'trunc': return t.trunc(a, ty.n)
        if op in ('bitcast', 'freeze'): return a
        if op == 'ptrtoint':
            if a.obj is None: return t.trunc(t.zext(a.off, 64), ty.n)
            return t.add(t.var('addr!' + a.obj, 64), a.off)
        if op == 'inttoptr':
            raise Unsupported('inttoptr')
        raise Unsupported(op)
    def icmp(self, pr, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('pointer compare')
            if a.obj != b.obj:
                if pr == 'eq': return t.false()
                if pr == 'ne': return t.true()
                raise Unsupported('ordering of unrelated pointers')
            a, b = a.off, b.off
        f = {'eq': t.eq, 'ne': t.ne, 'ult': t.ult, 'ule': t.ule, 'ugt': lambda x, y: t.ult(y, x), 'uge': lambda x, y: t.ule(y, x),
             'slt': t.slt, 'sle': t.sle, 'sgt': lambda x, y: t.slt(y, x), 'sge': lambda x, y: t.sle(y, x)}[pr]
        return f(a, b)

# ------------------------------------------------------------ externals
def _conc(n):
    if not t.isc(n): raise Unsupported('symbolic length memory operation')
    return n.v
def x_memcpy(ex, st, a):
    h = st.aux.get('memcpy_hook')
    if not t.isc(a[2]):
        if 'sym_memcpy' in ex.ext: return ex.ext['sym_memcpy'](ex, st, a)
    n = _conc(a[2])
    if n:
        d, s = a[0], a[1]
        if d.obj == s.obj and t.isc(d.off) and t.isc(s.off) and abs(d.off.v - s.off.v) < n and d.off.v != s.off.v:
            ex.oblige(st, t.false(), 'memcpy of overlapping regions')
        ex.copy(st, d, s, n)
    return [(st, a[0])]
def x_memmove(ex, st, a):
    n = _conc(a[2])
    if n: ex.copy(st, a[0], a[1], n)
    return [(st, a[0])]
def x_memset(ex, st, a):
    if not t.isc(a[2]):
        if 'sym_memset' in ex.ext: return ex.ext['sym_memset'](ex, st, a)
    n = _conc(a[2]); v = a[1]
    if v.w > 8: v = t.trunc(v, 8)
    if n:
        p = ex.resolve(st, a[0])
        if t.isc(p.off):
            o = ex.bounds(st, p, n, 'write')
            if o.ro:
                ex.oblige(st, t.false(), 'write to read-only object %s' % o.name); raise PathEnd()
            if t.isc(v): st.wobj(p.obj).put(p.off.v, n, t.const(int.from_bytes(bytes([v.v]) * n, 'little'), 8 * n))
            else:
                for i in range(n): st.wobj(p.obj).put(p.off.v + i, 1, v)
        else:
            for i in range(n): ex.store(st, p.addc(i), 1, v)
    return [(st, a[0])]
def x_strlen(ex, st, a):
    p = a[0]
    o = st.mem.get(p.obj)
    if p.obj is None:
        ex.oblige(st, t.false(), 'strlen(null)'); raise PathEnd()
    sl = o.meta.get('strlen')
    if sl is not None:
        if isinstance(sl, int): sl = t.const(sl, 64)
        return [(st, t.sub(sl, p.off))]
    if not t.isc(p.off): raise Unsupported('strlen at symbolic offset')
    i = p.off.v
    while True:
        v = ex.load(st, t_ptr(p.obj, i), 1)
        if t.isc(v):
            if v.v == 0: return [(st, t.const(i - p.off.v, 64))]
        else: raise Unsupported('strlen of symbolic string')
        i += 1
def t_ptr(o, i): return P(o, i)
def x_assert_fail(ex, st, a):
    ex.oblige(st, t.false(), 'assertion failure reached'); raise PathEnd()
def x_strchr(ex, st, a):
    """strchr(constant string, c): null or the first position"""
    p, c = a
    c = t.trunc(c, 8)
    o = st.mem[p.obj]
    if not t.isc(p.off): raise Unsupported('strchr offset')
    s = []
    i = p.off.v
    while True:
        v = ex.load(st, P(p.obj, i), 1)
        if not t.isc(v): raise Unsupported('strchr in a symbolic string')
        s.append(v.v); i += 1
        if v.v == 0: break
    pos = {}
    for k, v in enumerate(s): pos.setdefault(v, k)
    if t.isc(c):
        return [(st, P(p.obj, p.off.v + pos[c.v]) if c.v in pos else NULL)]
    mem = t.ne(t.tab(tuple(1 if v in pos else 0 for v in range(256)), 8, c), t.const(0, 8))
    idx = t.tab(tuple(pos.get(v, 0) for v in range(256)), 8, c)
    d = ex.decide(st, mem)
    ex.leak('strchr', c)
    found = Ptr(p.obj, t.add(p.off, t.zext(idx, 64)))
    if d is True: return [(st, found)]
    if d is False: return [(st, NULL)]
    s2 = st.fork(); st.assume(mem); s2.assume(t.not_(mem))
    return [(st, found), (s2, NULL)]
def x_memcmp(ex, st, a):
    n = _conc(a[2])
    r = t.const(0, 32)
    for i in range(n - 1, -1, -1):
        x = ex.load(st, a[0].addc(i), 1); y = ex.load(st, a[1].addc(i), 1)
        d = t.sub(t.zext(x, 32), t.zext(y, 32))
        r = t.ite(t.eq(x, y), r, d)
    return [(st, r)]
def x_nop(ex, st, a): return [(st, None)]
EXTERNALS = {'llvm.memcpy.*': x_memcpy, 'memcpy': x_memcpy, 'llvm.memmove.*': x_memmove, 'memmove': x_memmove,
    'llvm.memset.*': x_memset, 'memset': x_memset, 'strlen': x_strlen, '__assert_fail': x_assert_fail, 'strchr': x_strchr,
    'memcmp': x_memcmp, 'llvm.lifetime.*': x_nop, 'llvm.assume': x_nop, 'llvm.dbg.*': x_nop}

# ------------------------------------------------------------ building
CPP = ['Uint256', 'FieldInt', 'CurvePoint', 'Ecdsa', 'ExtendedPrivateKey', 'Base58Check', 'Sha256', 'Sha256Hash', 'Sha512', 'Ripemd160', 'Keccak256', 'Utils']
def repo_cpp(): return os.environ.get('REPO', '/repo') + '/cpp'
def lib_sources():
    d = repo_cpp()
    skip = ('Test.cpp', 'OpCount.cpp')
    return sorted(f for f in os.listdir(d) if f.endswith('.cpp') and not f.endswith(skip) and f != 'RunBenchmark.cpp')
def compile_ll(outdir, defs=(), srcs=None):
    procs = []
    d = repo_cpp()
    for s in srcs or lib_sources():
        o = os.path.join(outdir, s[:-4] + '.ll')
        cmd = ['clang++', '-std=c++11', '-O0', '-fno-exceptions', '-fno-rtti', '-fno-discard-value-names', '-S', '-emit-llvm', '-w'] + list(defs) + ['-o', o, os.path.join(d, s)]
        procs.append((s, o, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
    r = []
    for s, o, p in procs:
        e = p.communicate()[1]
        if p.returncode: raise Unsupported('clang failed on %s: %s' % (s, e[:500]))
        r.append((s[:-4], o))
    return r
def load_program(outdir, defs=()):
    prog = Program()
    for m, o in compile_ll(outdir, defs):
        prog.add(m, open(o).read())
    prog.finish()
    return prog
