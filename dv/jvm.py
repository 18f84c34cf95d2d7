"""Java front end: compiles /repo/java with javac, parses the class files and executes the bytecode symbolically.

Arrays are memory objects holding little-endian elements, so eight ints starting at a multiple of eight are one 256-bit
number.  Assertions are enabled.  Exceptions end the function with the value ('exc', class name) unless a handler in the
same function catches them.  Library classes are modelled by the (trusted) contracts in LIB."""
import os, struct, subprocess, tempfile, shutil, glob
from dv import terms as t
from dv.symex import *
from dv.llvm import LExec

PKG = 'io/nayuki/bitcoin/crypto/'
def compile_java(outdir):
    d = os.environ.get('REPO', '/repo') + '/java/' + PKG
    srcs = sorted(s for s in glob.glob(d + '*.java') if not s.endswith('Test.java'))
    r = subprocess.run(['javac', '-g', '-XDstringConcat=inline', '-nowarn', '-encoding', 'UTF-8', '-d', outdir] + srcs, capture_output=True, text=True)
    if r.returncode: raise Unsupported('javac failed: ' + r.stderr[:500])
    return sorted(glob.glob(outdir + '/' + PKG + '*.class'))

# ------------------------------------------------------------------ class files
class Rd:
    def __init__(self, b): self.b = b; self.i = 0
    def u1(self): self.i += 1; return self.b[self.i - 1]
    def u2(self): self.i += 2; return struct.unpack_from('>H', self.b, self.i - 2)[0]
    def u4(self): self.i += 4; return struct.unpack_from('>I', self.b, self.i - 4)[0]
    def s1(self): self.i += 1; return struct.unpack_from('>b', self.b, self.i - 1)[0]
    def s2(self): self.i += 2; return struct.unpack_from('>h', self.b, self.i - 2)[0]
    def s4(self): self.i += 4; return struct.unpack_from('>i', self.b, self.i - 4)[0]
    def raw(self, n): self.i += n; return self.b[self.i - n:self.i]

def mutf8(b):
    out = []; i = 0
    while i < len(b):
        c = b[i]
        if c < 0x80: out.append(c); i += 1
        elif c >> 5 == 6: out.append((c & 31) << 6 | b[i + 1] & 63); i += 2
        else: out.append((c & 15) << 12 | (b[i + 1] & 63) << 6 | b[i + 2] & 63); i += 3
    return ''.join(map(chr, out))

class JClass:
    def __init__(self, data):
        r = Rd(data)
        if r.u4() != 0xCAFEBABE: raise Unsupported('class file')
        r.u4(); n = r.u2(); cp = [None] * n; i = 1
        while i < n:
            k = r.u1()
            if k == 1: cp[i] = ('utf', mutf8(r.raw(r.u2())))
            elif k == 3: cp[i] = ('int', r.s4())
            elif k == 4: cp[i] = ('float', r.u4())
            elif k == 5: cp[i] = ('long', (r.s4() << 32) | r.u4()); i += 1
            elif k == 6: cp[i] = ('double', r.u4(), r.u4()); i += 1
            elif k in (7, 8, 16, 19, 20): cp[i] = ({7: 'class', 8: 'str'}.get(k, 'x'), r.u2())
            elif k in (9, 10, 11): cp[i] = ('ref', r.u2(), r.u2())
            elif k == 12: cp[i] = ('nt', r.u2(), r.u2())
            elif k == 15: cp[i] = ('mh', r.u1(), r.u2())
            elif k in (17, 18): cp[i] = ('dyn', r.u2(), r.u2())
            else: raise Unsupported('constant pool tag %d' % k)
            i += 1
        self.cp = cp
        r.u2(); self.name = self.cls(r.u2()); s = r.u2(); self.sup = self.cls(s) if s else None
        self.ifaces = [self.cls(r.u2()) for _ in range(r.u2())]
        self.fields = {}; self.statics = {}; self.methods = {}
        for _ in range(r.u2()):
            fl, nm, ds, at = self.member(r)
            cv = at.get('ConstantValue')
            v = cp[struct.unpack('>H', cv)[0]] if cv else None
            (self.statics if fl & 8 else self.fields)[nm] = (ds, v, bool(fl & 16))
        for _ in range(r.u2()):
            fl, nm, ds, at = self.member(r)
            if 'Code' in at: self.methods[(nm, ds)] = JFn(self, nm, ds, fl, at['Code'])
    def utf(self, i): return self.cp[i][1]
    def cls(self, i): return self.utf(self.cp[i][1])
    def member(self, r):
        fl = r.u2(); nm = self.utf(r.u2()); ds = self.utf(r.u2()); at = {}
        for _ in range(r.u2()):
            a = self.utf(r.u2()); at[a] = r.raw(r.u4())
        return fl, nm, ds, at
    def ref(self, i):
        _, c, nt = self.cp[i]; _, n, d = self.cp[nt]
        return self.cls(c), self.utf(n), self.utf(d)
    def const(self, i):
        c = self.cp[i]
        if c[0] == 'str': return ('str', self.utf(c[1]))
        if c[0] == 'class': return ('class', self.utf(c[1]))
        return c

def parse_desc(d):
    """'(I[BJ)V' -> (['I', '[B', 'J'], 'V')"""
    i = 1; r = []
    def one(i):
        j = i
        while d[j] == '[': j += 1
        if d[j] == 'L': j = d.index(';', j)
        return d[i:j + 1], j + 1
    while d[i] != ')':
        x, i = one(i); r.append(x)
    return r, one(i + 1)[0]
SIZE = {'Z': 1, 'B': 1, 'C': 2, 'S': 2, 'I': 4, 'J': 8}

OPS = {}
for _i, _n in enumerate('nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1 bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload'.split()): OPS[_i] = _n
for _b, _k in ((26, 'iload'), (30, 'lload'), (42, 'aload'), (59, 'istore'), (63, 'lstore'), (75, 'astore')):
    for _j in range(4): OPS[_b + _j] = '%s_%d' % (_k, _j)
for _i, _n in ((46, 'iaload'), (47, 'laload'), (50, 'aaload'), (51, 'baload'), (52, 'caload'), (53, 'saload'), (54, 'istore'), (55, 'lstore'), (58, 'astore'), (79, 'iastore'), (80, 'lastore'), (83, 'aastore'), (84, 'bastore'), (85, 'castore'), (86, 'sastore')): OPS[_i] = _n
for _i, _n in enumerate('pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch ireturn lreturn freturn dreturn areturn return getstatic putstatic getfield putfield invokevirtual invokespecial invokestatic invokeinterface invokedynamic new newarray anewarray arraylength athrow checkcast instanceof monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w'.split()): OPS[87 + _i] = _n
U1 = {'ldc', 'iload', 'lload', 'aload', 'istore', 'lstore', 'astore', 'newarray'}
U2 = {'ldc_w', 'ldc2_w', 'getstatic', 'putstatic', 'getfield', 'putfield', 'invokevirtual', 'invokespecial', 'invokestatic', 'new', 'anewarray', 'checkcast', 'instanceof'}

class JFn:
    def __init__(self, c, nm, ds, fl, code):
        self.cls = c; self.mname = nm; self.desc = ds; self.static = bool(fl & 8)
        self.name = fname(c.name, nm, ds)
        self.args, self.rett = parse_desc(ds)
        self.params = []; i = 0
        for a in ([] if self.static else ['L']) + self.args:
            self.params.append((None, 'L%d' % i, None)); i += 2 if a in 'JD' else 1
        self.code = code; self.blocks = None
    def decode(self):
        r = Rd(self.code); r.u2(); r.u2(); n = r.u4(); base = r.i; ins = []
        c = self.cls
        while r.i - base < n:
            pc = r.i - base; op = OPS.get(r.u1(), '?'); a = None
            if op[-2:-1] == '_' and op[-1].isdigit() and op.split('_')[0] in ('iload', 'lload', 'aload', 'istore', 'lstore', 'astore'):
                op, a = op[:-2], int(op[-1])
            elif op.startswith('iconst_'): a = -1 if op.endswith('m1') else int(op[-1]); op = 'iconst'
            elif op.startswith('lconst_'): a = int(op[-1]); op = 'lconst'
            elif op == 'bipush': a = r.s1(); op = 'iconst'
            elif op == 'sipush': a = r.s2(); op = 'iconst'
            elif op in U1:
                a = r.u1()
                if op == 'ldc': a = c.const(a)
            elif op in U2:
                a = r.u2()
                if op in ('ldc_w', 'ldc2_w'): a = c.const(a); op = 'ldc'
                elif op in ('new', 'anewarray', 'checkcast', 'instanceof'): a = c.cls(a)
                else: a = c.ref(a)
            elif op == 'invokeinterface': a = c.ref(r.u2()); r.u2()
            elif op == 'invokedynamic': r.u2(); r.u2()
            elif op == 'iinc': a = (r.u1(), r.s1())
            elif op == 'goto_w': a = pc + r.s4(); op = 'goto'
            elif op.startswith('if') or op == 'goto': a = pc + r.s2()
            elif op == 'wide':
                op = OPS[r.u1()]
                if op == 'iinc': a = (r.u2(), r.s2())
                else: a = r.u2()
            elif op in ('tableswitch', 'lookupswitch'):
                while (r.i - base) % 4: r.u1()
                d = pc + r.s4()
                if op == 'tableswitch':
                    lo = r.s4(); hi = r.s4(); a = (d, [(k, pc + r.s4()) for k in range(lo, hi + 1)])
                else: a = (d, [(r.s4(), pc + r.s4()) for _ in range(r.u4())])
                op = 'switch'
            elif op == 'multianewarray': r.u2(); r.u1()
            ins.append((pc, op, a))
        self.exc = []
        for _ in range(r.u2()):
            s, e, h, ct = r.u2(), r.u2(), r.u2(), r.u2(); self.exc.append((s, e, h, c.cls(ct) if ct else None))
        self.lines = []
        for _ in range(r.u2()):
            nm = c.utf(r.u2()); b = r.raw(r.u4())
            if nm == 'LineNumberTable':
                q = Rd(b)
                for _ in range(q.u2()): self.lines.append((q.u2(), q.u2()))
        self.lines.sort()
        lead = {0}
        for k, (pc, op, a) in enumerate(ins):
            nx = ins[k + 1][0] if k + 1 < len(ins) else None
            if op.startswith('if'): lead |= {a, nx}
            elif op == 'goto': lead |= {a, nx}
            elif op == 'switch': lead |= {a[0], nx} | {x for _, x in a[1]}
            elif op in ('athrow', 'return') or op.endswith('return'): lead.add(nx)
        lead |= {h for _, _, h, _ in self.exc}
        self.blocks = {}; cur = None
        for x in ins:
            if x[0] in lead: cur = self.blocks[x[0]] = []
            cur.append(x)
        ls = sorted(self.blocks); succs = {}; dead = set()
        for j, l in enumerate(ls):
            pc, op, a = self.blocks[l][-1]
            nx = ls[j + 1] if j + 1 < len(ls) else None
            if op == 'goto': s = [a]
            elif op.startswith('if'): s = [nx, a]
            elif op == 'switch': s = [a[0]] + [x for _, x in a[1]]
            elif op == 'athrow': s = []; dead.add(l)
            elif op.endswith('return'): s = []
            else: s = [nx]; self.blocks[l].append((None, 'goto', nx))
            succs[l] = list(dict.fromkeys(s))
        self.cfg = CFG(0, succs, dead)
        self.liveness(succs)
    def liveness(self, succs):
        use = {}; df = {}
        for l, ins in self.blocks.items():
            u = set(); d = set()
            for pc, op, a in ins:
                if op in ('iload', 'lload', 'aload'):
                    if a not in d: u.add(a)
                elif op == 'iinc':
                    if a[0] not in d: u.add(a[0])
                elif op in ('istore', 'lstore', 'astore'): d.add(a)
            use[l] = u; df[l] = d
        live = {l: set(u) for l, u in use.items()}
        ch = True
        while ch:
            ch = False
            for l in live:
                o = set()
                for s in succs.get(l, ()): o |= live[s]
                for s, e, h, _ in self.exc: o |= live.get(h, set())
                n = use[l] | (o - df[l])
                if n != live[l]: live[l] = n; ch = True
        self.live = {l: {'L%d' % i for i in v} for l, v in live.items()}
    def line(self, pc):
        r = None
        for p, l in self.lines:
            if p <= pc: r = l
        return r

def short(c): return c[len(PKG):] if c.startswith(PKG) else c
def fname(c, n, d): return '%s.%s%s' % (short(c), n, d[:d.index(')') + 1])

class JProg:
    def __init__(self):
        self.classes = {}; self.fns = {}
    def load(self, files):
        for f in files:
            c = JClass(open(f, 'rb').read()); self.classes[c.name] = c
            for m in c.methods.values(): self.fns[m.name] = m
        self.dem = {n: n for n in self.fns}; self.bydem = {n: n for n in self.fns}
    def fn(self, name):
        f = self.fns.get(name)
        if f is not None and f.blocks is None: f.decode()
        return f

EXC = {'java/lang/NumberFormatException': 'java/lang/IllegalArgumentException', 'java/lang/IllegalArgumentException': 'java/lang/RuntimeException',
       'java/lang/ArrayIndexOutOfBoundsException': 'java/lang/IndexOutOfBoundsException', 'java/lang/StringIndexOutOfBoundsException': 'java/lang/IndexOutOfBoundsException',
       'java/lang/IndexOutOfBoundsException': 'java/lang/RuntimeException', 'java/lang/NullPointerException': 'java/lang/RuntimeException', 'java/lang/ArithmeticException': 'java/lang/RuntimeException',
       'java/lang/NegativeArraySizeException': 'java/lang/RuntimeException', 'java/lang/ClassCastException': 'java/lang/RuntimeException', 'java/lang/IllegalStateException': 'java/lang/RuntimeException',
       'java/lang/RuntimeException': 'java/lang/Exception', 'java/io/IOException': 'java/lang/Exception', 'java/io/UnsupportedEncodingException': 'java/io/IOException',
       'java/lang/Exception': 'java/lang/Throwable', 'java/lang/AssertionError': 'java/lang/Error', 'java/lang/Error': 'java/lang/Throwable'}
def subclass(c, d):
    while c is not None:
        if c == d: return True
        c = EXC.get(c)
    return False
IAE = 'java/lang/IllegalArgumentException'

c32 = lambda v: t.const(v, 32)
class JThrow(Exception): pass
class JExec(LExec):
    def __init__(self, prog):
        LExec.__init__(self, prog)
        from dv import jlib
        self.ext = dict(jlib.LIB)
        self.nothrow = False
        self.inited = None
        self.pcs = []; self.slotjunk = 0; self.poison = {}
    def loc(self):
        s = list(self.stack[-3:])
        if self.pcs and self.pcs[-1]: s[-1] = '%s:%s' % (s[-1], self.pcs[-1])
        return ' < '.join(reversed(s))
    def must_merge(self, key):
        if key in ('ret', '$s'): return True
        m = self.merge_at
        return m is not None and m[1] is not None and key in m[0].live.get(m[1], ())
    # ---- objects
    def new_array(self, st, kind, n, name='arr', vals=None, oid=None, ro=False):
        """kind: element descriptor character; n: int or term"""
        es = SIZE.get(kind, 8)
        if isinstance(n, t.T) and t.isc(n): n = n.v
        size = n * es if isinstance(n, int) else (t.zext(n, 64) if es == 1 else t.mul(t.zext(n, 64), t.const(es, 64)))
        o = self.new_obj(st, name, size, ro=ro, meta={'kind': kind, 'es': es, 'len': c32(n) if isinstance(n, int) else n}, oid=oid)
        ob = st.mem[o]
        if vals is not None:
            for i, v in enumerate(vals): ob.put(i * es, es, v)
        elif isinstance(n, int):
            if kind in 'IJ':
                step = 32 if (n * es) % 32 == 0 else es
                for i in range(0, n * es, step): ob.put(i, step, t.const(0, 8 * step))
            elif kind in SIZE:
                for i in range(n): ob.put(i * es, es, t.const(0, 8 * es))
            else:
                for i in range(n): ob.put(i * 8, 8, NULL)
        else: ob.meta['zero'] = True
        return P(o)
    def string(self, st, s):
        oid = 'str:' + s.encode('unicode_escape').decode()
        if oid not in st.mem:
            self.new_array(st, 'C', len(s), vals=[t.const(ord(c), 16) for c in s], oid=oid, ro=True)
            st.mem[oid].meta['cls'] = 'java/lang/String'
        return P(oid)
    def mkstring(self, st, chars, name='string'):
        p = self.new_array(st, 'C', len(chars), vals=chars, ro=True, name=name); st.mem[p.obj].meta['cls'] = 'java/lang/String'
        return p
    def chars(self, st, p):
        """the characters of a string or char array of concrete length"""
        o = self.deref(st, p)
        n = o.meta['len']
        if not t.isc(n): raise Unsupported('string of symbolic length')
        return [o.get(2 * i, 2) for i in range(n.v)]
    def elems(self, st, p):
        o = self.deref(st, p); n = o.meta['len']; es = o.meta['es']
        if not t.isc(n): raise Unsupported('array of symbolic length')
        return [self.load(st, P(p.obj, es * i), es) if 'read' in o.meta else o.get(es * i, es) for i in range(n.v)]
    def instance(self, st, cls, name='obj', oid=None):
        o = self.new_obj(st, name, None, meta={'cls': cls}, oid=oid)
        return P(o)
    def deref(self, st, p):
        if not isinstance(p, Ptr): raise Unsupported('reference expected')
        if p.obj is None:
            if not self.nothrow: raise JThrow('java/lang/NullPointerException')
            self.oblige(st, t.false(), 'null dereference (NullPointerException)'); raise PathEnd()
        return st.mem[p.obj]
    def slot(self, st, p, off, words, what='operand'):
        """memory address of `words` ints at index `off` of the int array p (off a multiple of 8), inside the array"""
        o = self.deref(st, p)
        q = self.region(st, o, off)
        if q is not None:
            oid, k, n = q
            if k % 8 or k < 0 or k + words > n:
                self.oblige(st, t.false(), 'precondition: %s lies within its region of the array' % what); raise PathEnd()
            return P(oid, 4 * k)
        if 'regions' in o.meta or not t.isc(o.meta['len']) or not t.isc(off): raise Unsupported('array offset %s' % t.show(off, 3)[:80])
        k = t.sgn(off.v, 32); n = o.meta['len'].v
        if k < 0 or k % 8 or k + words > n:
            self.oblige(st, t.false(), 'precondition: %s lies within the array at a multiple of 8' % what); raise PathEnd()
        return P(p.obj, 4 * k)
    def region(self, st, o, idx):
        rg = o.meta.get('regions')
        if rg is None: return None
        k = 0; base = idx
        if t.isc(idx): return None
        if idx.op == 'lin' and idx.v[1]:
            k = t.sgn(idx.v[1], 32); base = t.sub(idx, t.const(idx.v[1], 32))
        if base.op == 'concat' and t.isc(base.a[-1]) and base.a[-1].w == 3 and base.a[-1].v:
            j = base.a[-1].v; k += j; base = t.sub(base, t.const(j, 32))
        r = rg.get(base)
        if r is None: return None
        return r[0], k, r[1]
    def elem(self, st, p, idx, what):
        o = self.deref(st, p); es = o.meta['es']
        q = self.region(st, o, idx)
        if q is not None:
            oid, k, n = q
            if not 0 <= k < n:
                self.oblige(st, t.false(), '%s inside the declared operands of the shared array (in-bounds)' % what); raise PathEnd()
            self.n_trivial += 1
            return P(oid, es * k), es
        if 'regions' in o.meta: raise Unsupported('array index %s' % t.show(idx, 3)[:80])
        n = o.meta['len']
        c = t.ult(idx, n) if not (t.isc(n) and n.v == 0) else t.false()     # n >= 0, so unsigned comparison covers both ends
        if t.isc(c) and not c.v:
            self.oblige(st, c, 'array index out of bounds (out-of-bounds %s)' % what); raise PathEnd()
        self.oblige(st, c, 'array index in-bounds (%s)' % what)
        off = t.zext(idx, 64)
        return Ptr(p.obj, off if es == 1 else t.mul(off, t.const(es, 64))), es
    # ---- statics
    def sinit(self, st, cls):
        if self.inited is None or cls in self.inited or cls not in self.prog.classes: return
        self.inited.add(cls)
        c = self.prog.classes[cls]
        o = Obj('@' + cls, 8 * max(1, len(c.statics))); o.owner = st; st.mem['@' + cls] = o
        for i, (n, (ds, v, fin)) in enumerate(c.statics.items()):
            if v is not None:
                if v[0] == 'int': o.put(8 * i, 4, c32(v[1]))
                elif v[0] == 'long': o.put(8 * i, 8, t.const(v[1], 64))
                elif v[0] == 'str': o.put(8 * i, 8, self.string(st, self.prog.classes[cls].utf(v[1])))
            elif ds in SIZE: o.put(8 * i, max(4, SIZE[ds]), t.const(0, 8 * max(4, SIZE[ds])))
            else: o.put(8 * i, 8, NULL)
        f = self.prog.fn(fname(cls, '<clinit>', '()V'))
        if f is not None:
            s2 = st.fork(); n0 = len(self.obs)
            try:
                rs = self.call_fn(s2, f, [])
                if len(rs) != 1 or rs[0][1] is not None: raise Unsupported('static initializer of %s' % cls)
                s2 = rs[0][0]; st.mem = dict(s2.mem)
                for o in st.mem.values(): o.owner = None
            except Unsupported as e:
                del self.obs[n0:]; self.poison[cls] = str(e); st.mem.pop('@' + cls, None)
    def run_ctors(self, order=None):
        st = State(); self.inited = set(); self.ctor_mode = True
        for c in sorted(self.prog.classes): self.sinit(st, c)
        self.ctor_mode = False; self.inited = None
        for o in st.mem.values(): o.ro = True
        return st
    def sfield(self, st, cls, n):
        self.sinit(st, cls)
        c = self.prog.classes.get(cls)
        if c is None or n not in c.statics or '@' + cls not in st.mem: raise Unsupported('static field %s.%s' % (cls, n))
        return P('@' + cls, 8 * list(c.statics).index(n)), c.statics[n][0]
    def ifield(self, cls, n):
        c = self.prog.classes.get(cls)
        if c is None or n not in c.fields: raise Unsupported('field %s.%s' % (cls, n))
        return 8 * list(c.fields).index(n), c.fields[n][0]
    # ---- control
    def is_fail(self, f, label):
        ins = f.blocks[label]
        if ins[-1][1] != 'athrow': return None
        if ins[0][1] == 'new' and (ins[0][2] == 'java/lang/AssertionError' or self.nothrow): return (f, ins[0])
        return None
    def assert_text(self, x):
        f, (pc, op, a) = x
        return '%s, line %s of %s' % (a.split('/')[-1], f.line(pc), short(f.cls.name))
    def phis(self, f, label, st): pass
    def loop_env(self, f, label, st):
        return [k for k in st.env if k in f.live.get(label, ())]
    def call_fn(self, st, f, args):
        self.pcs.append(None)
        if f.blocks is None: f.decode()
        try: return LExec.call_fn(self, st, f, args)
        finally: self.pcs.pop()
    def throw(self, f, pc, st, cls, rets, obj=None):
        """returns work items"""
        for s, e, h, ct in f.exc:
            if s <= pc < e and (ct is None or subclass(cls, ct)):
                st.env['$s'] = (obj if obj is not None else self.instance(st, cls, 'exc'),)
                return [(h, 0, st)]
        if self.nothrow:
            self.oblige(st, t.false(), 'no exception (%s)' % cls); return []
        rets.append((st, ('exc', cls))); return []
    def block(self, f, label, idx, st, rets, stop):
        ins = f.blocks[label]; n = len(ins)
        if st.prev != ('in', label) and idx == 0: pass
        while idx < n:
            pc, op, a = ins[idx]
            self.cur = (f, pc)
            if self.pcs: self.pcs[-1] = pc
            env = st.env
            s = env.get('$s', ())
            try:
                r = self.step(f, label, idx, st, env, s, pc, op, a, rets, stop)
            except PathEnd:
                return []
            except JThrow as e: r = self.throw(f, pc, st, str(e), rets)
            if r is not None: return r
            idx += 1
        raise Unsupported('block without terminator')
    def step(self, f, label, idx, st, env, s, pc, op, a, rets, stop):
        if op in ('iload', 'lload', 'aload'):
            k = 'L%d' % a
            if k not in env: raise Unsupported('local %s lost at a join in %s' % (k, f.name))
            env['$s'] = s + (env[k],)
        elif op in ('istore', 'lstore', 'astore'): env['L%d' % a] = s[-1]; env['$s'] = s[:-1]
        elif op == 'iconst': env['$s'] = s + (c32(a),)
        elif op == 'lconst': env['$s'] = s + (t.const(a, 64),)
        elif op == 'aconst_null': env['$s'] = s + (NULL,)
        elif op == 'ldc':
            if a[0] == 'int': v = c32(a[1])
            elif a[0] == 'long': v = t.const(a[1], 64)
            elif a[0] == 'str': v = self.string(st, a[1])
            elif a[0] == 'class': v = ('class', a[1])
            else: raise Unsupported('constant ' + a[0])
            env['$s'] = s + (v,)
        elif op == 'iinc':
            k = 'L%d' % a[0]; env[k] = t.add(env[k], c32(a[1]))
        elif op in BIN:
            x, y = s[-2], s[-1]; env['$s'] = s[:-2] + (self.arith(st, BIN[op], x, y),)
        elif op in ('ineg', 'lneg'): env['$s'] = s[:-1] + (t.neg_(s[-1]) if hasattr(t, 'neg_') else t.sub(t.const(0, s[-1].w), s[-1]),)
        elif op == 'i2l': env['$s'] = s[:-1] + (t.sext(s[-1], 64),)
        elif op == 'l2i': env['$s'] = s[:-1] + (t.trunc(s[-1], 32),)
        elif op == 'i2b': env['$s'] = s[:-1] + (t.sext(t.trunc(s[-1], 8), 32),)
        elif op == 'i2s': env['$s'] = s[:-1] + (t.sext(t.trunc(s[-1], 16), 32),)
        elif op == 'i2c': env['$s'] = s[:-1] + (t.zext(t.trunc(s[-1], 16), 32),)
        elif op == 'lcmp':
            x, y = s[-2], s[-1]
            env['$s'] = s[:-2] + (t.ite(t.slt(x, y), c32(-1), t.ite(t.eq(x, y), c32(0), c32(1))),)
            nx = f.blocks[label][idx + 1]
            if nx[1] in CMP0:
                c = CMP[CMP0[nx[1]]](x, y); env['$s'] = s[:-2]
                return self.cond(f, label, st, c, nx[2], f.blocks[label], rets, stop)
        elif op == 'pop': env['$s'] = s[:-1]
        elif op == 'pop2': env['$s'] = s[:-1] if cat2(s[-1]) else s[:-2]
        elif op == 'dup': env['$s'] = s + (s[-1],)
        elif op == 'dup_x1': env['$s'] = s[:-2] + (s[-1], s[-2], s[-1])
        elif op == 'dup_x2': env['$s'] = s[:-2] + (s[-1], s[-2], s[-1]) if cat2(s[-2]) else s[:-3] + (s[-1], s[-3], s[-2], s[-1])
        elif op == 'dup2': env['$s'] = s + ((s[-1],) if cat2(s[-1]) else (s[-2], s[-1]))
        elif op == 'dup2_x1': env['$s'] = s[:-2] + (s[-1], s[-2], s[-1]) if cat2(s[-1]) else s[:-3] + (s[-2], s[-1], s[-3], s[-2], s[-1])
        elif op == 'dup2_x2':
            if cat2(s[-1]): env['$s'] = (s[:-2] + (s[-1], s[-2], s[-1])) if cat2(s[-2]) else (s[:-3] + (s[-1], s[-3], s[-2], s[-1]))
            else: env['$s'] = (s[:-3] + (s[-2], s[-1], s[-3], s[-2], s[-1])) if cat2(s[-3]) else (s[:-4] + (s[-2], s[-1], s[-4], s[-3], s[-2], s[-1]))
        elif op == 'swap': env['$s'] = s[:-2] + (s[-1], s[-2])
        elif op in ('iaload', 'laload', 'baload', 'caload', 'saload', 'aaload'):
            q, es = self.elem(st, s[-2], s[-1], 'read')
            v = self.load(st, q, es)
            if op == 'baload': v = t.sext(v, 32)
            elif op == 'caload': v = t.zext(v, 32)
            elif op == 'saload': v = t.sext(v, 32)
            env['$s'] = s[:-2] + (v,)
        elif op in ('iastore', 'lastore', 'bastore', 'castore', 'sastore', 'aastore'):
            q, es = self.elem(st, s[-3], s[-2], 'write')
            v = s[-1]
            if op in ('bastore',): v = t.trunc(v, 8)
            elif op in ('castore', 'sastore'): v = t.trunc(v, 16)
            self.store(st, q, es, v)
            env['$s'] = s[:-3]
        elif op == 'arraylength':
            env['$s'] = s[:-1] + (self.deref(st, s[-1]).meta['len'],)
        elif op == 'newarray':
            n = s[-1]; kind = {4: 'Z', 5: 'C', 8: 'B', 9: 'S', 10: 'I', 11: 'J'}[a]
            c = t.sle(c32(0), n)
            if t.isc(c) and not c.v: return self.throw(f, pc, st, 'java/lang/NegativeArraySizeException', rets)
            self.oblige(st, c, 'array size is not negative')
            env['$s'] = s[:-1] + (self.new_array(st, kind, n),)
        elif op == 'anewarray':
            if not t.isc(s[-1]): raise Unsupported('object array of symbolic length')
            env['$s'] = s[:-1] + (self.new_array(st, 'L', s[-1]),)
        elif op == 'new':
            if a in self.prog.classes: self.sinit(st, a)
            env['$s'] = s + (self.instance(st, a, short(a).split('/')[-1]),)
        elif op == 'getstatic':
            q, ds = self.sfield(st, a[0], a[1]); v = self.load(st, q, max(4, SIZE.get(ds, 8)))
            env['$s'] = s + (v,)
        elif op == 'putstatic':
            q, ds = self.sfield(st, a[0], a[1]); self.store(st, q, max(4, SIZE.get(ds, 8)), s[-1]); env['$s'] = s[:-1]
        elif op == 'getfield':
            o = self.deref(st, s[-1]); off, ds = self.ifield(a[0], a[1]); n = max(4, SIZE.get(ds, 8))
            c = o.cells.get(off)
            v = c[0] if c else (t.const(0, 8 * n) if ds in SIZE else NULL)
            env['$s'] = s[:-1] + (v,)
        elif op == 'putfield':
            o = self.deref(st, s[-2]); off, ds = self.ifield(a[0], a[1]); n = max(4, SIZE.get(ds, 8))
            if o.ro:
                self.oblige(st, t.false(), 'write to read-only object %s' % o.name); raise PathEnd()
            st.wobj(s[-2].obj).put(off, n, s[-1]); env['$s'] = s[:-2]
        elif op in ('invokestatic', 'invokevirtual', 'invokespecial', 'invokeinterface'):
            cls, nm, ds = a
            at, rt = parse_desc(ds); k = len(at) + (0 if op == 'invokestatic' else 1)
            args = list(s[len(s) - k:]) if k else []
            env['$s'] = s[:len(s) - k] if k else s
            if op == 'invokestatic': self.sinit(st, cls)
            else: 
                self.deref(st, args[0]) if isinstance(args[0], Ptr) else None
                dyn = st.mem[args[0].obj].meta.get('cls') if isinstance(args[0], Ptr) and op != 'invokespecial' else None
                if dyn in self.prog.classes and (nm, ds) in self.prog.classes[dyn].methods: cls = dyn
            name = fname(cls, nm, ds)
            if cls.startswith('[') and nm == 'clone': name = 'array.clone()'
            self.desc = ds
            res = self.invoke(st, name, args)
            out = []
            for s2, r in res:
                if len(res) > 1: s2.env = dict(s2.env)
                if isinstance(r, tuple) and r and r[0] == 'exc':
                    out += self.throw(f, pc, s2, r[1], rets); continue
                if rt != 'V': s2.env['$s'] = s2.env.get('$s', ()) + (r,)
                out.append((label, idx + 1, s2))
            if len(res) == 1 and out and res[0][0] is st and out[0][0] == label and out[0][1] == idx + 1: return None
            return out
        elif op == 'goto':
            st.prev = label; return [(a, 0, st)]
        elif op in IFI:
            x, y = s[-2], s[-1]; env['$s'] = s[:-2]
            return self.cond(f, label, st, CMP[IFI[op]](x, y), a, f.blocks[label], rets, stop)
        elif op in CMP0:
            x = s[-1]; env['$s'] = s[:-1]
            return self.cond(f, label, st, CMP[CMP0[op]](x, c32(0)), a, f.blocks[label], rets, stop)
        elif op in ('if_acmpeq', 'if_acmpne', 'ifnull', 'ifnonnull'):
            if op in ('ifnull', 'ifnonnull'): e = s[-1].obj is None; env['$s'] = s[:-1]
            else: e = s[-1].obj == s[-2].obj; env['$s'] = s[:-2]
            if op in ('if_acmpne', 'ifnonnull'): e = not e
            st.prev = label
            return [(a if e else self.fall(f, label), 0, st)]
        elif op == 'switch':
            v = s[-1]; env['$s'] = s[:-1]; cs = []; rest = t.true()
            for k, l in a[1]:
                e = t.eq(v, c32(k)); cs.append((e, l)); rest = t.and_(rest, t.not_(e))
            cs.append((rest, a[0]))
            return self.branch(f, label, st, cs, rets, stop)
        elif op in ('ireturn', 'lreturn', 'areturn'):
            rets.append((st, s[-1])); return []
        elif op == 'return':
            rets.append((st, None)); return []
        elif op == 'athrow':
            o = self.deref(st, s[-1]); return self.throw(f, pc, st, o.meta.get('cls', 'java/lang/Throwable'), rets, s[-1])
        elif op == 'checkcast':
            if isinstance(s[-1], Ptr) and s[-1].obj is not None:
                k = st.mem[s[-1].obj].meta.get('cls')
                if k is not None and k != a and k in self.prog.classes: self.oblige(st, t.false(), 'class cast (null or wrong class)'); raise PathEnd()
        elif op == 'instanceof':
            k = st.mem[s[-1].obj].meta.get('cls') if s[-1].obj is not None else None
            env['$s'] = s[:-1] + (c32(1 if k == a else 0),)
        elif op == 'nop': pass
        else: raise Unsupported('bytecode ' + op)
        return None
    def fall(self, f, label):
        return f.cfg.succs[label][0]
    def cond(self, f, label, st, c, target, ins, rets, stop):
        ft = self.fall(f, label)
        if ft == target: st.prev = label; return [(ft, 0, st)]
        return self.branch(f, label, st, [(c, target), (t.not_(c), ft)], rets, stop)
    def arith(self, st, op, x, y):
        w = x.w
        if op == 'add': return t.add(x, y)
        if op == 'sub': return t.sub(x, y)
        if op == 'mul': return t.mul(x, y)
        if op == 'and': return t.and_(x, y)
        if op == 'or': return t.or_(x, y)
        if op == 'xor': return t.xor(x, y)
        if op in ('shl', 'shr', 'ushr'):
            k = t.and_(t.zext(y, w) if w > 32 else y, t.const(w - 1, w))
            return {'shl': t.shl, 'shr': t.ashr, 'ushr': t.lshr}[op](x, k)
        if op in ('div', 'rem'):
            if not (t.isc(y) and y.v): self.oblige(st, t.ne(y, t.const(0, w)), 'division by zero')
            if not t.isc(x): self.leak('division', x)
            return (t.sdiv if op == 'div' else t.srem)(x, y)
        raise Unsupported(op)
def cat2(v): return isinstance(v, t.T) and v.w == 64
BIN = {}
for _p in 'il':
    for _n in 'add sub mul div rem shl shr ushr and or xor'.split(): BIN[_p + _n] = _n
CMP = {'eq': t.eq, 'ne': t.ne, 'lt': t.slt, 'ge': lambda x, y: t.sle(y, x), 'gt': lambda x, y: t.slt(y, x), 'le': t.sle}
IFI = {'if_icmp' + k: k for k in CMP}
CMP0 = {'if' + k: k for k in CMP}
