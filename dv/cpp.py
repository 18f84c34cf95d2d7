"""C++ verification sessions: load the program (portable or accelerated), run functions against contracts."""
import os, tempfile, shutil, time
from dv import terms as t, llvm
from dv.symex import *
from dv.spec import *
from dv.prove import Prover
from dv import cppnum

class Session:
    def __init__(self, config='pure', deadline=None):
        self.config = config; assert config in ('pure', 'asm')
        d = tempfile.mkdtemp(prefix='dvll')
        try:
            defs = ['-DUSE_X8664_ASM_IMPL'] if config == 'asm' else []
            self.prog = llvm.load_program(d, defs)
        finally: shutil.rmtree(d, ignore_errors=True)
        ex = llvm.LExec(self.prog)
        ex.deadline = deadline
        self.deadline = deadline
        self.base = ex.run_ctors()
        self.specs = {}
        self.specs.update(cppnum.SPECS)
        self.ext = {}
        if config == 'asm':
            from dv import asmspec
            for k, (f, sig, ret) in asmspec.ASM.items(): self.specs[k] = f
    def exec(self, exclude=(), only=None):
        ex = llvm.LExec(self.prog)
        ex.deadline = self.deadline
        ex.ext.update(self.ext)
        ex.decider = cppnum.decider
        for k, f in self.specs.items():
            if k in exclude: continue
            if only is not None and k not in only: continue
            ex.contracts[k] = as_contract(f)
        return ex
    def prover(self):
        return Prover(self.deadline)
    def has(self, dem): return dem in self.prog.bydem
    def check(self, task, dem, setup, exclude=(), only=None, prover=None, label='', ignore=(), spec=None):
        """setup(ex, st) -> args"""
        name = dem + label
        if not self.has(dem):
            task.unsupported.append('function %s not found' % dem); return None
        ex = self.exec(set(exclude) | {dem}, only)
        pre = self.base.fork()
        args = setup(ex, pre)
        pr = prover or self.prover()
        pr.products = list(getattr(ex, 'products', ()))
        fn = self.prog.fn(self.prog.bydem[dem])
        try:
            r = verify(task, ex, pr, name, lambda e, s: e.call_fn(s, fn, args), spec or self.specs[dem], pre, args, ignore)
            task.assumed |= set('contract of callee: ' + k for k in ex.used_contracts)
            return r
        except Unsupported as e:
            task.unsupported.append('%s: %s' % (name, e))
        except Deadline:
            task.unsupported.append('%s: time limit' % name)
        return None

def obj256(ex, st, name, var=None):
    o = ex.new_obj(st, name, 32, oid=name)
    st.mem[o].put(0, 32, var if var is not None else t.var(name, 256))
    return P(o)

def num_units():
    """(function, [setups]) for all Uint256/FieldInt functions"""
    e = lambda: t.zext(t.var('en', 1), 32)
    two = lambda ex, st: [obj256(ex, st, 'a'), obj256(ex, st, 'b')]
    def alias(ex, st):
        a = obj256(ex, st, 'a'); return [a, a]
    def bytes32(ex, st):
        a = obj256(ex, st, 'a'); o = ex.new_obj(st, 'buf', 32, oid='buf'); return [a, P(o)]
    W = lambda f, *x: (lambda ex, st: f(ex, st) + [y() for y in x])
    one = lambda ex, st: [obj256(ex, st, 'a')]
    r = {}
    U = 'Uint256::'; F = 'FieldInt::'
    for n in ('add', 'subtract'):
        r[U + n + '(Uint256 const&, unsigned int)'] = [('', W(two, e))]
    r[U + 'shiftLeft1()'] = [('', one)]
    r[U + 'shiftRight1(unsigned int)'] = [('', W(one, e))]
    r[U + 'replace(Uint256 const&, unsigned int)'] = [('', W(two, e)), (' [same object]', W(alias, e))]
    r[U + 'swap(Uint256&, unsigned int)'] = [('', W(two, e)), (' [same object]', W(alias, e))]
    for o in ('==', '!=', '<', '<=', '>', '>='):
        r[U + 'operator%s(Uint256 const&) const' % o] = [('', two), (' [same object]', alias)]
        r[F + 'operator%s(FieldInt const&) const' % o] = [('', two), (' [same object]', alias)]
    r[F + 'operator<(Uint256 const&) const'] = [('', two)]
    r[F + 'operator>=(Uint256 const&) const'] = [('', two)]
    r[U + 'getBigEndianBytes(unsigned char*) const'] = [('', bytes32)]
    r[U + 'Uint256()'] = [('', one)]
    r[U + 'Uint256(unsigned char const*)'] = [('', two)]
    r[U + 'Uint256(FieldInt const&)'] = [('', two)]
    for n in ('add', 'subtract', 'multiply'):
        r[F + n + '(FieldInt const&)'] = [('', two)]
    def prod(f):
        def g(ex, st):
            args = f(ex, st)
            a, b = [st.mem[p.obj].get(0, 32) for p in (args[0], args[-1])]
            ex.products = [(a, b, 2**256 - 2**32 - 977)]
            return args
        return g
    r[F + 'multiply(FieldInt const&)'] = [('', prod(two)), (' [same object]', prod(alias))]
    r[F + 'multiply2()'] = [('', one)]
    r[F + 'square()'] = [('', prod(one))]
    r[F + 'replace(FieldInt const&, unsigned int)'] = [('', W(two, e)), (' [same object]', W(alias, e))]
    r[F + 'FieldInt(Uint256 const&)'] = [('', two)]
    return r
