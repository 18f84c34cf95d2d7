"""Contracts of the accelerated routines (used as specification of the assembly and at C++ call sites)."""
from dv import terms as t
from dv.symex import *
from dv.spec import *
from dv.prove import P256
from dv.cppnum import *
MU = (1 << 256) + (1 << 32) + 0x3D1

def disjoint(c, a, na, b, nb):
    if a.obj != b.obj: return
    c.require(t.or_(t.ule(t.add(a.off, t.const(na, 64)), b.off), t.ule(t.add(b.off, t.const(nb, 64)), a.off)), 'operands do not overlap')
def a_add(c, d, s, e): return u_add(c, d, s, e)
def a_sub(c, d, s, e): return u_sub(c, d, s, e)
def a_shl(c, d): return u_shl(c, d)
def a_shr(c, d, e): return u_shr(c, d, e)
def a_rep(c, d, s, e): return u_replace(c, d, s, e)
def a_swap(c, d, s, e): return u_swap(c, d, s, e)
def a_eq(c, a, b): return u_eq(c, a, b)
def a_lt(c, a, b): return u_lt(c, a, b)
def a_mul(c, z, x, y):
    disjoint(c, z, 64, x, 32); disjoint(c, z, 64, y, 32)
    c.w(z, t.mul(t.zext(c.r256(x), 512), t.zext(c.r256(y), 512)))
def a_s0(c, d, s):
    disjoint(c, d, 96, s, 64)
    c.w(d, t.mul(t.zext(c.r(s, 64), 768), t.const(MU, 768)))
def a_s1(c, d, s):
    disjoint(c, d, 64, s, 32)
    c.w(d, t.mul(t.zext(c.r256(s), 512), t.const(P256, 512)))
def a_s2(c, z, x, y):
    disjoint(c, z, 36, x, 64); disjoint(c, z, 36, y, 64)
    c.w(z, t.sub(t.extract(c.r(x, 64), 287, 0), t.extract(c.r(y, 64), 287, 0)))
ASM = {
    'asm_Uint256_add': (a_add, 'dse', 32), 'asm_Uint256_subtract': (a_sub, 'dse', 32), 'asm_Uint256_shiftLeft1': (a_shl, 'd', 32),
    'asm_Uint256_shiftRight1': (a_shr, 'de', None), 'asm_Uint256_replace': (a_rep, 'dse', None), 'asm_Uint256_swap': (a_swap, 'dse', None),
    'asm_Uint256_equalTo': (a_eq, 'ds', 1), 'asm_Uint256_lessThan': (a_lt, 'ds', 1),
    'asm_FieldInt_multiply256x256eq512': (a_mul, (64, 32, 32), None),
    'asm_FieldInt_multiplyBarrettStep0': (a_s0, (96, 64), None), 'asm_FieldInt_multiplyBarrettStep1': (a_s1, (64, 32), None),
    'asm_FieldInt_multiplyBarrettStep2': (a_s2, (36, 64, 64), None),
}
ALIAS_OK = {'asm_Uint256_replace', 'asm_Uint256_swap', 'asm_Uint256_equalTo', 'asm_Uint256_lessThan'}

def units():
    """(routine, label, setup)"""
    r = []
    for n, (f, sig, ret) in ASM.items():
        def mk(alias, n=n, sig=sig):
            def g(ex, st):
                args = []
                if isinstance(sig, tuple):
                    for i, k in enumerate(sig):
                        if alias and i == 2: args.append(args[1]); continue
                        o = ex.new_obj(st, 'o%d' % i, k, oid='o%d' % i); st.mem[o].put(0, k, t.var('o%d' % i, 8 * k)); args.append(P(o))
                    return args
                for ch in sig:
                    if ch == 'e': args.append(t.zext(t.var('en', 1), 32)); continue
                    if ch == 's' and alias: args.append(args[0]); continue
                    o = ex.new_obj(st, ch, 32, oid=ch); st.mem[o].put(0, 32, t.var(ch, 256)); args.append(P(o))
                return args
            return g
        r.append((n, '', mk(False)))
        if n in ALIAS_OK or n.endswith('eq512'): r.append((n, ' [same object]', mk(True)))
    return r

def check(task, prog, name, lab, setup, prover, deadline=None):
    from dv import x86
    f, sig, ret = ASM[name]
    ex = x86.XExec(prog); ex.deadline = deadline; ex.decider = decider
    pre = State(); args = setup(ex, pre)
    def call(e, s):
        return [(s2, t.extract(r, ret - 1, 0) if ret and isinstance(r, t.T) else None) if ret != 1 else (s2, boolret(e, s2, r)) for s2, r in e.run_fn(s, name, args)]
    def boolret(e, s, r):
        # the low byte must be 0 or 1
        e.oblige(s, t.eq(t.extract(r, 7, 1), t.const(0, 7)), 'bool result is 0 or 1')
        return t.extract(r, 0, 0)
    try: return verify(task, ex, prover, name + lab, call, f, pre, args)
    except Unsupported as e: task.unsupported.append('%s%s: %s' % (name, lab, e))
    except Deadline: task.unsupported.append('%s%s: time limit' % (name, lab))
