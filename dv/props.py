"""Property -> verification jobs."""
import time, functools
from dv import cpp, terms as t
from dv.spec import Task

TRUSTED = ['clang 18 as the C++ front end: the verified text is the LLVM IR it emits for /repo/cpp (SSA construction only), x86-64 data layout',
           'the verifier in /verif/dv (term rewriting, symbolic execution, integer abstraction), self-tested against concrete evaluation',
           'z3 (bit-vectors, linear integer arithmetic)']

@functools.lru_cache(None)
def session(config):
    if config == 'java':
        from dv import java, jcurve
        return java.JSession()
    from dv import cpppt, cppecdsa, hashes, base58
    S = cpp.Session(config)
    S.specs.update(cpppt.SPECS); S.specs.update(cppecdsa.SPECS); S.specs.update(hashes.specs(S))
    S.specs.update(base58.specs(S)); S.specs.update(base58.xspecs(S))
    return S
CFG = ('pure', 'asm')

def job(name, fn, limit=280, config=None):
    """fn(session, task)"""
    def f():
        tk = Task(name); t0 = time.time()
        if config is not None:
            S = session(config); S.deadline = time.time() + limit
            fn(S, tk)
        else: fn(tk)
        if not tk.time: tk.time = time.time() - t0
        return tk.dump()
    return (name, f, limit + 20)

def cpp_jobs(names, configs=CFG, limit=280):
    U = cpp.num_units(); js = []
    for config in configs:
        for dem in names:
            for lab, setup in U[dem]:
                js.append(job('%s %s%s' % (config, dem, lab), lambda S, tk, dem=dem, lab=lab, setup=setup: S.check(tk, dem, setup, label=lab), limit, config))
    return js
Un = 'Uint256::'; Fn = 'FieldInt::'
C01F = [Un + 'add(Uint256 const&, unsigned int)', Un + 'subtract(Uint256 const&, unsigned int)', Un + 'shiftLeft1()', Un + 'shiftRight1(unsigned int)']
C02F = [k for k in cpp.num_units() if 'operator' in k or 'replace' in k or 'swap' in k]
C04F = [Fn + x for x in ('add(FieldInt const&)', 'subtract(FieldInt const&)', 'multiply2()', 'square()', 'multiply(FieldInt const&)', 'FieldInt(Uint256 const&)')]
C27F = [Un + x for x in ('getBigEndianBytes(unsigned char*) const', 'Uint256(unsigned char const*)', 'Uint256()', 'Uint256(FieldInt const&)')]

@functools.lru_cache(None)
def asmprog():
    from dv import x86
    return x86.assemble()
def asm_jobs(pred=lambda n: True, limit=280):
    from dv import asmspec
    from dv.prove import Prover
    js = []
    for n, lab, s in asmspec.units():
        if not pred(n): continue
        def f(tk, n=n, lab=lab, s=s):
            dl = time.time() + limit
            pv = Prover(dl); pv.wws = [64, 32]; asmspec.check(tk, asmprog(), n, lab, s, pv, dl)
        js.append(job('x86-64 %s%s' % (n, lab), f, limit))
    return js

def recip_jobs(configs=CFG):
    from dv import cuts
    js = []
    dem = Un + 'reciprocal(Uint256 const&)'
    for cfg in configs:
        for zero in (0, 1):
            def f(S, tk, zero=zero):
                def run(tk, pick):
                    pr = S.prover(); cut = None
                    if not zero:
                        cut = cuts.InverseCut(tk, pr, dem, t.var('this', 256), t.var('m', 256)); cut.pick = pick
                    def setup(ex, st):
                        v = t.const(0, 256) if zero else t.var('this', 256)
                        a = cpp.obj256(ex, st, 'this', v); m = cpp.obj256(ex, st, 'm')
                        if not zero:
                            st.assume(t.ne(v, t.const(0, 256))); ex.cutter = cut
                        return [a, m]
                    S.check(tk, dem, setup, prover=pr, label=' [value 0]' if zero else '')
                    return cut
                cuts.try_roles(tk, run)
            js.append(job('%s %s%s' % (cfg, dem, ' [value 0]' if zero else ''), f, 280, cfg))
        js.append(job('%s FieldInt::reciprocal()' % cfg, lambda S, tk: S.check(tk, 'FieldInt::reciprocal()', lambda ex, st: [cpp.obj256(ex, st, 'a')]), 280, cfg))
    return js

def mulmod_jobs(configs=CFG):
    from dv import cuts, cppecdsa as E
    from dv.cppnum import nmul, N256
    js = []
    for cfg in configs:
        def f(S, tk):
            pr = S.prover()
            def setup(ex, st):
                x = t.var('x', 256); y = t.var('y', 256)
                a = cpp.obj256(ex, st, 'x', x); b = cpp.obj256(ex, st, 'y', y)
                ex.cutter = cuts.MulModCut(tk, pr, E.MULMOD, x, y, N256, nmul(x, y))
                return [a, b]
            S.check(tk, E.MULMOD, setup, prover=pr)
        js.append(job('%s %s' % (cfg, E.MULMOD), f, 280, cfg))
    return js

def pt_jobs(which, configs=CFG):
    from dv import cpppt
    js = []
    for cfg in configs:
        for w in which:
            fn = {'add': cpppt.check_add, 'twice': cpppt.check_twice, 'multiply': cpppt.check_multiply, 'normalize': cpppt.check_normalize}.get(w)
            if fn: js.append(job('%s CurvePoint::%s' % (cfg, w), fn, 200, cfg)); continue
            for dem, us in cpppt.simple_units().items():
                if w not in dem: continue
                for lab, su in us: js.append(job('%s %s%s' % (cfg, dem, lab), lambda S, tk, dem=dem, lab=lab, su=su: cpppt.check_simple(S, tk, dem, lab, su), 200, cfg))
    return js
def ec_jobs(which, configs=CFG):
    from dv import cppecdsa as E
    d = {'sign': (E.SIGN, E.s_sign), 'signh': (E.SIGNH, E.s_signh), 'verify': (E.VERIFY, E.s_verify)}
    return [job('%s %s' % (cfg, d[w][0]), lambda S, tk, w=w: E.check_ecdsa(S, tk, *d[w]), 280, cfg) for cfg in configs for w in which]

def jnum_jobs(names):
    from dv import java as j
    return [job('java Int256Math.' + n, lambda S, tk, n=n: j.check_num(S, tk, n), 280, 'java') for n in names]
def jrecip_jobs():
    from dv import java as j
    return [job('java Int256Math.reciprocal%s' % (' [value 0]' if z else ''), lambda S, tk, z=z: j.check_recip(S, tk, z), 280, 'java') for z in (0, 1)]
def jpt_jobs(which):
    from dv import jcurve as j, java, cpppt as c
    W = j.JavaPt; js = []
    for w in which:
        fn = {'add': c.check_add, 'twice': c.check_twice, 'multiply': c.check_multiply, 'normalize': c.check_normalize}.get(w)
        if fn: js.append(job('java CurvePointMath.' + w, lambda S, tk, fn=fn: fn(S, tk, W), 200, 'java')); continue
        for dem, us in j.punits().items():
            if '.%s(' % w not in dem: continue
            for lab, su in us: js.append(job('java %s%s' % (dem, lab), lambda S, tk, dem=dem, lab=lab, su=su: c.check_simple(S, tk, dem, lab, su, java.TEMP_IGNORE), 200, 'java'))
    return js
def jec_jobs(which):
    from dv import jcurve as j, cppecdsa as E
    d = {'sign': (j.SIGN, j.s_sign), 'signh': (j.SIGNH, j.s_signh), 'verify': (j.VERIFY, j.s_verify)}
    return [job('java ' + d[w][0], lambda S, tk, w=w: E.check_ecdsa(S, tk, *d[w]), 280, 'java') for w in which]
def jmulmod_jobs():
    from dv import jcurve as j
    return [job('java ' + j.MULMOD, lambda S, tk: j.check_mulmod(S, tk), 280, 'java')]
J01 = ['uintAdd([IIIII)', 'uintSubtract([IIIII)', 'uintShiftLeft1([III)', 'uintShiftRight1([IIII)']
J02 = ['replace([IIII)', 'swap([IIII)', 'equalTo([III)', 'lessThan([III)', 'isZero([II)', 'equalTo(II)', 'lessThan([II[II)', 'checkUint([II)', 'checkFieldInt([II)', 'checkEnable(I)', 'copy([II[II)']
J04 = ['fieldMultiply([IIIII)', 'fieldAdd([IIIII)', 'fieldSubtract([IIIII)', 'fieldMultiply2([IIII)', 'fieldSquare([IIII)']
def c28(tier):
    return jnum_jobs(J04) + jrecip_jobs() + jpt_jobs(['multiply', 'add', 'twice', 'normalize', 'replace', 'isZero', 'isOnCurve', 'checkPoint', 'copy', 'getBasePoint']) + jec_jobs(['sign', 'signh', 'verify']) + jmulmod_jobs() + jnum_jobs(J01 + J02)
def c01(tier): return cpp_jobs(C01F) + jnum_jobs(J01) + asm_jobs(lambda n: any(x in n for x in ('_add', '_subtract', '_shift')))
def c02(tier): return cpp_jobs(C02F) + jnum_jobs(J02) + asm_jobs(lambda n: any(x in n for x in ('_replace', '_swap', '_equalTo', '_lessThan')))
def c03(tier): return recip_jobs() + jrecip_jobs()
def c04(tier): return cpp_jobs(C04F) + jnum_jobs(J04)
def c05(tier): return asm_jobs() + cpp_jobs(C01F + C02F + C04F, ('asm',))
def c06(tier): return pt_jobs(['add', 'twice', 'replace']) + jpt_jobs(['add', 'twice', 'replace', 'copy'])
def c07(tier): return pt_jobs(['multiply', 'replace']) + jpt_jobs(['multiply', 'replace', 'copy'])
def c08(tier): return pt_jobs(['normalize', 'isZero', 'isOnCurve', 'operator', 'toCompressedPoint', 'privateExponentToPublicPoint']) + jpt_jobs(['normalize', 'isZero', 'isOnCurve', 'checkPoint', 'getBasePoint'])
def c09(tier): return ec_jobs(['sign']) + mulmod_jobs() + jec_jobs(['sign']) + jmulmod_jobs()
def c10(tier): return ec_jobs(['verify']) + jec_jobs(['verify'])
def c11(tier):
    from dv import cppecdsa as E
    return [job('lemma: created signatures verify', E.lemma_roundtrip)] + ec_jobs(['sign', 'verify']) + jec_jobs(['sign', 'verify'])
def c12(tier): return ec_jobs(['signh']) + jec_jobs(['signh'])
def hjob(name, fn, *a, limit=280, cfg='pure'):
    def f(S, tk): S.deadline = None; fn(S, tk, *a)
    return job('hash ' + name, f, limit, cfg)
def jhash_jobs(*what):
    from dv import hashes as h, jhash as j
    J = lambda n, f, *a: hjob('java ' + n, f, *a, limit=280, cfg='java'); js = []
    for alg in (h.S256, h.S512, h.RMD, h.KEC):
        if alg.name not in what: continue
        if alg is not h.KEC: js.append(J('blocks ' + alg.name, j.check_blocks, alg))
        js.append(J('compress ' + alg.name, j.check_compress, alg))
        if alg is h.KEC: js.append(J('hash keccak256', j.check_keccak_hash, 0, 136))
        else: js.append(J('hash ' + alg.name, j.check_hash, alg, 0, alg.B))
        if alg is h.S256: js += [J(d, j.check_static, d) for d in ('Sha256.getHash([B)', 'Sha256.getDoubleHash([B)')]
    for alg in (h.S256, h.S512):
        if 'hmac ' + alg.name in what: js += [J('hmac %s' % alg.name, j.check_hmac, alg, 0, alg.B + 1), J('hmac %s long keys' % alg.name, j.check_hmac, alg, 1, None)]
    return js
def sha_jobs(alg):
    from dv import hashes as h
    js = [hjob('append ' + alg.name, h.check_append, alg), hjob('constructor ' + alg.name, h.check_ctor, alg), hjob('compress ' + alg.name, h.check_compress, alg)]
    k = alg.B // 4
    js += [hjob('final %s %d' % (alg.name, i), h.check_final, alg, i * k, (i + 1) * k) for i in range(4)]
    if alg is h.S256:
        for fn in ('getHash', 'getDoubleHash'):
            js.append(hjob(fn, h.check_static, 'Sha256::%s(%s)' % (fn, h.M_), 0, lambda ex, st: [h.retobj(ex, st, 32)] + h.msg_args(ex, st)))
    else: js.append(hjob('getHash', h.check_static, 'Sha512::getHash(%s, unsigned char*)' % h.M_, 0, lambda ex, st: h.msg_args(ex, st) + [h.retobj(ex, st, 64)]))
    return js
def rmd_jobs():
    from dv import hashes as h
    return [hjob('compress ripemd160', h.check_compress, h.RMD), hjob('blocks ripemd160', h.check_ripemd_compress), hjob('hash ripemd160', h.check_ripemd_hash, 0, 64)]
def kec_jobs():
    from dv import hashes as h
    return [hjob('hash keccak256', h.check_keccak_hash, 0, 136), hjob('permutation keccak256', h.check_compress, h.KEC)]
def hmac_jobs():
    from dv import hashes as h
    js = []
    for alg in (h.S256, h.S512):
        js += [hjob('hmac %s long keys' % alg.name, h.check_hmac, alg, 0, None), hjob('hmac %s' % alg.name, h.check_hmac, alg, 0, alg.B + 1)]
    return js
def b58enc_jobs():
    from dv import base58 as b
    js = []
    for dem in (b.ISZERO, b.MOD, b.DIV):
        for L in b.LENS: js.append(hjob('%s %d' % (dem, L), b.check_helper, dem, L))
    for L in (25, 37, 38):
        for lo in range(0, L + 1, 9): js.append(hjob('encode %d from %d zeros' % (L, lo), b.check_enc, L, lo, min(lo + 9, L + 1)))
    js.append(hjob('encode 82', b.check_enc, 82))
    for a in (('pub_e',), ('prv_e', 0), ('prv_e', 1), ('ext_e',)): js.append(hjob('public %s %s' % (a[0], a[1:]), b.check_public, *a))
    return js
def b58dec_jobs():
    from dv import base58 as b
    js = [hjob('decode 82 111', b.check_dec, 82, 111)]
    for dem in (b.MUL, b.ADD):
        for L in reversed(b.LENS): js.append(hjob('%s %d' % (dem, L), b.check_helper, dem, L))
    for L, ns in ((25, range(25, 36)), (37, range(38, 53)), (38, range(38, 53))):
        for n in ns: js.append(hjob('decode %d %d' % (L, n), b.check_dec, L, n))
    for w, ns in (('pub_d', range(25, 36)), ('prv_d', range(38, 53))):
        for nulls in (0, 1):
            for n in ns: js.append(hjob('public %s %d %d' % (w, n, nulls), b.check_public, w, (n, nulls)))
    js.append(hjob('public ext_d', b.check_public, 'ext_d', (111, 0)))
    for w, r in (('pub_d', (25, 35)), ('prv_d', (38, 52)), ('ext_d', (111, 111))): js.append(hjob('public %s other lengths' % w, b.check_public, w, (r, 0)))
    return js
def c18(tier): return b58enc_jobs()
def c19(tier): return b58dec_jobs()
def c20(tier):
    from dv import base58 as b
    return [job('lemma positional notation', b.lemma_positional), hjob('lemma fields', b.lemma_fields)] + b58dec_jobs() + b58enc_jobs()
def c21(tier):
    from dv import base58 as b, hashes as h
    return [hjob('child key normal', b.check_key, 'child', 0), hjob('child key hardened', b.check_key, 'child', 1),
            hjob('constructor', b.check_key, 'ctor'), hjob('default constructor', b.check_key, 'ctor0'),
            hjob('hmac sha512', h.check_hmac, h.S512, 0, h.S512.B + 1)] + pt_jobs(['privateExponentToPublicPoint', 'toCompressedPoint'], ('pure',))
def misc_jobs(names, configs=('pure',)):
    from dv import misc as m
    js = []
    for cfg in configs:
        for dem in names:
            for lab, su in m.UNITS[dem][1]: js.append(job('%s %s%s' % (cfg, dem, lab), lambda S, tk, dem=dem, lab=lab, su=su: m.check(S, tk, dem, lab, su), 200, cfg))
    return js
def jmisc_jobs(pre):
    from dv import jmisc as m
    js = [job('java %s%s' % (dem, lab), lambda S, tk, dem=dem, lab=lab, su=su: m.check(S, tk, dem, lab, su), 200, 'java') for dem, (sp, us) in m.UNITS.items() if dem.startswith(pre) for lab, su in us]
    if pre == 'Sha256Hash': js += [job('java Sha256Hash constructors', lambda S, tk: m.check_ctor(S, tk), 200, 'java'), job('java Sha256Hash order', lambda S, tk: m.check_order(S, tk), 200, 'java')]
    return js
def c26(tier):
    from dv import misc as m
    return misc_jobs([k for k in m.UNITS if k.startswith('Sha256Hash')] + [m.PHD]) + [job('lemma: conversions', m.lemma_conv)] + jmisc_jobs('Sha256Hash')
def c27(tier):
    from dv import misc as m
    return misc_jobs([k for k in m.UNITS if not k.startswith('Sha256Hash')], CFG) + [job('lemma: conversions', m.lemma_conv)] + cpp_jobs(C27F) + jmisc_jobs('Int256Math')
def c24(tier):
    from dv import misc as m, asmspec, cppecdsa as E
    js = []
    for cfg in CFG:
        for dem, us in m.ct_units().items():
            if us is None or dem == E.MULMOD: continue
            def f(S, tk, dem=dem, us=us):
                for lab, su in us: m.ct_run(S, tk, dem, lab, su)
            js.append(job('ct %s %s' % (cfg, dem), f, 120, cfg))
        for dem in (Un + 'reciprocal(Uint256 const&)', E.MULMOD): js.append(job('ct %s %s' % (cfg, dem), lambda S, tk, dem=dem: m.ct_loop(S, tk, dem), 200, cfg))
        for dem in m.SIGNS: js.append(job('ct %s %s' % (cfg, dem), lambda S, tk, dem=dem: m.ct_sign(S, tk, dem), 120, cfg))
    js.append(job('ct HMAC', m.ct_hmac, 120, 'pure')); js.append(job('ct compress', m.ct_compress, 120, 'pure'))
    for n, lab, s in asmspec.units(): js.append(job('ct x86-64 %s%s' % (n, lab), lambda tk, n=n, lab=lab, s=s: m.ct_asm(tk, n, lab, s), 60))
    return js
def safe_jobs(jobs):
    from dv import spec
    def wrap(j):
        n, f, lim = j
        def g():
            spec.SAFETY[0] = True
            d = f()
            for x in (d if isinstance(d, list) else [d]):
                keep = [y for y in x['failed'] if spec.SAFE_RE.search(y['obligation'])]
                x['total'] -= len(x['failed']) - len(keep); x['failed'] = keep
            return d
        return ('safety ' + n, g, lim)
    seen = set(); r = []
    for j in jobs:
        if j[0] in seen or 'lemma' in j[0]: continue
        seen.add(j[0]); r.append(wrap(j))
    return r
def c25(tier):
    return safe_jobs(c03(tier) + c07(tier) + c09(tier) + c10(tier) + c06(tier) + c01(tier) + c02(tier) + c04(tier) + c05(tier) + c08(tier) + c12(tier) + c13(tier) + c14(tier) + c15(tier) + c16(tier) + c17(tier) + c19(tier) + c18(tier) + c21(tier) + c26(tier) + c27(tier))
def c13(tier):
    from dv import hashes as h
    return sha_jobs(h.S256) + jhash_jobs('sha256')
def c14(tier):
    from dv import hashes as h
    return sha_jobs(h.S512) + jhash_jobs('sha512')
def c15(tier): return rmd_jobs() + jhash_jobs('ripemd160')
def c16(tier): return kec_jobs() + jhash_jobs('keccak256')
def c17(tier): return hmac_jobs() + jhash_jobs('hmac sha256', 'hmac sha512')
GRP = ['group facts used and not machine-checked: the points of y^2 = x^3 + 7 over F_p form a commutative group of prime order n under the chord-and-tangent law (associativity, group order), so n P = infinity',
       'p and n are prime (checked numerically by the oracle self-test)']
HASHA = ['induction over the message: digest(q) is the fold of the compression function over the padded blocks of q; the step (append of one byte / one block / one call), the start (constructor) and the end (padding, length field) are the discharged obligations, the induction itself is an argument in DESIGN.md',
         'messages shorter than 2^61 bytes, so the bit length fits the 64-bit counter the library keeps']
B58A = ['the induction along the digits (Horner evaluation against repeated division) is an argument in DESIGN.md; each of its steps is a discharged lemma',
        'Sha256 contract (property C13)']
PROPS = {
    'C01': dict(jobs=c01, level='proof', note='Every word-level obligation of the portable and accelerated C++ add/subtract/shift and the assembly behind them is proved for all inputs.'),
    'C02': dict(jobs=c02, level='proof', note='Comparisons, replace and swap of Uint256 and FieldInt proved for all operands, including aliased ones.'),
    'C03': dict(jobs=c03, level='proof', note='Loop invariants of the constant-time extended binary GCD proved at every one of its iterations for symbolic odd modulus and coprime value; FieldInt::reciprocal by contract.'),
    'C04': dict(jobs=c04, level='proof', note='FieldInt add/subtract/multiply/square/multiply2/constructor proved congruent and fully reduced for all inputs.'),
    'C05': dict(jobs=c05, level='proof', note='Each of the 12 routines is executed symbolically from the assembled machine instructions and proved against its contract (function, frame, saved registers), then its C++ callers against those contracts.'),
    'C06': dict(jobs=c06, level='proof', note='Point addition and doubling proved equal to the chord-and-tangent group law by polynomial identities over F_p with full case analysis.', assumptions=GRP),
    'C07': dict(jobs=c07, level='proof', note='Scalar multiplication proved to return n P for symbolic 256-bit n by module arithmetic over the contracts of add and twice.', assumptions=GRP),
    'C08': dict(jobs=c08, level='proof', note='Normalization, predicates, equality, compressed form and public-point derivation proved from field contracts.', assumptions=GRP),
    'C09': dict(jobs=c09, level='proof', note='Ecdsa::sign proved equal to the standard low-S signature formula over contracts of point multiplication, reciprocal and multiplyModOrder (proved too).', assumptions=GRP),
    'C10': dict(jobs=c10, level='proof', note='Ecdsa::verify proved equal to the standard verification predicate over its callees contracts.', assumptions=GRP),
    'C11': dict(jobs=c11, level='proof', note='Lemma over the contracts of sign and verify, both proved on the real code.', assumptions=GRP),
    'C12': dict(jobs=c12, level='proof', note='signWithHmacNonce proved equal to signing with the HMAC nonce, over the contract of Sha256::getHmac (property C17).', assumptions=GRP),
    'C13': dict(jobs=c13, level='proof', note='Compression equals FIPS 180-4 for every block and state; append proved by loop invariant for symbolic length and every buffer fill; padding and finalization for every fill; one-shot and double hash over those contracts.', assumptions=HASHA),
    'C14': dict(jobs=c14, level='proof', note='As C13, for SHA-512.', assumptions=HASHA),
    'C15': dict(jobs=c15, level='proof', note='Compression for every block, block loop by invariant, padding for every length residue with symbolic number of blocks.', assumptions=HASHA),
    'C16': dict(jobs=c16, level='proof', note='Permutation for every state, absorbing loop by invariant for symbolic length, padding for each of the 136 residues.', assumptions=HASHA),
    'C17': dict(jobs=c17, level='proof', note='HMAC equals RFC 2104 for every key length up to a block and for all longer keys, messages of symbolic length, over the contracts of the hashers.', assumptions=HASHA),
    'C18': dict(jobs=c18, level='proof', note='Byte-array helpers proved as whole-number division/remainder; encoder proved for every payload of the four sizes, every number of leading zeros and of digits; public encoders over its contract.', assumptions=B58A),
    'C19': dict(jobs=c19, level='proof', note='Byte-array helpers proved as whole-number multiplication/addition with overflow; decoder proved for every string of every admissible length; public decoders over its contract and for all other lengths.', assumptions=B58A),
    'C20': dict(jobs=c20, level='proof', note='Lemmas over the contracts of encoder and decoder (positional notation, alphabet, leading zeros, field layout), with the contracts proved on the real code.', assumptions=B58A),
    'C21': dict(jobs=c21, level='proof', note='getChildKey and the key constructors proved equal to BIP 32 CKDpriv over the contracts of HMAC-SHA-512, point and hash functions.', assumptions=GRP),
}
for _k, _j, _n in (('C24', c24, 'Every operation documented as constant-time is executed symbolically with symbolic operands, callees by their constant-time contracts, in the portable and accelerated configurations and for the assembly routines; no branch condition and no address may depend on an operand. Signing: all successful executions share one path.'),
    ('C25', c25, 'Every C++ function is executed symbolically under its contract preconditions; each memory access, shift, signed operation, division, assertion and callee precondition is an obligation; uninitialised bytes are arbitrary values that must not reach a result.'),
    ('C26', c26, 'Constructors and comparisons of Sha256Hash proved for all inputs.'),
    ('C27', c27, 'Byte and hexadecimal conversions proved exact and inverse for all inputs.'),
    ('C28', c28, 'Every Java integer, field, point and ECDSA function is proved to change only its destination and its declared temporary words, whatever those held, for every pattern of shared operands.')):
    PROPS[_k] = dict(jobs=_j, level='proof', note=_n)
NA = {}
