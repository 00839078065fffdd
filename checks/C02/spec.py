import importlib.util
from vf import *
_sp = importlib.util.spec_from_file_location('c01spec', os.path.join(VERIF, 'checks', 'C01', 'spec.py'))
c01 = importlib.util.module_from_spec(_sp); _sp.loader.exec_module(c01)

ASSUMPTIONS = c01.ASSUMPTIONS + ['CBMC\'s IEEE-754 single precision model, round to nearest even, is the oracle for float arithmetic']

def src():
    s = c01.src()
    s.rename_def.update({f: 'real_' + f for f in ('fadd', 'fsub', 'fmul', 'fdiv')})
    s.post = lambda t: 'unsigned fadd(unsigned, unsigned), fsub(unsigned, unsigned), fmul(unsigned, unsigned), fdiv(unsigned, unsigned);\n' + t
    s.rename_in = {'fsub': {'fadd': 'real_fadd'}}
    return s

def units(work, tier):
    us = []
    def U(name, entry, ops="'+'", **k):
        return Unit(name, 'c02.c', [src()], entry=entry, defs=['OPS=' + ops], bits=64, checks=('bounds', 'pointer', 'div'),
            flags=('--max-field-sensitivity-array-size', '300'), unwind=40, **k)
    for n, o in dict(add="'+'", sub="'-'", mul="'*'", div="'/'", lt="'<','>'", le='tokLEQ,tokGEQ', eq='tokEQ,tokNEQ', log='tokLogAnd,tokLogOr').items():
        us.append(U('f' + n, 'h_fbin', o, functions=['smlrc.c:exprval']))
    for e in ('fun', 'fcast', 'fcond'):
        us.append(U(e, 'h_' + e, functions=['smlrc.c:exprval']))
    for n, o in dict(fadd='VF_CHECK(same(real_fadd(a, b), f2b(x + y)), "float addition");',
       fsub='VF_CHECK(same(real_fsub(a, b), f2b(x - y)) || same(real_fsub(a, b), f2b(x + -y)), "float subtraction");',
       fmul='VF_CHECK(same(real_fmul(a, b), f2b(x * y)), "float multiplication");',
       fdiv='VF_CHECK(same(real_fdiv(a, b), f2b(x / y)), "float division");',
       fneg='VF_CHECK(same(fneg(a), a ^ 0x80000000), "float negation");',
       u2f='VF_CHECK(same(u2f(a), f2b((float)a)), "unsigned to float");',
       i2f='VF_CHECK(same(i2f(a), f2b((float)(int)a)), "int to float");',
       fcmp='VF_CHECK(fcmp(a, b, n) == ((x != x || y != y) ? n : x < y ? -1 : x > y ? 1 : 0), "float comparison");',
       f2u='if (x > -1.0f && x < 4294967296.0f) VF_CHECK(f2u(a) == (unsigned)(long long)x, "float to unsigned truncates");',
       f2i='if (x >= -2147483648.0f && x < 2147483648.0f) VF_CHECK(f2i(a, 4) == (unsigned)(int)x, "float to int truncates");').items():
        u = U('prim_' + n, 'h_prim', functions=['fp.c:' + n])
        if n in ('fadd', 'fsub', 'fmul', 'fdiv'):
            u.solver = 'z3'
            u.flags += ('--fpa',)
        u.defs += ['PRIM=' + o]
        us.append(u)
    FP = ['-DSTATIC=static', '-DNULL=0']
    cs = ('bounds', 'pointer', 'div')
    us.append(Unit('chain_mul', 'd2f.c', [Src('fp.c', cpp=FP, annots={'ChainMultiplyAdd': dict(nloops=1, entry='int cut_a = 0;', modset=['pChain', 'ChainLen', 'carry'], loops={0: dict(
        cond='''({ VF_CUT(cut_a, SO(pChain,gS) && PO(pChain) <= gN && ChainLen == gN - PO(pChain) && Multiplier == gMul && carry == gC[PO(pChain)] && carry <= 255
          && (PO(pChain) > gK || gS[gK] == gV) && (PO(pChain) <= gK || gS[gK] == ((gC[gK] + gV * gMul) & 0xFF)) && gS[gM] == gU,
          { pChain = gS + vf_ndu(); ChainLen = vf_ndu(); carry = vf_ndu(); havoc_gS(); })
          vf_inst(PO(pChain) >= gN || gC[PO(pChain)+1] == ((gC[PO(pChain)] + gS[PO(pChain)] * gMul) >> 8)); 1; })''')})})], entry='h_mul', defs=['CHAIN'], bits=64, unwind=5, solver='cvc5',
        checks=cs, bounded=[dict(unwind=9, text='chains of up to 6 bytes', solver='cvc5', timeout=60)], functions=['fp.c:ChainMultiplyAdd']))
    for dv in (2, 10):
        us.append(Unit('chain_div%d' % dv, 'd2f.c', [Src('fp.c', cpp=FP, annots={'ChainDivide': dict(nloops=1, entry='int cut_a = 0;', modset=['ChainLen', 'remainder', 'pRemainder'], loops={0: dict(
            cond='''({ VF_CUT(cut_a, pChain == gS && ChainLen <= gN && Divisor == gMul && remainder == gC[ChainLen] * 256 && gC[ChainLen] < gMul
              && (ChainLen <= gK || gS[gK] == gV) && (ChainLen > gK || (gS[gK] == (unsigned char)((gC[gK + 1] * 256 + gV) / gMul) && gC[gK] == (gC[gK + 1] * 256 + gV) % gMul)) && gS[gM] == gU,
              { ChainLen = vf_ndu(); remainder = vf_ndu(); havoc_gS(); })
              vf_inst(ChainLen == 0 || gC[ChainLen-1] == (gC[ChainLen] * 256 + gS[ChainLen-1]) % gMul); 1; })''')})})], entry='h_div', defs=['CHAIN', 'DIVISOR=%d' % dv], bits=64, unwind=5, solver='cvc5',
            checks=cs, bounded=[dict(unwind=9, text='chains of up to 6 bytes', solver='cvc5', timeout=60)], functions=['fp.c:ChainDivide']))
    us.append(Unit('chain_lemma', 'd2f.c', [Src('fp.c', cpp=FP)], entry='h_lemma', defs=['CHAIN'], bits=64, unwind=5, checks=cs, native=False, functions=['lemma: one step of long division']))
    us.append(Unit('d2f_enum', 'd2f.c', [Src('fp.c', cpp=FP)], entry='h_enum', kind='native', proof=False, count=999900, fuzz_ms=60000, bits=64,
        bound_text='executed on all constants of 1 to 4 significant digits with decimal exponents -55 to 44', functions=['fp.c:d2f']))
    us.append(Unit('d2f_half', 'd2f.c', [Src('fp.c', cpp=FP)], entry='h_half', kind='native', proof=False, fuzz_ms=20000, bits=64,
        bound_text='executed on exact midpoints and sixteenth points between adjacent floats, their neighbours and truncations (up to 112 digits) for a fixed time', functions=['fp.c:d2f']))
    return us
