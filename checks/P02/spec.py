from vf import *
ASSUMPTIONS = ['token lists shorter than 2^20, constants shorter than 2^24 characters', 'shift counts are judged up to the conversion to int of P01',
               'ternary operators whose selected operand is unsigned etc.: the common type of both operands, as in C']
TRUSTED = ['the arithmetic of ucpp/arith.c by the contracts proved as property P01', 'sigsetjmp/siglongjmp: a throw leaves eval_expr through its error exit']
CPP = ['-DSTAND_ALONE', '-DUCPP_CONFIG', '-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX']
def units(work, tier):
    def S(annots={}, where='pp_suffix', **k): return [Src('ucpp/eval.c', cpp=CPP, rename={'siglongjmp': 'vf_throw', 'longjmp': 'vf_throw', '_setjmp': 'vf_catch'}, out='all.w.c', annots=annots, post=before(where, '#include "ghost.h"\n'), **k)]
    HOOK = '{ settle(tf->art, top); if (cut) __CPROVER_assume(0); cut = 1; { unsigned long a; __CPROVER_assume(a > gA0 && a <= gN); gAt = a; tf->art = a; } top = ndv(); gV = top; }'
    shrd = {'eval_shrd': dict(nloops=0, entry='int cut = 0;', labels={'eval_loop': HOOK}, modset=['top', 'ct', 'bp', 'tr', 'r1', 'r2', 'qv', 'art', 'sign', 'sv', 'uv'])}
    INV = 'tf == &gTf && tf->t == gT && tf->nt == gN && sart == gA0 && tf->art >= gA0 && tf->art <= gN && ' \
          '(gW >= gN || (tf->art > gW ? gT[gW].type == spec(gO0, gW == gA0, gO1) : gT[gW].type == gO1)) && ' \
          '(gW >= gN || gW == gA0 || (tf->art > gW - 1 ? (gT[gW - 1].type == gO0 || (gO0 == PLUS && gT[gW - 1].type == UPLUS) || (gO0 == MINUS && gT[gW - 1].type == UMINUS)) : gT[gW - 1].type == gO0))'
    expr = {'ucpp_eval_expr': dict(nloops=1, entry='int cut = 0;', modset=['r', 'sart', 'emit_eval_warnings', 'art', 'type', 'ret', 'ucpp_emit_eval_warnings'],
            loops={0: dict(cond='({ VF_CUT(cut, %s, { unsigned long a; tf->art = a; int o0; gO0 = o0; } { int o1; gO1 = o1; }) 1; })' % INV)})}
    H = '({ if (gIn) { VF_CHECK(r == gZ * 16 + gD && c == gC + 1, "the next digit is taken in"); } else VF_CHECK(cut || c == gS + 3, "the digits follow the x"); ' \
        'VF_CUT(cut, SO(c, gS) && PO(c) <= gL, { c = gS + vf_ndu(); r = ndul(); gIn = 0; }) gZ = r; gC = c; gD = HEXD(*c); gIn = gD < 16; vf_inst(PO(c) < gL || *c == 0); 1; })'
    char = {'pp_char': dict(nloops=3, entry='int cut = 0;', modset=['r', 'c', 'i'], loops={2: dict(cond=H)})}
    k = dict(bits=64)
    return [Unit('ops', 'p02.c', S(), defs=['OPS'], unwind=30, functions=['ucpp/eval.c:' + x for x in ('eval_opun', 'eval_opbin', 'opbin_sign', 'boolval')], **k),
            Unit('prec', 'p02.c', S(), defs=['PREC'], unwind=30, functions=['ucpp/eval.c:' + x for x in ('op_prec', 'OP_UN', 'OP_BIN', 'ttOP')], **k),
            Unit('suffix', 'p02.c', S(), defs=['SUFFIX'], unwind=30, functions=['ucpp/eval.c:pp_suffix'], **k),
            Unit('char', 'p02.c', S(char, 'pp_char'), defs=['CHARC'], unwind=14, functions=['ucpp/eval.c:pp_char'], **k),
            Unit('const', 'p02.c', S(rename_in={'pp_strtoconst': {'pp_char': 'PCHAR', 'pp_suffix': 'PSUF'}}), defs=['CONSTS'], unwind=10, functions=['ucpp/eval.c:pp_strtoconst'], **k),
            Unit('shrd', 'p02.c', S(shrd, 'eval_shrd', rename_in={'eval_shrd': {'eval_shrd': 'E', 'eval_opbin': 'OPBIN', 'eval_opun': 'OPUN', 'pp_strtoconst': 'CONSTV'}}), defs=['SHRD'], unwind=21,
                 functions=['ucpp/eval.c:eval_shrd'], fuzz_ms=10000, **k),
            Unit('expr', 'p02.c', S(expr, 'ucpp_eval_expr', rename_in={'ucpp_eval_expr': {'eval_shrd': 'E'}}), defs=['EXPR'], unwind=3, functions=['ucpp/eval.c:eval_expr'], **k)]
