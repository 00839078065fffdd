from vf import *
ASSUMPTIONS = ['operands and shift counts for which C defines the result (a shift count below the width; signed results representable, or else only the warning is judged)']
TRUSTED = ['z_error does not return (it throws to eval_expr)', 'signed multiplication: the warning on overflow is not judged']
CPP = ['-DSTAND_ALONE', '-DUCPP_CONFIG', '-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX']
OPS = dict(u_un='to_s fromint fromulong toint toulong neg not lnot lval', s_un='to_u fromint fromlong toint tolong neg not lnot lval')
def units(work, tier):
    H = '({ if (gIn) { VF_CHECK(gZ * (unsigned __int128)BASE + gD == z && c == gC + 1, "the next digit is taken in"); VF_ASSUME(gZ * (unsigned __int128)BASE + gD == z); } ' \
        'VF_CUT(cut, SO(c, gS) && PO(c) <= gL, { c = gS + vf_ndu(); z = ndl(); gIn = 0; }) gZ = z; gC = c; gD = DIGIT(*c); gIn = gD < BASE; vf_inst(PO(c) < gL || *c == 0); 1; })'
    def A(fn): return {fn: dict(nloops=1, entry='int cut = 0;', modset=['z', 'c', 'w', 'ru', 'rs', 'sp'], loops={0: dict(cond=H)})}
    mk = lambda a={}: [Src('ucpp/arith.c', cpp=CPP, out='all.w.c', annots=a, post=before('big_s_to_u', '#include "ghost.h"\n'))]
    F = ['ucpp/arith.c:big_%s_%s' % (s, o) for s in 'us' for o in 'neg not lnot lval plus minus lsh rsh lt leq gt geq same neq and xor or star slash pct toint'.split()] + \
        ['ucpp/arith.c:big_' + x for x in 'u_to_s s_to_u u_fromint s_fromint u_fromulong s_fromlong u_toulong s_tolong'.split()]
    U = [Unit('ops', 'p01.c', mk(), defs=['OPSU'], bits=64, functions=F), Unit('star', 'p01.c', mk(), defs=['STAR'], bits=64, solver='z3', functions=['ucpp/arith.c:big_u_star', 'ucpp/arith.c:big_s_star'])]
    for n in ('u_slash', 'u_pct', 's_slash', 's_pct'):
        U.append(Unit(n, 'p01.c', mk(), defs=['DIVOP=' + n, 'SGN=%d' % (n[0] == 's'), 'REM=%d' % ('pct' in n)], bits=64, solver='z3', functions=['ucpp/arith.c:big_' + n]))
    for n, b in (('oct', 8), ('dec', 10), ('hex', 16)):
        U.append(Unit(n + 'const', 'p01.c', mk(A('big_u_%sconst' % n)), defs=['CONST=big_u_%sconst' % n, 'BASE=%d' % b], bits=64, functions=['ucpp/arith.c:big_u_%sconst' % n]))
    return U
