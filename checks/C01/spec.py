from vf import *

ASSUMPTIONS = [
    'induction hypothesis: the recursive call is replaced by the contract being proved (a constant subexpression collapses into one number token whose value it returns)',
    'operand regions of 1 to 3 tokens with 0 to 2 tokens before and after; the code uses them only through position differences',
    'table sizes of the expression and declaration tables reduced by their own configuration macros (STACK_SIZE, SYNTAX_STACK_MAX, MAX_IDENT_TABLE_LEN)',
    'memmove is assumed to move the bytes (proved for this project\'s own memmove in S01)',
    'values of narrow integer types are within their range (established by the cast obligations)',
]
SMLRC_CPP = ['-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX', '-DSYNTAX_STACK_MAX=40', '-DSTACK_SIZE=24', '-DMAX_IDENT_TABLE_LEN=64']
def src():
    return Src('smlrc.c', cpp=SMLRC_CPP, macros='(tok|Sym|Format)\\w+', rename={'main': 'smlrc_main'}, rename_def={'exprval': 'real_exprval', 'error': 'real_error', 'warning': 'real_warning'})
def U(name, entry, defs=(), **k):
    return Unit(name, 'c01.c', [src()], entry=entry, defs=list(defs), bits=64, checks=('bounds', 'pointer', 'div'),
        flags=('--max-field-sensitivity-array-size', '300'), functions=['smlrc.c:exprval'], unwind=40, **k)
def units(work, tier):
    us = []
    ops = dict(add="'+'", sub="'-'", and_="'&'", or_="'|'", xor="'^'", shl='tokLShift', shr='tokRShift',
      mul="'*'", div="'/'", mod="'%'", cmp1="'<','>'", cmp2="tokLEQ,tokGEQ", eq="tokEQ,tokNEQ", land='tokLogAnd', lor='tokLogOr', comma='tokComma')
    for sow in (2, 4):
        D = ['SOW=%d' % sow, 'UCH=0', 'TLO=0', 'THI=7']
        n = '%d' % (sow * 8)
        for k, o in ops.items():
            hard = k in ('div', 'mod')
            for lo, hi in ([(0, 2), (2, 4), (4, 7)] if hard else [(0, 7)]):
                us.append(U('%s_%s%s' % (k, n, '_%d' % lo if hard else ''), 'h_bin', ['SOW=%d' % sow, 'UCH=0', 'OPS=' + o, 'TLO=%d' % lo, 'THI=%d' % hi],
                            solver='z3' if hard or k == 'mul' else None, slow=hard))
        us.append(U('shape_' + n, 'h_shape', D + ["OPS='+','&',tokLShift,'<',tokEQ,tokLogAnd,tokComma"]))
        for e in ('un', 'leaf', 'cond', 'short', 'condnc'):
            us.append(U(e + '_' + n, 'h_' + e, D))
        us.append(U('cast_' + n, 'h_cast', D))
        us.append(U('castu_' + n, 'h_cast', ['SOW=%d' % sow, 'UCH=1', 'TLO=0', 'THI=7']))
    us.append(U('trunc', 'h_trunc', ['SOW=2', 'UCH=0', 'TLO=0', 'THI=1']))
    return us
