from vf import *

ASSUMPTIONS = ['strings up to 2 MB', 'long is 32 bits (32-bit targets; the 16-bit library has no long)', 'C locale']
TRUSTED = ['ghost-instance statements (vf_inst) at loop heads: instances of the definition of "leading white space", "digit sequence" and its value']
S = 'srclib/'
CV = {
 'strto': dict(nloops=2, entry='int cut_a = 0, cut_b = 0;', modset=['nptr', 'nptr0', 'n', 'neg', 'hexpfx', 'toobig', 'c', 'cnt', 'base', 'preMulMax', 'errno', 'endptr'], loops={
   0: dict(cond='''({ VF_CUT(cut_a, SO(nptr,gS) && PO(nptr) <= gW, { nptr = gS + vf_ndu(); }) vf_inst(INST_SPACE(PO(nptr))); 1; })'''),
   1: dict(cond='''({ VF_CUT(cut_b, SO(nptr,gS) && PO(nptr) >= gQ && PO(nptr) <= gE && cnt == PO(nptr) - gQ && gV[PO(nptr)] <= SATURATED && (toobig != 0) == (gV[PO(nptr)] > 0xffffffffull) && (toobig || n == gV[PO(nptr)]),
       { nptr = gS + vf_ndu(); cnt = vf_ndu(); n = vf_ndu(); toobig = vf_ndi(); c = vf_ndi(); }) vf_inst(INST_DIGIT(PO(nptr))); 1; })''')}),
 'atoi': dict(nloops=2, entry='int cut_a = 0, cut_b = 0;', modset=['nptr', 'n', 'neg', 'c'], loops={
   0: dict(cond='''({ VF_CUT(cut_a, SO(nptr,gS) && PO(nptr) <= gW, { nptr = gS + vf_ndu(); }) vf_inst(INST_SPACE(PO(nptr))); 1; })'''),
   1: dict(cond='''({ VF_CUT(cut_b, SO(nptr,gS) && PO(nptr) >= gQ && PO(nptr) <= gE && n == gV[PO(nptr)] && gV[PO(nptr)] <= SATURATED,
       { nptr = gS + vf_ndu(); n = vf_ndu(); c = vf_ndi(); }) vf_inst(INST_DIGIT(PO(nptr))); vf_inst(PO(nptr) >= gE || gV[PO(nptr) + 1] <= gV[gE]); 1; })''')}),
}
D = [x for x in LIBC_CPP if x not in ('-D__SMALLER_C_32__', '-D__SMALLER_C__')]

def units(work, tier):
    us = []
    def U(name, fn, defs=(), **k):
        a = {fn: CV['atoi' if fn == 'atoi' else 'strto']}
        srcs = [Src(S + x + '.c', rename={x: 'sc_' + x for x in ('isspace', 'isdigit', 'isalpha')}) for x in ('ctype', 'isspace', 'isdigit', 'isalpha')]
        srcs.append(Src(S + fn + '.c', annots=a, rename=dict({x: 'sc_' + x for x in ('isspace', 'isdigit', 'isalpha')}, **{fn: 'sc_' + fn})))
        us.append(Unit(name, 's03.c', srcs, defs=['F_' + fn] + list(defs), unwind=4, timeout=200, fuzz_ms=6000,
                       bounded=[dict(unwind=8, text='strings of up to 5 characters', timeout=100)],
                       functions=['srclib/%s.c:%s' % (fn, fn), 'srclib/isspace.c:isspace', 'srclib/isdigit.c:isdigit', 'srclib/isalpha.c:isalpha'], **k))
    for b in [0] + list(range(2, 37)):
        U('strtol_%d' % b, 'strtol', ['BASE=%d' % b])
        U('strtoul_%d' % b, 'strtoul', ['BASE=%d' % b])
    U('atoi', 'atoi')
    us.append(Unit('lemma', 's03.c', us[-1].srcs, entry='h_lemma', defs=['F_atoi'], unwind=2, native=False, functions=['lemma: the value of a digit string does not decrease when a digit is appended']))
    return us
