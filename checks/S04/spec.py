from vf import *
ASSUMPTIONS = ['format strings and string arguments shorter than 2 MB; field widths and precisions below 2^30 (for integer conversions at most 4095, the limit C99 7.19.6.1 puts on what must be supported)', 'the string argument of %s is not NULL; arguments of the types the directives require']
TRUSTED = ['isdigit, toupper, strchr, strlen, fputc replaced by their contracts (S10, S01, S09)', 'instances of the recurrences defining the ghost functions on the format',
           'the parse of a directive and its conversion are cut at the statement that tests for %n: the parse units prove the state there, the conversion units start from every such state']
def units(work, tier):
    MOD = 'c ljust sign alt lzeroes width precision lmodifier fmt vl cnt len i s v tmp p base digits hexpfx dcnt ch'.split()
    ENT = 'int ' + ', '.join('cut_%s = 0' % x for x in 'abcdefghijklmnop') + ';'
    def pad(flag, x, lo, ch):
        return dict(cond='({ PAD(%s, %s, %s, %s) 1; })' % (flag, x, lo, ch))
    def digs(flag, v, s):
        return dict(cond='({ VF_CUT(%s, DIGITS(%s, %s), { fmt = (char *)gF + vf_ndu(); c = vf_ndi(); %s = vf_ndi(); }) vf_inst(DEF_D(CUR)); vf_inst(NZ(CUR + 1)); 1; })' % (flag, v, s, v))
    no = dict(cond='({ VF_CHECK(0, "a malformed directive is reported"); VF_ASSUME(0); 1; })')
    PARSE = dict(nloops=16, entry=ENT, modset=MOD, loops={
      0: dict(cond="""({ VF_CUT(cut_a, SO(fmt, gF) && PO(fmt) <= gL && cnt[0] == (int)gOut && litok(PO(fmt)), { fmt = (char *)gF + vf_ndu(); gOut = vf_ndu(); cnt[0] = gOut; cnt[1] = vf_ndi(); c = vf_ndi(); })
          gErr = cnt[1]; gP = PO(fmt); step(); 1; })"""),
      1: dict(cond="""({ VF_CUT(cut_b, FLAGS, { fmt = (char *)gF + vf_ndu(); c = vf_ndi(); ljust = vf_ndi(); sign = vf_ndi(); alt = vf_ndi(); lzeroes = vf_ndi(); }) vf_inst(DEF_F(CUR)); vf_inst(NZ(CUR + 1)); 1; })"""),
      2: digs('cut_c', 'width', 'eF[gP + 1]'), 3: digs('cut_d', 'precision', 'gS3'),
      **{k: no for k in range(4, 16)}})
    CONV = dict(nloops=16, entry=ENT, modset=MOD, loops={
      0: dict(cond="""({ if (gStart) { VF_CHECK(SO(fmt, gF) && PO(fmt) == 2 && cnt[0] == gCnt && cnt[1] == gErr, "format, count"); VF_CHECK(stepok(vl), "the characters the directive prescribes are written, its argument consumed"); 
#ifndef DIGITSONLY
VF_REACH("conversion");
#endif
VF_ASSUME(0); } gStart = 1; 1; })"""),
      4: pad('cut_e', 'width', '1', "' '"), 5: pad('cut_f', 'width', '1', "' '"),
      6: dict(cond='({ VF_CUT(cut_g, len >= 0 && len <= (int)gSL && len <= precision, { len = vf_ndi(); }) vf_inst(SLEN(len)); 1; })'),
      7: pad('cut_h', 'width', 'len', "' '"),
      8: dict(cond="""({ if (!cut_i) { g0 = gOut; c0 = gChar; w0 = i; gN = 0; } VF_CUT(cut_i, i == w0 - (int)gN && i >= 0 && SO(s, gS) && PO(s) == gN && gOut == g0 + gN && gChar == (gK - g0 < gN ? (int)(unsigned char)gS[gK - g0] : c0),
          { gN = vf_ndu(); i = w0 - (int)gN; VF_ASSUME(gN <= w0); s = gS + gN; gOut = g0 + gN; gChar = vf_ndi(); cnt[0] = gCnt = vf_ndi(); }) 1; })"""),
      9: pad('cut_j', 'width', 'len', "' '"),
      10: dict(cond="""({
#ifdef DIGITSONLY
          digit(p, tmp, v); VF_CUT(cut_n, DIGINV, HDIG)
          VF_REACH("digits"); if (!tmp) VF_ASSUME(0);
#else
          HDIG VF_ASSUME(DIGINV && gPrev == 0);
#endif
          1; })"""),
      11: pad('cut_k', 'width', 'len', "' '"), 12: pad('cut_l', 'width', 'len', "'0'"), 13: pad('cut_m', 'precision', 'dcnt', "'0'"),
      14: dict(cond="""({ if (!cut_p) { g0 = gOut; c0 = gChar; w0 = dcnt; gN = 0; p0 = p; VF_CHECK(w0 >= 0 && w0 <= 11 && SO(p, s) && PO(p) + w0 <= 11, "the digits produced"); VF_ASSUME(w0 >= 0 && w0 <= 11); }
          VF_CUT(cut_p, dcnt == w0 - (int)gN && gN <= w0 && p == p0 + gN && gOut == g0 + gN && gChar == (gK - g0 < gN ? (int)(unsigned char)s[PO(p0) + (gK - g0)] : c0),
          { gN = vf_ndu() & 15; VF_ASSUME(gN <= w0); dcnt = w0 - (int)gN; p = p0 + gN; gOut = g0 + gN; gChar = gK - g0 < gN ? (int)(unsigned char)s[PO(p0) + (gK - g0)] : c0; cnt[0] = gCnt = vf_ndi(); }) 1; })"""),
      15: pad('cut_o', 'width', 'len', "' '")})
    import re, weave
    def stage(t):
        t = before('__fputc', '#include "ghost.h"\n')(t)
        m = re.search(r"if\s*\(\s*c\s*==\s*'n'\s*\)", t)
        if not m:
            raise weave.WeaveError('stage between parse and conversion not found')
        return t[:m.start()] + '\n#ifdef VF_PROOF\nVF_STAGE\n#endif\n' + t[m.start():]
    class S(Src):
        def make(self, d, proof):
            self.rename_in = {'__doprint': {'__fputc': 'stub_fputc', 'printff': 'stub_printff'}} if proof else {}
            self.post = stage if proof else None
            super().make(d, proof)
    mk = lambda a: [S('srclib/doprint.c', out='all.w.c', annots={'__doprint': a})]
    U = [Unit('fputc', 's04.c', [Src('srclib/doprint.c', out='all.w.c')], defs=['FPUTC'], functions=['srclib/doprint.c:__fputc'])]
    fn = ['srclib/doprint.c:__doprint']
    nat = dict(fuzz_ms=3000, unwind=17, functions=fn, timeout=250)
    U += [Unit('parse', 's04.c', mk(PARSE), defs=['PARSE'], **nat)]
    U += [Unit('char', 's04.c', mk(CONV), defs=['CLASS=2', "FMT='c'"], **nat), Unit('count', 's04.c', mk(CONV), defs=['CLASS=4', "FMT='n'"], **nat)]
    U += [Unit('float_' + c, 's04.c', mk(CONV), defs=['CLASS=6', "FMT='%s'" % c], **nat) for c in 'eEfFgG']
    U += [Unit('string', 's04.c', mk(CONV), defs=['CLASS=3', "FMT='s'"], **nat)]
    for c in 'diuoxXp':
        for k, n in enumerate(['digits', 'left', 'zero', 'right']):
            for pre in ((0, 1) if c in 'dixX' and k > 1 else (2,)):
                U.append(Unit('int_%s_%s%s' % (c, n, ['0', '1', ''][pre]), 's04.c', mk(CONV), defs=['CLASS=5', "FMT='%s'" % c, "CV='%s'" % (c if c != 'i' else 'd')] +
                              (['DIGITSONLY'] if k == 0 else ['JUST=%d' % k, 'WM=0xfffu']) + (['PRE=%d' % pre] if pre < 2 else []), **nat))
    return U
