from vf import *
ASSUMPTIONS = ['literals shorter than 2^29 characters', 'input not skipped by #if; single precision and preprocessor support configured in (the default)', 'digits of a floating constant past the 112th significant one do not count (documented limit)']
TRUSTED = ['ghost-instance statements (vf_inst) at the last loop of GetNumber: instances of the definition of the value of a digit string, of its monotonicity (proved as lemma), and of the digit-by-digit facts proved for an arbitrary witness']
CPP = ['-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX', '-D__NO_CTYPE']
Q = 'CharQueue[0] = vf_ndi(); CharQueue[1] = vf_ndi(); CharQueue[2] = vf_ndi(); gC = vf_ndi();'
QOK = 'gC >= 0 && gC < 0x20000000'
AN = {'GetNumber': dict(nloops=8, entry='int cut_0 = 0, cut_1 = 0, cut_2 = 0, cut_3 = 0, cut_4 = 0, cut_5 = 0, cut_6 = 0, cut_7 = 0;',
  modset=['p', 'ch', 'leadingZero', 'n', 'type', 'uSuffix', 'lSuffix', 'mcnt', 'eexp', 'eTooBig', 'cnt', 'mexp', 'dot', 'ecnt', 'esign', 'base', 'i', 'ConstDigits', 'TokenValueInt'], loops={
  0: dict(cond='({ VF_CUT(cut_0, gC >= 2 && gPh == (gHd != 0) && n == gTot && gTot <= 0xffffffffull && (cnt != 0) == (gHd != 0) && cnt >= 0 && cnt <= gC && gC < 0x20000000, { ' + Q + ' n = vf_ndu(); cnt = vf_ndi(); gTot = vf_ndl(); gHd = vf_ndi(); gPh = vf_ndi(); ch = vf_ndi(); }) 1; })'),
  1: dict(cond='({ VF_CUT(cut_1, ' + QOK + ' && gPh == 0 && mcnt == 0 && mexp == 0 && gN == 0, { ' + Q + ' }) 1; })'),
  2: dict(cond='({ VF_CUT(cut_2, mcnt == gN && mexp == gX && (gN > 0 || CharQueue[0] != 48) && (INV_I) && (WIT), { ' + Q + ' ch = vf_ndi(); mcnt = gN = vf_ndi(); mexp = gX = vf_ndi(); gTot = vf_ndl(); gPh = vf_ndi(); gDw = vf_ndi(); gBadOct = vf_ndi(); __CPROVER_havoc_object(ConstDigits); }) 1; })'),
  3: dict(cond='({ VF_CUT(cut_3, gPh == 2 && mcnt == 0 && gN == 0 && mexp == gX && gX <= 0 && gX >= -gC && ' + QOK + ', { ' + Q + ' mexp = gX = vf_ndi(); }) 1; })'),
  4: dict(cond='({ VF_CUT(cut_4, gPh == 2 && (gN > 0 || CharQueue[0] != 48) && mcnt == gN && gN >= 0 && gN <= NDIG && mexp == gX && gX <= gC && gX >= -gC && (gW >= gN || gDw >= 0 && gDw <= 9) && (WIT) && ' + QOK + ', { ' + Q + ' ch = vf_ndi(); mcnt = gN = vf_ndi(); mexp = gX = vf_ndi(); gDw = vf_ndi(); gTot = vf_ndl(); __CPROVER_havoc_object(ConstDigits); }) 1; })'),
  5: dict(cond='({ VF_CUT(cut_5, (gPh == 4 || gPh == 5 || gPh == 6) && n == gE && gE >= 0 && gE <= 0x7fffffff && (gPh == 6 || gE == 0) && (gEc != 0) == (ecnt != 0) && (gEc != 0) == (gPh == 6) && ecnt >= 0 && ecnt <= gC && gC >= 0 && gC < 0x20000000, { ' + Q + ' ch = vf_ndi(); n = vf_ndu(); gE = vf_ndl(); gEc = vf_ndi(); ecnt = vf_ndi(); gPh = vf_ndi(); }) 1; })'),
  6: dict(cond='({ VF_CUT(cut_6, mcnt >= 0 && mcnt <= gN && mexp == gX + (gN - mcnt) && (gW < mcnt || gW >= gN || gDw == 0), { mcnt = vf_ndi(); mexp = vf_ndi(); }) 1; })'),
  7: dict(cond='({ VF_CUT(cut_7, i >= 0 && i <= mcnt && n == V(i) && V(i) <= 0xffffffffull && (gB == 10 || gW >= i || gDw < 8), { i = vf_ndi(); n = vf_ndu(); ch = vf_ndi(); }) vf_inst(i >= gN || (V(i + 1) == step(V(i), ConstDigits[i]) && V(i + 1) <= V(gN) && ConstDigits[i] <= 9 && (ConstDigits[i] < 8 || gBadOct))); 1; })')})}
AC = {'GetCharValue': dict(nloops=3, entry='int cut_0 = 0, cut_1 = 0;', modset=['p', 'pp', 'ch', 'cnt', 'zeroes', 'digs', 'vals'], loops={
  0: dict(cond='({ VF_CUT(cut_0, gC >= 2 && gC < 0x20000000 && gS[0] == 92 && gS[1] == 120 && gZ == 1 && gHn == 0 && gHv == 0, { CharQueue[0] = vf_ndi(); CharQueue[1] = vf_ndi(); CharQueue[2] = vf_ndi(); gC = vf_ndi(); gS[2] = vf_ndi(); gS[3] = vf_ndi(); gS[4] = vf_ndi(); gS[5] = vf_ndi(); gS[6] = vf_ndi(); gS[7] = vf_ndi(); }) 1; })'),
  1: dict(cond='({ VF_CUT(cut_1, gC >= 2 && gC < 0x20000000 && gS[0] == 92 && gS[1] == 120 && gHn >= 0 && gHn <= 8 && cnt == gHn && ch == gHv && gZ == zeroes && (gHn > 0 || CharQueue[0] != 48) && gHn <= (wide ? SizeOfWideChar * 2 : 2), { CharQueue[0] = vf_ndi(); CharQueue[1] = vf_ndi(); CharQueue[2] = vf_ndi(); gC = vf_ndi(); cnt = gHn = vf_ndi(); ch = gHv = vf_ndu(); gS[2] = vf_ndi(); gS[3] = vf_ndi(); gS[4] = vf_ndi(); gS[5] = vf_ndi(); gS[6] = vf_ndi(); gS[7] = vf_ndi(); }) 1; })')})}
def src(an=None, extra=None, rin=None):
    return Src('smlrc.c', cpp=CPP, macros='(tok|Sym)\\w+', rename={'main': 'smlrc_main'}, annots=an or {}, rename_def=dict({'error': 'real_error', 'warning': 'real_warning', 'ShiftCharN': 'real_ShiftCharN'}, **(extra or {})),
        rename_in=rin or {}, post=before('FindMacro', 'void ShiftCharN(int); unsigned stub_d2f(unsigned char *, int, int); int stub_GetNumber(void); unsigned stub_GetCharValue(int);\n'))
def units(work, tier):
    us = []
    for name, d in (('hex', ['HEX', 'BASE=16']), ('oct', ['BASE=8']), ('dec', ['BASE=10']), ('flt', ['FLT', 'BASE=10']), ('flt0', ['FLT', 'BASE=8'])):
        us.append(Unit('num_' + name, 'c03.c', [src(AN, None, {'GetNumber': {'d2f': 'stub_d2f'}})], entry='h_num', defs=d, bits=64, unwind=24,
            native_defs=['harness=h_num'], functions=['smlrc.c:GetNumber'], checks=('bounds', 'pointer', 'div'), fuzz_ms=4000, flags=('--max-field-sensitivity-array-size', '0')))
    us.append(Unit('char', 'c03b.c', [src(AC)], entry='h_char', bits=64, unwind=24, native_defs=['harness=h_char'], functions=['smlrc.c:GetCharValue'], checks=('bounds', 'pointer', 'div'), fuzz_ms=3000))
    us.append(Unit('tok', 'c03b.c', [src(None, None, {'GetTokenInner': {'GetNumber': 'stub_GetNumber', 'GetCharValue': 'stub_GetCharValue'}})], entry='h_tok', bits=64, unwind=24, native_defs=['harness=h_tok'], functions=['smlrc.c:GetTokenInner'], checks=('bounds', 'pointer', 'div'), fuzz_ms=3000))
    return us
