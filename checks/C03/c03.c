#include "vf.h"
#include "ghost.h"
#ifndef VF_NATIVE
static long long vf_ndl(void) { long long x; return x; }
#endif
#include "smlrc.w.c"
#include "smlrc.m.h"
#ifdef VF_NATIVE
#define STOP vf_discard()
#else
#define STOP __CPROVER_assume(0)
#endif
static int gHex, gStr, gOut, gDone;
static char nextc(void) { VF_IN(char, ch);
#ifdef VF_NATIVE
  static char al[] = "0123456789000179999aAfF..eExuUlL+-8\\' 4294967296n"; if ((ch * 5 & 31) != 3) ch = al[(ch & 255) % (sizeof al - 1)];
  if (gC > 40 && isd(ch)) ch = ' ';
#endif
  return ch; }
static int suffix(int c)
{
  int l = c | 32;
  if (gPh == 9 || (l != 'u' && l != 'l')) return 0;
  if (l == 'u') { if (gU) return 0; gU = 1; if (gL) gPh = 9; else gPh = 7; }
  else { if (gL) return 0; gL = 1; if (gU) gPh = 9; else gPh = 7; }
  return 1;
}
static void sig10(int d, int frac)
{
#ifdef FLT
  if (gN < NDIG) { if (gN == gW) gDw = d; gN++; if (frac) gX--; }
  else { if (!frac) gX++; }
#else
  if (gN < NDIG) { if (gN == gW) gDw = d; gN++; gTot = step(gTot, d); DEFV(gN, gTot); if (frac) gX--; }
  else { gTot = SAT; if (!frac) gX++; }
#endif
}
static void consume(int c)
{
  gC++;
#ifndef VF_NATIVE
  __CPROVER_assume(gC < 0x20000000);
#endif
  if (gHex) {
    if (gPh <= 1 && gC > 2 && hexd(c) < 16) { gPh = 1; gHd = 1; gTot = step(gTot, hexd(c)); return; }
    if (gC <= 2) return;
    if (gHd && suffix(c)) return;
    gPh = 99; return;
  }
#ifdef FLT
#define LEAVE
#else
#define LEAVE STOP
#endif
  if (gPh <= 1) {
    if (isd(c)) { if (gPh == 0 && c == '0') return; gPh = 1; if (c >= '8') gBadOct = 1; sig10(c - '0', 0); return; }
    if (c == '.') { LEAVE; gPh = 2; gDot = 1; return; }
    if ((c | 32) == 'e') { LEAVE; gPh = 4; return; }
    if (suffix(c)) return;
  } else if (gPh == 2) {
    if (isd(c)) { if (gN == 0 && c == '0') gX--; else sig10(c - '0', 1); return; }
    if ((c | 32) == 'e') { gPh = 4; return; }
    if ((c | 32) == 'f' || (c | 32) == 'l') { gPh = 8; return; }
  } else if (gPh >= 4 && gPh <= 6) {
    if (gPh == 4 && (c == '+' || c == '-')) { gPh = 5; if (c == '-') gEs = -1; return; }
    if (isd(c)) { gPh = 6; gEc = 1; gE = gE * 10 + (c - '0'); if (gE > 0x7fffffff) gE = 0x80000000ll; return; }
    if (gPh == 6 && ((c | 32) == 'f' || (c | 32) == 'l')) { gPh = 8; return; }
  } else if (gPh == 7 && suffix(c)) return;
  gPh = 99;
}
static void shift1(void)
{
  consume(CharQueue[0] & 255);
  CharQueue[0] = CharQueue[1]; CharQueue[1] = CharQueue[2]; CharQueue[2] = nextc();
}
void ShiftCharN(int n) { if (n > 0) shift1(); if (n > 1) shift1(); if (n > 2) shift1(); VF_CHECK(n <= 3, "at most the queue is consumed at once"); }
static u64 maxu(void) { return SizeOfWord == 2 ? 0xffff : 0xffffffff; }
static u64 maxs(void) { return maxu() >> 1; }
/* the constant as consumed cannot be represented, or is none */
static int refuse(void)
{
  int c = CharQueue[0] & 255;
  u64 t = gHex && gPh <= 1 && hexd(c) < 16 ? step(gTot, hexd(c)) : gTot;
  if (gHex && !gHd && hexd(c) == 99) return 1;
  if (!gHex && (gPh == 4 || gPh == 5) && !isd(c)) return 1;
  if (!gHex && gPh == 6 && isd(c) && gE * 10 + (c - '0') > 0x7fffffff) return 1;
  if (!gHex && (gDot || gEc)) return gPh != 4 && gPh != 5 && (gEs * gE + gX > 0x7fffffffll - (NDIG) || gEs * gE + gX < -0x7fffffffll);
  if (!gHex && gPh <= 1 && (isd(c) || c == '.' || (c | 32) == 'e')) return 0;
  if (t > maxu()) return 1;
  if (!gHex && gB == 8 && gBadOct) return 1;
  if (SizeOfWord == 2 && (gL || (c | 32) == 'l')) return 1;
  if (!gHex && gB == 10 && !gU && t > maxs() && !((c | 32) == 'u')) return 1;
  return 0;
}
void error(char *f, ...)
{
  int c = CharQueue[0] & 255;
#ifdef FLT
  VF_ASSUME(gDot || gPh >= 4 && gPh <= 6 || gEc);
#endif
  VF_CHECK(gOut || refuse(), "a valid constant is refused"); gDone = 1; STOP;
}
void warning(char *f, ...) { }
unsigned stub_d2f(unsigned char *dg, int cnt, int e)
{
  int zero = 0;
  VF_CHECK(!gHex && (gDot || gEc) && (gPh == 2 || gPh == 6 || gPh == 8), "the constant is a floating one");
  VF_CHECK(gPh != 6 || gEc, "its exponent has digits");
  VF_CHECK(dg == ConstDigits && cnt >= 1 && cnt <= NDIG, "digits");
  VF_CHECK(!isd(CharQueue[0] & 255) || gPh == 8, "all its digits are read");
  VF_CHECK(gPh != 2 || (CharQueue[0] | 32) != 'e', "its exponent is read");
  VF_CHECK(gPh == 8 || ((CharQueue[0] | 32) != 'f' && (CharQueue[0] | 32) != 'l'), "its suffix is read");
  if (cnt == 1 && dg[0] == 0) VF_CHECK(gW >= gN || gDw == 0, "value zero only for zero digits");
  else {
    VF_CHECK(cnt <= gN, "no digits that were not written");
    VF_CHECK(e == gEs * gE + gX + (gN - cnt), "the power of ten of the last digit");
    VF_CHECK(gW >= gN || (gW < cnt ? dg[gW] == gDw : gDw == 0), "every digit as written, only trailing zeros dropped");
  }
  gDone = 2;
  return 0x12345678;
}
static void start(void)
{
  int i;
  VF_IN(unsigned char, sow); VF_IN(int, w);
  SizeOfWord = sow & 1 ? 2 : 4;
#ifdef VF_NATIVE
  w = (unsigned)w % 8;
#endif
  VF_ASSUME(w >= 0 && w < NDIG); gW = w;
  gPh = gC = gDot = gBadOct = gU = gL = gN = gDw = gEc = gHd = gDone = gOut = 0; gTot = gX = gE = 0; gEs = 1; DEFV(0, 0);
  for (i = 0; i < 3; i++) CharQueue[i] = nextc();
  CharQueueLen = 3; PrepDontSkipTokens = 1;
}
void h_num(void)
{
  int r, c;
  start(); 
#ifdef HEX
  gHex = 1;
#ifdef VF_NATIVE
  CharQueue[0] = '0'; CharQueue[1] = 'x';
#endif
  VF_ASSUME(CharQueue[0] == '0' && (CharQueue[1] == 'x' || CharQueue[1] == 'X')); gB = 16;
#else
  gHex = 0;
  VF_ASSUME(isd(CharQueue[0] & 255) || CharQueue[0] == '.' && isd(CharQueue[1] & 255)); VF_ASSUME(!(CharQueue[0] == '0' && (CharQueue[1] | 32) == 'x'));
  gB = CharQueue[0] == '0' ? 8 : 10;
  VF_ASSUME(gB == BASE);
#endif
  r = GetNumber();
  c = CharQueue[0] & 255;
  if (gDone == 2) { VF_CHECK(r == tokNumFloat && TokenValueInt == 0x12345678, "a floating constant has the value of its digits and exponent"); 
#ifdef FLT
    VF_REACH("floating");
#endif
  }
#ifdef FLT
  else VF_CHECK(!gDot && !gEc, "a floating constant is not read as an integer");
#else
  else {
    VF_CHECK(gHex ? gHd && (gPh == 1 || gPh == 7 || gPh == 9) : gPh == 0 || gPh == 1 || gPh == 7 || gPh == 9, "an integer constant and nothing else is read");
    VF_CHECK(gPh > 1 || (gHex ? hexd(c) == 99 : !isd(c) && c != '.' && (c | 32) != 'e'), "all its digits are read");
    VF_CHECK(gU || gPh == 9 || (c | 32) != 'u', "its suffix is read");
    VF_CHECK(gL || gPh == 9 || (c | 32) != 'l', "its suffix is read (l)");
    VF_CHECK(gTot <= maxu(), "a constant too big for the target is refused");
    VF_CHECK((unsigned)TokenValueInt == gTot, "its value");
    VF_CHECK(gHex || gB == 10 || gW >= gN || gDw < 8, "octal digits only");
    VF_CHECK(SizeOfWord == 4 || !gL, "no long on 16-bit targets");
    VF_CHECK(gU || gTot > maxs() ? r == tokNumUint : r == tokNumInt, "its type");
    VF_CHECK(gHex || gB == 8 || gU || gTot <= maxs(), "a decimal constant without u that does not fit int is refused");
    VF_REACH("integer");
  }
#endif
}
