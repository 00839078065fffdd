#include "vf.h"
/* characters consumed: the first eight, how many, and the hexadecimal value after \x */
int gC, gZ, gHn; unsigned gHv; unsigned char gS[8];
#include "smlrc.w.c"
#include "smlrc.m.h"
#ifdef VF_NATIVE
#define STOP vf_discard()
#else
#define STOP __CPROVER_assume(0)
#endif
static int mode, gErr;
static int hexd(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static char nextc(void) { VF_IN(char, ch);
#ifdef VF_NATIVE
  static char c1[] = "0123xxaF789\\\\\\'\"n\n", c2[] = "+-*/%&|^<>=!.=<>&|'L~"; ch = mode ? c2[(ch & 255) % (sizeof c2 - 1)] : (ch & 3) ? c1[((ch & 255) >> 2) % (sizeof c1 - 1)] : ch;
#endif
  return ch; }
static void shift1(void)
{
  int c = CharQueue[0] & 255;
#ifndef VF_NATIVE
  __CPROVER_assume(gC < 0x1fffffff);
#endif
  if (gC < 8) gS[gC] = c;
  if (mode == 0 && gC >= 2) { if (hexd(c) == 0 && gHn == 0) gZ = 1; else if (hexd(c) < 16) { gHn++; gHv = gHv * 16 + hexd(c); } else gHn = 1 << 30; }
  gC++; CharQueue[0] = CharQueue[1]; CharQueue[1] = CharQueue[2]; CharQueue[2] = nextc();
}
void ShiftCharN(int n) { VF_CHECK(n >= 0 && n <= 3, "at most the queue is consumed at once"); if (n > 0) shift1(); if (n > 1) shift1(); if (n > 2) shift1(); }
/* the value of the escape sequence gS[1..gC-1], -1 if it has none */
static int oct(int c) { return c >= '0' && c <= '7'; }
static int simple(int c)
{
  switch (c) { case 'n': return 10; case 't': return 9; case 'v': return 11; case 'b': return 8; case 'r': return 13; case 'f': return 12; case 'a': return 7;
    case '\\': case '\'': case '"': case '?': return c; }
  return -1;
}
static int gWide;
static int refuse(void)
{
  int q = CharQueue[0] & 255, lim = gWide ? SizeOfWideChar * 2 : 2;
  if (mode) return gErr;
  if (gC == 0) return q == 10 || q == 13 || q == 0 || (gWide && q > 127);
  if (gC == 1) return q == 10 || q == 13 || q == 0 || (simple(q) < 0 && q != 'x' && !oct(q) && gWide && q > 127);
  if (gS[1] == 'x') return gHn > lim || (!gZ && !gHn && hexd(q) == 99);
  if (oct(gS[1])) return gC == 4 && gS[1] >= '4';
  return 0;
}
void error(char *f, ...) { VF_CHECK(refuse(), "a valid constant is refused"); STOP; }
void warning(char *f, ...) { }
static void start(void)
{
  int i; VF_IN(unsigned char, sow); VF_IN(unsigned char, ws); VF_IN(unsigned char, sg);
  SizeOfWord = sow & 1 ? 2 : 4; SizeOfWideChar = ws & 1 ? 2 : 4; CharIsSigned = sg & 1; WideCharIsSigned = sg >> 1 & 1;
  for (i = 0; i < 8; i++) gS[i] = 0;
  gC = gZ = gHn = gHv = gErr = 0;
  for (i = 0; i < 3; i++) CharQueue[i] = nextc();
  CharQueueLen = 3; PrepDontSkipTokens = 1;
}
void h_char(void)
{
  unsigned r; int q; VF_IN(unsigned char, wide);
  mode = 0; gWide = wide &= 1; start();
#ifdef VF_NATIVE
  if (CharQueue[2] & 1) CharQueue[0] = '\\'; if ((CharQueue[2] & 6) == 2) CharQueue[1] = 'x';
#endif
  r = GetCharValue(wide);
  q = CharQueue[0] & 255;
  if (gS[0] != '\\') {
    VF_CHECK(gC == 1 && r == gS[0] && r != 10 && r != 13 && (!wide || r < 128), "an ordinary character stands for itself");
    VF_REACH("plain");
  } else if (gS[1] == 'x') {
    VF_CHECK(gHn <= (wide ? SizeOfWideChar * 2 : 2) && (gZ || gHn) && hexd(q) == 99, "a hexadecimal escape takes all its digits, at least one, no more than fit");
    VF_CHECK(r == gHv, "its value");
    VF_REACH("hex escape");
  } else if (oct(gS[1])) {
    VF_CHECK(gC >= 2 && gC <= 4 && (gC < 3 || oct(gS[2])) && (gC < 4 || oct(gS[3])) && (gC == 4 || !oct(q)), "an octal escape takes up to three digits");
    VF_CHECK(r == (gC == 2 ? gS[1] - '0' : gC == 3 ? (gS[1] - '0') * 8 + (gS[2] - '0') : (gS[1] - '0') * 64 + (gS[2] - '0') * 8 + (gS[3] - '0')) && r < 256, "its value");
    VF_REACH("octal escape");
  } else {
    VF_CHECK(gC == 2, "a simple escape is two characters");
    VF_CHECK(simple(gS[1]) < 0 || (int)r == simple(gS[1]), "its value");
    VF_REACH("simple escape");
  }
}
/* C's punctuators of one to three characters */
static int punct(int a, int b, int c, int *len)
{
  *len = 3;
  if (a == '<' && b == '<' && c == '=') return tokAssignLSh;
  if (a == '>' && b == '>' && c == '=') return tokAssignRSh;
  if (a == '.' && b == '.' && c == '.') return tokEllipsis;
  *len = 2;
  if (b == '=') switch (a) { case '+': return tokAssignAdd; case '-': return tokAssignSub; case '*': return tokAssignMul; case '/': return tokAssignDiv; case '%': return tokAssignMod;
    case '&': return tokAssignAnd; case '|': return tokAssignOr; case '^': return tokAssignXor; case '=': return tokEQ; case '!': return tokNEQ; case '<': return tokLEQ; case '>': return tokGEQ; }
  if (a == '+' && b == '+') return tokInc;
  if (a == '-' && b == '-') return tokDec;
  if (a == '-' && b == '>') return tokArrow;
  if (a == '<' && b == '<') return tokLShift;
  if (a == '>' && b == '>') return tokRShift;
  if (a == '&' && b == '&') return tokLogAnd;
  if (a == '|' && b == '|') return tokLogOr;
  *len = 1;
  switch (a) { case '+': case '-': case '*': case '/': case '%': case '&': case '|': case '^': case '=': case '!': case '<': case '>': case '.': case ',': case ';': case ':': case '(': case ')': case '[': case ']': case '{': case '}': case '~': case '?': return a; }
  *len = 0;
  return -1;
}
static int gNum, gCv, gW1; static unsigned gCh[5];
int stub_GetNumber(void) { VF_CHECK(gC == 0, "the number starts here"); gNum++; return 77; }
/* one character of a character constant, as proved for h_char */
unsigned stub_GetCharValue(int wide)
{
  VF_IN(unsigned, v); int i; 
  VF_ASSUME(wide && SizeOfWideChar == 4 || v <= (wide ? 0xffffu : 0xffu));
  VF_CHECK(wide == gW1, "characters are read as wide exactly in wide constants");
  if (gCv < 5) gCh[gCv] = v; gCv++;
  for (i = 0; i < 3; i++) CharQueue[i] = nextc();
  gErr = gCv > (gW1 ? 1 : SizeOfWord) || CharQueue[0] == 10 || CharQueue[0] == 13 || CharQueue[0] == 0; 
  return v;
}
void h_tok(void)
{
  int r, a, b, c, len, t; 
  mode = 1; start(); gNum = gCv = 0;
  a = CharQueue[0] & 255; b = CharQueue[1] & 255; c = CharQueue[2] & 255;
  VF_ASSUME(a != 0);
  gW1 = a == 'L' && b == '\'';
  t = punct(a, b, c, &len);
  { int f = gW1 ? c : b; gErr = f == '\'' || f == 10 || f == 13 || f == 0; if (a != '\'' && !gW1) gErr = 0; }
  r = GetTokenInner();
  if (t >= 0 && !(a == '.' && b >= '0' && b <= '9')) { VF_CHECK(r == t && gC == len && !gNum && !gCv, "the longest punctuator is read"); VF_REACH("punctuator"); }
  else if (a == '.' || (a >= '0' && a <= '9')) { VF_CHECK(gNum == 1 && r == 77 && gC == 0, "a number is read"); VF_REACH("number"); }
  else if (a == '\'' || gW1) {
    VF_CHECK(gCv >= 1 && gCv <= (gW1 ? 1 : SizeOfWord), "no more characters than fit the type");
    VF_CHECK(r == (gW1 ? tokNumCharWide : tokNumInt), "type");
    if (gW1) VF_CHECK(SizeOfWideChar == 4 ? (unsigned)TokenValueInt == gCh[0] : TokenValueInt == (WideCharIsSigned ? (short)gCh[0] : (int)(unsigned short)gCh[0]), "the value of the wide character");
    else if (gCv == 1) VF_CHECK(TokenValueInt == (CharIsSigned ? (signed char)gCh[0] : (int)(unsigned char)gCh[0]), "the value of the character as a char");
    VF_REACH("character constant");
  } else if (a == '"' || a == 'L' && b == '"') { VF_CHECK(r == (a == 'L' ? tokLitStrWide : tokLitStr) && CharQueue[0] == '"' && gC == (a == 'L'), "a string literal starts"); VF_REACH("string"); }
  else { VF_CHECK(r == tokEof && gC == 0 && !gNum && !gCv, "not a token of this kind"); VF_REACH("other"); }
}
