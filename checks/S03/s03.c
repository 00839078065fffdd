#include "vf.h"
typedef unsigned char uc;
typedef unsigned long long u64;
int errno;
#ifdef VF_PROOF
#define LIM 0x1fffffu
static unsigned nd(void) { unsigned x; return x; }
#elif VF_ISNATIVE
#define LIM 40u
#else
#define LIM 6u
#endif
char *gS; unsigned gL;          /* the string and the position of its terminator */
unsigned gW, gQ, gE;            /* end of white space, first digit position, end of the digits */
u64 *gV;                        /* value of the digits before position i, saturated at 2^40 */
int gB, gNeg, gHex;
#define SATURATED 0x10000000000ull

/* the C locale's classes and digit values, independent of the library */
static int spc(int c) { return c == 32 || (c >= 9 && c <= 13); }
static int dig(int c) { return c >= 48 && c <= 57 ? c - 48 : c >= 97 && c <= 122 ? c - 97 + 10 : c >= 65 && c <= 90 ? c - 65 + 10 : 99; }
#define DIG(i) dig((uc)gS[i])
static u64 step(u64 v, int d) { v = v * gB + d; return v > SATURATED ? SATURATED : v; }
#define INST_SPACE(i) ((i) >= gW || spc((uc)gS[i]))
#define INST_DIGIT(i) ((i) < gQ || (i) >= gE || (DIG(i) < gB && gV[(i) + 1] == step(gV[i], DIG(i))))

#include "ctype.w.c"
#include "isspace.w.c"
#include "isdigit.w.c"
#include "isalpha.w.c"
#ifdef F_strtol
#include "strtol.w.c"
#endif
#ifdef F_strtoul
#include "strtoul.w.c"
#endif
#ifdef F_atoi
#include "atoi.w.c"
#endif

static void mk(int base)
{
  unsigned i, p;
#ifdef VF_PROOF
  unsigned l = nd(), w = nd(), e = nd();
#else
  static char alpha[] = " 0xX19aAzZ-+\tfF\n2g8";
  unsigned l, w, e;
  VF_IN(unsigned, len); VF_IN(unsigned, style);
  l = len;
#if VF_ISNATIVE
  l %= 37;
#endif
#endif
  VF_ASSUME(l < LIM);
  gL = l;
  gS = VF_ALLOC(l + 1);
#ifndef VF_PROOF
  gV = VF_ALLOC((l + 2) * 8);
  for (i = 0; i < l; i++) { VF_SET(char, gS[i], "byte");
#if VF_ISNATIVE
    if (style & 1) gS[i] = alpha[(uc)gS[i] % 19]; else if (style & 2) gS[i] = 48 + (uc)gS[i] % 10; if ((style & 16) && i < (style >> 8) % 8) gS[i] = i % 2 ? 48 : 32;
    else if ((style & 4) && (uc)gS[i] > 6) gS[i] = (style & 8) ? 'f' : '4';
#endif
  VF_ASSUME(gS[i] != 0); }
  gS[l] = 0;
#else
  { unsigned vn = nd(); VF_ASSUME(vn > l && vn <= LIM); gV = VF_ALLOC(sizeof(u64) * (vn + 1)); }
  VF_ASSUME(gS[l] == 0);
#endif
#ifndef VF_PROOF
  for (w = 0; spc((uc)gS[w]); w++);
#endif
  VF_ASSUME(w <= l && !spc((uc)gS[w]));
  gW = p = w;
  gNeg = gS[p] == '-';
  if (gS[p] == '-' || gS[p] == '+') p++;
  gHex = 0; gB = base;
  if ((base == 0 || base == 16) && gS[p] == '0' && (gS[p + 1] == 'x' || gS[p + 1] == 'X')) { gHex = 1; gB = 16; p += 2; }
  else if (base == 0) gB = gS[p] == '0' ? 8 : 10;
  gQ = p;
#ifndef VF_PROOF
  gV[p] = 0;
  for (e = p; DIG(e) < gB; e++) gV[e + 1] = step(gV[e], DIG(e));
#endif
  VF_ASSUME(e >= p && e <= l && DIG(e) >= gB);
  VF_ASSUME(gV[p] == 0);
  gE = e;
}
#if defined F_strtol || defined F_strtoul
void harness(void)
{
  char *end, *endx; unsigned r, want; int big; u64 v;
#ifdef BASE
  int base = BASE;
#else
  VF_IN(int, base);
#if VF_ISNATIVE
  base = (unsigned)base % 38; if (base == 1) base = 10; if (base == 37) base = 16;
#endif
  VF_ASSUME(base == 0 || (base >= 2 && base <= 36));
#endif
  VF_IN(_Bool, noend);
  mk(base);
  errno = 5;
#ifdef F_strtol
  r = sc_strtol(gS, noend ? 0 : &end, base);
#else
  r = sc_strtoul(gS, noend ? 0 : &end, base);
#endif
  v = gV[gE]; endx = gS + gE;
  if (gE == gQ) { v = 0; endx = gHex ? gS + gQ - 1 : gS; }
#ifdef F_strtol
  big = v > 0x7fffffffull + gNeg;
  want = big ? 0x7fffffffu + gNeg : gNeg ? -(unsigned)v : (unsigned)v;
#else
  big = v > 0xffffffffull;
  want = big ? 0xffffffffu : gNeg ? -(unsigned)v : (unsigned)v;
#endif
  VF_CHECK(r == want, "the value of the longest valid prefix, clamped to the range");
  VF_CHECK(errno == (big ? 34 : 5), "the range error is set exactly when the value does not fit");
  VF_CHECK(noend || end == endx, "the end pointer is the end of the longest valid prefix");
  VF_REACH("end");
}
#else
void harness(void)
{
  int r; u64 v;
  mk(10);
  v = gV[gE];
  r = sc_atoi(gS);
  if (v <= 0x7fffffffull + gNeg) /* otherwise undefined */
    VF_CHECK(r == (int)(gNeg ? -(unsigned)v : (unsigned)v), "the value of the decimal prefix");
  VF_REACH("end");
}
#endif
#ifdef VF_PROOF
void h_lemma(void)
{
  u64 v; int d = vf_ndi();
  gB = 10;
  VF_ASSUME(v <= SATURATED && d >= 0 && d < gB);
  VF_CHECK(step(v, d) >= v && step(v, d) <= SATURATED, "appending a digit does not decrease the value");
  VF_REACH("lemma");
}
#endif
