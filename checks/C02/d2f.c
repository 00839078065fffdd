#include "vf.h"
typedef unsigned long size_t_;
#ifdef VF_NATIVE
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define MAX_CONST_DIGITS 112
#else
#define NULL 0
void *memcpy(void *d, const void *s, size_t_ n)
{
  if (n == 4) *(unsigned *)d = *(const unsigned *)s;
  return d;
}
void *memset(void *d, int c, size_t_ n) { size_t_ i; for (i = 0; i < n; i++) ((char *)d)[i] = c; return d; }
#endif
static void warnFloat2Int(void) { }
static void errorInternal(int n) { VF_CHECK(0, "conversion buffer too small"); }
#if defined VF_PROOF && defined CHAIN
/* ghost: the byte string before the call at one index, and the sequence of carries */
unsigned char gS[82]; unsigned gN, gK, gC[82]; unsigned char gV, gU, gMul, gAdd; unsigned gM;
static void havoc_gS(void) { unsigned char t[82]; __CPROVER_array_copy(gS, t); }
#endif
#include "fp.w.c"

#ifdef CHAIN
#ifdef VF_PROOF
#define LIM 80u /* the conversion buffer has FP_BUF_SIZE < 80 bytes */
static unsigned nd(void) { unsigned x; return x; }
void h_mul(void)
{
  unsigned n = nd(), k = nd(), m = nd(), i;
  { struct { unsigned char s[82]; unsigned c[82]; } t; __CPROVER_array_copy(gS, t.s); __CPROVER_array_copy(gC, t.c); }
  VF_ASSUME(n <= LIM && k < n && m > n && m <= LIM + 1);
  gN = n; gK = k; gM = m;
  gMul = nd(); gAdd = nd();
  gV = gS[k]; gU = gS[m];
  VF_ASSUME(gC[0] == gAdd);
  ChainMultiplyAdd(gS, n, gMul, gAdd);
  VF_CHECK(gS[k] == ((gC[k] + gV * gMul) & 0xFF), "digit k of chain*multiplier+addend (schoolbook carry)");
  VF_CHECK(gS[m] == gU, "bytes past the chain are untouched");
  VF_REACH("ChainMultiplyAdd");
}
void h_lemma(void)
{
  VF_IN(unsigned char, R); VF_IN(unsigned char, v); VF_IN(unsigned char, d);
  VF_ASSUME(d != 0 && R < d);
  unsigned x = R * 256 + v;
  VF_CHECK(x / d <= 255, "the quotient digit fits in a byte");
  VF_CHECK(x % d < d, "the remainder is below the divisor");
  VF_REACH("lemma");
}
#ifndef DIVISOR
#define DIVISOR 10
#endif
void h_div(void)
{
  unsigned n = nd(), k = nd(), m = nd(); unsigned char rem;
  { struct { unsigned char s[82]; unsigned c[82]; } t; __CPROVER_array_copy(gS, t.s); __CPROVER_array_copy(gC, t.c); }
  VF_ASSUME(n <= LIM && k < n && m > n && m <= LIM + 1);
  gN = n; gK = k; gM = m;
  gMul = DIVISOR; /* 2 and 10 are the divisors d2f uses */
  gV = gS[k]; gU = gS[m];
  VF_ASSUME(gC[n] == 0); /* gC[i]: the remainder carried into byte i-1 */
  ChainDivide(gS, n, gMul, &rem);
  VF_CHECK(gS[k] == (unsigned char)((gC[k + 1] * 256 + gV) / gMul) && gC[k] == (gC[k + 1] * 256 + gV) % gMul, "digit k of chain/divisor (long division)");
  VF_CHECK(rem == gC[0], "the remainder");
  VF_CHECK(gS[m] == gU, "bytes past the chain are untouched");
  VF_REACH("ChainDivide");
}
#else
/* bounded and native: exact arithmetic on up to 6 bytes */
void h_mul(void)
{
  unsigned char b[7]; unsigned i; unsigned long long v = 0, w = 0;
  VF_IN(unsigned, n); VF_IN(unsigned char, mul); VF_IN(unsigned char, add);
#ifdef VF_NATIVE
  n %= 7;
#endif
  VF_ASSUME(n <= 6);
  for (i = 0; i < 7; i++) VF_SET(unsigned char, b[i], "b");
  unsigned char last = b[6];
  for (i = n; i > 0; i--) v = v * 256 + b[i - 1];
  ChainMultiplyAdd(b, n, mul, add);
  for (i = n; i > 0; i--) w = w * 256 + b[i - 1];
  v = v * mul + add;
  if (n < 8) v &= (1ull << (8 * n)) - 1;
  VF_CHECK(v == w, "chain*multiplier+addend");
  VF_CHECK(b[6] == last, "bytes past the chain are untouched");
  VF_REACH("ChainMultiplyAdd");
}
#ifndef DIVISOR
#define DIVISOR 10
#endif
void h_div(void)
{
  unsigned char b[7], rem = 0; unsigned i; unsigned long long v = 0, w = 0;
  VF_IN(unsigned, n); VF_IN(unsigned char, d);
#ifdef VF_NATIVE
  n %= 7;
#endif
  VF_ASSUME(n <= 6 && d != 0);
  for (i = 0; i < 7; i++) VF_SET(unsigned char, b[i], "b");
  unsigned char last = b[6];
  for (i = n; i > 0; i--) v = v * 256 + b[i - 1];
  ChainDivide(b, n, d, &rem);
  for (i = n; i > 0; i--) w = w * 256 + b[i - 1];
  VF_CHECK(w == v / d && rem == v % d, "chain/divisor and remainder");
  VF_CHECK(b[6] == last, "bytes past the chain are untouched");
  VF_REACH("ChainDivide");
}
#endif
#else
static unsigned f2b(float f) { unsigned b; memcpy(&b, &f, sizeof b); return b; }
#include <stdlib.h>
/* every constant of up to 4 digits with every exponent in reach, against the host's correctly rounding strtof */
void h_enum(void)
{
  unsigned char d[4]; char s[20]; int c = 0, e; unsigned n, r;
  VF_IN(unsigned, vf_seq);
  n = vf_seq % 9999 + 1; e = (int)(vf_seq / 9999 % 100) - 55;
  sprintf(s, "%u", n);
  for (; s[c]; c++) d[c] = s[c] - '0';
  sprintf(s + c, "e%d", e);
  r = d2f(d, c, e);
  VF_CHECK(r == f2b(strtof(s, NULL)), "the decimal constant is rounded to the nearest float");
}
/* the exact decimal expansions of points halfway between two floats, and their neighbours */
void h_half(void)
{
  static char t[200], s[200]; static unsigned char d[MAX_CONST_DIGITS]; int c = 0, e, i, k; double m; float f, g; unsigned r;
  VF_IN(unsigned, b); VF_IN(unsigned char, cut); VF_IN(unsigned char, way); VF_IN(unsigned char, small);
  b &= 0x7fffffff;
  if (small % 3 == 0) b %= 0x01000000; else if (small % 3 == 1) b = 0x3f000000 + b % 0x08000000;
  VF_ASSUME(b < 0x7f7fffff);
  memcpy(&f, &b, 4); b++; memcpy(&g, &b, 4);
  m = (double)f + ((double)g - (double)f) * (way & 8 ? (way >> 4) / 16.0 : 0.5);
  if (way & 4) m = f;
  sprintf(t, "%.118e", m);
  for (i = 0, c = 0; t[i] != 'e'; i++) if (t[i] != '.' && c < 118) s[c++] = t[i];
  e = atoi(t + i + 1);
  while (c > 1 && s[c - 1] == '0') c--;
  if (cut % 4 == 0 && c > 9) c = 9 + cut % (c - 9); /* truncated: just below */
  if ((way & 3) == 1 && c < MAX_CONST_DIGITS) { s[c++] = '1'; } /* just above */
  if ((way & 3) == 2 && s[c - 1] > '0') { s[c - 1]--; if (c < MAX_CONST_DIGITS) s[c++] = '9'; }
  VF_ASSUME(c <= MAX_CONST_DIGITS);
  for (i = 0; i < c; i++) d[i] = s[i] - '0';
  e -= c - 1;
  k = 0; while (k < c - 1 && d[k] == 0) k++;
  VF_ASSUME(d[0] != 0 || c == 1);
  s[c] = 0; sprintf(s + c, "e%d", e);
  r = d2f(d, c, e);
  VF_CHECK(r == f2b(strtof(s, NULL)), "the decimal constant is rounded to the nearest float");
}
#endif
