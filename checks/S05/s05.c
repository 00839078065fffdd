#include "vf.h"
#define LIM 0x7fff00u
#ifdef BSEARCH
#include "bsearch.w.c"
#else
#include "qsort.w.c"
#endif
#ifdef VF_PROOF
static unsigned nd(void) { unsigned x; return x; }
#endif
#ifdef EXCH
void harness(void)
{
#ifdef VF_PROOF
  unsigned n = nd(), m = nd(), o = nd(), same = nd() & 1; char *A, *B;
  VF_ASSUME(m >= 1 && m < LIM && n <= m && o <= m - n && (!same || o == 0));
  A = VF_ALLOC(m); B = same ? A : VF_ALLOC(m);
  gA = A + o; gB = B + o; gK = nd(); VF_ASSUME(gK < m - o);
  gOa = gA[gK]; gOb = gB[gK];
  exchange(gA, gB, n);
  VF_CHECK(EX(n), "exactly the two elements are exchanged");
  VF_REACH("exchange");
#else
  char a[40], b[40], p[40], q[40]; int i;
  VF_IN(unsigned, n); VF_IN(unsigned char, same); n %= 33;
  for (i = 0; i < 40; i++) { VF_SET(char, a[i], "a"); VF_SET(char, b[i], "b"); p[i] = a[i]; q[i] = b[i]; }
  if (same & 1) { exchange(a + 4, a + 4, n); for (i = 0; i < 40; i++) VF_CHECK(a[i] == p[i], "exchanging an element with itself"); return; }
  exchange(a + 4, b + 4, n);
  for (i = 0; i < 40; i++) VF_CHECK(a[i] == (i >= 4 && i < 4 + n ? q[i] : p[i]) && b[i] == (i >= 4 && i < 4 + n ? p[i] : q[i]), "exactly the two elements are exchanged");
#endif
}
#endif
#ifdef LEMMA
/* the root of a heap is its maximum: by strong induction on the index */
void harness(void)
{
  unsigned h = nd(), j = nd();
  gN = nd(); VF_ASSUME(gN > 0 && gN < 0x100000); gKey = VF_ALLOC(gN * sizeof *gKey);
  VF_ASSUME(h <= gN && j < h && HEAP(h, j));
  if (j > 0) { VF_CHECK(PAR(j) < j, "the induction is well founded"); VF_ASSUME(ROOT(h, PAR(j))); }
  VF_CHECK(ROOT(h, j), "the root is the maximum");
  VF_REACH("lemma");
}
#endif
#ifdef SORT
#ifdef VF_PROOF
static unsigned idx(void *p) { VF_CHECK(SO(p, gBase) && PO(p) % ES == 0 && PO(p) / ES < gN, "an element of the array"); return PO(p) / ES; }
static void stub_exchange(char *a, char *b, unsigned size)
{
  unsigned i = idx(a), j = idx(b); int t = K(i);
  VF_CHECK(size == ES, "whole elements are exchanged");
  K(i) = K(j); K(j) = t;
}
static int cmp(void *a, void *b) { unsigned i = idx(a), j = idx(b); int r; VF_ASSUME((r < 0) == (K(i) < K(j)) && (r > 0) == (K(i) > K(j))); return r; }
void harness(void)
{
  static char none[1];
  gN = nd(); gG = nd(); VF_ASSUME(gN < LIM / ES && gG < gN); gKey = VF_ALLOC(gN * sizeof *gKey);
  gBase = VF_ALLOC(0);
  sc_qsort(gBase, gN, ES, cmp);
  VF_CHECK(gG + 1 >= gN || K(gG) <= K(gG + 1), "ascending order");
  VF_REACH("sort");
}
#else
static unsigned char a[ES * 70], o[ES * 70]; static unsigned n, calls;
static int cmp(void *x, void *y) { unsigned char *p = x, *q = y;
  if (++calls > 4000) vf_fail("does not terminate");
  VF_CHECK(p >= a && q >= a && p < a + n * ES && q < a + n * ES && (p - a) % ES == 0 && (q - a) % ES == 0, "an element of the array"); return (*p - *q) * 1000000; }
void harness(void)
{
  unsigned i, j; VF_IN(unsigned, cnt); VF_IN(unsigned char, mask); n = cnt % 40; mask |= 1; calls = 0;
  for (i = 0; i < n + 1; i++) { VF_SET(unsigned char, a[i * ES], "a"); a[i * ES] &= mask; if (ES > 1) a[i * ES + 1] = i; for (j = 2; j < ES; j++) a[i * ES + j] = i * 7 + j; }
  for (i = 0; i < (n + 1) * ES; i++) o[i] = a[i];
  sc_qsort(a, n, ES, cmp);
  for (i = 0; i + 1 < n; i++) VF_CHECK(a[i * ES] <= a[(i + 1) * ES], "ascending order");
  for (j = 0; j < ES; j++) VF_CHECK(a[n * ES + j] == o[n * ES + j], "nothing beyond the array changes");
  if (ES > 1) {
    unsigned char seen[70] = { 0 };
    for (i = 0; i < n; i++) { unsigned k = a[i * ES + 1]; VF_CHECK(k < n && !seen[k], "a permutation"); seen[k] = 1; for (j = 0; j < ES; j++) VF_CHECK(a[i * ES + j] == o[k * ES + j], "whole elements move"); }
  } else for (i = 0; i < 256; i++) { unsigned c = 0; for (j = 0; j < n; j++) c += (a[j] == i) - (o[j] == i); VF_CHECK(c == 0, "a permutation"); }
}
#endif
#endif
#ifdef BSEARCH
#ifndef VF_PROOF
static unsigned gN, gLo, gHi, calls; static char *gB;
#define IDX(p) (((char *)(p) - gB) / ES)
#define OK(p) ((char *)(p) >= gB && IDX(p) < gN && ((char *)(p) - gB) % ES == 0)
#else
#define IDX(p) (PO(p) / ES)
#define OK(p) (SO(p, gB) && PO(p) % ES == 0 && PO(p) / ES < gN)
#endif
static int gKeyObj;
static int cmp(void *k, void *p)
{
  unsigned i;
  VF_CHECK(k == &gKeyObj, "the key is compared");
  VF_CHECK(OK(p), "with an element of the array");
  i = IDX(p);
#ifndef VF_PROOF
  if (++calls > 64) vf_fail("does not terminate");
  return i < gLo ? (int)(i % 3 + 1) : i < gHi ? 0 : -(int)(i % 3 + 1);
#else
  { int r; VF_ASSUME((r > 0) == (i < gLo) && (r < 0) == (i >= gHi)); return r; }
#endif
}
void harness(void)
{
  char *r;
#ifdef VF_PROOF
  gN = nd(); gLo = nd(); gHi = nd(); gI = 0; VF_ASSUME(gN < LIM / ES);
  gB = VF_ALLOC(0);
#else
  VF_IN(unsigned, n); VF_IN(unsigned, lo); VF_IN(unsigned, eq); VF_IN(unsigned, big);
  static char buf[2000 * 12]; gN = n % (big & 1 ? 2000 : 9); gLo = lo % (gN + 1); gHi = gLo + (big & 2 ? 0 : eq % (gN - gLo + 1)); gB = buf; calls = 0;
#endif
  VF_ASSUME(gLo <= gHi && gHi <= gN);
  r = sc_bsearch(&gKeyObj, gB, gN, ES, cmp);
  if (gLo == gHi) VF_CHECK(r == 0, "no match: NULL");
  else VF_CHECK(r && OK(r) && IDX(r) >= gLo && IDX(r) < gHi, "a matching element is found");
  VF_REACH("bsearch");
}
#endif
