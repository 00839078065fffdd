#include "vf.h"
#define NZ1(i) ((i) >= gL1 || gS1[i] != 0)
#define NZ2(i) ((i) >= gL2 || gS2[i] != 0)
#define OUT1(m, o, n) ((m) < (o) || (m) - (o) >= (n))
typedef unsigned char uc;
char *gS1, *gS2;
unsigned gL1, gL2, gN, gR, gK, gM, gO1, gO2, gW;
int gC;
char gV, gU, gX;

#ifdef VF_PROOF
#define LIM 0x1fffffu
#elif VF_ISNATIVE
#define LIM 40u
#else
#define LIM 6u
#endif

/* Ghost values: arbitrary in the proof (constrained by their defining hypotheses),
   computed by these reference loops when the real code is executed. */
#ifdef VF_PROOF
static unsigned nd(void) { unsigned x; return x; }
#define REFLEN(s, n) nd()
#define REF(e) nd()
#define REFLOOP(init, cond) nd()
#else
static unsigned reflen(char *s, unsigned n) { unsigned i = 0; while (i < n && s[i]) i++; return i; }
#define REFLEN(s, n) reflen(s, n)
#define REFLOOP(init, cond) ({ unsigned i = (init); while (cond) i++; i; })
#define REF(e) (e)
#endif

static char *buf(unsigned size, char id)
{
  char *p = VF_ALLOC(size);
#ifndef VF_PROOF
  unsigned i;
  for (i = 0; i < size; i++) VF_SET(char, p[i], "byte");

#endif
  (void)id;
  return p;
}

/* string s with first NUL at l in an object of size bytes.
   In the proof: s[l]==0 here, and s[i]!=0 for i<l through VF_INST at the loop heads. */
static void isstr(char *s, unsigned l, unsigned size)
{
  VF_ASSUME(l < size);
  VF_ASSUME(s[l] == 0);
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < l; i++) VF_ASSUME(s[i] != 0); }
#endif
}

/* gT: for strspn and strtok, a witness position in the set for characters that are in it */
unsigned *gT, gB;
#define SETIN(i) (gT[i] < gL2 && gS1[i] == gS2[gT[i]])

static char snap1[64], snap2[64];
static unsigned z1, z2;
static void snap(void)
{
#ifndef VF_PROOF
  unsigned i;
  for (i = 0; i < z1; i++) snap1[i] = gS1[i];
  if (gS2 && gS2 != gS1) for (i = 0; i < z2; i++) snap2[i] = gS2[i];
#endif
}
/* bytes the call must not touch */
static void same1(unsigned from, unsigned to)
{
#ifndef VF_PROOF
  unsigned i;
  for (i = from; i < to; i++) VF_CHECK(gS1[i] == snap1[i], "memory outside the destination is unchanged");
#endif
}
static void same2(void)
{
#ifndef VF_PROOF
  unsigned i;
  for (i = 0; i < z2; i++) VF_CHECK(gS2[i] == snap2[i], "the source is unchanged");
#endif
}

#ifdef F_strlen
#include "strlen.w.c"
void h_strlen(void)
{
  VF_IN(unsigned, n1); VF_ASSUME(n1 > 0 && n1 <= LIM); z1 = n1;
  gS1 = buf(n1, 1);
  gL1 = REFLEN(gS1, n1);
  isstr(gS1, gL1, n1); snap();
  { unsigned r = sc_strlen(gS1);
  VF_CHECK(r == gL1, "strlen is the index of the first NUL"); same1(0, n1); }
  VF_REACH("end");
}
#endif

#ifdef F_memchr
#include "memchr.w.c"
void h_memchr(void)
{
  VF_IN(unsigned, n1); VF_ASSUME(n1 <= LIM); z1 = n1;
  { VF_IN(unsigned, n); VF_ASSUME(n <= n1); gN = n; }
  gS1 = buf(n1 + !n1, 1);
  { VF_IN(int, c); gC = c; }
  /* gR: first index of the byte, or gN */
  gR = REFLOOP(0, i < gN && gS1[i] != (char)gC); VF_ASSUME(gR <= gN);
  if (gR < gN) VF_ASSUME(gS1[gR] == (char)gC);
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < gR; i++) VF_ASSUME(gS1[i] != (char)gC); }
#endif
  { char *r = sc_memchr(gS1, gC, gN);
  VF_CHECK(r == (gR < gN ? gS1 + gR : 0), "memchr finds the first occurrence or nothing"); }
  VF_REACH("end");
}
#endif

#ifdef F_memcmp
#include "memcmp.w.c"
void h_memcmp(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 <= LIM && n2 <= LIM); z1 = n1; z2 = n2;
  { VF_IN(unsigned, n); VF_ASSUME(n <= n1 && n <= n2); gN = n; }
  gS1 = buf(n1 + !n1, 1); gS2 = buf(n2 + !n2, 1);
  gR = REFLOOP(0, i < gN && gS1[i] == gS2[i]); VF_ASSUME(gR <= gN);
  if (gR < gN) VF_ASSUME(gS1[gR] != gS2[gR]);
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < gR; i++) VF_ASSUME(gS1[i] == gS2[i]); }
#endif
  { int r = sc_memcmp(gS1, gS2, gN);
  if (gR == gN) VF_CHECK(r == 0, "memcmp of equal blocks is 0");
  else { VF_CHECK((r < 0) == ((uc)gS1[gR] < (uc)gS2[gR]), "memcmp < 0 iff the first difference is less as unsigned char");
         VF_CHECK((r > 0) == ((uc)gS1[gR] > (uc)gS2[gR]), "memcmp > 0 iff the first difference is greater as unsigned char"); } }
  VF_REACH("end");
}
#endif

#ifdef F_memcpy
#include "memcpy.w.c"
void h_memcpy(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  { VF_IN(unsigned, n); VF_IN(unsigned, o1); VF_IN(unsigned, o2);
    VF_ASSUME(o1 <= n1 && n <= n1 - o1 && o2 <= n2 && n <= n2 - o2); gN = n; gO1 = o1; gO2 = o2; }
  { VF_IN(unsigned, k); VF_IN(unsigned, m); VF_ASSUME(m < n1 && (k < gN || (gN == 0 && gO2 + k < n2 && k == 0))); gK = k; gM = m; }
  gV = gS2[gO2 + gK]; gU = gS1[gM]; snap();
  { void *r = sc_memcpy(gS1 + gO1, gS2 + gO2, gN);
  VF_CHECK(r == gS1 + gO1, "memcpy returns dst");
  if (gK < gN) VF_CHECK(gS1[gO1 + gK] == gV, "memcpy copies every byte");
  if (OUT1(gM, gO1, gN)) VF_CHECK(gS1[gM] == gU, "memcpy writes nothing outside dst[0..n)");
  VF_CHECK(gS2[gO2 + gK] == gV, "memcpy leaves src unchanged"); }
  same2();
  VF_REACH("end");
}
#endif

#ifdef F_memmove
#include "memmove.w.c"
void h_memmove(void)
{
  VF_IN(unsigned, n1); VF_ASSUME(n1 > 0 && n1 <= LIM); z1 = n1;
  gS1 = buf(n1, 1); gS2 = gS1;
  { VF_IN(unsigned, n); VF_IN(unsigned, o1); VF_IN(unsigned, o2);
    VF_ASSUME(o1 <= n1 && n <= n1 - o1 && o2 <= n1 && n <= n1 - o2 && n > 0); gN = n; gO1 = o1; gO2 = o2; }
  { VF_IN(unsigned, k); VF_IN(unsigned, m); VF_ASSUME(m < n1 && k < gN); gK = k; gM = m; }
  gV = gS2[gO2 + gK]; gU = gS1[gM]; snap();
  { void *r = sc_memmove(gS1 + gO1, gS2 + gO2, gN);
  VF_CHECK(r == gS1 + gO1, "memmove returns dst");
  VF_CHECK(gS1[gO1 + gK] == gV, "memmove copies the original bytes even when the blocks overlap");
  if (OUT1(gM, gO1, gN)) VF_CHECK(gS1[gM] == gU, "memmove writes nothing outside dst[0..n)"); }
  VF_REACH("end");
}
#endif

#ifdef F_memset
#include "memset.w.c"
void h_memset(void)
{
  VF_IN(unsigned, n1); VF_ASSUME(n1 > 0 && n1 <= LIM); z1 = n1;
  gS1 = buf(n1, 1);
  { VF_IN(unsigned, n); VF_IN(unsigned, o1); VF_ASSUME(o1 <= n1 && n <= n1 - o1); gN = n; gO1 = o1; }
  { VF_IN(unsigned, k); VF_IN(unsigned, m); VF_IN(int, c); VF_ASSUME(m < n1 && k < n1); gK = k; gM = m; gC = c; }
  gU = gS1[gM];
  { void *r = sc_memset(gS1 + gO1, gC, gN);
  VF_CHECK(r == gS1 + gO1, "memset returns dst");
  if (gK < gN) VF_CHECK(gS1[gO1 + gK] == (char)gC, "memset sets every byte");
  if (OUT1(gM, gO1, gN)) VF_CHECK(gS1[gM] == gU, "memset writes nothing outside dst[0..n)"); }
  VF_REACH("end");
}
#endif

#ifdef F_strcpy
#include "strcpy.w.c"
void h_strcpy(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  gL2 = REFLEN(gS2, n2); isstr(gS2, gL2, n2); VF_ASSUME(gL2 < n1);
  { VF_IN(unsigned, k); VF_IN(unsigned, m); VF_ASSUME(m < n1 && k <= gL2); gK = k; gM = m; }
  gV = gS2[gK]; gU = gS1[gM]; snap();
#ifdef VF_PROOF
  VF_INST(NZ2(gK));
#endif
  { char *r = sc_strcpy(gS1, gS2);
  VF_CHECK(r == gS1, "strcpy returns dst");
  VF_CHECK(gS1[gK] == gV, "strcpy copies the string and its NUL");
  if (gM > gL2) VF_CHECK(gS1[gM] == gU, "strcpy writes nothing past the NUL"); }
  same2();
  VF_REACH("end");
}
#endif

#ifdef F_strcat
#include "strcat.w.c"
void h_strcat(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  gL1 = REFLEN(gS1, n1); isstr(gS1, gL1, n1);
  gL2 = REFLEN(gS2, n2); isstr(gS2, gL2, n2); VF_ASSUME(gL2 < n1 - gL1);
  { VF_IN(unsigned, k); VF_IN(unsigned, m); VF_ASSUME(m < n1 && k <= gL2); gK = k; gM = m; }
  gV = gS2[gK]; gU = gS1[gM]; snap();
  { char *r = sc_strcat(gS1, gS2);
  VF_CHECK(r == gS1, "strcat returns dst");
  VF_CHECK(gS1[gL1 + gK] == gV, "strcat appends the string and its NUL");
  if (gM < gL1 || gM > gL1 + gL2) VF_CHECK(gS1[gM] == gU, "strcat changes nothing else"); }
  same2();
  VF_REACH("end");
}
#endif

#ifdef F_strncat
#include "strncat.w.c"
void h_strncat(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  gL1 = REFLEN(gS1, n1); isstr(gS1, gL1, n1);
  { VF_IN(unsigned, n); gN = n; }
  gL2 = REFLOOP(0, i < gN && i < n2 && gS2[i] != 0);
  /* gL2: min(n, length of s2); s2 needs no NUL when n bytes come first */
  VF_ASSUME(gL2 <= n2 && gL2 <= gN && (gL2 == gN || (gL2 < n2 && gS2[gL2] == 0)));
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < gL2; i++) VF_ASSUME(gS2[i] != 0); }
#endif
  VF_ASSUME(gL2 < n1 - gL1);
  { VF_IN(unsigned, k); VF_IN(unsigned, m); VF_ASSUME(m < n1 && (k < gL2 || (k == 0 && gL2 == 0))); gK = k; gM = m; }
  gV = gS2[gK]; gU = gS1[gM]; snap();
  { char *r = sc_strncat(gS1, gS2, gN);
  VF_CHECK(r == gS1, "strncat returns dst");
  if (gK < gL2) VF_CHECK(gS1[gL1 + gK] == gV, "strncat appends at most n characters");
  VF_CHECK(gS1[gL1 + gL2] == 0, "strncat terminates the result");
  if (gM < gL1 || gM > gL1 + gL2) VF_CHECK(gS1[gM] == gU, "strncat changes nothing else"); }
  same2();
  VF_REACH("end");
}
#endif

#ifdef F_strncpy
#include "strncpy.w.c"
void h_strncpy(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  { VF_IN(unsigned, n); gN = n; }
  gL2 = REFLOOP(0, i < gN && i < n2 && gS2[i] != 0);
  VF_ASSUME(gN <= n1);
  /* gL2: index of the first NUL of s2, or gN when none of its first n bytes is NUL */
  VF_ASSUME(gL2 <= n2 && gL2 <= gN && (gL2 == gN || (gL2 < n2 && gS2[gL2] == 0)));
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < gL2; i++) VF_ASSUME(gS2[i] != 0); }
#endif
  { VF_IN(unsigned, k); VF_IN(unsigned, m); VF_ASSUME(m < n1 && k < n1); gK = k; gM = m; }
  if (gK < gL2) gV = gS2[gK]; else gV = 0;
  gU = gS1[gM]; snap();
  { char *r = sc_strncpy(gS1, gS2, gN);
  VF_CHECK(r == gS1, "strncpy returns dst");
  if (gK < gN) VF_CHECK(gS1[gK] == gV, "strncpy copies, then pads with NUL to n bytes");
  if (gM >= gN) VF_CHECK(gS1[gM] == gU, "strncpy writes nothing past n bytes"); }
  same2();
  VF_REACH("end");
}
#endif

#ifdef F_strcmp
#include "strcmp.w.c"
void h_strcmp(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  gR = REFLOOP(0, i < n1 && i < n2 && gS1[i] == gS2[i] && gS1[i]); /* first index where they differ or both end */
  VF_ASSUME(gR < n1 && gR < n2 && (gS1[gR] != gS2[gR] || gS1[gR] == 0));
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < gR; i++) VF_ASSUME(gS1[i] == gS2[i] && gS1[i] != 0); }
#endif
  snap();
  { int r = sc_strcmp(gS1, gS2);
  VF_CHECK((r < 0) == ((uc)gS1[gR] < (uc)gS2[gR]), "strcmp < 0 iff s1 sorts before s2 as unsigned char");
  VF_CHECK((r > 0) == ((uc)gS1[gR] > (uc)gS2[gR]), "strcmp > 0 iff s1 sorts after s2 as unsigned char"); }
  VF_REACH("end");
}
#endif

#ifdef F_strncmp
#include "strncmp.w.c"
void h_strncmp(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  { VF_IN(unsigned, n); gN = n; }
  gR = REFLOOP(0, i < gN && i < n1 && i < n2 && gS1[i] == gS2[i] && gS1[i]); /* as for strcmp, limited to n */
  VF_ASSUME(gR <= gN && gR <= n1 && gR <= n2 && (gR == gN || (gR < n1 && gR < n2 && (gS1[gR] != gS2[gR] || gS1[gR] == 0))));
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < gR; i++) VF_ASSUME(gS1[i] == gS2[i] && gS1[i] != 0); }
#endif
  snap();
  { int r = sc_strncmp(gS1, gS2, gN);
  if (gR == gN) VF_CHECK(r == 0, "strncmp is 0 when the first n characters agree");
  else {
  VF_CHECK((r < 0) == ((uc)gS1[gR] < (uc)gS2[gR]), "strncmp < 0 iff s1 sorts before s2 as unsigned char");
  VF_CHECK((r > 0) == ((uc)gS1[gR] > (uc)gS2[gR]), "strncmp > 0 iff s1 sorts after s2 as unsigned char"); } }
  VF_REACH("end");
}
#endif

#ifdef F_strchr
#include "strchr.w.c"
void h_strchr(void)
{
  VF_IN(unsigned, n1); VF_ASSUME(n1 > 0 && n1 <= LIM); z1 = n1;
  gS1 = buf(n1, 1);
  { VF_IN(int, c); gC = c; } gL1 = REFLEN(gS1, n1);
  isstr(gS1, gL1, n1);
  gR = REFLOOP(0, i < gL1 && gS1[i] != (char)gC);
  /* gR: first index of the character in s including its NUL, or the NUL's index when absent */
  VF_ASSUME(gR <= gL1 && (gS1[gR] == (char)gC || gR == gL1));
#ifndef VF_PROOF
  { unsigned i; for (i = 0; i < gR; i++) VF_ASSUME(gS1[i] != (char)gC); }
#endif
  { char *r = sc_strchr(gS1, gC);
  VF_CHECK(r == (gS1[gR] == (char)gC ? gS1 + gR : 0), "strchr finds the first occurrence, the NUL included, or nothing"); }
  VF_REACH("end");
}
#endif

#ifdef F_strrchr
#ifndef VF_PROOF
static unsigned reflast(void) { unsigned i = gL1 + 1; while (i && gS1[i - 1] != (char)gC) i--; return i ? i - 1 : gL1 + 1; }
#endif
#include "strrchr.w.c"
void h_strrchr(void)
{
  VF_IN(unsigned, n1); VF_ASSUME(n1 > 0 && n1 <= LIM); z1 = n1;
  gS1 = buf(n1, 1);
  { VF_IN(int, c); gC = c; } gL1 = REFLEN(gS1, n1);
  isstr(gS1, gL1, n1);
  gR = REF(reflast());
  /* gR: last index of the character in s including its NUL, or L+1 when absent */
  VF_ASSUME(gR <= gL1 + 1 && (gR == gL1 + 1 || gS1[gR] == (char)gC));
  VF_ASSUME((char)gC != 0 || gR == gL1);
#ifndef VF_PROOF
  { unsigned i; for (i = gR > gL1 ? 0 : gR + 1; i <= gL1; i++) VF_ASSUME(gS1[i] != (char)gC); }
#endif
  { char *r = sc_strrchr(gS1, gC);
  VF_CHECK(r == (gR <= gL1 ? gS1 + gR : 0), "strrchr finds the last occurrence, the NUL included, or nothing"); }
  VF_REACH("end");
}
#endif

#if defined(F_strcspn) || defined(F_strpbrk) || defined(F_strspn)
#ifndef VF_PROOF
static unsigned refset(void)
{ unsigned i, j; for (i = 0; i < gL1; i++) for (j = 0; j < gL2; j++) if (gS1[i] == gS2[j]) return i; return gL1; }
#endif
static void two(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  gL1 = REFLEN(gS1, n1); gL2 = REFLEN(gS2, n2);
  isstr(gS1, gL1, n1); isstr(gS2, gL2, n2);
  /* gR: first index of s1 holding a character of s2 (at gW there), or L1 */
  gR = REF(refset()); gW = REFLOOP(0, gR < gL1 && i < gL2 && gS2[i] != gS1[gR]);
  VF_ASSUME(gR <= gL1 && (gR == gL1 || (gW < gL2 && gS1[gR] == gS2[gW])));
#ifdef VF_PROOF
  VF_INST(NZ1(gR)); VF_INST(NZ2(gW));
#endif
}
#endif

#ifdef F_strcspn
#include "strcspn.w.c"
void h_strcspn(void)
{
  two();
#ifndef VF_PROOF
  { unsigned i, j; for (i = 0; i < gR; i++) for (j = 0; j < gL2; j++) VF_ASSUME(gS1[i] != gS2[j]); }
#endif
  { unsigned r = sc_strcspn(gS1, gS2);
  VF_CHECK(r == gR, "strcspn is the length of the initial part without characters of the set"); }
  VF_REACH("end");
}
#endif

#ifdef F_strpbrk
#include "strpbrk.w.c"
void h_strpbrk(void)
{
  two();
#ifndef VF_PROOF
  { unsigned i, j; for (i = 0; i < gR; i++) for (j = 0; j < gL2; j++) VF_ASSUME(gS1[i] != gS2[j]); }
#endif
  { char *r = sc_strpbrk(gS1, gS2);
  VF_CHECK(r == (gR < gL1 ? gS1 + gR : 0), "strpbrk finds the first character of the set or nothing"); }
  VF_REACH("end");
}
#endif

#ifdef F_strspn
#include "strspn.w.c"
void h_strspn(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  gL1 = REFLEN(gS1, n1); gL2 = REFLEN(gS2, n2);
  isstr(gS1, gL1, n1); isstr(gS2, gL2, n2);
  /* gR: first index of s1 whose character is not in s2 (all before it are, at gT[i]) */
#ifdef VF_PROOF
  gT = VF_ALLOC(n1 * sizeof(unsigned));
  gR = nd(); VF_ASSUME(gR <= gL1);
#else
  { unsigned i, j; gR = gL1; for (i = gL1; i--; ) { for (j = 0; j < gL2 && gS2[j] != gS1[i]; j++); if (j == gL2) gR = i; } }
#endif
  { unsigned r = sc_strspn(gS1, gS2);
  VF_CHECK(r == gR, "strspn is the length of the initial part made of characters of the set"); }
  VF_REACH("end");
}
#endif

#ifdef F_strtok
#include "strtok.w.c"
void h_strtok(void)
{
  VF_IN(unsigned, n1); VF_IN(unsigned, n2); VF_ASSUME(n1 > 0 && n1 <= LIM && n2 > 0 && n2 <= LIM); z1 = n1; z2 = n2;
  VF_IN(unsigned char, first);
  gS1 = buf(n1, 1); gS2 = buf(n2, 1);
  gL1 = REFLEN(gS1, n1); gL2 = REFLEN(gS2, n2);
  isstr(gS1, gL1, n1); isstr(gS2, gL2, n2);
  { VF_IN(unsigned, o1); VF_IN(unsigned, m); VF_ASSUME(o1 <= gL1 && m < n1); gO1 = o1; gM = m; }
  /* gB: start of the token (gL1 when there is none); gR: its end */
#ifdef VF_PROOF
  gT = VF_ALLOC(n1 * sizeof(unsigned));
  gB = nd(); VF_ASSUME(gB <= gL1 && gB >= gO1);
  gR = nd(); gW = nd(); VF_ASSUME(gR >= gB && gR <= gL1 && (gR == gL1 || (gW < gL2 && gS1[gR] == gS2[gW])) && (gB == gL1 || gR > gB));
  VF_INST(NZ1(gR)); VF_INST(NZ2(gW));
#else
  { unsigned i, j; gB = gL1; gR = gL1;
    for (i = gO1; i < gL1; i++) { for (j = 0; j < gL2 && gS2[j] != gS1[i]; j++); if (j == gL2) { gB = i; break; } }
    for (; i < gL1; i++) { for (j = 0; j < gL2 && gS2[j] != gS1[i]; j++); if (j < gL2) { gR = i; break; } } }
#endif
  gU = gS1[gM]; gX = gS1[gR];
  { char *r, *q;
  if (first) r = sc_strtok(gS1 + gO1, gS2); else { sc___strtoklast = gS1 + gO1; r = sc_strtok(0, gS2); }
  q = sc___strtoklast;
  VF_CHECK(r == (gB < gL1 ? gS1 + gB : 0), "strtok returns the first token after the delimiters, or nothing");
  if (gB < gL1) { VF_CHECK(gS1[gR] == 0, "strtok terminates the token");
    VF_CHECK(q == (gR < gL1 ? gS1 + gR + 1 : 0), "strtok continues after the delimiter that ended the token"); }
  else VF_CHECK(q == 0, "strtok has nothing left");
  if (gM != gR || gB == gL1) VF_CHECK(gS1[gM] == gU, "strtok changes only the delimiter that ends the token"); }
  VF_REACH("end");
}
#endif
