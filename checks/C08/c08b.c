#include "vf.h"
typedef unsigned long long u64;
/* the name being read: gC characters consumed, witness: the gW-th is gCh */
int gC, gW, gCh, gLast, gStr;
#include "smlrc.w.c"
#include "smlrc.m.h"
static int gFull, gNeg, gBad;
#ifdef VF_NATIVE
#define STOP vf_discard()
#else
#define STOP __CPROVER_assume(0)
#endif
void error(char *f, ...) { VF_CHECK(gFull == 2 || (gFull == 1 && gC > gBad), "input that fits is refused"); STOP; }
void warning(char *f, ...) { }
static char nextc(void) { VF_IN(char, ch); 
#ifdef VF_NATIVE
  if (gStr ? ch == '"' || ch == 10 || ch == 13 : !(ch == '_' || (ch | 32) >= 'a' && (ch | 32) <= 'z' || ch >= '0' && ch <= '9')) if ((ch * 7 & 63) != 3) ch = 'a';
#endif
  return ch; }
/* n characters are consumed; three characters ahead are always in the queue */
void ShiftCharN(int n)
{
  while (n-- > 0) {
    if (gC == gW) gCh = CharQueue[0] & 255;
    gC++; CharQueue[0] = CharQueue[1]; CharQueue[1] = CharQueue[2]; CharQueue[2] = nextc();
  }
}
void SkipSpace(int nl) { gLast = gC; }
static void start(void) { int i; for (i = 0; i < 3; i++) CharQueue[i] = nextc(); gC = 0; CharQueueLen = 3; gLast = 0; }
static int idch(int c, int first) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (!first && c >= '0' && c <= '9'); }
void h_getident(void)
{
  VF_IN(int, w); int f; gStr = 0; start();
  gFull = 0;
#ifdef VF_NATIVE
  w = (unsigned)w % 64; CharQueue[0] = 'x';
#endif
  VF_ASSUME(w >= 0 && w < MAX_IDENT_LEN); gW = w;
  f = CharQueue[0] & 255; VF_ASSUME(f < 128); /* the C locale's letters */
  gFull = idch(f, 1) ? 1 : 2; gBad = MAX_IDENT_LEN - 1;
  GetIdent();
  VF_CHECK(gFull == 1 && TokenIdentNameLen == gC && gC > 0 && gC <= MAX_IDENT_LEN, "the whole identifier is read");
  VF_CHECK(TokenIdentName[gC] == 0, "terminated");
  VF_CHECK(w >= gC || (TokenIdentName[w] & 255) == gCh && idch(gCh, w == 0), "each character of it as written");
  VF_CHECK(!idch(CharQueue[0] & 255, 0), "up to the first other character");
  VF_REACH("ident");
}
/* one character value of the string is read: gC counts them */
unsigned stub_GetCharValue(int wide)
{
  VF_IN(unsigned, v); int i; v &= 0xff;
  if (gC == gW) gCh = v;
  gC++; for (i = 0; i < 3; i++) CharQueue[i] = nextc();
  return v;
}
void stub_SC(int n) { if (gC < 0) gC = 0; CharQueue[0] = CharQueue[1]; CharQueue[1] = CharQueue[2]; CharQueue[2] = nextc(); }
void h_getstring(void)
{
  VF_IN(int, w); VF_IN(unsigned char, t); gStr = 1; start(); t = t & 1 ? '"' : '>';
#ifdef VF_NATIVE
  w = (unsigned)w % 255;
#endif
  VF_ASSUME(w >= 0 && w < MAX_STRING_LEN); gW = w;
  gFull = 2; /* an unterminated string is refused at any length */
  GetString(t, 0, '#');
  VF_CHECK(TokenStringLen == gC && gC <= MAX_STRING_LEN && TokenStringSize == gC, "the whole string is read");
  VF_CHECK(TokenValueString[gC] == 0, "terminated");
  VF_CHECK(w >= gC || (TokenValueString[w] & 255) == gCh, "each character of it as written");
  VF_REACH("string");
}
void h_reserve(void)
{
  VF_IN(int, n); VF_IN(int, len); VF_IN(int, w); char o, a = 0; int i; VF_IN(unsigned char, fill);
#ifdef VF_NATIVE
  n = (unsigned)n % (MAX_CHAR_QUEUE_LEN + 1); len = (unsigned)len % 128; w = (unsigned)w % MAX_CHAR_QUEUE_LEN; for (i = 0; i < MAX_CHAR_QUEUE_LEN; i++) CharQueue[i] = i * fill;
#else
  __CPROVER_havoc_object(CharQueue);
#endif
  VF_ASSUME(n >= 0 && n <= MAX_CHAR_QUEUE_LEN && len >= 0 && len <= 127 && w >= 0 && w < MAX_CHAR_QUEUE_LEN); gC = 1; gBad = 0; gW = w;
  CharQueueLen = n; if (w > len) a = CharQueue[w - len - 1];
  gFull = n + len + 1 > MAX_CHAR_QUEUE_LEN;
  Reserve4Expansion("M", len);
  VF_CHECK(!gFull && CharQueueLen == n + len + 1, "room is made");
  VF_CHECK(CharQueue[len] == ' ', "the expansion is kept apart");
  VF_CHECK(w <= len || w >= n + len + 1 || CharQueue[w] == a, "the characters waiting follow it in order");
  VF_REACH("reserve");
}
#ifndef VF_NATIVE
#define INOBJ(p, n) (PO(p) <= __CPROVER_OBJECT_SIZE(p) && (n) <= __CPROVER_OBJECT_SIZE(p) - PO(p))
void *stub_memmove(void *d, const void *s, size_t n)
{
  size_t x = PO(d), y = PO(s); char v;
  VF_CHECK(SO(d, CharQueue) && SO(s, CharQueue) && INOBJ(d, n) && INOBJ(s, n), "characters move within the queue");
  __CPROVER_assume(SO(d, CharQueue) && SO(s, CharQueue) && INOBJ(d, n) && INOBJ(s, n));
  v = CharQueue[gW]; if ((size_t)gW >= x && (size_t)gW - x < n) v = CharQueue[y + (gW - x)];
  __CPROVER_havoc_object(CharQueue); __CPROVER_assume(CharQueue[gW] == v);
  return d;
}
#endif
