#include "vf.h"
#include "all.w.c"
#ifndef CLASS
#define CLASS 0
#endif
/* ---------------------------------------------------------------- specification of one directive */
#if !defined VF_PROOF || defined FPUTC
struct dir { int minus, plus, space, alt, zero, width, prec, mod, conv; };
#endif
/* layout of an integer conversion: [spaces][sign or prefix][zeroes][digits][spaces]; nd digits of the magnitude */
static unsigned magnitude(const struct dir *d, unsigned v, int *neg)
{
  *neg = 0;
  if (d->conv == 'd') {
    int s = d->mod == 'H' ? (signed char)v : d->mod == 'h' ? (short)v : (int)v;
    *neg = s < 0;
    return s < 0 ? -(unsigned)s : (unsigned)s;
  }
  return d->mod == 'H' ? (unsigned char)v : d->mod == 'h' ? (unsigned short)v : v;
}
struct lay { int sp1, sign, pfx, zero, nd, sp2; };
static struct lay layout(const struct dir *d, unsigned m, int neg, int nd)
{
  struct lay l; int len, pad;
  l.sign = d->conv != 'd' ? 0 : neg ? '-' : d->plus ? '+' : d->space ? ' ' : 0;
  l.pfx = d->alt && m && (d->conv == 'x' || d->conv == 'X') ? d->conv : 0;
  if (m == 0 && d->prec == 0) nd = 0;
  l.nd = nd;
  l.zero = d->prec > nd ? d->prec - nd : 0;
  if (d->alt && d->conv == 'o' && l.zero == 0 && !(m == 0 && nd == 1)) l.zero = 1; /* # makes the first digit of an octal 0 */
  len = (l.sign != 0) + 2 * (l.pfx != 0) + l.zero + nd;
  pad = d->width > len ? d->width - len : 0;
  l.sp1 = l.sp2 = 0;
  if (d->minus) l.sp2 = pad; else if (d->zero && d->prec < 0) l.zero += pad; else l.sp1 = pad;
  return l;
}
static int laychar(const struct lay *l, unsigned k, const unsigned char *dg) /* dg[0]: least significant digit value */
{
  if (k < (unsigned)l->sp1) return ' ';
  k -= l->sp1;
  if (l->sign) { if (k == 0) return l->sign; k--; }
  if (l->pfx) { if (k == 0) return '0'; if (k == 1) return l->pfx; k -= 2; }
  if (k < (unsigned)l->zero) return '0';
  k -= l->zero;
  if (k < (unsigned)l->nd) return "0123456789abcdef"[dg[l->nd - 1 - k]];
  return ' ';
}
#define BASEOF(c) ((c) == 'o' ? 8 : (c) == 'x' || (c) == 'X' || (c) == 'p' ? 16 : 10)

#if defined VF_PROOF && !defined FPUTC
static int gT0, gT1, gCnt0; static int gNeg, gFl; static unsigned gV; static float gX; static FILE gFile;
#ifdef CV
#define UP (CV == 'X')
#else
#define UP 0
#endif
static unsigned nd(void) { unsigned x; return x; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char *strchr(char *s, int c) { unsigned i; for (i = 0; i < 15; i++) { if (s[i] == (char)c) return s + i; if (!s[i]) return 0; } return 0; }
size_t strlen(char *s) { VF_CHECK(s == gS && !gUnterm, "length of the terminated argument"); return gSL; }
static void stub_fputc(int c, FILE *f, int *cnt)
{
  VF_CHECK(f == &gFile, "written to the stream");
  if (gOut == gK) gChar = (unsigned char)c;
  gOut++;
#ifdef PARSE
  cnt[0]++;
#else
  VF_CHECK(cnt[0] == gCnt && cnt[1] == gErr, "the count");
  gN++; cnt[0] = gCnt = vf_ndi(); /* __fputc counts: the conversion itself must not look at the count */
#endif
}
static void stub_printff(float x, int ljust, int sign, int alt, int lzeroes, int width, int precision, int conversion, FILE *f, int cnt[2])
{
  VF_CHECK(CLASS == 6 && (x == gX || x != x) && ljust == D.minus && sign == (D.plus ? '+' : D.space ? ' ' : 0) && alt == D.alt && lzeroes == (D.zero && !D.minus) && width == D.width && precision == D.prec && conversion == D.conv && f == &gFile, "the floating conversion gets the value, flags, width and precision");
  gFl++;
}
/* a character that is not part of a directive, or %% */
static _Bool litok(unsigned n)
{
  if (!gStart) return 1;
  if (gLit != 1 && gLit != 2) return 0;
  return n == gP + gLit && gOut - gO == 1 && (gK != gO || gChar == (gLit == 2 ? '%' : (int)FC(gP)));
}
/* what has been emitted for the directive */
static _Bool stepok(char *vl)
{
  unsigned k = gK, len = gOut; int want = -1; unsigned wl;
  if (!SO(vl, gVl) || PO(vl) != 4) return 0;
#if CLASS == 2
  { int pad = D.width > 1 ? D.width - 1 : 0; wl = pad + 1; want = (D.minus ? k == 0 : k == pad) ? (int)(unsigned char)gV : ' '; }
#elif CLASS == 3
  { unsigned l = D.prec >= 0 && (unsigned)D.prec < gSL ? D.prec : gSL, pad = D.width > (int)l ? D.width - l : 0, a = D.minus ? 0 : pad; wl = l + pad; want = k >= a && k < a + l ? (unsigned char)gS[k - a] : ' '; }
#elif CLASS == 5
  { struct lay l = layout(&D, gMag, gNeg, gNd); wl = l.sp1 + (l.sign != 0) + 2 * (l.pfx != 0) + l.zero + l.nd + l.sp2; want = k < wl ? laychar(&l, k, gDig) : -1; if (gPrev != 0) return 0;
    if (CV == 'X' && want >= 'a' && want <= 'f') want -= 32; }
#elif CLASS == 4
  wl = 0; { int v = ((int *)gS)[0]; if (((int *)gS)[1] != gT1 || v != (D.mod == 'H' ? (gT0 & ~255) | (gCnt0 & 255) : D.mod == 'h' ? (gT0 & ~65535) | (gCnt0 & 65535) : gCnt0)) return 0; }
#elif CLASS == 6
  wl = 0; if (gFl != 1) return 0;
#else
  wl = 0;
#endif
  if (len != wl) return 0;
  return k < wl ? gChar == want : 1;
}
static void digit(char *p, unsigned tmp, unsigned v) /* one digit of gPrev has been stored at p; tmp remains */
{
  unsigned d = *p >= 'a' ? *p - 'a' + 10 : *p >= 'A' ? *p - 'A' + 10 : *p - '0';
  if (gNd == 0) { VF_CHECK(v == gMag, "the magnitude converted is that of the argument"); gPrev = gMag; }
  else VF_CHECK(gPrev != 0, "no leading zeroes");
  VF_CHECK(gNd < ND, "at most ND digits");
  VF_CHECK(d < BASE && *p == (UP ? "0123456789ABCDEF" : "0123456789abcdef")[d], "a digit");
  VF_CHECK(gPrev == tmp * BASE + d && tmp <= 0xffffffffu / BASE, "the next digit of the number");
  gDig[gNd++] = d; gPrev = tmp;
}
#ifdef PARSE
static void step(void) /* at the head of the main loop: choose and parse the directive at gP by the specification */
{
  unsigned s1, s2, s3, s4, n = 0; int i;
  gStart = 1; gO = gOut; gChar = vf_ndi(); gLit = 0; gNargs = 0; gValid = 0;
  vf_inst(NZ(gP)); vf_inst(NZ(gP + 1)); vf_inst(DEF_F(gP + 1));
  if (gP >= gL) { gLit = 3; return; }
  if (FC(gP) != '%') { gLit = 1; return; }
  if (FC(gP + 1) == '%') { gLit = 2; return; }
  s1 = eF[gP + 1];
  vf_inst(DEF_F(s1)); vf_inst(DEF_D(s1));
  { unsigned b = bF[gP + 1]; D.minus = b & 1; D.plus = (b & 2) != 0; D.space = (b & 4) != 0; D.alt = (b & 8) != 0; D.zero = (b & 16) != 0; }
  D.width = -1; s2 = s1;
  vf_inst(vD[s1] == 0);
  if (DIG(FC(s1))) { s2 = eD[s1]; D.width = vD[s2]; }
  else if (FC(s1) == '*') { s2 = s1 + 1; D.width = ((int *)gVl)[n++]; if (D.width < 0) { D.minus = 1; D.width = -D.width; } }
  vf_inst(NZ(s2)); vf_inst(NZ(s2 + 1));
  D.prec = -1; s3 = s2;
  if (FC(s2) == '.') {
    D.prec = 0; s3 = s2 + 1;
    vf_inst(DEF_D(s3)); vf_inst(vD[s3] == 0); gS3 = s3;
    if (DIG(FC(s3))) { unsigned e = eD[s3]; D.prec = vD[e]; s3 = e; }
    else if (FC(s3) == '*') { s3++; D.prec = ((int *)gVl)[n++]; }
  }
  vf_inst(NZ(s3)); vf_inst(NZ(s3 + 1)); vf_inst(NZ(s3 + 2));
  D.mod = 0; s4 = s3;
  if (FC(s3) == 'h') { s4++; D.mod = 'h'; if (FC(s4) == 'h') { s4++; D.mod = 'H'; } }
  else if (FC(s3) == 'l' || FC(s3) == 'L' || FC(s3) == 'j' || FC(s3) == 'z' || FC(s3) == 't') { s4++; D.mod = FC(s3); }
  D.conv = FC(s4);
  gEnd = s4 + 1;
  gNargs = 4 * n;
  { const char *ok = "diouxXcspeEfFgGn"; for (i = 0; i < 16; i++) if (D.conv == ok[i]) gValid = 1; }
}
#endif
void harness(void)
{
  int r;
  gK = nd(); gOut = 0; gStart = 0; gP = 0; gErr = 0;
#ifdef PARSE
  gL = nd(); VF_ASSUME(gL < 0x1ffff0);
  gF = VF_ALLOC(gL + 1); VF_ASSUME(gF[gL] == 0);
  eF = VF_ALLOC((gL + 4) * 4); bF = VF_ALLOC((gL + 4) * 4); eD = VF_ALLOC((gL + 4) * 4); vD = VF_ALLOC((gL + 4) * 4);
  gVl = VF_ALLOC(12);
  r = __doprint(&gFile, (char *)gF, gVl);
  VF_REACH("parse");
  if (gLit == 3) VF_CHECK(gOut == gO && r == (gErr ? -1 : (int)gOut), "the characters written are counted");
  else VF_CHECK(gLit == 0 && !gValid && r == -1, "every well-formed directive is carried out, every other reported");
#else
  static unsigned char fm[3]; static const char *convs =
    CLASS == 2 ? "c" : CLASS == 3 ? "s" : CLASS == 4 ? "n" : "d";
  static void *ap[2]; static int tgt[2];
  fm[0] = '%'; fm[1] = FMT; fm[2] = 0; gF = fm; gL = 2; gVl = (char *)ap;
  gCnt = gCnt0 = vf_ndi(); gErr = vf_ndi(); gChar = vf_ndi();
  D.minus = nd() & 1; D.plus = nd() & 1; D.space = nd() & 1; D.alt = nd() & 1; D.zero = nd() & 1;
  gK &= 4 * WM + 3;
  D.width = nd() & 1 ? (int)(nd() & WM) : -1; D.prec = nd() & 1 ? (int)(nd() & WM) : -1 - (int)(nd() & WM); D.mod = vf_ndi(); D.conv = FMT;
  VF_ASSUME(D.mod == 0 || D.mod == 'h' || D.mod == 'H' || D.mod == 'l' || D.mod == 'L' || D.mod == 'j' || D.mod == 'z' || D.mod == 't');
#ifdef JUST
  D.minus = JUST == 1; if (JUST == 2) D.zero = 1; else if (JUST == 3) D.zero = 0;
#endif
  if (FMT == 'i') D.conv = 'd';
#if CLASS == 3
  gSL = nd(); gUnterm = nd() & 1; VF_ASSUME(gSL < 0x1ffff0 && gSL + !gUnterm > 0); gS = VF_ALLOC(gSL + (gUnterm ? 0 : 1)); VF_ASSUME(gUnterm || gS[gSL] == 0);
  VF_ASSUME(!gUnterm || (D.prec >= 0 && D.prec <= gSL));
  ap[0] = gS;
#elif CLASS == 4
  ap[0] = tgt; tgt[0] = gT0 = nd(); tgt[1] = gT1 = nd(); gS = (char *)tgt;
#elif CLASS == 6
  gV = nd(); *(unsigned *)ap = gV; gX = *(float *)ap;
#else
  gV = nd(); ap[0] = (void *)gV;
#endif
#ifdef CV
  gMag = magnitude(&D, gV, &gNeg);
#ifdef PRE
  VF_ASSUME((CV == 'd' ? gNeg || D.plus || D.space : D.alt && gMag) == PRE); /* with or without a sign or 0x */
#endif
#endif
  r = __doprint(&gFile, (char *)gF, gVl);
  VF_CHECK(0, "the directive is carried out and the format gone on with");
#endif
}
#endif

#ifndef VF_PROOF
int isdigit(int c) { return c >= '0' && c <= '9'; } int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char *strchr(char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return 0; } }
char *strcpy(char *d, char *s) { char *r = d; while ((*d++ = *s++)); return r; }
size_t strlen(char *s) { size_t n = 0; while (s[n]) n++; return n; }
int __cvtdif(float x, char *b, int n, int *r) { *b = '0'; *r = 0; return 1; } int __cvtdff(float x, char *b, int n, int *z) { while (n-- > 0) *b++ = '0'; if (z) *z = 0; return 0; }
#endif
#if defined FPUTC
static int gRet, gC, gCalls;
int fputc(int c, FILE *f) { gC = c; gCalls++; return gRet; }
void harness(void)
{
  FILE f; int cnt[2]; VF_IN(int, c); VF_IN(int, ret); VF_IN(int, fl); VF_IN(int, c0); VF_IN(int, c1);
#if VF_ISNATIVE
  if (c1 & 1) c1 = 0; if (ret & 1) ret = -1;
#endif
  VF_ASSUME(c0 >= 0 && c0 < 0x7fffffff && ret >= -1);
  f.flags = fl; gRet = ret; gCalls = 0; cnt[0] = c0; cnt[1] = c1;
  __fputc(c, &f, cnt);
  if (c1) VF_CHECK(gCalls == 0 && cnt[0] == c0 && cnt[1] == c1, "nothing is written after an error");
  else {
    VF_CHECK(gCalls == 1 && gC == c, "the character is written");
    VF_CHECK(ret != -1 || (fl & 040000) ? cnt[0] == c0 + 1 && cnt[1] == 0 : cnt[0] == c0 && cnt[1] != 0, "written characters (or those that would be, for strings) are counted, errors noted");
  }
  VF_REACH("fputc");
}
#elif !defined VF_PROOF
static unsigned char out[700]; static unsigned no;
int fputc(int c, FILE *f) { if (no < 690) out[no] = c; no++; return (unsigned char)c; }
static unsigned char want[700]; static unsigned nw;
static void put(int c) { if (nw < 690) want[nw] = c; nw++; }
void harness(void)
{
  static char f[200]; static unsigned arg[40]; static char str[20]; static int tgt[4]; unsigned nf = 0, na = 0, i, k; int r, bad = 0;
  FILE fl; nw = no = 0;
  VF_IN(unsigned, ndir);
  ndir = ndir % 3 + 1;
  for (i = 0; i < 12; i++) { VF_SET(unsigned char, str[i], "str"); str[i] |= 1; } str[12] = 0;
  while (ndir-- && !bad) {
    struct dir d; int w = -1, p = -1; unsigned v; VF_IN(unsigned, a); VF_IN(unsigned, b); VF_IN(unsigned, val); VF_IN(unsigned, sh);
    d.minus = d.plus = d.space = d.alt = d.zero = 0;
    if (a & 1) { int ch = 1 + b % 255; if (ch == '%') { f[nf++] = '%'; } f[nf++] = ch; put(ch); if (a & 2) continue; }
    f[nf++] = '%';
    for (k = 0; k < (b >> 8 & 3); k++) switch ((b >> (10 + 3 * k) & 7)) {
      case 0: f[nf++] = '-'; d.minus = 1; break; case 1: f[nf++] = '+'; d.plus = 1; break; case 2: f[nf++] = ' '; d.space = 1; break;
      case 3: case 4: f[nf++] = '#'; d.alt = 1; break; default: f[nf++] = '0'; d.zero = 1; }
    if (a & 4) { w = a >> 8 & 31; if (a & 8) { if (a & 16) w = -w; f[nf++] = '*'; arg[na++] = w; if (w < 0) { d.minus = 1; w = -w; } } else { if (w > 9) f[nf++] = '0' + w / 10; else if (w == 0) { w = 1; } if (w > 9 || w) f[nf++] = '0' + w % 10; } }
    if (a & 32) { p = a >> 13 & 15; if ((a >> 13 & 31) == 31) p = 0; f[nf++] = '.'; if (a & 64) { if (a & 128) p = -p; f[nf++] = '*'; arg[na++] = p; } else { if (p > 9) f[nf++] = '0' + p / 10; if (p || a & 128) f[nf++] = '0' + p % 10; } }
    d.width = w; d.prec = p; d.mod = 0;
    switch (a >> 18 & 15) { case 0: f[nf++] = 'h'; d.mod = 'h'; break; case 1: f[nf++] = 'h'; f[nf++] = 'h'; d.mod = 'H'; break; case 2: f[nf++] = 'l'; break; case 3: f[nf++] = "Ljzt"[a >> 22 & 3]; }
    v = val >> (sh & 31); if (sh & 32) v = -v;
    d.conv = "diouxXdXcspndioux"[a >> 24 & 15]; if ((a >> 28) == 0) d.conv = b >> 16 & 127;
    f[nf++] = d.conv;
    switch (d.conv) {
    case 'c': arg[na++] = v; if (!d.minus) for (k = 1; (int)k < w; k++) put(' '); put(v & 255); if (d.minus) for (k = 1; (int)k < w; k++) put(' '); break;
    case 's': { char *s = str + (v % 13); unsigned l = 0; arg[na++] = (unsigned)s; while (s[l] && (p < 0 || l < p)) l++; if (!d.minus) for (k = l; (int)k < w; k++) put(' '); for (k = 0; k < l; k++) put(s[k]); if (d.minus) for (k = l; (int)k < w; k++) put(' '); break; }
    case 'n': arg[na++] = (unsigned)tgt; tgt[0] = 0x5a5a5a5a; bad = 2; v = nw; break;
    case 'i': d.conv = 'd';
    case 'd': case 'o': case 'u': case 'x': case 'X': case 'p': {
      int neg, n = 0; unsigned m, t; unsigned char dg[12]; struct lay l; arg[na++] = v; m = t = magnitude(&d, v, &neg);
      do { dg[n++] = t % BASEOF(d.conv); t /= BASEOF(d.conv); } while (t);
      l = layout(&d, m, neg, n);
      for (k = 0; k < l.sp1 + (l.sign != 0) + 2 * (l.pfx != 0) + l.zero + l.nd + l.sp2; k++) { int ch = laychar(&l, k, dg); if (d.conv == 'X' && ch >= 'a' && ch <= 'f') ch -= 32; put(ch); }
      break; }
    case '%': if (f[nf - 2] == '%') put('%'); else bad = 1; break;
    case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': vf_discard();
    default: if (d.conv == '-' || d.conv == '+' || d.conv == ' ' || d.conv == '#' || d.conv == '.' || d.conv == '*' || d.conv == 'h' || d.conv == 'l' || d.conv == 'L' || d.conv == 'j' || d.conv == 'z' || d.conv == 't' || isdigit(d.conv)) vf_discard(); bad = 1; }
    if (bad == 2) {
      f[nf] = 0; r = __doprint(&fl, f, (char *)arg);
      if (d.mod == 'H') VF_CHECK(tgt[0] == (int)(0x5a5a5a00 | (nw & 255)), "%hhn"); else if (d.mod == 'h') VF_CHECK(tgt[0] == (int)(0x5a5a0000 | (nw & 65535)), "%hn"); else VF_CHECK(tgt[0] == nw, "%n");
      return;
    }
  }
  f[nf] = 0;
  r = __doprint(&fl, f, (char *)arg);
  if (bad) { VF_CHECK(r == -1, "a malformed directive is reported"); return; }
  VF_CHECK(r == (int)nw, "the number of characters is returned");
  VF_CHECK(no == nw, "as many characters are written");
  for (k = 0; k < nw && k < 690; k++) VF_CHECK(out[k] == want[k], "the characters are the prescribed ones");
}
#endif
