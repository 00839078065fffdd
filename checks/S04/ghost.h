#ifdef VF_PROOF
/* the format (gL characters before the terminator) and ghost functions on it, defined by recurrences */
static const unsigned char *gF; static unsigned gL, gP;
static unsigned *eF, *bF, *eD; static unsigned *vD;
static unsigned gOut, gK, gO; static int gChar; /* characters written so far; the gK-th one */
static int gCur0, gStart;
#define FC(i) ((i) < gL ? gF[i] : 0u)
#define NZ(i) ((i) >= gL || gF[i] != 0)
#define BIT(c) ((c) == '-' ? 1u : (c) == '+' ? 2u : (c) == ' ' ? 4u : (c) == '#' ? 8u : (c) == '0' ? 16u : 0u)
#define DIG(c) ((c) >= '0' && (c) <= '9')
#define DEF_F(i) ((i) > gL || (NZ(i) && (BIT(FC(i)) ? eF[i] == eF[(i) + 1] && bF[i] == (BIT(FC(i)) | bF[(i) + 1]) && eF[i] > (i) && eF[i] <= gL : eF[i] == (i) && bF[i] == 0)))
#define DEF_D(i) ((i) > gL || (NZ(i) && (DIG(FC(i)) ? eD[i] == eD[(i) + 1] && eD[i] > (i) && eD[i] <= gL && vD[(i) + 1] == vD[i] * 10 + (FC(i) - '0') : eD[i] == (i))))
#define CUR (PO(fmt) - 1)
#define ATC (SO(fmt, gF) && PO(fmt) >= 1 && PO(fmt) <= gL && c == (int)FC(PO(fmt) - 1))
/* the flags seen so far together with those still to come are those of the directive */
#define SAME(b, st) ((((st) | (bF[CUR] & (b)) != 0) != 0) == ((bF[gP + 1] & (b)) != 0))
#define FLAGS (ATC && CUR >= gP + 1 && eF[CUR] == eF[gP + 1] && (ljust == 0 || ljust == 1) && (alt == 0 || alt == 1) && (lzeroes == 0 || lzeroes == 1) && (sign == 0 || sign == ' ' || sign == '+') && !(ljust && lzeroes) \
  && SAME(1u, ljust) && SAME(2u, sign == '+') && SAME(8u, alt) && ((bF[gP + 1] & 2u) || SAME(4u, sign == ' ')) && ((bF[gP + 1] & 1u) || SAME(16u, lzeroes)))
#define DIGITS(v, s) (ATC && CUR >= (s) && eD[CUR] == eD[s] && (v) == (int)vD[CUR])
/* a padding loop: ch is written until x comes down to lo */
#ifndef WM
#define WM 0x3fffffffu
#endif
static unsigned g0, gN; static int w0, c0; /* gN characters written by the loop, whose counter was w0 */
#define PADINV(x, lo, ch) ((x) == w0 - (int)gN && gN <= ((lo) < w0 ? (unsigned)(w0 - (lo)) : 0u) && gOut == g0 + gN && gChar == (gK - g0 < gN ? (ch) : c0))
#define PAD(flag, x, lo, ch) { if (!flag) { g0 = gOut; w0 = (x); c0 = gChar; gN = 0; } VF_CUT(flag, PADINV(x, lo, ch), { gN = vf_ndu() & WM; VF_ASSUME(gN <= ((lo) < w0 ? (unsigned)(w0 - (lo)) : 0u)); (x) = w0 - (int)gN; gOut = g0 + gN; gChar = gK - g0 < gN ? (ch) : c0; cnt[0] = gCnt = vf_ndi(); }) }
static int gCnt; static char *p0;
static void stub_fputc(int c, FILE *f, int *cnt);
static void stub_printff(float x, int ljust, int sign, int alt, int lzeroes, int width, int precision, int conversion, FILE *f, int cnt[2]);
static _Bool stepok(char *vl);
static _Bool litok(unsigned n);
static void step(void);
static void digit(char *p, unsigned tmp, unsigned v);
static unsigned gSL, gS3; static char *gS, *gVl; static int gUnterm, gErr;
/* the string's length is gSL */
#define SLEN(n) ((n) >= gSL ? (gUnterm || gS[n] == 0) : gS[n] != 0)
/* the state a parsed directive leaves: flags, width, precision, modifier, conversion, the arguments consumed */
struct dir { int minus, plus, space, alt, zero, width, prec, mod, conv; };
static struct dir D; static unsigned gLit, gNargs, gEnd, gValid;
static unsigned char gDig[12]; static unsigned gNd, gPrev, gMag;
#ifdef PARSE
#define VF_STAGE VF_CHECK(gLit == 0, "a directive only after %"); VF_CHECK(ljust == D.minus && alt == D.alt && sign == (D.plus ? '+' : D.space ? ' ' : 0) && lzeroes == (D.zero && !D.minus), "flags"); \
  VF_CHECK(width == D.width && precision == D.prec && lmodifier == D.mod && (unsigned char)c == (unsigned char)D.conv, "width, precision, modifier and conversion"); \
  VF_CHECK(SO(vl, gVl) && PO(vl) == gNargs && SO(fmt, gF) && PO(fmt) == gEnd && cnt[0] == (int)gOut && gOut == gO && cnt[1] == gErr, "arguments and format consumed, nothing written"); \
  if (gValid) VF_ASSUME(0);
#else
#define VF_STAGE { ljust = D.minus; alt = D.alt; sign = D.plus ? '+' : D.space ? ' ' : 0; lzeroes = D.zero && !D.minus; width = D.width; precision = D.prec; lmodifier = D.mod; cnt[0] = gCnt; cnt[1] = gErr; }
#endif
/* after gNd digits of the magnitude have been produced, least significant first, gPrev remains */
#define DG(i) (gNd <= (i) || (gDig[i] < BASE && s[10 - (i)] == digits[gDig[i]]))
#define DIGINV ((gMag != 0 || (gNd == 1 && gPrev == 0)) && gNd >= 1 && gNd <= ND && p == s + (11 - gNd) && tmp == gPrev && tmp <= LIMIT(gNd) && DG(0) && DG(1) && DG(2) && DG(3) && DG(4) && DG(5) && DG(6) && DG(7) && DG(8) && DG(9) && DG(10))
#define HDIG { gNd = vf_ndu(); VF_ASSUME(gNd >= 1 && gNd <= ND); tmp = gPrev = vf_ndu(); p = s + (11 - gNd); { int ii; for (ii = 0; ii < 11; ii++) { gDig[ii] = vf_ndi(); s[ii] = vf_ndi(); } } }
#ifdef CV
#define BASE (CV == 'o' ? 8u : CV == 'd' || CV == 'u' ? 10u : 16u)
#define ND (CV == 'o' ? 11 : CV == 'd' || CV == 'u' ? 10 : 8)
static unsigned LIMIT(unsigned n)
{
  static const unsigned t[] = { 4294967295u, 429496729u, 42949672u, 4294967u, 429496u, 42949u, 4294u, 429u, 42u, 4u, 0, 0 };
  return BASE == 10 ? t[n] : BASE == 8 ? (n > 10 ? 0 : 0xffffffffu >> 3 * n) : n > 7 ? 0 : 0xffffffffu >> 4 * n;
}
#else
#define ND 1
#define BASE 10
#define LIMIT(n) 0
#endif
#endif
