#include "vf.h"
#include "all.w.c"
typedef long long S; typedef unsigned long long Uq;
#define SMIN (-0x7fffffffffffffffLL - 1)
#define SMAX 0x7fffffffffffffffLL
#define IMAX 0x7fffffff
static int gE, gW, gNerr, gNw;
#ifdef VF_NATIVE
static void *jb[5];
#define TRY(e) (__builtin_setjmp(jb) ? 1 : ((e), 0))
#else
#define TRY(e) ((e), 0)
static int gExpect; /* the error that is right here, 0 if none */
#endif
void z_error(int t)
{
  gNerr++; gE = t;
#ifdef VF_NATIVE
  __builtin_longjmp(jb, 1);
#else
#ifdef CONST
  VF_CHECK(t == ARITH_EXCEP_CONST_O && gIn && (gZ * (unsigned __int128)BASE + gD) >> 64, "constants that fit are accepted");
#else
  VF_CHECK(gExpect, "no error is reported for valid operands");
#endif
  VF_REACH("error"); VF_ASSUME(0);
#endif
}
void z_warn(int t) { gNw++; gW = t; }
#ifdef OPSU
#define W(c, t, msg) VF_CHECK((c) ? gNw == 1 && gW == (t) : gNw == 0, "warning " msg); gNw = 0
#define ADDO(x, y) ((__int128)(x) + (y))
#define SUBO(x, y) ((__int128)(x) - (y))
static int out(__int128 v) { return v > SMAX ? 1 : v < SMIN ? -1 : 0; }
void harness(void)
{
  VF_IN(S, x); VF_IN(S, y); VF_IN(int, n); Uq u = x, v = y; unsigned m; int o; S r;
  gNerr = gNw = 0; m = n & 63;
  VF_CHECK(big_s_to_u(x) == (Uq)x && big_u_fromint(n) == (Uq)(S)n && big_s_fromint(n) == n, "conversion"); 
  VF_CHECK(big_u_fromulong(u) == u && big_s_fromlong(x) == x && big_s_tolong(x) == x && big_u_toulong(u) == (u > SMAX ? (Uq)SMAX : u), "conversion");
  VF_CHECK(big_u_toint(u) == (u > IMAX ? IMAX : (int)u) && big_s_toint(x) == (x > IMAX ? IMAX : x < -(S)IMAX - 1 ? -IMAX - 1 : (int)x), "conversion to int saturates");
  VF_CHECK(gNw == 0, "no warning");
  VF_CHECK(big_u_to_s(u) == x, "to signed"); W(u > SMAX, ARITH_EXCEP_CONV_O, "conversion");
  VF_CHECK(big_u_neg(u) == 0 - u && big_u_not(u) == ~u && big_u_lnot(u) == (u == 0) && big_u_lval(u) == (u != 0), "unsigned unary");
  VF_CHECK(big_s_not(x) == ~x && big_s_lnot(x) == (x == 0) && big_s_lval(x) == (x != 0), "signed unary"); W(0, 0, "unary");
  r = big_s_neg(x); VF_CHECK(x == SMIN || r == -x, "negation"); W(x == SMIN, ARITH_EXCEP_NEG_O, "negation");
  VF_CHECK(big_u_plus(u, v) == u + v && big_u_minus(u, v) == u - v, "unsigned sum and difference");
  VF_CHECK(big_u_and(u, v) == (u & v) && big_u_or(u, v) == (u | v) && big_u_xor(u, v) == (u ^ v), "unsigned bitwise");
  VF_CHECK(big_s_and(x, y) == (x & y) && big_s_or(x, y) == (x | y) && big_s_xor(x, y) == (x ^ y), "signed bitwise");
  VF_CHECK(big_u_lt(u, v) == (u < v) && big_u_leq(u, v) == (u <= v) && big_u_gt(u, v) == (u > v) && big_u_geq(u, v) == (u >= v) && big_u_same(u, v) == (u == v) && big_u_neq(u, v) == (u != v), "unsigned comparisons");
  VF_CHECK(big_s_lt(x, y) == (x < y) && big_s_leq(x, y) == (x <= y) && big_s_gt(x, y) == (x > y) && big_s_geq(x, y) == (x >= y) && big_s_same(x, y) == (x == y) && big_s_neq(x, y) == (x != y), "signed comparisons"); W(0, 0, "unsigned, bitwise, comparisons");
  r = big_s_plus(x, y); o = out(ADDO(x, y)); VF_CHECK(o || r == x + y, "signed sum"); W(o, o > 0 ? ARITH_EXCEP_PLUS_O : ARITH_EXCEP_PLUS_U, "sum");
  r = big_s_minus(x, y); o = out(SUBO(x, y)); VF_CHECK(o || r == x - y, "signed difference");
  W(o, o > 0 ? ARITH_EXCEP_MINUS_O : ARITH_EXCEP_MINUS_U, "difference");
  VF_CHECK(big_u_lsh(u, m) == u << m && big_u_rsh(u, m) == u >> m, "unsigned shifts"); W(0, 0, "shift");
  r = big_s_lsh(x, m);
  if (x >= 0) { o = (x << m >> m) != x || (x << m) < 0; VF_CHECK(o || r == x << m, "left shift"); W(o, ARITH_EXCEP_LSH_O, "left shift"); }
  else { VF_CHECK(((S)((Uq)x << m) >> m) != x || r == (S)((Uq)x << m), "left shift of a negative number"); W(1, ARITH_EXCEP_LSH_U, "left shift of a negative number"); }
  VF_CHECK(big_s_rsh(x, m) == x >> m, "right shift"); W(x < 0, ARITH_EXCEP_RSH_N, "right shift");
  if (n < 0 || n > 63) { big_u_lsh(u, n); W(1, n < 0 ? ARITH_EXCEP_LSH_C : ARITH_EXCEP_LSH_W, "count"); big_u_rsh(u, n); W(1, n < 0 ? ARITH_EXCEP_RSH_C : ARITH_EXCEP_RSH_W, "count");
    big_s_lsh(x, n); W(1, n < 0 ? ARITH_EXCEP_LSH_C : ARITH_EXCEP_LSH_W, "count"); big_s_rsh(x, n); W(1, n < 0 ? ARITH_EXCEP_RSH_C : ARITH_EXCEP_RSH_W, "count"); }
  VF_CHECK(gNerr == 0, "no error");
  VF_REACH("ops");
}
#elif defined STAR
void harness(void)
{
  VF_IN(S, x); VF_IN(S, y);
  VF_CHECK(big_u_star(x, y) == (Uq)x * (Uq)y, "unsigned product");
  VF_CHECK(big_s_star(x, y) == (S)((Uq)x * (Uq)y), "signed product (when representable; wrapped otherwise)");
  VF_REACH("star");
}
#elif defined DIVOP
#define CAT(a, b) a ## b
#define FN(x) CAT(big_, x)
void harness(void)
{
  VF_IN(Uq, x); VF_IN(Uq, y); Uq r = 0; int bad;
  bad = y == 0 || (SGN && x == (Uq)SMIN && y == ~0ull);
  gNerr = 0;
#ifndef VF_NATIVE
  gExpect = bad;
#endif
  if (TRY(r = FN(DIVOP)(x, y))) { VF_CHECK(bad, "no error is reported for valid operands"); return; }
  VF_CHECK(!bad, "division by zero and unrepresentable quotients are reported");
#if SGN
  VF_CHECK((S)r == (REM ? (S)x % (S)y : (S)x / (S)y), "signed quotient or remainder");
#else
  VF_CHECK(r == (REM ? x % y : x / y), "unsigned quotient or remainder");
#endif
  VF_REACH("division");
}
#elif defined CONST
void harness(void)
{
  Uq ru = 0; S rs = 0; int sp = 7; char *e;
#ifdef VF_PROOF
  { unsigned n; gL = n; } VF_ASSUME(gL < 0x1000000);
  gS = VF_ALLOC(gL + 1); VF_ASSUME(gS[gL] == 0);
  gExpect = 1; /* judged below: */
  gIn = 0;
  e = CONST(gS, &ru, &rs, &sp);
  VF_CHECK(e == gC && !gIn && ru == gZ, "the value of all the digits");
#else
  unsigned i, n; Uq z = 0; int bad = 0; VF_IN(Uq, w); VF_IN(unsigned, k);
  gS = VF_ALLOC(40);
  /* the digits of w, then k & 1 more, preceded by zeroes, followed by any character */
  { char t[30]; unsigned j = 0; do { unsigned d = w % BASE; t[j++] = d < 10 ? '0' + d : (k & 2 ? 'a' : 'A') + d - 10; w /= BASE; } while (w); n = 0;
    if (k & 4) gS[n++] = '0'; if (k & 8) gS[n++] = '0'; while (j) gS[n++] = t[--j]; if (k & 16) gS[n++] = '0' + (k >> 6) % (BASE < 10 ? BASE : 10); if (k & 32) gS[n++] = k >> 12; gS[n] = 0; }
  for (i = 0; DIGIT(gS[i]) < BASE; i++) { unsigned __int128 q = (unsigned __int128)z * BASE + DIGIT(gS[i]); if (q >> 64) bad = 1; z = q; }
  if (TRY(e = CONST(gS, &ru, &rs, &sp))) { VF_CHECK(bad && gE == ARITH_EXCEP_CONST_O, "constants that fit are accepted"); return; }
  VF_CHECK(!bad, "constants that do not fit are rejected");
  VF_CHECK(e == gS + i && ru == z, "the value of all the digits");
#endif
  VF_CHECK(sp == (ru <= SMAX) && (!sp || rs == (S)ru), "signed when it fits the signed type");
  VF_REACH("const");
}
#endif
