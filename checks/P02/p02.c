#include "vf.h"
#include "all.w.c"
typedef long long S; typedef unsigned long long Uq;
static int gNerr, gNw;
char *operators_name[512];
static int isun(int t) { return t == LNOT || t == NOT || t == UPLUS || t == UMINUS; }
static const int BIN[][2] = { { STAR, 12 }, { SLASH, 12 }, { PCT, 12 }, { PLUS, 11 }, { MINUS, 11 }, { LSH, 10 }, { RSH, 10 }, { LT, 9 }, { LEQ, 9 }, { GT, 9 }, { GEQ, 9 },
  { SAME, 8 }, { NEQ, 8 }, { AND, 7 }, { CIRC, 6 }, { OR, 5 }, { LAND, 4 }, { LOR, 3 }, { COMMA, 1 } };
#define NBIN 19
static int spec_prec(int t) /* C's grammar; 0: not a binary operator */
{
  switch (t) {
  case STAR: case SLASH: case PCT: return 12; case PLUS: case MINUS: return 11; case LSH: case RSH: return 10; case LT: case LEQ: case GT: case GEQ: return 9;
  case SAME: case NEQ: return 8; case AND: return 7; case CIRC: return 6; case OR: return 5; case LAND: return 4; case LOR: return 3; case COMMA: return 1;
  } return 0;
}
static int arith_op(int t) { return t == STAR || t == SLASH || t == PCT || t == PLUS || t == MINUS || t == AND || t == CIRC || t == OR; }
static int sign_of(int op, int s1, int s2) { return arith_op(op) ? s1 && s2 : op == LSH || op == RSH ? s1 != 0 : op == COMMA ? s2 != 0 : 1; }
static int isbin(int t) { return spec_prec(t) != 0; }
#ifndef ERR
#ifdef VF_NATIVE
static void *jb[5];
#define TRY(e) (__builtin_setjmp(jb) ? 1 : ((e), 0))
#else
#define TRY(e) ((e), 0)
#endif
#endif
void ucpp_error(long l, char *f, ...) { gNerr++; }
void ucpp_warning(long l, char *f, ...) { gNw++; }
void ucpp_ouch(char *f, ...) { VF_CHECK(0, "no internal error"); }
static int throw_ok(void);
#ifdef VF_NATIVE
void vf_throw(jmp_buf e, int v) { __builtin_longjmp(jb, 1); }
int vf_catch(struct __jmp_buf_tag e[1]) { return 0; }
#else
void vf_throw(jmp_buf e, int v) { VF_CHECK(throw_ok(), "only malformed input is rejected"); VF_ASSUME(0); for (;;); }
static int gCatch;
int vf_catch(struct __jmp_buf_tag e[1]) { return gCatch; }
#endif
/* the arithmetic, by its contracts (property P01) */
static int gLastOp; static Uq gLa, gLb, gLr;
#ifdef VF_NATIVE
#define OPAQUE(n, T, e) (T)(e)
#else
static Uq ndq(void) { Uq x; return x; }
#define OPAQUE(n, T, e) (gLastOp = n, gLa = x, gLb = y, (T)(gLr = ndq()))
#endif
#ifndef VF_NATIVE
#define ZERO
#else
#define ZERO if (y == 0) z_error(1);
#endif
#define CMPS(T, p) int big_##p##_lt(T x, T y) { return x < y; } int big_##p##_leq(T x, T y) { return x <= y; } int big_##p##_gt(T x, T y) { return x > y; } int big_##p##_geq(T x, T y) { return x >= y; } \
  int big_##p##_same(T x, T y) { return x == y; } int big_##p##_neq(T x, T y) { return x != y; } int big_##p##_lval(T x) { return x != 0; } int big_##p##_lnot(T x) { return x == 0; } \
  T big_##p##_not(T x) { return ~x; } T big_##p##_neg(T x) { return 0 - (Uq)x; } T big_##p##_plus(T x, T y) { return (Uq)x + (Uq)y; } T big_##p##_minus(T x, T y) { return (Uq)x - (Uq)y; } \
  T big_##p##_and(T x, T y) { return x & y; } T big_##p##_or(T x, T y) { return x | y; } T big_##p##_xor(T x, T y) { return x ^ y; } \
  T big_##p##_star(T x, T y) { return OPAQUE(1, T, (Uq)x * (Uq)y); } T big_##p##_slash(T x, T y) { ZERO return OPAQUE(2, T, x / y); } T big_##p##_pct(T x, T y) { ZERO return OPAQUE(3, T, x % y); } \
  T big_##p##_lsh(T x, int y) { return OPAQUE(4, T, (Uq)x << (y & 63)); } T big_##p##_rsh(T x, int y) { return OPAQUE(5, T, x >> (y & 63)); }
CMPS(u_big, u)
CMPS(s_big, s)
u_big big_s_to_u(s_big x) { return x; }
s_big big_s_fromint(int x) { return x; }
s_big big_s_fromlong(long x) { return x; }
u_big big_u_fromulong(unsigned long x) { return x; }
unsigned long big_u_toulong(u_big x) { return x > 0x7fffffffffffffffull ? 0x7fffffffffffffffull : x; }
int big_u_toint(u_big x) { return x > 0x7fffffff ? 0x7fffffff : (int)x; }
int big_s_toint(s_big x) { return x > 0x7fffffff ? 0x7fffffff : x < -0x7fffffff - 1 ? -0x7fffffff - 1 : (int)x; }
static char *kS; static int kBase; static u_big kU; static char *kE;
#ifdef VF_NATIVE
static char *rd(char *c, u_big *ru, s_big *rs, int *sp, unsigned b) { Uq z = 0; for (;; c++) { unsigned d = *c >= '0' && *c <= '9' ? *c - '0' : *c >= 'a' && *c <= 'f' ? *c - 'a' + 10 : *c >= 'A' && *c <= 'F' ? *c - 'A' + 10 : 99;
  if (d >= b) break; z = z * b + d; } *ru = z; if ((*sp = (S)z >= 0)) *rs = z; return c; }
#else
static char *rd(char *c, u_big *ru, s_big *rs, int *sp, unsigned b) { VF_CHECK(kBase == 0, "read once"); kS = c; kBase = b; *ru = kU; if ((*sp = (S)kU >= 0)) *rs = kU; return kE; }
#endif
char *big_u_octconst(char *c, u_big *ru, s_big *rs, int *sp) { return rd(c, ru, rs, sp, 8); }
char *big_u_decconst(char *c, u_big *ru, s_big *rs, int *sp) { return rd(c, ru, rs, sp, 10); }
char *big_u_hexconst(char *c, u_big *ru, s_big *rs, int *sp) { return rd(c, ru, rs, sp, 16); }

#ifdef OPS
static int throw_ok(void) { return 0; }
static int conv(ppval v) { return v.sign ? big_s_toint(v.u.sv) : big_u_toint(v.u.uv); }
void harness(void)
{
  VF_IN(Uq, a); VF_IN(Uq, b); VF_IN(unsigned, o); VF_IN(unsigned char, sa); VF_IN(unsigned char, sb); ppval x, y, r; int op, s = sa & sb & 1; Uq w = 0;
  x.sign = sa & 1; y.sign = sb & 1; x.u.uv = a; y.u.uv = b; op = BIN[o % NBIN][0];
#ifdef VF_NATIVE
  VF_ASSUME(!((op == SLASH || op == PCT) && (b == 0 || b == ~0ull))); VF_ASSUME(!(op == LSH || op == RSH) || b < 64);
#endif
  r = eval_opbin(op, x, y);
  VF_CHECK(!r.sign == !sign_of(op, x.sign, y.sign), "the result is as signed as C's conversions make it");
  VF_CHECK(!opbin_sign(op, x.sign, y.sign) == !sign_of(op, x.sign, y.sign), "also when the operator is not evaluated");
  switch (op) {
  case PLUS: w = a + b; break; case MINUS: w = a - b; break; case AND: w = a & b; break; case CIRC: w = a ^ b; break; case OR: w = a | b; break;
  case LT: w = s ? (S)a < (S)b : a < b; break; case LEQ: w = s ? (S)a <= (S)b : a <= b; break; case GT: w = s ? (S)a > (S)b : a > b; break; case GEQ: w = s ? (S)a >= (S)b : a >= b; break;
  case SAME: w = a == b; break; case NEQ: w = a != b; break; case LAND: w = a && b; break; case LOR: w = a || b; break; case COMMA: w = b; break;
#ifdef VF_NATIVE
  case STAR: w = a * b; break; case SLASH: w = s ? (S)a / (S)b : a / b; break; case PCT: w = s ? (S)a % (S)b : a % b; break;
  case LSH: w = a << (b & 63); break; case RSH: w = x.sign ? (S)a >> (b & 63) : a >> (b & 63); break;
#else
  case STAR: case SLASH: case PCT: VF_CHECK(gLastOp == (op == STAR ? 1 : op == SLASH ? 2 : 3) && gLa == a && gLb == b, "multiplication and division: the operation of P01 on the operands"); w = gLr; break;
  case LSH: case RSH: VF_CHECK(gLastOp == (op == LSH ? 4 : 5) && gLa == a && (int)gLb == conv(y), "shifts: the operation of P01 on the operands"); w = gLr; break;
#endif
  }
  VF_CHECK(r.u.uv == w, "the value of the binary operator");
  op = (int[]){ LNOT, NOT, UPLUS, UMINUS }[o & 3];
  r = eval_opun(op, x);
  VF_CHECK(!r.sign == !(op == LNOT || x.sign), "signedness of a unary operator's result");
  VF_CHECK(r.u.uv == (op == LNOT ? a == 0 : op == NOT ? ~a : op == UMINUS ? 0 - a : a), "the value of the unary operator");
  VF_CHECK(boolval(x) == (a != 0), "truth");
  VF_REACH("ops");
}
#ifdef VF_NATIVE
void z_error(int t);
#endif
#elif defined PREC
static int throw_ok(void) { return 0; }
void harness(void)
{
  VF_IN(unsigned, i); VF_IN(unsigned, j); int a, b; a = BIN[i % NBIN][0]; b = BIN[j % NBIN][0];
  VF_CHECK((op_prec(a) < op_prec(b)) == (BIN[i % NBIN][1] < BIN[j % NBIN][1]), "binary operators: the precedence of C's grammar");
  VF_CHECK(a == COMMA || op_prec(a) > op_prec(QUEST), "?: binds less than the binary operators"); VF_CHECK(op_prec(COMMA) < op_prec(QUEST) && op_prec(COMMA) > 0, "only the comma binds less");
  VF_CHECK(op_prec(LNOT) >= op_prec(a) && op_prec(NOT) >= op_prec(a) && op_prec(UPLUS) >= op_prec(a) && op_prec(UMINUS) >= op_prec(a), "unary operators bind more");
  { VF_IN(int, t); VF_CHECK(!OP_UN(t) == !isun(t) && !OP_BIN(t) == !isbin(t), "the operators"); }
  VF_REACH("prec");
}
#elif defined SUFFIX
static const char *const L1[] = { "u", "U", "ul", "uL", "Ul", "UL", "lu", "Lu", "lU", "LU", "ull", "uLL", "Ull", "ULL", "llu", "LLu", "llU", "LLU", "", "l", "L", "ll", "LL" };
static int gOk; static int throw_ok(void) { return !gOk; }
static int eq(const char *a, const char *b) { int i; for (i = 0; i < 4; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
void harness(void)
{
  char *d = VF_ALLOC(6); int i, j, r = 2, w = 2;
#ifdef VF_NATIVE
  for (i = 0; i < 6; i++) { VF_IN(unsigned, c); d[i] = "uUlL\0\0\0x"[c & 7]; } d[5] = 0;
#endif
  for (i = 0; i < 23; i++) if (eq(d, L1[i])) w = i >= 18;
  gOk = w != 2;
  if (TRY(r = pp_suffix(d, d))) { VF_CHECK(!gOk, "legal suffixes are accepted"); return; }
  VF_CHECK(gOk && !r == !w, "exactly the suffixes of C are accepted, with their signedness");
  VF_REACH("suffix");
}
#elif defined CHARC
static int gOk; static int throw_ok(void) { return !gOk; }
static unsigned long esc(char c) { switch (c) { case 'n': return 10; case 't': return 9; case 'v': return 11; case 'b': return 8; case 'r': return 13; case 'f': return 12; case 'a': return 7; case '\\': return '\\'; case '?': return '?'; case '\'': return '\''; case '"': return '"'; } return 0; }
void harness(void)
{
  unsigned long r = 0, w = 0, i, z = 0; int hex = 0;
#ifdef VF_PROOF
  { unsigned n; gL = n; } VF_ASSUME(gL < 0x1000000 && gL > 0);
  gS = VF_ALLOC(gL + 1); VF_ASSUME(gS[gL] == 0); VF_ASSUME(gS[0] == '\'');
#else
  gL = 13; gS = VF_ALLOC(14); for (i = 0; i < 13; i++) VF_SET(char, gS[i], "c"); gS[13] = 0;
#ifdef VF_NATIVE
  for (i = 1; i < 13; i++) { unsigned char k = gS[i]; gS[i] = k < 200 ? "\\'xuU01789abcfnrtv?\"AFgz"[k % 24] : k; } if (gS[2] != '\\' && gS[3] != 1) gS[1] = '\\';
#endif
  gS[0] = '\'';
#endif
  if (gS[1] == 0) { VF_ASSUME(0); }
  if (gS[1] == '\'') gOk = 0;
  else if (gS[1] != '\\') { gOk = 1; w = (unsigned char)gS[1]; }
  else if (esc(gS[2])) { gOk = 1; w = esc(gS[2]); }
  else if (gS[2] == 'u' || gS[2] == 'U') { unsigned long k = gS[2] == 'u' ? 4 : 8; gOk = 1; for (i = 0; i < k; i++) { if (i + 3 > gL || HEXD(gS[3 + i]) > 15) { gOk = 0; break; } w = w * 16 + HEXD(gS[3 + i]); } }
  else if (gS[2] == 'x') { gOk = 1; hex = 1; for (i = 3; i < 13 && i <= gL && HEXD(gS[i]) < 16; i++) z = z * 16 + HEXD(gS[i]); w = z; }
  else if (gS[2] >= '0' && gS[2] <= '7') { gOk = 1; for (i = 2; i < 5 && gS[i] >= '0' && gS[i] <= '7'; i++) w = w * 8 + gS[i] - '0'; }
  else gOk = 0;
  if (TRY(r = pp_char(gS, gS))) { VF_CHECK(!gOk, "valid character constants are accepted"); return; }
  VF_CHECK(gOk, "malformed character constants are rejected");
#ifdef VF_PROOF
  if (hex) VF_CHECK(!gIn && r == gZ, "the value of all the hexadecimal digits"); else
#endif
  VF_CHECK(r == w, "the value of the character constant");
  VF_REACH("char");
}
#elif defined CONSTS
static int sSg, sC; static char *sD, *cP; static unsigned long cV; static int gErrOk; static int throw_ok(void) { return gErrOk; }
#ifndef VF_NATIVE
static int PSUF(char *d, char *r) { sC++; sD = d; gErrOk = sSg && kBase == 10 && (S)kU < 0; return sSg; }
static unsigned long PCHAR(char *c, char *r) { sC++; cP = c; return cV; }
#endif
void harness(void)
{
#ifndef VF_NATIVE
  char *s = VF_ALLOC(4); ppval r; VF_ASSUME(s[3] == 0); { int b; VF_ASSUME(b == 0 || b == 1); sSg = b; } { Uq u; kU = u; unsigned long v; cV = v; } { char *e; kE = e; }
  kBase = sC = 0;
  gErrOk = s[0] == 'L' && s[1] != '\'';
  r = pp_strtoconst(s);
  VF_CHECK(!(s[0] == 'L' && s[1] != '\''), "malformed wide character constants are rejected");
  VF_CHECK(sC == 1, "read once");
  if (s[0] == '\'' || s[0] == 'L') { VF_CHECK(cP == s + (s[0] == 'L') && r.u.uv == cV && !kBase, "character constants"); VF_CHECK(s[0] == 'L' || r.sign, "plain ones are signed"); }
  else {
    VF_CHECK(kBase == (s[0] == '0' ? (s[1] == 'x' || s[1] == 'X' ? 16 : 8) : 10) && kS == s + (kBase == 16 ? 2 : kBase == 8), "the base is that of the prefix");
    VF_CHECK(sD == kE, "the suffix follows the digits");
    VF_CHECK(r.u.uv == kU, "the value of the digits");
    VF_CHECK(!r.sign == !(sSg && (S)kU >= 0), "the type is the first that can represent the value");
    VF_CHECK(!(kBase == 10 && sSg && (S)kU < 0), "decimal constants without u too large for the signed type are rejected");
  }
  VF_REACH("const");
#else
  char s[30]; unsigned n = 0, i; ppval r; Uq w = 0; int bad = 0, sg = 1; VF_IN(Uq, v); VF_IN(unsigned, k); unsigned b = k % 3 == 0 ? 8 : k % 3 == 1 ? 10 : 16; char t[30]; unsigned j = 0;
  k /= 3; if (k & 1) v >>= 40; k /= 2; if (b == 8) s[n++] = '0'; if (b == 16) { s[n++] = '0'; s[n++] = k & 1 ? 'x' : 'X'; } k /= 2;
  VF_ASSUME(b != 10 || v); w = v; do { t[j++] = "0123456789abcdef"[v % b]; v /= b; } while (v); while (j) s[n++] = t[--j];
  switch (k % 6) { case 1: s[n++] = 'u'; sg = 0; break; case 2: s[n++] = 'L'; break; case 3: s[n++] = 'U'; s[n++] = 'l'; s[n++] = 'l'; sg = 0; break; case 4: s[n++] = 'l'; s[n++] = 'l'; break; case 5: s[n++] = 'l'; s[n++] = 'L'; bad = 1; }
  s[n] = 0; if (b == 10 && sg && (S)w < 0) bad = 1;
  if (TRY(r = pp_strtoconst(s))) { VF_CHECK(bad, "valid constants are accepted"); return; }
  VF_CHECK(!bad, "invalid constants are rejected"); VF_CHECK(r.u.uv == w && !r.sign == !(sg && (S)w >= 0), "value and type");
#endif
}
#elif defined SHRD
#ifndef VF_NATIVE
#define TY(i) gT[i].type
static int accepts(int mp, int o) { return o == QUEST ? op_prec(QUEST) >= mp : op_prec(o) > mp; }
static int want(int ctx, int o) /* may an operand of ctx (0: parenthesis, 13: unary) take in the operator o? */
{ int p = o == QUEST ? 2 : spec_prec(o); return ctx == 2 ? p >= 2 : p > ctx; }
static void context(int mp, int ctx)
{ int k, b = 1; for (k = 0; k < NBIN; k++) if (!accepts(mp, BIN[k][0]) != !want(ctx, BIN[k][0])) b = 0; if (!accepts(mp, QUEST) != !want(ctx, QUEST)) b = 0;
  VF_CHECK(b, "an operand extends as far as C's precedence and associativity let it"); }
static int truth(void) { return gV.u.uv != 0; }
static int shortc(void) { int o = TY(gAt); return o == LOR && truth() || o == LAND && !truth(); }
static int throw_ok(void)
{
  if (gPh == 0) { if (gA0 == gN) return 1; return !(TY(gA0) == LPAR || TY(gA0) == NUMBER || TY(gA0) == CHAR || isun(TY(gA0))); }
  if (gPh == 1) return gAt == gN || TY(gAt) != RPAR;
  if (gPh == 6) return gE == gN || TY(gE) != COLON;
  return 0;
}
static struct token_fifo gTf;
static int taken(void) { if (gAt >= gN) return 0; int o = TY(gAt); return (isbin(o) || o == QUEST) && accepts(gMp, o); }
static ppval E(struct token_fifo *tf, int mp, int de)
{
  ppval v = ndv(); unsigned long e; VF_CHECK(tf == &gTf && tf->t == gT && tf->nt == gN, "the same tokens");
  VF_CHECK(gPh == 0 || gPh == 2 || gPh == 3 || gPh == 6 || gPh == 5 || gPh == 7, "an operand is expected");
  if (gPh == 5 || gPh == 7) settle(tf->art - 1, gV);
  if (gPh == 0) {
    VF_CHECK(gN > gA0 && tf->art == gA0 + 1 && (TY(gA0) == LPAR || isun(TY(gA0))), "the first operand follows"); VF_CHECK(!de == !gDe, "and is evaluated");
    if (TY(gA0) == LPAR) { context(mp, 0); gPh = 1; } else { context(mp, 13); gPh = 4; gR = v; }
    VF_ASSUME(tf->art < gN); /* else it throws */
  } else if (gPh == 6) {
    VF_CHECK(gE < gN && TY(gE) == COLON && tf->art == gE + 1, "the operand after the colon"); context(mp, 2); VF_CHECK(!de == !(gDe && !gQ), "only the selected operand of ?: is evaluated"); gPh = 7; gR2 = v;
    VF_ASSUME(tf->art < gN);
  } else {
    VF_CHECK(gAt < gN && tf->art == gAt + 1 && taken(), "the right operand follows");
    if (TY(gAt) == QUEST) { gQ = truth(); context(mp, 0); VF_CHECK(!de == !(gDe && gQ), "only the selected operand of ?: is evaluated"); gPh = 6; }
    else { context(mp, spec_prec(TY(gAt))); VF_CHECK(!gDe ? !de : !de == shortc(), "&& and || evaluate their right operand only if it matters"); gPh = 5; }
    gR = v; VF_ASSUME(tf->art < gN);
  }
  VF_ASSUME(e > tf->art && e <= gN); tf->art = e; if (gPh == 1 || gPh == 4) gAt = e; else gE = e;
  if (gPh == 1) gV = v;
  return v;
}
static ppval OPUN(int op, ppval a) { VF_CHECK(gPh == 4 && op == TY(gA0) && same(a, gR), "the unary operator applies to its operand"); gV = ndv(); VF_ASSUME(op == LNOT ? gV.sign == 1 : gV.sign == a.sign); gPh = 3; return gV; }
static ppval OPBIN(int op, ppval a, ppval b)
{
  VF_CHECK(gDe, "operators that are not evaluated cannot fail"); VF_CHECK(gPh == 5 && op == TY(gAt) && same(a, gV) && same(b, gR), "the operator applies to its operands");
  gV = ndv(); VF_ASSUME(gV.sign == sign_of(op, a.sign, b.sign)); gAt = gE; gPh = 3; return gV;
}
static ppval CONSTV(char *s) { VF_CHECK(gPh == 0 && gA0 < gN && (TY(gA0) == NUMBER || TY(gA0) == CHAR) && s == gT[gA0].name, "the constant"); gV = ndv(); gAt = gA0 + 1; gPh = 3; return gV; }
static void settle(unsigned long art, ppval top)
{
  if (gPh == 1) { VF_CHECK(gAt < gN && TY(gAt) == RPAR, "parentheses match"); gAt++; gPh = 2; }
  else if (gPh == 5) { int o = TY(gAt); VF_CHECK(!gDe || shortc(), "the operator is evaluated");
    if (!gDe) { gV.sign = sign_of(o, gV.sign, gR.sign); } else { gV.sign = 1; gV.u.uv = o == LOR; } gAt = gE; gPh = 2; }
  else if (gPh == 7) { int s = gR.sign && gR2.sign; if (gDe) gV = gQ ? gR : gR2; gV.sign = s; gAt = gE; gPh = 2; }
  else if (gPh == 3) gPh = 2;
  VF_CHECK(gPh == 2, "the operand is complete"); VF_CHECK(art == gAt, "every token is taken once"); VF_CHECK(same(top, gV), "the value so far is that of the expression so far");
}
void harness(void)
{
  ppval r; { unsigned n, a; int d, m; gN = n; gA0 = a; gDe = d; gMp = m; } VF_ASSUME(gN < 0x100000 && gA0 <= gN);
  gT = VF_ALLOC(gN * sizeof *gT); gTf.t = gT; gTf.nt = gN; gTf.art = gA0; gPh = 0; gNerr = 0;
  r = eval_shrd(&gTf, gMp, gDe);
  settle(gTf.art, r);
  VF_CHECK(!taken(), "the expression extends as far as C's grammar lets it");
  VF_CHECK(gNerr == 0, "no message about a well-formed expression");
  VF_REACH("shrd");
}
#else
static int throw_ok(void) { return 0; }
#define MAXT 64
static struct token T[MAXT]; static int n, err; static char nm[MAXT][30];
typedef struct { Uq v; int s; } val;
static unsigned rnd(unsigned m) { VF_IN(unsigned, x); return x % m; }
static int put(int t) { if (n >= MAXT) { err = 2; return 0; } T[n].type = t; T[n].name = ""; return n++; }
static int bad0;
static int full(void) { return n > MAXT - 24; }
/* a random expression of the grammar whose loosest operator has precedence >= p, its C value when ev */
static val gen(int p, int d, int ev)
{
  val a, b, c; unsigned k = rnd(10);
  if (d <= 0 || full() || (p >= 13 && k < 5)) {
    static const Uq vs[] = { 0, 1, 2, 3, 7, 63, 0x7fffffff, 0x80000000u, 0x7fffffffffffffff, 0x8000000000000000u, ~0ull, 5 }; int t = put(NUMBER);
    a.v = vs[rnd(12)]; a.s = rnd(3) != 0; if ((S)a.v < 0) a.s = 0; sprintf(nm[t], "%llu%s", a.v, a.s ? "" : "u"); T[t].name = nm[t]; return a;
  }
  if (p >= 13) {
    if (k < 8) { put(LPAR); a = gen(1, d - 1, ev); put(RPAR); return a; }
    k = rnd(4); put(k == 0 ? LNOT : k == 1 ? NOT : k == 2 ? PLUS : MINUS); a = gen(13, d - 1, ev);
    if (k == 0) { a.v = !a.v; a.s = 1; } else if (k == 1) a.v = ~a.v; else if (k == 3) a.v = 0 - a.v; return a;
  }
  if (k < 4) return gen(p + 1, d, ev);
  if (p == 2) {
    a = gen(3, d - 1, ev); put(QUEST); b = gen(1, d - 1, ev && a.v); put(COLON); c = gen(2, d - 1, ev && !a.v);
    b.v = a.v ? b.v : c.v; b.s = b.s && c.s; return b;
  }
  a = gen(p, d - 1, ev);
  { int op, i, m = 0, s, e2; for (i = 0; i < NBIN; i++) m += BIN[i][1] == p; m = rnd(m); for (i = 0; i < NBIN; i++) if (BIN[i][1] == p && m-- == 0) break; op = BIN[i][0]; put(op);
    e2 = ev && !(op == LAND && !a.v) && !(op == LOR && a.v); b = gen(p + 1, d - 1, e2); s = a.s && b.s; c.v = 0; c.s = sign_of(op, a.s, b.s);
    switch (op) {
    case STAR: c.v = a.v * b.v; break;
    case SLASH: case PCT: if (!b.v || (s && b.v == ~0ull)) { if (ev) err = 2; c.v = 0; } else c.v = op == SLASH ? (s ? (S)a.v / (S)b.v : a.v / b.v) : (s ? (S)a.v % (S)b.v : a.v % b.v); break;
    case PLUS: c.v = a.v + b.v; break; case MINUS: c.v = a.v - b.v; break;
    case LSH: case RSH: if (ev && b.v > 63) err = 2; c.v = op == LSH ? a.v << (b.v & 63) : a.s ? (S)a.v >> (b.v & 63) : a.v >> (b.v & 63); break;
    case LT: c.v = s ? (S)a.v < (S)b.v : a.v < b.v; break; case LEQ: c.v = s ? (S)a.v <= (S)b.v : a.v <= b.v; break; case GT: c.v = s ? (S)a.v > (S)b.v : a.v > b.v; break; case GEQ: c.v = s ? (S)a.v >= (S)b.v : a.v >= b.v; break;
    case SAME: c.v = a.v == b.v; break; case NEQ: c.v = a.v != b.v; break; case AND: c.v = a.v & b.v; break; case CIRC: c.v = a.v ^ b.v; break; case OR: c.v = a.v | b.v; break;
    case LAND: c.v = a.v && b.v; break; case LOR: c.v = a.v || b.v; break; case COMMA: c.v = b.v; break;
    } return c; }
}
void harness(void)
{
  struct token_fifo f; val w; int ret = 9, miss; unsigned long r; ppval q; int i;
  n = 0; err = 0; w = gen(1, 5, 1); VF_ASSUME(!err);
  put(NUMBER); n--; VF_ASSUME(!err);
  miss = rnd(8) == 0 ? 1 + rnd(n) : 0; /* one token lost: only to be survived */
  if (miss) { for (i = miss - 1; i + 1 < n; i++) T[i] = T[i + 1]; n--; }
  f.t = T; f.nt = n; f.art = 0; gNerr = 0;
  if (__builtin_setjmp(jb)) { VF_CHECK(miss, "valid expressions are accepted"); return; }
  for (i = 0; i < n; i++) if ((T[i].type == PLUS || T[i].type == MINUS) && (i == 0 || (T[i - 1].type != NUMBER && T[i - 1].type != RPAR))) T[i].type = T[i].type == PLUS ? UPLUS : UMINUS;
  q = eval_shrd(&f, 0, 1);
  if (miss) return;
  VF_CHECK(f.art == n, "the whole expression is taken"); VF_CHECK(q.u.uv == w.v && !q.sign == !w.s, "the value and type of the expression are C's");
}
#endif
#elif defined EXPR
static int throw_ok(void) { return 0; }
static int spec(int prev, int first, int t) { int u = first || (prev != NUMBER && prev != NAME && prev != CHAR && prev != RPAR); return t == PLUS && u ? UPLUS : t == MINUS && u ? UMINUS : t; }
#ifndef VF_NATIVE
static int gPh; static ppval gV;
static ppval E(struct token_fifo *tf, int mp, int de)
{
  unsigned long e; ppval v; _Bool s; VF_CHECK(tf == &gTf && tf->t == gT && tf->nt == gN && tf->art == gA0 && gPh == 0, "all the tokens"); VF_CHECK(op_prec(COMMA) > mp && op_prec(QUEST) >= mp && de, "are evaluated"); gPh = 1;
  if (gW < gN) VF_CHECK(gT[gW].type == spec(gO0, gW == gA0, gO1), "+ and - are unary exactly where C's grammar says so");
  VF_ASSUME(e > gA0 && e <= gN); tf->art = e; v.sign = s; v.u.uv = ndq(); gV = v; VF_REACH("eval"); return v;
}
void harness(void)
{
  int ret = 9; unsigned long r; gNerr = gPh = 0; { unsigned n, a, w; int c; gN = n; gA0 = a; gW = w; gCatch = c; } VF_ASSUME(gN < 0x100000 && gA0 <= gN && gW >= gA0);
  gT = VF_ALLOC(gN * sizeof *gT); gTf.t = gT; gTf.nt = gN; gTf.art = gA0;
  if (gW < gN) { gO1 = gT[gW].type; gO0 = gW > gA0 ? gT[gW - 1].type : 0; VF_ASSUME(gO1 != UPLUS && gO1 != UMINUS && gO0 != UPLUS && gO0 != UMINUS); }
  r = ucpp_eval_expr(&gTf, &ret, 0);
  VF_CHECK(gCatch ? ret == 1 : gTf.art < gN ? ret == 1 && gNerr == 1 : ret == 0 && r == (gV.u.uv != 0), "the truth of the whole expression, or an error");
  VF_REACH("expr");
}
#else
void harness(void)
{ /* + and - among other tokens */
  static struct token T[12]; struct token_fifo f; int i, n, ret, o[12]; VF_IN(unsigned, k); n = 1 + k % 8;
  for (i = 0; i < n; i++) { VF_IN(unsigned, x); T[i].type = o[i] = (int[]){ NUMBER, PLUS, MINUS, LPAR, RPAR, CHAR, STAR, NAME, LNOT, COLON, QUEST, LSH }[x % 12]; T[i].name = o[i] == CHAR ? "'a'" : "1"; }
  f.t = T; f.nt = n; f.art = 0; if (__builtin_setjmp(jb)) { ret = 1; } else ucpp_eval_expr(&f, &ret, 0);
  for (i = 0; i < n; i++) VF_CHECK(T[i].type == spec(i ? o[i - 1] : 0, i == 0, o[i]), "+ and - are unary exactly where C's grammar says so");
}
#endif
#endif
