#include "vf.h"
#include "smlrc.w.c"
#include "smlrc.m.h"

/* ---- stubs: diagnostics ---- */
static int vf_warned;
void error(char *f, ...)
{
  VF_CHECK(0, "a valid constant expression is rejected with an error");
#ifdef VF_NATIVE
  vf_fail("error");
#else
  __CPROVER_assume(0);
#endif
}
void warning(char *f, ...) { vf_warned = 1; }
#ifndef VF_NATIVE
/* libc: only whole-object moves inside the expression stack occur here */
void *memmove(void *d, const void *s, size_t n)
{
  /* the offsets within the stack, then plain element moves: CBMC misreads a two-dimensional
     array through a pointer to int with a symbolic offset */
  size_t x = PO(d) / sizeof stack[0], y = PO(s) / sizeof stack[0], i, k = n / sizeof stack[0];
  __CPROVER_assert(SO(d, stack) && SO(s, stack) && n % sizeof stack[0] == 0, "moves whole stack entries");
  if (n > sizeof stack) { __CPROVER_assert(0, "move within the stack"); __CPROVER_assume(0); }
  if (x < y) for (i = 0; i < k; i++) { stack[x + i][0] = stack[y + i][0]; stack[x + i][1] = stack[y + i][1]; }
  else for (i = k; i > 0; i--) { stack[x + i - 1][0] = stack[y + i - 1][0]; stack[x + i - 1][1] = stack[y + i - 1][1]; }
  return d;
}
#endif

#ifndef VF_NATIVE
void *memcpy(void *d, const void *s, size_t n)
{
  size_t i;
  if (n == 4) *(unsigned *)d = *(const unsigned *)s;
  else for (i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
  return d;
}
#endif

/* ---- types: positions in the syntax table ---- */
#define T_INT 1
#define T_UINT 2
#define T_FLOAT 4
#define T_CHAR 10
#define T_SCHAR 11
#define T_UCHAR 12
#define T_SHORT 13
#define T_USHORT 14
#define T_CAST 16 /* first cast declaration: identifier, type */

static int W; /* bits in int */

static void init(int sow)
{
  SizeOfWord = sow; W = sow * 8;
  SyntaxStackCnt = 0;
#define PS(t) SyntaxStack0[SyntaxStackCnt++] = (t)
  PS(tokVoid); PS(tokInt); PS(tokUnsigned); PS(tokInt); PS(tokFloat);
  PS(tokIdent); PS('['); PS(tokNumUint); PS(']'); PS(tokChar);
  PS(tokChar); PS(tokSChar); PS(tokUChar); PS(tokShort); PS(tokUShort); PS('*');
  vf_warned = 0;
}

static unsigned truncW(unsigned v) { return W == 16 ? (v & 0xFFFFu) : v; }
static int signW(unsigned v) { return W == 16 ? (int)(short)v : (int)v; }

/* ---- operands: what the induction hypothesis gives for a constant subexpression ---- */
struct opnd { int k, type, val, begin, nc; /* nc: not a constant, left as it is */ };
static struct opnd opnds[4];
static int nopnd, cur;

/* the recursive call under its contract: the constant subexpression that ends at *idx is
   collapsed into one number token */
int exprval(int *idx, int *ty, int *con)
{
  struct opnd *o;
  int j, b = 0, k, v;
  VF_CHECK(cur < nopnd, "every operand is evaluated once");
  o = &opnds[cur++];
  b = stack[*idx][0] == tok_Bool; /* implicit conversion of the operands of && and || */
  k = o->k + b;
  v = o->val;
  *ty = o->type;
  if (o->nc) {
    VF_CHECK(*idx - k + 1 == o->begin, "operand regions are consumed right to left");
    *idx -= k; *con = 0;
    return v; /* meaningless */
  }
  if (b) { v = SyntaxStack0[*ty] == tokFloat ? (v & 0x7fffffff) != 0 : truncW(v) != 0; *ty = T_INT; }
  VF_CHECK(*idx - k + 1 == o->begin, "operand regions are consumed right to left");
  j = *idx - k + 1;
  stack[j][0] = (SyntaxStack0[*ty] == tokUnsigned) ? tokNumUint : tokNumInt;
  stack[j][1] = v;
  for (j++; j + k - 1 < sp; j++) { stack[j][0] = stack[j + k - 1][0]; stack[j][1] = stack[j + k - 1][1]; }
  sp -= k - 1;
  *idx -= k;
  *con = 1;
  return v;
}

static int is_unsigned(int t) { return SyntaxStack0[t] == tokUnsigned; }
/* an arbitrary value of type t */
static int narrow(int t, int v)
{
  switch (SyntaxStack0[t]) {
  case tokChar: return CharIsSigned ? (signed char)v : (unsigned char)v;
  case tokSChar: return (signed char)v;
  case tokUChar: return (unsigned char)v;
  case tokShort: return (short)v;
  case tokUShort: return (unsigned short)v;
  }
  return v;
}
static int npre, ntail;

/* stack: npre marker tokens, operands (rightmost evaluated first), the operator, ntail marker tokens */
static void build(int op, int opv, int n, const int *k, const int *ty, const int *val)
{
  int i, j, p = npre;
  sp = 0;
  for (i = 0; i < npre; i++) { stack[sp][0] = 'N'; stack[sp++][1] = 1000 + i; }
  for (i = 0; i < n; i++)
  {
    opnds[n - 1 - i].k = k[i]; opnds[n - 1 - i].type = ty[i]; opnds[n - 1 - i].val = val[i]; opnds[n - 1 - i].begin = sp; opnds[n - 1 - i].nc = 0;
    for (j = 0; j < k[i]; j++) { stack[sp][0] = '+'; stack[sp++][1] = 7; }
  }
  stack[sp][0] = op; stack[sp++][1] = opv;
  for (i = 0; i < ntail; i++) { stack[sp][0] = 'N'; stack[sp++][1] = 2000 + i; }
  nopnd = n; cur = 0;
}

static int run(int *idx, int *ty, int *con, int *v)
{
  int i;
  *idx = sp - ntail - 1;
  *con = 5;
  *v = real_exprval(idx, ty, con);
  return *con;
}

static void frame(int idx, int ty, int con, int v, int isint)
{
  int i;
  if (con) {
    VF_CHECK(sp == npre + 1 + ntail, "a folded constant leaves exactly one token");
    VF_CHECK(stack[npre][0] == tokNumInt || stack[npre][0] == tokNumUint, "a folded constant is a number token");
    if (isint) VF_CHECK(truncW(stack[npre][1]) == truncW(v), "the emitted token carries the value");
    else VF_CHECK(stack[npre][1] == v, "the emitted token carries the value");
  }
  VF_CHECK(idx == npre - 1, "the whole subexpression is consumed");
  for (i = 0; i < npre; i++) VF_CHECK(stack[i][0] == 'N' && stack[i][1] == 1000 + i, "tokens before it are untouched");
  for (i = 0; i < ntail; i++) VF_CHECK(stack[sp - ntail + i][0] == 'N' && stack[sp - ntail + i][1] == 2000 + i, "tokens after it are untouched");
}

/* ---- the C semantics, written over W-bit two's complement ---- */
static int promoted(int t) { return is_unsigned(t) ? T_UINT : T_INT; }
static int arith(int t1, int t2) { return (is_unsigned(t1) || is_unsigned(t2)) ? T_UINT : T_INT; }

static int def; /* does C define the value */
static unsigned spec2(int op, int t1, int t2, int v1, int v2, int *rt)
{
  int u = is_unsigned(t1) || is_unsigned(t2);
  unsigned a = truncW(v1), b = truncW(v2), r = 0;
  int sa = signW(v1), sb = signW(v2);
  def = 1;
  *rt = u ? T_UINT : T_INT;
  switch (op) {
  case '+': r = a + b; break;
  case '-': r = a - b; break;
  case '*': r = a * b; break;
  case '&': r = a & b; break;
  case '|': r = a | b; break;
  case '^': r = a ^ b; break;
  case '/':
    if (b == 0 || (!u && sb == -1 && a == (W == 16 ? 0x8000u : 0x80000000u))) { def = 0; break; }
    r = u ? a / b : (unsigned)(sa / sb); break;
  case '%':
    if (b == 0 || (!u && sb == -1 && a == (W == 16 ? 0x8000u : 0x80000000u))) { def = 0; break; }
    r = u ? a % b : (unsigned)(sa % sb); break;
  case tokLShift: case tokRShift:
    *rt = promoted(t1);
    if (is_unsigned(t2) ? b >= (unsigned)W : (sb < 0 || sb >= W)) { def = 0; break; }
    if (op == tokLShift) r = a << b;
    else if (is_unsigned(t1)) r = a >> b;
    else r = (unsigned)(sa >> b);
    break;
  case '<': r = u ? a < b : sa < sb; goto cmp;
  case '>': r = u ? a > b : sa > sb; goto cmp;
  case tokLEQ: r = u ? a <= b : sa <= sb; goto cmp;
  case tokGEQ: r = u ? a >= b : sa >= sb; goto cmp;
  case tokEQ: r = a == b; goto cmp;
  case tokNEQ: r = a != b; goto cmp;
  case tokLogAnd: r = a != 0 && b != 0; goto cmp;
  case tokLogOr: r = a != 0 || b != 0; goto cmp;
  cmp: *rt = T_INT; break;
  case tokComma: r = v2; *rt = t2; break;
  }
  return r;
}

static const int types[] = { T_INT, T_UINT, T_CHAR, T_SCHAR, T_UCHAR, T_SHORT, T_USHORT };
#define NT 7
static int okty(int t) { return W == 32 || (t != T_SHORT && t != T_USHORT); }

#ifndef VF_ISNATIVE
#define VF_ISNATIVE 0
#endif

static int anyty(void) { VF_IN(unsigned, t); VF_ASSUME(t < NT && okty(types[t])); return types[t]; }
static void binop(int op, int t1, int t2, int k1, int k2)
{
  int k[2], ty[2], v[2], idx, rt, con, r, et; unsigned e;
  VF_IN(int, a); VF_IN(int, b);
  a = narrow(t1, a); b = narrow(t2, b);
  k[0] = k1; k[1] = k2; ty[0] = t1; ty[1] = t2; v[0] = a; v[1] = b;
  build(op, 0, 2, k, ty, v);
  run(&idx, &rt, &con, &r);
  e = spec2(op, t1, t2, a, b, &et);
  if (op == tokComma) e = b;
  if (def) VF_CHECK(con == 1, "an operation on constants is a constant");
  else if (op == '/' || op == '%') VF_CHECK(con == 0, "an undefined division is not folded");
  if (def) {
    VF_CHECK(con != 1 || truncW(r) == truncW(e), "the folded value is the C value");
    VF_CHECK(con != 1 || !(SyntaxStack0[rt] != tokInt && SyntaxStack0[rt] != tokUnsigned) || r == (int)e, "the folded value is the C value (narrow type)");
  }
  VF_CHECK(rt >= 0 && SyntaxStack0[rt] == SyntaxStack0[et], "the type is the C type");
  frame(idx, rt, con, r, 1);
}

#ifndef OPS
#define OPS '+'
#endif
static const int ops[] = { OPS };
#define NOPS (int)(sizeof ops / sizeof ops[0])

void h_bin(void)
{
  int o, i, j;
  init(SOW);
  npre = 1; ntail = 1;
  for (o = 0; o < NOPS; o++)
    for (i = TLO; i < THI; i++)
      for (j = 0; j < NT; j++)
        if (okty(types[i]) && okty(types[j])) { SyntaxStackCnt = 16; binop(ops[o], types[i], types[j], 1, 1); }
  VF_REACH("binary operators");
}

/* shapes: operand regions of different lengths, different surroundings */
void h_shape(void)
{
  int o, i, j, p, t;
  init(SOW);
  for (o = 0; o < NOPS; o++)
    for (i = 1; i <= 3; i += 2)
      for (j = 1; j <= 3; j += 2)
        for (p = 0; p < 2; p++) { npre = p * 2; ntail = 2 - p * 2; SyntaxStackCnt = 16; binop(ops[o], T_INT, T_UINT, i, j); }
  VF_REACH("shapes");
}

/* unary: + - ~ ! (! x is parsed as x == 0), _Bool conversion, sizeof */
static void unop(int op, int t1, int k1)
{
  int k[1], ty[1], v[1], idx, rt, con, r, et; unsigned e;
  VF_IN(int, a);
  a = narrow(t1, a);
  k[0] = k1; ty[0] = t1; v[0] = a;
  build(op, 0, 1, k, ty, v);
  run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1, "a unary operation on a constant is a constant");
  et = promoted(t1);
  e = op == '~' ? ~(unsigned)a : op == tokUnaryMinus ? 0u - (unsigned)a : (unsigned)a;
  if (op == tok_Bool) { e = truncW(a) != 0; et = T_INT; }
  VF_CHECK(truncW(r) == truncW(e), "the folded value is the C value");
  VF_CHECK(SyntaxStack0[rt] == SyntaxStack0[et], "the type is the C type");
  frame(idx, rt, con, r, 1);
}

void h_un(void)
{
  int i, s; static const int u[] = { '~', tokUnaryPlus, tokUnaryMinus, tok_Bool }; int o;
  init(SOW);
  for (s = 0; s < 2; s++) {
  npre = s; ntail = 1 - s;
  for (o = 0; o < 4; o++)
    for (i = 0; i < NT; i++)
      if (okty(types[i])) unop(u[o], types[i], 1 + 2 * s);
  }
  VF_REACH("unary operators");
}

/* leaf: number tokens */
void h_leaf(void)
{
  int idx, rt, con, r;
  VF_IN(int, a);
  init(SOW);
  npre = 1; ntail = 1;
  build(tokNumInt, a, 0, 0, 0, 0); run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1 && r == a && SyntaxStack0[rt] == tokInt, "an int literal has its value and type int");
  frame(idx, rt, con, r, 1);
  build(tokNumUint, a, 0, 0, 0, 0); run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1 && r == a && SyntaxStack0[rt] == tokUnsigned, "an unsigned literal has its value and type");
  frame(idx, rt, con, r, 1);
  build(tokNumFloat, a, 0, 0, 0, 0); run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1 && r == a && SyntaxStack0[rt] == tokFloat, "a float literal has its bits and type");
  frame(idx, rt, con, r, 1);
  build(tokNumCharWide, a, 0, 0, 0, 0); run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1 && r == a && rt == SymWideCharSynPtr, "a wide character literal has its value and type wchar_t");
  frame(idx, rt, con, r, 1);
  VF_REACH("leaf");
}

/* ?: */
static void cond(int tc, int t1, int t2, int k1, int k2, int k3)
{
  int k[3], ty[3], v[3], idx, rt, con, r, et; unsigned e;
  VF_IN(int, c); VF_IN(int, a); VF_IN(int, b);
  c = narrow(tc, c); a = narrow(t1, a); b = narrow(t2, b);
  /* on the stack: condition, third operand, second operand */
  k[0] = k1; k[1] = k2; k[2] = k3; ty[0] = tc; ty[1] = t2; ty[2] = t1; v[0] = c; v[1] = b; v[2] = a;
  build('?', 0, 3, k, ty, v);
  run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1, "a conditional expression on constants is a constant");
  e = truncW(c) ? a : b;
  VF_CHECK(truncW(r) == truncW(e), "the folded value is the C value");
  VF_CHECK(SyntaxStack0[rt] == SyntaxStack0[arith(t1, t2)], "the type is the C type");
  frame(idx, rt, con, r, 1);
}

void h_cond(void)
{
  int i, j, s;
  init(SOW);
  for (s = 0; s < 2; s++) {
    npre = 1 - s; ntail = s;
    for (i = 0; i < NT; i++) for (j = 0; j < NT; j++) if (okty(types[i]) && okty(types[j]))
      cond(types[(i + j) % 3], types[i], types[j], 1 + s, 1 + 2 * s, 2);
  }
  VF_REACH("conditional operator");
}

/* casts: the identifier "(something.." is declared with the target type */
static void cast(int from, int to, int k1)
{
  int k[1], ty[1], v[1], idx, rt, con, r; int e;
  VF_IN(int, a);
  a = narrow(from, a);
  SyntaxStackCnt = 16;
  SyntaxStack1[SyntaxStackCnt] = 20; PS(tokIdent); PS(SyntaxStack0[to]);
  strcpy(IdentTable + 20, "(something1)");
  k[0] = k1; ty[0] = from; v[0] = a;
  build(tokIdent, 20, 1, k, ty, v);
  run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1, "a cast of a constant to an integer type is a constant");
  switch (SyntaxStack0[to]) {
  case tokChar: case tokSChar: e = (signed char)a; if (to == T_CHAR && !CharIsSigned) e = (unsigned char)a; break;
  case tokUChar: e = (unsigned char)a; break;
  case tokShort: e = (short)a; break;
  case tokUShort: e = (unsigned short)a; break;
  default: e = a;
  }
  if (to == T_INT || to == T_UINT) VF_CHECK(truncW(r) == truncW(e), "the folded value is the C value");
  else VF_CHECK(r == e, "the folded value is the C value");
  VF_CHECK(SyntaxStack0[rt] == SyntaxStack0[to], "the type is the cast type");
  frame(idx, rt, con, r, 1);
}

void h_cast(void)
{
  int i, j, s;
  init(SOW);
  CharIsSigned = UCH ? 0 : 1;
  for (s = 0; s < 2; s++) {
    npre = 1 - s; ntail = s;
    for (i = 0; i < NT; i++) for (j = 0; j < NT; j++) if (okty(types[i]) && okty(types[j]))
      cast(types[i], types[j], 1 + s);
  }
  VF_REACH("casts");
}

/* short circuit: 0 && f() and 1 || f() are constants although f() is not; otherwise not a constant */
void h_short(void)
{
  int o, s, k[2] = { 1, 3 }, ty[2] = { T_INT, T_UINT }, v[2], idx, rt, con, r;
  init(SOW);
  for (s = 0; s < 2; s++) for (o = 0; o < 4; o++) {
    VF_IN(int, a); VF_IN(int, b);
    npre = s; ntail = 1 - s; v[0] = a; v[1] = b;
    build((o & 1) ? tokLogAnd : tokLogOr, 0, 2, k, ty, v);
    opnds[(o & 2) ? 1 : 0].nc = 1; /* left or right operand is not a constant */
    run(&idx, &rt, &con, &r);
    if (!(o & 2) && (truncW(a) != 0) == !(o & 1)) {
      VF_CHECK(con == 1 && r == !(o & 1), "a constant left operand that decides the result makes a constant");
      frame(idx, rt, con, r, 1);
    } else VF_CHECK(con == 0, "a result that depends on a non-constant operand is not a constant");
    VF_CHECK(idx == npre - 1 && SyntaxStack0[rt] == tokInt, "type int");
  }
  VF_REACH("short circuit");
}

/* constant condition, non-constant arms: exactly the selected arm's tokens remain */
void h_condnc(void)
{
  int s, i, q, k[3] = { 1, 2, 3 }, ty[3], v[3], idx, rt, con, r, w;
  init(SOW);
  /* the condition's truth value for all constants is h_cond's business */
  static const int cs[] = { 0, 1, -1, 0x10000 };
  for (s = 0; s < 2; s++) for (q = 0; q < 4; q++) {
    int c = cs[q]; w = truncW(c) != 0;
    npre = s; ntail = 1 - s; v[0] = c; v[1] = 5; v[2] = 6; ty[0] = T_INT; ty[1] = T_INT; ty[2] = T_UINT;
    build('?', 0, 3, k, ty, v);
    for (i = 0; i < 3; i++) { if (i < 2) stack[npre + 1 + i][1] = 30 + i; stack[npre + 3 + i][1] = 40 + i; }
    opnds[0].nc = opnds[1].nc = 1;
    run(&idx, &rt, &con, &r);
    VF_CHECK(con == 0, "not a constant");
    VF_CHECK(SyntaxStack0[rt] == tokUnsigned, "the type is the C type");
    if (w) VF_CHECK(sp == npre + 3 + ntail && stack[npre][1] == 40 && stack[npre + 1][1] == 41 && stack[npre + 2][1] == 42, "the selected arm remains");
    else VF_CHECK(sp == npre + 2 + ntail && stack[npre][1] == 30 && stack[npre + 1][1] == 31, "the selected arm remains");
    for (i = npre; i < sp - ntail; i++) VF_CHECK(stack[i][0] == '+', "the selected arm remains (tokens)");
    frame(idx, rt, con, r, 1);
  }
  VF_REACH("conditional with non-constant arms");
}

void h_trunc(void)
{
  VF_IN(int, v); VF_IN(int, w);
  SizeOfWord = 2; W = 16;
  VF_CHECK(truncUint(v) == truncW(v) && truncInt(v) == signW(v), "16-bit truncation");
  SizeOfWord = 4; W = 32;
  VF_CHECK(truncUint(v) == (unsigned)v && truncInt(v) == v, "32-bit truncation");
  VF_REACH("truncation");
}
