#define SOW 4
#define UCH 0
#define TLO 0
#define THI 1
#include "../C01/c01.c"

static float b2f(unsigned b) { float f; memcpy(&f, &b, sizeof f); return f; }
static unsigned f2b(float f) { unsigned b; memcpy(&b, &f, sizeof b); return b; }
static int isnan_(unsigned b) { return (b & 0x7fffffff) > 0x7f800000; }
/* same float: same bits, or both not a number */
static int same(unsigned a, unsigned b) { return a == b || (isnan_(a) && isnan_(b)); }

/* the value of an operand as a float */
static float valf(int t, int v)
{
  if (SyntaxStack0[t] == tokFloat) return b2f(v);
  if (is_unsigned(t)) return (float)(unsigned)v;
  return (float)v;
}

/* the arithmetic primitives under their contracts (each is proved by prim_*) */
unsigned real_fadd(unsigned, unsigned), real_fsub(unsigned, unsigned), real_fmul(unsigned, unsigned), real_fdiv(unsigned, unsigned);
static int gcalls, gop; static unsigned ga, gb, gr;
#ifdef VF_NATIVE
#define STUB(f, o) unsigned f(unsigned a, unsigned b) { return real_##f(a, b); }
#else
static unsigned ndu_(void) { unsigned x; return x; }
#define STUB(f, o) unsigned f(unsigned a, unsigned b) { gcalls++; gop = o; ga = a; gb = b; gr = ndu_(); return gr; }
#endif
STUB(fadd, '+') STUB(fsub, '-') STUB(fmul, '*') STUB(fdiv, '/')

static const int ft[] = { T_INT, T_UINT, T_CHAR, T_USHORT };

static void fbin(int op, int t1, int t2, int k1, int k2)
{
  int k[2], ty[2], v[2], idx, rt, con, r, iscmp = 1; float x, y, z; int c = 0;
  VF_IN(int, a); VF_IN(int, b);
  a = narrow(t1, a); b = narrow(t2, b);
  k[0] = k1; k[1] = k2; ty[0] = t1; ty[1] = t2; v[0] = a; v[1] = b;
  build(op, 0, 2, k, ty, v);
  gcalls = 0;
  run(&idx, &rt, &con, &r);
  x = valf(t1, a); y = valf(t2, b);
  VF_CHECK(con == 1, "an operation on float constants is a constant");
  switch (op) {
#ifdef VF_NATIVE
  case '+': z = x + y; iscmp = 0; break;
  case '-': z = x - y; iscmp = 0; break;
  case '*': z = x * y; iscmp = 0; break;
  case '/': z = x / y; iscmp = 0; break;
#else
  case '+': case '*':
    VF_CHECK(gcalls == 1 && gop == op && ((same(ga, f2b(x)) && same(gb, f2b(y))) || (same(gb, f2b(x)) && same(ga, f2b(y)))), "the converted operands are added or multiplied");
    z = b2f(gr); iscmp = 0; break;
  case '-': case '/':
    VF_CHECK(gcalls == 1 && gop == op && same(ga, f2b(x)) && same(gb, f2b(y)), "the converted operands are subtracted or divided in order");
    z = b2f(gr); iscmp = 0; break;
#endif
  case '<': c = x < y; break;
  case '>': c = x > y; break;
  case tokLEQ: c = x <= y; break;
  case tokGEQ: c = x >= y; break;
  case tokEQ: c = x == y; break;
  case tokNEQ: c = x != y; break;
  case tokLogAnd: c = x != 0 && y != 0; break;
  case tokLogOr: c = x != 0 || y != 0; break;
  }
  if (iscmp) {
    VF_CHECK(r == c, "the comparison has the C value");
    VF_CHECK(SyntaxStack0[rt] == tokInt, "a comparison has type int");
  } else {
    VF_CHECK(same(r, f2b(z)), "the folded value is the IEEE single precision value");
    VF_CHECK(SyntaxStack0[rt] == tokFloat, "the type is float");
  }
  frame(idx, rt, con, r, 0);
}

void h_fbin(void)
{
  int o, j;
  init(4);
  for (o = 0; o < NOPS; o++) {
    npre = 1; ntail = 1;
    fbin(ops[o], T_FLOAT, T_FLOAT, 1, 1);
    npre = 0; ntail = 2;
    fbin(ops[o], T_FLOAT, T_FLOAT, 2, 3);
    npre = 1; ntail = 1;
    for (j = 0; j < 4; j++) { fbin(ops[o], T_FLOAT, ft[j], 1, 1); fbin(ops[o], ft[j], T_FLOAT, 1, 2); }
  }
  VF_REACH("float binary operators");
}

static void bool_(int t);
void h_fun(void)
{
  int k[1] = { 2 }, ty[1] = { T_FLOAT }, v[1], idx, rt, con, r, s, o;
  static const int u[] = { tokUnaryPlus, tokUnaryMinus, tok_Bool };
  init(4);
  for (s = 0; s < 2; s++) for (o = 0; o < 3; o++) {
    VF_IN(int, a);
    npre = s; ntail = 1 - s; v[0] = a;
    build(u[o], 0, 1, k, ty, v);
    run(&idx, &rt, &con, &r);
    VF_CHECK(con == 1, "a unary operation on a float constant is a constant");
    if (u[o] == tokUnaryPlus) VF_CHECK(same(r, a), "+x is x");
    if (u[o] == tokUnaryMinus) VF_CHECK(same(r, a ^ 0x80000000), "-x is x with the other sign");
    if (u[o] == tok_Bool) VF_CHECK(r == (b2f(a) != 0), "the truth value of x is x != 0");
    VF_CHECK(SyntaxStack0[rt] == (u[o] == tok_Bool ? tokInt : tokFloat), "the type is the C type");
    frame(idx, rt, con, r, 0);
  }
  VF_REACH("float unary operators");
}

/* casts */
static void fcast(int from, int to, int k1)
{
  int k[1], ty[1], v[1], idx, rt, con, r, def = 1; int e = 0; float x;
  VF_IN(int, a);
  a = narrow(from, a);
  SyntaxStackCnt = 16;
  SyntaxStack1[SyntaxStackCnt] = 20; PS(tokIdent); PS(SyntaxStack0[to]);
  strcpy(IdentTable + 20, "(something1)");
  k[0] = k1; ty[0] = from; v[0] = a;
  build(tokIdent, 20, 1, k, ty, v);
  run(&idx, &rt, &con, &r);
  x = valf(from, a);
  VF_CHECK(con == 1, "a cast of a constant to an arithmetic type is a constant");
  switch (SyntaxStack0[to]) {
  case tokFloat: VF_CHECK(same(r, f2b(x)), "a cast to float rounds to nearest"); goto done;
  case tokChar: def = x > -129.0f && x < 128.0f; if (def) e = (signed char)(int)x; break;
  case tokSChar: def = x > -129.0f && x < 128.0f; if (def) e = (signed char)(int)x; break;
  case tokUChar: def = x > -1.0f && x < 256.0f; if (def) e = (unsigned char)(int)x; break;
  case tokShort: def = x > -32769.0f && x < 32768.0f; if (def) e = (short)(int)x; break;
  case tokUShort: def = x > -1.0f && x < 65536.0f; if (def) e = (unsigned short)(int)x; break;
  case tokInt: def = x >= -2147483648.0f && x < 2147483648.0f; if (def) e = (int)x; break;
  case tokUnsigned: def = x > -1.0f && x < 4294967296.0f; if (def) e = (unsigned)(long long)x; break;
  }
  if (def) VF_CHECK(r == e, "a cast from float truncates toward zero");
  else VF_CHECK(vf_warned, "a cast that does not fit draws a warning");
done:
  VF_CHECK(SyntaxStack0[rt] == SyntaxStack0[to], "the type is the cast type");
  frame(idx, rt, con, r, 0);
}

void h_fcast(void)
{
  int j;
  init(4); CharIsSigned = 1;
  npre = 1; ntail = 1;
  for (j = 0; j < NT; j++) { vf_warned = 0; fcast(T_FLOAT, types[j], 1 + j % 2); fcast(types[j], T_FLOAT, 1); }
  fcast(T_FLOAT, T_FLOAT, 1);
  VF_REACH("float casts");
}

/* ?: with float arms or a float condition */
static void fcond(int tc, int t1, int t2)
{
  int k[3] = { 1, 2, 1 }, ty[3], v[3], idx, rt, con, r, w;
  VF_IN(int, c); VF_IN(int, a); VF_IN(int, b);
  c = narrow(tc, c); a = narrow(t1, a); b = narrow(t2, b);
  ty[0] = tc; ty[1] = t2; ty[2] = t1; v[0] = c; v[1] = b; v[2] = a;
  build('?', 0, 3, k, ty, v);
  run(&idx, &rt, &con, &r);
  VF_CHECK(con == 1, "a conditional expression on constants is a constant");
  w = valf(tc, c) != 0;
  if (t1 == T_FLOAT || t2 == T_FLOAT) {
    VF_CHECK(same(r, f2b(w ? valf(t1, a) : valf(t2, b))), "the selected operand converted to float");
    VF_CHECK(SyntaxStack0[rt] == tokFloat, "the type is float");
  } else VF_CHECK(r == (w ? a : b), "the selected operand");
  frame(idx, rt, con, r, 0);
}

void h_fcond(void)
{
  int j;
  init(4); npre = 1; ntail = 1;
  fcond(T_FLOAT, T_INT, T_INT);
  fcond(T_INT, T_FLOAT, T_FLOAT);
  for (j = 0; j < 4; j++) { fcond(T_INT, T_FLOAT, ft[j]); fcond(T_FLOAT, ft[j], T_FLOAT); }
  VF_REACH("conditional operator with floats");
}

/* initialization and argument passing convert constants the same way: '=' */
/* the primitives themselves, on every pair of bit patterns */
#ifdef PRIM
void h_prim(void)
{
  VF_IN(unsigned, a); VF_IN(unsigned, b); VF_IN(int, n);
  float x = b2f(a), y = b2f(b);
  SizeOfWord = 4;
  PRIM
  VF_REACH("primitive");
}
#endif
