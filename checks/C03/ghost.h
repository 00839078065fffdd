/* What the characters consumed so far mean as a C constant, tracked character by character
   from the C grammar, independent of the compiler. */
typedef unsigned long long u64;
#define SAT 0x1000000000ull       /* 2^36 = 8^12 */
#define NDIG 112                  /* digits of a floating constant that count (documented limit) */
int gB;                           /* base */
int gPh;                          /* phase: 0 leading zeros, 1 digits, 2 fraction, 4 e, 5 sign, 6 exponent, 7 integer suffix, 8 float suffix, 9 done, 99 not part of a constant */
int gC;                           /* characters consumed */
int gDot, gBadOct, gU, gL, gSl;   /* a dot, a digit 8 or 9, suffix u, suffix l, suffix letters */
u64 gTot;                         /* value of the digits, saturated */
#ifdef VF_NATIVE
u64 gVn[NDIG + 2];
#define V(i) gVn[i]
#define DEFV(i, x) (gVn[i] = (x))
#else
u64 __CPROVER_uninterpreted_val(int);
#define V(i) __CPROVER_uninterpreted_val(i)   /* value of the first i significant digits, saturated; each is defined when its last digit is consumed */
#define DEFV(i, x) __CPROVER_assume(V(i) == (x))
#endif
int gN;                           /* significant digits stored, at most NDIG */
int gW, gDw;                      /* witness: the gW-th significant digit */
long long gX;                     /* power of ten of the last stored digit */
long long gE; int gEc, gEs;       /* exponent: absolute value, digits, sign */
int gHd;                          /* hexadecimal digits */
static int hexd(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static int isd(int c) { return c >= '0' && c <= '9'; }
static u64 step(u64 v, int d) { v = (gB == 8 ? v * 8 : gB == 10 ? v * 10 : v * 16) + d; return v > SAT ? SAT : v; }
/* lower bound of a number of k significant digits, k >= 1: 8^(k-1) */
static u64 low(int k) { return k >= 13 ? SAT : 1ull << 3 * (k - 1); }
#define INV_INT (gPh == 1 || gPh == 0) && gN >= 0 && gN <= NDIG && V(0) == 0 && gTot <= SAT && gX >= 0 && gX <= gC && gC >= 0 && gC < 0x20000000 && (gN > 0 ? gPh == 1 && gTot >= low(gN) : gPh == 0 && gTot == 0 && gX == 0) && (gN < NDIG ? gX == 0 && gTot == V(gN) : V(gN) == SAT && gTot == SAT) \
   && (gW >= gN || gDw >= 0 && gDw <= 9) && (gW >= gN || gDw < 8 || gBadOct)
#define WIT (gW >= gN || ConstDigits[gW] == gDw)
#define INV_FLT (gPh == 1 || gPh == 0) && gN >= 0 && gN <= NDIG && gX >= 0 && gX <= gC && gC >= 0 && gC < 0x20000000 && (gN > 0 ? gPh == 1 : gPh == 0 && gX == 0) && (gW >= gN || gDw >= 0 && gDw <= 9)
#ifdef FLT
#define INV_I INV_FLT
#else
#define INV_I INV_INT
#endif
