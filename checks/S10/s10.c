#include "vf.h"
#define R(f) f
#ifdef CTYPE
#include "all.h"
static int lower(int c) { return c >= 97 && c <= 122; }
static int upper(int c) { return c >= 65 && c <= 90; }
static int digit(int c) { return c >= 48 && c <= 57; }
static int graph(int c) { return c > 32 && c < 127; }
#define SAME(f, e) VF_CHECK((sc_##f(c) != 0) == ((e) != 0), #f " classifies as the C locale prescribes")
void harness(void)
{
  VF_IN(int, c);
#if VF_ISNATIVE
  c = (unsigned)c % 257 - 1;
#endif
  VF_ASSUME(c >= -1 && c <= 255);
  SAME(isalpha, lower(c) || upper(c)); SAME(isalnum, lower(c) || upper(c) || digit(c)); SAME(isdigit, digit(c));
  SAME(islower, lower(c)); SAME(isupper, upper(c)); SAME(isgraph, graph(c)); SAME(isprint, graph(c) || c == 32);
  SAME(ispunct, graph(c) && !lower(c) && !upper(c) && !digit(c)); SAME(iscntrl, (c >= 0 && c < 32) || c == 127);
  SAME(isblank, c == 32 || c == 9); SAME(isspace, c == 32 || (c >= 9 && c <= 13));
  SAME(isxdigit, digit(c) || (c >= 65 && c <= 70) || (c >= 97 && c <= 102));
  VF_CHECK(sc_tolower(c) == (upper(c) ? c + 32 : c), "tolower maps upper case letters only");
  VF_CHECK(sc_toupper(c) == (lower(c) ? c - 32 : c), "toupper maps lower case letters only");
  VF_REACH("ctype");
}
#else
#include "all.h"
#ifdef LDIV
#define sc_abs(n) ((n) < 0 ? -(n) : (n))
#define sc_labs sc_abs
#endif
#define MIN (-1 - (int)((unsigned)-1 / 2))
void harness(void)
{
  VF_IN(int, n); VF_IN(int, d);
  if (n != MIN) {
    int r = sc_abs(n);
    VF_CHECK(r >= 0 && (r == n || r == -n), "abs");
#ifndef INT16
    r = sc_labs(n);
    VF_CHECK(r >= 0 && (r == n || r == -n), "labs");
#endif
  }
  if (d != 0 && !(n == MIN && d == -1)) {
#ifdef LDIV
    ldiv_t q = sc_ldiv(n, d);
#else
    div_t q = sc_div(n, d);
#endif
    VF_CHECK(q.quot == n / d && q.rem == n % d, "truncating division");
  }
  VF_REACH("ints");
}
#endif
