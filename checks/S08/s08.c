#include "vf.h"
#include "all.h"
typedef unsigned long long u64; typedef long long s64;
#define JOIN(p) (((u64)(p)[1] << 16) | (p)[0])
#define SGN(v) ((s64)((v) ^ 0x80000000u) - 0x80000000ll)
void harness(void)
{
  unsigned short a[4], b[4], i; u64 x, y;
  VF_IN(int, n); VF_IN(unsigned short, g);
#if VF_ISNATIVE
  VF_IN(unsigned, same);
#endif
  for (i = 0; i < 4; i++) { VF_SET(unsigned short, a[i], "a"); VF_SET(unsigned short, b[i], "b"); }
#if VF_ISNATIVE
  if (same & 1) a[1] = b[1]; if (same & 2) a[0] = b[0]; if (same & 4) a[1] ^= 0x8000; if (same & 8) a[0] = -1; if (same & 16) b[0] = 0; if (same & 32) b[1] = 0x7fff; if (same & 64) a[1] = -1;
#endif
  a[2] = a[3] = b[2] = b[3] = g;
  x = JOIN(a); y = JOIN(b);
  VF_CHECK((sc___lngEq(a, b) != 0) == (x == y), "equality");
  VF_CHECK((sc___lngUnsignedLess(a, b) != 0) == (x < y), "unsigned comparison");
  VF_CHECK((sc___lngSignedLess(a, b) != 0) == (SGN(x) < SGN(y)), "signed comparison");
  VF_CHECK((sc___lngLessThan0(a) != 0) == (SGN(x) < 0), "sign test");
  VF_CHECK(JOIN(a) == x && JOIN(b) == y, "comparisons leave the operands alone");
#ifdef INT16
  VF_CHECK((unsigned short)sc___lngToSigned(a) == a[0] && sc___lngToUnsigned(a) == a[0], "conversion to int keeps the low word");
#else
  VF_CHECK((unsigned)sc___lngToSigned(a) == (unsigned)x && sc___lngToUnsigned(a) == (unsigned)x, "conversion to int");
#endif
  sc___lngAdd(a, b);
  VF_CHECK(JOIN(a) == ((x + y) & 0xffffffffu) && JOIN(b) == y, "addition");
  sc___lngSub(a, b);
  VF_CHECK(JOIN(a) == x && JOIN(b) == y, "subtraction undoes addition");
  sc___lngSub(a, b);
  VF_CHECK(JOIN(a) == ((x - y) & 0xffffffffu) && JOIN(b) == y, "subtraction");
  sc___lngFromSigned(b, n);
  VF_CHECK(SGN(JOIN(b)) == n, "conversion from int");
  sc___lngFromUnsigned(b, (unsigned)n);
  VF_CHECK(JOIN(b) == (unsigned)n, "conversion from unsigned");
  VF_CHECK(a[2] == g && a[3] == g && b[2] == g && b[3] == g, "neighbouring memory is untouched");
  VF_REACH("lng");
}
