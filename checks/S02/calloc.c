#include "vf.h"
static void *stub_malloc(unsigned n); static void *stub_memset(void *d, int c, unsigned n);
#include "all.h"
static unsigned mreq, mcnt, sp, sn, sc, scnt; static _Bool mfail;
static void *stub_malloc(unsigned n) { mcnt++; mreq = n; return mfail ? 0 : (void *)0x1230; }
static void *stub_memset(void *d, int c, unsigned n) { scnt++; sp = (unsigned)d; sc = c; sn = n; return d; }
void harness(void)
{
  VF_IN(unsigned, a); VF_IN(unsigned, b); VF_IN(unsigned char, f); void *p;
#if VF_ISNATIVE
  unsigned long long w;
  if (f & 2) b = 0xffffffffu / (a | 1) + (b % 3) - 1;
  w = (unsigned long long)a * b;
#define BITS 32
#else
  unsigned long w = (unsigned long)a * b;
#define BITS 16
#endif
  mfail = f & 1; mcnt = scnt = 0;
  p = sc_calloc(a, b);
  VF_CHECK(!p || (mreq == (unsigned)w && (w >> BITS) == 0 && w != 0), "exactly the product is allocated, never its remainder");
  VF_CHECK(!p || (sp == 0x1230 && sc == 0 && sn == mreq && scnt == 1), "and cleared");
  VF_CHECK(p || mfail || w == 0 || (w >> BITS) != 0, "only a failed allocation makes it fail");
  VF_CHECK(p || scnt == 0, "nothing is cleared on failure");
  VF_REACH("calloc");
}
