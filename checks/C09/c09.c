#include "vf.h"
#include "smlrc.w.c"
#include "smlrc.m.h"
static int gErr, gMay;
void error(char *f, ...)
{
  VF_CHECK(gMay, "a local object that fits is rejected");
#ifdef VF_NATIVE
  vf_discard();
#else
  __CPROVER_assume(0);
#endif
}
void warning(char *f, ...) { }
void harness(void)
{
  VF_IN(int, ofs); VF_IN(int, min); VF_IN(unsigned, size); VF_IN(unsigned char, fmt); VF_IN(unsigned char, huge); int r; long long lim, want;
#ifdef VF_NATIVE
  if (fmt & 64) { ofs = -(ofs & 0x7fff); size = size & 0x7fff; } else if (fmt & 128) size = 0x80000000u - (size & 255) + ofs;
#endif
  SizeOfWord = SOW; OutputFormat = SOW == 2 ? FormatSegmented : huge & 1 ? 0 : FormatSegHuge;
  lim = SOW == 4 && OutputFormat == 0 ? 0x7fffffffll : 0x7fffll;
  ofs = -(int)((unsigned)ofs % ((unsigned)lim + 1) / SOW * SOW);
  VF_ASSUME(min <= ofs && min >= -lim && size > 0);
  CurFxnLocalOfs = ofs; CurFxnMinLocalOfs = min;
  want = (long long)ofs - size; gMay = want - (SOW - 1) < -lim; gErr = 0;
  r = AllocLocal(size);
  VF_CHECK(r < 0 && r >= -lim, "inside the frame the target can address");
  VF_CHECK((long long)r + size <= ofs, "does not overlap any object allocated before");
  VF_CHECK(r % SOW == 0, "word aligned");
  VF_CHECK(r == CurFxnLocalOfs, "the next object goes below this one");
  VF_CHECK(CurFxnMinLocalOfs <= r && CurFxnMinLocalOfs <= min, "the frame reserved covers the object");
  VF_CHECK(CurFxnMinLocalOfs == min || CurFxnMinLocalOfs == r, "and nothing more");
  VF_REACH("allocated");
}
