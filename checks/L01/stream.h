static unsigned nd(void) { unsigned x; return x; }
static uint32 gT, gRead, gWritten, gSeq, gCnt, gK, gOutOfs, gFileOfs; static unsigned char gCur, gOut; static Elf32_Rel *gRels; static unsigned char *gBase;
static unsigned char *gBuf; static uint32 gBufSize;
static FILE *const gIn = (FILE *)1000, *const gOutF = (FILE *)2000;
#define WIDTH(i) ((gRels[i].r_info & 0xff) == 1 || (gRels[i].r_info & 0xff) == 2 ? 4u : 2u)
#define REL(i) ((i) >= gCnt || (gRels[i].r_offset <= gT && gRels[i].r_offset + WIDTH(i) <= gT))
#define SORTED(i) ((i) + 1 >= gCnt || gRels[i].r_offset <= gRels[(i) + 1].r_offset)
#define INB (gK >= gWritten && gK < gRead ? gBuf[gK - gWritten] == gCur : gK >= gWritten || gOut == gCur)
