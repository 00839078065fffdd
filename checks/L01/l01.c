#include "vf.h"
 
#include "smlrl.w.c"
typedef unsigned long long u64;
static int gMustErr; /* the contract demands (and allows) a diagnostic */
void error(const char *f, ...)
{
  VF_CHECK(gMustErr, "a supported relocation is rejected");
#ifdef VF_NATIVE
  vf_discard();
#else
  __CPROVER_assume(0);
#endif
}
#define SHT(n) (n)

/* ------------------------------------------------------------ one relocation */
static const char *gName; static uint32 gAddr; static int gAsked;
uint32 FindSymbolAddress(const char *n) /* contract: the address the named symbol is linked at (property L02) */
{
  VF_CHECK(n == gName, "the symbol looked up is the one the relocation names");
  gAsked = 1;
  return gAddr;
}
#ifdef RELOC
#ifdef VF_PROOF
static unsigned nd(void) { unsigned x; return x; }
#define N(v, lim) unsigned v = nd(); VF_ASSUME(v < (1u << 16))
#else
#define N(v, lim) VF_IN(unsigned, v); v %= lim
#endif
void harness(void)
{
  tElfMeta m; tElfSection *S; Elf32_Sym *Y; Elf32_Rel R; unsigned char b[8], o[8]; uint32 s, p, type, want; u64 i;
  VF_IN(uint32, off); VF_IN(uint32, fileOff); VF_IN(uint32, addr);
  N(nsect, 5); N(nsym, 5); N(ss, 5); N(str, 5); N(sym, 5); N(tsect, 5);
  VF_IN(unsigned char, info); VF_IN(uint32, outofs); VF_IN(uint32, val); VF_IN(unsigned, nm); VF_IN(unsigned char, rt); VF_IN(_Bool, verb); VF_IN(unsigned, strsz);
#if VF_ISNATIVE
  { static const uint32 T[] = { 1, 2, 20, 21, 7, 0, 20, 21 }; strsz = 20000; nsect = 5; nsym = 5; nm %= 9; ss &= 3; str = (ss + 1 + str % 4) % 5; if (rt & 7) type = T[rt & 7]; else type = rt; rt = type; if (info & 0x80) info = info & 1 ? 0x13 : info & 2 ? 0x10 : info & 4 ? 3 : 0; }
  verb = 0;
#endif
  VF_ASSUME(nsect > 0 && ss < nsect && str < nsect && str != ss && tsect < nsect && nsym > 0 && sym < nsym && nm < 0x10000);
  VF_ASSUME(strsz > nm && strsz <= 0x10000);
  S = VF_ALLOC(nsect * sizeof *S); Y = VF_ALLOC(nsym * sizeof *Y);
#ifndef VF_PROOF
  for (i = 0; i < nsect * sizeof *S; i++) ((char *)S)[i] = 0;
#endif
  m.pSections = S; m.pSectNames = VF_ALLOC(strsz);
  gAddr = addr; verbose = verb;
  R.r_info = sym * 256 + rt; type = rt;
  S[ss].d.pSym = Y; S[ss].h.sh_link = str; S[ss].h.sh_info = 0;
  S[str].d.pStr = VF_ALLOC(strsz);
  VF_IN(unsigned, sn); S[tsect].h.sh_name = VF_ISNATIVE ? sn % strsz : sn; VF_ASSUME(S[tsect].h.sh_name < strsz);
  S[tsect].OutOffset = outofs;
  Y[sym].st_info = info; Y[sym].st_value = val; Y[sym].st_name = nm; Y[sym].st_shndx = tsect;
  gName = S[str].d.pStr + nm;
  { tElfSection rs; rs.h.sh_link = ss; rs.h.sh_type = 9;
  gMustErr = type != 1 && type != 2 && type != 20 && type != 21;
  s = 0;
  if (sym) {
    if ((info & 15) == 3) s = outofs;
    else if (info >> 4 == 1 && nm) s = addr;
    else if (info >> 4 == 0) s = outofs + val;
    else gMustErr = 1;
  }
  for (i = 0; i < 8; i++) { VF_SET(unsigned char, b[i], "b"); o[i] = b[i]; }
  Relocate(&m, &rs, &R, b + 2, off, fileOff); }
  VF_CHECK(!gMustErr, "an unsupported relocation is rejected");
  p = type == 2 || type == 21 ? off : 0;
  want = o[2] + o[3] * 256u + o[4] * 65536u + o[5] * 16777216u + s - p;
  if (type == 1 || type == 2) VF_CHECK(b[2] + b[3] * 256u + b[4] * 65536u + b[5] * 16777216u == want, "a 32-bit field receives addend + symbol (- place)");
  else VF_CHECK(b[2] + b[3] * 256u == (want & 0xffff) && b[4] == o[4] && b[5] == o[5], "a 16-bit field receives addend + symbol (- place)");
  VF_CHECK(b[0] == o[0] && b[1] == o[1] && b[6] == o[6] && b[7] == o[7], "no byte outside the field changes");
  VF_CHECK(gAsked == (sym && (info & 15) != 3 && info >> 4 == 1 && nm), "global symbols are looked up by name");
  VF_REACH("Relocate");
}
#endif

/* ------------------------------------------------------------ a section's relocations, streamed */
#ifdef STREAM
#ifdef VF_PROOF
void stub_Fread(void *p, size_t n, FILE *f)
{
  if (!gBuf) gBuf = p;
  VF_CHECK(f == gIn && SO(p, gBuf) && PO(p) == gRead - gWritten && n <= gT - gRead && PO(p) + n <= __CPROVER_OBJECT_SIZE(p), "reads the next bytes of the section behind those in the buffer");
  if (gK >= gRead && gK - gRead < n) { gCur = nd(); ((unsigned char *)p)[gK - gRead] = gCur; }
  gRead += n;
}
void stub_Fwrite(const void *p, size_t n, FILE *f)
{
  VF_CHECK(f == gOutF && SO(p, gBuf) && PO(p) == 0 && n <= gRead - gWritten, "writes the buffered bytes in order");
  VF_CHECK(gSeq >= gCnt || gRels[gSeq].r_offset >= gWritten + n, "no byte is written before it is relocated");
  if (gK >= gWritten && gK - gWritten < n) gOut = ((unsigned char *)p)[gK - gWritten];
  gWritten += n;
}
void stub_Relocate(tElfMeta *pMeta, tElfSection *pRelSect, Elf32_Rel *pRel, unsigned char *buf, uint32 off, uint32 fileOff)
{
  uint32 o = gRels[gSeq].r_offset;
  VF_CHECK(gSeq < gCnt && pRel == gRels + gSeq, "each relocation is applied once, in order");
  VF_CHECK(SO(buf, gBuf) && PO(buf) == o - gWritten && o >= gWritten && o + WIDTH(gSeq) <= gRead, "at its own field, which is in the buffer completely");
  VF_CHECK(off == o + gOutOfs, "with its own address");
  if (gK >= o && gK - o < WIDTH(gSeq)) { gCur = nd(); buf[gK - o] = gCur; }
  gSeq++;
}
void *memcpy(void *d, const void *s, size_t n)
{
  VF_CHECK(SO(d, gBuf) && PO(d) == 0 && SO(s, gBuf) && n <= 3 && PO(s) + n <= __CPROVER_OBJECT_SIZE(s), "the unwritten tail moves to the front");
  if (n > 0) ((char *)d)[0] = ((const char *)s)[0];
  if (n > 1) ((char *)d)[1] = ((const char *)s)[1];
  if (n > 2) ((char *)d)[2] = ((const char *)s)[2];
  return d;
}
void harness(void)
{
  tElfMeta m; uint32 has = nd() & 1, size = nd(), ns = nd(); tElfSection *S; VF_ASSUME(ns >= 3 && ns < 0x10000); S = VF_ALLOC(ns * sizeof *S);
  gT = size; gK = nd(); gCnt = nd(); gOutOfs = nd(); gFileOfs = nd();
  VF_ASSUME(gT < 0x40000000 && gK < gT && gCnt < 0x10000);
  gRels = VF_ALLOC((gCnt + 1) * sizeof *gRels);
  if (!has) gCnt = 0;
  m.pSections = S; S[1].h.sh_info = 2; S[1].h.sh_entsize = gCnt; S[1].d.pRel = gRels; S[2].OutOffset = gOutOfs; S[2].OutFileOffset = gFileOfs;
  verbose = 0;
  vf_inst(REL(0));
  RelocateAndWriteSection(gOutF, gIn, size, &m, has ? &S[1] : 0);
  VF_CHECK(gRead == gT && gWritten == gT, "the whole section is copied");
  VF_CHECK(gSeq == gCnt, "every relocation is applied");
  VF_CHECK(gOut == gCur, "each byte is written as read and relocated");
  VF_REACH("stream");
}
#else
static unsigned char in[4200], want[4200], got[4200]; static unsigned T, rd, wr;
void stub_Fread(void *p, size_t n, FILE *f) { VF_CHECK(rd + n <= T, "reads within the section"); memcpy(p, in + rd, n); rd += n; }
void stub_Fwrite(const void *p, size_t n, FILE *f) { VF_CHECK(wr + n <= T, "writes within the section"); memcpy(got + wr, p, n); wr += n; }
void harness(void)
{
  tElfMeta m; tElfSection S[3]; static Elf32_Rel r[64]; unsigned i, o = 0, n = 0;
  VF_IN(unsigned, size); VF_IN(unsigned, seed); VF_IN(uint32, out); VF_IN(unsigned, mode);
  rd = wr = 0;
  if (mode & 1) size = 1024 * (size % 5) + (size >> 20) % 9 - 4;
  T = size % 4100;
  memset(S, 0, sizeof S);
  for (i = 0; i < T; i++) { seed = seed * 1103515245 + 12345; in[i] = want[i] = seed >> 16; }
  if (mode & 2) for (i = 0; i < 40; i++) {
    static const uint32 TY[] = { 1, 2, 20, 21 }; uint32 t, w, v;
    seed = seed * 1103515245 + 12345;
    t = TY[seed >> 28 & 3]; w = t < 3 ? 4 : 2;
    o += (seed >> 16 & 7) ? (seed >> 20) % 9 : (seed >> 18) % 700;
    if ((mode & 4) && o < 1020 && (seed & 0x10000)) o = 1019 + (seed >> 20 & 7);
    if (o + w > T) break;
    r[n].r_offset = o; r[n].r_info = t; n++;
    v = want[o] + want[o + 1] * 256u; if (w == 4) v += want[o + 2] * 65536u + want[o + 3] * 16777216u;
    if (t == 2 || t == 21) v -= o + out;
    want[o] = v; want[o + 1] = v >> 8; if (w == 4) { want[o + 2] = v >> 16; want[o + 3] = v >> 24; }
    o += w;
  }
  m.pSections = S; S[1].h.sh_info = 2; S[1].h.sh_link = 0; S[1].h.sh_entsize = n; S[1].d.pRel = r; S[2].OutOffset = out;
  RelocateAndWriteSection((FILE *)2000, (FILE *)1000, T, &m, mode & 2 ? &S[1] : 0);
  VF_CHECK(rd == T && wr == T, "the whole section is copied");
  VF_CHECK(!memcmp(got, want, T), "each byte is written as read and relocated");
}
#endif
#endif
