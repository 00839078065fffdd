#include "vf.h"
/* Boundary-tag heap.  Offsets are bytes from the (aligned) memory object gM; a block is the offset of its header. */
#ifdef VF_PROOF
 static unsigned gTop; static unsigned gS, gT0, gN; static unsigned gSize, gX;
static unsigned gW;
extern unsigned __heap_start, __heap_stop;
static unsigned gBase;
/* addresses: the heap lies anywhere in an aligned 16 MB region (no carry, so that they are cheap) */
#define AD(o) (gBase | (o))
#define OF(a) ((unsigned)(a) & 0xffffff)
#define MINE(a) (((unsigned)(a) & 0xff000000) == gBase)
/* Memory.  Every word access is a cell: its value is that of the latest earlier cell with the same address, or arbitrary.
   Cells are numbered statically (harness before, code, harness after), so that no array theory is needed. */
#define NC 200
#define CODE0 70
#define POST0 120
static unsigned ca[NC], cv[NC]; static _Bool cu[NC]; static int gC, gE; static unsigned ea[NC]; static _Bool ev[NC], eu[NC];
static unsigned vf_ndu(void); static _Bool nb(void) { _Bool x; return x; }
static unsigned *acc(unsigned o, int k)
{
  unsigned v = vf_ndu(); int j;
  __CPROVER_assert(!cu[k], "unwinding: every access is executed once");
  for (j = 0; j < k; j++) if (cu[j] && ca[j] == o) v = cv[j];
  ca[k] = o; cv[k] = v; cu[k] = 1;
  return &cv[k];
}
static unsigned MW(unsigned o) { return *acc(o, gC++); }
/* is there a block at o in the initial heap: an arbitrary set */
static _Bool gB(unsigned o)
{
  _Bool v = nb(); int j;
  for (j = 0; j < gE; j++) if (eu[j] && ea[j] == o) v = ev[j];
  ea[gE] = o; ev[gE] = v; eu[gE] = 1; gE++;
  return v;
}
/* the word accesses p[i] of the allocator, rewritten mechanically: the address must be a word of the heap */
static unsigned *hw(unsigned a, int k) { VF_CHECK(MINE(a) && (OF(a) & 3) == 0 && OF(a) >= gS && OF(a) < gTop, "the allocator only touches words of the heap"); return acc(OF(a), CODE0 + k); }
#define HW(p, i) (*hw((unsigned)(p) + (unsigned)(i) * 4, __COUNTER__))
#define INR(w) ((w) >= gS && (w) < gT0 && (((w) - gS) & 15) == 0)
/* a block of the initial heap, loaded once */
typedef struct { unsigned a, sz, n, foot; _Bool is, fr, isn; } BLK;
static BLK load(unsigned a)
{
  BLK b; _Bool g = gB(a);
  b.a = a; b.is = g && INR(a); b.sz = MW(a); b.fr = MW(a + 4) == 0; b.n = a + 16 + b.sz; b.foot = MW(b.n - 4); g = gB(b.n); b.isn = g && INR(b.n);
  return b;
}
/* the heap invariant: a block's size is a multiple of the granule, it ends where the heap ends or the next block begins, its footer
   repeats its size, no two neighbours are both free */
#define WF(b) (!b.is || ((b.sz & 15) == 0 && b.a <= gT0 - 16 && b.sz <= gT0 - 16 - b.a && b.foot == b.sz && (b.n == gT0 || b.isn)))
#define MERGED(b, c) (!(b.is && b.n != gT0 && c.is && b.fr && c.fr))
static BLK inst(unsigned a) { BLK b = load(a); vf_inst(WF(b)); return b; }
static BLK next(BLK b) { BLK c = inst(b.n); vf_inst(MERGED(b, c)); return c; }
/* every block but the first begins where another ends */
static BLK prev(BLK b)
{
  unsigned f = MW(b.a - 4); _Bool h = b.is && b.a != gS; BLK c = inst(b.a - 16 - f);
  vf_inst(!h || (f <= b.a - 16 - gS && c.is && c.sz == f && c.n == b.a && !(b.fr && c.fr)));
  return c;
}
static BLK bX, bCur, bNx, bLast;
#define SEEN(q) (!bX.is || gX >= (q) || !bX.fr || bX.sz < gSize)
/* malloc's search: blk is a block or the end of the heap, no earlier block would do; last is its predecessor */
static _Bool cutm(void *blk, void *last, int haslast)
{
  _Bool g = gB(OF(blk)), r = __heap_start == AD(gS) && __heap_stop == AD(gT0) && MINE(blk) && ((g && INR(OF(blk))) || OF(blk) == gT0) && SEEN(OF(blk));
  if (haslast) { BLK k = load(OF(last)); r = r && MINE(last) && (OF(blk) == gS ? OF(last) == gS : k.is && k.n == OF(blk)); }
  return r;
}
static void curm(void *blk, void *last, int haslast)
{
  bCur = inst(OF(blk)); bNx = next(bCur); vf_inst(!bCur.is || !bX.is || gX <= bCur.a || gX >= bCur.n);
  if (haslast) bLast = inst(OF(last));
#ifdef MCASE
  { unsigned r = (gSize + 15) & -16u; _Bool fit = bCur.is && bCur.fr && bCur.sz >= r;
    vf_inst(MCASE == 0 ? fit && bCur.sz == r : MCASE == 1 ? fit && bCur.sz != r : MCASE == 2 ? bCur.is && !fit : MCASE == 3 ? !bCur.is && bLast.fr : !bCur.is && !bLast.fr); }
#endif
}
static void *stub_malloc(unsigned n); static void stub_free(void *p); static void *stub_memcpy(void *d, const void *s, unsigned n); static int stub_init(void); static void *stub_sbrk(int inc); static unsigned stub_brk(unsigned); static void *stub_memset(void *, int, unsigned);
#else
#define HW(p, i) (p)[i]
#define stub_init init
#define stub_malloc sc_malloc
#define stub_free sc_free
#define stub_memcpy nmemcpy
static void *nmemcpy(void *d, const void *s, unsigned n) { char *p = d; const char *q = s; while (n--) *p++ = *q++; return d; }
void *sc_malloc(unsigned); void sc_free(void *);
#endif
#define VF_ASM(x)
#ifndef VF_PROOF
#define VF_STATIC static __attribute__((section("vfst")))
extern unsigned char __start_vfst[], __stop_vfst[]; static unsigned char snap[64]; static int snapped;
static void vf_reset(void) { unsigned i, n = __stop_vfst - __start_vfst; for (i = 0; i < n && i < 64; i++) if (snapped) __start_vfst[i] = snap[i]; else snap[i] = __start_vfst[i]; snapped = 1; }
static unsigned char mem[1 << 16] __attribute__((aligned(4096))); static unsigned brk_, lim, low;
static char *nat_brk(char *p) { if (!p) return (char *)mem + brk_; if ((unsigned char *)p < mem + low || (unsigned char *)p > mem + lim) return (char *)mem + brk_; brk_ = (unsigned char *)p - mem; return p; }
#endif
#include "all.h"
#ifdef VF_PROOF
#ifndef LIM
#define LIM 0x7fff00u
#endif
static unsigned nd(void) { unsigned x; return x; }
static unsigned oV;
/* an arbitrary heap; gX: an arbitrary block; gW: an arbitrary word */
static void heap(void)
{
  int i; _Bool g;
  gBase = nd(); gN = nd(); VF_ASSUME((gBase & 0xffffff) == 0 && gN >= 32 && gN <= LIM && (gN & 3) == 0);
  gS = nd(); gT0 = nd(); VF_ASSUME((gS & 15) == 8 && (gT0 & 15) == 8 && gS < gT0 && gT0 - gS >= 16 && gT0 <= gN);
  gTop = gT0; gC = gE = 0;
  for (i = 0; i < NC; i++) cu[i] = eu[i] = 0;
  __heap_start = AD(gS); __heap_stop = AD(gT0);
  g = gB(gS); VF_ASSUME(g);
  gX = nd(); gW = nd(); VF_ASSUME((gW & 3) == 0 && gW < LIM); oV = MW(gW);
}
/* after the call: [r, e) is tiled by block r and, if room is left, by one free block */
static void tiled(unsigned r, unsigned e, _Bool live, _Bool nextfree)
{
  unsigned s, f, k, m, ms, mf, mk, v;
  gC = POST0;
  s = MW(r); f = MW(r + 4); m = r + 16 + s; k = MW(m - 4); ms = MW(m); mf = MW(m + 4); mk = MW(e - 4); v = MW(gW);
  VF_CHECK((s & 15) == 0 && s <= LIM && m <= e, "the block ends inside the area that was free or its own");
  VF_CHECK(k == s, "its footer repeats its size");
  VF_CHECK((f != 0) == live, "it is marked as live or free as it should");
  if (m != e) {
    VF_CHECK(live, "one free block remains: neighbours are merged");
    VF_CHECK(m + 16 <= e && ms == e - 16 - m, "the rest becomes one block");
    VF_CHECK(mk == ms, "whose footer repeats its size");
    VF_CHECK(mf == 0, "and which is free again");
    VF_CHECK(!nextfree, "free neighbours are merged");
  }
  VF_CHECK((gW >= r && gW < e) || v == oV, "nothing outside the block changes: other live blocks and their contents are untouched");
}
#endif

#ifndef VF_PROOF
/* native: random histories against a model */
#ifndef _LINUXH
void *__dpmi_heap_start, *__dpmi_heap_stop;
#endif
#define NB 24
static unsigned char *ptr[NB]; static unsigned len[NB]; static unsigned char tag[NB];
static void check(int i) { unsigned j; for (j = 0; j < len[i]; j++) if (ptr[i][j] != (unsigned char)(tag[i] + j)) vf_fail("another live block and its contents are untouched"); }
static void fill(int i) { unsigned j; for (j = 0; j < len[i]; j++) ptr[i][j] = tag[i] + j; }
static void fresh(int i, unsigned char *p, unsigned n)
{
  int j; unsigned char *e = mem + brk_;
  if (!p) return;
  VF_CHECK(((unsigned)p & 15) == 0, "suitably aligned");
  VF_CHECK(p >= mem && p <= e && n <= (unsigned)(e - p), "inside the heap and large enough");
  for (j = 0; j < NB; j++) if (j != i && ptr[j]) VF_CHECK(p + n <= ptr[j] || p >= ptr[j] + len[j], "disjoint from every live block");
}
void harness(void)
{
  VF_IN(unsigned char, steps); VF_IN(unsigned char, big); VF_IN(unsigned char, mis); int s, i; unsigned n; unsigned char *p;
  __heap_start = __heap_stop = 0;
#ifdef _LINUXH
  brk_ = low = mis % 40; CurBreak = 0;
#else
  brk_ = 0x8000;
#endif
  lim = 0x8000;
  for (i = 0; i < NB; i++) ptr[i] = 0;
  vf_reset();
#ifndef _LINUXH
  __dpmi_heap_start = mem + mis % 40; __dpmi_heap_stop = mem + 0x8000 - mis % 7;
#endif
  for (s = 0; s < steps % 60; s++) {
    unsigned char op, w; unsigned sz; VF_SET(unsigned char, op, "op"); VF_SET(unsigned char, w, "w"); VF_SET(unsigned, sz, "sz");
    i = w % NB; n = sz % (sz & 0x80000000 ? 70 : big & 1 ? 9000 : 900); if (op % 32 == 31) n = -(sz % 40000);
    if (op % 3 == 0 || (op % 3 == 1 && !ptr[i])) {
      if (ptr[i]) { check(i); sc_free(ptr[i]); ptr[i] = 0; }
      p = sc_malloc(n);
      if (!n) VF_CHECK(!p, "an empty request yields nothing");
      fresh(i, p, n); ptr[i] = p; len[i] = n; tag[i] = s * 16 + i; if (p) fill(i);
    } else if (op % 3 == 1) {
      unsigned o = len[i], j;
      p = sc_realloc(ptr[i], n);
      if (p) {
        fresh(i, p, n);
        for (j = 0; j < o && j < n; j++) VF_CHECK(p[j] == (unsigned char)(tag[i] + j), "contents are preserved up to the smaller size");
        ptr[i] = p; len[i] = n; fill(i);
      }
    } else { sc_free(ptr[i]); ptr[i] = 0; }
    for (i = 0; i < NB; i++) if (ptr[i]) check(i);
  }
  for (i = 0; i < NB; i++) { sc_free(ptr[i]); ptr[i] = 0; }
  p = sc_malloc(15000); if (p) { sc_free(p); p = sc_malloc(0x6000); VF_CHECK(p != 0, "released memory is merged and becomes available again"); }
}
#elif defined(MALLOC)
static int stub_init(void) { __heap_start = AD(gS); __heap_stop = AD(gT0); return 0; }
#ifdef _LINUXH
static void *stub_sbrk(int inc)
{
  VF_CHECK(inc >= 0, "the heap is only ever grown");
  VF_ASSUME(inc >= 0);
  if ((nd() & 1) || (unsigned)inc > gN - gT0) return (void *)-1;
  gTop = gT0 + inc; return (void *)AD(gT0);
}
#endif
void harness(void)
{
  void *p; unsigned req = nd(), b, e, s, T; 
  heap(); gSize = req; bX = inst(gX);
  p = sc_malloc(req);
  gC = POST0 - 2; s = MW(gW);
  if (!p) {
    VF_CHECK(s == oV && __heap_stop == AD(gT0), "a failed allocation changes nothing");
    VF_CHECK(!req || req > -16u || SEEN(gT0), "a free block of sufficient size is never overlooked");
    VF_REACH("failure");
    return;
  }
  VF_CHECK(req > 0, "an empty request yields nothing");
  VF_CHECK(MINE(p), "inside the heap");
  b = OF(p) - 8; T = OF(__heap_stop);
  gC = POST0 - 1; s = MW(b);
  VF_CHECK(s >= req, "at least as large as requested");
  VF_CHECK(MINE(__heap_stop) && __heap_start == AD(gS) && T == gTop, "the heap end is what the system granted");
  if (T == gT0) {
    VF_CHECK(b == bCur.a && bCur.is && bCur.fr, "the block returned was free");
    e = bCur.n;
#if MCASE < 2
    VF_REACH("malloc");
#endif
  } else {
#ifdef _LINUXH
    VF_CHECK(b == gT0 || (b == bLast.a && bLast.is && bLast.fr && bLast.n == gT0), "the block returned is new or was free");
#endif
    VF_CHECK(b != gT0 || !bLast.fr, "a free last block is extended");
    e = T;
#if MCASE > 2 && defined(_LINUXH)
    VF_REACH("grown");
#endif
    VF_CHECK(b + 16 + s == e, "the heap grows by what is needed");
  }
  VF_CHECK(b + 16 + s <= e, "inside the heap");
  tiled(b, e, 1, bNx.is && bNx.fr && T == gT0);
}
#elif defined(FREE)
void harness(void)
{
  unsigned b = nd(), r, e; BLK k, p, n;
  heap(); k = inst(b); VF_ASSUME(k.is && !k.fr); p = prev(k); n = next(k);
  r = b != gS && p.fr ? p.a : b; e = k.n != gT0 && n.fr ? n.n : k.n;
  VF_ASSUME((CASE & 1) == (b != gS && p.fr) && (CASE >> 1) == (k.n != gT0 && n.fr));
  sc_free((void *)AD(b + 8));
  VF_CHECK(__heap_start == AD(gS) && __heap_stop == AD(gT0), "the heap keeps its ends");
  tiled(r, e, 0, 0);
  gC = 0;
  VF_REACH("free");
}
#elif defined(REALLOC)
static unsigned mreq, mb, msz, fcnt, fptr, ccnt, cn; static _Bool mfail;
static void *stub_malloc(unsigned n) { mreq = n; return mfail ? 0 : (void *)AD(mb + 8); }
static void *stub_memcpy(void *d, const void *s, unsigned n) { ccnt++; cn = n; VF_CHECK((unsigned)d == AD(mb + 8) && (unsigned)s == fptr && !fcnt, "the contents go from the old to the new block before the old is released"); return d; }
static void stub_free(void *p) { fcnt++; VF_CHECK((unsigned)p == fptr, "the old block is released"); }
void harness(void)
{
  unsigned b = nd(), req = nd(), e, nsz, s, v; BLK k, n; void *q;
  heap(); k = inst(b); VF_ASSUME(k.is && !k.fr); n = next(k);
  mb = nd(); mfail = nb(); mreq = fcnt = ccnt = 0; fptr = AD(b + 8); VF_ASSUME((mb & 15) == 8 && mb < LIM && mb != b);
  q = sc_realloc((void *)fptr, req);
  if (!q) {
    gC = POST0 - 2; v = MW(gW);
    VF_CHECK(v == oV && !fcnt && !ccnt && __heap_stop == AD(gT0), "failure changes nothing");
    VF_CHECK(!req || req > -16u || mfail, "only a failed allocation makes it fail");
    VF_REACH("failure");
    return;
  }
  VF_CHECK(req > 0, "an empty request yields nothing");
  VF_CHECK(__heap_start == AD(gS) && __heap_stop == AD(gT0), "the heap keeps its ends");
  if ((unsigned)q == fptr) {
    VF_CHECK(!mreq && !fcnt, "resized in place");
    gC = POST0 - 2; s = MW(b); v = MW(gW);
    VF_CHECK(s >= req, "at least as large as requested");
    VF_CHECK(gW < b + 8 || gW >= b + 8 + (req < k.sz ? req : k.sz) || v == oV, "contents are preserved up to the smaller size");
    e = s == k.sz || k.n == gT0 || !n.fr ? k.n : n.n;
    tiled(b, e, 1, k.n != gT0 && n.fr && s != k.sz && e == k.n);
    VF_REACH("in place");
  } else {
    gC = POST0 - 2; v = MW(gW);
    VF_CHECK((unsigned)q == AD(mb + 8) && mreq >= req && !mfail, "moved to a new block of sufficient size");
    VF_CHECK(ccnt == 1 && cn >= (req < k.sz ? req : k.sz) && cn <= k.sz && cn <= mreq, "contents are preserved up to the smaller size, nothing beyond either block is touched");
    VF_CHECK(fcnt == 1 && v == oV, "the old block is released once");
    VF_REACH("moved");
  }
}
#elif defined(INIT)
static unsigned brk0; static int nsbrk;
static void *stub_sbrk(int inc)
{
  nsbrk++;
  if (nb()) return (void *)-1;
  VF_CHECK(inc >= 0, "the heap is only ever grown"); VF_ASSUME((unsigned)inc <= gN - gTop);
  gTop += inc; return (void *)AD(gTop - inc);
}
void harness(void)
{
  int i, r; unsigned s, e, a, b, c, d, lo, hi;
  for (i = 0; i < NC; i++) cu[i] = 0;
  gC = 0; gBase = nd(); gN = LIM; brk0 = nd(); nsbrk = 0; VF_ASSUME((gBase & 0xffffff) == 0 && gBase && brk0 >= 16 && brk0 < LIM - 64);
  gS = lo = brk0; gTop = hi = brk0;
#ifndef _LINUXH
  hi = nd(); VF_ASSUME(hi > lo && hi < LIM); gTop = hi; __dpmi_heap_start = (void *)AD(lo); __dpmi_heap_stop = (void *)AD(hi);
#endif
  r = init();
#ifndef _LINUXH
  if (hi - lo >= 64) VF_CHECK(r == 0, "a heap of sufficient size is accepted");
#endif
  if (r) { VF_REACH("no heap"); return; }
  s = OF(__heap_start); e = OF(__heap_stop); gC = POST0;
  VF_CHECK(MINE(__heap_start) && MINE(__heap_stop) && s >= lo && e <= gTop && (s & 15) == 8 && (e & 15) == 8 && e - s >= 16 && s < e, "the heap is aligned and lies in the memory granted");
#ifdef _LINUXH
  VF_CHECK(e == gTop, "and ends where the memory granted ends");
#endif
  a = MW(s); b = MW(s + 4); c = MW(e - 8); d = MW(e - 4);
  VF_CHECK(a == e - s - 16 && d == a && b == 0, "it is one free block");
  VF_REACH("init");
}
#elif defined(SBRK)
static unsigned kbrk, klow, khigh;
static unsigned stub_brk(unsigned p) { unsigned q = (unsigned)p; if (q >= klow && q <= khigh) kbrk = q; return kbrk; }
void harness(void)
{
  int inc = vf_ndi(); unsigned o; void *p;
  kbrk = nd(); klow = nd(); khigh = nd(); VF_ASSUME(klow > 0 && klow <= kbrk && kbrk <= khigh && khigh < 0xfffff000u);
  CurBreak = nb() ? 0 : kbrk; o = kbrk;
  p = orig_sbrk(inc);
  if (p == (void *)-1) VF_CHECK(kbrk == o && (o + inc < klow || o + inc > khigh || (inc < 0 ? o + inc >= o : o + inc < o)), "failure changes nothing and only happens when the system refuses");
  else VF_CHECK((unsigned)p == o && kbrk == o + inc && (inc < 0 ? kbrk < o : kbrk >= o), "the break moves by exactly the increment and the old one is returned");
  VF_CHECK(!CurBreak || (unsigned)CurBreak == kbrk, "the break is remembered");
  VF_REACH("sbrk");
}
#endif
