/* Native runtime for replay and search: freestanding on i386 (-nostdlib),
   usable on x86-64 with libc as well. Usage:
     prog r FILE          replay: FILE holds binary records of 8-byte values
     prog f SEED COUNT MS search: COUNT iterations at most, stop after MS ms
     prog p SEED ITER     print the inputs of iteration ITER                 */
typedef unsigned long long u64;
typedef unsigned long ul;

#ifdef __i386__
static long sys(long n, long a, long b, long c)
{ long r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
#define SYS_exit 1
#define SYS_read 3
#define SYS_write 4
#define SYS_open 5
#define SYS_mprotect 125
#define SYS_clock_gettime 265
#else
static long sys(long n, long a, long b, long c)
{ long r; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
#define SYS_exit 231
#define SYS_read 0
#define SYS_write 1
#define SYS_open 2
#define SYS_mprotect 10
#define SYS_clock_gettime 228
#endif

void harness(void);

static int mode, fd_in;
static u64 rng;
static ul iter;
static __attribute__((aligned(16))) void *jb[5];
static const char *failmsg;

static ul slen(const char *s) { ul n = 0; while (s[n]) n++; return n; }
static void out(const char *s) { sys(SYS_write, 1, (long)s, slen(s)); }
static void outn(u64 v)
{
  static const char hx[] = "0123456789abcdef";
  char b[17]; int i = 0;
  for (i = 0; i < 16; i++) b[i] = hx[(v >> (60 - 4 * i)) & 15];
  b[16] = 0; out(b);
}
static u64 rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void die(int rc) { for (;;) sys(SYS_exit, rc, 0, 0); }

static u64 hist[64]; static unsigned nh;
static int printing; static unsigned bias;

u64 vf_next(const char *id, unsigned size)
{
  u64 v = 0;
  if (mode == 'r')
  {
    if (sys(SYS_read, fd_in, (long)&v, 8) != 8)
    { out("REPLAY-OUT-OF-INPUT\n"); die(3); }
    return v;
  }
  if (id[0] == 'v' && id[1] == 'f' && id[2] == '_' && id[3] == 's') v = iter; /* vf_seq: the iteration number */
  else
  {
    unsigned w = size * 8, k = (unsigned)(rnd() >> 20) & 15;
    u64 r = rnd();
    if (bias & 1 && k < 8) v = ((r >> 40) & 3) ? 'a' + ((r >> 32) & 1) : 0;
    else if (k < 4) v = (unsigned)(r >> 32) % 9u;
    else if (k < 5) v = 0 - (u64)((unsigned)(r >> 32) % 9u);
    else if (k < 8) { v = (u64)1 << ((unsigned)(r >> 8) % w); v += (u64)((unsigned)(r >> 20) % 5u) - 2; if ((r >> 33) & 1) v = 0 - v; }
    else if (k < 10) v = r >> 16;
    else if (k < 12) v = ' ' + (unsigned)(r >> 32) % 95u;
    else if (k < 13 && nh) v = hist[(unsigned)(r >> 32) % (nh > 64 ? 64 : nh)];
    else if (k < 15) { v = rnd() ^ (r << 11); v >>= (unsigned)(r >> 40) % w; }
    else v = (r >> 32) & 255;
    if (w < 64) v &= ((u64)1 << w) - 1;
    hist[nh++ & 63] = v;
  }
  if (printing) { out("IN "); out(id); out(" "); outn(v); out("\n"); }
  return v;
}

void vf_fail(const char *msg)
{
  out("VF-FAIL "); out(msg); out("\n");
  if (mode == 'f') { out("ITER "); outn(iter); out("\n"); }
  die(42);
}

void vf_discard(void)
{
  if (mode == 'r') { out("REPLAY-ASSUME-FAILED\n"); die(4); }
  if (mode == 'p') die(0);
  __builtin_longjmp(jb, 1);
}

#define NREG 10
#define REG (1ul << 20)
#define PG 4096ul
static char pool[NREG][REG + 2 * PG] __attribute__((aligned(4096)));
static unsigned nreg;
void *vf_alloc(ul n)
{
  char *e;
  if (nreg >= NREG || n > REG) { out("VF-ALLOC-LIMIT\n"); vf_discard(); }
  e = pool[nreg++] + PG + REG;
  return e - n;
}

static void initpool(void)
{
  int i;
  for (i = 0; i < NREG; i++)
  {
    sys(SYS_mprotect, (long)pool[i], PG, 0);
    sys(SYS_mprotect, (long)(pool[i] + PG + REG), PG, 0);
  }
}

static u64 now(void)
{
  long ts[2];
  sys(SYS_clock_gettime, 1, (long)ts, 0);
  return (u64)ts[0] * 1000 + ts[1] / 1000000;
}

static u64 num(const char *s) { u64 v = 0; while (*s) v = v * 10 + (*s++ - '0'); return v; }

/* Clear or re-create state that survives between iterations. */
__attribute__((weak)) void vf_reset(void) { }

volatile struct { ul magic; ul it; } vf_progress;

static void seed_iter(u64 seed)
{
  int i;
  rng = seed * 0x9E3779B97F4A7C15ull + (u64)(iter + 1) * 0xD1B54A32D192ED03ull;
  if (!rng) rng = 1;
  for (i = 0; i < 4; i++) rnd();
  nh = 0; nreg = 0; bias = (unsigned)(rnd() >> 13) & 3;
  vf_reset();
}

static void drive(u64 seed, u64 count, u64 ms)
{
  u64 t0 = now();
  volatile u64 valid = 0;
  for (iter = 0; iter < count; iter++)
  {
    if (!(iter & 255))
    {
      if (now() - t0 > ms) break;
    }
    if (!(iter & 1023)) { out("AT "); outn(iter); out("\n"); }
    seed_iter(seed);
    if (!__builtin_setjmp(jb)) { harness(); valid++; }
  }
  out("DONE "); outn(iter); out(" VALID "); outn(valid); out("\n");
}

/* crash location: the iteration is printed by the signal handler's absence;
   the driver re-runs the last block iteration by iteration. */
int vf_main(int argc, char **argv)
{
  initpool();
  if (argc < 3) die(9);
  mode = argv[1][0];
  if (mode == 'r')
  {
    fd_in = sys(SYS_open, (long)argv[2], 0, 0);
    if (fd_in < 0) die(8);
    harness();
    out("REPLAY-PASS\n");
    die(0);
  }
  if (mode == 'f' && argc >= 5) { drive(num(argv[2]), num(argv[3]), num(argv[4])); die(0); }
  if (mode == 'g' && argc >= 5) /* run iterations [A,B) announcing each */
  {
    u64 a = num(argv[3]), b = num(argv[4]), s = num(argv[2]);
    mode = 'f';
    for (iter = a; iter < b; iter++)
    {
      out("AT "); outn(iter); out("\n");
      seed_iter(s);
      if (!__builtin_setjmp(jb)) harness();
    }
    die(0);
  }
  if (mode == 'p' && argc >= 4)
  {
    printing = 1; iter = num(argv[3]);
    mode = 'p'; seed_iter(num(argv[2]));
    harness();
    die(0);
  }
  die(9);
  return 9;
}

#ifdef __i386__
__asm__(".globl _start\n_start:\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call vf_start_c\n");
__attribute__((used)) void vf_start_c(ul *sp) { vf_main((int)sp[0], (char **)(sp + 1)); }
__attribute__((weak)) void *memcpy(void *d, const void *s, ul n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
__attribute__((weak)) void *memset(void *d, int c, ul n) { char *a = d; while (n--) *a++ = c; return d; }
__attribute__((weak)) void *memmove(void *d, const void *s, ul n)
{ char *a = d; const char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
__attribute__((weak)) int memcmp(const void *x, const void *y, ul n)
{ const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
#else
int main(int argc, char **argv) { return vf_main(argc, argv); }
#endif
