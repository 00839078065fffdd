#include "vf.h"
#ifdef VF_PROOF
static unsigned long gTod, gIn;
static unsigned long nd(void) { unsigned long x; return x; }
#define VF_STEP(r) { unsigned q = gIn / 86400ul; VF_CHECK(r < 86400 && r == gIn - q * 86400ul, "the days are taken off"); r = nd(); VF_ASSUME(r < 86400); gTod = r; }
#else
#define VF_STEP(r)
#endif
#include "all.w.c"
static int leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
/* days from 1970-01-01 to y-m-d: the table of New Years comes from the rule, computed independently (cal.h) */
#if defined BREAK || defined BUILD
#include "cal.h"
static int days(int y, int m, int d)
{
  static const short B[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
  return NEWYEAR[y - 1970] + B[m] + (m > 1 && LEAP[y - 1970]) + d - 1;
}
#undef mdays
#define mdays(y, m) (ML[m] + ((m) == 1 && (y) >= 1970 && (y) <= 2105 && LEAP[(y) - 1970]))
static const char ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
#endif
#if defined PART && !VF_ISNATIVE
#define CK(n, c, m) do { if ((n) == PART) VF_CHECK(c, m); } while (0)
#else
#define CK(n, c, m) VF_CHECK(c, m)
#endif
#ifdef BREAK
void harness(void)
{
  time_t t, in; struct tm *r;
  VF_SET(time_t, t, "t");
  in = t;
#ifdef VF_PROOF
  gIn = t; gTod = 99999;
#ifdef LO
  __CPROVER_assume(t >= LO * 86400u && t < HI * 86400u || t >= 49673u * 86400u);   /* the units between them cover every time */
#endif
#endif
  r = __breaktime(&t);
  VF_CHECK(t == in, "the argument is not changed");
  if (t >= 49673u * 86400u) { VF_CHECK(r == 0, "a time outside 1970 to 2105 is rejected"); VF_REACH("rejected"); return; }
  VF_CHECK(r != 0, "a time within 1970 to 2105 is accepted");
  CK(1, r->tm_sec >= 0 && r->tm_sec < 60 && r->tm_min >= 0 && r->tm_min < 60 && r->tm_hour >= 0 && r->tm_hour < 24, "time of day");
  VF_CHECK(r->tm_year >= 70 && r->tm_year <= 205 && r->tm_mon >= 0 && r->tm_mon < 12, "year and month ranges");
  VF_CHECK(r->tm_mday >= 1 && r->tm_mday <= mdays(1900 + r->tm_year, r->tm_mon), "day of the month exists");
  { unsigned d = days(1900 + r->tm_year, r->tm_mon, r->tm_mday);
  CK(2, d == t / 86400ul, "date");
  
#ifdef VF_PROOF
  t = gTod;
#else
  t %= 86400;
#endif
  VF_CHECK(t == r->tm_hour * 3600 + r->tm_min * 60 + r->tm_sec, "time of day");
  CK(3, r->tm_wday == (d + 4) % 7, "day of the week");
  VF_CHECK(r->tm_yday == (int)d - days(1900 + r->tm_year, 0, 1), "day of the year"); }
  VF_CHECK(r->tm_isdst == 0, "no daylight saving");
  VF_REACH("accepted");
}
#endif
#ifdef BUILD
void harness(void)
{
  struct tm m, o; time_t r; int ok;
  VF_SET(int, m.tm_sec, "sec"); VF_SET(int, m.tm_min, "min"); VF_SET(int, m.tm_hour, "hour"); VF_SET(int, m.tm_mday, "mday");
  VF_SET(int, m.tm_mon, "mon"); VF_SET(int, m.tm_year, "year"); VF_SET(int, m.tm_wday, "wday"); VF_SET(int, m.tm_yday, "yday"); VF_SET(int, m.tm_isdst, "dst");
#if VF_ISNATIVE
  m.tm_sec = (unsigned)m.tm_sec % 62 - 1; m.tm_min = (unsigned)m.tm_min % 62 - 1; m.tm_hour = (unsigned)m.tm_hour % 26 - 1; m.tm_mday = (unsigned)m.tm_mday % 34;
  m.tm_mon = (unsigned)m.tm_mon % 14 - 1; m.tm_year = (unsigned)m.tm_year % 140 + 68;
#endif
  o = m;
  ok = m.tm_sec >= 0 && m.tm_sec < 60 && m.tm_min >= 0 && m.tm_min < 60 && m.tm_hour >= 0 && m.tm_hour < 24 && m.tm_mon >= 0 && m.tm_mon < 12
    && m.tm_year >= 70 && m.tm_year <= 205 && m.tm_mday >= 1 && m.tm_mday <= mdays(1900 + m.tm_year, m.tm_mon);
  r = __buildtime(&m);
  VF_CHECK(m.tm_sec == o.tm_sec && m.tm_min == o.tm_min && m.tm_hour == o.tm_hour && m.tm_mday == o.tm_mday && m.tm_mon == o.tm_mon && m.tm_year == o.tm_year && m.tm_isdst == o.tm_isdst, "the given fields are not changed");
  if (!ok) { VF_CHECK(r == (time_t)-1, "a time outside 1970 to 2105, or no time at all, is rejected"); VF_REACH("rejected"); return; }
  {
    int d = days(1900 + m.tm_year, m.tm_mon, m.tm_mday);
    time_t s = m.tm_sec + m.tm_min * 60 + m.tm_hour * (time_t)3600 + m.tm_yday * 86400ul + YEARSEC[m.tm_year - 70];
    CK(1, r == s, "count of seconds");
    VF_CHECK(m.tm_yday == d - days(1900 + m.tm_year, 0, 1), "day of the year");
    { unsigned q = r / 86400ul; CK(2, m.tm_wday == (q + 4) % 7, "day of the week"); }
  }
  VF_REACH("accepted");
}
#endif
#ifdef ZONE
static int gFail, gZone, gCalls; static time_t gArg, gRes; static struct tm gTm;
static int SysGettimeofday(long tv[2], int tz[2]) { if (gFail) return -14; tv[0] = tv[1] = 0; tz[0] = gZone; tz[1] = 0; return 0; }
struct tm *__breaktime(time_t *t) { gArg = *t; gCalls++; return &gTm; }
time_t __buildtime(struct tm *t) { gCalls += t == &gTm; return gRes; }
void harness(void)
{
  time_t t, in; struct tm *p; int z;
  VF_SET(time_t, t, "t"); VF_IN(unsigned char, fail); VF_IN(int, zone);
#if VF_ISNATIVE
  zone %= 1441; if (fail & 2) t = -1;
#endif
  VF_ASSUME(zone >= -1440 && zone <= 1440);
  gFail = fail & 1; gZone = zone; in = t; gCalls = 0; z = gFail ? 0 : zone;
  p = sc_gmtime(&t);
  VF_CHECK(p == &gTm && gArg == in && t == in, "gmtime breaks down the time itself");
#ifdef LT
  p = sc_localtime(&t);
  VF_CHECK(p == &gTm && gArg == in - (time_t)(z * 60) && t == in, "localtime subtracts the zone (minutes west)");
#else
  gRes = t;
  t = sc_mktime(&gTm);
  VF_CHECK(gCalls == 2, "each converts once");
  VF_CHECK(t == (gRes == (time_t)-1 ? (time_t)-1 : gRes + (time_t)(z * 60)), "mktime adds the zone (minutes west), or reports the failure");
#endif
  VF_REACH("zone");
}
#endif
#ifdef FMT
static char gO[64]; static int gN;
static void oc(int c) { gO[gN++] = c; }
static void os(const char *s) { while (*s) oc(*s++); }
static void on(int v, int w, int pad) { if (w == 3 || v >= 100) oc(v < 100 && pad ? pad : '0' + v / 100 % 10); if (w > 1 || v >= 10) oc(v < 10 && pad ? pad : '0' + v / 10 % 10); oc('0' + v % 10); }
static void on4(int v) { if (v >= 1000) oc('0' + v / 1000); if (v >= 100) oc('0' + v / 100 % 10); if (v >= 10) oc('0' + v / 10 % 10); oc('0' + v % 10); }
static const char *const WD[] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" };
static const char *const MN[] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };
static void o3(const char *s) { oc(s[0]); oc(s[1]); oc(s[2]); }
static int in(int c, const char *s) { while (*s && *s != c) s++; return *s != 0; }
#define HAS(c) 1
static void one(int c, const struct tm *t);
static void hms(const struct tm *t, int h) { on(h, 2, '0'); oc(':'); on(t->tm_min, 2, '0'); }
static void expect(int c, const struct tm *t)
{
  int y = 1900 + t->tm_year;
  if (HAS('a')) { if (c == 'a') o3(WD[t->tm_wday]); if (c == 'A') os(WD[t->tm_wday]); if (c == 'b' || c == 'h') o3(MN[t->tm_mon]); if (c == 'B') os(MN[t->tm_mon]); }
  if (HAS('j')) { if (c == 'd') on(t->tm_mday, 2, '0'); if (c == 'e') on(t->tm_mday, 2, ' '); if (c == 'j') on(t->tm_yday + 1, 3, '0'); if (c == 'm') on(t->tm_mon + 1, 2, '0'); if (c == 'u') oc(t->tm_wday ? '0' + t->tm_wday : '7'); }
  if (HAS('H')) { if (c == 'H') on(t->tm_hour, 2, '0'); if (c == 'I') on((t->tm_hour + 11) % 12 + 1, 2, '0'); if (c == 'M') on(t->tm_min, 2, '0'); if (c == 'S') on(t->tm_sec, 2, '0'); }
  if (HAS('n')) { if (c == 'n') oc('\n'); if (c == 't') oc('\t'); if (c == 'p') os(t->tm_hour < 12 ? "AM" : "PM"); if (c == 'w') oc('0' + t->tm_wday); if (c == 'q') oc('q'); }
  if (HAS('C')) { if (c == 'C') on(y / 100, 2, '0'); if (c == 'y') on(y % 100, 2, '0'); if (c == 'Y') on4(y); }
  if (HAS('U')) { int d; /* weeks begun (by a Sunday or a Monday) since New Year */
    if (c == 'U') on((t->tm_yday + 7 - t->tm_wday) / 7, 2, '0');
    if (c == 'W') on((t->tm_yday + 7 - (t->tm_wday + 6) % 7) / 7, 2, '0'); }
  if (HAS('D')) {
    if (c == 'D') { on(t->tm_mon + 1, 2, '0'); oc('/'); on(t->tm_mday, 2, '0'); oc('/'); on(y % 100, 2, '0'); }
    if (c == 'F') { on4(y); oc('-'); on(t->tm_mon + 1, 2, '0'); oc('-'); on(t->tm_mday, 2, '0'); }
    if (c == 'c') { o3(WD[t->tm_wday]); oc(' '); o3(MN[t->tm_mon]); oc(' '); on(t->tm_mday, 2, ' '); oc(' '); hms(t, t->tm_hour); oc(':'); on(t->tm_sec, 2, '0'); oc(' '); on4(y); } }
  if (HAS('R')) {
    if (c == 'r') { hms(t, (t->tm_hour + 11) % 12 + 1); oc(':'); on(t->tm_sec, 2, '0'); oc(' '); os(t->tm_hour < 12 ? "AM" : "PM"); }
    if (c == 'R') hms(t, t->tm_hour);
    if (c == 'T' || c == 'X') { hms(t, t->tm_hour); oc(':'); on(t->tm_sec, 2, '0'); }
    if (c == 'x') { on(t->tm_mon + 1, 2, '0'); oc('/'); on(t->tm_mday, 2, '0'); oc('/'); on(y % 100, 2, '0'); } }
  if (HAS('G')) { /* ISO 8601: the week belongs to the year its Thursday lies in */
    int th = t->tm_yday - (t->tm_wday + 6) % 7 + 3;
    if (th < 0) { y--; th += 365 + leap(y); } else if (th >= 365 + leap(y)) { th -= 365 + leap(y); y++; }
    if (c == 'V') on(th / 7 + 1, 2, '0'); if (c == 'G') on4(y); if (c == 'g') on(y % 100, 2, '0'); }
}
void harness(void)
{
  struct tm m; struct bufstate b; int r, i; char buf[64];
  VF_IN(unsigned, lim); VF_IN(unsigned, K); VF_IN(unsigned char, init);
#define F(f, lo, hi) VF_SET(int, m.f, #f); if (VF_ISNATIVE) m.f = lo + (unsigned)m.f % ((hi) - (lo) + 1u); VF_ASSUME(m.f >= lo && m.f <= hi)
  F(tm_sec, 0, 60); F(tm_min, 0, 59); F(tm_hour, 0, 23); F(tm_mday, 1, 31); F(tm_mon, 0, 11); F(tm_year, -1898, 8098); F(tm_wday, 0, 6); F(tm_yday, 0, 364 + leap(1900 + m.tm_year));
#if VF_ISNATIVE
  lim &= 63; K &= 63;
#endif
  VF_ASSUME(lim <= 64 && K < 64);
  gN = 0;
  expect(FMT[0], &m);
  buf[K] = init;
  b.s = buf; b.maxsize = lim; b.size = 0;
  r = doformat(&b, FMT[0], &m);
  VF_CHECK(r == 1, "succeeds");
  VF_CHECK(b.size == gN, "the number of characters is counted");
  VF_CHECK(buf[K] == (char)(K < gN && K < lim ? gO[K] : init), "the characters are the prescribed ones; none beyond the limit");
  VF_REACH("fmt");
}
#endif
#ifdef SCAN
static struct bufstate gB; static struct tm gT; static int gFailAt;
#ifdef VF_PROOF
static unsigned ndu(void) { unsigned x; return x; }
static void stub_putc(int c, struct bufstate *b) { VF_CHECK(b == &gB, "same buffer"); if (c == 0) { VF_CHECK(gF[gPos] == 0 && !gDone && gEv == 0, "the result is ended once, at the end of the format"); gDone = 1; } else { VF_CHECK(gEv == 0, "one character"); gEv = 1; gEvC = c; } }
static int stub_doformat(struct bufstate *b, int c, struct tm *t) { VF_CHECK(b == &gB && t == &gT && gEv == 0, "one conversion"); gEv = 2; gEvC = c; if (ndu() & 1) { gFailAt = 1; return 0; } return 1; }
void harness(void)
{
  unsigned l = ndu(); int r;
  VF_ASSUME(l < 0x7fff00);
  gF = VF_ALLOC(l + 1); gL = l; gPos = -1u; gFailAt = gDone = 0;
  VF_ASSUME(gF[l] == 0);
  r = helper(&gB, (char *)gF, &gT);
  if (r == 0) VF_CHECK(!gDone && (gFailAt || (gEv == 0 && gF[gPos] == '%' && gF[spec(gPos)] == 0)), "fails only when a conversion fails or is cut short");
  else VF_CHECK(r == 1 && gDone && !gFailAt && gPos == gL, "succeeds after the whole format");
  VF_REACH("scan");
}
#else
static int gI; static char gO[40]; static int gN;
static void stub_putc(int c, struct bufstate *b) { gO[gN++] = c; }
static int stub_doformat(struct bufstate *b, int c, struct tm *t) { gO[gN++] = c | 128; return !(gFailAt && c == 'x'); }
void harness(void)
{
  char f[12], e[40]; int i, n = 0, r, k, ok = 1;
  VF_IN(unsigned, len); VF_IN(unsigned char, fail); len %= 11; gFailAt = fail & 1; gN = 0;
  for (i = 0; i < len; i++) { VF_SET(unsigned char, k, "f"); f[i] = "%%%EOxYa"[k & 7]; }
  f[len] = 0;
  for (i = 0; f[i]; ) {
    if (f[i] != '%') { e[n++] = f[i++]; continue; }
    if (f[i + 1] == '%') { e[n++] = '%'; i += 2; continue; }
    i++; if (f[i] == 'E' || f[i] == 'O') i++;
    if (!f[i]) { ok = 0; break; }
    e[n++] = f[i] | 128; if (gFailAt && f[i] == 'x') { ok = 0; break; }
    i++;
  }
  if (ok) e[n++] = 0;
  r = helper(&gB, f, &gT);
  VF_CHECK(r == ok, "succeeds exactly when the format is complete");
  VF_CHECK(gN == n, "as many characters and conversions as the format has");
  for (i = 0; i < n; i++) VF_CHECK(gO[i] == e[i], "the characters and conversions are those of the format, in order");
}
#endif
#endif
#ifdef RESULT
static unsigned gSize; static int gOk; static char *gS, *gFm; static size_t gMax; static struct tm gT;
static int stub_helper(struct bufstate *b, char *fmt, struct tm *t)
{ VF_CHECK(b->s == gS && b->maxsize == gMax && b->size == 0 && fmt == gFm && t == &gT, "starts with the whole buffer"); b->size = gSize; return gOk; }
void harness(void)
{
  char s[4], f[4]; unsigned r;
  VF_IN(unsigned, max); VF_IN(unsigned, size); VF_IN(unsigned char, ok);
#if VF_ISNATIVE
  max &= 15; size &= 15;
#endif
  VF_ASSUME(size > 0);
  gS = s; gFm = f; gMax = max; gSize = size; gOk = ok & 1;
  r = sc_strftime(s, max, f, &gT);
  VF_CHECK(r == (gOk && size <= max ? size - 1 : 0), "the length without the terminator, or 0 when it does not fit");
  VF_REACH("result");
}
#endif
