#include "vf.h"
#include "all.w.c"
#include "all.m.h"
static int special(int c) /* to sh, in an unquoted word */
{ const char *t = " \t\n\"'\\<>&|;()$`*?[#~"; int i; for (i = 0; t[i]; i++) if (t[i] == (char)c) return 1; return c == 0; }
#ifndef VF_NATIVE
static int dq(int c) { return c == '"' || c == '\\' || c == '$' || c == '`'; }
#if defined NEEDED
static char *gS; static unsigned long gL, gK;
static char *STRPBRK(const char *s, const char *set)
{
  unsigned i; unsigned long r; VF_CHECK(s == gS, "the option is searched"); { _Bool b; if (b) { VF_ASSUME(r < gL); return gS + r; } }
  for (i = 0; set[i]; i++) VF_ASSUME(set[i] != gS[gK]);
  return 0;
}
void harness(void)
{
  { unsigned l, k; gL = l; gK = k; } VF_ASSUME(gL < 0x10000000 && gK <= gL); gS = VF_ALLOC(gL + 1); VF_ASSUME(gS[gL] == 0); VF_ASSUME(gK == gL || gS[gK]);
  if (!EscapingNeeded(gS)) VF_CHECK(gL > 0 && (gK == gL || !special(gS[gK])), "names with characters that are special to sh are quoted");
  VF_REACH("needed");
}
#elif defined ESCAPE
static void step(char *in, char *out, unsigned long sz)
{ /* one more character of the name is in the quoted word */
  if (gIter) {
    VF_CHECK(in == gIn + 1, "the characters are taken one by one");
    VF_CHECK(sz == gSz + 1 + dq(*gIn), "as many characters as the quoted character has");
    if (sz <= gN) {
      VF_CHECK(out == gOut + (sz - gSz), "the characters follow each other");
      if (sz == gSz + 2) VF_CHECK(gOut[0] == '\\' && dq(gOut[1]) && gOut[1] == *gIn, "an escaped character stands for itself"); else VF_CHECK(gOut[0] == *gIn, "the character");
    }
  } else { VF_CHECK(sz == 1 && in == gS, "from the start"); if (gN) VF_CHECK(out == gO + 1 && gO[0] == '"', "an opening quote"); }
}
void harness(void)
{
  unsigned long n, r; { unsigned l, m; gL = l; gN = m; } VF_ASSUME(gL < 0x10000000 && gN < 0x40000000); gS = VF_ALLOC(gL + 1); VF_ASSUME(gS[gL] == 0); gO = VF_ALLOC(gN); gIter = 0;
  r = Escape(gO, gS, gN);
  VF_CHECK(gIn == gS + gL && *gIn == 0, "the whole name");
  VF_CHECK(r == gSz + 2, "the size includes the closing quote and the terminator");
  if (r <= gN) VF_CHECK(gO[gSz] == '"' && gO[gSz + 1] == 0, "a closing quote");
  VF_REACH("escape");
}
#elif defined ADDOPT
#define LIM 0x1000000
static char *gOpt, *gBuf, *gEb, *gNew; static unsigned long gL, gOld, gK, gJ, gEs; static int gNeed, gEsc, gNd; static char gEc, gJc;
static int NEED(char *s) { VF_CHECK(s == gOpt, "the option is looked at"); gNd = 1; return gNeed; }
static unsigned long ESC(char *o, char *i, unsigned long n)
{
  VF_CHECK(i == gOpt, "the option is quoted"); VF_CHECK(n == 0 || n >= gEs, "room for the quoted option");
  if (n) { VF_CHECK(o == gEb, "into the buffer for it"); VF_CHECK(__CPROVER_w_ok(o, gEs), "room for the quoted option"); if (gK < gEs - 1) o[gK] = gEc; o[gEs - 1] = 0; gEsc = 1; } return gEs;
}
static unsigned long STRLEN(const char *p) { VF_CHECK(p == gOpt || (p == gEb && gEsc), "the length of the option"); return p == gOpt ? gL : gEs - 1; }
static char *STRCPY(char *d, const char *s)
{ unsigned long n = STRLEN(s) + 1; VF_CHECK(__CPROVER_w_ok(d, n), "room for the option"); if (gK < n - 1) d[gK] = s[gK]; d[n - 1] = 0; return d; }
static void *MAL(unsigned long n) { char *p; VF_ASSUME(n < 4ul * LIM); p = VF_ALLOC(n); if (!gEb && gNeed && gNd) gEb = p; else gNew = p; return p; }
static void *REAL(void *p, unsigned long n) { VF_CHECK(p == gBuf && gBuf, "the command line is extended"); VF_ASSUME(n < 4ul * LIM); VF_CHECK(n >= gOld + 1, "the command line is kept"); gNew = VF_ALLOC(n); gNew[gJ] = gJc; gNew[gOld] = 0; return gNew; }
static void FREE(void *p) { VF_CHECK(p == gEb && gEb, "only the quoted copy is released"); }
void harness(void)
{
  char *o; unsigned long len; int first; char w; unsigned long wl, off; { unsigned a, b, c, d, e; int f, g; char x; gL = a; gOld = b; gK = c; gJ = d; gEs = e; gNeed = f; first = g != 0; gEc = x; }
  VF_ASSUME(gL < LIM && gOld < LIM && gEs >= 3 && gEs < 2 * LIM); gOpt = VF_ALLOC(gL + 1); VF_ASSUME(gOpt[gL] == 0); gEb = gNew = 0; gEsc = gNd = 0;
  if (first) { o = gBuf = 0; gJ = 0; } else { VF_ASSUME(gJ < gOld); o = gBuf = VF_ALLOC(gOld + 1); VF_ASSUME(gBuf[gOld] == 0); gJc = gBuf[gJ]; } len = gOld;
#if ADDOPT == 0
  gNeed = 0; AddFile(&o, &len, gOpt); wl = gL; off = first ? 0 : gOld + 1; VF_CHECK(!gNd, "file lists are not quoted");
  if (!first) VF_CHECK(o[gOld] == 0, "names are separated");
#else
#if ADDOPT == 2
  gNeed = 0; AddOptions(&o, &len, gOpt);
#else
  AddOption(&o, &len, gOpt); VF_CHECK(gNd, "quoting is considered");
#endif
  wl = gNeed ? gEs - 1 : gL; off = first ? 0 : gOld + 1;
  if (!first) VF_CHECK(o[gOld] == ' ', "arguments are separated");
#endif
  VF_CHECK(o == gNew && len == off + wl, "the length of the list"); VF_CHECK(o[len] == 0, "the list is terminated");
  if (!first) VF_CHECK(o[gJ] == gJc, "what was there stays");
  if (gK < wl) VF_CHECK(o[off + gK] == (gNeed ? gEc : gOpt[gK]), "the argument is added, quoted if need be");
  VF_REACH("addoption");
}
#elif defined COMPILE
#define LIM 0x100000
static char *gName; static unsigned long gL, gK; static struct { char **o; char *s; char c, c1, c2, c3, c4; unsigned long n; int opts; } gA[8]; static int gC, gNcmd, gSt, gErr, gLk, gNl, gTmp, gAr; static char **gCur; static char gOut[8], *gAsm, *gPre, *gObj;
static int type(void)
{
  int a = gL >= 1 ? gName[gL - 1] : 0, b = gL >= 2 ? gName[gL - 2] : 0, c = gL >= 3 ? gName[gL - 3] : 0, d = gL >= 4 ? gName[gL - 4] : 0;
  if (gL > 4 && d == '.' && (c == 'A' || c == 'a') && (b == 'S' || b == 's') && (a == 'M' || a == 'm')) return 's';
  if (gL > 2 && b == '.') { if (a == 'c' || a == 'C') return 'c'; if (a == 'i' || a == 'I') return 'i'; if (a == 'o' || a == 'O') return 'o'; if (a == 'a' || a == 'A') return 'a'; }
  return 0;
}
static unsigned long stem(void) { return gL - (type() == 's' ? 3 : 1); }
static unsigned long STRLEN(const char *p) { VF_CHECK(p == gName, "the length of the name"); return gL; }
static char *STRCPY(char *d, const char *s)
{
  unsigned long n; VF_ASSUME(gK < gL);
  if (SO(s, gName) || (gPre && SO(s, gPre))) { n = gL + 1; VF_CHECK(PO(s) == 0 && __CPROVER_w_ok(d, n), "room for the name"); if (gK < stem()) d[gK] = s[gK]; d[gL] = 0; if (gL >= 4) { d[gL - 4 + 0] = s[gL - 4]; d[gL - 3] = s[gL - 3]; } d[gL - 2] = s[gL - 2]; d[gL - 1] = s[gL - 1]; if (gK < stem()) d[gK] = s[gK]; }
  else { int i; for (i = 0; i < 6; i++) { d[i] = s[i]; if (!s[i]) break; } VF_CHECK(i < 6, "a suffix"); }
  return d;
}
static void *MAL(unsigned long n) { VF_CHECK(n <= gL + 16, "sizes follow the name's"); return VF_ALLOC(n); }
static void FREE(void *p) { VF_CHECK(p != gName && p != gOut, "names given by the user are not released"); }
static int REMOVE(const char *p) { VF_CHECK(p != gName && p != gOut, "files given by the user are not removed"); return 0; }
static void ERR(char *f, ...) { VF_CHECK(type() == 0, "only files of unknown type are refused"); VF_REACH("refused"); VF_ASSUME(0); }
static void AO(char **o, unsigned long *l, char *s)
{
  if (o == &LinkerOptions) { VF_CHECK(l == &LinkerOptionsLen, "the list's length"); gLk = 1; }
  else { VF_CHECK(gC == 0 || o == gCur, "one command at a time"); gCur = o; }
  if (gC < 8) { gA[gC].o = o; gA[gC].s = s; gA[gC].opts = 0; gA[gC].n = 0; gC++; }
}
static void AOS(char **o, unsigned long *l, char *s) { AO(o, l, s); gA[gC - 1].opts = 1; }
/* name p is the user's with the given suffix */
static int isname(char *p, const char *suf)
{
  unsigned long st = stem(); int i; if (gK < st && p[gK] != gName[gK]) return 0;
  for (i = 0; i < 4; i++) { if (p[st + i] != suf[i]) return 0; if (!suf[i]) return 1; } return 0;
}

static void AF(char **o, unsigned long *l, char *s)
{
  if (o == &TemporaryFiles) VF_CHECK(s != gName, "the source is not a temporary file");
  else { VF_CHECK(o == &ArchiveFiles && DoArchive && DontLink, "the archive's files"); gAr++; if (type() == 'o') VF_CHECK(s == gName, "the object file is archived"); else VF_CHECK(s == gObj, "the new object file is archived"); }
}
static void SYS(char *c)
{
  int t = type();
  VF_CHECK(gC >= 1 && gCur && c == *gCur && gA[0].opts, "the command line built is run");
  if (gSt == 0 && t == 'c' && UseExternalPreprocessor) {
    VF_CHECK(gC == 4 && gA[0].s == PrepOptions && !gA[1].opts && !gA[2].opts && !gA[3].opts && gA[1].s[0] == '-' && gA[1].s[1] == 'o' && gA[1].s[2] == 0, "the preprocessor's options");
    gPre = gA[2].s; VF_CHECK(isname(gPre, "i"), "the preprocessed file is named after the source"); VF_CHECK(gA[3].s == gName, "the source is preprocessed"); gSt = 1;
  } else if (gSt <= 1 && t != 's') {
    VF_CHECK(gC == 3 && gA[0].s == CompilerOptions && !gA[1].opts && !gA[2].opts, "the compiler's options");
    VF_CHECK(gA[1].s == (gPre ? gPre : gName), "the source or its preprocessed form is compiled"); gAsm = gA[2].s; VF_CHECK(gAsm == OutName && CompileToAsm && InputFileCnt == 1 && gAsm || isname(gAsm, "asm"), "the assembly file is named after the source or as asked"); gSt = 2;
  } else {
    VF_CHECK(gSt == (t == 's' ? 0 : 2) && !CompileToAsm, "the assembler is run once");
    VF_CHECK(gC == 4 && gA[0].s == AssemblerOptions && !gA[1].opts && !gA[2].opts && !gA[3].opts && gA[2].s[0] == '-' && gA[2].s[1] == 'o' && gA[2].s[2] == 0, "the assembler's options");
    VF_CHECK(gA[1].s == (gAsm ? gAsm : gName), "the assembly file is assembled"); gObj = gA[3].s; VF_CHECK(gObj == OutName && DontLink && !DoArchive && InputFileCnt == 1 && gObj || isname(gObj, "o"), "the object file is named after the source or as asked"); gSt = 3;
  }
  gC = 0; gCur = 0;
}
void harness(void)
{
  int t; { unsigned a, b; int x, y, z, u, v; _Bool o; gL = a; gK = b; DontLink = x; DoArchive = y; CompileToAsm = z; UseExternalPreprocessor = u; InputFileCnt = v; if (o) OutName = gOut; else OutName = 0; }
  VF_ASSUME(gL < LIM && gL > 0); gName = VF_ALLOC(gL + 1); VF_ASSUME(gName[gL] == 0); { unsigned long i; VF_ASSUME(gK < gL); VF_ASSUME(gName[gK] != 0); }
  PrepOptions = VF_ALLOC(9); CompilerOptions = VF_ALLOC(10); AssemblerOptions = VF_ALLOC(11); LinkerOptions = VF_ALLOC(12); gC = gSt = gLk = gAr = 0; gCur = 0; gPre = gAsm = gObj = 0;
  VF_ASSUME(!CompileToAsm || DontLink); /* -S implies no linking */
  Compile(gName); t = type();
  VF_CHECK(t, "files of unknown type are refused");
  VF_CHECK(t == 'o' || t == 'a' ? gSt == 0 : t == 's' ? gSt == (CompileToAsm ? 0 : 3) : gSt == (CompileToAsm ? 2 : 3), "every step is made");
  VF_CHECK(gLk == !DontLink, "what is to be linked is given to the linker");
  if (gLk) VF_CHECK(gC == 1 && gA[0].o == &LinkerOptions && !gA[0].opts && gA[0].s == (t == 'o' || t == 'a' ? gName : gObj), "under its name"); else VF_CHECK(gC == 0, "every command built is run");
  VF_CHECK(gAr == (DontLink && DoArchive && t != 'a' && !CompileToAsm || DontLink && DoArchive && t == 'o'), "what is to be archived is");
  VF_REACH("compile");
}
#elif defined LINK
static struct { char **o, *s; int opts; char c0, c1; } gA[16]; static int gC, gL0, gCmds, gDel; static char **gCur;
static void AO(char **o, unsigned long *l, char *s) { VF_CHECK(gC < 16, "arguments"); if (o == &LinkerOptions) VF_CHECK(l == &LinkerOptionsLen && gCmds == 0, "the linker's list"); gA[gC].o = o; gA[gC].s = s; gA[gC].opts = 0; gC++; gCur = o; }
static void AOS(char **o, unsigned long *l, char *s) { AO(o, l, s); gA[gC - 1].opts = 1; }
static int lit(int i, const char *t) { int k; for (k = 0; k < 12; k++) { if (gA[i].s[k] != t[k]) return 0; if (!t[k]) return 1; } return 0; }
static void SYS(char *c)
{
  int i = 0;
  if (gCmds == 0) {
    VF_CHECK(c == LinkerOptions, "the linker is run");
    if (StdLib) { VF_CHECK(gC > i && gA[i].o == &LinkerOptions && gA[i].s == StdLib && !gA[i].opts, "the library is linked"); i++; }
    if (Stub) { VF_CHECK(gC > i + 1 && gA[i].o == &LinkerOptions && lit(i, "-stub") && gA[i + 1].o == &LinkerOptions && gA[i + 1].s == Stub && !gA[i + 1].opts, "the stub"); i += 2; }
    if (OutName) { VF_CHECK(gC > i + 1 && gA[i].o == &LinkerOptions && lit(i, "-o") && gA[i + 1].o == &LinkerOptions && gA[i + 1].s == OutName && !gA[i + 1].opts, "the output file"); i += 2; }
    VF_CHECK(gC == i, "nothing else");
  } else {
    VF_CHECK(gCmds == 1 && OutName && gC == 2 && gCur && c == *gCur && gA[0].o == gCur && gA[1].o == gCur && gA[0].opts && lit(0, "chmod +x") && gA[1].s == OutName && !gA[1].opts, "the output file is made executable"); gDel = 0;
  }
  gC = 0; gCmds++;
}
static void DELT(void) { VF_CHECK(gCmds >= 1, "temporary files are removed after linking"); gDel = 1; }
static void FREE(void *p) { VF_CHECK(!p || p != StdLib && p != Stub && p != OutName, "names are kept"); }
static char gN[3][4], gLo[4];
static unsigned long STRLEN(const char *p) { unsigned long n; return n; }
static char *STRCPY(char *d, const char *s) { VF_CHECK(0, "names are passed on, not copied"); return d; }
static void *MAL(unsigned long n) { VF_ASSUME(n < 0x100000); return VF_ALLOC(n); }
static void AF(char **o, unsigned long *l, char *s) { } static int REMOVE(const char *p) { return 0; } static void ERR(char *f, ...) { VF_ASSUME(0); }
void harness(void)
{
  { _Bool a, b, c; int f; StdLib = a ? &gN[0][0] : 0; Stub = b ? &gN[1][0] : 0; OutName = c ? &gN[2][0] : 0; OutputFormat = f; } LinkerOptions = gLo; gC = gCmds = gDel = 0; gCur = 0;
  Link();
  VF_CHECK(gCmds == 1 + ((OutputFormat == FormatElf32 || OutputFormat == FormatMach32) && OutName) && gDel && gC == 0, "linked, and made executable if a program for this system");
  VF_REACH("link");
}
#endif
#else
/* the command lines built are read back as sh reads them */
static int shparse(const char *p, char out[][64], int max)
{
  int n = 0, q = 0, in = 0, k = 0;
  for (;; p++) {
    int c = *p;
    if (q == 0) {
      if (c == 0 || c == ' ' || c == '\t') { if (in) { out[n][k] = 0; n++; k = 0; in = 0; } if (!c) return n; continue; }
      if (n >= max || k > 60) return -1;
      in = 1;
      if (c == '"' || c == '\'') { q = c; continue; }
      if (c == '\\') { p++; if (!*p) return -1; if (*p != '\n') out[n][k++] = *p; continue; }
      if (special(c) && !(k && (c == '#' || c == '~'))) return -1;
      out[n][k++] = c;
    } else {
      if (!c || k > 60) return -1;
      if (c == q) { q = 0; continue; }
      if (q == '"' && (c == '$' || c == '`')) return -1;
      if (q == '"' && c == '\\' && (p[1] == '$' || p[1] == '`' || p[1] == '"' || p[1] == '\\' || p[1] == '\n')) { p++; if (*p != '\n') out[n][k++] = *p; continue; }
      out[n][k++] = c;
    }
  }
}
static unsigned rnd(unsigned m) { VF_IN(unsigned, x); return x % m; }
static void name(char *s)
{ int n = rnd(8), i; for (i = 0; i < n; i++) { int c = rnd(48); s[i] = c < 30 ? " \t\n\"'\\<>&|;()$`*?[]{}#~!^%abc"[c] : c == 30 ? '\\' : c == 31 ? '"' : (char)(1 + rnd(255)); } s[n] = 0; }
static char nm[2][64], got[8][64], gLastCmd[4][600]; static int nCmd; static char want[4][8][64]; static int nw[4];
static int gRefused; static void *jb[5];
static void VSystem(char *c) { if (nCmd < 4) strcpy(gLastCmd[nCmd++], c); }
static void VError(char *f, ...) { gRefused = 1; __builtin_longjmp(jb, 1); }
static int gRm; static int VRemove(const char *p) { if (!strcmp(p, nm[0]) || (OutName && !strcmp(p, OutName))) gRm = 1; return 0; }
static void VDelt(void) { }
static void runcheck(int i, int argc, char **argv)
{ int k, n = shparse(gLastCmd[i], got, 8); VF_CHECK(n == argc, "as many arguments as were given"); for (k = 0; k < argc; k++) VF_CHECK(!strcmp(got[k], argv[k]), "each argument arrives unchanged"); }
void harness(void)
{
  char *o = 0; unsigned long len = 0; int i, n = 0;
#ifdef LINK
  { char so[64], st[64], on[64]; char *av[8]; int k = 0; name(so); name(st); name(on); strcat(on, "q"); StdLib = rnd(2) ? so : 0; Stub = rnd(2) ? st : 0; OutName = rnd(2) ? on : 0; OutputFormat = rnd(2) ? FormatElf32 : rnd(20);
    LinkerOptions = 0; LinkerOptionsLen = 0; nCmd = 0; AddOption(&LinkerOptions, &LinkerOptionsLen, "ll"); av[k++] = "ll"; if (StdLib) av[k++] = so; if (Stub) { av[k++] = "-stub"; av[k++] = st; } if (OutName) { av[k++] = "-o"; av[k++] = on; }
    Link(); runcheck(0, k, av); i = (OutputFormat == FormatElf32 || OutputFormat == FormatMach32) && OutName; VF_CHECK(nCmd == 1 + i, "made executable if a program for this system"); if (i) runcheck(1, 3, (char *[]){ "chmod", "+x", on }); return; }
#elif defined COMPILE
  { int t, ot, k = 0; char pre[64], as[64], ob[64]; char *av[8]; const char *ext[] = { ".c", ".C", ".i", ".I", ".o", ".a", ".asm", ".AsM", ".O", ".x", ".as" }; char on[64];
    name(nm[0]); t = rnd(11); if (!nm[0][0]) nm[0][0] = 'q', nm[0][1] = 0; strcat(nm[0], ext[t]); n = strlen(nm[0]);
    DontLink = rnd(2); DoArchive = rnd(2); CompileToAsm = DontLink && rnd(2); UseExternalPreprocessor = rnd(2); InputFileCnt = 1 + rnd(2); OutName = 0; name(on); strcat(on, "q"); if (rnd(2)) OutName = on;
    PrepOptions = "pp"; CompilerOptions = "cc"; AssemblerOptions = "as"; LinkerOptions = 0; LinkerOptionsLen = 0; TemporaryFiles = ArchiveFiles = 0; TemporaryFilesLen = ArchiveFilesLen = 0; nCmd = gRefused = gRm = 0;
    if (__builtin_setjmp(jb)) { VF_CHECK(t >= 9, "only files of unknown type are refused"); return; }
    ot = t; strcpy(on + 40, ""); { char src[64]; strcpy(src, nm[0]); Compile(nm[0]); VF_CHECK(!strcmp(src, nm[0]), "the name is not changed"); }
    VF_CHECK(t < 9, "files of unknown type are refused"); VF_CHECK(!gRm, "files given by the user are not removed");
    strcpy(pre, nm[0]); strcpy(pre + n - 1, "i"); strcpy(as, nm[0]); strcpy(as + n - 1, "asm"); strcpy(ob, nm[0]); strcpy(ob + n - (t == 6 || t == 7 ? 3 : 1), "o");
    if (t < 4) {
      if (t < 2 && UseExternalPreprocessor) { VF_CHECK(nCmd > k, "preprocessed"); runcheck(k++, 4, (char *[]){ "pp", "-o", pre, nm[0] }); } else strcpy(pre, nm[0]);
      if (InputFileCnt == 1 && OutName && CompileToAsm) strcpy(as, OutName);
      VF_CHECK(nCmd > k, "compiled"); runcheck(k++, 3, (char *[]){ "cc", pre, as });
    } else strcpy(as, nm[0]);
    if (t < 4 || t == 6 || t == 7) { if (!CompileToAsm) {
      if (InputFileCnt == 1 && OutName && DontLink && !DoArchive) strcpy(ob, OutName);
      VF_CHECK(nCmd > k, "assembled"); runcheck(k++, 4, (char *[]){ "as", as, "-o", ob }); } } else strcpy(ob, nm[0]);
    VF_CHECK(nCmd == k, "nothing else is run");
    VF_CHECK((LinkerOptions != 0) == !DontLink, "linked unless told otherwise"); if (LinkerOptions) { strcpy(gLastCmd[0], LinkerOptions); runcheck(0, 1, (char *[]){ ob }); }
    return; }
#else
  { int cnt = 1 + rnd(4); char a[4][64]; int pos[4]; char lst[300]; unsigned p = 0; char *f = 0; unsigned long fl = 0;
    for (i = 0; i < cnt; i++) { name(a[i]); AddOption(&o, &len, a[i]); VF_CHECK(len == strlen(o), "the length of the list"); AddFile(&f, &fl, a[i]); }
    n = shparse(o, got, 8); VF_CHECK(n == cnt, "as many arguments as were given"); for (i = 0; i < cnt; i++) VF_CHECK(!strcmp(got[i], a[i]), "each argument arrives unchanged");
    for (i = 0; i < cnt; i++) { VF_CHECK(!strcmp(f + p, a[i]), "each file is listed"); p += strlen(a[i]) + 1; } VF_CHECK(fl == p - 1, "the length of the file list"); }
#endif
}
#endif
