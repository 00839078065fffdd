#include "vf.h"
int gN, gEx; /* the macro entry being built */
#include "smlrc.w.c"
#include "smlrc.m.h"
/* gFull: the request does not fit, a diagnostic is due; otherwise none may be given */
static int gFull;
#ifdef VF_NATIVE
#define STOP vf_discard()
#define GUARD(x) static char x[64];
#else
#define STOP __CPROVER_assume(0)
#define STOP_IF(c) if (c) STOP
#endif
void error(char *f, ...) { VF_CHECK(gFull, "a request that fits the table is refused"); STOP; }
void warning(char *f, ...) { }
static int gFound; int FindIdent(char *s) { return gFound; }
static unsigned gLen;
/* the witness: element gW of each table */
static int gW;
#ifdef VF_NATIVE
void *stub_memmove(void *d, const void *s, size_t n) { char *p = d; const char *q = s; if (p < q) while (n--) *p++ = *q++; else while (n) n--, p[n] = q[n]; return d; }
size_t stub_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *stub_strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
#define IN(p, n, tab) ((char *)(p) >= (char *)(tab) && (char *)(p) + (n) <= (char *)(tab) + sizeof (tab))
#else
#define INOBJ(p, n) (PO(p) <= __CPROVER_OBJECT_SIZE(p) && (n) <= __CPROVER_OBJECT_SIZE(p) - PO(p))
#define MOVE(tab, T, get, set) { size_t e = sizeof tab[0], x = PO(d) / e, y = PO(s) / e, k = n / e; T v0, v1; \
  VF_CHECK(SO(s, tab) && n % e == 0 && PO(d) % e == 0 && PO(s) % e == 0, "whole entries of one table move"); \
  v0 = tab[gW] get; if ((size_t)gW >= x && (size_t)gW - x < k) v0 = tab[y + (gW - x)] get; \
  __CPROVER_havoc_object(tab); __CPROVER_assume(tab[gW] get == v0); }
void *stub_memmove(void *d, const void *s, size_t n)
{
  VF_CHECK(INOBJ(d, n) && INOBJ(s, n), "entries move within the table");
  STOP_IF(!(INOBJ(d, n) && INOBJ(s, n)));
  if (SO(d, SyntaxStack0)) { MOVE(SyntaxStack0, int, , ) }
  else if (SO(d, SyntaxStack1)) { MOVE(SyntaxStack1, int, , ) }
  else if (SO(d, stack)) {
    size_t e = sizeof stack[0], x = PO(d) / e, y = PO(s) / e, k = n / e; int v0 = stack[gW][0], v1 = stack[gW][1];
    VF_CHECK(SO(s, stack) && n % e == 0 && PO(d) % e == 0 && PO(s) % e == 0, "whole entries of one table move");
    if ((size_t)gW >= x && (size_t)gW - x < k) { v0 = stack[y + (gW - x)][0]; v1 = stack[y + (gW - x)][1]; }
    __CPROVER_havoc_object(stack); __CPROVER_assume(stack[gW][0] == v0 && stack[gW][1] == v1);
  }
  return d;
}
size_t stub_strlen(const char *s) { return gLen; }
static void *gCpy; static int gCpies;
char *stub_strcpy(char *d, const char *s)
{
  VF_CHECK(INOBJ(d, (size_t)gLen + 1), "the name fits the table");
  gCpy = d; gCpies++;
  return d;
}
#endif

static int old[STACK_SIZE][2];
void h_stack(void)
{
  VF_IN(int, n); VF_IN(int, w); VF_IN(int, pos); VF_IN(int, cnt); VF_IN(int, v); VF_IN(int, v2); VF_IN(unsigned char, op); int o0, o1, a0 = 0, a1 = 0, i;
#ifdef VF_NATIVE
  n = (unsigned)n % (STACK_SIZE + 1); w = (unsigned)w % STACK_SIZE; pos = (unsigned)pos % (n + 1); cnt = (unsigned)cnt % (n - pos + 1);
  for (i = 0; i < STACK_SIZE; i++) stack[i][0] = old[i][0] = i * 3 + 1, stack[i][1] = old[i][1] = i * 5 + 2;
#else
  VF_ASSUME(n >= 0 && n <= STACK_SIZE && w >= 0 && w < STACK_SIZE && pos >= 0 && pos <= n && cnt >= 0 && cnt <= n - pos);
  for (i = 0; i < 1; i++) { __CPROVER_havoc_object(stack); }
#endif
  sp = n; gW = w;
  o0 = stack[w][0]; o1 = stack[w][1];
  switch (op % 4) {
  case 0:
    gFull = n >= STACK_SIZE; push2(v, v2);
    VF_CHECK(!gFull && sp == n + 1, "one entry more"); VF_CHECK(w == n ? stack[w][0] == v && stack[w][1] == v2 : stack[w][0] == o0 && stack[w][1] == o1, "the entry is on top, the others are untouched");
    VF_REACH("push"); break;
  case 1:
    gFull = n >= STACK_SIZE; if (w > pos) a0 = stack[w - 1][0], a1 = stack[w - 1][1];
    ins2(pos, v, v2);
    VF_CHECK(!gFull && sp == n + 1, "one entry more");
    if (w <= n) VF_CHECK(w < pos ? stack[w][0] == o0 && stack[w][1] == o1 : w == pos ? stack[w][0] == v && stack[w][1] == v2 : stack[w][0] == a0 && stack[w][1] == a1, "entries above the insertion move up by one, the others stay");
    VF_REACH("ins"); break;
  case 2:
    gFull = 0; if (w >= pos && w < n - cnt) a0 = stack[w + cnt][0], a1 = stack[w + cnt][1];
    del(pos, cnt);
    VF_CHECK(sp == n - cnt, "the entries are gone");
    if (w < n - cnt) VF_CHECK(w < pos ? stack[w][0] == o0 && stack[w][1] == o1 : stack[w][0] == a0 && stack[w][1] == a1, "entries above move down, the others stay");
    VF_REACH("del"); break;
  default:
    gFull = n == 0; v = pop2(&v2);
    VF_CHECK(!gFull && sp == n - 1, "one entry less"); VF_CHECK(w != n - 1 || (v == o0 && v2 == o1), "the top entry is returned");
    VF_REACH("pop");
  }
}
void h_opstack(void)
{
  VF_IN(int, n); VF_IN(int, w); VF_IN(int, v); VF_IN(int, v2); VF_IN(unsigned char, op); int o0, o1, i;
#ifdef VF_NATIVE
  n = (unsigned)n % (OPERATOR_STACK_SIZE + 1); w = (unsigned)w % OPERATOR_STACK_SIZE;
  for (i = 0; i < OPERATOR_STACK_SIZE; i++) opstack[i][0] = i * 3 + 1, opstack[i][1] = i * 5 + 2;
#else
  VF_ASSUME(n >= 0 && n <= OPERATOR_STACK_SIZE && w >= 0 && w < OPERATOR_STACK_SIZE);
  __CPROVER_havoc_object(opstack);
#endif
  opsp = n; o0 = opstack[w][0]; o1 = opstack[w][1];
  if (op & 1) {
    gFull = n >= OPERATOR_STACK_SIZE; pushop2(v, v2);
    VF_CHECK(!gFull && opsp == n + 1, "one entry more"); VF_CHECK(w == n ? opstack[w][0] == v && opstack[w][1] == v2 : opstack[w][0] == o0 && opstack[w][1] == o1, "the entry is on top, the others are untouched");
    VF_REACH("pushop");
  } else {
    gFull = n == 0; v = popop2(&v2);
    VF_CHECK(!gFull && opsp == n - 1, "one entry less"); VF_CHECK(w != n - 1 || (v == o0 && v2 == o1), "the top entry is returned");
    VF_REACH("popop");
  }
}
void h_syntax(void)
{
  VF_IN(int, n); VF_IN(int, w); VF_IN(int, pos); VF_IN(int, cnt); VF_IN(unsigned char, t); VF_IN(int, v); VF_IN(unsigned char, op); int o0, o1, a0 = 0, a1 = 0, i;
#ifdef VF_NATIVE
  n = cnt & 64 ? SYNTAX_STACK_MAX - (unsigned)n % 3 : (unsigned)n % (SYNTAX_STACK_MAX + 1); w = (unsigned)w % SYNTAX_STACK_MAX; pos = (unsigned)pos % (n + 1); cnt = (unsigned)cnt % (n - pos + 1);
  for (i = 0; i < SYNTAX_STACK_MAX; i++) SyntaxStack0[i] = i * 3 + 1, SyntaxStack1[i] = i * 5 + 2;
#else
  VF_ASSUME(n >= 0 && n <= SYNTAX_STACK_MAX && w >= 0 && w < SYNTAX_STACK_MAX && pos >= 0 && pos <= n && cnt >= 0 && cnt <= n - pos);
  __CPROVER_havoc_object(SyntaxStack0); __CPROVER_havoc_object(SyntaxStack1);
#endif
  SyntaxStackCnt = n; gW = w; o0 = SyntaxStack0[w]; o1 = SyntaxStack1[w];
  switch (op % 3) {
  case 0:
    gFull = n >= SYNTAX_STACK_MAX; PushSyntax2(t, v);
    VF_CHECK(!gFull && SyntaxStackCnt == n + 1, "one entry more"); VF_CHECK(w == n ? SyntaxStack0[w] == t && SyntaxStack1[w] == v : SyntaxStack0[w] == o0 && SyntaxStack1[w] == o1, "the entry is last, the others are untouched");
    VF_REACH("push"); break;
  case 1:
    gFull = n >= SYNTAX_STACK_MAX; if (w > pos) a0 = SyntaxStack0[w - 1], a1 = SyntaxStack1[w - 1];
    InsertSyntax2(pos, t, v);
    VF_CHECK(!gFull && SyntaxStackCnt == n + 1, "one entry more");
    if (w <= n) VF_CHECK(w < pos ? SyntaxStack0[w] == o0 && SyntaxStack1[w] == o1 : w == pos ? SyntaxStack0[w] == t && SyntaxStack1[w] == v : SyntaxStack0[w] == a0 && SyntaxStack1[w] == a1, "entries behind the insertion move by one, the others stay");
    VF_REACH("insert"); break;
  default:
    gFull = 0; if (w >= pos && w < n - cnt) a0 = SyntaxStack0[w + cnt], a1 = SyntaxStack1[w + cnt];
    DeleteSyntax(pos, cnt);
    VF_CHECK(SyntaxStackCnt == n - cnt, "the entries are gone");
    if (w < n - cnt) VF_CHECK(w < pos ? SyntaxStack0[w] == o0 && SyntaxStack1[w] == o1 : SyntaxStack0[w] == a0 && SyntaxStack1[w] == a1, "entries behind move down, the others stay");
    VF_REACH("delete");
  }
}
static char name[300];
void h_ident(void)
{
  VF_IN(int, n); VF_IN(unsigned, len); VF_IN(int, found); int r, i;
#ifdef VF_NATIVE
  n = found & 1 ? (unsigned)n % (MAX_IDENT_TABLE_LEN + 1) : MAX_IDENT_TABLE_LEN - (unsigned)n % 140; len %= 140; for (i = 0; i < len; i++) name[i] = 'a' + i % 26; name[len] = 0; found = -1;
  { static char g; }
#else
  VF_ASSUME(n >= 0 && n <= MAX_IDENT_TABLE_LEN && len < 0x7fffff00 && found >= -1 && found < n);
#endif
  IdentTableLen = n; gLen = len; gFound = found;
  gFull = found < 0 && (len >= 127 || len + 2 > MAX_IDENT_TABLE_LEN - n);
  r = AddIdent(name);
  if (found >= 0) VF_CHECK(r == found && IdentTableLen == n, "a known name keeps its entry");
  else {
    VF_CHECK(!gFull, "a name that does not fit is refused");
    VF_CHECK(r == n && IdentTableLen == n + (int)len + 2, "a new entry of the name's length");
    VF_CHECK(IdentTable[n + len + 1] == (char)(len + 1), "whose length is recorded behind it");
#ifdef VF_NATIVE
    for (i = 0; i <= len; i++) VF_CHECK(IdentTable[n + i] == name[i], "the name is stored");
#else
    VF_CHECK(gCpies == 1 && SO(gCpy, IdentTable) && PO(gCpy) == n, "the name is stored");
#endif
  }
  VF_REACH("ident");
}
static void macro(int end)
{
  VF_IN(int, n); VF_IN(unsigned, len); VF_IN(unsigned char, op); VF_IN(unsigned char, ex); VF_IN(char, c); int i;
#ifdef VF_NATIVE
  if (end) c = 0; n = op & 4 ? (unsigned)n % (MAX_MACRO_TABLE_LEN + 1) : MAX_MACRO_TABLE_LEN - (unsigned)n % 140; len %= 140; for (i = 0; i < len; i++) name[i] = 'a' + i % 26; name[len] = 0;
  if (n < 0) n = 0;
#else
  VF_ASSUME(n >= 0 && n <= MAX_MACRO_TABLE_LEN && len < 0x7fffff00);
  __CPROVER_havoc_object(MacroTable);
#endif
  MacroTableLen = n; gLen = len;
  if (!end && (op & 1)) {
    gFull = len >= 127 || len + 3 > MAX_MACRO_TABLE_LEN - n;
    AddMacroIdent(name);
    VF_CHECK(!gFull, "a name that does not fit is refused");
    VF_CHECK(MacroTableLen == n + (int)len + 2 && MacroTable[n] == (char)(len + 1) && MacroTable[n + len + 2] == 0, "a new entry with an empty expansion");
    
  } else {
    VF_ASSUME(end == (c == 0) && n < MAX_MACRO_TABLE_LEN && ex <= 127 && ex <= MAX_MACRO_TABLE_LEN - 1 - n);
    MacroTable[n] = ex; gN = n; gEx = ex;
    gFull = c != 0 && (ex >= 127 || n + 1 + ex >= MAX_MACRO_TABLE_LEN);
    AddMacroExpansionChar(c);
    VF_CHECK(!gFull, "an expansion that does not fit is refused");
    if (c) VF_CHECK(MacroTableLen == n && MacroTable[n] == ex + 1 && MacroTable[n + 1 + ex] == c, "the character is appended");
    else VF_CHECK(MacroTableLen == n + 1 + MacroTable[n] && MacroTable[n] <= ex && MacroTable[n] >= 0, "the entry is closed, at most shorter by trailing blanks");
    
  }
  VF_REACH("macro");
}
void h_macro(void) { macro(0); }
void h_macend(void) { macro(1); }
void h_misc(void)
{
  VF_IN(int, n); VF_IN(int, v); VF_IN(int, l); VF_IN(unsigned char, op); int d;
  switch (op % 3) {
  case 0:
#ifdef VF_NATIVE
    n = MAX_CASES - (unsigned)n % 3;
#endif
    VF_ASSUME(n >= 0 && n <= MAX_CASES); CasesCnt = n; gFull = n >= MAX_CASES; AddCase(v, l);
    VF_CHECK(!gFull && CasesCnt == n + 1 && Cases[n][0] == v && Cases[n][1] == l, "the case is recorded"); VF_REACH("case"); break;
  case 1:
#ifdef VF_NATIVE
    n = (unsigned)n % (PREP_STACK_SIZE + 1);
#endif
    VF_ASSUME(n >= 0 && n <= PREP_STACK_SIZE); PrepSp = n; PrepDontSkipTokens = d = l & 1; v &= 1; gFull = n >= PREP_STACK_SIZE; pushPrep(v);
    VF_CHECK(!gFull && PrepSp == n + 1 && PrepStack[n][0] == d && PrepStack[n][1] == v && PrepDontSkipTokens == (d & v), "a skipping level is opened");
    v = popPrep(); VF_CHECK(PrepSp == n && PrepDontSkipTokens == d, "and closed again"); VF_REACH("prep"); break;
  default:
    PrepSp = 0; gFull = 1; popPrep(); VF_CHECK(0, "closing a level that is not open is reported");
  }
}
