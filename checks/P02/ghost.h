/* declarations needed by the woven code */
#ifdef SHRD
static ppval E(struct token_fifo *tf, int mp, int de);
#ifdef VF_NATIVE
#define OPBIN eval_opbin
#define OPUN eval_opun
#define CONSTV pp_strtoconst
static ppval eval_shrd(struct token_fifo *tf, int mp, int de);
#define E eval_shrd
#else
static struct token *gT; static unsigned long gN, gA0, gAt, gE; static int gDe, gMp, gPh, gQ; static ppval gV, gR, gR2;
static int same(ppval a, ppval b) { return !a.sign == !b.sign && (!gDe || a.u.uv == b.u.uv); }
static ppval ndv(void) { ppval v; unsigned long long x; _Bool s; v.sign = s; v.u.uv = x; return v; }
static void settle(unsigned long art, ppval top);
static ppval OPBIN(int op, ppval a, ppval b);
static ppval OPUN(int op, ppval a);
static ppval CONSTV(char *s);
#endif
#elif defined EXPR
#ifdef VF_NATIVE
#define E eval_shrd
#else
static ppval E(struct token_fifo *tf, int mp, int de);
static int spec(int prev, int first, int t);
static struct token_fifo gTf; static unsigned long gN, gA0, gW; static struct token *gT; static int gO0, gO1;
#endif
#elif defined CHARC
static char *gC; static unsigned long gZ; static unsigned gD; static int gIn;
#define HEXD(ch) ((ch) >= '0' && (ch) <= '9' ? (unsigned)(ch) - '0' : (ch) >= 'a' && (ch) <= 'f' ? (unsigned)(ch) - 'a' + 10 : (ch) >= 'A' && (ch) <= 'F' ? (unsigned)(ch) - 'A' + 10 : 99u)
static char *gS; static unsigned long gL;
static unsigned long ndul(void) { unsigned long x; return x; }
#elif defined CONSTS
#ifdef VF_NATIVE
#define PCHAR pp_char
#define PSUF pp_suffix
#else
static unsigned long PCHAR(char *c, char *r); static int PSUF(char *d, char *r);
#endif
#endif
