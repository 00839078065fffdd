struct bufstate; struct tm;
#ifdef SCAN
static unsigned gL, gPos; static int gEv, gEvC, gDone;
static const char *gF;
static void stub_putc(int c, struct bufstate *b);
static int stub_doformat(struct bufstate *b, int c, struct tm *t);
#ifdef VF_PROOF
#define F(i) gF[i]
/* what the step from position p must have done, and where the next one starts */
static int literal(unsigned p) { return F(p) != '%' || F(p + 1) == '%'; }
static unsigned spec(unsigned p) { return F(p + 1) == 'E' || F(p + 1) == 'O' ? p + 2 : p + 1; }
#define STEPOK(n) (gPos == -1u || (literal(gPos) ? gEv == 1 && gEvC == F(gPos) && (n) == gPos + 1 + (F(gPos) == '%') : gEv == 2 && gEvC == F(spec(gPos)) && (n) == spec(gPos) + 1))
#endif
#endif
#ifdef RESULT
static int stub_helper(struct bufstate *b, char *fmt, struct tm *t);
#endif
