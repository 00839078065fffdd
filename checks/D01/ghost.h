#ifndef VF_NATIVE
static unsigned long ndul(void) { unsigned long x; return x; }
#if defined NEEDED
static char *STRPBRK(const char *s, const char *set);
#elif defined ESCAPE
static char *gS, *gO, *gIn, *gOut; static unsigned long gL, gN, gSz; static int gIter;
static void step(char *in, char *out, unsigned long sz);
#elif defined ADDOPT
static unsigned long STRLEN(const char *p); static char *STRCPY(char *d, const char *s); static int NEED(char *s); static unsigned long ESC(char *o, char *i, unsigned long n);
static void *MAL(unsigned long n); static void *REAL(void *p, unsigned long n); static void FREE(void *p);
#elif defined COMPILE || defined LINK
static unsigned long STRLEN(const char *p); static char *STRCPY(char *d, const char *s); static void *MAL(unsigned long n); static void FREE(void *p); static int REMOVE(const char *p);
static void AO(char **o, unsigned long *l, char *s), AOS(char **o, unsigned long *l, char *s), AF(char **o, unsigned long *l, char *s), SYS(char *c), ERR(char *f, ...), DELT(void);
#endif
#else
#define STRPBRK strpbrk
#define STRLEN strlen
#define STRCPY strcpy
#define NEED EscapingNeeded
#define ESC Escape
#define MAL malloc
#define REAL realloc
#define FREE free
#define AO AddOption
#define AOS AddOptions
#define AF AddFile
#define SYS VSystem
#define ERR VError
#define REMOVE VRemove
#define DELT VDelt
static void VSystem(char *c), VError(char *f, ...), VDelt(void); static int VRemove(const char *p);
#endif
