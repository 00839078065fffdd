#ifdef CONST
#define DIGIT(ch) ((ch) >= '0' && (ch) <= '9' ? (unsigned)(ch) - '0' : (ch) >= 'a' && (ch) <= 'f' ? (unsigned)(ch) - 'a' + 10 : (ch) >= 'A' && (ch) <= 'F' ? (unsigned)(ch) - 'A' + 10 : 99u)
static char *gS, *gC; static unsigned long gL; static unsigned long long gZ; static unsigned gD; static int gIn;
#ifdef VF_PROOF
static unsigned long long ndl(void) { unsigned long long x; return x; }
#endif
#endif
