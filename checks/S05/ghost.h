#ifdef VF_PROOF
static unsigned gN, gG; static int *gKey; static char *gBase;
#define K(j) gKey[j]
#define PAR(j) (((j) - 1) >> 1)
#define HAVOC __CPROVER_havoc_object(gKey)
#define EDGE(j) (K(PAR(j)) >= K(j))
/* heap of the first h elements: the edge above j */
#define HEAP(h, j) ((j) < 1 || (j) >= (h) || EDGE(j))
/* sifting up at i, last element h: every edge but the one above i; i's children are below i's parent */
#define UP(h, i, j) (((j) < 1 || (j) > (h) || (j) == (i) || EDGE(j)) && ((i) == 0 || (j) < 1 || (j) > (h) || PAR(j) != (i) || K(PAR(i)) >= K(j)))
/* sifting down at i: every edge but those below i; i's children are below i's parent */
#define DOWN(h, i, j) (((j) < 1 || (j) >= (h) || PAR(j) == (i) || EDGE(j)) && ((i) == 0 || (j) < 1 || (j) >= (h) || PAR(j) != (i) || K(PAR(i)) >= K(j)))
/* the rest is sorted and not below the heap */
#define REST(h, j) (((j) < (h) || (j) + 1 >= gN || K(j) <= K((j) + 1)) && ((h) >= gN || (j) >= (h) || K(j) <= K(h)))
#define ROOT(h, j) ((j) >= (h) || K(0) >= K(j))
static void stub_exchange(char *a, char *b, unsigned size);
static char *gA, *gB; static char gOa, gOb; static unsigned gK; static unsigned gI, gLo, gHi, gCut;
#define EX(d) (gK < (d) ? gA[gK] == gOb && gB[gK] == gOa : gA[gK] == gOa && gB[gK] == gOb)
#else
#define stub_exchange exchange
#endif
