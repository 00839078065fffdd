/* Harness vocabulary.  The same harness text is
     - verified by CBMC for all inputs (proof and bounded configurations), and
     - compiled natively together with the real code to replay a counterexample
       (VF_NATIVE, inputs read in order from a file) or to search for one
       (VF_NATIVE, pseudo-random inputs).                                     */
#ifndef VF_H
#define VF_H

#ifdef VF_NATIVE
unsigned long long vf_next(const char *id, unsigned size);
void vf_fail(const char *msg);
void vf_discard(void);
void *vf_alloc(unsigned long n);
#define VF_IN(T, x) T x = (T)vf_next(#x, sizeof(T))
#define VF_SET(T, lv, id) do { (lv) = (T)vf_next(id, sizeof(T)); } while (0)
#define VF_CHECK(c, msg) do { if (!(c)) vf_fail(msg); } while (0)
#define VF_ASSUME(c) do { if (!(c)) vf_discard(); } while (0)
#define VF_REACH(msg) do { } while (0)
#define VF_ALLOC(n) vf_alloc(n)
#define VF_ISNATIVE 1
#else
#define VF_IN(T, x) T x; do { T vf_nd_##x; x = vf_nd_##x; __CPROVER_input(#x, x); } while (0)
#define VF_SET(T, lv, id) do { T vf_nd_; T vf_ndc_ = vf_nd_; __CPROVER_input(id, vf_ndc_); (lv) = vf_ndc_; } while (0)
#define VF_CHECK(c, msg) __CPROVER_assert((c), "VF: " msg)
#define VF_ASSUME(c) __CPROVER_assume(c)
#ifdef NOREACH
#define VF_REACH(m)
#else
#define VF_REACH(msg) __CPROVER_assert(0, "REACH: " msg)
#endif
void *malloc(__CPROVER_size_t);
#define VF_ALLOC(n) malloc(n)
#define VF_ISNATIVE 0
#endif

#ifndef VF_NATIVE
#define PO(p) __CPROVER_POINTER_OFFSET(p)
#define SO(p, q) __CPROVER_same_object(p, q)
/* Cut point of a loop built from a label and goto: the invariant is asserted on arrival,
   everything the loop assigns is havocked once, the invariant is assumed; the second
   arrival ends the path after the assertion. */
#define VF_CUT(flag, inv, havoc) { __CPROVER_assert((inv), "loop invariant at cut point " #flag); \
  if (flag) __CPROVER_assume(0); flag = 1; havoc; __CPROVER_assume(inv); }
static unsigned vf_ndu(void) { unsigned x; return x; }
static int vf_ndi(void) { int x; return x; }
/* an instance of a universally quantified hypothesis or of the definition of a ghost function */
#define VF_INST(c) __CPROVER_assume(c)
static void vf_inst(_Bool c) { __CPROVER_assume(c); }
#endif

/* Choose a size: symbolic up to a huge limit in a proof, small when bounded. */
#ifndef VF_MAX
#define VF_MAX 0x3fffffffu
#endif

#endif
