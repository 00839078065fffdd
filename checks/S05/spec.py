from vf import *
ASSUMPTIONS = ['the comparison function is consistent (a total preorder; for bsearch: the array is sorted with respect to the key)', 'arrays smaller than 8 MB; the function sorting the array is proved per element size 1, 4 and 12 (bsearch: 1, 4 and 8), swapping elements for all sizes']
TRUSTED = ['instances of the (inductive, universally quantified) heap invariants at the indices the step uses; "the root of a heap is its maximum" is proved by induction as lemma root']
SORT = dict(nloops=4, entry='int cut_a = 0, cut_b = 0, cut_c = 0, cut_d = 0;', modset=['i', 'parent', 'ecount', 'heapsz', 'left', 'right', 'candidate', 'fcmp'], loops={
 0: dict(cond='''({ cut_b = 0; VF_CUT(cut_a, heapsz <= gN && ecount == gN - heapsz && HEAP(heapsz, gG), { ecount = vf_ndu(); heapsz = vf_ndu(); HAVOC; }) 1; })'''),
 1: dict(cond='''({ VF_CUT(cut_b, i <= heapsz && parent == (i - 1) >> 1 && UP(heapsz, i, gG), { i = vf_ndu(); parent = vf_ndu(); HAVOC; })
      vf_inst(UP(heapsz, i, (i - 1) >> 1)); 1; })'''),
 2: dict(cond='''({ cut_d = 0; VF_CUT(cut_c, heapsz <= gN && HEAP(heapsz, gG) && REST(heapsz, gG), { heapsz = vf_ndu(); HAVOC; })
      vf_inst(ROOT(heapsz, gG)); vf_inst(ROOT(heapsz, heapsz - 1)); vf_inst(REST(heapsz, 0)); 1; })'''),
 3: dict(cond='''({ VF_CUT(cut_d, (i < heapsz || (heapsz == 0 && i == 0)) && DOWN(heapsz, i, gG) && REST(heapsz, gG), { i = vf_ndu(); HAVOC; })
      vf_inst(DOWN(heapsz, i, 2 * i + 1)); vf_inst(DOWN(heapsz, i, 2 * i + 2)); vf_inst(REST(heapsz, i)); vf_inst(REST(heapsz, 2 * i + 1)); vf_inst(REST(heapsz, 2 * i + 2)); 1; })''')})
EXCH = dict(nloops=1, entry='int cut_a = 0; char *a0 = p1, *b0 = p2; unsigned n0 = size;', modset=['p1', 'p2', 'size', 't'], loops={
 0: dict(cond='''({ VF_CUT(cut_a, size <= n0 && SO(p1, a0) && SO(p2, b0) && PO(p1) == PO(a0) + (n0 - size) && PO(p2) == PO(b0) + (n0 - size) && EX(n0 - size),
      { size = vf_ndu(); p1 = a0 + (n0 - size); p2 = b0 + (n0 - size); __CPROVER_havoc_object(a0); if (!SO(a0, b0)) __CPROVER_havoc_object(b0); }) 1; })''')})
BS = dict(nloops=1, entry='int cut_a = 0;', modset=['ecount', 'base', 'mid', 'p', 't'], loops={
 0: dict(cond='''({ VF_CUT(cut_a, SO(base, gB) && PO(base) % ES == 0 && PO(base) / ES <= gN && ecount <= gN - PO(base) / ES && (gLo >= gHi || (ecount > 0 && gLo < PO(base) / ES + ecount && gHi > PO(base) / ES)), { ecount = vf_ndu(); base = gB + vf_ndu(); })
      gCut = ecount; 1; })''')})

def units(work, tier):
    H = before('exchange', '#include "ghost.h"\n')
    H2 = before('bsearch', '#include "ghost.h"\n')
    U = [Unit('exchange', 's05.c', [Src('srclib/qsort.c', rename={'qsort': 'sc_qsort'}, annots={'exchange': EXCH}, post=H)], defs=['EXCH'], functions=['srclib/qsort.c:exchange'], unwind=3),
         Unit('lemma_root', 's05.c', [Src('srclib/qsort.c', rename={'qsort': 'sc_qsort'}, post=H)], defs=['LEMMA'], functions=[], unwind=3, native=False)]
    for es in (1, 4, 12):
        U.append(Unit('sort%d' % es, 's05.c', [Src('srclib/qsort.c', rename={'qsort': 'sc_qsort'}, annots={'qsort': SORT}, post=H, rename_in={'qsort': {'exchange': 'stub_exchange'}})],
                      defs=['SORT', 'ES=%d' % es], functions=['srclib/qsort.c:qsort'], unwind=3, timeout=600))
        es = min(es, 8)
        U.append(Unit('bsearch%d' % es, 's05.c', [Src('srclib/bsearch.c', rename={'bsearch': 'sc_bsearch'}, annots={'bsearch': BS}, post=H2)],
                      defs=['BSEARCH', 'ES=%d' % es], functions=['srclib/bsearch.c:bsearch'], unwind=3, timeout=600))
    return U
