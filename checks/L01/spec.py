from vf import *
ASSUMPTIONS = ['section sizes below 1 GB, tables below 65536 entries', 'object files are well formed: indices in range, fields inside their section', 'relocations of a section are sorted by offset (established when the object is loaded, by qsort)']
TRUSTED = ['the symbol lookup is replaced by its contract (decided by L02)', 'instances of "sorted" and "field inside the section" assumed at the loop heads']
CPP = ['-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX']
STREAM = dict(nloops=2, entry='int cut_a = 0, cut_b = 0;', modset=['sz', 'ofs', 'relIdx', 'first', 'size', 'csz', 'pRel', 'buf', 'pRelSect', 'pMeta'], loops={
 0: dict(cond='''({ gBuf = buf; cut_b = 0; VF_CUT(cut_a, gRead <= gT && gWritten <= gRead && size == gT - gRead && sz == gRead - gWritten && (sz == 0 ? gWritten == gT : ofs == gWritten) && sz <= 3 && (sz == 3 || size == 0)
   && relIdx == gSeq && gSeq <= gCnt && (sz == 0 || gSeq >= gCnt || gRels[gSeq].r_offset >= gWritten) && (sz != 0 || gSeq == gCnt) && INB,
   { sz = vf_ndu(); ofs = vf_ndu(); relIdx = vf_ndu(); first = vf_ndi(); size = vf_ndu(); __CPROVER_havoc_object(buf); gRead = vf_ndu(); gWritten = vf_ndu(); gSeq = vf_ndu(); gCur = vf_ndu(); gOut = vf_ndu(); })
   vf_inst(REL(gSeq)); 1; })'''),
 1: dict(cond='''({ VF_CUT(cut_b, relIdx == gSeq && gSeq <= gCnt && (gSeq >= gCnt || gRels[gSeq].r_offset >= gWritten) && INB,
   { relIdx = vf_ndu(); first = vf_ndi(); __CPROVER_havoc_object(buf); gSeq = vf_ndu(); gCur = vf_ndu(); gOut = vf_ndu(); }) vf_inst(REL(gSeq)); vf_inst(SORTED(gSeq)); 1; })''')})

DECL = 'void error(const char*, ...); void stub_Fread(), stub_Fwrite(), stub_Relocate(); unsigned FindSymbolAddress();\n'

class Stub(Src):
    def make(self, d, proof):
        self.rename_in = {'RelocateAndWriteSection': dict(Fread='stub_Fread', Fwrite='stub_Fwrite', **({'Relocate': 'stub_Relocate'} if proof else {}))}
        super().make(d, proof)

def units(work, tier):
    rd = {'main': 'real_main', 'error': 'real_error', 'FindSymbolAddress': 'real_FindSymbolAddress'}
    return [Unit('relocate', 'l01.c', [Src('smlrl.c', cpp=CPP, rename_def=rd, post=lambda t: DECL + t)], defs=['RELOC'], bits=64, unwind=9,
                 functions=['smlrl.c:Relocate'], timeout=300, fuzz_ms=8000),
            Unit('stream', 'l01.c', [Stub('smlrl.c', cpp=CPP, annots={'RelocateAndWriteSection': STREAM}, rename_def=rd, post=lambda t: DECL + before('RelocateAndWriteSection', '#ifdef VF_PROOF\n#include "stream.h"\n#endif\n')(t))],
                 defs=['STREAM'], bits=64, unwind=5, functions=['smlrl.c:RelocateAndWriteSection'], timeout=300, fuzz_ms=8000)]
