from vf import *
ASSUMPTIONS = ['the program writes only inside the blocks it owns; nothing else moves the break', 'pointers given to free and realloc are live blocks', 'the heap lies inside an aligned 16 MB region and is smaller than 8 MB',
               'DOS huge/unreal and Windows allocators (system calls) and 16-bit near heaps are not covered; calloc is executed on random arguments only (bounded)']
TRUSTED = ['instances of the heap invariant (every block ends where the next begins, footer repeats size, no two neighbours free) at the blocks an operation looks at; each operation is proved to leave the area it worked on tiled by blocks and every word outside unchanged, which preserves the invariant',
           'the system break call grants what it returns', 'the word accesses p[i] of the allocator are rewritten to checked accesses of a memory of cells']
C16 = ['-U__SMALLER_C_32__' if x == '-D__SMALLER_C_32__' else x for x in LIBC_CPP] + ['-D__SMALLER_C_16__']
S = 'srclib/'
REN = {x: 'sc_' + x for x in ('malloc', 'free', 'realloc', 'calloc')}
DPMI = ['-D_DOS' if x == '-D_LINUX' else x for x in LIBC_CPP] + ['-D_DPMI']

def words(t):
    """accesses through unsigned pointers in the allocator's functions: p[i] and *((unsigned*)p + i) become HW(p, i); nothing else may dereference"""
    ts, fns = W.find_functions(t)
    edits = []
    for fn in fns:
        if fn == 'SysBrk':
            continue
        a, b = ts[fns[fn][1]][2], ts[fns[fn][2]][3]
        s = t[a:b]
        s = re.sub(r'\*\(\(unsigned\s*\*\)\s*(\w+)\s*([-+])\s*(\d+)\)', r'HW((unsigned *)\1, \2\3)', s)
        s = re.sub(r'\b([A-Za-z_]\w*)\[([^][]*)\]', r'HW(\1, \2)', s)
        if re.search(r'\[|->|(?:[;{}(=,!&|<>+/?:-]|else|return|^)\s*\*|\)\s*\*\s*[\w(]', re.sub(r'"[^"]*"|\b(?:unsigned|void|int)\s[^;=()]*[;=]', '', s)):
            raise W.WeaveError('%s: a memory access the extraction does not know' % fn)
        edits.append((a, b, s))
    for a, b, s in sorted(edits, reverse=True):
        t = t[:a] + s + t[b:]
    return t

class All:
    def __init__(self, fns, annots=None, rename_in=None, cpp=None, ren=None):
        self.ren = ren or {}
        self.fns, self.annots, self.rename_in, self.cpp = fns, annots or {}, rename_in or {}, cpp
    def make(self, d, proof):
        ri = self.rename_in if proof else {'malloc': {'static': 'VF_STATIC'}}
        if not proof and self.cpp is None:
            ri['__sbrk'] = {'SysBrk': 'nat_brk'}
        Multi([S + f + '.c' for f in (self.fns if proof else ['malloc', 'free', 'realloc'])], 'all.h', cpp=self.cpp, rename={**REN, 'asm': 'VF_ASM', **(self.ren if proof else {})}, annots=self.annots, rename_in=ri, post=words).make(d, proof)

ML = dict(nloops=1, entry='int cut_a = 0;', modset=['blk', 'last', 'size', 'uninitialized', 'togrow', 'mid', 'sz', 'nxtblk', '__heap_stop'])
K = dict(native_defs=['NATIVE_HISTORY'], fuzz_ms=8000, unwind=210, timeout=800, checks=(), flags=('--max-field-sensitivity-array-size', '256'))
def units(work, tier):
    lin = dict(ML, loops={0: dict(cond='''({ VF_CUT(cut_a, cutm(blk, last, 1), { blk = (unsigned *)vf_ndu(); last = (unsigned *)vf_ndu(); }) curm(blk, last, 1); 1; })''')})
    dos = dict(ML, loops={0: dict(cond='''({ VF_CUT(cut_a, cutm(blk, 0, 0), { blk = (unsigned *)vf_ndu(); }) curm(blk, 0, 0); 1; })''')})
    U = []
    for n, cpp, a, df in (('linux', None, lin, ['_LINUXH']), ('dpmi', DPMI, dos, [])):
        for c in range(5 if n == 'linux' else 4):
          U.append(Unit('malloc_%s%d' % (n, c), 's02.c', [All(['malloc'], {'malloc': a}, {'malloc': {'init': 'stub_init', '__sbrk': 'stub_sbrk'}}, cpp)], defs=['MALLOC', 'MCASE=%d' % c] + df, functions=['srclib/malloc.c:malloc'], **K))
        for c in range(4 if n == 'linux' else 0):
          U.append(Unit('free%d' % c, 's02.c', [All(['free'], {}, {}, cpp)], defs=['FREE', 'CASE=%d' % c] + df, functions=['srclib/free.c:free'], **K))
        if n == 'linux':
          U.append(Unit('realloc', 's02.c', [All(['realloc'], {}, {}, cpp, dict(malloc='stub_malloc', free='stub_free', memcpy='stub_memcpy'))], defs=['REALLOC'] + df, functions=['srclib/realloc.c:realloc'], **K))
        U.append(Unit('init_' + n, 's02.c', [All(['malloc'], {}, {'init': {'__sbrk': 'stub_sbrk'}}, cpp)], defs=['INIT'] + df, functions=['srclib/malloc.c:init'], **K))
    U.append(Unit('sbrk', 's02.c', [Src(S + 'malloc.c', out='all.h', post=lambda t: re.sub(r'\bchar\s*\*', 'unsigned ', t), rename={**REN, 'asm': 'VF_ASM'}, rename_def={'__sbrk': 'orig_sbrk'}, rename_in={'__sbrk': {'SysBrk': 'stub_brk'}, 'init': {'__sbrk': 'stub_sbrk'}, 'malloc': {'__sbrk': 'stub_sbrk'}})], defs=['SBRK'], functions=['srclib/malloc.c:__sbrk'], native=False, **K))
    U.append(Unit('calloc', 'calloc.c', [Src(S + 'calloc.c', out='all.h', rename={'calloc': 'sc_calloc', 'malloc': 'stub_malloc', 'memset': 'stub_memset'})], functions=['srclib/calloc.c:calloc'], kind='native', proof=False, fuzz_ms=3000))
    return U
