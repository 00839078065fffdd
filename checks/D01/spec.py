from vf import *
ASSUMPTIONS = ['the Linux build; sh reads words as POSIX says (the reader the quoted words are judged by is in checks/D01/d01.c)', 'options shorter than 2^24, names given to Compile shorter than 2^20 characters',
               'the options lists kept in PrepOptions, CompilerOptions and AssemblerOptions were built by AddOption', '-S implies -c (main)']
TRUSTED = ['the C library\'s strpbrk, strlen, strcpy', 'sh; the parsing of the command line in main is not under contract']
CPP = ['-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX']
def units(work, tier):
    R = {'main': 'smlrcc_main'}
    def S(where, annots={}, **k): return [Src('smlrcc.c', cpp=CPP, out='all.w.c', annots=annots, rename=R, macros=r'Format\w+', post=before(where, '#include "ghost.h"\n'), **k)]
    INV = 'SO(in, gS) && PO(in) <= gL && sz >= 1 && sz <= 2 * PO(in) + 1 && SO(out, gO) && PO(out) == (sz <= gN ? sz : gN)'
    H = '({ step(in, out, sz); VF_CUT(cut, %s, { in = gS + ndul(); out = gO + ndul(); sz = ndul(); }) vf_inst(PO(in) == gL || *in != 0); gIter = 1; gIn = in; gOut = out; gSz = sz; 1; })' % INV
    esc = {'Escape': dict(nloops=1, entry='int cut = 0;', modset=['sz', 'out', 'in', 'c'], loops={0: dict(cond=H)})}
    A = {'strlen': 'STRLEN', 'strcpy': 'STRCPY', 'EscapingNeeded': 'NEED', 'Escape': 'ESC', 'Malloc': 'MAL', 'Realloc': 'REAL', 'free': 'FREE'}
    C = {'strlen': 'STRLEN', 'strcpy': 'STRCPY', 'Malloc': 'MAL', 'free': 'FREE', 'AddOption': 'AO', 'AddOptions': 'AOS', 'AddFile': 'AF', 'System': 'SYS', 'error': 'ERR', 'remove': 'REMOVE'}
    k = dict(bits=64)
    ao = lambda: S('AddOptionInner', rename_in={'AddOptionInner': A, 'AddFile': A})
    return [Unit('needed', 'd01.c', S('EscapingNeeded', rename_in={'EscapingNeeded': {'strpbrk': 'STRPBRK'}}), defs=['NEEDED'], unwind=45, functions=['smlrcc.c:EscapingNeeded'], **k),
            Unit('escape', 'd01.c', S('Escape', esc), defs=['ESCAPE'], unwind=3, functions=['smlrcc.c:Escape'], **k),
            Unit('addoption', 'd01.c', ao(), defs=['ADDOPT=1'], unwind=3, functions=['smlrcc.c:AddOptionInner', 'smlrcc.c:AddOption'], **k),
            Unit('addoptions', 'd01.c', ao(), defs=['ADDOPT=2'], unwind=3, functions=['smlrcc.c:AddOptionInner', 'smlrcc.c:AddOptions'], **k),
            Unit('addfile', 'd01.c', ao(), defs=['ADDOPT=0'], unwind=3, functions=['smlrcc.c:AddFile'], **k),
            Unit('compile', 'd01.c', S('Compile', rename_in={'Compile': C}), defs=['COMPILE'], unwind=8, functions=['smlrcc.c:Compile'], fuzz_ms=6000, **k),
            Unit('link', 'd01.c', S('Link', rename_in={'Link': dict(C, DeleteTemporaryFiles='DELT')}), defs=['LINK'], unwind=16, functions=['smlrcc.c:Link'], **k)]
