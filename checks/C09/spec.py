from vf import *
ASSUMPTIONS = ['offsets start at 0 and are word aligned at every call (established by the calls before)', 'the caller resets the offset only when the objects die (block end, end of expression): read, not proved']
CPP = ['-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX']
def units(work, tier):
    return [Unit('alloc_%d' % w, 'c09.c', [Src('smlrc.c', cpp=CPP, macros='(tok|Sym|Format)\\w+', rename={'main': 'smlrc_main'}, rename_def={'error': 'real_error', 'warning': 'real_warning'})], defs=['SOW=%d' % w], bits=64,
        functions=['smlrc.c:AllocLocal', 'smlrc.c:truncInt', 'cgx86.c:GenMaxLocalsSize'], unwind=3, checks=('bounds', 'pointer', 'div')) for w in (2, 4)]
