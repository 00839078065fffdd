from vf import *
import re
ASSUMPTIONS = ['int is 16 bits in the 16-bit configuration (cbmc --16), 32 bits in the other']
F = 'lngadd lngeq lngfs lngfu lngltz lngsl lngsub lngts lngtu lngul'.split()
FN = '__lngAdd __lngEq __lngFromSigned __lngFromUnsigned __lngLessThan0 __lngSignedLess __lngSub __lngToSigned __lngToUnsigned __lngUnsignedLess'.split()

class All:
    def __init__(self, cpp=None):
        self.srcs = [Src('srclib/' + f + '.c', cpp=cpp, rename={x: 'sc_' + x for x in FN}) for f in F]
    def make(self, d, proof):
        for s in self.srcs:
            s.make(d, proof)
        with open(os.path.join(d, 'all.h'), 'w') as f:
            f.write(''.join('#include "%s"\n' % s.out for s in self.srcs))
C16 = ['-U__SMALLER_C_32__' if x == '-D__SMALLER_C_32__' else x for x in LIBC_CPP] + ['-D__SMALLER_C_16__']
def units(work, tier):
    fl = ['srclib/%s.c:%s' % z for z in zip(F, FN)]
    return [Unit('lng32', 's08.c', [All()], unwind=6, functions=fl), Unit('lng16', 's08.c', [All(C16)], unwind=6, bits=16, native=False, defs=['INT16'], functions=fl)]
