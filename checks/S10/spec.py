from vf import *
ASSUMPTIONS = ['C locale', 'arguments are representable as unsigned char or EOF; results representable (C requires it)']
S = 'srclib/'
CT = 'ctype isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper'.split()
IN = 'abs labs div'.split()

class All:
    """include all the woven files"""
    def __init__(self, fns, cpp=None):
        self.srcs = [Src(S + f + '.c', cpp=cpp, rename={x: 'sc_' + x for x in CT[1:] + IN + ['ldiv']}) for f in fns]
    def make(self, d, proof):
        for s in self.srcs:
            s.make(d, proof)
        with open(os.path.join(d, 'all.h'), 'w') as f:
            f.write('int sc_tolower(int), sc_toupper(int);\n' + ''.join('#include "%s"\n' % s.out for s in self.srcs))

C16 = ['-U__SMALLER_C_32__' if x == '-D__SMALLER_C_32__' else x for x in LIBC_CPP] + ['-D__SMALLER_C_16__']

def units(work, tier):
    fl = ['srclib/%s.c:%s' % (f, f) for f in CT[1:]]
    return [Unit('ctype', 's10.c', [All(CT)], defs=['CTYPE'], functions=fl), Unit('ctype16', 's10.c', [All(CT, C16)], defs=['CTYPE'], bits=16, native=False, functions=fl),
            Unit('ints', 's10.c', [All(IN)], solver='z3', functions=['srclib/%s.c:%s' % (f, f) for f in IN]),
            Unit('ldiv', 's10.c', [All(['ldiv'])], defs=['LDIV'], solver='z3', functions=['srclib/ldiv.c:ldiv']),
            Unit('ints16', 's10.c', [All(['abs', 'div'], C16)], defs=['INT16'], bits=16, native=False, solver='z3', functions=['srclib/%s.c:%s' % (f, f) for f in ('abs', 'div')])]
