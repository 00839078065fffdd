from vf import *
ASSUMPTIONS = ['time zone offset reported by the system within +-24 h', 'fields passed to strftime in the ranges the C standard gives them, years 1 to 9999']
TRUSTED = ['the gettimeofday system call stub (inline assembly) is replaced by its contract: it fills in the zone or fails']
S = 'srclib/'
import datetime, calendar
class Cal:
    """the oracle's calendar tables, from Python's proleptic Gregorian calendar"""
    def make(self, d, proof):
        e = datetime.date(1970, 1, 1)
        Y = range(1970, 2107)
        open(os.path.join(d, 'cal.h'), 'w').write('static const unsigned short NEWYEAR[] = {%s};\nstatic const char LEAP[] = {%s};\nstatic const unsigned YEARSEC[] = {%s};\n' % (
            ','.join(str((datetime.date(y, 1, 1) - e).days) for y in Y), ','.join(str(int(calendar.isleap(y))) for y in Y), ','.join('%uu' % ((datetime.date(y, 1, 1) - e).days * 86400) for y in Y)))
def step(t):
    """ghost: the time of day left after the days are taken off is generalised to any below a day"""
    r, n = re.subn(r'(\n[ \t]*tm\.tm_hour = )', r'\n  VF_STEP(trem)\1', t, count=1)
    return r
NOASM = lambda t: re.sub(r'\basm\s*\((?:\s*"(?:[^"\\]|\\.)*")*\s*\)\s*;', '', t)
REN = {x: 'sc_' + x for x in 'mktime gmtime localtime strftime difftime time'.split()}

def src(f, **k):
    return Src(S + f + '.c', rename=REN, **k)

def units(work, tier):
    base = [Multi([S + 'time1.c', S + 'brktime.c', S + 'bldtime.c'], 'all.w.c', post=step), Cal()]
    zone = lambda f: [Multi([S + 'gmtime.c', S + f + '.c'], 'all.w.c', rename=REN, post=lambda t: 'static int SysGettimeofday(long tv[2], int tz[2]);\n' + NOASM(t), rename_def={'SysGettimeofday': 'real_gtod'})]
    U = [Unit('break%d' % i, 's06.c', base, defs=['BREAK'] + ['PART=%d' % i], unwind=10, timeout=600, functions=['srclib/brktime.c:__breaktime', 'srclib/time1.c:__isleap'], fuzz_ms=2000) for i in (0, 1, 3)]
    CUTS = [0, 12418, 24837, 37255, 49673]
    U += [Unit('break2%s' % 'abcd'[i], 's06.c', base, defs=['BREAK', 'PART=2', 'LO=%uu' % CUTS[i], 'HI=%uu' % CUTS[i + 1]], unwind=10, timeout=600, functions=['srclib/brktime.c:__breaktime', 'srclib/time1.c:__isleap'], fuzz_ms=500) for i in range(4)]
    U += [Unit('build%d' % i, 's06.c', base, defs=['BUILD'] + ['PART=%d' % i], unwind=2, timeout=600, functions=['srclib/bldtime.c:__buildtime'], fuzz_ms=2000) for i in range(3)]
    U += [
         Unit('localtime', 's06.c', zone('localtim'), defs=['ZONE', 'LT'], functions=['srclib/gmtime.c:gmtime', 'srclib/localtim.c:localtime'], fuzz_ms=1000),
         Unit('mktime', 's06.c', zone('mktime'), defs=['ZONE'], functions=['srclib/gmtime.c:gmtime', 'srclib/mktime.c:mktime'], fuzz_ms=1000)]
    for c in 'aAbBhdejmuHIMSnptwqCyYUWcDFrRTxXgGV':
        U.append(Unit('fmt_' + c, 's06.c', [Multi([S + 'time1.c', S + 'strftime.c'], 'all.w.c', rename=REN)], defs=['FMT="%s"' % c], unwind=14, timeout=400, functions=['srclib/strftime.c:doformat'], fuzz_ms=1000))
    h = dict(loops={0: dict(cond="""({ VF_CUT(cut_a, SO(fmt, gF) && PO(fmt) <= gL && STEPOK(PO(fmt)), { fmt = gF + vf_ndu(); c = vf_ndi(); })
        gPos = PO(fmt); gEv = 0; vf_inst((gPos == gL) == (gF[gPos] == 0)); vf_inst(gPos >= gL || (gPos + 1 == gL) == (gF[gPos + 1] == 0)); vf_inst(gPos + 1 >= gL || (gPos + 2 == gL) == (gF[gPos + 2] == 0)); 1; })""")}, nloops=1, entry='int cut_a = 0;', modset=['fmt', 'c'])
    for nm in ('scan', 'result'):
        U.append(Unit(nm, 's06.c', [Multi([S + 'time1.c', S + 'strftime.c'], 'all.w.c', rename=REN, annots={'helper': h} if nm == 'scan' else {}, post=before('helper', '#include "scan.h"\n'),
            rename_in={'helper': {'doformat': 'stub_doformat', '__putc': 'stub_putc'}} if nm == 'scan' else {'strftime': {'helper': 'stub_helper'}})], defs=[nm.upper()], unwind=4 if nm == 'scan' else 2, functions=['srclib/strftime.c:' + ('helper' if nm == 'scan' else 'strftime')], fuzz_ms=2000))
    return U
