"""Runner: contracts on the real code, discharged by CBMC; counterexamples replayed natively."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import weave as W  # noqa: E402

REPO = os.environ.get('VF_REPO', '/repo')
V = REPO + '/v0100'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

LIBC_CPP = ['-m32', '-nostdinc', '-I', V + '/include', '-I', V + '/srclib', '-D__SMALLER_C__', '-D__SMALLER_C_32__',
            '-D_LINUX', '-D_386', '-D__SMALLER_C_SCHAR__', '-D__SMALLER_C_WCHAR32__', '-D__SMALLER_C_SWCHAR__',
            '-Ddouble=float', '-undef', '-D__GNUC__=4', '-D__CHAR_BIT__=8']


def nproc():
    return min(8, os.cpu_count() or 8)


class Src:
    """A real source file, preprocessed and woven on every run."""

    def __init__(self, path, out=None, cpp=None, annots=None, rename=None, rename_def=None, rename_in=None, post=None,
                 macros=None):
        self.path = path
        self.out = out or (os.path.basename(path).rsplit('.', 1)[0] + '.w.c')
        self.cpp = LIBC_CPP if cpp is None else cpp
        self.annots = annots or {}
        self.rename = rename or {}
        self.rename_def = rename_def or {}
        self.rename_in = rename_in or {}
        self.macros = macros  # regex: object-like macros to keep, written to <base>.m.h
        self.post = post  # callable(text)->text, applied to the preprocessed text (mechanical extraction)

    def make(self, d, proof):
        p = self.path if self.path.startswith('/') else os.path.join(V, self.path)
        r = subprocess.run(['gcc', '-E', '-w'] + self.cpp + [p], capture_output=True, text=True, errors='replace')
        if r.returncode:
            raise W.WeaveError('preprocess %s: %s' % (p, r.stderr[-500:]))
        t = r.stdout
        if self.macros:
            m = subprocess.run(['gcc', '-E', '-dM', '-w'] + self.cpp + [p], capture_output=True, text=True, errors='replace')
            ls = [x for x in m.stdout.split('\n') if re.match(r'#define (%s) ' % self.macros, x)]
            with open(os.path.join(d, os.path.basename(self.out).split('.')[0] + '.m.h'), 'w') as f:
                f.write('\n'.join(ls) + '\n')
        if self.post:
            t = self.post(t)
        t = W.weave(t, self.annots if proof else None, self.rename, self.rename_def, self.rename_in)
        with open(os.path.join(d, self.out), 'w') as f:
            f.write(t)


class Multi(Src):
    """several real source files as one translation unit (their headers are then included once)"""
    def __init__(self, paths, out, **k):
        super().__init__(paths[0], out=out, **k)
        self.paths = paths

    def make(self, d, proof):
        p = os.path.join(d, self.out + '.multi.c')
        with open(p, 'w') as f:
            f.write(''.join('#include "%s"\n' % (x if x.startswith('/') else os.path.join(V, x)) for x in self.paths))
        self.path = p
        super().make(d, proof)


def before(fn, text):
    """post hook: insert text in front of the definition of fn"""
    def f(t):
        m = re.search(r'^[^\n;{}#]*\b%s\s*\([^;{}]*\)\s*\{' % fn, t, re.M)
        if not m:
            raise W.WeaveError('function %s not found' % fn)
        return t[:m.start()] + text + t[m.start():]
    return f


class Unit:
    def __init__(self, name, harness, srcs, entry='harness', defs=(), bits=32, kind='plain', unwind=None, flags=(),
                 solver=None, timeout=300, bounded=None, native=True, native_flags=(), fuzz=True, fuzz_ms=4000,
                 functions=(), proof=True, checks=('bounds', 'pointer', 'div'), note='', incs=(), bound_text='',
                 unwindset=(), gi_flags=(), slow=False, count=0, soft=False, native_defs=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


CHK = {'bounds': '--bounds-check', 'pointer': '--pointer-check', 'div': '--div-by-zero-check',
       'sovf': '--signed-overflow-check', 'uovf': '--unsigned-overflow-check', 'shift': '--undefined-shift-check',
       'ptrovf': '--pointer-overflow-check'}


def sh(cmd, timeout, cwd=None, mem_gb=6):
    """returns rc (None on timeout), stdout, stderr, seconds"""
    t0 = time.time()
    pre = ['prlimit', '--as=%d' % (mem_gb << 30)] if mem_gb else []
    p = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'), time.time() - t0


class Result:
    pass


def hfile(ck, name):
    return os.path.join(VERIF, 'checks', ck, name)


def build(u, ck, d, proof, defs, gi_dfcc):
    os.makedirs(d, exist_ok=True)
    for s in u.srcs:
        s.make(d, proof)
    a = os.path.join(d, 'a.gb')
    b = os.path.join(d, 'b.gb')
    cmd = ['goto-cc', '--%d' % u.bits, '--function', u.entry, '-I', d, '-I', HERE, '-I',
           os.path.join(VERIF, 'checks', ck)]
    for i in u.incs:
        cmd += ['-I', i]
    cmd += ['-D' + x for x in list(u.defs) + list(defs)] + [hfile(ck, u.harness), '-o', a]
    rc, o, e, t = sh(cmd, 120)
    if rc != 0:
        raise W.WeaveError('goto-cc: ' + (o + e)[-1500:])
    if gi_dfcc:
        rc, o, e, t = sh(['goto-instrument', '--no-malloc-may-fail'] + list(u.gi_flags) +
                         ['--dfcc', u.entry, '--apply-loop-contracts', a, b], 200)
        if rc != 0:
            raise W.WeaveError('goto-instrument: ' + (o + e)[-1500:])
        return b
    return a


def cbmc_cmd(u, gb, unwind, unwindset, unwind_assert, solver, extra=()):
    c = ['cbmc', gb, '--%d' % u.bits, '--no-standard-checks', '--no-malloc-may-fail', '--json-ui', '--verbosity', '4',
         '--object-bits', '12' if u.bits == 64 else '8']
    c += ['--drop-unused-functions'] + [CHK[x] for x in u.checks]
    c += list(u.flags)
    if unwind is not None:
        c += ['--unwind', str(unwind)]
    if unwindset:
        c += ['--unwindset', ','.join(unwindset)]
    if unwind_assert:
        c += ['--unwinding-assertions']
    elif unwind is not None:
        c += ['--no-unwinding-assertions']
    if solver == 'cvc5':
        c += ['--cvc5']
    elif solver == 'z3':
        c += ['--z3']
    c += list(extra)
    return c


def parse(o):
    """-> (results or None, messages)"""
    try:
        js = json.loads(o)
    except Exception:
        return None, o[-800:]
    res = None
    msgs = []
    for m in js:
        if not isinstance(m, dict):
            continue
        if 'result' in m:
            res = m['result']
        if 'messageText' in m and m.get('messageType') in ('ERROR', 'WARNING'):
            msgs.append(m['messageText'])
    return res, ' | '.join(msgs)[-800:]


def bin2int(v):
    b = v.get('binary')
    if b is not None and re.fullmatch('[01]+', b):
        return int(b, 2)
    d = v.get('data', '0')
    d = re.sub('[a-zA-Z]+$', '', d)
    try:
        x = int(d)
    except ValueError:
        if d == 'TRUE':
            x = 1
        elif d == 'FALSE':
            x = 0
        elif len(d) >= 3 and d[0] == "'":
            x = ord(d[1])
        else:
            x = 0
    return x


def trace_inputs(tr):
    out = []
    for s in tr:
        if s.get('stepType') == 'input' and not s.get('hidden_'):
            vs = s.get('values') or []
            if vs:
                out.append((s.get('inputID', '?'), bin2int(vs[0]) & ((1 << 64) - 1)))
    return out


def native_build(u, ck, d, defs):
    exe = os.path.join(d, 'native')
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    for s in u.srcs:
        s.make(d, False)
    cmd = ['gcc', '-w', '-O1', '-g', '-fno-builtin', '-fno-strict-aliasing', '-fwrapv', '-fno-tree-loop-distribute-patterns',
           '-fsigned-char', '-DVF_NATIVE', '-I', d, '-I', HERE, '-I', os.path.join(VERIF, 'checks', ck)]
    for i in u.incs:
        cmd += ['-I', i]
    if u.bits == 32:
        cmd += ['-m32', '-msse2', '-mfpmath=sse', '-static', '-nostdlib', '-ffreestanding', '-fno-pic', '-no-pie',
                '-fno-stack-protector', '-fcf-protection=none']
    cmd += list(u.native_flags)
    cmd += ['-Dharness=vf_unused_harness'] if False else []
    cmd += ['-D' + x for x in list(u.defs) + list(defs) + list(u.native_defs)]
    cmd += ['-o', exe, hfile(ck, u.harness)]
    rt = os.path.join(HERE, 'vfrt.c')
    obj = os.path.join(d, 'vfrt.o')
    c2 = ['gcc', '-w', '-O1', '-fno-builtin', '-c', rt, '-o', obj, '-Dharness=' + u.entry,
          '-fno-tree-loop-distribute-patterns', '-fno-stack-protector']
    if u.bits == 32:
        c2 += ['-m32', '-ffreestanding', '-fno-pic', '-fcf-protection=none', '-msse2']
    rc, o, e, t = sh(c2, 60, mem_gb=0)
    if rc == 0:
        cmd.insert(-3, obj) if False else cmd.append(obj)
        rc, o, e, t = sh(cmd + (['-lm'] if u.bits == 64 else []), 120, mem_gb=0)
    if rc != 0:
        raise W.WeaveError('native build: ' + (o + e)[-1200:])
    return exe


def native_replay(exe, inputs, d, tag, timeout=10):
    f = os.path.join(d, 'in_%s.bin' % tag)
    with open(f, 'wb') as fh:
        for _, v in inputs:
            fh.write(struct.pack('<Q', v & ((1 << 64) - 1)))
    rc, o, e, t = sh([exe, 'r', f], timeout, mem_gb=0)
    if rc is None:
        return 'real code does not terminate within %ds on this input' % timeout
    if rc == 42:
        m = re.search('VF-FAIL (.*)', o)
        return 'failed: ' + (m.group(1) if m else '?')
    if rc < 0:
        return 'real code killed by signal %d on this input' % -rc
    return None


def native_fuzz(exe, ms, count=1 << 40):
    """-> (inputs, what) or None, n_valid"""
    rc, o, e, t = sh([exe, 'f', str(SEED), str(count), str(ms)], ms / 1000.0 + 20, mem_gb=0)
    m = re.search(r'DONE (\w+) VALID (\w+)', o)
    if m:
        return None, int(m.group(2), 16)
    it = None
    m = re.search(r'ITER (\w+)', o)
    if rc == 42 and m:
        it = int(m.group(1), 16)
    else:
        at = re.findall(r'AT (\w+)', o)
        if not at or rc in (8, 9):
            return None, 0
        a = int(at[-1], 16)
        rc2, o2, e2, t = sh([exe, 'g', str(SEED), str(a), str(a + 1025)], 40, mem_gb=0)
        at = re.findall(r'AT (\w+)', o2)
        if not at or rc2 == 0:
            return None, 0
        it = int(at[-1], 16)
    rc3, o3, e3, t = sh([exe, 'p', str(SEED), str(it)], 20, mem_gb=0)
    ins = [(a, int(b, 16)) for a, b in re.findall(r'IN (\S+) (\w+)', o3)]
    return ins, 0


SOFT = ('unwinding assertion', 'recursion unwinding', 'unwind')


def run_native(u, ck, d, R, t0):
    """bounded stand-in: the real code executed on an enumerated domain (count) or for a time"""
    R.solver_s = 0.0
    R.cmd = 'native execution'
    R.tried = []
    try:
        exe = native_build(u, ck, os.path.join(d, 'native'), [])
        ms = u.fuzz_ms * (5 if TIER == 'thorough' and not u.count else 1)
        ins, nv = native_fuzz(exe, ms, u.count or (1 << 40))
        R.obl = 1
        if ins is None:
            R.detail = '%d executions' % nv
            if nv == 0:
                R.status = 'vacuous'
            elif u.count and nv < u.count:
                R.status = 'bounded'
                R.detail += ' (time limit before the end of the domain of %d)' % u.count
            else:
                R.status = 'bounded'
            R.dis = 1
        else:
            what = native_replay(exe, ins, d, 'f')
            R.status = 'refuted' if what else 'undecided'
            if what:
                R.failed = [(u.name, what, 'native execution')]
                R.violation = dict(kind='concrete', inputs=ins, what=what, obligation='native execution', defs=[])
    except W.WeaveError as x:
        R.status = 'attach'
        R.detail = str(x)
    R.wall = time.time() - t0
    return R


def run_unit(u, ck, work, log, deadline):
    R = Result()
    R.unit = u
    R.status = '?'
    R.obl = R.dis = 0
    R.solver_s = 0.0
    R.detail = ''
    R.failed = []
    R.violation = None
    R.bounded = None
    R.labels = []
    t0 = time.time()
    d = os.path.join(work, u.name)
    hard = []
    tmo = min(u.timeout * (4 if TIER == 'thorough' else 1), max(30, deadline - time.time() - 60))
    if u.kind == 'native':
        return run_native(u, ck, d, R, t0)
    # 1. the proof
    try:
        gb = build(u, ck, os.path.join(d, 'proof'), True, ['VF_PROOF'], u.kind == 'dfcc')
        cmd = cbmc_cmd(u, gb, u.unwind, u.unwindset, True, u.solver)
        R.cmd = ' '.join(cmd)
        rc, o, e, t = sh(cmd, tmo, mem_gb=10)
        R.solver_s = t
        if rc is None:
            R.status = 'timeout'
        else:
            res, msg = parse(o)
            if not res:
                R.status = 'toolerror'
                R.detail = msg or e[-500:]
            else:
                reach = [r for r in res if r['description'].startswith('REACH')]
                obl = [r for r in res if not r['description'].startswith('REACH')]
                R.obl = len(obl)
                R.dis = sum(r['status'] == 'SUCCESS' for r in obl)
                R.labels = sorted(set(r['description'][4:] for r in obl if r['description'].startswith('VF: ')))
                R.failed = [(r['property'], r['description'], (r.get('sourceLocation') or {}).get('file', '') + ':' +
                             (r.get('sourceLocation') or {}).get('line', '')) for r in obl if r['status'] == 'FAILURE']
                unreached = [r['description'] for r in reach if r['status'] != 'FAILURE']
                if R.failed:
                    hard = [f for f in R.failed if not any(s in f[1] for s in SOFT)]
                    R.status = 'refuted' if hard else 'unwind'
                elif R.dis != R.obl:
                    R.status = 'undecided'
                elif unreached or not reach:
                    R.status = 'vacuous'
                    R.detail = 'not reachable: ' + ', '.join(unreached or ['no reachability marker'])
                else:
                    R.status = 'proved' if u.proof else 'bounded'
    except W.WeaveError as x:
        R.status = 'attach'
        R.detail = str(x)
    if os.environ.get('VF_FORCE') and R.status in ('proved', 'bounded'):
        R.status = 'forced'
    if u.proof is False and R.status == 'proved':
        R.status = 'bounded'
    if R.status in ('proved', 'bounded'):
        R.wall = time.time() - t0
        return R

    # 2. look for a failing input: bounded configurations of the same harness on the real code
    found = None
    tried = []
    cfgs = list(u.bounded or [])
    if u.kind == 'plain' and R.status == 'refuted':
        cfgs.insert(0, dict(same=True))
    nd = os.path.join(d, 'native')
    exe = None
    if u.native:
        try:
            exe = native_build(u, ck, nd, (cfgs and cfgs[-1].get('defs')) or [])
        except W.WeaveError as x:
            R.detail += ' | ' + str(x)
    for i, c in enumerate(cfgs):
        if time.time() > deadline - 40:
            break
        try:
            if c.get('same'):
                gb = os.path.join(d, 'proof', 'a.gb')
                cc = cbmc_cmd(u, gb, u.unwind, u.unwindset, True, u.solver, ['--trace'])
                ndefs = []
                tmo2 = tmo
            else:
                gb = build(u, ck, os.path.join(d, 'b%d' % i), False, c.get('defs', []), False)
                cc = cbmc_cmd(u, gb, c.get('unwind', u.unwind), c.get('unwindset', u.unwindset), False,
                              c.get('solver'), ['--trace'])
                ndefs = c.get('defs', [])
                tmo2 = min(c.get('timeout', 120), deadline - time.time() - 20)
            rc, o, e, t = sh(cc, tmo2, mem_gb=10)
            if rc is None:
                tried.append('bounded[%d]: timeout' % i)
                continue
            res, msg = parse(o)
            if res is None:
                tried.append('bounded[%d]: %s' % (i, msg[-300:]))
                continue
            bad = [r for r in res if r['status'] == 'FAILURE' and not r['description'].startswith('REACH') and
                   not any(s in r['description'] for s in SOFT)]
            bad.sort(key=lambda r: not r['description'].startswith('VF:'))
            tried.append('bounded[%d] %s: %d obligations, %d fail' % (i, c.get('text', 'full domain' if c.get('same')
                         else ''), len(res), len(bad)))
            R.bounded = R.bounded or (not bad and not c.get('same'))
            if not exe and bad:
                continue
            for r in bad[:6]:
                if not r.get('trace'):
                    continue
                ins = trace_inputs(r['trace'])
                cexe = exe
                if ndefs and u.native:
                    cexe = native_build(u, ck, os.path.join(d, 'native%d' % i), ndefs)
                what = native_replay(cexe, ins, d, 'c%d' % i)
                if what:
                    found = (ins, what, r['description'], ndefs)
                    break
                tried.append('counterexample of "%s" does not reproduce natively' % r['description'])
        except W.WeaveError as x:
            tried.append('bounded[%d]: %s' % (i, str(x)[-300:]))
        if found:
            break
    # 3. native search with the same harness as oracle
    if not found and exe and u.fuzz and time.time() < deadline - 30:
        try:
            ins, nv = native_fuzz(exe, u.fuzz_ms * (5 if TIER == 'thorough' else 1))
            if ins is not None:
                what = native_replay(exe, ins, d, 'f')
                if what:
                    found = (ins, what, 'native search', (cfgs and cfgs[-1].get('defs')) or [])
            else:
                tried.append('native search: %d valid runs, none fails' % nv)
        except W.WeaveError as x:
            tried.append(str(x)[-200:])
    R.tried = tried
    if found:
        R.violation = dict(kind='concrete', inputs=found[0], what=found[1], obligation=found[2], defs=found[3])
    elif R.status == 'refuted' and not u.soft:
        R.violation = dict(kind='nfif', failed=hard)
    R.wall = time.time() - t0
    return R


def write_replay(ck, R, n):
    rd = os.path.join(VERIF, 'replay', ck)
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, '%s_%s.json' % (TIER, R.unit.name))
    v = R.violation
    j = dict(property=ck, unit=R.unit.name, functions=list(R.unit.functions), proof_status=R.status,
             failed_obligations=R.failed, verifier=getattr(R, 'cmd', ''), tried=getattr(R, 'tried', []))
    if v['kind'] == 'concrete':
        j.update(kind='failing input', what=v['what'], obligation=v['obligation'], defs=v['defs'],
                 inputs=[[a, b] for a, b in v['inputs']],
                 rerun='python3 /verif/vf/vf.py replay %s' % p)
    else:
        j.update(kind='no-failing-input-found', note='obligations of the proof that the verifier refutes on this source')
    with open(p, 'w') as f:
        json.dump(j, f, indent=1)
    return p


def known_findings(ck):
    out = []
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get('property') == ck and k.get('status') == 'known':
                out.append(k)
    return out


def load(ck):
    import importlib.util
    p = os.path.join(VERIF, 'checks', ck, 'spec.py')
    sp = importlib.util.spec_from_file_location('spec_' + ck, p)
    m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.dirname(p))
    sp.loader.exec_module(m)
    return m


def run_check(ck, only=None):
    t0 = time.time()
    deadline = t0 + (820 if TIER != 'thorough' else 7200)
    m = load(ck)
    work = tempfile.mkdtemp(prefix='vf.%s.' % ck)
    viol = []
    results = []
    try:
        units = [u for u in m.units(work, TIER) if not only or re.search(only, u.name)]
        with cf.ThreadPoolExecutor(getattr(m, 'JOBS', nproc())) as ex:
            futs = [ex.submit(run_unit, u, ck, work, None, deadline) for u in
                    sorted(units, key=lambda u: not u.slow)]
            for f in cf.as_completed(futs):
                R = f.result()
                results.append(R)
                print('%-28s %-9s obligations %d/%d  %.1fs %s' % (R.unit.name, R.status, R.dis, R.obl, R.wall,
                                                                  R.detail[-600:]), flush=True)
                for t in getattr(R, 'tried', []):
                    print('    ' + t)
                for f_ in R.failed[:12]:
                    print('    failed obligation: %s %s [%s]' % f_)
        extra = []
        if hasattr(m, 'extra'):
            extra = m.extra(work, TIER) or []  # list of dict(name, ok, detail, obligations, discharged, violation, ...)
        results.sort(key=lambda R: R.unit.name)
        kf = known_findings(ck)
        for R in results:
            if R.violation:
                k = [x for x in kf if x.get('unit') == R.unit.name and
                     set(f[1] for f in R.failed) <= set(x.get('obligations', []))]
                if k:
                    print('KNOWN-FINDING: property=%s %s' % (ck, k[0]['what']))
                    continue
                p = write_replay(ck, R, len(viol))
                viol.append((p, R.violation['kind']))
                if R.violation['kind'] == 'concrete':
                    print('%s: %s; inputs %s' % (R.unit.name, R.violation['what'],
                                                 ' '.join('%s=%d' % x for x in R.violation['inputs'][:40])))
        for x in extra:
            print('%-28s %s %s' % (x['name'], 'ok' if x['ok'] else 'FAILED', x.get('detail', '')[:1500]))
            if not x['ok'] and x.get('violation', True):
                k = [y for y in kf if y.get('unit') == x['name'] and y.get('case') in (None, x.get('case'))]
                if k:
                    print('KNOWN-FINDING: property=%s %s' % (ck, k[0]['what']))
                    continue
                rd = os.path.join(VERIF, 'replay', ck)
                os.makedirs(rd, exist_ok=True)
                p = os.path.join(rd, '%s_%s.json' % (TIER, x['name']))
                json.dump(x, open(p, 'w'), indent=1, default=str)
                viol.append((p, x.get('kind', 'concrete')))
        # evidence
        proved = [R for R in results if R.status == 'proved']
        ob = sum(R.obl for R in results if R.unit.proof and R.unit.kind != 'native') + sum(x.get('obligations', 0) for x in extra)
        di = sum(R.dis for R in results if R.unit.proof and R.status == 'proved') + \
            sum(x.get('discharged', 0) for x in extra)
        ev = dict(property=ck, tier=TIER, seed=SEED, level=getattr(m, 'LEVEL', 'proof'), wall_s=round(time.time() - t0, 2),
                  violations=len(viol),
                  assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
                  coverage=dict(
                      obligations=ob, discharged=di,
                      checker_cmd='cbmc 6.11.0 (goto-cc; goto-instrument --dfcc --apply-loop-contracts where kind=dfcc); '
                                  'back ends: MiniSat2 (default), cvc5 1.1.2, z3',
                      trusted_base=list(getattr(m, 'TRUSTED', [])) + COMMON_TRUSTED,
                      functions_under_contract=sorted(set(f for R in proved for f in R.unit.functions)),
                      bounded_only=[dict(unit=R.unit.name, functions=list(R.unit.functions), bound=R.unit.bound_text, executed=R.detail if R.unit.kind == 'native' else '',
                                         obligations=R.obl, discharged=R.dis) for R in results if R.status == 'bounded'],
                      undecided=[dict(unit=R.unit.name, status=R.status, detail=R.detail[-300:],
                                      tried=getattr(R, 'tried', [])) for R in results
                                 if R.status not in ('proved', 'bounded') and not R.violation],
                      solver_seconds=round(sum(R.solver_s for R in results), 1),
                      units=[dict(unit=R.unit.name, status=R.status, kind=R.unit.kind, backend=R.unit.solver or 'sat',
                                  obligations=R.obl, discharged=R.dis, solver_s=round(R.solver_s, 2),
                                  functions=list(R.unit.functions), postconditions=R.labels)
                             for R in results],
                      extra=[{k: v for k, v in x.items() if k not in ('violation',)} for x in extra],
                  ))
        if hasattr(m, 'evidence'):
            m.evidence(ev, results, extra)
        if not only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', ck + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        und = [R.unit.name for R in results if R.status not in ('proved', 'bounded') and not R.violation]
        print('%s: %d units, %d proved, %d bounded, %d undecided; obligations %d/%d; %.1fs' % (
            ck, len(results), len(proved), sum(R.status == 'bounded' for R in results), len(und), di, ob,
            time.time() - t0))
        if und:
            print('UNDECIDED (no violation found, nothing claimed): ' + ', '.join(und))
        conc = [v for v in viol if v[1] == 'concrete']
        for p, k in (conc or viol):
            print('VIOLATION property=%s replay=%s%s' % (ck, p, '' if k == 'concrete' else ' no-failing-input-found'))
        return 1 if viol else 0
    finally:
        if os.environ.get('VF_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


COMMON_ASSUMPTIONS = [
    'CBMC front end, symbolic execution and the SAT/SMT back end are sound; gcc -E preprocesses as the build does',
    'malloc in harnesses does not fail; objects obtained by the harness do not overlap unless stated',
]
COMMON_TRUSTED = ['cbmc/goto-cc/goto-instrument 6.11.0', 'gcc 13.3 preprocessor', '/verif/vf/weave.py (insert-only weaving)',
                  'harness preconditions (VF_ASSUME) as listed per unit']


def replay(p):
    j = json.load(open(p))
    if j.get('kind') != 'failing input':
        print(json.dumps(j, indent=1))
        return 0
    m = load(j['property'])
    work = tempfile.mkdtemp(prefix='vf.replay.')
    try:
        u = [x for x in m.units(work, TIER) if x.name == j['unit']][0]
        exe = native_build(u, j['property'], os.path.join(work, 'n'), j['defs'])
        w = native_replay(exe, j['inputs'], work, 'r')
        print(w or 'passes')
        return 1 if w else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'z3', 'cvc5'):
            if not shutil.which(t):
                sys.exit('missing tool: ' + t)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        sys.exit(0)
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    try:
        rc = run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
