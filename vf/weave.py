"""Mechanical extraction: put specifications on the real, preprocessed source.

weave() only ever INSERTS text (loop contracts, ghost statements) at loop heads and
function entries and RENAMES identifiers token by token (libc names, or the callees
that are replaced by their contracts).  It never alters, reorders or drops executable
text.  Everything is located structurally (function name, n-th loop in it), so comment
and white-space changes or inserted statements do not matter."""
import re


class WeaveError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cmt>/\*.*?\*/|//[^\n]*)
 | (?P<pp>^[ \t]*\#[^\n]*(?:\\\n[^\n]*)*)
 | (?P<str>L?"(?:\\.|[^"\\])*")
 | (?P<chr>L?'(?:\\.|[^'\\])*')
 | (?P<id>[A-Za-z_]\w*)
 | (?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)
 | (?P<op>.)
''', re.X | re.S | re.M)


def tokens(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        out.append((k, m.group(), m.start(), m.end()))
    return out


def sig(toks):
    return [t for t in toks if t[0] not in ('ws', 'cmt', 'pp')]


def find_functions(text):
    """name -> (index range of significant tokens of the body incl. braces)"""
    ts = sig(tokens(text))
    fns = {}
    depth = 0
    i = 0
    n = len(ts)
    while i < n:
        t = ts[i][1]
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
        elif depth == 0 and ts[i][0] == 'id' and i + 1 < n and ts[i + 1][1] == '(':
            # find matching paren
            j = i + 1
            d = 0
            while j < n:
                if ts[j][1] == '(':
                    d += 1
                elif ts[j][1] == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            k = j + 1
            if k < n and ts[k][1] == '{' and ts[i][1] not in ('__attribute__',):
                # body
                d = 0
                e = k
                while e < n:
                    if ts[e][1] == '{':
                        d += 1
                    elif ts[e][1] == '}':
                        d -= 1
                        if d == 0:
                            break
                    e += 1
                fns[ts[i][1]] = (i, k, e)
                i = e + 1
                continue
            i = j
            # fallthrough to continue after ')'
        i += 1
    return ts, fns


def match(ts, i, o, c):
    d = 0
    while i < len(ts):
        if ts[i][1] == o:
            d += 1
        elif ts[i][1] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise WeaveError('unbalanced')


def stmt_end(ts, i):
    """index of the last token of the statement starting at i"""
    t = ts[i][1]
    if t == '{':
        return match(ts, i, '{', '}')
    if t in ('while', 'for', 'switch'):
        return stmt_end(ts, match(ts, i + 1, '(', ')') + 1)
    if t == 'if':
        e = stmt_end(ts, match(ts, i + 1, '(', ')') + 1)
        if e + 1 < len(ts) and ts[e + 1][1] == 'else':
            e = stmt_end(ts, e + 2)
        return e
    if t == 'do':
        e = stmt_end(ts, i + 1)
        e = match(ts, e + 2, '(', ')')
        return e + 1
    if t in ('case', 'default'):
        while ts[i][1] != ':':
            i += 1
        return stmt_end(ts, i + 1)
    if ts[i][0] == 'id' and ts[i + 1][1] == ':' and ts[i + 2][1] != ':':
        return stmt_end(ts, i + 2)
    d = 0
    while True:
        if ts[i][1] in '([{':
            d += 1
        elif ts[i][1] in ')]}':
            d -= 1
        elif ts[i][1] == ';' and d == 0:
            return i
        i += 1


def loops_of(ts, fn):
    """[(kind, head_insert_token_index_after, body_start, body_end)] in source order"""
    i0, b, e = fn
    out = []
    skip = set()
    i = b
    while i < e:
        if i in skip:
            i += 1
            continue
        t = ts[i][1]
        if ts[i][0] == 'id' and t == 'do':
            be = stmt_end(ts, i + 1)
            out.append(('do', i, i + 1, be))
            skip.add(be + 1)  # its while
        elif ts[i][0] == 'id' and t in ('while', 'for'):
            p = match(ts, i + 1, '(', ')')
            out.append((t, p, p + 1, stmt_end(ts, p + 1)))
        i += 1
    return out


def assigned(ts, fn):
    """identifiers the body may assign: x = .., x op= .., ++x, x++ (also *x++), &x"""
    i0, b, e = fn
    out = set()
    for i in range(b, e):
        t = ts[i]
        if t[0] != 'id':
            continue
        n1, n2, n3 = (ts[i + k][1] if i + k <= e else '' for k in (1, 2, 3))
        p1, p2 = ts[i - 1][1], ts[i - 2][1]
        if n1 == '=' and n2 != '=':
            out.add(t[1])
        elif n1 in '+-*/%&|^' and n2 == '=' and n3 != '=':
            out.add(t[1])
        elif n1 in '<>' and n2 == n1 and n3 == '=':
            out.add(t[1])
        elif (n1 in '+-' and n2 == n1) or (p1 in '+-' and p2 == p1):
            out.add(t[1])
        elif p1 == '&' and p2 == '&' and ts[i - 3][1] != '&' and ts[i - 2][3] == ts[i - 1][2]:
            pass  # &&
        elif p1 == '&' and ts[i - 2][0] != 'id' and p2 not in (')', ']'):
            out.add(t[1])
    return out


def loop_count(text, fn):
    ts, fns = find_functions(text)
    if fn not in fns:
        raise WeaveError('function %s not found' % fn)
    return len(loops_of(ts, fns[fn]))


def weave(text, annots=None, rename=None, rename_def=None, rename_in=None, demand_all_loops=True):
    """annots: {fn: {'loops': {idx: {'inv': str, 'pre': str, 'post': str}}, 'entry': str, 'nloops': int}}
    rename: {old: new} all tokens;  rename_def: {fn: new} only the definition's name
    rename_in: {fn: {old: new}} identifier tokens inside one function body"""
    annots = annots or {}
    ts, fns = find_functions(text)
    ins = []  # (pos, text)
    reps = []  # (start,end,text)
    for fn, a in annots.items():
        if fn not in fns:
            raise WeaveError('function %s not found' % fn)
        lps = loops_of(ts, fns[fn])
        if 'nloops' in a and a['nloops'] != len(lps):
            raise WeaveError('function %s: %d loops, contract written for %d' % (fn, len(lps), a['nloops']))
        if a.get('entry'):
            ins.append((ts[fns[fn][1]][3], ' ' + a['entry'] + ' '))
        if 'modset' in a:
            # cut points havoc a fixed list of variables: everything the body assigns must be in it
            mod = assigned(ts, fns[fn])
            if not mod <= set(a['modset']):
                raise WeaveError('function %s assigns %s, not havocked at its cut points' %
                                 (fn, ', '.join(sorted(mod - set(a['modset'])))))
        for lab, txt in a.get('labels', {}).items():
            i0, b0, e0 = fns[fn]
            hit = [i for i in range(b0, e0) if ts[i][1] == lab and ts[i][0] == 'id' and ts[i + 1][1] == ':' and
                   ts[i - 1][1] in (';', '{', '}', ':')]
            if len(hit) != 1:
                raise WeaveError('function %s: label %s' % (fn, lab))
            ins.append((ts[hit[0] + 1][3], ' ' + txt + ' '))
        for idx, l in a.get('loops', {}).items():
            if idx >= len(lps):
                raise WeaveError('function %s: no loop %d' % (fn, idx))
            kind, head, bs, be = lps[idx]
            if l.get('cond'):
                if kind == 'for':
                    q = match(ts, fns[fn][0], '(', ')') if False else None
                    # position of the condition: after the first ';' at depth 1
                    o = head
                    d = 0
                    while True:  # back to the opening parenthesis
                        if ts[o][1] == ')':
                            d += 1
                        elif ts[o][1] == '(':
                            d -= 1
                            if d == 0:
                                break
                        o -= 1
                    d = 0
                    while not (ts[o][1] == ';' and d == 1):
                        d += (ts[o][1] in '([') - (ts[o][1] in ')]')
                        o += 1
                    empty = ts[o + 1][1] == ';'
                    ins.append((ts[o][3], ' ' + l['cond'] + (', 1' if empty else ', ')))
                elif kind == 'while':
                    d = 0
                    o = head
                    while True:
                        if ts[o][1] == ')':
                            d += 1
                        elif ts[o][1] == '(':
                            d -= 1
                            if d == 0:
                                break
                        o -= 1
                    ins.append((ts[o][3], l['cond'] + ', '))
                else:
                    ins.append((ts[be + 2][3], l['cond'] + ', '))
            if l.get('inv'):
                ins.append((ts[head][3], '\n' + l['inv'] + '\n'))
            if l.get('pre') or l.get('post'):
                ins.append((ts[bs][2], '{ ' + l.get('pre', '') + ' '))
                ins.append((ts[be][3], ' ' + l.get('post', '') + ' }'))
    for k, s, a, b in ts:
        if k == 'id' and rename and s in rename:
            reps.append((a, b, rename[s]))
    for fn, new in (rename_def or {}).items():
        if fn not in fns:
            raise WeaveError('function %s not found' % fn)
        t = ts[fns[fn][0]]
        reps.append((t[2], t[3], new))
    for fn, m in (rename_in or {}).items():
        if fn not in fns:
            raise WeaveError('function %s not found' % fn)
        for t in ts[fns[fn][1]:fns[fn][2]]:
            if t[0] == 'id' and t[1] in m:
                reps.append((t[2], t[3], m[t[1]]))
    ev = [(p, 0, i, x) for i, (p, x) in enumerate(ins)]
    edits = [(p, p, x, i) for i, (p, x) in enumerate(ins)] + [(a, b, x, 1 << 30) for a, b, x in reps]
    # apply from the end; insertions at equal positions keep their order
    edits.sort(key=lambda z: (z[0], z[3]))
    out = []
    pos = 0
    for a, b, x, _ in edits:
        out.append(text[pos:a])
        out.append(x)
        pos = max(pos, b)
    out.append(text[pos:])
    return ''.join(out)
