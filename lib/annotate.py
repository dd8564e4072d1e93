"""Mechanical, on-every-run preparation of a source file for a contract unit.

Two operations, both purely textual and both keeping every original token:

 * callee replacement: the definition of a function whose calls are to be
   checked against its contract is bracketed by
       #define NAME NAME__real ... #undef NAME
   so that the calls in the rest of the file reach the unit's contract stub
   (requires asserted, assigned ghosts havocked, ensures assumed);
 * loop contracts: __CPROVER_assigns/loop_invariant/decreases clauses are
   inserted between a loop's header and its body, and optionally an
   instantiation `{ assume; body }` bracket around the body.

#line directives keep diagnostics on /repo's line numbers.
"""
import re


class AnnotateError(Exception):
    pass


def blank(src):
    """Same-length copy of src with comments, strings and preprocessor lines blanked."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    at_bol = True
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            wipe(i, j)
            i = j
        elif src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif c in '"\'':
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            j = min(j + 1, n)
            wipe(i, j)
            i = j
            at_bol = False
        elif c == '#' and at_bol:
            j = i
            while j < n:
                e = src.find('\n', j)
                e = n if e < 0 else e
                if e > 0 and src[e - 1] == '\\':
                    j = e + 1
                    continue
                break
            wipe(i, e)
            i = e
        else:
            if c == '\n':
                at_bol = True
            elif not c.isspace():
                at_bol = False
            i += 1
    return ''.join(out)


def match_close(b, pos, o, c):
    d = 0
    for k in range(pos, len(b)):
        if b[k] == o:
            d += 1
        elif b[k] == c:
            d -= 1
            if d == 0:
                return k
    raise AnnotateError('unbalanced %s' % o)


def functions(src, b=None):
    """name -> (decl_start, body_open, body_close) for each top-level definition."""
    b = b or blank(src)
    res = {}
    depth = 0
    i = 0
    start = 0
    while i < len(b):
        ch = b[i]
        if ch == '{':
            close = match_close(b, i, '{', '}')
            head = b[start:i]
            m = re.search(r'([A-Za-z_]\w*)\s*\(', head)
            if m and head.rstrip().endswith(')') and '=' not in head:
                s = start
                while s < i and b[s].isspace():
                    s += 1
                res[m.group(1)] = (s, i, close)
                start = close + 1
            i = close + 1
            continue
        if ch == ';':
            start = i + 1
        elif ch == '}':
            start = i + 1
        i += 1
    return res


def loops(b, lo, hi):
    """Loops in textual order: (kind, header_open, header_close, body_start, body_end)."""
    res = []
    for m in re.finditer(r'\b(for|while|do)\b', b[lo:hi]):
        p = lo + m.start()
        kind = m.group(1)
        if kind == 'do':
            bo = p + 2
            while b[bo].isspace():
                bo += 1
            if b[bo] != '{':
                continue
            bc = match_close(b, bo, '{', '}')
            m2 = re.match(r'\s*while\s*', b[bc + 1:])
            ho = bc + 1 + m2.end()
            hc = match_close(b, ho, '(', ')')
            res.append(('do', ho, hc, bo, bc))
            continue
        ho = b.index('(', p)
        hc = match_close(b, ho, '(', ')')
        q = hc + 1
        while b[q].isspace():
            q += 1
        if kind == 'while' and b[q] == ';':
            # the tail of do-while
            res = [r for r in res]
            continue
        if b[q] == '{':
            be = match_close(b, q, '{', '}')
        else:
            be = None
        res.append((kind, ho, hc, q, be))
    return res


def line_of(src, pos):
    return src.count('\n', 0, pos) + 1


def prepare(src, name, renames=(), loop_specs=(), drop=(), auto=()):
    """Returns (text, notes).  loop_specs: dicts with keys fn, nth, header (regex
    with group 'i' optional), contract (text, $i substituted), body (optional
    text inserted at the start of the loop body)."""
    b = blank(src)
    fns = functions(src, b)
    edits = []  # (pos, text)
    notes = []
    for r in renames:
        if r not in fns:
            raise AnnotateError('function %s not found in %s' % (r, name))
        s, o, c = fns[r]
        proto = ' '.join(b[s:o].split())
        edits.append((s, '\n%s;\n#define %s %s__real\n#line %d "%s"\n' % (proto, r, r, line_of(src, s), name)))
        edits.append((c + 1, '\n#undef %s\n#line %d "%s"\n' % (r, line_of(src, c + 1), name)))
    for r in drop:
        # not reached from the function under contract, only widens the set of
        # possible targets of calls through function pointers
        if r in fns and r not in renames:
            s, o, c = fns[r]
            proto = ' '.join(b[s:o].split())
            edits.append((s, '\n%s;\n#if 0\n' % proto))
            edits.append((c + 1, '\n#endif\n#line %d "%s"\n' % (line_of(src, c + 1), name)))
    for r in auto:
        # constant tables local to a function: automatic instead of static storage
        # (the verifier would forget the contents of local statics at loop heads)
        if r in fns:
            s, o, c = fns[r]
            for m in re.finditer(r'\bstatic(?= const\b)', b[o:c]):
                edits.append((o + m.start(), '/*'))
                edits.append((o + m.end(), '*/'))
    for sp in loop_specs:
        if sp['fn'] not in fns:
            raise AnnotateError('function %s not found in %s' % (sp['fn'], name))
        s, o, c = fns[sp['fn']]
        cand = loops(b, o, c)
        if sp.get('nth') is not None:
            if sp['nth'] >= len(cand):
                raise AnnotateError('loop %d of %s not found' % (sp['nth'], sp['fn']))
            if sp.get('total') is not None and sp['total'] != len(cand):
                raise AnnotateError('%s has %d loops, expected %d' % (sp['fn'], len(cand), sp['total']))
            cand = [cand[sp['nth']]]
        done = False
        for (kind, ho, hc, q, be) in cand:
            hdr = ('do ' if kind == 'do' else '') + ' '.join(b[ho + 1:hc].split())
            m = re.fullmatch(sp['header'], hdr)
            if not m:
                continue
            gd = m.groupdict()
            for vn, vr in sp.get('vars', {}).items():
                vm = re.search(vr, b[s:c])
                if not vm:
                    raise AnnotateError('variable %s of %s not found' % (vn, sp['fn']))
                gd[vn] = vm.group(1)

            def sub(t):
                for k, v in sorted(gd.items(), key=lambda kv: -len(kv[0])):
                    t = t.replace('$' + k, v or '')
                return ' '.join(t.split())
            edits.append((q if kind == 'do' else hc + 1, ' ' + sub(sp['contract']) + ' '))
            if sp.get('head'):
                hp = ho + 1
                if kind == 'for':
                    hp = b.index(';', hp) + 1
                edits.append((hp, ' ' + sub(sp['head']) + ', '))
            if sp.get('body'):
                if be is None:
                    raise AnnotateError('loop body of %s is not a block' % sp['fn'])
                edits.append((q + 1, ' ' + sub(sp['body']) + ' '))
            notes.append('%s: loop "%s" annotated' % (sp['fn'], hdr))
            done = True
            break
        if not done:
            raise AnnotateError('no loop in %s matches the expected shape' % sp['fn'])
    out = src
    for pos, text in sorted(edits, key=lambda e: -e[0]):
        out = out[:pos] + text + out[pos:]
    return '#line 1 "%s"\n' % name + out, notes


def loop_names(src):
    """Names of functions that contain loops (for reporting)."""
    b = blank(src)
    return {f: len(loops(b, o, c)) for f, (s, o, c) in functions(src, b).items()}
