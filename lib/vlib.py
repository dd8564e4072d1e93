"""Driver for the contract units: compile -> attach contracts -> discharge -> replay."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time

import annotate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
UNITS = os.path.join(VERIF, 'units')
BASE_DEFS = ['-DVERSION_MAJOR=2', '-DVERSION_MINOR=0', '-DVERSION_PATCH=0', '-DVERSION_DEVEL=1']
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


class Unit:
    """One contract under proof.

    props      property ids served; first one owns untagged obligations unless
               every listed property is named by a clause tag
    enforce    function whose contract is enforced (None: harness lemma)
    stage      {source: dict(renames=[..], loops=[..])} sources that get a prepared copy
    bounded    not None: a permanent bounded stand-in, text states the bound
    fallback   dict(defs=[..], unwind=N, bound='..') used when loop contracts
               cannot be attached or the annotated proof fails
    """

    def __init__(self, name, file, props, enforce=None, stage=None, defs=(), unwind=9,
                 bounded=None, fallback=None, timeout=400, cbmc=(), functions=(),
                 trusted=(), thorough=None, tier='quick', small=(), native=True, about='', each=None):
        self.name, self.file, self.props = name, file, list(props)
        self.enforce, self.stage = enforce, stage or {}
        self.defs, self.unwind, self.bounded = list(defs), unwind, bounded
        self.fallback, self.timeout, self.cbmc = fallback, timeout, list(cbmc)
        self.functions = list(functions) or ([enforce] if enforce else [])
        self.trusted, self.thorough, self.tier = list(trusted), thorough, tier
        self.each = each            # regex: obligations solved in a run of their own
        self.small, self.native, self.about = list(small), native, about


class Outcome:
    def __init__(self, unit):
        self.unit = unit
        self.mode = None            # 'proof' | 'bounded'
        self.status = None          # 'pass' | 'fail' | 'error'
        self.props = []             # list of dict(property, description, status, clause, tag)
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.cmds = []
        self.notes = []
        self.error = None
        self.backend = None
        self.trace_inputs = None
        self.failing = []
        self.log = ''


def run(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout after %ds' % timeout


def clause_names(cflags, unit_path, wd):
    """Names of the enforced contract's ensures clauses, in order (by expanding the list)."""
    p = os.path.join(wd, 'names.c')
    open(p, 'w').write('#include "%s"\n#define V_NAME(n, c) @@ n @@\n#ifdef CLAUSES\n'
                       '@@BEGIN CLAUSES(V_NAME)\n#endif\n' % unit_path)
    rc, out, err = run(['gcc', '-E', '-P'] + cflags + [p], 60)
    if rc != 0 or '@@BEGIN' not in out:
        return []
    return re.findall(r'@@ "((?:[^"\\]|\\.)*)" @@', out[out.index('@@BEGIN'):])


def tag_of(text):
    m = re.match(r'\s*\[([A-Z]\d{2,3}(?:,[A-Z]\d{2,3})*)\]', text or '')
    return m.group(1).split(',') if m else None


class Runner:
    def __init__(self, work):
        self.work = work

    def stage(self, unit, wd, bounded, native=False):
        notes = []
        for srcname, sp in unit.stage.items():
            src = open(os.path.join(REPO, 'src', srcname)).read()
            text, n = annotate.prepare(src, os.path.join(REPO, 'src', srcname),
                                       sp.get('renames', ()),
                                       () if bounded else sp.get('loops', ()),
                                       () if native else sp.get('drop', ()),
                                       () if native else sp.get('auto', ()))
            open(os.path.join(wd, srcname), 'w').write(text)
            notes += n
        return notes

    def cflags(self, unit, wd, extra):
        return ['-std=c11', '-I', wd, '-I', UNITS, '-I', os.path.join(REPO, 'include'),
                '-I', os.path.join(REPO, 'src')] + BASE_DEFS + unit.defs + list(extra)

    def attempt(self, unit, bounded, extra_defs=(), unwind=None, trace_for=None, tag='a', traces=False):
        """One compile/instrument/solve pass.  Returns an Outcome."""
        o = Outcome(unit)
        t0 = time.time()
        wd = os.path.join(self.work, unit.name + '.' + tag)
        os.makedirs(wd, exist_ok=True)
        o.mode = 'bounded' if (bounded or unit.bounded) else 'proof'
        try:
            o.notes += self.stage(unit, wd, bounded)
        except (annotate.AnnotateError, OSError) as e:
            o.status, o.error = 'error', 'stage: %s' % e
            return o
        has_loops = (not bounded) and any(sp.get('loops') for sp in unit.stage.values())
        defs = ['-DV_CBMC'] + list(extra_defs)
        if bounded and unit.fallback:
            defs += ['-DV_BOUNDED'] + unit.fallback.get('defs', [])
        cmd = ['goto-cc'] + self.cflags(unit, wd, defs) + ['--function', 'harness',
               os.path.join(UNITS, unit.file), '-o', os.path.join(wd, 'a.gb')]
        rc, out, err = run(cmd, 120)
        o.cmds.append(' '.join(cmd))
        if rc != 0:
            el = [l for l in (err or out).split('\n') if 'error' in l.lower() or 'syntax' in l.lower()]
            o.status, o.error = 'error', 'goto-cc: ' + ('\n'.join(el) or (err or out))[-2000:]
            return o
        gb = os.path.join(wd, 'a.gb')
        if unit.enforce or has_loops:
            cmd = ['goto-instrument', '--dfcc', 'harness']
            if unit.enforce:
                cmd += ['--enforce-contract', unit.enforce]
            if has_loops:
                cmd += ['--apply-loop-contracts']
            cmd += [gb, os.path.join(wd, 'b.gb')]
            rc, out, err = run(cmd, 200)
            o.cmds.append(' '.join(cmd))
            if rc != 0:
                o.status, o.error = 'error', 'goto-instrument: ' + (err + out)[-2000:]
                return o
            gb = os.path.join(wd, 'b.gb')
        uw = unwind or (unit.fallback.get('unwind') if bounded and unit.fallback else None) or unit.unwind
        cmd = ['cbmc', gb, '--unwind', str(uw), '--unwinding-assertions',
               '--json-ui', '--verbosity', '8'] + unit.cbmc
        if trace_for:
            cmd += ['--trace', '--property', trace_for]
        elif traces:
            cmd += ['--trace']
        groups = []
        if unit.each and not trace_for and not traces:
            rc, out, err = run(['cbmc', gb, '--show-properties', '--json-ui', '--unwind', str(uw), '--unwinding-assertions'], 60)
            try:
                ids = [q['name'] for e in json.loads(out) if 'properties' in e for q in e['properties']]
            except ValueError:
                ids = []
            heavy = [i for i in ids if re.search(unit.each, i)]
            rest = [i for i in ids if i not in heavy]
            if heavy and rest:
                groups = [rest] + [[h] for h in heavy]
        o.cmds.append(' '.join(cmd))
        if groups:
            with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
                rs = list(ex.map(lambda g: run(cmd + [x for i in g for x in ('--property', i)], unit.timeout), groups))
            merged = []
            for rc, out, err in rs:
                try:
                    merged += json.loads(out)
                except ValueError:
                    merged = None
                    break
            out = json.dumps(merged) if merged is not None else ''
        else:
            rc, out, err = run(cmd, unit.timeout)
        o.wall_s = time.time() - t0
        try:
            doc = json.loads(out)
        except ValueError:
            o.status, o.error = 'error', 'cbmc: ' + (err or out)[-1500:]
            return o
        results = None
        for e in doc:
            if 'result' in e:
                results = (results or []) + e['result']
            mt = e.get('messageText', '') if isinstance(e, dict) else ''
            m = re.match(r'Runtime decision procedure: ([\d.e+-]+)s', mt)
            if m:
                o.solver_s += float(m.group(1))
            m = re.match(r'(?:Solving with|Passing problem to) (.*)', mt)
            if m and not o.backend:
                o.backend = m.group(1)
            if e.get('messageType') == 'ERROR':
                o.error = mt
        if results is None:
            o.status = 'error'
            o.error = 'cbmc: ' + (o.error or (err or out)[-1500:])
            return o
        names = clause_names(self.cflags(unit, wd, defs), os.path.join(UNITS, unit.file), wd) \
            if unit.enforce else []
        npost = 0
        done = {}
        for r in results:
            if r['property'] in done and not (r['status'] == 'FAILURE' and done[r['property']] != 'FAILURE'):
                continue
            if r['property'] in done:
                o.props = [q for q in o.props if q['property'] != r['property']]
                npost -= 1 if '.postcondition.' in r['property'] else 0
            done[r['property']] = r['status']
            clause = None
            m = re.match(r'(.*)\.postcondition\.(\d+)$', r['property'])
            if m and unit.enforce and m.group(1) == unit.enforce:
                npost += 1
                k = int(m.group(2)) - 1
                clause = names[k] if k < len(names) else None
            desc = clause or r.get('description', '')
            d = dict(property=r['property'], description=desc, status=r['status'], tags=tag_of(desc),
                     line=r.get('sourceLocation', {}).get('line'),
                     file=r.get('sourceLocation', {}).get('file'),
                     function=r.get('sourceLocation', {}).get('function'))
            o.props.append(d)
            if r['status'] == 'FAILURE' and r.get('trace') is not None:
                ins = []
                for s in r['trace']:
                    if s.get('stepType') == 'input':
                        v = s['values'][0] if s.get('values') else {}
                        ins.append((s['inputID'], num(v)))
                o.trace_inputs = ins
                d['inputs'] = ins
        if unit.enforce and names and npost != len(names) and not trace_for:
            o.status = 'error'
            o.error = 'contract has %d clauses but %d postconditions were generated' % (len(names), npost)
            return o
        if not o.props:
            o.status, o.error = 'error', 'no obligations generated'
            return o
        o.failing = [p for p in o.props if p['status'] == 'FAILURE']
        o.status = 'fail' if o.failing else 'pass'
        return o

    def prove(self, unit):
        """Annotated proof first; bounded fallback when it cannot be attached."""
        o = self.attempt(unit, bounded=False)
        if o.status == 'error' and unit.fallback is not None:
            o2 = self.attempt(unit, bounded=True, tag='b')
            o2.notes.insert(0, 'unbounded proof not attempted on this source (%s); same contract checked %s'
                            % ((o.error or '').strip().split('\n')[0][:300],
                               unit.fallback.get('bound', 'bounded')))
            o2.fell_back = True
            return o2
        return o


def num(v):
    if 'binary' in v:
        b = v['binary']
        t = v.get('type', '')
        n = int(b, 2)
        if v.get('name') == 'integer' and 'unsigned' not in t and b[0] == '1' and t not in ('_Bool', 'bool') \
                and not t.startswith('uint') and v.get('name') != 'float':
            n -= 1 << len(b)
        return str(n)
    return str(v.get('data', '0')).rstrip('ul')


_ar_lock = threading.Lock()


def native_archive(runner):
    """The rest of the library, compiled from the current tree, for native replays to link with."""
    with _ar_lock:
        ar = os.path.join(runner.work, 'librest.a')
        if os.path.exists(ar):
            return ar
        objs = []
        for f in sorted(os.listdir(os.path.join(REPO, 'src'))):
            if not f.endswith('.c'):
                continue
            o = os.path.join(runner.work, 'rest_' + f[:-2] + '.o')
            rc, out, err = run(['gcc', '-g', '-O1', '-w', '-std=c11', '-fsanitize=address,undefined',
                                '-I', os.path.join(REPO, 'include')] + BASE_DEFS +
                               ['-c', os.path.join(REPO, 'src', f), '-o', o], 120)
            if rc == 0:
                objs.append(o)
        run(['ar', 'rcs', ar] + objs, 60)
        return ar


def native_compile(unit, wd, runner, bounded=True):
    os.makedirs(wd, exist_ok=True)
    runner.stage(unit, wd, True, native=True)
    exe = os.path.join(wd, 'replay')
    cmd = ['gcc', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
           '-DV_NATIVE'] + runner.cflags(unit, wd, []) + \
          [os.path.join(UNITS, unit.file), '-o', exe, native_archive(runner), '-lyaml', '-lm']
    rc, out, err = run(cmd, 120)
    if rc != 0:
        return None, err
    return exe, ''


def native_run(exe, path):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:exitcode=9'
    env['UBSAN_OPTIONS'] = 'exitcode=9:print_stacktrace=1'
    rc, out, err = run([exe, path], 60, env=env)
    return rc, out, err
