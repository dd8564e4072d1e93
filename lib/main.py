import argparse
import concurrent.futures
import glob
import json
import os
import shutil
import sys
import tempfile
import time

import vlib
import registry
from vlib import VERIF, REPO


def relevant(p, prop, unit):
    """Does obligation p count for property prop?"""
    if p['tags'] is not None:
        return prop in p['tags']
    return prop == unit.props[0] or prop in unit.props[:unit.owners]


def replay_file(prop, unit, name, body):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.replay' % (prop, name))
    with open(path, 'w') as f:
        f.write(body)
    return path


def investigate(runner, unit, o, prop):
    """A failed obligation: get concrete inputs from the verifier and run the real code on them.
    Returns (reproduced, obligation, inputs, text)."""
    fails = [p for p in o.failing if relevant(p, prop, unit)]
    loopy = any(sp.get('loops') for sp in unit.stage.values())
    exe, err = None, 'native replay not available for this unit'
    if unit.native:
        try:
            exe, err = vlib.native_compile(unit, os.path.join(runner.work, unit.name + '.n'), runner)
        except Exception as e:  # staging problem
            exe, err = None, str(e)
    best = None

    def rank(p):
        return 0 if '.postcondition.' in p['property'] else 1 if '.assertion.' in p['property'] else 2
    variants = []
    if unit.fallback is not None and loopy:
        variants += [(True, ['-DV_SMALL'], 's'), (True, [], 't')]
    else:
        variants += [(False, ['-DV_SMALL'], 's'), (False, [], 'u')]
    seen = set()
    for (bd, defs, tag) in variants:
        t = runner.attempt(unit, bounded=bd, extra_defs=defs, tag=tag, traces=True)
        if t.status != 'fail':
            continue
        for p in sorted([q for q in t.failing if relevant(q, prop, unit)], key=rank)[:8]:
            if not p.get('inputs'):
                continue
            body = '\n'.join('%s %s' % (n, v) for n, v in p['inputs']) + '\n'
            if body in seen:
                continue
            seen.add(body)
            if exe is None:
                best = best or (p, body, 'no native replay: ' + err)
                break
            ip = os.path.join(runner.work, unit.name + '.in')
            open(ip, 'w').write(body)
            rc, out, er = vlib.native_run(exe, ip)
            text = 'native exit %d\n%s\n%s' % (rc, out[:4000], er[:4000])
            if rc not in (0, 3, 124):
                return True, p, body, text
            best = best or (p, body, text)
    if best:
        return (False,) + best
    return False, fails[0], '', err


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--bounded', action='store_true', help='force the bounded fallback (development)')
    a = ap.parse_args(argv)
    t0 = time.time()
    units = [u for u in registry.UNITS if a.prop in u.props and (a.unit is None or u.name == a.unit)]
    if a.tier != 'thorough':
        units = [u for u in units if u.tier == 'quick']
    if not units:
        print('no units for', a.prop)
        return 2
    for f in glob.glob(os.path.join(VERIF, 'replays', a.prop + '-*.replay')):
        os.unlink(f)
    work = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    try:
        return decide(a, units, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(a, units, work, t0):
    prop = a.prop
    runner = vlib.Runner(work)
    outs = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=vlib.JOBS) as ex:
        fn = runner.prove if not a.bounded else lambda u: runner.attempt(u, bounded=u.fallback is not None)
        futs = {ex.submit(fn, u): u for u in units}
        for f in concurrent.futures.as_completed(futs):
            outs.append(f.result())
    outs.sort(key=lambda o: [u.name for u in units].index(o.unit.name))
    violations = []
    known = known_findings(prop)
    known_hit = set()
    rows = []
    for o in outs:
        u = o.unit
        mine = [p for p in o.props if relevant(p, prop, u)]
        bad = [p for p in mine if p['status'] == 'FAILURE']
        row = dict(unit=u.name, functions=u.functions, mode=o.mode, status=o.status, bound=bound_text(u, o),
                   obligations=len(mine), discharged=len([p for p in mine if p['status'] == 'SUCCESS']),
                   clauses=sorted(set(p['description'] for p in mine if ('.postcondition.' in p['property'] or
                                  '.assertion.' in p['property']) and p['status'] == 'SUCCESS' and p['tags'] is not None
                                  or '.postcondition.' in p['property'])),
                   solver_s=round(o.solver_s, 3), wall_s=round(o.wall_s, 2), backend=o.backend,
                   notes=o.notes, error=o.error)
        rows.append(row)
        if a.v:
            print('%-28s %-8s %-6s %4d/%4d %6.2fs %s' % (u.name, o.mode, o.status, row['discharged'],
                  row['obligations'], o.wall_s, (o.error or '')[:600]))
            for p in bad:
                print('     FAIL', p['property'], '|', p['description'], '|', p['function'], p['line'])
            for n in o.notes:
                print('     note:', n)
        if o.status == 'error':
            body = 'property: %s\nunit: %s\nno verdict from the verifier on this source\n%s\n%s\n' % (
                prop, u.name, o.error, '\n'.join(o.cmds))
            path = replay_file(prop, u, u.name, body)
            violations.append((path, True, u.name + ': ' + (o.error or '')[:200]))
            continue
        if not bad:
            continue
        kf = [k for k in known if k['unit'] == u.name and all(b['description'] in k['obligations'] for b in bad)]
        if kf:
            known_hit.add(kf[0]['line'])
            continue
        repro, p, inputs, text = investigate(runner, u, o, prop)
        body = ('property: %s\nunit: %s (%s)\nfunction: %s\nfailed obligation: %s\n  %s\n  at %s:%s (%s)\nmode: %s\n'
                'all failed obligations of this property in this unit:\n%s\n\n--- verifier counterexample (inputs) ---\n%s\n'
                '--- replay on the real code (%s) ---\n%s\n--- commands ---\n%s\n' % (
                    prop, u.name, u.file, u.enforce, p['property'], p['description'], p['file'], p['line'], p['function'],
                    o.mode, '\n'.join('  %s: %s' % (b['property'], b['description']) for b in bad), inputs,
                    'reproduced' if repro else 'not reproduced', text, '\n'.join(o.cmds)))
        path = replay_file(prop, u, u.name, body)
        violations.append((path, not repro, '%s: %s' % (u.name, p['description'])))
    for line in sorted(known_hit):
        print(line)
    write_evidence(a, prop, rows, outs, violations, time.time() - t0)
    if violations:
        violations.sort(key=lambda v: v[1])
        for path, nf, what in violations:
            print('# failed: %s' % what)
        for path, nf, what in violations:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if nf else ''))
        return 1
    ob = sum(r['obligations'] for r in rows)
    print('OK %s: %d units, %d obligations discharged, %.1fs' % (prop, len(rows), ob, time.time() - t0))
    return 0


def bound_text(u, o):
    if u.bounded:
        return u.bounded
    if o.mode == 'bounded' and u.fallback:
        return u.fallback.get('bound', 'bounded')
    return None


def known_findings(prop):
    """known-findings.txt: 'KNOWN-FINDING: property=P unit=U obligations="..." | what' lines."""
    path = os.path.join(VERIF, 'known-findings.jsonl')
    res = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if not ln:
                continue
            k = json.loads(ln)
            if k.get('kind') == 'known' and k['property'] == prop:
                k['line'] = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
                res.append(k)
    return res


def write_evidence(a, prop, rows, outs, violations, wall):
    proved = [r for r in rows if r['mode'] == 'proof']
    bnd = [r for r in rows if r['mode'] == 'bounded']
    trusted = set(registry.TRUSTED_ALWAYS)
    for o in outs:
        trusted.update(o.unit.trusted)
    level = registry.LEVELS.get(prop, 'proof')
    cov = dict(
        obligations=sum(r['obligations'] for r in proved),
        discharged=sum(r['discharged'] for r in proved),
        checker_cmd='goto-cc | goto-instrument --dfcc --enforce-contract [--apply-loop-contracts] | cbmc --unwinding-assertions (SAT: %s)'
                    % next((r['backend'] for r in rows if r['backend']), 'minisat'),
        trusted_base=sorted(trusted),
        functions_under_contract=sorted(set(f for r in proved for f in r['functions'])),
        solver_s=round(sum(r['solver_s'] for r in rows), 2),
        bounded_stand_ins=[dict(unit=r['unit'], bound=r['bound'], obligations=r['obligations'],
                                discharged=r['discharged'], functions=r['functions']) for r in bnd],
        units=rows)
    if level != 'proof' or not proved:
        cov['explanation'] = 'bounded contract checking of the real code; see bounded_stand_ins'
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=cov, assumptions=registry.ASSUMPTIONS.get(prop, []) + registry.ASSUMPTIONS_ALL,
              wall_s=round(wall, 2), violations=len(violations))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
