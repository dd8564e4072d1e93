"""Generates MANIFEST.json from properties.jsonl and the unit registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = registry.CLAIMED
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'no check built yet')))
        continue
    us = [u for u in registry.UNITS if i in u.props]
    fns = sorted(set(f for u in us for f in u.functions))
    bnd = ['%s (%s)' % (u.name, u.bounded) for u in us if u.bounded]
    checks.append(dict(
        property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
        technique='function and loop contracts on the real C source, discharged by CBMC (goto-instrument --dfcc)',
        level=registry.LEVELS.get(i, 'proof'),
        level_note='Contracts enforced on %s. %s%sAssumes the documented behaviour of libc/libyaml and client callbacks (units/libc_model.h), '
                   'and that callee contracts used as stubs are the ones proved in their own units.' % (
                       ', '.join(fns), registry.NOTES.get(i, '') and registry.NOTES[i] + ' ',
                       'Bounded stand-ins: ' + '; '.join(bnd) + '. ' if bnd else '')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: contracts live in /verif/units and are attached to the sources mechanically on every run (lib/annotate.py). See DESIGN.md.')
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
