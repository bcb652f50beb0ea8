#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and properties.cfg.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, bounds, over=('inputs',), observe=None, assume=(), opts=None,
         level_note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech,
                  bounds=bounds, observe=observe, assume=list(assume), opts=opts or {}, level_note=level_note))


here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, 'proplist.py')).read())

TECH = 'symbolic execution of the LLVM IR of the real code, SMT (z3) decides each assertion, native replay'
TECH_NOTE = ('Bounded: every assertion is decided by z3 for all values of the symbolic inputs within the stated sizes and '
             'element types; counterexamples are replayed on the natively compiled code before being reported. '
             'Trusts clang-18 as front end, the IR interpreter in engine/ (cross-validated by native replay of solver-chosen '
             'inputs on every run), z3, libm contracts and, for numeric identities, exact real arithmetic in place of '
             'IEEE rounding. ')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['observe']:
                a['observe_at'] = p['observe']
            a['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks, cfg = [], {}
    for p in P:
        i = p['id']
        if not any(x.startswith(i + '_') for x in os.listdir(os.path.join(V, 'harness'))):
            print('no harness for', i)
            continue
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking',
                       'level_note': TECH_NOTE + 'Bounds: ' + p['bounds'] + ('' if i == 'C02' else '; debug and release (NDEBUG) configuration')})
        cfg[i] = {'bounds': p['bounds'], 'assumptions': p['assume']}
        cfg[i].update(p['opts'])
    have = {c['property'] for c in checks}
    na = NOT_APPLICABLE + [{'property': p['id'], 'reason': 'no check built yet'} for p in P
                           if p['id'] not in have and p['id'] not in {n['property'] for n in NOT_APPLICABLE}]
    man = {'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks are needed: harnesses include the headers as they are', 'source_commits': []},
           'notes': 'Each check compiles harness/<id>_*.cpp against /repo\'s current headers with clang-18 to LLVM IR and '
                    'executes that IR symbolically (engine/). See DESIGN.md.'}
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    json.dump(cfg, open(os.path.join(V, 'properties.cfg.json'), 'w'), indent=1)

    rows = ['| id | decided | bounds | over |', '|---|---|---|---|']
    for p in P:
        rows.append('| %s | %s | %s | %s |' % (p['id'], p['title'], p['bounds'], p['text']))
    srows = ['| id | property | what it breaks | needs | quick check |', '|---|---|---|---|---|']
    rf = os.path.join(here, 'seed_results.json')
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    sd = os.path.join(V, 'seeded')
    for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        mt = json.load(open(os.path.join(sd, i, 'meta.json')))
        srows.append('| %s | %s | %s | %s | %s |' % (i, mt['property'], mt['what_it_breaks'], mt['needs'], res.get(i, '')))
    df = os.path.join(V, 'DESIGN.md')
    d = open(df).read()
    for tag, r in (('props', rows), ('seeds', srows)):
        d = re.sub('(?s)<!-- %s -->.*<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(r), tag), d)
    open(df, 'w').write(d)


main()
