"""Single source for properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('solver-based checking: bounded symbolic execution of the repository\'s own Python functions (inputs are z3 variables, every feasible '
        'path explored by solver-decided branching), verdict by z3 over exact cyclotomic arithmetic, counterexamples replayed on the real code')
P = []


def p(id, title, statement, over, text, tests, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, na=na))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        assert len(re.findall(r'\.(\s|$)', x['statement'])) <= 3, x['id']
        f.write(json.dumps({k: v for k, v in x.items() if k not in ('note', 'na')}) + '\n')
man = dict(version=1, setup_cmd='python3 run.py --selftest',
           checks=[dict(property=x['id'], quick_cmd='python3 run.py %s' % x['id'], thorough_cmd='python3 run.py %s --tier thorough' % x['id'],
                        technique=TECH, level='other', level_note=x['note']) for x in P if not x['na']],
           not_applicable=[dict(property=x['id'], reason=x['na']) for x in P if x['na']])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for x in P:
        jsonschema.validate({k: v for k, v in x.items() if k not in ('note', 'na')}, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(P))
except ImportError:
    print('written (not validated)', len(P))
