#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below; harness/<id>.py decides property <id>"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note=''):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=why, files=files, mech=mech, na=na, note=note))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        print(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }), file=f)

checks, na = [], []
for p in P:
    hp = os.path.join(HERE, 'harness', p['id'].lower() + '.py')
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif not os.path.exists(hp):
        na.append({'property': p['id'], 'reason': 'no check yet: the harness for this property is not written'})
    else:
        checks.append({
            'property': p['id'],
            'quick_cmd': f"python3-vt check.py {p['id']} --tier quick",
            'thorough_cmd': f"python3-vt check.py {p['id']} --tier thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': 'symbolic execution of the real Python code with z3 deciding every obligation (bounded)',
            'level': 'model_checking',
            'level_note': p['note'] or 'All inputs within the bounds stated in the evidence file; trusts z3 and the models of the standard library '
                                       '(checked by concrete replay of explored paths and by selftest.py).',
        })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt selftest.py --quick', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: the checks load /repo/cdtb sources through an instrumenting loader. '
                        'Replay a reported counterexample with: python3-vt check.py replay out/<id>-<n>.replay'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')


def section(text, name, body):
    a, b = f'<!-- {name} -->', f'<!-- /{name} -->'
    return text[:text.index(a) + len(a)] + '\n' + body + text[text.index(b):]


def design():
    import glob
    import importlib
    import sys
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    rows = ['| bug | caught by | needs |\n|---|---|---|\n']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(f))
        rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} |\n")
    text = section(text, 'seeded', ''.join(rows))
    rows = []
    for p in P:
        if p['na']:
            rows.append(f"* **{p['id']} {p['title']}**: not applicable. {p['na']}\n")
            continue
        m = importlib.import_module('harness.' + p['id'].lower()).META
        rows.append(f"* **{p['id']} {p['title']}.** Bounds: {m['bounds']}. Outside: {m['outside']}." + (f" Assumptions: {'; '.join(m['assumptions'])}.\n" if m.get('assumptions') else '\n'))
    open(path, 'w').write(section(text, 'bounds', ''.join(rows)))


design()
