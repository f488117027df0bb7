"""Writes properties.jsonl and MANIFEST.json from the single list below.

Run by hand after editing; both outputs are committed.  Not used by any check.
"""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'discretehelpers/'

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), technique=None, note=None):
    PROPS.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(
            files=[D + f for f in files],
            mechanism=[dict(name=n, where=D + w) for n, w in mechanism],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe),
            hook_needed=None,
        ),
        _technique=technique, _note=note,
    ))


exec(open(os.path.join(ROOT, 'tools', 'props_src.py')).read())

TECH = 'runtime monitoring: reference-model monitors on the public API plus class-wide hooks, under randomised/hostile workloads'
NOTE = ('Exploration, not proof: the monitors judge every execution the workload produces (events and distinct '
        'abstract states are counted in the evidence file); inputs outside the stated size bounds are not seen. '
        'Trusts the reference models in /verif/lib and the Python/numpy/sympy runtime.')


def built(pid):
    return os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py'))


def rule(pid):
    tree = ast.parse(open(os.path.join(ROOT, 'checks', pid.lower() + '.py')).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'RULE':
            return ast.literal_eval(node.value)
    raise SystemExit(f'no RULE in the check of {pid}')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if not k.startswith('_')}
            if not q['anchors']['state']:
                del q['anchors']['state']
            f.write(json.dumps(q, ensure_ascii=True) + '\n')
    checks, na = [], []
    for p in PROPS:
        pid = p['id']
        if built(pid):
            checks.append(dict(
                property=pid,
                quick_cmd=f'./run {pid}',
                thorough_cmd=f'./run {pid}',
                evidence_file=f'evidence/{pid}.json',
                technique=p['_technique'] or TECH,
                level='exploration',
                level_note=(p['_note'] or NOTE) + ' Observed: ' + rule(pid),
            ))
        else:
            na.append(dict(property=pid, reason='check not built yet'))
    man = dict(
        version=1,
        setup_cmd='./setup',
        checks=checks,
        not_applicable=na,
        notes='All monitors are attached from /verif at run time; /repo carries no hooks, only fix: commits. '
              'VERIF_TIER selects the workload size. ./run <id> --replay <file> repeats one recorded violation.',
    )
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(PROPS), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    sys.exit(main())
