"""Development aid (no check uses it): turns a bug description into seeded/<id>/ and tries it.

A description is a Python file that defines BUGS, a list of dicts with the keys
id, property, needs, what_it_breaks, edits=[(file, old, new), ...], demo (Python source that fails with the bug).
Usage: plant.py FILE [id ...]    The bug is kept only if the test suite passes with it and the demo tells the trees apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    out = '/tmp/plant-out.json'
    sh(f'bash /opt/vp/test.sh {out}', cwd=REPO)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open(out))['passed'])
    os.remove(out)
    return sorted(base - got)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    assert not sh('git status --porcelain', cwd=REPO).stdout.strip(), 'repo not clean'
    for b in bugs:
        if only and b['id'] not in only:
            continue
        d = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(b['demo'].strip() + '\n')
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what_it_breaks']), open(d + '/meta.json', 'w'), indent=1)
        clean = sh(f'bash {d}/demo.sh', cwd=REPO)
        try:
            for path, old, new in b['edits']:
                p = os.path.join(REPO, 'discretehelpers', path)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], path, old, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git diff', cwd=REPO).stdout
            open(d + '/patch.diff', 'w').write(diff)
            missing = tests()
            bad = sh(f'bash {d}/demo.sh', cwd=REPO)
            chk = sh(f'./run {b["property"]}', cwd=VERIF, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally:
            sh('git checkout -- .', cwd=REPO)
        caught = chk.returncode == 1 and f'VIOLATION property={b["property"]}' in chk.stdout
        ok = not missing and clean.returncode == 0 and bad.returncode != 0
        print(f"{b['id']} {b['property']}: {'confirmed' if ok else 'REJECTED'} tests missing {missing[:2]} demo {clean.returncode}/{bad.returncode} "
              f"{'caught' if caught else 'MISSED rc %d' % chk.returncode}")
        if clean.returncode:
            print('   clean demo:', clean.stdout[-300:])
        if caught:
            print('   ', chk.stdout.strip().splitlines()[0][:200])
        if not ok:
            if not sh(f'git -C {VERIF} ls-files seeded/{b["id"]}').stdout:
                shutil.rmtree(d)


main()
