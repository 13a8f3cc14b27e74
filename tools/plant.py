"""Make and confirm planted bugs (used by hand while building; no check reads them).

plant.py make <id> <property> <file> <needs> <breaks>   with the edit as JSON [[old, new], ...] and the demonstration on stdin (JSON)
plant.py test <id> ...      full test suite on a scratch copy with the patch; writes /tmp/plant/<id>.ok or .failed
plant.py try <id> [checks]  run the checks of the property against the patch applied to /repo
"""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / 'seeded'
SCR = Path('/tmp/plant')
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def scratch(bug):
    d = SCR / bug / 'repo'
    if d.exists():
        shutil.rmtree(d)
    d.parent.mkdir(parents=True, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', str(d)], check=True)
    return d


def demo(bug, cwd):
    r = subprocess.run(['bash', str(SEEDED / bug / 'demo.sh')], cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def make(bug, prop, file, edits, demo_py, needs, breaks):
    """file: one path, or edits given as [[file, old, new], ...]"""
    d = SEEDED / bug
    d.mkdir(parents=True, exist_ok=True)
    (d / 'demo.sh').write_text(DEMO)
    (d / 'demo.py').write_text(demo_py)
    (d / 'meta.json').write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + '\n')
    repo = scratch(bug)
    base = set()
    for e in edits:
        f, old, new = e if len(e) == 3 else (file, *e)
        p = repo / f
        b = p.read_bytes()
        crlf = b'\r\n' in b
        o, n = (x.replace('\n', '\r\n').encode() if crlf else x.encode() for x in (old, new))
        if b.count(o) != 1:
            print(f'{bug}: {b.count(o)} matches of {old!r}')
            shutil.rmtree(repo.parent)
            return False
        p.write_bytes(b.replace(o, n))
    diff = subprocess.run(['git', 'diff', '--no-color', '--binary'], cwd=repo, capture_output=True).stdout
    (d / 'patch.diff').write_bytes(diff)
    # does it touch lines of the original repository?
    a = demo(bug, '/repo')
    c = demo(bug, repo)
    print(f'{bug}: unchanged {a[0]} changed {c[0]}')
    if a[0]:
        print(a[1])
    if not c[0]:
        print('NOT SHOWN', c[1])
    elif 'AssertionError' not in c[1]:
        print(c[1])
    shutil.rmtree(SCR / bug)
    return not a[0] and bool(c[0])


def test(bug, quick=False):
    repo = scratch(bug)
    subprocess.run(['git', 'apply', str(SEEDED / bug / 'patch.diff')], cwd=repo, check=True)
    env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
           'MPLBACKEND': 'Agg', 'PYTHONPATH': str(repo)}
    skip = ['--ignore=tests/models/test_thevenin.py'] + (['--ignore=tests/estimators/online/test_joint_ukf.py', '--deselect=x'] if quick else [])
    xml = SCR / f'{bug}.xml'
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=800', '--disable-warnings', '-n', '4',
                    '-o', 'junit_family=xunit2', f'--junitxml={xml}', *skip, 'tests'], cwd=repo, env=env, capture_output=True)
    import xml.etree.ElementTree as ET
    bad = [f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(xml).iter('testcase') if c.find('failure') is not None or c.find('error') is not None]
    ok = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(xml).iter('testcase') if len([k for k in c if k.tag in ('failure', 'error', 'skipped')]) == 0}
    stable = set(json.loads(Path('/opt/vp/BASELINE.json').read_text())['stable'])
    if quick:
        stable = {s for s in stable if 'test_joint_ukf' not in s}
    missing = sorted(stable - ok)
    print(f'{bug}: {"passes the tests" if not missing else "FAILS " + str(missing[:5])}', flush=True)
    shutil.rmtree(SCR / bug)
    return not missing


def attempt(bug, checks=()):
    prop = json.loads((SEEDED / bug / 'meta.json').read_text())['property']
    dirty = subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '--untracked-files=no'], capture_output=True, text=True).stdout
    if dirty:
        raise SystemExit('/repo is not clean')
    subprocess.run(['git', '-C', '/repo', 'apply', str(SEEDED / bug / 'patch.diff')], check=True)
    try:
        for c in checks or [prop]:
            r = subprocess.run([str(VERIF / 'check'), c], cwd=VERIF, capture_output=True, text=True)
            print(f'{bug} ({prop}): check {c} exits {r.returncode}', (r.stdout + r.stderr).strip().splitlines()[:1], flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)


if __name__ == '__main__':
    what, *rest = sys.argv[1:]
    if what == 'test':
        for b in rest:
            test(b)
    elif what == 'quick':
        for b in rest:
            test(b, quick=True)
    elif what == 'try':
        for b in rest:
            attempt(b)
