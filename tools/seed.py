"""seed.py SPEC.py: create and validate planted bugs.  SPEC.py defines SEEDS, a list of dicts:
id, property, edits=[(file, old, new)], demo (python source), needs, breaks."""
import json, os, shutil, subprocess, sys, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    sh('bash', '/opt/vp/test.sh', '/tmp/seed_out.json')
    d = json.load(open('/tmp/seed_out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base if isinstance(base, list) else base.get('passed') or base.get('stable') or list(base.values())[0]
    return sorted(set(stable) - set(d['passed']))


DEMO = '''#!/bin/bash
# exit 0 where the property holds, nonzero where it does not
D="$(cd "$(dirname "$0")" && pwd)"
unset PYTHONPATH PYTHONHOME
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=4
cd /repo && exec /opt/venv/bin/python "$D/demo.py"
'''
seeds = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip()
for s in seeds:
    if only and s['id'] not in only:
        continue
    d = os.path.join(R, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write("import sys\nsys.path.insert(0, '/repo')\n" + s['demo'].lstrip())
    for f in s.get('files', ()):
        (shutil.copytree if os.path.isdir(os.path.join(R, f)) else shutil.copy)(os.path.join(R, f), os.path.join(d, os.path.basename(f)),
                                                                                **(dict(dirs_exist_ok=True) if os.path.isdir(os.path.join(R, f)) else {}))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(d + '/meta.json', 'w'), indent=1)
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', REPO, 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
        bad = tests()
        demo_bad = sh('bash', d + '/demo.sh', cwd=REPO, timeout=300)
        chk = sh(os.path.join(R, 'run.sh'), s['property'], 'quick')
        caught = chk.returncode == 1 and f'VIOLATION property={s["property"]} ' in chk.stdout
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    sh('bash', '/opt/vp/build.sh')
    demo_ok = sh('bash', d + '/demo.sh', cwd=REPO, timeout=300)
    print(s['id'], s['property'], 'broken tests:', bad, 'demo clean/bug:', demo_ok.returncode, demo_bad.returncode,
          'CAUGHT' if caught else f'*** MISSED rc={chk.returncode}', flush=True)
    if demo_ok.returncode:
        print(demo_ok.stdout[-1500:])
    if chk.returncode not in (0, 1):
        print(chk.stdout[-1500:])
