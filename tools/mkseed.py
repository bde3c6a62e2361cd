"""mkseed.py SPEC.py [ID...]: turns descriptions of planted bugs into seeded/<id>/ after confirming them in a scratch copy.
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]."""
import sys, os, subprocess, shutil, json, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SEEDS = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
work = tempfile.mkdtemp(prefix='seed_')
repo = work + '/repo'
shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
sh = lambda c, **k: subprocess.run(c, cwd=repo, env=env, capture_output=True, text=True, **k)
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
bad = 0
for s in SEEDS:
    if only and s['id'] not in only:
        continue
    d = V + '/seeded/' + s['id']
    sh(['git', 'checkout', '-q', '--', '.'])
    tmpd = work + '/d'
    shutil.rmtree(tmpd, ignore_errors=True)
    os.makedirs(tmpd)
    open(tmpd + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(tmpd + '/demo.sh', 'w').write(DEMO)
    r0 = sh(['bash', tmpd + '/demo.sh'])
    for f, old, new in s['edits']:
        p = repo + '/' + f
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = sh(['git', 'diff']).stdout
    r1 = sh(['bash', tmpd + '/demo.sh'])
    t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'shipgrav/tests'])
    ok = r0.returncode == 0 and r1.returncode != 0 and '40 passed' in t.stdout and diff
    print(s['id'], 'ok' if ok else 'REJECTED', r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1:])
    if not ok:
        bad += 1
        print((r0.stderr + r1.stderr)[-600:])
        print(t.stdout[-600:] if '40 passed' not in t.stdout else '')
        continue
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmpd, d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(work)
sys.exit(bad)
