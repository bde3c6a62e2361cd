"""runseeds.py [--all] [ID...]: applies each planted bug to a scratch copy and runs the check of its property there (--all: every check)"""
import sys, os, subprocess, shutil, json, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
args = [a for a in sys.argv[1:] if a != '--all']
ids = args or sorted(os.listdir(V + '/seeded'))
work = tempfile.mkdtemp(prefix='seed_')
for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    repo = work + '/' + i
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo, check=True)
    props = [prop] if '--all' not in sys.argv else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for p in props:
        t = time.time()
        r = subprocess.run([PY, V + '/check.py', p], cwd=V, env=dict(os.environ, SX_REPO=repo, SX_EVIDENCE=work + '/ev'), capture_output=True, text=True)
        hit = 'VIOLATION property=%s' % p in r.stdout and r.returncode == 1
        if hit or p == prop:
            print('%-28s %s %s %5.1fs %s' % (i, p, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, time.time() - t,
                  next((l for l in r.stdout.splitlines() if l.startswith('case')), r.stdout[-200:])[:170]), flush=True)
    shutil.rmtree(repo)
shutil.rmtree(work)
