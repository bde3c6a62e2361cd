#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--case SUBSTRING] [--jobs N] | check.py --replay FILE"""
import os, sys, json, time, argparse
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
os.environ['TZ'] = 'UTC'
time.tzset()
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rp = json.load(open(a.replay)) if a.replay else None
    pid = rp['property'] if rp else a.property
    tier = rp['tier'] if rp else a.tier
    import numpy, pandas
    import warnings
    warnings.simplefilter("ignore")
    import shipgrav.io, shipgrav.nav, shipgrav.grav, shipgrav.utils
    import shipgrav
    assert shipgrav.__file__.startswith(REPO + '/'), shipgrav.__file__
    from sx import run, props
    entries = [k for k in load_known() if k['property'] == pid and k.get('status', 'known') == 'known']
    known = [k['finding'] for k in entries]
    cases = props.cases(pid, tier)
    if rp:
        import tempfile, shutil
        tmp = tempfile.mkdtemp(prefix='sxr_')
        i = [c.name for c in cases].index(rp['case'])
        out = run.run_concrete(cases[i], rp['values'], rp.get('tols'), known, tmp)
        shutil.rmtree(tmp)
        for l, ok, g, kn in out['res']:
            print('%-5s %s %s' % ('ok' if ok else 'known' if kn else 'FAIL', l, '' if g is None or ok else g[:8]))
        print(out['status'], out['error'] or '')
        sys.exit(1 if run.failures(out) else 0)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    total = 420 if tier == 'quick' else 3300
    res = run.run_property(pid, cases, tier, seed, known, a.jobs, total)
    ev, code = summarise(pid, tier, seed, cases, res, entries, t0, a.v)
    d = os.environ.get('SX_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(d, exist_ok=True)
    viol = [v for r in res for v in r.get('violations', [])]
    if viol:
        v = viol[0]
        f = os.path.join(d, 'replay_%s.json' % pid)
        with open(f, 'w') as h:
            json.dump(dict(property=pid, tier=tier, case=v['case'], values=v['values'], tols=v['tols'], failed=v['failed']), h, indent=1)
        print('case %s: %s' % (v['case'], '; '.join(v['failed'][:4])))
        print('inputs: %s' % json.dumps({k: v['values'][k] for k in list(v['values'])[:24]}))
        print('VIOLATION property=%s replay=%s' % (pid, f))
    with open(os.path.join(d, pid + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    sys.exit(code)


def summarise(pid, tier, seed, cases, res, entries, t0, verbose):
    tot = lambda k: sum(r.get(k, 0) for r in res)
    st = lambda k: sum(r.get('stats', {}).get(k, 0) for r in res)
    decided, und = [], []
    for r in res:
        bad = r.get('crash') or r['undecided'] or r['unsupported'] or r['mismatch']
        if not bad and r['obligations'] and r['witnessed']:
            decided.append(r['case'])
        else:
            und.append(dict(case=r['case'], why=(r.get('crash') or '; '.join((r['unsupported'] + r['mismatch'] + r['undecided'])[:4])
                                                 or 'no obligation or no witness'), proven=r.get('proven', 0), obligations=r.get('obligations', 0)))
        if verbose:
            print('%-44s paths %4d obl %5d proven %5d wit %4d nra %3d %6.1fs solver %5.1fs %s' % (
                r['case'], r.get('paths', 0), r.get('obligations', 0), r.get('proven', 0), r.get('witnessed', 0), r.get('nra', 0), r.get('wall', 0),
                r.get('stats', {}).get('solver_s', 0), 'UNDECIDED ' + und[-1]['why'][:1500] if und and und[-1]['case'] == r['case'] else ''))
    viol = [v for r in res for v in r.get('violations', [])]
    fk = {}
    for r in res:
        for k, v in r.get('known', {}).items():
            fk.setdefault(k, v)
    for e in entries:
        if e['finding'] in fk:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
        elif not viol:
            print('note: listed finding %s was not observed' % e['finding'])
    code = 1 if viol else 0 if decided or tot('witnessed') else 2
    print('%s %s: %d/%d cases decided, %d paths, %d/%d obligations discharged, %d queries, %.1fs solver, %.1fs%s' % (
        pid, tier, len(decided), len(res), tot('paths'), tot('proven'), tot('obligations'), st('queries') + st('feas'), st('solver_s'), time.time() - t0,
        '' if not und else ', undecided: ' + '; '.join('%s (%s)' % (u['case'], u['why'][:160]) for u in und[:3])))
    cov = dict(
        states=tot('paths'), transitions=st('decisions'), traces_validated_against_impl=tot('witnessed'),
        obligations=tot('obligations'), discharged=tot('proven'),
        samples=[s for r in res for s in r.get('samples', [])][:6],
        functions_encoded=sorted({f for r in res for f in r.get('functions', [])}),
        bounds=[dict(case=r['case'], bounds=c.bounds) for c, r in zip(cases, res)],
        outside_bounds='values outside the stated ranges and sizes, and rounding of floating point below the stated tolerances',
        queries=dict(verdict=st('queries'), feasibility=st('feas'), unsat=st('unsat'), sat=st('sat'), unknown=st('unknown'), exact_nonlinear=tot('nra')),
        solver_s=round(st('solver_s'), 3), cases_decided=decided, cases_undecided=und,
        restricted_claims=[x for r in res for x in r.get('restricted', [])][:20],
        known_findings_observed=sorted(fk))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=sorted({x for r in res for x in r.get('assumptions', [])} | {
                  'floating point is modelled as real arithmetic; equality is up to the tolerance of each comparison'}),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    return ev, code


main()
