#!/opt/pypy-venv/bin/python
"""run.py <property> [--thorough] [--case SUBSTR] [--replay FILE] [-v]

Decides one property.  Exit 0: held on everything decided; exit 1: at least one
counterexample reproduced on the unmodified package (VIOLATION line); exit 2:
nothing could be decided.
"""
import importlib
import json
import os
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def child(case, tier, seed, path):
    from symex import case as C
    try:
        R = C.decide_case(case, tier, seed)
    except BaseException as ex:
        import traceback
        R = dict(name=case.name, error='internal: %r' % (ex,),
                 trace=traceback.format_exc()[-3000:], violations=[],
                 undecided=[], obligations=0, proved=0, paths=0, validated=0)
    with open(path + '.tmp', 'w') as f:
        json.dump(R, f, default=str)
    os.rename(path + '.tmp', path)


def schedule(cases, tier, seed, jobs, deadline, tmp):
    todo = list(enumerate(cases))
    todo.sort(key=lambda t: -t[1].budget)
    live, res = {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            i, c = todo.pop(0)
            path = os.path.join(tmp, '%d.json' % i)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    child(c, tier, seed, path)
                finally:
                    sys.stdout.flush()
                    os._exit(0)
            live[pid] = (i, c, path, time.time())
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in live:
            i, c, path, _ = live.pop(pid)
            try:
                with open(path) as f:
                    res[i] = json.load(f)
            except Exception:
                res[i] = dict(name=c.name, error='worker died',
                              violations=[], undecided=[], obligations=0,
                              proved=0, paths=0, validated=0)
            continue
        now = time.time()
        for pid, (i, c, path, st) in list(live.items()):
            if now - st > c.budget * 2 + 120 or now > deadline:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
        if now > deadline and todo:
            for i, c in todo:
                res[i] = dict(name=c.name, error='check deadline',
                              violations=[], undecided=[], obligations=0,
                              proved=0, paths=0, validated=0)
            todo = []
        time.sleep(0.02)
    return [res[i] for i in range(len(cases))]


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = 'thorough' if '--thorough' in args else 'quick'
    verbose = '-v' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop)
    cases = mod.cases(tier)
    if '--case' in args:
        s = args[args.index('--case') + 1]
        cases = [c for c in cases if s in c.name]
    if '--list' in args:
        for c in cases:
            print(c.name)
        return 0
    if '--replay' in args:
        return do_replay(mod, args[args.index('--replay') + 1])
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    limit = getattr(mod, 'LIMIT', {'quick': 700, 'thorough': 3 * 3600})[tier]
    # import once; children are forked
    from symex import world
    try:
        world.real_package()
    except BaseException as ex:
        sys.stderr.write('the package cannot be imported: %r\n' % (ex,))
    with tempfile.TemporaryDirectory(prefix='verif-') as tmp:
        if '-1' in args:
            res = []
            for i, c in enumerate(cases):
                child(c, tier, seed, os.path.join(tmp, '%d.json' % i))
                res.append(json.load(open(os.path.join(tmp, '%d.json' % i))))
        else:
            res = schedule(cases, tier, seed, jobs, t0 + limit, tmp)
    return report(prop, mod, cases, res, tier, seed, t0, verbose)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def report(prop, mod, cases, res, tier, seed, t0, verbose):
    known = {k['case']: k for k in known_findings()
             if k['property'] == prop and k.get('status') == 'known'}
    nviol = 0
    tot = dict(obligations=0, proved=0, undecided=0, paths=0, validated=0,
               trivial=0, normalised=0, branch=0, witness=0)
    solver = dict(queries=0, sat=0, unsat=0, unknown=0, errors=0,
                  solver_seconds=0.0, slowest_query_seconds=0.0)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    rows, cuts, files = [], {}, set()
    by_name = {c.name: r for c, r in zip(cases, res)}
    for c, r in zip(cases, res):
        for k, v in (r.get('solver') or {}).items():
            if k == 'slowest_query_seconds':
                solver[k] = max(solver[k], v)
            else:
                solver[k] = round(solver[k] + v, 3)
        for k, v in (r.get('cuts') or {}).items():
            cuts[k] = cuts.get(k, 0) + v
        files |= set(r.get('files') or [])
        tot['obligations'] += r['obligations']
        tot['proved'] += r['proved']
        tot['undecided'] += len(r['undecided'])
        tot['paths'] += r['paths']
        tot['validated'] += r['validated']
        tot['trivial'] += r.get('trivial', 0)
        tot['normalised'] += r.get('normalised', 0)
        tot['branch'] += r.get('branch_queries', 0)
        tot['witness'] += r.get('witness_paths', 0)
        row = {k: r.get(k) for k in ('name', 'bounds', 'paths', 'obligations',
                                     'proved', 'validated', 'witness_paths',
                                     'wall', 'error') if r.get(k) is not None}
        row['undecided'] = r['undecided'][:5]
        row['encoding_mismatch'] = (r.get('encoding_mismatch') or [])[:3]
        rows.append(row)
        if c.name.endswith(RECORDED):
            # restates a known finding; only consulted by its base case
            row['note'] = 'recorded deviation %s' % (
                'still as recorded' if not r['violations'] else 'changed')
            continue
        if r['violations']:
            if c.name in known and not by_name.get(
                    c.name + RECORDED, r)['violations']:
                print('KNOWN-FINDING: property=%s %s' % (
                    prop, known[c.name]['what']))
                row['known_finding'] = known[c.name]['what']
                continue
            nviol += 1
            v = r['violations'][0]
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, nviol))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, **v), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  case: %s' % c.name)
            for b in v['failures'][:4]:
                print('  %s: code gives %s, property requires %s' % (
                    b['observation'], b['actual'], b['expected']))
            print('  inputs: %s' % json.dumps(v['env'], default=str)[:600])
        if r.get('error'):
            print('UNDECIDED property=%s case=%s %s' % (prop, c.name,
                                                        r['error']))
        if verbose and r.get('trace'):
            print(r['trace'])
        if r['undecided']:
            print('UNDECIDED property=%s case=%s %d observations, e.g. %s' % (
                prop, c.name, len(r['undecided']), r['undecided'][0]))
        if r.get('encoding_mismatch'):
            print('ENCODING property=%s case=%s %s' % (
                prop, c.name, r['encoding_mismatch'][0]))
        if verbose:
            print('%-50s paths=%d obl=%d proved=%d und=%d valid=%d wit=%s '
                  'wall=%s q=%s st=%s norm=%s' % (
                      c.name, r['paths'], r['obligations'], r['proved'],
                      len(r['undecided']), r['validated'],
                      r.get('witness_paths'), r.get('wall'),
                      (r.get('solver') or {}).get('queries'),
                      (r.get('solver') or {}).get('solver_seconds'),
                      r.get('normalised', 0)))
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=(
                'Bounded symbolic execution of the current source of pylogit '
                'with SMT discharge: %d cases, %d feasible paths, %d '
                'observations compared with the property, %d discharged '
                '(unsat) for every real/integer value of the symbolic inputs '
                'within the stated sizes, %d left undecided; %d concrete '
                'witness runs of the unmodified package agreed with the '
                'encoding.' % (len(cases), tot['paths'], tot['obligations'],
                               tot['proved'], tot['undecided'],
                               tot['validated'])),
            cases=rows, totals=tot, solver=solver,
            functions_encoded=getattr(mod, 'FUNCTIONS', []),
            source_files_encoded=sorted(files),
            bounds=getattr(mod, 'BOUNDS', ''),
            range_cuts=cuts),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON,
        wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: cases=%d paths=%d observations=%d discharged=%d '
          'undecided=%d queries=%d solver=%.1fs wall=%.1fs' % (
              prop, tier, len(cases), tot['paths'], tot['obligations'],
              tot['proved'], tot['undecided'], solver['queries'],
              solver['solver_seconds'], wall))
    if nviol:
        return 1
    if tot['proved'] == 0 and tot['validated'] == 0 and not any(
            r.get('fallback') for r in res):
        print('nothing decided')
        return 2
    return 0


RECORDED = '#as-recorded'
COMMON = [
    'Arithmetic is over the exact reals (float literals read as the simplest '
    'rational that rounds to them); rounding error is outside the claim '
    'except in the cases marked fp.',
    'numpy, scipy.sparse, pandas data movement is executed for real on object '
    'arrays; scipy.sparse, linalg.inv and percentile are replaced by exact '
    'stand-ins validated at witness points against the real libraries.',
    'exp/log are uninterpreted up to their algebraic laws and elementary '
    'bounds; scipy.stats.norm is uninterpreted.',
    'Sizes (rows, alternatives, draws) are the concrete small ones of each '
    'case; values outside them are not covered.',
]


def do_replay(mod, path):
    from symex import case as C
    d = json.load(open(path))
    c = [c for c in mod.cases('thorough') + mod.cases('quick')
         if c.name == d['case']][0]
    env = {k: v for k, v in d['env'].items()}
    out, W = C.real_run(c, env)
    for k, v in out.items():
        print(k, '=', v)
    print('expected:')
    for f in d['failures']:
        print('  %(observation)s: recorded %(actual)s, required %(expected)s'
              % f)
    return 0


if __name__ == '__main__':
    sys.exit(main())
