#!/usr/bin/env python3
"""mkseed.py FILE.py : each seed file defines ID, PROPERTY, EDITS [(file, old,
new)], NEEDS, BREAKS, DEMO (python source).  Builds seeded/<ID>/ in a scratch
copy, runs tests and the demo with and without, then the property's check.
  --check-only ID : only run the check against seeded/<ID>."""
import json, os, runpy, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def stable_ok(out):
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base.get('passed') or base.get('stable') or base
    got = json.load(open(out))
    names = set(got['passed'] if 'passed' in got else got)
    miss = [b for b in base if b not in names]
    return miss


def main(path):
    d = runpy.run_path(path)
    sid = d['ID']
    tmp = tempfile.mkdtemp(prefix='seed-')
    dst = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(dst, exist_ok=True)
    try:
        a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
        for x in (a, b):
            shutil.copytree(REPO + '/src', x + '/src')
        for f, old, new in d['EDITS']:
            p = os.path.join(b, 'src/pylogit', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=tmp, text=True,
                           stdout=subprocess.PIPE).stdout
        r = '\n'.join(l for l in r.split('\n')
                      if not l.startswith(('diff ', 'Only in')))
        open(os.path.join(dst, 'patch.diff'), 'w').write(r)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(dst, 'demo.py'), 'w').write(d['DEMO'].lstrip('\n'))
    open(os.path.join(dst, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
        'exec /opt/pypy-venv/bin/python -W ignore '
        '"$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
    json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'],
                   what_it_breaks=d['BREAKS']),
              open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
    demo = 'cd /repo && timeout 300 bash %s/demo.sh' % dst
    r = sh(demo)
    ok = r.returncode == 0
    print(sid, 'demo clean:', r.returncode)
    if not ok:
        print(r.stdout[-1500:])
    apply(sid, True, demo, d['PROPERTY'])


def apply(sid, full, demo=None, prop=None):
    dst = os.path.join(ROOT, 'seeded', sid)
    prop = prop or json.load(open(dst + '/meta.json'))['property']
    assert sh('git -C /repo status --porcelain').stdout.strip() == ''
    r = sh('git -C /repo apply %s/patch.diff' % dst)
    assert r.returncode == 0, r.stdout
    try:
        if full:
            r = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh '
                   '/tmp/seed_out.json')
            miss = stable_ok('/tmp/seed_out.json')
            print(sid, 'stable tests lost:', miss[:5])
            r = sh(demo)
            print(sid, 'demo patched:', r.returncode, r.stdout.strip()[-200:])
        for p in prop.split(','):
            r = sh('cd %s && VERIF_SEED=1 ./run.py %s' % (ROOT, p))
            print(sid, 'check', p, 'exit', r.returncode)
            print('\n'.join([l[:160] for l in r.stdout.split('\n')
                             if l][:4] + [r.stdout.strip().split('\n')[-1]]))
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    if sys.argv[1] == '--check-only':
        for s in sys.argv[2:]:
            apply(s, False)
    else:
        for p in sys.argv[1:]:
            main(p)
