#!/usr/bin/env python3
"""plant.py new ID FILE  : make seeded/ID/patch.diff from edit spec on stdin
   plant.py test ID [P..]: confirm the bug in a scratch copy (build, stable
   tests, demo on both trees) and run the given checks on it."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=t,
                          capture_output=True, text=True)


def copy():
    d = tempfile.mkdtemp(prefix='sb_', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    return d, r


def new(i, file, edits, prop, needs, breaks, demo):
    d, r = copy()
    try:
        p = os.path.join(r, file) if file else None
        for e in edits:
            f, a, b = (e if len(e) == 3 else (file, *e))
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(a) == 1, (s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git diff', r).stdout
        o = os.path.join(V, 'seeded', i)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.py'), 'w').write(demo)
        open(os.path.join(o, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# exit 0 if the property holds, 1 otherwise\n'
            'export WAKET_DISABLE_CACHING=1 PYTHONPATH="$PWD"\n'
            'exec timeout 280 /opt/venv/bin/python '
            '"$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def test(i, props, tests=True):
    o = os.path.join(V, 'seeded', i)
    d, r = copy()
    try:
        a = sh(f'bash {o}/demo.sh', r)
        assert sh(f'git apply {o}/patch.diff', r).returncode == 0, 'apply'
        b = sh(f'bash {o}/demo.sh', r)
        print(i, 'demo clean', a.returncode, 'bug', b.returncode,
              '' if a.returncode == 0 else a.stderr[-600:],
              b.stdout[-200:].strip(), b.stderr[-200:].strip(), flush=True)
        if tests:
            t = sh(f'rm -rf tests_output; {PY} -m pytest -q -p '
                   f'no:cacheprovider -n 6 --dist loadfile '
                   f'--basetemp={d}/pt tests 2>&1 | tail -5', r,
                   dict(MPLCONFIGDIR=d, WAKET_DISABLE_CACHING='1'))
            print('   tests', t.stdout.strip().splitlines()[-1], flush=True)
            if 'failed' in t.stdout:
                print(t.stdout)
        if not props:
            props = [json.load(open(o + '/meta.json'))['property']]
        for p in props:
            t0 = time.time()
            c = sh(f'{PY} run_check.py {p} --seed 1', V,
                   dict(VERIF_REPO=r, VERIF_EVIDENCE=d))
            v = [x for x in c.stdout.splitlines() if 'VIOLATION' in x]
            print(f'   {p} rc={c.returncode} {time.time()-t0:.0f}s '
                  f'{len(v)} violations', v[:1], flush=True)
            if c.returncode not in (0, 1):
                print(c.stdout[-500:], c.stderr[-500:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    nt = '--no-tests' in a
    a = [x for x in a if not x.startswith('--')]
    test(a[1], a[2:], not nt)
