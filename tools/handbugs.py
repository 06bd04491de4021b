#!/usr/bin/env python3
"""handbugs.py SPEC.py OUT.jsonl [workers] : hand-written changes judged by the checks.

SPEC.py defines BUGS = [(name, file, old, new, 'P01 P02 ...'), ...]. Each is
applied to a scratch copy of /repo; the named checks run until one reports a
violation. The changes nobody catches then go through the repository's tests,
to see whether they count."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ns = {}
exec(open(sys.argv[1]).read(), ns)
out = sys.argv[2]
seen = {json.loads(l)['name'] for l in open(out)} if os.path.exists(out) else set()


def one(b):
    name, file, old, new, checks = b
    d = tempfile.mkdtemp(prefix='hb_', dir='/tmp')
    r = d + '/repo'
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        p = f'{r}/wake_t/{file}'
        s = open(p).read()
        if s.count(old) != 1:
            return dict(name=name, res=f'bad-spec {s.count(old)}')
        open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + '/ev',
                   WAKET_DISABLE_CACHING='1')
        rcs = {}
        for c in checks.split():
            q = subprocess.run(['timeout', '850', PY, 'run_check.py', c],
                               cwd=V, env=env, capture_output=True, text=True)
            rcs[c] = q.returncode
            if q.returncode == 1:
                v = [l for l in q.stdout.splitlines() if 'VIOLATION' in l]
                return dict(name=name, res='caught', by=c, rcs=rcs,
                            n=len(v), what=(v or [''])[0][:200])
        q = subprocess.run(
            ['timeout', '800', PY, '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '-n', '3', '--dist', 'loadfile',
             '--basetemp=' + d + '/pt', 'tests'], cwd=r,
            env=dict(env, MPLCONFIGDIR=d), capture_output=True, text=True)
        return dict(name=name, res='MISSED', rcs=rcs,
                    tests=q.stdout.strip().splitlines()[-1][-100:])
    except Exception as e:
        return dict(name=name, res='error', e=repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 2) as ex:
    for x in ex.map(one, [b for b in ns['BUGS'] if b[0] not in seen]):
        open(out, 'a').write(json.dumps(x) + '\n')
        print(x, flush=True)
