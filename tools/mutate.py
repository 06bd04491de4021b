#!/usr/bin/env python3
"""Mutation run: random small source changes in a scratch copy of /repo, each
judged by the checks related to the changed file (cheapest first).

mutate.py OUT.jsonl SEED N [file-substring]   -> one line per mutant
The survivors are read by hand: equivalent, outside every property, or missed.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
M = {
    'tracking/tracker.py': 'P02 P01 P03 P04 P27',
    'fields/base.py': 'P02 P06 P19 P23 P01',
    'fields/analytical_field.py': 'P06 P07 P10',
    'fields/numerical_field.py': 'P02 P09 P19 P18 P06',
    'fields/rz_wakefield.py': 'P09 P23 P18 P19 P14 P06',
    'fields/gather.py': 'P06 P05 P07',
    'fields/interpolation.py': 'P09 P18 P10',
    'particles/deposition.py': 'P08 P10 P14 P11',
    'particles/interpolation.py': 'P09 P06 P10 P13',
    'particles/particle_bunch.py': 'P28 P04 P23 P03 P24 P27 P21',
    'particles/push/': 'P05 P20 P06 P01',
    'physics_models/beam_optics': 'P20 P21 P28',
    'physics_models/collective': 'P22 P27 P21',
    'physics_models/em_fields': 'P07',
    'physics_models/laser': 'P17 P16 P18 P07',
    'qs_rz_baxevanis/deposition': 'P08 P14 P13',
    'qs_rz_baxevanis': 'P12 P14 P13 P19 P10 P23',
    'qs_cold_fluid': 'P15 P12 P14 P23',
    'custom_blowout': 'P07 P06 P09', 'focusing_blowout': 'P07',
    'simple_blowout': 'P07 P23 P19',
    'beamline_elements/tm_elements.py': 'P20 P21 P03 P22 P04 P23',
    'beamline_elements/beamline.py': 'P21 P23 P22 P03 P18',
    'beamline_elements/field_element.py': 'P01 P02 P03 P27 P23',
    'beamline_elements/plasma': 'P19 P07 P02 P03',
    'beamline_elements/': 'P07 P03',
    'diagnostics/bunch_analysis.py': 'P26',
    'diagnostics/openpmd': 'P23',
    'utilities/bunch_generation.py': 'P25 P24',
    'utilities/bunch_manipulation.py': 'P28 P20 P21',
    'utilities/bunch_saving.py': 'P24',
    'utilities/other.py': 'P23 P16 P13',
    'utilities/numba.py': 'P11 P27',
}


def props(f):
    for k, v in M.items():
        if k in f:
            return v.split()


SW = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
      ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
      ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
      ast.And: ast.Or, ast.Or: ast.And, ast.FloorDiv: ast.Div,
      ast.Pow: ast.Mult, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
      ast.Mod: ast.Mult}


def sites(tree, rng):
    """(node, replacement source) pairs"""
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n)); doc.add(id(n.value))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.Raise, ast.JoinedStr)):
                doc.add(id(c))
    infn = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            infn.extend(ast.walk(n))
    seen = set()
    for n in infn:
        if id(n) in seen or id(n) in doc:
            continue
        seen.add(id(n))
        if isinstance(n, ast.BinOp) and type(n.op) in SW:
            m = copy.deepcopy(n); m.op = SW[type(n.op)]()
            out.append((n, '(' + ast.unparse(m) + ')'))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in SW:
            m = copy.deepcopy(n); m.ops[0] = SW[type(n.ops[0])]()
            out.append((n, '(' + ast.unparse(m) + ')'))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = SW[type(n.op)]()
            out.append((n, '(' + ast.unparse(m) + ')'))
            m = copy.deepcopy(n); m.values.pop(rng.randrange(len(m.values)))
            if len(m.values) > 1:
                out.append((n, '(' + ast.unparse(m) + ')'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            out.append((n, repr(v + 1 if type(v) is int else (
                v * 1.1 if v else .1))))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n, repr(not n.value)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((n, '(' + ast.unparse(n.operand) + ')'))
        elif isinstance(n, ast.AugAssign):
            m = copy.deepcopy(n)
            out.append((n, ast.unparse(ast.Assign(
                [m.target], m.value, lineno=1))))
            if type(n.op) in SW:
                m = copy.deepcopy(n); m.op = SW[type(n.op)]()
                out.append((n, ast.unparse(m)))
            out.append((n, 'pass'))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n, 'pass'))
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Subscript, ast.Attribute)):
            out.append((n, 'pass'))
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            if n.value.args and len(n.value.args) == 1:
                m = copy.deepcopy(n); m.value = n.value.args[0]
                out.append((n, ast.unparse(m)))
        elif isinstance(n, ast.If):
            m = copy.deepcopy(n.test)
            out.append((n.test, 'True'))
            out.append((n.test, 'False'))
        elif isinstance(n, ast.Call) and len(n.args) >= 3:
            i = rng.randrange(len(n.args) - 1)
            m = copy.deepcopy(n)
            m.args[i], m.args[i+1] = m.args[i+1], m.args[i]
            out.append((n, ast.unparse(m)))
    return out


def apply(src, n, new):
    L = src.splitlines(True)
    o = [0]
    for x in L:
        o.append(o[-1] + len(x.encode()))
    b = src.encode()
    a = o[n.lineno-1] + n.col_offset
    e = o[n.end_lineno-1] + n.end_col_offset
    return (b[:a] + new.encode() + b[e:]).decode()


def main():
    out, seed, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sub = sys.argv[4] if len(sys.argv) > 4 else ''
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        fs = subprocess.run(['git', 'ls-files', 'wake_t'], cwd=r, text=True,
                            capture_output=True).stdout.split()
        fs = [f for f in fs if f.endswith('.py') and not f.endswith(
            '__init__.py') and 'progress' not in f and sub in f and props(f)]
        for i in range(N):
            f = rng.choice(fs) if not sub else fs[i % len(fs)]
            src = open(os.path.join(r, f)).read()
            ss = sites(ast.parse(src), rng)
            if not ss:
                continue
            n, new = rng.choice(ss)
            try:
                m = apply(src, n, new); ast.parse(m)
            except SyntaxError:
                continue
            if m == src:
                continue
            open(os.path.join(r, f), 'w').write(m)
            diff = subprocess.run(['git', 'diff', '-U0'], cwd=r, text=True,
                                  capture_output=True).stdout
            diff = '\n'.join(x for x in diff.splitlines()[4:])
            res, by = 'SURVIVED', None
            t0 = time.time()
            for p in props(f):
                try:
                    c = subprocess.run(
                        [PY, 'run_check.py', p, '--seed', '1'], cwd=V,
                        env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d),
                        capture_output=True, text=True, timeout=900)
                    if c.returncode == 1:
                        res, by = 'caught', p
                        break
                    if c.returncode != 0:
                        res = 'rc%d' % c.returncode; by = p
                        break
                except subprocess.TimeoutExpired:
                    res, by = 'timeout', p
                    break
            open(os.path.join(r, f), 'w').write(src)
            with open(out, 'a') as g:
                g.write(json.dumps(dict(file=f, line=n.lineno, res=res,
                        by=by, t=round(time.time()-t0), diff=diff)) + '\n')
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
