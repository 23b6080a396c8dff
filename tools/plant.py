"""Build and confirm planted bugs from a spec file: python3 tools/plant.py SPEC.py [ID...]

A spec file calls bug(id, prop, edits, needs, breaks, demo).  Each bug is applied in a scratch copy of /repo; it is kept
(/verif/seeded/<id>/) only if it changes lines of the base commit, the tests pass and the demonstration distinguishes the trees."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = '8468c8c'
ENV = dict(PATH=os.environ['PATH'], HOME='/root', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1',
           PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PYTHONHASHSEED='0')
SH = '''#!/bin/bash
# run with cwd = the repository: exit 0 on the correct tree, nonzero with the change
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys, tempfile, contextlib, io
import numpy as np
import craterstats as cst, craterstats.gm as gm, craterstats.cli as cli

F = cst.Functionslist().functions
def system(name='Moon, Neukum (1983)'):
    s = next(e for e in F['chronology_system'] if e['name'] == name)
    return cst.Productionfn(F, s['pf']), cst.Chronologyfn(F, s['cf'])
def diam(path, d, frac=None, area=1000.):
    with open(path, 'w') as f:
        f.write('area = %r\\ncrater = {diameter, fraction\\n' % area + ''.join('%r %r\\n' % (float(a), float(b)) for a, b in zip(d, frac or [1.] * len(d))) + '}\\n')
    return path
def scc(path, rings, craters, radius=1737.4, area=1., perimeter=1.):
    # rings: [(tag, [(lon, lat), ...])], craters: [(diam, fraction, lon, lat)]
    s = ['a_axis_radius = %r <km>' % radius, 'Total_area = %r <km2>' % area, 'Total_perimeter = %r <km>' % perimeter, 'unit_boundary = {vertex, sub_area, tag, lon, lat']
    for i, (tag, pts) in enumerate(rings, 1):
        s += ['%d %d %s %r %r' % (j, i, tag, x, y) for j, (x, y) in enumerate(pts + pts[:1])]
    s += ['}', 'crater = {diam, fraction, lon, lat'] + ['%r %r %r %r' % c for c in craters] + ['}']
    with open(path, 'w') as f:
        f.write('\\n'.join(s) + '\\n')
    return path
def box(x0, x1, y0, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
def quiet():
    return contextlib.redirect_stdout(io.StringIO())
'''
MAIN = '''
if __name__ == '__main__':
    with tempfile.TemporaryDirectory() as scratch:
        here = os.getcwd()
        os.chdir(scratch)
        try:
            main()
        finally:
            os.chdir(here)
    print('demo: ok')
'''
SPECS = []


def bug(id, prop, edits, needs, breaks, demo):
    SPECS.append((id, prop, edits, needs, breaks, demo))


def sh(cmd, cwd, timeout=400, env=None):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def plant(id, prop, edits, needs, breaks, demo):
    t = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        c = os.path.join(t, 'repo')
        shutil.copytree('/repo', c, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(c, 'src/craterstats', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        d = sh(['git', 'diff'], c).stdout
        assert d.strip(), 'no change'
        removed = 0
        for f in {f for f, _, _ in edits}:
            p = 'src/craterstats/' + f
            hunks = sh(['git', 'diff', '-U0', '--', p], c).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunks, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    b = sh(['git', 'blame', '-s', '-L%d,%d' % (a, a + n - 1), 'HEAD', '--', p], c).stdout
                    for l in b.splitlines():
                        if not l.startswith('^' + BASE[:7]):
                            return 'changes a line not of the base: ' + l
                        removed += 1
        if not removed:
            return 'removes no line of the base'
        out = os.path.join(t, 'seed')
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        open(os.path.join(out, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(PRE + '\n\n' + demo.strip('\n') + '\n' + MAIN)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-1500:]
        r = sh(['bash', os.path.join(out, 'demo.sh')], c)
        if not r.returncode:
            return 'demo passes with the change:\n' + r.stdout[-500:]
        why = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ''
        r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=300', 'src/craterstats/tests'],
               c, env={'PYTHONPATH': c + '/src'})
        if ' 38 passed' not in ' ' + r.stdout.strip().splitlines()[-1]:
            return 'tests: ' + r.stdout[-600:]
        dst = os.path.join(SEEDED, id)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return 'ok  (%s)' % why[:150]
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
    for s in SPECS:
        if len(sys.argv) < 3 or s[0] in sys.argv[2:]:
            try:
                print(s[0], plant(*s), flush=True)
            except AssertionError as e:
                print(s[0], 'FAILED', e, flush=True)
