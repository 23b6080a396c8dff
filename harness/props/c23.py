import math
import os
import re
import random

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen, sphere
from ..core import Sub, check, close, eq, Skip, quiet, cwd, expect_exit
from .c22 import snapshot

PROPERTY = 'C23'
RULE = ('two to five generated counts (.diam, .scc, shapefile pair; with/without fractions and perimeters, 6-digit diameters, areas over '
        'ten decades) merged by the command line under default, named and directory outputs, in random order and as random trees of '
        'merges; oracle: sums and multiset union computed by the harness; non-trivial with at least 2 files having different areas '
        'and 3 craters')

NAMES = ['a', 'b', 'my count', 'a.b', 'Mare (1)', 'x-1', "o'neill", 'A', 'c_d']
FR = st.one_of(st.just(1.), st.floats(1e-3, 1.).map(lambda x: gen.r6(x)))


@st.composite
def source(draw):
    kind = draw(st.sampled_from(['diam', 'diam', 'scc', 'scc', 'shp']))
    n = draw(st.integers(1, 12))
    d = draw(st.lists(gen.diams(), min_size=n, max_size=n))
    f = draw(st.one_of(st.none(), st.lists(FR, min_size=n, max_size=n)))
    return {'kind': kind, 'd': [gen.r6(e) for e in d], 'f': f, 'area': draw(gen.AREAS),
            'perimeter': draw(st.one_of(st.none(), st.floats(.1, 1e5).map(gen.r6), st.floats(.1, 1e5).map(gen.r6)))}


def write(d, i, name, s, sub):
    """-> path, area, perimeter, [(d, f)]"""
    base = os.path.join(sub, name) if sub else name
    os.makedirs(os.path.join(d, sub), exist_ok=True)
    f = [1.] * len(s['d']) if s['f'] is None else s['f']
    if s['kind'] == 'diam':
        gen.write_diam(os.path.join(d, base + '.diam'), s['d'], s['f'], s['area'], [] if s['perimeter'] is None else ['perimeter = %r' % s['perimeter']])
        return base + '.diam', s['area'], s['perimeter'], list(zip(s['d'], f))
    if s['kind'] == 'scc':
        gen.write_scc_text(os.path.join(d, base + '.scc'), s['d'], s['f'], s['area'], s['perimeter'])
        return base + '.scc', s['area'], s['perimeter'], list(zip(s['d'], f))
    R, c = 1737.4, (10. * i, 5.)
    wkt, t = sphere.projection('geographic', R, c)
    ring = sphere.circle(c, math.radians(2), 12, 0.)
    sphere.write_shp(os.path.join(d, base + '_AREA'), [[[t(ring)]]], wkt)
    cr = [sphere.circle((c[0] + .01 * k, 5.), min(e, 30) / 2 / R, 40, 0.) for k, e in enumerate(s['d'])]
    sphere.write_shp(os.path.join(d, base + '_CRATER'), [[[t(o)]] for o in cr], wkt)
    def diam(o):
        return 2 * R * math.acos(1 - sphere.ring_area(o) / 2 / math.pi)
    return base + '_CRATER.shp', sphere.ring_area(ring) * R ** 2, sphere.ring_length(ring) * R, [(diam(o), 1.) for o in cr]


def merge(d, files, out=None):
    a = ['-m'] + ['"%s"' % f if ' ' in f or "'" in f else f for f in files]
    if out:
        a += ['-o', out]
    before = snapshot(d)
    with cwd(d), quiet():
        cli.main(a)
    return snapshot(d) - before


def read(p):
    with quiet():
        return cst.Cratercount(p)


def same(got, area, perimeter, craters, what, rtol=6e-6):
    close(got.area, area, 'area ' + what, rtol=1e-9)
    if perimeter is None:
        check(got.perimeter is None, 'perimeter %r %s though not known for all', got.perimeter, what)
    else:
        check(got.perimeter is not None, 'perimeter lost ' + what)
        close(got.perimeter, perimeter, 'perimeter ' + what, rtol=1e-9)
    eq(len(got.diam), len(craters), 'number of craters ' + what)
    # equal to 6 digits: order by rounded values
    key = lambda e: (float('%.5g' % e[0]), e[1])
    left = sorted(craters)
    for g in sorted(zip(got.diam, got.fraction)):
        m = [e for e in left if abs(e[0] - g[0]) <= rtol * e[0] and abs(e[1] - g[1]) <= rtol * e[1]]
        check(m, 'crater %r %s is none of %r', g, what, left)
        left.remove(m[0])


def body_merge(case, ctx):
    d = ctx.tmpdir()
    src = [write(d, i, n, s, sub) for i, (n, s, sub) in enumerate(zip(case['names'], case['sources'], case['dirs']))]
    if case['twice'] is not None:
        src.insert(case['twice'] % 7 % (len(src) + 1), src[case['twice'] % len(src)])
    files = [e[0] for e in src]
    base = [os.path.splitext(os.path.basename(f))[0] for f in files]
    total = math.fsum(e[1] for e in src)
    per = None if any(e[2] is None for e in src) else math.fsum(e[2] for e in src)
    craters = [c for e in src for c in e[3]]
    dflt = '_'.join(sorted(base)) + '.diam'
    out = case['out']
    if out == 'd d':
        os.mkdir(os.path.join(d, out))
    elif out and '/' in out:
        os.makedirs(os.path.join(d, os.path.dirname(out)))
    want = dflt if out is None else 'd d/' + dflt if out == 'd d' else re.sub(r'\.(diam|scc)$', '', out) + '.diam'
    new = merge(d, files, out)
    if want not in new and want in files:
        raise Skip()
    eq(new, {want}, 'files written by merging %r with -o %r' % (files, out))
    m = read(os.path.join(d, want))
    same(m, total, per, craters, 'of merged file')
    # names recorded
    with open(os.path.join(d, want)) as f:
        text = f.read()
    for f in files:
        check('# ' + os.path.basename(f) + '\n' in text, 'source %r not named in merged file', f)
    # densities combine by area
    binning = case['binning']
    if case['twice'] is not None:
        ctx.label('a file given twice')
    if all(s['kind'] != 'shp' for s in case['sources']):
        parts = [read(os.path.join(d, f)) for f in files]
        for c in parts + [m]:
            c.apply_binning(binning)
        def table(c):
            return {gen.lattice_index(lo, binning)[0]: n for lo, n in zip(c.binned['d_min'], c.binned['n']) if n > 0}
        t = [table(c) for c in parts]
        keys = set().union(*t)
        tm = table(m)
        eq(set(tm), keys, 'bins of the merged count')
        for k in keys:
            close(tm[k] / m.area, sum(x.get(k, 0) / c.area * c.area / total for x, c in zip(t, parts)), 'density in bin %d' % k, rtol=1e-5)
    # order does not matter
    p = list(range(len(files)))
    random.Random(case['order']).shuffle(p)
    new = merge(d, [files[i] for i in p], 'perm')
    eq(new, {'perm.diam'}, 'files written')
    same(read(os.path.join(d, 'perm.diam')), total, per, craters, 'of merged file in other order')
    if out is None and p != sorted(p):
        os.rename(os.path.join(d, want), os.path.join(d, 'keep'))
        new = merge(d, [files[i] for i in p])
        eq(new, {want}, 'default name in another order')
    # nor does grouping
    r = random.Random(case['order'] + 1)
    pool = list(files)
    k = 0
    while len(pool) > 1:
        n = 2 if len(pool) == 2 else r.randint(2, min(3, len(pool)))
        take = [pool.pop(r.randrange(len(pool))) for _ in range(n)]
        k += 1
        merge(d, take, 'step %d' % k)
        pool.append('step %d.diam' % k)
    same(read(os.path.join(d, pool[0])), total, per, craters, 'of merge in %d steps' % k, rtol=6e-6 * 2)
    ctx.nontrivial(len(set(e[1] for e in src)) > 1 and len(craters) > 2)
    ctx.label('%d files' % len(files))
    ctx.label('out %s' % out)
    for s in case['sources']:
        ctx.label(s['kind'])
    if per is not None:
        ctx.label('perimeter')


def body_refuse(case, ctx):
    d = ctx.tmpdir()
    src = [write(d, i, n, s, sub) for i, (n, s, sub) in enumerate(zip(case['names'], case['sources'], case['dirs']))]
    files = [e[0] for e in src]
    with open(os.path.join(d, 'old.diam'), 'w') as f:
        f.write('keep')
    how = case['how']
    if how == 'one':
        files = files[:1]
        word = 'two'
    elif how == 'missing':
        word = 'nofile'
        files.insert(case['order'] % (len(files) + 1), 'nofile.diam')
    elif how == 'stat':
        c = read(os.path.join(d, files[0]))
        c.apply_binning('pseudo-log')
        with cwd(d):
            c.WriteStatFile('table.stat')
        word = 'table.stat'
        files.insert(case['order'] % (len(files) + 1), 'table.stat')
    elif how == 'type':
        with open(os.path.join(d, 'notes.txt'), 'w') as f:
            f.write('1 2 3')
        word = 'notes.txt'
        files.insert(case['order'] % (len(files) + 1), 'notes.txt')
    before = snapshot(d)
    def go():
        with cwd(d):
            cli.main(['-m'] + ['"%s"' % f if ' ' in f or "'" in f else f for f in files] + ['-o', 'old'])
    expect_exit(go, mentions=word, what='merging %r' % files)
    eq(snapshot(d), before, 'files after refused merge')
    with open(os.path.join(d, 'old.diam')) as f:
        eq(f.read(), 'keep', 'earlier file after refused merge')
    ctx.nontrivial()
    ctx.label(how)


@st.composite
def cases(draw, refuse=False):
    n = draw(st.integers(2, 5))
    names = draw(st.permutations(NAMES))[:n]
    c = {'sources': [draw(source()) for _ in range(n)], 'names': list(names), 'dirs': draw(st.lists(st.sampled_from(['', '', 'in', 'in put/x']), min_size=n, max_size=n)),
         'order': draw(st.integers(0, 1000)), 'out': draw(st.sampled_from([None, None, 'new', 'new.diam', 'new.scc', 'new v1.2', 'sub dir/new', 'd d'])),
         'twice': draw(st.sampled_from([None, None, None, 0, 1, 5, 9, 16])),
         'binning': draw(st.sampled_from([b for b in gen.BINNINGS if b != 'none']))}
    if refuse:
        c['how'] = draw(st.sampled_from(['one', 'missing', 'stat', 'type']))
    return c


SUBS = [
    Sub('merge', cases(), body_merge, quick=120, rule='2+ different areas and 3+ craters'),
    Sub('refuse', cases(True), body_refuse, quick=100, rule='every case'),
]
