import math
import os

import numpy as np
import shapefile
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen, sphere
from ..core import Sub, check, close, eq, Skip, quiet, cwd
from . import c21

PROPERTY = 'C22'
RULE = ('generated spatial counts (1-3 parts, holes, islands; antimeridian, polar; body radii 0.25-6371 km; craters inside and across '
        'the boundary) converted by the command line shp->scc and scc->shp->scc under default, named and directory outputs; oracle: '
        'the geometry the files were written from, and reading both forms back through both readers; non-trivial with a hole, '
        'several parts or a boundary crater')


def snapshot(d):
    out = []
    for p, _, f in os.walk(d):
        out += [os.path.relpath(os.path.join(p, e), d) for e in f]
    return set(out)


def read(p):
    with quiet():
        return cst.Spatialcount(p)


def structure(s):
    """areas of rings of each part"""
    R2 = s.planetary_radius ** 2
    out = []
    for rings in s.polygon_to_pts():
        a = [sphere.ring_area(np.array(r)[:-1]) * R2 for r in rings]
        out.append((a[0], sorted(a[1:])))
    return sorted(out, key=lambda e: (len(e[1]), e[0], e[1]))


def same_structure(a, b, what, rtol=1e-6):
    x, y = structure(a), structure(b)
    eq([len(p[1]) for p in y], [len(p[1]) for p in x], 'holes of each part ' + what)
    close([p[0] for p in y], [p[0] for p in x], 'areas of parts ' + what, rtol=rtol)
    close(sorted(e for q in y for e in q[1]), sorted(e for p in x for e in p[1]), 'areas of holes ' + what, rtol=rtol)


def convert(d, fmt, src, case, name):
    """-> base path of the expected output (without extension)"""
    a = ['--convert', ('.' if case['dot'] else '') + fmt, src]
    o = case['out']
    if o == 'none':
        base = name
    elif o == 'dir':
        os.mkdir(os.path.join(d, 'd d'))
        a += ['-o', 'd d']
        base = 'd d/' + name
    else:
        if '/' in o:
            os.makedirs(os.path.join(d, os.path.dirname(o)), exist_ok=True)
        a += ['-o', o]
        base = o
    before = snapshot(d)
    with cwd(d), quiet():
        cli.main(a)
    return base, snapshot(d) - before


def ages(a, b, rtol):
    """same analysis of two sources"""
    out = []
    d = sorted(cst.Cratercount(a).diam)
    if not d:
        return
    cps = gen.make_cps('Moon, Neukum (1983)', 'Moon, Neukum (1983)')
    for kind in ('poisson', 'c-fit'):
        t = []
        for f in (a, b):
            cp = cst.Craterplot(source=f, type=kind, range=[d[0] * .97, d[-1] * 1.03], binning='none' if kind == 'c-fit' else 'pseudo-log', snap=0)
            with quiet(), np.errstate(all='ignore'):
                cp.calculate_age(cps)
            t.append([float(v) for v in cp.t] + [float(v) for v in cp.a0])
        if all(np.isfinite(t[0])) and t[0][0] > 1e-4 and t[0][2] < 4.9:
            close(t[1][0], t[0][0], '%s age from converted file' % kind, rtol=rtol)
        out.append(t)


def in_pf(D):
    return .011 < D < 290


def text_area(p, s, rtol=1e-5):
    with quiet():
        c = cst.Cratercount(p)
    close(c.area, s.area, 'area stated in file', rtol=rtol)
    close(c.perimeter, s.perimeter, 'perimeter stated in file', rtol=rtol)
    return c


def craters_of(case, reg, d):
    """[(D, at, outline)]"""
    R = case['radius']
    s = math.radians(case['region']['parts'][0]['size'])
    return [dict(c, D=gen.r6(min(c['u'] * s, .1) * R, 5)) for c in case['craters']]


def body_shp(case, ctx):
    d = ctx.tmpdir()
    reg = sphere.Region(case['region'])
    R = case['radius']
    c0 = case['region']['parts'][0]['centre']
    wkt, f = sphere.projection(case['proj'], R, c0)
    base = os.path.join(d, 'src ' if case['sub'] else '.')
    os.makedirs(base, exist_ok=True)
    name = case['name']
    src = {'suffix': name + '_CRATER', 'prefix': 'CRATER_' + name}[case['style']]
    sphere.write_shp(os.path.join(base, src.replace('CRATER', 'AREA')), [[[f(q) for q in p]] for p in reg.parts], wkt)
    cr = craters_of(case, reg, d)
    sphere.write_shp(os.path.join(base, src), [[[f(sphere.circle(c['at'], c['D'] / 2 / R, c['n'], c['turn']))]] for c in cr], wkt)
    p0 = os.path.join(base, src + '.shp')
    s = read(p0)
    if not s.diam:
        raise Skip()
    close(s.area, reg.area * R ** 2, 'area of source', rtol=1e-6)
    out, new = convert(d, 'scc', os.path.relpath(p0, d) if case['rel'] else p0, case, name)
    eq(new, {out + '.scc'}, 'files written by conversion to scc')
    p1 = os.path.join(d, out + '.scc')
    t = read(p1)
    close(t.planetary_radius, R, 'radius', rtol=1e-5)
    rr = (t.planetary_radius / R)
    close(t.area, s.area * rr ** 2, 'area after conversion', rtol=1e-9)
    close(t.perimeter, s.perimeter * rr, 'perimeter after conversion', rtol=1e-9)
    a = sorted(zip(s.diam, s.fraction, s.lon, s.lat))
    b = sorted(zip(t.diam, t.fraction, t.lon, t.lat))
    eq(len(b), len(a), 'craters after conversion')
    left = list(b)
    for x in a:
        m = [y for y in left if abs(y[0] / x[0] - 1) < 2e-7 * 5 and abs(y[1] - x[1]) <= .0051 * max(x[1], 1e-9) and sphere.angle(sphere.xyz(x[2:]), sphere.xyz(y[2:])) < 1e-13]
        check(m, 'crater %r not in converted file: %r', x, left)
        left.remove(m[0])
    same_structure(s, t, 'after conversion to scc', rtol=2.5 * abs(rr - 1) + 1e-9)
    c = text_area(p1, s)
    close(sorted(c.diam), sorted(s.diam), 'diameters read from converted file', rtol=1e-6)
    if all(in_pf(e) for e in s.diam):
        ages(p0, p1, 2e-2)
    ctx.nontrivial(sum(map(len, reg.parts)) > 1 or any(0 < e < 1 for e in s.fraction))
    ctx.label(case['region']['kind'])
    ctx.label('out ' + case['out'])
    # and back to shapefile
    case2 = dict(case, out='back')
    out2, new2 = convert(d, 'shp', p1, case2, name)
    u = read(os.path.join(d, out2 + '_CRATER.shp'))
    compare_rims(t, u, reg, 'after conversion back to shapefile')


def compare_rims(a, b, reg, what):
    """craters of a redrawn as outlines in b"""
    close(b.area, a.area * (b.planetary_radius / a.planetary_radius) ** 2, 'area ' + what, rtol=1e-9)
    close(b.perimeter, a.perimeter * (b.planetary_radius / a.planetary_radius), 'perimeter ' + what, rtol=1e-9)
    close(b.planetary_radius, a.planetary_radius, 'radius ' + what, atol=6e-4, rtol=1e-9)
    same_structure(a, b, what, rtol=2.5 * abs(b.planetary_radius / a.planetary_radius - 1) + 1e-9)
    left = list(zip(b.diam, b.fraction, b.lon, b.lat))
    for x in zip(a.diam, a.fraction, a.lon, a.lat):
        def ok(y):
            return abs(y[0] / x[0] - 1 + 3.3e-4) < 5e-4 and abs(y[1] - x[1]) <= .02 and \
                sphere.angle(sphere.xyz(x[2:]), sphere.xyz(y[2:])) < 5e-3 * x[0] / a.planetary_radius + 1e-10
        m = [y for y in left if ok(y)]
        if not m and x[1] < .02:
            continue
        check(m, 'crater %r not found %s: %r', x, what, left)
        y = min(m, key=lambda y: abs(y[1] - x[1]))
        left.remove(y)
    check(not left, 'unexpected craters %r %s', left, what)


def check_outlines(path, s):
    """outlines written for craters of s: circles about the centres (drawn on a plane, so slightly elongated)"""
    with shapefile.Reader(path) as r:
        shapes, rec = r.shapes(), [e.as_dict() for e in r.records()]
    eq(len(shapes), len(s.diam), 'outlines written')
    for q, a, d, x, y in zip(shapes, rec, s.diam, s.lon, s.lat):
        v = sphere.xyz(np.array(q.points))
        eq(len(q.parts), 1, 'rings of crater outline')
        c = sphere.xyz([x, y])
        ang = d / 2 / s.planetary_radius
        dist = sphere.angle(v, np.broadcast_to(c, v.shape)) / ang
        tol = rim_tolerance(ang)
        check(np.all(np.abs(dist - 1) <= tol), 'outline of %g km crater at %r has radii from %g to %g of its own (tolerance %g)', d, (x, y), dist.min(), dist.max(), tol)
        e, n = sphere.frame(c)
        t = np.unwrap(np.arctan2(v @ e, v @ n))
        check(abs(abs(t[-1] - t[0]) - 2 * np.pi) < 1e-6, 'outline does not close about its crater')
        check(t[-1] > t[0], 'outline of crater is anticlockwise')
        close(float(a['Diam_km']), d, 'attribute diameter', rtol=1e-6, atol=1e-6)
        check(sphere.angle(sphere.xyz([float(a['x_coord']), float(a['y_coord'])]), c) < 1e-12, 'attribute position %r of crater at %r', a, (x, y))


def rim_tolerance(ang):
    return 1.2 * ((math.radians(3.6) + ang) ** 2 / 8 + ang ** 2 / 24) + 2e-6 + 2e-15 / ang


def body_scc(case, ctx):
    d = ctx.tmpdir()
    reg = sphere.Region(case['region'])
    R = case['radius']
    name = case['name']
    cr, frac = [], []
    for c in craters_of(case, reg, d):
        o = sphere.circle(c['at'], c['D'] / 2 / R, 128)
        ov, touch = reg.overlap(o, c['at'])
        f = ov / sphere.ring_area(o)
        f = 0. if f < 1e-6 else 1. if f > 1 - 1e-6 else c21.lf(f)
        if f > .03:  # as if measured
            cr.append((c['D'], float('%.3g' % f), *sphere.tidy(c['at'])))
            frac.append(f)
    if not cr:
        raise Skip()
    p0 = os.path.join(d, name + '.scc')
    sphere.write_scc(p0, R, sphere.scc_rows(reg), cr, area=float('%.6g' % (reg.area * R ** 2)), perimeter=float('%.6g' % (reg.perimeter * R)))
    s = read(p0)
    out, new = convert(d, 'shp', os.path.basename(p0) if case['rel'] else p0, case, name)
    check({out + a + b for a in ('_CRATER', '_AREA') for b in ('.shp', '.shx', '.dbf', '.prj')} <= new, 'files written by conversion to shp: %r', new)
    check(all(e.startswith((out + '_CRATER.', out + '_AREA.')) for e in new), 'files written by conversion to shp: %r', new)
    p1 = os.path.join(d, out + '_CRATER.shp')
    t = read(p1)
    check_outlines(p1, s)
    compare_rims(s, t, reg, 'after conversion to shp')
    if all(in_pf(e) for e in s.diam) and all(e == 1. for e in s.fraction):
        ages(p0, p1, 2e-2)
    # and back
    out2, new2 = convert(d, 'scc', p1, dict(case, out='back'), None)
    eq(new2, {'back.scc'}, 'files written by conversion to scc')
    u = read(os.path.join(d, 'back.scc'))
    compare_rims(s, u, reg, 'after conversion to shp and back')
    text_area(os.path.join(d, 'back.scc'), s, rtol=1e-5 + 2.5 * abs(t.planetary_radius / R - 1))
    ctx.nontrivial(sum(map(len, reg.parts)) > 1 or any(0 < e < 1 for e in frac))
    ctx.label(case['region']['kind'])
    ctx.label('out ' + case['out'])


NAMES = st.sampled_from(['a', 'my count', 'a.b', 'x-1', 'Mare (1)', 'crater_x'])


@st.composite
def cases(draw, shp):
    reg = draw(sphere.regions(sizes=(.05, .5, 2., 5., 10., 20.), lat=60))
    proj = draw(st.sampled_from(['geographic', 'stere', 'laea', 'sinu']))
    if reg['kind'] != 'any' or abs(reg['parts'][0]['centre'][0]) > 100:
        proj = draw(st.sampled_from(['stere', 'laea']))
    return {'region': reg, 'radius': draw(sphere.RADII), 'proj': proj, 'craters': draw(st.lists(c21.crater(reg), min_size=1, max_size=7)),
            'name': draw(NAMES), 'out': draw(st.sampled_from(['none', 'none', 'new', 'sub dir/new', 'dir', 'new v1.2', 'out', 'sub dir/out'])), 'dot': draw(st.booleans()),
            'style': draw(st.sampled_from(['suffix', 'suffix', 'prefix'])), 'sub': draw(st.booleans()), 'rel': draw(st.booleans())}


SUBS = [
    Sub('from_shp', cases(True), body_shp, quick=100, shards=4, rule='hole, several parts or boundary crater'),
    Sub('from_scc', cases(False), body_scc, quick=160, shards=4, rule='hole, several parts or boundary crater'),
]
