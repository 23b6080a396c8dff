import math
import os

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import craterstats as cst
from .. import gen, sphere
from ..core import Sub, check, close, eq, Skip, quiet

PROPERTY = 'C21'
RULE = ('counting areas of 1-3 parts (star-shaped rings of great-circle edges, holes, islands, also about the antimeridian and the '
        'poles; 0.01-25 degrees; body radii 0.25-6371 km) written as .scc (permuted, reversed, rotated, renumbered rings) and as '
        'shapefiles in six projections with circular or irregular crater outlines anywhere about the boundary; oracle: solid angles '
        'of vector triangles, arc lengths, and polygon overlap in the gnomonic plane; non-trivial with more than one ring or a '
        'crater on the boundary')


def af(l):
    t = 2 * math.acos(1 - 2 * l)
    return (t - math.sin(t)) / (2 * math.pi)


def lf(a):
    return 0. if a <= 0 else 1. if a >= 1 else brentq(lambda l: af(l) - a, 0., 1., xtol=1e-12)


def body_areas(case, ctx):
    r = sphere.Region(case['region'])
    R = case['radius']
    d = ctx.tmpdir()
    cr = [[c[0], c[1], *sphere.tidy(c[2])] for c in case['craters']]

    def read(name, R=R, **k):
        p = sphere.write_scc(os.path.join(d, name + '.scc'), R, sphere.scc_rows(r, **k), cr, key=case['key'], fraction=case['fraction'])
        with quiet():
            return cst.Spatialcount(p)
    a = read('a')
    close(a.planetary_radius, R, 'radius')
    close(a.area, r.area * R ** 2, 'area', rtol=1e-7)
    close(a.perimeter, r.perimeter * R, 'perimeter', rtol=1e-8)
    b = read('b', order=case['order'], reverse=case['reverse'], shift=case['shift'], close=case['close'], first=case['first'], step=case['step'])
    close(b.area, a.area, 'area with rings renumbered %r, reversed %r, started elsewhere' % (case['order'], case['reverse']), rtol=1e-9)
    close(b.perimeter, a.perimeter, 'perimeter with rings renumbered, reversed, started elsewhere', rtol=1e-9)
    k = case['scale']
    c = read('c', R=R * k)
    close(c.area, a.area * k * k, 'area on sphere %gx as large' % k, rtol=1e-9)
    close(c.perimeter, a.perimeter * k, 'perimeter on sphere %gx as large' % k, rtol=1e-9)
    # craters keep their fractions and positions
    got = sorted(zip(a.diam, a.fraction, a.lon, a.lat))
    want = sorted((e[0], e[1] if case['fraction'] else 1., float('%.15f' % e[2]), float('%.15f' % e[3])) for e in cr)
    eq(got, want, 'craters of .scc file')
    check(np.all(np.diff(a.diam) >= 0) if len(a.diam) > 1 else True, 'diameters not in order')
    ctx.nontrivial(sum(map(len, r.parts)) > 1)
    ctx.label(case['region']['kind'])
    ctx.label('%d parts' % len(r.parts))
    if any(len(p) > 1 for p in r.parts):
        ctx.label('holes')


def outline(c, R):
    """crater outline rings (lon/lat) and angular radius"""
    ang = c['D'] / 2 / R
    if c['r']:
        return sphere.from_plane(c['at'], sphere.star(c['r']) * math.tan(ang))
    return sphere.circle(c['at'], ang, c['n'], c['turn'])


def body_shapes(case, ctx):
    reg = sphere.Region(case['region'])
    R = case['radius']
    d = ctx.tmpdir()
    centre = case['region']['parts'][0]['centre']
    proj = case['proj']
    if case['region']['kind'] == 'polar' or abs(centre[1]) + case['region']['parts'][0]['size'] > 82:
        proj = [{'geographic': 'laea', 'eqc': 'stere', 'merc': 'laea', 'sinu': 'stere'}.get(p, p) for p in proj]
    if any(len(p) > 0 and abs(((q[:, 0] - centre[0] + 180) % 360) - 180).max() > 170 for p in reg.parts for q in p[:1]) and 'stere' not in proj + ['laea']:
        raise Skip()

    def cont(ll):  # continuous longitudes, as drawn in a geographic map
        ll = np.array(ll)
        ll[:, 0] = centre[0] + (ll[:, 0] - centre[0] + 180) % 360 - 180
        return ll
    fa = sphere.projection(proj[0], R, centre)
    fc = sphere.projection(proj[1], R, centre)
    parts = [[fa[1](cont(q)) for q in p] for p in reg.parts]
    sphere.write_shp(os.path.join(d, 'x_AREA'), [parts] if case['one_record'] else [[p] for p in parts], fa[0])
    craters = [dict(c, D=c['u'] * math.radians(case['region']['parts'][0]['size']) * R) for c in case['craters']]
    outl = [outline(c, R) for c in craters]
    sphere.write_shp(os.path.join(d, 'x_CRATER'), [[[fc[1](cont(o))]] for o in outl], fc[0])
    with quiet():
        s = cst.Spatialcount(os.path.join(d, 'x_CRATER.shp'))
    close(s.planetary_radius, R, 'radius', rtol=1e-9)
    close(s.area, reg.area * R ** 2, 'area from shapefile in %s' % proj[0], rtol=1e-6)
    close(s.perimeter, reg.perimeter * R, 'perimeter from shapefile in %s' % proj[0], rtol=1e-7)
    got = list(zip(s.diam, s.fraction, s.lon, s.lat))
    mixed = False
    for c, o in zip(craters, outl):
        A = sphere.ring_area(o)
        D = 2 * R * math.acos(1 - A / (2 * math.pi))
        ov, touch = reg.overlap(o, c['at'])
        f = ov / A
        ok = []
        for g in got:
            if abs(g[0] / D - 1) < 1e-4 and (c['r'] or sphere.angle(sphere.xyz(g[2:]), sphere.xyz(c['at'])) < 2e-3 * D / R + 1e-12) and \
                    (sphere.angle(sphere.xyz(g[2:]), sphere.xyz(c['at'])) < D / R):
                ok.append(g)
        if f < 1e-7:
            w = 0.
            if touch and f > 0:
                for g in ok[:1]:
                    got.remove(g)
                continue
            same = [e for e in ok if e[1] > 1e-5]
            check(not same or any(e is not c and abs(e['D'] / c['D'] - 1) < .3 for e in craters), 'crater outside the area is kept: %r', same)
            ctx.label('outside')
            continue
        w = 1. if f > 1 - 1e-6 and not touch else lf(f)
        ok = [g for g in ok if abs(g[1] - w) < .002]
        check(ok, 'crater of diameter %r at %r with fraction %r (area fraction %r) not found: %r', D, c['at'], w, f, got)
        if not touch and f > .5:
            eq(float(ok[0][1]), 1., 'fraction of crater inside')
        if 0 < w < 1:
            check(0 < ok[0][1] < 1 or touch and not .001 < w < .999, 'fraction %r of crater on boundary', ok[0][1])
            mixed = True
        got.remove(min(ok, key=lambda g: abs(g[1] - w)))
        ctx.label('inside' if w == 1. else 'on boundary')
    check(not got, 'unexpected craters %r', got)
    ctx.nontrivial(mixed or sum(map(len, reg.parts)) > 1)
    ctx.label(proj[0])
    ctx.label(case['region']['kind'])


def body_edge(case, ctx):
    """small crater at a straight boundary: fraction is the linear penetration"""
    R = 1737.4
    d = ctx.tmpdir()
    c0 = case['centre']
    size = .05
    box = np.array([[0, -1], [1, -1], [1, 1], [0, 1]]) * size  # edge x = 0 through the centre
    t = case['turn']
    rot = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    area = sphere.from_plane(c0, box @ rot.T)
    r = size * case['rel']
    s = case['pen'] * 2 * r - r  # centre is s inside
    at = sphere.from_plane(c0, (np.array([[s, 0.]]) @ rot.T))[0]
    at = [float(v) for v in at]
    o = sphere.circle(at, math.atan(r), 128)

    def cont(ll):
        ll = np.array(ll)
        ll[:, 0] = c0[0] + (ll[:, 0] - c0[0] + 180) % 360 - 180
        return ll
    w = sphere.geographic(R)
    sphere.write_shp(os.path.join(d, 'x_AREA'), [[[cont(area)]]], w)
    sphere.write_shp(os.path.join(d, 'x_CRATER'), [[[cont(o)]]], w)
    with quiet():
        g = cst.Spatialcount(os.path.join(d, 'x_CRATER.shp'))
    p = case['pen']
    if abs(p) < .001:
        check(all(f < .02 for f in g.fraction), 'fraction of crater touching the boundary: %r', g.fraction)
    elif p < 0:
        eq(list(g.diam), [], 'crater outside the area')
    elif p >= .999:
        eq([float(e) for e in g.fraction], [1.], 'fraction of crater inside')
    else:
        eq(len(g.diam), 1, 'craters')
        check(abs(g.fraction[0] - p) < .004, 'crater penetrating to %r of its diameter has fraction %r', p, g.fraction[0])
        close(g.diam[0], 2 * R * math.atan(r), 'diameter', rtol=1e-3)
    ctx.nontrivial(0 < p < 1)


def body_transform(case, ctx):
    t = cst.fractional_crater_transform()
    l = np.sort(np.array(case['l']))
    a = np.array([af(v) for v in l])
    close(t.area_fraction(l), a, 'area fraction', atol=1e-12)
    got = np.asarray(t.af2lf(a))
    check(np.all(abs(got - l) < .002), 'linear fraction of area fractions %r: %r, expected %r', a.tolist(), got.tolist(), l.tolist())
    check(np.all(np.diff(got) >= 0), 'linear fraction not monotonic')
    close(t.af2lf(1 - a), 1 - got, 'symmetry', atol=1e-6)
    eq([float(t.af2lf(0.)), float(t.af2lf(1.))], [0., 1.], 'ends')
    ctx.nontrivial(len(l) > 1)


def perms():
    return st.lists(st.integers(0, 9), min_size=1, max_size=8)


@st.composite
def areas(draw):
    reg = draw(sphere.regions())
    n = draw(st.integers(1, 5))
    cr = [[gen.r6(10 ** (draw(st.integers(-2000, 2000)) / 1000.), 5), draw(gen.FRACS), draw(sphere.near(reg))] for _ in range(n)]
    return {'region': reg, 'radius': draw(sphere.RADII), 'craters': cr, 'order': draw(perms()), 'reverse': draw(st.lists(st.integers(0, 5), max_size=4)),
            'shift': draw(st.integers(0, 5)), 'close': draw(st.booleans()), 'first': draw(st.sampled_from([1, 1, 1, 0, 3])), 'step': draw(st.sampled_from([1, 1, 2])),
            'scale': draw(st.sampled_from([2., .5, 10.])), 'key': draw(st.sampled_from(['a_axis_radius', 'a_axis_radius', 'a-axis radius'])), 'fraction': draw(st.booleans())}


@st.composite
def crater(draw, reg, smooth=True):
    irr = draw(st.integers(0, 4)) == 0
    return {'at': draw(sphere.near(reg)), 'u': 10 ** (draw(st.integers(-250, -30)) / 100.), 'n': draw(st.sampled_from([100, 36, 64, 12])), 'turn': draw(st.integers(0, 6)) / 1.,
            'r': draw(sphere.rings(6, 14, 70)) if irr else None}


@st.composite
def shapes(draw):
    reg = draw(sphere.regions(sizes=(.05, .5, 2., 5., 10., 20.), lat=60))
    return {'region': reg, 'radius': draw(sphere.RADII), 'proj': [draw(st.sampled_from(sphere.PROJECTIONS)), draw(st.sampled_from(sphere.PROJECTIONS))],
            'one_record': draw(st.booleans()), 'craters': draw(st.lists(crater(reg), min_size=1, max_size=6))}


EDGE = st.fixed_dictionaries({'centre': st.tuples(st.integers(-1800, 1800).map(lambda i: i / 10.), st.integers(-700, 700).map(lambda i: i / 10.)).map(list),
                              'turn': st.integers(0, 63).map(lambda i: i / 10.), 'rel': st.sampled_from([.3, .1, .03]), 'pen': st.integers(-20, 120).map(lambda i: i / 100.)})
SUBS = [
    Sub('areas', areas(), body_areas, quick=500, shards=4, rule='more than one ring'),
    Sub('shapes', shapes(), body_shapes, quick=300, shards=4, rule='more than one ring or a crater on the boundary'),
    Sub('edge', EDGE, body_edge, quick=150, shards=2, rule='crater on the boundary'),
    Sub('transform', st.fixed_dictionaries({'l': st.lists(st.integers(0, 10000).map(lambda i: i / 1e4), min_size=1, max_size=10)}), body_transform, quick=200,
        rule='two or more values'),
]
