"""independent spherical geometry (vectors), generated counting areas, and writers for .scc and shapefiles"""
import math
import os

import numpy as np
import pyproj
import shapefile
import shapely
from hypothesis import strategies as st

from . import gen


def xyz(lonlat):
    a = np.radians(np.asarray(lonlat, float))
    return np.stack([np.cos(a[..., 1]) * np.cos(a[..., 0]), np.cos(a[..., 1]) * np.sin(a[..., 0]), np.sin(a[..., 1])], -1)


def lonlat(v):
    v = np.asarray(v, float)
    return np.stack([np.degrees(np.arctan2(v[..., 1], v[..., 0])), np.degrees(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))], -1)


def angle(a, b):
    """angular distance of vectors, accurate when small"""
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, -1))


def basis(lon, lat):
    c = xyz([lon, lat])
    e = np.array([-math.sin(math.radians(lon)), math.cos(math.radians(lon)), 0.])
    return c, e, np.cross(c, e)


def from_plane(c, pts):
    """gnomonic plane about c=(lon, lat) -> lon/lat: straight lines become great circles"""
    c, e, n = basis(*c)
    p = np.asarray(pts, float)
    v = c + p[..., :1] * e + p[..., 1:] * n
    return lonlat(v / np.linalg.norm(v, axis=-1, keepdims=True))


def to_plane(c, ll):
    c, e, n = basis(*c)
    v = xyz(ll)
    k = v @ c
    return np.stack([v @ e / k, v @ n / k], -1), k


def ring_area(ll):
    """solid angle of a ring (smaller side), any orientation"""
    v = xyz(ll)
    c = v.mean(0)
    c /= np.linalg.norm(c)
    a, b = v, np.roll(v, -1, 0)
    s = 2 * np.arctan2(np.cross(a - c, b - c) @ c, 1 + a @ c + b @ c + np.sum(a * b, -1))
    return abs(s.sum())


def ring_length(ll):
    v = xyz(ll)
    return angle(v, np.roll(v, -1, 0)).sum()


def star(r, ang0=0.):
    n = len(r)
    t = ang0 + 2 * np.pi * np.arange(n) / n
    return np.stack([np.cos(t), np.sin(t)], -1) * np.asarray(r, float)[:, None]


class Region:
    """counting area from its generated description: list of parts, each [exterior, hole, ...]"""

    def __init__(self, case):
        self.parts = []  # lists of rings (lon/lat arrays), first is exterior
        for part in case['parts']:
            c, size = part['centre'], math.tan(math.radians(part['size']))
            ext = star(part['r'], part['turn'])
            inner = min(part['r']) * math.cos(math.pi / len(part['r'])) * .95  # disc inside exterior
            rings = [ext]
            extra = []
            k = len(part['holes'])
            if part.get('pits'):  # many small holes about a circle
                m = part['pits']
                w = inner * .5 * math.sin(math.pi / max(m, 3)) * .8
                for i in range(m):
                    t = 2 * math.pi * i / m + .3
                    rings.append(inner * .5 * np.array([math.cos(t), math.sin(t)]) + star(np.array([1., .9, 1., .8, 1.]) * w, .7 * i))
            for i, h in enumerate(part['holes']):
                rad = inner * (.9 if k == 1 else .45)
                off = np.array([0., 0.]) if k == 1 else np.array([(-1.) ** i * inner / 2, 0.])
                rings.append(off + star(np.array(h['r']) * rad))
                if h['island']:
                    rad2 = rad * min(h['r']) * math.cos(math.pi / len(h['r'])) * .9
                    isl = [off + star(np.array(h['island']) * rad2)]
                    if h['deep']:
                        rad3 = rad2 * min(h['island']) * math.cos(math.pi / len(h['island'])) * .8
                        isl.append(off + star([rad3] * 5))
                    extra.append(isl)
            for p in [rings] + extra:
                self.parts.append([from_plane(c, q * size) for q in p])
        self.area = sum(ring_area(p[0]) - sum(ring_area(h) for h in p[1:]) for p in self.parts)
        self.perimeter = sum(ring_length(r) for p in self.parts for r in p)

    def shapes_about(self, c):
        """planar geometry in the gnomonic plane about c, of parts wholly in its hemisphere"""
        out = []
        for p in self.parts:
            g = [to_plane(c, r) for r in p]
            if all(np.all(k > .05) for _, k in g):
                out.append(shapely.Polygon(g[0][0], [q[0] for q in g[1:]]))
        return out

    def contains(self, c):
        return any(s.contains(shapely.Point(0, 0)) for s in self.shapes_about(c))

    def overlap(self, outline, c):
        """(solid angle of outline inside region, distance in plane of outline to boundary is zero?)"""
        o = shapely.Polygon(to_plane(c, outline)[0])
        tot = 0.
        touches = False
        for s in self.shapes_about(c):
            if o.intersects(s.boundary):
                touches = True
            i = o.intersection(s)
            for g in getattr(i, 'geoms', [i]):
                if g.geom_type == 'Polygon' and not g.is_empty:
                    tot += plane_area(c, g)
        return tot, touches


def plane_area(c, g):
    return ring_area(from_plane(c, np.array(g.exterior.coords)[:-1])) - sum(ring_area(from_plane(c, np.array(h.coords)[:-1])) for h in g.interiors)


def circle(c, ang, n, turn=0.):
    """outline of a circle of angular radius ang about c"""
    t = turn + 2 * np.pi * np.arange(n) / n
    return from_plane(c, np.stack([np.cos(t), np.sin(t)], -1) * math.tan(ang))


def tidy(ll):
    """longitudes in -180..180, as printed"""
    ll = np.array(ll)
    ll[..., 0] = (ll[..., 0] + 180) % 360 - 180
    return ll


# writing

def scc_rows(region, order=None, reverse=(), shift=0, close=False, first=1, step=1):
    """unit_boundary rows; order permutes ring numbers"""
    rings = [('ext' if i == 0 else 'int', r) for p in region.parts for i, r in enumerate(p)]
    idx = list(range(len(rings))) if not order else sorted(range(len(rings)), key=lambda i: (order[i % len(order)], i))
    rows = []
    for num, i in enumerate(idx):
        tag, r = rings[i]
        r = np.roll(r, shift, 0)
        if i in reverse:
            r = r[::-1]
        if close:
            r = np.concatenate([r, r[:1]])
        rows += [(first + num * step, tag, float(x), float(y)) for x, y in r]
    return rows


def write_scc(path, radius, rows, craters, fraction=True, key='a_axis_radius', area=1., perimeter=1.):
    """craters: (diam, fraction, lon, lat)"""
    s = ['# Spatial crater count', '%s = %r <km>' % (key, radius), 'Total_area = %r <km^2>' % area, 'Total_perimeter = %r <km>' % perimeter, '#',
         'unit_boundary = {vertex, sub_area, tag, lon, lat', '#']
    s += ['%d\t%d\t%s\t%.15f\t%.15f' % (i, a, t, x, y) for i, (a, t, x, y) in enumerate(rows, 1)]
    s += ['}', '#', 'crater = {diam, %slon, lat, topo_scale_factor' % ('fraction, ' if fraction else ''), '#']
    for d, f, x, y in craters:
        s.append('%r\t' % d + ('%r\t' % f if fraction else '') + '%.15f\t%.15f\t1' % (x, y))
    s += ['}']
    with open(path, 'w') as g:
        g.write('\n'.join(s) + '\n')
    return path


def geographic(radius):
    m = '%.10g' % (radius * 1e3)
    return 'GEOGCS["GCS_X",DATUM["D_X",SPHEROID["S_X",%s,0.0]],PRIMEM["Reference_Meridian",0.0],UNIT["Degree",0.0174532925199433]]' % m


PROJECTIONS = ['geographic', 'sinu', 'eqc', 'stere', 'laea', 'merc']


def projection(kind, radius, c):
    """(wkt, function of lon/lat rings to map coordinates)"""
    if kind == 'geographic':
        return geographic(radius), lambda ll: np.asarray(ll, float)
    lon0 = c[0]
    p = {'sinu': '+proj=sinu +lon_0=%r' % lon0, 'eqc': '+proj=eqc +lon_0=%r' % lon0, 'stere': '+proj=stere +lat_0=%r +lon_0=%r' % (c[1], lon0),
         'laea': '+proj=laea +lat_0=%r +lon_0=%r' % (c[1], lon0), 'merc': '+proj=merc +lon_0=%r' % lon0}[kind] + ' +R=%.10g +units=m +no_defs' % (radius * 1e3)
    crs = pyproj.CRS(p)
    t = pyproj.Transformer.from_crs(crs.geodetic_crs, crs, always_xy=True)

    def f(ll):
        ll = np.asarray(ll, float)
        return np.stack(t.transform(ll[:, 0], ll[:, 1]), -1)
    return crs.to_wkt('WKT1_ESRI'), f


def clockwise(r):
    x, y = r[:, 0], r[:, 1]
    return np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y) < 0


def oriented(r, cw):
    r = r if clockwise(r) == cw else r[::-1]
    return [[float(a), float(b)] for a, b in np.concatenate([r, r[:1]])]


def write_shp(base, polygons, wkt, field='tag'):
    """polygons: records of rings in map coordinates, first of each part exterior: [[part, part], ...] with part=[ext, holes...]"""
    w = shapefile.Writer(base + '.shp', shapeType=shapefile.POLYGON)
    w.field(field, 'C', 20)
    for rec in polygons:
        w.poly([oriented(r, i == 0) for part in rec for i, r in enumerate(part)])
        w.record('standard')
    w.close()
    with open(base + '.prj', 'w') as f:
        f.write(wkt)


# generation

RADII = st.sampled_from([1737.4, 1737.4, 3396.19, 2439.7, 476.2, 262.7, 6371., 35.3, 10., .25, 1.])


def rings(n0=3, n1=10, lo=55):
    return st.lists(st.integers(lo, 100).map(lambda i: i / 100.), min_size=n0, max_size=n1)


@st.composite
def part(draw, centre, size, holes=2, islands=True):
    h = []
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2][:3 + holes]))):
        isl = draw(st.one_of(st.none(), st.none(), rings(3, 6))) if islands else None
        h.append({'r': draw(rings(4, 8)), 'island': isl, 'deep': bool(isl) and draw(st.integers(0, 2)) == 0})
    out = {'centre': centre, 'size': size, 'r': draw(rings(4, 12)), 'turn': draw(st.integers(0, 60)) / 10., 'holes': h}
    if holes and not h and draw(st.integers(0, 3)) == 0:
        out['pits'] = draw(st.integers(3, 14))
    return out


@st.composite
def regions(draw, max_parts=3, polar=True, lat=75, sizes=(.01, .1, .5, 2., 5., 10., 25.), islands=True, holes=2):
    """parts within a row along a parallel, apart from each other"""
    size = draw(st.sampled_from(sizes))
    kind = draw(st.sampled_from(['any', 'any', 'antimeridian'] + (['polar'] if polar else [])))
    la = draw(st.integers(-lat * 10, lat * 10)) / 10.
    lo = draw(st.integers(-1790, 1800)) / 10.
    if kind == 'antimeridian':
        lo = 180. + draw(st.integers(-8, 8)) / 10. * size
        lo = lo - 360 if lo > 180 else lo
    n = draw(st.integers(1, max_parts))
    if kind == 'polar':
        la = draw(st.sampled_from([90., -90., 90 - size * .3, size * .3 - 90, 90 - size * 1.5]))
        n = 1
    parts = []
    c0 = [lo, la]
    for i in range(n):
        if i == 0:
            c = c0
        else:  # away along a great circle through the centre
            g = size * 2.1 * i
            if g > 60:
                break
            c = [float(v) for v in from_plane(c0, [[math.tan(math.radians(g)), 0.]])[0]]
        parts.append(draw(part(c, size, holes=holes, islands=islands)))
    return {'parts': parts, 'kind': kind}


@st.composite
def near(draw, reg, ang_hi=None):
    """(lon, lat) inside or about the first part: position in its plane in units of its size"""
    u = draw(st.integers(0, 120)) / 100.
    t = draw(st.integers(0, 628)) / 100.
    p = reg['parts'][draw(st.integers(0, len(reg['parts']) - 1))]
    s = math.tan(math.radians(p['size']))
    q = from_plane(p['centre'], [[u * s * math.cos(t), u * s * math.sin(t)]])[0]
    return [float(v) for v in q]


# random positions

def cap(reg):
    """centre vector and angular radius of a cap around all vertices"""
    v = np.concatenate([xyz(p[0]) for p in reg.parts])
    c = v.mean(0)
    c /= np.linalg.norm(c)
    return c, angle(np.broadcast_to(c, v.shape), v).max()


def frame(c):
    a = np.array([1., 0, 0]) if abs(c[0]) < .8 else np.array([0, 1., 0])
    e = np.cross(a, c)
    e /= np.linalg.norm(e)
    return e, np.cross(c, e)


def in_cap(c, ang, n, rng):
    """uniform on cap"""
    h = 2 * math.sin(ang / 2) ** 2 * rng.random(n)  # 1 - cos
    r = np.sqrt(h * (2 - h))
    t = 2 * math.pi * rng.random(n)
    e, f = frame(c)
    return (1 - h)[:, None] * c + (r * np.cos(t))[:, None] * e + (r * np.sin(t))[:, None] * f


class Inside:
    """vectorised test of being in the region (which fits in a hemisphere)"""

    def __init__(self, reg):
        self.c, self.ang = cap(reg)
        self.ll = lonlat(self.c)
        self.shape = shapely.union_all(reg.shapes_about(self.ll))
        shapely.prepare(self.shape)

    def __call__(self, ll):
        p, k = to_plane(self.ll, ll)
        return shapely.contains_xy(self.shape, p[..., 0], p[..., 1]) & (k > 0)

    def distance(self, ll):
        """to boundary in the plane, relative to size"""
        p, k = to_plane(self.ll, ll)
        return shapely.distance(self.shape.boundary, shapely.points(p)) / math.tan(self.ang)

    def scatter(self, n, rng, clump=0.):
        """n positions (lon/lat) in the region, uniform or in clumps"""
        out = np.zeros((0, 2))
        cores = None
        if clump:
            cores = self.scatter(3, rng)
        while len(out) < n:
            if clump:
                k = xyz(cores[rng.integers(0, 3, 64)]) + rng.normal(size=(64, 3)) * self.ang * clump
                v = k / np.linalg.norm(k, axis=1)[:, None]
            else:
                v = in_cap(self.c, self.ang * 1.0001, max(64, n), rng)
            ll = lonlat(v)
            out = np.concatenate([out, ll[self(ll)]])
        return out[:n]

    def cells(self, ll):
        """areas (solid angle) of parts of the region nearer to each position than to the others"""
        c, e, f = basis(*self.ll)
        v = xyz(ll)
        x0, y0, x1, y1 = self.shape.bounds
        w = max(x1 - x0, y1 - y0) * .01
        box = np.array([[x0 - w, y0 - w], [x1 + w, y0 - w], [x1 + w, y1 + w], [x0 - w, y1 + w]])
        out = []
        for i, p in enumerate(v):
            poly = box
            for j in np.argsort(-(v @ p)):  # nearest first
                if j == i or len(poly) == 0:
                    continue
                m = p - v[j]
                g = m @ c + poly[:, 0] * (m @ e) + poly[:, 1] * (m @ f)
                if np.all(g >= 0):
                    continue
                keep = []
                for k in range(len(poly)):
                    a, b, ga, gb = poly[k], poly[(k + 1) % len(poly)], g[k], g[(k + 1) % len(poly)]
                    if ga >= 0:
                        keep.append(a)
                    if (ga >= 0) != (gb >= 0):
                        keep.append(a + (b - a) * ga / (ga - gb))
                poly = np.array(keep)
            if len(poly) < 3:
                out.append(0.)
                continue
            s = shapely.Polygon(poly).buffer(0).intersection(self.shape)
            out.append(sum(plane_area(self.ll, g) for g in getattr(s, 'geoms', [s]) if g.geom_type == 'Polygon' and not g.is_empty))
        return np.array(out)


def near2(ll):
    """second closest other: index, angle"""
    v = xyz(ll)
    a = angle(v[:, None, :], v[None, :, :])
    np.fill_diagonal(a, np.inf)
    i = np.argsort(a, axis=1, kind='stable')[:, 1]
    return i, a[np.arange(len(v)), i]
