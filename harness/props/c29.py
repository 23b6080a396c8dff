"""C29: maps and randomness figures show the count."""
import math
import os
import re
import sys
from unittest import mock

import numpy as np
import shapely
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen, sphere, draw
from .c22 import rim_tolerance
from ..core import Sub, check, close, eq, Skip, quiet, cwd

PROPERTY = 'C29'
RULE = ('maps of generated counting regions (1-3 parts, holes, islands, poles, antimeridian, up to half a globe) with 0-8 craters, as file '
        'conversions and as panels of randomness figures with generated trial values; oracle: independent spherical geometry through the '
        'inverse orthographic projection about the region\'s own centroid, recounted histograms, nearest neighbours and cells; non-trivial '
        'when the region has several rings or the figure several panels')

RA = sys.modules['craterstats.Randomnessanalysis']
MIN = {'m2cnd': 3, 'sdaa': 4}


def centroid(reg):
    """of the region's surface"""
    tot = np.zeros(3, np.longdouble)
    for p in reg.parts:
        for i, r in enumerate(p):
            x, y = np.asarray(r, np.longdouble).T * np.arccos(np.longdouble(-1)) / 180  # small regions: cancellation
            v = np.stack([np.cos(y) * np.cos(x), np.cos(y) * np.sin(x), np.sin(y)], -1)
            a, b = v, np.roll(v, -1, 0)
            c = np.cross(a, b)
            n = np.sqrt((c ** 2).sum(1))
            s = (c / n[:, None] * np.arctan2(n, np.sum(a * b, 1))[:, None]).sum(0) / 2
            if s @ v.mean(0) < 0:
                s = -s
            tot += s if i == 0 else -s
    return (tot / np.sqrt((tot ** 2).sum())).astype(float)


class View:
    """orthographic map about the centroid"""

    def __init__(self, reg, R):
        self.reg, self.R = reg, R
        self.c, self.e, self.n = sphere.basis(*sphere.lonlat(centroid(reg)))

    def to_map(self, ll):
        v = sphere.xyz(ll)
        return np.stack([v @ self.e, v @ self.n], -1) * self.R

    def vec(self, xy):
        p = np.asarray(xy, float) / self.R
        z = np.sqrt(np.clip(1 - (p ** 2).sum(-1), 0, None))
        return p[..., :1] * self.e + p[..., 1:] * self.n + z[..., None] * self.c


def rings_of(ax, filled=True):
    """rings drawn as collections, with face"""
    out = []
    for c in ax.collections:
        face = len(c.get_facecolor()) > 0 and c.get_facecolor()[0][3] > 0
        for p in c.get_paths():
            v, codes = p.vertices, p.codes
            start = [i for i, k in enumerate(codes) if k == 1] + [len(v)]
            out.append((face, [v[a:b] for a, b in zip(start, start[1:])]))
    return out


def match_region(view, shapes):
    """every ring of the region is drawn, with its vertices in order, and grouped as it should"""
    known = [(i, j, view.to_map(r)) for i, p in enumerate(view.reg.parts) for j, r in enumerate(p)]
    size = max(np.ptp(k[2], 0).max() for k in known)
    tol = 1e-6 * size + 1e-9 * view.R
    seen = []
    for rings in shapes:
        ids = []
        for v in rings:
            best = None
            for i, j, k in known:
                d = np.linalg.norm(v[:, None] - k[None], axis=2)
                if d.min(1).max() < tol:
                    best = i, j, d.argmin(1), len(k)
            check(best is not None, 'drawn outline with vertices %r is not of the counting area', v[:4].tolist())
            i, j, seq, n = best
            seq = [s for s, t in zip(seq, np.roll(seq, 1)) if s != t]
            steps = {int((b - a) % n) for a, b in zip(seq, seq[1:] + seq[:1])}
            check(len(seq) == n and (steps == {1} or steps == {n - 1}), 'outline of part %d, ring %d drawn through vertices %r', i, j, seq)
            ids.append((i, j))
        seen.append(sorted(ids))
    eq(sorted(seen), [[(i, j) for j in range(len(p))] for i, p in enumerate(view.reg.parts)], 'outlines drawn (part, ring)')


def take_rims(view, lines, craters, what='', tol=0.):
    """lines which are rims of the craters (d, lon, lat); returns the others"""
    lines = list(lines)
    for d, lon, lat in craters:
        c = sphere.xyz([lon, lat])
        ang = d / 2 / view.R
        hit = []
        for k, l in enumerate(lines):
            xy = np.array(l.get_data(), float).T
            if len(xy) < 13 or not np.all(np.isfinite(xy)) or np.linalg.norm(xy[0] - xy[-1]) > 1e-6 * d:
                continue
            v = view.vec(xy)
            a = sphere.angle(v, np.broadcast_to(c, v.shape)) / ang
            if abs(a - 1).max() > rim_tolerance(ang) + tol:
                continue
            e, n = sphere.frame(c)
            t = np.sort(np.arctan2(v @ e, v @ n))
            if max(np.diff(t).max(), t[0] + 2 * np.pi - t[-1]) < .55:
                hit.append(k)
        check(hit, 'rim of %g km crater at %r not drawn %s', d, (lon, lat), what)
        del lines[hit[0]]
    return lines


def in_frame(ax, pts):
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    p = np.concatenate(pts)
    check(np.all((p[:, 0] >= x0) & (p[:, 0] <= x1) & (p[:, 1] >= y0) & (p[:, 1] <= y1)), 'part of map outside frame %r: %r', (x0, x1, y0, y1), (p.min(0), p.max(0)))
    check(max((x1 - x0) / np.ptp(p[:, 0]), (y1 - y0) / np.ptp(p[:, 1])) < 1.5, 'frame %r much larger than map %r', (x0, x1, y0, y1), (p.min(0), p.max(0)))
    eq(ax.get_aspect() in ('equal', 1.0), True, 'aspect')


def check_map(ax, view, craters, lines=None):
    match_region(view, [r for f, r in rings_of(ax) if f])
    rest = take_rims(view, ax.lines if lines is None else lines, craters)
    rims = [np.array(l.get_data(), float).T for l in ax.lines if l not in rest]
    in_frame(ax, [view.to_map(r) for p in view.reg.parts for r in p] + rims)
    return rest


def check_grid(ax, view, rest):
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    frame = shapely.box(x0, y0, x1, y1)
    got = []
    par, mer, mk = [], [], []
    for l in rest:
        xy = np.array(l.get_data(), float).T
        ok = np.all(np.isfinite(xy), 1)
        runs = [r for r in np.split(np.arange(len(xy)), np.flatnonzero(~ok)) if ok[r].sum() > 1]
        check(any(shapely.LineString(xy[r][ok[r]]).intersects(frame) for r in runs), 'grid line away from map: %r', xy[:3].tolist())
        ll = sphere.lonlat(view.vec(xy[ok]))
        ll = ll[abs(ll[:, 1]) < 90 - 1e-4]
        r = np.linalg.norm(view.to_map(ll), axis=1) < view.R * .999
        ll = ll[r] if r.sum() > 1 else ll
        if np.ptp(ll[:, 1]) < 1e-6 * max(1, np.ptp(ll[:, 0])) + 1e-9:
            got.append(float(ll[:, 1].mean()))
            par.append(got[-1])
        else:
            o = (ll[:, 0] - ll[0, 0] + 180) % 360 - 180
            k = np.cos(np.radians(ll[:, 1]))
            check(abs(o * k).max() < 1e-5 * max(1, np.ptp(ll[:, 1])) + 1e-9, 'grid line is neither a meridian nor a parallel: %r', ll[:5].tolist())
            got.append(float(ll[np.argmax(k), 0]))
            mer.append(got[-1])
            mk.append(float(k.max()))
    lab = [float(t.get_text().strip().rstrip('°')) for t in ax.texts]
    eq(len(lab), len(got), 'labels of grid lines %r at %r' % (lab, got))
    left = [(g, 0.) for g in par] + [(g, 2e-8 / k) for g, k in zip(mer, mk)]  # longitudes are ill-determined about the poles
    for v in lab:
        check(-180 <= v <= 360, 'grid label %r', v)
        k = [i for i, (g, e) in enumerate(left) if abs((g - v + 180) % 360 - 180) < 1e-5 + 1e-6 * abs(v) + e]
        check(k, 'no grid line at label %r: lines at %r', v, got)
        del left[k[0]]
    for t in ax.texts:
        x, y = t.get_position()
        check(x0 - (x1 - x0) * .05 <= x <= x1 + (x1 - x0) * .05 and y0 - (y1 - y0) * .05 <= y <= y1 + (y1 - y0) * .05, 'grid label %r at %r outside map', t.get_text(), (x, y))
    # evenly spaced over the whole map
    ll = np.concatenate([r for p in view.reg.parts for r in p])
    lon0 = sphere.lonlat(view.c)[0]
    for what, v, w in (('parallels', par, ll[:, 1]), ('meridians', [(e - lon0 + 180) % 360 - 180 for e in mer], (ll[:, 0] - lon0 + 180) % 360 - 180)):
        if what == 'meridians' and (abs(ll[:, 1]).max() > 80 or np.ptp(w) > 170) or len(v) < 2:
            continue
        v = np.sort(v)
        step = np.diff(v)
        close(step, step[0] * np.ones(len(step)), 'spacing of %s %r' % (what, list(v)), rtol=1e-4, atol=1e-6)
        tol = .02 * np.ptp(w) + 1.001 * step[0]
        check(v[0] <= w.min() + tol and v[-1] >= w.max() - tol, '%s %r leave out part of the area, which extends over %r', what, list(v), [w.min(), w.max()])
    return lab


def body_map(case, ctx):
    reg = sphere.Region(case['region'])
    R = case['radius']
    d = ctx.tmpdir()
    view = View(reg, R)
    ang = max(sphere.angle(sphere.xyz(r), np.broadcast_to(view.c, (len(r), 3))).max() for p in reg.parts for r in p)
    if ang > math.radians(85) or np.hypot(*view.c[:2]) < 1e-3 * ang:  # orientation is undefined about the pole
        raise Skip()
    cr = []
    for rel, ll in case['craters']:
        cr.append((float('%.6g' % (2 * R * min(rel * ang, math.radians(2)))), 1., *[float('%.15f' % e) for e in sphere.tidy(ll)]))
        if sphere.angle(sphere.xyz(ll), view.c) > math.radians(86):
            raise Skip()
    if case['shp'] and not all(reg.contains(ll) for _, ll in case['craters']):
        raise Skip()  # craters off the area are left out
    src = case['name'] + '.scc'
    sphere.write_scc(os.path.join(d, src), R, sphere.scc_rows(reg), cr)
    a = ['--convert', case['fmt'], src]
    base = case['name']
    if case['out']:
        a = ['-o', case['out']] + a
        base = case['out']
    if case['title']:
        a = ['-title', case['title']] + a
    if case['shp']:
        with cwd(d), quiet():
            cli.main(['--convert', 'shp', src])
        a[a.index(src)] = case['name'] + '_CRATER.shp'
    with cwd(d):
        got = draw.figures(a)
        eq([os.path.abspath(p) for p, _ in got], [os.path.join(d, base + '_map.' + case['fmt'])], 'maps written')
        check(os.path.exists(base + '_map.cs'), 'no command file for map: %r', os.listdir('.'))
    fig = got[0][1]
    eq(len(fig.axes), 1, 'plots in figure')
    ax = fig.axes[0]
    if case['shp']:  # outlines with 100 points
        cr = [(c[0] * (1 - 1 / 6000), *c[1:]) for c in cr]
    rest = check_map(ax, view, [(c[0], c[2], c[3]) for c in cr])
    lab = check_grid(ax, view, rest)
    eq(ax.get_title(), (case['title'] or '').replace('|', '\n'), 'title')
    ctx.label('%d grid lines' % min(9, len(lab)))
    ctx.label(case['region']['kind'])
    if any(len(p) > 1 for p in reg.parts):
        ctx.label('holes')
    ctx.nontrivial(sum(map(len, reg.parts)) > 1)


@st.composite
def map_cases(draw):
    reg = draw(sphere.regions(sizes=(.01, .1, .5, 2., 5., 10., 25., 45., 65., 78.)))
    cr = [[10 ** (draw(st.integers(-250, -50)) / 100.), draw(sphere.near(reg))] for _ in range(draw(st.integers(1, 8)))]
    return {'region': reg, 'radius': draw(sphere.RADII), 'craters': cr, 'fmt': draw(st.sampled_from(['png', 'svg', 'pdf'])), 'shp': draw(st.integers(0, 4)) == 0,
            'name': draw(st.sampled_from(['x', 'my count', 'a-b', 'area.v2'])), 'out': draw(st.sampled_from([None, None, 'fig', 'a fig', 'fig v1.2', 'out'])),
            'title': draw(st.sampled_from([None, 'A', 'two|lines']))}



# randomness figures

def scaled(v):
    return math.copysign(abs(v) ** .6, v)


def number(t):
    return float(re.match(r'\s*([-+.\de]+)', t)[1])


def check_histogram(ax, trials, m0, measure, what):
    T = len(trials)
    bars = [b for b in ax.patches if hasattr(b, 'get_height')]
    check(bars, 'no histogram of %s', what)
    left = np.array([b.get_x() for b in bars])
    w = np.array([b.get_width() for b in bars])
    h = np.array([b.get_height() for b in bars])
    eq(float(h.sum()), float(T), 'trials in histogram of ' + what)
    close(left[1:], (left + w)[:-1], 'edges of bars of ' + what, rtol=1e-9)
    t = np.array(trials)
    for a, c in zip(left + w, np.cumsum(h)):  # trials up to each edge
        e = 1e-9 * np.ptp(t) + 1e-6 * abs(t).max()
        check((t < a - e).sum() <= c <= (t <= a + e).sum(), '%g trials in histogram of %s up to %g, %d expected', c, what, a, (t <= a).sum())
    lines = [np.array(l.get_data(), float).T for l in ax.lines]
    vert = sorted(float(l[0, 0]) for l in lines if len(l) == 2 and l[0, 0] == l[1, 0])
    close(vert, sorted([m0, float(np.mean(t))]), 'lines at value and mean of ' + what, rtol=1e-5)
    ext = [c.get_paths()[0].vertices[:, 0] for c in ax.collections]
    eq(len(ext), 1, 'shaded bands in histogram of ' + what)
    mn, sd = np.mean(t), np.std(t)
    close([ext[0].min(), ext[0].max()], [mn - sd, mn + sd], 'shaded band of ' + what, rtol=1e-6, atol=1e-3 * sd)
    x0, x1 = ax.get_xlim()
    check(x0 < min(m0, t.min()) and max(m0, t.max()) < x1, 'histogram %r does not include value %g and trials of %s', (x0, x1), m0, what)
    y0, y1 = ax.get_ylim()
    check(y0 == 0 and y1 >= h.max(), 'scale %r of histogram of %s', (y0, y1), what)
    tx = [q for q in ax.texts if '%' in q.get_text()]
    eq(len(tx), 1, 'percentiles given for ' + what)
    close(tx[0].get_position()[0], m0, 'position of value of ' + what, rtol=1e-5)
    v, pc = tx[0].get_text().split('\n')
    close(float(v), m0, 'value of ' + what, rtol=6e-3)
    lo, hi = 100 * np.mean(t < m0 * (1 - 1e-6)), 100 * np.mean(t <= m0 * (1 + 1e-6))
    n = number(pc.replace('<', '').replace('>', ''))
    tol = .06 if 99 < hi or lo < 1 else .6
    check(lo - tol <= n <= hi + tol, 'percentile %r of %s: fraction of trials below %g-%g %%', pc, what, lo, hi)
    for x, lab in draw.ticklabels(ax):
        close(number(lab), x, 'tick of histogram of ' + what, rtol=6e-6, atol=1e-9 * (x1 - x0))
    check(draw.ticklabels(ax)[-1][1].endswith('km' if measure == 'm2cnd' else 'km²'), 'unit of histogram of %s: %r', what, draw.ticklabels(ax))


def check_n_sigma(axes, measure, T, want, what):
    """deviation chart; want: {bin: n_sigma}"""
    ax = [a for a in axes if any(t.get_text() == 'clustered' for t in a.texts)]
    eq(len(ax), 1, 'deviation charts ' + what)
    ax = ax[0]
    l = [np.array(l.get_data(), float).T for l in ax.lines if l.get_marker() not in ('', 'None', None)]
    eq(len(l), 1, 'curves in deviation chart ' + what)
    sg = -1 if measure == 'sdaa' else 1
    pts = sorted((math.log10(2 ** (b + .25)), sg * scaled(v)) for b, v in want.items())
    eq(len(l[0]), len(pts), 'points in deviation chart ' + what)
    close(l[0][np.argsort(l[0][:, 0])], np.array(pts), 'points of deviation chart ' + what, rtol=1e-3, atol=2e-3)
    lo, hi = ax.get_xlim()
    check(lo <= pts[0][0] and pts[-1][0] <= hi, 'points outside deviation chart')
    up = [t.get_position()[1] for n in ('clustered', 'separated') for t in ax.texts if t.get_text() == n]
    check(len(up) == 2 and up[0] < 0 < up[1] and ax.get_ylim()[0] < ax.get_ylim()[1], 'directions of deviation chart %r', up)
    close(sorted(ax.get_ylim()), [-3 ** .6, 3 ** .6], 'scale of deviation chart', rtol=1e-6)
    for k in (-3, -1, 0, 1, 3):
        check([t for t in ax.texts if t.get_text().strip() == str(abs(k)) and abs(t.get_position()[1] - scaled(k)) < .2], 'scale mark %d of deviation chart', k)
    band = sorted(float(c.get_paths()[0].vertices[:, 1].max()) for c in ax.collections)
    close(band, [k ** .6 for k in (1, 2, 3)], 'bands of deviation chart', rtol=1e-6)
    check([t for t in ax.texts if t.get_text().split('\n') == [measure, '%d trials' % T]], 'name of measure and number of trials in deviation chart: %r', [t.get_text() for t in ax.texts])


def check_panel(ax, hist, view, craters, measure, m0, trials, ins, what):
    """map with neighbours or cells, and histogram"""
    ll = np.array([c[1:] for c in craters])
    rest = check_map(ax, view, craters)
    if measure == 'm2cnd':
        eq(len(rest), len(craters), 'lines on map ' + what)
        i, _ = sphere.near2(ll)
        P = view.to_map(ll)
        got = [np.array(l.get_data(), float).T for l in rest]
        size = max(np.ptp(view.to_map(np.concatenate([p[0] for p in view.reg.parts])), 0).max(), np.ptp(P, 0).max())
        for k, j in enumerate(i):
            d = [abs(g - P[[k, j]]).max() for g in got]
            check(min(d) < 1e-6 * size, 'crater at %r not joined to its second-closest neighbour at %r %s', ll[k].tolist(), ll[j].tolist(), what)
            del got[int(np.argmin(d))]
    else:
        eq(len(rest), 0, 'lines on map ' + what)
        cells = [r for f, r in rings_of(ax) if not f]
        check(len(cells) >= len(craters), '%d cells for %d craters %s', len(cells), len(craters), what)
        tot = 0.
        for c in cells:
            ring = c[0][:-1]
            ring = ring[np.linalg.norm(ring - np.roll(ring, 1, 0), axis=1) > 0]
            tot += sphere.ring_area(sphere.lonlat(view.vec(ring)))
        filled = sum(sphere.ring_area(r) for p in view.reg.parts for r in p[:1])
        check(view.reg.area * (1 - 2e-3) - 1e-12 <= tot <= filled * (1 + 2e-3) + 1e-12, 'cells on map cover %g of area %s', tot / view.reg.area, what)
    check_histogram(hist, trials, m0, measure, what)


class Count:
    def __init__(self, d, case):
        self.reg = sphere.Region(case['region'])
        self.R = R = case['radius']
        self.view = View(self.reg, R)
        ins = self.ins = sphere.Inside(self.reg)
        rng = np.random.default_rng(case['seed'])
        self.ang = max(sphere.angle(sphere.xyz(r), np.broadcast_to(self.view.c, (len(r), 3))).max() for p in self.reg.parts for r in p)
        if self.ang > math.radians(80) or np.hypot(*self.view.c[:2]) < 1e-3 * self.ang:
            raise Skip()
        k0 = round(2 * math.log2(ins.ang * R / 40))
        self.bins, cr = {}, []
        for k, n in case['bins']:
            k += k0
            ll = np.array([[float('%.15f' % e) for e in q] for q in ins.scatter(n, rng)])
            c = [(float('%.6g' % 2 ** (k / 2 + .05 + .4 * u)), 1., *q) for u, q in zip(rng.random(n), ll)]
            self.bins[k / 2] = [(e[0], e[2], e[3]) for e in c]
            cr += c
        self.m0 = {'m2cnd': {b: sphere.near2(np.array(c)[:, 1:])[1].mean() * R for b, c in self.bins.items() if len(c) >= 3},
                   'sdaa': {b: (ins.cells(np.array(c)[:, 1:]) * R * R).std() for b, c in self.bins.items() if len(c) >= 4}}
        sphere.write_scc(os.path.join(d, 'x.scc'), R, sphere.scc_rows(self.reg), [cr[i] for i in rng.permutation(len(cr))])
        self.rng = rng


def body_panels(case, ctx):
    d = ctx.tmpdir()
    s = Count(d, case)
    got = {m: {} for m in MIN}

    def stand_in(self_pp, b, n, *a, **k):
        key = round(2 * math.log2(b)) / 2
        v = s.m0[self_pp.measure][key] * np.exp(case['spread'] * (s.rng.normal(size=self_pp.trials) + case['bias']))
        got[self_pp.measure][key] = v.tolist()
        return v.tolist()

    sel = case['select']
    a = ['-ra', 'x.scc', '-measure', ','.join(case['measures']), '-trials', str(case['T']), '-f', *case['formats']]
    if sel is not None:
        a += ['-select', ','.join(map(str, sel))]
    if case['out']:
        a += ['-o', case['out']]
    with mock.patch.object(RA, 'montecarlo_pp', stand_in), cwd(d):
        figs = draw.figures(a)
    only = sel == [0]
    base = case['out'] or 'x'
    want = ['%s-%s%s.%s' % (base + '_ra', m, '-n_sigma' if only else '', f) for f in case['formats'] for m in case['measures']]
    eq(sorted(os.path.basename(p) for p, _ in figs), sorted(want), 'figures written')
    for p, fig in figs:
        m = re.search('_ra-(m2cnd|sdaa)', p)[1]
        bins = sorted(s.m0[m])
        show = bins if sel is None else [bins[i - 1] for i in sorted(set(sel)) if 1 <= i <= len(bins)]
        sig = {b: (s.m0[m][b] - np.mean(v)) / np.std(v) for b, v in got[m].items()}
        title = [t for a in fig.axes for t in a.texts if 'n = ' in t.get_text()]
        what = 'in %s' % os.path.basename(p)
        eq([int(t.get_text().split('n = ')[1]) for t in title], [] if only else [len(s.bins[b]) for b in show], 'crater numbers of panels ' + what)
        for t, b in zip(title, show):
            lo, hi = 2 ** b, 2 ** (b + .5)
            txt = t.get_text().split('\n')[0]
            f = [float(e) for e in re.findall(r'\d+\.?\d*(?:e[-+]\d+)?', txt)]
            unit = re.findall('km|m', txt)[-1]
            k = 1. if unit == 'km' else 1e-3
            close([e * k for e in f], [lo, hi], 'diameter range %r of panel %s' % (txt, what), rtol=.051)
        if sel is None or 0 in sel:
            check_n_sigma(fig.axes, m, case['T'], sig, what)
            q = next(a for a in fig.axes if any(t.get_text() == 'clustered' for t in a.texts)).get_position()
            check(q.x0 > -1e-6 and q.y0 > -1e-6 and q.x1 < 1 + 1e-6 and q.y1 < 1 + 1e-6, 'deviation chart at %r leaves the figure %s', q, what)
            for t in title:
                r = t.axes.get_position()
                check(q.x0 > r.x1 - 1e-6 or r.x0 > q.x1 - 1e-6 or q.y0 > r.y1 - 1e-6 or r.y0 > q.y1 - 1e-6, 'deviation chart overlaps panel %r %s', t.get_text(), what)
        else:
            check(not any(t.get_text() == 'clustered' for a in fig.axes for t in a.texts), 'deviation chart not asked for drawn ' + what)
        if only:
            continue
        maps = [a for a in fig.axes if any(f for f, _ in rings_of(a)) and a.get_aspect() in ('equal', 1.)]
        hists = [a for a in fig.axes if len(a.patches)]
        eq((len(maps), len(hists)), (len(show), len(show)), 'maps and histograms ' + what)
        for k, b in enumerate(show):
            q = title[k].axes.get_position()
            inside = lambda a: q.x0 - 1e-6 <= a.get_position(True).x0 and a.get_position(True).x1 <= q.x1 + 1e-6 and q.y0 - 1e-6 <= a.get_position(True).y0 and a.get_position(True).y1 <= q.y1 + 1e-6
            check(inside(maps[k]) and inside(hists[k]), 'panel %d is not one piece %s', k + 1, what)
            check_panel(maps[k], hists[k], s.view, s.bins[b], m, s.m0[m][b], got[m][b], s.ins, '%s of bin %g' % (m, b))
        pos = [t.axes.get_position() for t in title]
        for q in pos:
            check(q.x0 > -1e-6 and q.y0 > -1e-6 and q.x1 < 1 + 1e-6 and q.y1 < 1 + 1e-6, 'panel at %r leaves the figure %s', q, what)
        order = sorted(range(len(pos)), key=lambda i: (-round(pos[i].y0, 4), pos[i].x0))
        eq(order, list(range(len(pos))), 'panels in reading order ' + what)
        for i, q in enumerate(pos):
            for r in pos[:i]:
                check(q.x0 > r.x1 - 1e-6 or r.x0 > q.x1 - 1e-6 or q.y0 > r.y1 - 1e-6 or r.y0 > q.y1 - 1e-6, 'panels overlap ' + what)
        ctx.label('%d panels' % len(show))
    ctx.nontrivial(len(figs) > 1 or not only)


@st.composite
def panel_cases(draw):
    ks = draw(st.lists(st.integers(-6, 2), min_size=draw(st.sampled_from([1, 1, 3, 4, 6])), max_size=9, unique=True))
    lo = draw(st.sampled_from([1, 4]))
    bins = [[k, draw(st.integers(lo, 14 if len(ks) < 5 else 7))] for k in sorted(ks)]
    if max(n for _, n in bins) < 4:
        bins[0][1] = 4 + draw(st.integers(0, 3))
    return {'region': draw(sphere.regions(sizes=(.05, .5, 2., 10., 25.), max_parts=2)), 'radius': draw(sphere.RADII), 'seed': draw(st.integers(0, 10 ** 6)), 'bins': bins,
            'measures': draw(st.sampled_from([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa'], ['sdaa', 'm2cnd']])), 'T': draw(st.sampled_from([2, 3, 10, 40, 200])),
            'spread': draw(st.sampled_from([.3, .05, .01])), 'bias': draw(st.sampled_from([0., .5, -1., 3.])), 'out': draw(st.sampled_from([None, None, 'res', 'res.1', 'out'])),
            'select': draw(st.sampled_from([None, None, [0], [0], [1], [2], [1, 3], [0, 2], [3, 1], [2, 0, 1], [1, 9]])),
            'formats': draw(st.sampled_from([['png'], ['png'], ['pdf'], ['svg', 'png']]))}


def signature(fig):
    return [(type(a).__name__, len(a.lines), len(a.collections), len(a.patches), [t.get_text() for t in a.texts], a.get_xlabel(), a.get_ylabel(), a.get_title()) for a in fig.axes]


def body_formats(case, ctx):
    """age-area maps: each kind of map is written in each format asked for"""
    d = ctx.tmpdir()
    a = ['-pr', 'uncertainty', '-d_min', case['d'], '-o', 'u', '-ns', '10', '-pd', '3x3']
    with cwd(d):
        ref = {os.path.basename(p)[2:-4]: signature(f) for p, f in draw.figures(a + ['-f', 'png'])}
        eq(sorted(ref), ['age', 'err', 'k'], 'maps written')
        figs = draw.figures(a + ['-f', *case['formats']])
    img = [f for f in case['formats'] if f != 'csv']
    eq(sorted(os.path.basename(p) for p, _ in figs), sorted('u_%s.%s' % (k, f) for k in ref for f in img), 'maps written')
    for p, f in figs:
        k = os.path.basename(p)[2:-4]
        eq(signature(f), ref[k], 'content of %s' % p)
    ctx.nontrivial(len(img) > 1)



# bin boundaries

PSEUDO = [1., 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6., 7., 8., 9.]


def boundaries(binning, lo, hi):
    """log10 of boundaries strictly within lo-hi"""
    if binning == 'pseudo-log':
        v = [k + math.log10(a) for k in range(math.floor(lo) - 1, math.ceil(hi) + 1) for a in PSEUDO]
    else:
        step = {'10/decade': .1, '20/decade': .05, 'x2': math.log10(2), 'root-2': math.log10(2) / 2, '4th root-2': math.log10(2) / 4}[binning]
        v = [k * step for k in range(math.floor(lo / step) - 1, math.ceil(hi / step) + 2)]
    return [e for e in v if lo + 1e-9 < e < hi - 1e-9]


def check_bins(ax, case):
    lo, hi = ax.get_xlim()
    first = next((b for t, b in case['items'] if t == 'data'), None)
    want = boundaries(first, lo, hi) if case['b'] and first else []
    tx = [t for t in ax.texts if t.get_rotation() == 90]
    eq(len(tx), 3 * len(want), 'labels of bin boundaries')
    for v in want:
        l = [t for t in tx if abs(t.get_position()[0] - v) < 1e-7]
        eq(len(l), 3, 'labels of boundary %g' % 10 ** v)
        for t in l:
            k = t.get_text().strip()
            check(abs(float(k) / 10 ** (v % 1) - 1) < .051 or abs(float(k) / 10 ** (v % 1) - .1) < .0051, 'label %r of boundary %g', t.get_text(), 10 ** v)
    edges = [lo, *boundaries(first, lo - 1, hi + 1), hi] if first else []
    for c in ax.collections:
        v = c.get_paths()[0].vertices if len(c.get_paths()) == 1 else np.zeros((0, 2))
        fc = c.get_facecolor()
        if len(v) and len(fc) and abs(fc[0][3] - .1) < 1e-6:
            check(case['b'], 'bins shaded though not asked for')
            s = [min(range(len(edges)), key=lambda i: abs(edges[i] - x)) for x in (v[:, 0].min(), v[:, 0].max())]
            close([edges[i] for i in s], [v[:, 0].min(), v[:, 0].max()], 'edges of shading', atol=1e-7)
            eq(len([e for e in edges if edges[s[0]] + 1e-7 < e < edges[s[1]] - 1e-7 and e not in (lo, hi)]), 0, 'boundaries within shading')
    return first, want


def body_bins(case, ctx):
    """bin boundaries shown on request are those of the first data set's binning"""
    d = ctx.tmpdir()
    gen.write_diam(os.path.join(d, 'x.diam'), [.11, .25, .3, .41, .5, .8, 1.3, 2.2, 4.7, 9.], area=1e4)
    a = ['-pr', case['pr'], '-o', 'o', '-f', 'svg'] + (['-b'] if case['b'] else []) + (['-xrange', *case['x']] if case['x'] else [])
    for k, (t, b) in enumerate(case['items']):
        a += ['-p', ','.join((['source=x.diam'] if k == 0 else []) + ['type=' + t, 'binning=' + b] + (['range=.2,5'] if t != 'data' else []))]
    with cwd(d):
        fig = draw.figure(a)
    first, want = check_bins(draw.main_axes(fig), case)
    if case['pr'] != 'Hartmann':  # the same from one count which has been evaluated otherwise meanwhile
        with quiet(), cwd(d):
            cc = cst.Cratercount('x.diam')
            cps = gen.make_cps('Moon, Neukum (1983)', 'Moon, Neukum (1983)', [], presentation=case['pr'], bins=case['b'])
            cps.craterplot = [cst.Craterplot(cratercount=cc, type=t, binning=b, range=['.2', '5'] if t != 'data' else ['0', 'inf'], colour='#000000') for t, b in case['items']]
            cps.autoscale([float(e) for e in case['x']] if case['x'] else None, None)
            cc.getplotdata(case['pr'], case['other'])
            cps.CreatePlotSpace()
        check_bins(cps.ax, case)
    ctx.nontrivial(bool(want))
    ctx.label(str(first) if case['b'] else 'not shown')


@st.composite
def bins_cases(draw):
    b = st.sampled_from(['pseudo-log', '10/decade', '20/decade', 'x2', 'root-2', '4th root-2'])
    items = draw(st.lists(st.tuples(st.sampled_from(['data', 'data', 'c-fit', 'poisson']), b).map(list), min_size=1, max_size=3))
    return {'other': draw(b), 'pr': draw(st.sampled_from(['cumulative', 'differential', 'R-plot', 'Hartmann'])), 'b': draw(st.integers(0, 4)) > 0, 'items': items,
            'x': draw(st.sampled_from([None, None, ['-2', '1'], ['-1.2', '.9'], ['-1', '2']]))}


SUBS = [
    Sub('map', map_cases(), body_map, quick=240, shards=8, rule='region of several rings'),
    Sub('bins', bins_cases(), body_bins, quick=100, shards=4, rule='boundaries shown'),
    Sub('panels', panel_cases(), body_panels, quick=130, shards=8, rule='more than one figure, or map panels', slow=True),
    Sub('formats', st.fixed_dictionaries({'d': st.sampled_from(['.1', '.01', '1']), 'formats': st.permutations(['png', 'pdf', 'svg', 'tif', 'csv']).flatmap(lambda p: st.integers(1, 4).map(lambda n: p[:n]))}),
        body_formats, quick=40, shards=6, thorough=400, rule='two or more image formats', slow=True),
]
