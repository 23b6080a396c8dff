"""C28: age-area uncertainty maps state the uncertainty at each grid point."""
import os
from unittest import mock

import numpy as np
from hypothesis import strategies as st
from matplotlib.patches import Polygon
from scipy.stats import chi2, poisson

import craterstats as cst
from .. import gen, draw
from ..core import Sub, check, eq, close, quiet, Skip
from .c08 import poly_forms, table_forms
from .c26 import BUILTIN, FIRST, by_name

PROPERTY = 'C28'
RULE = ('age-area plots for generated minimum diameters, axis ranges (linear only, split), sample numbers, print dimensions, systems and '
        'equilibrium functions; oracle: closed form of the expected number from the written definitions, Poisson tests over the grid, an '
        'independent evaluation of the age pdf for the cell, positions through the drawn axes; non-trivial when the grid holds cells with '
        'and without craters')
SYSTEMS = [s for s in BUILTIN['chronology_system'] if s['name'] != FIRST]
AREA = {'Moon': 3.79e7, 'Mars': 1.44e8, 'Mercury': 7.48e7}


def cum(de, d, a0):
    """cumulative density of a definition at level a0 (None: its own)"""
    if 'coefficients' in de:
        a = [float(e) for e in de['coefficients']]
        return float(poly_forms(a, a[0] if a0 is None else a0, [d])[0][0])
    return float(table_forms(([float(e) for e in de['H']], int(de['index_1km'])), 0. if a0 is None else a0, np.array([d]))['cumulative'][0])


def n1(p, t):
    return p[0] * np.expm1(p[1] * t) + p[3] * t


def inverse(p, v, hi=60.):
    lo = 0.
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if n1(p, m) < v else (lo, m)
    return lo


def axes_of(cps):
    lin, log = cps.ax2
    return cps.ax, lin, log


def x_of(cps, t, crossover):
    """position of age t along the whole axis (0-1), through the drawn axes"""
    ax, lin, log = axes_of(cps)
    a = lin if (crossover is None or t >= crossover) else log
    p = a.transData.transform((t, a.get_ylim()[0]))
    return float(ax.transAxes.inverted().transform(p)[0])


def y_of(cps, area):
    ax, lin, _ = axes_of(cps)
    p = lin.transData.transform((lin.get_xlim()[0], area))
    return float(ax.transAxes.inverted().transform(p)[1])


def body(case, ctx):
    s = SYSTEMS[case['cs'] % len(SYSTEMS)]
    pfd, cfd = by_name(BUILTIN['production'], s['pf']), by_name(BUILTIN['chronology'], s['cf'])
    p = [float(e) for e in cfd['coefficients']]
    efd = None if case['ef'] is None else BUILTIN['equilibrium'][case['ef'] % len(BUILTIN['equilibrium'])]
    dmin = case['dmin']
    pf, cf = gen.pf(s['pf']), gen.cf(s['cf'])
    if not (float(pf.range[0]) * 1.001 < dmin < min(900., float(pf.range[1]) * .9)):
        raise Skip()
    lo_, hi_ = np.asarray(pf.evaluate('cumulative', np.array([dmin, 1000.]), 0.), float)
    if not lo_ - hi_ > 1e-6 * lo_:  # tabulated function without craters above: nothing to simulate
        raise Skip()
    d = ctx.tmpdir()
    args = ['-pr', 'uncertainty', '-cs', s['name'], '-d_min', repr(dmin), '-ns', str(case['ns']), '-o', os.path.join(d, 'o'), '-f', 'png']
    if efd:
        args += ['-ef', efd['name']]
    t_old, t_young = case['x'] if case['x'] else (4.2, 1e-5)
    if case['x']:
        args += ['-xrange'] + [repr(v) for v in (case['x'] if case['swap'] else case['x'][::-1])]
    y0, y1 = case['y'] if case['y'] else (-2, 8)
    if case['y']:
        args += ['-yrange', repr(y0), repr(y1)]
    if case['pd']:
        args += ['-pd', case['pd']]
    got = {}
    real = cst.Craterplotset.compute_age_area

    def spy(self, *a, **k):
        got['cps'] = self
        got.setdefault('n', 0)
        got['n'] += 1
        got['r'] = real(self, *a, **k)
        return got['r']
    figs = []

    def save(self, fname, *a, **k):
        figs.append((os.path.basename(str(fname)), self, got['cps'].ax, got['cps'].ax2, got['cps'].ax_cbar))
    np.random.seed(case['seed'])
    import craterstats.cli as cli
    import matplotlib.figure as mfig
    with mock.patch('progressbar.progressbar', lambda it, **k: it), mock.patch.object(cst.Craterplotset, 'compute_age_area', spy), mock.patch.object(mfig.Figure, 'savefig', save), quiet():
        cli.main(args)
    eq([f[0] for f in figs], ['o_k.png', 'o_err.png', 'o_age.png'], 'maps made')
    r, cps = got['r'], got['cps']
    eq(got['n'], 1, 'grids computed')
    zz, kk, ee, lm = (np.asarray(r[k]) for k in ('zz', 'kk', 'ee', 'lm'))
    nsx, nsy = kk.shape

    # --- grid: requested number, proportions
    asp = 1.
    if case['pd'] and 'x' in case['pd']:
        w, h = (float(v) for v in case['pd'].split('x'))
        asp = h / w
    eq(min(nsx, nsy), case['ns'], 'samples along the shorter axis')
    check(abs(nsy - nsx * asp) <= max(1., asp) * 1.001, 'grid of %d x %d for proportions %s', nsx, nsy, case['pd'])

    # --- axes
    t_max = min(max(t_old, 3.), 4.5)
    split = t_young < 1 and t_young > 0
    crossover = 3. if split else t_young
    t_min = 10 ** np.floor(np.log10(t_young) + 1e-12) if split else t_young
    if split and abs(np.log10(t_young) - round(np.log10(t_young))) < 1e-6:
        t_min = 10. ** round(np.log10(t_young))
    xc = lambda t: x_of(cps, t, crossover if split else None)
    close(xc(t_min), 1., 'youngest age at the right end', atol=1e-6)
    if t_max > 3. + 1e-6:
        close(x_of(cps, t_max, None), 0., 'oldest age at the left end', atol=1e-6)
    close([y_of(cps, 10. ** y0), y_of(cps, 10. ** y1)], [0., 1.], 'ends of area axis', atol=1e-6)
    if split:
        # a unit of linear time takes as much space as 1/.7 of a decade
        xk = 0. if t_max <= 3 else xc(3.)
        lin, dec = max(t_max - 3, 0) / .7, np.log10(3 / t_min)
        close(xk, lin / (lin + dec), 'position of the change of scale', atol=1e-6)

    # --- ages and areas of the grid from the expected numbers
    check(np.all(np.isfinite(lm)) and np.all(lm > 0), 'expected numbers not positive')
    la = np.log10(lm)
    step = (y1 - y0) / (nsy - 1)
    close(np.diff(la, axis=1), np.full((nsx, nsy - 1), step), 'areas in equal steps of the logarithm', atol=1e-9)
    # density of each column: first row has the smallest area displayed
    dens = lm[:, 0] / 10. ** y0
    top = cum(pfd, 1000., 0.)
    c = cum(pfd, dmin, 0.)
    if not c - top > c * .02:
        raise Skip()
    lo = [inverse(p, v / (c - top)) for v in dens]  # craters from dmin to 1000 km
    if c / (c - top) > 1.04:
        ctx.label('upper limit matters')
    check(np.all(np.diff(lo) > 0), 'ages of the grid not increasing: %r', lo)
    if not split or xc(min(3., t_max)) * nsx > 1:
        close(lo[-1], t_max, 'oldest age of the grid', rtol=.03)
    if split and xc(min(3., t_max)) * nsx < nsx - 2:
        close(lo[0], t_min, 'youngest age of the grid', rtol=.03)
    for i, a in enumerate(lo):
        # column i is drawn i-th from the right
        x = 1 - (i + .5) / nsx
        xa = min(max(xc(a), -.2), 1.2)
        check(abs(x - xa) <= 1.6 / nsx, 'column %d of %d, drawn at %.4f of the axis, is for %.6g Ga, which is at %.4f', i, nsx, x, a, xa)

    # --- simulated counts: Poisson draws
    kk_ = kk.ravel()
    lam = lm.ravel()
    check(np.all(kk_ >= 0) and np.all(kk_ == np.round(kk_)), 'counts are not whole numbers')
    big = lam >= 1e4
    check(np.all(np.abs(kk_ - lam)[big] <= 7 * np.sqrt(lam[big]) + 1), 'counts of large expected number far off')
    sm = (lam < 1e4)
    q = sm & (lam < 3)
    if q.sum() > 10:
        pv = poisson.cdf(kk_[q].sum(), lam[q].sum()), poisson.sf(kk_[q].sum() - 1, lam[q].sum())
        check(min(pv) > 1e-8, 'total of %d cells with few craters is %d, expected %.6g', q.sum(), kk_[q].sum(), lam[q].sum())
        # cells with some crater: sum of independent draws of probability 1-exp(-lam)
        w = 1 - np.exp(-lam[q])
        z = ((kk_[q] > 0).sum() - w.sum()) / np.sqrt(max((w * (1 - w)).sum(), 9.))
        check(abs(z) < 6.5, '%d of %d cells have craters, expected %.4g', (kk_[q] > 0).sum(), q.sum(), w.sum())
    q = sm & (lam > 20)
    if q.sum() > 20:
        x2 = ((kk_[q] - lam[q]) ** 2 / lam[q]).sum()
        pv = chi2.cdf(x2, q.sum()), chi2.sf(x2, q.sum())
        check(min(pv) > 1e-9, 'scatter of counts over %d cells: chi2 %.4g', q.sum(), x2)
        ctx.label('scatter tested')
    q = (lam >= 1e3) & (lam < 1e5)
    if q.sum() > 20:
        x2 = ((kk_[q] - lam[q]) ** 2 / lam[q]).sum()
        check(min(chi2.cdf(x2, q.sum()), chi2.sf(x2, q.sum())) > 1e-9, 'scatter of large counts over %d cells: chi2 %.4g', q.sum(), x2)
        ctx.label('scatter of large counts tested')

    # --- stated uncertainty and ratio
    cc = cst.Cratercount()
    cc.diam = [dmin]
    g = np.random.RandomState(case['seed'])
    for _ in range(10):
        i, j = g.randint(nsx), g.randint(nsy)
        cc.area = 10. ** (y0 + step * j)
        pdf = cst.Craterpdf(pf, cf, cc, [dmin, 1000.], k=int(kk[i, j]))
        t = pdf.median1sigma()
        with np.errstate(all='ignore'):
            err = np.sqrt(t[2] / t[1]) - 1
            ratio = t[0] / lo[i]
        if not np.isfinite(err) or t[1] < 1e-9:
            continue
        close(1 + zz[i, j], 1 + err, 'uncertainty at %.4g Ga, 10^%.3g km2, k=%d' % (lo[i], y0 + step * j, kk[i, j]), rtol=.03)
        close(ee[i, j], ratio, 'measured/actual age at %.4g Ga, 10^%.3g km2, k=%d' % (lo[i], y0 + step * j, kk[i, j]), rtol=.04)
        ctx.label('cells evaluated')

    # --- drawn maps
    ims = {}
    for (name, fig, ax, ax2, cb), key in zip(figs, ('k', 'err', 'age')):
        im = ax.get_images()
        eq(len(im), 1, 'images in %s map' % key)
        eq(tuple(im[0].get_extent()), (0, 1, 0, 1), 'extent of map')
        a = np.ma.filled(np.ma.asarray(im[0].get_array(), dtype=float), np.nan)
        eq(a.shape, (nsy, nsx), 'shape of map')
        eq(im[0].origin, 'lower', 'areas upwards')
        ims[key] = (a, im[0], cb)
    flip = lambda m: np.flip(np.transpose(m), 1)
    close(ims['err'][0], flip(zz) * 100, 'drawn uncertainty', rtol=1e-6)
    a = ims['age'][0]
    lr = np.log10(np.where(flip(ee) > 0, flip(ee), 1e-9))
    inside = np.abs(lr) < np.log10(5) - 1e-6
    close(a[inside], lr[inside], 'drawn ratio', rtol=1e-6, atol=1e-9)
    check(np.all(np.isnan(a[np.abs(lr) > np.log10(5) + 1e-6])), 'ratios beyond the scale are drawn')
    a, im, cb = ims['k']
    want = np.clip(flip(kk), 0, 7)
    ticks = {l.get_text(): v for v, l in zip(cb.get_yticks(), cb.get_yticklabels())}
    eq(list(ticks), ['0', '1', '2', '3', '4', '5', '6', '7+'], 'labels of crater numbers')
    for k in range(8):
        if np.any(want == k):
            col = im.cmap(im.norm(a[want == k]))
            ref = im.cmap(im.norm(ticks['7+' if k == 7 else str(k)]))
            check(np.all(np.abs(np.asarray(col) - np.asarray(ref)) < 1e-9), 'cells with %d craters do not have the colour of that number', k)
    for key in ('age', 'err'):
        a, im, cb = ims[key]
        if key == 'age':
            for v, l in zip(cb.get_yticks(), cb.get_yticklabels()):
                if l.get_text():
                    close(10 ** v, float(l.get_text()), 'label of ratio', rtol=.03)
            close(im.get_clim(), (-np.log10(5), np.log10(5)), 'ratio scale', rtol=1e-6)
        else:
            check(im.get_clim()[0] == 0 and im.get_clim()[1] >= np.nanmax(a) * (1 - 1e-6), 'uncertainty scale %r', im.get_clim())

    # --- limits
    xs = ys = None
    if efd:
        dens = cum(efd, dmin, None)
        te = inverse(p, dens / cum(pfd, dmin, 0.))
        if te >= t_max * .9995:
            xs = None if te > t_max * 1.0005 else 'edge'
        elif te <= t_min * 1.0005:
            xs = 1. if te < t_min * .9995 else 'edge'
        else:
            xs = xc(te)
    A = AREA.get(s['body'])
    if A and y0 + 1e-6 < np.log10(A) < y1 - 1e-6:
        ys = y_of(cps, A)
    elif A and np.log10(A) <= y0 + 1e-6:
        raise Skip()
    if xs != 'edge' and not (xs is not None and xs < 1e-3):
        for name, fig, ax, _, _ in figs:
            po = [q for q in ax.patches if isinstance(q, Polygon)]
            tx = {t.get_text(): t.get_position() for t in ax.texts}
            if xs is None and ys is None:
                eq(len(po), 0, 'limits drawn')
                continue
            eq(len(po), 1, 'limits drawn')
            xy = po[0].get_xy()
            path = po[0].get_path()
            atol = 4e-3
            # shaded: older than saturation, or larger than the body
            for u in np.linspace(.013, .987, 14):
                for v in np.linspace(.017, .983, 11):
                    if (xs is not None and abs(u - xs) < atol) or (ys is not None and abs(v - ys) < atol):
                        continue
                    w = (xs is not None and u < xs) or (ys is not None and v > ys)
                    eq(bool(path.contains_point((u, v))), w, 'shaded at %.3f, %.3f (saturation from %s, body from %s; %s)' % (u, v, xs, ys, np.round(xy, 4).tolist()))
            if xs is not None:
                check(np.min(np.abs(xy[:, 0] - xs)) < atol, 'saturation limit at %.4f not among %s', xs, np.round(xy, 4).tolist())
                if xs > .03:
                    check('saturation' in tx and abs(tx['saturation'][0] - xs) < atol, 'label of saturation at %r, limit at %.4f', tx.get('saturation'), xs)
            else:
                check('saturation' not in tx, 'saturation labelled')
            if ys is not None:
                check(np.min(np.abs(xy[:, 1] - ys)) < 2e-3, 'body limit at %.4f not among %s', ys, np.round(xy, 4).tolist())
                if ys < .97:
                    check('whole globe' in tx and abs(tx['whole globe'][1] - ys) < 2e-3, 'label of body at %r, limit at %.4f', tx.get('whole globe'), ys)
            else:
                check('whole globe' not in tx, 'body labelled')
        if xs is not None:
            ctx.label('saturation')
        if ys is not None:
            ctx.label('whole body')
    ctx.label('split' if split else 'linear')
    ctx.nontrivial(bool(np.any(kk == 0) and np.any(kk > 0)))


xr = st.one_of(st.none(), st.none(),
               st.tuples(st.sampled_from([4.5, 4.2, 4., 3.5, 3.2, 3.]), st.sampled_from([1e-6, 1e-5, 1e-3, .01, .1, .03, .5])),
               st.tuples(st.sampled_from([4.5, 4.2, 4., 3.6]), st.sampled_from([1., 2., 3., 3.2])))
yr = st.one_of(st.none(), st.tuples(st.sampled_from([-4., -2., 0., 2.5]), st.sampled_from([4., 6.5, 8., 9.])))

SUBS = [
    Sub('maps', st.fixed_dictionaries({
        'cs': st.integers(0, 59), 'ef': st.one_of(st.none(), st.integers(0, 5), st.integers(0, 5)),
        'dmin': st.one_of(st.floats(-1.9, 1.).map(lambda x: gen.r6(10 ** x, 4)), st.floats(1., 2.95).map(lambda x: gen.r6(10 ** x, 4)), st.floats(2.4, 2.95).map(lambda x: gen.r6(10 ** x, 4)), st.sampled_from([.02, .05, .15, .3, 1.])),
        'ns': st.integers(5, 22), 'x': xr, 'swap': st.booleans(), 'y': yr, 'pd': st.sampled_from([None, None, '8x8', '10x5', '4x8', '6x7', '1.5']),
        'seed': st.integers(0, 2 ** 31 - 1)}), body, quick=160, thorough=4000, shards=8, rule='cells with and without craters'),
]
