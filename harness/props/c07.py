import os

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, Skip
from ..draw import figure, main_axes

PROPERTY = 'C07'
RULE = ('crater lists x production function x fitted range x area; the correction is compared with an independently '
        'iterated fixed point; non-trivial when at least two bins are fitted and the correction is not negligible')
# functions with positive cumulative slope problems are left out: none
PFS = gen.PF_NAMES


def adj_of(cc, binning, r, pf):
    p0 = cc.getplotdata('cumulative', binning, range=list(r))
    p = cc.getplotdata('cumulative', binning, range=list(r), resurfacing=1, pf=pf)
    close(p['d'], p0['d'], 'diameters with correction', rtol=1e-12)
    a = np.asarray(p['y']) - np.asarray(p0['y'])
    # one common shift
    close(a, np.full(len(a), a[-1]), 'correction is not the same for every density', rtol=0,
          atol=1e-9 * max(abs(a[-1]), np.max(p0['y'])))
    close(p['n'], p0['n'], 'n')
    return p0, p, float(a[-1])


def solve(p0, pf, n=400):
    """reference: iterate the definition to convergence; returns (adjustment, convergence factor)"""
    y0 = np.asarray(p0['y'])
    h = [0.]
    for i in range(n):
        q = dict(p0)
        q['y'] = y0 + h[-1]
        h.append(float(pf.evaluate('cumulative', p0['d'][-1], pf.fit(q)[0]) - y0[-1]))
        if abs(h[-1] - h[-2]) < 1e-9 * y0[-1]:
            break
    else:
        return None, 1.
    d = np.abs(np.diff(h))
    rate = max([d[i + 1] / d[i] for i in range(len(d) - 1) if d[i] > 1e-6 * y0[-1]] or [0.])
    return h[-1], rate


def pick(case, ctx, c=None):
    c = c or case['count']
    cc = gen.make_count(ctx, c)
    r = cst.Craterplot(cratercount=cc, range=case['range'], binning=case['binning']).range
    return c, cc, r, gen.pf(case['pf'])


def body_fixed_point(case, ctx):
    c, cc, r, pf = pick(case, ctx)
    p0 = cc.getplotdata('cumulative', case['binning'], range=list(r))
    n = len(p0['d'])
    if n == 0:
        raise Skip()
    if p0['d'][0] < pf.range[0] * .99 or p0['d'][-1] > pf.range[1]:
        raise Skip()
    p0, p, a = adj_of(cc, case['binning'], r, pf)
    if n == 1:
        close(a, 0., 'correction for single point', atol=1e-12 * p0['y'][0])
        return
    ref, rate = solve(p0, pf)
    if ref is None or rate > .8:
        ctx.label('slow convergence')
        return
    tol = (.01 + .0002 / (1 - rate) + 2 * rate ** 20) * abs(p0['y'][-1]) + .002 * abs(ref)
    close(a, ref, 'correction vs converged fixed point', atol=tol)
    fit = pf.fit(p)
    top = pf.evaluate('cumulative', p['d'][-1], fit[0])
    close(top, p['y'][-1], 'fitted isochron at the largest diameter', atol=tol)
    check(np.all(p['y'] > 0), 'corrected density not positive: %r', p['y'])
    close(p['err'], p['y'] * p0['err'] / p0['y'], 'errors follow corrected densities', rtol=1e-9)
    ctx.nontrivial(abs(ref) > .02 * p0['y'][-1])
    # showing the corrected points below the range too changes none of those in it, nor the ones above it
    w = cc.getplotdata('cumulative', case['binning'], range=list(r), resurfacing=1, showall=1, pf=pf)
    w0 = cc.getplotdata('cumulative', case['binning'], range=[0., float(r[1])])
    close(w['d'], w0['d'], 'diameters with all corrected points')
    close(np.asarray(w['y'])[-n:], p['y'], 'densities in range when all corrected points are shown', rtol=1e-9)
    close(np.asarray(w['y']) - np.asarray(w0['y']), np.full(len(w['y']), a), 'correction of points below the range', rtol=0, atol=1e-9 * max(abs(a), np.max(w0['y'])))
    close(w['err'], np.asarray(w['y']) * np.asarray(w0['err']) / np.asarray(w0['y']), 'errors with all corrected points', rtol=1e-9)
    if len(w['y']) > n:
        ctx.label('points below the range')
    # what a c-fit overplot reports is the fit to the corrected densities
    cp = cst.Craterplot(cratercount=cc, range=list(case['range']), binning=case['binning'], type='c-fit', resurf=1)
    cps = gen.make_cps(case['pf'], 'Moon, Neukum (1983)', [cp])
    cp.calculate_age(cps)
    close(cp.a0, fit, 'level of corrected c-fit', rtol=0, atol=1e-9)
    close(cp.n, p0['n'], 'n of corrected c-fit')
    cp = cst.Craterplot(cratercount=cc, range=list(case['range']), binning=case['binning'], type='c-fit', resurf=0)
    cp.calculate_age(cps)
    close(cp.a0, pf.fit(p0), 'level of uncorrected c-fit', rtol=0, atol=1e-9)
    cp = cst.Craterplot(cratercount=cc, range=list(case['range']), binning=case['binning'], type='d-fit', resurf=1)
    cp2 = cst.Craterplot(cratercount=cc, range=list(case['range']), binning=case['binning'], type='d-fit', resurf=0)
    cp.calculate_age(cps)
    cp2.calculate_age(cps)
    close(cp.a0, cp2.a0, 'differential fit is not corrected', rtol=0, atol=1e-12)


def body_area(case, ctx):
    """number of missing craters does not depend on the area"""
    c, cc, r, pf = pick(case, ctx)
    p0 = cc.getplotdata('cumulative', case['binning'], range=list(r))
    if len(p0['d']) < 2 or p0['d'][0] < pf.range[0] * .99 or p0['d'][-1] > pf.range[1]:
        raise Skip()
    p0, p, a = adj_of(cc, case['binning'], r, pf)
    c2 = dict(c, area=c['area'] * case['scale'])
    cc2 = gen.make_count(ctx, c2)
    q0, q, b = adj_of(cc2, case['binning'], r, pf)
    ref, rate = solve(p0, pf)
    if ref is None or rate > .8:
        return
    tol = 2e-3 + .0002 / (1 - rate) + 2 * rate ** 20
    close(b * case['scale'], a, 'correction x area', atol=tol * abs(p0['y'][-1]) + .002 * abs(a))
    ctx.nontrivial(abs(a) > .02 * p0['y'][-1])


def body_surplus(case, ctx):
    """craters larger than the fitted range have no influence on the corrected fit"""
    c, cc, r, pf = pick(case, ctx)
    r = [float(v) for v in r]
    if not np.isfinite(r[1]):
        raise Skip()
    top = max(max(c['d']), r[1]) * 1.3
    extra = [gen.r6(top * (1 + .1 * i)) for i in range(case['extra'])]
    d2 = c['d'] + extra
    f2 = None if c['f'] is None else c['f'] + [1.] * len(extra)
    if case['remove']:
        keep = [i for i, v in enumerate(d2) if v < r[1] or v in extra[:1]]
        d2 = [d2[i] for i in keep]
        f2 = None if f2 is None else [f2[i] for i in keep]
    cc2 = gen.make_count(ctx, {'d': d2, 'f': f2, 'area': c['area']})
    p0 = cc.getplotdata('cumulative', case['binning'], range=list(r))
    if len(p0['d']) < 2 or p0['d'][0] < pf.range[0] * .99 or p0['d'][-1] > pf.range[1]:
        raise Skip()
    ref, rate = solve(p0, pf)
    p0b = cc2.getplotdata('cumulative', case['binning'], range=list(r))
    close(p0b['d'], p0['d'], 'bins in range', rtol=1e-9)
    if ref is None or rate > .8:
        return
    _, p, a = adj_of(cc, case['binning'], r, pf)
    _, q, b = adj_of(cc2, case['binning'], r, pf)
    y = max(p0['y'][-1], p0b['y'][-1], abs(a), abs(b))
    tol = (4e-3 + .0004 / (1 - rate) + 4 * rate ** 20) * y
    close(q['y'], p['y'], 'corrected densities with other craters above the range', atol=tol)
    ctx.nontrivial(abs(p0b['y'][-1] - p0['y'][-1]) > .05 * p0['y'][-1])


def body_consistent(case, ctx):
    """densities already on an isochron out to infinity need no correction"""
    pf = gen.pf(case['pf'])
    lo, n = case['lo'], case['n']
    e = np.asarray(cst.Cratercount().generate_bins(case['binning'], [lo, lo * case['width']]), float)[1:]
    e = e[(e > pf.range[0]) & (e < pf.range[1])]
    if len(e) < 4:
        raise Skip()
    C = pf.evaluate('cumulative', e, 0.)
    if np.any(np.diff(C) >= 0):
        raise Skip()
    area = .9 / C[0]
    inc = np.append(C[:-1] - C[1:], C[-1]) * area  # last bin holds everything larger
    d = np.sqrt(e * np.append(e[1:], e[-1] * 1.02))
    cc = gen.make_count(ctx, {'d': [float(v) for v in d], 'f': [float(v) for v in inc], 'area': float(area)})
    r = [float(e[0]), float('inf')] if case['open'] else [float(e[0]), float(e[-2])]
    p0, p, a = adj_of(cc, case['binning'], r, pf)
    if len(p0['d']) < 2:
        raise Skip()
    close(a, 0., 'correction of data following the production function', atol=2e-3 * p0['y'][-1])
    ctx.nontrivial()


def body_overplot(case, ctx):
    """the option in drawn figures: shifts the points of cumulative fits by one amount, leaves everything else alone"""
    d = ctx.tmpdir()
    f = gen.write_diam(os.path.join(d, 'a.diam'), case['d'], area=case['area'])
    t, pr = case['type'], case['pr']
    ctx.label(t + ' ' + pr)
    pts = []
    for r in (0, 1):
        a = ['-pr', pr, '-xrange', '-3', '3', '-yrange', '-9', '3', '-f', 'svg', '-o', os.path.join(d, 'o'), '-p', 'source=%s,type=%s,range=[%g,%g],psym=o,resurf=%d%s%s' % (
            f, t, *case['range'], r, ',resurf_showall=1' if case['showall'] else '', ',error_bars=0' if case['nobars'] else '')]
        if case['after']:  # as second overplot of the same count
            a[-1] = a[-1].replace('type=' + t, 'type=data')
            a += ['-p', 'type=%s,psym=s,resurf=%d,range=[%g,%g]' % (t, r, *case['range'])]
        ax = main_axes(figure(a))
        l = [l for l in ax.lines if l.get_marker() == ('s' if case['after'] else 'o')]
        eq(len(l), 1, 'series of symbols')
        pts.append((np.asarray(l[-1].get_xdata(), float), np.asarray(l[-1].get_ydata(), float)))
    (x0, y0), (x1, y1) = pts
    close(x1, x0, 'diameters of drawn points', rtol=1e-12)
    if t != 'c-fit' or pr != 'cumulative':
        close(y1, y0, 'densities of %s, drawn with resurf=1' % t, rtol=1e-12)
        ctx.nontrivial(len(y0) > 1)
        return
    cc = cst.Cratercount(f)
    pf = gen.pf(case['pf'])
    r = cst.Craterplot(cratercount=cc, range=['%g' % e for e in case['range']]).range
    _, _, a = adj_of(cc, 'pseudo-log', r, pf)
    close(y1 - y0, np.full(len(y0), a), 'shift of drawn points', atol=1e-9 * max(abs(a), *y0) if len(y0) else 0)
    ctx.nontrivial(len(y0) > 1 and abs(a) > .02 * y0[-1])


B = st.sampled_from(['pseudo-log', 'pseudo-log', 'root-2', '10/decade', '4th root-2'])


@st.composite
def cases(draw, **extra):
    lo = draw(st.integers(-10, 5)) / 10.
    d = draw(st.lists(gen.log_diams(lo, lo + 1.2), min_size=6, max_size=60))
    use = draw(st.integers(0, 3)) == 0
    f = draw(st.lists(gen.FRACS, min_size=len(d), max_size=len(d))) if use else None
    i, j = sorted([draw(st.integers(0, len(d) - 1)), draw(st.integers(0, len(d) - 1))])
    s = sorted(d)
    rng = [s[i], s[j] * 1.2]
    return dict({'count': {'d': d, 'f': f, 'area': draw(gen.AREAS)}, 'binning': draw(B), 'pf': draw(st.sampled_from(PFS)),
                 'range': rng}, **{k: draw(v) for k, v in extra.items()})


SUBS = [
    Sub('fixed_point', cases(), body_fixed_point, quick=250, shards=3, rule='>=2 fitted bins and correction >2 % of the density'),
    Sub('area', cases(scale=st.sampled_from([1e-3, 1e-2, 10., 1e3, 1e6])), body_area, quick=150, shards=2, rule='correction >2 %'),
    Sub('surplus', cases(extra=st.integers(1, 8), remove=st.booleans()), body_surplus, quick=150, shards=2,
        rule='density at the range end changed by >5 %'),
    Sub('consistent', st.fixed_dictionaries({'pf': st.sampled_from(PFS), 'lo': gen.log_diams(-1, 1), 'n': st.just(0),
                                             'width': st.sampled_from([2., 4., 10.]), 'binning': B, 'open': st.booleans()}),
        body_consistent, quick=100, rule='at least two points'),
    Sub('overplot', st.fixed_dictionaries({'d': st.lists(gen.log_diams(0, 1), min_size=8, max_size=40), 'area': gen.AREAS, 'pf': st.just('Moon, Neukum (1983)'),
                                           'type': st.sampled_from(['data', 'poisson', 'd-fit', 'c-fit', 'c-fit']),
                                           'pr': st.sampled_from(['cumulative', 'cumulative', 'cumulative', 'differential', 'R-plot']),
                                           'range': st.sampled_from([[1, 2], [1, 4], [.9, 12], [2, 8]]), 'showall': st.booleans(), 'nobars': st.booleans(), 'after': st.booleans()}),
        body_overplot, quick=120, shards=2, rule='several points; correction >2 % for cumulative fits'),
]
