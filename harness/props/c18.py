import os
import re

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, Skip, quiet, cwd
from ..draw import figure, main_axes, ticklabels
from . import c17

PROPERTY = 'C18'
RULE = ('1-14 overplots (data and fits, all binnings including none, ranges, resurfacing, hidden ones, with and without stored '
        'randomness results) over 1-3 generated counts of 0.001-1000 km x presentations x explicit ranges on neither, one or '
        'both axes x axis styles; oracle: points of each overplot evaluated separately; non-trivial with two or more overplots '
        'having points')
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']


def files(case, ctx):
    d, fs = c17.build(case, ctx)
    for c, f in zip(case['counts'], fs):
        if c.get('ra'):
            n = os.path.splitext(os.path.basename(f))[0]
            b = c['ra']
            open(os.path.join(d, n + '_ra.txt'), 'w').write('m2cnd = {\nn_trials = 100\n}\nn_sigma = {bin, m2cnd\n' +
                                                           '\n'.join('%d\t%.2f' % (b + i, i - 1.) for i in range(3)) + '\n}\n')
    return d, fs


def points(case, it, fs):
    """log10 of points of one overplot, from fresh objects"""
    cp = c17.plot(case, it, fs)
    if cp.binning == 'none' and case['pr'] != 'cumulative':
        return None
    pf = gen.pf(case['system'][0])
    if (cp.resurf and cp.type == 'c-fit' or case['pr'] != 'cumulative') and not all(pf.range[0] <= v <= pf.range[1] for v in (cp.cratercount.diam or list(cp.cratercount.binned['d_min']) + list(cp.cratercount.binned['d_max']))):
        raise Skip()  # resurfacing and bin bias corrections outside production function
    with np.errstate(all='ignore'):
        p = cp.cratercount.getplotdata(case['pr'], cp.binning, range=cp.range, resurfacing=1 if cp.resurf and cp.type == 'c-fit' else 0,
                                       showall=cp.resurf_showall, pf=pf)
    d, y = np.asarray(p['d'], float), np.asarray(p['y'], float)
    if d.size == 0:
        return None
    check(np.all(np.isfinite(d)) and np.all(np.isfinite(y)) and np.all(y > 0), 'points of overplot %r: %r %r', it, d, y)
    return np.log10(d), np.log10(y)


def whole(v, what):
    check(float(v[0]) == round(float(v[0])) and float(v[1]) == round(float(v[1])) and v[1] > v[0], '%s %r is not whole decades', what, list(v))


def judge(case, pts, xr, yr):
    """ranges against rules; -> auto"""
    ex, ey = case['xr'], case['yr']
    if ex is not None:
        eq([float(e) for e in xr], [float(e) for e in ex], 'explicit diameter range')
    if ey is not None:
        eq([float(e) for e in yr], [float(e) for e in ey], 'explicit density range')
    if not pts:
        return
    x0, x1 = min(p[0].min() for p in pts), max(p[0].max() for p in pts)
    y0, y1 = min(p[1].min() for p in pts), max(p[1].max() for p in pts)
    if ex is None:
        whole(xr, 'diameter axis')
        check(xr[0] <= x0 and x1 <= xr[1], 'diameter axis %r leaves out points in %r', list(xr), [x0, x1])
    if ey is None:
        whole(yr, 'density axis')
        check(yr[0] <= y0 and y1 <= yr[1], 'density axis %r leaves out points in %r', list(yr), [y0, y1])
    if ex is None and ey is None:
        dx, dy = xr[1] - xr[0], yr[1] - yr[0]
        a = 2 if case['pr'] == 'differential' else 1
        eq(float(dy), float(a * dx), 'vertical decades for %g horizontal ones in %s plot' % (dx, case['pr']))
        need = max(x1 - x0 + 3.2, (y1 - y0 + 4.3) / a * (1.25 if any(c.get('ra') for c in case['counts']) else 1) + 1)
        check(dx <= need, 'axes of %g decades for points spanning %g x %g', dx, x1 - x0, y1 - y0)


def setup(case, ctx):
    d, fs = files(case, ctx)
    ps = [points(case, it, fs) for it in case['items']]
    pts = [p for p in ps if p is not None]
    ctx.nontrivial(len(pts) > 1)
    ctx.label(case['pr'])
    ctx.label(['auto', 'one explicit', 'both explicit'][(case['xr'] is not None) + (case['yr'] is not None)])
    if any(it['hide'] for it in case['items']):
        ctx.label('hidden')
    if any(c.get('ra') for c in case['counts']):
        ctx.label('randomness results')
    return d, fs, pts


def body(case, ctx):
    d, fs, pts = setup(case, ctx)
    with cwd(d):
        def new(order):
            return gen.make_cps(*case['system'], [c17.plot(case, case['items'][i], fs) for i in order], presentation=case['pr'], ra_show=case['ra_show'])
        n = len(case['items'])

        def ranges(cps, *a):
            with quiet(), np.errstate(all='ignore'):
                cps.autoscale(*a)
            return [float(e) for e in cps.xrange], [float(e) for e in cps.yrange]
        cps = new(range(n))
        xr, yr = ranges(cps, case['xr'], case['yr'])
        judge(case, pts, xr, yr)
        auto = ranges(new(range(n)))
        judge(dict(case, xr=None, yr=None), pts, *auto)
        if not pts:
            ctx.label('no points')
            eq(auto, tuple([float(v) for v in e[case['pr']]] for e in (cst.DEFAULT_XRANGE, cst.DEFAULT_YRANGE)), 'axes with nothing to show')
        # independent of the other axis, of order, of repetition
        eq((xr if case['xr'] is None else auto[0], yr if case['yr'] is None else auto[1]), auto, 'automatic axis beside explicit one')
        p = np.random.RandomState(case['perm']).permutation(n)
        eq(ranges(new(p)), auto, 'axes with overplots in order %r' % list(p))
        eq(ranges(new(range(n - 1, -1, -1))), auto, 'axes with overplots reversed')
        eq(ranges(cps), auto, 'axes asked for again')


LABEL = re.compile(r'^\s*([0-9.e+-]+?)(?:\$\\,\$|\s)*(km|m)?$')


def check_ticks(ax, style):
    T = ticklabels(ax)
    lo, hi = sorted(ax.get_xlim())
    unit = None
    for i, (v, s) in enumerate(T):
        m = LABEL.match(s)
        check(m is not None, 'diameter label %r', s)
        q, u = float(m.group(1)), m.group(2)
        check(lo - 1e-9 <= v <= hi + 1e-9, 'label %r outside axis %r', s, [lo, hi])
        if style == 'natural':
            check(u is not None, 'label %r has no unit', s)
        elif u is None:  # unit of previous label
            check(unit is not None, 'first label %r has no unit', s)
            u = unit
        unit = u
        eq(u, 'm' if v < -1e-9 else 'km', 'unit of label %r at 10^%g km' % (s, v))
        w = 10 ** v * (1 if u == 'km' else 1e3)
        if style == 'natural':
            close(q, w, 'diameter label %r' % s, rtol=1e-5)
        else:  # rounded to a whole number
            check(abs(q - w) <= .5 + 1e-9 or abs(q / w - 1) < .005, 'diameter label %r at %r %s', s, w, u)
            check(abs(q / w - 1) < .03, 'diameter label %r at %r %s', s, w, u)
    if style == 'natural':
        eq([v for v, _ in T], [float(e) for e in range(int(np.ceil(lo - 1e-9)), int(np.floor(hi + 1e-9)) + 1)], 'labelled diameters')
    else:
        close([v for v, _ in T], [np.log10(2.) * e for e in range(-10, 11) if lo <= np.log10(2.) * e <= hi], 'labelled diameters', rtol=0, atol=1e-9)
    return len(T)


def body_drawn(case, ctx):
    """command line to drawn axes"""
    d, fs, pts = setup(case, ctx)
    hart = case['pr'] == 'Hartmann'
    a = ['-cs', case['sysname'], '-f', 'svg', '-o', os.path.join(d, 'o'), '-pr', case['pr'], '-style', case['style'], '-legend', 'n', '-ra_show', str(case['ra_show'])]
    if case['xr'] is not None:
        a += ['-xrange'] + ['%r' % e for e in case['xr']]
    if case['yr'] is not None:
        a += ['-yrange'] + ['%r' % e for e in case['yr']]
    cps = gen.make_cps(*case['system'])
    for it in case['items']:
        cp = c17.plot(case, it, fs)
        a += ['-p', ','.join(['source=' + cp.source, 'type=data', 'range=[%s]' % ','.join(str(e) for e in it['range']), 'binning=' + cp.binning,
                              'snap=%d' % it['snap'], 'hide=%d' % it['hide']])]
    with cwd(d):
        fig = figure(a)
    ax = main_axes(fig)
    xr = [float(e) for e in ax.get_xlim()]
    yr = [float(e) for e in np.log10(ax.get_ylim())]
    if hart:  # fixed frame
        f = cps.pf.xrange if hasattr(cps.pf, 'xrange') else cst.DEFAULT_XRANGE['Hartmann']
        g = cps.pf.yrange if hasattr(cps.pf, 'xrange') else cst.DEFAULT_YRANGE['Hartmann']
        close(xr, [float(e) for e in f], 'Hartmann frame', rtol=1e-9)
        close(yr, [float(e) for e in g], 'Hartmann frame', rtol=1e-9)
    else:
        j = dict(case)
        for k, got in (('xr', xr), ('yr', yr)):
            if case[k] is not None:
                close(got, [float(e) for e in case[k]], 'explicit range', rtol=1e-12, atol=1e-9)
                j[k] = got
        r = [float(e) for e in np.round(yr)]
        close(r, yr, 'density axis', rtol=1e-9, atol=1e-9) if case['yr'] is None else None
        judge(j, pts, xr, r if case['yr'] is None else yr)
    ctx.label('%d labels' % min(check_ticks(ax, 'root-2' if hart else case['style']), 3))
    ctx.label(case['style'])
    # points drawn are inside
    if not hart and case['xr'] is None and case['yr'] is None:
        for l in ax.lines:
            if l.get_linestyle() == 'None' and len(l.get_xdata()):
                x, y = np.asarray(l.get_xdata(), float), np.log10(np.asarray(l.get_ydata(), float))
                check(xr[0] <= x.min() and x.max() <= xr[1] and yr[0] - 1e-9 <= y.min() and y.max() <= yr[1] + 1e-9, 'drawn points outside axes')


def body_time(case, ctx):
    """chronology and rate plots: fixed frame unless given"""
    d, fs = files(case, ctx)
    a = ['-cs', case['sysname'], '-f', 'svg', '-o', os.path.join(d, 'o'), '-pr', case['pr']]
    for k, o in (('tr', '-xrange'), ('yr', '-yrange')):
        if case[k] is not None:
            a += [o] + ['%r' % e for e in case[k]]
    for f in fs[:case['n']]:
        a += ['-p', 'source=' + f]
    with cwd(d):
        ax = main_axes(figure(a))
    got = [float(e) for e in ax.get_xlim()], [float(e) for e in np.log10(ax.get_ylim())]
    for k, g, dflt in (('tr', got[0], cst.DEFAULT_XRANGE), ('yr', got[1], cst.DEFAULT_YRANGE)):
        close(g, [float(e) for e in (dflt[case['pr']] if case[k] is None else case[k])], '%s axis' % ('age' if k == 'tr' else 'density'), rtol=1e-12, atol=1e-9)
    ctx.nontrivial(case['tr'] is not None or case['yr'] is not None)
    ctx.label(case['pr'] + (' with counts' if case['n'] else ''))


@st.composite
def span(draw, lo, hi, whole_only=False):
    a = draw(st.integers(lo * 10, hi * 10 - 2))
    b = draw(st.integers(1, 60))
    return [a / 10., (a + b) / 10.] if draw(st.booleans()) else [float(a // 10), float(a // 10 + 1 + b // 10)]


@st.composite
def count(draw):
    lo, hi = draw(st.sampled_from([(-3, 3), (-2, 2), (-1, 1), (-3, -2), (1, 3)]))
    c = draw(gen.counts(min_size=1, max_size=30, lo=lo, hi=hi))
    c['scc'] = draw(st.booleans())
    c['perimeter'] = 10.
    c['name'] = draw(st.sampled_from(['a', 'b', 'c c']))
    c['ra'] = draw(st.sampled_from([0, 0, 0, -3, 1]))
    return c


@st.composite
def cases(draw, cl=False):
    s = draw(st.sampled_from([s for s in gen.SYSTEMS if s[0] != "Vesta, Marchi & O'Brien (2014)"]))
    n = draw(st.integers(1, 3)) if cl else draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(9, 14)))
    items = []
    for _ in range(n):
        it = draw(c17.item())
        it['resurf_showall'] = draw(st.integers(0, 1))
        if cl:
            it.update(type='data', resurf=0, resurf_showall=0)
        if it['binning'] == 'none' and it['type'] == 'd-fit':
            it['binning'] = 'root-2'
        items.append(it)
    pr = draw(st.sampled_from(PRES))
    hart = cl and pr == 'Hartmann'
    return {'sysname': s[0], 'system': [s[1], s[2]], 'counts': draw(st.lists(count(), min_size=1, max_size=3)), 'items': items, 'pr': pr,
            'xr': None if hart else draw(st.one_of(st.none(), st.none(), span(-3, 3))), 'yr': None if hart else draw(st.one_of(st.none(), st.none(), span(-9, 6))),
            'perm': draw(st.integers(0, 1000)), 'style': draw(st.sampled_from(['natural', 'root-2'])), 'ra_show': draw(st.sampled_from([1, 1, 0]))}


@st.composite
def times(draw):
    s = draw(st.sampled_from([s for s in gen.SYSTEMS if s[0] != "Vesta, Marchi & O'Brien (2014)"]))
    a = draw(st.integers(20, 45)) / 10.
    return {'sysname': s[0], 'counts': draw(st.lists(count(), min_size=1, max_size=2)), 'n': draw(st.integers(0, 2)), 'pr': draw(st.sampled_from(['chronology', 'rate'])),
            'tr': draw(st.one_of(st.none(), st.just([a, draw(st.integers(0, 19)) / 10.]), st.just([draw(st.integers(0, 19)) / 10., a]))),
            'yr': draw(st.one_of(st.none(), span(-9, 6)))}


SUBS = [
    Sub('autoscale', cases(), body, quick=700, shards=5, rule='two or more overplots with points'),
    Sub('drawn', cases(True), body_drawn, quick=500, shards=7, rule='two or more overplots with points'),
    Sub('time', times(), body_time, quick=100, shards=2, rule='an explicit range'),
]
