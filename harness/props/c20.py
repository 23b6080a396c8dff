import os
import re

import numpy as np
from hypothesis import strategies as st
from matplotlib.patches import Polygon
import matplotlib.colors as mc

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, Skip, expect_exit
from ..draw import figure, main_axes
from . import c08, c09

PROPERTY = 'C20'
RULE = ('every listed and generated epoch definition (densities at reference diameters, or times; dictionary, text or file) x '
        'production/chronology pairs; isochrons x equilibrium functions (listed and generated) x presentations; oracle: bisection of '
        'the chronology formula at the level of the stated density, pointwise comparison with 0.8 of the equilibrium function, and '
        'the filled areas of the drawn figure; non-trivial with two or more boundaries / a partly truncated isochron')
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']
PFS = gen.PF_NAMES
CFS = c09.CFS


def base_C(name, d):
    """cumulative form at level 0"""
    f, a, tab = c08.build(['production', name])
    if a is not None:
        return c08.poly_forms(a, 0., [d])[0][0]
    return float(c08.table_forms(tab, 0., np.array([d]))['cumulative'][0])


def age_of(p, n):
    """bisection, saturating at 5 Ga"""
    if n >= float(c09.n1(p, 5.)):
        return 5.
    a, b = 0., 5.
    for _ in range(60):
        m = (a + b) / 2
        if p[0] * np.expm1(p[1] * m) + p[3] * m < n:
            a = m
        else:
            b = m
    return (a + b) / 2


def epoch_text(e):
    q = lambda l: '[' + ','.join(l) + ']'
    s = ['epochs={', "  name='%s'" % e['name'], '  epoch=%s%s' % ('*' if e['star'] else '', q("'%s'" % v for v in e['epoch'])),
         '  formatting=' + q(e['formatting'])]
    if e.get('time'):
        s += ['  time=' + q('%r' % v for v in e['time'])]
    else:
        s += ['  ref_diameter=' + q('%r' % v for v in e['ref']), '  density=' + q('%r' % v for v in e['density'])]
    return '\n'.join(s + ["  reference='x, y'", '}'])


def make(case, ctx, pf, cf):
    e = case['epochs']
    if isinstance(e, str):
        return cst.Epochs(gen.FUNCTIONS, e, pf, cf), next(q for q in gen.FUNCTIONS['epochs'] if q['name'] == e)
    t = epoch_text(e)
    de = {'formatting': e['formatting'], 'epoch': e['epoch']}
    if e.get('time'):
        de['time'] = e['time']
    else:
        de.update(ref_diameter=e['ref'], density=e['density'])
    if case['how'] == 'file':
        p = os.path.join(ctx.tmpdir(), 'my functions.txt')
        with open(p, 'w') as f:
            f.write(t + "\n\nepochs={\n  name='other'\n  epoch=['a','b']\n  formatting=[0,1,2]\n  time=[0.,1.]\n  reference=''\n}\n")
        return cst.Epochs(p, e['name'], pf, cf), de
    if case['how'] == 'dict':
        src = {'epochs': [dict({k: (list(map(str, v)) if isinstance(v, list) else v) for k, v in de.items()}, name=e['name'], reference='')]}
        return cst.Epochs(src, e['name'], pf, cf), de
    return cst.Epochs(t, e['name'], pf, cf), de


def expected_times(de, pfname, p):
    if 'time' in de:
        return [float(v) for v in de['time']]
    out = [0.]
    for d, n in zip(de['ref_diameter'], de['density']):
        out.append(age_of(p, float(n) / 1e6 / base_C(pfname, float(d))))
    return out


def body_times(case, ctx):
    pf, cf = gen.pf(case['pf']), gen.cf(case['cf'])
    p = [float(v) for v in cf.definition['coefficients']]
    ep, de = make(case, ctx, pf, cf)
    want = expected_times(de, case['pf'], p)
    got = [float(v) for v in ep.time]
    eq(len(got), len(want), 'number of boundaries of %r' % case['epochs'])
    for a, b in zip(got, want):
        check(abs(a - b) <= (c09.tol(p, b) + 2e-7 * b if 'time' not in de else 0.), 'boundary of %r at %r Ga, expected %r (all: %r vs %r)', case['epochs'], a, b, got, want)
    eq(list(ep.epoch), [str(v) for v in de['epoch']], 'names of epochs')
    eq(got[0], 0., 'youngest boundary')
    if isinstance(case['epochs'], str):
        check(all(np.diff([v for v in got if v < 5]) > 0), 'boundary times %r do not increase', got)
    # isochron of a boundary passes through its density
    if 'time' not in de:
        for t, d, n in zip(got[1:], de['ref_diameter'], de['density']):
            if 1e-3 < t < 4.99:
                close(float(pf.evaluate('cumulative', float(d), float(cf.a0(t)))) * 1e6, float(n), 'density at boundary', rtol=3e-3)
    slant, colour, offset, boundary = ep.decode_formatting()
    f = [str(v) for v in de['formatting']]
    eq(slant, int(f[0]), 'slant')
    eq(colour, [int(v[0]) for v in f[1:]], 'grey levels')
    eq([bool(v) for v in offset], ['r' in v for v in f[1:]], 'offsets')
    eq([bool(v) for v in boundary], ['b' in v for v in f[1:]], 'emphasised boundaries')
    try:
        cst.Epochs(gen.FUNCTIONS, 'no such epochs', pf, cf)
        check(False, 'unknown epoch system accepted')
    except ValueError as e:
        check('no such epochs' in str(e), 'message %r', str(e))
    ctx.nontrivial(len(want) > 2)
    ctx.label('listed' if isinstance(case['epochs'], str) else case['how'])
    ctx.label('times' if 'time' in de else 'densities')


def make_ef(ef):
    if isinstance(ef, str):
        return cst.Productionfn(gen.FUNCTIONS, ef, equilibrium=True)
    return cst.Productionfn("equilibrium={\n name='e'\n range=[%r,%r]\n coefficients=[%s]\n}" % (ef['range'][0], ef['range'][1], ','.join('%r' % c for c in ef['c'])),
                            'e', equilibrium=True)


def body_truncate(case, ctx):
    pf, cf = gen.pf(case['pf']), gen.cf(case['cf'])
    ef = make_ef(case['ef'])
    a0 = float(cf.a0(case['t'])) + case['shift']
    full = pf.getplotdata(case['pr'], a0)
    none = pf.getisochron(case['pr'], a0, None)
    close(none['d'], full['d'], 'isochron without equilibrium function', rtol=1e-12)
    close(none['y'], full['y'], 'isochron without equilibrium function', rtol=1e-12)
    iso = pf.getisochron(case['pr'], a0, ef)
    d, y = np.asarray(full['d'], float), np.asarray(full['y'], float)
    close(y, pf.evaluate(case['pr'], d, a0), 'isochron', rtol=2e-5)
    lo, hi = [float(v) for v in ef.range]
    lim = .8 * np.asarray(ef.evaluate(case['pr'], np.clip(d, lo, hi)), float)
    fine = lo * (hi / lo) ** np.linspace(0, 1, 400)
    v = np.asarray(ef.evaluate(case['pr'], fine), float)
    step = max(np.max(v[1:] / v[:-1]), np.max(v[:-1] / v[1:])) * (1 + 1e-6)  # limit is sampled
    kept = {float(a): float(b) for a, b in zip(iso['d'], iso['y'])}
    check(len(kept) == len(iso['d']), 'repeated diameters in isochron')
    check(all(np.diff(iso['d']) > 0), 'diameters of truncated isochron do not increase')
    for a, b, l in zip(d, y, lim):
        k = float(a) in kept
        if k:
            eq(kept[float(a)], float(b), 'value of truncated isochron at %r' % a)
        # outside the range of the equilibrium function its end value applies
        if b < l / step:
            check(k, 'isochron for %r Ga is %r at %r km, below 0.8 of equilibrium %r, but removed', case['t'], b, a, l / .8)
        elif b >= l * step:
            check(not k, 'isochron for %r Ga is %r at %r km, above 0.8 of equilibrium %r, but kept', case['t'], b, a, l / .8)
    check(set(kept) <= set(map(float, d)), 'truncated isochron has new points')
    # deciding the same for each part: kept part below or above
    e = ef.getplotdata(case['pr'])
    close(e['y'], ef.evaluate(case['pr'], np.asarray(e['d'], float)), 'equilibrium curve', rtol=2e-5)
    close([e['d'][0], e['d'][-1]], [lo, hi], 'extent of equilibrium curve', rtol=1e-6)
    ctx.nontrivial(0 < len(kept) < len(d))
    ctx.label(case['pr'])
    ctx.label('all kept' if len(kept) == len(d) else 'none kept' if not kept else 'part kept')


def body_regions(case, ctx):
    d = ctx.tmpdir()
    pf, cf = gen.pf(case['system'][0]), gen.cf(case['system'][1])
    p = [float(v) for v in cf.definition['coefficients']]
    a = ['-cs', case['sysname'], '-ep', case['ep'], '-pr', case['pr'], '-xrange', '-2', '2', '-yrange', '-8', '2', '-f', 'svg', '-o', os.path.join(d, 'o'), '-invert', str(case['invert'])]
    if case['ef']:
        a += ['-ef', case['ef']]
    ef = make_ef(case['ef']) if case['ef'] else None
    ax = main_axes(figure(a))
    de = next(e for e in gen.FUNCTIONS['epochs'] if e['name'] == case['ep'])
    t = expected_times(de, case['system'][0], p)[1:]
    f = [str(v) for v in de['formatting']][1:]
    g = [v for v in ax.patches if isinstance(v, Polygon) and v.get_zorder() == -2]
    eq(len(g), len(t) - 1, 'epoch regions in figure')
    iso = []
    for v in t:
        c = pf.getplotdata(case['pr'], float(cf.a0(v)))
        iso.append((np.log10(c['d']), np.log10(c['y'])))
    prev = None
    for i, h in enumerate(g):
        xy = h.get_xy()
        x, y = xy[:, 0], np.log10(xy[:, 1])
        A, B = iso[i], iso[i + 1]
        m = len(x)
        if ef is None:
            check(m >= 100, 'region has %d points', m)
        ya, yb = np.interp(x, *A), np.interp(x, *B)
        tol = 2e-3 + 2e-3 * abs(y)
        on = (abs(y - ya) < tol) | (abs(y - yb) < tol)
        check(np.all(on), 'epoch region %d of %r is not bounded by isochrons of %r and %r Ga', i, case['ep'], t[i], t[i + 1])
        if ef is None and m:
            for yy, T in ((ya, t[i]), (yb, t[i + 1])):
                k = abs(y - yy) < tol
                close([x[k].min(), x[k].max()], np.log10(np.asarray(pf.range, float)), 'extent of boundary at %r Ga of region' % T, rtol=1e-6, atol=1e-6)
        ctx.label('empty region' if m <= 1 else 'region')
    # grey levels follow the formatting codes: equal codes, equal greys; different codes, different greys
    col = {}
    for h, code in zip(g, f[1:]):
        c = tuple(mc.to_rgb(h.get_facecolor()))
        col.setdefault(code[0], set()).add(c)
    check(all(len(v) == 1 for v in col.values()), 'grey levels %r', col)
    check(len(set.union(*col.values())) == len(col) if col else True, 'different codes with equal grey: %r', col)
    ks = sorted(col)
    if len(ks) > 1:  # code 0 is lightest on white, darkest on black
        s = [sum(list(col[k])[0]) for k in ks]
        o = np.diff(s)
        check(np.all(o < 0) or np.all(o > 0), 'greys not in order of code: %r', col)
    ctx.nontrivial(len(t) > 2)
    ctx.label(case['pr'])


def fills(ax):
    """filled areas of an axis: (vertices, colour)"""
    return [(c.get_paths()[0].vertices, tuple(mc.to_rgb(c.get_facecolor()[0]))) for c in ax.collections if len(c.get_paths()) == 1 and len(c.get_facecolor())]


def greys(by_code):
    check(all(len(v) == 1 for v in by_code.values()), 'different greys for one code: %r', by_code)
    ks = sorted(by_code)
    s = np.diff([sum(list(by_code[k])[0]) for k in ks])
    check(np.all(s < 0) or np.all(s > 0), 'greys not in order of code: %r', by_code)


def body_time_axes(case, ctx):
    """epochs on sequence, chronology and rate plots"""
    def initials(n):
        w = n.replace('-', ' ').split(' ')
        return w[0][0].lower() + w[1][0] if len(w) == 2 else w[0][0]

    d = ctx.tmpdir()
    cf = gen.cf(case['system'][1])
    p = [float(v) for v in cf.definition['coefficients']]
    de = next(e for e in gen.FUNCTIONS['epochs'] if e['name'] == case['ep'])
    t = expected_times(de, case['system'][0], p)
    names = [str(e) for e in de['epoch']]
    codes = [str(v) for v in de['formatting']][1:]
    a = ['-cs', case['sysname'], '-ep', case['ep'], '-pr', case['pr'], '-f', 'svg', '-o', os.path.join(d, 'o'), '-invert', str(case['invert'])]
    if case['x']:
        a += ['-xrange'] + [repr(v) for v in case['x']]
    if case['pr'] == 'sequence':
        gen.write_diam(os.path.join(d, 'x.diam'), [1.02] * 9 + [1.12] * 7 + [1.25] * 5, area=case['area'])
        a += ['-p', 'source=%s,range=[1,1.3]' % os.path.join(d, 'x.diam')]
    fig = figure(a)
    col = {}
    tol = lambda v: c09.tol(p, v) + 2e-7 * v + 1e-6
    if case['pr'] == 'sequence':
        axes = [x for x in fig.axes if x.get_xlim()[0] > x.get_xlim()[1]]
        x = case['x'] or [4.2, 1e-2]
        hi, lo = min(max(max(x), 3.), 4.5), min(x)
        shown = 0
        for ax in axes:
            b, a_ = ax.get_xlim()
            if ax.get_position().width < 1e-6:
                continue
            F = [f for f in fills(ax) if len(set(f[0][:, 1])) == 2 and np.ptp(f[0][:, 1]) > .99]  # others are age distributions
            used = set()
            for i, (u, v) in enumerate(zip(t[1:], t[2:])):
                u_, v_ = max(u, a_), min(v, b)
                if v_ - u_ < 1e-3 * v_:
                    continue
                k = [j for j, (xy, c) in enumerate(F) if abs(max(xy[:, 0].min(), a_) - u_) < tol(u) and abs(min(xy[:, 0].max(), b) - v_) < tol(v)]
                check(len(k) == 1, '%d areas on %s axis from %g to %g for epoch %r, of %r', len(k), ax.get_xscale(), u, v, names[i + 1], [(q[:, 0].min(), q[:, 0].max()) for q, _ in F])
                xy, c = F[k[0]]
                check(xy[:, 1].min() <= ax.get_ylim()[0] and xy[:, 1].max() >= ax.get_ylim()[1], 'epoch %r not filled over the height', names[i + 1])
                col.setdefault(codes[i + 1][0], set()).add(c)
                used.add(k[0])
                shown += 1
            for j, (xy, c) in enumerate(F):
                check(j in used or xy[:, 0].max() <= a_ * (1 + 1e-3) or xy[:, 0].min() >= b * (1 - 1e-3), 'area on axis from %g to %g is no epoch', xy[:, 0].min(), xy[:, 0].max())
            L = [l for l in ax.lines if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1]]
            for v in t[1:]:
                if a_ < v < b:
                    check(any(abs(float(l.get_xdata()[0]) - v) < tol(v) for l in L), 'no line at boundary %g Ga', v)
            for l in L:
                q = float(l.get_xdata()[0])
                check(any(abs(q - v) < tol(v) for v in t[1:]), 'line at %g Ga, boundaries %r', q, t)
        check(abs(max(x.get_xlim()[0] for x in axes if x.get_position().width > 1e-6) - hi) < 1e-6, 'oldest age displayed')
        # names: every epoch displayed has its letter within
        lab = [(q.get_text(), float(q.get_position()[0])) for ax in axes if ax.get_position().width > 1e-6 for q in ax.texts if ax.get_xlim()[1] < q.get_position()[0] < ax.get_xlim()[0] and q.get_position()[1] < .05]
        low = min(x.get_xlim()[1] for x in axes if x.get_position().width > 1e-6)
        ends = t[1:] + [1e9]
        for i, n in enumerate(names):
            u, v = max(t[i], low), min(ends[i], hi)
            if v > u * (1 + 1e-3) and u < v - 1e-3:
                check(any(q == initials(n) and u <= w <= v for q, w in lab), 'no label of epoch %r within %g-%g Ga: %r', n, u, v, lab)
        for q, w in lab:
            check(any(n[0].lower() == q[0].lower() and t[i] - 1e-9 <= w <= ends[i] + 1e-9 for i, n in enumerate(names)), 'label %r at %g Ga', q, w)
        ctx.nontrivial(shown > 1)
    else:
        ax = main_axes(fig)
        f = (lambda v: c09.n1(p, v)) if case['pr'] == 'chronology' else (lambda v: p[0] * p[1] * np.exp(p[1] * v) + p[3])
        F = fills(ax)
        eq(len(F), max(len(t) - 2, 0), 'epochs filled')
        for i, ((u, v), (xy, c)) in enumerate(zip(zip(t[1:], t[2:]), F)):
            close([xy[:, 0].min(), xy[:, 0].max()], [u, v], 'extent of epoch %r' % names[i + 1], rtol=0, atol=max(tol(u), tol(v)))
            top = {}
            for q, y in xy:
                top[q] = max(top.get(q, 0), y)
            q = np.array([e for e in top if e < 4.4])
            if len(q):
                close([top[e] for e in q], [float(f(e)) for e in q], 'upper limit of epoch %r' % names[i + 1], rtol=.02)
                check(xy[:, 1].min() <= ax.get_ylim()[0] or xy[:, 1].min() < 1e-9 * max(top.values()), 'epoch not filled to the axis')
            col.setdefault(codes[i + 1][0], set()).add(c)
        tx = [q for q in ax.texts]
        ends = t[1:] + [max(ax.get_xlim())]
        for i, n in enumerate(names):
            if ends[i] - t[i] < .1:
                continue
            check(any(q.get_text() == n and t[i] - .04 <= q.get_position()[0] <= ends[i] for q in tx), 'no name of epoch %r within %g-%g Ga: %r', n, t[i], ends[i], [(q.get_text(), q.get_position()) for q in tx])
        num = []
        for q in tx:
            try:
                num.append((float(q.get_text()), q))
            except ValueError:
                pass
        for v in t[1:]:
            check(any(abs(n / v - 1) < 6e-3 and abs(q.xy[0] - v) < tol(v) for n, q in num if hasattr(q, 'xy')), 'boundary %g Ga not stated: %r', v, [n for n, _ in num])
        ctx.nontrivial(len(F) > 1)
    if col:
        greys(col)
    ctx.label(case['pr'] + (' explicit range' if case['x'] else ''))


NUM = st.integers(-3000, 3000)


@st.composite
def gen_epochs(draw):
    n = draw(st.integers(1, 7))
    e = {'name': draw(st.sampled_from(['Gen', 'Moon, X (2020)', 'a b'])), 'epoch': ['E%d' % i for i in range(n + 1)], 'star': draw(st.booleans())}
    if n == 0:
        return e
    e['formatting'] = [str(draw(st.sampled_from([0, 60, 90])))] + [str(draw(st.integers(0, 3))) + draw(st.sampled_from(['', 'b', 'r', 'rb', 'br'])) for _ in range(n + 1)]
    if draw(st.integers(0, 3)) == 0:
        e['time'] = [0.] + sorted({draw(st.integers(1, 4500)) / 1000. for _ in range(n)})
        k = len(e['time'])
        e['epoch'] = e['epoch'][:k]
        e['formatting'] = e['formatting'][:k + 1]
        if k < 2:
            e['time'] = [0., 1.]
    else:
        e['ref'] = [draw(st.sampled_from([1., 1., 5., 16., .5, 2.5, 1.25, 10., 20.])) for _ in range(n)]
        e['density'] = [gen.r6(10 ** (draw(st.integers(0, 4500)) / 1000.), 4) for _ in range(n)]
    return e


@st.composite
def efs(draw):
    if draw(st.booleans()):
        return draw(st.sampled_from(gen.EQUILIBRIA))
    lo = draw(st.sampled_from([1e-3, 1e-2, .05, 1e-4]))
    hi = lo * draw(st.sampled_from([1e2, 1e3, 1e4, 1e6]))
    c = [draw(st.integers(-35, 0)) / 10., -draw(st.integers(5, 35)) / 10.]
    if draw(st.booleans()):
        c.append(draw(st.sampled_from([-.05, .05])))
    return {'range': [lo, hi], 'c': c}


PAIR = st.sampled_from([[s[1], s[2]] for s in gen.SYSTEMS if s[1] in PFS and s[2] in CFS and s[1] != c08.QUIRK])
EP = st.one_of(st.sampled_from(gen.EPOCHS), gen_epochs(), gen_epochs())
TIMES = st.builds(lambda e, pr, p, c, how: {'epochs': e, 'pf': pr[0] if p is None else p, 'cf': pr[1] if c is None else c, 'how': how},
                  EP, PAIR, st.one_of(st.none(), st.sampled_from(PFS)), st.one_of(st.none(), st.sampled_from(CFS)), st.sampled_from(['text', 'file', 'dict']))
TRUNC = st.builds(lambda pr, p, ef, t, s: {'pf': pr[0], 'cf': pr[1], 'pr': p, 'ef': ef, 't': t, 'shift': s / 100.}, PAIR, st.sampled_from(PRES), efs(),
                  st.sampled_from([4.4, 4., 3.9, 3.5, 3., 1., .1, 1e-2, 1e-3, 1e-5]), st.integers(-100, 300))
SYS = [s for s in gen.SYSTEMS if s[2] in CFS and s[1] != c08.QUIRK]  # recorded finding
REG = st.builds(lambda s, e, p, ef, i: {'sysname': s[0], 'system': [s[1], s[2]], 'ep': e, 'pr': p, 'ef': ef, 'invert': i}, st.sampled_from(SYS), st.sampled_from(gen.EPOCHS),
                st.sampled_from(PRES), st.sampled_from([None, None] + gen.EQUILIBRIA), st.sampled_from([0, 1]))
@st.composite
def time_axes(draw):
    s = draw(st.sampled_from(SYS))
    pr = draw(st.sampled_from(['sequence', 'sequence', 'chronology', 'rate']))
    x = draw(st.one_of(st.none(), st.tuples(st.sampled_from([4.5, 4.2, 4., 3.8, 3.5, 3.2]), st.sampled_from([1e-3, .01, .1, .5, 0., 1., 2., 2.5])).map(list)))
    if x and pr != 'sequence':
        x = None
    return {'sysname': s[0], 'system': [s[1], s[2]], 'ep': draw(st.sampled_from(gen.EPOCHS)), 'pr': pr, 'invert': draw(st.integers(0, 1)), 'area': draw(st.sampled_from([3., 30., 300., 3e4])),
            'x': x[::-1] if x and draw(st.booleans()) else x}


SUBS = [
    Sub('times', TIMES, body_times, quick=700, shards=3, rule='two or more boundaries',
        examples=[{'epochs': e, 'pf': s[1], 'cf': s[2], 'how': 'text'} for e in gen.EPOCHS for s in SYS]),
    Sub('truncate', TRUNC, body_truncate, quick=900, shards=3, rule='part of the isochron removed'),
    Sub('regions', REG, body_regions, quick=120, shards=2, rule='two or more regions'),
    Sub('time_axes', time_axes(), body_time_axes, quick=160, shards=3, rule='two or more epochs displayed'),
]
