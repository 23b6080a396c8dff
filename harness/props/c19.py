import os
import re

import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import LineCollection, PolyCollection
import matplotlib.colors as mc

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, Skip, quiet, cwd
from ..draw import figure, main_axes
from . import c17
from .c08 import QUIRK
from .c14 import parse_ml, agree

PROPERTY = 'C19'
RULE = ('command lines drawing 1-4 overplots (all types, binnings, ranges, styling, hidden ones) of 1-3 generated counts with '
        'legend options, isochrons, equilibrium and epoch overlays in every crater presentation, plus sequence and chronology '
        'plots; oracle: separately evaluated densities, fits and ages matched one to one with the figure artists; non-trivial '
        'with two visible overplots or an overlay')
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']
COLOURS = [e[2] for e in cst.PALETTE]
SYMBOLS = [e[0] for e in cst.MARKERS]


def rgb(c):
    return tuple(round(v, 3) for v in mc.to_rgb(c))


def argline(case, files, d):
    a = ['-cs', case['sysname'], '-f', 'svg', '-o', os.path.join(d, 'o'), '-pr', case['pr'], '-legend', case['legend'],
         '-ref_diameter', '%r' % case['ref'], '-mu', str(case['mu']), '-sf', str(case['sf']), '-invert', str(case['invert'])]
    for k, o in (('isochrons', '-isochrons'), ('ef', '-ef'), ('ep', '-ep')):
        if case.get(k):
            a += [o, case[k]]
    if case.get('xr'):
        a += ['-xrange'] + [str(e) for e in case['xr']]
    for it in case['items']:
        s = ['source=' + files[it['src'] % len(files)], 'type=' + it['type'], 'range=[%s]' % ','.join(str(e) for e in it['range']),
             'binning=' + it['binning'], 'psym=' + SYMBOLS[it['psym']], 'colour=' + (it['hex'] or COLOURS[it['colour']]),
             'offset_age=[%g,%g]' % tuple(it['offset_age'])]
        s += ['%s=%d' % (k, it[k]) for k in ('snap', 'resurf', 'hide', 'error_bars', 'age_left', 'show_age', 'isochron', 'resurf_showall')]
        if it['name']:
            s.append('name=' + it['name'])
        a += ['-p', ','.join(s)]
    return a


def prepare(case, ctx):
    d, files = c17.build(case, ctx)
    for it in case['items']:  # Poisson evaluation of reference areas not meant
        if case['counts'][it['src'] % len(files)].get('buffered') and it['type'] in ('poisson', 'b-poisson'):
            it['type'] = 'c-fit'
            if it['binning'] == 'none' and case['pr'] != 'cumulative':
                it['binning'] = 'root-2'
    for it in case['items']:  # no perimeter in .diam
        if it['type'] == 'b-poisson' and not files[it['src'] % len(files)].endswith('.scc'):
            it['type'] = 'poisson'
    cps = gen.make_cps(*case['system'], presentation=case['pr'], legend=case['legend'], ref_diameter=case['ref'], mu=case['mu'], sig_figs=case['sf'],
                       invert=case['invert'])
    if case.get('ef'):
        cps.ef = cst.Productionfn(gen.FUNCTIONS, case['ef'], equilibrium=True)
    if case.get('ep'):
        cps.ep = cst.Epochs(gen.FUNCTIONS, case['ep'], cps.pf, cps.cf)
    evs = []
    for it in case['items']:
        k = {x: it[x] for x in ('type', 'range', 'binning', 'snap', 'resurf', 'hide', 'name', 'psym', 'resurf_showall')}
        cp = cst.Craterplot(source=files[it['src'] % len(files)], **k)
        if cp.type != 'data' and not it['hide'] and not c17.usable(cps, cp):
            raise Skip()
        pf = cps.pf
        if (cp.resurf and cp.type == 'c-fit' or case['pr'] != 'cumulative') and not all(pf.range[0] <= v <= pf.range[1] for v in (cp.cratercount.diam or list(cp.cratercount.binned['d_min']) + list(cp.cratercount.binned['d_max']))):
            raise Skip()  # corrections outside production function
        if cp.type != 'data' and not (cp.range[1] > pf.range[0] and cp.range[0] < pf.range[1]):
            raise Skip()
        cp.visible = not it['hide'] and not (case['pr'] in PRES[1:] and cp.binning == 'none')
        evs.append(cp)
    return d, files, cps, evs


def labels_of(case, cps, cp):
    """expected legend entry as list of ('text', s) / ('n', ...) parts, or None"""
    L = case['legend']
    out = []
    if cp.type == 'data':
        if 'n' in L:
            out.append(('text', cp.name))
        if 'a' in L:
            out.append(('sci', cp.cratercount.area, 'km2'))
        if ('p' in L or 'a' in L and any(it['type'] == 'b-poisson' for it in case['items'])) and cp.cratercount.perimeter:
            out.append(('km', cp.cratercount.perimeter))
    else:
        if case['pr'] == 'sequence':
            if 'A' in L:
                out.append(('age',))
            if 'a' in L:
                out.append(('sci', cp.cratercount.area, 'km2'))
        if 'c' in L:
            out.append(('craters',))
        if 'r' in L:
            out.append(('range',))
        if 'N' in L:
            out.append(('N',))
    return out


def take(s, parts, case, cps, cp, sep=', '):
    """consume legend text s by its expected parts"""
    for i, p in enumerate(parts):
        if i:
            check(s.startswith(sep), 'legend text %r: expected %r', s, parts)
            s = s[len(sep):]
        if p[0] == 'text':
            check(s.startswith(p[1]), 'legend %r does not state name %r', s, p[1])
            s = s[len(p[1]):]
            continue
        m = {'sci': r'\$[^$]*\$ km\$\^\{2\}\$', 'km': r'\$[^$]*\$ km', 'age': r'\$[^$]*\$ \w+', 'N': r'N\([^)]*\)=\$[^$]*\$ km\$\^\{-2\}\$',
             'craters': r'[^,]* craters( \(buffered\))?', 'range': r'unconstrained|[0-9.]+–[0-9.]+ k?m'}[p[0]]
        m = re.match(m, s)
        check(m is not None, 'legend %r: expected %r next', s, p[0])
        t, s = m.group(0), s[m.end():]
        if p[0] == 'sci':
            q = parse_ml(t, False)
            eq(q['unit'], p[2], 'unit of area')
            agree(q['value'], float(p[1]) / 10. ** q['exp'], 3, 'area in legend', loose=1e-9)
        elif p[0] == 'km':
            q = parse_ml(t, False) if '^' in t or 'cdot' in t else {'value': t.split('$')[1], 'exp': 0}
            agree(q['value'], float(p[1]) / 10. ** q['exp'], 3, 'perimeter in legend', loose=1e-9)
        elif p[0] == 'age':
            check_age(t, cps, cp)
        elif p[0] == 'craters':
            n = t.split(' craters')[0]
            k = re.match(r'([\d.]+)(?: \(of (\d+)\))?$', n)
            check(k is not None, 'crater number %r', n)
            eq('(buffered)' in t, cp.type == 'b-poisson' or bool(cp.cratercount.buffered), 'buffered')
            if cp.cratercount.buffered:
                close(float(k.group(1)), cp.n_event, 'number of craters of buffered count in legend', atol=.051, rtol=0)
                check(k.group(2) is None, 'legend %r of buffered count', t)
            elif abs(cp.n - cp.n_event) < .001:
                close(float(k.group(1)), cp.n, 'number of craters in legend', rtol=1e-5)
            else:
                close(float(k.group(1)), cp.n, 'number of craters in legend', atol=.051, rtol=0)
                eq(int(k.group(2)), int(cp.n_event), 'number of events in legend')
        elif p[0] == 'range':
            check_range(t, cp)
        elif p[0] == 'N':
            a, b = t.split('=', 1)
            eq(a, 'N(%g)' % case['ref'], 'reference diameter in legend')
            q = parse_ml(b, False)
            nd = [float(cps.pf.evaluate('cumulative', case['ref'], e)) for e in cp.a0]
            e = 10. ** q['exp']
            agree(q['value'], nd[0] / e, 3, 'N(d_ref) in legend', loose=1e-9)
            agree(q['plus'], (nd[2] - nd[0]) / e, 2, 'upper limit of N(d_ref) in legend', loose=1e-9)
            agree(q['minus'], (nd[0] - nd[1]) / e, 2, 'lower limit of N(d_ref) in legend', loose=1e-9)
    eq(s, '', 'rest of legend entry')


def check_age(t, cps, cp):
    p = parse_ml(t, False)
    u = {'Ga': 1., 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}[p['unit']]
    agree(p['value'], float(cp.t[0]) / u, cps.sig_figs, 'age text', loose=1e-9)
    eq(p['mu'], bool(cps.mu), 'mu')
    if cp.t[2] > cp.t[0]:
        agree(p['plus'], float(cp.t[2] - cp.t[0]) / u, cps.sig_figs - 1, 'upper limit in age text', loose=1e-9)
        agree(p['minus'], float(cp.t[0] - cp.t[1]) / u, cps.sig_figs - 1, 'lower limit in age text', loose=1e-9)


def check_range(t, cp):
    r = [float(e) for e in cp.range]
    table = cp.cratercount.prebinned
    if table or cp.type not in ('poisson', 'b-poisson'):
        if cp.binning == 'none' and not table:
            return  # bins inside range
        b = cp.cratercount.getplotdata('cumulative', cp.binning, range=list(cp.range))['bin_range'] if table or cp.resurf else cp.bin_range
        r = [float(e) for e in b]
    if np.isinf(r[1]):
        eq(t, 'unconstrained', 'range in legend')
        return
    k = 1. if t.endswith(' km') else 1000.
    eq(k == 1., r[1] >= 1 - 1e-9 if abs(r[1] - 1) > 1e-9 else k == 1., 'unit of range %r' % t)
    a, b = t.replace(' km' if k == 1 else ' m', '').split('–')
    agree(a, r[0] * k, 2, 'range in legend', loose=1e-9 * k)
    agree(b, r[1] * k, 2, 'range in legend', loose=1e-9 * k)


class Pool:
    """artists of a figure to be matched one to one"""

    def __init__(self, items, what):
        self.items = list(items)
        self.what = what

    def take(self, pred, want):
        for i, e in enumerate(self.items):
            if pred(e):
                return self.items.pop(i)
        raise AssertionError('%s not in figure (%d other %s)' % (want, len(self.items), self.what))

    def find(self, pred, want):
        for e in self.items:
            if pred(e):
                return e
        raise AssertionError('%s not in figure (%d other %s)' % (want, len(self.items), self.what))

    def match(self, requests):
        """take a different item for each (pred, want); two requests may admit the same items"""
        owner = {}

        def assign(q, seen):
            for i, e in enumerate(self.items):
                if i not in seen and requests[q][0](e):
                    seen.add(i)
                    if i not in owner or assign(owner[i], seen):
                        owner[i] = q
                        return True
            return False
        for q in range(len(requests)):
            check(assign(q, set()), '%s not in figure (%d %s)', requests[q][1], len(self.items), self.what)
        self.items = [e for i, e in enumerate(self.items) if i not in owner]

    def empty(self):
        check(not self.items, '%d unexpected %s in figure: %r', len(self.items), self.what, [str(e)[:80] for e in self.items[:3]])


def same_xy(x, y, X, Y, tol=1e-9):
    x, y, X, Y = (np.asarray(v, float) for v in (x, y, X, Y))
    return x.shape == X.shape and y.shape == Y.shape and np.allclose(x, X, rtol=1e-9, atol=1e-9) and np.allclose(y, Y, rtol=max(tol, 1e-9), atol=0)


def curve(x, y, colour=None):
    def f(l):
        return same_xy(l.get_xdata(), l.get_ydata(), x, y) and (colour is None or rgb(l.get_color()) == rgb(colour))
    return f


def decode_isochrons(s):
    out = []
    for e in s.split(','):
        m = re.match(r'\s*([0-9.e-]+?)([has]*)\s*$', e)
        out.append((float(m.group(1)), 'h' in m.group(2), 'a' in m.group(2), 's' in m.group(2)))
    return out


def body(case, ctx):
    d, files, cps, evs = prepare(case, ctx)
    with cwd(d):
        fig = figure(argline(case, files, d))
    ax = main_axes(fig)
    pr = case['pr']
    lines = Pool([l for l in ax.lines if l.get_linestyle() not in ('None', '') and len(l.get_xdata())], 'curves')
    marks = Pool([l for l in ax.lines if l.get_linestyle() in ('None', '')], 'point series')
    bars = Pool([c for c in ax.collections if isinstance(c, LineCollection)], 'error bars')
    texts = Pool([t for t in ax.texts], 'texts')
    legend = [t.get_text() for t in ax.get_legend().get_texts()]
    handles = list(ax.get_legend().legend_handles)
    eq(len(legend), len(handles), 'legend entries')
    if pr == 'Hartmann' and not any(cp.cratercount.prebinned for cp in evs):  # densities of other bins are converted
        other = [cp.visible for cp in evs if cp.binning != 'root-2']
        if not other or any(other):
            eq('(equivalent)' in ax.get_ylabel(), bool(other), 'axis title %r with binnings %r' % (ax.get_ylabel(), [cp.binning for cp in evs]))
    expect_legend = []
    mini = 0
    wanted = []
    for it, cp in zip(case['items'], evs):
        if not cp.visible:
            continue
        colour = it['hex'] or cst.PALETTE[it['colour']][case['invert']]
        with np.errstate(all='ignore'):
            p = cp.cratercount.getplotdata(pr, cp.binning, range=cp.range, resurfacing=1 if cp.resurf and cp.type == 'c-fit' else 0,
                                           showall=cp.resurf_showall, pf=cps.pf)
        x, y, err = np.log10(p['d']), np.asarray(p['y'], float), np.asarray(p['err'], float)
        cp.n, cp.n_event = p['n'], p['n_event']
        m = cst.MARKERS[it['psym']][2]

        def is_series(l):
            mk = l.get_marker()
            same = mk is m['marker'] or (isinstance(mk, str) and mk == m['marker'])
            return (same and l.get_fillstyle() == m.get('fillstyle', 'full') and rgb(l.get_color()) == rgb(colour)
                    and same_xy(l.get_xdata(), l.get_ydata(), x, y))
        marks.take(is_series, 'points %s of %s overplot with symbol %s and colour %s' % (np.round(10 ** x, 4), cp.type, SYMBOLS[it['psym']], colour))
        if it['error_bars']:
            def is_bars(c):
                s = [g for g in c.get_segments()]
                if len(s) != len(x):
                    return False
                return all(g.shape == (2, 2) and np.allclose(g[:, 0], a, rtol=1e-9) and np.allclose(sorted(g[:, 1]), [b - e, b + e], rtol=1e-9, atol=1e-12 * b)
                           for g, a, b, e in zip(s, x, y, err))
            bars.take(is_bars, 'error bars of %s overplot' % cp.type)
        if cp.type != 'data':
            with quiet(), np.errstate(all='ignore'):
                cp.calculate_age(cps)
            lev = float(cp.a0[0])
            lo, hi = [float(np.clip(v, *[float(e) for e in cps.pf.range])) for v in (cp.range[0] * .99, cp.range[1] * 1.01)]

            def is_fit(l, colour=colour, lo=lo, hi=hi, lev=lev):
                X, Y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                if rgb(l.get_color()) != rgb(colour) or len(X) < 50:
                    return False
                if not np.allclose([X[0], X[-1]], np.log10([lo, hi]), rtol=1e-6, atol=1e-6):
                    return False
                return np.allclose(Y, cps.pf.evaluate(pr, 10 ** X, lev), rtol=1e-6, atol=0)
            if it['isochron']:
                iso = cps.pf.getisochron(pr, lev, cps.ef)
                if len(iso['d']):  # else wholly above equilibrium
                    wanted.append((curve(np.log10(iso['d']), iso['y']), 'extended isochron at level %r' % lev))
            wanted.append((is_fit, 'production function at level %r over %r in colour %s' % (lev, [lo, hi], colour)))
            f = lines.find(*wanted[-1])
            if it['show_age']:
                u = 0.02 * (-1 if it['age_left'] else 1) + np.array(it['offset_age']) / (np.clip(abs(np.diff(ax.get_xlim())[0]), 1, None) * 20)
                pos = ax.transAxes.inverted().transform(ax.transData.transform((f.get_xdata()[0], f.get_ydata()[0]))) + u
                t = texts.take(lambda t: rgb(t.get_color()) == rgb(colour) and np.allclose(t.get_position(), pos, rtol=0, atol=1e-6) and age_ok(t, cps, cp),
                               'age text %r at start of fit' % cst.str_age(cp.t[0], cp.t[2] - cp.t[0], cp.t[0] - cp.t[1], cps.sig_figs, mu=cps.mu))
                eq(t.get_ha(), 'right' if it['age_left'] else 'left', 'side of age text')
                mini += cp.type in ('poisson', 'b-poisson')
        lab = labels_of(case, cps, cp)
        if lab:
            expect_legend.append((lab, cp, colour, it))
    # overlays
    if case.get('isochrons'):
        isos = decode_isochrons(case['isochrons'])
        for t, hide, above, small in isos:
            lev = float(cps.cf.a0(t))
            iso = cps.pf.getisochron(pr, lev, cps.ef)
            if len(iso['d']) == 0:  # wholly above equilibrium
                continue
            wanted.append((curve(np.log10(iso['d']), iso['y']), 'isochron for %r Ga' % t))
            if cps.ef is not None:
                e = cps.ef.getplotdata(pr)
                lim = 10 ** np.interp(np.log10(iso['d']), np.log10(e['d']), np.log10(e['y']))
                check(np.all(iso['y'] < lim * .9), 'isochron for %r Ga drawn above equilibrium', t)
            if not hide:
                s = [q for q in texts.items if q.get_text() == cst.str_age(t, simple=True)]
                same = [i for i in isos if i[0] == t and not i[1]]
                check(len(s) <= len(same), '%d labels for isochron of %r Ga', len(s), t)
                if s:
                    ctx.label('isochron label')
                    x, y = s[0].get_position()
                    quirk = case['system'][0] == QUIRK and not y > 0  # recorded finding: function negative at lower end
                    check(quirk or any(abs(np.log10(y / float(cps.pf.evaluate(pr, 10 ** x, lev))) + .05) < .02 for lev in [lev]), 'label of isochron for %r Ga at %r not on its curve', t, (x, y))
                    if len(same) == 1:
                        eq(s[0].get_va(), 'bottom' if above else 'top', 'side of label of isochron %r' % case['isochrons'])
                        check((s[0].get_size() < .54 * cps.pt_size) == bool(small), 'size %r of label of isochron %r', s[0].get_size(), case['isochrons'])
                    texts.items.remove(s[0])
            elif not [i for i in isos if i[0] == t and not i[1]]:
                check(not [q for q in texts.items if q.get_text() == cst.str_age(t, simple=True)], 'label of hidden isochron for %r Ga (%s) shown', t, case['isochrons'])
    if cps.ef is not None:
        e = cps.ef.getplotdata(pr)
        wanted.append((curve(np.log10(e['d']), e['y']), 'equilibrium function'))
    if cps.ep is not None:
        fmt = [re.search('b', e) is not None for e in cps.ep.formatting[1:]]
        isos = [cps.pf.getisochron(pr, float(cps.cf.a0(t)), cps.ef) for t in cps.ep.time[1:]]
        for b, iso in zip(fmt, isos[:-1]):
            if b and len(iso['d']):
                wanted.append((curve(np.log10(iso['d']), iso['y']), 'epoch boundary'))
    lines.match(wanted)
    if 'f' in case['legend']:
        s = texts.take(lambda t: 'CF: ' in t.get_text(), 'function legend').get_text().split('\n')
        eq([e for e in s if e[:3] != 'Epo'], (['EF: ' + case['ef']] if case.get('ef') else []) + ['PF: ' + case['system'][0], 'CF: ' + case['system'][1]],
           'function legend')
        eq([e for e in s if e[:3] == 'Epo'], ['Epochs: ' + case['ep']] if case.get('ep') else [], 'epochs in function legend')
    marks.empty(), lines.empty(), bars.empty(), texts.empty()
    # legend
    eq(len(legend), len(expect_legend), 'legend entries %r for %r' % (legend, [e[0] for e in expect_legend]))
    for s, h, (lab, cp, colour, it) in zip(legend, handles, expect_legend):
        take(s, lab, case, cps, cp)
        hs = h.get_children() if hasattr(h, 'get_children') and not hasattr(h, 'get_marker') else [h]
        if hasattr(h, 'get_color'):
            eq(rgb(h.get_color()), rgb(colour), 'colour in legend')
        check(h.get_visible(), 'legend symbol hidden')
    # small distributions
    small = [a for a in fig.axes if a is not ax and len(a.lines) == 1 and len(a.lines[0].get_xdata()) > 50]
    eq(len(small), mini, 'age distribution plots')
    for a in small:
        check_small_axis(a)
    pool = Pool(small, 'age distribution plots')
    for it, cp in zip(case['items'], evs):
        if cp.visible and cp.type in ('poisson', 'b-poisson') and it['show_age']:
            colour = it['hex'] or cst.PALETTE[it['colour']][case['invert']]
            a = pool.take(lambda a: rgb(a.lines[0].get_color()) == rgb(colour) and same_xy(a.lines[0].get_xdata(), a.lines[0].get_ydata(), cp.pdf.ts, cp.pdf.pdf, 1e-6),
                          'age distribution')
            shapes = Pool([c for c in a.collections if isinstance(c, PolyCollection)], 'shaded parts of age distribution plot')
            q = [float(e) for e in cp.pdf.t([.16, .5, .84])]
            for lo, hi, what in ((q[0], q[2], '1-sigma part'), (q[1], q[1], 'median')):
                shapes.take(lambda c: near(np.asarray(cp.pdf.ts), box(c)[0], lo) and near(np.asarray(cp.pdf.ts), box(c)[1], hi) and abs(box(c)[2]) < 1e-12,
                            '%s (%r to %r Ga) shaded in age distribution plot' % (what, lo, hi))
            shapes.empty()
    n = sum(cp.visible for cp in evs)
    ctx.nontrivial(n > 1 or bool(case.get('isochrons') or case.get('ef') or case.get('ep')))
    ctx.label(pr)
    for cp in evs:
        ctx.label(cp.type if cp.visible else 'not shown')
    for k in ('isochrons', 'ef', 'ep'):
        if case.get(k):
            ctx.label(k)


def box(c):
    v = np.concatenate([p.vertices for p in c.get_paths()])
    return v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()


def near(ts, v, w):
    """v is within two steps of the sampling from w"""
    k = int(np.clip(np.searchsorted(ts, w), 1, len(ts) - 1))
    return ts[max(k - 3, 0)] - 1e-15 <= v <= ts[min(k + 2, len(ts) - 1)] + 1e-15


def check_small_axis(a):
    """ticks of age distribution plot: whole range, labels state their ages"""
    T = [(float(x), l.get_text()) for x, l in zip(a.get_xticks(), a.get_xticklabels())]
    check(T and T[0][0] == 0, 'first age tick %r', T[:1])
    m = re.match(r'^\s*(\S+) (\S+)$', T[-1][1])
    check(m, 'last age label %r has no unit', T[-1][1])
    u = {'Ga': 1., 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}[m[2]]
    for x, s in T[:-1]:
        close(float(s) * u, x, 'age label %r (%s)' % (s, m[2]), rtol=1e-5)
    close(float(m[1]) * u, T[-1][0], 'age label %r' % T[-1][1], rtol=5e-3)


def age_ok(t, cps, cp):
    try:
        check_age(t.get_text(), cps, cp)
    except AssertionError:
        return False
    return True


def body_sequence(case, ctx):
    d, files, cps, evs = prepare(case, ctx)
    with cwd(d):
        fig = figure(argline(case, files, d))
    lin = [a for a in fig.axes if a.get_xscale() == 'linear' and len(a.get_xticks()) and a.get_xlim() != (0., 1.) and a.get_xlim()[0] > a.get_xlim()[1]]
    log = [a for a in fig.axes if a.get_xscale() == 'log' and a.axison]
    main = [a for a in fig.axes if a.get_xlabel() == 'Age']
    eq((len(lin), len(main)), (1, 1), 'axes of sequence plot')
    tmax, tmin = max(case['xr']), min(case['xr'])
    cross = 0 < tmin < 1
    eq(len(log), int(cross), 'logarithmic part of age axis')
    if cross:
        lo = 10 ** np.floor(np.log10(tmin))
        close(log[0].get_xlim(), [3., lo], 'logarithmic part', rtol=1e-9)
        close(lin[0].get_xlim(), [np.clip(tmax, 3., 4.5) if tmax > 3 else 3.1, 3.], 'linear part', rtol=1e-9)
    else:
        close(lin[0].get_xlim(), [np.clip(tmax, 3., 4.5), tmin], 'age axis', rtol=1e-9, atol=1e-12)
    seq = [(it, cp) for it, cp in zip(case['items'], evs) if cp.visible and cp.type != 'data']
    n = len(seq)
    texts = Pool(main[0].texts, 'texts')
    pools = [(a, Pool([c for c in a.collections if isinstance(c, PolyCollection)], 'age shapes'), Pool(a.lines, 'age lines')) for a in lin + log]

    for i, (it, cp) in enumerate(seq):
        colour = it['hex'] or cst.PALETTE[it['colour']][case['invert']]
        with quiet(), np.errstate(all='ignore'):
            cp.calculate_age(cps)
        y = (n - i) / (n + 1)

        def edge(c):
            e = c.get_edgecolor()
            return len(e) and rgb(e[0]) == rgb(colour)
        for a, shapes, lines in pools:
            if cp.type in ('c-fit', 'd-fit'):
                def span(c):
                    b = box(c)
                    return edge(c) and np.allclose(b[:2], [min(cp.t[1:]), max(cp.t[1:])], rtol=1e-9, atol=1e-12) and abs((b[2] + b[3]) / 2 - y) < 1e-9
                shapes.take(span, 'bar from %r to %r Ga for %s at height %r' % (cp.t[1], cp.t[2], cp.type, y))
                lines.take(lambda l: np.allclose(l.get_xdata(), [cp.t[0]] * 2, rtol=1e-9, atol=1e-12) and abs(np.mean(l.get_ydata()) - y) < 1e-9
                           and rgb(l.get_color()) == rgb(colour), 'age mark at %r' % cp.t[0])
            else:
                ts = np.asarray(cp.pdf.ts)
                q = [float(e) for e in cp.pdf.t([.0001, .16, .5, .84, .9999])]
                for lo, hi, what in ((q[0], q[4], 'whole distribution'), (q[1], q[3], '1-sigma part'), (q[2], q[2], 'median')):
                    def part(c, lo=lo, hi=hi):
                        b = box(c)
                        return edge(c) and near(ts, b[0], lo) and near(ts, b[1], hi) and abs((b[2] + b[3]) / 2 - y) < 1e-9
                    shapes.take(part, '%s (%r to %r Ga) of age distribution at height %r' % (what, lo, hi, y))
        name = '\n'.join(cp.name.split(r'\n'))
        texts.take(lambda t: t.get_text() == name and t.get_ha() == 'right' and abs(t.get_position()[1] - y) < 1e-9, 'name %r at height %r' % (name, y))
        lab = labels_of(case, cps, cp)
        if lab:
            t = texts.take(lambda t: t.get_ha() == 'left' and abs(t.get_position()[1] - y) < 1e-9 and t.get_position()[0] > 1, 'legend at height %r' % y)
            take(t.get_text(), lab, case, cps, cp, '\n')
    if 'f' in case['legend']:
        s = texts.take(lambda t: 'CF: ' in t.get_text(), 'function legend').get_text().split('\n')
        eq(s[-2:], ['PF: ' + case['system'][0], 'CF: ' + case['system'][1]], 'function legend')
    texts.empty()
    if not case.get('ep'):
        for a, shapes, lines in pools:
            shapes.empty(), lines.empty()
    else:
        for a, shapes, lines in pools:
            eq(len(lines.items), len(cps.ep.time) - 1, 'epoch boundaries')
            close(sorted(float(l.get_xdata()[0]) for l in lines.items), cps.ep.time[1:], 'epoch boundaries', rtol=1e-9)
            close(sorted([float(v) for v in box(c)[:2]] for c in shapes.items), [list(e) for e in zip(cps.ep.time[1:], cps.ep.time[2:])], 'epoch regions', rtol=1e-9)
    ctx.nontrivial(n > 1)
    ctx.label('split axis' if cross else 'linear axis')
    for it, cp in seq:
        ctx.label(cp.type)


def body_chronology(case, ctx):
    d = ctx.tmpdir()
    a = ['-cs', case['sysname'], '-f', 'svg', '-o', os.path.join(d, 'o'), '-pr', case['pr'], '-legend', case['legend'], '-ref_diameter', '%r' % case['ref']]
    if case['ep']:
        a += ['-ep', case['ep']]
    fig = figure(a)
    ax = main_axes(fig)
    pf, cf = gen.pf(case['system'][0]), gen.cf(case['system'][1])
    f = cf.N1 if case['pr'] == 'chronology' else cf.phi
    lines = [l for l in ax.lines if len(l.get_xdata()) > 50]
    lab = {l.get_label(): l for l in lines}
    r = float(pf.evaluate('cumulative', case['ref'], 0.) / pf.evaluate('cumulative', 1., 0.))
    eq(len(lines), 1 if case['ref'] == 1 else 2, 'curves')
    for l in lines:
        t, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        check(t.min() <= 1e-2 and t.max() >= 4.5 and np.all(np.diff(t) > 0), 'curve spans ages %r to %r', t.min(), t.max())
        k = r if case['ref'] != 1 and l.get_label() != 'N(>1 km)' else 1.
        q = t > 0
        close(y[q], k * f(t[q]), 'drawn %s' % case['pr'], rtol=1e-9)
    if case['ref'] != 1:
        eq(sorted(lab), sorted(['N(>%g km)' % case['ref'], 'N(>1 km)']), 'labels of curves')
        eq(sorted(t.get_text() for t in ax.get_legend().get_texts()), sorted(lab), 'legend')
    check('N(>%g km)' % case['ref'] in ax.get_ylabel(), 'axis title %r for N(%g)', ax.get_ylabel(), case['ref'])
    if case['ep']:
        ep = cst.Epochs(gen.FUNCTIONS, case['ep'], pf, cf)
        v = sorted(float(l.get_xdata()[0]) for l in ax.lines if len(l.get_xdata()) == 2)
        close(v, ep.time[1:], 'epoch boundaries', rtol=1e-9)
        T = [t.get_text().strip() for t in ax.texts]
        for t in ep.time[1:]:
            check('%0.3g' % t in T, 'epoch time %0.3g not written: %r', t, T)
        for e in ep.epoch:
            check(e in T, 'epoch %r not named', e)
    ctx.nontrivial(case['ref'] != 1 or bool(case['ep']))
    ctx.label(case['pr'])


@st.composite
def items(draw, seq=False):
    it = draw(c17.item())
    n = it['name']
    it['name'] = n if ',' not in n else n.replace(',', '')
    if draw(st.integers(0, 9)) == 0:
        it['name'] = draw(st.sampled_from(['fit', r'two\nlines', 'Mare (A)']))
    it.update({k: draw(st.sampled_from([a, a, b])) for k, a, b in (('error_bars', 1, 0), ('age_left', 0, 1), ('show_age', 1, 0), ('isochron', 0, 1), ('resurf_showall', 0, 1))})
    it['psym'] = draw(st.integers(0, len(SYMBOLS) - 1))
    it['colour'] = draw(st.integers(0, len(COLOURS) - 1))
    it['hex'] = draw(st.sampled_from([None, None, None, '#12ab9F']))
    it['offset_age'] = draw(st.sampled_from([[0., 0.], [0., 0.], [2., -3.]]))
    if it['binning'] == 'none' and it['type'] == 'd-fit':
        it['binning'] = 'root-2'
    return it


EP_OF = {e['name']: e for e in gen.FUNCTIONS['epochs']}


@st.composite
def count(draw):
    c = draw(c17.count())
    c['name'] = c['name'].replace(',', '')
    c['buffered'] = not c['scc'] and not c['stat'] and draw(st.integers(0, 2)) == 0
    return c


@st.composite
def cases(draw, seq=False):
    s = draw(st.sampled_from([s for s in gen.SYSTEMS if s[0] != "Vesta, Marchi & O'Brien (2014)"] if not seq else [s for s in gen.SYSTEMS if [s[1], s[2]] in c17.SYSTEMS]))
    its = draw(st.lists(items(), min_size=1, max_size=4))
    c = {'sysname': s[0], 'system': [s[1], s[2]], 'counts': draw(st.lists(count(), min_size=1, max_size=3)), 'items': its,
         'ref': draw(st.sampled_from([1., 1., 10., .5, 1.25])), 'mu': draw(st.integers(0, 1)), 'sf': draw(st.sampled_from([3, 2])), 'invert': draw(st.sampled_from([0, 0, 1]))}
    if seq:
        c['pr'] = 'sequence'
        c['legend'] = ''.join(draw(st.lists(st.sampled_from('fAacrN'), unique=True, max_size=6))) or 'A'
        c['xr'] = draw(st.sampled_from([[4.2, .01], [4.2, .01], [4.5, 0], [3.9, 1], [4, 1.5], [2.5, .1], [4.5, 1e-4], [3.5, 2], [4.2, .3], [4, .07], [3.8, .0006]]))
        c['ep'] = draw(st.sampled_from([None, None] + sorted(e for e in EP_OF if e.split(',')[0] == s[0].split(',')[0])))
        return c
    c['pr'] = draw(st.sampled_from(PRES))
    if c['pr'] == 'Hartmann':
        pass
    c['legend'] = draw(st.sampled_from(['fnacr', 'fnacrN', 'n', 'a', 'c', 'r', 'N', 'nc', 'fnap', '0', 'nacrNp']))
    c['isochrons'] = ','.join('%g%s' % (draw(st.sampled_from([4., 3.7, 3.5, 1., .1, .01, 1e-4])), draw(st.sampled_from(['', '', 'h', 'a', 's', 'as', 'ha', 'hs', 'ah', 'sa', 'ash', 'hsa'])))
                              for _ in range(draw(st.sampled_from([0, 0, 1, 3])))) or None
    c['ef'] = draw(st.sampled_from([None, None] + gen.EQUILIBRIA))
    c['ep'] = draw(st.sampled_from([None, None, None] + sorted(e for e in EP_OF if e.split(',')[0] == s[0].split(',')[0])))
    return c


@st.composite
def chron(draw):
    s = draw(st.sampled_from([s for s in gen.SYSTEMS if s[0] != "Vesta, Marchi & O'Brien (2014)"]))
    return {'sysname': s[0], 'system': [s[1], s[2]], 'pr': draw(st.sampled_from(['chronology', 'rate'])), 'legend': draw(st.sampled_from(['f', '0', 'fnacr'])),
            'ref': draw(st.sampled_from([1., 1., 10., .5, 4.])), 'ep': draw(st.sampled_from([None] + sorted(e for e in EP_OF if e.split(',')[0] == s[0].split(',')[0])))}


SUBS = [
    Sub('figure', cases(), body, quick=450, shards=6, rule='two or more visible overplots, or an isochron, equilibrium or epoch overlay'),
    Sub('sequence', cases(True), body_sequence, quick=120, shards=3, rule='two or more ages'),
    Sub('chronology', chron(), body_chronology, quick=80, shards=1, rule='reference diameter other than 1 km or epochs'),
]
