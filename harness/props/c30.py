"""C30: figures come out in the size and style asked for."""
import os
import re
import struct
from unittest import mock

import numpy as np
from hypothesis import strategies as st
from matplotlib.image import imread
import matplotlib.colors as mc
import matplotlib.text as mt

import craterstats as cst
import craterstats.cli as cli
from .. import gen, sphere
from ..core import Sub, check, close, eq, quiet
from ..draw import figure, figures, main_axes

PROPERTY = 'C30'
RULE = ('command lines for every presentation with print dimensions (cm per decade or enclosing box), axis ranges, point size, titles, inversion, '
        'halo, transparency and output formats; oracle: the documented dimensions measured on the figure, on the axes and in the saved files, and '
        'metamorphic relations between a figure and its rescaled or inverted version; non-trivial when dimensions or style differ from the defaults')
CRATER = ['cumulative', 'differential', 'R-plot', 'Hartmann']
PRES = CRATER + ['chronology', 'rate', 'sequence', 'uncertainty']
CM = 2.54
RA = 'n_sigma = {bin, m2cnd, sdaa\n0 -1.306 4.25\n.5 2.1 -\n1 .3 -1.\n}\nm2cnd = {\nn_trials = 300\ntrials = {index, 0, .5, 1\n0 1 1 1\n}\n}\n' \
     'sdaa = {\nn_trials = 300\ntrials = {index, 0, .5, 1\n0 1 1 1\n}\n}\n'


def argline(case, d, **over):
    c = dict(case, **over)
    a = ['-cs', c['cs'], '-pr', c['pr'], '-f'] + (c.get('fmt') or ['svg']) + ['-o', os.path.join(d, 'o')]
    if c['pd'] is not None:
        a += ['-pd', c['pd']]
    if c['pt'] is not None:
        a += ['-pt_size', '%r' % c['pt']]
    for k in ('xr', 'yr'):
        if c[k] is not None:
            a += ['-xrange' if k == 'xr' else '-yrange'] + ['%r' % e for e in c[k]]
    if c['title']:
        a += ['-title', c['title']]
    for k in ('invert', 'halo', 'transparent', 'tight'):
        if c.get(k) is not None:
            a += ['-' + {'halo': 'text_halo'}.get(k, k), str(c[k])]
    if c['style'] is not None:
        a += ['-style', c['style']]
    if c['pr'] == 'uncertainty':
        a += ['-ns', '3', '-d_min', '1']
    if c['font'] is not None:
        a += ['--font', c['font']]
    if c['bins']:
        a += ['-b']
    if c['ep']:
        a += ['-ep', c['ep']]
    if c['iso']:
        a += ['-isochrons', c['iso']]
    if c['pr'] not in ('chronology', 'rate', 'uncertainty'):
        f = os.path.join(d, 'count.diam')
        if not os.path.exists(f):
            gen.write_diam(f, c['diam'], area=c['area'])
            if c['ra']:  # randomness results found beside the count are drawn above it
                with open(os.path.join(d, 'count_ra.txt'), 'w') as g:
                    g.write(RA)
                gen.write_diam(os.path.join(d, 'other.diam'), c['diam'], area=c['area'])
        for i, t in enumerate(c['types']):
            a += ['-p', 'src=%s,type=%s,psym=%s,name=n%d,range=[%g,%g]%s' % (f, t, cst.MARKERS[c['psym'][i % len(c['psym'])]][0], i, c['range'][0], c['range'][1],
                                                                             ',isochron=1' if c['isochron'] else '')]
        if c['ra']:
            a += ['-ra_show', '1', '-p', 'src=%s,type=data,psym=%s,name=other' % (os.path.join(d, 'other.diam'), cst.MARKERS[c['psym'][0]][0])]
    return a


def frame(fig, pr):
    """position of the plot area in cm: left, bottom, width, height"""
    if pr in ('sequence', 'uncertainty'):
        c = [a for a in fig.axes if a.get_xlabel() in ('Age', 'Actual age')]
        eq(len(c), 1, 'number of plot areas')
        ax = c[0]
    else:
        ax = main_axes(fig)
    w, h = (float(e) * CM for e in fig.get_size_inches())
    b = ax.get_position()
    return ax, np.array([b.x0 * w, b.y0 * h, b.width * w, b.height * h]), (w, h)


def decades(ax, case):
    x, y = ax.get_xlim(), ax.get_ylim()
    return abs(x[1] - x[0]), abs(np.log10(y[1] / y[0])) if y[0] > 0 else 1


def all_figures(case, d, **over):
    got = figures(argline(case, d, **over))
    eq(len(got), 3 if case['pr'] == 'uncertainty' else 1, 'number of figures')
    return [g[1] for g in got]


def dimensions(case, ctx):
    d = ctx.tmpdir()
    pr = case['pr']
    pd = case['pd'] if case['pd'] is not None else '7.5x7.5'
    ctx.nontrivial(case['pd'] is not None)
    ctx.label(pr)
    ctx.label('box' if 'x' in pd else 'cm per decade')
    for fig in all_figures(case, d):
        ax, (x, y, w, h), (W, H) = frame(fig, pr)
        dx, dy = decades(ax, case)
        what = '%s, print dimensions %s, ranges %r %r' % (pr, pd, case['xr'], case['yr'])
        if 'x' not in pd:
            s = float(pd)
            if pr in ('sequence', 'uncertainty'):
                close((w, h), (5 * s, 5 * s), what + ': plot area', rtol=1e-6)
            else:
                close(w / dx, s, what + ': cm per decade along the axis', rtol=1e-6)
                if pr in ('cumulative', 'R-plot'):
                    close(h / dy, s, what + ': cm per decade of density', rtol=1e-6)
                elif pr == 'differential':
                    close(h / dy, s / 2, what + ': cm per two decades of density', rtol=1e-6)
                else:
                    close(h, w, what + ': square plot area', rtol=1e-6)
        else:
            A, B = (float(e) for e in pd.split('x'))
            if pr in ('sequence', 'uncertainty'):
                close((w, h), (A, B), what + ': plot area', rtol=1e-6)
            else:
                check(w <= A * (1 + 1e-6) and h <= B * (1 + 1e-6), '%s: plot area %gx%g cm exceeds its box', what, w, h)
                check(w >= A * (1 - 1e-6) or h >= B * (1 - 1e-6), '%s: plot area %gx%g cm does not fill its box', what, w, h)
                want = (1 if pr in ('cumulative', 'R-plot') else .5 if pr == 'differential' else dx / dy)
                close((h / dy) / (w / dx), want, what + ': proportions of the axes', rtol=1e-6)
        m = [x, y, W - x - w, H - y - h]
        check(min(m) > 0, '%s: plot area %r cm outside figure of %r cm', what, (x, y, w, h), (W, H))
        close(m, [m[0]] * 4, what + ': margins', rtol=1e-6)
        close(m[0] / (case['pt'] or 9.), .2, what + ': margin, cm per point', rtol=1e-6)
        for a in fig.axes:  # every part of a split age axis within the frame, whole frame used
            p = a.get_position()
            if a.get_xlabel() == '' and pr == 'sequence':
                check(p.x0 * W >= x - 1e-6 and p.x1 * W <= x + w + 1e-6, '%s: part of the axis outside the plot area', what)
        if pr == 'sequence':
            q = sorted((float(a.get_position().x0), float(a.get_position().x1)) for a in fig.axes if a.xaxis.get_visible() and len(a.xaxis.get_majorticklocs()) and a.get_xlabel() == '' and a.axison)
            close((min(e[0] for e in q) * W, max(e[1] for e in q) * W), (x, x + w), what + ': extent of the age axis', rtol=1e-6)
            close([e[0] for e in q[1:]], [e[1] for e in q[:-1]], what + ': parts of the age axis', rtol=1e-6)
        # axis limits as asked
        if pr in CRATER[:3] and case['xr']:
            close(ax.get_xlim(), case['xr'], what + ': diameter axis', atol=1e-9)
        if pr in ('chronology', 'rate'):
            close(ax.get_xlim(), case['xr'] or cst.DEFAULT_XRANGE[pr], what + ': age axis', atol=1e-9)
        if pr not in ('sequence', 'uncertainty', 'Hartmann') and (case['yr'] or pr in ('chronology', 'rate')):
            close(np.log10(ax.get_ylim()), case['yr'] or cst.DEFAULT_YRANGE[pr], what + ': density axis', atol=1e-9)


# ---- styling ---------------------------------------------------------------------------------------------------------------

def texts(fig):
    """every text that is shown: (string, size)"""
    for a in fig.axes:
        a.get_xticklabels(), a.get_yticklabels()
    out = []
    for t in fig.findobj(mt.Text):
        if t.get_text() and t.get_visible():
            out.append(t)
    return out


def style(case, ctx):
    d = ctx.tmpdir()
    pr = case['pr']
    ctx.label(pr)
    inv = case['invert'] or 0
    ctx.nontrivial(bool(inv) or bool(case['title']) or case['pt'] is not None)
    bg, fg = ('black', 'white') if inv else ('white', 'black')
    figs = all_figures(case, d)
    for fig in figs:
        ax, _, _ = frame(fig, pr)
        # titles and axis titles
        check(ax.get_title() == '\n'.join(case['title'].split('|')) if case['title'] else ax.get_title() == '', 'title %r for %r', ax.get_title(), case['title'])
        eq(ax.get_xlabel(), {'chronology': 'Age, Ga', 'rate': 'Age, Ga', 'sequence': 'Age', 'uncertainty': 'Actual age'}.get(pr, 'Diameter'), 'axis title')
        if pr not in ('sequence', 'uncertainty'):
            y = ax.get_ylabel()
            want = {'cumulative': 'Cumulative', 'differential': 'Differential', 'R-plot': 'Relative', 'Hartmann': 'Craters per', 'chronology': 'Cumulative',
                    'rate': 'Crater formation rate'}[pr]
            unit = {'cumulative': 'km$^{-2}$', 'differential': 'km$^{-3}$', 'R-plot': '(R)', 'Hartmann': 'km$^{-2}$', 'chronology': 'km$^{-2}$', 'rate': 'km$^{-2}$ Ga$^{-1}$'}[pr]
            check(y.startswith(want) and y.endswith(unit), 'density axis title %r of %s', y, pr)
        # background
        eq(mc.to_rgb(fig.get_facecolor()), mc.to_rgb(bg), 'figure background')
        for t in (ax.title, ax.xaxis.label, ax.yaxis.label):
            if t.get_text():
                eq(mc.to_rgb(t.get_color()), mc.to_rgb(fg), 'colour of axis titles')
        for a in fig.axes:
            for s in a.spines.values():
                if s.get_visible() and a is ax:
                    eq(mc.to_rgb(s.get_edgecolor()), mc.to_rgb(fg), 'colour of frame')
        # halo
        leg = ax.get_legend()
        halo = case['halo'] if case['halo'] is not None else 0 if pr in ('uncertainty', 'sequence', 'chronology', 'rate') else 1
        if leg is not None:
            for t in leg.get_texts():
                e = t.get_path_effects()
                eq(bool(e), bool(halo), 'halo of legend')
                if e:
                    eq(mc.to_rgb(e[0]._gc['foreground']), mc.to_rgb(bg), 'halo colour')
        # font
        for t in texts(fig):
            fam = t.get_fontfamily()
            check((case['font'] or 'Open Sans') in fam, 'text %r in font %r', t.get_text(), fam)
    # scaling of text with point size
    pt = case['pt'] or 9.
    k = case['k']
    for fig, fig2 in zip(figs, all_figures(case, d, pt=pt * k)):
        t1, t2 = ([(t.get_text(), float(t.get_size())) for t in texts(f)] for f in (fig, fig2))
        t1, t2 = sorted(t1), sorted(t2)
        if [s for s, z in t1] != [s for s, z in t2]:
            continue  # different ticks fit
        for (s, z), (_, z2) in zip(t1, t2):
            close(z2 / z, k, 'size of text %r with point size %r and %r: ratio' % (s, pt, pt * k), rtol=1e-6)
        ax, p, _ = frame(fig, pr)
        ax2, p2, _ = frame(fig2, pr)
        close(p2[2:], p[2:], 'plot area with another point size', rtol=1e-6)
        close(ax.title.get_size() / pt, ax2.title.get_size() / (pt * k), 'title size', rtol=1e-6)
    if pr in CRATER and case['types']:
        # symbols scale with the plot
        def sizes(f):
            return sorted(float(l.get_markersize()) for l in main_axes(f).lines if l.get_marker() not in (None, 'None', ''))
        pd = case['pd'] or '7.5x7.5'
        pd2 = 'x'.join('%r' % (float(e) * k) for e in pd.split('x'))
        s1, s2 = sizes(figs[0]), sizes(all_figures(case, d, pd=pd2)[0])
        check(len(s1) >= 1, 'no symbols plotted')
        rel = [float(l.get_markersize()) for l in main_axes(figs[0]).lines if l.get_marker() not in (None, 'None', '')]
        sym = [case['psym'][i % len(case['psym'])] for i in range(len(case['types']))] + [case['psym'][0]] * bool(case['ra'])
        sym.reverse()  # first overplot is drawn last, on top
        if len(rel) == len(sym):
            own = [cst.MARKERS[j][2]['markersize'] for j in sym]
            close([r / o for r, o in zip(rel, own)], [rel[-1] / own[-1]] * len(own), 'relative sizes of symbols %r' % [cst.MARKERS[j][1] for j in sym], rtol=1e-6)
        close(s2, [e * k for e in s1], 'symbol sizes with print dimensions %s and %s' % (pd, pd2), rtol=1e-6)


def describe(fig):
    """artists of a figure"""
    out = []
    for a in fig.axes:
        q = [tuple(np.round(a.get_position().bounds, 9)), a.get_xscale(), a.get_yscale(), tuple(a.get_xlim()), tuple(a.get_ylim()), a.get_title(), a.get_xlabel(), a.get_ylabel()]
        for l in a.lines:
            q.append(('line', np.round(np.asarray(l.get_xdata(), float), 9).tolist(), np.asarray(l.get_ydata(), float).tolist(), str(l.get_color()), l.get_lw(),
                      l.get_markersize(), l.get_markeredgewidth(), l.get_linestyle(), l.get_label() if not str(l.get_label()).startswith('_') else ''))
        for t in a.texts:
            q.append(('text', t.get_text(), float(t.get_size()), np.round(t.get_position(), 9).tolist(), str(t.get_color())))
        for p in a.patches:
            q.append(('patch', type(p).__name__, tuple(p.get_facecolor())))
        q.append(('collections', len(a.collections), len(a.images)))
        l = a.get_legend()
        q.append(('legend', [t.get_text() for t in l.get_texts()] if l else None))
        out.append(repr(q))
    return out


def redraw(case, ctx):
    """drawing again, or after other plots, gives the same figure"""
    d = ctx.tmpdir()
    ctx.label(case['pr'])
    a = argline(case, d)
    # through the program's own construction, stopping before the files are written
    got = []

    def keep(*a, **k):
        got.extend(e for e in [*a, *k.values()] if isinstance(e, cst.Craterplotset))
    with mock.patch.object(cli, 'write_output_files', keep), quiet():
        cli.main([str(e) for e in a])
    eq(len(got), 1, 'plot sets')
    cps = got[0]
    with quiet():
        cps.draw()
        first = describe(cps.fig)
        size = tuple(cps.fig.get_size_inches())
        for i in range(case['times']):
            cps.draw()
            eq(tuple(cps.fig.get_size_inches()), size, 'size of figure drawn again')
            again = describe(cps.fig)
            for x, y in zip(first, again):
                check(x == y, 'figure drawn again (%s, %d) differs: %s then %s', case['pr'], i + 2, *difference(x, y))
            eq(len(first), len(again), 'number of axes drawn again')
    ctx.nontrivial(bool(case['types']))


def difference(x, y):
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
    return x[max(0, i - 80):i + 60], y[max(0, i - 80):i + 60]


# ---- files -----------------------------------------------------------------------------------------------------------------

def png_size(b):
    check(b[:8] == b'\x89PNG\r\n\x1a\n', 'not a png file')
    w, h = struct.unpack('>II', b[16:24])
    i = b.find(b'pHYs')
    return w, h, struct.unpack('>II', b[i + 4:i + 12]) if i > 0 else None


def tif(b):
    """size and resolution from the first directory"""
    e = {b'II': '<', b'MM': '>'}[b[:2]]
    off, = struct.unpack(e + 'I', b[4:8])
    n, = struct.unpack(e + 'H', b[off:off + 2])
    v = {}
    for i in range(n):
        tag, typ, cnt = struct.unpack(e + 'HHI', b[off + 2 + 12 * i:off + 10 + 12 * i])
        raw = b[off + 10 + 12 * i:off + 14 + 12 * i]
        if typ == 3:
            v[tag] = struct.unpack(e + 'H', raw[:2])[0]
        elif typ == 4:
            v[tag] = struct.unpack(e + 'I', raw)[0]
        elif typ == 5:
            o, = struct.unpack(e + 'I', raw)
            p, q = struct.unpack(e + 'II', b[o:o + 8])
            v[tag] = p / q
    return v[256], v[257], (v.get(282), v.get(283))


def files(case, ctx):
    d = ctx.tmpdir()
    pr = case['pr']
    ctx.label(pr)
    fig = all_figures(case, d, fmt=None)[0]
    ax, (x, y, w, h), (W, H) = frame(fig, pr)
    with quiet():
        cli.main([str(e) for e in argline(case, d)])
    names = sorted(n for n in os.listdir(d) if n != 'count.diam' and not n.endswith('.cs'))
    tags = ['_k', '_err', '_age'] if pr == 'uncertainty' else ['']
    eq(names, sorted('o' + t + '.' + f for f in case['fmt'] for t in tags), 'files')
    ctx.nontrivial(len(case['fmt']) > 1 or bool(case.get('transparent')))
    bg = 0. if case['invert'] else 1.
    for n in names:
        f = n.split('.')[-1]
        ctx.label(f)
        b = open(os.path.join(d, n), 'rb').read()
        if f == 'svg':
            s = b.decode('utf8')
            m = re.search(r'<svg[^>]*?width="([\d.]+)pt" height="([\d.]+)pt"', s, re.S)
            check(m is not None, 'svg without size')
            close([float(e) / 72 * CM for e in m.groups()], (W, H), 'size of svg, cm', rtol=1e-4)
        elif f == 'pdf':
            check(b[:5] == b'%PDF-' and b.rstrip().endswith(b'%%EOF'), 'pdf file incomplete')
            m = re.search(rb'/MediaBox \[ ?([\d.]+) ([\d.]+) ([\d.]+) ([\d.]+) ?\]', b)
            check(m is not None, 'pdf without size')
            v = [float(e) / 72 * CM for e in m.groups()]
            close((v[2] - v[0], v[3] - v[1]), (W, H), 'size of pdf, cm', rtol=1e-4)
        else:
            pw, ph, res = png_size(b) if f == 'png' else tif(b)
            for a, q in ((pw, W), (ph, H)):
                check(abs(a - q / CM * 500) <= 1.01, '%s of %d pixels for %g cm at 500 dpi', f, a, q)
            if res:
                want = 500 / .0254 if f == 'png' else 500
                check(all(abs(e - want) < .001 * want for e in res), '%s resolution %r', f, res)
            if f == 'png':
                im = imread(os.path.join(d, n))
                check(im.shape[2] == 4, 'png of %r', im.shape)
                c = im[3, 3]
                if case.get('transparent'):
                    check(c[3] == 0, 'corner of transparent figure %r', c.tolist())
                else:
                    check(c.tolist() == [bg, bg, bg, 1.], 'corner of figure %r', c.tolist())
                # the inside of the frame is opaque in either case
                i0, i1 = int((x + .02) / CM * 500), int((x + w - .02) / CM * 500)
                j0, j1 = ph - int((y + h - .02) / CM * 500), ph - int((y + .02) / CM * 500)
                inside = im[j0:j1:7, i0:i1:7, 3]
                check(inside.size and inside.min() == 1., 'plot area not opaque: %g', inside.min())
                if not case['bins'] and pr != 'uncertainty':
                    flat = im[j0:j1, i0:i1, :3].reshape(-1, 3)
                    check(np.any(np.all(flat == bg, axis=1)), 'no background in the plot area')


def map_dims(case, ctx):
    d = ctx.tmpdir()
    src = os.path.join(d, 'a.scc')
    la, w = case['lat'], case['w']
    rows = [(1, 'ext', x, y) for x, y in [(0., la), (w, la), (w, la + 3.), (0., la + 3.)]]
    sphere.write_scc(src, 1737.4, rows, [(5., 1., w / 2, la + 1.5)])
    pd = case['pd'] or '7.5x7.5'
    a = ['--convert', 'svg', src, '-o', os.path.join(d, 'o')]
    for k, o in (('pd', '-pd'), ('pt', '-pt_size'), ('invert', '-invert')):
        if case[k] is not None:
            a += [o, str(case[k])]
    fig = figure(a)
    A, B = (float(e) for e in pd.split('x')) if 'x' in pd else (5 * float(pd),) * 2
    m = .2 * (case['pt'] or 9.)
    W, H = (float(e) * CM for e in fig.get_size_inches())
    close((W, H), (A + 2 * m, B + 2 * m), 'size of map figure with print dimensions %s' % pd, rtol=1e-6)
    b = fig.axes[0].get_position(original=True)
    close((b.x0 * W, b.y0 * H, b.width * W, b.height * H), (m, m, A, B), 'map area in the figure', rtol=1e-6)
    eq(mc.to_rgb(fig.get_facecolor()), mc.to_rgb('black' if case['invert'] else 'white'), 'map background')
    ctx.nontrivial(case['pd'] is not None)


# ---- generators ------------------------------------------------------------------------------------------------------------

R = lambda a, b, n=1: st.integers(int(a * 10 ** n), int(b * 10 ** n)).map(lambda v: v / 10 ** n)  # noqa: E731


MIX = CRATER * 3 + ['chronology', 'rate', 'sequence'] * 3 + ['uncertainty']


@st.composite
def cases(draw, pres=MIX):
    pr = draw(st.sampled_from(pres))
    c = {'pr': pr, 'cs': draw(st.sampled_from(['neukum83', 'Mars, Neukum-Ivanov (2001)'])), 'pd': None, 'pt': None, 'xr': None, 'yr': None, 'title': draw(st.sampled_from(['', '', 'Title', 'Two|lines', 'a, b|c=d|e'])),
         'invert': draw(st.sampled_from([None, 0, 1])), 'halo': draw(st.sampled_from([None, 0, 1])), 'style': draw(st.sampled_from([None, None, 'natural', 'root-2'])),
         'font': draw(st.sampled_from([None, None, None, 'DejaVu Sans', 'Noto Sans'])), 'bins': 0, 'ep': None, 'iso': None, 'isochron': draw(st.integers(0, 1))}
    if draw(st.booleans()):
        c['pt'] = draw(R(5, 14))
    kind = draw(st.sampled_from(['default', 'scale', 'box', 'box']))
    if kind == 'scale':
        c['pd'] = '%g' % draw(R(1, 4, 2))
    elif kind == 'box':
        c['pd'] = '%gx%g' % (draw(R(5, 20)), draw(R(5, 20)))
    if pr in CRATER:
        if draw(st.booleans()):
            a = draw(R(-4, 0))
            c['xr'] = [a, a + draw(R(1, 6))]
        if draw(st.booleans()):
            a = draw(R(-8, 0))
            c['yr'] = [a, a + draw(R(2, 10))]
        if draw(st.booleans()):
            c['iso'] = draw(st.sampled_from(['1', '.1,3.5a', '1s,3h']))
        if draw(st.booleans()):
            c['ep'] = 'wilh'
        c['bins'] = draw(st.sampled_from([0, 0, 1]))
    elif pr in ('chronology', 'rate'):
        if draw(st.booleans()):
            c['xr'] = [draw(R(3, 4.5)), draw(R(0, 2))]
        if draw(st.booleans()):
            a = draw(R(-8, -3))
            c['yr'] = [a, a + draw(R(2, 7))]
    elif pr == 'sequence' and draw(st.booleans()):
        c['xr'] = [draw(R(3, 4.5)), draw(st.sampled_from([0., .01, .1, .5, 1.5]))]
    if pr == 'sequence':
        c['types'] = draw(st.lists(st.sampled_from(['poisson', 'c-fit', 'd-fit']), min_size=1, max_size=3))
    else:
        c['types'] = draw(st.lists(st.sampled_from(['data', 'poisson', 'c-fit', 'd-fit']), min_size=1, max_size=3))
    c['psym'] = draw(st.lists(st.integers(0, 14), min_size=1, max_size=3))
    n = draw(st.integers(5, 30))
    c['diam'] = [1.05 * 1.08 ** i for i in range(n)]
    c['area'] = draw(st.sampled_from([1e4, 1e5]))
    c['range'] = [1., 16.]
    c['ra'] = pr in CRATER and draw(st.sampled_from([False, False, True]))
    if c['ra']:
        c['types'] = ['data'] + c['types'][:2]
    c['k'] = draw(st.sampled_from([.5, 1.5, 2.]))
    c['times'] = draw(st.integers(1, 3))
    return c


@st.composite
def file_cases(draw):
    c = draw(cases())
    c['ra'] = False
    c['fmt'] = draw(st.lists(st.sampled_from(['png', 'png', 'svg', 'pdf', 'tif']), min_size=1, max_size=2, unique=True))
    c['invert'] = draw(st.sampled_from([None, 1, 1]))
    c['transparent'] = draw(st.sampled_from([None, 0, 1, 1]))
    c['pd'] = draw(st.sampled_from(['1', '1.2', '3x3', '4x3', '3x5']))
    return c


MAPS = st.fixed_dictionaries({'lat': R(-60, 60), 'w': R(1, 10), 'pd': st.one_of(st.none(), R(1, 4).map('{:g}'.format), st.tuples(R(5, 20), R(5, 20)).map(lambda t: '%gx%g' % t)),
                              'pt': st.one_of(st.none(), R(5, 14)), 'invert': st.sampled_from([None, 0, 1])})

SUBS = [
    Sub('dimensions', cases(), dimensions, quick=240, rule=RULE),
    Sub('style', cases(), style, quick=90, rule=RULE),
    Sub('redraw', cases(pres=CRATER + ['chronology', 'rate', 'sequence']), redraw, quick=100, rule=RULE),
    Sub('map', MAPS, map_dims, quick=60, rule=RULE),
    Sub('files', file_cases(), files, quick=64, rule=RULE),
]
