import numpy as np
import mpmath
from hypothesis import strategies as st

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, Skip

PROPERTY = 'C08'
RULE = ('every built-in production and equilibrium function plus generated user definitions (polynomial of degree 1-19, '
        'tabular root-2) x level (none, zero, random) x diameters; oracle: the defining polynomial/table re-evaluated with '
        'mpmath/numpy and differentiated; non-trivial when the diameters lie inside the valid range')
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann']
QUIRK = 'Vesta, Rev3, Schmedemann et al (2014)'
BW = 2 ** .25 - 2 ** -.25
NAMES = [['production', n] for n in gen.PF_NAMES] + [['equilibrium', n] for n in gen.EQUILIBRIA]


def definition(kind, name):
    return next(e for e in gen.FUNCTIONS[kind] if e['name'] == name)


def build(spec):
    """-> (function object, coefficients or None, table or None)"""
    if spec[0] in ('production', 'equilibrium'):
        de = definition(*spec)
        f = cst.Productionfn(gen.FUNCTIONS, spec[1], equilibrium=spec[0] == 'equilibrium')
        if 'coefficients' in de:
            return f, [float(v) for v in de['coefficients']], None
        return f, None, ([float(v) for v in de['H']], int(de['index_1km']))
    if spec[0] == 'poly':
        txt = 'production={\n name="gen"\n range=[%r, %r]\n coefficients=[%s]\n}' % (
            spec[2][0], spec[2][1], ','.join('%r' % c for c in spec[1]))
        return cst.Productionfn(txt, 'gen'), spec[1], None
    h, i = spec[1], spec[2]
    txt = 'production={\n name="gen"\n type="tabular incremental root-2"\n index_1km=%d\n yrange=[-8,5]\n H=[%s]\n}' % (
        i, ','.join('%.10g' % v for v in h))
    return cst.Productionfn(txt, 'gen'), None, ([float('%.10g' % v) for v in h], i)


def poly_forms(a, a0, d):
    """C and F by mpmath: F = -dC/dD"""
    mpmath.mp.dps = 30
    out = []
    for v in d:
        x = mpmath.log10(mpmath.mpf(v))
        p = mpmath.mpf(a0)
        dp = mpmath.mpf(0)
        for i, c in enumerate(a[1:], 1):
            p += mpmath.mpf(c) * x ** i
            dp += i * mpmath.mpf(c) * x ** (i - 1)
        C = mpmath.mpf(10) ** p
        out.append((float(C), float(-C * dp / mpmath.mpf(v))))
    return np.array(out).T


def natural(p, C, d):
    """size of the terms which cancel in the derivative where the slope is small"""
    return C * {'differential': 1 / d, 'R-plot': d ** 2, 'Hartmann': 1.}[p]


def table_forms(tab, a0, d):
    """C: log-log interpolation of bin sums at bin minima; F, H at bin centres"""
    h, i1 = tab
    h = np.array(h)
    tot = np.array([h[i:].sum() for i in range(len(h))])
    c = tot / tot[i1] * 10 ** a0
    dmin = 2. ** ((np.arange(len(h)) - i1) / 2.)
    dmean = dmin * 2 ** .25
    inc = np.append(c[:-1] - c[1:], c[-1])
    beta = 2 ** .5
    k = np.log(c[:-1] / c[1:]) / np.log(beta)
    k = np.append(k, k[-1])
    bias = (beta ** (k / 2) - beta ** (-k / 2)) / ((beta ** .5 - beta ** -.5) * k)
    F = inc / (dmean * BW) / bias

    def it(x, y):
        return 10 ** np.interp(np.log10(d), np.log10(x), np.log10(y))
    Fd = it(dmean, F)
    return {'cumulative': it(dmin, c), 'differential': Fd, 'R-plot': it(dmean, F * dmean ** 3), 'Hartmann': it(dmean, inc)}


def body_forms(case, ctx):
    f, a, tab = build(case['spec'])
    a0 = case['a0']
    lo, hi = [float(v) for v in f.range]
    d = np.array(sorted(10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * np.array(case['u']))))
    got = {p: np.asarray(f.evaluate(p, d, a0) if a0 is not None else f.evaluate(p, d), float) for p in PRES}
    lev = a0 if a0 is not None else (a[0] if a is not None else 0.)
    if a is not None:
        C, F = poly_forms(a, lev, d)
        want = {'cumulative': C, 'differential': F, 'R-plot': F * d ** 3, 'Hartmann': F * d * BW}
        rt = 1e-6
    else:
        want = table_forms(tab, lev, d)
        rt = 1e-6
    scale = {}
    for p in PRES:
        close(got[p], want[p], '%s form at level %r' % (p, a0), rtol=rt, atol=0 if p == 'cumulative' or a is None else 1e-9 * natural(p, C, d))
        one = [float(f.evaluate(p, float(v), a0)) if a0 is not None else float(f.evaluate(p, float(v))) for v in d]
        close(one, got[p], p + ' form for single diameters', rtol=1e-12)
    close(got['R-plot'], got['differential'] * d ** 3, 'R vs differential', rtol=1e-9)
    if a is not None:
        close(got['Hartmann'], got['differential'] * d * BW, 'Hartmann vs differential', rtol=1e-9)
    # all forms scale as 10^a0
    s = case['shift']
    for p in PRES:
        close(f.evaluate(p, d, lev + s), got[p] * 10 ** s, p + ' form at shifted level', rtol=1e-8)
    if case['spec'][0] in ('production', 'equilibrium'):
        if f.name == QUIRK and not case.get('strict'):  # recorded finding: its polynomial turns over at the lower end
            ok = d > .0042
        else:
            ok = d > 0
        for p in PRES:
            check(np.all(got[p][ok] > 0), '%s form of %s not positive in its range: %r at %r', p, f.name, got[p], d)
        check(np.all(np.diff(got['cumulative'][ok]) <= 0), 'cumulative density of %s increases with diameter', f.name)
    ctx.nontrivial(len(d) > 1)
    ctx.label('level none' if a0 is None else 'level zero' if a0 == 0 else 'level given')
    ctx.label(case['spec'][0] + ('' if a is not None else ' tabular'))


def body_derivative(case, ctx):
    """integral of the differential form between two diameters is the difference of the cumulative form"""
    from scipy.integrate import quad
    f, a, tab = build(case['spec'])
    lo, hi = [float(v) for v in f.range]
    u = sorted(case['u'])
    d1, d2 = [10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * v) for v in u]
    a0 = case['a0']
    if d2 / d1 < 1.001:
        raise Skip()
    I = quad(lambda x: float(f.evaluate('differential', 10 ** x, a0)) * 10 ** x * np.log(10), np.log10(d1), np.log10(d2),
             epsrel=1e-8, epsabs=0, limit=400)[0]
    C = f.evaluate('cumulative', np.array([d1, d2]), a0)
    if a is not None:
        close(I, C[0] - C[1], 'integral of differential form over %r-%r' % (d1, d2), rtol=1e-5, atol=1e-12 * C[0])
    elif d2 / d1 > 2:
        check(.85 < I / (C[0] - C[1]) < 1.15, 'integral of tabular differential form %r vs %r', I, C[0] - C[1])
    ctx.nontrivial()


def body_plot(case, ctx):
    f, a, tab = build(case['spec'])
    lo, hi = [float(v) for v in f.range]
    p, a0, r = case['pres'], case['a0'], case['range']
    k = {}
    if a0 is not None:
        k['a0'] = a0
    if r is not None:
        k['range'] = list(r)
    g = f.getplotdata(p, **k)
    d, y = np.asarray(g['d'], float), np.asarray(g['y'], float)
    eq(g['presentation'], p, 'presentation')
    eq(d.shape, y.shape, 'shape of curve')
    e = np.clip(r if r is not None else [lo, hi], lo, hi)
    close([d[0], d[-1]], e, 'ends of curve', rtol=1e-6)
    check(np.all(np.diff(d) >= 0), 'curve diameters not increasing')
    check(np.all((d >= lo * (1 - 1e-6)) & (d <= hi * (1 + 1e-6))), 'curve leaves the valid range %r', (lo, hi))
    check(len(d) >= 20, 'curve of %d points', len(d))
    lev = a0 if a0 is not None else (a[0] if a is not None else 0.)
    if a is not None:
        C, F = poly_forms(a, lev, d[::19])
        w = {'cumulative': C, 'differential': F, 'R-plot': F * d[::19] ** 3, 'Hartmann': F * d[::19] * BW}[p]
    else:
        w = table_forms(tab, lev, d[::19])[p]
    # ranges of built-in functions are single precision; where the slope crosses zero compare on the scale of the terms
    close(y[::19], w, 'curve', rtol=2e-5, atol=0 if p == 'cumulative' or a is None else 1e-5 * natural(p, C, d[::19]))
    ctx.nontrivial(e[1] > e[0])


DIG = st.integers(-400000, 400000).map(lambda i: i / 100000.)
LEVEL = st.one_of(st.none(), st.just(0.), st.just(0), st.integers(-8000, 3000).map(lambda i: i / 1000.))


@st.composite
def polys(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(2, 20)))
    lo = draw(st.integers(-20, 5)) / 10.
    hi = lo + draw(st.integers(3, 25)) / 10.
    X = draw(st.sampled_from([10., max(abs(lo), abs(hi))]))  # high terms negligible or as large as the others
    a = [draw(DIG)] + [-abs(draw(DIG)) - .01] + [draw(DIG) / X ** i / 5 for i in range(2, n)]
    return ['poly', a, [gen.r6(10 ** lo), gen.r6(10 ** hi)]]


@st.composite
def tables(draw):
    n = draw(st.integers(4, 25))
    s = draw(st.lists(st.integers(20, 700), min_size=n, max_size=n))
    h = 10 ** (2. - np.cumsum(np.array(s) / 1000.))
    return ['table', [gen.r6(v, 8) for v in h], draw(st.integers(0, n - 1))]


SPEC = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), polys(), tables())
U = st.integers(0, 1000).map(lambda i: i / 1000.)
SUBS = [
    Sub('forms', st.fixed_dictionaries({'spec': SPEC, 'a0': LEVEL, 'u': st.lists(U, min_size=2, max_size=8, unique=True),
                                        'shift': st.integers(-40, 40).map(lambda i: i / 10.)}), body_forms, quick=900, shards=3,
        rule='several diameters in the valid range',
        examples=[{'spec': n, 'a0': a, 'u': [0., .3, .5, 1.], 'shift': .5} for n in NAMES for a in (None, 0., -3.)]),
    Sub('derivative', st.fixed_dictionaries({'spec': SPEC, 'a0': LEVEL.filter(lambda v: v is not None), 'u': st.lists(U, min_size=2, max_size=2, unique=True)}),
        body_derivative, quick=120, shards=2, rule='all'),
    Sub('plot', st.fixed_dictionaries({'spec': SPEC, 'pres': st.sampled_from(PRES), 'a0': LEVEL,
                                       'range': st.one_of(st.none(), st.tuples(gen.log_diams(-5, 4), gen.log_diams(-5, 4)).map(sorted))}),
        body_plot, quick=400, shards=2, rule='non-empty diameter range'),
]
