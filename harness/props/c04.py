import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq

PROPERTY = 'C04'
RULE = ('crater lists (with and without fractions, ties, boundary values; also power laws of 60-1500 craters) x binning x presentation x production function, '
        'compared with the published density formulae evaluated from the list itself; non-trivial when at least two '
        'bins are occupied and one holds several craters or a fraction')

PRES = ['cumulative', 'incremental', 'differential', 'R-plot', 'Hartmann']
POLY_PFS = [e['name'] for e in gen.FUNCTIONS['production'] if 'coefficients' in e]


def ref_bins(cc, c, binning):
    """occupied bins computed from the list and the style's boundaries: lo, hi, n, n_event, ncum, ncum_event"""
    d = np.array(c['d'])
    f = np.ones(len(d)) if c['f'] is None else np.array(c['f'])
    if binning == 'none':
        o = np.lexsort((f, d))
        d, f = d[o], f[o]
        n = len(d)
        return d, d, f, np.ones(n), np.array([f[i:].sum() for i in range(n)]), np.arange(n, 0, -1.)
    e = np.asarray(cst.Cratercount().generate_bins(binning, c['d']), float)
    lo, hi = e[:-1], e[1:]
    m = (lo[:, None] <= d) & (d < hi[:, None])
    n, ne = (m * f).sum(axis=1), m.sum(axis=1)
    q = ne > 0
    ncum = np.array([f[d >= l].sum() for l in lo])
    necum = np.array([(d >= l).sum() for l in lo])
    return lo[q], hi[q], n[q], ne[q], ncum[q], necum[q]


def slope_correction(pfname, lo, hi):
    """ratio of the binned to the true differential density for a power law of the local slope"""
    beta = hi / lo
    if pfname:
        pf = gen.pf(pfname)
        k = np.log(pf.evaluate('cumulative', hi) / pf.evaluate('cumulative', lo)) / np.log(beta)
    else:
        k = -3. * np.ones_like(lo)
    # N(>D)=D^k: mean density over the bin / density at the geometric centre
    mean = (lo ** k - hi ** k) / (hi - lo)
    centre = -k * np.sqrt(lo * hi) ** (k - 1)
    return mean / centre


def body_formula(case, ctx):
    c, binning, pres, pfname = gen.expand(case['count']), case['binning'], case['pres'], case['pf']
    if binning == 'none':
        pres = 'cumulative'
    cc = gen.make_count(ctx, c)
    p = cc.getplotdata(pres, binning, pf=gen.pf(pfname) if pfname else None)
    lo, hi, n, ne, ncum, necum = ref_bins(cc, c, binning)
    a = c['area']
    dm = np.sqrt(lo * hi)
    w = hi - lo
    if pres == 'cumulative':
        d, y = lo, ncum / a
        err = y / np.sqrt(necum)
    else:
        d = dm
        if pres == 'incremental':
            y0 = n / a
        elif pres == 'Hartmann':
            y0 = n / w / a * dm * (np.sqrt(2.) - 1.)
        elif pres == 'R-plot':
            y0 = dm ** 3 * n / w / a
        else:
            y0 = n / w / a
        err = y0 / np.sqrt(ne)
        y = y0
        if pres == 'differential':
            y = y0 / slope_correction(pfname, lo, hi)
    close(p['d'], d, pres + ' diameters', rtol=1e-9)
    check(np.all(np.diff(p['d']) >= 0) if binning == 'none' else np.all(np.diff(p['d']) > 0), 'diameters not increasing: %r', p['d'])
    close(p['y'], y, pres + ' densities', rtol=1e-6)
    close(p['err'], err, pres + ' errors', rtol=1e-6)
    close(p['n'], n.sum(), 'n', rtol=1e-9)
    eq(float(p['n_event']), float(ne.sum()), 'n_event')
    eq(p['presentation'], pres, 'presentation')
    if binning != 'none':
        close(p['bin_range'], (lo[0], hi[-1]), 'bin_range', rtol=1e-9)
    ctx.label(pres)
    ctx.nontrivial(len(lo) > 1 and (ne.max() > 1 or c['f'] is not None))


def body_scaling(case, ctx):
    """area enters every density and error inversely; the lattice of plotted bins does not change with area or order"""
    c, binning, pres, s = case['count'], case['binning'], case['pres'], case['scale']
    cc = gen.make_count(ctx, c)
    f = c['f']
    perm = np.random.RandomState(case['perm']).permutation(len(c['d']))
    c2 = {'d': [c['d'][i] for i in perm], 'f': None if f is None else [f[i] for i in perm], 'area': c['area'] * s}
    cc2 = gen.make_count(ctx, c2)
    pf = gen.pf(case['pf'])
    p, p2 = cc.getplotdata(pres, binning, pf=pf), cc2.getplotdata(pres, binning, pf=pf)
    close(p2['d'], p['d'], 'diameters after area scaling', rtol=1e-12)
    close(np.asarray(p2['y']) * s, p['y'], 'densities after area scaling', rtol=1e-9)
    close(np.asarray(p2['err']) * s, p['err'], 'errors after area scaling', rtol=1e-9)
    close(p2['n'], p['n'], 'n', rtol=1e-9)
    eq(float(p2['n_event']), float(p['n_event']), 'n_event')
    ctx.nontrivial(len(p['d']) > 1 and s != 1)


def body_bias(case, ctx):
    beta, k = np.array(case['beta']), np.array(case['k'])
    lo = np.array(case['lo'])
    hi = lo * beta
    mean = (lo ** k - hi ** k) / (hi - lo)
    centre = -k * np.sqrt(lo * hi) ** (k - 1)
    close(cst.bin_bias_correction(beta, k), mean / centre, 'bin bias correction', rtol=1e-6)
    for i in range(len(beta)):
        close(cst.bin_bias_correction(float(beta[i]), float(k[i])), (mean / centre)[i], 'bin bias correction, scalar', rtol=1e-6)
    ctx.nontrivial(len(beta) > 0)


def body_consistent(case, ctx):
    """one set of counts behind all presentations"""
    c, binning = case['count'], case['binning']
    cc = gen.make_count(ctx, c)
    pf = gen.pf(case['pf'])
    order = case['order']
    res = {}
    for p in order:
        res[p] = cc.getplotdata(p, binning, pf=pf)
    inc, cum, R, H, dif = [res[p] for p in ('incremental', 'cumulative', 'R-plot', 'Hartmann', 'differential')]
    w = R['y'] / inc['d'] ** 3 / inc['y']  # 1/width
    close(H['y'], inc['y'] * w * inc['d'] * (2 ** .5 - 1), 'Hartmann vs R-plot', rtol=1e-8)
    close(dif['err'], inc['err'] * w, 'differential error vs incremental', rtol=1e-8)
    close(np.cumsum(inc['y'][::-1])[::-1], cum['y'], 'cumulative vs sum of incremental', rtol=1e-8)
    for p in ('R-plot', 'Hartmann', 'differential'):
        close(res[p]['d'], inc['d'], p + ' diameters', rtol=1e-12)
    check(np.all(cum['d'] < inc['d']), 'cumulative points not at the bin minimum')
    for p in res:
        close(res[p]['n'], inc['n'], 'n ' + p, rtol=1e-12)
        eq(float(res[p]['n_event']), float(inc['n_event']), 'n_event ' + p)
    ctx.nontrivial(len(inc['d']) > 1)


B = st.sampled_from(gen.BINNINGS)
PF = st.sampled_from(POLY_PFS)
SUBS = [
    Sub('formula', st.fixed_dictionaries({'count': gen.counts(), 'binning': st.sampled_from(gen.ALL_BINNINGS),
                                          'pres': st.sampled_from(PRES), 'pf': st.one_of(st.none(), PF)}),
        body_formula, quick=1200, shards=3, rule='>=2 occupied bins, with multiple craters in a bin or fractions'),
    Sub('large', st.fixed_dictionaries({'count': gen.bulk(), 'binning': st.sampled_from(gen.ALL_BINNINGS), 'pres': st.sampled_from(PRES), 'pf': st.one_of(st.none(), PF)}),
        body_formula, quick=250, rule='>=2 occupied bins, with multiple craters in a bin or fractions'),
    Sub('scaling', st.fixed_dictionaries({'count': gen.counts(), 'binning': B, 'pres': st.sampled_from(PRES), 'pf': PF,
                                          'scale': st.sampled_from([.01, .1, .5, 2., 10., 12345.]),
                                          'perm': st.integers(0, 10)}), body_scaling, quick=400, shards=2,
        rule='>=2 occupied bins and a scale other than one'),
    Sub('consistent', st.fixed_dictionaries({'count': gen.counts(), 'binning': B, 'pf': PF,
                                             'order': st.permutations(PRES)}), body_consistent, quick=300, shards=2,
        rule='>=2 occupied bins'),
    Sub('bias', st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries({
        'beta': st.lists(st.integers(101, 1000).map(lambda i: i / 100.), min_size=n, max_size=n),
        'k': st.lists(st.integers(1, 800).map(lambda i: -i / 100.), min_size=n, max_size=n),
        'lo': st.lists(gen.log_diams(), min_size=n, max_size=n)})), body_bias, quick=300, rule='any'),
]
