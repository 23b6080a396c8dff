import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, expect_exit, quiet, Skip

PROPERTY = 'C10'
RULE = ('generated point sets (1-40 points, 0.05-2 decades, random errors) on and off isochrons of every production function, '
        'ideal crater lists constructed to lie on an isochron, and random crater lists x all systems x ranges x fit types; '
        'oracle: closed-form weighted mean of log density offsets; non-trivial with two or more points')
LIM = .98


def g(pf, pres, d):
    """log10 of the form at level 0"""
    return np.log10(pf.evaluate(pres, np.asarray(d, float), 0.))


def ref_fit(pf, pres, d, y, err):
    d, y, err = [np.asarray(v, float) for v in (d, y, err)]
    w = y if pres == 'cumulative' else err
    o = np.log10(y) - g(pf, pres, d)
    a = np.sum(w * o) / np.sum(w)
    with np.errstate(all='ignore'):
        return np.array([a, a + np.log10((y[0] - LIM * min(err[0], y[0])) / y[0]), a + np.log10((y[0] + LIM * err[0]) / y[0])])


def points(case, pf):
    lo, hi = [float(v) for v in pf.range]
    if case['pres'] == 'differential':
        lo, hi = lo * 1.3, hi / 1.3
    d = np.array(sorted(10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * np.array(case['u']) / 1000.)))
    return d


def ok_points(pf, pres, d):
    with np.errstate(all='ignore'):
        v = pf.evaluate(pres, d, 0.)
    if not (np.all(np.isfinite(v)) and np.all(v > 0)):
        raise Skip()


def body_on(case, ctx):
    pf = gen.pf(case['pf'])
    pres, a0 = case['pres'], case['a0']
    d = points(case, pf)
    ok_points(pf, pres, d)
    y = 10 ** (g(pf, pres, d) + a0)
    err = y * np.array([case['rel'][i % len(case['rel'])] for i in range(len(d))])
    before = y.copy(), d.copy(), err.copy()
    a = np.asarray(pf.fit({'presentation': pres, 'd': d, 'y': y, 'err': err}), float)
    close(a[0], a0, 'level fitted to points on an isochron', rtol=0, atol=2e-5)
    close(a, ref_fit(pf, pres, d, y, err), 'fit and limits', rtol=0, atol=2e-5)
    check(a[1] <= a[0] <= a[2], 'limits %r do not bracket the fit', a.tolist())
    eq([v.tolist() for v in before], [y.tolist(), d.tolist(), err.tolist()], 'caller arrays')
    if case['cf'] is not None:
        cf = gen.cf(case['cf'])
        t = case['t']
        a0 = float(cf.a0(t))
        y = 10 ** (g(pf, pres, d) + a0)
        a = pf.fit({'presentation': pres, 'd': d, 'y': y, 'err': y * .1})
        close(float(cf.t(a0=a[0])), t, 'age fitted to points on its isochron', rtol=2e-4, atol=1e-4)
    ctx.nontrivial(len(d) > 1)
    ctx.label(pres)


def body_off(case, ctx):
    pf = gen.pf(case['pf'])
    pres = case['pres']
    d = points(case, pf)
    ok_points(pf, pres, d)
    s = np.array([case['scatter'][i % len(case['scatter'])] for i in range(len(d))])
    y = 10 ** (g(pf, pres, d) + case['a0'] + s)
    err = y * np.array([case['rel'][i % len(case['rel'])] for i in range(len(d))])
    a = np.asarray(pf.fit({'presentation': pres, 'd': d, 'y': y, 'err': err}), float)
    w = ref_fit(pf, pres, d, y, err)
    close(a, w, 'weighted fit and limits', rtol=0, atol=3e-4)
    k = case['k']
    b = np.asarray(pf.fit({'presentation': pres, 'd': d, 'y': y * k, 'err': err * k}), float)
    close(b - a, np.full(3, np.log10(k)), 'shift of level for densities x %r' % k, rtol=0, atol=5e-4)
    ctx.nontrivial(len(d) > 1 and np.ptp(s) > 0)


def body_ideal(case, ctx):
    """craters whose cumulative density follows the isochron of age t exactly"""
    sysname, pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    t = case['t']
    a0 = float(cf.a0(t))
    lo, hi = [float(v) for v in pf.range]
    d = np.geomspace(lo * 1.0001, hi / 1.0001, 4000)
    C = pf.evaluate('cumulative', d, a0)
    n = case['n']
    # area such that the n-th crater lies at the chosen diameter
    i0 = int(case['u'] / 1000. * 2500) + 200
    area = float(n / C[i0])
    want = np.arange(n, 0, -1) / area
    if want[-1] < C[-1] * 1.01:
        raise Skip()
    x = np.interp(-np.log10(want), -np.log10(C), np.log10(d))
    dd = 10 ** x
    if (n > 1 and np.min(np.diff(dd)) <= 0) or np.any(np.diff(C) >= 0):
        raise Skip()
    c = {'d': [float(v) for v in dd], 'f': None, 'area': area}
    cc = gen.make_count(ctx, c)
    cp = cst.Craterplot(cratercount=cc, range=['0', 'inf'], binning='none', type='c-fit')
    cps = gen.make_cps(pfn, cfn, [cp], ref_diameter=case['ref'])
    cp.calculate_age(cps)
    close(cp.a0[0], a0, 'level fitted to ideal craters', rtol=0, atol=2e-4)
    close(float(cp.t[0]), t, 'age fitted to ideal craters', rtol=5e-4, atol=1e-3)
    close(cp.n, n, 'number of craters in fit')
    close(cp.n_d, pf.evaluate('cumulative', case['ref'], float(cp.a0[0])), 'N(d_ref)', rtol=1e-9)
    ctx.nontrivial(n > 2)


def body_count(case, ctx):
    """c-fit and d-fit overplots of arbitrary lists"""
    c = case['count']
    sysname, pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    cc = gen.make_count(ctx, c)
    ty = case['type']
    pres = {'c-fit': 'cumulative', 'd-fit': 'differential'}[ty]
    cp = cst.Craterplot(cratercount=cc, range=case['range'], binning=case['binning'], type=ty, snap=case['snap'])
    r = [float(v) for v in cp.range]
    p = gen.make_count(ctx, c, 'other').getplotdata(pres, case['binning'], range=list(r), pf=pf)
    cps = gen.make_cps(pfn, cfn, [cp], ref_diameter=case['ref'])
    if len(p['d']) == 0:
        expect_exit(cp.calculate_age, cps, what='fit to empty range %r' % (r,))
        ctx.label('empty')
        return
    with np.errstate(all='ignore'):
        v = pf.evaluate(pres, np.asarray(p['d']), 0.)
    if not (np.all(np.isfinite(v)) and np.all(v > 0) and np.all(p['y'] > 0)):
        raise Skip()  # definition has no positive density there
    with quiet(), np.errstate(all='ignore'):
        cp.calculate_age(cps)
    a = np.asarray(cp.a0, float)
    w = ref_fit(pf, pres, p['d'], p['y'], p['err'])
    close(a[0], w[0], '%s level' % ty, rtol=0, atol=1e-3)
    check(a[1] <= a[0] <= a[2], 'limits %r do not bracket', a.tolist())
    t = [float(v) for v in cp.t]
    check(len(t) == 3 and t[1] <= t[0] <= t[2], 'ages %r do not bracket', t)
    close(t, [float(cf.t(a0=float(v))) for v in a], 'ages of levels', rtol=1e-9, atol=1e-12)
    close(a[1:] - a[0], w[1:] - w[0], '%s limits relative to level' % ty, rtol=1e-6, atol=1e-9)
    close(cp.n, np.sum(p['n']), 'n of fit', rtol=1e-9)
    close(cp.n_event, np.sum(p['n_event']), 'n_event of fit', rtol=1e-9)
    close(cp.n_d, pf.evaluate('cumulative', case['ref'], float(a[0])), 'N(d_ref)', rtol=1e-9)
    close(cp.bin_range, p['bin_range'], 'bin_range', rtol=1e-12)
    # area
    k = case['k']
    cc2 = gen.make_count(ctx, dict(c, area=c['area'] * k), 'scaled')
    cp2 = cst.Craterplot(cratercount=cc2, range=case['range'], binning=case['binning'], type=ty, snap=case['snap'])
    with quiet(), np.errstate(all='ignore'):
        cp2.calculate_age(cps)
    close(cp2.a0, a - np.log10(k), '%s level for area x %r' % (ty, k), rtol=0, atol=2e-3)
    ctx.nontrivial(len(p['d']) > 1)
    ctx.label(ty)


def body_scalar(case, ctx):
    """single values, as used for conversions of a density at a diameter to a level"""
    pf = gen.pf(case['pf'])
    lo, hi = [float(v) for v in pf.range]
    d = float(10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * case['u'] / 1000.))
    y = 10 ** case['logy']
    a = pf.fit({'presentation': 'cumulative', 'd': d, 'y': y, 'err': 0})
    close(np.asarray(a, float), np.full(3, np.log10(y) - float(g(pf, 'cumulative', d))), 'level of N(%r)=%r' % (d, y), rtol=0, atol=2e-5)
    close(float(pf.evaluate('cumulative', d, float(a[0]))), y, 'density at that level', rtol=1e-4)
    ctx.nontrivial()


REF = st.sampled_from([1., 1., .5, .1, 4., 10., 20., 50., 64., 100., 300.])
PRES = st.sampled_from(['cumulative', 'differential'])
LEVEL = st.integers(-7000, 500).map(lambda i: i / 1000.)
US = st.one_of(st.lists(st.integers(10, 990), min_size=1, max_size=40, unique=True),
               st.integers(10, 900).flatmap(lambda a: st.lists(st.integers(a, a + 60), min_size=1, max_size=12, unique=True)))
REL = st.lists(st.integers(10, 1000).map(lambda i: i / 1000.), min_size=1, max_size=6)
SYS = st.sampled_from([list(s) for s in gen.SYSTEMS if s[2] != 'Vesta, Marchi & O\'Brien (2014)' and s[2] in [
    e['name'] for e in gen.FUNCTIONS['chronology'] if 'coefficients' in e]])
LIMV = st.one_of(st.just('0'), gen.log_diams(-2, 2).map(lambda v: '%r' % v))
LIMH = st.one_of(st.just('inf'), gen.log_diams(-2, 2).map(lambda v: '%r' % v))
RANGE = st.one_of(st.just(['0', 'inf']), st.tuples(LIMV, LIMH).map(list).map(
    lambda r: r if r[0] == '0' or r[1] == 'inf' or float(r[0]) < float(r[1]) else r[::-1]).filter(lambda r: r[0] != r[1]))
CFN = [e['name'] for e in gen.FUNCTIONS['chronology'] if 'coefficients' in e]

SUBS = [
    Sub('on_isochron', st.fixed_dictionaries({
        'pf': st.sampled_from(gen.PF_NAMES), 'pres': PRES, 'a0': LEVEL, 'u': US, 'rel': REL,
        'cf': st.one_of(st.none(), st.sampled_from(CFN)), 't': st.integers(10, 4900).map(lambda i: i / 1000.)}),
        body_on, quick=500, shards=2, rule='two or more points'),
    Sub('off_isochron', st.fixed_dictionaries({
        'pf': st.sampled_from(gen.PF_NAMES), 'pres': PRES, 'a0': LEVEL, 'u': US, 'rel': REL,
        'scatter': st.lists(st.integers(-800, 800).map(lambda i: i / 1000.), min_size=2, max_size=6),
        'k': st.integers(-300, 300).map(lambda i: gen.r6(10 ** (i / 100.)))}),
        body_off, quick=500, shards=2, rule='two or more points with different offsets'),
    Sub('ideal_count', st.fixed_dictionaries({
        'system': SYS, 't': st.integers(10, 4700).map(lambda i: i / 1000.), 'n': st.integers(1, 60), 'u': st.integers(0, 1000),
        'ref': REF}), body_ideal, quick=200, rule='three or more craters'),
    Sub('counts', st.fixed_dictionaries({
        'count': gen.counts(1, 40), 'system': SYS, 'type': st.sampled_from(['c-fit', 'd-fit']), 'range': RANGE,
        'binning': st.sampled_from(gen.BINNINGS), 'snap': st.sampled_from([0, 1]), 'ref': REF,
        'k': st.integers(-300, 300).map(lambda i: gen.r6(10 ** (i / 100.)))}),
        body_count, quick=400, shards=2, rule='two or more fitted bins'),
    Sub('scalar', st.fixed_dictionaries({'pf': st.sampled_from(gen.PF_NAMES), 'u': st.integers(0, 1000), 'logy': st.integers(-9000, 2000).map(lambda i: i / 1000.)}),
        body_scalar, quick=300, rule='all'),
]
