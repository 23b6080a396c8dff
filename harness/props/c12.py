import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import quad

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, Skip, quiet, expect_exit
from .c11 import Ref, SYSTEMS, G1, CC

PROPERTY = 'C12'
RULE = ('perimeters 0-10^5 km, areas, ranges from one bin to the whole validity of every system, k to 2000; oracle: adaptive '
        'quadrature of the buffered expectation and the gamma posterior for it; non-trivial when the buffer adds more than 2 % '
        'to the expectation')


class Area(CC):
    def __init__(self, area, perimeter):
        self.area = area
        self.perimeter = perimeter


class BRef(Ref):
    def __init__(self, pf, cf, r, area, perimeter, k):
        a = float(cf.a0(1.))
        knots = [math.log(v) for v in r]
        if hasattr(pf, 'd_mean10'):
            knots = sorted(knots + [float(v) * math.log(10) for v in pf.d_mean10 if r[0] < 10 ** float(v) < r[1]])
        n = max(4, int((knots[-1] - knots[0]) / 1.2))
        knots = sorted(set(knots + list(np.linspace(knots[0], knots[-1], n + 1))))

        def f(x, w):
            d = math.exp(x)
            return float(pf.evaluate('differential', d, a)) * d * (area + perimeter * d / 2 + math.pi * d * d / 4 if w else area)
        self.lam1 = sum(quad(f, a_, b_, args=(1,), epsrel=1e-9, limit=200)[0] for a_, b_ in zip(knots[:-1], knots[1:]))
        self.plain = sum(quad(f, a_, b_, args=(0,), epsrel=1e-9, limit=200)[0] for a_, b_ in zip(knots[:-1], knots[1:]))
        self.cf, self.k = cf, k
        self.n1 = float(cf.N1(1.))
        self.top = self.lam(5.)
        from scipy.special import gammainc
        self.norm = gammainc(k + 1, self.top)
        self.step = (10 + max(5., np.log10(float(cf.N1(5.)) / self.n1))) / 5000 * np.log(10) * 1.23 + 1e-3


def setup(case):
    pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    lo, hi = [float(v) for v in pf.range]
    u = sorted(case['u'])
    r = [10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * v / 1000.) for v in u]
    if r[1] / r[0] < 1.1:
        raise Skip()
    if np.any(pf.evaluate('differential', np.geomspace(r[0], r[1], 50), 0.) <= 0):
        raise Skip()
    # sizes relative to the smaller crater diameter: area (10^s d)^2, perimeter from compact to ragged
    area = float((r[0] * 10 ** case['s']) ** 2)
    perimeter = float(np.sqrt(area) * case['p'])
    return pf, cf, r, area, perimeter


def domain(ref, k):
    if not ref.lam1 > 0 or ref.lam1 * 1e-10 > 1e-4 or (k + 1) / ref.lam1 < 1e-8:
        raise Skip()


def body_expectation(case, ctx):
    pf, cf, r, area, perimeter = setup(case)
    ref = BRef(pf, cf, r, area, perimeter, case['k'])
    domain(ref, case['k'])
    k = case['k']
    p = cst.Craterpdf(pf, cf, Area(area, perimeter), list(r), k=k, bcc=True)
    i = np.where((p.ts > .01) & (p.ts < 4.95))[0][::97]
    close(np.asarray(p.lam)[i], [ref.lam(float(v)) for v in p.ts[i]], 'expected number with buffer', rtol=4e-3)
    m = [float(v) for v in p.median1sigma()]
    for q, t, w in zip((.5, G1, 1 - G1), m, ('median', 'lower 1-sigma', 'upper 1-sigma')):
        ref.check_percentile(q, t, w)
    if r[1] / r[0] < 8:  # plain expectation is exact from the cumulative form of polynomial functions
        pass
    # larger perimeter: not older
    p2 = cst.Craterpdf(pf, cf, Area(area, perimeter * case['f'] + .001), list(r), k=k, bcc=True)
    p0 = cst.Craterpdf(pf, cf, Area(area, 0.), list(r), k=k, bcc=True)
    for a, b, c in zip(p0.median1sigma(), m, p2.median1sigma()):
        check(b <= a * 1.001 and c <= b * 1.001, 'ages rise with perimeter: %r, %r, %r', float(a), float(b), float(c))
    ctx.nontrivial(ref.lam1 > 1.02 * ref.plain)
    ctx.label('buffer dominates' if ref.lam1 > 2 * ref.plain else 'buffer matters' if ref.lam1 > 1.02 * ref.plain else 'buffer negligible')
    ctx.label('range > decade' if r[1] / r[0] > 10 else 'range < decade')


def body_limit(case, ctx):
    """no perimeter and craters small against the area: ordinary evaluation"""
    pf, cf, r, _, _ = setup(case)
    if hasattr(pf, 'd_mean10'):
        raise Skip()  # the tabulated differential and cumulative forms agree only to the bin
    k = case['k']
    area = float((r[1] * 1e4) ** 2)
    ref = Ref(pf, cf, r, area, k)
    domain(ref, k)
    a = cst.Craterpdf(pf, cf, Area(area, 0.), list(r), k=k, bcc=True)
    b = cst.Craterpdf(pf, cf, Area(area, 0.), list(r), k=k, bcc=False)
    close(np.asarray(a.median1sigma(), float), np.asarray(b.median1sigma(), float), 'buffered and ordinary ages with vanishing buffer', rtol=2e-3)
    ctx.nontrivial()


def body_overplot(case, ctx):
    c = case['count']
    pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    per = case['perimeter']
    cc = gen.make_count(ctx, dict(c, perimeter=per), kind='scc')
    k0 = dict(cratercount=cc, range=list(case['range']), binning=case['binning'], type='b-poisson', snap=case['snap'])
    cp = cst.Craterplot(**k0)
    cps = gen.make_cps(pfn, cfn, [cp])
    r0 = [float(v) for v in np.clip(np.array([float(v) for v in cp.range]), pf.range[0], pf.range[1])]
    if r0[1] <= r0[0] * 1.05 or np.any(pf.evaluate('differential', np.geomspace(r0[0], r0[1], 60), 0.) <= 0):
        raise Skip()
    if per is None:
        expect_exit(cp.calculate_age, cps, mentions='perimeter', what='buffered evaluation without perimeter')
        cp2 = cst.Craterplot(**dict(k0, cratercount=gen.make_count(ctx, c, kind='diam')))
        expect_exit(cp2.calculate_age, cps, mentions='perimeter', what='buffered evaluation of .diam')
        ctx.label('refused')
        return
    k = sum(1 for d in c['d'] if r0[0] <= d < r0[1])
    ref = BRef(pf, cf, r0, c['area'], per, k)
    domain(ref, k)
    cp.calculate_age(cps)
    eq(int(cp.n), k, 'craters in %r' % (r0,))
    for q, t, w in zip((.5, G1, 1 - G1), cp.t, ('median', 'lower 1-sigma', 'upper 1-sigma')):
        ref.check_percentile(q, float(t), w)
    # ordinary evaluation of the same file is unaffected by the perimeter
    cp3 = cst.Craterplot(**dict(k0, type='poisson'))
    cp3.calculate_age(cps)
    ref3 = Ref(pf, cf, r0, c['area'], k)
    for q, t, w in zip((.5, G1, 1 - G1), cp3.t, ('median', 'lower 1-sigma', 'upper 1-sigma')):
        ref3.check_percentile(q, float(t), 'ordinary ' + w)
    ctx.nontrivial(ref.lam1 > 1.02 * ref.plain)


RANGE = st.one_of(st.just(['0', 'inf']), st.tuples(gen.log_diams(-2, 1), gen.log_diams(0, 2)).map(
    lambda t: ['%r' % min(t), '%r' % (max(t) * (1.5 if max(t) < 1.3 * min(t) else 1))]))
BASE = {
    'system': st.sampled_from(SYSTEMS), 'u': st.one_of(
        st.lists(st.integers(0, 1000), min_size=2, max_size=2, unique=True),
        st.integers(0, 900).flatmap(lambda a: st.tuples(st.just(a), st.integers(a + 20, a + 100))).map(list)),
    's': st.integers(0, 300).map(lambda i: i / 100.), 'p': st.one_of(st.just(0.), st.integers(300, 5000).map(lambda i: i / 100.)),
    'k': st.one_of(st.integers(0, 12), st.integers(0, 300), st.integers(0, 2000)),
    'f': st.integers(100, 10000).map(lambda i: i / 100.)}
SUBS = [
    Sub('expectation', st.fixed_dictionaries(BASE), body_expectation, quick=300, shards=4, rule='buffer adds more than 2 %'),
    Sub('limit', st.fixed_dictionaries(BASE), body_limit, quick=150, rule='polynomial function'),
    Sub('overplot', st.fixed_dictionaries({
        'count': gen.counts(1, 30, areas=st.integers(-1000, 6000).map(lambda i: gen.r6(10 ** (i / 1000.)))),
        'system': st.sampled_from(SYSTEMS), 'range': RANGE, 'binning': st.sampled_from(gen.BINNINGS), 'snap': st.sampled_from([0, 1]),
        'perimeter': st.integers(-160, 500).map(lambda i: None if i < -100 else gen.r6(10 ** (i / 100.)))}),
        body_overplot, quick=200, shards=3, rule='perimeter given and buffer adds more than 2 %'),
]
