import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import gammainc, gammaincc, gammaincinv
from scipy.stats import gamma as gamma_dist

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, Skip, quiet

PROPERTY = 'C11'
RULE = ('k from 0 to 2*10^4 craters in a diameter range x area chosen around (and far from) the one giving a target age x all '
        'systems; oracle: the gamma posterior truncated at 5 Ga, compared through its distribution function within the 0.7 % '
        'sampling step of the density; non-trivial when the age is inside the chronology')
CFN = [e['name'] for e in gen.FUNCTIONS['chronology'] if 'coefficients' in e]
SYSTEMS = [[p, c] for _, p, c in gen.SYSTEMS if c in CFN]
G1 = (1 - math.erf(1 / math.sqrt(2))) / 2


class Ref:
    """closed form"""

    def __init__(self, pf, cf, r, area, k):
        self.cf, self.k = cf, k
        a = float(cf.a0(1.))
        self.lam1 = float(pf.evaluate('cumulative', r[0], a) - pf.evaluate('cumulative', r[1], a)) * area
        self.n1 = float(cf.N1(1.))
        self.top = self.lam(5.)
        self.norm = gammainc(k + 1, self.top)
        self.step = (10 + max(5., np.log10(float(cf.N1(5.)) / self.n1))) / 5000 * np.log(10) * 1.23  # sampling step of density

    def lam(self, t):
        return self.lam1 * float(self.cf.N1(t)) / self.n1

    def F(self, lam):
        if self.norm > 1e-290:
            return float(gammainc(self.k + 1, min(lam, self.top)) / self.norm)
        # far beyond the chronology: density ~ lam^k e^-lam close to the top
        return float(np.exp(max((self.k - self.top) * np.log(min(lam, self.top) / self.top), -700)))

    def check_percentile(self, p, t, what):
        check(0 <= t <= 5 and t == t, '%s: age %r', what, t)
        l = self.lam(t)
        if self.norm < 1e-6:  # density beyond that of 5 Ga: distribution is a power law close to 5 Ga, of which only the end is resolved
            x = self.top * math.exp(math.log(p) / max(self.k - self.top, 1.)) * (1 - 3 * self.step)
            check(l >= x, '%s: age %r although density is beyond the end of the chronology', what, t)
            return
        lo, hi = self.F(l * (1 - self.step)), self.F(l * (1 + self.step))
        check(lo - 2e-3 <= p <= hi + 2e-3, '%s: age %r has cumulative probability %.6g (%.6g..%.6g within resolution), expected %.6g; '
              'k=%d lambda(5 Ga)=%.6g', what, t, self.F(l), lo, hi, p, self.k, self.top)


def setup(case):
    pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    lo, hi = [float(v) for v in pf.range]
    u = sorted(case['u'])
    r = [10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * v / 1000.) for v in u]
    if r[1] / r[0] < 1.05:
        raise Skip()
    a = float(cf.a0(case['t']))
    dC = float(pf.evaluate('cumulative', r[0], a) - pf.evaluate('cumulative', r[1], a))
    if not dC > 0:
        raise Skip()
    area = max(case['k'], .7) / dC * 10 ** case['off']
    if not (1e-12 < area < 1e15):
        raise Skip()
    ref = Ref(pf, cf, r, area, case['k'])
    # sampled levels reach from 1e-10 to 1e5 of that of 1 Ga: ages far outside are not represented
    if ref.lam1 * 1e-10 > 1e-4 or (case['k'] + 1) / ref.lam1 < 1e-8:
        raise Skip()
    return pf, cf, r, area, ref


class CC:
    perimeter = None
    diam = None
    binned = None

    def __init__(self, area):
        self.area = area


def inside(ref):
    return ref.norm > .01


def body_posterior(case, ctx):
    pf, cf, r, area, ref = setup(case)
    k = case['k']
    p = cst.Craterpdf(pf, cf, CC(area), list(r), k=k)
    eq(p.k, k, 'k')
    m = p.median1sigma()
    m = [float(v) for v in m]
    for q, t, w in zip((.5, G1, 1 - G1), m, ('median', 'lower 1-sigma', 'upper 1-sigma')):
        ref.check_percentile(q, t, w)
    check(m[1] <= m[0] <= m[2], 'limits %r do not bracket median', m)
    for q in case['q']:
        ref.check_percentile(q, float(p.t(q)), 'percentile %r' % q)
    close([float(v) for v in p.t(sorted(case['q']))], [float(p.t(q)) for q in sorted(case['q'])], 'percentiles as list', rtol=1e-12)
    check(np.all(np.diff(p.t(sorted(case['q']))) >= 0), 'percentiles not ordered')
    check(np.all(p.pdf >= 0), 'negative probability density')
    check(np.all(np.diff(p.cdf) >= -1e-12) or ref.norm < 1e-9, 'cumulative probability decreases')
    close(float(p.cdf[-1]), 1., 'total probability', rtol=1e-9)
    check(p.cdf[0] < 1e-3 or k == 0 and p.cdf[0] < .01, 'cumulative probability starts at %r', p.cdf[0])
    # inverse and distribution function at ages
    for q in case['q']:
        t = float(p.t(q))
        c = float(p.cumulative_fraction(t))
        if ref.norm > .05 and k < 5000:
            close(c, q, 'cumulative fraction of the age at percentile', rtol=0, atol=2e-3 + .3 * np.sqrt(k + 1) * ref.step)
    for x in case['x']:
        l = (k + 1 + x * np.sqrt(k + 1.))
        if l <= 0 or l >= ref.top:
            continue
        t = float(np.interp(l / ref.lam1 * ref.n1, cf.n1s, cf.ts))
        if not 1e-6 < t < 4.99:
            continue
        c = float(p.cumulative_fraction(t))
        l = ref.lam(t)
        lo, hi = ref.F(l * (1 - ref.step)), ref.F(l * (1 + ref.step))
        check(lo - 2e-3 <= c <= hi + 2e-3, 'cumulative probability at %r Ga: %r, expected %r', t, c, ref.F(l))
        if k < 3000 and ref.norm > 1e-3:
            w = float(gamma_dist.pdf(l, k + 1)) * ref.lam1 / ref.n1 * float(cf.phi(t)) / ref.norm
            if abs(x) < 2:
                close(float(p.relative_probability(t)), w, 'probability density at %r Ga' % t, rtol=.02 + .25 / 300 * np.sqrt(k + 1.) + 4e-3 * (1 + abs(x)))
    ctx.nontrivial(inside(ref))
    ctx.label('k=0' if k == 0 else 'k<30' if k < 30 else 'k<1000' if k < 1000 else 'k>=1000')
    if not inside(ref):
        ctx.label('at end of chronology')


def body_monotonic(case, ctx):
    pf, cf, r, area, ref = setup(case)
    k = case['k']
    a = cst.Craterpdf(pf, cf, CC(area), list(r), k=k)
    b = cst.Craterpdf(pf, cf, CC(area), list(r), k=k + case['dk'])
    c = cst.Craterpdf(pf, cf, CC(area * case['da']), list(r), k=k)
    tol = 1 + 2e-3
    for i, n in enumerate(('median', 'lower limit', 'upper limit')):
        ta, tb, tc = [float(v.median1sigma()[i]) for v in (a, b, c)]
        check(tb * tol >= ta, '%s falls from %r to %r with %d -> %d craters', n, ta, tb, k, k + case['dk'])
        check(tc <= ta * tol, '%s rises from %r to %r with area x %r', n, ta, tc, case['da'])
    # the expected number is all that counts: same expectation via another area and range
    r2 = [r[0], r[0] * (r[1] / r[0]) ** .6]
    d1 = pf.evaluate('cumulative', r[0], 0.) - pf.evaluate('cumulative', r[1], 0.)
    d2 = pf.evaluate('cumulative', r2[0], 0.) - pf.evaluate('cumulative', r2[1], 0.)
    if d2 > 0:
        e = cst.Craterpdf(pf, cf, CC(area * float(d1 / d2)), r2, k=k)
        close(np.asarray(e.median1sigma(), float), np.asarray(a.median1sigma(), float), 'same expected number by other area and range', rtol=1e-5)
    f = cst.Craterpdf(pf, cf, CC(area), list(r), k=k, lam=np.asarray(a.lam))
    close(np.asarray(f.median1sigma(), float), np.asarray(a.median1sigma(), float), 'expectation given explicitly', rtol=1e-12)
    ctx.nontrivial(inside(ref))


def body_counts(case, ctx):
    """overplots of crater lists: which craters count"""
    c = case['count']
    pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    lo, hi = [float(v) for v in pf.range]
    cc = gen.make_count(ctx, c)
    snap = case['snap']
    cp = cst.Craterplot(cratercount=cc, range=list(case['range']), binning=case['binning'], type='poisson', snap=snap)
    r = [float(v) for v in cp.range]
    cps = gen.make_cps(pfn, cfn, [cp], ref_diameter=case['ref'])
    r0 = [float(v) for v in np.clip(np.array(r), pf.range[0], pf.range[1])]
    if r0[1] <= r0[0] * 1.0001:
        raise Skip()
    k = sum(1 for d in c['d'] if r0[0] <= d < r0[1])
    ref = Ref(pf, cf, r0, c['area'], k)
    if not ref.lam1 > 0 or ref.lam1 * 1e-10 > 1e-4 or (k + 1) / ref.lam1 < 1e-8:
        raise Skip()
    with quiet(), np.errstate(all='ignore'):
        cp.calculate_age(cps)
    eq(int(cp.n), k, 'craters in %r of %r' % (r0, c['d']))
    eq(int(cp.n_event), k, 'n_event')
    t = [float(v) for v in cp.t]
    for q, v, w in zip((.5, G1, 1 - G1), t, ('median', 'lower 1-sigma', 'upper 1-sigma')):
        ref.check_percentile(q, v, w)
    close(np.asarray(cp.a0, float), [float(cf.a0(v)) for v in t], 'levels of ages', rtol=1e-9)
    close(float(cp.n_d), float(pf.evaluate('cumulative', case['ref'], float(cp.a0[0]))), 'N(d_ref)', rtol=1e-9)
    # fractions and craters outside have no influence; area does
    c2 = {'d': [d for d in c['d'] if r0[0] <= d < r0[1]] + case['out'], 'f': None, 'area': c['area']}
    c2['d'] = [d for i, d in enumerate(c2['d']) if i < k or not r0[0] <= d < r0[1]]
    if c2['d']:
        cc2 = gen.make_count(ctx, c2, 'second')
        p = cst.Craterpdf(pf, cf, cc2, np.array(r0))
        close(np.asarray(p.median1sigma(), float), t, 'ages with other craters outside and no fractions', rtol=1e-9)
    ctx.nontrivial(inside(ref) and k > 0)
    ctx.label('some outside' if k < len(c['d']) else 'all inside')


def body_prebinned(case, ctx):
    """table read from .stat: events of the bins inside the range"""
    c = case['count']
    pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    cc = gen.make_count(ctx, c)
    import os
    p = os.path.join(ctx.tmpdir(), 'b.stat')
    with quiet():
        cc.WriteStatFile(p, case['binning'])
    cs = cst.Cratercount(p)
    b = cs.binned
    j = sorted(case['j'])
    lo, hi = float(b['d_min'][j[0] % len(b['d_min'])]), float(b['d_max'][j[1] % len(b['d_max'])])
    lo, hi = lo * (1 - 1e-9), hi * (1 + 1e-9)
    r0 = [float(v) for v in np.clip([lo, hi], pf.range[0], pf.range[1])]
    if r0[1] <= r0[0] * 1.05 or r0 != [lo, hi]:
        raise Skip()
    o = gen.make_count(ctx, c, 'fresh')
    o.apply_binning(case['binning'])
    m = np.sqrt(np.asarray(o.binned['d_min']) * np.asarray(o.binned['d_max']))
    k = int(np.sum(np.asarray(o.binned['n_event'])[(m > lo) & (m < hi)]))
    ref = Ref(pf, cf, r0, c['area'], k)
    if not ref.lam1 > 0 or ref.lam1 * 1e-10 > 1e-4 or (k + 1) / ref.lam1 < 1e-8:
        raise Skip()
    p = cst.Craterpdf(pf, cf, cs, np.array(r0))
    eq(int(p.k), k, 'craters of table inside %r' % (r0,))
    ref.step += 2e-4
    for q, v in zip((.5, G1, 1 - G1), p.median1sigma()):
        ref.check_percentile(q, float(v), 'age from table')
    ctx.nontrivial(k > 0)


K = st.one_of(st.integers(0, 12), st.integers(0, 300), st.integers(0, 20000))
KS = st.one_of(st.integers(0, 12), st.integers(0, 300))
BASE = {
    'system': st.sampled_from(SYSTEMS), 'u': st.lists(st.integers(0, 1000), min_size=2, max_size=2, unique=True),
    't': st.integers(1, 4900).map(lambda i: i / 1000.), 'off': st.one_of(st.just(0.), st.integers(-200, 300).map(lambda i: i / 100.)),
    'k': K}
Q = st.lists(st.integers(1, 999).map(lambda i: i / 1000.), min_size=1, max_size=4)
RANGE = st.one_of(st.just(['0', 'inf']), st.tuples(gen.log_diams(-2, 1), gen.log_diams(0, 2)).map(
    lambda t: ['%r' % min(t), '%r' % (max(t) * (1.5 if max(t) < 1.3 * min(t) else 1))]),
    gen.log_diams(-1.5, 1).map(lambda v: ['%r' % v, 'inf']), gen.log_diams(-.5, 2).map(lambda v: ['0', '%r' % v]))
SUBS = [
    Sub('posterior', st.fixed_dictionaries(dict(BASE, q=Q, x=st.lists(st.integers(-30, 30).map(lambda i: i / 10.), max_size=3))),
        body_posterior, quick=900, shards=3, rule='more than 1 % of the posterior below 5 Ga'),
    Sub('monotonic', st.fixed_dictionaries(dict(BASE, k=KS, dk=st.integers(1, 20), da=st.integers(0, 200).map(lambda i: gen.r6(10 ** (i / 100.))))),
        body_monotonic, quick=300, shards=2, rule='more than 1 % of the posterior below 5 Ga'),
    Sub('counts', st.fixed_dictionaries({
        'count': gen.counts(1, 40, areas=st.integers(-1000, 6000).map(lambda i: gen.r6(10 ** (i / 1000.)))), 'system': st.sampled_from(SYSTEMS),
        'range': RANGE, 'binning': st.sampled_from(gen.BINNINGS), 'snap': st.sampled_from([0, 1]),
        'ref': st.sampled_from([1., 1., .5, 10.]), 'out': st.lists(gen.diams(), max_size=4)}), body_counts, quick=400, shards=2,
        rule='at least one crater in range and age inside chronology'),
    Sub('table', st.fixed_dictionaries({
        'count': gen.counts(1, 30, areas=st.integers(-1000, 6000).map(lambda i: gen.r6(10 ** (i / 1000.)))), 'system': st.sampled_from(SYSTEMS),
        'binning': st.sampled_from(gen.BINNINGS), 'j': st.lists(st.integers(0, 40), min_size=2, max_size=2)}),
        body_prebinned, quick=250, rule='at least one crater in range'),
]
