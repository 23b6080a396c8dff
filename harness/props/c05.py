import os

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq, expect_exit, Skip

PROPERTY = 'C05'
RULE = ('crater lists x binning x range requests (numbers inside, outside, on and beside bin boundaries; open ends; bN/b-N) '
        'x snap; oracle: brute-force search of the bin boundaries; non-trivial when the count has at least three bins and '
        'the request cuts it')

LIM = st.one_of(gen.log_diams(-2.5, 2.5), gen.log_diams(-1, 1), gen.lattice_diams(-2, 2))


@st.composite
def requests(draw, d):
    """(lower, upper) as a user gives them: strings or floats"""
    def num(v):
        return draw(st.sampled_from(['%.15g' % v, v]))
    kind = draw(st.sampled_from(['num', 'num', 'num', 'open', 'bn', 'mixed']))
    lo, hi = sorted([draw(st.one_of(LIM, st.sampled_from(d))), draw(st.one_of(LIM, st.sampled_from(d)))])
    if hi == lo:
        hi = lo * 1.5
    lo, hi = num(lo), num(hi)
    bn = st.integers(1, 12).flatmap(lambda i: st.sampled_from(['b%d' % i, 'b-%d' % i]))
    if kind == 'open':
        if draw(st.booleans()):
            lo = '0'
        else:
            hi = 'inf'
    elif kind == 'bn':
        lo, hi = draw(bn), draw(bn)
    elif kind == 'mixed':
        if draw(st.booleans()):
            lo = draw(bn)
        else:
            hi = draw(bn)
    return [lo, hi]


def setup(case, ctx):
    c = case['count']
    cc = gen.make_count(ctx, c)
    cp = cst.Craterplot(cratercount=cc, range=list(case['range']), binning=case['binning'], snap=case['snap'])
    d = np.array(c['d'])
    e = np.asarray(cst.Cratercount().generate_bins(case['binning'], c['d']), float)
    return c, cc, cp, d, e


def limit(e, d, v, i):
    """numeric value of a request, and whether it is a bin reference"""
    if isinstance(v, float):
        return v, False
    if v[0] != 'b':
        return float(v), False
    n = int(v[1:])
    occ = [k for k in range(len(e) - 1) if np.any((e[k] <= d) & (d < e[k + 1]))]
    n = max(-len(occ), min(len(occ), n))
    k = occ[n - 1] if n > 0 else occ[n]
    return float(np.sqrt(e[k] * e[k + 1])), True


def body_resolve(case, ctx):
    c, cc, cp, d, e = setup(case, ctx)
    got = [float(v) for v in cp.range]
    (lo, lo_b), (hi, hi_b) = [limit(e, d, v, i) for i, v in enumerate(case['range'])]
    if hi < lo:
        hi = lo
    snap = case['snap']
    overlap = lo < e[-1] and hi > e[0]
    tol = 2e-6
    # lower
    if not overlap:
        close(got, [lo, hi], 'range outside the data', rtol=1e-9)
        ctx.label('outside data')
        return
    if not (snap or lo_b) or lo == 0:
        close(got[0], lo, 'unsnapped lower limit', rtol=1e-12)
    elif lo < e[0] * (1 - tol):
        close(got[0], e[0], 'lower limit below the data', rtol=1e-9)
    else:
        k = int(np.argmin(abs(e / got[0] - 1)))
        close(got[0], e[k], 'snapped lower limit is not a bin boundary', rtol=1e-9)
        check(e[k] <= lo * (1 + tol), 'snapped lower limit %r excludes request %r', got[0], lo)
        check(k + 1 >= len(e) or e[k + 1] > lo * (1 - tol), 'snapped lower limit %r more than a bin below request %r', got[0], lo)
    # upper
    if not (snap or hi_b) or hi > e[-1] * (1 + tol):
        close(got[1], hi, 'unsnapped upper limit', rtol=1e-12)
    else:
        k = int(np.argmin(abs(e / got[1] - 1)))
        close(got[1], e[k], 'snapped upper limit is not a bin boundary', rtol=2e-6)
        check(e[k] >= hi * (1 - tol), 'snapped upper limit %r excludes request %r', got[1], hi)
        check(k == 0 or e[k - 1] < hi * (1 + tol), 'snapped upper limit %r more than a bin above request %r', got[1], hi)
    # resolving again changes nothing
    again = [float(v) for v in cst.Craterplot(cratercount=cc, range=[float(v) for v in got], binning=case['binning'], snap=snap).range]
    close(again, got, 'resolving a resolved range', rtol=1e-9)
    inside = [v for v in (lo, hi) if e[0] < v < e[-1]]
    ctx.nontrivial(len(e) > 3 and len(inside) > 0)
    ctx.label('snap%d' % snap)
    if lo_b or hi_b:
        ctx.label('bN')


def body_select(case, ctx):
    c, cc, cp, d, e = setup(case, ctx)
    f = np.ones(len(d)) if c['f'] is None else np.array(c['f'])
    lo, hi = [float(v) for v in cp.range]
    p = cc.getplotdata(case['pres'], case['binning'], range=cp.range, pf=gen.pf('Mars, Ivanov (2001)'))
    m = (e[:-1, None] <= d) & (d < e[1:, None])
    n, ne = (m * f).sum(axis=1), m.sum(axis=1)
    dm = np.sqrt(e[:-1] * e[1:])
    q = (ne > 0) & (lo < dm) & (dm < hi)
    amb = np.any(abs(dm / lo - 1) < 1e-9) if lo > 0 else False
    amb = amb or (np.isfinite(hi) and hi > 0 and np.any(abs(dm / hi - 1) < 1e-9))
    if not amb:
        close(p['d'], (e[:-1] if case['pres'] == 'cumulative' else dm)[q], 'selected bins for range %r' % cp.range, rtol=1e-9)
        close(p['n'], n[q].sum(), 'n in range', rtol=1e-9, atol=1e-12)
        eq(int(p['n_event']), int(ne[q].sum()), 'n_event in range')
        if q.any():
            b = [float(v) for v in p['bin_range']]
            k = [gen.lattice_index(v, case['binning']) for v in b]
            check(max(r for _, r in k) < 1e-9, 'reported range %r is not bin-aligned', b)
            check(b[0] <= e[:-1][q][0] * (1 + 1e-9) and b[1] >= e[1:][q][-1] * (1 - 1e-9),
                  'reported range %r does not contain all the bins used %r', b, (e[:-1][q][0], e[1:][q][-1]))
            # extension of the request by less than a bin (0.001 in log10 is treated as rounding)
            ref = gen.ref_bins([max(lo, 1e-4) if lo > 0 else e[0], hi if np.isfinite(hi) else e[-1]], case['binning'])
            tol = 10 ** .0011
            L = lo if lo > 0 else e[0]
            H = hi if np.isfinite(hi) else e[-1]
            nxt = ref[ref > b[0] * (1 + 1e-6)][0]
            prv = ref[ref < b[1] * (1 - 1e-6)][-1]
            check(nxt * (1 + 1e-6) >= L / tol, 'reported lower limit %r a whole bin below request %r', b, L)
            check(prv * (1 - 1e-6) <= H * tol, 'reported upper limit %r a whole bin above request %r', b, H)
    ctx.nontrivial(len(e) > 3 and 0 < q.sum() < (ne > 0).sum())
    if case['snap'] and q.any() and not any(str(v).startswith('b') for v in case['range']):
        # craters counted by a poisson evaluation of the same range are those of the selected bins
        pdf = cst.Craterpdf(gen.pf('Mars, Ivanov (2001)'), gen.cf('Mars, Hartmann & Neukum (2001)'), cc, [lo, hi])
        eq(int(pdf.k), int(((lo <= d) & (d < hi)).sum()), 'poisson count in range')
        onb = np.all([v == 0 or not np.isfinite(v) or v > e[-1] or np.min(abs(e / v - 1)) == 0 for v in (lo, hi)])
        if onb:
            eq(int(pdf.k), int(ne[q].sum()), 'poisson count vs selected bins')
            ctx.label('poisson count')


def body_adjacent(case, ctx):
    """cutting at bin boundaries splits the count"""
    c, binning = case['count'], case['binning']
    cc = gen.make_count(ctx, c)
    e = np.asarray(cst.Cratercount().generate_bins(binning, c['d']), float)
    cut = sorted(set(e[min(int(x * len(e)), len(e) - 1)] for x in case['cuts']))
    cut = [0.] + [float(v) for v in cut] + [float('inf')]
    total = 0.
    tot_e = 0
    dd = []
    for a, b in zip(cut, cut[1:]):
        r = cst.Craterplot(cratercount=cc, range=[a, b], binning=binning, snap=case['snap']).range
        p = cc.getplotdata('differential', binning, range=r)
        total += p['n']
        tot_e += p['n_event']
        dd += list(p['d'])
    allp = cc.getplotdata('differential', binning)
    close(dd, allp['d'], 'bins of adjacent ranges %r' % cut, rtol=1e-12)
    close(total, allp['n'], 'craters over adjacent ranges %r' % cut, rtol=1e-9)
    eq(int(tot_e), len(c['d']), 'events over adjacent ranges %r' % cut)
    ctx.nontrivial(len(cut) > 3 and len(allp['d']) > 2)


def body_table(case, ctx):
    """a range resolved on a binned table, which lacks empty bins, selects the bins that overlap it"""
    c, binning = case['count'], case['binning']
    p = os.path.join(ctx.tmpdir(), 'b.stat')
    gen.make_count(ctx, c).WriteStatFile(p, binning=binning)
    d = np.array(c['d'])
    e = np.asarray(cst.Cratercount().generate_bins(binning, c['d']), float)
    occ = np.array([np.any((l <= d) & (d < h)) for l, h in zip(e, e[1:])])
    lo, hi = [e[0] * (e[-1] / e[0]) ** (1.2 * u - .1) for u in sorted(case['u'])]
    if hi < lo * 1.01 or any(np.min(abs(e / v - 1)) < 4e-3 for v in (lo, hi)) or lo > e[-1] or hi < e[0]:
        raise Skip()
    q = occ & (e[:-1] < hi) & (e[1:] > lo)
    cc = cst.Cratercount(p)
    r = cst.Craterplot(cratercount=cc, range=['%.9g' % lo, '%.9g' % hi], binning=binning, snap=1).range
    g = cc.getplotdata('differential', binning, range=r)
    m = np.sqrt(e[:-1] * e[1:])
    close(g['d'], m[q], 'bins of table selected by [%.9g, %.9g] (resolved %r)' % (lo, hi, [float(v) for v in r]), rtol=2e-3)
    k = np.searchsorted(e, [lo, hi])
    for v, i, w in ((lo, k[0] - 1, 'lower'), (hi, k[1] - 1, 'upper')):
        if 0 <= i < len(occ) and occ[i]:
            close(float(r[w == 'upper']), e[i + (w == 'upper')], w + ' limit of table range %.9g' % v, rtol=2e-3)
        elif 0 <= i < len(occ):
            ctx.label(w + ' in gap')
    ctx.nontrivial(0 < q.sum() < occ.sum() and len(occ) > occ.sum())


def body_bad(case, ctx):
    cc = gen.make_count(ctx, {'d': [1., 2., 3.], 'f': None, 'area': 1.})
    expect_exit(cst.Craterplot, cratercount=cc, range=case['range'], mentions='ange', what='range %r' % case['range'])
    ctx.nontrivial()


B = st.sampled_from(gen.BINNINGS)
CASE = gen.counts(max_size=30).flatmap(lambda c: st.fixed_dictionaries({
    'count': st.just(c), 'binning': B, 'range': requests(c['d']), 'snap': st.sampled_from([1, 1, 0])}))
CASE2 = gen.counts(max_size=30).flatmap(lambda c: st.fixed_dictionaries({
    'count': st.just(c), 'binning': B, 'range': requests(c['d']), 'snap': st.sampled_from([1, 1, 0]),
    'pres': st.sampled_from(['cumulative', 'differential', 'incremental', 'R-plot', 'Hartmann'])}))
OUT = {'count': {'d': [1.05, 2.2, 5.5], 'f': None, 'area': 1.}, 'binning': 'pseudo-log', 'snap': 1}
SUBS = [
    Sub('resolve', CASE, body_resolve, quick=900, shards=3, rule='>=3 bins and a limit inside the data',
        examples=[dict(OUT, range=['100', '200']), dict(OUT, range=['.01', '.02']), dict(OUT, range=['.5', '1'])]),
    Sub('select', CASE2, body_select, quick=700, shards=3, rule='selection is a proper non-empty part of the bins'),
    Sub('adjacent', st.fixed_dictionaries({'count': gen.counts(min_size=2, max_size=30), 'binning': B,
                                           'cuts': st.lists(st.integers(0, 99).map(lambda i: i / 100.), min_size=1, max_size=3),
                                           'snap': st.sampled_from([0, 1])}), body_adjacent, quick=300, shards=2,
        rule='>=2 cuts and >=3 bins'),
    Sub('table', st.fixed_dictionaries({'count': gen.counts(min_size=2, max_size=12), 'binning': B, 'u': st.lists(st.floats(0, 1, allow_nan=False, width=32), min_size=2, max_size=2)}),
        body_table, quick=500, shards=2, rule='table has gaps and the selection is a proper non-empty part'),
    Sub('bad', st.fixed_dictionaries({'range': st.sampled_from([['x', '2'], ['1', 'two'], ['bx', '3'], ['1', 'b'], ['1', '3km']])}),
        body_bad, quick=5, thorough=5, rule='all'),
]
