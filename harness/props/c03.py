import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, check, close, eq, Skip

PROPERTY = 'C03'
RULE = ('crater lists (1-45 diameters: log-uniform, clustered, tied, exactly on or one ulp beside bin boundaries; with and '
        'without fractions; also power laws of 60-1500 over up to six decades) x binning style; non-trivial when the list spans at least two bins or touches a boundary, '
        'counted once per distinct case')


def body_partition(case, ctx):
    c, binning = gen.expand(case['count']), case['binning']
    cc = gen.make_count(ctx, c)
    cc.apply_binning(binning)
    b = cc.binned
    d = np.array(c['d'])
    f = np.ones(len(d)) if c['f'] is None else np.array(c['f'])
    lo, hi = np.asarray(b['d_min'], float), np.asarray(b['d_max'], float)
    check(len(lo) >= 1, 'no bins')
    check(np.all(hi > lo), 'bin upper limit not above lower: %r %r' % (lo, hi))
    check(np.all(lo[1:] == hi[:-1]), 'bins are not adjacent: %r %r' % (lo, hi))
    edges = np.append(lo, hi[-1])
    idx = []
    for e in edges:
        i, r = gen.lattice_index(e, binning)
        check(r < 1e-9, 'boundary %r is not on the %s lattice' % (e, binning))
        idx.append(i)
    eq(np.diff(idx).tolist(), [1] * (len(idx) - 1), '%s boundaries %r skip or repeat lattice steps' % (binning, edges.tolist()))
    for v in d:
        if gen.is_boundary(v, binning):
            check(v in edges, 'boundary %r is rounded to %r', v, edges[np.argmin(abs(edges / v - 1))])
            ctx.label('crater exactly on nominal boundary')
    # each crater in exactly one half-open bin
    inb = (lo[:, None] <= d[None, :]) & (d[None, :] < hi[:, None])
    per = inb.sum(axis=0)
    check(np.all(per == 1), 'craters not in exactly one bin: %r (edges %r)' % (d[per != 1].tolist(), edges.tolist()))
    n_event = inb.sum(axis=1)
    eq(np.asarray(b['n_event']).tolist(), n_event.tolist(), 'n_event per bin (edges %r)' % edges.tolist())
    close(b['n'], (inb * f[None, :]).sum(axis=1), 'n per bin', rtol=1e-9, atol=1e-12)
    eq(int(np.sum(b['n_event'])), len(d), 'total number of craters')
    close(np.sum(b['n']), f.sum(), 'total of fractions', rtol=1e-9)
    n = (inb * f[None, :]).sum(axis=1)
    close(b['ncum'], [n[i:].sum() for i in range(len(n))], 'ncum', rtol=1e-9, atol=1e-12)
    close(b['ncum_event'], [n_event[i:].sum() for i in range(len(n))], 'ncum_event')
    close(b['bin_width'], hi - lo, 'bin_width', rtol=1e-9)
    close(b['d_mean'], np.sqrt(lo * hi), 'd_mean', rtol=1e-9)
    if len(set(idx)) > 2:
        ctx.nontrivial()
    if np.any(np.isin(d, edges)):
        ctx.nontrivial()
        ctx.label('crater exactly on boundary')
    ctx.label(binning)


def body_lattice(case, ctx):
    """the bin a crater falls in does not depend on the other craters"""
    c, binning = case['count'], case['binning']
    d = c['d']
    cc = gen.make_count(ctx, c)
    cc.apply_binning(binning)
    lo, hi = np.asarray(cc.binned['d_min']), np.asarray(cc.binned['d_max'])
    keep = [d[i % len(d)] for i in case['keep']]
    c2 = gen.make_count(ctx, {'d': keep, 'f': None, 'area': 1.})
    c2.apply_binning(binning)
    lo2, hi2 = np.asarray(c2.binned['d_min']), np.asarray(c2.binned['d_max'])

    def which(lo, hi, v):
        q = np.where((lo <= v) & (v < hi))[0]
        check(len(q) == 1, 'crater %r in %d bins of %s' % (v, len(q), binning))
        return float(lo[q[0]]), float(hi[q[0]])

    for v in keep:
        close(which(lo2, hi2, v), which(lo, hi, v), 'bin of %r with other craters removed' % v, rtol=1e-12)
    ctx.nontrivial(len(set(keep)) < len(set(d)))


def body_none(case, ctx):
    c = case['count']
    cc = gen.make_count(ctx, c)
    cc.apply_binning('none')
    b = cc.binned
    f = [1.] * len(c['d']) if c['f'] is None else c['f']
    close(b['d_min'], sorted(c['d']), 'unbinned diameters', rtol=1e-15)
    eq(sorted(zip(np.asarray(b['d_min'], float).tolist(), np.asarray(b['n'], float).tolist())), sorted(zip(c['d'], f)),
       'crater/fraction pairs')
    eq(np.asarray(b['n_event']).tolist(), [1] * len(f), 'events')
    n = np.asarray(b['n'], float)
    close(b['ncum'], [n[i:].sum() for i in range(len(n))], 'ncum', rtol=1e-9)
    close(b['ncum_event'], np.arange(len(n), 0, -1), 'ncum_event')
    close(b['d_mean'], sorted(c['d']), 'd_mean', rtol=1e-15)
    ctx.nontrivial(len(set(c['d'])) > 1)


def body_boundaries(case, ctx):
    """generate_bins covers the values given to it with consecutive lattice boundaries"""
    import craterstats as cst
    d, binning = case['d'], case['binning']
    e = np.asarray(cst.Cratercount().generate_bins(binning, d), float)
    idx = [gen.lattice_index(v, binning) for v in e]
    check(max(r for _, r in idx) < 1e-9, 'boundaries off lattice: %r' % e.tolist())
    eq(np.diff([i for i, _ in idx]).tolist(), [1] * (len(e) - 1), 'consecutive boundaries %r' % e.tolist())
    check(e[0] <= min(d), 'first boundary %r above smallest value %r' % (e[0], min(d)))
    check(e[-1] > max(d), 'last boundary %r not above largest value %r' % (e[-1], max(d)))
    # nothing needless: at most one bin beyond the data on either side
    check(e[2] > min(d) if len(e) > 2 else True, 'needless bins below data: %r for %r' % (e.tolist(), d))
    check(e[-3] <= max(d) * 1.0024 if len(e) > 2 else True, 'needless bins above data: %r for %r' % (e.tolist(), d))
    ctx.nontrivial(len(d) > 1)
    ctx.label(binning)


B = st.sampled_from(gen.BINNINGS)
SUBS = [
    Sub('partition', st.fixed_dictionaries({'count': gen.counts(), 'binning': B}), body_partition, quick=900,
        rule='spans >1 bin or a crater lies exactly on a boundary', shards=3),
    Sub('large', st.fixed_dictionaries({'count': gen.bulk(-3, 3), 'binning': B}), body_partition, quick=200, rule='spans >1 bin or a crater lies exactly on a boundary'),
    Sub('lattice', st.fixed_dictionaries({'count': gen.counts(min_size=2, fractions=False), 'binning': B,
                                          'keep': st.lists(st.integers(0, 60), min_size=1, max_size=5)}), body_lattice,
        quick=500, rule='a proper subset of the craters'),
    Sub('none', st.fixed_dictionaries({'count': gen.counts()}), body_none, quick=300, rule='at least two diameters'),
    Sub('boundaries', st.fixed_dictionaries({'d': gen.diam_lists(1, 6, -4, 4, dup=False), 'binning': B}), body_boundaries,
        quick=1500, rule='at least two values'),
]
