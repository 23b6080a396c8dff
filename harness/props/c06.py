import os
import re

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from craterstats import cli
from .. import gen
from ..core import Sub, check, close, eq, quiet, cwd, Skip

PROPERTY = 'C06'
RULE = ('crater lists (gaps, ties, single occupied bins, fractions) x binning x source type, exported by WriteStatFile or '
        '--convert stat, the text parsed independently and compared with brute-force binning, then read back; non-trivial '
        'when there are at least two occupied bins')
CFN = [e['name'] for e in gen.FUNCTIONS['chronology'] if 'coefficients' in e]
SYSTEMS = [list(e) for e in gen.SYSTEMS if e[2] in CFN]
COLS = ['d_min', 'n', 'n_density', 'n_err', 'ncum', 'ncum_density', 'ncum_err', 'd_mean', 'n_diff', 'n_diff_err', 'n_event']


def bins(c, binning):
    d = np.array(c['d'])
    f = np.ones(len(d)) if c['f'] is None else np.array(c['f'])
    e = np.asarray(cst.Cratercount().generate_bins(binning, c['d']), float)
    m = (e[:-1, None] <= d) & (d < e[1:, None])
    n, ne = (m * f).sum(axis=1), m.sum(axis=1)
    q = ne > 0
    ncum = np.array([f[d >= l].sum() for l in e[:-1]])
    return e[:-1][q], e[1:][q], n[q], ne[q], ncum[q]


def parse(path):
    t = [l for l in open(path).read().splitlines()]
    rows = [[float(v) for v in l.split()] for l in t if l.strip() and not l.startswith('#')]
    return t, rows


def check_table(path, c, binning):
    lo, hi, n, ne, ncum = bins(c, binning)
    a = c['area']
    text, rows = parse(path)
    eq(len(rows), len(lo), 'rows of table')
    check(all(len(r) == 11 for r in rows), 'rows do not all have 11 columns: %r', rows)
    r = dict(zip(COLS, np.array(rows).T))
    m = re.search(r'Total area = (\S+)', '\n'.join(text))
    check(m is not None, 'area not stated in table')
    close(float(m.group(1)), a, 'stated area', rtol=6e-6)
    p5, p4 = 6e-5, 6e-4
    close(r['d_min'], lo, 'bin minima', rtol=p5)
    close(r['n'], n, 'N per bin', rtol=p5)
    close(r['n_density'], n / a, 'incremental density', rtol=p4)
    close(r['n_err'], np.sqrt(n) / a, 'incremental error', rtol=p4)
    close(r['ncum'], ncum, 'cumulative N', rtol=p5)
    close(r['ncum_density'], ncum / a, 'cumulative density', rtol=p4)
    close(r['ncum_err'], np.sqrt(ncum) / a, 'cumulative error', rtol=p4)
    close(r['d_mean'], np.sqrt(lo * hi), 'bin centre', rtol=p4)
    close(r['n_diff'], n / (hi - lo) / a, 'differential density', rtol=p4)
    close(r['n_diff_err'], n / (hi - lo) / a / np.sqrt(ne), 'differential error', rtol=p4)
    close(r['n_event'], ne, 'event count', rtol=p5)
    return lo, hi, n, ne, ncum


def body_table(case, ctx):
    c, binning = case['count'], case['binning']
    cc = gen.make_count(ctx, c, kind=case['kind'])
    d = ctx.tmpdir()
    before = case['before']
    if before:
        cc.getplotdata('differential', before)
    path = os.path.join(d, 'out.stat')
    cc.WriteStatFile(path, binning=binning)
    lo, hi, n, ne, ncum = check_table(path, c, binning)
    # exporting leaves the count usable: same results as an untouched one
    fresh = gen.make_count(ctx, c, kind=case['kind'])
    for b2 in (case['after'],):
        for pres in ('cumulative', 'R-plot'):
            x, y = cc.getplotdata(pres, b2), fresh.getplotdata(pres, b2)
            close(x['d'], y['d'], 'diameters after export', rtol=1e-12)
            close(x['y'], y['y'], 'densities after export', rtol=1e-12)
            close(x['err'], y['err'], 'errors after export', rtol=1e-12)
    close(sorted(cc.diam), sorted(c['d']), 'crater list after export', rtol=0)
    # read back
    rb = cst.Cratercount(path)
    close(rb.area, c['area'], 'area read back', rtol=6e-4)
    p = rb.getplotdata('cumulative', 'pseudo-log')
    close(p['d'], lo, 'bin minima read back', rtol=6e-5)
    close(p['y'], ncum / c['area'], 'cumulative densities read back', rtol=1e-3)
    close(p['err'], ncum / c['area'] / np.sqrt(np.cumsum(ne[::-1])[::-1]), 'cumulative errors read back', rtol=1e-3)
    p = rb.getplotdata('incremental', 'pseudo-log')
    close(p['y'], n / c['area'], 'incremental densities read back', rtol=1e-3)
    close(p['err'], n / c['area'] / np.sqrt(ne), 'incremental errors read back', rtol=1e-3)
    close(p['n'], n.sum(), 'n read back', rtol=1e-3)
    close(p['n_event'], ne.sum(), 'n_event read back', rtol=1e-3)
    # derived densities: limits of a bin known to the printed precision of its minimum and centre
    w = hi - lo
    wtol = 2.5 * hi / w * 6e-4 + 1e-3
    for pres, y in (('R-plot', (lo * hi) ** 1.5 * n / w / c['area']), ('Hartmann', np.sqrt(lo * hi) * (2 ** .5 - 1) * n / w / c['area'])):
        p = rb.getplotdata(pres, 'pseudo-log')
        close(p['d'], np.sqrt(lo * hi), 'bin centres read back', rtol=1.2e-3)
        close(np.asarray(p['y']) / y, np.ones(len(y)), pres + ' read back', rtol=0, atol=float(wtol.max()))
    ctx.nontrivial(len(lo) > 1)
    if len(lo) > 1 and np.any(hi[:-1] < lo[1:] * .999):
        ctx.label('gaps')
    if len(lo) == 1:
        ctx.label('single row')
    ctx.label(case['kind'])


def body_large(case, ctx):
    """tables of large counts"""
    d = [v for v, n in case['rows'] for _ in range(n)]
    f = None if case['frac'] is None else [case['frac']] * len(d)
    c = {'d': d, 'f': f, 'area': case['area']}
    cc = gen.make_count(ctx, c)
    path = os.path.join(ctx.tmpdir(), 'out.stat')
    cc.WriteStatFile(path, binning=case['binning'])
    lo, hi, n, ne, ncum = check_table(path, c, case['binning'])
    rb = cst.Cratercount(path)
    close(rb.binned['n_event'], ne, 'events read back', rtol=6e-5)
    close(rb.area, case['area'], 'area read back', rtol=6e-4)
    ctx.nontrivial(ne.max() >= 1000)


def body_ages(case, ctx):
    """age evaluations from the table and from the list agree"""
    c, binning = case['count'], case['binning']
    cc = gen.make_count(ctx, c)
    path = os.path.join(ctx.tmpdir(), 'out.stat')
    cc.WriteStatFile(path, binning=binning)
    rb = cst.Cratercount(path)
    lo, hi, n, ne, ncum = bins(c, binning)
    i, j = sorted([case['i'] % len(lo), case['j'] % len(lo)])
    if case['u'] is None:
        r = ['b%d' % (i + 1), 'b-%d' % (len(lo) - j)]
    elif case['snap']:  # a request inside the bins (the table does not know of empty bins)
        r = ['%.9g' % (lo[i] * (hi[i] / lo[i]) ** case['u']), '%.9g' % (lo[j] * (hi[j] / lo[j]) ** case['u'])]
    else:
        r = ['%.9g' % (lo[i] * (1 - 1e-7)), '%.9g' % (hi[j] * (1 + 1e-7))]
    sysname = case['system']
    pf, cf = gen.pf(sysname[1]), gen.cf(sysname[2])
    cpl = []
    for k in (cc, rb):
        cpl.append(cst.Craterplot(cratercount=k, range=list(r), binning=binning, snap=case['snap']))
    close([float(v) for v in cpl[1].range], [float(v) for v in cpl[0].range], 'range %r resolved on table' % r, rtol=2e-6)
    x = cc.getplotdata('cumulative', binning, range=list(cpl[0].range))
    y = rb.getplotdata('cumulative', binning, range=list(cpl[1].range))
    close(y['d'], x['d'], 'bins used for range %r' % r, rtol=1e-5)
    eq(int(y['n_event']), int(x['n_event']), 'events in range %r' % r)
    eq(int(x['n_event']), int(ne[i:j + 1].sum()), 'events in the bins of range %r' % r)
    close([float(v) for v in y['bin_range']], [float(v) for v in x['bin_range']], 'range reported for %r, table vs list' % r, rtol=2e-6)
    if x['d'].min() > pf.range[0] * 1.001 and x['d'].max() < pf.range[1] * .999:
        fx, fy = pf.fit(x), pf.fit(y)
        close(fy[0], fx[0], 'fit to table vs list', rtol=0, atol=2e-3)
        close(fy[1:], fx[1:], 'fit limits, table vs list', rtol=0, atol=5e-3)
        ctx.label('fit')
        if len(x['d']) > 1:
            p, q = [k.getplotdata('cumulative', binning, range=list(cp.range), resurfacing=1, showall=1, pf=pf)
                    for k, cp in ((cc, cpl[0]), (rb, cpl[1]))]
            close(q['d'], p['d'], 'bins shown with resurfacing correction', rtol=1e-5)
            close(q['y'], p['y'], 'resurfacing-corrected densities, table vs list', rtol=5e-3)
            ctx.label('resurfacing')
    r2 = [float(v) for v in cpl[0].range]
    k2 = cst.Craterpdf(pf, cf, rb, [float(v) for v in cpl[1].range])
    eq(int(k2.k), int(x['n_event']), 'poisson count from table')
    a = [max(r2[0], pf.range[0]), min(r2[1], pf.range[1])]
    if a[0] * 1.05 < a[1]:
        k = cst.Craterpdf(pf, cf, cc, a, k=int(x['n_event']))
        k2 = cst.Craterpdf(pf, cf, rb, a, k=int(x['n_event']))
        if float(k.lam.max()) > k.k:
            close(k2.median1sigma(), k.median1sigma(), 'poisson age from table', rtol=2e-3)
            ctx.label('poisson')
    ctx.nontrivial(j > i)
    if j > i and np.any(hi[i:j] < lo[i + 1:j + 1] * .999):
        ctx.label('gaps in range')
    if j + 1 < len(lo) and hi[j] < lo[j + 1] * .999:
        ctx.label('gap after range')


def body_convert(case, ctx):
    """--convert stat writes the same table under the source's or the requested name"""
    c = case['count']
    cc_dir = ctx.tmpdir()
    src = os.path.join(cc_dir, case['name'] + '.' + case['kind'])
    if case['kind'] == 'diam':
        gen.write_diam(src, c['d'], c['f'], c['area'])
    else:
        gen.write_scc_text(src, c['d'], c['f'], c['area'], 10.)
    wd = ctx.tmpdir()
    os.mkdir(os.path.join(wd, 'sub'))
    out = case['out']
    args = ['--convert', 'stat', src]
    exp = case['name'] + '.stat'
    if out == 'dir':
        args += ['-o', 'sub']
        exp = 'sub/' + exp
    elif out == 'name':
        args += ['-o', 'renamed']
        exp = 'renamed.stat'
    elif out == 'ext':
        args += ['-o', 'sub/renamed.stat']
        exp = 'sub/renamed.stat'
    elif out == 'out':
        args += ['-o', 'out']
        exp = 'out.stat'
    elif out == 'point':
        args += ['-o', 'renamed v1.2']
        exp = 'renamed v1.2.stat'
    with cwd(wd), quiet():
        cli.main(args)
    files = sorted(os.path.relpath(os.path.join(a, f), wd) for a, _, fs in os.walk(wd) for f in fs)
    eq(files, [exp], 'files written by --convert')
    check_table(os.path.join(wd, exp), c, 'pseudo-log')
    eq(sorted(os.listdir(cc_dir)), [case['name'] + '.' + case['kind']], 'source directory')
    ctx.nontrivial()
    ctx.label(out)


B = st.sampled_from(gen.BINNINGS)
KIND = st.sampled_from(['diam', 'scc'])
SUBS = [
    Sub('large', st.fixed_dictionaries({'rows': st.lists(st.tuples(gen.log_diams(-1, 1), st.sampled_from([1, 3, 997, 1234, 4321, 9999, 10001, 12346, 23457])).map(list), min_size=1, max_size=4, unique_by=lambda e: e[0]),
                                        'frac': st.sampled_from([None, None, .5, .337]), 'area': gen.AREAS, 'binning': B}),
        body_large, quick=40, thorough=400, shards=2, rule='a bin holds 1000 craters or more'),
    Sub('table', st.fixed_dictionaries({'count': gen.counts(), 'binning': st.one_of(st.just('pseudo-log'), B), 'kind': KIND,
                                        'before': st.one_of(st.none(), B), 'after': B}), body_table, quick=500, shards=3,
        rule='at least two occupied bins',
        examples=[{'count': {'d': [1.05], 'f': None, 'area': 10.}, 'binning': 'pseudo-log', 'kind': 'diam', 'before': None, 'after': 'x2'},
                  {'count': {'d': [1.05, 1.2, 3.1, 9.9], 'f': None, 'area': 10.}, 'binning': 'pseudo-log', 'kind': 'diam', 'before': None, 'after': 'x2'}]),
    Sub('ages', st.fixed_dictionaries({'count': gen.counts(min_size=3), 'i': st.integers(0, 40), 'j': st.integers(0, 40),
                                       'binning': B, 'snap': st.sampled_from([1, 1, 0]), 'u': st.sampled_from([.3, .5, .7, None]),
                                       'system': st.sampled_from(SYSTEMS)}),
        body_ages, quick=300, shards=2, rule='range of at least two occupied bins'),
    Sub('convert', st.fixed_dictionaries({'count': gen.counts(), 'kind': st.just('diam'),
                                          'name': st.sampled_from(['a', 'my count', 'x_1', 'v2.5km', 'CRATER list']),
                                          'out': st.sampled_from(['none', 'dir', 'name', 'ext', 'point', 'out'])}), body_convert, quick=60,
        shards=2, rule='all'),
]
