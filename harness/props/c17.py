import csv
import io
import os

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen
from ..core import Sub, check, close, eq, Skip, quiet, cwd
from .c10 import ref_fit
from .c11 import Ref, SYSTEMS, G1
from .c14 import parse_ml, agree

PROPERTY = 'C17'
RULE = ('1-6 overplots over 1-3 generated counts, mixing data, Poisson, buffered Poisson, cumulative (with and without '
        'resurfacing correction) and differential fits, ranges, binnings, names and reference diameters; oracle: each row from '
        'a separate evaluation, its ages from the closed forms; non-trivial with two or more evaluations')
HEAD = 'Name,Area,Binning,d_min,d_max,Method,Resurf,N,N_event,Sort_order,Age,Age-,Age+,a0,a0-,a0+'.split(',')
FIT = ('poisson', 'b-poisson', 'c-fit', 'd-fit')


def build(case, ctx):
    d = ctx.tmpdir()
    files = []
    for i, c in enumerate(case['counts']):
        p = os.path.join(d, c['name'] + ('.scc' if c['scc'] else '.diam'))
        if os.path.exists(p):
            p = os.path.join(d, str(i) + os.path.basename(p))
        if c['scc']:
            gen.write_scc_text(p, c['d'], c['f'], c['area'], c['perimeter'])
        elif c.get('buffered'):  # reference area of each crater
            with open(p, 'w') as g:
                g.write('crater = {diameter, reference_area\n' + '\n'.join('%r %r' % (v, c['area'] * (1 + .07 * (i % 5))) for i, v in enumerate(c['d'])) + '\n}\n')
        else:
            gen.write_diam(p, c['d'], c['f'], c['area'])
        if c.get('stat'):  # binned count only
            q = os.path.splitext(p)[0] + '.stat'
            with quiet(), np.errstate(all='ignore'):
                cst.Cratercount(p).WriteStatFile(q, c['stat'])
            if len(cst.Cratercount(q).binned['d_min']) > 1:
                p = q
        files.append(p)
    return d, files


def plot(case, it, files):
    it = dict(it)
    s = files[it.pop('src') % len(files)]
    t = it['type']
    c = case['counts'][files.index(s)]
    if t == 'b-poisson' and not s.endswith('.scc'):
        it['type'] = 'poisson'
    return cst.Craterplot(source=s, **it)


def number(cc, r):
    """craters in range, or in the whole bins within it where only bins are known"""
    if cc.diam is not None:
        return sum(1 for v in cc.diam if r[0] <= v < r[1])
    b = cc.binned
    return int(sum(n for lo, hi, n in zip(b['d_min'], b['d_max'], b['n_event']) if r[0] <= lo and hi <= r[1]))


def usable(cps, cp):
    """evaluations which can be made: others are refused, or belong to findings of other properties"""
    pf = cps.pf
    if cp.type in ('poisson', 'b-poisson'):
        r = np.clip(cp.range, *pf.range)
        if not r[1] / r[0] > 1.02:
            return False
        a = float(cps.cf.a0(1.))
        lam1 = float(pf.evaluate('cumulative', r[0], a) - pf.evaluate('cumulative', r[1], a)) * cp.cratercount.area
        k = number(cp.cratercount, r)
        return lam1 > 0 and not lam1 * 1e-10 > 1e-4 and not (k + 1) / lam1 < 1e-8
    p = cp.cratercount.getplotdata('cumulative' if cp.type == 'c-fit' else 'differential', cp.binning, range=list(cp.range))
    with np.errstate(all='ignore'):
        ok = len(p['d']) > 0 and (cp.type == 'd-fit' or pf.range[0] <= p['d'][0] and p['d'][-1] <= pf.range[1])
        ok = ok and not (cp.type == 'd-fit' and cp.binning == 'none')
        if ok:
            v = pf.evaluate('cumulative' if cp.type == 'c-fit' else 'differential', p['d'], 0.)
            ok = np.all(np.isfinite(v)) and np.all(v > 0)
    return bool(ok)


def rows_of(text):
    L = list(csv.reader(io.StringIO(text)))
    return L[2], L[3:]


def same(a, b, what):
    eq(a, b, what)


def check_row(h, row, cps, cp, rank, exact):
    """row of the table against evaluation cp (calculated separately)"""
    check(len(h) <= len(row) <= len(h) + 1, '%d columns in row, %d in header', len(row), len(h))
    v = dict(zip(h[:20], row))
    if v['Name'].startswith('"') and not cp.name.startswith('"'):
        raise AssertionError('name %r' % v['Name'])
    same(v['Name'], cp.name, 'name')
    same(v['Area'], '%.5g' % cp.cratercount.area, 'area')
    same(v['Binning'], cp.binning, 'binning')
    fit = cp.type in ('c-fit', 'd-fit')
    r = cp.bin_range if fit and not cp.resurf else cp.range
    same([v['d_min'], v['d_max']], ['%.2g' % e for e in r], 'diameter range')
    same(v['Method'], cp.type, 'method')
    same(int(v['Resurf']), int(cp.resurf), 'resurfacing')
    close(float(v['N']), cp.n, 'number of craters', rtol=1e-6)
    close(float(v['N_event']), cp.n_event, 'number of events', rtol=1e-6)
    same(int(v['Sort_order']), rank, 'rank of age %r' % cp.t[0])
    same([v['Age'], v['Age-'], v['Age+']], ['%.3g' % e for e in cp.t], 'age')
    same([v['a0'], v['a0-'], v['a0+']], ['%.4g' % e for e in cp.a0], 'level')
    nd = [float(cps.pf.evaluate('cumulative', cps.ref_diameter, e)) for e in cp.a0]
    same(row[16:19], ['%.2e' % e for e in nd], 'N(d_ref)')
    same(row[19], cp.source, 'source')
    # formatted text
    f = row[20:]
    same(f[0], ' ', 'blank column')
    with np.errstate(all='ignore'):
        if np.isinf(r[1]):
            same(f[1], 'unconstrained', 'range text')
        else:
            k = 1. if r[1] >= 1 else 1000.
            a, b = f[1].replace(' km' if k == 1 else ' m', '').split('–')
            agree(a, r[0] * k, 2, 'range text')
            agree(b, r[1] * k, 2, 'range text')
    M, N, L, K = f[2:6]
    for ml, s in ((True, M), (False, L)):
        p = parse_ml(s, ml)
        u = {'Ga': 1., 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}[p['unit']]
        agree(p['value'], float(cp.t[0]) / u, 3, 'formatted age', loose=1e-9)
        eq(p['mu'], bool(cps.mu), 'mu')
        if cp.t[2] > cp.t[0]:
            agree(p['plus'], float(cp.t[2] - cp.t[0]) / u, 2, 'formatted upper limit of age', loose=1e-9)
            agree(p['minus'], float(cp.t[0] - cp.t[1]) / u, 2, 'formatted lower limit of age', loose=1e-9)
    for ml, s in ((True, N), (False, K)):
        p = parse_ml(s, ml)
        eq(p['unit'], 'km-2', 'unit of N(d_ref)')
        e = 10. ** p['exp']
        agree(p['value'], nd[0] / e, 3, 'formatted N(d_ref)', loose=1e-9)
        agree(p['plus'], (nd[2] - nd[0]) / e, 2, 'formatted upper limit of N(d_ref)', loose=1e-9)
        agree(p['minus'], (nd[0] - nd[1]) / e, 2, 'formatted lower limit of N(d_ref)', loose=1e-9)


def closed_form(cps, cp):
    cc = cp.cratercount
    if cp.type == 'poisson':
        r = [float(e) for e in np.clip(cp.range, *cps.pf.range)]
        k = number(cc, r)
        eq(cp.n, k, 'craters in Poisson range')
        eq(cp.n_event, k, 'events in Poisson range')
        ref = Ref(cps.pf, cps.cf, r, cc.area, k)
        for p, t in ((.5, cp.t[0]), (G1, cp.t[1]), (1 - G1, cp.t[2])):
            ref.check_percentile(p, float(t), 'age in table')
    elif cp.type == 'b-poisson':
        r = [float(e) for e in np.clip(cp.range, *cps.pf.range)]
        eq(cp.n, sum(1 for v in cc.diam if r[0] <= v < r[1]), 'craters in buffered Poisson range')
    elif not cp.resurf or cp.type == 'd-fit':
        pres = 'cumulative' if cp.type == 'c-fit' else 'differential'
        p = cc.getplotdata(pres, cp.binning, range=list(cp.range), pf=cps.pf)
        w = ref_fit(cps.pf, pres, p['d'], p['y'], p['err'])
        close(cp.a0, w, 'level of %s' % cp.type, rtol=0, atol=1e-3)
        if cp.snap and cp.binning != 'none' and cc.diam is not None:  # range consists of whole bins
            lo, hi = p['bin_range']
            n = sum(f for v, f in zip(cc.diam, cc.fraction) if lo <= v < hi)
            if not any(abs(v / e - 1) < 1e-9 for v in cc.diam for e in (lo, hi)):  # neither side is wrong for craters on the limits
                close(cp.n, n, 'craters within the range of the fit', atol=1e-6 * max(1, n))
    for a, t in zip(cp.a0, cp.t):
        n1 = 10 ** float(a)
        if float(cps.cf.N1(1e-7)) < n1 < float(cps.cf.N1(4.99)):
            close(float(cps.cf.N1(float(t))), n1, 'age and level in same row', rtol=.05 if t > .01 else 1., atol=float(cps.cf.N1(.005)))


def prepare(case, ctx):
    d, files = build(case, ctx)
    pfn, cfn = case['system']

    def new(items):
        return gen.make_cps(pfn, cfn, [plot(case, it, files) for it in items], ref_diameter=case['ref'], mu=case['mu'])
    cps = new(case['items'])
    for cp in cps.craterplot:
        if cp.type in FIT and not usable(cps, cp):
            raise Skip()
    return d, files, new, cps


def verify(text, cps_one, items):
    ev = [it for it in items if it['type'] != 'data']
    if not ev:
        check(not text, 'table for no evaluations: %r', text)
        return 0
    h, rows = rows_of(text)
    eq(h[:16], HEAD, 'header')
    eq(len(rows), len(ev), 'rows')
    singles = []
    for it in ev:
        c = cps_one([it])
        cp = c.craterplot[0]
        with quiet():
            cp.calculate_age(c)
        singles.append((c, cp))
    for i, ((c, cp), row) in enumerate(zip(singles, rows)):
        eq(h[16:19], ['N(%g)' % c.ref_diameter + s for s in ('', '-', '+')], 'N(d_ref) columns')
        ts = [float(q.t[0]) for _, q in singles]
        rank = sum(1 for j, t in enumerate(ts) if t > ts[i] or t == ts[i] and j < i)
        got = int(row[9])
        if not any(abs(t - ts[i]) <= 1e-12 * ts[i] and j != i for j, t in enumerate(ts)):
            eq(got, rank, 'rank')
        check_row(h, row, c, cp, got, False)
        closed_form(c, cp)
    eq(sorted(int(r[9]) for r in rows), list(range(len(rows))), 'ranks')
    return len(ev)


def body(case, ctx):
    d, files, new, cps = prepare(case, ctx)
    f = os.path.join(d, 'table.csv')
    with quiet():
        t = cps.create_summary_table(f)
        t2 = cps.create_summary_table()
    check(t == t2, 'second table differs')
    n = verify(t, new, case['items'])
    if n:
        check(open(f, encoding='utf-8-sig').read() == t, 'file and returned text differ')
        check(open(f, 'rb').read(3) == b'\xef\xbb\xbf', 'no byte-order mark for spreadsheet')
    else:
        check(not os.path.exists(f), 'file written for no evaluations')
    ctx.nontrivial(n > 1)
    for it in case['items']:
        ctx.label(it['type'] + ('+resurf' if it['resurf'] and it['type'] == 'c-fit' else ''))


def body_cli(case, ctx):
    """command line: the table written is that of the overplots given"""
    d, files, new, cps = prepare(case, ctx)
    a = ['-cs', case['sysname'], '-f', 'csv', '-o', os.path.join(d, 'o'), '-ref_diameter', '%r' % case['ref'], '-pr', case['pr'], '-mu', str(case['mu'])]
    for cp, it in zip(cps.craterplot, case['items']):
        s = ['source=' + cp.source, 'type=' + cp.type, 'range=[%s]' % ','.join(str(e) for e in it['range']), 'binning=' + cp.binning,
             'snap=%d' % it['snap'], 'resurf=%d' % it['resurf'], 'hide=%d' % it['hide']]
        if it['name']:
            s.append('name=' + it['name'])
        a += ['-p', ','.join(s)]
    with quiet():
        cli.main(a)
    p = os.path.join(d, 'o.csv')
    t = open(p, encoding='utf-8-sig').read() if os.path.exists(p) else None
    n = verify(t, new, case['items'])
    ctx.nontrivial(n > 1)
    ctx.label(case['pr'])


@st.composite
def count(draw):
    c = draw(gen.counts(min_size=3, max_size=60, lo=-1, hi=1)) if draw(st.booleans()) else {
        'd': draw(st.lists(gen.log_diams(-.7, 1.), min_size=12, max_size=60)), 'f': None, 'area': draw(st.sampled_from([100., 1000., 12345.6]))}
    c['scc'] = draw(st.booleans())
    c['perimeter'] = gen.r6(np.sqrt(c['area']) * draw(st.integers(36, 90)) / 10.)
    c['name'] = draw(st.sampled_from(['a', 'Mare X', 'x, y', 'b (1)']))
    c['stat'] = draw(st.sampled_from([None, None, None, None, None] + gen.BINNINGS))
    return c


@st.composite
def item(draw):
    t = draw(st.sampled_from(['data', 'poisson', 'poisson', 'b-poisson', 'c-fit', 'c-fit', 'd-fit']))
    lo = draw(st.integers(-13, 8)) / 10.
    r = draw(st.one_of(st.just(['0', 'inf']), st.just(['%.3g' % 10 ** lo, '%.3g' % 10 ** (lo + draw(st.integers(2, 15)) / 10.)]),
                       st.just(['%.3g' % 10 ** lo, 'inf']), st.tuples(st.integers(1, 4), st.integers(1, 3)).map(lambda a: ['b%d' % a[0], 'b-%d' % a[1]])))
    b = draw(st.sampled_from(gen.BINNINGS + (['none'] if t in ('poisson', 'c-fit') and r[0][0] != 'b' else [])))
    return {'src': draw(st.integers(0, 2)), 'type': t, 'range': r, 'binning': b, 'snap': draw(st.sampled_from([1, 1, 0])),
            'resurf': draw(st.integers(0, 1)) if t in ('c-fit', 'd-fit') else 0, 'hide': draw(st.sampled_from([0, 0, 0, 1])),
            'name': draw(st.sampled_from(['', '', 'Area 1', 'a, b', "O'Neil", 'µ é', '5']))}


@st.composite
def cases(draw, cl=False):
    s = draw(st.sampled_from([s for s in gen.SYSTEMS if [s[1], s[2]] in SYSTEMS]))
    c = {'sysname': s[0], 'system': [s[1], s[2]], 'counts': draw(st.lists(count(), min_size=1, max_size=3)), 'items': draw(st.lists(item(), min_size=1, max_size=6 if not cl else 4)),
         'ref': draw(st.sampled_from([1., 1., 10., .5, 1.25, .1])), 'mu': draw(st.integers(0, 1))}
    if cl:
        c['pr'] = draw(st.sampled_from(['differential', 'cumulative', 'R-plot', 'Hartmann']))
    return c


SUBS = [
    Sub('table', cases(), body, quick=450, shards=5, rule='two or more evaluations'),
    Sub('cli', cases(True), body_cli, quick=160, shards=3, rule='two or more evaluations'),
]
