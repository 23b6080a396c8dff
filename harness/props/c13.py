import csv
import os

import numpy as np
from hypothesis import strategies as st
from scipy.special import betainc, gammaincinv
from scipy.stats import gamma as gamma_dist

import craterstats as cst
import craterstats.cli as cli
from .. import gen
from ..core import Sub, check, close, eq, Skip, quiet, cwd
from .c11 import Ref, SYSTEMS, CC

PROPERTY = 'C13'
RULE = ('pairs and lists (2-6) of counts with k from 0 to 10^4 and area ratios over six decades, all systems, tables from the '
        'API and from the command line; oracle: closed form for two gamma posteriors (regularised beta function, or quadrature '
        'when truncated at 5 Ga); non-trivial when the probability is between 0.001 and 0.999')
P16, W16 = np.polynomial.legendre.leggauss(300)


def ref_prob(a, b):
    """P(first older than second) for two Ref objects"""
    if a.norm > 1 - 1e-7 and b.norm > 1 - 1e-7:
        return float(betainc(b.k + 1, a.k + 1, b.lam1 / (a.lam1 + b.lam1)))
    p = (P16 + 1) / 2
    la = gammaincinv(a.k + 1, p * a.norm)
    return float(np.sum(W16 / 2 * np.array([b.F(v / a.lam1 * b.lam1) for v in la])))


def one(case_i, pf, cf):
    """Craterpdf and closed form for {'t','k','u','off'}"""
    lo, hi = [float(v) for v in pf.range]
    u = case_i['u']
    r = [10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * v / 1000.) for v in (u, u + 80)]
    a = float(cf.a0(case_i['t']))
    dC = float(pf.evaluate('cumulative', r[0], a) - pf.evaluate('cumulative', r[1], a))
    if not dC > 0:
        raise Skip()
    area = max(case_i['k'], .7) / dC * 10 ** case_i['off']
    ref = Ref(pf, cf, r, area, case_i['k'])
    if ref.lam1 * 1e-10 > 1e-4 or (case_i['k'] + 1) / ref.lam1 < 1e-8 or ref.norm < 1e-3:
        raise Skip()
    return cst.Craterpdf(pf, cf, CC(area), r, k=case_i['k']), ref


def body_pair(case, ctx):
    pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    b0 = dict(case['b'], t=min(4.9, case['a']['t'] * case['rel']))
    (p1, r1), (p2, r2) = one(case['a'], pf, cf), one(b0, pf, cf)
    P = float(p1.calculate_sequence_probability(p2))
    Q = float(p2.calculate_sequence_probability(p1))
    check(0 <= P <= 1, 'probability %r', P)
    tol = .006 * (1.3 if r1.step > .0088 else 1)
    close(P, ref_prob(r1, r2), 'probability that first (k=%d) is older than second (k=%d)' % (r1.k, r2.k), rtol=0, atol=tol)
    close(P + Q, 1., 'sum of both orders', rtol=0, atol=2e-3)
    close(float(p1.calculate_sequence_probability(p1)), .5, 'identical distributions', rtol=0, atol=1e-6)
    # denser first count: more probably older
    c = dict(case['a'])
    p3 = cst.Craterpdf(pf, cf, CC(1.), [1., 2.], k=r1.k, lam=np.asarray(p1.lam) / case['denser'])
    P3 = float(p3.calculate_sequence_probability(p2))
    check(P3 >= P - 1e-4, 'probability falls from %r to %r for a first count %r times denser', P, P3, case['denser'])
    ctx.nontrivial(.001 < P < .999)
    ctx.label('k<10' if min(r1.k, r2.k) < 10 else 'k<1000' if min(r1.k, r2.k) < 1000 else 'k>=1000')
    if min(r1.norm, r2.norm) < .99:
        ctx.label('truncated at 5 Ga')


def parse(text):
    lines = text.split('\n')
    eq(lines[0], 'Table of probability that t(x)>t(y)', 'heading')
    return [next(csv.reader([l])) if l else [] for l in lines[1:]]


def check_table(text, names, pdfs, refs, cf):
    n = len(names)
    rows = parse(text)
    eq(rows[0], [''] + names, 'column names')
    M = {}
    for i in range(n):
        row = rows[1 + i]
        eq(row[0], names[i], 'name of row %d' % i)
        eq(len(row), n + 1, 'columns of row %d' % i)
        for j in range(n):
            if i == j:
                eq(row[j + 1], '', 'diagonal')
            else:
                M[i, j] = float(row[j + 1])
    for (i, j), v in M.items():
        check(0 <= v <= 1, 'cell %r', v)
        # column x older than row y
        want = ref_prob(refs[j], refs[i])
        ok = False
        check(abs(v - want) <= .009 + .06 * want, 'cell row %s, column %s: %r, expected probability %r that column is older', names[i], names[j], v, want)
        own = float(pdfs[j].calculate_sequence_probability(pdfs[i]))
        for w, what in ((own, 'column older than row'), (1 - float(pdfs[i].calculate_sequence_probability(pdfs[j])), 'complement of row older than column')):
            step = .5 * 10. ** (np.floor(np.log10(w)) - 1) if w > 1e-9 else 1e-9
            ok = ok or abs(v - w) <= step * 1.01 + 1e-4 * w + 2e-9
        check(ok, 'cell row %s, column %s: %r is not the probability %r to two figures', names[i], names[j], v, own)
        check(abs(v + M[j, i] - 1) <= .011 or min(v, M[j, i]) < .1 and abs(v + M[j, i] - 1) <= .011 + .0051, 'cells %r and %r do not sum to one', v, M[j, i])
        small = min(v, M[j, i])
        big = max(v, M[j, i])
        check(abs(big - (1 - small)) <= .0051, 'cell %r is not the complement of %r', big, small)
    k = next(i for i, r in enumerate(rows) if r and r[0] == 't_median:')
    t = [float(p.t(.5)) for p in pdfs]
    eq(rows[k][1:], ['%.3g' % v for v in t], 'median ages')
    eq(rows[k + 1], ['mean(t_median):', '%.4g' % (sum(t) / n)], 'mean age')
    i = next(i for i, r in enumerate(rows) if r and r[0].startswith('Probability of more distant'))
    v = float(rows[i + 1][1])
    check(0 <= v <= 1, 'probability of simultaneous formation %r', v)
    # independent evaluation: likelihoods re-centred on the mean age, compared with their joint value at the medians
    tm = sum(t) / n
    if max(r.k for r in refs) <= 400 and all(r.norm > .9999 for r in refs) and tm < 4.5:
        g = np.unique(np.concatenate([np.geomspace(tm / 50, min(tm * 30, 5.), 6000), np.linspace(max(tm - .5, 1e-9), min(tm + .5, 5.), 6000)]))
        N = np.asarray(cf.N1(g), float)
        L = np.zeros(len(g))
        c = 0.
        phi = np.asarray(cf.phi(g), float)
        for r, ti in zip(refs, t):
            s = r.lam1 / r.n1 * float(cf.N1(ti)) / float(cf.N1(tm))
            with np.errstate(divide='ignore'):
                L += np.log(phi) + gamma_dist.logpdf(N * s, r.k + 1)
                c += np.log(float(cf.phi(ti))) + gamma_dist.logpdf(float(cf.N1(ti)) * s, r.k + 1)
        w = np.exp(L - L.max())
        dt = np.gradient(g)
        want = float(np.sum((w * dt)[L < c]) / np.sum(w * dt))
        cell = refs[0].step * np.sqrt(sum(r.k + 1 for r in refs))  # probability of one sampling step at the peak
        check(abs(v - want) < .03 + .03 * want + cell, 'probability of simultaneous formation %r, expected %r', v, want)
    return M


def body_table(case, ctx):
    pfn, cfn = case['system']
    pf, cf = gen.pf(pfn), gen.cf(cfn)
    cpl, names, refs = [], [], []
    lo, hi = [float(v) for v in pf.range]
    for i, it in enumerate(case['items']):
        u = it['u']
        r = [gen.r6(10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * v / 1000.)) for v in (u, u + 80)]
        a = float(cf.a0(it['t']))
        dC = float(pf.evaluate('cumulative', r[0], a) - pf.evaluate('cumulative', r[1], a))
        if not dC > 0:
            raise Skip()
        k = it['k']
        area = gen.r6(max(k, .7) / dC)
        ref = Ref(pf, cf, r, area, k)
        if ref.lam1 * 1e-10 > 1e-4 or (k + 1) / ref.lam1 < 1e-8 or ref.norm < 1e-3:
            raise Skip()
        d = [gen.r6(v) for v in np.geomspace(r[0] * 1.01, r[1] / 1.01, k)] if k else [gen.r6(r[0] * .5)]
        p = gen.write_diam(os.path.join(ctx.tmpdir(), 'c%d.diam' % i), d, area=area)
        cp = cst.Craterplot(source=p, range=['%r' % r[0], '%r' % r[1]], type=it['type'], snap=0, hide=it['hide'], name=it['name'] + str(i))
        cpl.append(cp)
        if it['type'] == 'poisson' and not it['hide']:
            names.append(it['name'] + str(i))
            refs.append(ref)
    f = os.path.join(ctx.tmpdir(), 'out.csv')
    if case['cli']:
        a = ['-cs', case['sysname'], '-pr', 'sequence', '-st', '-f', 'csv', '-o', f[:-4]]
        for cp, it in zip(cpl, case['items']):
            a += ['-p', 'source=%s,range=[%r,%r],snap=0,type=%s,hide=%d,name=%s' % (
                (cp.source,) + tuple(float(v) for v in cp.range) + (it['type'], it['hide'], cp.name))]
        with quiet(), cwd(os.path.dirname(f)):
            cli.main(a)
        f = f[:-4] + '_sequence.csv'
    else:
        cps = gen.make_cps(pfn, cfn, cpl)
        with quiet():
            cps.create_sequence_table(f)
    if len(names) < 2:
        check(not os.path.exists(f), 'sequence table written for %d evaluations', len(names))
        ctx.label('too few')
        return
    check(os.path.exists(f), 'sequence table not written to %s', os.path.basename(f))
    pdfs = [cst.Craterpdf(pf, cf, cp.cratercount, cp.range) for cp, it in zip(cpl, case['items']) if it['type'] == 'poisson' and not it['hide']]
    M = check_table(open(f).read(), names, pdfs, refs, cf)
    ctx.nontrivial(any(.001 < v < .999 for v in M.values()))
    ctx.label('%d surfaces' % len(names))


K = st.one_of(st.integers(0, 12), st.integers(0, 300), st.integers(0, 10000))
ITEM = {'t': st.integers(1, 4700).map(lambda i: i / 1000.), 'k': K, 'u': st.integers(0, 900),
        'off': st.one_of(st.just(0.), st.integers(-100, 100).map(lambda i: i / 100.))}
REL = st.one_of(st.integers(900, 1100), st.integers(300, 3000)).map(lambda i: i / 1000.)


@st.composite
def lists(draw):
    t = draw(st.integers(5, 4400)) / 1000.
    n = draw(st.integers(2, 6))
    out = []
    for i in range(n):
        out.append({'t': min(4.6, gen.r6(t * draw(REL))), 'k': draw(st.one_of(st.integers(0, 12), st.integers(0, 200))), 'u': draw(st.integers(0, 900)),
                    'type': draw(st.sampled_from(['poisson'] * 5 + ['data', 'd-fit'])), 'hide': draw(st.sampled_from([0, 0, 0, 0, 1])),
                    'name': draw(st.sampled_from(['A', 'Mare X', 'crater, E', 'x', 'so "named", F'])) })
        if out[-1]['k'] < 12 and out[-1]['type'] == 'd-fit':
            out[-1]['type'] = 'data'  # fit to a range without bin centres is refused
    return out


@st.composite
def tables(draw):
    s = draw(st.sampled_from([s for s in gen.SYSTEMS if [s[1], s[2]] in SYSTEMS]))
    c = {'sysname': s[0], 'system': [s[1], s[2]], 'items': draw(lists()), 'cli': draw(st.sampled_from([False, False, True]))}
    if c['cli']:
        for e in c['items']:
            e['name'] = e['name'].replace(', ', '-')
    return c


SUBS = [
    Sub('pair', st.fixed_dictionaries({'system': st.sampled_from(SYSTEMS), 'a': st.fixed_dictionaries(ITEM), 'b': st.fixed_dictionaries(ITEM),
                                       'rel': REL, 'denser': st.integers(100, 300).map(lambda i: i / 100.)}),
        body_pair, quick=500, shards=3, rule='probability between 0.001 and 0.999'),
    Sub('table', tables(), body_table, quick=200, shards=4, rule='two or more visible Poisson evaluations, some cell between 0.001 and 0.999'),
]
