import math
import os
import random

import numpy as np
import spherely as sph
from hypothesis import strategies as st
from scipy import stats

import craterstats as cst
import sys
from .. import gen, sphere
from ..draw import figures as draw_figures
from ..core import Sub, check, close, eq, Skip, quiet, cwd

PROPERTY = 'C24'
RULE = ('3-40 craters, uniform or clumped, in generated counting areas (holes, islands, several parts, antimeridian, poles; '
        '0.05-25 degrees) on bodies of 0.25-6371 km, grid resolutions from 1 to 3000 trials; oracle: brute-force great-circle distances '
        'and half-plane clipping in the gnomonic plane; trials checked for number, containment, separation, uniform coverage against '
        'exactly computed sub-areas, independence and repeatability for 1-7 workers; non-trivial with 5+ craters')

RA = sys.modules['craterstats.Randomnessanalysis']
KEYS = ('m2cnd', 'sdaa')


def load(d, reg, R, cr, name='x'):
    p = sphere.write_scc(os.path.join(d, name + '.scc'), R, sphere.scc_rows(reg), cr)
    with quiet(), cwd(d):
        return cst.Randomnessanalysis(p)


def body_measures(case, ctx):
    reg = sphere.Region(case['region'])
    R = case['radius']
    d = ctx.tmpdir()
    ins = sphere.Inside(reg)
    rng = np.random.default_rng(case['seed'])
    clump = case['clump'] and max(case['clump'], 2e-5 / ins.ang)
    # bins relative to the size of the region
    k0 = round(2 * math.log2(ins.ang * R / 20))
    want = {}
    cr = []
    for k, n in ((k0, case['n']), (k0 + 1, case['n2']), (k0 - 3, case['n3'])):
        ll = np.array([[float('%.15f' % e) for e in q] for q in ins.scatter(n, rng, clump)]).reshape(-1, 2)
        if n and case['beyond'] and k == k0:  # centres outside, as of craters overlapping the boundary
            a, t = ins.ang * (1.05 + .4 * rng.random(case['beyond'])), 2 * np.pi * rng.random(case['beyond'])
            c_, e_, f_ = sphere.basis(*ins.ll)
            o = sphere.lonlat(np.cos(a)[:, None] * c_ + np.sin(a)[:, None] * (np.cos(t)[:, None] * e_ + np.sin(t)[:, None] * f_))
            ll = np.concatenate([ll, np.array([[float('%.15f' % e) for e in q] for q in o])])
            n = len(ll)
        if n:
            want['%.3g' % (k / 2)] = ll
        cr += [(float('%.6g' % 2 ** (k / 2 + .05 + .4 * u)), 1., *q) for u, q in zip(rng.random(n), ll)]
    cr = [cr[i] for i in rng.permutation(len(cr))]
    ra = load(d, reg, R, cr)
    fake, cells = {}, {}
    for m, lo in (('m2cnd', 3), ('sdaa', 4)):
        fake[m] = {}
        for b, ll in want.items():
            if len(ll) < lo:
                continue
            if m == 'm2cnd':
                _, a = sphere.near2(ll)
                m0 = a.mean() * R
            else:
                areas = cells[b] = ins.cells(ll) * R * R
                close(areas.sum(), reg.area * R * R, 'harness cells', rtol=1e-6)
                m0 = areas.std()
            t = (m0 * (1 + case['spread'] * (rng.normal(size=case['trials']) + case['bias']))).tolist()
            fake[m][b] = (m0, t)
    with quiet():
        ra.establish_hpx(case['grid'])
        ra.montecarlo = {m: {'n_trials': case['trials'], 'trials': {b: t for b, (_, t) in v.items()}} for m, v in fake.items()}
        ra.calculate_stats()
    ok = False
    for m, v in fake.items():
        s = ra.montecarlo[m]['stats']
        eq(set(s), set(v), 'bins with statistics of ' + m)
        for b, (m0, t) in v.items():
            r = s[b]
            what = '%s of bin %s (%d craters)' % (m, b, len(want[b]))
            if m == 'm2cnd':
                close(r.m0, m0, what, rtol=1e-9)
            else:
                mean = reg.area * R * R / len(want[b])
                close(r.m0, m0, what, rtol=1e-5, atol=2e-5 * mean)
                close(sum(sph.area(p, radius=R) for p in r.p2), ra.area, 'sum of cells', rtol=1e-5)
                eq(len(r.p2), len(want[b]), 'cells')
                close(sorted(sph.area(p, radius=R) for p in r.p2), sorted(cells[b]), 'cell areas', rtol=1e-3, atol=3e-5 * mean)
            close(r.mn, np.mean(t), 'mean of trials', rtol=1e-9)
            close(r.sd, np.std(t), 'sd of trials', rtol=1e-7, atol=1e-12 * abs(m0))
            if r.sd > 1e-6 * abs(r.m0):
                close(r.n_sigma, (r.m0 - r.mn) / r.sd, 'n_sigma', rtol=1e-7, atol=1e-7)
            lo, hi = np.mean(np.array(t) < r.m0 * (1 - 1e-9)), np.mean(np.array(t) <= r.m0 * (1 + 1e-9))
            check(100 * lo - 1e-6 <= r.percentile <= 100 * hi + 1e-6, 'percentile %r of %s, fraction of trials below %r', r.percentile, what, lo)
            if len(want[b]) > 4:
                ok = True
    if ok:
        ctx.nontrivial()
    ctx.label(case['region']['kind'])
    ctx.label('clumped' if case['clump'] else 'uniform')
    if any(np.any(v == 0) for v in cells.values()):
        ctx.label('cells outside')
    ctx.label('%d parts' % len(reg.parts))
    ctx.label('nside %d' % ra.hp.nside)


@st.composite
def measure_cases(draw):
    return {'region': draw(sphere.regions(sizes=(.05, .5, 2., 5., 10., 25.))), 'radius': draw(sphere.RADII), 'n': draw(st.integers(3, 30)),
            'n2': draw(st.integers(0, 6)), 'n3': draw(st.integers(0, 12)), 'seed': draw(st.integers(0, 10 ** 6)),
            'clump': draw(st.sampled_from([0., 0., .3, .03, .003])), 'trials': draw(st.integers(2, 40)),
            'grid': draw(st.sampled_from([1, 3, 10, 50, 300, 300, 3000])), 'spread': draw(st.sampled_from([.01, .1, .5])),
            'bias': draw(st.sampled_from([0., 0., 1., -1., 4., -4.])), 'beyond': draw(st.sampled_from([0, 0, 0, 1, 3, 8]))}


def prepared(ctx, case, reg=None):
    reg = reg or sphere.Region(case['region'])
    R = case['radius']
    ins = sphere.Inside(reg)
    ra = load(ctx.tmpdir(), reg, R, [(1., 1., *ins.scatter(1, np.random.default_rng(0))[0])])
    with quiet():
        ra.establish_hpx(case['grid'])
    return reg, R, ins, ra


def lls(pts):
    return np.array([(sph.get_x(p), sph.get_y(p)) for p in pts])


def body_placement(case, ctx):
    reg, R, ins, ra = prepared(ctx, case)
    n = case['n']
    D = case['cover'] * 2 * math.sqrt(reg.area * R * R / n / math.pi)  # discs of radius D/2 cover about cover**2 of the region
    np.random.seed(case['seed'])
    with quiet():
        pts, ids, hpd = RA.sprinkle_discs_pp(ra.self_pp(1, 'm2cnd'), n, D)
    ll = lls(pts)
    eq(len(ll), n, 'points placed')
    eq(len(ids), n, 'grid numbers')
    bad = ~ins(ll)
    if bad.any():
        check(np.all(ins.distance(ll[bad]) < 1e-7), 'points outside the region: %r', ll[bad])
    v = sphere.xyz(ll)
    a = sphere.angle(v[:, None], v[None]) + 9 * np.eye(n)
    check(a.min() >= D / 2 / R * (1 - 1e-9), 'points %r apart, though erased within %r', a.min() * R, D / 2)
    eq([int(e) for e in ids], [int(ra.hp.lonlat_to_healpix(x * RA.u.deg, y * RA.u.deg)) for x, y in ll], 'grid cells of points')
    eq(sorted(id(p) for k in hpd for p in hpd[k]), sorted(id(p) for p in pts), 'points filed by cell')
    check(all(any(p is e for e in hpd[k]) for p, k in zip(pts, ids)), 'point filed under another cell')
    if n > 4:
        ctx.nontrivial()
    ctx.label(case['region']['kind'])
    ctx.label('cover %g' % case['cover'])


@st.composite
def placement_cases(draw):
    return {'region': draw(sphere.regions(sizes=(.05, .5, 2., 10., 25.))), 'radius': draw(sphere.RADII), 'n': draw(st.integers(3, 60)), 'seed': draw(st.integers(0, 2 ** 31)),
            'cover': draw(st.sampled_from([.02, .1, .3, .6])), 'grid': draw(st.sampled_from([1, 10, 100, 1000, 5000]))}


def body_uniform(case, ctx):
    reg, R, ins, ra = prepared(ctx, case)
    M, per = case['M'], 10
    np.random.seed(case['seed'])
    spp = ra.self_pp(1, 'm2cnd')
    groups = []
    with quiet():
        for _ in range(M // per):
            groups.append(lls(RA.sprinkle_discs_pp(spp, per, 1e-6 * R * ins.ang)[0]))
    ll = np.concatenate(groups)
    p = sphere.to_plane(ins.ll, ll)[0]
    # great circles through the region: number on either side against area
    import shapely
    x0, y0, x1, y1 = ins.shape.bounds
    w = 3 * max(x1 - x0, y1 - y0)
    rng = np.random.default_rng(case['seed'] + 1)
    for k in range(6):
        q = np.array([x0 + (x1 - x0) * rng.random(), y0 + (y1 - y0) * rng.random()])
        t = [0, math.pi / 2, *(2 * math.pi * rng.random(4))][k]
        u, n = np.array([math.cos(t), math.sin(t)]), np.array([-math.sin(t), math.cos(t)])
        half = shapely.Polygon([q - w * u, q + w * u, q + w * u + w * n, q - w * u + w * n])
        g = ins.shape.intersection(half)
        f = sum(sphere.plane_area(ins.ll, e) for e in getattr(g, 'geoms', [g]) if e.geom_type == 'Polygon' and not e.is_empty) / reg.area
        c = int(np.sum((p - q) @ n > 0))
        if .02 < f < .98:
            z = (c - len(p) * f) / math.sqrt(len(p) * f * (1 - f))
            check(abs(z) < 6, '%d of %d random points on one side of a line which has %.4f of the area there: %.1f sigma', c, len(p), f, z)
            # trials independent: numbers per trial binomial, successive ones unrelated
            s = np.array([np.sum((sphere.to_plane(ins.ll, e)[0] - q) @ n > 0) for e in groups])
            zz = (s - per * f) / math.sqrt(per * f * (1 - f))
            G = len(zz)
            kurt = 1 / (per * f * (1 - f)) - 6 / per
            check(abs(np.mean(zz ** 2) - 1) < 6 * math.sqrt((2 + max(kurt, 0)) / G), 'numbers per trial scatter %r times as expected', np.mean(zz ** 2))
            check(abs(np.mean(zz[1:] * zz[:-1])) < 6.5 / math.sqrt(G - 1), 'successive trials related: %r', np.mean(zz[1:] * zz[:-1]))
    eq(len(set(map(tuple, ll.tolist()))), len(ll), 'distinct random points')
    ctx.nontrivial()
    ctx.label(case['region']['kind'])


@st.composite
def uniform_cases(draw):
    return {'region': draw(sphere.regions(sizes=(.5, 5., 25.))), 'radius': draw(sphere.RADII), 'seed': draw(st.integers(0, 2 ** 31)), 'M': 1200,
            'grid': draw(st.sampled_from([30, 300]))}


def reference_trial(ins, n, D, R, rng):
    """later craters erase earlier ones"""
    v = np.zeros((0, 3))
    while len(v) < n:
        ll = ins.scatter(1, rng)
        new = sphere.xyz(ll)
        v = np.concatenate([v[sphere.angle(v, np.broadcast_to(new, v.shape)) * R > D / 2], new])
    return v


def body_parallel(case, ctx):
    reg, R, ins, ra = prepared(ctx, case)
    n, T, m = case['n'], case['T'], case['measure']
    D = case['cover'] * 2 * math.sqrt(reg.area * R * R / n / math.pi)
    out = []
    for w in case['workers']:
        ra.max_threads = w
        np.random.seed(case['seed'])
        with quiet():
            out.append([float(e) for e in RA.montecarlo_pp(ra.self_pp(T, m), D, n)])
    eq(len(out[0]), T, 'number of trials')
    eq(out[1], out[0], 'trials with %d instead of %d workers' % tuple(case['workers'][::-1]))
    eq(len(set(out[0])), T, 'distinct trials')
    # against own simulation
    rng = np.random.default_rng(case['seed'] + 7)
    ref = []
    for _ in range(150):
        ll = sphere.lonlat(reference_trial(ins, n, D, R, rng))
        ref.append(sphere.near2(ll)[1].mean() * R if m == 'm2cnd' else (ins.cells(ll) * R * R).std())
    p = stats.ks_2samp(out[0], ref).pvalue
    check(p > 1e-7, 'trial values %r do not follow the distribution of random configurations (p=%.1e): median %g against %g', m, p, np.median(out[0]), np.median(ref))
    ctx.nontrivial()
    ctx.label(m)
    ctx.label(case['region']['kind'])


@st.composite
def parallel_cases(draw):
    return {'region': draw(sphere.regions(sizes=(.5, 5., 15.), max_parts=2)), 'radius': draw(sphere.RADII), 'seed': draw(st.integers(0, 2 ** 31)),
            'n': draw(st.integers(4, 12)), 'T': draw(st.sampled_from([60, 90])), 'cover': draw(st.sampled_from([.05, .3, .6])), 'measure': draw(st.sampled_from(KEYS)),
            'workers': draw(st.sampled_from([[1, 4], [2, 7], [3, 1]])), 'grid': draw(st.sampled_from([30, 300]))}


def body_chance(case, ctx):
    """random configurations are ranked evenly among trials"""
    reg, R, ins, ra = prepared(ctx, case)
    d = ctx.tmpdir()
    n, m, C, T = case['n'], case['measure'], 24, 60
    k = round(2 * math.log2(case['cover'] * 2 * math.sqrt(reg.area * R * R / n / math.pi)))
    b = 2 ** (k / 2)
    np.random.seed(case['seed'])
    rng = np.random.default_rng(case['seed'] + 3)
    with quiet():
        t = [float(RA.run_trial(ra.self_pp(T, m), b, n, i)) for i in range(T)]
    pc, sg = [], []
    for i in range(C):
        ll = sphere.lonlat(reference_trial(ins, n, b, R, rng))
        r = load(d, reg, R, [(float('%.6g' % (b * 1.1)), 1., *q) for q in ll], name='c%d' % i)
        with quiet():
            r.establish_hpx(case['grid'])
            r.montecarlo = {m: {'n_trials': T, 'trials': {'%.3g' % (k / 2): t}}}
            r.calculate_stats()
        s = r.montecarlo[m]['stats']['%.3g' % (k / 2)]
        pc.append(s.percentile)
        sg.append(s.n_sigma)
    p = stats.ks_2samp(np.array(pc), np.array([100 * (i + .5) / T for i in range(T)])).pvalue
    check(p > 1e-7, 'percentiles of random configurations: %r', sorted(pc))
    check(abs(np.median(sg)) < 1.5, 'random configurations deviate by %.1f sigma', np.median(sg))
    check(np.mean(np.abs(sg) > 3) <= .35, '%.0f %% of random configurations deviate over 3 sigma', 100 * np.mean(np.abs(sg) > 3))
    ctx.nontrivial()
    ctx.label(m)


@st.composite
def chance_cases(draw):
    return {'region': draw(sphere.regions(sizes=(.5, 5., 15.), max_parts=2)), 'radius': draw(sphere.RADII), 'seed': draw(st.integers(0, 2 ** 31)),
            'n': draw(st.integers(5, 12)), 'cover': draw(st.sampled_from([.05, .3, .6])), 'measure': draw(st.sampled_from(KEYS)), 'grid': draw(st.sampled_from([30, 300]))}


def body_repeat(case, ctx):
    """the same command, whatever random numbers were drawn before"""
    reg = sphere.Region(case['region'])
    R = case['radius']
    ins = sphere.Inside(reg)
    ll = ins.scatter(case['n'], np.random.default_rng(case['seed']))
    n = math.sqrt(reg.area * R * R) * .01
    k = round(2 * math.log2(n))
    out = []
    for i in range(2):
        d = ctx.tmpdir()
        sphere.write_scc(os.path.join(d, 'x.scc'), R, sphere.scc_rows(reg), [(float('%.6g' % (1.2 * 2 ** (k / 2))), 1., *q) for q in ll])
        np.random.seed(case['seed'] + i)
        random.seed(case['seed'] - i)
        with cwd(d):
            draw_figures(['-ra', 'x.scc', '-measure', case['measure'], '-trials', str(case['T']), '-select', '0', '-f', 'png'])
        with open(os.path.join(d, 'x_ra.txt')) as f:
            out.append([l for l in f.read().splitlines() if not l.startswith('#')])
    check(len(out[0]) > case['T'], 'no trials stored: %r', out[0][:5])
    eq(out[1], out[0], 'stored results of same command run twice')
    ctx.nontrivial()
    ctx.label(case['measure'])


@st.composite
def repeat_cases(draw):
    return {'region': draw(sphere.regions(sizes=(.5, 5.), max_parts=2)), 'radius': draw(sphere.RADII), 'seed': draw(st.integers(10, 2 ** 31)), 'n': draw(st.integers(4, 9)),
            'T': draw(st.sampled_from([3, 10, 20])), 'measure': draw(st.sampled_from(KEYS))}


SUBS = [
    Sub('measures', measure_cases(), body_measures, quick=500, shards=4, rule='a bin with 5+ craters'),
    Sub('placement', placement_cases(), body_placement, quick=300, rule='5+ points'),
    Sub('uniform', uniform_cases(), body_uniform, quick=16, rule='every case', slow=True),
    Sub('parallel', parallel_cases(), body_parallel, quick=10, rule='every case', slow=True),
    Sub('repeat', repeat_cases(), body_repeat, quick=8, rule='every case', slow=True),
    Sub('chance', chance_cases(), body_chance, quick=16, rule='every case', slow=True),
]
