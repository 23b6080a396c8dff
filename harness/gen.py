"""shared generators: boundary-heavy diameters, counts, areas; and writers producing the input files"""
import math
import os

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.gm as gm

BINNINGS = ['pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2']
ALL_BINNINGS = BINNINGS + ['none']
PSEUDO = [1., 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6., 7., 8., 9.]

FUNCTIONS = cst.Functionslist().functions
SYSTEMS = [(e['name'], e['pf'], e['cf']) for e in FUNCTIONS['chronology_system']]
EQUILIBRIA = [e['name'] for e in FUNCTIONS['equilibrium']]
EPOCHS = [e['name'] for e in FUNCTIONS['epochs']]
PF_NAMES = [e['name'] for e in FUNCTIONS['production']]
CF_NAMES = [e['name'] for e in FUNCTIONS['chronology']]


def r6(x, n=6):
    return float('%.*g' % (n, x))


def log_diams(lo=-2., hi=2., digits=5):
    """log-uniform, rounded to a few digits as measured values are"""
    a, b = int(round(lo * 1000)), int(round(hi * 1000))
    return st.integers(a, b).map(lambda i: r6(10 ** (i / 1000.), digits))


@st.composite
def lattice_diams(draw, lo=-2, hi=2):
    """values on (or one ulp beside) some bin boundary of some style"""
    kind = draw(st.sampled_from(['decade', 'pseudo', 'two', 'root2', 'root4', 'ten', 'twenty', 'half']))
    n10 = st.integers(lo, hi - 1)
    n2 = st.integers(int(lo * 3.2), int(hi * 3.2))
    if kind == 'decade':
        v = 10. ** draw(st.integers(lo, hi))
    elif kind == 'pseudo':
        v = draw(st.sampled_from(PSEUDO)) * 10. ** draw(n10)
        v = v if draw(st.booleans()) else r6(v, 3)
    elif kind == 'two':
        v = 2. ** draw(n2)
    elif kind == 'root2':
        v = 2. ** (draw(n2) + .5)
    elif kind == 'root4':
        v = 2. ** (draw(n2) + draw(st.sampled_from([.25, .75])))
    elif kind == 'ten':
        v = 10. ** (draw(n10) + draw(st.integers(1, 9)) / 10.)
    elif kind == 'twenty':
        v = 10. ** (draw(n10) + draw(st.integers(1, 19)) / 20.)
    else:
        v = draw(st.sampled_from([.5, .25, .125, .1, .2, .3, .7, .015, .03, 1.5, 15.]))
    side = draw(st.sampled_from([0, 0, 0, -1, 1]))
    if side:
        v = float(np.nextafter(v, v + side))
    return float(v)


def diams(lo=-2, hi=2):
    return st.one_of(log_diams(lo, hi), log_diams(lo, hi), lattice_diams(lo, hi))


@st.composite
def diam_lists(draw, min_size=1, max_size=40, lo=-2, hi=2, dup=True):
    """realistic shapes: spread over a wide range, clustered in a narrow one, with ties, or a single crater"""
    narrow = draw(st.booleans())
    if narrow:
        c = draw(st.integers(int(lo * 10), int(hi * 10) - 5)) / 10.
        el = st.one_of(log_diams(c, c + .5), log_diams(c, c + .5), lattice_diams(lo, hi))
    else:
        el = diams(lo, hi)
    d = draw(st.lists(el, min_size=min_size, max_size=max_size))
    if dup and d and draw(st.booleans()):
        d = d + draw(st.lists(st.sampled_from(d), min_size=0, max_size=5))
    return d


FRACS = st.one_of(st.just(1.), st.just(1.), st.integers(1, 999).map(lambda i: i / 1000.), st.sampled_from([.5, .25]))
AREAS = st.one_of(st.sampled_from([1., 100., 1e4]), st.integers(-2000, 7500).map(lambda i: r6(10 ** (i / 1000.), 5)))


@st.composite
def counts(draw, min_size=1, max_size=40, fractions=None, lo=-2, hi=2, areas=AREAS):
    """{'d': [...], 'f': [...] or None, 'area': float}"""
    d = draw(diam_lists(min_size, max_size, lo, hi))
    use = draw(st.booleans()) if fractions is None else fractions
    f = draw(st.lists(FRACS, min_size=len(d), max_size=len(d))) if use else None
    return {'d': d, 'f': f, 'area': draw(areas)}


@st.composite
def bulk(draw, lo=-2, hi=2, areas=AREAS):
    """description of a large count, see expand"""
    a = draw(st.integers(lo * 10, hi * 10 - 8)) / 10.
    return {'bulk': [draw(st.sampled_from([60, 200, 600, 1500])), draw(st.integers(0, 10 ** 6)), a, draw(st.sampled_from([min(a + .8, hi), hi, hi]))],
            'slope': draw(st.sampled_from([0., 0., .5, 2., 3.])), 'frac': draw(st.booleans()), 'area': draw(areas)}


def expand(c):
    """{'d', 'f', 'area'} of a large count: power law of diameters within limits, rounded as measured values are"""
    if 'bulk' not in c:
        return c
    n, seed, a, b = c['bulk']
    rng = np.random.default_rng(seed)
    k = c['slope']
    u = rng.random(n)
    x = a + (b - a) * u if k == 0 else -np.log10(u * (10 ** (-k * b) - 10 ** (-k * a)) + 10 ** (-k * a)) / k
    d = [r6(10 ** v, 4) for v in x]
    return {'d': d, 'f': [float(v) for v in np.round(np.where(rng.random(n) < .8, 1., .001 + .998 * rng.random(n)), 3)] if c['frac'] else None, 'area': c['area']}


def write_diam(path, d, f=None, area=1., extra=()):
    s = ['area = %r' % float(area)] + list(extra) + ['crater = {diameter%s' % (', fraction' if f is not None else '')]
    if f is None:
        s += ['%r' % float(a) for a in d]
    else:
        s += ['%r %r' % (float(a), float(b)) for a, b in zip(d, f)]
    s += ['}']
    with open(path, 'w') as g:
        g.write('\n'.join(s) + '\n')
    return path


def write_scc_text(path, d, f=None, area=1., perimeter=None):
    """minimal .scc for non-spatial reading"""
    s = ['Total_area = %r <km^2>' % float(area)]
    if perimeter is not None:
        s += ['Perimeter = %r <km>' % float(perimeter)]
    s += ['crater = {diam, fraction, lon, lat']
    f = [1.] * len(d) if f is None else f
    s += ['%r\t%r\t0.0\t0.0' % (float(a), float(b)) for a, b in zip(d, f)]
    s += ['}']
    with open(path, 'w') as g:
        g.write('\n'.join(s) + '\n')
    return path


def make_count(ctx, c, name='count', kind='diam'):
    """Cratercount read from a file holding the generated count"""
    p = os.path.join(ctx.tmpdir(), name + '.' + kind)
    if kind == 'diam':
        write_diam(p, c['d'], c.get('f'), c['area'])
    else:
        write_scc_text(p, c['d'], c.get('f'), c['area'], c.get('perimeter'))
    return cst.Cratercount(p)


_pf = {}
_cf = {}


def pf(name):
    return cst.Productionfn(FUNCTIONS, name)


def cf(name):
    return cst.Chronologyfn(FUNCTIONS, name)


def exact_bins_index(d, binning):
    """index on the infinite lattice of the style, for half-open bins (no rounding care: oracle for non-boundary d)"""
    l = math.log10(d)
    if binning == 'pseudo-log':
        k = math.floor(l)
        m = d / 10. ** k
        return k * 18 + max(i for i, a in enumerate(PSEUDO) if a <= m or i == 0)
    per = {'x2': 1 / math.log10(2), 'root-2': 2 / math.log10(2), '4th root-2': 4 / math.log10(2), '10/decade': 10,
           '20/decade': 20}[binning]
    return math.floor(l * per)


def lattice_index(b, binning):
    """(nearest lattice index, relative distance to it)"""
    l = math.log10(b)
    if binning == 'pseudo-log':
        best = None
        for k in (math.floor(l) - 1, math.floor(l), math.floor(l) + 1):
            for i, a in enumerate(PSEUDO):
                v = a * 10. ** k
                r = abs(v / b - 1)
                if best is None or r < best[1]:
                    best = (k * 18 + i, r)
        return best
    per = {'x2': 1 / math.log10(2), 'root-2': 2 / math.log10(2), '4th root-2': 4 / math.log10(2), '10/decade': 10.,
           '20/decade': 20.}[binning]
    i = round(l * per)
    return i, abs(10 ** (i / per) / b - 1)


def is_boundary(v, binning):
    """is v, as written in decimal digits, exactly a boundary of the style?"""
    if binning == 'pseudo-log':
        m, e = ('%.16e' % v).split('e')
        return v == r6(v, 2) and float('%.1f' % float(m)) in PSEUDO
    if binning[1:] == '0/decade':
        return v == float('1e%d' % round(math.log10(v)))
    return math.frexp(v)[0] == .5


def ref_bins(d, binning):
    """boundaries of the style from (at least) one bin below the smallest to one bin above the largest value"""
    lo, hi = min(d), max(d)
    if binning == 'pseudo-log':
        b = [float('%ge%d' % (a, k)) for k in range(math.floor(math.log10(lo)) - 1, math.ceil(math.log10(hi)) + 2) for a in PSEUDO]
    else:
        per = {'x2': 1 / math.log10(2), 'root-2': 2 / math.log10(2), '4th root-2': 4 / math.log10(2), '10/decade': 10.,
               '20/decade': 20.}[binning]
        i = np.arange(math.floor(math.log10(lo) * per) - 2, math.ceil(math.log10(hi) * per) + 3)
        b = 10. ** (i / per) if binning[1:] == '0/decade' else 2. ** (i / {'x2': 1, 'root-2': 2, '4th root-2': 4}[binning])
    return np.array(b)


def make_cps(pf_name=None, cf_name=None, cpl=(), **k):
    d = {'presentation': 'differential', 'legend': 'fnacr', 'ref_diameter': 1., 'format': {'csv'}, 'out': 'out'}
    if pf_name:
        d['pf'] = pf(pf_name)
    if cf_name:
        d['cf'] = cf(cf_name)
    d.update(k)
    cps = cst.Craterplotset(d)
    cps.craterplot = list(cpl)
    return cps
