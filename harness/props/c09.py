import mpmath
import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from .. import gen
from ..core import Sub, check, close, eq

PROPERTY = 'C09'
RULE = ('every built-in chronology function with coefficients plus generated coefficient sets (lunar-type exponential + linear, '
        'purely linear, strongly exponential) x ages in 0-5 Ga (log- and linearly distributed, 0, 5); oracle: the formula in '
        'mpmath; inverse compared to bisection within the interpolation error; non-trivial when some age is inside (0,5)')
CFS = [n for n in gen.CF_NAMES if any(e['name'] == n and 'coefficients' in e for e in gen.FUNCTIONS['chronology'])]


def build(spec):
    if isinstance(spec, str):
        return cst.Chronologyfn(gen.FUNCTIONS, spec), [float(v) for v in next(
            e for e in gen.FUNCTIONS['chronology'] if e['name'] == spec)['coefficients']]
    txt = 'chronology={\n name="gen"\n coefficients=[%s]\n}' % ', '.join('%r' % v for v in spec)
    return cst.Chronologyfn(txt, 'gen'), spec


def n1(p, t):
    t = mpmath.mpf(t)
    return mpmath.mpf(p[0]) * (mpmath.expm1(mpmath.mpf(p[1]) * t)) + mpmath.mpf(p[3]) * t


def phi(p, t):
    t = mpmath.mpf(t)
    return mpmath.mpf(p[0]) * mpmath.mpf(p[1]) * mpmath.exp(mpmath.mpf(p[1]) * t) + mpmath.mpf(p[3])


def body_forward(case, ctx):
    mpmath.mp.dps = 30
    f, p = build(case['cf'])
    t = np.array(case['t'])
    want = [float(n1(p, v)) for v in t]
    # exp(x)-1 loses up to 1e-16 absolute in the bracket
    close(f.N1(t), want, 'N1', rtol=1e-11, atol=4e-16 * abs(p[0]))
    close([f.N1(float(v)) for v in t], want, 'N1 of single ages', rtol=1e-11, atol=4e-16 * abs(p[0]))
    close(f.phi(t), [float(phi(p, v)) for v in t], 'impact rate', rtol=1e-11)
    close([f.phi(float(v)) for v in t], [float(phi(p, v)) for v in t], 'impact rate of single ages', rtol=1e-11)
    eq(float(f.N1(0.)), 0., 'N1 at age zero')
    q = t > 1e-6
    if q.any():
        close(f.a0(t[q]), [float(mpmath.log10(n1(p, v))) for v in t[q]], 'a0', rtol=1e-7, atol=1e-7)
    s = np.unique(t)
    check(np.all(np.diff(f.N1(s))[np.diff(s) > 1e-9] > 0), 'N1 not increasing over %r', s.tolist())
    # rate is the derivative: difference quotient of N1 between neighbouring ages lies between the end rates (convex)
    for a, b in zip(s[:-1], s[1:]):
        if b - a > 1e-3:
            r = (f.N1(b) - f.N1(a)) / (b - a)
            check(f.phi(a) * (1 - 1e-9) <= r <= f.phi(b) * (1 + 1e-9), 'mean rate %r between %r and %r Ga not between %r and %r',
                  r, a, b, f.phi(a), f.phi(b))
    ctx.nontrivial(bool(np.any((t > 0) & (t < 5))))
    ctx.label('builtin' if isinstance(case['cf'], str) else 'generated')


def tol(p, t):
    """bound on the interpolation error in age: h^2/8 max N''/N' on the interval"""
    h = 5. / 999
    a = p[0] * p[1] ** 2 * np.exp(p[1] * min(t + h, 5.))
    b = p[0] * p[1] * np.exp(p[1] * max(t - h, 0.)) + p[3]
    return h ** 2 / 8 * a / b * 1.2 + 1e-11


def body_inverse(case, ctx):
    f, p = build(case['cf'])
    t = np.sort(np.array(case['t']))
    n = np.array([float(n1(p, v)) for v in t])
    got = np.asarray(f.t(n1=n), float)
    for a, b in zip(got, t):
        check(abs(a - b) <= tol(p, b), 'age %r converted to density and back gives %r (tolerance %.3g)', float(b), float(a), tol(p, b))
    check(np.all(np.diff(got) >= 0), 'conversion to age does not preserve order: %r -> %r', n.tolist(), got.tolist())
    check(np.all(np.diff(got)[np.diff(t) > 1e-9] > 0), 'distinct ages %r merge to %r', t.tolist(), got.tolist())
    q = n > 0
    close(f.t(np.log10(n[q])), got[q], 'age from a0 vs from N1', rtol=1e-9, atol=1e-12)
    close(f.t(a0=np.log10(n[q])), got[q], 'age from keyword a0', rtol=1e-9, atol=1e-12)
    for v, w in zip(n[q], got[q]):
        close(float(f.t(float(np.log10(v)))), float(w), 'age of a single level', rtol=1e-9, atol=1e-12)
    # saturation
    n5 = float(n1(p, 5))
    for x in case['beyond']:
        close(float(f.t(n1=n5 * (1 + x))), 5., 'age of density above that of 5 Ga', rtol=1e-12)
        close(float(f.t(a0=-30. - x)), 0., 'age of vanishing density', rtol=0, atol=1e-9)
        eq(float(f.t(n1=-x)), 0., 'age of non-positive density')
    eq(float(f.t(n1=0.)), 0., 'age of zero density')
    # level zero is a level, not a missing value
    close(float(f.t(a0=0.)), float(f.t(n1=1.)), 'age of level 0', rtol=1e-9)
    ctx.nontrivial(bool(np.any((t > 0) & (t < 5))))


def body_plot(case, ctx):
    f, p = build(case['cf'])
    for ph in (False, True):
        t, y = f.getplotdata(phi=ph, linear=case['linear'])
        eq(np.shape(t), np.shape(y), 'shape')
        check(np.all(np.diff(t) > 0), 'ages not increasing')
        check(len(t) >= 100, 'only %d points', len(t))
        check(t[0] <= 1e-8 and abs(t[-1] - 5) < 1e-9, 'curve covers %r-%r Ga', t[0], t[-1])
        i = np.array(case['i']) % len(t)
        g = phi if ph else n1
        close(np.asarray(y)[i], [float(g(p, float(t[k]))) for k in i], 'curve (phi=%s)' % ph, rtol=1e-10, atol=4e-16 * abs(p[0]))
        if case['linear']:
            close(np.diff(t), np.full(len(t) - 1, 5. / (len(t) - 1)), 'linear steps', rtol=1e-6)
        else:
            close(np.diff(np.log10(t)), np.full(len(t) - 1, np.log10(t[-1] / t[0]) / (len(t) - 1)), 'log steps', rtol=1e-6)
    ctx.nontrivial()


@st.composite
def coeffs(draw):
    kind = draw(st.sampled_from(['lunar', 'linear', 'steep', 'free']))
    e = st.integers(-600, 600).map(lambda i: i / 100.)
    if kind == 'lunar':
        return [gen.r6(5.44e-14 * 10 ** (draw(e) / 6)), 6.93, 0., gen.r6(8.38e-4 * 10 ** (draw(e) / 6))]
    if kind == 'linear':
        return [0., 1., 0., gen.r6(10 ** (draw(e) / 2 - 3))]
    if kind == 'steep':
        return [gen.r6(10 ** (draw(e) / 3 - 12)), gen.r6(draw(st.integers(500, 1500)) / 100.), 0., gen.r6(10 ** (draw(e) / 3 - 4))]
    return [gen.r6(10 ** (draw(e) - 6)), gen.r6(draw(st.integers(10, 800)) / 100.), 0., gen.r6(10 ** (draw(e) - 4))]


CF = st.one_of(st.sampled_from(CFS), coeffs())
T = st.one_of(st.integers(0, 5000).map(lambda i: i / 1000.), st.integers(-60, 7).map(lambda i: min(10 ** (i / 10.), 5.)),
              st.sampled_from([0., 5., 1., 4.5, 3.8, .005]))
TS = st.lists(T, min_size=1, max_size=12)
SUBS = [
    Sub('forward', st.fixed_dictionaries({'cf': CF, 't': TS}), body_forward, quick=800, shards=2, rule='age inside (0,5)',
        examples=[{'cf': n, 't': [0., 1e-6, 1e-3, .5, 3.5, 4., 5.]} for n in CFS]),
    Sub('inverse', st.fixed_dictionaries({'cf': CF, 't': TS, 'beyond': st.lists(st.integers(0, 1000).map(lambda i: i / 100.), max_size=2)}),
        body_inverse, quick=800, shards=3, rule='age inside (0,5)',
        examples=[{'cf': n, 't': [0., 1e-6, 1e-3, .5, 3.5, 4., 5.], 'beyond': [.1]} for n in CFS]),
    Sub('plot', st.fixed_dictionaries({'cf': CF, 'linear': st.booleans(), 'i': st.lists(st.integers(0, 999), min_size=3, max_size=10)}),
        body_plot, quick=150, rule='all'),
]
