import math
import re
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.gm as gm
from ..core import Sub, check, close, eq, Skip

PROPERTY = 'C14'
RULE = ('values over 1e-12..1e12 of either sign including rounding carries, decade and unit boundaries and zero, 1-6 figures, all '
        'option combinations; oracle: exact decimal arithmetic on the parsed text; non-trivial when rounding changes the value or '
        'a carry, unit or exponent boundary is involved')

PLAIN = re.compile(r'^-?\d+(\.\d*)?$')


def agree(s, x, sf, what, loose=0.):
    """s is plain decimal text of x rounded to sf figures"""
    check(isinstance(s, str) and PLAIN.match(s) is not None, '%s: %r is not a plain number', what, s)
    if x == 0 or abs(x) < 1e-280:
        check(float(s) == 0, '%s: %r for zero', what, s)
        return
    v, X = Decimal(s.rstrip('.')), Decimal(float(x))
    e = math.floor(math.log10(abs(x)) + 1e-13)  # value just below a decade counts with it: either precision accepted
    half = Decimal(10) ** (e - sf + 1) / 2
    check(abs(v - X) <= half * (1 + Decimal(1e-9)) + Decimal(loose * abs(x)), '%s: %r for %r to %d figures', what, s, x, sf)
    # number of figures: leading zeros don't count; an integer may end in zeros
    digits = s.lstrip('-').replace('.', '').lstrip('0')
    if v != 0:
        if abs(v) < Decimal(10) ** (sf - 1) and sf > 1:
            check('.' in s, '%s: %r has no decimals for %d figures', what, s, sf)
        if '.' in s.rstrip('.'):
            check(len(digits) == sf, '%s: %r does not show %d figures', what, s, sf)
        else:
            check(len(digits.rstrip('0')) <= sf, '%s: %r shows more than %d figures', what, s, sf)
        check((v < 0) == (X < 0), '%s: sign of %r for %r', what, s, x)


def interesting(x, sf):
    if x == 0:
        return True
    m = abs(x) / 10. ** math.floor(math.log10(abs(x)))
    r = round(m, sf - 1)
    return abs(r / m - 1) > 1e-12


@st.composite
def values(draw, lo=-12, hi=12, signed=True, zero=True):
    k = draw(st.integers(0, 5))
    e = draw(st.integers(lo, hi - 1))
    if k == 0:
        v = draw(st.integers(1, 9999)) / 1000. * 10. ** e
    elif k == 1:  # carries
        v = float('9.' + '9' * draw(st.integers(0, 6)) + draw(st.sampled_from(['4', '5', '6', '49', '51', '9', '']))) * 10. ** e
    elif k == 2:
        v = float(np.nextafter(10. ** e, 10. ** (e + draw(st.sampled_from([-1, 0, 1])))))
    elif k == 3:  # halves
        v = (draw(st.integers(1, 999)) + .5) * 10. ** (e - 2)
    elif k == 4 and zero:
        v = 0.
    else:
        v = draw(st.floats(10. ** lo, 10. ** hi, allow_nan=False))
    return -v if signed and draw(st.booleans()) else v


def body_sigfigs(case, ctx):
    x, sf = case['x'], case['sf']
    s = gm.sigfigs(x, sf)
    agree(s, x, sf, 'sigfigs')
    eq(gm.sigfigs([x, 2 * x], sf), [s, gm.sigfigs(2 * x, sf)], 'list')
    eq(gm.sigfigs(np.array([x]), sf), [s], 'array')
    ctx.nontrivial(interesting(x, sf))


def parse_ml(s, mathml):
    """-> dict(mu, value, plus, minus, exp, unit) from latex or MathML text"""
    if mathml:
        m = re.fullmatch(r'<math xmlns="http://www.w3.org/1998/Math/MathML">(?P<mu><mi>&#956;</mi>)?'
                         r'(?:<msubsup><mtext>(?P<v1>[^<]*)</mtext><mtext>&#x2212;(?P<minus>[^<]*)</mtext><mtext>\+(?P<plus>[^<]*)</mtext></msubsup>|(?P<v2>[-.\d]+))'
                         r'(?:<mo>&#183;</mo><msup><mtext>10</mtext><mtext>(?P<exp>-?\d+)</mtext></msup>)?'
                         r'(?:<mtext>&#8239;(?P<u1>\w+)</mtext>|<msup><mtext>&#8239;(?P<u2>\w+)</mtext><mtext>(?P<p>-?\d)</mtext></msup>)?</math>', s)
        check(m is not None, 'MathML not understood: %r', s)
        g = m.groupdict()
        return dict(mu=bool(g['mu']), value=g['v1'] or g['v2'], plus=g['plus'], minus=g['minus'], exp=int(g['exp'] or 0),
                    unit=g['u1'] or ((g['u2'] + g['p']) if g['u2'] else None))
    m = re.fullmatch(r'\$(?P<mu>𝜇)?(?P<v>[-.\d]+)(?:\^\{\+(?P<plus>[^}]*)\}_\{-(?P<minus>[^}]*)\})?(?:\\cdot10\^\{(?P<exp>-?\d+)\})?'
                     r'(?:\$ (?P<u1>\w+)(?P<p>\$\^\{-?\d\}\$)?|\$)', s)
    check(m is not None, 'LaTeX not understood: %r', s)
    g = m.groupdict()
    return dict(mu=bool(g['mu']), value=g['v'], plus=g['plus'], minus=g['minus'], exp=int(g['exp'] or 0),
                unit=(g['u1'] + (g['p'].strip('$^{}') if g['p'] else '')) if g['u1'] else None)


def body_sci(case, ctx):
    v, sf, force, unit = case['v'], case['sf'], case['force'], case['unit']
    k = {'sf': sf, 'force': force, 'unit': unit}
    if case['err']:
        e1, e2 = v + case['err'][0] * abs(v), v - case['err'][1] * abs(v)
        k.update(e1=e1, e2=e2)
    a = parse_ml(gm.scientific_notation(v, **k), False)
    b = parse_ml(gm.scientific_notation(v, MathML=True, **k), True)
    eq(a, b, 'LaTeX and MathML')
    eq(a['unit'], unit, 'unit')
    check(not a['mu'], 'mu shown')
    l = math.log10(abs(v)) if v else None
    if v == 0:
        eq(a['exp'], 0, 'exponent of zero')
    elif force or not -2 < l < 4:
        m = abs(float(a['value']))
        check(1 <= m < 10, 'mantissa %r of %r', a['value'], v)
    else:
        eq(a['exp'], 0, 'multiplier for value between 0.01 and 10000')
    if v != 0:
        M = float(Decimal(v) / Decimal(10) ** a['exp'])
        agree(a['value'], M, sf, 'value of %r' % v)
    else:
        eq(float(a['value']), 0., 'zero')
    eq(a['plus'] is None, case['err'] is None, 'limits shown')
    if case['err']:
        # difference of the limits, in units of the multiplier, to one figure fewer (float cancellation allowed for)
        for s, d, n in ((a['plus'], e1 - v, 'upper'), (a['minus'], v - e2, 'lower')):
            agree(s, d / 10. ** a['exp'], sf - 1, n + ' limit of %r' % v, loose=1e-12)
    ctx.nontrivial(case['err'] is not None or interesting(v, sf))
    ctx.label('multiplier' if a['exp'] else 'plain')


UNITS = [('Ga', 1.), ('Ma', 1e-3), ('ka', 1e-6), ('a', 1e-9)]


def body_age(case, ctx):
    t, sf = case['t'], case['sf']
    e1, e2 = (case['err'][0] * t, case['err'][1] * t) if case['err'] else (0, 0)
    if case['simple']:
        s = cst.str_age(t, sf=sf, simple=True, unit=case['unit'])
        m = re.fullmatch(r'(\S+) (\w+)', s)
        check(m is not None, 'simple age %r', s)
        p = {'value': m.group(1), 'unit': m.group(2)}
        f = dict(UNITS)[p['unit']]
        check(abs(float(p['value']) * f / t - 1) <= 5.1e-6, 'simple age %r for %r Ga', s, t)
    else:
        k = dict(sf=sf, unit=case['unit'], mu=case['mu'], no_error=case['no_error'])
        p = parse_ml(cst.str_age(t, e1, e2, **k), False)
        q = parse_ml(cst.str_age(t, e1, e2, MathML=True, **k), True)
        eq(p, q, 'LaTeX and MathML')
        eq(p['mu'], case['mu'], 'mu')
        eq(p['exp'], 0, 'multiplier')
        check(p['unit'] in dict(UNITS), 'unit %r', p['unit'])
        f = dict(UNITS)[p['unit']]
        agree(p['value'], t / f, sf, 'age %r Ga in %s' % (t, p['unit']), loose=1e-14)
        shown = e1 > 0 and not case['no_error']
        eq(p['plus'] is not None, shown, 'uncertainties shown')
        if shown:
            agree(p['plus'], e1 / f, sf - 1, 'plus %r Ga in %s' % (e1, p['unit']), loose=1e-14)
            agree(p['minus'], e2 / f, sf - 1, 'minus %r Ga in %s' % (e2, p['unit']), loose=1e-14)
    if case['unit']:
        eq(p['unit'], case['unit'], 'requested unit')
    else:
        ok = [u for i, (u, f) in enumerate(UNITS) if (t >= f * (1 - 1e-12) or u == 'a') and (i == 0 or t < UNITS[i - 1][1] * (1 + 1e-12))]
        check(p['unit'] in ok, 'age %r Ga shown in %s', t, p['unit'])
    ctx.nontrivial(interesting(t, sf))
    ctx.label(p['unit'])


def body_diam(case, ctx):
    a, sf = case['d'], case['sf']
    d = [a, a * case['ratio']]
    if case['inf']:
        d[1] = np.inf
    s = gm.diameter_range(d, sf)
    eq(gm.diameter_range(np.array(d), sf), s, 'array')
    if case['inf']:
        eq(s, 'unconstrained', 'range without upper limit')
        return
    m = re.fullmatch('(\\S+)–(\\S+) (km|m)', s)
    check(m is not None, 'range %r', s)
    f = 1 if m.group(3) == 'km' else 1000
    eq(m.group(3), 'km' if d[1] >= 1 else 'm', 'unit for %r' % d)
    agree(m.group(1), d[0] * f, sf, 'lower diameter of %r' % d)
    agree(m.group(2), d[1] * f, sf, 'upper diameter of %r' % d)
    ctx.nontrivial(interesting(d[0], sf) or interesting(d[1], sf))
    ctx.label(m.group(3))


def body_percentile(case, ctx):
    q, sf = case['q'], case['sf']  # distance from the nearer end
    p = 100 - q if case['high'] else q
    s = gm.percentile_sigfigs(p, sf)
    v = float(s)
    near = 100 - p if case['high'] else p
    if near == 0:
        eq(v, p, 'percentile')
        return
    e = math.floor(math.log10(near) + 1e-9)
    tol = .5 * 10. ** (e - sf + 1) * (1 + 1e-6) + 1e-13
    if p >= 50:
        tol = max(tol, 0)
        if near >= 10:
            tol = .5 * (1 + 1e-9)  # whole numbers above 50
            if sf > 2:
                tol = .5 * 10. ** -(sf - 2) * 1.000001
    check(abs(v - p) <= tol, 'percentile %r shown as %r', p, s)
    check(0 <= v <= 100, 'percentile %r shown as %r', p, s)
    ctx.nontrivial(near < 1)


def body_ticks(case, ctx):
    lo = case['lo']
    hi = lo + case['mag']
    if lo < 0 < hi and case['n'] == 2:
        raise Skip()  # zero is always a tick
    if not hi > lo or case['mag'] < 1e-5 * max(abs(lo), abs(hi)):
        raise Skip()
    x = [hi, lo] if case['rev'] else [lo, lo + .3 * case['mag'], hi]
    t = gm.ticks(np.array(x), case['n'])
    t = np.asarray(t, float)
    check(2 <= len(t) <= max(2, case['n']), '%d ticks, at most %d requested', len(t), case['n'])
    step = (t[-1] - t[0]) / (len(t) - 1)
    check(step > 0, 'step %r', step)
    close(np.diff(t), np.full(len(t) - 1, step), 'tick spacing', rtol=1e-6, atol=1e-9 * max(abs(lo), abs(hi)))
    m = step / 10. ** math.floor(math.log10(step) + 1e-7)
    check(min(abs(m - k) for k in (1, 2, 5, 10)) < 1e-4, 'step %r is not 1, 2 or 5 times a power of ten', step)
    eps = 1e-9 * max(abs(lo), abs(hi), case['mag'])
    check(t[0] <= lo + eps and t[-1] >= hi - eps, 'ticks %r to %r do not cover %r to %r', t[0], t[-1], lo, hi)
    check(t[0] > lo - step * 1.001 and t[-1] < hi + step * 1.001, 'ticks %r to %r extend beyond %r to %r by more than one step', t[0], t[-1], lo, hi)
    k = t / step
    check(np.all(np.abs(k - np.round(k)) < 1e-3 + 1e-9 * np.abs(k)), 'ticks %r are not multiples of their step', t[:4])
    u, minor = gm.ticks(np.array(x), case['n'], max_minor=case['minor'])
    eq(list(u), list(t), 'ticks with minor division')
    check(minor in (1, 2, 4, 5, 10), 'minor division %r', minor)
    ctx.nontrivial(len(t) > 2)


def body_hartmann(case, ctx):
    lo, hi = case['lo'], case['lo'] + case['mag']
    v, name, xm, xmv = cst.Hartmann_bins([lo, hi])
    n = [e for e in range(-10, 11) if lo <= math.log10(2.) * e <= hi]
    close(v, [math.log10(2.) * e for e in n], 'labelled diameters', atol=1e-9)
    eq(len(name), len(v), 'labels')
    for e, s in zip(n, name):
        m = re.fullmatch(r'\s*(\d+)(km|m)?', s)
        check(m is not None, 'label %r', s)
        # 1 to 500 m below 1 km
        d = float(m.group(1)) * (1e-3 if e < 0 else 1)
        check(abs(d / 2. ** e - 1) < .035, 'label %r at 2^%d km', s, e)
        if m.group(2):
            eq(m.group(2), 'm' if e < 0 else 'km', 'unit of label at 2^%d km' % e)
        eq(m.group(2) is not None, e == 0 or e == n[0], 'unit shown at 2^%d km' % e)
    close(xm, math.log10(2.) / 2, 'minor step')
    half = [math.log10(2.) * (e + .5) for e in range(-12, 12)]
    want = [h for h in half if lo <= h <= hi]
    want = [h for h in want if -10.6 < h / math.log10(2.) < 10.6]
    close(xmv, want, 'minor ticks', atol=1e-9)
    ctx.nontrivial(len(v) > 3)


def body_selection(case, ctx):
    items = case['items']
    s = ','.join(a + (str(i) if i is not None else w) + b for a, i, w, b in items)
    got = cst.ra_decode_selection(s)
    if not s:
        eq(got, None, 'empty selection')
        return
    eq(got, sorted(i for a, i, w, b in items if i is not None), 'selection %r' % s)
    eq(cst.ra_decode_selection(None), None, 'no selection')
    ctx.nontrivial(len(items) > 1)


def body_scaling(case, ctx):
    v = np.array(case['v'])
    w = cst.n_sigma_scaling(v)
    close(w, -np.asarray(cst.n_sigma_scaling(-v)), 'symmetry')
    close(w, [math.copysign(abs(a) ** .6, a) for a in case['v']], 'scaling', rtol=1e-12)
    o = np.argsort(v, kind='stable')
    check(np.all(np.diff(np.asarray(w)[o]) >= 0), 'order changed')
    ctx.nontrivial(len(set(case['v'])) > 2)


ERR = st.one_of(st.none(), st.tuples(st.integers(1, 3000).map(lambda i: i / 1000.), st.integers(1, 999).map(lambda i: i / 1000.)),
                st.tuples(st.sampled_from([.0996, .00995, 1., .1, .0951]), st.sampled_from([.0996, .5, .1, .00949])))
BL = st.sampled_from(['', '', '', ' ', '  '])

SUBS = [
    Sub('sigfigs', st.fixed_dictionaries({'x': values(), 'sf': st.integers(1, 6)}), body_sigfigs, quick=1500, rule='rounding changes the value'),
    Sub('scientific', st.fixed_dictionaries({'v': values(), 'sf': st.integers(2, 6), 'force': st.booleans(), 'err': ERR,
                                             'unit': st.sampled_from([None, 'km-2', 'km2'])}),
        body_sci, quick=1500, rule='limits given, or rounding changes the value'),
    Sub('age', st.fixed_dictionaries({'t': values(-12, 1, signed=False, zero=False), 'sf': st.integers(2, 6), 'err': ERR,
                                      'simple': st.sampled_from([False, False, False, True]), 'mu': st.booleans(), 'no_error': st.sampled_from([False, False, True]),
                                      'unit': st.sampled_from([None, None, None, 'Ga', 'Ma', 'ka', 'a'])}),
        body_age, quick=1500, rule='rounding changes the value'),
    Sub('diameters', st.fixed_dictionaries({'d': values(-4, 3, signed=False, zero=False), 'sf': st.integers(1, 4),
                                            'ratio': st.integers(1001, 30000).map(lambda i: i / 1000.), 'inf': st.sampled_from([False] * 9 + [True])}),
        body_diam, quick=800, rule='rounding changes a value'),
    Sub('percentile', st.fixed_dictionaries({'q': st.one_of(st.integers(-70, 17).flatmap(lambda e: st.integers(100, 999).map(lambda m: min(50., m / 100. * 10. ** (e / 10.)))),
                                                            st.sampled_from([0., .01, .1, 1., 10., 50., .0996, .00995, 9.96])),
                                             'sf': st.integers(1, 4), 'high': st.booleans()}), body_percentile, quick=800, rule='within 1 of 0 or 100'),
    Sub('ticks', st.fixed_dictionaries({'lo': st.one_of(st.just(0.), values(-6, 6)), 'mag': values(-6, 6, signed=False, zero=False),
                                        'n': st.integers(2, 12), 'minor': st.integers(1, 9), 'rev': st.booleans()}),
        body_ticks, quick=1000, rule='three or more ticks'),
    Sub('hartmann', st.fixed_dictionaries({'lo': st.integers(-330, 200).map(lambda i: i / 100.), 'mag': st.integers(1, 600).map(lambda i: i / 100.)}).filter(
        lambda c: c['lo'] + c['mag'] > -2.7 and c['lo'] < 2.4), body_hartmann, quick=300, rule='more than three labels'),
    Sub('selection', st.fixed_dictionaries({'items': st.lists(st.tuples(BL, st.one_of(st.integers(-3, 40), st.none()), st.sampled_from(['a', 'x1', '1a', '']), BL),
                                                              min_size=1, max_size=8)}), body_selection, quick=300, rule='more than one item'),
    Sub('n_sigma', st.fixed_dictionaries({'v': st.lists(st.integers(-1000, 1000).map(lambda i: i / 100.), min_size=1, max_size=8)}), body_scaling, quick=200,
        rule='three different values'),
]
