"""C01: crater count files are read faithfully in every supported layout."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
from .. import gen, sphere
from ..core import Sub, check, eq, close, quiet, expect_exit, Skip
from .c02 import Render

PROPERTY = 'C01'
RULE = ('generated crater lists (diameters, fractions, reference areas, duplicates) written in every layout of .diam, .scc and .stat: row '
        'and column order, extra columns, blanks, tabs, comments, blank lines, CRLF, byte-order mark, number notation; oracle: the generated '
        'values; non-trivial when there are several craters with distinct fractions or a varied layout')

NOTES = ['r', 'e', 'E', 'plus', 'zero', 'dot']


def note(x, k):
    """text for x and the number it stands for"""
    if k == 'e':
        s = '%.11e' % x
    elif k == 'E':
        s = '%.8E' % x
    elif k == 'plus':
        s = '+%r' % x
    elif k == 'zero':
        s = '00%r' % x if x >= 0 else repr(x)
    elif k == 'dot':
        s = repr(x)
        if s.startswith('0.'):
            s = s[1:]
        elif s.endswith('.0'):
            s = s[:-1]
    elif k == 'int':
        s = '%d' % x
    else:
        s = repr(x)
    return s, float(s)


numbers = st.sampled_from(NOTES)
craters = st.lists(st.tuples(
    st.one_of(gen.log_diams(-3, 3), st.sampled_from([.5, .5, 1., 1., 2., 10.])),
    st.one_of(st.sampled_from([1., 1., 0., .5]), st.floats(0.001, 1).map(lambda x: round(x, 6)), st.floats(1e-6, 1)),
    numbers), min_size=1, max_size=14)
layout = st.lists(st.integers(0, 41), min_size=1, max_size=40)
area = st.floats(-4, 8).map(lambda x: float('%.9g' % 10 ** x))


def emit(path, lines, case):
    eol = {'lf': '\n', 'crlf': '\r\n'}[case['eol']]
    with open(path, 'wb') as h:
        h.write((b'\xef\xbb\xbf' if case['bom'] else b'') + (eol.join(lines) + (eol if case['last'] else '')).encode('utf8'))


def pairs(d, f):
    return sorted(zip([float(x) for x in d], [float(x) for x in f]))


def interesting(case, ctx, fr):
    if len(fr) > 1 and len(set(fr)) > 1:
        ctx.label('mixed fractions')
    if case['eol'] == 'crlf':
        ctx.label('crlf')
    if case['bom']:
        ctx.label('bom')
    ctx.nontrivial(len(fr) > 1 and (len(set(fr)) > 1 or case['eol'] == 'crlf' or case['bom'] or len(set(case['lay'])) > 3))


def scalar(text):
    return {'t': 's', 'v': text, 'q': ''}


def order(xs, key):
    """deterministic rearrangement by generated keys"""
    return [x for _, _, x in sorted((key[i % len(key)], i, x) for i, x in enumerate(xs))]


def diam(case, ctx):
    path = os.path.join(ctx.tmpdir(), case['name'] + '.diam')
    rows, exp_d, exp_f = [], [], []
    buffered = case['frac'] == 'reference_area'
    for i, (d, f, k) in enumerate(case['c']):
        sd, vd = note(d, k)
        if buffered:
            ra = case['ref'][i % len(case['ref'])]
            sf, vf = note(ra, k)
            vf = 1. / vf
        else:
            sf, vf = note(f, k)
        cells = {'diameter': sd, 'fraction': sf, 'reference_area': sf, 'lon': '12.5', 'id': "c%d" % i, 'note': '"x; y, %d"' % i}
        rows.append(cells)
        exp_d.append(vd)
        exp_f.append(vf if case['frac'] != 'none' else 1.)
    cols = ['diameter'] + ([case['frac']] if case['frac'] != 'none' else []) + case['extra']
    cols = order(cols, case['ck'])
    table = {'t': 'tab', 'cols': cols, 'rows': [[[r[c], ''] for c in cols] for r in rows]}
    ta, va = note(case['area'], case['an'])
    doc = [['crater', table, False]]
    if not buffered:
        doc.append(['area', scalar(ta), False])
    per = None
    if case['per'] is not None and not buffered:
        tp, per = note(case['per'], case['an'])
        doc.append(['perimeter', scalar(tp), False])
    if case['other']:
        doc.append(['reference', {'t': 's', 'v': "O'Neill; counted, {x} = 3", 'q': '"'}, False])
    doc = order(doc, case['dk'])
    emit(path, Render(case['lay'], True).doc(doc), case)
    with quiet():
        c = cst.Cratercount(path)
    eq(pairs(c.diam, c.fraction), pairs(exp_d, exp_f), 'diameters with their fractions')
    eq(list(c.diam) in (sorted(c.diam), sorted(c.diam, reverse=True)), True, 'diameters in size order')
    close(sum(c.fraction), math.fsum(exp_f), 'sum over craters', rtol=1e-12)
    eq(float(c.area), 1. if buffered else va, 'area')
    eq(bool(c.buffered), buffered, 'buffered')
    eq(c.perimeter, per, 'perimeter')
    eq(c.name, case['name'], 'name')
    check(not c.prebinned, 'a crater list is not binned data')
    ctx.label(case['frac'])
    interesting(case, ctx, exp_f)


@st.composite
def base(draw, **k):
    c = {'c': draw(craters), 'lay': draw(layout), 'eol': draw(st.sampled_from(['lf', 'lf', 'crlf'])), 'bom': draw(st.booleans()), 'last': draw(st.booleans()),
         'ck': draw(st.lists(st.integers(0, 9), min_size=1, max_size=7)), 'dk': draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
         'area': draw(area), 'an': draw(st.sampled_from(['r', 'e', 'E', 'dot'])), 'per': draw(st.one_of(st.none(), area)),
         'name': draw(st.sampled_from(['count', 'a b', "o'x", 'x.y z', 'ü']))}
    for n, s in k.items():
        c[n] = draw(s)
    return c


# ---------------------------------------------------------------- .scc: both readers

def scc(case, ctx):
    path = os.path.join(ctx.tmpdir(), case['name'] + '.scc')
    exp = []
    rows = []
    for i, (d, f, k) in enumerate(case['c']):
        (sd, vd), (sf, vf) = note(d, k), note(f, k)
        lon, lat = case['pos'][i % len(case['pos'])]
        sx, vx = note(lon, 'r' if k in ('plus', 'zero') else k)
        sy, vy = note(lat, 'r' if k in ('plus', 'zero') else k)
        rows.append({'diam': sd, 'fraction': sf, 'lon': sx, 'lat': sy, 'topo_scale_factor': '1', 'tag': '"a b"'})
        exp.append((vd, vf if case['frac'] else 1., vx, vy))
    cols = order(['diam', 'lon', 'lat'] + (['fraction'] if case['frac'] else []) + case['extra'], case['ck'])
    table = {'t': 'tab', 'cols': cols, 'rows': [[[r[c], ''] for c in cols] for r in rows]}
    ring = [(10., -5.), (10., 5.), (20., 5.), (20., -5.), (10., -5.)]
    bcols = order(['vertex', 'sub_area', 'tag', 'lon', 'lat'], case['ck'][::-1])
    bt = {'t': 'tab', 'cols': bcols, 'rows': [[[{'vertex': str(i), 'sub_area': '1', 'tag': 'ext', 'lon': repr(x), 'lat': repr(y)}[c], ''] for c in bcols]
                                              for i, (x, y) in enumerate(ring, 1)]}
    ta, va = note(case['area'], case['an'])
    unit = case['unit']
    doc = [['crater', table, False], ['unit_boundary', bt, False], ['Total_area', scalar(ta + unit * ' <km^2>'), False],
           ['coordinate_system_name', scalar("Eq * (+proj +a=1737400)"), False]]
    rk = case['rkey']
    if rk != 'a-axis radius':
        doc.append([rk, scalar(repr(case['radius']) + unit * ' <km>'), False])
    per = None
    if case['per'] is not None:
        tp, per = note(case['per'], case['an'])
        doc.append([case['pkey'], scalar(tp + unit * ' <km>'), False])
    doc = order(doc, case['dk'])
    lines = Render(case['lay'], True).doc(doc)
    if rk == 'a-axis radius':
        lines = ['# Spatial crater count', 'a-axis radius = %r <km>' % case['radius'], 'b-axis radius = %r <km>' % case['radius']] + lines
    emit(path, lines, case)
    with quiet():
        c = cst.Cratercount(path)
    eq(pairs(c.diam, c.fraction), sorted((d, f) for d, f, _, _ in exp), 'diameters with their fractions')
    close(sum(c.fraction), math.fsum(e[1] for e in exp), 'sum over craters', rtol=1e-12)
    eq(float(c.area), va, 'area')
    eq(c.perimeter, per, 'perimeter')
    eq(bool(c.buffered), False, 'buffered')
    with quiet():
        s = cst.Spatialcount(path)
    eq(sorted(zip(s.diam, s.fraction, s.lon, s.lat)), sorted(exp), 'craters with their fractions and positions')
    eq(list(s.diam), list(c.diam), 'both readers, diameters')
    eq(pairs(s.diam, s.fraction), pairs(c.diam, c.fraction), 'both readers, fractions')
    close(s.planetary_radius, case['radius'], 'planetary radius')
    close(s.area, np.radians(10.) * 2 * math.sin(math.radians(5.)) * case['radius'] ** 2, 'boundary area', rtol=.01)
    ctx.label(rk)
    interesting(case, ctx, [e[1] for e in exp])


# ---------------------------------------------------------------- .stat

def stat(case, ctx):
    """rows of binned counts, 7 or 11 columns"""
    path = os.path.join(ctx.tmpdir(), case['name'] + '.stat')
    d0 = case['d0']
    A = case['area']
    ratio = 10 ** .1
    ds = []
    d = d0
    for g in case['gaps']:
        d *= ratio ** (1 + g)
        ds.append(d)
    n = [float(x) for x in case['n'][:len(ds)]]
    ds = ds[:len(n)]
    if len(ds) < (2 if case['nc'] == 7 else 1):
        raise Skip()
    ev = [float(x) for x in case['ev'][:len(ds)]]
    ev += [1.] * (len(ds) - len(ev))
    cum = [sum(n[i:]) for i in range(len(n))]
    lines = ['# Craterstats3 exported stat file', '#-----', "# Source: it's a file; x", '#'] if case['head'] else []
    r = case['lay']
    k = 0
    exp_d = []
    for i in range(len(ds)):
        hi = ds[i] * ratio
        f = ['%.8g' % ds[i], '%.6g' % n[i], '%.8E' % (n[i] / A), '%.3E' % (n[i] / A), '%.8g' % cum[i], '%.10E' % (cum[i] / A), '%.3E' % (cum[i] / A)]
        if case['nc'] == 11:
            f += ['%.8g' % math.sqrt(ds[i] * hi), '%.3E' % 1., '%.3E' % 1., '%.6g' % ev[i]]
        exp_d.append(float(f[0]))
        k += 1
        sep = [' ', '\t', '   ', ' \t '][r[k % len(r)] % 4]
        lead = ['', ' ', '\t'][r[(k + 1) % len(r)] % 3]
        tail = ['', ' ', '\t'][r[(k + 2) % len(r)] % 3]
        lines.append(lead + sep.join(f) + tail)
        x = r[(k + 3) % len(r)] % 5
        lines += [[], [], [''], ['# note'], ['  \t']][x]
    emit(path, lines, case)
    with quiet():
        c = cst.Cratercount(path)
    b = c.binned
    close(b['d_min'], exp_d, 'bin minima', rtol=1e-4)  # exact limits may be recovered from the rounded ones
    eq([float(x) for x in b['n']], [float('%.6g' % x) for x in n], 'counts per bin')
    close(b['ncum'], cum, 'cumulative counts', rtol=1e-6)
    eq([float(x) for x in b['n_event']], [float('%.6g' % x) for x in (ev if case['nc'] == 11 else n)], 'events per bin')
    close(c.area, A, 'area', rtol=1e-6)
    check(c.prebinned, 'binned data')
    if case['nc'] == 11:
        close(b['d_max'], np.array(ds) * ratio, 'bin maxima', rtol=1e-6)
        close(b['d_mean'], np.array(ds) * ratio ** .5, 'bin centres', rtol=1e-6)
        close(b['bin_width'], np.array(ds) * (ratio - 1), 'bin widths', rtol=1e-5)
    ctx.label('columns %d' % case['nc'])
    ctx.nontrivial(len(ds) > 1)


# ---------------------------------------------------------------- whole chain: what is read is what is written out and plotted

def binned(case, ctx):
    """weighted number per bin of the file, against direct summation over the generated list"""
    path = os.path.join(ctx.tmpdir(), 'x.' + case['kind'])
    d = [x * 1.01371 for x, _, _ in case['c']]  # off the bin edges
    f = [y for _, y, _ in case['c']]
    p = order(list(zip(d, f)), case['ck'])
    if case['kind'] == 'diam':
        gen.write_diam(path, [a for a, _ in p], [b for _, b in p], area=case['area'])
    else:
        gen.write_scc_text(path, [a for a, _ in p], [b for _, b in p], area=case['area'])
    with quiet():
        c = cst.Cratercount(path)
        c.apply_binning(case['b'])
    b = c.binned
    n, lo = np.asarray(b['n'], float), np.asarray(b['d_min'], float)
    close(n.sum(), math.fsum(f), 'sum over bins', rtol=1e-9)
    if case['b'] != 'none':
        hi = np.asarray(b['d_max'], float)
        dd, ff = np.array(d), np.array(f)
        edge = np.min(np.abs(np.log(dd[:, None] / np.concatenate([lo, hi])[None, :])), axis=None) < 1e-9
        if edge:
            raise Skip()
        for l, h, m in zip(lo, hi, n):
            close(m, ff[(dd >= l) & (dd < h)].sum(), 'bin [%r,%r)' % (l, h), rtol=1e-9, atol=1e-12)
    ctx.nontrivial(len(d) > 2 and len(set(f)) > 1)


# ---------------------------------------------------------------- refusal

GOOD = {'diam': 'area = 10\ncrater = {diameter, fraction\n1. 1\n2. .5\n}\n',
        'scc': 'a_axis_radius = 1737.4 <km>\nTotal_area = 10. <km^2>\nunit_boundary = {vertex, sub_area, tag, lon, lat\n1 1 ext 0 0\n2 1 ext 1 0\n3 1 ext 1 1\n4 1 ext 0 0\n}\n'
               'crater = {diam, fraction, lon, lat\n1. 1 0 0\n}\n',
        'stat': '1 2 1E-2 1E-2 3 3E-2 1E-2\n1.3 1 1E-2 1E-2 1 1E-2 1E-2\n'}


def refused(case, ctx):
    d = ctx.tmpdir()
    how, kind = case['how'], case['kind']
    name = case['name']
    path = os.path.join(d, name + '.' + kind)
    good = GOOD[kind]
    if how == 'missing':
        pass
    elif how == 'type':
        path = os.path.join(d, name + case['ext'])
        open(path, 'w').write(good)
    elif how == 'empty':
        open(path, 'w').write('')
    elif how == 'blank':
        open(path, 'w').write('\n \n# nothing\n')
    elif how == 'directory':
        os.mkdir(path)
    elif how == 'binary':
        open(path, 'wb').write(bytes(case['bytes']))
    elif how == 'tableless':
        if kind == 'stat':
            open(path, 'w').write('# only a heading\n')
        else:
            open(path, 'w').write(good[:good.index('crater = {')] + 'note = 3\n')
    elif how == 'other':
        other = {'diam': 'scc', 'scc': 'stat', 'stat': 'diam'}[kind]
        open(path, 'w').write(GOOD[other])
    elif how == 'noarea':
        if kind == 'stat':
            raise Skip()
        open(path, 'w').write('\n'.join(l for l in good.split('\n') if 'area =' not in l))
    elif how == 'column':
        if kind == 'stat':
            open(path, 'w').write('\n'.join(l.rsplit(' ', 3)[0] for l in good.strip().split('\n')) + '\n')
        else:
            open(path, 'w').write(good.replace('{diameter, ', '{width, ').replace('{diam, ', '{width, '))
    elif how == 'norows':
        if kind == 'stat':
            raise Skip()
        i = good.index('crater = {')
        open(path, 'w').write(good[:i] + good[i:].split('\n')[0] + '\n}\n')
    elif how == 'words':
        open(path, 'w').write(good.replace('1. 1', 'large 1').replace('1 2 ', 'one 2 '))

    if how == 'norows' and kind == 'scc':
        raise Skip()
    what = '%s %s' % (how, os.path.basename(path))
    expect_exit(lambda: cst.Cratercount(path), mentions=name, what=what)
    if case['cli']:
        import craterstats.cli as cli
        out = os.path.join(d, 'out')
        expect_exit(lambda: cli.main(['-o', out, '-p', 'source=' + path]), mentions=name, what='plot of ' + what)
        left = [f for f in os.listdir(d) if f.startswith('out')]
        eq(left, [], 'files left by the refused plot')
    ctx.label(how)
    ctx.nontrivial(True)


COMMON = dict(extra=st.lists(st.sampled_from(['lon', 'id', 'note']), max_size=2, unique=True))

SUBS = [
    Sub('diam', base(frac=st.sampled_from(['fraction', 'fraction', 'none', 'reference_area']), ref=st.lists(st.floats(1., 1e6).map(lambda x: float('%.8g' % x)), min_size=1, max_size=5),
                     other=st.booleans(), **COMMON), diam, quick=1800, shards=3, rule='several craters with distinct fractions or varied layout'),
    Sub('scc', base(frac=st.sampled_from([True, True, False]), unit=st.booleans(), pkey=st.sampled_from(['Perimeter', 'Total_perimeter']),
                    rkey=st.sampled_from(['a_axis_radius', 'oct_a_axis_radius', 'a-axis radius']), radius=st.sampled_from([1737.4, 3396.19, 470., 6052.]),
                    pos=st.lists(st.tuples(st.floats(-180, 360).map(lambda x: round(x, 6)), st.floats(-90, 90).map(lambda x: round(x, 6))), min_size=1, max_size=8),
                    extra=st.lists(st.sampled_from(['topo_scale_factor', 'tag']), max_size=2, unique=True)), scc, quick=1200, shards=3,
        rule='several craters with distinct fractions or varied layout'),
    Sub('stat', base(gaps=st.lists(st.sampled_from([0, 0, 0, 1, 2, 5]), min_size=1, max_size=10), n=st.lists(st.one_of(st.integers(1, 500), st.floats(.1, 30).map(lambda x: float('%.5g' % x))), min_size=1, max_size=10),
                     ev=st.lists(st.integers(1, 60), max_size=10), nc=st.sampled_from([7, 11]), d0=st.sampled_from([.01, .25, 1., 16.]), head=st.booleans()), stat, quick=400,
        rule='more than one bin'),
    Sub('binned', base(kind=st.sampled_from(['diam', 'scc']), b=st.sampled_from(cst.Cratercount.BINNINGS)), binned, quick=300,
        rule='more than two craters with distinct fractions'),
    Sub('refused', st.fixed_dictionaries({
        'how': st.sampled_from(['missing', 'type', 'empty', 'blank', 'directory', 'binary', 'tableless', 'other', 'noarea', 'column', 'norows', 'words']),
        'kind': st.sampled_from(['diam', 'scc', 'stat']), 'name': st.sampled_from(['count', 'a b', "o'x", 'x.y z', 'ünit']),
        'ext': st.sampled_from(['.txt', '.csv', '.binned', '.shx', '.dia', '.diam2', '', '.diam.bak']), 'bytes': st.lists(st.integers(0, 255), max_size=30),
        'cli': st.sampled_from([False, False, True])}), refused, quick=150, rule='every case'),
]
