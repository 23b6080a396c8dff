import os
import re

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen
from ..core import Sub, check, close, eq, Skip, quiet, expect_exit

PROPERTY = 'C15'
RULE = ('abbreviations made from (and foreign to) the entries of every menu, and sequences of 1-6 overplot specifications with '
        'arbitrary subsets, orders and abbreviations of keys; oracle: subsequence matcher and a dictionary model of persistence; '
        'non-trivial when several menu entries match, or a property persists over at least one later overplot')

MENUS = {
    'presentation': list(cst.PRESENTATIONS), 'type': list(cst.OPLOT_TYPES), 'key': list(cst.CRATERPLOT_KEYS),
    'binning': list(cst.Cratercount.BINNINGS), 'colour': [e[2] for e in cst.PALETTE], 'psym': [e[1] for e in cst.MARKERS],
    'chronology_system': [e[0] for e in gen.SYSTEMS], 'equilibrium': gen.EQUILIBRIA, 'epochs': gen.EPOCHS,
}
SHORT = {'data': 'data', 'differential-fit': 'd-fit', 'cumulative-fit': 'c-fit', 'poisson': 'poisson', 'buffered-poisson': 'b-poisson'}
# documented values (manual and README), written out independently of the code's own tables
DEFAULT = {'name': '', 'range': ['0', 'inf'], 'snap': '1', 'error_bars': '1', 'hide': '0', 'colour': 0, 'psym': 1, 'binning': 'pseudo-log',
           'age_left': '0', 'show_age': '1', 'resurf': '0', 'resurf_showall': '0', 'isochron': '0', 'offset_age': ['0', '0'], 'source': None}
PERSIST = ('source', 'binning', 'colour', 'psym', 'snap', 'isochron', 'error_bars')
FLAGS = ('snap', 'error_bars', 'hide', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron')


def matches(v, entry):
    it = iter(entry.lower())
    return all(c in it for c in v.lower())


def candidates(v, menu):
    return sorted([(len(e), i) for i, e in enumerate(menu) if matches(v, e)])


def body_decode(case, ctx):
    menu = MENUS[case['menu']]
    v = case['v']
    m = candidates(v, menu)
    kw = dict(one_based=case['one_based'])
    if not m:
        expect_exit(cli.decode_abbreviation, menu, v, mentions=v, what='abbreviation %r of nothing in %s' % (v, case['menu']), allow_ambiguous=True, **kw)
        expect_exit(cli.decode_abbreviation, menu, v, mentions=v, what='abbreviation %r of nothing in %s' % (v, case['menu']), **kw)
        eq(cli.decode_abbreviation(menu, v, allow_invalid=True, **kw), -1, 'abbreviation of nothing where allowed')
        ctx.label('none')
        ctx.nontrivial(any(not c.isalnum() for c in v))
        return
    i = cli.decode_abbreviation(menu, v, allow_ambiguous=True, **kw)
    check(0 <= i < len(menu) and matches(v, menu[i]), '%r selects %r', v, menu[i] if 0 <= i < len(menu) else i)
    eq(i, m[0][1], 'entry of %s selected by %r (%r)' % (case['menu'], v, menu[i]))
    for w in (v.upper(), v.lower(), v.swapcase()):
        eq(cli.decode_abbreviation(menu, w, allow_ambiguous=True, **kw), i, 'case changed')
    if len(m) == 1:
        eq(cli.decode_abbreviation(menu, v, **kw), i, 'unique abbreviation')
    else:
        expect_exit(cli.decode_abbreviation, menu, v, mentions=v, what='ambiguous abbreviation %r' % v, **kw)
    ctx.nontrivial(len(m) > 1)
    ctx.label('%s: %s' % (case['menu'], 'several' if len(m) > 1 else 'one'))


@st.composite
def abbreviations(draw, menu=None):
    name = menu or draw(st.sampled_from(sorted(MENUS)))
    e = draw(st.sampled_from(MENUS[name]))
    kind = draw(st.integers(0, 5))
    if kind == 5:
        v = draw(st.text(alphabet='abcdefghilmnoprstuvwxyz.*+-()[]^$|?\\&\'"0123456789/ ,', min_size=1, max_size=4))
    else:
        keep = draw(st.lists(st.integers(0, len(e) - 1), min_size=1, max_size=min(len(e), 9), unique=True))
        v = ''.join(e[i] for i in sorted(keep))
        if kind == 4:
            j = draw(st.integers(0, len(v)))
            v = v[:j] + draw(st.sampled_from('.*+?^$()[]{}|\\')) + v[j:]
        elif kind == 3:
            v = e
    return {'menu': name, 'v': v, 'one_based': draw(st.booleans())}


def resolve(key, v):
    """value of an overplot key -> expected setting, or None if it must be refused"""
    if key == 'type':
        m = candidates(v, MENUS['type'])
        return SHORT[MENUS['type'][m[0][1]]] if m else None
    if key == 'binning':
        m = candidates(v, MENUS['binning'])
        return MENUS['binning'][m[0][1]] if m else None
    if key == 'colour':
        if v.startswith('#'):
            return v if re.fullmatch('#[0-9a-fA-F]{6}', v) else None
        m = candidates(v, MENUS['colour'])
        return m[0][1] if m else None
    if key == 'psym':
        for i, e in enumerate(cst.MARKERS):
            if e[0] == v:
                return i
        m = candidates(v, MENUS['psym'])
        return m[0][1] if m else None
    if key in ('range', 'offset_age'):
        return v.strip('[]').split(',')
    return v


def files(d):
    out = []
    for i, n in enumerate(['a.diam', 'crater count.diam', 'z-1_CRATER.diam']):
        out.append(gen.write_diam(os.path.join(d, n), [.1 * (i + 1), .5, 1.2, 3.], area=100.))
    return out


def words(spec, style):
    """command-line words for one overplot: one string, or broken at blanks as the shell would"""
    s = ','.join('%s=%s' % (k, v) for k, v in spec)
    if style and ' ' in s and '  ' not in s and not any(w.startswith('-') for w in s.split(' ')) and s == s.strip():
        return s.split(' ')
    return [s]


def body_seq(case, ctx):
    src = files(ctx.tmpdir())
    a = ['-pr', case['pr']]
    if case['sep_first']:
        a = a + ['-title', 'x']
    specs = []
    for sp in case['plots']:
        sp = [[k, key, src[v] if key == 'source' else v] for k, key, v in sp]
        specs.append(sp)
        a += ['-p'] + words([(k, v) for k, key, v in sp], case['split'])
    args = cli.get_parser().parse_args(a)
    dflt = __import__('copy').deepcopy(cst.DEFAULTS)
    # model
    prev, want, refuse = None, [], None
    for sp in specs:
        p = dict(DEFAULT)
        p['type'] = 'poisson' if case['pr'] == 'sequence' else 'data'
        either = None
        if prev:
            either = p['type']
            p['type'] = prev['type']
            for k in PERSIST:
                p[k] = prev[k]
        given = set()
        for k, v in {k: v for k, key, v in sp}.items():  # same word again: last value
            m = candidates(k, MENUS['key'])
            if not m:
                refuse = refuse or ('key', k)
                break
            kk = MENUS['key'][m[0][1]]
            r = resolve(kk, v)
            if r is None:
                refuse = refuse or (kk, v)
                break
            p[kk] = r
            given.add(kk)
        if refuse:
            break
        if p['source'] is None:
            refuse = ('source', None)
            break
        p['either'] = either if 'source' in given and 'type' not in given else None
        want.append(p)
        prev = p
    if refuse:
        expect_exit(cli.construct_plot_dicts, args, dflt['plot'], {'presentation': case['pr']},
                    mentions=refuse[1] or 'ource', what='invalid %s %r' % refuse)
        ctx.nontrivial(len(specs) > 1)
        ctx.label('refused ' + ('key' if refuse[0] == 'key' else 'source' if refuse[1] is None else 'value'))
        return
    got = cli.construct_plot_dicts(args, dflt['plot'], {'presentation': case['pr']})
    eq(len(got), len(want), 'number of overplots')
    persisted = False
    for i, (g, w) in enumerate(zip(got, want)):
        for k in list(DEFAULT) + ['type']:
            x, y = g[k], w[k]
            if k in FLAGS:
                x, y = int(x), int(y)
            elif k in ('offset_age', 'range'):
                x, y = [str(e) for e in x], [str(e) for e in y]
            if k == 'type' and w['either'] is not None and x == w['either'] != y:
                raise Skip()  # a newly given source may also start again from the default type
            check(x == y, 'overplot %d of %r: %s is %r, expected %r', i, [['='.join((q[0], str(q[2]))) for q in sp] for sp in specs], k, x, y)
        eq(list(g['cratercount'].diam), [v for v in cst.Cratercount(w['source']).diam], 'data of overplot %d' % i)
        cp = cst.Craterplot(g)
        for k in FLAGS + ('psym',):
            eq(getattr(cp, k), int(w[k]), 'overplot %d: %s' % (i, k))
        for k in ('type', 'binning', 'source'):
            eq(getattr(cp, k), w[k], 'overplot %d: %s' % (i, k))
        eq(cp.name, w['name'] or os.path.basename(w['source'])[:-5].replace('_CRATER', ''), 'overplot %d: name' % i)
        close(cp.offset_age, [float(e) for e in w['offset_age']], 'overplot %d: offset' % i)
        close(cp.range, cp.cratercount.decode_range(w['range'], w['binning'], int(w['snap'])), 'overplot %d: range' % i)
        if i and any(w[k] != DEFAULT[k] for k in PERSIST[1:]) and len(specs[i]) < 4:
            persisted = True
    ctx.nontrivial(persisted)
    ctx.label('%d overplots' % len(got))


KEYABB = {k: [a for a in sorted({k, k[:3], k[0] + k[-1], k.replace('a', '').replace('e', '').replace('i', '').replace('o', '').replace('u', ''),
                                 k.upper(), k[:4], k.split('_')[0], k.split('_')[-1]}) if MENUS['key'][candidates(a, MENUS['key'])[0][1]] == k]
          for k in cst.CRATERPLOT_KEYS}
KEYABB['source'] += ['src']
KEYABB['colour'] += ['col']
KEYABB['range'] += ['rng']


@st.composite
def kv(draw, bad):
    key = draw(st.sampled_from(list(cst.CRATERPLOT_KEYS) + ['source', 'source', 'type', 'binning', 'psym', 'colour', 'colour']))
    k = draw(st.sampled_from(KEYABB[key]))
    if bad and draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from(['zzz', 'sourcex', 'qq', 'type2', 'nn', 'psymm']))
    if key == 'source':
        v = draw(st.integers(0, 2))
    elif key == 'name':
        v = draw(st.sampled_from(['Area 1', 'x', 'a, b', 'Übung', "O'Neil", 'A,B', 'crater (old)', 'a  b', '-5', '"q"']))
    elif key == 'range':
        v = draw(st.sampled_from(['[0.2,2]', '[.5,3]', '[b1,b2]', '[b1,b-1]', '[1,inf]', '0.3,1', '[b-2,b-1]', '[1e-1,1e1]']))
    elif key == 'offset_age':
        v = draw(st.sampled_from(['[2,-2]', '[-1,4]', '[0,0]', '[1.5,0]', '-3,1']))
    elif key in ('type', 'binning', 'colour', 'psym'):
        if key == 'psym' and draw(st.booleans()):
            v = draw(st.sampled_from([e[0] for e in cst.MARKERS]))
        elif key == 'colour' and draw(st.integers(0, 4)) == 0:
            v = draw(st.sampled_from(['#a0b1c2', '#FF00ff', '#000000'] + (['#12345', '#xyzxyz', '#1234567', '#'] if bad else [])))
        else:
            v = draw(abbreviations(key))['v']
            if '=' in v or (not bad and resolve(key, v) is None) or v.strip() != v or ',' in v:
                v = draw(st.sampled_from(MENUS[key]))
    else:
        v = draw(st.sampled_from(['0', '1', '1', '0', '1']))
    if k not in KEYABB[key]:
        key, v = '?', str(v)
    return [k, key, v]


@st.composite
def sequences(draw):
    bad = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(1, 6))
    plots = []
    for i in range(n):
        sp = draw(st.lists(kv(bad), min_size=1, max_size=6))
        if i == 0 and not any(e[1] == 'source' for e in sp) and not (bad and draw(st.booleans())):
            sp.insert(draw(st.integers(0, len(sp))), ['src', 'source', draw(st.integers(0, 2))])
        plots.append(sp)
    return {'plots': plots, 'pr': draw(st.sampled_from(['differential', 'cumulative', 'sequence', 'R-plot'])),
            'split': draw(st.booleans()), 'sep_first': draw(st.booleans())}


def body_malformed(case, ctx):
    """overplot text without '=' or with a value containing it is refused with a message"""
    src = files(ctx.tmpdir())[0]
    a = ['-p', 'source=' + src + case['text']]
    try:
        with quiet():
            args = cli.get_parser().parse_args(a + ['-f', 'csv'])
            cli.construct_plot_dicts(args, __import__('copy').deepcopy(cst.DEFAULTS)['plot'], {'presentation': 'differential'})
    except SystemExit as e:
        check(isinstance(e.code, str) and len(e.code) > 5, 'refused without message: %r', e.code)
        ctx.nontrivial()
        return
    raise AssertionError('%r accepted' % case['text'])


def body_set(case, ctx):
    """set options reach the plot settings"""
    a, want = [], {}
    fl = gen.FUNCTIONS
    pr = case['opts'].get('pr')
    for k, v in case['order']:
        a += [k] + (list(v) if isinstance(v, list) else [v])
    for k, v in case['order']:
        want[k] = v
    args = cli.get_parser().parse_args(a)
    dflt = __import__('copy').deepcopy(cst.DEFAULTS)
    refused = None
    for k, menu in (('-pr', 'presentation'), ('-cs', 'chronology_system'), ('-ef', 'equilibrium'), ('-ep', 'epochs')):
        if k in want:
            m = candidates(want[k], MENUS[menu])
            if not m or (k == '-pr' and len(m) > 1):
                refused = want[k]
            else:
                want[k] = MENUS[menu][m[0][1]]
    if refused is not None:
        expect_exit(cli.construct_cps_dict, args, dflt['set'], fl, mentions='abbreviation', what='abbreviation %r' % refused)
        ctx.nontrivial()
        ctx.label('refused')
        return
    S = want.get('-cs', 'Moon, Neukum (1983)')
    if S == "Vesta, Marchi & O'Brien (2014)":
        raise Skip()  # C26 finding
    c = cli.construct_cps_dict(args, dflt['set'], fl)
    P = want.get('-pr', 'differential')
    eq(c['presentation'], P, 'presentation')
    eq(c['chronology_system'], S, 'chronology system')
    e = next(e for e in gen.SYSTEMS if e[0] == S)
    eq((c['pf'].name, c['cf'].name), (e[1], e[2]), 'functions of %s' % S)
    body = next(q['body'] for q in fl['chronology_system'] if q['name'] == S)
    A = {'Moon': 3.79e7, 'Mars': 1.44e8, 'Mercury': 7.48e7}.get(body, 1e12)
    eq(c['global_area'], A, 'surface area of %s' % body)
    if '-ef' in want:
        eq(c['ef'].name, want['-ef'], 'equilibrium function')
    else:
        check(c.get('ef') is None, 'equilibrium function set')
    if '-ep' in want:
        eq(c['ep'].name, want['-ep'], 'epochs')
    else:
        check(c.get('ep') is None, 'epochs set')
    eq(c['title'], ' '.join(want.get('-title', [''])), 'title')
    eq(c['legend'], want.get('-legend', 'A' if P == 'sequence' else 'fnacr'), 'legend')
    eq(c['isochrons'], want.get('-isochrons', ''), 'isochrons')
    eq(float(c['ref_diameter']), float(want.get('-ref_diameter', 1)), 'reference diameter')
    eq(int(c['sig_figs']), int(want.get('-sf', 3)), 'significant figures')
    eq(float(c['pt_size']), float(want.get('-pt_size', 9)), 'point size')
    eq(c['print_dimensions'], want.get('-pd', '7.5x7.5'), 'print dimensions')
    eq(c['style'], want.get('-style', 'natural'), 'style')
    eq(float(c['min_diameter']), float(want.get('-d_min', .15)), 'minimum diameter')
    eq(int(c['n_samples']), int(want.get('-ns', 200)), 'samples')
    for k, n, d in (('-mu', 'mu', 1), ('-invert', 'invert', 0), ('-transparent', 'transparent', 0), ('-ra_show', 'ra_show', 1),
                    ('-text_halo', 'text_halo', 0 if P in ('uncertainty', 'sequence', 'chronology', 'rate') else 1)):
        v = want.get(k)
        eq(int(c[n]), d if v is None else 1 if v == [] else int(v), n)
    eq(int(bool(c['bins'])), int('-b' in want), 'bins')
    ranges = {'chronology': ((4.5, 0), (-6, 2)), 'rate': ((4.5, 0), (-6, 3)), 'sequence': ((4.2, 1e-2), (0, 0)), 'uncertainty': ((4.2, 1e-5), (-2, 8))}
    for k, j in (('xrange', 0), ('yrange', 1)):
        if P == 'Hartmann':
            pf = next(q for q in fl['production'] if q['name'] == e[1])
            # preset, either with the production function or in general
            r = [float(v) for v in (pf[k].split(',') if k in pf and isinstance(pf[k], str) else pf[k] if k in pf else ((-3.15, 2.56), (-8, 5))[j])]
            close([float(v) for v in c[k]], r, k + ' of Hartmann plot')
        elif '-' + k in want:
            close([float(v) for v in c[k]], [float(v) for v in want['-' + k]], k)
        elif P in ranges:
            close([float(v) for v in c[k]], ranges[P][j], k + ' of ' + P)
        else:
            check(c.get(k) is None, '%s set to %r', k, c.get(k))
    cps = cst.Craterplotset(c)
    for k in ('title', 'legend', 'presentation', 'style', 'print_dimensions'):
        eq(getattr(cps, k), c[k], 'plot set: ' + k)
    for k in ('mu', 'invert', 'text_halo', 'sig_figs'):
        eq(getattr(cps, k), int(c[k]), 'plot set: ' + k)
    eq((cps.pt_size, cps.ref_diameter), (float(c['pt_size']), float(c['ref_diameter'])), 'plot set: sizes')
    ctx.nontrivial(len(want) > 2)
    ctx.label(P)


FLAGV = st.sampled_from([[], '0', '1'])
OPT = {
    '-title': st.sampled_from([['x'], ['two', 'words'], ['with space inside', 'b'], ["it's"], ['a|b'], ['Größe']]),
    '-legend': st.sampled_from(['0', 'fnacr', 'A', 'N', 'fnp', 'rcanf']), '-isochrons': st.sampled_from(['1,3', '3.7a,4s', '.1h']),
    '-ref_diameter': st.sampled_from(['1', '10', '.5']), '-sf': st.sampled_from(['2', '3']), '-pt_size': st.sampled_from(['9', '7.5', '12']),
    '-pd': st.sampled_from(['2', '8x8', '10x6.5']), '-style': st.sampled_from(['natural', 'root-2']), '-d_min': st.sampled_from(['.1', '1']),
    '-ns': st.sampled_from(['10', '50']), '-mu': FLAGV, '-invert': FLAGV, '-transparent': FLAGV, '-ra_show': FLAGV, '-text_halo': FLAGV, '-b': st.just([]),
    '-xrange': st.sampled_from([['-2', '1'], ['0', '3.5'], ['-3', '-1']]), '-yrange': st.sampled_from([['-5', '1'], ['-2', '2.5']]),
}


@st.composite
def set_options(draw):
    order = []
    ks = draw(st.lists(st.sampled_from(sorted(OPT)), max_size=6, unique=True))
    for k in ks:
        order.append([k, draw(OPT[k])])
    for k, menu in (('-pr', 'presentation'), ('-cs', 'chronology_system'), ('-ef', 'equilibrium'), ('-ep', 'epochs')):
        if draw(st.integers(0, 2)) == 0:
            v = draw(st.sampled_from(MENUS[menu])) if draw(st.booleans()) else draw(abbreviations(menu))['v']
            if v.startswith('-') or not v:
                v = MENUS[menu][0]
            if k == '-pr' and draw(st.integers(0, 3)):
                v = draw(st.sampled_from(['differential', 'cumulative', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty', 'cml', 'dif', 'seq', 'hart', 'unc']))
            order.insert(draw(st.integers(0, len(order))), [k, v])
    return {'order': order, 'opts': {}}


BAD = st.sampled_from([',type', ',snap=1,type=poisson=x', ',name=a=b', ',range=[1,2],hide=1=0', ',isochron=,hide==1', ',colour=#12', ',=1',
                       ',type=zzz', ',psym=nosuchsymbol', ',binning=7/decade', ',colour=#12345g']).filter(lambda s: s not in (',type', ',=1'))

SUBS = [
    Sub('abbreviations', abbreviations(), body_decode, quick=3000, shards=2, rule='several entries match, or punctuation matches nothing'),
    Sub('overplots', sequences(), body_seq, quick=1500, shards=5, rule='a setting persists to an overplot that does not give it, or refusal within several'),
    Sub('malformed', st.fixed_dictionaries({'text': BAD}), body_malformed, quick=30, thorough=60, rule='refused'),
    Sub('settings', set_options(), body_set, quick=800, shards=3, rule='more than two options'),
]
