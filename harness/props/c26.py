"""C26: every listed system and any valid user definition is usable."""
import contextlib
import copy
import json
import os
import re

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen, draw
from ..core import Sub, check, eq, close, quiet, cwd, expect_exit, Skip
from .c02 import Render, expected
from .c08 import poly_forms, table_forms

PROPERTY = 'C26'
RULE = ('all listed systems, equilibrium functions and epoch systems x presentations, and generated user function files (polynomial and '
        'tabular production functions, chronologies, systems, equilibria, epochs; random layout; also missing, empty and unreadable files); '
        'oracle: an independent line-based reading of the built-in list, the generated definitions, and the closed forms of the functions; '
        'non-trivial when a listed system is used in a plot or the user file adds at least two definitions')

KINDS = ('chronology_system', 'production', 'chronology', 'equilibrium', 'epochs')
PRES = ('cumulative', 'differential', 'R-plot', 'Hartmann')
FIRST = 'Vesta, Marchi & O\'Brien (2014)'  # recorded finding: chronology given as code, which is no longer supported


def listed():
    """independent reading of functions.txt"""
    lines = open(os.path.join(os.path.dirname(cst.__file__), 'config', 'functions.txt'), encoding='utf-8-sig').read().split('\n')
    out = {k: [] for k in KINDS}
    cur = None
    for l in lines:
        if l.strip().startswith('#'):
            continue
        m = re.match(r'(%s)\s*=\s*\{\s*$' % '|'.join(KINDS), l.strip())
        if m and cur is None:
            cur = (m[1], {})
            continue
        if cur is None:
            continue
        if l.strip() == '}':
            out[cur[0]].append(cur[1])
            cur = None
            continue
        m = re.match(r'\s*(\w+)\s*=\s*(.*?)\s*$', l)
        if m:
            v = m[2]
            if v[:1] in '"\'' and v[-1:] == v[:1]:
                v = v[1:-1]
            elif '[' in v:
                v = [e.strip().strip('\'"') for e in v[v.index('[') + 1:v.rindex(']')].split(',')] if ']' in v else None
            cur[1][m[1]] = v
    return out


BUILTIN = listed()
BASE = json.dumps(cst.Functionslist().functions, sort_keys=True)


def texts(fig):
    out = [t.get_text() for t in fig.texts]
    for a in fig.axes:
        out += [t.get_text() for t in a.texts]
    return '\n'.join(out)


def construct(args, functions):
    with quiet():
        a = cli.get_parser().parse_args(args)
        return cli.construct_cps_dict(a, copy.deepcopy(cst.DEFAULTS['set']), functions)


def agree_pf(f, de, what):
    """function object against its definition, by the closed forms"""
    if 'range' in de and 'coefficients' in de:
        close(f.range, [float(e) for e in de['range']], what + ' range', rtol=1e-6)
    lo, hi = [float(v) for v in f.range]
    d = np.array([10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * u) for u in (.03, .3, .5, .71, .97)])
    a0 = -2.7
    if 'coefficients' in de:
        C, F = poly_forms([float(e) for e in de['coefficients']], a0, d)
        close(f.evaluate('cumulative', d, a0), C, what + ' cumulative', rtol=1e-9)
        close(f.evaluate('differential', d, a0), F, what + ' differential', rtol=1e-7, atol=1e-9 * float(np.max(np.abs(C / d))))
        close(f.a[0], float(de['coefficients'][0]), what + ' level')
    else:
        close(f.evaluate('cumulative', d, a0), table_forms(([float(e) for e in de['H']], int(de['index_1km'])), a0, d)['cumulative'], what + ' cumulative', rtol=1e-9)


def agree_cf(f, de, what):
    p = [float(e) for e in de['coefficients']]
    t = np.array([.001, .1, 1., 3., 3.8, 4.5])
    close(f.N1(t), p[0] * (np.exp(p[1] * t) - 1) + p[3] * t, what + ' N1', rtol=1e-9, atol=1e-15 * abs(p[0]))
    close(f.phi(t), p[0] * p[1] * np.exp(p[1] * t) + p[3], what + ' rate', rtol=1e-9)


def level(de, d, n):
    """level a0 of a production function whose cumulative density at d is n"""
    if 'coefficients' in de:
        C, _ = poly_forms([float(e) for e in de['coefficients']], 0., [d])
        return np.log10(n / C[0])
    c = table_forms(([float(e) for e in de['H']], int(de['index_1km'])), 0., np.array([d]))['cumulative'][0]
    return np.log10(n / c)


def agree_ep(ep, de, pfd, cfd, what):
    eq(list(ep.epoch), list(de['epoch']), what + ' epoch names')
    if 'time' in de:
        close(ep.time, [float(e) for e in de['time']], what + ' times')
        return
    p = [float(e) for e in cfd['coefficients']]
    t = np.linspace(0, 5, 1000)
    n1 = p[0] * (np.exp(p[1] * t) - 1) + p[3] * t
    want = [0.]
    for d, n in zip(de['ref_diameter'], de['density']):
        want.append(float(np.interp(10 ** level(pfd, float(d), float(n) / 1e6), n1, t)))
    close(ep.time, want, what + ' times', rtol=2e-3, atol=1e-3)


def by_name(xs, name):
    return next(e for e in xs if e['name'] == name)


# ---------------------------------------------------------------- built-in list

def body_listed(case, ctx):
    with quiet():
        fl = cst.Functionslist().functions
    for k in KINDS:
        eq([e['name'] for e in fl[k]], [e['name'] for e in BUILTIN[k]], 'names listed as ' + k)
    with quiet() as o:
        cli.main(['-lcs'])
    out = re.sub('\x1b\\[[0-9;]*m', '', o.getvalue()).split('\n')
    shown = [e['name'] for k in ('chronology_system', 'equilibrium', 'epochs') for e in BUILTIN[k]]
    eq([l for l in out if l.strip() and not l.endswith(':')], shown, 'listing')
    systems = [e for e in BUILTIN['chronology_system'] if e['name'] != FIRST or case.get('strict')]
    s = by_name(systems, FIRST) if case.get('strict') else systems[case['cs'] % len(systems)]
    ef = (BUILTIN['equilibrium'] + [None])[case['ef'] % (len(BUILTIN['equilibrium']) + 1)]
    ep = (BUILTIN['epochs'] + [None])[case['ep'] % (len(BUILTIN['epochs']) + 1)]
    args = ['-cs', s['name']] + (['-ef', ef['name']] if ef else []) + (['-ep', ep['name']] if ep else [])
    c = construct(args, fl)
    pfd, cfd = by_name(BUILTIN['production'], s['pf']), by_name(BUILTIN['chronology'], s['cf'])
    eq((c['chronology_system'], c['pf'].name, c['cf'].name), (s['name'], s['pf'], s['cf']), 'system selected by its full name')
    agree_pf(c['pf'], pfd, s['pf'])
    agree_cf(c['cf'], cfd, s['cf'])
    if ef:
        eq(c['ef'].name, ef['name'], 'equilibrium function selected')
        agree_pf(c['ef'], ef, ef['name'])
    if ep:
        eq(c['ep'].name, ep['name'], 'epoch system selected')
        agree_ep(c['ep'], ep, pfd, cfd, ep['name'])
    pr = case['pr']
    d = ctx.tmpdir()
    lo, hi = [float(v) for v in c['pf'].range]
    m = float(np.sqrt(max(lo, .01) * min(hi, 100.)))
    src = gen.write_diam(os.path.join(d, 'x.diam'), [m * f for f in (.3, .35, .4, .5, .6, .7, .9, 1.1, 1.5, 2.)], area=1e5)
    args += ['-pr', pr, '-o', os.path.join(d, 'o'), '-f', 'png']
    if pr not in ('chronology', 'rate'):
        args += ['-p', 'source=%s' % src] + (['-p', 'type=%s,range=[%r,%r]' % (case['type'], m * .34, m * 1.6)] if pr != 'sequence' else ['type=poisson,range=[%r,%r]' % (m * .34, m * 1.6)])
    if pr == 'sequence':
        args[-2:] = ['source=%s,type=poisson,range=[%r,%r]' % (src, m * .34, m * 1.6)]
    fig = draw.figure(args)
    tx = texts(fig)
    if pr != 'sequence':
        for n in ([] if pr in ('chronology', 'rate') else [s['pf']] + ([ef['name']] if ef else [])) + [s['cf']] + ([ep['name']] if ep else []):
            check(n in tx, '%s not named in the %s plot: %r', n, pr, tx)
    ctx.label(pr)
    ctx.nontrivial(True)


# ---------------------------------------------------------------- user definitions

NAMES = ["Ceres, O'Test (2031)", 'My system', 'Test: Größe [v2]', 'x', 'Moon, Neukum (1983)', 'Mars, Ivanov', 'A & B; (new)', 'Titan.1', 'Pluto – 3 + 4', 'user/one', 'Hartmann', 'trask (1966)']


def num(lo, hi, n=5):
    return st.floats(lo, hi).map(lambda x: gen.r6(x, n))


@st.composite
def user(draw):
    """definitions in the text format: [kind, [[key, value]...]]"""
    names = draw(st.lists(st.sampled_from(NAMES), min_size=6, max_size=6, unique=True))

    def arr(vals):
        vals = [v if isinstance(v, str) else repr(v) for v in vals]
        return {'t': 'a', 'v': [[v, "'" if not re.match(r'^[\w.+-]*$', v) else ''] for v in vals], 'b': draw(st.sampled_from(['[', '*['])),
                'nl': [draw(st.integers(0, 5)) == 0 for _ in vals]}

    def s(text):
        return {'t': 's', 'v': text, 'q': '"' if "'" in text else draw(st.sampled_from(['"', "'"]))}
    defs = []
    pfs, cfs = [], []
    for i in range(draw(st.integers(1, 2))):
        n = names[i] + ' pf'
        if draw(st.booleans()):
            # monotonic: exact power of slope -1 .. -4, slightly bent
            a = [draw(num(-6, -1)), draw(num(-4, -1.2))] + draw(st.lists(num(-.05, .05), max_size=3))
            e = [['name', s(n)], ['coefficients', arr(a)], ['range', arr([draw(st.sampled_from([.01, .05])), draw(st.sampled_from([20., 300.]))])]]
        else:
            k = draw(st.integers(10, 24))
            q = draw(num(1.5, 4.))
            h = ['%.3E' % (1e4 * q ** -j) for j in range(k)]
            e = [['name', s(n)], ['type', s('tabular incremental root-2')], ['H', arr(h)], ['index_1km', {'t': 's', 'v': str(draw(st.integers(3, k - 4))), 'q': ''}], ['yrange', arr([-8, 5])]]
        pfs.append(n)
        defs.append(['production', e])
    for i in range(draw(st.integers(1, 2))):
        n = names[2 + i] + ' cf'
        defs.append(['chronology', [['name', s(n)], ['coefficients', arr([draw(num(1e-15, 1e-12, 4)), draw(num(5, 8)), 0, draw(num(1e-5, 1e-2, 4))])]]])
        cfs.append(n)
    systems = []
    for i in range(draw(st.integers(1, 3))):
        n = names[i]
        if n == 'Moon, Neukum (1983)':
            n = n + '!'
        systems.append(n)
        own_p = draw(st.integers(0, 3))
        p = draw(st.sampled_from(pfs)) if own_p else draw(st.sampled_from(gen.PF_NAMES[:6]))
        c = draw(st.sampled_from(cfs)) if draw(st.integers(0, 3)) else draw(st.sampled_from([e['name'] for e in gen.FUNCTIONS['chronology'] if 'coefficients' in e]))
        defs.append(['chronology_system', [['body', s(draw(st.sampled_from(['Moon', 'Ceres', 'Nowhere'])))], ['name', s(n)], ['pf', s(p)], ['cf', s(c)]]])
    if draw(st.booleans()):
        defs.append(['equilibrium', [['name', s(names[3] + ' ef')], ['type', s('polynomial')], ['coefficients', arr([draw(num(-2, 0)), draw(num(-3, -1.5))])], ['range', arr([.001, 1000])]]])
    if draw(st.booleans()):
        t = sorted(set([0.] + [round(x, 2) for x in draw(st.lists(st.floats(.05, 4.4), min_size=2, max_size=5))]))
        if len(t) > 2:
            k = len(t)
            e = [['name', s(names[4] + ' ep')], ['epoch', arr(['Epoch %s' % 'abcdefgh'[i] if i % 2 else 'E%d' % i for i in range(k)])], ['formatting', arr(['60'] + ['012'[i % 3] + ('b' if i % 2 else '') for i in range(k)])]]
            if draw(st.booleans()):
                e.append(['time', arr(t)])
            else:
                e += [['ref_diameter', arr([1.] * (k - 1))], ['density', arr([gen.r6(x * 1000, 4) for x in t[1:]])]]
            e.append(['reference', s('none; yet')])
            defs.append(['epochs', e])
    if draw(st.integers(0, 3)) == 0:  # same name as a built-in: the built-in stays
        defs.append(['production', [['name', s(gen.PF_NAMES[draw(st.integers(0, 5))])], ['coefficients', arr([-1, -1.])], ['range', arr([.1, 10])]]])
        defs.append(['chronology', [['name', s(gen.CF_NAMES[draw(st.integers(0, 5))])], ['coefficients', arr([1., 1., 0, 1.])]]])
    order = draw(st.permutations(list(range(len(defs)))))
    defs = [[k, draw(st.permutations(e))] for k, e in (defs[i] for i in order)]
    return {'defs': defs, 'lay': draw(st.lists(st.integers(0, 41), min_size=1, max_size=40))}


def render(u, comments=True):
    doc = [[k, {'t': 'st', 'v': [[a, v, False] for a, v in e]}, False] for k, e in u['defs']]
    return Render(u['lay'], comments).doc(doc), {k: [expected([[a, v, False] for a, v in e]) for kk, e in u['defs'] if kk == k] for k in KINDS}


@contextlib.contextmanager
def conda(prefix):
    old = os.environ.get('CONDA_PREFIX')
    try:
        if prefix is None:
            os.environ.pop('CONDA_PREFIX', None)
        else:
            os.environ['CONDA_PREFIX'] = prefix
        yield
    finally:
        os.environ.pop('CONDA_PREFIX', None)
        if old is not None:
            os.environ['CONDA_PREFIX'] = old


def builtin_kept(functions):
    base = json.loads(BASE)
    for k in base:
        eq(functions[k][:len(base[k])], base[k], 'built-in %s definitions' % k)


def body_user(case, ctx):
    d = ctx.tmpdir()
    lines, exp = render(case['user'])
    uf = os.path.join(d, 'my functions.txt')
    with open(uf, 'wb') as h:
        h.write((b'\xef\xbb\xbf' if case['bom'] else b'') + ('\r\n' if case['crlf'] else '\n').join(lines).encode('utf8') + b'\n' * case['last'])
    os.makedirs(os.path.join(d, 'etc'))
    with open(os.path.join(d, 'etc', 'config_functions_user.txt'), 'w', encoding='utf8') as h:
        h.write('#path to functions_user.txt\n' + uf + '\n' * case['last'])
    with conda(d):
        with quiet():
            f = cst.Functionslist().functions
        builtin_kept(f)
        base = json.loads(BASE)
        for k in KINDS:
            eq(f[k][len(base[k]):], exp[k], 'user %s definitions' % k)
        with quiet() as o:
            cli.main(['-lcs'])
        for k in ('chronology_system', 'equilibrium', 'epochs'):
            for e in exp[k]:
                check('\n' + e['name'] in o.getvalue(), '%r is not listed', e['name'])
        allp, allc = base['production'] + exp['production'], base['chronology'] + exp['chronology']
        drawn = False
        for s in exp['chronology_system']:
            ef = exp['equilibrium'][:1]
            ep = exp['epochs'][:1]
            args = ['-cs', s['name']] + (['-ef', ef[0]['name']] if ef else []) + (['-ep', ep[0]['name']] if ep else [])
            c = construct(args, f)
            eq((c['chronology_system'], c['pf'].name, c['cf'].name), (s['name'], s['pf'], s['cf']), 'system selected by its full name')
            pfd, cfd = by_name(allp, s['pf']), by_name(allc, s['cf'])
            agree_pf(c['pf'], pfd, s['pf'])
            agree_cf(c['cf'], cfd, s['cf'])
            eq('global_area' in c and c['global_area'] is not None, s['body'] in ('Moon', 'Ceres') or 'global_area' in cst.DEFAULTS['set'] and cst.DEFAULTS['set']['global_area'] is not None, 'body known')
            if ef:
                agree_pf(c['ef'], ef[0], ef[0]['name'])
            if ep:
                agree_ep(c['ep'], ep[0], pfd, cfd, ep[0]['name'])
            if not drawn:
                drawn = True
                src = gen.write_diam(os.path.join(d, 'x.diam'), [.3, .35, .4, .5, .6, .7, .9, 1.1, 1.5, 2.], area=1e4)
                fig = draw.figure(args + ['-pr', case['pr'], '-o', os.path.join(d, 'o'), '-f', 'png'] +
                                  ([] if case['pr'] in ('chronology', 'rate') else ['-p', 'source=%s,type=poisson,range=[.34,1.6]' % src]))
                tx = texts(fig)
                for n in ([] if case['pr'] in ('chronology', 'rate') else [s['pf']] + [e['name'] for e in ef]) + [s['cf']] + [e['name'] for e in ep]:
                    check(n in tx, '%s not named in the %s plot: %r', n, case['pr'], tx)
        # functions of the built-in list are the same whether or not a user file is present
        b = BUILTIN['chronology_system'][0]
        c = construct(['-cs', b['name']], f)
        agree_pf(c['pf'], by_name(BUILTIN['production'], b['pf']), b['pf'])
        agree_cf(c['cf'], by_name(BUILTIN['chronology'], b['cf']), b['cf'])
        for k in ('production', 'chronology'):
            for e in exp[k]:
                if e['name'] in [x['name'] for x in base[k]]:
                    ctx.label('name of a built-in')
                    g = (cst.Productionfn if k == 'production' else cst.Chronologyfn)(f, e['name'])
                    de = by_name(base[k], e['name'])
                    (agree_pf if k == 'production' else agree_cf)(g, de, 'built-in ' + e['name'])
    ctx.nontrivial(len(case['user']['defs']) >= 2)


# ---------------------------------------------------------------- missing and unreadable user files

def body_unreadable(case, ctx):
    d = ctx.tmpdir()
    how = case['how']
    conf = os.path.join(d, 'etc', 'config_functions_user.txt')
    uf = os.path.join(d, 'u.txt')
    prefix = d
    if how != 'no folder':
        os.makedirs(os.path.dirname(conf))
    if how == 'no conda':
        prefix = None
    elif how in ('no config', 'no folder'):
        pass
    elif how == 'config directory':
        os.mkdir(conf)
    elif how == 'empty config':
        open(conf, 'w').write(case['blank'])
    else:
        open(conf, 'w').write('#path to functions_user.txt\n%s\n' % uf)
        if how == 'directory':
            os.mkdir(uf)
        elif how == 'binary':
            open(uf, 'wb').write(bytes(case['bytes']) + b'\xff\xfe\x80')
        elif how == 'latin-1':
            open(uf, 'wb').write("chronology_system={\n name='Gr\u00f6\u00dfe'\n}\n".encode('latin-1'))
        elif how == 'empty':
            open(uf, 'w').write(case['blank'])
        elif how == 'prose':
            open(uf, 'w').write('This file has no definitions.\nNothing at all\n')
    with conda(prefix):
        with quiet():
            f = cst.Functionslist().functions
        eq(json.dumps(f, sort_keys=True), BASE, 'built-in list with user file: ' + how)
        src = gen.write_diam(os.path.join(d, 'x.diam'), [.3, .35, .4, .5, .6, .7, .9, 1.1, 1.5, 2.], area=1e4)
        s = BUILTIN['chronology_system'][case['cs'] % 3]
        tx = texts(draw.figure(['-cs', s['name'], '-o', os.path.join(d, 'o'), '-f', 'png', '-p', 'source=' + src]))
        check(s['pf'] in tx and s['cf'] in tx, 'system not named in plot: %r', tx)
    ctx.label(how)
    ctx.nontrivial(True)


def body_setting(case, ctx):
    """--functions_user, then later runs from elsewhere"""
    d = ctx.tmpdir()
    A, B = os.path.join(d, 'a b'), os.path.join(d, 'else')
    os.makedirs(A)
    os.makedirs(B)
    lines, exp = render(case['user'])
    uf = os.path.join(A, case['name'])
    open(uf, 'w', encoding='utf8').write('\n'.join(lines) + '\n')
    if case['how'] == 'none':
        with conda(None), cwd(A):
            expect_exit(cli.main, ['--functions_user', uf], what='setting a user file where it cannot be kept', mentions='onda')
        return
    if case['etc']:
        os.makedirs(os.path.join(d, 'etc'))
    with conda(d):
        with cwd(A), quiet():
            if case['again']:
                cli.main(['--functions_user', os.path.join(B, 'other.txt')])
            cli.main(['--functions_user'] + (case['name'].split(' ') if case['split'] and '  ' not in case['name'] else [case['name']]) if case['how'] == 'relative' else ['--functions_user', uf])
        with cwd(B), quiet() as o:
            f = cst.Functionslist().functions
        base = json.loads(BASE)
        builtin_kept(f)
        for k in KINDS:
            eq(f[k][len(base[k]):], exp[k], 'user %s definitions in a later run from another folder (%s)' % (k, case['how']))
    ctx.label(case['how'])
    ctx.nontrivial(True)


# ---------------------------------------------------------------- text, dictionary and file definitions

def body_sources(case, ctx):
    u = case['user']
    lines, exp = render(u)
    plain, _ = render(u, comments=False)
    d = ctx.tmpdir()
    f = os.path.join(d, 'defs.txt')
    open(f, 'w', encoding='utf8').write('\n'.join(lines) + '\n')
    t = np.array([.01, .5, 2., 4.2])
    n = 0
    for k, make in (('production', lambda s, i: cst.Productionfn(s, i)), ('equilibrium', lambda s, i: cst.Productionfn(s, i, equilibrium=True)), ('chronology', cst.Chronologyfn)):
        for i, de in enumerate(exp[k]):
            if [e['name'] for e in exp[k]].index(de['name']) != i:
                continue
            one = dict(u, defs=[x for x in u['defs'] if x[0] == k and expected([[a, v, False] for a, v in x[1]])['name'] == de['name']][:1])
            numeric = {a: ([float(e) for e in v] if a in ('coefficients', 'range', 'H', 'yrange') else int(v) if a == 'index_1km' else v) for a, v in de.items()}
            single = os.path.join(d, 'one.txt')
            open(single, 'w', encoding='utf8').write('\n'.join(render(one)[0]))
            forms = [('text', '\n' + '\n'.join(plain)), ('text of one', '\n' + '\n'.join(render(one, False)[0])), ('file', f), ('file of one', single),
                     ('dictionary', {k: exp[k]}), ('dictionary of numbers', {k: [numeric]})]
            for what, s in forms:
                with quiet():
                    g = make(s, de['name'])
                (agree_cf if k == 'chronology' else agree_pf)(g, de, '%s from %s' % (k, what))
                eq(str(g), de['name'], 'name from ' + what)
                n += 1
    pf, cf = gen.pf(gen.PF_NAMES[0]), gen.cf(gen.CF_NAMES[0])
    for de in exp['epochs']:
        for what, s in (('text', '\n' + '\n'.join(plain)), ('file', f), ('dictionary', {'epochs': exp['epochs']})):
            e = cst.Epochs(s, de['name'], pf, cf)
            agree_ep(e, de, by_name(BUILTIN['production'], gen.PF_NAMES[0]), by_name(BUILTIN['chronology'], gen.CF_NAMES[0]), 'epochs from ' + what)
            eq(e.formatting, de['formatting'], 'formatting')
            n += 1
    ctx.nontrivial(n > 6)


bits = dict(bom=st.booleans(), crlf=st.booleans(), last=st.integers(0, 2))

SUBS = [
    Sub('listed', st.fixed_dictionaries({'cs': st.integers(0, 59), 'ef': st.integers(0, 59), 'ep': st.integers(0, 59),
                                         'pr': st.sampled_from(list(PRES) + ['chronology', 'rate', 'sequence']), 'type': st.sampled_from(['poisson', 'c-fit', 'd-fit'])}),
        body_listed, quick=220, thorough=2500, shards=4, rule='every case',
        examples=[{'cs': i, 'ef': i, 'ep': i, 'pr': ['cumulative', 'differential', 'chronology', 'rate'][i % 4], 'type': 'poisson'} for i in range(len(BUILTIN['chronology_system']))]),
    Sub('user', st.fixed_dictionaries({'user': user(), 'pr': st.sampled_from(list(PRES) + ['chronology', 'rate']), **bits}), body_user, quick=200, thorough=2500, shards=4,
        rule='at least two user definitions'),
    Sub('unreadable', st.fixed_dictionaries({'how': st.sampled_from(['no conda', 'no config', 'no folder', 'config directory', 'empty config', 'missing', 'directory', 'binary', 'latin-1', 'empty', 'prose']),
                                             'blank': st.sampled_from(['', '\n', '#path to functions_user.txt', '#path\n\n', ' \n']), 'bytes': st.lists(st.integers(0, 255), max_size=8), 'cs': st.integers(0, 2)}),
        body_unreadable, quick=40, thorough=600, rule='every case'),
    Sub('setting', st.fixed_dictionaries({'user': user(), 'name': st.sampled_from(['u.txt', 'my functions.txt', "it's; #1.txt", 'ü.cfg']), 'how': st.sampled_from(['relative', 'absolute', 'relative', 'absolute', 'none']),
                                          'etc': st.booleans(), 'again': st.booleans(), 'split': st.booleans()}), body_setting, quick=60, thorough=1000, rule='every case'),
    Sub('sources', st.fixed_dictionaries({'user': user()}), body_sources, quick=120, thorough=3000, shards=2, rule='more than six function objects compared'),
]
