"""C31: damaged or unfinished files are refused by name, never hang and harm nothing else."""
import builtins
import os
import re
import signal
import time

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
import craterstats.gm as gm
from .. import gen, draw
from ..core import Sub, check, close, eq, quiet, cwd, CaseTimeout, CASE_TIMEOUT
from . import c25, c26

PROPERTY = 'C31'
RULE = ('valid generated .diam, .scc and .stat counts, randomness results, user function files and command files with 1-3 faults '
        '(truncation, bytes, spans or lines lost, repeated or inserted), and interruptions at every point of writing randomness results; '
        'oracle: refusal naming the file within 10 s or values written side by side in the file, unchanged folder after a refusal, '
        'unchanged built-in systems, earlier or later results whole; non-trivial when the damaged text differs from the valid one '
        'beyond white space')
LIMIT = 10
INSERT = '{}"\'=,;#[]() \n\t0-.xeE\\\u00e9'


class within:
    """time limit that holds even where every exception is caught"""

    def __enter__(self):
        self.hit = False

        def stop(sig, frame):
            self.hit = True
            raise CaseTimeout('not finished within %d s' % LIMIT)
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.alarm(LIMIT)
        self.t = time.time()

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        signal.alarm(CASE_TIMEOUT)
        if self.hit:
            raise CaseTimeout('not finished within %d s' % LIMIT)


def damage(s, ops):
    for op, a, b in ops:
        if not s:
            return s
        i = a % len(s)
        if op == 'cut':
            s = s[:i]
        elif op == 'lose':
            s = s[:i] + s[i + 1:]
        elif op == 'span':
            s = s[:i] + s[i + 1 + b % 30:]
        elif op == 'insert':
            s = s[:i] + INSERT[b % len(INSERT)] + s[i:]
        elif op == 'replace':
            s = s[:i] + INSERT[b % len(INSERT)] + s[i + 1:]
        else:
            L = s.split('\n')
            i, j = a % len(L), b % len(L)
            if op == 'lose line':
                L.pop(i)
            elif op == 'repeat line':
                L.insert(i, L[j])
            elif op == 'swap lines':
                L[i], L[j] = L[j], L[i]
            elif op == 'join lines' and i + 1 < len(L):
                L[i:i + 2] = [L[i] + L[i + 1]]
            s = '\n'.join(L)
    return s


OPS = st.lists(st.tuples(st.sampled_from(['cut', 'lose', 'span', 'insert', 'insert', 'replace', 'lose line', 'repeat line', 'swap lines', 'join lines']),
                         st.integers(0, 10 ** 5), st.integers(0, 10 ** 4)).map(list), min_size=1, max_size=3)


def listing(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def attempt(f, accept=()):
    """-> (value, None) or (None, message)"""
    with within(), quiet(), np.errstate(all='ignore'):
        try:
            return f(), None
        except SystemExit as e:
            return None, e.code if isinstance(e.code, str) else ''
        except accept as e:
            return None, '%s: %s' % (type(e).__name__, e)


def numbers(s):
    out = set()
    for m in re.findall(r'[-+]?[\d.]+(?:[eE][+-]?\d+)?', s) + re.findall(r'[\d.]+', s) + re.split(r'[\s;"\'=]+', s):
        try:
            out.add(float(m))
        except ValueError:
            pass
    return out


def rows(s):
    """leading one, two of each line"""
    out = set()
    for l in s.split('\n'):
        v = []
        for e in [e for e in re.split(r'[\s;"\'{}]+', l) if e][:2]:
            try:
                v.append(float(e))
            except ValueError:
                break
        if v:
            out.add((v[0], 1.))
        if len(v) == 2:
            out.add(tuple(v))
    return out


def body_counts(case, ctx):
    d = ctx.tmpdir()
    kind = case['kind']
    c = case['count']
    p = os.path.join(d, 'some.' + kind)
    if kind == 'diam':
        gen.write_diam(p, c['d'], c['f'], c['area'], extra=case['extra'])
    elif kind == 'scc':
        gen.write_scc_text(p, c['d'], c['f'], c['area'], perimeter=12.5)
    else:
        q = gen.write_diam(os.path.join(d, 'q.diam'), c['d'], c['f'], c['area'])
        cst.Cratercount(q).WriteStatFile(p, case['binning'])
        os.remove(q)
    valid = open(p).read()
    text = damage(valid, case['ops'])
    open(p, 'w').write(text)
    gen.write_diam(os.path.join(d, 'good.diam'), [1., 2.], None, 10.)
    before = listing(d)
    with cwd(d):
        cc, msg = attempt(lambda: cst.Cratercount(p))
        if cc is None:
            check('some.' + kind in msg, 'refusal of damaged %s does not name it: %r', kind, msg)
            cmd = [['-p', 'source=' + p, '-o', os.path.join(d, 'o'), '-f', 'csv', 'svg'], ['-m', 'good.diam', 'some.' + kind], ['--convert', 'stat', p]]
            cmd = cmd[case['cmd'] % (1 if kind == 'stat' else 3)]
            r, msg = attempt(lambda: draw.figures(cmd))
            check(msg and 'some.' + kind in msg, '%s with damaged %s: %r', cmd[0], kind, msg)
            eq(sorted(listing(d)), sorted(before), 'files after refusal')
    eq({k: v for k, v in listing(d).items() if k in before}, before, 'damaged file after reading')
    ctx.nontrivial(text.split() != valid.split())
    ctx.label(kind)
    ctx.label('refused' if cc is None else 'read')
    if cc is None:
        return
    num = numbers(text)
    if kind == 'stat':
        t = [[float(e) for e in l.split()[:2]] for l in text.split('\n') if l.strip() and not l.lstrip().startswith('#')]
        eq([float(v) for v in cc.binned['n']], [r[1] for r in t], 'counts read from damaged .stat')
        close(np.asarray(cc.binned['d_min'], float), [r[0] for r in t], 'bins read from damaged .stat', rtol=2e-4, atol=0)
        return
    eq(len(cc.diam), len(cc.fraction), 'fractions')
    check(cc.area in num or cc.area != cc.area, 'area %r of damaged file not in it', cc.area)
    ok = rows(text)
    for a, b in zip(cc.diam, cc.fraction):
        check((a, b) in ok or a != a or b != b, 'crater %r, %r is not a row of the damaged file', a, b)


@st.composite
def count_cases(draw):
    kind = draw(st.sampled_from(['diam', 'diam', 'scc', 'stat']))
    return {'kind': kind, 'count': draw(gen.counts(2 if kind == 'stat' else 1, 12)), 'ops': draw(OPS), 'cmd': draw(st.integers(0, 2)), 'binning': draw(st.sampled_from(['pseudo-log', 'root-2', '10/decade'])),
            'extra': draw(st.sampled_from([[], ['# note; more'], ['perimeter = 3.5'], ['info = {', ' a = 1', ' b = "x"', '}']]))}


# spatial counts

def body_spatial(case, ctx):
    s = c25.Setup(ctx, {'src': 'some.scc', 'lat': case['lat'], 'bins': case['bins'], 'seed': case['seed']})
    p = os.path.join(s.d, 'some.scc')
    valid = open(p).read()
    if case['where'] is not None:  # faults in the crater or boundary table only
        i = valid.index('crater = ' if case['where'] else 'unit_boundary')
        text = valid[:i] + damage(valid[i:], case['ops'])
    else:
        text = damage(valid, case['ops'])
    open(p, 'w').write(text)
    before = listing(s.d)
    cmd = [['-ra', 'some.scc', '-trials', '2'], ['--convert', 'shp', 'some.scc'], ['--convert', 'svg', 'some.scc']][case['cmd']]
    with cwd(s.d):
        c, msg = attempt(lambda: cst.Spatialcount('some.scc'))
        if c is None:
            check('some.scc' in msg, 'refusal of damaged spatial count does not name it: %r', msg)
            r, msg = attempt(lambda: draw.figures(cmd))
            check(msg and 'some.scc' in msg, '%s with damaged spatial count: %r', cmd[0], msg)
    eq(listing(s.d), before, 'files after reading damaged spatial count')
    ctx.nontrivial(text.split() != valid.split())
    ctx.label('refused' if c is None else 'read')
    if c is not None:
        num = numbers(text)
        eq([len(c.fraction), len(c.lon), len(c.lat)], [len(c.diam)] * 3, 'columns of damaged spatial count')
        ok = set()
        for l in text.split('\n'):
            ok.add(tuple(sorted(numbers(l))))
        for row in zip(c.diam, c.lon, c.lat):
            check(all(x in num or x != x for x in row), 'crater %r not in the damaged file', row)
            check(any(set(row) <= set(o) for o in ok) or any(x != x for x in row), 'crater %r is on no line of the damaged file', row)


@st.composite
def spatial_cases(draw):
    c = draw(results_cases())
    c.update(where=draw(st.sampled_from([None, True, False])), cmd=draw(st.integers(0, 2)))
    return c


# randomness results

def results_text(v, layout):
    """v: {measure: {bin: [trials]}}"""
    bins = sorted({b for m in v for b in v[m]}, key=float)
    s = ['# Randomness analysis', 'version = 3.9', 'source = "some.scc"', '#', 'n_sigma = {bin' + ''.join(', ' + m for m in v)]
    s += ['%-12s' % b + ''.join('\t%9s' % ('0.5' if b in v[m] else '-') for m in v) for b in bins] + ['}']
    for m in v:
        T = len(next(iter(v[m].values())))
        s += ['#', m + ' = {', 'n_trials = %d' % T, 'trials  = {index, ' + ', '.join(v[m])]
        s += ['\t'.join(['%-12d' % i] + ['%-12.7g' % v[m][b][i] for b in v[m]]) for i in range(T)] + ['}', '}']
    return '\n'.join(s)


def body_results(case, ctx):
    s = c25.Setup(ctx, {'src': 'some.scc', 'lat': case['lat'], 'bins': case['bins'], 'seed': case['seed']})
    v = {m: {'%.3g' % b: [float('%.7g' % x) for x in s.m0[m][b] * np.exp(.3 * s.rng.normal(size=case['T']))] for b in s.m0[m]} for m in case['measures'] if s.m0[m]}
    if not v:
        v = {'m2cnd': {'0': [1.5] * case['T']}}
    p = os.path.join(s.d, 'some_ra.txt')
    valid = results_text(v, None)
    text = damage(valid, case['ops'])
    open(p, 'w').write(text)
    before = listing(s.d)
    with cwd(s.d):
        cc, msg = attempt(lambda: cst.Cratercount('some.scc'))
        check(cc is not None or 'some_ra.txt' in msg, 'count beside damaged results: %r', msg)
        ra, msg2 = attempt(lambda: cst.Randomnessanalysis('some.scc'))
        check(ra is not None or 'some_ra.txt' in msg2, 'analysis with damaged results: %r', msg2)
    eq(listing(s.d), before, 'files after reading damaged results')
    ctx.nontrivial(text.split() != valid.split())
    ctx.label('count %s, analysis %s' % ('refused' if cc is None else 'read', 'refused' if ra is None else 'read'))
    if text == valid:
        check(cc is not None and ra is not None, 'undamaged results refused: %r', (msg, msg2))
    num = numbers(text)
    if cc is not None:
        eq(len(cc.diam), sum(n for _, n in case['bins']), 'craters beside damaged results')
    if ra is not None:
        stated = numbers(' '.join(re.findall(r'n_trials\s*=[^\n]*', text)))
        for m, e in ra.montecarlo.items():
            check(e['n_trials'] in stated, '%s trials of %s in damaged results: %r', e['n_trials'], m, sorted(stated))
            for b, t in e['trials'].items():
                eq(len(t), e['n_trials'], 'trials of %s in bin %s of damaged results' % (m, b))
                check(all(x in num or x != x for x in t), 'trial values %r not in damaged results', t[:5])


@st.composite
def results_cases(draw, ops=OPS):
    return {'lat': draw(st.sampled_from([0., 40., -70.])), 'seed': draw(st.integers(0, 10 ** 6)), 'ops': draw(ops), 'T': draw(st.integers(1, 6)),
            'bins': draw(st.lists(st.tuples(st.integers(-6, 6), st.integers(1, 6)).map(list), min_size=1, max_size=3, unique_by=lambda e: e[0])),
            'measures': draw(st.sampled_from([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa'], ['sdaa', 'm2cnd']]))}


class Interrupted:
    """file of which only the first characters reach the disc before the program is stopped"""

    def __init__(self, f, left):
        self.f, self.left = f, left

    def write(self, s):
        self.f.write(s[:self.left])
        if len(s) > self.left:
            self.f.flush()
            raise KeyboardInterrupt
        self.left -= len(s)
        return len(s)

    def writelines(self, L):
        for s in L:
            self.write(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, k):
        return getattr(self.f, k)


def body_interrupted(case, ctx):
    s = c25.Setup(ctx, {'src': 'some.scc', 'lat': case['lat'], 'bins': case['bins'], 'seed': case['seed']})
    real = open

    def fill(r, T, measures):
        for m in measures:
            r.montecarlo[m] = {'n_trials': T, 'trials': {'%.3g' % b: [float('%.7g' % x) for x in s.m0[m][b] * np.exp(.3 * s.rng.normal(size=T))] for b in s.m0[m]}}
        with quiet():
            r.establish_hpx(T)
            r.calculate_stats()
        return {m: {b: list(t) for b, t in e['trials'].items()} for m, e in r.montecarlo.items()}

    with cwd(s.d), quiet():
        r = cst.Randomnessanalysis('some.scc')
        first = fill(r, 3, case['first'])
        r.write()
        size = os.path.getsize('some_ra.txt')
        r = cst.Randomnessanalysis('some.scc')
        second = fill(r, 3 + case['T'], case['measures'])
        stop = case['at'] % (2 * size)

        def opened(f, mode='r', *a, **k):
            g = real(f, mode, *a, **k)
            return Interrupted(g, stop) if 'w' in mode and isinstance(f, str) and 'b' not in mode else g
        builtins.open = opened
        stopped = False
        try:
            r.write()
        except KeyboardInterrupt:
            stopped = True
        finally:
            builtins.open = real
        got, msg = attempt(lambda: cst.Randomnessanalysis('some.scc'))
        check(got is not None, 'results unreadable after interruption of writing at character %d: %r', stop, msg)
        got = {m: {b: list(t) for b, t in e['trials'].items()} for m, e in got.montecarlo.items()}
        if not stopped:
            eq(got, second, 'results written')
        else:
            check(got == second or got == first, 'after interruption of writing at character %d the results are %r, neither the earlier nor the later', stop, {m: sorted(v) for m, v in got.items()})
        cc, msg = attempt(lambda: cst.Cratercount('some.scc'))
        check(cc is not None and cc.n_sigma is not None, 'deviations lost after interruption of writing: %r', msg)
    ctx.nontrivial(stopped)
    ctx.label('stopped' if stopped else 'complete')


@st.composite
def interrupted_cases(draw):
    c = draw(results_cases(st.just([])))
    c['bins'] = [[k, max(n, 4)] for k, n in c['bins']]
    c['first'] = draw(st.sampled_from([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa']]))
    c['at'] = draw(st.integers(0, 3000))
    return c


# user functions

def body_functions(case, ctx):
    d = ctx.tmpdir()
    os.makedirs(os.path.join(d, 'etc'))
    uf = os.path.join(d, 'mine.txt')
    lines, exp = c26.render(case['user'])
    valid = '\n'.join(lines) + '\n'
    text = damage(valid, case['ops'])
    open(uf, 'w', encoding='utf8').write(text)
    open(os.path.join(d, 'etc', 'config_functions_user.txt'), 'w').write('#path to functions_user.txt\n%s\n' % uf)
    with c26.conda(d):
        f, msg = attempt(lambda: cst.Functionslist().functions)
        check(f is not None, 'damaged user functions: %r', msg)
        c26.builtin_kept(f)
        with quiet() as o, within():
            cst.Functionslist().print()
        for e in c26.BUILTIN['chronology_system'][case['cs'] % 3::5]:
            args = cli.get_parser().parse_args(['-cs', e['name']])
            with within():
                c = cli.construct_cps_dict(args, dict(cst.DEFAULTS['set']), f)
            eq((c['chronology_system'], c['pf'].name, c['cf'].name), (e['name'], e['pf'], e['cf']), 'built-in system beside damaged user functions')
    added = sum(len(f[k]) for k in c26.KINDS) - sum(len(c26.BUILTIN[k]) for k in c26.KINDS)
    ctx.nontrivial(text.split() != valid.split())
    ctx.label('ignored' if not added else 'partly used')


@st.composite
def functions_cases(draw):
    return {'user': draw(c26.user()), 'ops': draw(OPS), 'cs': draw(st.integers(0, 2))}


# command files

def body_commands(case, ctx):
    d = ctx.tmpdir()
    src = gen.write_diam(os.path.join(d, 'x y.diam'), [.3, .35, .4, .5, .6, .7, .9, 1.1, 1.5, 2.], area=1e4)
    valid = '\n'.join(case['lines']) + '\n'
    text = damage(valid, case['ops'])
    p = os.path.join(d, 'some.cs')
    open(p, 'w', encoding='utf8').write(text)
    before = listing(d)
    with cwd(d):
        with quiet() as o:
            r, msg = attempt(lambda: draw.figures(['-i', 'some.cs']), (ValueError, TypeError, KeyError, IndexError, AttributeError, OSError))
    after = listing(d)
    eq({k: v for k, v in after.items() if k in before}, before, 'files after damaged command file')
    new = sorted(set(after) - set(before))
    ctx.nontrivial(text.split() != valid.split())
    if r is None:
        eq([f for f in new], [], 'outputs of refused command file')
        ctx.label('refused')
    else:
        ctx.label('run')


@st.composite
def commands_cases(draw):
    L = ['-cs "Moon, Neukum (1983)"', '-f csv', '-title "a b"', '-xrange -2 2', '# note', '-isochrons 3,1a', '-pr %s' % draw(st.sampled_from(['cumulative', 'differential'])),
         '-p "source=x y.diam",name="x, y",psym=o', '-p "type=c-fit","range=[.3,2]",colour=red', '-p type=poisson,range=[.3,inf],offset_age=[1,2]', '-pd 7x7', '-sf 2']
    keep = draw(st.lists(st.booleans(), min_size=len(L), max_size=len(L)))
    return {'lines': [l for l, k in zip(L, keep) if k or l[:2] in ('-f',) or 'source' in l], 'ops': draw(OPS)}


SUBS = [
    Sub('counts', count_cases(), body_counts, quick=1500, shards=2, rule='damaged text differs beyond white space'),
    Sub('spatial', spatial_cases(), body_spatial, quick=400, shards=2, rule='damaged text differs beyond white space'),
    Sub('results', results_cases(), body_results, quick=600, shards=2, rule='damaged text differs beyond white space'),
    Sub('interrupted', interrupted_cases(), body_interrupted, quick=400, shards=2, rule='writing was stopped'),
    Sub('functions', functions_cases(), body_functions, quick=500, shards=2, rule='damaged text differs beyond white space'),
    Sub('commands', commands_cases(), body_commands, quick=300, shards=2, rule='damaged text differs beyond white space'),
]
