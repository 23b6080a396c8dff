"""C27: results do not depend on what was computed before."""
import copy
import os
import pickle
import re
import shlex
import shutil
from unittest import mock

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen
from ..core import Sub, check, eq, Skip, quiet, cwd, HarnessError
from .c16 import tree, norm
from .c26 import FIRST

PROPERTY = 'C27'
RULE = ('random sequences of up to 20 operations (plot data, ranges, fits, age pdfs, isochrons, exports, overplots, tables, drawings, file '
        'conversions, whole program runs) over shared objects, each result compared exactly with the same operation on fresh objects, with '
        'the crater list, area and arguments compared before and after; non-trivial when the history changes binning or kind of operation')

PRES = ['cumulative', 'differential', 'incremental', 'R-plot', 'Hartmann']


def canon(x):
    """comparable form of a result"""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canon(e) for e in x]
    if isinstance(x, (np.floating, float)):
        return 'nan' if np.isnan(x) else float(x)
    if isinstance(x, np.integer):
        return int(x)
    return x


def attempt(f, *a):
    """result, or the way it was refused"""
    try:
        with quiet(), np.errstate(all='ignore'):
            return canon(f(*a))
    except (SystemExit, Exception) as e:
        if isinstance(e, HarnessError):
            raise
        return ['refused', type(e).__name__, str(e)]


def differ(a, b, path=''):
    if type(a) is not type(b):
        return '%s: %.200r, fresh %.200r' % (path, a, b)
    if isinstance(a, dict):
        if list(a) != list(b):
            return '%s: keys %r, fresh %r' % (path, list(a), list(b))
        return next((d for k in a for d in [differ(a[k], b[k], path + '/' + k)] if d), None)
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: %d elements, fresh %d: %.300r / %.300r' % (path, len(a), len(b), a, b)
        return next((d for i, (u, v) in enumerate(zip(a, b)) for d in [differ(u, v, path + '[%d]' % i)] if d), None)
    return None if a == b else '%s: %.300r, fresh %.300r' % (path, a, b)


def write_source(d, c):
    """count file of the kind wanted"""
    n = c['kind']
    p = os.path.join(d, c['name'] + '.' + ('scc' if n == 'scc' else 'stat' if n == 'stat' else 'diam'))
    if n == 'scc':
        gen.write_scc_text(p, c['d'], c['f'], c['area'], c['perimeter'])
    elif n == 'stat':
        q = os.path.join(d, 'for_stat.diam')
        gen.write_diam(q, c['d'], c['f'], c['area'])
        with quiet(), np.errstate(all='ignore'):
            cst.Cratercount(q).WriteStatFile(p, c['stat'])
    else:
        gen.write_diam(p, c['d'], c['f'], c['area'])
    return p


def fingerprint(cc):
    return canon([cc.diam and list(cc.diam), list(cc.fraction) if cc.diam else None, cc.area, cc.perimeter, cc.name, cc.filename, bool(cc.buffered)])


def functions(sysname):
    _, p, c = next(s for s in gen.SYSTEMS if s[0] == sysname)[:3]
    return {'pf': gen.pf(p), 'cf': gen.cf(c)}


def fn_print(o):
    return canon({k: v for k, v in sorted(vars(o).items()) if not callable(v)})


def rng(r):
    return None if r is None else [float(e) for e in r]


def do(op, cc, fs, d):
    """one evaluation"""
    k, pf, cf = op['op'], fs['pf'], fs['cf']
    p = pf if op['pf'] else None
    if k == 'data':
        r = rng(op['r'])
        out = cc.getplotdata(op['pres'], op['b'], range=r, showall=op['showall'], pf=p)
        eq(r, rng(op['r']), 'range passed by the caller')
        return out
    if k == 'resurf':
        r = rng(op['r']) or [0., np.inf]
        r0 = list(r)
        out = cc.getplotdata('cumulative', op['b'], range=r, resurfacing=1, showall=op['showall'], pf=pf)
        eq(r, r0, 'range passed by the caller')
        return out
    if k == 'range':
        r = list(op['rs'])
        out = cc.decode_range(r, op['b'], op['snap'])
        eq(r, list(op['rs']), 'range passed by the caller')
        return out
    if k == 'fit':
        r = rng(op['r']) or [0., np.inf]
        q = cc.getplotdata(op['pres'] if op['pres'] in ('cumulative', 'differential') else 'differential', op['b'], range=r, pf=pf)
        q0 = copy.deepcopy(q)
        a = pf.fit(q)
        eq(canon(q), canon(q0), 'points passed to fit')
        return [a, [cf.t(a0=e) for e in a]]
    if k in ('pdf', 'bpdf'):
        r = np.clip(np.array(rng(op['r']) or [0., np.inf]), *pf.range)
        r0 = r.copy()
        q = cst.Craterpdf(pf, cf, cc, r, bcc=k == 'bpdf')
        out = [q.k, q.median1sigma(), q.t(op['u']), q.cumulative_fraction(1.), q.relative_probability(.5), q.offset(1), q.offset(0), q.median1sigma()]
        eq(r.tolist(), r0.tolist(), 'range passed by the caller')
        return out
    if k == 'stat':
        f = os.path.join(d, 'out.stat')
        cc.WriteStatFile(f, op['b'])
        return open(f).read()
    if k == 'iso':
        a = np.array([float(cf.a0(op['u'] * 4))])
        return [pf.getisochron(op['pres'], float(a[0]), None), pf.evaluate('cumulative', 1., a[0]), pf.getplotdata(op['pres'], float(a[0]), rng(op['r']))]
    if k == 'cf':
        t = np.array([.1, .5, 1., 3.9]) * op['u']
        t0 = t.copy()
        out = [cf.a0(t), cf.N1(t), cf.phi(t), cf.t(a0=cf.a0(t)), cf.getplotdata(linear=True, phi=bool(op['snap']))]
        eq(t.tolist(), t0.tolist(), 'ages passed by the caller')
        return out
    raise HarnessError(k)


def body(case, ctx):
    d = ctx.tmpdir()
    c = case['count']
    with quiet():
        src = write_source(d, c)
        shared = cst.Cratercount(src)
        fs = functions(case['system'])
    if c['kind'] == 'stat' and not len(shared.binned['d_min']) > 1:
        raise Skip()
    f0, g0 = fingerprint(shared), {k: fn_print(v) for k, v in fs.items()}
    kinds = set()
    refused = 0
    for i, op in enumerate(case['ops']):
        op = dict(op)
        if op['op'] == 'bpdf' and shared.perimeter is None:
            op['op'] = 'pdf'
        if op['op'] == 'range' and op['b'] == 'none':
            op['b'] = 'pseudo-log'
        got = attempt(do, op, shared, fs, d)
        eq(fingerprint(shared), f0, 'crater list after %r' % op)
        with quiet():
            fresh = cst.Cratercount(src)
        want = attempt(do, op, fresh, functions(case['system']), d)
        df = differ(got, want)
        check(not df, 'step %d, %r, after %r: %s', i + 1, op, [(o['op'], o['b'], o['pres']) for o in case['ops'][:i]], df)
        if isinstance(got, list) and got[:1] == ['refused']:
            refused += 1
        else:
            kinds.add((op['op'], op['b']))
            ctx.label(op['op'])
    for k, v in fs.items():
        eq(fn_print(v), g0[k], '%s after the sequence' % k)
    if refused:
        ctx.label('with refusals')
    ctx.nontrivial(len(kinds) > 1)


# ---------------------------------------------------------------- sets of overplots, drawn and tabulated

def picture(fig):
    """what a figure shows"""
    out = []
    for ax in fig.axes:
        L = ax.get_legend()
        out.append({
            'lim': [ax.get_xlim(), ax.get_ylim(), ax.get_xscale(), ax.get_yscale(), ax.get_position().bounds, ax.get_title(), ax.get_xlabel(), ax.get_ylabel()],
            'ticks': [ax.get_xticks(), ax.get_yticks(), [t.get_text() for t in ax.get_xticklabels()], [t.get_text() for t in ax.get_yticklabels()]],
            'lines': [[np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float), str(l.get_color()), l.get_marker(), l.get_linestyle(),
                       l.get_linewidth(), l.get_markersize(), str(l.get_markerfacecolor()), l.get_label() if not l.get_label().startswith('_') else ''] for l in ax.lines],
            'areas': [[[q.vertices for q in e.get_paths()], e.get_facecolor(), e.get_edgecolor()] for e in ax.collections if hasattr(e, 'get_paths') and hasattr(e, 'get_facecolor')],
            'patches': [p.get_path().vertices for p in ax.patches],
            'texts': [[t.get_text(), t.get_position(), t.get_size(), str(t.get_color())] for t in ax.texts],
            'legend': [[t.get_text(), t.get_size()] for t in L.get_texts()] if L else None,
        })
    return canon(out)


def make_plots(case, files, shared_count, counts):
    out = []
    for it in case['items']:
        it = dict(it)
        s = it.pop('src') % len(files)
        k = {'cratercount': counts[s]} if shared_count else {'source': files[s]}
        k.update({e: (list(v) if isinstance(v, list) else v) for e, v in it.items()})
        out.append(cst.Craterplot(k))
    return out


def make_set(op, plots, fs):
    k = {'presentation': op['pres'], 'legend': op['legend'], 'ref_diameter': op['ref'], 'format': {'csv'}, 'out': 'out', 'invert': op['invert'],
         'mu': op['mu'], 'pf': fs['pf'], 'cf': fs['cf'], 'isochrons': op['iso'], 'title': '', 'subtitle': '', 'bins': op['bins'],
         'ef': op['ef'] and cst.Productionfn(gen.FUNCTIONS, op['ef'], equilibrium=True), 'ep': op['ep'] and cst.Epochs(gen.FUNCTIONS, op['ep'], fs['pf'], fs['cf'])}
    cps = cst.Craterplotset(k)
    cps.craterplot = plots
    return cps


def act(op, plots, fs):
    cps = make_set(op, plots, fs)
    for p, o in zip(plots, op['over']):
        p.UpdateSettings({'type': o['type'], 'binning': o['binning'], 'range': list(o['range']), 'hide': o['hide'], 'colour': '#102030', 'psym': o['psym']})
        if p.type == 'b-poisson' and p.cratercount.perimeter is None:
            p.type = 'poisson'
        p.range = p.cratercount.decode_range(p.range, p.binning, 1)
    k = op['op']
    if k == 'table':
        return cps.create_summary_table()
    if k == 'order':  # same evaluations, other order
        t = {}
        for i in op['perm']:
            if i < len(plots) and plots[i].type != 'data':
                plots[i].calculate_age(cps)
                t[i] = [plots[i].t, plots[i].a0, plots[i].n, plots[i].n_event]
        return [t[i] for i in sorted(t)]
    if k == 'legend':
        out = []
        for p in plots:
            if p.type != 'data':
                p.calculate_age(cps)
                out.append(p.make_legend_label(cps) if p.type in ('poisson', 'b-poisson') and 'r' not in op['legend'] else None)
        return out
    if op['pres'] != 'sequence':
        cps.autoscale()
    if k == 'scale':
        return [cps.xrange, cps.yrange]
    try:
        cps.draw()
        return picture(cps.fig)
    finally:
        plt.close('all')


def body_set(case, ctx):
    d = ctx.tmpdir()
    files, counts = [], []
    with quiet():
        for i, c in enumerate(case['counts']):
            os.makedirs(os.path.join(d, str(i)))
            files.append(write_source(os.path.join(d, str(i)), c))
        counts = [cst.Cratercount(f) for f in files]
        if any(c.prebinned and not len(c.binned['d_min']) > 1 for c in counts):
            raise Skip()
        shared = make_plots(case, files, case['share'], counts)
    fs = functions(case['system'])
    f0 = [fingerprint(c) for c in counts]
    done = set()
    for i, op in enumerate(case['ops']):
        got = attempt(act, op, shared, fs)
        with quiet():
            fresh = make_plots(case, files, False, None)
        o2 = dict(op)
        if op['op'] == 'order':
            o2['perm'] = sorted(op['perm'])
        want = attempt(act, o2, fresh, functions(case['system']))
        df = None if op['op'] == 'order' and all(isinstance(e, list) and e[:1] == ['refused'] for e in (got, want)) else differ(got, want)
        check(not df, 'step %d (%s, %s) after %r: %s', i + 1, op['op'], op['pres'], [(o['op'], o['pres']) for o in case['ops'][:i]], df)
        eq([fingerprint(c) for c in counts], f0, 'crater lists after %s' % op['op'])
        if isinstance(got, list) and got[:1] == ['refused']:
            ctx.label('refused: ' + got[2][:50])
        else:
            ctx.label(op['op'] + (' ' + op['pres'] if op['op'] == 'draw' else ''))
            done.add((op['op'], op['pres']))
    ctx.nontrivial(len(done) > 1 and any(it['type'] != 'data' for op in case['ops'] for it in op['over'][:len(case['items'])]))


# ---------------------------------------------------------------- program runs in one process

def program(args, seed):
    """one run: text printed and how it ended"""
    np.random.seed(seed)
    end = None
    with quiet() as o, mock.patch('progressbar.progressbar', lambda it, **k: it):
        try:
            cli.main(args)
        except SystemExit as e:
            end = str(e)
        except Exception as e:
            end = type(e).__name__ + ': ' + str(e)
        finally:
            plt.close('all')
    # colour codes depend on whether the terminal was set up before the output was captured
    return [end, re.sub(r'\x1b\[[0-9;]*m', '', o.getvalue())]


def in_child(f):
    """result of f in a process which has run nothing else"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, 'wb') as h:
                h.write(data)
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    _, s = os.waitpid(pid, 0)
    if s != 0:
        raise HarnessError('child ended with %r' % s)
    return pickle.loads(data)


def body_runs(case, ctx):
    root = ctx.tmpdir()
    src = []
    with quiet():
        for i, c in enumerate(case['counts']):
            os.makedirs(os.path.join(root, 'in', str(i)))
            src.append(write_source(os.path.join(root, 'in', str(i)), c))

    def arguments(r, out):
        a = []
        for e in r['args']:
            a.append(re.sub(r'@(\d)', lambda m: src[int(m.group(1)) % len(src)], e))
        return a + (['-o', os.path.join(out, r['out'] if isinstance(r['out'], str) else 'o')] if r['out'] else [])

    def go(r, i):
        out = os.path.join(root, 'out')
        os.makedirs(out, exist_ok=True)
        with cwd(out):
            res = program(arguments(r, out), case['seed'] + i)
        t = {k: norm(k, v) for k, v in tree(out).items()}
        shutil.rmtree(out)
        return res, t

    def together():
        return [go(r, i) for i, r in enumerate(case['runs'])]
    together = in_child(together)
    before = tree(os.path.join(root, 'in'))
    ok = 0
    for i, r in enumerate(case['runs']):
        alone = in_child(lambda: go(r, i))
        (e1, t1), (e2, t2) = together[i], alone
        what = 'run %d (%s) after %s' % (i + 1, shlex.join(r['args']), [shlex.join(q['args']) for q in case['runs'][:i]])
        eq(e1, e2, what + ': ended/printed')
        eq(sorted(t1), sorted(t2), what + ': files')
        for k in t1:
            check(t1[k] == t2[k], '%s: %s differs from that of a separate run', what, k)
        ok += e2[0] is None
        ctx.label('ok' if e2[0] is None else 'refused: ' + e2[0][:60])
        for k in t2:
            ctx.label(os.path.splitext(k)[1])
    eq(tree(os.path.join(root, 'in')), before, 'source files')
    ctx.nontrivial(ok > 1)


# ---------------------------------------------------------------- generators

@st.composite
def count(draw, kinds=('diam', 'diam', 'scc', 'scc', 'stat')):
    c = draw(st.one_of(gen.counts(min_size=2, max_size=30, lo=-1, hi=1),
                       st.fixed_dictionaries({'d': st.lists(gen.log_diams(-.7, 1.), min_size=10, max_size=40), 'f': st.none(), 'area': st.sampled_from([100., 1000., 12345.6])})))
    c = dict(c)
    c['kind'] = draw(st.sampled_from(kinds))
    c['perimeter'] = gen.r6(np.sqrt(c['area']) * draw(st.integers(36, 90)) / 10.)
    c['stat'] = draw(st.sampled_from(gen.BINNINGS))
    c['name'] = draw(st.sampled_from(['a', 'Mare X', 'b (1)']))
    return c


@st.composite
def ranges(draw):
    lo = draw(st.integers(-13, 8)) / 10.
    hi = lo + draw(st.integers(2, 15)) / 10.
    return draw(st.sampled_from([['0', 'inf'], ['%.3g' % 10 ** lo, '%.3g' % 10 ** hi], ['%.3g' % 10 ** lo, 'inf'], ['0', '%.3g' % 10 ** hi]]))


any_range = st.one_of(ranges(), st.tuples(st.integers(1, 4), st.integers(1, 3)).map(lambda a: ['b%d' % a[0], 'b-%d' % a[1]]))
SYS = [s[0] for s in gen.SYSTEMS if s[0] != FIRST]  # recorded finding of C26

ops = st.fixed_dictionaries({
    'op': st.sampled_from(['data', 'data', 'data', 'resurf', 'range', 'fit', 'fit', 'pdf', 'bpdf', 'stat', 'iso', 'cf']),
    'pres': st.sampled_from(PRES), 'b': st.sampled_from(gen.ALL_BINNINGS), 'r': st.one_of(st.none(), ranges()), 'rs': any_range,
    'showall': st.integers(0, 1), 'snap': st.integers(0, 1), 'pf': st.booleans(), 'u': st.integers(1, 19).map(lambda i: i / 20.)})

overs = st.fixed_dictionaries({'type': st.sampled_from(['data', 'poisson', 'b-poisson', 'c-fit', 'd-fit']), 'binning': st.sampled_from(gen.BINNINGS),
                               'range': any_range, 'hide': st.sampled_from([0, 0, 0, 1]), 'psym': st.integers(0, 5)})
acts = st.fixed_dictionaries({
    'op': st.sampled_from(['table', 'order', 'legend', 'scale', 'draw', 'draw', 'draw']),
    'pres': st.sampled_from(['cumulative', 'differential', 'R-plot', 'Hartmann', 'sequence']), 'legend': st.sampled_from(['fnacr', 'nacrN', 'n', 'fnaN', 'cA']),
    'ref': st.sampled_from([1., 1., 10., .5]), 'invert': st.integers(0, 1), 'mu': st.integers(0, 1), 'iso': st.sampled_from([None, None, '1,3.5', '.1h,4a']),
    'bins': st.sampled_from([False, False, True]), 'ef': st.sampled_from([None, None] + gen.EQUILIBRIA), 'ep': st.sampled_from([None, None] + gen.EPOCHS),
    'over': st.lists(overs, min_size=4, max_size=4), 'perm': st.permutations(range(4))})
items = st.fixed_dictionaries({'src': st.integers(0, 1), 'type': st.sampled_from(['data', 'poisson', 'c-fit', 'd-fit']), 'binning': st.sampled_from(gen.BINNINGS),
                               'range': ranges(), 'colour': st.just('#000000'), 'name': st.sampled_from(['', 'Unit A']), 'error_bars': st.integers(0, 1),
                               'resurf': st.sampled_from([0, 0, 1]), 'isochron': st.integers(0, 1), 'age_left': st.integers(0, 1)})


@st.composite
def run(draw):
    k = draw(st.sampled_from(['plot'] * 8 + ['chron', 'lcs', 'lpc', 'convert', 'unc', 'bad', 'about']))
    if k in ('lcs', 'lpc', 'about'):
        return {'args': ['-' + k], 'out': False}
    if k == 'bad':
        return {'args': draw(st.sampled_from([['-cs', 'zzzz', '-p', 'source=@0'], ['-p', 'source=nofile.diam'], ['-p', 'type=data'], ['-p', 'source=@0,colour=zz'],
                                              ['-p', 'source=@0,range=[q,1]'], ['-p', 'source=@0', '-p', 'type=poisson,range=[1,.1]']])), 'out': True}
    a = []
    opt = draw(st.lists(st.sampled_from([
        ['-cs', 'Mars, Hartmann'], ['-cs', 'Moon, Neukum (1983)'], ['-cs', 'Mars, Ivanov (2001)'], ['-ep', 'moon'], ['-ep', 'mars'], ['-ef', 'lunar'], ['-ef', 'hart'],
        ['-invert', '1'], ['-pt_size', '7'], ['-style', 'root-2'], ['-style', 'natural'], ['-mu', '0'], ['-legend', 'na'], ['-legend', 'fnacrN'], ['-title', 'A title'],
        ['-isochrons', '1,3.5s'], ['-ref_diameter', '10'], ['-sf', '2'], ['-xrange', '-2', '2'], ['-yrange', '-6', '2'], ['-pd', '10x8'], ['-text_halo', '0'], ['-st'], ['-b'], ['-tight', '1'], ['-isochrons', '.1'], ['-transparent']]),
        max_size=5, unique_by=lambda e: e[0]))
    for o in opt:
        a += o
    fm = draw(st.sampled_from([['csv'], ['png', 'csv'], ['svg'], ['png'], ['pdf', 'csv'], ['tif', 'csv']]))
    if k == 'convert':
        return {'args': ['--convert', 'stat', '@0'], 'out': True}
    if k == 'chron':
        return {'args': ['-pr', draw(st.sampled_from(['chronology', 'rate']))] + a + ['-f', 'svg'], 'out': True}
    if k == 'unc':
        return {'args': ['-pr', 'uncertainty', '-ns', '4', '-d_min', draw(st.sampled_from(['.1', '1'])), '-f', 'png'], 'out': True}
    out = draw(st.sampled_from([True, True, False, 'o.svg', 'o.csv', 'q.pdf', 'o.png']))
    if not (isinstance(out, str) or draw(st.integers(0, 2)) == 0):
        a += ['-f'] + fm
    a += ['-pr', draw(st.sampled_from(['cumulative', 'differential', 'R-plot', 'Hartmann', 'sequence', 'differential']))]
    for i in range(draw(st.integers(1, 3))):
        s = []
        if i == 0 or draw(st.booleans()):
            s.append('source=@%d' % draw(st.integers(0, 1)))
        t = draw(st.sampled_from(['data', 'poisson', 'c-fit', 'd-fit', 'poisson', None]))
        if t:
            s.append('type=' + t)
        for e in draw(st.lists(st.sampled_from(['range=[.3,5]', 'range=[.5,20]', 'binning=10/decade', 'binning=root-2', 'colour=red', 'colour=2', 'psym=o', 'psym=s', 'hide=1',
                                                'name=Unit 2', 'error_bars=0', 'isochron=1', 'show_age=0', 'resurf=1', 'offset_age=[1,2]', 'age_left=1', 'snap=0']),
                               max_size=4, unique_by=lambda e: e.split('=')[0])):
            s.append(e)
        a += ['-p', ','.join(s) or 'psym=1']
    return {'args': a, 'out': out}


SUBS = [
    Sub('history', st.fixed_dictionaries({'count': count(), 'system': st.sampled_from(SYS), 'ops': st.lists(ops, min_size=2, max_size=20)}), body, quick=300, shards=2,
        rule='two or more kinds of evaluation or binnings'),
    Sub('sets', st.fixed_dictionaries({'counts': st.lists(count(), min_size=1, max_size=2), 'system': st.sampled_from(SYS), 'share': st.booleans(),
                                       'items': st.lists(items, min_size=1, max_size=4), 'ops': st.lists(acts, min_size=2, max_size=6)}), body_set, quick=120, shards=4,
        rule='two or more kinds of output with an age evaluation'),
    Sub('runs', st.fixed_dictionaries({'counts': st.lists(count(('diam', 'scc')), min_size=1, max_size=2), 'seed': st.integers(0, 2 ** 30),
                                       'runs': st.lists(run(), min_size=2, max_size=4)}), body_runs, quick=36, shards=4, rule='two or more successful runs'),
]
