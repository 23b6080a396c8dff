import math
import os
import re
import shutil
import sys

import numpy as np
from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen, sphere, draw
from ..core import Sub, check, close, eq, Skip, quiet, cwd, expect_exit

PROPERTY = 'C25'
RULE = ('histories of up to 6 command-line randomness runs on a generated count (1-5 size bins of 1-9 craters; measures in any '
        'combination, 2-40 trials, own or default result name, interrupted after any number of bins, results moved beside the source) '
        'with recorded trial values in place of the simulation, against a model of what must be stored; plus unmodified runs compared '
        'between folders; non-trivial with 2+ completed runs or an interruption')

RA = sys.modules['craterstats.Randomnessanalysis']
MIN = {'m2cnd': 3, 'sdaa': 4}


def table(text, start):
    rows = []
    for line in text[start:].splitlines()[1:]:
        if line.strip() == '}':
            return rows
        rows.append(line.split())
    raise AssertionError('unterminated table in results file')


def parse(path):
    """own reading of a results file -> {measure: (n_trials, {bin: values})}, {measure: {bin: n_sigma}}"""
    with open(path) as f:
        text = f.read()
    text = '\n'.join(l for l in text.splitlines() if not l.startswith('#'))
    m = re.search(r'^n_sigma\s*=\s*\{bin,?(.*)$', text, re.M)
    check(m, 'no n_sigma table in results')
    cols = [e.strip() for e in m[1].split(',') if e.strip()]
    sig = {c: {} for c in cols}
    for r in table(text, m.start()):
        eq(len(r), len(cols) + 1, 'columns of n_sigma table')
        for c, v in zip(cols, r[1:]):
            sig[c][float(r[0])] = None if v == '-' else float(v)
    out = {}
    for m in re.finditer(r'^(\w+)\s*=\s*\{\s*\nn_trials\s*=\s*(\d+)\s*\ntrials\s*=\s*\{index,?(.*)$', text, re.M):
        bins = [float(e) for e in m[3].split(',') if e.strip()]
        rows = table(text, m.start(3))
        eq([int(r[0]) for r in rows], list(range(int(m[2]))), 'trial numbers')
        a = np.array([[float(e) for e in r[1:]] for r in rows]).reshape(len(rows), -1)
        eq(a.shape, (int(m[2]), len(bins)), 'trial table')
        out[m[1]] = (int(m[2]), {b: a[:, i].tolist() for i, b in enumerate(bins)})
    eq(sorted(cols), sorted(out), 'measures in n_sigma table')
    return out, sig


def slack(v):
    """effect of 7-digit values on deviation"""
    return 1e-5 * np.mean(v) / np.std(v)


class Setup:
    def __init__(self, ctx, case):
        self.d = ctx.tmpdir()
        reg = sphere.Region({'parts': [{'centre': [20., case['lat']], 'size': 3., 'r': [1., .8, .9, 1., .7], 'turn': 0., 'holes': []}], 'kind': 'any'})
        self.reg, self.R = reg, 1737.4
        ins = sphere.Inside(reg)
        rng = np.random.default_rng(case['seed'])
        self.want, self.m0 = {}, {m: {} for m in MIN}
        cr = []
        for k, n in case['bins']:
            ll = np.array([[float('%.15f' % e) for e in q] for q in ins.scatter(n, rng)])
            cr += [(float('%.6g' % 2 ** (k / 2 + .05 + .4 * u)), 1., *q) for u, q in zip(rng.random(n), ll)]
            self.want[k / 2] = n
            if n >= 3:
                self.m0['m2cnd'][k / 2] = sphere.near2(ll)[1].mean() * self.R
            if n >= 4:
                self.m0['sdaa'][k / 2] = (ins.cells(ll) * self.R ** 2).std()
        self.src = case['src']
        p = os.path.join(self.d, self.src)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        sphere.write_scc(p, self.R, sphere.scc_rows(reg), [cr[i] for i in rng.permutation(len(cr))])
        self.name = os.path.splitext(os.path.basename(p))[0]
        self.rng = rng

    def path(self, out):
        return os.path.join(self.d, (out or self.name) + '_ra.txt')

    def beside(self):
        return os.path.join(self.d, os.path.splitext(self.src)[0] + '_ra.txt')

    def load(self, out):
        return next((p for p in (self.path(out), self.beside()) if os.path.exists(p)), None)


def check_file(s, p, state, what):
    got, sig = parse(p)
    eq(sorted(got), sorted(state), 'stored measures ' + what)
    for m, (T, bins) in state.items():
        eq(got[m][0], T, 'stored trials of %s %s' % (m, what))
        eq(sorted(got[m][1]), sorted(bins), 'stored bins of %s %s' % (m, what))
        for b, v in bins.items():
            close(got[m][1][b], v, 'stored %s trials of bin %g %s' % (m, b, what), rtol=6e-7)
            z = (s.m0[m][b] - np.mean(v)) / np.std(v)
            check(sig[m].get(b) is not None, 'no n_sigma of %s in bin %g %s', m, b, what)
            close(sig[m][b], z, 'stored n_sigma of %s in bin %g %s' % (m, b, what), rtol=2e-3, atol=2e-3 + slack(v))
        for b, v in sig[m].items():
            check((v is None) == (b not in bins), 'n_sigma of %s in bin %g is %r %s', m, b, v, what)
    return sig


def check_reload(s, out, state, what):
    with cwd(s.d), quiet():
        r = cst.Randomnessanalysis(s.src, out=out)
    eq(sorted(r.montecarlo), sorted(state), 'reloaded measures ' + what)
    for m, (T, bins) in state.items():
        eq(int(r.montecarlo[m]['n_trials']), T, 'reloaded number of trials ' + what)
        t = {float(b): v for b, v in r.montecarlo[m]['trials'].items()}
        eq(sorted(t), sorted(bins), 'reloaded bins ' + what)
        for b, v in bins.items():
            close(t[b], v, 'reloaded trials of bin %g %s' % (b, what), rtol=6e-7)
    with quiet():
        r.establish_hpx(30)
        r.calculate_stats()
    for m, (T, bins) in state.items():
        st_ = r.montecarlo[m]['stats']
        for b, v in bins.items():
            e = st_['%.3g' % b]
            close(e.n_sigma, (s.m0[m][b] - np.mean(v)) / np.std(v), 'deviation from reloaded trials ' + what, rtol=1e-3, atol=1e-3 + slack(v))
            close([e.mn, e.sd], [np.mean(v), np.std(v)], 'mean and sd of reloaded trials ' + what, rtol=1e-4, atol=3e-7 * np.mean(v))


def check_count(s, state, what):
    with cwd(s.d), quiet():
        c = cst.Cratercount(s.src)
    check(c.n_sigma is not None, 'count opened beside its results shows no deviations ' + what)
    eq(sorted(set(c.n_sigma) - {'bin'}), sorted(state), 'measures shown with count ' + what)
    eq([int(e) for e in c.n_trials], [state[m][0] for m in sorted(state)], 'numbers of trials shown with count ' + what)
    for m, (T, bins) in state.items():
        got = {float(b): v for b, v in zip(c.n_sigma['bin'], c.n_sigma[m])}
        for b, v in got.items():
            if b in bins:
                close(float(v), (s.m0[m][b] - np.mean(bins[b])) / np.std(bins[b]), 'deviation shown with count ' + what, rtol=2e-3, atol=2e-3 + slack(bins[b]))
            else:
                eq(v, '-', 'deviation shown where none was evaluated ' + what)
        check(set(bins) <= set(got), 'bins %r shown, stored %r', sorted(got), sorted(bins))


def check_strip(s, state):
    """deviations drawn above a plot"""
    with cwd(s.d):
        fig = draw.figure(['-pr', 'differential', '-o', 'drawn', '-p', 'source=' + s.src])
    ax = [a for a in fig.axes if len(a.lines) and any(t.get_text() == 'clustered' for t in a.texts)]
    eq(len(ax), 1, 'deviation strips drawn')
    lines = [l for l in ax[0].lines if l.get_marker() not in ('', 'None', None)]
    eq(len(lines), len(state), 'curves in deviation strip')
    f = lambda v: math.copysign(abs(v) ** .6, v)
    want = []
    for m in sorted(state):
        bins = state[m][1]
        want.append(sorted((math.log10(2 ** (b + .25)), f((s.m0[m][b] - np.mean(v)) / np.std(v)) * (-1 if m == 'sdaa' else 1)) for b, v in bins.items()))
    for l, w, m in zip(lines, want, sorted(state)):
        pts = [(float(x), float(y)) for x, y in zip(*l.get_data()) if y is not None and np.isfinite(float(y))]
        check(pts == sorted(pts), 'points of %s joined out of order of diameter: %r', m, pts)
        eq(len(pts), len(w), 'points of %s in deviation strip' % m)
        if w:
            close(np.array(pts), np.array(w), 'points of %s in deviation strip' % m, rtol=2e-3, atol=5e-3)
    # key beside the strip: each measure with the line style of its curve
    key = [l for l in ax[0].lines if l not in lines and len(l.get_xdata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1]]
    for m, l in zip(sorted(state), lines):
        t = [t for t in ax[0].texts if t.get_text() == m]
        eq(len(t), 1, 'names of measure %s in deviation strip' % m)
        k = [q for q in key if abs(q.get_ydata()[0] - t[0].get_position()[1]) < 1e-9]
        eq([q.get_linestyle() for q in k], [l.get_linestyle()], 'line beside name of measure %s' % m)
    # bands of 1, 2, 3 sigma
    box = sorted((float(v[:, 1].min()), float(v[:, 1].max())) for c in ax[0].collections for v in [np.concatenate([p.vertices for p in c.get_paths()])])
    close(box, [(-f(k), f(k)) for k in (3., 2., 1.)], 'bands of deviation strip', rtol=1e-9)
    num = {}
    for t in ax[0].texts:
        if re.match(r'^ *\d$', t.get_text()):
            num.setdefault(int(t.get_text()), []).append(float(t.get_position()[1]))
    eq({k: len(v) for k, v in num.items()}, {0: 1, 1: 2, 3: 2}, 'numbers of sigma')
    for k, v in num.items():
        close(np.sort(v) - num[0][0], sorted({-f(float(k)), f(float(k))}), 'position of number %d of sigma' % k, atol=1e-9)
    ok = any(t.get_text().endswith(' trials') and set(re.findall(r'\d+', t.get_text())) == {str(v[0]) for v in state.values()} for t in ax[0].texts)
    check(ok, 'number of trials in strip: %r', [t.get_text() for t in ax[0].texts])


def body_history(case, ctx):
    s = Setup(ctx, case)
    files = {}  # path -> state
    real = RA.montecarlo_pp
    log = []
    kill = [None]
    done = 0

    def stand_in(self_pp, b, n, *a, **k):
        if kill[0] is not None and len(log) >= kill[0]:
            raise KeyboardInterrupt
        key = round(2 * math.log2(b)) / 2
        eq(int(n), s.want[key], 'craters placed per trial in bin %g' % key)
        v = (s.m0[self_pp.measure][key] * np.exp(.3 * s.rng.normal(size=self_pp.trials) + .1)).tolist()
        log.append((self_pp.measure, key, v))
        return v

    killed = 0
    for i, op in enumerate(case['ops']):
        what = 'after step %d' % (i + 1)
        if op['op'] == 'move':
            p = s.path(None)
            if os.path.exists(p) and not os.path.exists(s.beside()):
                shutil.move(p, s.beside())
                files[s.beside()] = files.pop(p)
            continue
        out = op['out']
        if out == 'a folder':  # results are named after the count
            os.makedirs(os.path.join(s.d, out), exist_ok=True)
            out = os.path.join(out, s.name)
        p0 = s.load(out)
        old = dict(files[p0]) if p0 else {}
        del log[:]
        kill[0] = op['kill']
        a = ['-ra', s.src, '-measure', ','.join(op['measures']), '-trials', str(op['T']), '-select', '0', '-f', 'png']
        if op['out']:
            a += ['-o', op['out']]
        RA.montecarlo_pp = stand_in
        stopped = False
        try:
            with cwd(s.d):
                draw.figures(a)
        except KeyboardInterrupt:
            stopped = True
        finally:
            RA.montecarlo_pp = real
        new = {}
        todo = [m for m in op['measures'] if m not in old or old[m][0] < op['T']]
        expect = {m: sorted(b for b in s.m0[m]) for m in todo}
        runs = {}
        for m, b, v in log:
            check(m in todo, '%s evaluated anew %s though %d trials are stored and %d asked for', m, what, old.get(m, (0,))[0], op['T'])
            check(b not in runs.setdefault(m, {}), 'bin evaluated twice')
            eq(len(v), op['T'], 'trials run ' + what)
            runs[m][b] = v
        for m in todo:
            if sorted(runs.get(m, {})) == expect[m] and (not stopped or m != log[-1][0] if log else not stopped):
                new[m] = (op['T'], runs.get(m, {}))
            elif not stopped:
                check(False, '%s evaluated in bins %r, not %r, %s', m, sorted(runs.get(m, {})), expect[m], what)
        # the measure during which it was stopped: after its last bin it may already be complete but is only written when finished
        p1 = s.path(out)
        state = {**old, **new}
        if stopped:
            killed += 1
            eq(len(log), op['kill'], 'bins run before interruption')
            # interruption between two measures: the former is complete
            if log:
                m = log[-1][0]
                if sorted(runs[m]) == expect[m] and m not in new:
                    later = [q for q in todo if q not in runs]
                    if later and all(expect[q] for q in later):
                        state[m] = (op['T'], runs[m])
        eff = s.load(out)
        if not state:
            check(eff is None or not parse(eff)[0], 'results stored though none were completed ' + what)
            if eff:
                os.remove(eff)
            continue
        check(eff is not None, 'no results stored ' + what)
        check_file(s, eff, state, what)
        if not stopped:
            eq(eff, p1, 'results file')
            done += 1
        files[eff] = state
        for q, v in files.items():
            if q != eff:
                check_file(s, q, v, what + ' (file not involved)')
        check_reload(s, out, state, what)
        pc = s.load(None)
        if pc:
            check_count(s, files[pc], what)
    pc = s.load(None)
    if pc and case['strip'] and any(v[1] for v in files[pc].values()):
        check_strip(s, files[pc])
        ctx.label('drawn')
    ctx.nontrivial(done > 1 or killed)
    ctx.label('%d runs' % done)
    if killed:
        ctx.label('interrupted')
    if any(3 in [n for _, n in case['bins']] for _ in [0]):
        ctx.label('bin without sdaa')


@st.composite
def ops(draw):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 7)) == 0:
            out.append({'op': 'move'})
            continue
        out.append({'op': 'run', 'measures': draw(st.sampled_from([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa'], ['sdaa', 'm2cnd']])), 'T': draw(st.sampled_from([2, 3, 5, 10, 40])),
                    'out': draw(st.sampled_from([None, None, None, 'res', 'sub_x', 'run v1.2', 'out', 'a folder'])), 'kill': draw(st.one_of(st.none(), st.none(), st.integers(0, 6)))})
    return out


@st.composite
def history_cases(draw):
    ks = draw(st.lists(st.integers(-6, 8), min_size=1, max_size=4, unique=True))
    if draw(st.integers(0, 3)) == 0:  # boulders and craters of less than a metre
        ks = [k - 22 for k in ks]
    bins = [[k, draw(st.integers(1, 9))] for k in ks]
    if max(n for _, n in bins) < 4:
        bins[0][1] = 4 + draw(st.integers(0, 3))
    return {'bins': bins, 'lat': draw(st.sampled_from([0., 40., -70.])), 'seed': draw(st.integers(0, 10 ** 6)), 'ops': draw(ops()),
            'src': draw(st.sampled_from(['x.scc', 'in/x.scc', 'my data/a count.scc', 'in/a.b.scc'])), 'strip': draw(st.integers(0, 2)) == 0}


def body_refuse(case, ctx):
    """too few craters, or unknown measure: refused, and the count can be plotted as before"""
    s = Setup(ctx, case)
    most = max(n for _, n in case['bins'])
    bad = [m for m in case['measures'] if m not in MIN or most < MIN[m]]
    a = ['-ra', s.src, '-measure', ','.join(case['measures']), '-trials', str(case.get('T', 3)), '-select', '0', '-f', 'png']
    few = case.get('T', 3) < 2
    if few or bad:
        def go():
            with cwd(s.d):
                draw.figures(a)
        expect_exit(go, mentions=bad[0] if len(bad) == 1 and not few else 'trials' if few and not bad else None, what='randomness analysis of %r with bins of %r' % (case['measures'], case['bins']))
        check(not os.path.exists(s.path(None)), 'results stored by refused analysis')
        ctx.nontrivial()
    else:
        with cwd(s.d):
            eq(len(draw.figures(a)), len(case['measures']), 'figures')
    with cwd(s.d):
        draw.figure(['-pr', 'differential', '-o', 'drawn', '-p', 'source=' + s.src])
    ctx.label('refused' if bad or few else 'accepted')


@st.composite
def refuse_cases(draw):
    ks = draw(st.lists(st.integers(-6, 8), min_size=1, max_size=4, unique=True))
    return {'bins': [[k, draw(st.integers(1, 4))] for k in ks], 'lat': 0., 'seed': draw(st.integers(0, 10 ** 6)), 'src': 'x.scc',
            'T': draw(st.sampled_from([3, 3, 3, 2, 1, -3])), 'measures': draw(st.sampled_from([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa'], ['m2cnd', 'nnd'], ['M2CND']]))}


def body_real(case, ctx):
    """whole runs, in two folders"""
    s = Setup(ctx, case)
    out = []
    for k in range(2):
        dd = os.path.join(s.d, 'run%d' % k)
        os.mkdir(dd)
        src = os.path.join(dd, 'x.scc')
        shutil.copy(os.path.join(s.d, s.src), src)
        with cwd(dd):
            draw.figures(['-ra', 'x.scc', '-measure', ','.join(case['measures'][::1 - 2 * k]), '-trials', str(case['T']), '-select', '0', '-f', 'png'])
        got, sig = parse(os.path.join(dd, 'x_ra.txt'))
        out.append((got, sig))
        for m in case['measures']:
            eq(sorted(got[m][1]), sorted(s.m0[m]), 'bins of ' + m)
            eq(got[m][0], case['T'], 'trials')
            for b, v in got[m][1].items():
                eq(len(set(v)), len(v), 'distinct trials')
                close(sig[m][b], (s.m0[m][b] - np.mean(v)) / np.std(v), 'n_sigma', rtol=2e-3, atol=2e-3 + slack(v))
        allv = [tuple(v) for m in got for v in got[m][1].values()]
        eq(len(set(allv)), len(allv), 'columns of trials which are the same')
    eq(out[1], out[0], 'results of the same command')
    # fewer trials: stored ones used
    with cwd(os.path.join(s.d, 'run0')):
        draw.figures(['-ra', 'x.scc', '-measure', case['measures'][0], '-trials', str(case['T'] - 2), '-select', '0', '-f', 'png'])
    got, sig = parse(os.path.join(s.d, 'run0', 'x_ra.txt'))
    eq(got, out[0][0], 'results after asking for fewer trials')
    for m, v in out[0][1].items():
        close([sig[m][b] or 0. for b in v], [v[b] or 0. for b in v], 'deviations after asking for fewer trials', rtol=2e-3, atol=2e-3)
    ctx.nontrivial()


@st.composite
def real_cases(draw):
    bins = [[k, draw(st.integers(4, 9))] for k in draw(st.lists(st.integers(-2, 6), min_size=1, max_size=2, unique=True))]
    return {'bins': bins, 'lat': draw(st.sampled_from([0., 40., -70.])), 'seed': draw(st.integers(0, 10 ** 6)), 'src': 'x.scc',
            'T': draw(st.sampled_from([3, 3, 3, 2, 1, -3])), 'measures': draw(st.sampled_from([['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa']])), 'T': draw(st.sampled_from([4, 9]))}


SUBS = [
    Sub('history', history_cases(), body_history, quick=400, shards=6, rule='2+ completed runs or an interruption'),
    Sub('refuse', refuse_cases(), body_refuse, quick=40, rule='refused'),
    Sub('real', real_cases(), body_real, quick=8, thorough=60, rule='every case', slow=True),
]
