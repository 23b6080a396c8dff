import os
import re
import shlex

from hypothesis import strategies as st

import craterstats as cst
import craterstats.cli as cli
from .. import gen
from ..core import Sub, check, eq, Skip, quiet, cwd
from .c15 import MENUS, candidates

PROPERTY = 'C16'
RULE = ('generated command lines (sources, titles, legends, ranges, overplots, formats and output names with blanks, quotes, '
        'unicode, commas, negatives), run in-process in a scratch tree, then replayed from the saved command file from other '
        'directories; oracle: the set of files expected from the options, and equality of tables and figures; non-trivial when '
        'an argument needs quoting or the replay is from another directory')

SRC_NAMES = ['a.diam', 'count (1).diam', "o'neil data.diam", 'x, y.diam', 'Größe.diam', 'b-2 50%.diam', '(old)+new.diam', 'z.v2.diam', '-lead.diam', 'q"uote.diam',
             'western_floor_unit_of_the_large_northern_basin_rev3.diam', 'eastern floor of the old basin #2 (2019 recount).diam', 'n #3.diam']
IMG = ('png', 'tif', 'pdf', 'svg')


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, 'rb').read()
    return out


def norm(name, data):
    """content without dates and random element ids"""
    if name.endswith('.svg'):
        s = data.decode('utf8')
        s = re.sub(r'<dc:date>.*?</dc:date>', '', s)
        ids = {}
        return re.sub(r'\b[a-z]?[0-9a-f]{10}\b', lambda m: ids.setdefault(m.group(0), 'id%d' % len(ids)), s)
    if name.endswith('.pdf'):
        return re.sub(rb'/CreationDate \(.*?\)', b'', data)
    return data


def stem(name):
    return re.sub(r'\.\w{1,4}$', '', name)


def body(case, ctx):
    root = ctx.tmpdir()
    W = os.path.join(root, 'work dir')
    D = os.path.join(root, 'data')
    os.makedirs(os.path.join(W, 'sub'))
    os.makedirs(D)
    os.makedirs(os.path.join(root, 'else where', 'deep'))
    os.makedirs(os.path.join(root, 'out put'))
    where, oname = case['out']
    local = where in ('none', 'name')
    a = []
    pr = case['pr']
    a += ['-pr', pr]
    for k, v in case['opts']:
        a += [k] + v
    srcs, ages, pois = [], 0, 0
    cur = None
    if pr not in ('chronology', 'rate'):
        for i, p in enumerate(case['plots']):
            sp = []
            if p['src'] is not None or i == 0:
                n, rel = p['src'] if p['src'] is not None else (0, False)
                if n == 'sample':
                    s = '%sample%/Pickering.scc'
                    cur = cst.PATH + 'sample/Pickering.scc'
                else:
                    name = SRC_NAMES[n]
                    rel = rel and local
                    cur = os.path.join(W if rel else D, name)
                    if not os.path.exists(cur):
                        gen.write_diam(cur, [.3, .31, .4, .45, .5, .62, .7, .9, 1.1, 1.4, 1.9, 2.5 + n], area=500. + n)
                    s = name if rel else cur
                sp.append('source=' + s)
            srcs.append(cur)
            sp.append('type=' + p['type'])
            if p['type'] != 'data':
                sp.append('range=[%s]' % p['range'])
                ages += 1
                if p['type'] == 'poisson' and not p.get('hide'):
                    pois += 1
            sp += p['extra']
            sp = sorted(sp, key=lambda e: case['order'].find(e[0]))
            a += ['-p'] + ([','.join(sp)] if case['join'] or any(e.startswith('-') for e in ','.join(sp).split(' ')) or '  ' in ','.join(sp) else ','.join(sp).split(' '))
    elif where != 'none':
        pass
    # output
    default = ('_'.join(sorted(set(stem(os.path.basename(s)) for s in srcs))) if srcs else None)
    if pr in ('chronology', 'rate'):
        system = next((MENUS['chronology_system'][candidates(v[0], MENUS['chronology_system'])[0][1]] for k, v in case['opts'] if k == '-cs'), 'Moon, Neukum (1983)')
        default = re.sub('[^a-zA-Z0-9_]', '', system) + '_' + pr
    formats = set(case['formats'])
    o = []
    if where == 'none':
        base = os.path.join(W, default)
    elif where == 'name':
        base = os.path.join(W, oname)
        o = ['-o'] + (oname.split(' ') if case['join'] and '  ' not in oname else [oname])
    elif where == 'ext':
        base = os.path.join(W, oname)
        o = ['-o', oname + '.' + case['ext']]
        formats = {'png', 'csv', case['ext']}
    elif where == 'sub':
        base = os.path.join(W, 'sub', oname)
        o = ['-o', 'sub/' + oname]
    elif where == 'subdir':
        base = os.path.join(W, 'sub', default)
        o = ['-o', 'sub']
    elif where == 'abs':
        base = os.path.join(root, 'out put', oname)
        o = ['-o', base]
    else:
        base = os.path.join(root, 'out put', default)
        o = ['-o', os.path.join(root, 'out put')]
    if where != 'ext':
        o += ['-f'] + sorted(formats)
    a = o + a if case['ofirst'] else a + o
    table = '-st' in [k for k, v in case['opts']]
    if len(os.path.basename(base)) > 200:
        raise Skip()
    before = tree(root)
    with quiet(), cwd(W):
        cli.main(list(a))
    after = tree(root)
    want = {base + '.cs'} | {base + '.' + f for f in formats if f in IMG} | ({base + '.csv'} if 'csv' in formats and ages else set())
    if table and pois > 1:
        want.add(base + '_sequence.csv')
    want = {os.path.relpath(p, root) for p in want}
    eq(sorted(set(after) - set(before)), sorted(want), 'files written by %r' % a)
    for k in before:
        check(after[k] == before[k], 'existing file %s changed', k)
    results = {k: norm(k, after[k]) for k in want if not k.endswith('.cs')}
    for k, v in results.items():
        check(len(v) > 50, '%s is empty', k)
    cs = base + '.cs'
    saved = open(cs, 'rb').read()
    text = saved.decode('utf8')
    eq([t for t in shlex.split(text)][:len(a)], a, 'arguments in command file')

    def replay(path, where_, label, edit=None):
        for k in results:
            os.remove(os.path.join(root, k))
        keep = open(path, 'rb').read()
        b = tree(root)
        with quiet(), cwd(os.path.join(root, where_)):
            rel = os.path.relpath(path, os.path.realpath(os.path.join(root, where_)))
            cli.main(['-i', (('./' if rel.startswith('-') else '') + rel) if case['relpath'] else path])
        t = tree(root)
        eq(sorted(set(t) - set(b)), sorted(results), 'files written by replay (%s) of %r' % (label, keep))
        for k in b:
            check(t[k] == b[k], 'replay (%s) changed %s', label, k)
        for k, v in results.items():
            check(norm(k, t[k]) == v, 'replay (%s) gives different %s:\n%r', label, k, keep if k.endswith('.svg') else (norm(k, t[k])[-300:], v[-300:]))
    replay(cs, case['from'], 'saved file')
    # comments and blank lines
    lines = text.split('\n')
    ins = case['comments']
    new = []
    for i, l in enumerate(lines):
        c = ins[i % len(ins)]
        new += [c] if c is not None else []
        new.append(l)
    open(cs, 'w', encoding='utf8').write('\n'.join(new + ['', '# end', '']))
    replay(cs, case['from'], 'with comments')
    # two levels: settings moved to an included file
    odd = re.compile(r'[^\w.=\[\],/%-]')
    ctx.nontrivial(case['from'] != 'work dir' or any(odd.search(e) for e in a))
    ctx.label(where)
    ctx.label(pr)
    if any(f in formats for f in IMG):
        ctx.label('figure')
    if ages:
        ctx.label('table')


def body_include(case, ctx):
    """settings taken from an included file, with comments, have the same effect as given directly"""
    root = ctx.tmpdir()
    src = gen.write_diam(os.path.join(root, 'a.diam'), [.3, .31, .4, .45, .5, .62, .7, .9, 1.1, 1.4, 1.9, 2.5], area=500.)
    P = ['-p', 'source=' + src, '-p', 'type=poisson,range=[.35,2]', '-p', 'type=c-fit,range=[.35,2]']
    opts = [[k] + v for k, v in case['opts']]
    flat = [e for o in opts for e in o]
    with quiet(), cwd(root):
        cli.main(flat + P + ['-f', 'csv', '-o', 'direct'])
    inc = os.path.join(root, 'settings file.txt')
    lines = []
    for i, o in enumerate(opts):
        c = case['comments'][i % len(case['comments'])]
        lines += [c] if c is not None else []
        lines.append(' '.join(shlex.quote(e) for e in o))
    open(inc, 'w', encoding='utf8').write('\n'.join(lines + ['']))
    n0 = open(inc, 'rb').read()
    args = ['-inc', inc] + P + ['-f', 'csv', '-o', 'included'] if case['first'] else P + ['-f', 'csv', '-o', 'included', '-inc', inc]
    with quiet(), cwd(root):
        cli.main(args)
    A, B = [open(os.path.join(root, n + '.csv'), encoding='utf-8-sig').read() for n in ('direct', 'included')]
    check(A == B, 'included settings %r: table %r, directly %r', lines, B[-300:], A[-300:])
    eq(open(inc, 'rb').read(), n0, 'included file')
    pa, pb = [vars(cli.get_parser().parse_args(x)) for x in (flat + P, ['-inc', inc] + P)]
    for k in pa:
        if k not in ('include', 'input', 'input_filename'):
            check(pa[k] == pb[k], 'option %s: %r when included, %r directly', k, pb[k], pa[k])
    # later command-line options take precedence
    with quiet(), cwd(root):
        cli.main(['-inc', inc] + P + ['-f', 'csv', '-o', 'later', '-ref_diameter', '3'])
        cli.main(flat + P + ['-f', 'csv', '-o', 'later2', '-ref_diameter', '3'])
    A, B = [open(os.path.join(root, n + '.csv'), encoding='utf-8-sig').read() for n in ('later', 'later2')]
    check(A == B, 'option after included file: %r vs %r', A[-300:], B[-300:])
    ctx.nontrivial(any(c is not None for c in case['comments']) and len(opts) > 1)


def body_missing(case, ctx):
    """unreadable command file: refused by name, nothing written"""
    root = ctx.tmpdir()
    n = case['name']
    with cwd(root):
        try:
            with quiet():
                cli.main([case['opt'], n])
        except SystemExit as e:
            check(e.code not in (0, None), 'exit status %r', e.code)
        else:
            raise AssertionError('missing file accepted')
    eq(tree(root), {}, 'files written')
    ctx.nontrivial()


def body_demo(case, ctx):
    """a file of demonstration commands: outputs of each, as if run alone, in ./demo"""
    root = ctx.tmpdir()
    src = gen.write_diam(os.path.join(root, 'a b.diam'), [.3, .31, .4, .45, .5, .62, .7, .9, 1.1, 1.4, 1.9, 2.5], area=500.)
    lines, cmds = ['# commands', ''], []
    for i, c in enumerate(case['cmds']):
        a = [e for k, v in c['opts'] for e in [k] + v] + ['-f'] + c['formats'] + ['-p', 'source=' + src] + (['-p', 'type=%s,range=[.35,2]' % c['type']] if c['type'] else [])
        cmds.append(a)
        m = case['comments'][i % len(case['comments'])]
        lines += [m] if m is not None else []
        lines.append(' '.join(shlex.quote(e) for e in a))
    f = os.path.join(root, 'commands.txt')
    open(f, 'w', encoding='utf8').write('\n'.join(lines + ['']))
    work = os.path.join(root, 'work')
    os.mkdir(work)
    sel = None if case['sel'] is None else sorted({i % len(cmds) for i in case['sel']})
    with cwd(work), quiet():
        cli.demo(d=sel, src=f)
    got = tree(work)
    want = {}
    for i in range(len(cmds)) if sel is None else sel:
        r = os.path.join(root, 'alone%d' % i)
        os.mkdir(r)
        with cwd(r), quiet():
            cli.main(['-o', '%02d-demo' % i] + cmds[i])
        for k, v in tree(r).items():
            want[os.path.join('demo', k)] = v
    eq(sorted(got), sorted(want), 'files written by demonstration')
    for k in want:
        if not k.endswith('.cs'):
            check(norm(k, got[k]) == norm(k, want[k]), '%s differs from the same command run alone', k)
    ctx.nontrivial(len(want) > 2)


TITLES = ['x', 'two words', "it's", 'say "hi"', 'a|b', 'Größe é', 'a  b', '-5 degrees', '50% & more; #1', "'", '\\back', '`x`', '$5', '(a) [b] {c}', '#1 crater', 'a,b=c', '-- x', '!', '~', 'a\tb']
PIECES = ['#', ' #', '# ', ' ', '  ', "'", '"', '\\', '|', ',', '=', '-', ';', '$', '%', '(', ')', '[', '{', 'a', 'bc', '1', 'é', '`', '*', '~', '&', '\t', '\\n', '--', '!']
ANYTEXT = st.lists(st.sampled_from(PIECES), min_size=1, max_size=8).map(''.join).filter(lambda s: s.strip() and '$' not in s and s[0] != '-')
COMMENT = st.sampled_from([None, None, '# comment', '', '   ', '  # -p source=nothing', '#-f png', "# it's"])
OPTS = {
    '-title': st.one_of(st.sampled_from(TITLES).map(lambda s: [s]), ANYTEXT.map(lambda s: [s]), st.sampled_from([['two', 'words'], ["it's", 'b'], ['5', '6']])),
    '-cs': st.sampled_from([['neukumivanov'], ['Mars, Ivanov (2001)'], ['Moon, Neukum (1983)'], ['n83'], ['Mars, Hartmann & Daubar (2016)']]),
    '-legend': st.sampled_from([['0'], ['fnacr'], ['nN'], ['rcanf']]), '-isochrons': st.sampled_from([['1,3'], ['3.7a,4s,.1h']]),
    '-ref_diameter': st.sampled_from([['10'], ['.5'], ['1.25']]), '-sf': st.sampled_from([['2'], ['3']]), '-mu': st.sampled_from([['0'], ['1'], []]),
    '-invert': st.sampled_from([[], ['0'], ['1']]), '-ep': st.sampled_from([['mars'], ['wilh']]), '-ef': st.sampled_from([['trask']]),
    '-pt_size': st.sampled_from([['8'], ['10.5']]), '-style': st.sampled_from([['root-2'], ['natural']]), '-tight': st.sampled_from([[], ['1']]),
    '-xrange': st.sampled_from([['-2', '1'], ['-3', '2']]), '-yrange': st.sampled_from([['-5', '1'], ['-4.5', '-1']]),
}
SEQ_RANGES = [['4', '0'], ['4.2', '1']]
# names whose quotes or blanks must survive
NAMES = ['Area 1', "O'Neil", 'a, b', '"quoted"', 'Übung', '-5', 'x#1', 'a  b', '\\x', '$m', "it's \"both\"", 'unit #4']


@st.composite
def cases(draw, figures=False):
    pr = draw(st.sampled_from(['differential', 'differential', 'cumulative', 'R-plot', 'Hartmann', 'sequence', 'chronology', 'rate']))
    ks = draw(st.lists(st.sampled_from(sorted(OPTS)), max_size=5, unique=True))
    opts = []
    for k in ks:
        if pr in ('sequence', 'chronology', 'rate') and k in ('-xrange', '-yrange'):
            if pr == 'sequence' and k == '-xrange':
                opts.append([k, draw(st.sampled_from(SEQ_RANGES))])
            continue
        opts.append([k, draw(OPTS[k])])
    if draw(st.integers(0, 2)) == 0:
        opts.append(['-st', []])
    if '-title' not in ks and draw(st.booleans()):
        opts.append(['-title', draw(OPTS['-title'])])
    n = draw(st.integers(1, 4)) if pr != 'sequence' else draw(st.integers(2, 4))
    plots = []
    for i in range(n):
        t = draw(st.sampled_from(['data', 'poisson', 'poisson', 'c-fit', 'd-fit'])) if pr != 'sequence' else 'poisson'
        ex = []
        if draw(st.booleans()):
            ex.append('name=' + draw(st.sampled_from(NAMES)))
        if draw(st.integers(0, 3)) == 0:
            ex.append(draw(st.sampled_from(['colour=red', 'colour=#ff00aa', 'psym=f*4', 'psym=^', 'psym=filled circle'])))
        if draw(st.integers(0, 3)) == 0:
            ex.append(draw(st.sampled_from(['offset_age=[-2,3]', 'isochron=1', 'error_bars=0', 'age_left=1'])))
        s = draw(st.one_of(st.none(), st.tuples(st.integers(0, len(SRC_NAMES) - 1), st.booleans()), st.tuples(st.just('sample'), st.just(False))))
        plots.append({'src': s, 'type': t, 'range': draw(st.sampled_from(['.35,2', '.3,1.5', '0.4,3', 'b2,b-2'])), 'extra': ex})
    where = draw(st.sampled_from(['none', 'none', 'name', 'name', 'sub', 'subdir', 'abs', 'absdir'] + (['ext'] if figures else [])))
    oname = draw(st.sampled_from(['fig', 'fig 1', 'fig (1)', "o'fig", 'Abb-ü', 'a,b', 'x#y', '$v', 'fig #2', 'fig v1.2', 'map.old', 'a.b.c']))
    if figures:
        formats = draw(st.sampled_from([['svg'], ['svg', 'csv'], ['svg', 'csv'], ['pdf'], ['png', 'csv'], ['svg', 'pdf'], ['tif']]))
    else:
        formats = ['csv']
        if pr in ('chronology', 'rate') and draw(st.booleans()):
            formats = ['svg']
    return {'pr': pr, 'opts': opts, 'plots': plots, 'out': [where, oname], 'formats': formats, 'ext': draw(st.sampled_from(['svg', 'csv'])),
            'join': draw(st.booleans()), 'ofirst': draw(st.booleans()), 'relpath': draw(st.booleans()), 'order': ''.join(draw(st.permutations(list('sntrcpoiea')))),
            'from': draw(st.sampled_from(['work dir', 'else where', 'else where/deep', 'out put', '.'])), 'comments': draw(st.lists(COMMENT, min_size=1, max_size=3))}


@st.composite
def includes(draw):
    ks = draw(st.lists(st.sampled_from([k for k in sorted(OPTS) if k not in ('-xrange',)]), min_size=1, max_size=6, unique=True))
    return {'opts': [[k, draw(OPTS[k])] for k in ks], 'comments': draw(st.lists(COMMENT, min_size=1, max_size=3)), 'first': draw(st.booleans())}


COMMAND = st.fixed_dictionaries({
    'opts': st.lists(st.sampled_from([k for k in sorted(OPTS) if k != '-xrange']), max_size=4, unique=True).flatmap(lambda ks: st.tuples(*[OPTS[k].map(lambda v, k=k: [k, v]) for k in ks]).map(list)),
    'formats': st.sampled_from([['csv'], ['csv'], ['csv'], ['svg'], ['svg', 'csv']]), 'type': st.sampled_from([None, 'poisson', 'c-fit', 'd-fit'])})
DEMOS = st.fixed_dictionaries({'cmds': st.lists(COMMAND, min_size=1, max_size=4), 'comments': st.lists(COMMENT, min_size=1, max_size=3),
                               'sel': st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=3))})

SUBS = [
    Sub('demo', DEMOS, body_demo, quick=40, shards=3, rule='three or more files'),
    Sub('tables', cases(False), body, quick=280, shards=5, rule='an argument needs quoting, or replay from another directory'),
    Sub('figures', cases(True), body, quick=48, shards=8, thorough=1000, rule='an argument needs quoting, or replay from another directory', slow=True),
    Sub('include', includes(), body_include, quick=60, shards=2, rule='two or more included settings with comments'),
    Sub('missing', st.fixed_dictionaries({'opt': st.sampled_from(['-i', '-inc', '--input']), 'name': st.sampled_from(['none.cs', 'no dir/x.cs', 'é.cs'])}), body_missing,
        quick=12, thorough=20, rule='refused'),
]
