"""C02: structured settings text parses to the values that were written."""
import os

from hypothesis import strategies as st

import craterstats.gm as gm
from craterstats.gm.string.quoted_split import quoted_split
from craterstats.gm.string.strip_quotes import strip_quotes
from ..core import Sub, check, eq

PROPERTY = 'C02'
RULE = ('documents generated from a grammar of the format (scalars, quoted strings, arrays, tables with missing cells, structures with '
        'nested tables, repeated keys, text blocks), rendered with random layout (blanks, tabs, blank lines, # lines, ; comments, CRLF, '
        'BOM); oracle: the generated values themselves; non-trivial when the document has at least two definitions and one compound or '
        'quoted value')

KEYS = ['a', 'b', 'name', 'area', 'crater', 'x.y', 'end', 'k_1', 'Total_area', 'production', '9', 'n1_code', 'ref']
COLS = ['diam', 'fraction', 'lon', 'lat', 'tag', 'sub_area', 'x1', 'n.d']
BARE = "abz019.+-_/\\:%&|<>@!?^~* éß°µ'\""
CELL = "abz019.+-_/\\:,%&|<>@!?^~éß°[]()'"
QUOT = "ab 01.;,#=:[]()*^-+\té"
ELEM = "abz09.+-_/:<> é"


def bare(chars=BARE):
    def ok(s):
        if not s or s != s.strip() or s[0] in '*[({"\'#':
            return False
        if s[-1] in ' ':
            return False
        # a lone quote counts as text only inside or at the end of a word
        return all(c not in '"\'' or (i and s[i - 1].isalnum()) for i, c in enumerate(s))
    return st.one_of(st.sampled_from(['1', '-3.5e-4', '10', '+2', "O'Neill", '4.5 <km^2>', 'a b', '1.e3', 'yes', 'Mars, test', "5'", 'note *', 'a*b', '3*']),
                     st.text(chars, min_size=1, max_size=12).filter(ok))


def quoted(braces=True, q=None):
    chars = QUOT + ('{}' if braces else '')
    qs = st.sampled_from(['"', "'"]) if q is None else st.just(q)
    return st.tuples(st.one_of(st.text(chars, max_size=14), st.sampled_from(
        ['a; b', 'x, y', '# no', "", ' padded ', 'k = 3', '[1,2]', '*'])), qs)


@st.composite
def scalar(draw, braces=True):
    if draw(st.booleans()):
        v, q = draw(quoted(braces))
        if draw(st.integers(0, 4)) == 0:
            v += draw(st.sampled_from(['"', "'"])).replace(q, '') + 'z'
        return {'t': 's', 'v': v, 'q': q}
    return {'t': 's', 'v': draw(bare()), 'q': '', 'star': draw(st.integers(0, 4)) == 0}


@st.composite
def array(draw, braces=True):
    n = draw(st.integers(1, 6))
    el = []
    for _ in range(n):
        if draw(st.booleans()):
            el.append(list(draw(quoted(braces))))
        else:
            el.append([draw(st.text(ELEM, max_size=6).map(str.strip)), ''])
    if n == 1 and el[0] == ['', '']:
        el = [['0', '']]
    return {'t': 'a', 'v': el, 'b': draw(st.sampled_from(['[', '(', '*['])), 'nl': draw(st.lists(st.booleans(), min_size=n, max_size=n))}


@st.composite
def table(draw, braces=True):
    cols = draw(st.lists(st.sampled_from(COLS), min_size=1, max_size=5, unique=True))
    rows = []
    for _ in range(draw(st.integers(0, 6))):
        row = []
        for i in range(draw(st.integers(1, len(cols)))):
            k = draw(st.integers(0, 3))
            if k == 0:
                v, q = draw(quoted(braces))
                row.append([v.replace('\t', ' ').replace('\\', '').replace('}', ''), q])
            else:
                s = draw(st.one_of(st.sampled_from(['1.5', '-3', '0', 'ext', '1e-3', "O'Neill"]),
                                   st.text(CELL, min_size=1, max_size=6).filter(lambda s: s[0] not in '\'"#}={;' and "\\" not in s and
                                                                               all(c != "'" or s[i - 1].isalnum() for i, c in enumerate(s)))))
                row.append([s, ''])
        rows.append(row)
    return {'t': 'tab', 'cols': cols, 'rows': rows}


@st.composite
def textblock(draw, braces=False):
    lines = draw(st.lists(st.one_of(st.text("ab (),.:+-*/[]<>é'", max_size=14).map(lambda s: s.lstrip("'")), st.sampled_from(
        ['x = 3', '  t_lhb = 4.1', 'n = a if t<3 else b', "don't", 'a = [1,2', ''])), min_size=1, max_size=5))
    lines = [l for l in lines if not l.lstrip().startswith(("'", '#'))]
    while lines and not lines[-1].strip():
        lines.pop()
    if not lines or not lines[0].strip():
        lines = ['text'] + lines
    return {'t': 'txt', 'v': lines}


@st.composite
def entries(draw, depth, lo, hi):
    out = []
    braces = depth == 0
    for _ in range(draw(st.integers(lo, hi))):
        kinds = ['s', 's', 'a', 'tab', 'txt'] + (['st', 'st'] if depth == 0 else [])
        k = draw(st.sampled_from(kinds))
        if k == 's':
            v = draw(scalar(braces))
        elif k == 'a':
            v = draw(array(braces))
        elif k == 'tab':
            v = draw(table(braces))
        elif k == 'txt':
            v = draw(textblock())
        else:
            v = {'t': 'st', 'v': draw(entries(1, 1, 4))}
        key = draw(st.sampled_from(KEYS))
        out.append([key, v, draw(st.integers(0, 7)) == 0])
    # repeated arrays are ambiguous in the format (an array and a list of values look the same): keep those keys single
    seen = {}
    res = []
    for i, (key, v, ptr) in enumerate(out):
        name = ('ptr_' if ptr else '') + key
        if name in seen and ('a' in (v['t'], seen[name])):
            key, ptr = 'only%d' % i, False
            name = key
        seen[name] = v['t']
        res.append([key, v, ptr])
    return res


def value(v):
    if v['t'] == 's':
        return v['v']
    if v['t'] == 'a':
        return [e for e, _ in v['v']]
    if v['t'] == 'tab':
        out = {c: [] for c in v['cols']}
        for row in v['rows']:
            for i, c in enumerate(v['cols']):
                out[c].append(row[i][0] if i < len(row) else '')
        return out
    if v['t'] == 'txt':
        return {'lines': list(v['v'])}
    return expected(v['v'])


def expected(es):
    out = {}
    count = {}
    for key, v, ptr in es:
        k = ('ptr_' if ptr else '') + key
        x = value(v)
        count[k] = count.get(k, 0) + 1
        if count[k] == 1:
            out[k] = x
        elif count[k] == 2:
            out[k] = [out[k], x]
        else:
            out[k].append(x)
    return out


def same(got, exp, path=''):
    if isinstance(exp, dict) and set(exp) == {'lines'}:  # text block: its lines, apart from the line ends around it
        check(isinstance(got, str), '%s: text block expected, got %r', path, got)
        eq(got.strip('\n').split('\n'), exp['lines'], path + ': text block')
    elif isinstance(exp, dict):
        check(isinstance(got, dict), '%s: structure expected, got %r', path, got)
        eq(sorted(got), sorted(exp), path + ': names')
        for k in exp:
            same(got[k], exp[k], path + '/' + k)
    elif isinstance(exp, list):
        check(isinstance(got, list) and len(got) == len(exp), '%s: got %r, expected %r', path, got, exp)
        for i, (g, e) in enumerate(zip(got, exp)):
            same(g, e, '%s[%d]' % (path, i))
    else:
        eq(got, exp, path)


class Render:
    def __init__(self, lay, comments):
        self.r = lay
        self.i = 0
        self.comments = comments

    def pick(self, *opts):
        self.i += 1
        return opts[self.r[self.i % len(self.r)] % len(opts)]

    def filler(self, hashes=True):
        """lines between definitions or rows"""
        k = self.pick(0, 0, 0, 1, 2, 3, 4)
        if k == 1:
            return ['']
        if k == 2:
            return ['', ' \t']
        if k == 3 and self.comments:
            return [self.pick('# note', "  # it's = {x", '#', '\t# a = 3', '# }')]
        if k == 4 and self.comments:
            return [self.pick('; note', "   ; don't", '; a = {x,y', ';')]
        return []

    def tail(self):
        if not self.comments:
            return self.pick('', '', '  ', '\t')
        return self.pick('', '', '', ' ', '\t', ' ; comment', "; it's", '\t; k = "x', ' ;; }')

    def close(self):
        """a closing brace may be followed by a remark"""
        return '}' + self.pick('', '', '', '', '', ' end of table', '\tend', ' 1 2 3', ' a = 3', ' "x"') + self.tail()

    def q(self, v, q):
        return q + v + q

    def definition(self, key, v, ptr, ind):
        p = self.pick('', '', '  ', '\t') + ind
        head = p + key + ('^' if ptr else '') + self.pick('', '', ' ', '  ', '\t', ' \t') + '=' + self.pick('', '', ' ', '\t', '   ')
        t = v['t']
        if t == 's':
            return [head + ('*' if v.get('star') else '') + self.q(v['v'], v['q']) + self.tail()]
        if t == 'a':
            close = {'[': ']', '(': ')', '*[': ']'}[v['b']]
            lines = [head + v['b'] + self.pick('', '', ' ')]
            n = len(v['v'])
            for i, ((e, q), nl) in enumerate(zip(v['v'], v['nl'])):
                s = self.q(e, q)
                lines[-1] += self.pick('', '', ' ', '\t') + s + self.pick('', '', ' ') + (',' if i < n - 1 else '')
                if nl and i < n - 1:
                    lines[-1] += self.tail()
                    lines += [x for x in self.filler()]
                    lines.append(ind + self.pick('', '    '))
            lines[-1] += close + self.tail()
            return lines
        if t == 'tab':
            lines = [head + '{' + self.pick(',', ', ', ' ,', ',\t').join(v['cols']) + self.tail()]
            for row in v['rows']:
                lines += self.filler()
                lines.append(self.pick('', ' ', '\t', ind) + self.pick(' ', '\t', '   ', '\t\t').join(self.q(c, q) for c, q in row) + self.tail())
            lines += self.filler()
            lines.append(self.pick('', ind, '  ', '\t') + self.close())
            return lines
        if t == 'txt':
            return [head + '"'] + v['v'] + [self.pick('', ind, '  ') + '"' + self.tail()]
        lines = [head + '{' + self.tail()]
        for k, x, pt in v['v']:
            lines += self.filler()
            lines += self.definition(k, x, pt, ind + self.pick('', ' ', '  ', '\t'))
        lines += self.filler()
        lines.append(self.pick('', ind, '  ') + '}' + self.tail())
        return lines

    def doc(self, es):
        lines = self.filler()
        for k, x, pt in es:
            lines += self.definition(k, x, pt, '')
            lines += self.filler()
        return lines


def document(case, ctx):
    es = case['doc']
    exp = expected(es)
    mode = case['mode']
    lines = Render(case['lay'], comments=mode != 'string').doc(es)
    eol = '\r\n' if case['crlf'] and mode != 'string' else '\n'
    text = eol.join(lines) + (eol if case['last'] else '')
    f = os.path.join(ctx.tmpdir(), 'doc.txt')
    if mode == 'string':
        got = gm.read_textstructure(text, from_string=True)
    else:
        with open(f, 'wb') as h:
            h.write((b'\xef\xbb\xbf' if case['bom'] else b'') + text.encode('utf8'))
        if mode == 'file':
            got = gm.read_textstructure(f)
        else:
            got = gm.read_textstructure(gm.read_textfile(f, ignore_hash=True, strip=';', as_string=True), from_string=True)
    same(got, exp, mode)
    kinds = {v['t'] for _, v, _ in es}
    for k in kinds:
        ctx.label('kind ' + k)
    names = [('ptr_' if p else '') + k for k, _, p in es]
    if len(set(names)) < len(names):
        ctx.label('repeated key')
    if any(v['t'] == 'st' and any(x['t'] == 'tab' for _, x, _ in v['v']) for _, v, _ in es):
        ctx.label('table in structure')
    if any(v['t'] == 'tab' and any(len(r) < len(v['cols']) for r in v['rows']) for _, v, _ in es):
        ctx.label('missing cells')
    if case['crlf'] and mode != 'string':
        ctx.label('crlf')
    ctx.nontrivial(len(es) >= 2 and (kinds - {'s'} or any(v['t'] == 's' and v['q'] for _, v, _ in es)))


docs = st.fixed_dictionaries({
    'doc': entries(0, 1, 7), 'lay': st.lists(st.integers(0, 41), min_size=1, max_size=40),
    'mode': st.sampled_from(['file', 'file', 'filestring', 'string']), 'crlf': st.booleans(), 'bom': st.booleans(), 'last': st.booleans()})


# ---------------------------------------------------------------- large repeated structures, as in the functions file

def bulk(case, ctx):
    n, m = case['n'], case['m']
    lines, exp = [], {}
    out = []
    for i in range(n):
        kind = ['production', 'chronology', 'table'][(i * case['k']) % 3]
        if kind == 'table':
            lines += ['crater={diam,fraction'] + ['%d.5\t%s' % (j, '' if (j + i) % 3 == 0 else '.%d' % j) for j in range(m)] + ['}', '']
            x = {'diam': ['%d.5' % j for j in range(m)], 'fraction': ['' if (j + i) % 3 == 0 else '.%d' % j for j in range(m)]}
            key = 'crater'
        else:
            lines += [kind + '={', "  name='n%d; x'" % i, '  t={a,b'] + ['%d %d' % (j, i) for j in range(m)] + ['  }', '  c=[' + ','.join(str(j) for j in range(m)) + ']', '}', '']
            x = {'name': 'n%d; x' % i, 't': {'a': [str(j) for j in range(m)], 'b': [str(i)] * m}, 'c': [str(j) for j in range(m)]}
            key = kind
        out.append((key, x))
    for key, x in out:
        exp.setdefault(key, []).append(x)
    exp = {k: (v if len(v) > 1 else v[0]) for k, v in exp.items()}
    got = gm.read_textstructure('\n'.join(lines), from_string=True)
    same(got, exp, 'bulk')
    ctx.nontrivial(n > 3)


# ---------------------------------------------------------------- file names

PATHCH = 'ab1 .-_()é'


@st.composite
def paths(draw):
    sep = draw(st.sampled_from(['/', '\\']))
    dirs = draw(st.lists(st.text(PATHCH, min_size=1, max_size=6), max_size=3))
    root = draw(st.sampled_from(['', sep, 'd:' + sep, 'd:', '..' + sep]))
    name = draw(st.text(PATHCH, max_size=8))
    ext = draw(st.sampled_from(['', '', '.txt', '.scc', '.diam', '.c', '.1', '.shapefile', '.b-c', '.']))
    return [root, dirs, sep, name, ext]


def split_oracle(f, m=4):
    i = max(f.rfind(c) for c in '/\\:') + 1
    path, rest = f[:i], f[i:]
    j = rest.rfind('.')
    if j >= 0 and 1 <= len(rest) - j - 1 <= m and all(c == '_' or c.isalnum() for c in rest[j + 1:]):
        return path, rest[:j], rest[j:]
    return path, rest, ''


def parent(path):
    """one level up from a path ending with its separator -> (parent path, directory name with separator)"""
    body = path
    for i in range(len(body) - 2, -1, -1):
        if body[i] in '/\\':
            return body[:i + 1], body[i + 1:]
    return None


def names(case, ctx):
    root, dirs, sep, name, ext = case['p']
    path = root + ''.join(d + sep for d in dirs)
    f = path + name + ext
    p, n, e = split_oracle(f, case['m'])
    k = {} if case['m'] == 4 else {'max_ext_length': case['m']}
    g = lambda code, **kk: gm.filename(f, code, **kk, **k)
    eq(g('p'), p, 'path of %r' % f)
    eq(g('n'), n, 'name of %r' % f)
    eq(g('e'), e, 'extension of %r' % f)
    eq(g('pne'), f, 'recombined')
    eq(g('ne'), n + e, 'file name')
    eq(g('pn1e', insert1=case['i1']), p + n + case['i1'] + e, 'inserted')
    eq(g('2n1', insert1=case['i1'], insert2=case['i2']), case['i2'] + n + case['i1'], 'two inserts')
    up = parent(p)
    if up:
        eq(g('u'), up[0], 'parent path of %r' % f)
        eq(g('b'), up[1], 'parent directory of %r' % f)
        eq(g('bne'), up[1] + n + e, 'parent directory and file name')
    if not k:
        eq(gm.filename([f, name], 'pn1e', insert1=case['i1']), [gm.filename(x, 'pn1e', insert1=case['i1']) for x in (f, name)], 'list of files')
    ctx.nontrivial(bool(e) or bool(p))


# ---------------------------------------------------------------- quoted strings

def qsplit(case, ctx):
    parts, sepi = case['parts'], case['sep']
    out, exp = [], []
    for s, q in parts:
        if q:
            exp.append(s)
            out.append(q + s.replace(q, '\\' + q) + q)
        else:
            exp.append(s)
            out.append(s)
    if sepi == 0:
        text = case['w'].join(out)
        got = quoted_split(case['lead'] + text + case['lead'])
    else:
        text = (',' + case['w']).join(out)
        got = quoted_split(case['lead'] + text, separator=r'\s,')
    eq(got, exp, 'pieces of %r' % text)
    for s, q in parts:
        if q:
            eq(strip_quotes(q + s + q), s, 'stripped')
        eq(strip_quotes(s) if not s[:1] in ('"', "'") else s, s, 'unquoted text kept')
        eq(strip_quotes('"' + s + "x'"), '"' + s + "x'", 'unmatched quotes kept')
    ctx.nontrivial(any(q for _, q in parts) and len(parts) > 1)


piece = st.one_of(
    st.tuples(st.text('abé01.-+;#=()[]', min_size=1, max_size=6), st.just('')),
    st.tuples(st.text("ab 01,;=\t'\"é", max_size=8).filter(lambda s: not s.endswith('\\')), st.sampled_from(['"', "'"])))


# ---------------------------------------------------------------- text file round trip

def roundtrip(case, ctx):
    f = os.path.join(ctx.tmpdir(), 'x.txt')
    lines = case['lines']
    gm.write_textfile(f, lines if case['aslist'] else '\n'.join(lines), BOM=case['bom'])
    if case['more'] is not None:
        gm.write_textfile(f, '\n' + case['more'], append=True)
        lines = (lines or ['']) + [case['more']]
    text = '\n'.join(lines)
    exp = lines if text else []  # an empty file has no lines
    got = gm.read_textfile(f)
    if lines and lines[-1] == '' and len(lines) > 1 or text:
        eq(got, exp, 'lines read back')
    eq(gm.read_textfile(f, as_string=True), text, 'text read back')
    eq(gm.read_textfile(f, ignore_blank=True), [l for l in exp if l.strip()], 'blank lines left out')
    eq(gm.read_textfile(f, ignore_hash=True), [l for l in exp if not l.lstrip().startswith('#')], 'comment lines left out')
    eq(gm.read_textfile(f, ignore_hash=True, ignore_blank=True, as_string=True),
       '\n'.join(l for l in exp if l.strip() and not l.lstrip().startswith('#')), 'both left out')
    n = case['n']
    eq(gm.read_textfile(f, n_lines=n), [(exp[i] if i < len(exp) else '').strip() for i in range(n)], 'first lines')
    # stripping: the part before the first ; outside quotes, here for lines without quotes
    plain = [l for l in exp if '"' not in l and "'" not in l]
    gm.write_textfile(f, plain + ['end'])
    eq(gm.read_textfile(f, strip=';'), [l.split(';')[0] for l in plain] + ['end'], 'comments removed')
    ctx.nontrivial(len(lines) > 2)


line = st.one_of(st.text('ab #;="\' \té,', max_size=10), st.sampled_from(['', '# c', '  # c', 'a ; b', 'x']))

SUBS = [
    Sub('documents', docs, document, quick=3000, shards=6, rule='any document'),
    Sub('bulk', st.fixed_dictionaries({'n': st.integers(1, 60), 'm': st.integers(1, 12), 'k': st.integers(1, 2)}), bulk, quick=60,
        rule='more than three structures'),
    Sub('filenames', st.fixed_dictionaries({'p': paths(), 'm': st.sampled_from([4, 4, 4, 6, 1]), 'i1': st.sampled_from(['_en', '', '.x', 'a/b']),
                                            'i2': st.sampled_from(['pre', ''])}), names, quick=800, rule='has a path or an extension'),
    Sub('quoting', st.fixed_dictionaries({'parts': st.lists(piece.map(list), min_size=1, max_size=5), 'sep': st.integers(0, 1),
                                          'w': st.sampled_from([' ', '\t', '  ', ' \t']), 'lead': st.sampled_from(['', ' '])}), qsplit, quick=500,
        rule='several pieces, one quoted'),
    Sub('textfiles', st.fixed_dictionaries({'lines': st.lists(line, min_size=0, max_size=7), 'aslist': st.booleans(), 'bom': st.booleans(),
                                            'more': st.one_of(st.none(), line), 'n': st.integers(0, 5)}), roundtrip, quick=400, rule='several lines'),
]
