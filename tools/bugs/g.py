FIG = '''
def fig(*a):
    # the figure the program would save
    import matplotlib.figure as mf
    got = []
    old = mf.Figure.savefig
    mf.Figure.savefig = lambda self, name, **k: got.append((name, self, k))
    try:
        with quiet():
            cli.main(list(a))
    finally:
        mf.Figure.savefig = old
    return got
def area(f):
    ax = [x for x in f.axes if x.get_yscale() == 'log' and x.get_xscale() == 'linear' and x.get_frame_on()][0]
    b, (w, h) = ax.get_position(), f.get_size_inches() * 2.54
    return ax, b.width * w, b.height * h
'''

bug('c01-old-perimeter', 'C01', [('Cratercount.py', "re.findall(r'\\s*[\\d\\.]*(?:[eE][+-]?\\d+)?',s['Total_perimeter'])[0])", "re.findall(r'\\s*[\\d\\.]*',s['Total_perimeter'])[0])")],
    'an OpenCraterTool file whose perimeter is written with an exponent',
    'the exponent of the perimeter is ignored', '''
def main():
    scc('a.scc', [[(0., 0.), (10., 0.), (10., 10.), (0., 10.)]], [(1., 1., 5., 5.), (2., 1., 4., 4.)], 1000., 30000., 700.)
    t = [l for l in open('a.scc').read().splitlines() if 'erimeter' not in l]
    i = [k for k, l in enumerate(t) if l.startswith('Total_area')][0]
    open('a.scc', 'w').write('\\n'.join(t[:i + 1] + ['Total_perimeter = 7.25e+02 <km>'] + t[i + 1:]))
    with quiet():
        c = cst.Cratercount('a.scc')
    assert abs(c.perimeter - 725.) < 1e-9, c.perimeter
''')

bug('c01-bom', 'C01', [('gm/file/read_textfile.py', "encoding='utf-8-sig') as file: # encoding='utf-8-sig' removes BOM if present", "encoding='utf-8') as file:")],
    'a count file saved with a byte order mark that starts with its area',
    'the file cannot be read', '''
def main():
    open('a.diam', 'w', encoding='utf-8-sig').write('area = 100\\ncrater = {diameter\\n1.\\n2.\\n}\\n')
    with quiet():
        c = cst.Cratercount('a.diam')
    assert c.area == 100. and sorted(c.diam) == [1., 2.]
''')

bug('c02-quoted-cell', 'C02', [('gm/file/read_textstructure.py', "            v=quoted_split(row)\n", "            v=[strip_quotes(e) for e in row.split()]\n")],
    'a table with a quoted cell containing a space',
    'the cell is split in two and the following cells move along', '''
def main():
    r = gm.read_textstructure('crater = {tag, diam\\n"a b" 1.5\\nc 2.5\\n}\\n', from_string=True)
    assert r['crater']['tag'] == ['a b', 'c'] and r['crater']['diam'] == ['1.5', '2.5'], r
''')

bug('c03-top-boundary', 'C03', [('Cratercount.py', "            r10[1] += eps\n        else:", "            r10[1] += 0.\n        else:")],
    'the largest crater lies exactly on a bin boundary',
    'that crater is counted into the bin below', '''
def main():
    diam('a.diam', [1.05, 1.2, 1.6, 2.])
    with quiet():
        c = cst.Cratercount('a.diam')
        c.apply_binning('pseudo-log')
    b = c.binned
    q = [(float(x), float(y)) for x, y, n in zip(b['d_min'], b['d_max'], b['n']) if n > 0]
    assert q[-1][0] <= 2. * (1 + 1e-9) < q[-1][1], q
''')

bug('c04-none-fraction', 'C04', [('Cratercount.py', "            bins,h = zip(*sorted(zip(d, self.fraction)))\n", "            bins,h = sorted(d), self.fraction\n")],
    'an unbinned count with unequal crater fractions',
    'the fractions are attached to other craters', '''
def main():
    diam('a.diam', [1., 2., 4.], [1., .5, .25], 100.)
    with quiet():
        c = cst.Cratercount('a.diam')
        p = c.getplotdata('cumulative', 'none')
    assert np.allclose(p['y'], [.0175, .0075, .0025]), p['y']
''')

bug('c05-first-from-end', 'C05', [('Cratercount.py', "                v=np.clip(v,-len(q[0]),len(q[0]))\n", "                v=np.clip(v,1-len(q[0]),len(q[0]))\n")],
    'a limit counted from the end which reaches the first occupied bin',
    'the range starts one bin late', '''
def main():
    diam('a.diam', [1.05, 1.25, 1.55, 1.85, 2.2])
    with quiet():
        c = cst.Cratercount('a.diam')
        r = c.decode_range(['b-5', 'inf'], 'pseudo-log', 1)
    assert abs(r[0] - 1.) < 1e-9, r
''')

bug('c07-iterations', 'C07', [('Cratercount.py', "or count > 20:", "or count > 3:")],
    'a correction which converges slowly: few bins fitted far below the larger craters',
    'the correction stops before it has converged', '''
def main():
    pf = cst.Productionfn(F, 'Mars, Ivanov (2001)')
    d = list(np.geomspace(1.01, 1.39, 200)) + [5.5] * 3
    diam('a.diam', d, None, 1000.)
    with quiet():
        c = cst.Cratercount('a.diam')
        c.apply_binning('pseudo-log')
        r = [1., 1.4]
        adj = c.resurf_adj(pf, r)
        p = c.getplotdata('cumulative', 'pseudo-log', range=r)
        p['y'] = p['y'] + adj
        a0 = pf.fit(p)[0]
    want = pf.evaluate('cumulative', float(p['d'][-1]), a0)
    assert abs(p['y'][-1] / want - 1) < 1e-3, (p['y'][-1], want)
''')

bug('c09-coarse', 'C09', [('Chronologyfn.py', "        t_steps=1000\n", "        t_steps=150\n")],
    'an age in the steep part of the chronology between two tabulated times',
    'converting to a density and back does not return the age', '''
def main():
    c = cst.Chronologyfn(F, 'Moon, Neukum (1983)')
    for t in np.linspace(3.6, 4.4, 101):
        assert abs(float(c.t(n1=c.N1(float(t)))) / t - 1) < 1e-4, t
''')

bug('c10-fit-slope', 'C10', [('Craterplot.py', "                p0=self.cratercount.getplotdata(\"differential\",self.binning,range=self.range,pf=cps.pf)\n", "                p0=self.cratercount.getplotdata(\"differential\",self.binning,range=self.range)\n")],
    'a differential fit in wide bins where the production function is not of slope -3',
    'the fitted level is biased', '''
def main():
    pf, cf = cst.Productionfn(F, 'Mars, Ivanov (2001)'), cst.Chronologyfn(F, 'Mars, Hartmann & Neukum (2001)')
    a0 = cf.a0(3.5)
    b = [float(2 ** k) for k in range(0, 6)]
    N = [float(pf.evaluate('cumulative', e, a0)) for e in b]
    area = 2e6
    d = []
    for lo, hi, n in zip(b, b[1:], [round((x - y) * area) for x, y in zip(N, N[1:])]):
        d += list(np.linspace(lo * 1.001, hi * .999, n))
    diam('a.diam', d, None, area)
    with quiet():
        cps = cst.Craterplotset({'pf': pf, 'cf': cf, 'presentation': 'differential', 'ref_diameter': 1.})
        p = cst.Craterplot(source='a.diam', type='d-fit', range=['1', '32'], binning='x2')
        p.calculate_age(cps)
        want = pf.fit(cst.Cratercount('a.diam').getplotdata('differential', 'x2', range=[1., 32.], pf=pf))
    assert abs(p.a0[0] - want[0]) < 1e-6, (p.a0, want)
''')

bug('c13-mean-count', 'C13', [('Craterplotset.py', "        t_mean= sum(t)/float(n)\n", "        t_mean= sum(t)/float(max(n,len(self.craterplot)))\n")],
    'a sequence table for a plot which also has a hidden evaluation',
    'the mean of the median ages counts the hidden one', '''
def main():
    for k, n in enumerate((20, 40, 60)):
        diam('%d.diam' % k, list(np.linspace(1.01, 9., n)))
    with quiet():
        cli.main(['-pr', 'sequence', '-st', '-o', 'o.svg', '-p', 'source=0.diam,range=[1,20],type=poisson', '-p', 'source=1.diam', '-p', 'source=2.diam,hide=1'])
    t = dict(l.split(':,') for l in open('o_sequence.csv').read().splitlines() if ':,' in l)
    m = [float(e) for e in t['t_median'].split(',')]
    assert abs(float(t['mean(t_median)']) / np.mean(m) - 1) < .02, t
''')

bug('c17-nd-label', 'C17', [('Craterplotset.py', "        n_d_lbl=f'N({self.ref_diameter:0g})'\n        # w", "        n_d_lbl=f'N({self.ref_diameter:.0f})'\n        # w")],
    'a reference diameter which is not a whole number',
    'the column is headed with another diameter', '''
def main():
    diam('a.diam', list(np.linspace(1.01, 9., 30)))
    with quiet():
        cli.main(['-ref_diameter', '2.5', '-o', 'o.csv', '-p', 'source=a.diam,type=poisson,range=[1,10]'])
    assert 'N(2.5)' in open('o.csv', encoding='utf-8-sig').read()
''')

bug('c27-range-alias', 'C27', [('Cratercount.py', "            r1=range.copy()\n            if resurfacing", "            r1=range\n            if resurfacing")],
    'an evaluation without limits repeated or followed by another of the same overplot',
    'the range of the caller is overwritten by the limits of the data', '''
def main():
    diam('a.diam', [1.05, 1.25, 1.55, 1.85, 2.2])
    with quiet():
        c = cst.Cratercount('a.diam')
        r = [0., np.inf]
        c.getplotdata('cumulative', 'pseudo-log', range=r)
    assert r == [0., np.inf], r
''')

bug('c30-marker-shared', 'C30', [('Craterplot.py', "        marker = cps.marker_def[self.psym].copy()\n        marker['markersize'] *= .7\n", "        marker = cps.marker_def[self.psym]\n        marker['markersize'] *= .7\n")],
    'a count with randomness results shown above the plot',
    'its symbols are drawn smaller than those of other counts', FIG + '''
def main():
    d = list(np.linspace(1.01, 9., 30))
    diam('a.diam', d)
    diam('b.diam', d)
    open('a_ra.txt', 'w').write("""n_sigma = {bin, m2cnd
0 1.5
1 -0.5
}
m2cnd={
n_trials = 100
trials = {bin, v
0 1
}
}
""")
    g = fig('-ra_show', '1', '-f', 'svg', '-p', 'source=a.diam,psym=circle', '-p', 'source=b.diam,psym=square')
    ax = [x for x in g[0][1].axes if x.get_yscale() == 'log' and x.get_frame_on()][0]
    s = {l.get_marker(): l.get_markersize() for l in ax.lines if l.get_marker() in ('o', 's')}
    assert len(s) == 2 and abs(s['o'] / s['s'] - 1.) < 1e-6, s
''')

bug('c27-style-leak', 'C27', [('Craterplotset.py', "        plt.style.use(('default', 'dark_background')[self.invert])\n", "        if self.invert: plt.style.use('dark_background')\n")],
    'a normal figure drawn in the same process after an inverted one',
    'it comes out on a black background', FIG + '''
def main():
    diam('a.diam', list(np.linspace(1.01, 9., 30)))
    a = ('-f', 'svg', '-p', 'source=a.diam')
    from matplotlib.colors import to_hex
    c = [to_hex(fig(*x)[0][1].get_facecolor()) for x in (a, ('-invert', '1') + a, a)]
    assert c[0] == c[2] != c[1], c
''')

bug('c27-coefficients', 'C27', [('Productionfn.py', "        a = [a0] + self.a[1:]\n        C10", "        a = self.a\n        a[0] = a0\n        C10")],
    'a production function evaluated at its own level after it was used at another',
    'its own level has changed', '''
def main():
    pf, cf = system()
    want = float(pf.evaluate('cumulative', 1.))
    pf.evaluate('cumulative', 1., cf.a0(3.))
    got = float(pf.evaluate('cumulative', 1.))
    assert abs(got / want - 1) < 1e-12, (got, want)
''')

bug('c01-perimeter-exponent', 'C01', [('Cratercount.py', "            self.perimeter = float(s['Perimeter'].split()[0])\n", "            self.perimeter = float(re.findall(r'[\\d\\.]+',s['Perimeter'])[0])\n")],
    'a perimeter written with an exponent',
    'the exponent is ignored', '''
def main():
    scc('a.scc', [('1', box(0., 10., 0., 10.))], [(1., 1., 5., 5.), (2., 1., 4., 4.)], 1000., 30000., 700.)
    t = [l for l in open('a.scc').read().splitlines() if 'erimeter' not in l]
    open('a.scc', 'w').write('\\n'.join(t[:1] + ['Perimeter = 7.25e+02 <km>'] + t[1:]))
    with quiet():
        c = cst.Cratercount('a.scc')
    assert abs(c.perimeter - 725.) < 1e-9, c.perimeter
''')

bug('c02-header-tab', 'C02', [('gm/file/read_textstructure.py', "        tag=[e.strip('{ \\t') for e in tag0]", "        tag=[e.strip('{ ') for e in tag0]")],
    'a table whose column names are separated by tabs',
    'the names keep the tab', '''
def main():
    r = gm.read_textstructure('crater = {tag,\\tdiam\\na 1.5\\n}\\n', from_string=True)
    assert r['crater'] == {'tag': ['a'], 'diam': ['1.5']}, r
''')

bug('c02-dotted', 'C02', [('gm/file/read_textstructure.py', '(?P<keyword2>[\\w\\.]*\\^?)[ \\t]*="', '(?P<keyword2>\\w*\\^?)[ \\t]*="')],
    'a keyword containing a full stop which is not the first',
    'its definition is swallowed by the one before', '''
def main():
    r = gm.read_textstructure('a = 1\\nb.c = 2\\nd = 3\\n', from_string=True)
    assert r == {'a': '1', 'b.c': '2', 'd': '3'}, r
''')

bug('c07-other-types', 'C07', [('Craterplot.py', "            resurfacing=1 if self.resurf and self.type == 'c-fit' else 0, showall=self.resurf_showall,\n            pf=cps.pf)\n\n        self.n=p['n']", "            resurfacing=1 if self.resurf else 0, showall=self.resurf_showall,\n            pf=cps.pf)\n\n        self.n=p['n']")],
    'the resurfacing option carried over to an overplot which is not a cumulative fit',
    'the data points of that overplot are shifted', FIG + '''
def main():
    diam('a.diam', list(np.geomspace(1.01, 9., 60)))
    y = []
    for r in ('0', '1'):
        f = fig('-pr', 'cumulative', '-f', 'svg', '-p', 'source=a.diam,type=poisson,range=[1,2],psym=circle,resurf=' + r)[0][1]
        ax = [x for x in f.axes if x.get_yscale() == 'log' and x.get_frame_on()][0]
        y.append([l.get_ydata() for l in ax.lines if l.get_marker() == 'o'][0])
    assert np.allclose(y[0], y[1]), y
''')

bug('c09-zero-level', 'C09', [('Chronologyfn.py', "        if not a0 is None:\n", "        if np.any(a0):\n")],
    'a level of exactly zero: one crater per square kilometre',
    'the conversion to an age fails', '''
def main():
    pf, cf = system()
    assert abs(float(cf.t(a0=0.)) / float(cf.t(n1=1.)) - 1) < 1e-9
''')

bug('c17-hidden-row', 'C17', [('Craterplotset.py', "            if cp.type in ['c-fit', 'd-fit', 'poisson', 'b-poisson']:\n                cp.calculate_age(self)\n                d =", "            if cp.type in ['c-fit', 'd-fit', 'poisson', 'b-poisson'] and not cp.hide:\n                cp.calculate_age(self)\n                d =")],
    'an evaluation which is hidden in the figure',
    'it has no row in the table', '''
def main():
    diam('a.diam', list(np.linspace(1.01, 9., 30)))
    n = []
    for h in ('0', '1'):
        with quiet():
            cli.main(['-o', 'o.csv', '-p', 'source=a.diam,type=poisson,range=[1,10]', '-p', 'type=d-fit,range=[1,10],hide=' + h])
        n.append(len(open('o.csv', encoding='utf-8-sig').read().splitlines()))
    assert n[0] == n[1], n
''')

bug('c13-digits', 'C13', [('Craterplotset.py', "                s[j][i+1] = gm.sigfigs(P,2)\n", "                s[j][i+1] = f'{P:.2f}'\n")],
    'a small probability',
    'the table gives zero', '''
def main():
    diam('0.diam', list(np.linspace(1.01, 9., 60)))
    diam('1.diam', list(np.linspace(1.01, 9., 36)))
    with quiet():
        cli.main(['-pr', 'sequence', '-st', '-o', 'o.svg', '-p', 'source=0.diam,range=[1,20],type=poisson', '-p', 'source=1.diam'])
    t = [l.split(',') for l in open('o_sequence.csv').read().splitlines()[2:4]]
    v = sorted((float(t[0][2]), float(t[1][1])))
    assert 0 < v[0] and abs(v[0] * 100 - round(v[0] * 100)) > 1e-6, t
''')

bug('c05-inverted', 'C05', [('Cratercount.py', "        if r1[1] < r1[0]: r1[1]=r1[0]\n", "        if r1[1] < r1[0]: r1=r1[::-1]\n")],
    'a range whose upper limit is below its lower limit', 'the limits are exchanged', '''
def main():
    diam('a.diam', [1.05, 1.25, 1.55, 1.85, 2.2])
    with quiet():
        r = cst.Cratercount('a.diam').decode_range(['2', '1'], 'pseudo-log', 0)
    assert r[0] == 2., r
''')
