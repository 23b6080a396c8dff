bug('c09-rate-gradient', 'C09', [('Chronologyfn.py', "        y=self.phi(t) if phi else self.N1(t)\n", "        y=np.gradient(self.N1(t),t) if phi else self.N1(t)\n")],
    'the rate curve on the finely spaced logarithmic time series, or its end points',
    'the plotted rate is a one-sided difference at the ends and loses its digits at small ages', '''
def main():
    pf, cf = system('Mars, Neukum-Ivanov (2001)')
    for linear in (True, False):
        t, y = cf.getplotdata(phi=True, linear=linear)
        assert np.allclose(y, cf.phi(t), rtol=1e-4), np.max(np.abs(y / cf.phi(t) - 1))
''')

bug('c09-table-by-name', 'C09', [
    ('Chronologyfn.py', "class Chronologyfn:\n", "class Chronologyfn:\n\n    tables = {}\n"),
    ('Chronologyfn.py', "        self.n1s=self.N1(self.ts)     \n", "        self.n1s=self.tables.setdefault(identifier, self.N1(self.ts))\n")],
    'two functions of the same name with different coefficients in one process',
    'ages from the second function are looked up in the table of the first', '''
def main():
    t = 'chronology={\\n name="%s"\\n coefficients=[%s]\\n}\\n'
    a = cst.Chronologyfn(t % ('A', '5.44e-14, 6.93, 0, 8.38e-4'), 'A')
    b = cst.Chronologyfn(t % ('A', '1.44e-14, 6.5, 0, 2.38e-4'), 'A')
    for f in (a, b):
        assert abs(f.t(n1=f.N1(3.)) - 3.) < 1e-3
''')

bug('c10-level-bounds', 'C10', [('Productionfn.py', "        popt, pcov = sc.curve_fit(func, np.log10(d), np.log10(y),sigma=sigma)\n", "        popt, pcov = sc.curve_fit(func, np.log10(d), np.log10(y),sigma=sigma,bounds=(-8,2))\n")],
    'a surface younger than about 12 ka, or one denser than a hundred 1 km craters per km2',
    'the fitted level sticks at the bound', '''
def main():
    pf, cf = system()
    for t in (1e-6, 1e-4, 1.):
        d = np.array([.011, .013, .016])
        y = pf.C(d, cf.a0(t))
        a0 = pf.fit({'presentation': 'cumulative', 'd': d, 'y': y, 'err': y / 5})
        assert abs(cf.t(a0=a0[0]) / t - 1) < .01, (t, cf.t(a0=a0[0]))
''')

bug('c10-differential-weight', 'C10', [('Productionfn.py', "                func, sigma = self.F10, 1 / np.sqrt(err)", "                func, sigma = self.F10, 1 / np.sqrt(y)")],
    'a differential fit to points off the isochron whose errors are not proportional to the densities',
    'the points are weighted by density instead of their errors', '''
def main():
    pf, cf = system()
    d = np.array([1., 2., 4.])
    y = pf.F(d, cf.a0(3.)) * np.array([1., 1.5, .6])
    err = y / np.sqrt(np.array([400., 20., 2.]))
    a0 = pf.fit({'presentation': 'differential', 'd': d, 'y': y, 'err': err})
    w = err
    expected = np.sum(w * (np.log10(y) - pf.F10(np.log10(d), 0.))) / np.sum(w)
    assert abs(a0[0] - expected) < 1e-5, (a0, expected)
''')

bug('c12-missing-perimeter', 'C12', [('Craterplot.py', "bcc=self.type == 'b-poisson')", "bcc=self.type == 'b-poisson' and self.cratercount.perimeter is not None)")],
    'a buffered evaluation of a source without perimeter',
    'the ordinary age is given without any message', '''
def main():
    diam('a.diam', [1., 1.5, 2.3, 3.])
    try:
        with quiet():
            cli.main(['-f', 'csv', '-o', 'x', '-p', 'source=a.diam,type=b-poisson,range=[1,4]'])
    except SystemExit as e:
        assert 'perimeter' in str(e)
    else:
        raise AssertionError('accepted')
''')

bug('c26-user-redefinition', 'C26', [('Chronologyfn.py', "        self.definition=next((e for e in src['chronology'] if e['name']==identifier),None)\n", "        self.definition=next((e for e in reversed(src['chronology']) if e['name']==identifier),None)\n")],
    'a user file which defines a chronology function under a built-in name',
    'the built-in system uses the definition of the user file', '''
def main():
    os.makedirs('env/etc')
    name = next(e for e in F['chronology_system'] if e['name'] == 'Moon, Neukum (1983)')['cf']
    open('user.txt', 'w').write('chronology={\\n name="%s"\\n coefficients=[1e-14, 6.9, 0, 1e-4]\\n}\\n' % name)
    before = cst.Chronologyfn(F, name).N1(3.)
    os.environ['CONDA_PREFIX'] = os.path.abspath('env')
    with quiet():
        cst.Functionslist().set_user_functions_config('user.txt')
    g = cst.Functionslist().functions
    assert len(g['chronology']) > len(F['chronology'])
    assert cst.Chronologyfn(g, name).N1(3.) == before
''')

bug('c26-single-user-entry', 'C26', [('miscellaneous.py', "                    s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)\n", "                    s = gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True) + s\n")],
    'a user file which defines a function under a built-in name',
    'definitions of the user file come first and replace the built-in ones', '''
def main():
    os.makedirs('env/etc')
    name = next(e for e in F['chronology_system'] if e['name'] == 'Moon, Neukum (1983)')['pf']
    open('user.txt', 'w').write('production={\\n name="%s"\\n range=[1,2]\\n coefficients=[-3, -2]\\n}\\n\\n' % name)
    before = cst.Productionfn(F, name).C(2., 0.)
    os.environ['CONDA_PREFIX'] = os.path.abspath('env')
    with quiet():
        cst.Functionslist().set_user_functions_config('user.txt')
    assert cst.Productionfn(cst.Functionslist().functions, name).C(2., 0.) == before
''')

bug('c08-long-polynomial', 'C08', [('Productionfn.py', "        a = [a0] + self.a[1:]\n        C10 = gm.poly(a, d10)\n", "        a = [a0] + self.a[1:12]\n        C10 = gm.poly(a, d10)\n")],
    'a production function of more than twelve coefficients',
    'the cumulative form leaves out the last coefficients', '''
def main():
    c = [-3., -3.] + [1e-3 * (-1) ** i for i in range(12)]
    pf = cst.Productionfn('production={\\n name="A"\\n range=[.1,10]\\n coefficients=[%s]\\n}\\n' % ','.join(map(str, c)), 'A')
    assert abs(np.log10(pf.C(8., -3.)) - np.polyval(c[::-1], np.log10(8.))) < 1e-9
''')

bug('c11-stat-fraction', 'C11', [('Craterpdf.py', "            self.k = np.sum(b['n_event'][q])\n", "            self.k = int(round(np.sum(b['n'][q])))\n")],
    'a binned count whose fractional counts differ from the number of craters',
    'the number of craters is taken from the sum of fractions', '''
def main():
    diam('a.diam', list(np.linspace(1.01, 1.99, 30)), [.3] * 30)
    cst.Cratercount('a.diam').WriteStatFile('a.stat')
    pf, cf = system()
    p = cst.Craterpdf(pf, cf, cst.Cratercount('a.stat'), [1., 2.])
    assert p.k == 30, p.k
''')

bug('c05-bin-nosnap', 'C05', [('Cratercount.py', "                    r1[i]=self.binned['d_mean'][q[0][v]]\n                    snap1[i]=1\n", "                    r1[i]=self.binned['d_mean'][q[0][v]]\n")],
    'a limit given by bin number together with snap=0',
    'the limit is the middle of the bin, so part of its craters is left out', '''
def main():
    diam('a.diam', list(np.linspace(1.01, 8.9, 60)))
    cc = cst.Cratercount('a.diam')
    r = cc.decode_range(['b2', 'b-2'], '10/decade', 0)
    b = cc.binned
    q = np.where(b['n'] > 0)[0]
    assert abs(r[0] - b['d_min'][q[1]]) < 1e-9 and abs(r[1] - b['d_max'][q[-2]]) < 1e-9, r
''')

bug('c03-offset-lattice', 'C03', [('Cratercount.py', "            br = np.array(gm.range(r10*bins_per_decade + offset, outer=True)) - offset\n", "            br = np.array(gm.range(r10*bins_per_decade, outer=True)) - offset\n")],
    'bins with an offset, for data near the end of the offset bins',
    'the offset bins do not reach the largest craters', '''
def main():
    cc = cst.Cratercount()
    for d in ([1., 1.9], [1., 1.45], [1.2, 3.7], [1.3, 2.6], [1.1, 1.8]):
        b = cc.generate_bins('root-2', np.array(d), offset=.5)
        assert b[0] <= min(d) and b[-1] > max(d), (d, b)
''')

bug('c15-shortest', 'C15', [('cli.py', "    res.sort(key=lambda x: len(x[1]))\n", "    res.sort(key=lambda x: x[0])\n")],
    'an abbreviation that matches several names, the shortest not being the first',
    'the first in the list is taken although another name is matched exactly', '''
def main():
    names = [n for _, _, n in cst.PALETTE]
    for l in (names, [e[1] for e in cst.MARKERS], cst.PRESENTATIONS, cst.Cratercount.BINNINGS, cst.OPLOT_TYPES, cst.CRATERPLOT_KEYS, ['grey blue', 'blue']):
        for i, n in enumerate(l):
            assert cli.decode_abbreviation(l, n, allow_ambiguous=True) == i, n
''')

bug('c19-sequence-hidden', 'C19', [('Craterplot.py', "            seq=[e for e in cps.craterplot if e.type != 'data' and not e.hide]\n", "            seq=[e for e in cps.craterplot if e.type != 'data']\n")],
    'a sequence plot with a hidden evaluation',
    'the hidden evaluation takes up a place, so the others are not where they belong', '''
def main():
    import matplotlib.figure as mf
    for n in 'abc':
        diam(n + '.diam', [1., 1.5, 2.3, 3.])
    fs = []
    mf.Figure.savefig = lambda self, *a, **k: fs.append(self)
    def rows(argv):
        fs.clear()
        with quiet():
            cli.main(argv)
        return sorted(t.get_position()[1] for a in fs[-1].axes for t in a.texts if t.get_text() in 'ac' and t.get_text())
    base = ['-f', 'svg', '-o', 'x', '-pr', 'seq']
    p = [['-p', 'source=%s.diam,name=%s,range=[1,4]%s' % (n, n, ',hide=1' if n == 'b' else ',hide=0')] for n in 'abc']
    assert np.allclose(rows(base + sum(p, [])), rows(base + p[0] + p[2]))
''')

bug('c19-offset-scale', 'C19', [('Craterplot.py', "np.array(self.offset_age)/(cps.decades[0]*20) #(cps.decades[0]*10).", "np.array(self.offset_age)/(cps.decades[1]*20) #(cps.decades[0]*10).")],
    'an age label moved with offset_age on a plot with different numbers of decades on its axes',
    'the label moves by a different distance', '''
def main():
    import matplotlib.figure as mf
    diam('a.diam', [1., 1.5, 2.3, 3.])
    fs = []
    mf.Figure.savefig = lambda self, *a, **k: fs.append(self)
    def x(offset):
        fs.clear()
        with quiet():
            cli.main(['-f', 'svg', '-o', 'x', '-pr', 'diff', '-xrange', '-2', '2', '-yrange', '-6', '2', '-p', 'source=a.diam,type=poisson,range=[1,4],offset_age=[%d,0]' % offset])
        return next(t.get_position()[0] for t in fs[-1].axes[0].texts if t.get_transform() == fs[-1].axes[0].transAxes and '^' in t.get_text())
    assert abs((x(8) - x(0)) - 8 / 80) < 1e-6, x(8) - x(0)
''')

bug('c06-hartmann-factor', 'C06', [('Cratercount.py', "            y=self.binned['n'][q]/self.binned['bin_width'][q]/self.area*d*(np.sqrt(2.)-1.)\n", "            y=self.binned['n'][q]/self.binned['bin_width'][q]/self.area*self.binned['d_min'][q]*(2.**.25)*(np.sqrt(2.)-1.)\n")],
    'a Hartmann presentation of data binned in another style than root-2',
    'the root-2 equivalent density is scaled with the bin width of root-2 bins', '''
def main():
    diam('a.diam', list(np.linspace(1.01, 8.9, 60)))
    cc = cst.Cratercount('a.diam')
    for binning in ('pseudo-log', '10/decade', 'x2', 'root-2'):
        p = cc.getplotdata('Hartmann', binning)
        b = cc.binned
        q = b['n'] > 0
        e = b['n'][q] / b['bin_width'][q] / cc.area * b['d_mean'][q] * (2 ** .5 - 1)
        assert np.allclose(p['y'], e), (binning, p['y'] / e)
''')

bug('c12-few-samples', 'C12', [('Craterpdf.py', "                ns=500 #samples of PF for integration\n", "                ns=20 #samples of PF for integration\n")],
    'a buffered evaluation over a range of several decades with a steep production function',
    'the integral over the range is inaccurate', '''
def main():
    from scipy.integrate import quad
    pf, cf = system()
    cc = cst.Cratercount()
    cc.area, cc.perimeter = 10., 30.
    r = [.011, 200.]
    p = cst.Craterpdf(pf, cf, cc, r, k=5, bcc=True)
    i = np.argmin(np.abs(p.ts - 1.))
    f = lambda x: np.exp(x) * pf.F(np.exp(x), cf.a0(p.ts[i])) * (cc.area + cc.perimeter * np.exp(x) / 2 + np.pi * np.exp(2 * x) / 4)
    e = sum(quad(f, a, b)[0] for a, b in zip(np.linspace(np.log(r[0]), np.log(r[1]), 41), np.linspace(np.log(r[0]), np.log(r[1]), 41)[1:]))
    assert abs(p.lam[i] / e - 1) < 5e-3, p.lam[i] / e
''')

bug('c21-two-areas', 'C21', [('Spatialcount.py', "                area_intersection = sph.area(sph.intersection(c, p), radius=rc)\n", "                area_intersection = max(sph.area(sph.intersection(c, q), radius=rc) for q in multipolygon)\n")],
    'a crater that overlaps two separate parts of the area',
    'its fraction is that of one part only', '''
def main():
    scc('a.scc', [('ext', box(0., 5., 0., 5.)), ('ext', box(5.2, 10., 0., 5.))], [(40., 1., 5.1, 2.5), (10., 1., 2., 2.)], area=1.)
    with quiet():
        cli.main(['--convert', 'shp', 'a.scc', '-o', 'b'])
        s = cst.Spatialcount('b_CRATER.shp')
    g = dict(zip([round(d) for d in s.diam], s.fraction))
    assert g[40] > .6, g
''')

bug('c20-isochron-equilibrium', 'C20', [('Productionfn.py', "            q= gm.where(iso['y'] < e['y'][j] * .8)\n", "            q= gm.where((iso['y'] < e['y'][j] * .8) & (iso['d'] >= e['d'][0]))\n")],
    'an isochron that extends below the smallest diameter of the equilibrium function',
    'the isochron is not drawn below the range of the equilibrium function although it is less dense', '''
def main():
    pf, cf = system()
    ef = cst.Productionfn('equilibrium={\\n name="E"\\n range=[.1,10]\\n coefficients=[-1.1,-1.83]\\n}\\n', 'E', equilibrium=True)
    iso = pf.getisochron('cumulative', cf.a0(1e-4), ef)
    assert iso['d'][0] < .05, iso['d'][0]
''')

