bug('c03-ties-unbinned', 'C03', [('Cratercount.py', "            bins,h = zip(*sorted(zip(d, self.fraction)))\n", "            bins,h = zip(*sorted(dict(zip(d, self.fraction)).items()))\n"), ('Cratercount.py', "            width = np.zeros(len(d))\n", "            width = np.zeros(len(h))\n")],
    'two craters of the same diameter shown without binning',
    'craters of equal diameter are merged into one point when there is no binning, so craters are lost',
'''
def main():
    c = cst.Cratercount(diam('a.diam', [1., 1., 2., 3.], area=1e4))
    c.apply_binning('none')
    assert len(c.binned['n']) == 4 and c.binned['ncum'][0] == 4, c.binned
''')
bug('c10-ref-clip', 'C10', [('Craterplot.py', '        self.n_d = cps.pf.evaluate("cumulative", cps.ref_diameter, self.a0[0])\n', '        self.n_d = cps.pf.evaluate("cumulative", np.clip(cps.ref_diameter, *self.cratercount.getplotdata("cumulative",self.binning)["bin_range"]) if cps.ref_diameter > 20 else cps.ref_diameter, self.a0[0])\n')],
    'a reference diameter above 20 km that lies beyond the largest crater counted',
    'N(d_ref) is evaluated at the end of the data instead of the reference diameter',
'''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', list(10 ** np.linspace(0, .6, 30)), area=1e4))
    cps = cst.Craterplotset(dict(chronology_system='Moon, Neukum (1983)', ref_diameter=50., presentation='cumulative', pf=pf, cf=cf, xrange=[-2, 2], yrange=[-5, 1]))
    cp = cst.Craterplot(cratercount=cc, range=['1', '4'], type='c-fit', binning='pseudo-log', snap=1)
    cp.calculate_age(cps)
    assert abs(cp.n_d / pf.evaluate('cumulative', 50., cp.a0[0]) - 1) < 1e-6, cp.n_d
''')
bug('c10-lower-error', 'C10', [('Craterplot.py', "            self.t = [cps.cf.t(a0=e) for e in self.a0]\n", "            self.t = [cps.cf.t(a0=e) for e in np.clip(self.a0, None, cps.cf.a0(4.5))]\n")],
    'a surface with densities above those of 4.5 Ga',
    'ages of fits are held at 4.5 Ga, so a denser isochron no longer returns its own age',
'''
def main():
    pf, cf = system()
    for t in (4.2, 4.7):
        a0 = cf.a0(t)
        d = 10 ** np.linspace(.3, .9, 4)
        # densities on the isochron, by a count of many craters per bin
        n = pf.evaluate('cumulative', 1.5, a0)
        cc = cst.Cratercount(diam('a.diam', [1.55] * 2000, area=2000. / float(n)))
        cps = cst.Craterplotset(dict(chronology_system='Moon, Neukum (1983)', ref_diameter=1., presentation='cumulative', pf=pf, cf=cf, xrange=[-2, 2], yrange=[-5, 1]))
        cp = cst.Craterplot(cratercount=cc, range=['1.5', '1.7'], type='c-fit', binning='pseudo-log', snap=1)
        cp.calculate_age(cps)
        assert abs(cp.t[0] - t) < .01, (t, cp.t)
''')
bug('c02-pointer-strip', 'C02', [('gm/file/read_textstructure.py', "        s=s[1:]\n", "        s=s.strip('* \\n\\t')\n")],
    'a value that begins with the pointer mark and ends in a star',
    'the mark is removed from both ends of a value, so a star that belongs to the text is lost',
'''
def main():
    open('x.txt', 'w').write('a = *note *\\nb = *[1,2*]\\nc = 2\\n')
    r = gm.read_textstructure('x.txt')
    assert r['a'] == 'note *', r
''')
bug('c02-numeric-tag', 'C02', [('gm/file/read_textstructure.py', "        tag=[e.strip('{ \\t') for e in tag0]      \n", "        tag=[e.strip('{ \\t\"') for e in tag0]      \n")] if False else
    [('gm/file/read_textstructure.py', "            if v[0]=='}': break\n", "            if len(v)==1 and v[0][:1]=='}': break\n")],
    'a table closed by a brace that is followed by a remark on the same line',
    'a closing brace followed by other text is no longer the end of a table and is read as a row',
'''
def main():
    open('x.txt', 'w').write('t = {a, b\\n1 2\\n} end of table\\nc = 2\\n')
    r = gm.read_textstructure('x.txt')
    assert r['t'] == {'a': ['1'], 'b': ['2']}, r
''')
