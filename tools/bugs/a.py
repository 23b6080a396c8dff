bug('c01-scc-fraction-order', 'C01', [('Cratercount.py', "        self.fraction=[frac[e] for e in q]\n        self.prebinned=0\n\n    def ReadSHPfile", "        self.fraction=[f for f,_ in sorted(zip(frac,diam),key=lambda x:x[1],reverse=frac[0]<1)]\n        self.prebinned=0\n\n    def ReadSHPfile")],
    'a .scc file whose first listed crater is only partly inside the area (fraction below 1)',
    'the fractions are put in reverse order relative to the diameters, so they are attached to the wrong craters',
'''
def main():
    rows = [(.5, .25), (2., 1.), (1., .75), (.3, 1.)]
    with open('a.scc', 'w') as f:
        f.write('Total_area = 100 <km2>\\ncrater = {diam, fraction, lon, lat\\n' + ''.join('%g %g 1 1\\n' % r for r in rows) + '}\\n')
    cc = cst.Cratercount('a.scc')
    assert sorted(zip(cc.diam, cc.fraction)) == sorted(rows), list(zip(cc.diam, cc.fraction))
''')

bug('c01-stat-event-column', 'C01', [('Cratercount.py', "'n_event': n if nc == 7 else", "'n_event': n if nc < 11 or s[0].split()[1] == s[0].split()[10] else")],
    'an 11-column .stat file with fractional craters whose first row has no fraction',
    'the event counts of all rows are taken from the fractional counts, so errors and crater numbers are wrong',
'''
def main():
    rows = [(1., 3., 3.), (1.1, 1.4, 2.), (1.2, .6, 1.)]
    out = []
    for i, (d, n, k) in enumerate(rows):
        c = sum(r[1] for r in rows[i:])
        out.append('%g %g %g %g %g %g %g %g %g %g %g' % (d, n, n / 10, .1, c, c / 10, .1, d * 1.05, n, .1, k))
    open('a.stat', 'w').write('\\n'.join(out) + '\\n')
    cc = cst.Cratercount('a.stat')
    assert list(cc.binned['n_event']) == [3, 2, 1], cc.binned['n_event']
''')

bug('c02-table-short-row', 'C02', [('gm/file/read_textstructure.py', "                r[t].append(v.pop(0) if len(v)>0 else '')", "                if v or not r[t]: r[t].append(v.pop(0) if v else '')")],
    'a table with a row that leaves out trailing values, followed by further rows',
    'the missing cell is not held open, so the values of later rows move up a row in that column',
'''
def main():
    r = gm.read_textstructure('t = {a, b, c\\n1 2 3\\n4 5\\n6 7 8\\n}\\nz = 1', from_string=True)
    assert r['t'] == {'a': ['1', '4', '6'], 'b': ['2', '5', '7'], 'c': ['3', '', '8']}, r
''')

bug('c02-repeat-order', 'C02', [('gm/file/read_textstructure.py', "            sr[s1_tag].insert(0,s1[s1_tag]) ", "            sr[s1_tag].insert(len(sr[s1_tag])//4,s1[s1_tag])")],
    'the same keyword defined five or more times',
    'the repeated definitions are no longer in file order',
'''
def main():
    r = gm.read_textstructure(''.join('k = v%d\\n' % i for i in range(9)), from_string=True)
    assert r['k'] == ['v%d' % i for i in range(9)], r
''')

bug('c03-bin-offset', 'C03', [('Cratercount.py', "            b0 = np.arange(br[0],br[1]+1)\n", "            b0 = np.linspace(br[0],br[1],max(int(br[1]-br[0]),1)+(1 if br[1]-br[0]<64 else 0))\n")],
    'a count spanning more than 64 bins in a logarithmic binning (e.g. 4th root-2 over five decades)',
    'bin boundaries no longer lie on the lattice of the binning style',
'''
def main():
    cc = cst.Cratercount(diam('a.diam', [.001, .01, .1, 1., 30., 90.]))
    cc.apply_binning('4th root-2')
    e = np.log2(cc.binned['d_min']) * 4
    assert np.allclose(e, np.round(e), atol=1e-6), e
    assert sum(cc.binned['n']) == 6
''')

bug('c04-error-events', 'C04', [('Cratercount.py', "        elif presentation=='R-plot':\n            d=self.binned['d_mean'][q]\n            y=d**3*self.binned['n'][q]/self.binned['bin_width'][q]/self.area\n            err=y/np.sqrt(self.binned['n_event'][q])", "        elif presentation=='R-plot':\n            d=self.binned['d_mean'][q]\n            y=d**3*self.binned['n'][q]/self.binned['bin_width'][q]/self.area\n            err=y/np.sqrt(self.binned['n'][q])")],
    'an R-plot of a count with fractional (boundary) craters',
    'error bars are from the fractional count instead of the number of craters observed',
'''
def main():
    cc = cst.Cratercount(diam('a.diam', [1.02, 1.03, 1.04, 2.1], [1., .25, .25, .5]))
    p = cc.getplotdata('R-plot', 'pseudo-log')
    assert np.allclose(p['err'] / p['y'], [1 / np.sqrt(3), 1.]), p['err'] / p['y']
''')

bug('c04-beta-width', 'C04', [('Cratercount.py', "            beta=(self.binned['d_mean'][q]/self.binned['d_min'][q])**2  #bin ratio", "            beta=np.append(self.binned['d_min'][q][1:]/self.binned['d_min'][q][:-1],(self.binned['d_mean'][q][-1]/self.binned['d_min'][q][-1])**2)  #bin ratio\n            beta=np.minimum(beta,2.) #limit to widest bin")],
    'a differential presentation of a count with empty bins between occupied ones',
    'the binning-bias correction uses the ratio to the next occupied bin instead of the ratio of the bin itself',
'''
def main():
    cc = cst.Cratercount(diam('a.diam', [1.05, 1.55, 3.2, 9.5]))
    p = cc.getplotdata('differential', 'pseudo-log')
    b = cc.binned
    q = np.where(b['n'] > 0)
    beta = (b['d_max'] / b['d_min'])[q]
    y = b['n'][q] / b['bin_width'][q] / 1000. / cst.bin_bias_correction(beta, -3.)
    assert np.allclose(p['y'], y, rtol=1e-6), (p['y'], y)
''')

bug('c05-nth-from-end', 'C05', [('Cratercount.py', "                    v=np.clip(v,-len(q[0]),len(q[0]))\n                    if v>0:\n                        v-=1\n", "                    v=np.clip(v,-len(self.binned['n']),len(self.binned['n']))\n                    if v>0:\n                        v-=1\n                    v=np.clip(v,-len(q[0])+1,len(q[0])-1)\n")],
    'range given as b-N where N is exactly the number of occupied bins (or more)',
    'the second occupied bin is selected in place of the first',
'''
def main():
    cc = cst.Cratercount(diam('a.diam', [1.05, 1.55, 3.2, 9.5]))
    r = cc.decode_range(['b-4', 'b4'], 'pseudo-log', 1)
    assert abs(r[0] - 1.) < 1e-9 and abs(r[1] - 10.) < 1e-6, r
    r = cc.decode_range(['b-9', 'b2'], 'pseudo-log', 1)
    assert abs(r[0] - 1.) < 1e-9 and abs(r[1] - 1.7) < 1e-6, r
''')

bug('c05-snap-tolerance', 'C05', [('Cratercount.py', "np.searchsorted(self.binned['d_max'],r1[1]*(0.999999))]", "np.searchsorted(self.binned['d_max'],r1[1]*.99)]")],
    'an upper range limit within one percent above a bin boundary',
    'the limit snaps down below the request, so craters requested are excluded',
'''
def main():
    cc = cst.Cratercount(diam('a.diam', [1.05, 1.25, 1.55, 3.2, 9.5]))
    r = cc.decode_range(['1', '1.51'], 'pseudo-log', 1)
    assert abs(r[1] - 1.7) < 1e-9, r
''')

bug('c06-diff-error', 'C06', [('Cratercount.py', "format(b['n'][i]/b['bin_width'][i]/a/np.sqrt(b['n_event'][i]),'>12.3E')+", "format(b['n'][i]/b['bin_width'][i]/a/np.sqrt(max(b['n'][i],1.)),'>12.3E')+")],
    'exporting a count with fractional craters',
    'the error of the differential density is not density divided by the square root of the event count',
'''
def main():
    cc = cst.Cratercount(diam('a.diam', [1.02, 1.03, 1.04], [1., .25, .25]))
    cc.WriteStatFile('a.stat')
    v = [float(e) for e in [l for l in open('a.stat') if not l.startswith('#')][0].split()]
    assert abs(v[9] / v[8] - 1 / np.sqrt(3)) < .01, v
''')

bug('c06-stat-precision', 'C06', [('Cratercount.py', "format(b['d_min'][i],'<7.5g')+", "format(b['d_min'][i],'<7.3g')+")],
    'exporting in a binning with boundaries needing more than three figures, or two adjacent bins equal to three figures',
    'the bin minimum in the table is not that of the bin',
'''
def main():
    cc = cst.Cratercount(diam('a.diam', [1.02, 1.5, 3.04, 5.5]))
    cc.WriteStatFile('a.stat', binning='root-2')
    v = [float(l.split()[0]) for l in open('a.stat') if not l.startswith('#')]
    q = cc.binned['n'] > 0
    assert np.allclose(v, cc.binned['d_min'][q], rtol=1e-4), v
''')

bug('c07-resurf-largest', 'C07', [('Cratercount.py', "                ncum_adj=pf.evaluate(\"cumulative\",p['d'][n-1],a0[0])-p0['y'][n-1]", "                ncum_adj=max(pf.evaluate(\"cumulative\",p['d'][n-1],a0[0])-p0['y'][n-1],ncum_adj0 if count>3 else 0.)")],
    'a correction whose iterations would decrease after the fourth (data denser at the large end of the range)',
    'the correction does not converge to its fixed point',
'''
def main():
    pf, cf = system()
    rng = np.random.default_rng(1)
    worst = 0
    for trial in range(40):
        d = 10 ** rng.uniform(0, .8, int(rng.integers(5, 60)))
        d = np.concatenate((d, 10 ** rng.uniform(.9, 1., int(rng.integers(1, 40)))))
        cc = cst.Cratercount(diam('a.diam', list(d), area=1e6))
        r = cc.decode_range(['1', '10'], 'pseudo-log', 1)
        p = cc.getplotdata('cumulative', 'pseudo-log', range=r, resurfacing=1, pf=pf)
        q = (p['d'] >= r[0] * .999)
        a = pf.fit({'presentation': 'cumulative', 'd': p['d'][q], 'y': p['y'][q], 'err': p['err'][q]})
        worst = max(worst, abs(pf.evaluate('cumulative', p['d'][-1], a[0]) / p['y'][-1] - 1))
    assert worst < 1e-3, worst
''')

bug('c08-slope-end', 'C08', [('Productionfn.py', "        k[-1]=k[-2] #fix slope at end to be continuous", "        k[-1]=k[0] #fix slope at end to be continuous")],
    'the differential or R form of a tabulated production function in its last diameter bin',
    'binning bias is removed with the slope of the smallest bin, so the curve is wrong towards its upper end',
'''
def main():
    pf, cf = system('Mars, Hartmann & Daubar (2016)')
    h = np.array([float(e) for e in pf.definition['H']])
    d = 10 ** pf.d_mean10[-1]
    c10 = pf.hC10
    k = (c10[-2] - c10[-1]) / np.log10(np.sqrt(2)) * 1.
    beta = np.sqrt(2)
    hh = 10 ** c10[-1]
    f = hh / d / (2 ** .25 - 2 ** -.25) / cst.bin_bias_correction(beta, k)
    assert abs(pf.evaluate('differential', d, 0.) / f - 1) < 1e-6, (pf.evaluate('differential', d, 0.), f)
''')

bug('c08-hartmann-level', 'C08', [('Productionfn.py', "        h=c-np.concatenate((c[1:],[0]))", "        h=c-np.concatenate((c[1:],[0 if a0<0 else c[-1]*c[-1]/c[-2]]))")],
    'a tabulated production function evaluated at level 0 or above, at its largest diameters',
    'the last bin loses part of its craters, so Hartmann, R and differential forms no longer scale with the level',
'''
def main():
    pf, cf = system('Mars, Hartmann & Daubar (2016)')
    d = 10 ** pf.d_mean10[-1]
    for m in ('Hartmann', 'R-plot', 'differential'):
        a, b = pf.evaluate(m, d, -2.), pf.evaluate(m, d, .5)
        assert abs(b / a / 10 ** 2.5 - 1) < 1e-9, (m, a, b)
''')

bug('c09-inverse-range', 'C09', [('Chronologyfn.py', "        t=np.interp(n1,self.n1s,self.ts)", "        t=np.interp(n1,self.n1s,self.ts) if np.ndim(n1)==0 or np.max(n1)<self.N1(4.) else np.interp(n1,self.n1s[::20],self.ts[::20])")],
    'converting several densities at once, the highest of which is older than 4 Ga',
    'ages of the other densities are interpolated on a coarse grid',
'''
def main():
    pf, cf = system()
    t = np.array([.013, .0577, 1.234, 3.87, 4.3])
    assert np.allclose(cf.t(n1=cf.N1(t)), t, rtol=2e-4, atol=1e-5), cf.t(n1=cf.N1(t))
''')

bug('c10-single-point-error', 'C10', [('Productionfn.py', "                y,d,err=y[0],d[0],err[0] # must convert to float so that next line works for float or ndarray", "                y,d,err=y[0],round(d[0],3),err[0] # must convert to float so that next line works for float or ndarray")],
    'a fit to a single occupied bin at a diameter of a few metres',
    'the diameter is rounded to the metre before the fit, so the age of a young surface is biased',
'''
def main():
    pf, cf = system()
    a0 = cf.a0(.01)
    d = np.array([.0065])
    y = pf.evaluate('cumulative', d, a0)
    a = pf.fit({'presentation': 'cumulative', 'd': d, 'y': y, 'err': y / 3})
    assert abs(a[0] - a0) < 1e-3, (a, a0)
''')

bug('c11-upper-inclusive', 'C11', [('Craterpdf.py', "d = [e for e in cc.diam if d_range[0] <= e < d_range[1]]", "d = [e for e in cc.diam if d_range[0] <= e <= d_range[1]]")],
    'a crater exactly on the upper limit of the diameter range of a poisson evaluation',
    'the crater is counted although it belongs to the next bin, so the age is too old',
'''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', [1.05, 1.3, 1.5, 2., 2.]))
    assert cst.Craterpdf(pf, cf, cc, [1., 2.]).k == 3
''')

bug('c11-interp-old', 'C11', [('Craterpdf.py', "        return np.interp(cum_fraction,self.cdf,self.ts)", "        return np.interp(np.minimum(cum_fraction,.99),self.cdf,self.ts)")],
    'asking for a percentile above the 99th',
    'percentiles above 99 % are all reported at the 99 % age',
'''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', [1.05, 1.3, 1.5, 2., 2.]))
    p = cst.Craterpdf(pf, cf, cc, [1., 4.])
    for f in (.3, .9, .997):
        assert abs(p.cumulative_fraction(p.t(f)) - f) < 1e-3, f
''')

bug('c12-buffer-term', 'C12', [('Craterpdf.py', "                y=(cc.area+d*cc.perimeter/2.+np.pi*d**2/4.)*F", "                y=(cc.area+d*cc.perimeter/2.+np.pi*d**2/16.)*F")],
    'a buffered evaluation with craters comparable in size with the counting area',
    'the corner term of the buffered area uses half the crater radius',
'''
def main():
    from scipy.integrate import quad
    pf, cf = system()
    with open('a.scc', 'w') as f:
        f.write('Total_area = 2 <km2>\\nTotal_perimeter = 6 <km>\\ncrater = {diam, fraction, lon, lat\\n4 1 1 1\\n5 1 1 1\\n}\\n')
    cc = cst.Cratercount('a.scc')
    p = cst.Craterpdf(pf, cf, cc, [2., 10.], bcc=True)
    a0 = cf.a0(1.)
    I = quad(lambda d: (2 + 6 * d / 2 + np.pi * d * d / 4) * pf.evaluate('differential', d, a0), 2, 10)[0]
    lam = np.interp(1., p.ts, p.lam)
    assert abs(lam / I - 1) < .01, (lam, I)
''')
