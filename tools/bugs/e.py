bug('c01-old-perimeter', 'C01', [('Cratercount.py', "            self.perimeter = float(s['Perimeter'].split()[0])\n", "            self.perimeter = float(re.findall(r'\\d+', s['Perimeter'])[0])\n")],
    'an .scc file that states its perimeter under the older key, with decimals',
    'the decimals of the perimeter are lost', '''
def main():
    scc('a.scc', [('ext', box(0., 5., 0., 5.))], [(40., 1., 2.5, 2.5)], area=100.)
    s = open('a.scc').read().replace('Total_perimeter = 1.0 <km>', 'Perimeter = 12.75 <km>')
    open('a.scc', 'w').write(s)
    assert cst.Cratercount('a.scc').perimeter == 12.75
''')

bug('c04-assumed-slope', 'C04', [('Cratercount.py', "                k=-3. #if exact slope unknown, taking -3 (cumulative) is much better than nothing\n", "                k=-3.*np.ones_like(d); k[-1]=-2. #if exact slope unknown, taking -3 (cumulative) is much better than nothing\n")],
    'differential densities asked for without a production function',
    'the last bin is corrected with another slope', '''
def main():
    diam('a.diam', list(np.linspace(1.01, 8.9, 60)))
    cc = cst.Cratercount('a.diam')
    p = cc.getplotdata('differential', 'x2')
    b = cc.binned
    q = b['n'] > 0
    e = b['n'][q] / b['bin_width'][q] / cc.area / cst.bin_bias_correction(2., -3.)
    assert np.allclose(p['y'], e)
''')

bug('c06-small-fraction', 'C06', [('Cratercount.py', "            if b['n'][i]>0:\n                s=(", "            if b['n'][i]>1e-3:\n                s=(")],
    'a bin whose craters together have a very small fraction',
    'the row of the bin is not written', '''
def main():
    diam('a.diam', [1.02, 1.55, 2.3, 4.2], [1., .9, .0004, 1.])
    cst.Cratercount('a.diam').WriteStatFile('a.stat')
    n = [l for l in open('a.stat') if l.strip() and l[0] != '#']
    assert len(n) == 4, n
''')

bug('c07-tolerance', 'C07', [('Cratercount.py', "                if abs(ncum_adj0-ncum_adj) < .0001*abs(p0['y'][n-1]) or count > 20:\n", "                if abs(ncum_adj0-ncum_adj) < .05*abs(p0['y'][n-1]) or count > 20:\n")],
    'a range for which the correction converges slowly',
    'the iteration stops before the isochron passes through the last corrected point', '''
def main():
    diam('a.diam', list(1.01 * 1.03 ** np.arange(70)) + [1.05] * 40)
    pf, cf = system()
    cc = cst.Cratercount('a.diam')
    for r in ([1., 2.], [1., 3.], [1., 4.]):
        p = cc.getplotdata('cumulative', 'pseudo-log', range=r, resurfacing=1, pf=pf)
        a0 = pf.fit(p)[0]
        assert abs(pf.C(p['d'][-1], a0) / p['y'][-1] - 1) < 2e-3, pf.C(p['d'][-1], a0) / p['y'][-1]
''')

bug('c07-alias', 'C07', [('Cratercount.py', "        p=p0.copy()\n        n=len(p['d'])\n", "        p=p0\n        n=len(p['d'])\n")],
    'any correction that takes more than one iteration',
    'the adjustment accumulates instead of converging', '''
def main():
    diam('a.diam', list(1.01 * 1.03 ** np.arange(70)))
    pf, cf = system()
    cc = cst.Cratercount('a.diam')
    p = cc.getplotdata('cumulative', 'pseudo-log', range=[1., 2.], resurfacing=1, pf=pf)
    assert abs(pf.C(p['d'][-1], pf.fit(p)[0]) / p['y'][-1] - 1) < 2e-3
''')

bug('c08-zero-level', 'C08', [('Productionfn.py', "        if a0 is None:\n            a0 = self.a[0] if hasattr(self,'a') else 0.\n", "        if np.all(a0 is None or a0==0):\n            a0 = self.a[0] if hasattr(self,'a') else 0.\n")],
    'an explicit level of exactly zero',
    'the default level is used instead', '''
def main():
    pf, cf = system()
    assert abs(pf.evaluate('cumulative', 1., 0.) - 1) < 1e-9
''')

bug('c08-clip-upper', 'C08', [('Productionfn.py', "        range=np.clip(range,self.range[0],self.range[1])\n", "        range=np.clip(range,self.range[0],max(self.range[1],1.))\n")],
    'a production function valid only below 1 km and a curve asked for beyond',
    'the curve extends beyond the valid range', '''
def main():
    pf = cst.Productionfn('production={\\n name="A"\\n range=[.01,.3]\\n coefficients=[-3.,-3.,.1]\\n}\\n', 'A')
    assert pf.getplotdata('cumulative', -3., range=[.02, 5.])['d'][-1] < .301
''')

bug('c13-buffered-omitted', 'C13', [('Craterplotset.py', "        cpl = [e for e in self.craterplot if e.type in ['poisson','b-poisson'] and not e.hide]\n", "        cpl = [e for e in self.craterplot if e.type=='poisson' and not e.hide]\n")],
    'a sequence table with buffered evaluations',
    'the buffered evaluations are not in the table', '''
def main():
    for n, k in zip('abc', (3, 6, 9)):
        scc(n + '.scc', [('ext', box(0., 1., 0., 1.))], [(1. + i / 10, 1., .1 * i, .5) for i in range(k)], area=900., perimeter=120.)
    with quiet():
        cli.main(['-f', 'csv', '-pr', 'seq', '-st', '-o', 'x', '-p', 'source=a.scc,range=[1,3]', '-p', 'source=b.scc,type=b-poisson,range=[1,3]', '-p', 'source=c.scc,range=[1,3]'])
    t = open('x_sequence.csv').read().splitlines()
    assert t[1] == ',a,b,c', t[1]
''')

bug('c14-mathml-swap', 'C14', [('gm/string/scientific_notation.py', "            st = '<msubsup><mtext>'+st+'</mtext><mtext>&#x2212;'+e2s+'</mtext><mtext>+'+e1s+'</mtext></msubsup>'\n", "            st = '<msubsup><mtext>'+st+'</mtext><mtext>&#x2212;'+e1s+'</mtext><mtext>+'+e2s+'</mtext></msubsup>'\n")],
    'a density with unequal errors in MathML',
    'upper and lower errors are exchanged in MathML', '''
def main():
    s = gm.scientific_notation(3.14e-9, 3.64e-9, 2.94e-9, MathML=True)
    assert s.index('>&#x2212;0.20<') < s.index('>+0.50<'), s
''')

bug('c15-persist-errorbars', 'C15', [('constants.py', "'isochron','error_bars','colour','binning')", "'isochron','colour','binning')")],
    'an overplot after one which switched the error bars off',
    'the setting does not persist', '''
def main():
    diam('a.diam', [1., 1.5, 2.3, 3.])
    d = __import__('copy').deepcopy(cst.DEFAULTS)
    args = cli.get_parser().parse_args(['-p', 'source=a.diam,error_bars=0', '-p', 'type=poisson'])
    c = cli.construct_cps_dict(args, d['set'], F)
    assert str(cli.construct_plot_dicts(args, d['plot'], c)[1]['error_bars']) == '0'
''')

bug('c16-indented-comment', 'C16', [('cli.py', "if e.strip() and not e.strip().startswith('#')]", "if e.strip() and not e.startswith('#')]")],
    'an indented comment in a command file',
    'the comment is read as arguments', '''
def main():
    diam('a.diam', [1., 1.5, 2.3, 3.])
    open('p.cs', 'w').write("-f csv\\n  # this isn\\n\\t# that\\n-p source=a.diam,type=poisson,range=[1,4]\\n")
    try:
        with quiet(), contextlib.redirect_stderr(io.StringIO()):
            cli.main(['-i', 'p.cs'])
    except SystemExit:
        pass
    assert os.path.exists('p.csv')
''')

bug('c18-data-only', 'C18', [('Craterplotset.py', "                r = cp.get_data_range(self)\n", "                r = cp.get_data_range(self) if cp.type=='data' or not ranges else ranges[0]\n")],
    'an age evaluation whose points lie beyond those of the data overplots',
    'its points lie outside the axes', '''
def main():
    diam('a.diam', [1., 1.5, 2.3, 3.])
    diam('b.diam', [.0101, .02, .02, 900.], area=5e6)
    d = __import__('copy').deepcopy(cst.DEFAULTS)
    args = cli.get_parser().parse_args(['-pr', 'cml', '-p', 'source=a.diam', '-p', 'source=b.diam,type=poisson'])
    c = cli.construct_cps_dict(args, d['set'], F)
    cps = cst.Craterplotset(c)
    cps.craterplot = [cst.Craterplot(e) for e in cli.construct_plot_dicts(args, d['plot'], c)]
    cps.autoscale()
    for cp in cps.craterplot:
        r = np.log10(cp.get_data_range(cps))
        assert cps.xrange[0] <= r[0] and r[1] <= cps.xrange[1] and cps.yrange[0] <= r[2] and r[3] <= cps.yrange[1]
''')

bug('c22-diam-digits', 'C22', [('Spatialcount.py', "        crater_table = [f\"{d:<12.7g}\\t", "        crater_table = [f\"{d:<12.3f}\\t")],
    'craters of a few metres in shapefiles converted to .scc',
    'diameters are written to the metre only', '''
def main():
    scc('a.scc', [('ext', box(0., .01, 0., .01))], [(.0033, 1., .005, .005), (.0071, 1., .002, .002)], area=1.)
    with quiet():
        cli.main(['--convert', 'shp', 'a.scc', '-o', 'b'])
        cli.main(['--convert', 'scc', 'b_CRATER.shp', '-o', 'c'])
    d = cst.Cratercount('c.scc').diam
    assert np.allclose(d, [.0033, .0071], rtol=2e-3), d
''')

bug('c23-duplicate', 'C23', [('miscellaneous.py', "    fs=gm.quoted_split(args.merge)\n", "    fs=list(dict.fromkeys(gm.quoted_split(args.merge)))\n")],
    'the same file given more than once',
    'it is merged only once', '''
def main():
    diam('a.diam', [1., 2.]); diam('b.diam', [3.])
    with quiet():
        cli.main(['-m', 'a.diam b.diam a.diam', '-o', 'x'])
    c = cst.Cratercount('x.diam')
    assert sorted(c.diam) == [1., 1., 2., 2., 3.] and c.area == 3000., (c.diam, c.area)
''')

bug('c24-cell-neighbour', 'C24', [('Randomnessanalysis.py', "            distances += [d1]\n", "            distances += [d0]\n")],
    'points near the edge of a grid cell',
    'closer neighbours across the cell boundary are not considered for the distance', '''
def main():
    r = np.random.RandomState(3)
    scc('a.scc', [('ext', box(0., 60., -30., 30.))], [(10., 1., 59 * a, 58 * b - 29) for a, b in r.rand(40, 2).tolist()])
    with quiet():
        ra = cst.Randomnessanalysis('a.scc', out='x')
        ra.establish_hpx(60)
        pts, ids, hpd = ra.get_bin_craters(next(f'{np.log2(e):.3g}' for e, n in zip(ra.cc.binned['d_min'], ra.cc.binned['n_event']) if n))
        M = sys.modules['craterstats.Randomnessanalysis']
        m, _ = M.kth_nearest_neighbour_pp(ra.self_pp(60, 'm2cnd'), pts, ids, hpd, k=2)
    xyz = np.array([ra.llr2xyz(x, y, 1.) for x, y in zip(ra.lon, ra.lat)])
    d = np.sort(np.arccos(np.clip(xyz @ xyz.T, -1, 1)), axis=1)[:, 2] * ra.planetary_radius
    assert abs(m / d.mean() - 1) < 1e-6, m / d.mean()
''')

bug('c24-percentile', 'C24', [('Randomnessanalysis.py', "                percentile = np.searchsorted(np.sort(m), m0) / len(m) * 100\n", "                percentile = np.searchsorted(m, m0) / len(m) * 100\n")],
    'trials whose results are not in ascending order',
    'the percentile is wrong', '''
def main():
    scc('a.scc', [('ext', box(0., 30., 0., 30.))], [(20. + i / 10, 1., 3. * i + 1, (7. * i) % 29 + .5) for i in range(8)])
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        ra = cst.Randomnessanalysis('a.scc', out='x')
        ra.run_montecarlo(40, 'm2cnd')
        ra.calculate_stats()
    for b, s in ra.montecarlo['m2cnd']['stats'].items():
        assert abs(s.percentile - 100 * np.mean(np.array(ra.montecarlo['m2cnd']['trials'][b]) < s.m0)) < 1e-9
''')

bug('c25-location-order', 'C25', [('Randomnessanalysis.py', "        possible_locations = (self.ra_file, gm.filename(self.filename, 'pn1','_ra.txt'))\n", "        possible_locations = (gm.filename(self.filename, 'pn1','_ra.txt'), self.ra_file)\n")],
    'results written elsewhere by -o while older ones lie beside the source',
    'the older results are loaded instead of those written last', '''
def main():
    os.mkdir('s'); os.mkdir('o')
    scc('s/a.scc', [('ext', box(0., 30., 0., 30.))], [(20. + i / 10, 1., 3. * i + 1, (7. * i) % 29 + .5) for i in range(8)])
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        for out, n in (('s/a', 10), ('o/a', 20)):
            ra = cst.Randomnessanalysis('s/a.scc', out=out)
            ra.run_montecarlo(n, 'm2cnd'); ra.calculate_stats(); ra.write()
        ra = cst.Randomnessanalysis('s/a.scc', out='o/a')
    assert ra.montecarlo['m2cnd']['n_trials'] == 20
''')

bug('c27-range-alias', 'C27', [('Cratercount.py', "            r1=range.copy()\n", "            r1=range\n")],
    'an unconstrained range used for more than one evaluation',
    "the caller's range is replaced by the extent of the first binning", '''
def main():
    diam('a.diam', [1.02, 1.55, 2.3, 4.2])
    r = [0., np.inf]
    cst.Cratercount('a.diam').getplotdata('cumulative', 'x2', range=r)
    assert r == [0., np.inf], r
''')

bug('c28-gaussian-count', 'C28', [('Craterplotset.py', "                k = np.random.poisson(lam) if lam < 1e5 else int(lam)\n", "                k = np.random.poisson(lam) if lam < 300 else int(lam)\n")],
    'grid cells with an expected number between 300 and 1e5',
    'the count is the mean itself instead of a draw', '''
def main():
    args = cli.get_parser().parse_args(['-pr', 'uncert', '-ns', '12', '-d_min', '1', '-yrange', '4', '6'])
    c = cli.construct_cps_dict(args, __import__('copy').deepcopy(cst.DEFAULTS)['set'], F)
    cps = cst.Craterplotset(c)
    cps.calculate_time_axis_params()
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        r = cps.compute_age_area()
    q = (r['lm'] > 1000) & (r['lm'] < 9e4)
    assert q.sum() > 5 and np.any(np.abs(r['kk'][q] - r['lm'][q]) > 1), q.sum()
''')

bug('c21-small-overlap', 'C21', [('Spatialcount.py', "for d,f,ln,lt in zip(diam,frac,lon,lat) if f > 0]\n", "for d,f,ln,lt in zip(diam,frac,lon,lat) if f > .05]\n")],
    'a crater which only just reaches into the area',
    'it is dropped as if outside', '''
def main():
    scc('a.scc', [('ext', box(0., 5., 0., 5.))], [(40., 1., -.6, 2.5), (10., 1., 2., 2.)], area=1.)
    with quiet():
        cli.main(['--convert', 'shp', 'a.scc', '-o', 'b'])
        s = cst.Spatialcount('b_CRATER.shp')
    assert len(s.diam) == 2, s.fraction
''')

bug('c19-legend-range-type', 'C19', [('Craterplot.py', "                if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:\n", "                if not self.cratercount.prebinned and self.type != 'c-fit':\n")],
    'a differential fit with a range not on bin boundaries and snap=0',
    'the legend states the range given instead of the bins used', '''
def main():
    import matplotlib.figure as mf
    diam('a.diam', [1.02, 1.2, 1.55, 2.3, 2.6, 3.1, 4.2, 4.6])
    fs = []
    mf.Figure.savefig = lambda self, *a, **k: fs.append(self)
    with quiet():
        cli.main(['-f', 'svg', '-o', 'x', '-legend', 'cr', '-p', 'source=a.diam,type=d-fit,range=[1.12,4.4],snap=0,binning=10/decade'])
    t = ' '.join(e.get_text() for e in fs[-1].axes[0].get_legend().get_texts())
    assert '1.0\\u20135.0 km' in t, t
''')

bug('c29-formats-measure', 'C29', [('cli.py', "                        savefig(f'-{measure}')\n", "                        savefig(f'-{sorted(cps.measure)[0]}')\n")],
    'panels requested for both measures',
    'the panels of one measure overwrite those of the other', '''
def main():
    scc('a.scc', [('ext', box(0., 30., 0., 30.))], [(20. + i / 10, 1., 3. * i + 1, (7. * i) % 29 + .5) for i in range(8)])
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        cli.main(['-ra', 'a.scc', '-trials', '5', '-measure', 'm2cnd,sdaa', '-f', 'svg', '-o', 'x'])
    n = sorted(f for f in os.listdir('.') if f.endswith('.svg'))
    assert len(n) == 2, n
''')
