bug('c07-two-bins', 'C07', [('Cratercount.py', "        if n > 1:\n", "        if n > 2:\n")],
    'a resurfacing correction over a range with exactly two occupied bins',
    'no correction is applied', '''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', [1.02] * 9 + [1.12] * 7 + [5.] * 30))
    p = cc.getplotdata('cumulative', 'pseudo-log', range=[1., 1.2], resurfacing=1, pf=pf)
    q = cc.getplotdata('cumulative', 'pseudo-log', range=[1., 1.2], pf=pf)
    assert len(q['y']) == 2 and abs(p['y'][0] / q['y'][0] - 1) > .1
''')

bug('c07-showall', 'C07', [('Cratercount.py', "        adj = 0 if resurfacing==0 else self.resurf_adj(pf,range)\n", "        adj = 0 if resurfacing==0 else self.resurf_adj(pf,range if not showall else [range[0],np.inf])\n")],
    'all points shown (resurf_showall) with a correction over a range with an upper limit',
    'the correction is calculated for all craters above the lower limit instead of those in the range', '''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', [1.02] * 90 + [1.12] * 70 + [1.25] * 50 + [5.] * 30))
    a, b = [cc.getplotdata('cumulative', 'pseudo-log', range=[1., 1.3], resurfacing=1, showall=e, pf=pf) for e in (0, 1)]
    assert abs(a['y'][0] / b['y'][0] - 1) < 1e-9
''')

bug('c14-sci-carry', 'C14', [('gm/string/scientific_notation.py', "        exp = int(s[1])\n", "        exp = int(np.floor(np.log10(abs(v))))\n")],
    'a value which rounds up to the next power of ten',
    'the power of ten is one too small, e.g. 9.999e-4 becomes 1.00e-4', '''
def main():
    s = gm.scientific_notation(9.9996e-4)
    assert '-3' in s, s
''')

bug('c17-duplicate-row', 'C17', [('Craterplotset.py', "                s+=[d]\n", "                if not any(all(str(e[k])==str(d[k]) for k in ('name','binning','type','source')) and gm.diameter_range(e['range'])==gm.diameter_range(d['range']) for e in s):\n                    s+=[d]\n")],
    'two evaluations of one count whose diameter ranges agree when rounded for display',
    'the second evaluation is missing from the table', '''
def main():
    diam('a.diam', list(10 ** np.linspace(0, .5, 40)))
    with quiet():
        cli.main(['-p', 'source=a.diam,type=poisson,range=[1.01,3],snap=0', '-p', 'range=[1.04,3],snap=0,type=poisson', '-f', 'csv', '-o', 'x'])
    assert len(open('x.csv').read().strip().splitlines()) == 5
''')

bug('c18-odd-padding', 'C18', [('Craterplotset.py', "            d2b=d0-d2a    # larger addition\n", "            d2b=d0-d2a if big_left or big_bottom else d2a   # larger addition\n")],
    'data covering an odd number of decades more in one direction than in the other and lying low in neither',
    'the axes do not cover the same number of decades', '''
def main():
    pf, cf = system()
    rng = np.random.RandomState(2)
    for i in range(150):
        d = 10 ** rng.uniform(-2 + rng.uniform(), rng.uniform(0, 3), rng.randint(2, 400))
        diam('a.diam', list(d), area=float(10 ** rng.uniform(0, 5)))
        args = cli.get_parser().parse_args(['-p', 'source=a.diam', '-pr', 'cumul'])
        dflt = __import__('copy').deepcopy(cst.DEFAULTS)
        c = cli.construct_cps_dict(args, dflt['set'], F)
        cp = cli.construct_plot_dicts(args, dflt['plot'], c)
        cps = cst.Craterplotset(c)
        for e in cp: e['colour'] = cps.palette[0]
        cps.craterplot = [cst.Craterplot(e) for e in cp]
        cps.autoscale()
        assert abs(gm.mag(cps.xrange) - gm.mag(cps.yrange)) < 1e-9, (cps.xrange, cps.yrange)
''')

bug('c18-tick-label', 'C18', [('miscellaneous.py', "              (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]", "              (1, 2, 4, 8, 16, 32, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]")],
    'root-2 axis style with diameters reaching 31 m',
    'the tick at 31 m is labelled 32', '''
def main():
    v, n, _, _ = cst.Hartmann_bins([-2, 0])
    for a, b in zip(v, n):
        b = b.strip().rstrip('km') or b
        assert a > -.01 or abs(10 ** a * 1000 - float(b)) < .6, (a, b)
''')

bug('c19-bpoisson-range', 'C19', [('Craterplot.py', "                if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:\n                    r=self.range", "                if not self.cratercount.prebinned and self.type == 'poisson':\n                    r=self.range")],
    'the range in the legend of a buffered evaluation with limits that are not bin boundaries',
    'the legend states the range widened to bin boundaries instead of the one used', '''
def main():
    with open('a.diam', 'w') as f:
        f.write('area = 1000\\nperimeter = 130\\ncrater = {diameter\\n' + ''.join('%r\\n' % float(e) for e in 10 ** np.linspace(0, .5, 40)) + '}\\n')
    args = cli.get_parser().parse_args(['-p', 'source=a.diam,type=b-poisson,range=[1.22,2.82],snap=0', '-legend', 'r'])
    dflt = __import__('copy').deepcopy(cst.DEFAULTS)
    c = cli.construct_cps_dict(args, dflt['set'], F)
    cp = cli.construct_plot_dicts(args, dflt['plot'], c)
    cps = cst.Craterplotset(c)
    cp[0]['colour'] = cps.palette[0]
    p = cst.Craterplot(cp[0])
    p.calculate_age(cps)
    assert p.make_legend_label(cps) == [gm.diameter_range([1.22, 2.82])], p.make_legend_label(cps)
''')

bug('c19-errorbar-clip', 'C19', [('Craterplot.py', "yerr=p['err'],fmt='none'", "yerr=np.minimum(p['err'],.999*p['y']),fmt='none'")],
    'a bin with a single crater, whose error is at least as large as its density',
    'its error bar is drawn shorter than the error, above as well as below', '''
def main():
    import matplotlib.figure as mf
    diam('a.diam', [1.02] * 9 + [1.12] * 7 + [5.])
    keep = []
    save = mf.Figure.savefig
    mf.Figure.savefig = lambda self, *a, **k: keep.append(self)
    with quiet():
        cli.main(['-p', 'source=a.diam', '-pr', 'diff', '-o', 'x', '-f', 'svg'])
    ax = next(a for a in keep[0].axes if a.containers)
    seg = ax.containers[0].lines[2][0].get_segments()
    cc = cst.Cratercount('a.diam')
    p = cc.getplotdata('differential', 'pseudo-log', pf=system()[0])
    for s, y, e in zip(seg, p['y'], p['err']):
        assert abs(s[1][1] / (y + e) - 1) < 1e-6, (s, y, e)
''')

bug('c19-sequence-box', 'C19', [('Craterplot.py', "                    cps.ax2[j].fill_between([self.t[1], self.t[2]], [dy + w, dy + w], [dy - w, dy - w],", "                    cps.ax2[j].fill_between([max(self.t[1],2*self.t[0]-self.t[2]), self.t[2]], [dy + w, dy + w], [dy - w, dy - w],")],
    'a fitted age in a sequence plot with a longer lower than upper uncertainty',
    'the box does not reach the lower limit of the age', '''
def main():
    import matplotlib.figure as mf
    diam('a.diam', [1.02] * 9 + [1.12] * 7 + [1.25] * 5, area=30.)
    keep = []
    mf.Figure.savefig = lambda self, *a, **k: keep.append(self)
    with quiet():
        cli.main(['-p', 'source=a.diam,type=d-fit,range=[1,1.3]', '-pr', 'seq', '-o', 'x', '-f', 'svg'])
    pf, cf = system()
    p = cst.Cratercount('a.diam').getplotdata('differential', 'pseudo-log', range=[1., 1.3], pf=pf)
    t = [float(cf.t(a0=e)) for e in pf.fit(p)]
    assert t[0] - t[1] > t[2] - t[0] + .001, t
    v = np.concatenate([q.vertices[:, 0] for a in keep[0].axes for c in a.collections for q in c.get_paths()])
    assert min(abs(v - t[1])) < 1e-6 and min(abs(v - t[2])) < 1e-6, (t, v)
''')

bug('c20-sequence-partial', 'C20', [('Epochs.py', "                cps.ax2[j].fill_between([t0,t1],[0,0],[1,1], color=cps.grey[3-colour[i+1]], edgecolor=None, lw=0)", "                if t1<=max(cps.t_max,3.8): cps.ax2[j].fill_between([t0,t1],[0,0],[1,1], color=cps.grey[3-colour[i+1]], edgecolor=None, lw=0)")],
    'a sequence plot whose oldest age lies within an epoch older than 3.8 Ga',
    'the epoch region which is only partly displayed is not shaded', '''
def main():
    import matplotlib.figure as mf
    diam('a.diam', [1.02] * 9 + [1.12] * 7 + [1.25] * 5, area=30.)
    keep = []
    mf.Figure.savefig = lambda self, *a, **k: keep.append(self)
    with quiet():
        cli.main(['-p', 'source=a.diam,range=[1,1.3]', '-pr', 'seq', '-ep', 'Moon, Wilhelms', '-o', 'x', '-f', 'svg', '-xrange', '0', '3.7'])
    ep = next(e for e in F['epochs'] if e['name'].startswith('Moon, Wilhelms'))
    pf, cf = system()
    e = cst.Epochs(F, ep['name'], pf, cf)
    x = [(c.get_paths()[0].vertices[:, 0].min(), c.get_paths()[0].vertices[:, 0].max()) for a in keep[0].axes for c in a.collections if c.get_paths()]
    for a, b in zip(e.time[1:], e.time[2:]):
        assert any(abs(u - a) < 1e-6 and abs(v - b) < 1e-6 for u, v in x), (a, b)
''')

bug('c21-centre-inside', 'C21', [('Spatialcount.py', "            if sph.covered_by(c, p):\n", "            if sph.covered_by(c, p) or (len(sa)>1 and sph.within(pt, p)):\n")],
    'a shapefile with several area shapes and a crater crossing the boundary with its centre inside',
    'the crater counts fully instead of fractionally', '''
def main():
    scc('a.scc', [('ext', box(0., 5., 0., 5.)), ('ext', box(10., 15., 0., 5.))], [(20., 1., 2., 2.), (40., .8, .3, 2.), (30., 1., 12., 2.)])
    with quiet():
        cst.Spatialcount('a.scc').writeSHPfiles('a.shp')
        s = cst.Spatialcount('a_CRATER.shp')
    f = dict(zip([round(e) for e in s.diam], s.fraction))
    assert .6 < f[40] < .95, f
''')

bug('c21-flat-diameter', 'C21', [('Spatialcount.py', "            diam3 = 2 * rc * math.acos(1 - c_area / (2 * math.pi * rc ** 2))  # spherical diameter from area\n", "            diam3 = 2 * rc * math.acos(1 - c_area / (2 * math.pi * rc ** 2)) if c_area < .01 * rc ** 2 else math.sqrt(4 * c_area / math.pi)  # spherical diameter from area\n")],
    'a crater large compared with the body (angular radius above 3 degrees)',
    'its diameter is that of a flat circle', '''
def main():
    scc('a.scc', [('ext', box(-40., 40., -40., 40.))], [(1500., 1., 0., 0.), (20., 1., 5., 30.)])
    with quiet():
        cst.Spatialcount('a.scc').writeSHPfiles('a.shp')
        s = cst.Spatialcount('a_CRATER.shp')
    import shapefile
    pts = np.radians(shapefile.Reader('a_CRATER.shp').shapes()[-1].points) if False else None
    import spherely as sph
    for shape, d in zip(shapefile.Reader('a_CRATER.shp').shapes(), s.diam):
        a = sph.area(sph.create_polygon(shape.points), radius=1737.4)
        assert abs(d / (2 * 1737.4 * np.arccos(1 - a / (2 * np.pi * 1737.4 ** 2))) - 1) < 1e-4, d
''')

bug('c22-radius-digits', 'C22', [('Spatialcount.py', '              f"a_axis_radius = {self.planetary_radius:0g} <km>",\n', '              f"a_axis_radius = {self.planetary_radius:.4g} <km>",\n')],
    'a body whose radius has more than four digits',
    'the radius is rounded, so area and perimeter differ when read back', '''
def main():
    scc('a.scc', [('ext', box(0., 5., 0., 5.))], [(20., 1., 2., 2.)], radius=6378.4)
    with quiet():
        cst.Spatialcount('a.scc').writeSHPfiles('a.shp')
        s = cst.Spatialcount('a_CRATER.shp')
        s.writeSCCfile('b.scc')
        t = cst.Spatialcount('b.scc')
    assert abs(t.area / s.area - 1) < 1e-6 and t.planetary_radius == s.planetary_radius
''')

bug('c22-projection-cache', 'C22', [('Spatialcount.py', "            origin = (round(x/grid)*grid,round(y/grid)*grid)\n", "            origin = next((o for o in t_dict if isinstance(o[1],int) and o[0]==round(x/grid)*grid and abs(o[1]-y)<4*grid),(round(x/grid)*grid,round(y/grid)*grid))\n")],
    'craters at similar longitudes and latitudes up to 20 degrees apart',
    'the rim of the later crater is drawn with a projection centred at the earlier one and distorted', '''
def main():
    scc('a.scc', [('ext', box(-10., 10., -5., 30.))], [(20., 1., 1., 0.), (100., 1., 1., 18.)])
    with quiet():
        s = cst.Spatialcount('a.scc')
    import pyproj
    g = pyproj.Geod(a=s.planetary_radius * 1e3, f=0)
    for (x, y), lon, lat, d in zip(s.find_rims()[0], s.lon, s.lat, s.diam):
        r = g.inv([lon] * len(x), [lat] * len(x), x, y)[2]
        assert max(abs(r / (d * 500) - 1)) < .003, max(abs(r / (d * 500) - 1))
''')

bug('c23-area-digits', 'C23', [('miscellaneous.py', "           + [f\"area = {a}\"]\n", "           + [f\"area = {a:g}\"]\n")],
    'areas given to more than six digits',
    'the merged area is rounded', '''
def main():
    diam('a.diam', [1., 2.], area=1234567.25)
    diam('b.diam', [1., 2.], area=7654.125)
    with quiet():
        cli.main(['-m', 'a.diam b.diam', '-o', 'c'])
    assert abs(cst.Cratercount('c.diam').area - 1242221.375) < 1e-3
''')

bug('c23-fraction-digits', 'C23', [('miscellaneous.py', "           + [f\"{a:<12g}  {b:g}\" for a,b in zip(d,frac)]", "           + [f\"{a:<12g}  {round(b,3):g}\" for a,b in zip(d,frac)]")],
    'crater fractions with more than three decimals',
    'the fractions are rounded to three decimals; very small ones vanish', '''
def main():
    diam('a.diam', [1., 2.], [.12345, .0002])
    diam('b.diam', [1., 2.])
    with quiet():
        cli.main(['-m', 'a.diam b.diam', '-o', 'c'])
    assert abs(sum(cst.Cratercount('c.diam').fraction) - 2.12365) < 1e-5
''')

bug('c24-dense-cell', 'C24', [('Randomnessanalysis.py', "            d1, pt1 = get_kth(pt, hpx_neighbours)\n", "            d1, pt1 = get_kth(pt, hpx_neighbours) if len(hpd[id]) < 16 else (d0, pt0)\n")],
    'a crater near the edge of a grid cell which contains many craters',
    'neighbours in adjacent cells are missed', '''
def main():
    from types import SimpleNamespace
    import astropy_healpix as hpx, astropy.units as u, spherely as sph
    hp = hpx.HEALPix(nside=1, order='nested')
    rng = np.random.RandomState(1)
    xy = [(rng.uniform(80, 100), rng.uniform(30, 55)) for i in range(120)]
    pts = [sph.create_point(longitude=x, latitude=y) for x, y in xy]
    ids = [int(hp.lonlat_to_healpix(x * u.deg, y * u.deg)) for x, y in xy]
    hpd = {}
    for p, i in zip(pts, ids): hpd.setdefault(i, []).append(p)
    MC = sys.modules['craterstats.Randomnessanalysis']
    m, _ = MC.kth_nearest_neighbour_pp(SimpleNamespace(hp=hp, planetary_radius=1000.), pts, ids, hpd, k=2)
    w = np.mean([sorted(sph.distance(p, q, radius=1000.) for q in pts)[2] for p in pts])
    assert abs(m / w - 1) < 1e-9, (m, w)
''')

bug('c24-erase-count', 'C24', [('Randomnessanalysis.py', "                        count += len(hpd[id]) - len0\n", "                        count += min(len(hpd[id]) - len0 + 1, 0) if len0 > 1 else len(hpd[id]) - len0\n")],
    'a trial in which a new crater erases an earlier one where the grid cell holds several',
    'the trial contains fewer craters than requested', '''
def main():
    scc('a.scc', [('ext', box(0., 3., 0., 3.))], [(20., 1., 1.5, 1.5), (20., 1., 1.5, .5), (20., 1., .5, .5), (20., 1., 2.5, 2.5)])
    MC = sys.modules['craterstats.Randomnessanalysis']
    with quiet():
        ra = cst.Randomnessanalysis('a.scc', out='x')
    ra.establish_hpx(30)
    s = ra.self_pp(30, 'm2cnd')
    np.random.seed(3)
    for i in range(30):
        assert len(MC.sprinkle_discs_pp(s, 12, 20.)[0]) == 12
''')

bug('c24-sdaa-ddof', 'C24', [('Randomnessanalysis.py', "    sdaa = np.std(areas)\n", "    sdaa = np.std([e for e in areas if e>0])\n")],
    'a crater whose cell lies wholly outside the counting area (its centre beyond the boundary)',
    'the cell is left out of the standard deviation', '''
def main():
    from types import SimpleNamespace
    import spherely as sph
    MC = sys.modules['craterstats.Randomnessanalysis']
    poly = sph.create_polygon(box(0., 2., 0., 2.))
    pts = [sph.create_point(longitude=x, latitude=y) for x, y in [(.5, .5), (1.5, .7), (.6, 1.6), (1.4, 1.3), (1., 9.)]]
    m, p = MC.sdaa(SimpleNamespace(polygon=poly, planetary_radius=1000.), pts, None, None)
    a = [sph.area(e, radius=1000.) for e in p]
    assert abs(m / np.std(a) - 1) < 1e-9 and min(a) == 0, (m, a)
''')

bug('c24-polar-latitude', 'C24', [('Randomnessanalysis.py', "    y = np.degrees(np.asin(np.random.uniform(y0, y1, n)))\n", "    y = np.random.uniform(self.yr[0], self.yr[1], n) if y1-y0<.1 else np.degrees(np.asin(np.random.uniform(y0, y1, n)))\n")],
    'a counting area of small extent in latitude, or near a pole',
    'random craters crowd towards the pole', '''
def main():
    from types import SimpleNamespace
    MC = sys.modules['craterstats.Randomnessanalysis']
    np.random.seed(1)
    y = np.array([e for _, e in MC.random_points_pp(SimpleNamespace(yr=(70., 90.), xr=(-180., 180.)), 20000)])
    s = (np.sin(np.radians(y)) - np.sin(np.radians(70))) / (1 - np.sin(np.radians(70)))
    assert abs(s.mean() - .5) < .02, s.mean()
''')

bug('c25-resume-shortfall', 'C25', [('Randomnessanalysis.py', "not self.montecarlo[measure]['n_trials'] >= trials: # skip", "not self.montecarlo[measure]['n_trials'] >= trials-5: # skip")],
    'a repeat of an analysis with a few more trials than stored',
    'the stored trials are reused although more were requested', '''
def main():
    scc('a.scc', [('ext', box(0., 30., 0., 30.))], [(20. + i / 10, 1., 3. * i + 1, (7. * i) % 29 + .5) for i in range(8)])
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        for n in (6, 9):
            ra = cst.Randomnessanalysis('a.scc', out='x')
            ra.run_montecarlo(n, 'm2cnd')
            ra.calculate_stats()
            ra.write()
    assert len(next(iter(ra.montecarlo['m2cnd']['trials'].values()))) == 9
''')

bug('c25-trial-digits', 'C25', [('Randomnessanalysis.py', 'f"{v[t]:<12.7g}" for bin,v', 'f"{v[t]:<12.4g}" for bin,v')],
    'results reloaded from file',
    'trial values are stored with four digits only, so the deviations change on reloading', '''
def main():
    scc('a.scc', [('ext', box(0., 30., 0., 30.))], [(20. + i / 10, 1., 3. * i + 1, (7. * i) % 29 + .5) for i in range(8)])
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        ra = cst.Randomnessanalysis('a.scc', out='x')
        ra.run_montecarlo(6, 'm2cnd')
        ra.calculate_stats()
        ra.write()
        rb = cst.Randomnessanalysis('a.scc', out='x')
    for b, v in ra.montecarlo['m2cnd']['trials'].items():
        assert np.allclose(v, rb.montecarlo['m2cnd']['trials'][b], rtol=1e-6)
''')

bug('c25-bin-order', 'C25', [('Randomnessanalysis.py', "for k in self.montecarlo[m]['stats'].keys()}, key=float) # get bins", "for k in self.montecarlo[m]['stats'].keys()}, key=lambda e: (float(e)<0, abs(float(e)))) # get bins")],
    'diameter bins both below and above 1 km',
    'stored deviations are not in order of diameter', '''
def main():
    scc('a.scc', [('ext', box(0., 30., 0., 30.))], [(20. + i / 10, 1., 3. * i + 1, (7. * i) % 29 + .5) for i in range(8)] + [(.3, 1., 2.9 * i + 1.3, (11. * i) % 29 + .7) for i in range(8)] + [(.6, 1., 2.9 * i + 1.3, (13. * i) % 29 + .7) for i in range(8)])
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        ra = cst.Randomnessanalysis('a.scc', out='x')
        ra.run_montecarlo(6, 'm2cnd')
        ra.calculate_stats()
        ra.write()
    b = [float(e) for e in gm.read_textstructure('x_ra.txt')['n_sigma']['bin']]
    assert b == sorted(b) and len(b) == 3, b
''')

bug('c26-first-match', 'C26', [('cli.py', "    res.sort(key=lambda x: len(x[1]))\n", "    if one_based: res.sort(key=lambda x: -x[1].startswith(v))\n    else: res.sort(key=lambda x: len(x[1]))\n")],
    'a user-defined system whose name is the beginning of a built-in one',
    'selecting it by its full name gives the built-in system', '''
def main():
    os.makedirs('env/etc')
    os.environ['CONDA_PREFIX'] = os.path.abspath('env')
    with open('u.txt', 'w') as f:
        f.write('chronology_system={\\n name="Moon, Neukum"\\n body="Moon"\\n cf="Mars, Hartmann & Neukum (2001)"\\n pf="Mars, Ivanov (2001)"\\n}\\n')
    with open('env/etc/config_functions_user.txt', 'w') as f:
        f.write('#path\\n%s\\n' % os.path.abspath('u.txt'))
    f = cst.Functionslist().functions
    args = cli.get_parser().parse_args(['-cs', 'Moon, Neukum'])
    c = cli.construct_cps_dict(args, __import__('copy').deepcopy(cst.DEFAULTS)['set'], f)
    assert c['chronology_system'] == 'Moon, Neukum', c['chronology_system']
''')

bug('c27-range-mutated', 'C27', [('Cratercount.py', "            r1=range.copy()\n", "            r1=range if range[1]!=np.inf else range.copy()\n")],
    'a range with an open lower limit and a stated upper limit',
    'the open limit of the evaluation is replaced by the lowest bin of the binning in use, also for later evaluations', '''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', list(10 ** np.linspace(0, .5, 40))))
    r = [0., 2.]
    cc.getplotdata('cumulative', 'pseudo-log', range=r, pf=pf)
    assert r == [0., 2.], r
''')

bug('c27-export-binning', 'C27', [('Cratercount.py', "        if not self.prebinned:\n            if self.binning != binning:\n                self.apply_binning(binning)\n\n        out=", "        if not self.prebinned:\n            if self.binning is None:\n                self.apply_binning(binning)\n\n        out=")],
    'exporting a count after it has been plotted with another binning',
    'the table is written with the binning of the last plot', '''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', list(10 ** np.linspace(0, .5, 40))))
    cc.getplotdata('cumulative', 'root-2', pf=pf)
    cc.WriteStatFile('a.stat')
    assert 'Binning: pseudo-log' in open('a.stat').read()
''')

bug('c27-shared-defaults', 'C27', [('cli.py', "    dflt = copy.deepcopy(cst.DEFAULTS)\n", "    dflt = {k:copy.copy(v) for k,v in cst.DEFAULTS.items()}\n")],
    'a second run in the same process after one whose output name has a different extension',
    'the formats of the first run are also written by the second', '''
def main():
    diam('a.diam', [1., 2., 3.])
    with quiet():
        cli.main(['-p', 'source=a.diam', '-o', 'x.svg'])
        cli.main(['-p', 'source=a.diam,type=poisson,range=[1,4]', '-o', 'y'])
    assert not os.path.exists('y.svg') and os.path.exists('x.svg')
''')

bug('c28-upper-limit', 'C28', [('Craterplotset.py', "            C[i] = r[0] - r[1]\n", "            C[i] = r[0]\n")],
    'a minimum diameter near 1000 km',
    'craters above 1000 km are included in the expected number', '''
def main():
    args = cli.get_parser().parse_args(['-pr', 'uncert', '-d_min', '700', '-ns', '6'])
    c = cli.construct_cps_dict(args, __import__('copy').deepcopy(cst.DEFAULTS)['set'], F)
    cps = cst.Craterplotset(c)
    cps.calculate_time_axis_params()
    with contextlib.redirect_stderr(io.StringIO()):
        r = cps.compute_age_area()
    C = cps.pf.evaluate('cumulative', [700., 1000.], a0=cps.cf.a0(cps.t_max))
    assert abs(r['lm'][-1, -1] / ((C[0] - C[1]) * 10 ** cps.yrange[1]) - 1) < 1e-6
''')

bug('c28-saturation-linear', 'C28', [('Craterplotset.py', "                                (self.t_max - T_eq) / (self.t_max - self.t_crossover))", "                                (self.t_max - T_eq) / (self.t_max - min(3.,T_eq)))")],
    'an age axis without a crossover (lower limit above 1 Ga)',
    'the saturation limit is drawn at the wrong age', '''
def main():
    from matplotlib.patches import Polygon
    for dm in 10 ** np.linspace(-3, 1.5, 60):
        args = cli.get_parser().parse_args(['-pr', 'uncert', '-d_min', repr(float(dm)), '-ns', '6', '-ef', 'Trask', '-xrange', '1.5', '4.'])
        c = cli.construct_cps_dict(args, __import__('copy').deepcopy(cst.DEFAULTS)['set'], F)
        cps = cst.Craterplotset(c)
        cps.calculate_time_axis_params()
        C = cps.pf.evaluate('cumulative', [dm, 1.])
        T = float(cps.cf.t(n1=cps.ef.evaluate('cumulative', dm) * C[1] / C[0]))
        if not cps.t_crossover < T < 3.9: continue
        with contextlib.redirect_stderr(io.StringIO()):
            r = cps.compute_age_area()
        cps.draw()
        cps.age_area_plot('k', r)
        p = next(e for e in cps.ax.patches if isinstance(e, Polygon))
        x = cps.xfrac_linear * (cps.t_max - T) / (cps.t_max - cps.t_crossover)
        assert any(abs(v[0] - x) < 1e-6 for v in p.get_xy()), (T, x, p.get_xy())
        return
    raise SystemExit('no case')
''')

bug('c29-single-hole', 'C29', [('Spatialcount.py', "                holes=[list(zip(xi, yi)) for xi, yi in zip(x_interior, y_interior)] if x_interior else None)", "                holes=[list(zip(xi, yi)) for xi, yi in zip(x_interior, y_interior)] if len(multipolygon.geoms)==1 else None)")],
    'a counting area of several parts with a hole',
    'the hole is filled on the map', '''
def main():
    scc('a.scc', [('ext', box(0., 5., 0., 5.)), ('int', box(1., 2., 1., 2.)), ('ext', box(10., 15., 0., 5.))], [(20., 1., 3., 3.)])
    c = cli.construct_cps_dict(cli.get_parser().parse_args([]), __import__('copy').deepcopy(cst.DEFAULTS)['set'], F)
    cps = cst.Craterplotset(c)
    with quiet():
        s = cst.Spatialcount('a.scc')
        cps.create_map_plotspace()
        s.plot(cps)
    n = sum((p.codes == 1).sum() for c in cps.ax.collections for p in c.get_paths())
    assert n == 3, n
''')

bug('c29-chart-slot', 'C29', [('Randomnessanalysis.py', "        dim = math.ceil(math.sqrt(len(bins)+int(n_sigma)))\n", "        dim = math.ceil(math.sqrt(max(len(bins),2)))\n")],
    'a number of panels that is a square number (4, 9)',
    'the deviation chart is drawn over the last panel', '''
def main():
    cr = []
    for k, d in enumerate((5., 8., 11., 16.)):
        cr += [(d, 1., 3. * i + 1 + k * .1, (7. * (i + k)) % 29 + .5) for i in range(6)]
    scc('a.scc', [('ext', box(0., 30., 0., 30.))], cr)
    c = cli.construct_cps_dict(cli.get_parser().parse_args([]), __import__('copy').deepcopy(cst.DEFAULTS)['set'], F)
    cps = cst.Craterplotset(c)
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        ra = cst.Randomnessanalysis('a.scc', out='x')
        ra.run_montecarlo(5, 'm2cnd')
        ra.calculate_stats()
        slots = []
        a = ra.plot_map_and_histogram
        b = ra.plot_n_sigma
        ra.plot_map_and_histogram = lambda cps, m, bin, ax, **k: (slots.append(ax.get_position().bounds), a(cps, m, bin, ax=ax, **k))
        ra.plot_n_sigma = lambda cps, m, ax0: (slots.append(ax0.get_position().bounds), b(cps, m, ax0=ax0))
        ra.plot_montecarlo_split(cps, 'm2cnd')
    assert len(slots) == 5 and len({tuple(round(v, 6) for v in s) for s in slots}) == 5, slots
''')

bug('c29-histogram-outlier', 'C29', [('Randomnessanalysis.py', "        h,be = np.histogram(m, bins=nbins)\n", "        h,be = np.histogram(m, bins=nbins, range=(max(min(m),res.mn-2.5*res.sd),min(max(m),res.mn+2.5*res.sd)))\n")],
    'a trial further than 2.5 sigma from the mean',
    'the histogram leaves the trial out', '''
def main():
    scc('a.scc', [('ext', box(0., 30., 0., 30.))], [(20. + i / 10, 1., 3. * i + 1, (7. * i) % 29 + .5) for i in range(8)])
    c = cli.construct_cps_dict(cli.get_parser().parse_args([]), __import__('copy').deepcopy(cst.DEFAULTS)['set'], F)
    cps = cst.Craterplotset(c)
    with contextlib.redirect_stderr(io.StringIO()), quiet():
        ra = cst.Randomnessanalysis('a.scc', out='x')
        ra.run_montecarlo(30, 'm2cnd')
        b = next(iter(ra.montecarlo['m2cnd']['trials']))
        ra.montecarlo['m2cnd']['trials'][b][0] *= 3
        ra.calculate_stats()
        ra.plot_histogram(cps, 'm2cnd', b)
    n = sum(p.get_height() for p in cps.ax.patches if hasattr(p, 'get_height'))
    assert round(n) == 30, n
''')

bug('c29-bin-source', 'C29', [('Craterplotset.py', "                bins = cpb.cratercount.generate_bins(cpb.binning, 10**self.xrange)", "                bins = cpb.cratercount.generate_bins(cpb.cratercount.binning if not cpb.cratercount.prebinned and cpb.cratercount.binning!='none' else cpb.binning, 10**self.xrange)")],
    'bin boundaries requested on a plot where a later evaluation of the same count uses a different binning',
    'the boundaries of the binning used last are shown', '''
def main():
    diam('a.diam', list(10 ** np.linspace(0, .5, 40)))
    args = cli.get_parser().parse_args(['-p', 'source=a.diam,binning=pseudo', '-b'])
    c = cli.construct_cps_dict(args, __import__('copy').deepcopy(cst.DEFAULTS)['set'], F)
    cp = cli.construct_plot_dicts(args, __import__('copy').deepcopy(cst.DEFAULTS)['plot'], c)
    cps = cst.Craterplotset(c)
    cp[0]['colour'] = cps.palette[0]
    cps.craterplot = [cst.Craterplot(e) for e in cp]
    cps.autoscale()
    cps.CreatePlotSpace()
    n = len(cps.ax.collections)
    cps.craterplot[0].cratercount.apply_binning('x2')
    cps.CreatePlotSpace()
    assert len(cps.ax.collections) == n
''')
