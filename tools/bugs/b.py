bug('c13-midpoint-shift', 'C13', [('Craterpdf.py', "        cdf2=(pdf2.cdf+np.roll(pdf2.cdf, 1))/2.\n", "        cdf2=(pdf2.cdf+np.roll(pdf2.cdf, 1))/2. if pdf2.k<100 else pdf2.cdf\n")],
    'comparison with a count of 100 craters or more',
    'the discretised distribution is compared at bin edges, so the two orderings no longer add up to one',
'''
def main():
    pf, cf = system()
    d = list(10 ** np.linspace(0, .5, 4001))
    cc = cst.Cratercount(diam('a.diam', d, area=1e4))
    p = cst.Craterpdf(pf, cf, cc, [1., 4.])
    q = cst.Craterpdf(pf, cf, cst.Cratercount(diam('b.diam', d[:-5], area=1e4)), [1., 4.])
    assert abs(p.calculate_sequence_probability(q) + q.calculate_sequence_probability(p) - 1) < 1e-6
    assert abs(p.calculate_sequence_probability(p) - .5) < 1e-6
''')

bug('c13-hidden-column', 'C13', [('Craterplotset.py', "                s[i][j+1] = gm.sigfigs(1.-P,2)\n", "                s[i][j+1] = gm.sigfigs(1.-float(gm.sigfigs(P,2)),2)\n")],
    'two surfaces of very different ages, with a probability close to one',
    'the complement is taken from the rounded probability, so small complementary probabilities are wrong',
'''
def main():
    pf, cf = system()
    a = diam('a.diam', list(10 ** np.linspace(0, .5, 40)))
    b = diam('b.diam', list(10 ** np.linspace(0, .5, 23)))
    with quiet():
        cli.main(['-pr', 'seq', '-p', 'source=a.diam,range=[1,4]', '-p', 'source=b.diam,range=[1,4]', '-st', '-f', 'csv', '-o', 'x'])
    t = [l.split(',') for l in open('x_sequence.csv').read().splitlines()]
    pa, pb = [cst.Craterpdf(pf, cf, cst.Cratercount(f), [1., 4.]) for f in (a, b)]
    P = pa.calculate_sequence_probability(pb)
    v = sorted(float(e) for l in t[:4] for e in l[1:] if e.replace('.', '').isdigit())
    w = sorted([P, 1 - P])
    assert np.allclose(v, w, rtol=.06), (v, w)
''')

bug('c14-sigfig-carry', 'C14', [('gm/string/diameter_range.py', "        s = sigfigs(np.array(d)*1000, sf)", "        s = sigfigs(np.round(np.array(d)*1000), sf)")],
    'a diameter range with a limit of a few metres',
    'limits below 10 m are rounded to whole metres',
'''
def main():
    s = gm.diameter_range([.0024, .035])
    assert '2.4' in s, s
''')

bug('c14-age-unit-carry', 'C14', [('miscellaneous.py', "        e2s = gm.sigfigs(e2 / a[0], sf - 1)", "        e2s = gm.sigfigs(min(e2 / a[0],100.), sf - 1)")],
    'an age of hundreds of Ma (or ka) with a lower uncertainty above 100',
    'the stated lower uncertainty is cut off at 100 units',
'''
def main():
    s = cst.str_age(.8, .2, .18, 3)
    assert '-180' in s, s
''')

bug('c15-carry-snap', 'C15', [('cli.py', "            for k in cst.CARRY_OVER_PROPERTIES:\n                p[k] = cpl[-1][k]\n", "            for k in cst.CARRY_OVER_PROPERTIES:\n                p[k] = next((e[k] for e in cpl[-1:] if not (e['hide'] and len(cpl)>1)),cpl[0][k])\n")],
    'a third or later overplot following a hidden one that changed a persistent property',
    'the overplot takes its persistent properties from the first overplot instead of the previous one',
'''
def main():
    diam('a.diam', [1.05, 1.3, 1.5, 2., 2.2])
    args = cli.get_parser().parse_args(['-p', 'source=a.diam,psym=o', '-p', 'psym=triangle,hide=1', '-p', 'range=[1,2]'])
    dflt = __import__('copy').deepcopy(cst.DEFAULTS)
    c = cli.construct_cps_dict(args, dflt['set'], F)
    cp = cli.construct_plot_dicts(args, dflt['plot'], c)
    assert cp[2]['psym'] == cp[1]['psym'], [e['psym'] for e in cp]
''')

bug('c15-type-carry', 'C15', [('cli.py', "            if p['source'] is None: # only carry type if source unchanged\n", "            if p['source'] is None and cpl[-1]['type']!='b-poisson': # only carry type if source unchanged\n")],
    'an overplot without type following a buffered one on the same source',
    'the type is not carried over',
'''
def main():
    with open('a.scc', 'w') as f:
        f.write('Total_area = 2 <km2>\\nTotal_perimeter = 6 <km>\\ncrater = {diam, fraction, lon, lat\\n4 1 1 1\\n5 1 1 1\\n}\\n')
    args = cli.get_parser().parse_args(['-p', 'source=a.scc,type=b-poisson,range=[1,10]', '-p', 'range=[2,10]'])
    dflt = __import__('copy').deepcopy(cst.DEFAULTS)
    c = cli.construct_cps_dict(args, dflt['set'], F)
    cp = cli.construct_plot_dicts(args, dflt['plot'], c)
    assert cp[1]['type'] == 'b-poisson', cp[1]['type']
''')

bug('c16-cs-comment', 'C16', [('cli.py', "a=('\\n').join([e for e in a.split('\\n') if e.strip() and not e.strip().startswith('#')] ) #remove", "a=('\\n').join([e.split(' #')[0] for e in a.split('\\n') if e.strip() and not e.strip().startswith('#')] ) #remove")],
    'a saved command file with an argument containing a hash after a blank (such as a title)',
    'the argument is cut at the hash when the command file is run, which fails or gives a different plot',
'''
def main():
    diam('a.diam', [1.05, 1.3, 1.5, 2., 2.2])
    with quiet():
        cli.main(['-p', 'source=a.diam,type=poisson,range=[1,3],name=Area #2', '-f', 'csv', '-o', 'x'])
        a = open('x.csv').read()
        os.remove('x.csv')
        cli.main(['-i', 'x.cs'])
    assert open('x.csv').read() == a
''')

bug('c16-default-name', 'C16', [('cli.py', "            default_filename = '_'.join(sorted(set([gm.filename(d['source'], 'n') for d in cp_dicts]))) if cp_dicts else 'out'", "            default_filename = '_'.join(sorted(set([gm.filename(d['source'], 'n') for d in cp_dicts])))[:64].rstrip('_') if cp_dicts else 'out'")],
    'several sources with long names and no output name',
    'the default output name no longer contains all source names',
'''
def main():
    for n in 'abc':
        diam(n * 30 + '.diam', [1.05, 1.3, 1.5, 2., 2.2])
    with quiet():
        cli.main(sum([['-p', 'source=%s.diam,type=poisson,range=[1,3]' % (n * 30)] for n in 'abc'], []) + ['-f', 'csv'])
    assert os.path.exists('_'.join(n * 30 for n in 'abc') + '.csv'), os.listdir('.')
''')

bug('c17-sort-order', 'C17', [('Craterplotset.py', "enumerate(sorted(s, key=lambda d: d['t'][0], reverse=True))", "enumerate(sorted(s, key=lambda d: float(f\"{d['t'][0]:.2g}\"), reverse=True))")],
    'two ages equal to two significant figures, the younger listed first',
    'their age ranks are swapped',
'''
def main():
    d = list(10 ** np.linspace(0, .5, 60))
    diam('a.diam', d[:-2])
    diam('b.diam', d)
    with quiet():
        cli.main(['-p', 'source=a.diam,type=poisson,range=[1,4]', '-p', 'source=b.diam,type=poisson,range=[1,4]', '-f', 'csv', '-o', 'x'])
    l = [e.split(',') for e in open('x.csv', encoding='utf-8-sig').read().splitlines()]
    h = next(e for e in l if e[0] == 'Name')
    r = l[l.index(h) + 1:]
    i, t = h.index('Sort_order'), h.index('Age')
    assert [e[i] for e in r] == ['1', '0'], [(e[t], e[i]) for e in r]
''')

bug('c17-range-format', 'C17', [('Craterplotset.py', "                    v = ','.join([f\"{e:{f}}\" for e in d[k]])", "                    v = ','.join([f\"{e:{f}}\" for e in (sorted(d[k]) if k=='t' else d[k])])")],
    'any age in the summary table (age, lower and upper written in sorted order)',
    'the columns Age and Age- are swapped',
'''
def main():
    diam('b.diam', list(10 ** np.linspace(0, .5, 20)))
    with quiet():
        cli.main(['-p', 'source=b.diam,type=poisson,range=[1,4]', '-f', 'csv', '-o', 'x'])
    l = [e.split(',') for e in open('x.csv', encoding='utf-8-sig').read().splitlines()]
    h = next(e for e in l if e[0] == 'Name')
    r = dict(zip(h[:20], l[-1]))
    assert float(r['Age-']) < float(r['Age']) < float(r['Age+']), r
''')

bug('c18-odd-decades', 'C18', [('Craterplotset.py', "                yr += [0, 1] if big_bottom else [-1, 0]\n                dy = gm.mag(yr)\n", "                yr += [0, 1] if big_bottom else [-1, 0]\n                dy = gm.mag(yr) - (2 if dy>12 else 0)\n")],
    'automatic axes of a differential plot spanning an odd number of decades above twelve',
    'the horizontal axis does not match the vertical one (two decades to one)',
'''
def main():
    diam('a.diam', list(10 ** np.linspace(-3, 1.4, 30)), area=1.)
    for hi in np.linspace(.5, 2, 16):
        diam('a.diam', list(10 ** np.linspace(-3, hi, 30)), area=1.)
        cp = cst.Craterplot(source='a.diam')
        cps = cst.Craterplotset(presentation='differential', craterplot=[cp], legend='')
        cps.autoscale()
        assert abs(gm.mag(cps.yrange) - 2 * gm.mag(cps.xrange)) < 1e-9, (cps.xrange, cps.yrange)
''')

bug('c18-margin-left', 'C18', [('Craterplotset.py', "            if d < 0: yr += [-d2a,d2b] if big_bottom else [-d2b,d2a]\n", "            if d < 0: yr += [-d2a,d2b] if big_bottom else [-d2b,d2a] if d>-4 else [d2a-1,d2b+d2a*2]\n")],
    'a plot of wide diameter range but nearly constant density (e.g. R-plot or cumulative of a bimodal count)',
    'data points below the displayed range',
'''
def main():
    diam('a.diam', [.0011] + [100., 110., 120., 130.] * 40, area=1e3)
    cp = cst.Craterplot(source='a.diam')
    cps = cst.Craterplotset(presentation='cumulative', craterplot=[cp], legend='')
    cps.autoscale()
    p = cp.cratercount.getplotdata('cumulative', 'pseudo-log')
    y = np.log10(p['y'])
    assert cps.yrange[0] <= y.min() and y.max() <= cps.yrange[1], (cps.yrange, y)
    assert gm.mag(cps.yrange) == gm.mag(cps.xrange), (cps.xrange, cps.yrange)
''')

bug('c19-isochron-flag', 'C19', [('Craterplotset.py', "                isochrons.append((value, 'h' in e, 'a' in e, 's' in e))", "                isochrons.append((value, e[-1]=='h', 'a' in e, 's' in e))")],
    'an isochron with combined suffixes in which h is not last (such as 3ha)',
    'the label that should be hidden is shown',
'''
def main():
    with quiet():
        from unittest import mock
        figs = []
        real = cst.Craterplotset.draw
        with mock.patch.object(cst.Craterplotset, 'draw', lambda self: (real(self), figs.append(self))[0]):
            diam('a.diam', [1.05, 1.3, 1.5, 2., 2.2])
            cli.main(['-p', 'source=a.diam', '-isochrons', '3ha,1', '-f', 'svg', '-o', 'x'])
    t = [e.get_text() for e in figs[0].ax.texts]
    assert '3 Ga' not in t and '1 Ga' in t, t
''')

bug('c19-error-bars', 'C19', [('Craterplot.py', "yerr=p['err'],fmt='none'", "yerr=np.minimum(p['err'],p['y']*.9),fmt='none'")],
    'a bin with a single crater',
    'the error bar is drawn shorter than the error (upwards too)',
'''
def main():
    from unittest import mock
    figs = []
    real = cst.Craterplotset.draw
    with quiet(), mock.patch.object(cst.Craterplotset, 'draw', lambda self: (real(self), figs.append(self))[0]):
        diam('a.diam', [1.05, 2., 3.])
        cli.main(['-p', 'source=a.diam', '-pr', 'R', '-f', 'svg', '-o', 'x'])
    from matplotlib.collections import LineCollection
    seg = [s for c in figs[0].ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
    p = cst.Cratercount('a.diam').getplotdata('R-plot', 'pseudo-log')
    top = sorted(s[:, 1].max() for s in seg)
    assert np.allclose(top, sorted(p['y'] + p['err'])), top
''')

bug('c20-epoch-unit', 'C20', [('Epochs.py', "            a0=[pf.fit({'presentation':'cumulative','d':d,'y':ncum/1e6,'err':0})[0] for d,ncum in zip(self.ref_diameter,self.density)]", "            a0=[pf.fit({'presentation':'cumulative','d':d,'y':ncum/1e6,'err':0})[0] for d,ncum in zip([self.ref_diameter[0]]+self.ref_diameter[:-1],self.density)]")],
    'an epoch system given as densities at different reference diameters',
    'densities are paired with the reference diameter of the previous boundary',
'''
def main():
    pf, cf = system('Mars, Ivanov (2001)')
    src = dict(F)
    txt = """epochs = {
 name = "X"
 epoch = [Young, Middle, Old]
 formatting = [0, 1b, 2b, 3b]
 ref_diameter = [1, 5]
 density = [2000, 200]
 reference = "none"
}
epochs = {
 name = "Y"
 epoch = [Young, Middle, Old]
 formatting = [0, 1b, 2b, 3b]
 ref_diameter = [1, 5]
 density = [2000, 200]
 reference = "none"
}
"""
    e = cst.Epochs(gm.read_textstructure(txt, from_string=True), 'X', pf, cf)
    a0 = pf.a[0] + np.log10(200e-6 / pf.evaluate('cumulative', 5., pf.a[0]))
    assert abs(e.time[2] - cf.t(a0=a0)) < 1e-3, (e.time, cf.t(a0=a0))
''')

bug('c20-equilibrium-factor', 'C20', [('Productionfn.py', "            q= gm.where(iso['y'] < e['y'][j] * .8)", "            q= gm.where(iso['y'] < e['y'][j] * (.8 if a0<-1. else 1.2))")],
    'an isochron of a very old surface (N(1) above 0.1 per km2) with an equilibrium function',
    'the curve is drawn beyond the equilibrium density',
'''
def main():
    pf, cf = system()
    ef = cst.Productionfn(F, F['equilibrium'][0]['name'], equilibrium=True)
    for a0 in (-3., -.5):
        iso = pf.getisochron('cumulative', a0, ef)
        e = ef.evaluate('cumulative', iso['d'])
        r = np.clip(iso['d'], ef.range[0], ef.range[1]) == iso['d']
        assert np.all(iso['y'][r] < e[r]), a0
''')
