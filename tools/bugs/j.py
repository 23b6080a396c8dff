bug('c05-top-snap', 'C05', [('Cratercount.py', "r1[1] <= self.binned['d_max'][-1]-1e-7:\n", "r1[1] <= self.binned['d_max'][-1]-1e-2:\n")],
    'an upper limit within the last bin and less than 10 m below its end',
    'an upper limit close below the end of the last bin is not moved to it, so the bin is left out of the fit',
'''
def main():
    c = cst.Cratercount(diam('a.diam', [.011, .012, .016, .0225], area=1e-2))
    r = c.decode_range(['.011', '.03'], 'root-2', 1)
    assert abs(r[1] - 2 ** -5) < 1e-9, r
    p = c.getplotdata('cumulative', 'root-2', range=r)
    assert p['n'] == 4, p
''')
bug('c11-line-peak', 'C11', [('Craterpdf.py', "        if np.sum(pdf0)<1e-30: #force line peak if under-resolved\n", "        if np.sum(pdf0)<1e-5: #force line peak if under-resolved\n")],
    'a count of several tens of thousands of craters',
    'the age of a large count is held to be exact, without uncertainty',
'''
def main():
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', [1.2], area=1e8))
    p = cst.Craterpdf(pf, cf, cc, [1., 2.], k=30000)
    t = p.t([.16, .84])
    assert abs(np.log(t[1] / t[0]) / (2 / 30000 ** .5) - 1) < .4, t
''')
bug('c19-small-band', 'C19', [('Craterpdf.py', "        ax.fill_between(self.ts[p[1]:p[3]], self.pdf[p[1]:p[3]], 0, color=color, alpha=0.35,\n", "        ax.fill_between(self.ts[p[1]:p[2]], self.pdf[p[1]:p[2]], 0, color=color, alpha=0.35,\n")],
    'the small plot of the age distribution of a Poisson evaluation',
    'only the younger half of the one-sigma range is shaded',
'''
def main():
    from matplotlib.collections import PolyCollection
    import matplotlib.pyplot as plt
    pf, cf = system()
    cc = cst.Cratercount(diam('a.diam', [1.2] * 9, area=1e4))
    p = cst.Craterpdf(pf, cf, cc, [1., 2.])
    fig, ax = plt.subplots()
    p.plot(ax)
    x = [np.concatenate([q.vertices for q in c.get_paths()])[:, 0] for c in ax.collections]
    assert abs(max(e.max() for e in x) / p.t(.84) - 1) < .01, (max(e.max() for e in x), p.t([.16, .5, .84]))
''')
bug('c19-hartmann-title', 'C19', [('Craterplotset.py', "        nonroot2=False in [cp.binning=='root-2' for cp in self.craterplot]\n", "        nonroot2=not True in [cp.binning=='root-2' for cp in self.craterplot]\n")],
    'a Hartmann plot which mixes root-2 and other bins',
    'the axis title does not say that densities of other bins are equivalents',
'''
def main():
    f = diam('a.diam', [1.2, 1.5, 2., 3.], area=1e4)
    from matplotlib.axes import Axes
    titles = []
    keep = Axes.set_ylabel
    Axes.set_ylabel = lambda self, t, *a, **k: (titles.append(t), keep(self, t, *a, **k))[1]
    with quiet():
        cli.main(['-pr', 'hart', '-p', 'src=' + f + ',type=data,binning=pseudo-log', '-p', 'type=data,binning=root-2', '-o', 'x'])
    assert any('(equivalent)' in t for t in titles), titles
''')
bug('c25-key-digits', 'C25', [('Randomnessanalysis.py', '        bin_keys = [f"{e:.3g}" for e in np.log2(self.cc.binned[\'d_min\'])]\n', '        bin_keys = [f"{e:.2g}" for e in np.log2(self.cc.binned[\'d_min\'])]\n'),
                                 ('Randomnessanalysis.py', '                bin = f"{np.log2(b):.3g}"\n', '                bin = f"{np.log2(b):.2g}"\n')],
    'craters of less than a metre, whose bins have three-digit names',
    'two neighbouring bins share a name, so craters and results of one are taken for the other',
'''
def main():
    b = box(0, .0001, 0, .0001)
    r = np.random.default_rng(1)
    cr = [(float(d), 1., float(x), float(y)) for d in (.0008, .0008, .0008, .0006, .0006, .0006) for x, y in [r.uniform(.00002, .00008, 2)]]
    scc('a.scc', [('ext', b)], cr, area=9e-6, perimeter=.012)
    with quiet():
        a = cst.Spatialcount('a.scc')
        cc = cst.Cratercount('a.scc')
    ra = cst.Randomnessanalysis.__new__(cst.Randomnessanalysis)
    ra.__dict__.update(a.__dict__)
    cc.apply_binning('root-2')
    ra.cc = cc
    keys = set()
    n = 0
    for e in np.log2(cc.binned['d_min']):
        k = f"{e:.3g}"
        try:
            n += len(ra.get_bin_craters(k, Craterlist=True).diam)
        except Exception:
            pass
    assert n == 6, n
''')
