FIG = '''
def fig(*a):
    # the figure the program would save
    import matplotlib.figure as mf
    got = []
    old = mf.Figure.savefig
    mf.Figure.savefig = lambda self, name, **k: got.append((name, self, k))
    try:
        with quiet():
            cli.main(list(a))
    finally:
        mf.Figure.savefig = old
    return got
def area(f):
    ax = [x for x in f.axes if x.get_yscale() == 'log' and x.get_xscale() == 'linear' and x.get_frame_on()][0]
    b, (w, h) = ax.get_position(), f.get_size_inches() * 2.54
    return ax, b.width * w, b.height * h
'''

bug('c30-box-height', 'C30', [('Craterplotset.py', "            min(np.clip(plot_dims*np.array([1,self.data_aspect]),1,None)/self.decades)\n", "            max(np.clip(plot_dims*np.array([1,self.data_aspect]),1,None)/self.decades)\n")],
    'a print dimensions box whose proportions are not those of the axes',
    'the plot area is larger than the box', FIG + '''
def main():
    diam('a.diam', list(np.linspace(1.01, 9., 30)))
    ax, w, h = area(fig('-pr', 'cumulative', '-pd', '9x6', '-xrange', '-1', '2', '-yrange', '-6', '-2', '-f', 'svg', '-p', 'source=a.diam')[0][1])
    assert w < 9.001 and h < 6.001, (w, h)
''')

bug('c30-rate-aspect', 'C30', [('Craterplotset.py', "            self.decades[1]/self.decades[0]   if self.presentation in ['Hartmann','chronology', 'rate'] else\n", "            self.decades[1]/self.decades[0]   if self.presentation in ['Hartmann','chronology'] else\n")],
    'a rate plot with print dimensions given as a box',
    'the plot area does not fill its box', FIG + '''
def main():
    ax, w, h = area(fig('-pr', 'rate', '-pd', '10x8', '-f', 'svg')[0][1])
    assert abs(max(w / 10, h / 8) - 1) < 1e-3, (w, h)
''')

bug('c30-label-size', 'C30', [('Craterplotset.py', "            'axes.labelsize': self.scaled_pt_size * .9,\n", "            'axes.labelsize': 8. * .9,\n")],
    'a point size other than the default',
    'the axis titles keep the size of the default', FIG + '''
def main():
    s = []
    for p in ('6', '12'):
        ax, w, h = area(fig('-pr', 'chronology', '-pt_size', p, '-f', 'svg')[0][1])
        s.append(ax.xaxis.label.get_size())
    assert abs(s[1] / s[0] - 2) < 1e-6, s
''')

bug('c30-transparent-inverted', 'C30', [('cli.py', "        cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,\n", "        cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent and not cps.invert,\n")],
    'a figure both inverted and transparent',
    'the figure is saved with an opaque background', FIG + '''
def main():
    g = fig('-pr', 'chronology', '-invert', '1', '-transparent', '1', '-f', 'png')
    assert g[0][2]['transparent'], g
''')

bug('c30-title-lines', 'C30', [('Craterplotset.py', "        title = '\\n'.join(self.title.split('|')) if self.title else None\n", "        title = '\\n'.join(self.title.split('|')[:2]) if self.title else None\n")],
    'a sequence plot with a title of three lines',
    'the third line is lost', FIG + '''
def main():
    diam('a.diam', list(np.linspace(1.01, 9., 30)))
    f = fig('-pr', 'sequence', '-title', 'a|b|c', '-f', 'svg', '-p', 'source=a.diam,type=poisson,range=[1,10]')[0][1]
    assert any(x.get_title() == 'a\\nb\\nc' for x in f.axes), [x.get_title() for x in f.axes]
''')

bug('c30-map-box', 'C30', [('Craterplotset.py', "            xsize, ysize = (e + 2 * margin for e in plot_dims)\n            self.aspect_ratio = plot_dims[1]/plot_dims[0]\n\n        self.position", "            xsize, ysize = (e + 2 * margin for e in sorted(plot_dims, reverse=True))\n            self.aspect_ratio = plot_dims[1]/plot_dims[0]\n\n        self.position")],
    'a map with a box taller than wide',
    'width and height of the map are exchanged', FIG + '''
def main():
    scc('a.scc', [('ext', box(0., 5., 0., 5.))], [(40., 1., 2.5, 2.5)], area=100.)
    f = fig('-pd', '6x9', '--convert', 'png', 'a.scc')[0][1]
    w, h = f.get_size_inches()
    assert h > w, (w, h)
''')

bug('c30-frame-part', 'C30', [('Craterplotset.py', "        pos_log = [margin + width_linear, margin, (1 - xfrac_linear) * (xsize - margin * 2), pos_linear[3]]\n", "        pos_log = [margin + width_linear, margin, (1 - xfrac_linear) * (ysize - margin * 2), pos_linear[3]]\n")],
    'a sequence plot in a box that is not square, with ages below 1 Ga',
    'the logarithmic part of the age axis does not end with the plot area', FIG + '''
def main():
    diam('a.diam', list(np.linspace(1.01, 9., 30)))
    f = fig('-pr', 'sequence', '-pd', '8x12', '-f', 'svg', '-p', 'source=a.diam,type=poisson,range=[1,10]')[0][1]
    b = [x.get_position().x1 for x in f.axes]
    whole = [x for x in f.axes if x.get_xlabel() == 'Age'][0].get_position().x1
    assert max(b) < whole + 1e-6, (b, whole)
''')
