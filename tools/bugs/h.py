bug('c31-narrow-except', 'C31', [('Cratercount.py', '        except:\n            sys.exit("Unable to read file: "+filename)', '        except (KeyError, ValueError, OSError):\n            sys.exit("Unable to read file: "+filename)')],
    'a count file cut short so that no structure, or no row, is left in it',
    'refusals for missing tables are limited to three kinds of error: a file without any definition or with a table emptied of its columns ends in a traceback',
'''
def main():
    open('x.diam', 'w').write('# crater counts\\n area')
    try:
        cst.Cratercount('x.diam')
    except SystemExit as e:
        assert 'x.diam' in str(e.code)
    else:
        raise AssertionError('read')
''')
bug('c31-short-rows', 'C31', [('Cratercount.py', "            frac=[float(e) for e in c['fraction']] if 'fraction' in c else [1.]*len(diam)", "            frac=[float(e) for e in c['fraction'] if e] if 'fraction' in c else [1.]*len(diam)")],
    'a .diam file cut in the middle of a row of its crater table, before the fraction',
    'rows that lack a fraction are skipped in that column only: later craters get the fractions of others and one crater is lost without a message',
'''
def main():
    open('x.diam', 'w').write('area = 100.\\ncrater = {diameter, fraction\\n1.5 0.5\\n1.2 1.0\\n0.9')
    try:
        c = cst.Cratercount('x.diam')
    except SystemExit as e:
        assert 'x.diam' in str(e.code)
    else:
        assert len(c.diam) == 3, c.diam
''')
bug('c31-trials-order', 'C31', [('Randomnessanalysis.py', "                        'n_trials':int(c[name]['n_trials']),\n", "                        'n_trials':len(next(iter(c[name]['trials'].values()))),\n"),
    ('Randomnessanalysis.py', "                    for b in list(c[name]['trials'].keys())[1:]:\n", "                    for b in [e for e in c[name]['trials'].keys() if e != 'index']:\n")],
    'a randomness results file cut short in its last table',
    'the number of trials is taken from the rows that are there, so an analysis cut short passes for a complete one with fewer trials than it states',
'''
def main():
    import shutil
    sq = [(0., 0.), (2., 0.), (2., 2.), (0., 2.)]
    rng = np.random.default_rng(1)
    scc('x.scc', [('ext', sq)], [(1.1, 1., float(x), float(y)) for x, y in rng.random((6, 2)) * 1.8 + .1])
    t = 'n_sigma = {bin, m2cnd\\n0 0.5\\n}\\nm2cnd = {\\nn_trials = 5\\ntrials = {index, 0\\n0 1.0\\n1 1.1\\n2 1.2\\n}\\n}\\n'
    open('x_ra.txt', 'w').write(t)
    try:
        r = cst.Randomnessanalysis('x.scc')
    except SystemExit as e:
        assert 'x_ra.txt' in str(e.code)
    else:
        assert r.montecarlo['m2cnd']['n_trials'] == 5 and len(r.montecarlo['m2cnd']['trials']['0']) == 5, r.montecarlo
''')
bug('c31-row-shift', 'C31', [('gm/file/read_textstructure.py', "            if v[0]=='}': break\n            for t in tag:\n                r[t].append(v.pop(0) if len(v)>0 else '')", "            if v[0]=='}': break\n            for t in reversed(tag):\n                r[t].append(v.pop() if len(v)>0 else '')")],
    'a table row from which a value has been lost',
    'values of a row are assigned from its end, so that in a row with a lost value or a stray extra one the numbers go to the wrong columns: the fraction of a crater is read as something else or the diameter comes from another column',
'''
def main():
    open('x.diam', 'w').write('area = 100.\\ncrater = {diameter, fraction\\n1.5 0.5 7\\n1.2 1.0\\n}\\n')
    try:
        c = cst.Cratercount('x.diam')
    except SystemExit as e:
        assert 'x.diam' in str(e.code)
    else:
        assert list(zip(c.diam, c.fraction)) == [(1.5, .5), (1.2, 1.)], (c.diam, c.fraction)
''')
bug('c31-write-source', 'C31', [('miscellaneous.py', "    d=[]\n    frac=[]\n    a=0.\n", "    d, frac = [], []\n    gm.write_textfile(out,['# Merged crater diameter file']) # claim output\n    a=0.\n")],
    'merging where one of the counts is damaged or of the wrong kind',
    'the merged file is opened for writing before its sources are read: a refused merge leaves an empty output and destroys an earlier one',
'''
def main():
    open('x.diam', 'w').write('area = 100.\\ncrater = {diameter, fraction\\n1.5 0.5\\n1.2 q\\n}\\n')
    diam('y.diam', [1., 2.])
    open('o.diam', 'w').write('earlier')
    try:
        with quiet():
            cli.main(['-m', 'x.diam', 'y.diam', '-o', 'o'])
    except SystemExit as e:
        assert 'x.diam' in str(e.code)
    assert open('o.diam').read() == 'earlier'
''')
