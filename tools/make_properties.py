"""Regenerates properties.jsonl (single source of the property texts)."""
import json, os
S = 'src/craterstats/'
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

p('C01', 'Crater count files are read faithfully in every supported layout',
  "Reading a crater count file (.diam, .scc or .stat) yields exactly the diameters, crater fractions, area, perimeter and per-bin counts written in the file: every fraction stays attached to its own crater's diameter, whatever the row order, column order, whitespace, comments, blank lines, line endings, number notation or byte-order mark. "
  "The sum over craters is conserved, buffered lists (reference areas) convert each crater's reference area to its reciprocal weight on a unit area, and a missing fraction column means every crater counts fully. "
  "A file that does not exist, has an unknown type or lacks its crater table is refused with a message naming the file rather than read as something else.",
  ['inputs'], 'every well-formed crater list (0.001-1000 km, 1 to hundreds of craters, duplicates, fractions in [0,1]) in every legal textual layout of the three formats (.stat tables of two or more rows in their documented column sets); plus unreadable files',
  "The tests read three sample files once each; no test permutes rows or columns, varies layout, or checks that a fraction stays with its own crater in both readers of .scc.",
  ['Cratercount.py', 'Spatialcount.py', 'gm/file/read_textstructure.py', 'gm/file/read_textfile.py'],
  [('file readers', S+'Cratercount.py ReadStatFile/ReadDiamFile/ReadSCCfile'), ('spatial reader', S+'Spatialcount.py readSCCfile')],
  state=[('diam/fraction', 'parallel lists, sorted together', S+'Cratercount.py')], observe=['Cratercount attributes after construction', 'Spatialcount attributes'])

p('C02', 'Structured settings text parses to the values that were written',
  "Reading the key/value text format used for crater files, function definitions and randomness results returns exactly the scalars, quoted strings, lists, tables, nested structures and text blocks written, for any arrangement of whitespace, blank lines and comments. "
  "Repeating a key forms a list in file order, and table rows map to columns positionally with missing trailing cells empty. "
  "Quoted strings keep separators and comment characters inside the quotes.",
  ['inputs'], 'all documents generated by a grammar of the format (scalars, quoted strings, arrays, tables, nested structs, repeated keys) with random layout: structures one level deep, repeated scalars, structures and tables, closing braces on lines of their own, no braces inside quoted cells, comments in files only',
  "The tests parse eleven fixed strings; combinations (nested table inside repeated struct, comments between rows, quoted separators) are not sampled.",
  ['gm/file/read_textstructure.py', 'gm/file/read_textfile.py', 'gm/string/quoted_split.py', 'gm/string/strip_quotes.py', 'gm/file/filename.py', 'gm/file/write_textfile.py'],
  [('recursive evaluation of definitions', S+'gm/file/read_textstructure.py evaluate/simple_value/merge'), ('comment stripping', S+'gm/file/read_textfile.py'), ('path splitting', S+'gm/file/filename.py')], observe=['returned dictionary', 'filename parts'])

p('C03', 'Binning is a complete partition on the documented bin lattice',
  "For every binning style, bin boundaries are strictly increasing, lie on that style's fixed lattice whatever the data are (pseudo-log steps per decade, 2^n, 2^(n/2), 2^(n/4), 10^(n/10), 10^(n/20)), and cover all the craters: every crater falls in exactly one bin, the one whose half-open interval contains its diameter. "
  "Bin totals therefore conserve the number of craters and the summed fractions, cumulative counts are the suffix sums, and bin centres and widths follow from the boundaries. "
  "With no binning each crater is its own point and nothing is lost.",
  ['inputs'], 'every crater list (including diameters exactly on boundaries and decades, duplicates, a single crater, spans of one bin to six decades) x all seven binning styles',
  "The tests check three binnings of one sample file and two boundary lists.",
  ['Cratercount.py', 'gm/maths/range.py'],
  [('boundary generation', S+'Cratercount.py generate_bins'), ('histogramming', S+'Cratercount.py apply_binning')],
  state=[('binned', 'per-bin boundaries, n, n_event, ncum', S+'Cratercount.py')], observe=['Cratercount.binned', 'Cratercount.generate_bins'])

p('C04', 'Plotted densities follow the published definitions in all presentations',
  "For any crater count, each presentation returns one point per non-empty bin in increasing diameter whose value is the published definition: cumulative density at the bin minimum, and incremental, differential (bin-bias corrected for the local or assumed slope), R-plot (D^3 weighted) and Hartmann (root-2-bin equivalent) densities at the geometric bin centre. "
  "Error bars are the density (before any bin-bias correction) divided by the square root of the number of crater events, reported crater totals equal the counts in the plotted bins, and scaling the counting area scales every density and error inversely. "
  "The presentations are mutually consistent transformations of the same counts.",
  ['inputs', 'configurations'], 'every crater list with fractions x binning x presentation x production function (or none) x diameter range',
  "Tests compare a few presentations of a single sample with stored numbers.",
  ['Cratercount.py', 'miscellaneous.py'],
  [('presentation formulae', S+'Cratercount.py getplotdata'), ('bin bias correction', S+'miscellaneous.py bin_bias_correction')], observe=['getplotdata result'])

p('C05', 'Diameter ranges select exactly the intended bins and craters',
  "A diameter range given numerically, open-ended or as the n-th occupied bin from either end resolves to limits which, when snapping to data in the range, are bin boundaries enclosing the occupied part of the request with less than one bin of slack and, without snapping, are the values given. "
  "The selection made with a resolved range contains exactly the bins whose centres lie inside it; adjacent ranges split a count without losing or double counting a crater; resolving an already snapped range leaves it unchanged. "
  "The range reported for a fit is the bin-aligned extension of the request and contains every bin that was used.",
  ['inputs'], 'every crater list x binning x pair of range limits (values on, just below and just above boundaries, 0, inf, b1..bN, b-1..b-N, reversed) x snap on/off',
  "One range on one sample is tested.",
  ['Cratercount.py', 'Craterplot.py'],
  [('range decoding and snapping', S+'Cratercount.py decode_range'), ('bin selection', S+'Cratercount.py getplotdata'), ('reported range', S+'Cratercount.py generate_bins(expand=False)')], observe=['Craterplot.range', 'getplotdata d, n, bin_range'])

p('C06', 'Exported binned tables reproduce the count they were made from',
  "Writing a crater count as a binned table gives one row per occupied bin whose bin minimum, incremental and cumulative counts, densities, errors, centre diameter, differential density and event count equal those of the binned count to the printed precision, with the area stated. "
  "Reading the table back recovers the area, bin minima, counts and cumulative densities, so that cumulative plots, and analyses of any range of bins, made from the table agree with those made from the original. "
  "Exporting does not alter the count object's later results.",
  ['inputs', 'histories'], 'every crater list with fractions x binning style, written and read back',
  "No test writes or re-reads a .stat file.",
  ['Cratercount.py', 'cli.py'],
  [('table writer', S+'Cratercount.py WriteStatFile'), ('table reader', S+'Cratercount.py ReadStatFile'), ('conversion command', S+'cli.py convert_format')], observe=['.stat file text', 'Cratercount read back'])

p('C07', 'Resurfacing correction adds exactly the missing larger-crater contribution',
  "The resurfacing correction for a cumulative fit converges to a fixed point: after correction the fitted isochron passes through the corrected cumulative density at the largest diameter of the range used. "
  "It shifts every cumulative density by one common amount, vanishes when the data already follow the production function to infinity, removes the effect of any surplus or deficit of craters above the range, and scales inversely with area. "
  "Without the option, results are untouched, and in figures it moves only the points of cumulative fits.",
  ['inputs'], 'every crater list with at least two occupied bins in range x production function x range x area',
  "No test exercises the correction.",
  ['Cratercount.py', 'Productionfn.py', 'Craterplot.py'],
  [('iteration', S+'Cratercount.py resurf_adj'), ('use in fits', S+'Craterplot.py calculate_age')], observe=['getplotdata(resurfacing=1)', 'Craterplot.a0/t'])

p('C08', 'Production function forms are one function in consistent units',
  "For every production function and level a0, the cumulative form is the defining polynomial (or tabulated bins summed), the differential form is minus its derivative, R is D^3 times the differential form and the Hartmann form is the differential form times the root-2 bin width; all scale together as 10^a0, are positive (one recorded definition excepted) inside the stated diameter range, and cumulative density does not increase with diameter. "
  "An explicit level is always used as given - including zero - and the default level only when none is given. "
  "Curves returned for plotting lie on the function and are clipped to its valid range.",
  ['inputs', 'configurations'], 'all listed production and equilibrium functions and generated polynomial and tabular definitions x a0 in [-12,4] including 0 x diameters',
  "Tests evaluate one function at two diameters and one level.",
  ['Productionfn.py', 'gm/maths/poly.py', 'miscellaneous.py', 'config/functions.txt'],
  [('polynomial forms', S+'Productionfn.py polynomial_*'), ('tabular forms', S+'Productionfn.py hartmann_calc'), ('dispatch/default level', S+'Productionfn.py evaluate, getplotdata')], observe=['Productionfn.evaluate', 'Productionfn.getplotdata'])

p('C09', 'Chronology functions convert age and crater density both ways',
  "For every chronology function the cumulative density at 1 km is the defining formula, zero at age zero and strictly increasing with age; the impact rate is its time derivative. "
  "Converting an age to a density and back returns the age within interpolation accuracy over 0-5 Ga, preserves order, and saturates at the ends instead of extrapolating. "
  "Curves returned for plotting lie on the function.",
  ['inputs', 'configurations'], 'all listed chronology functions and generated coefficient sets x ages in (0,5] Ga, scalar and array arguments',
  "Tests evaluate one function at one or two ages.",
  ['Chronologyfn.py'],
  [('formula', S+'Chronologyfn.py n1_coeff/phi_coeff'), ('inverse by interpolation', S+'Chronologyfn.py t')], observe=['N1, a0, phi, t, getplotdata'])

p('C10', 'Isochron fits recover the age that generated the data',
  "A cumulative or differential fit to densities lying on an isochron returns that isochron's level and hence its age, for any production/chronology pair, diameters and counting area; the level follows the logarithm of the density exactly, so multiplying densities by a factor or changing the area shifts it by the factor's logarithm. "
  "For data off an isochron the level is the published weighted least-squares solution, the lower and upper levels come from the error of the first fitted point (0.98 sigma), bracket the fit, and convert to ages bracketing the age. "
  "The reported N(d_ref) is the fitted isochron at the reference diameter and an empty range is refused.",
  ['inputs', 'configurations'], 'generated point sets (1 to 40 points) on and off isochrons, crater lists, all systems, ranges, fit types',
  "Tests fit one sample with one system.",
  ['Productionfn.py', 'Craterplot.py', 'Chronologyfn.py'],
  [('weighted fit', S+'Productionfn.py fit'), ('age calculation', S+'Craterplot.py calculate_age')], observe=['Productionfn.fit', 'Craterplot.a0/t/n_d/n/bin_range'])

p('C11', 'Poisson age likelihoods are the exact posterior for the crater count',
  "For k craters observed in a diameter range on an area, the age distribution is the Poisson likelihood weighted by the impact rate, normalised to one over 0-5 Ga; its median and 1-sigma ages, arbitrary percentiles and their inverse agree with the closed form gamma posterior of the chronology to the sampling accuracy. "
  "It depends on the data only through the number of craters inside the range [min,max) (fractions ignored), on area and production function only through the expected number; zero craters give a one-sided but finite result; more craters or smaller area never give a younger median. "
  "Sampled curves are non-negative with a non-decreasing cumulative from 0 to 1.",
  ['inputs', 'configurations'], 'k from 0 to 10^4, areas over many decades, all systems, diameter ranges inside validity, binned-only and individual counts (sampling accuracy: 0.9 % in density)',
  "Tests evaluate the median for one count.",
  ['Craterpdf.py', 'Craterplot.py', 'gm/maths/poisson.py'],
  [('likelihood sampling', S+'Craterpdf.py __init__'), ('percentiles', S+'Craterpdf.py t/cumulative_fraction/median1sigma'), ('range clipping to PF validity', S+'Craterplot.py calculate_age')], observe=['Craterpdf pdf/cdf/t/k', 'Craterplot.t'])

p('C12', 'Buffered Poisson ages use the diameter-dependent counting area',
  "For a buffered evaluation the expected number of craters is the integral over the range of the differential production function times (area + perimeter x D/2 + pi D^2/4), to integration accuracy for any width of range, and the age distribution is the Poisson posterior for that expectation. "
  "With zero perimeter and craters small against the area it coincides with the ordinary Poisson evaluation; a larger perimeter never gives an older age. "
  "A source without perimeter information is refused with an explanatory message.",
  ['inputs', 'configurations'], 'perimeters 0..10^4 km, areas, ranges from one bin to three decades, all polynomial and tabular systems',
  "One sample with one narrow range is drawn in the demo; no numeric test.",
  ['Craterpdf.py'],
  [('buffered integral', S+'Craterpdf.py __init__ (bcc)')], observe=['Craterpdf.lam, t'])

p('C13', 'Sequence probabilities compare two ages correctly',
  "The probability that one surface is older than another equals the integral over both age distributions: it lies between 0 and 1, the two orderings sum to one, identical distributions give one half, it matches the closed form for two counts, and it increases as the first count becomes denser. "
  "The sequence table lists that probability for every ordered pair of visible Poisson evaluations in plot order with its complement in the mirrored cell, their median ages and mean, and a probability of simultaneous formation between 0 and 1. "
  "The table is produced when requested on the command line.",
  ['inputs', 'configurations'], 'pairs and lists (2-6) of counts with k from 0 to 10^4 and area ratios over six decades; table from API and command line',
  "No test covers sequence probabilities or the table.",
  ['Craterpdf.py', 'Craterplotset.py', 'cli.py'],
  [('pair probability', S+'Craterpdf.py calculate_sequence_probability'), ('table', S+'Craterplotset.py create_sequence_table'), ('option', S+'cli.py -st')], observe=['calculate_sequence_probability', 'sequence csv'])

p('C14', 'Formatted ages, densities and diameters state the true value',
  "Numbers formatted for display equal the value rounded to the requested number of significant figures, with the right unit (Ga/Ma/ka/a, km/m), power of ten and sign; uncertainties are rounded in the same unit and multiplier as the value, to one figure fewer. "
  "Percentiles keep equivalent precision near 0 and 100, and LaTeX and MathML renderings carry the same numbers. "
  "Axis tick values are equally spaced nice steps covering the data without exceeding the requested number.",
  ['inputs'], 'finite values over 1e-12..1e12 of either sign, 1-6 figures (axis ticks: major ticks only, not two ticks about zero), values at rounding carries and unit boundaries, all option combinations',
  "A dozen literal examples are tested; carries at rounding boundaries and unit edges are not.",
  ['gm/string/sigfigs.py', 'gm/string/scientific_notation.py', 'gm/string/diameter_range.py', 'gm/string/percentile_sigfigs.py', 'miscellaneous.py', 'gm/plotting/ticks.py'],
  [('significant figures', S+'gm/string/sigfigs.py'), ('age string', S+'miscellaneous.py str_age'), ('ticks', S+'gm/plotting/ticks.py')], observe=['returned strings and tick arrays'])

p('C15', 'Command-line overplots resolve abbreviations and persist as documented',
  "Any abbreviation whose characters appear in order in a menu entry selects the shortest such entry, case-insensitively, literally for every punctuation character; abbreviations matching nothing (or several entries where a unique one is required) are refused with a message instead of crashing. "
  "Each overplot takes the properties given for it; source, binning, colour, symbol, snap, isochron and error-bar settings persist to later overplots until changed, the type persists at least while the source is not respecified, and all other properties return to their defaults. "
  "Invalid keys, values and missing '=' are refused.",
  ['inputs', 'histories'], 'abbreviations derived from and foreign to every menu; sequences of 1-6 overplot specifications with arbitrary subsets of keys',
  "Tests check two abbreviations and no overplot sequences.",
  ['cli.py', 'constants.py'],
  [('abbreviation decoding', S+'cli.py decode_abbreviation'), ('overplot dictionaries', S+'cli.py construct_plot_dicts, AppendPlotDict'), ('set options', S+'cli.py construct_cps_dict')], observe=['construct_plot_dicts/construct_cps_dict results', 'SystemExit messages'])

p('C16', 'Saved command files reproduce the plot; outputs go where asked',
  "A command line that produces outputs leaves exactly the requested image and table formats, under the requested name or directory (or the documented default name), plus a command file; running that command file, from any directory and for any quoting, spaces or negative numbers in the original arguments, reproduces the same table and figure content. "
  "Paths in a command file are relative to its own folder, the replay leaves it unchanged, and comments and blank lines in command or included files have no effect. "
  "Nothing is written outside the output location.",
  ['inputs', 'configurations', 'histories'], 'generated argument lists (sources, titles, legends, ranges, overplots, formats, output names, with spaces, quotes, hashes, unicode, commas, negatives) and replays from other directories',
  "One test runs the demo commands; none replays a saved command file.",
  ['cli.py', 'gm/file/filename.py', 'gm/file/write_textfile.py'],
  [('command file writer', S+'cli.py main'), ('command file reader', S+'cli.py LoadFromFile'), ('default naming', S+'cli.py set_default_filename'), ('writers', S+'cli.py write_output_files')], observe=['files in the output directory', '.cs and .csv content'])

p('C17', 'The summary table states the calculated ages for every fit',
  "The summary table has one row per age evaluation in plot order, each with the same number of comma-separated columns as the header, and every field equals the value calculated for that evaluation: name, area, binning, diameter range actually used, method, crater numbers, age rank, age with limits, level with limits, N(d_ref) with limits, source. "
  "Rows do not depend on which other evaluations are listed, except for the rank, and ranks order the ages from oldest to youngest. "
  "The formatted age and density columns agree with the numeric ones.",
  ['inputs', 'configurations'], 'lists of 1-6 overplots mixing data, Poisson, cumulative and differential fits (resurfacing on/off), ranges, binnings, reference diameters',
  "One fixed table of one sample is compared.",
  ['Craterplotset.py', 'Craterplot.py'],
  [('table', S+'Craterplotset.py create_summary_table'), ('age calculation', S+'Craterplot.py calculate_age')], observe=['summary table text'])

p('C18', 'Automatic axes contain all plotted data in every presentation',
  "Unless given explicitly, axis ranges are whole decades that contain every plotted data point of every overplot with the documented aspect (equal decades; two vertical decades per horizontal decade in differential plots; a standard frame in Hartmann, chronology and rate plots) and do not depend on the order of overplots. "
  "Explicit ranges are used exactly as given, independently for each axis. "
  "Diameter tick labels state the diameter at their position in km or m.",
  ['inputs', 'configurations'], 'lists of 1-4 overplots over 0.001-1000 km x presentations x binnings x explicit ranges on neither, either or both axes x axis styles',
  "One autoscale result on one sample is tested.",
  ['Craterplotset.py', 'Craterplot.py', 'miscellaneous.py'],
  [('autoscale', S+'Craterplotset.py autoscale'), ('ticks', S+'Craterplotset.py CreatePlotSpace; '+S+'miscellaneous.py Hartmann_bins')], observe=['xrange/yrange', 'axes of the drawn figure'])

p('C19', 'Drawn figures show the computed data, ages and curves',
  "In the drawn figure every visible overplot appears once with marker positions equal to the computed densities, error bars spanning the computed errors, its colour and symbol; fits are drawn as the production function at the fitted level over the fitted range with the age text of the calculation, and the legend states the counts, range, area and N value requested. "
  "Hidden overplots contribute nothing, requested isochrons are drawn at the level of their age, and an equilibrium function truncates isochrons to the part below it (none if wholly above). "
  "Sequence plots place each age distribution's median and limits at the calculated ages.",
  ['inputs', 'configurations'], 'lists of 1-4 overplots x presentations x legend options x isochrons x equilibrium/epoch overlays x styling',
  "Tests draw one plot and inspect nothing but absence of exceptions.",
  ['Craterplot.py', 'Craterplotset.py', 'Productionfn.py', 'Epochs.py'],
  [('overplot', S+'Craterplot.py overplot/overplot_sequence_element/make_legend_label'), ('isochrons', S+'Craterplotset.py plot_isochrons; '+S+'Productionfn.py getisochron'), ('epochs', S+'Epochs.py oplot')], observe=['matplotlib artists of the figure'])

p('C20', 'Epoch boundaries and equilibrium limits convert consistently',
  "Epoch boundary ages given as densities at reference diameters equal the ages at which the chosen production and chronology functions reach those densities; those given as times are used as stated; boundary times increase. "
  "A truncated isochron keeps exactly the diameters where it lies below 0.8 of the equilibrium function and is otherwise identical to the untruncated one. "
  "Epoch regions are bounded by the isochrons of their limiting ages, and on time axes by those ages, whatever part is displayed.",
  ['inputs', 'configurations'], 'all listed epoch systems and generated definitions x all production/chronology pairs; isochron ages x equilibrium functions x presentations (to one sampling step of the drawn curve)',
  "One epoch system with one pair is tested.",
  ['Epochs.py', 'Productionfn.py'],
  [('density to time', S+'Epochs.py __init__'), ('truncation', S+'Productionfn.py getisochron'), ('formatting codes', S+'Epochs.py decode_formatting')], observe=['Epochs.time', 'getisochron result', 'drawn epoch regions'])

p('C21', 'Spatial counts have the true spherical area, perimeter and fractions',
  "For any counting area made of one or more polygons with holes and islands on a sphere of any radius, the reported area and perimeter are the spherical ones of the region as drawn, independent of vertex order, starting vertex, ring numbering and coordinate projection, and scale with the radius squared and radius. "
  "Craters read from outlines have the diameter of the circle of equal spherical area at the outline's centre, a fraction of one when inside, between zero and one according to the linear penetration of the boundary when crossing it, and are dropped when outside. "
  "Each crater's fraction read from a file stays attached to that crater.",
  ['inputs'], 'generated polygons (convex, star-shaped, holes, islands, several areas; mid and high latitude, across the antimeridian) x radii x crater positions and sizes relative to the boundary',
  "Two sample datasets are compared with stored values.",
  ['Spatialcount.py', 'miscellaneous.py'],
  [('ring assembly', S+'Spatialcount.py readSCCfile/readSHPfiles'), ('diameter and fraction', S+'Spatialcount.py readSHPfiles; '+S+'miscellaneous.py fractional_crater_transform')], observe=['Spatialcount area/perimeter/diam/fraction/lon/lat'])

p('C22', 'Converting between scc and shapefile preserves the count',
  "Converting a spatial count from .scc to shapefiles and back, or from shapefiles to .scc, preserves the crater diameters, positions and boundary fractions, the area and perimeter, and the structure of the counting area including several polygons and holes, to stated accuracy. "
  "Areas and perimeters written in text form keep their magnitude for any size of region. "
  "The converted files are named after the source or the requested output and analyses made from either form give the same ages.",
  ['inputs', 'histories'], 'generated counts with 1-3 polygons, 0-2 holes, craters inside and across boundaries, radii from asteroid to Mars size, areas 1e-3 to 1e7 km2; conversions chained in both directions (outlines of 100 points: diameters to 4e-4, recomputed fractions to 0.02)',
  "No test converts any file.",
  ['Spatialcount.py', 'Cratercount.py', 'cli.py'],
  [('writers', S+'Spatialcount.py writeSCCfile/writeSHPfiles/find_rims/polygon_to_pts'), ('text area reader', S+'Cratercount.py ReadSCCfile'), ('convert command', S+'cli.py convert_format')], observe=['files written by --convert, read back'])

p('C23', 'Merging counts adds areas and keeps every crater',
  "Merging crater count files produces a file whose area and perimeter are the sums and whose craters are the multiset union of the inputs' (diameter, fraction) pairs to the printed precision; the merged densities are the area-weighted combination of the inputs. "
  "The result does not depend on the order of the files and merging is associative; the merged file is named as requested or after the inputs. "
  "Fewer than two files or binned-only files are refused and every listed source type can be merged.",
  ['inputs', 'histories'], 'two to five generated .diam/.scc files with and without perimeter and fractions, paths with spaces; merges of merges; buffered counts excepted, perimeters when known for all',
  "No test merges files.",
  ['miscellaneous.py', 'cli.py', 'gm/string/quoted_split.py'],
  [('merge', S+'miscellaneous.py merge_cratercounts')], observe=['merged .diam file'])

p('C24', 'Randomness measures and Monte Carlo trials are what they claim',
  "The mean second-closest-neighbour distance equals the brute-force great-circle value for every configuration, and the adjacent-area measure equals the standard deviation of nearest-crater cell areas, which tile the counting region exactly. "
  "Each Monte Carlo trial places exactly the requested number of points inside the region, no two closer than the erasure distance, uniformly by area, and trials are independent draws: the same seedless command repeats exactly, and no trial's result is a copy of another's. "
  "The reported deviation and percentile are those of the real configuration against the trials, and an analysed random configuration is not flagged more often than chance allows.",
  ['inputs', 'schedules'], 'generated point sets (3-60) in generated regions x both measures x grid resolutions; trial sets for several region shapes, counts and worker counts; distinct craters',
  "No test runs a randomness analysis.",
  ['Randomnessanalysis.py'],
  [('neighbours', S+'Randomnessanalysis.py kth_nearest_neighbour_pp'), ('adjacent areas', S+'Randomnessanalysis.py sdaa'), ('placement', S+'Randomnessanalysis.py sprinkle_discs_pp/random_points_pp'), ('parallel trials', S+'Randomnessanalysis.py montecarlo_pp'), ('statistics', S+'Randomnessanalysis.py calculate_stats')], observe=['measure values', 'montecarlo trials and stats'])

p('C25', 'Randomness results persist and resume without being lost',
  "Saved randomness results reload to the same trial values, bins, measures and trial numbers to the printed precision, and a reloaded analysis reports the same statistics as the one that wrote it. "
  "Resuming with no more trials than stored reuses the stored ones, asking for more recomputes, evaluating one measure keeps the other's stored results, and results written after one measure completes survive an interruption during the next. "
  "A count opened next to its results shows the stored deviations, and an analysis with too few craters or trials is refused.",
  ['histories', 'crash_points'], 'histories of run/save/reload/interrupt with measures in any order and trial numbers, generated stored tables including bins missing from one measure',
  "One stored file is parsed for drawing only.",
  ['Randomnessanalysis.py', 'Cratercount.py', 'cli.py'],
  [('write/read', S+'Randomnessanalysis.py write/read'), ('skip rule', S+'Randomnessanalysis.py run_montecarlo'), ('per-measure save', S+'cli.py randomness_analysis'), ('plot-side reader', S+'Cratercount.py read_ra_file')], observe=['_ra.txt file', 'montecarlo attribute after reload', 'Cratercount.n_sigma'])

p('C26', 'Every listed system and any valid user definition is usable',
  "Every chronology system, equilibrium function and epoch system that the program lists can be selected by its full name and used for a plot, and resolves to the production and chronology functions it names. "
  "Functions defined in a user file are added to the built-in ones and usable the same way without altering any built-in definition (a name already in the built-in list keeps its built-in meaning); a missing or unreadable user file leaves the built-in list working. "
  "Inline text, dictionary and file definitions give identical functions.",
  ['configurations', 'inputs'], 'all listed systems x presentations; generated user function files (polynomial and tabular production functions, chronologies, systems, epochs) with random layout',
  "Tests construct one system from the list.",
  ['miscellaneous.py', 'cli.py', 'Productionfn.py', 'Chronologyfn.py', 'Epochs.py', 'config/functions.txt'],
  [('function list', S+'miscellaneous.py Functionslist'), ('selection', S+'cli.py construct_cps_dict')], observe=['Functionslist.functions', 'constructed pf/cf/ep/ef', 'drawn plots'])

p('C27', 'Results do not depend on what was computed before',
  "Any sequence of evaluations on the same crater count - changing binning, presentation, range, production function, fit type, exporting, drawing - gives at each step the same result as a fresh count evaluated once. "
  "Evaluations never modify the crater list, area or the caller's arguments, and repeated runs of the program in one process give the same outputs as separate runs. "
  "The order in which overplots are evaluated does not matter.",
  ['histories'], 'random sequences (up to 20 steps) of operations over shared objects compared with fresh objects; sequences of program runs in one process',
  "Each test uses fresh objects once.",
  ['Cratercount.py', 'Craterplot.py', 'Craterplotset.py', 'cli.py', 'constants.py'],
  [('binning cache', S+'Cratercount.py binned/binning'), ('defaults copied per run', S+'cli.py main')],
  state=[('binned/binning', 'cached binning of the count', S+'Cratercount.py')], observe=['every operation result'])

p('C28', 'Age-area uncertainty maps state the uncertainty at each grid point',
  "For the uncertainty presentation, each grid cell's expected crater number is production density above the minimum diameter (up to 1000 km) at that age times that area, the simulated count is a draw from that Poisson law (the mean itself above 1e5), and the stated uncertainty and measured/actual ratio are those of the Poisson age evaluation of that count. "
  "The grid spans the displayed age and area axes in order with the split linear/logarithmic age scale and the requested number of samples. "
  "The saturation and whole-body limits are placed at the age where the production function meets equilibrium at the minimum diameter and at the body's surface area.",
  ['inputs', 'configurations'], 'generated minimum diameters, axis ranges (linear only, split), sample numbers, aspect ratios, systems with and without equilibrium functions; limits within the displayed axes',
  "No test covers this presentation.",
  ['Craterplotset.py', 'Craterpdf.py'],
  [('grid computation', S+'Craterplotset.py compute_age_area'), ('axes', S+'Craterplotset.py calculate_time_axis_params'), ('limits', S+'Craterplotset.py age_area_plot')], observe=['compute_age_area result', 'drawn limits'])

p('C29', 'Maps and randomness figures show the count they were made from',
  "A map of a spatial count shows every outline and hole of the counting area and every crater's rim at its true position in an orthographic view about the area's centroid, all inside the frame, with grid lines at the stated latitudes and longitudes; requested bin boundaries on a plot are those of its binning. "
  "Each panel of a randomness figure shows exactly the craters of one requested size bin, in order, with their stated number and diameters, joined to their second-closest neighbours or divided by their cells, above a histogram holding every stored trial with the mean, one-sigma band, actual value and percentile, and the deviation chart has one correctly placed point for each bin with clustered below and separated above. "
  "Every requested image format of every requested map or measure is written with the same content.",
  ['inputs', 'configurations'], 'generated regions (1-3 parts, holes, islands, poles, antimeridian, up to a hemisphere) x radii x craters as maps; size bins x stored trials x measures x panel selections x formats; binning styles x presentations',
  "No test looks at a map or a randomness figure.",
  ['Spatialcount.py', 'Randomnessanalysis.py', 'Craterplotset.py', 'cli.py', 'gm/plotting/shp_plot_polygon.py'],
  [('map', S+'Spatialcount.py plot/find_rims'), ('panels', S+'Randomnessanalysis.py plot_montecarlo_split/plot_map_and_histogram/plot_histogram'), ('deviation chart', S+'Randomnessanalysis.py plot_n_sigma'), ('bin boundaries', S+'Craterplotset.py CreatePlotSpace'), ('writers', S+'cli.py write_output_files, convert_format')], observe=['matplotlib artists of the figures', 'names of files written'])

p('C30', 'Figures come out in the size and style asked for',
  "A single print dimension gives that many centimetres per decade along the diameter or age axis, with the presentation's own proportion on the density axis; a box gives a plot area of those proportions that fits inside it and touches a side, or that fills it exactly for sequence, uncertainty and map figures; the plot area lies inside the figure, axis ranges are those given, and every saved image format has the figure's physical size. "
  "Titles, axis titles, font, background (normal or inverted), transparency outside the plot area only and text halo are those requested; every text scales with the point size, and symbols scale with the plot. "
  "Drawing a plot set again gives the same figure.",
  ['inputs', 'configurations', 'histories'], 'generated print dimensions (1-4 cm per decade, boxes of 5-20 cm) x point sizes x axis ranges of at least a decade (the frame of Hartmann plots is fixed) x presentations x titles, fonts, styles, inversion, halo, transparency x png, tif, svg and pdf without tight framing; repeated drawing',
  "Tests look at no figure.",
  ['Craterplotset.py', 'cli.py', 'Spatialcount.py'],
  [('plot layout', S+'Craterplotset.py CreatePlotSpace/create_time_axis_plotspace/create_map_plotspace'), ('fonts and sizes', S+'Craterplotset.py EstablishFontandScaling'), ('writers', S+'cli.py write_output_files')], observe=['matplotlib figure', 'size and pixels of saved files'])

p('C31', 'Damaged files are refused by name, never hang and harm nothing else',
  "A count file (.diam, .scc - also read as a spatial count - or .stat) or randomness results file damaged anywhere - cut short, or with characters or lines lost, repeated or inserted - is either refused within seconds by a message naming that file, leaving no outputs, or read as rows and trial values written in it, with as many fractions as craters and as many trials as stated. "
  "A damaged user function file never hangs the program and neither alters nor blocks a built-in system; a damaged command file that is refused leaves no outputs. "
  "Reading never alters a file, and stopping the program at any point while randomness results are being written leaves the earlier results or the later ones whole.",
  ['inputs', 'fault_sequences', 'crash_points'], 'valid generated .diam, .scc, .stat, randomness results, user function and command files with 1-3 faults at any position; interruption after any number of characters of a rewrite of results',
  "Tests read only undamaged files; a fault can be anywhere, and a hang or a lost result shows only at some positions.",
  ['gm/file/', 'Cratercount.py', 'Randomnessanalysis.py', 'Functionslist.py', 'cli.py'],
  [('structured text reader', S+'gm/file/read_textstructure.py read_textstructure'), ('count files', S+'Cratercount.py Cratercount.__init__/ReadStatFile/ReadDiamFile'), ('randomness results', S+'Randomnessanalysis.py read/write'), ('user functions', S+'Functionslist.py Functionslist')], observe=['exit messages', 'files before and after'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for e in P:
        assert len(e['title']) <= 80, (e['id'], len(e['title']))
        f.write(json.dumps(e, ensure_ascii=False) + '\n')
print(len(P), 'properties')
