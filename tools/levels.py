"""per-property text for MANIFEST.json and DESIGN.md: technique, note (bounds, tolerances), why (what tests cannot reach)"""
L = {}


def p(i, technique, note, why):
    L[i] = {'technique': technique, 'note': note, 'why': why}


p('C01', 'property-based testing: format-fuzzing round trip (generated documents written by an independent writer, read by the program)',
  'Every layout feature of the three formats in random combination; values to the printed digits. Malformed numbers and missing required entries must be refused with the name of the file.',
  'The tests read four fixed files; column order, comments, CRLF, BOM, tabs, exponents and extra columns multiply into a space only a generator covers.')
p('C02', 'grammar-based fuzzing: model of a document -> random rendering -> parser, compared with the model; independent path splitter',
  'Documents of up to about 12 definitions and nesting as deep as the format allows. A table cell which is exactly "}" in the first column is outside the format.',
  'Tests parse the shipped files only; the interaction of quotes, comments, braces and blanks cannot be sampled by hand.')
p('C03', 'property-based testing: conservation and partition invariants against an independent bin lattice and interval membership',
  'Up to 45 diameters biased to boundaries and one ulp beside them, over seven binnings. Bin membership is asserted for diameters further than rounding from a boundary, conservation for all.',
  'A crater lost on a boundary shows only for particular floating-point values.')
p('C04', 'property-based testing: differential against the published density formulae, and metamorphic area scaling',
  'All presentations, binnings and production functions within their valid ranges; relative tolerance 1e-9 except for slopes from sampled functions.',
  'Tests compare a few stored numbers of one count.')
p('C05', 'property-based testing: reference rule by brute force over the boundaries, idempotence and additivity',
  'Range requests inside, outside, on and beside boundaries, bN/b-N indices, open ends. An unsnapped range only has to cover the request.',
  'Whether a limit is above or below a boundary matters only for particular pairs of limit and count.')
p('C06', 'property-based testing: exported text parsed independently and compared with brute-force binning; round trip back through the reader',
  'Numbers to the printed precision; counts with gaps, single bins, ties. A single-row table of seven columns is not readable (format limit).',
  'The tests compare one exported file.')
p('C07', 'property-based testing: fixed-point equation solved independently; metamorphic relations (area, surplus above range, ideal count)',
  'Cases in which the iteration converges more slowly than a factor .8 per step are labelled and not asserted.',
  'The correction is iterative: an error in the stopping rule or in what is shown appears only for particular counts and ranges.')
p('C08', 'property-based testing: differential against the written definitions (mpmath/numpy), numerical derivatives, scaling relations',
  'All 13+ listed functions and generated polynomials of degree 0-12 and tables; drawn curves are kept in single precision by the program (rtol 2e-6). Known finding: Vesta Rev3 turns over.',
  'Tests evaluate single values of a few functions; relations between forms must hold everywhere in the range.')
p('C09', 'property-based testing: chronology formula in mpmath, inverse against bisection with a tolerance derived from the interpolation grid',
  'Ages 0-5 Ga; the inverse of the program interpolates on a grid, and the tolerance is the computed interpolation error of that grid.',
  'An error at the young or the saturated end is invisible at the ages tests use.')
p('C10', 'property-based testing: exact isochrons and an independent weighted mean in log space',
  'Fits of 1-40 points; limits from the stated error model with min(err, density) below.',
  'Tests fit one count.')
p('C11', 'property-based testing: closed-form gamma posterior truncated at 5 Ga, compared through its distribution function; Hypothesis search over k, area, system',
  'k to 2e4; tolerance .7 % of probability, the sampling step of the density; ages outside the chronology saturate.',
  'Age and limits must be right for every k and system, including 0 craters and saturation; tests check a handful of printed ages.')
p('C12', 'property-based testing: adaptive quadrature of the buffered expectation and gamma posterior',
  'Perimeters to 1e5 km, k to 2000; ranges from one bin to the whole validity.',
  'One test case exists; numeric integration errors appear for wide ranges.')
p('C13', 'property-based testing: closed form (regularised beta) for two gamma posteriors, complement and transitivity relations; tables parsed back',
  'Up to six counts; 1-P may be as low as -2e-16.',
  'No test reads a sequence table with more than trivial content.')
p('C14', 'property-based testing: exact decimal arithmetic on parsed output strings',
  'Magnitudes 1e-12..1e12, 1-6 figures, all options.',
  'Carries (9.995 -> 10.0) and unit edges are measure-zero for hand-picked values.')
p('C15', 'property-based testing: independent subsequence matcher and a dictionary model of persistence over generated specification sequences (model-based)',
  'Menus and settings of the command line; up to six overplots.',
  'Persistence depends on the whole preceding sequence of options.')
p('C16', 'command-line fuzzing: metamorphic replay of saved command files from other directories; model of the files expected',
  'Arguments with blanks, quotes, unicode, commas, minus signs. A replay from another folder needs sources that are absolute or present there (limitation of the format).',
  'Quoting errors need particular characters in particular positions.')
p('C17', 'property-based testing: table parsed and compared with direct evaluation of every overplot',
  'Ages, limits, densities to the printed digits; one extra trailing blank column is allowed.',
  'Row/column assignments go wrong only in mixtures of overplots.')
p('C18', 'property-based testing: containment, aspect, order- and repetition-independence of automatic axes; drawn tick labels parsed back',
  'Points from .001 to 1000 km; the Hartmann frame is fixed.',
  'Automatic ranges depend on all overplots together.')
p('C19', 'property-based testing: artists of the drawn figure matched one-to-one with separately computed densities, fits, isochrons, legends',
  'Figures are inspected as matplotlib artists, not as pixels; label placement is not asserted. Curves to single precision.',
  'Image comparison tests sample a few figures; the figure must agree with the data for every combination of options.')
p('C20', 'property-based testing: bisection of the chronology formula, pointwise comparison with the equilibrium function, filled areas of drawn figures',
  'The truncation limit is sampled at 400 points by the program, and points within a sampling step of it are not asserted.',
  'Only one epoch system with one pair is tested.')
p('C21', 'property-based testing: independent spherical geometry (vector triangles, arcs, gnomonic overlap) and invariance under reordering',
  'Areas up to 25 degrees, holes, islands, poles, antimeridian; fractions to the chord error of the outlines.',
  'Ring order, numbering and the position on the sphere multiply; one file is tested.')
p('C22', 'property-based testing: file-format round trips in both directions judged by independent geometry',
  'Outlines are circles on a plane within 3.6 degrees: tolerance is the distortion of that plane.',
  'Round trips are tested for one file.')
p('C23', 'property-based testing: multiset-union model, commutativity and associativity of merges',
  'Two to five files in random merge trees; 6-7 printed digits.',
  'Merging is tested for one pair.')
p('C24', 'property-based testing: brute-force neighbours and cells; statistical tests of placement (fixed false-alarm rate below 1e-7 per case)',
  'Regions to 25 degrees, 1-3000 trials for the grid; coverage judged over exactly computed sub-areas. Craters closer than 2e-5 rad are excluded.',
  'Randomness of the Monte Carlo cannot be settled by a sample value; neighbour search goes wrong only across grid cells.')
p('C25', 'stateful property-based testing: histories of runs, moves and interruptions against a model of the stored results',
  'Up to six runs, interruption after any bin; values to 7 printed digits. The file is not written atomically: interruption within the write itself is not generated.',
  'The guarantee is over histories.')
p('C26', 'property-based testing and format fuzzing: every listed definition plus generated user files, against an independent line-based reader and the closed forms',
  'Known finding: "Vesta, Marchi & O\'Brien (2014)".',
  'Tests use the default list only.')
p('C27', 'stateful property-based testing: every result of a random history compared with the same operation on fresh objects / in a fresh process',
  'Exact comparison; up to 20 operations, up to 4 whole program runs per process.',
  'Hidden state shows only after particular sequences.')
p('C28', 'property-based testing: closed forms for the grid, Poisson tests (rate below 1e-8) for the draws, positions read back through the drawn axes',
  'Grids of 5-22 samples along the shorter side; ages of cells to 3-4 %.',
  'No test covers this presentation.')
p('C29', 'property-based testing: inverse orthographic projection of drawn artists against independent spherical geometry; recounted histograms',
  'Regions up to 80 degrees from the centroid; maps centred exactly on a pole are skipped (orientation undefined).',
  'No test looks at a map or a randomness figure.')
p('C30', 'property-based testing: measured layout of drawn figures and saved files against the requested dimensions; metamorphic rescaling of text and symbols',
  'Dimensions below 1 cm, axis ranges below a decade and tight framing are not asserted.',
  'Tests look at no figure.')
p('C31', 'fault injection with property-based testing: damaged copies of valid generated files and interrupted writes against the refuse-by-name-or-read-what-is-written rule',
  'Textual damage of 1-3 faults; damaged shapefiles (binary) are not generated; interruption at character granularity of buffered text writes.',
  'A hang or a lost result shows only at some fault positions.')
