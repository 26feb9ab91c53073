#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


SD = 'rsbeams/rsdata/SDDS.py'
p('C01', 'Written SDDS files read back exactly what was written',
  'Any columns (double, short or long, and strings in ascii files) and parameters saved with the SDDS writer, in ascii or binary mode, are returned by the SDDS reader with the same names, order, number of rows, and values, bit for bit for doubles and exactly for integers. '
  'Units, symbols, descriptions, format strings, declared types and fixed values of parameters come back as given, and files with a single row, no rows, no columns, only columns or only parameters work as well. Saving does not change the data handed in.',
  ['inputs', 'configurations'],
  'all tables of supported types, values (integer limits, denormals, infinities, NaN), row counts and attribute texts without quotes or line breaks, in both modes, read with either reader option',
  'The tests write two or three fixed arrays and read back one of them; they never mix column types, vary values or row counts, or check attributes.',
  [SD, 'rsbeams/rsdata/datatypes.py', 'rsbeams/rsdata/struct_data.py'],
  [('column dtype and format per declared type, header attributes, row count placement', 'writeSDDS.save_sdds/_write_header'), ('reader', 'readSDDS')],
  ['writeSDDS.create_column/create_parameter/save_sdds', 'readSDDS.columns/parameters and metadata accessors'])
p('C02', 'The SDDS reader decodes every conforming SDDS file',
  'For every little-endian SDDS version 1 file built from parameters and columns, ascii or binary, with any number of pages and rows per page (equal or different between pages), comments, blank lines, strings, fixed-value parameters and files without row counts, the reader returns every parameter and column value of every page, in order, aligned with its page. '
  'Nothing is dropped, duplicated, truncated (strings up to the given maximum length) or taken from another page.',
  ['inputs', 'configurations'],
  'all such files, from an independent encoder, including string columns of different lengths per row, single rows, empty pages, header comments and namelists over several lines',
  'The tests read about ten fixed files and spot-check values; page structure, string lengths, comments and row-count variants are only sampled there.',
  [SD, 'rsbeams/rsdata/struct_data.py', 'rsbeams/rsdata/utils.py', 'rsbeams/rsdata/datatypes.py'],
  [('page loop, parameter and column readers, end-of-file detection', 'readSDDS.read'), ('merging of records', 'StructData')],
  ['readSDDS.columns', 'readSDDS.parameters'])
p('C03', 'Reader options never change the data read from an SDDS file',
  'Reading a file through memory or directly from disk gives identical parameters and columns, and the maximum string length does not matter as long as it covers the longest string. '
  'Asking for some pages returns exactly those pages of a complete read, in file order, whatever the order they are asked in; pages past the end are ignored.',
  ['configurations', 'inputs'],
  'all conforming files and all combinations of buffering, maximum string length and page selections (also past the end)',
  'The tests compare the two ways of reading on fixed files, with one page selection on one file.',
  [SD], [('two readers with their own position bookkeeping', 'readSDDS.read/_get_parameter_data/_get_column_data')],
  ['readSDDS(buffer=..., max_string_length=...).read(pages=...)'])
p('C04', 'SDDS metadata accessors report what the header declares',
  'For every parameter and column of an SDDS file the reader reports the symbol, units, description, format string and type given in the header, and the typed fixed value of a fixed parameter, whatever the order of the attributes, the quoting and the spacing or line breaks of the definition. '
  'Attributes that are not given are reported as empty, and a name that is not declared is an error.',
  ['inputs'], 'all header definitions with quoted and unquoted values, in any attribute order and layout, with characters common in accelerator notation (dollar codes, single quotes, brackets, equals signs)',
  'The tests check the accessors for a few entries of two files.',
  ['rsbeams/rsdata/datatypes.py', 'rsbeams/rsdata/utils.py', SD], [('namelist parsing', 'Datum.parse_namelist, utils._shlex_split'), ('accessors', 'readSDDS.parameter_*/column_*')],
  ['readSDDS.parameter_symbol/units/description/format_string/type/fixed_value', 'readSDDS.column_*'])
p('C05', 'Malformed SDDS input is refused, never misread and never hangs',
  'A file that does not start with the SDDS identifier, whose header is cut off, or whose header holds unknown text is refused with an exception, and reading any prefix of a valid binary or ascii file ends within bounded time. '
  'If reading a cut-off binary file succeeds, every complete page before the cut is returned with its true values.',
  ['fault_sequences', 'inputs'], 'every truncation point and random damage of generated valid files, both reader options',
  'No test reads a damaged file; a header without its end used to hang the reader forever.',
  [SD, 'rsbeams/rsdata/utils.py'], [('header loop', 'readSDDS._read_header, utils._read_line')], ['readSDDS(...)', 'readSDDS.read'])
p('C06', 'elegant particle files convert to species and back without change',
  'Reading an elegant phase-space file gives a species whose x and y are the file positions, whose transverse momenta are slope times total momentum, whose time coordinate is the time times the speed of light, whose momentum is that of the file, and whose total charge is that of the file (0 if it has none). '
  'Writing the species as an elegant file and reading it again restores every coordinate (to rounding) and the charge for any number of particles, and writing leaves the species unchanged.',
  ['inputs', 'histories'], 'all elegant particle files (ascii or binary, extra columns and parameters in any order) and all species with non-zero momentum',
  'The tests convert one file and compare ranges of one coordinate.',
  ['rsbeams/rsdata/switchyard.py', 'rsbeams/rsptcls/species.py', SD], [('coordinate conversion', 'read_elegant, Switchyard.write_elegant')],
  ['Switchyard.read/write/species', 'Species.x/ux/y/uy/ct/pt'])
p('C07', 'OPAL files give the coordinates and charge of the requested step',
  'Reading an OPAL HDF5 file gives the coordinates x, px, y, py, z, pz of the requested step, in that order, or of the numerically last step if none is requested, with the total charge of that step, whether it is stored as in dump files or as in monitor files. '
  'Step 0 and a charge of 0 are valid, and a file without a charge is refused.',
  ['inputs', 'configurations'], 'all sets of step numbers (stored in any order, with other groups beside them), all particle counts and both charge attributes',
  'The tests read two fixed files and check the first step, the last step and one other.',
  ['rsbeams/rsdata/switchyard.py'], [('step selection and charge lookup', 'read_opal, _get_step_number')], ['Switchyard.read(..., "opal", step_number=...)', 'Species.coordinates/total_charge'])
p('C08', 'Genesis and OPAL output files hold every particle, in order',
  'A genesis file written from a species starts with its version, charge, size and column lines and then holds one line per particle with x, px, y, py, the time relative to the mean time, and the total momentum. '
  'An OPAL file written from a species holds the particle count followed by one line with the six coordinates per particle; numbers read back from either file equal those of the species, which is left unchanged.',
  ['inputs'], 'all species (any particle number and coordinate values) and version strings',
  'The tests compare file sizes or a single stored example.',
  ['rsbeams/rsdata/switchyard.py'], [('text writers', 'Switchyard.write_genesis/write_opal')], ['files written by Switchyard.write'])
p('C09', 'The particle registry keeps each species it was given, under its name',
  'Over any sequence of reads and writes, a species stays registered under the name it was first read as, a second read under a used name never replaces it, and a read without a name uses the default name. '
  'Writing uses exactly the named species (the default one when no name is given) and returns the file name; unknown formats are refused with an error and change nothing.',
  ['histories'], 'all sequences of reads (elegant and OPAL), writes (all codes) and refused calls over several names',
  'The tests read once and write once per object.',
  ['rsbeams/rsdata/switchyard.py'], [('registry', 'Switchyard._species_insert/read/write')], ['Switchyard.species', 'return value and files of Switchyard.write'])
p('C10', 'Every kinematic quantity determines all the others consistently',
  'From any one of momentum, velocity, total energy, kinetic energy, beta*gamma, beta, gamma or magnetic rigidity and a particle mass, the converter returns all of them such that the relativistic relations hold, including the given one itself. '
  'Feeding any returned quantity back returns the same state, to the accuracy its conditioning allows, and larger momentum always means larger energy, gamma, beta and rigidity.',
  ['inputs'], 'all physical values over many orders of magnitude of momentum and mass, for all eight input quantities',
  'The tests check eight inputs for a single electron state.',
  ['rsbeams/rsstats/kinematic.py'], [('start_* and calculate_* methods', 'Converter')], ['Converter(...)(silent=True)'])
p('C11', 'Kinematic results do not depend on the unit system or how they are asked for',
  'The same particle described in eV-based or SI units (input, mass and output units chosen independently) gives the same physical results, each expressed in the requested output unit and labelled with it; the reported mass and input are the ones the user gave. '
  'Calling a converter again gives the same numbers, the command line gives the same results as the Python interface, and anything but exactly one input quantity or an unknown unit is refused.',
  ['configurations', 'histories', 'inputs'], 'all combinations of three unit choices, eight quantities, default or given mass, repeated calls, and command line or Python use',
  'The tests use the default unit combination, and call each converter once.',
  ['rsbeams/rsstats/kinematic.py'], [('unit conversion', 'Converter.__init__/_unit_convert/__call__'), ('argument parser', 'parser, main')], ['Converter(...)(silent=True)', 'printed text of main()'])
p('C12', 'Beam statistics are the exact moments and leave the data alone',
  'Averages, variances, rms values, minima, maxima and the correlation matrix of a 6D particle array equal their definitions (normalised by the number of particles, symmetric, variances on the diagonal), do not depend on the order of the particles, shift and scale with the data, and leave the array unchanged. '
  'Subtracting averages and normalising rms change the array in place to zero mean and unit rms and nothing else.',
  ['inputs'], 'all 6xN arrays, N from 1, with offsets much larger than the spread, equal values and different scales per coordinate',
  'The tests compare one small fixed array and one random one.',
  ['rsbeams/rsstats/stats6d.py'], [('one-pass variance and two-pass correlations', 'calc_variance6d, calc_correlations6d')], ['stats6d.calc_*6d, sub_avg6d, normalize_rms6d'])
p('C13', 'Eigen-analysis of beam matrices is exact and decorrelates any beam',
  'For every symmetric 6x6 matrix the eigensolver returns the eigenvalues and an orthogonal set of matching eigenvectors, and removing correlations rotates any beam so that its covariance becomes diagonal while the eigenvalues of the covariance, the particle number and all distances between particles are kept. '
  'Rounding to significant figures returns the value correct to that many figures and 0 for 0.',
  ['inputs'], 'all symmetric matrices (diagonal, degenerate, indefinite, badly scaled) and all beams',
  'The tests use one random beam and check only the off-diagonal elements.',
  ['rsbeams/rsstats/stats6d.py'], [('Jacobi rotations', 'jacobi_eigen_solver6d'), ('rotation of the beam', 'rm_correlations6d')], ['jacobi_eigen_solver6d', 'rm_correlations6d', 'specify_significant_figures'])
p('C14', 'Generated 6D beams have exactly the requested Twiss parameters',
  'A generated uniform or Gaussian 6D distribution has zero mean, unit rms, no correlations and stays within its cut-off shape (before cleaning); matched to given Twiss parameters its alpha, beta and emittance in all three planes, as reported afterwards, equal the requested values for any alpha sign and any beta, and the planes stay uncorrelated. '
  'Offsetting or scaling one component changes only that component, and invalid types, sizes and indices are refused.',
  ['inputs', 'configurations'], 'all distributions types, particle numbers from 7, alpha of either sign or zero (also with gamma equal to beta), beta and emittance over many orders of magnitude, any random state',
  'The tests check a single set of Twiss parameters per class.',
  ['rsbeams/rsptcls/RsDistrib6D.py', 'rsbeams/rsptcls/RsPtclBeam6D.py', 'rsbeams/rsstats/stats6d.py'], [('cleaning and Twiss rotation', 'RsDistrib6D.clean_phase_space_6d/make_twiss_dist_6d'), ('reported Twiss', 'calc_twiss6d')], ['RsDistrib6D', 'RsPtclBeam6D.get_twiss2d_by_name/calc_twiss6d'])
p('C15', 'Phase-space containers and beam quantities keep their invariants',
  'A phase-space container hands out the array and each coordinate as given, reports the particle number of its array once it was checked, resets it to zeros of the right shape when the number is set, survives a save and load unchanged, and refuses non-positive numbers and empty file names without changing; its check refuses arrays of a bad shape and leaves the reported number alone. '
  'Twiss data satisfy beta*gamma - alpha^2 = 1, and a beam reports beta, gamma, and beta*gamma of its design momentum and mass consistently and its peak current as charge over rms duration.',
  ['histories', 'inputs'], 'all sequences of setting, resizing, saving, loading and checking, and all Twiss and beam parameters',
  'The tests call each accessor once on one object.',
  ['rsbeams/rsptcls/RsPhaseSpace6D.py', 'rsbeams/rsptcls/RsTwiss2D.py', 'rsbeams/rsptcls/RsPtclBeam6D.py'], [('shape checks', 'RsPhaseSpace6D.check_array/set_num_ptcls'), ('derived values', 'RsTwiss2D, RsPtclBeam6D')], ['RsPhaseSpace6D', 'RsTwiss2D', 'RsPtclBeam6D'])
p('C16', 'Linear-lattice bunches follow the requested distribution and Twiss parameters',
  'A KV bunch puts every particle on the shell of constant normalised Hamiltonian 4*emittance and a Gaussian bunch has rms sizes sqrt(emittance*beta) and sqrt(emittance*gamma) in each plane, with the Twiss parameters of that plane, also after any of them was changed through the setters or the distribution call. '
  'The bunch has exactly the requested number of particles with ids 0..N-1, the longitudinal coordinates have the requested spreads, a quiet KV bunch whose size is a multiple of 4 has zero centroid, and unequal KV emittances and setting a negative beta are refused.',
  ['inputs', 'configurations', 'histories'], 'all Twiss parameters, emittances, sizes and seeds, and sequences of setter and distribution calls',
  'The tests check the mean and rms of a bunch with default alpha for a fixed seed.',
  ['rsbeams/rsptcls/bunch.py'], [('distributions and setters', 'StandardBunch')], ['StandardBunch.particles', 'StandardBunch attributes'])
p('C17', 'Nonlinear-insert bunches respect their Hamiltonian limits',
  'The potential of the nonlinear insert equals the elliptic integrable potential for any strength and aperture, and particles of a KV bunch all have the Hamiltonian equal to the emittance, those of a waterbag bunch at most the total emittance, uniformly filled, those of a Gaussian bunch at most cut-off times the total emittance, and inside the aperture. '
  'The emittances of the bunch are the requested ones afterwards, beta is shared by both planes once it is set, and setting a negative aperture, strength, cut-off or beta is refused.',
  ['inputs', 'configurations', 'histories'], 'all strengths below one half, apertures, emittances, Twiss parameters, cut-offs, sizes, seeds and quiet settings, also changed after construction',
  'The tests generate one bunch per type and check its mean emittance.',
  ['rsbeams/rsptcls/bunch.py'], [('elliptic potential and sampling', 'NonlinearBunch.compute_potential/distribute_*')], ['NonlinearBunch.particles', 'compute_potential/compute_Hamiltonian'])
p('C18', 'The same seed always gives the same bunch',
  'Two bunches made with the same arguments and seed have identical particles, whatever was drawn from the random generators before, for every distribution type and for the longitudinal coordinates. '
  'Different seeds give different bunches, and seeding the generators by hand makes the 6D distributions repeatable in the same way.',
  ['histories', 'inputs'], 'all distributions, sizes, seeds (0 included), and all preceding use of the random generators',
  'No test makes the same bunch twice.',
  ['rsbeams/rsptcls/bunch.py', 'rsbeams/rsptcls/RsDistrib6D.py'], [('seeding of both generators', 'StandardBunch.__init__')], ['particles of StandardBunch and NonlinearBunch', 'RsDistrib6D'])
p('C19', 'Samples follow the requested distribution and stay in its interval',
  'The distribution function on a grid is non-decreasing, starts at the first weight over the total, ends at 1 and is independent of the scale of the weights. '
  'Drawing n samples returns an array of n values inside the interval whose distribution function is the requested one within statistical error, for random and for Halton points and for both ways of inversion; Halton samples repeat exactly, and unknown methods are refused.',
  ['inputs', 'configurations'], 'all positive smooth densities with parameters, intervals, grids fine enough to resolve them and sample sizes, and all combinations of method and inversion',
  'sample.py has no test at all.',
  ['rsbeams/rsstats/sample.py'], [('discrete distribution function and its inversion', 'cdf_on_grid, sample')], ['cdf_on_grid', 'sample'])
p('C20', 'Phase advance and tune are recovered from particle motion',
  'The phase advance between two phase-space vectors is the rotation angle between them in [0, 2*pi], does not depend on the length of the vectors, and the two rotation senses add up to a full turn. '
  'The tune of a sinusoidal motion is found, folded to [0, 0.5], to within one frequency bin, for any start and end index and amplitude.',
  ['inputs'], 'all vectors, angles, senses, tunes, phases, lengths and windows',
  'phases.py has no test.',
  ['rsbeams/rsptcls/phases.py'], [('angle difference', 'phase_advance'), ('Fourier peak', 'tune_fft')], ['phase_advance', 'tune_fft'])
p('C21', 'Beam centroid decoherence agrees with its defining integral',
  'The centroid position at any turn equals the amplitude integral of the waterbag beam for any order of tune dependence, the closed forms for one and two orders agree with numerical integration, and turn 0 is the initial offset. '
  'The list of centroids over all turns equals the single-turn values in order, whatever the number of processes.',
  ['inputs', 'configurations', 'schedules'], 'all turn numbers, offsets, tunes, tune-shift coefficients and process counts',
  'decoherence.py has no test.',
  ['rsbeams/rsphysics/decoherence.py'], [('closed forms and quadrature', 'CentroidPosition.integrate_*'), ('process pool', 'calculate_centroids')], ['CentroidPosition.integrate_first_order/second_order/any_order', 'calculate_centroids'])
p('C22', 'Beamlines keep their element order, length and positions under all edits',
  'Over any sequence of adding elements, adding sub-beamlines and editing parameters, a beamline lists its elements in the order they were added (nested lines expanded in place), its length is the sum of the element lengths, and the position of an element is the sum of lengths before its first use. '
  'Parameter names ignore case in every way of access, adding a used element name inserts the same element again, editing by name changes all elements of that name and by index only that one, and length and position cannot be set.',
  ['histories'], 'all sequences of element, sub-line and edit operations with any names, types and parameter sets',
  'The tests build one imported lattice and check its names and length.',
  ['rsbeams/rslattice/Beamline.py', 'rsbeams/rslattice/Element.py'], [('sequence, element table and edits', 'StructuredBeamline'), ('case-insensitive parameters', 'AgnosticDict')], ['get_beamline_elements', 'length', 'Element.edge', 'Element.parameters'])
p('C23', 'Saving and loading a beamline keeps its elements and structure',
  'A beamline saved to a file and loaded into an empty one has the same nesting of sub-lines, the same elements in the same order with the same names, types and parameters (values and their types), and the same length and positions. '
  'Loading into a beamline that is not empty changes nothing.',
  ['inputs', 'histories'], 'all beamlines with nested and empty sub-lines, repeated elements and numeric or text parameters',
  'No test saves or loads a beamline (both calls used to fail).',
  ['rsbeams/rslattice/Beamline.py'], [('YAML dump and rebuild', 'save_beamline/load_beamline')], ['save_beamline', 'load_beamline', 'get_beamline_elements'])
p('C24', 'Beamline transfer matrices are right, symplectic and composed in order',
  'The transfer matrix of a beamline of drifts and quadrupoles equals the product, in beam order, of the thick-lens matrices of its elements, has determinant 1 and is symplectic in each plane, and splitting an element changes nothing. '
  'A parameter given as a variable name yields a function of that variable which gives the same matrix as inserting the value directly.',
  ['inputs', 'programs'], 'all sequences of drifts and quadrupoles, strengths of both signs and zero, any lengths, numeric or symbolic parameters',
  'No test makes a matrix (parameters were not even inserted).',
  ['rsbeams/rslattice/Beamline.py'], [('substitution and multiplication', 'generate_matrix')], ['generate_matrix(concatenate=True/False)'])
p('C25', 'elegant lattice files parse to the beamline they define',
  'For every elegant lattice file in the supported syntax (comments, continuation lines, quoted names, any letter case, rpn variables and expressions, repetition counts, lines within lines), the parser returns the elements of the requested line in order, each with its type and its parameter values. '
  'Layout, comments, order of definitions and letter case do not change the result, and a missing line or element is an error.',
  ['programs'], 'all lattices from a grammar over elements, lines, repetitions, variables and layout, each compared with an independent expansion',
  'No test parses an lte file.',
  ['rsbeams/rslattice/lte_parser.py'], [('sanitising, line expansion, parameters', 'BeamlineParser')], ['BeamlineParser(file, line)()'])
p('C26', 'RPN expressions evaluate to their arithmetic value',
  'Every reverse-Polish expression over numbers, pi, the four operations and square roots evaluates to the value of the corresponding arithmetic expression with operands in the written order, whatever the quoting and spacing. '
  'Expressions with missing operands or unknown words are refused with an exception.',
  ['programs'], 'all expression trees of these operations printed in postfix form',
  'No test calls the evaluator.',
  ['rsbeams/rslattice/lte_parser.py'], [('stack machine', 'parse_rpn')], ['parse_rpn'])
p('C27', 'Sirepo lattices import exactly as they are defined',
  'Importing a beamline of a Sirepo lattice, from a file or from loaded data, yields its elements in order with name, type and parameters, nested lines expanded in place, lines with negative sign reversed (at every depth), repeated lines repeated, and values of rpn variables filled in. '
  'Lines that do not exist are refused.',
  ['programs', 'inputs'], 'all lattices of elements and acyclic nested lines with signs and repetitions, and all variable tables',
  'The tests import one stored lattice and compare names.',
  ['rsbeams/rslattice/templates/lattice_importer.py', 'rsbeams/rslattice/Beamline.py'], [('recursive expansion', 'parse_json')], ['parse_json(...).get_beamline_elements()'])
p('C28', 'Nonlinear inserts have the optics of their drift and matching strengths',
  'For any length, phase advance, strength, aperture and slice number, the beta function at the centre of each of the equal slices is that of a drift whose beta function is symmetric about its middle with the given phase advance, the initial beta is that at the entrance, and strength and aperture of each slice follow from the local beta, the strength and the aperture. '
  'The MAD-X text lists exactly these values, one element per slice in order; a changed parameter takes effect on the next generation, and setting a negative aperture is refused.',
  ['inputs', 'histories'], 'all lengths, phase advances (not a multiple of one half), strengths, apertures and slice numbers, and changes of any of them',
  'nonlinear.py has no test.',
  ['rsbeams/rslattice/nonlinear.py'], [('beta function and strengths', 'NonlinearInsert.generate_sequence'), ('text', 'create_madx')], ['s_vals, betas, beta0, knll, cnll', 'create_madx'])
p('C29', 'Plot helpers compute correct histograms, currents, symbols and profiles',
  'Histogram points are bin centres with counts that add up to the number of values, and the current profile integrates to the charge with times relative to the mean. '
  'Symbols are formatted character by character (Greek, special, super- and subscripts, unknown characters kept), and a magnet profile has one box per magnet, from its scaled start to its scaled end, in the colour of its kind.',
  ['inputs'], 'all data sets, bin numbers and charges, all symbol strings of the supported modes, all element sequences and scales',
  'The tests draw one plot per kind and check that nothing fails.',
  ['rsbeams/rsplot/util.py'], [('helpers', 'get_histogram_points, get_current_from_t, format_symbol, plot_profile')], ['return values', 'patches and lines of the axes'])
p('C30', 'Beam plots show the data of the selected page',
  'Phase-space, longitudinal, projection, profile and scatter plots draw exactly the particles of the selected page: the images and histograms are those of its data in the stated units and ranges, lines and scatter points are its values, and labels and limits are the given ones. '
  'Contour levels divide a range that is symmetric about zero and covers the field evenly, and plotting leaves the data unchanged.',
  ['inputs', 'configurations'], 'all particle data with several pages, bin numbers, charges given or stored, quantities and limits',
  'The tests draw stored files once and check that nothing fails.',
  ['rsbeams/rsplot/beam_plots.py', 'rsbeams/rsplot/RsScatterPS6D.py', 'rsbeams/rsplot/plot_ptcls.py'], [('drawing', 'beam_plots.*, RsScatterPS6D, scatter_contour, gen_contour_levels')], ['artists of the figures'])
p('C31', 'Trace3D and TraceWin lattices convert completely, in consistent units',
  'Converting a Trace3D or TraceWin lattice gives every element in order with its kind and parameters in SI-like units (lengths from mm to m, angles from degrees to radians, voltages and frequencies scaled), comments and layout ignored. '
  'Composite elements become their parts with the same total length, cavities carry the frequency set before them, bend lengths are radius times angle, and merging edges into bends and drifts into cavities keeps the order and the total length.',
  ['programs'], 'all lattices of the supported element kinds with any numbers (signs, exponents), comments and letter case',
  'No test parses these formats (both parsers used to fail on composite elements).',
  ['rsbeams/rslattice/trace3d_parser.py'], [('element tables, units and handlers', 'Trace3d, TraceWin')], ['Trace3d(file, name)()', 'TraceWin(file, name)()'])
p('C32', 'Lattices convert to Warp with strengths of the design momentum',
  'Converting an elegant lattice to Warp input writes every element of the beamline once and the line in order, with field gradients that follow from the normalised strengths and the beam rigidity at the design momentum, and bend radii that follow from length and angle.',
  ['programs'], 'all elegant lattices',
  'No test converts a lattice.',
  ['rsbeams/pkcli/lattice.py', 'rsbeams/rslattice/formatted_writer.py'], [('conversion and writer', 'elegant_to_warp, WarpWriter')], ['written file'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
