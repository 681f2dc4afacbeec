LC = ['simim/lightcone/lcmaker.py', 'simim/lightcone/lchandler.py', 'simim/siminterface/simhandler.py']
prop('L01', 'A light cone holds every halo image in view, once, where the observer sees it',
     'For every simulation, placement, orientation and mirroring of the box, redshift range, field of view and minimum mass, a light cone contains every periodic image of every halo that lies in the shell of distances its snapshot stands for and in the field of view, and no other. '
     'None is there twice, and each has the position relative to the observer, in the axes of the line of sight, and the mass of that image.',
     ['inputs', 'configurations'], 'all boxes, snapshot ranges, apertures, redshift ranges, minimum masses, dice and light cone numbers, for simulations whose box may be copied and those whose box may not',
     'Tests build one narrow cone of one sample box and look at counts; missing images at faces of the box, at shell boundaries and in copies of the box depend on where the dice put the observer.',
     LC, [('light cone file', 'Lightcone Full/Basic and indices', 'lightcone directory')],
     [('LCMaker.build_lightcones', 'simim/lightcone/lcmaker.py'), ('image search and buffer', 'simim/lightcone/lcmaker.py')], ['light cone HDF5 file'],
     note='Every row and every image near the field of view of some hundred random light cones judged by TLC; the windowing scheme itself is checked exhaustively on a one-dimensional model.')
prop('L02', 'A light cone describes truthfully what it holds',
     'In every light cone and light sphere each halo\'s angles and redshift are those of its own position in the simulation\'s cosmology, halos come nearest first and the redshift index points where it says. '
     'Units, powers of h, shape, redshift range, snapshots, mass cut and orientation recorded are those of the order, and basic and full tables agree.',
     ['inputs', 'configurations'], 'all light cones and light spheres',
     'Tests read back the number of halos; consistency between redundant descriptions of the same halo has to hold for every row.',
     LC, [('light cone file', 'attributes, Lightcone Full/Basic, Indexing', 'lightcone directory')],
     [('LCMaker', 'simim/lightcone/lcmaker.py'), ('SphereMaker', 'simim/lightcone/lcmaker.py')], ['light cone HDF5 file'],
     note='As L01, on random light cones and spheres.')
prop('L03', 'Properties added to light cones are those of the same halos, as observed',
     'Whatever properties of the parent simulation are added to a finished set of light cones, in whatever order, with repetitions and unknown names, each row gets the value of its own halo in its own snapshot, with unit, power of h and data type kept. '
     'Vectors are mirrored and turned with the box (spins as axial vectors), centers of mass keep their place relative to their halo, and everything already there stays as it was.',
     ['histories', 'inputs'], 'all sequences of additions, over all sets, including empty light cones',
     'Tests add one scalar property to one set; mirroring, rotations and empty cones are not compared with the parent.',
     LC, [('light cone file', 'Lightcone Full', 'lightcone directory')],
     [('add_properties', 'simim/lightcone/lcmaker.py'), ('add_pos_properties', 'simim/lightcone/lcmaker.py')], ['light cone HDF5 file', 'warnings'],
     note='Histories from the state graph of LCSet and random ones; every added value recomputed by TLC from the parent tables.')
prop('L04', 'A light sphere holds every halo in range of a central observer, once',
     'For every simulation, placement, orientation and mirroring of the box, redshift range that fits in the box, part of the sphere and minimum mass, a light sphere contains exactly the halo images within range in that part of the sky, each once, with the position relative to the observer and the mass of that image.',
     ['inputs', 'configurations'], 'all boxes, snapshot ranges, redshift ranges, modes, minimum masses and dice',
     'Tests build one sphere and count; images across the faces of the box depend on where the observer is put.',
     LC, [('light cone file', 'Lightcone Full/Basic and indices', 'lightcone directory')], [('SphereMaker.build_lightcones', 'simim/lightcone/lcmaker.py')],
     ['light cone HDF5 file'],
     note='Every row and image judged by TLC; one open finding (radii between half the box in Mpc/h and in Mpc).')
prop('L05', 'Light cone sets are made as ordered, reproducibly, overwritten only with consent',
     'Ordering a set under a name that exists touches nothing without consent, and a refused order leaves every existing set as it was. '
     'Building the same order with the same random state gives the same light cones, light cones of one set and of unseeded builds are placed differently, and neither parent simulation nor other sets are ever changed.',
     ['histories', 'configurations'], 'every sequence of orders, replies, builds and additions over several names',
     'Tests order each set once with overwriting switched on.',
     LC, [('light cone directory', 'sets and files', 'lightcone directory')], [('LCMaker/SphereMaker set-up', 'simim/lightcone/lcmaker.py'), ('build_lightcones', 'simim/lightcone/lcmaker.py')],
     ['light cone directory', 'prompts'],
     note='Histories from the state graph of LCSet and random ones; files compared byte by byte.')
prop('L06', 'Iterating over light cones does to each what is done to one; looking is harmless',
     'Every call through an iterator does to each of its light cones, in order, exactly what it does to one handler, and its answers are keyed by light cone. '
     'Statistics per redshift bin see exactly the halos in the bin and leave active set, values and arguments as they were; volumes are those of the shell and aperture asked for, refused when these do not fit.',
     ['histories', 'inputs'], 'every sequence of calls through the iterator and single handlers, over sets of any shape and numbering',
     'Tests call one statistic on one light cone; leftover selections, order of bins, sub-apertures and mixed shapes are not sampled.',
     LC + ['simim/_handlers.py'], [('handlers', 'one per light cone', 'simim/lightcone/lchandler.py:LCIterator.lc_handlers')],
     [('LCIterator', 'simim/lightcone/lcmaker.py'), ('eval_stat_evo', 'simim/lightcone/lchandler.py:LCHandler'), ('volume', 'simim/lightcone/lchandler.py:LCHandler')],
     ['LCIterator', 'LCHandler'],
     note='Exhaustive on two light cones; walks and random histories on real files.')

GR = ['simim/map/gridder.py']
GT = ' Menus of operations on small grids explored breadth first by TLC and the walks over that state graph replayed; random histories on grids of one to three dimensions judged step by step.'
prop('G01', 'Gridding puts each object\'s value in its cell and nowhere else',
     'Whatever objects are added to a grid, in whatever order, batches and layout, each cell holds for every property the sum over exactly the objects inside it of weight times value, and objects outside the grid add nothing. '
     'Spectra land in the rows of their object\'s cell channel by channel, and a grid fitted to its objects is centred on them and holds them.',
     ['inputs', 'histories'], 'all positions, values, batches and grids, cell edges included',
     'Tests deposit a few points on one grid; edges, empty batches, several properties, leading channel axes and repeated additions interact.',
     GR, [('Grid', 'grid, axes, n_properties', 'simim/map/gridder.py:Grid')], [('Grid.add_from_cat', 'simim/map/gridder.py'), ('Grid.add_from_pos_plus_array/add_from_spec_func', 'simim/map/gridder.py'), ('Gridder', 'simim/map/gridder.py')],
     ['Grid', 'Gridder'], note='Integer-exact arithmetic; cells, edges and totals.' + GT)
prop('G02', 'Sampling a grid returns the value of the cell that holds the position',
     'For every grid with any history and every list of positions, sampling returns for each property the value of the cell that contains the position, whole spectra where a position leaves the channel axis out, and not-a-number for positions outside, in the order asked. '
     'Sampling never changes the grid.',
     ['inputs', 'histories'], 'all grids and positions, edges, channels and repeated positions included',
     'Tests sample some cell centres of a fresh grid.',
     GR, [('Grid', 'grid, axes, n_properties', 'simim/map/gridder.py:Grid')], [('Grid.sample', 'simim/map/gridder.py')], ['Grid.sample'],
     note='As G01.' + GT)
prop('G03', 'Reshaping a grid moves no value to another place',
     'After any sequence of padding, cropping, rescaling, down-sampling, collapsing and changes of units, the axes, centers, shape, side lengths and pixel size of a grid agree with one another and every surviving value is at the place it was. '
     'Padding adds zeros that un-padding removes, down-sampling and collapsing combine exactly the cells that merge, and refused operations leave the grid as it was.',
     ['histories', 'inputs'], 'all sequences of reshaping over grids of any shape, axis by axis',
     'Tests reshape cubic grids once, all axes at a time.',
     GR, [('Grid', 'grid, axes, shapes, padding', 'simim/map/gridder.py:Grid')], [('Grid.pad/unpad/crop/scale_axis/down_sample/collapse_dimension', 'simim/map/gridder.py')], ['Grid'],
     note='As G01.' + GT)
prop('G04', 'Copies, sums and saved grids equal their source and share nothing with it',
     'A copy, a product of an operation that is not in place and a grid saved and loaded again have the values, axes, units and Fourier state of their source, and nothing done to one afterwards shows in the other. '
     'Sums and choices of properties keep every value in its cell with its unit, and a saved file is replaced only when that is asked for.',
     ['histories', 'inputs'], 'all histories over several grids derived from one another',
     'Tests compare a copy once and never change it afterwards.',
     GR, [('Grids', 'several, derived from one another', 'simim/map/gridder.py:Grid')], [('Grid.copy/copy_axes/save/sum_properties/LoadGrid', 'simim/map/gridder.py')], ['Grid', 'LoadGrid', '.npz files'],
     note='Every grid alive is compared with the specification after every step.' + GT)
prop('G05', 'Fourier transforms and power spectra of grids are those of their values',
     'Transforming any set of axes and back restores the grid, with frequencies, units and flags of each axis right in between, whatever else was transformed, padded or normalised before. '
     'A power spectrum is that of each property (or pair) of the grid\'s values over the physical volume, and computing it leaves the grids as they were.',
     ['histories', 'inputs'], 'all sets of axes, normalisations and histories of grids with cells for which the transform is exact',
     'Tests transform one cube there and back.',
     GR, [('Grid', 'grid, fourier flags, axes', 'simim/map/gridder.py:Grid')], [('Grid.fourier_transform', 'simim/map/gridder.py'), ('Grid.power_spectrum', 'simim/map/gridder.py')], ['Grid'],
     note='Exact (Gaussian and Eisenstein integer) transforms on axes of 1, 2, 3, 4 and 6 cells.' + GT)
prop('G06', 'Convolutions and spherical averages use every cell with its right weight',
     'A convolution of a grid with a kernel or beam is the sum over cells of value times kernel at their separation, with nothing wrapped around the edges when padded, whatever axes are convolved. '
     'Averages in shells use every cell exactly once in the shell its distance belongs to, weighted as asked, and beams have the requested center, width and normalisation channel by channel.',
     ['inputs', 'histories'], 'all grids, kernels, sets of axes, shells, weights and centers',
     'Tests convolve a delta function and average one cube.',
     GR, [('Grid', 'grid, axes', 'simim/map/gridder.py:Grid')], [('Grid.convolve', 'simim/map/gridder.py'), ('Grid.spherical_average', 'simim/map/gridder.py'), ('PSF/SpectralPSF', 'simim/map/gridder.py')], ['Grid'],
     note='As G01.' + GT)
prop('G07', 'Gridding a catalogue puts every active halo in the cell it lies in',
     'The grid made of a snapshot or light cone has the limits and resolution asked for, or the box, the opening angles and redshifts (or observed frequencies) of the catalogue, in the units asked for. '
     'Every cell holds, for every property named, the sum over the active halos (or all, when asked) whose positions lie in it, normalised as asked; halos beyond the limits are left out and an empty selection gives an empty grid. '
     'Gridding leaves the catalogue, its selection and its loaded properties as they were.',
     ['inputs', 'histories', 'configurations'], 'all catalogues, selections, properties (created ones included), unit conventions, limits, resolutions and normalisations',
     'Tests grid one snapshot with default arguments; units, selections, limits and frequencies interact.',
     ['simim/siminterface/simhandler.py', 'simim/lightcone/lchandler.py', 'simim/_handlers.py', 'simim/map/gridder.py'],
     [('active set, default units', 'what is gridded, in which units', 'simim/_handlers.py:Handler'), ('box_edge, open_angle, aspect_ratio', 'default limits', 'simim/siminterface/simhandler.py:SnapHandler')],
     [('SnapHandler.grid', 'simim/siminterface/simhandler.py'), ('LCHandler.grid', 'simim/lightcone/lchandler.py')], ['Grid'],
     note='Catalogues of up to 9 halos inside cells, exact values, h = 1/2; every transition of a small model on a snapshot and a light cone, and random histories, are replayed and TLC compares every grid cell by cell.')

prop('G08', 'Pictures of a grid show every cell where it is',
     'The image of a grid shows, along the two axes asked for and in their order, each cell (its real part) between its own edges, in Fourier space at its frequencies, the other axes summed or cut at the indices asked for. '
     'The frames of an animation are the slices along the axis asked for, in order, each with the place it says it has; drawing leaves the grid and the settings passed in as they were, and requests that cannot be drawn are refused.',
     ['inputs', 'histories'], 'all grids of any number of dimensions and properties, in real and Fourier space, all choices of axes, slices and properties',
     'The tests draw one picture and do not look at it; transposed or shifted pictures of grids whose axes differ look as good as right ones.',
     ['simim/map/gridder.py'], [('grid, axes, fourier axes', 'what is shown and where', 'simim/map/gridder.py:Grid')],
     [('Grid.visualize', 'simim/map/gridder.py'), ('Grid.animate', 'simim/map/gridder.py')],
     ['figures'], note='As G01-G06; the meshes and colours of the figure are compared with the model cell by cell, figures are not rendered.')

IR = ['simim/instrument/instrument.py', 'simim/instrument/spatial_response.py', 'simim/instrument/spectral_response.py', 'simim/instrument/noise_functions.py']
IT = ' Random histories of instruments, detectors, fields and skies, and every transition of a small model of them, are replayed and TLC compares the whole instrument after every call.'
prop('I01', 'An instrument keeps exactly the detectors, fields and responses it was given',
     'After any sequence of adding, removing and changing detectors, fields and default responses, an instrument lists exactly the detectors and fields not removed, in order, each with the responses, arguments and offsets it was given or the defaults that stood when it was added. '
     'A call that cannot be carried out is refused and leaves no trace, and a caller who goes on changing what he passed in changes nothing in the instrument.',
     ['histories', 'inputs'], 'all histories of calls on an instrument, refused ones included',
     'Tests add a few detectors once; names, defaults, refusals and removal interact over histories.',
     IR, [('Instrument', 'detectors, detector_names, fields, field_names, defaults', 'simim/instrument/instrument.py:Instrument')],
     [('Instrument.add_detector/del_detectors', 'simim/instrument/instrument.py'), ('Instrument.add_field/del_fields', 'simim/instrument/instrument.py'), ('Instrument.set_spatial_respones/set_spectral_respones/set_noise_functions', 'simim/instrument/instrument.py'), ('Detector', 'simim/instrument/instrument.py')],
     ['Instrument', 'Detector'], note=IT.strip())
prop('I02', 'The map of a detector is the sky through its own beam and spectral response',
     'Mapping a field gives each detector the chosen property of the field convolved with that detector\'s spatial response (or the given beam), normalised as asked, and averaged over channels with that detector\'s spectral response as weights, on the axes of the field and in its units. '
     'It depends on no other detector or field and leaves the observed grid as it was.',
     ['inputs', 'histories'], 'all skies, groups of detectors that share responses or not, kernels, normalisations and paddings',
     'Tests map one field with one or two detectors; which detector gets which map depends on the grouping of equal responses and on earlier changes.',
     IR, [('Instrument', 'detectors, fields, maps', 'simim/instrument/instrument.py:Instrument')], [('Instrument.map_fields', 'simim/instrument/instrument.py'), ('gauss_psf, gauss_response, boxcar_response', 'simim/instrument')],
     ['Instrument.maps', 'Instrument.sample_fields'], note='Exact in binary fractions; Gaussians at points where they are powers of two.' + IT)
prop('I03', 'Samples come from up-to-date maps, at the pointing of each detector',
     'Sampling a field gives each detector the value of its own map at the position plus its pointing offset (not-a-number outside), plus noise from its own noise function for as many samples and with the time step given. '
     'Maps made before a detector was added, removed or changed are refused until mapped again, and sampling changes nothing.',
     ['histories', 'inputs'], 'all histories of changes, mapping and sampling; all positions, offsets and noise functions',
     'Tests sample right after mapping; stale maps need a change in between.',
     IR, [('Instrument', 'maps, maps_consistent, offsets, noise', 'simim/instrument/instrument.py:Instrument')], [('Instrument.sample_fields', 'simim/instrument/instrument.py'), ('white_noise, zero_noise', 'simim/instrument/noise_functions.py')],
     ['Instrument.sample_fields'], note='White noise through a scripted random source.' + IT)

prop('I04', 'Plots of detector responses show the responses those detectors have now',
     'For each detector named, or for all of them, the picture shows its present spectral response over the range asked for, and its present beam, at the frequency asked for or its own, over the region asked for, each point at its own offset along x and y. '
     'Ranges not given follow from the reference frequencies of the detectors shown and the best resolution of the instrument; without one, and for unknown detectors, the picture is refused, and drawing changes nothing.',
     ['histories', 'inputs'], 'all histories of adding, changing and removing detectors, all ranges, regions and frequencies',
     'No test looks at these pictures; mistakes show only with several detectors, asymmetric beams or after changes.',
     IR, [('Instrument', 'detectors and their responses', 'simim/instrument/instrument.py:Instrument')],
     [('Instrument.plot_detector_response', 'simim/instrument/instrument.py'), ('Instrument.plot_spectral_response', 'simim/instrument/instrument.py')],
     ['figures'], note='As I01; lines and meshes of the figures are compared with the model at points where the responses are exact, figures are not rendered.')

GP = ['simim/galprops/line_co.py', 'simim/galprops/line_densegas.py', 'simim/galprops/line_fir.py', 'simim/galprops/line_fir_yang.py', 'simim/galprops/line_co_dutycycle.py', 'simim/galprops/log10normal.py', 'simim/galprops/sfr_bethermin17.py', 'simim/galprops/sfr_behroozi13.py', 'simim/galprops/galprops_builtin.py']
GT = ' Every entry of a menu of all prescriptions after every other, and random histories of calls with random halos, parameters and generators, are made on the code; TLC computes every value in fixed-point logarithms.'
prop('P01', 'Every prescription gives each halo the luminosity of its published relation',
     'Each line-luminosity and star-formation prescription gives every halo, by itself, the mean value of the published relation for the line, sample and parameters asked for, on both sides of every threshold and redshift break, and zero where the relation says so. '
     'The result does not depend on the other halos of the call, on whether scalars, lists or arrays were passed or on whether it was asked of the function or of the built-in property, and unknown lines and samples are refused.',
     ['inputs'], 'all prescriptions, lines, samples, parameters, masses, star-formation rates and redshifts',
     'Tests evaluate a handful of prescriptions at one point with default parameters; breaks in mass or redshift, other lines and options are not touched.',
     GP, [('prescription constants', 'slopes, intercepts, breaks', 'simim/galprops/line_co.py')],
     [('CO lines', 'simim/galprops/line_co.py'), ('HCN', 'simim/galprops/line_densegas.py'), ('far-infrared lines', 'simim/galprops/line_fir.py'), ('Yang et al. 2022', 'simim/galprops/line_fir_yang.py'), ('Bethermin et al. 2017', 'simim/galprops/sfr_bethermin17.py')],
     ['prescription functions', 'Handler.make_property'], note='Tolerance 1.2e-4 dex (7e-4 for double power laws).' + GT)
prop('P02', 'Scatter and duty cycles come from the caller\'s generator and nothing else',
     'Log-normal scatter, duty cycles, starbursts and quenching are, halo by halo, those that follow from the deviates drawn from the generator the caller passed, with the width and mean convention of the relation or the one asked for. '
     'The same generator state gives the same values, no other source of randomness is used or disturbed, and halos with zero luminosity keep it.',
     ['inputs', 'histories'], 'all prescriptions with scatter, widths, conventions, generators, halos and sequences of calls',
     'Tests switch scatter off or look at one seed; a wrong width, shared deviates or a hidden generator looks random all the same.',
     GP, [('rng', 'the caller\'s generator', 'simim/galprops/log10normal.py')],
     [('log10normal', 'simim/galprops/log10normal.py'), ('duty cycles', 'simim/galprops/line_co_dutycycle.py'), ('bethermin17_base.sfr', 'simim/galprops/sfr_bethermin17.py')],
     ['prescription functions'], note='The deviates are recorded by a subclass of numpy.random.Generator the harness passes.' + GT)

AM = ['simim/galprops/galprops_am.py']
prop('P03', 'Abundance matching pairs values that are equally abundant',
     'The function returned for a catalogue or a distribution of one property gives each value of it the value of the other property above which the same share of all objects lies (below, when the order is reversed), whatever limits and missing shares at either end were given; its companion goes back. '
     'Values without a partner get the filler that was asked for, for scalars as for every element of an array, and missing shares or fillers that make no sense are refused.',
     ['inputs', 'histories'], 'all catalogues, distributions, limits, missing shares, fillers, orders, scalars and arrays, and sequences of matches',
     'Tests match one pair of distributions; limits, missing shares, order and fillers interact.',
     AM, [('fillers, cdf1', 'what unmatched values get, shares of the catalogue', 'simim/galprops/galprops_am.py:am_dfcat')],
     [('am_dfcat', 'simim/galprops/galprops_am.py'), ('am_dfdf', 'simim/galprops/galprops_am.py')], ['returned matching functions'],
     note='Uniform distributions and catalogues with binary shares, so that every value is exact. Matches between every entry of a menu after every other and random histories are replayed. Three known findings (values exactly at the edge, in arrays).')
prop('P04', 'Mass and luminosity functions are the distributions they are named after',
     'Schechter, double and modified Schechter functions and double power laws evaluate to the published form, their integral from x on is the number of objects above x, and density, cumulative distribution and quantiles are those of that function cut at its minimum. '
     'Densities integrate to one, quantiles invert cumulative shares, random samples are the quantiles of the deviates drawn from the generator passed, and neither the form of the argument nor other distributions made from the same object matter.',
     ['inputs', 'histories'], 'all four families, slopes (also -1 and below), characteristic values, minima, values, and sequences of frozen distributions',
     'Tests do not touch these classes; slopes below -1 and values in arrays take other branches.',
     AM, [('distribution parameters', 'x0, slopes, normalisations, minimum', 'simim/galprops/galprops_am.py')],
     [('schechter_gen', 'simim/galprops/galprops_am.py:schechter_gen'), ('double_schechter_gen', 'simim/galprops/galprops_am.py:double_schechter_gen'), ('modified_schechter_gen', 'simim/galprops/galprops_am.py:modified_schechter_gen'), ('double_power_law_gen', 'simim/galprops/galprops_am.py:double_power_law_gen')],
     ['lum_function', 'lum_function_int', 'pdf', 'cdf', 'ppf', 'rvs'],
     note='TLC integrates every function by Simpson\'s rule in fixed-point logarithms; tolerance 6e-4 dex (7e-3 for the two families the code sums on a grid), shares 6e-4 (8e-3).')
prop('P05', 'Matched models reproduce the abundance of galaxies and keep what they made',
     'A model matched to a catalogue (infrared luminosities or stellar masses) gives a halo, at every redshift between snapshots, the value above which there are as many galaxies per volume, by the published function in the catalogue\'s cosmology, as there are halos above it, and no value where there are no galaxies left or outside the catalogue. '
     'It matches by the property, minimum mass and parameters asked for, once per simulation and model; later objects load what was made and keep it until told to make it again, whatever happened to the catalogue since, and requests that cannot be met are refused.',
     ['inputs', 'histories', 'configurations'], 'all catalogues, snapshots, volumes, cosmologies, models, parameters, and histories of constructing, remaking and asking',
     'The tests do not match any catalogue; what is stale, cached or interpolated needs a history.',
     ['simim/galprops/sfr_ir.py', 'simim/galprops/sfr_bethermin17.py', 'simim/galprops/galprops_am.py'],
     [('interpolator', 'the relation loaded', 'simim/galprops/sfr_ir.py:g13irlf_base'), ('files in the property directory', 'the relation kept on disk', 'simim/galprops/sfr_bethermin17.py:bethermin17_base')],
     [('g13irlf_base', 'simim/galprops/sfr_ir.py:g13irlf_base'), ('bethermin17_base', 'simim/galprops/sfr_bethermin17.py:bethermin17_base')], ['lir', 'sfr', 'stellarmass', 'get_irlf_pars', 'b17_smfpars'],
     note='TLC integrates and inverts the galaxy functions itself (tolerance 0.007 dex); catalogues of up to 14 halos on 2-3 snapshots, all reachable situations of a small menu up to depth 4 and random histories. Halos next to the outermost ranks are not decided.')
