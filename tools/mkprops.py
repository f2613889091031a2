"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def p(id, title, st, over, text, why, files, mech, state=(), obs=()):
    r = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state:
        r['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs:
        r['anchors']['observe_at'] = list(obs)
    P.append(r)


p('P01', 'Exactly the contiguous run of numbered input maps is read, in order',
  "A job reads exactly the files '<base><number, five digits zero padded><ext>' from the begin number up to the first missing file or the end number, each once and in increasing order. When files are bundled only complete bundles are used, bundles are disjoint and adjacent, or advance by one file in rolling mode, and files missing from the start give a warning and no work.",
  ['inputs', 'configurations'], 'every set of existing files (holes, other extensions, look-alike names, numbers of more than five digits), and every begin, end, extension, bundle size and rolling mode',
  'The tests use one or two fixed directories without holes; the guarantee is over every directory state and combination of begin, end, group and rolling.',
  ['strata/utils.py'], [('file name generation', 'strata/utils.py gen_filenames'), ('selection and bundling', 'strata/utils.py find_datamap_files'), ('option defaults', 'strata/utils.py pop_fileopts')],
  obs=['names yielded by the file finders', 'maps which contribute to the outputs of jobs'])
p('P02', 'Outputs are numbered and paired with the right inputs, also in place',
  "Every output file is made from the inputs its number promises: the same number for one-to-one jobs, starting at ceil(begin/bundle) and increasing by one for bundled jobs, starting at begin for rolling ones, with the requested output extension. No other output is made, and a job whose output base is its input base gives the same results as one with another output base, keeping the replaced inputs as backups.",
  ['inputs', 'configurations', 'histories'], 'every begin, end, bundle size, rolling mode, extension, and existing directory contents, for every job that writes numbered files',
  'Tests check the pairing for a few fixed options with other output bases; in-place jobs and unaligned begin numbers are never run.',
  ['strata/utils.py', 'strata/average.py', 'strata/convert.py', 'strata/contact_line_analysis.py', 'strata/interface/collect.py', 'strata/interface/view.py'],
  [('pairing', 'strata/utils.py find_singles_to_singles, find_groups_to_singles'), ('jobs', 'average, convert, extract_contact_line_bins, collect_interfaces, view_interfaces')],
  obs=['directory contents after a job'])
p('P03', 'Writing output never destroys an existing file, even if interrupted',
  "Before an output file is written, an existing file of that name is moved to the first free backup name '#name.N#' in the same directory, missing directories are created, and no other file is touched. At every point of a job, also if it is killed or fails half way through a write, the complete contents of every file that existed when the job began can be found under its own or a backup name.",
  ['crash_points', 'histories', 'fault_sequences', 'inputs'], 'every sequence of jobs, every prior directory state (many backups, gaps between them, backup without original), every writer, and every crash point or write failure',
  'The tests back up one file once, with one writer, and never interrupt a write.',
  ['strata/utils.py', 'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/write.py', 'strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/interface/collect.py', 'strata/interface/angle.py', 'strata/interface/sample.py', 'strata/sample_average.py', 'strata/contact_line_analysis.py'],
  [('backup before writing', 'strata/utils.py prepare_path'), ('every writer is wrapped', 'write_data, write_header, write_interface_data, write_spreading_data, write_fitting_data, write_angle_data')],
  obs=['directory contents at crash points'])
p('P04', 'Averaged maps hold the weighted sample mean, in the right place',
  "Each map written by an averaging job holds for every bin the mean mass and number, the mass-weighted mean flow and the number-weighted mean temperature of exactly its input maps, with zero where there is no weight, at the coordinates of the input bins after any limits have been applied. Maps on different grids are refused and give no output for their bundle.",
  ['inputs', 'configurations'], 'all map contents (empty bins, empty maps, single rows and columns, zero weights), grids with any origin and spacing, input formats, limits, bundle sizes and rolling modes',
  'The tests average a few fixed arrays in memory and check one header; the file level result depends on every combination of options, format and grid.',
  ['strata/average.py', 'strata/dataformats/simple/average.py', 'strata/dataformats/gmx_flow_version_1/write.py'],
  [('weighted mean', 'strata/dataformats/simple/average.py average_data'), ('header of the result', 'strata/average.py get_output_info'), ('limits', 'strata/average.py cut_system')],
  obs=['output map files of average'])
p('P05', 'Recentring aligns maps on whole bins and keeps their common region',
  "When averaging with recentring every map of a bundle is translated along x by a whole number of bins so that the bin closest to its centre of mass, or its left or right contact line bin, comes to the position of the map's first column. The result is the average of the translated maps over precisely the region they all cover.",
  ['inputs', 'configurations'], 'all bundles of maps, grids with any spacing and origin, recentring modes, floors, cutoffs and neighbour criteria',
  'The tests recentre three hand made arrays with unit spacing; translations depend on rounding of arbitrary coordinates and on the contact line search.',
  ['strata/average.py', 'strata/spreading/collect.py', 'droplets/sample.py', 'droplets/interface.py'],
  [('translation and intersection', 'strata/average.py recenter_maps'), ('contact line', 'strata/spreading/collect.py get_spreading_edges'), ('centre of mass', 'droplets/sample.py sample_center_of_mass')],
  obs=['output map files of average', 'return value of recenter_maps'])
p('P06', 'Combining bins conserves what they hold',
  "Combining bins in blocks gives for every complete block the sum of mass and number, the mass-weighted mean flow and the number-weighted mean temperature of its bins, at the centre of the block and with the spacing of the block. Incomplete blocks at the high ends are left out, and nothing else is lost or moved.",
  ['inputs', 'configurations'], 'all map contents, shapes and block sizes, including blocks that do not divide the shape and weights that vanish',
  'The tests combine one or two fixed maps with unit spacing.',
  ['strata/dataformats/simple/average.py', 'strata/average.py'], [('combination', 'strata/dataformats/simple/average.py combine_bins'), ('origin of the result', 'strata/average.py average')],
  obs=['return value of combine_bins', 'output map files of average'])
p('P07', 'Supersampling refines the same region and smooths with weights',
  "Supersampling by a factor splits every bin into factor by factor bins that cover the same region, and gives each fine bin the mean of the split values over the window reaching factor-1 fine bins to every side, clipped at the borders; labels with a weight get the weighted mean, or zero where the window has no weight. Factor one changes nothing, and the input object is left as it was.",
  ['inputs', 'configurations'], 'all maps, row orders, shapes, coordinates, factors, and weight labels',
  'The tests supersample tiny fixed maps with one or two factors.',
  ['droplets/resample.py', 'strata/average.py'], [('splitting and smoothing', 'droplets/resample.py supersample_flow_data'), ('output order and header', 'strata/average.py average')],
  obs=['return value of supersample_flow_data', 'output map files of average'])
p('P08', 'Downsampling sums complete blocks inside the limits',
  "Downsampling first keeps the bins whose coordinates lie in the closed limits, then gives for every complete block the sum of each label, or the weighted mean of labels with a weight (zero if the weights vanish), at the centre of the block. Shape, spacing, origin and number of bins of the result describe exactly the bins it holds, and the input is left as it was.",
  ['inputs', 'configurations'], 'all maps, row orders, coordinate labels, limits, block sizes and weight lists',
  'The tests downsample a few fixed maps; limits, odd shapes and weights are not combined.',
  ['droplets/resample.py'], [('limits', '_cut_system_limits'), ('grid of the result', '_get_downscaled_grid_info'), ('blocks', '_combine_bins')],
  obs=['return value of downsample_flow_data'])
p('P09', 'Flow map files are read back as they were written, or refused',
  "Writing a map and reading it back gives the same grid and, for every bin with mass, the same values; bins without mass are read as empty. A file in the GMX_FLOW format is interpreted by its header whatever its comments, header length, field order or order of bins, and one that has been cut off anywhere is refused with an error instead of giving data.",
  ['inputs', 'crash_points'], 'all grids and contents, every header length and field order, and every truncation point of a file',
  'The tests read one file and write one file; header lengths, truncations and field orders are not explored.',
  ['strata/dataformats/gmx_flow_version_1/read.py', 'strata/dataformats/gmx_flow_version_1/write.py'], [('header parser', 'read_header'), ('values', 'read_values'), ('writer', 'write_data')],
  obs=['return value of read_data_file', 'bytes of written files'])
p('P10', 'Conversion and format detection keep maps intact',
  "Every readable map is recognised as the format it is in from its contents alone, and converting maps between formats keeps the coordinates, spacing and values of all bins. Converting there and back gives the original map.",
  ['inputs', 'configurations', 'programs'], 'all pairs and chains of formats, all map contents and grids, through the library and the command line',
  'The tests convert one map in each direction and do not look at the coordinates of all bins; detection is only tried on one file of each kind.',
  ['strata/convert.py', 'strata/dataformats/read.py', 'strata/dataformats/write.py', 'strata/dataformats/simple/read.py', 'strata/dataformats/simple/write.py'],
  [('detection', 'guess_read_module, guess_read_function'), ('format dispatch', 'strata/dataformats/write.py write')],
  obs=['return value of read_data_file on converted files'])
p('P11', 'Averaging flow data objects projects them on their common grid',
  "The average of flow data objects lives on the smallest regular grid containing all of them; every bin gets the arithmetic mean over all inputs, counting zero where an input has no bin, or the weighted mean for labels with a weight. Empty inputs count as empty or are left out as requested, inputs with other spacings are refused, and the inputs are unchanged. Records on one grid are averaged bin by bin; those whose coordinates do not match are refused.",
  ['inputs', 'configurations'], 'all sets of maps with different offsets, shapes, and contents, weight lists, and empty members',
  'The tests average a few fixed overlapping maps.',
  ['droplets/average.py'], [('common grid', 'get_combined_grid'), ('projection', 'transfer_data'), ('means', 'average_data')],
  obs=['return values of average_flow_data and average_data'])
p('P12', 'The interface from outside in is the outermost liquid cells per layer',
  "In every layer within the closed height limits that has a liquid cell, from bottom to top, the interface is given by the left- and rightmost liquid cells, and layers without one are skipped. A cell is liquid if its value reaches the cutoff (by default the mid point of smallest and largest value) and enough other cells within the closed radius reach it, too; a homogeneous map has no interface unless a cutoff is given.",
  ['inputs', 'configurations'], 'all maps and row orders, cutoffs, radii, neighbour counts, height limits and coordinate labels',
  'The tests use a few fixed droplets; the neighbour criterion and boundaries need systematic enumeration of small maps.',
  ['droplets/interface.py'], [('search', 'get_interface'), ('liquid criterion', '_cell_is_droplet, _get_indices_in_radius')],
  obs=['indices yielded by get_interface'])
p('P13', 'The periodic interface search finds a longest connected stretch',
  "With the connected search every layer gives the two ends of a longest stretch of liquid cells, where neighbours and stretches continue through the periodic boundary along x; a completely filled layer spans the system, and an empty layer gives nothing. Translating the map periodically translates the interface with it.",
  ['inputs', 'configurations'], 'all maps and row orders, stretches wrapping the boundary, cutoffs, radii and neighbour counts',
  'The tests use a few fixed layers; ties, wraps and full layers need all small layers.',
  ['droplets/interface.py'], [('stretch search', 'get_interface find_interface_edges_in_layer'), ('periodic copies', 'get_interface pbc_data')],
  obs=['indices yielded by get_interface'])
p('P14', 'Spreading collection has one row per wetting map at the right time',
  "Collecting spreading data gives one row for every map in which the droplet touches the floor layer, with half the distance between the two periodic-unwrapped edges as the radius. Time starts at the initial time at the first such map and advances by the time step for every later map, touching or not; the header names the impact file and the time since the first read map.",
  ['histories', 'inputs', 'configurations'], 'all sequences of maps (no contact, contact lost and regained, wrapping), floors, cutoffs, time steps, initial times, and repeated collections in one process',
  'The tests collect one fixed series once; gaps, repeated runs and wraps are not run.',
  ['strata/spreading/collect.py'], [('time line', 'collect'), ('edges at the floor', 'get_spreading_edges'), ('rows', 'output_impact_time, write_spreading')],
  [('impact flag', 'whether the impact header was written', 'strata/spreading/collect.py write_spreading.impact'), ('periodic info', 'previous edges and multiples of the box', 'PeriodicInfo')],
  obs=['return value of collect', 'output file', 'verbose command line output'])
p('P15', 'Periodic unwrapping follows the real motion of the edges',
  "For any motion of a droplet's edges in which the edges move less than half the system between maps and at most one of them passes a boundary at a time, the unwrapped edges equal the real positions up to one common multiple of the system size: the right edge stays right of the left one, and neither ever jumps by a system size.",
  ['histories', 'inputs'], 'all admissible histories of edge positions, with any number of wraps in both directions, and system sizes',
  'The tests step through a few crossings; histories with many wraps in mixed directions are unbounded.',
  ['strata/spreading/collect.py', 'strata/interface/collect.py'], [('crossing detection', 'check_and_update_periodic_info'), ('unwrapping', 'add_pbc_multipliers_to_edges'), ('per layer state', 'update_interface_with_pbc_info')],
  [('multipliers', 'how many systems each edge has travelled', 'PeriodicInfo')],
  obs=['return value of add_pbc_multipliers_to_edges'])
p('P16', 'Interface files trace the droplet boundary for every map',
  "Every collected interface file holds the boundary of its map as points going up the left side and down the right side, one pair per layer with the lowest layer at height zero, recentred as requested. Edges stay continuous from map to map also when the droplet crosses the periodic boundary, or when layers appear or vanish.",
  ['histories', 'inputs', 'configurations'], 'all series of maps, shapes, height ranges changing between maps, wraps, limits and recentring modes',
  'The tests call helper functions with fixed arrays; no series of files is collected.',
  ['strata/interface/collect.py', 'droplets/interface.py'], [('series', 'collect_interfaces'), ('per layer periodicity', 'update_interface_with_pbc_info, transfer_values, fill_pbc_info_for_empty_y_values'), ('output', 'write_interface_data')],
  obs=['interface files'])
p('P17', 'Contact line cells are the boxes of given size at each edge',
  "The contact line area of a droplet consists, at each side, of all cells in the rectangle which spans the interface edges of that side in the layers within the given height of the lowest interface layer, and reaches the given width into the droplet from the edge at the extraction height. Nothing outside is included, cells at the limits are, and a map without interface gives two empty sets.",
  ['inputs', 'configurations'], 'all maps, extraction areas and heights, floors, cutoffs, row orders and neighbour criteria',
  'The tests extract cells from a few fixed droplets.',
  ['droplets/contact_line.py'], [('extraction', 'get_contact_line_cells'), ('limits', 'helpers in droplets/contact_line.py')],
  obs=['return value of get_contact_line_cells'])
p('P18', 'Contact line maps are the averages of aligned edges over the window',
  "Each contact line map is the average of the extracted edges of exactly its window of input maps, aligned at the innermost edge cell, placed at the mean edge position on the grid, or recentred or fused as requested, and starting at height zero. Left and right edges keep their own data; where they overlap, the map holds the average of both, flow and temperature weighted by mass and number. The windows are disjoint or advance by one map in rolling mode.",
  ['histories', 'inputs', 'configurations'], 'all series of maps, window lengths, rolling modes, recentring and fusing, areas and floors',
  'There is no test of the collection at all.',
  ['strata/contact_line_analysis.py', 'droplets/average.py', 'droplets/contact_line.py'], [('windows', 'get_grouped_data'), ('alignment', 'add_adjusted_flow, adjust_cell_coordinates'), ('placement', 'get_averaged_contact_line_edges'), ('merge', 'combine_flow_data, fuse_edges')],
  obs=['contact line map files'])
p('P19', 'Contact line samples are per window, radial, and at the right time',
  "Sampling the contact line gives, for every window of maps and every label, the mean of the values of the two edges (or their sum), where flow along x is taken radially, that is mirrored at the left edge. Times are those of the window centres, and the file holds the returned values in the order of the labels.",
  ['histories', 'inputs', 'configurations'], 'all series of maps, labels and their order, window lengths, rolling modes, cutoffs and processes',
  'There is no test of the sampling at all.',
  ['strata/contact_line_analysis.py', 'strata/sample_average.py'], [('sampling', 'sample_contact_line_edges'), ('value', 'sample_value')],
  obs=['return value of sample_contact_line_edges', 'output file'])
p('P20', 'Flow data objects are isolated values',
  "A flow data object holds its own copy of its data: copies, cuts, translations and selections share nothing with their source, and only an explicit in-place operation on an object changes it. Selections keep exactly the rows within the closed limits, sorting orders by y and then x keeping rows intact, and information that no longer describes the data is unset or updated.",
  ['programs', 'histories'], 'all sequences of operations on a set of objects and labels, with aliasing arrays as input',
  'The tests call each method once; isolation is a property of all sequences of operations.',
  ['droplets/flow.py'], [('copying', 'copy, set_data'), ('selection', 'lims, cut'), ('translation', 'translate'), ('information', 'set_info')],
  obs=['data and information of every live object after each operation'])
p('P21', 'Sampled time series hold one correct value per map and label',
  "Sampling labels over a series of maps gives one entry per map, at multiples of the time step, whose value is the mean (or sum) of the label over the bins within the limits which pass the cutoff of the cutoff label. The value of a label does not depend on which other labels are sampled or in which order, and the file holds the same series.",
  ['inputs', 'configurations', 'histories'], 'all maps, sets and orders of labels, cutoffs, cutoff labels, limits, processes and time steps',
  'The tests check a few sampling helpers on fixed arrays; the job is never run.',
  ['strata/sample_average.py', 'droplets/sample.py'], [('series', 'sample_average_files'), ('value', 'sample_value'), ('derived labels', 'sample_inertial_energy, sample_flow_angle')],
  obs=['return value of sample_average_files', 'output file', 'command line output'])
p('P22', 'Angular sampling puts every bin in exactly its angle interval',
  "Sampling per angle around a point assigns every bin within the radius (except the one at the point) to the half open interval of its angle, over the full range of angles, and returns per interval the mean or weighted mean of the label, zero where there is nothing. No bin inside the limits is lost or counted twice.",
  ['inputs', 'configurations'], 'all maps, centre points, interval sizes, radii, and weights, including bins exactly on the axes and diagonals',
  'The tests use a few fixed points; interval boundaries and the wrap of the angle need all directions.',
  ['droplets/sample.py'], [('binning', 'sample_per_angle_from')],
  obs=['return value of sample_per_angle_from'])
p('P23', 'Interface area and length are those of the polygon',
  "The sampled area of an interface is that between its two sides, summed over the layers, and its length is that of the line through all points; translating an interface changes neither and mirroring keeps both. The series has one entry per readable interface at its own time, and the file holds the same series.",
  ['inputs', 'histories'], 'all interfaces, with any number of layers, uneven layer heights and overhangs, and series with unreadable members',
  'The single test checks one fixed interface.',
  ['strata/interface/sample.py'], [('area', 'get_area_of_interface'), ('length', 'calc_length'), ('series', 'sample_interfaces')],
  obs=['return value of sample_interfaces', 'output file'])
p('P24', 'Averaged interfaces use the layers common to all members',
  "Averaging a bundle of interfaces gives, for every height present in all of them and only for these, the mean of the left edges and the mean of the right edges, returned and written going up the left side and down the right side. An unreadable bundle is skipped without shifting which output belongs to which bundle.",
  ['inputs', 'histories'], 'all bundles of interfaces with different heights, bundle sizes, and unreadable members',
  'The tests average two fixed interfaces in memory.',
  ['strata/interface/view.py'], [('average', 'average_interfaces'), ('job', 'view_interfaces')],
  obs=['return value of view_interfaces', 'output files'])
p('P25', 'Contact angles measure the slope from the base to the chosen height',
  "The contact angle of a map at each side is that of the line from the edge of the lowest interface layer to the edge of the highest layer within the height above it, taken inside the droplet, and none is given if the floor layer has no interface. For interface files the measured angle uses the layer closest to the height, the fitted one the circular segment of the base and the droplet height, and mirroring a droplet swaps its two angles.",
  ['inputs', 'configurations'], 'all droplet shapes, heights, floors and cutoffs, and all interface files',
  'The tests check two fixed droplets and none of the interface file angles.',
  ['droplets/interface.py', 'strata/interface/angle.py'], [('map angles', 'get_contact_angle'), ('file angles', 'measure_angle, fit_angle_from_segment'), ('series', 'interface_contact_angle')],
  obs=['return values', 'angle file'])
p('P26', 'Spreading files are read, scaled and synchronised without distortion',
  "Every series of a spreading file (columns of numbers, or Grace sets) is read completely and in order whatever comments there are, and named by its file and its number in it; a file that is not readable does not affect the others, and what is saved is read back as the same series. Viewing scales times and radii by the given factors, and synchronising shifts the times of each series only, so that all are at the earliest of their times when at the radius closest to the chosen one.",
  ['inputs', 'configurations', 'histories'], 'all files (one row, many columns, gaps, several sets), scale factors and synchronisation radii',
  'The tests read and combine a few fixed series.',
  ['strata/spreading/view.py'], [('readers', 'read_spreading_data'), ('scaling and synchronisation', 'view_spreading and helpers'), ('writer', 'write_spreading_data')],
  obs=['return value of view_spreading', 'output file'])
p('P27', 'Power law fits use exactly the data within the limits',
  "Fitting a series that follows r = a t^k within the fit limits returns that a and k whatever the data outside the limits and at times that are not positive, one pair per series in order; for any other series it returns the least squares line of the logarithms. The saved fit is the law evaluated at the times within the output limits. Limits that hold no data are ignored.",
  ['inputs', 'configurations'], 'all series of positive radii, limits with data beyond them, and sets of files',
  'There is no test of the fit.',
  ['strata/spreading/fit.py'], [('limits', 'get_fitting_parameters'), ('evaluation', 'get_fitted_data')],
  obs=['return value of fit_spreading_data', 'output file'])
p('P28', 'Viscous dissipation is computed from the gradients at each bin',
  "The viscous dissipation of a bin follows from the gradients of the flow at that bin, second order inside and one sided at the borders, for any spacing along each axis, independent of the order of rows; a uniform translation of the coordinates or of the flow changes nothing. Values belong to the bins they are returned for.",
  ['inputs'], 'all flow fields and shapes, spacings that differ along the axes, and row orders',
  'The tests use one fixed field with fixed spacing.',
  ['droplets/sample.py'], [('gradients and dissipation', 'sample_viscous_dissipation')],
  obs=['return value of sample_viscous_dissipation'])
p('P29', 'Viewed fields show exactly the cells that pass cutoff and limits',
  "Drawing flow fields shows one arrow for exactly the bins which have any flow, pass the cutoff (their mass is at least it), and lie inside the axis limits, at the coordinates and with the flow of the bin; stream lines are drawn from the grid of these bins. Height maps show the value of every bin at its place on the grid and hide exactly those outside of the given cutoffs, and contours are drawn where the values of neighbouring bins cross the levels, in the given colours in turn. Colours and heights are those of the chosen label or derived quantity (absolute and radial flow, density gradient, evaporation, viscous dissipation), in every one of the files, and the colours run between the given limits, or else the least and greatest value shown. Selecting indices with limits on several labels gives the intersection of the closed limits.",
  ['inputs', 'configurations'], 'all maps, formats, cutoffs, labels, and limits on any number of labels',
  'The tests select indices on fixed arrays; what is drawn is not observed.',
  ['strata/view_flowmap.py', 'droplets/data_utils.py', 'droplets/flowfield.py'], [('selection', 'get_lim_indices'), ('drawing', 'view_flowfields, view_flowmap_2d')],
  obs=['arguments of the drawing calls'])
p('P30', 'The command line does what the library call does',
  "Every command performs exactly the library job with the values given as its options, and its documented defaults otherwise: the files it writes and the values it prints are those of the library call with the same arguments. No option that is given is lost on the way to the library, and where the library can fail or write nothing, so does the command.",
  ['configurations', 'inputs'], 'all commands, and all combinations of their options',
  'No test runs the command line at all.',
  ['strata/strata.py'], [('commands', 'strata/strata.py *_cli functions'), ('end default', 'set_none_to_inf')],
  obs=['files and output of commands'])
p('P31', 'Drawings are labelled, limited, coloured, and saved as asked',
  "The picture that is saved and shown has the title, labels, limits, scales, colour map, colour limits, colour bar and legend which were asked for, or none. What is not limited is in view, and a picture has all that was drawn since the figure was last cleared and nothing of earlier drawings: no option of a drawing changes a later one in a cleared figure. Images are saved before they are shown, to the path, with the dimensions in pixels and the transparency that were asked for, and exactly once; nothing is saved or shown unasked.",
  ['inputs', 'configurations', 'histories'], 'all combinations of options, for every drawing tool, and all histories of drawings in one figure',
  'No test draws anything.',
  ['strata/utils.py', 'strata/view_flowmap.py', 'strata/spreading/fit.py'], [('decoration', 'decorate_graph'), ('figures', 'create_figure')],
  obs=['figure when saved and shown', 'image files'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as fp:
    for r in P:
        assert len(r['title']) <= 80, r['id']
        fp.write(json.dumps(r) + '\n')
