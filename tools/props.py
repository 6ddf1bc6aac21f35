#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'harness'))
import registry

U, B, E, H = 'defdap/utils.py', 'defdap/base.py', 'defdap/ebsd.py', 'defdap/hrdic.py'
X, Q, CR, CU = 'defdap/experiment.py', 'defdap/quat.py', 'defdap/crystal.py', 'defdap/crystal_utils.py'
R, W, I, A, P = 'defdap/file_readers.py', 'defdap/file_writers.py', 'defdap/inspector.py', 'defdap/_accelerated.py', 'defdap/plotting.py'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=''):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files,
                 'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                 'mechanism': [dict(name=n, where=w) for n, w in mech],
                 'observe_at': list(observe), 'hook_needed': None}))


prop('C01', 'Generated data is computed once, on demand, and then kept',
     'Reading a generated data item runs its generator only if no value is stored; one run supplies every item that generator produces, each under its own name, and stores all of them except items marked as not to be saved, which are recomputed on each read. '
     'A stored or user-set value is returned unchanged by every later read until it is set again or its generator is run again. '
     'Spatial (map) items are returned cropped and then masked according to their own flags while the stored value stays untouched, and a failing generator stores nothing and can be retried.',
     ['histories', 'inputs'], 'every sequence of add/generate/get/set calls on stores with any mix of saved, unsaved, single- and multi-item generators',
     'Tests call each generator once in a fixed order on one map; interleavings of reading, overriding and regenerating sibling items are never exercised.',
     [U, B], [('generate-if-None then crop then mask', U + ':Datastore.__getitem__'), ('multi-key generator storing', U + ':Datastore.generate')],
     [('_store', 'stored values and metadata', U), ('_generators', 'functions per tuple of names', U)], ['Datastore item access', 'Datastore.generate'])
prop('C02', 'Data names are unique and every view of the names agrees',
     'Adding a name that is already visible is refused, and reading or setting a name that does not exist is refused; a refused add, set or read leaves the store unchanged. '
     'Membership, length, iteration and unpacking all list exactly the same names, own items in insertion order first. '
     'Merging another store keeps every item of both, resolves clashes in favour of the requested side, and leaves the other store unaffected then and later; a metadata query on a missing item or attribute returns the default.',
     ['histories'], 'every sequence of add, set, metadata, update and query calls over several stores',
     'Tests check a handful of single calls on one store; no sequences with merges, refusals and later edits.',
     [U], [('existence check before add', U + ':Datastore.add'), ('key collection', U + ':Datastore.keys'), ('merge', U + ':Datastore.update')],
     [('_store', 'own items', U)], ['Datastore API'])
prop('C03', 'Linked data shows exactly the matching source items, always',
     'Through a link from one store to another, exactly the source items whose metadata match the link are visible; their value is the link function applied to the source\'s current value (or to its name for by-name links), and the link\'s own metadata override the source\'s. '
     'Links may be cyclic (a map and its grains see each other): every query terminates and never shows an item back to the group it came from. '
     'Queries have no memory: what a store shows depends only on the stores\' contents, never on earlier queries, and any of several links can supply an item.',
     ['histories', 'configurations'], 'every history of calls over map/grain/second-map link graphs, including cyclic ones',
     'Tests use one link with mocked sources; cyclic graphs, several links and query histories are not explored.',
     [U, B, E, H], [('cycle cut by group id', U + ':Datastore.lookup_derivative_keys'), ('value through link', U + ':Datastore._get_derived_item')],
     [('_derivatives', 'links', U), ('_been_to', 'groups on the lookup path', U)], ['Datastore API'])
prop('C04', 'A boundary lies exactly between pixels that differ enough',
     'For horizontally or vertically adjacent EBSD pixels there is a grain boundary between them if and only if their phases differ or their disorientation under the primary phase\'s crystal symmetry exceeds the tolerance, and a phase boundary if and only if their phases differ. '
     'No boundary is placed beyond the last row or column, and none exists in a uniform map. '
     'Point sets, the x/y/combined images and the line segments of a boundary set all describe the same boundaries.',
     ['inputs'], 'every map of phases and orientations of any shape, for cubic and hexagonal primary phases and any tolerance',
     'Tests compare one example map with stored arrays; no small/degenerate maps, no boundary-free map, no mixed phases.',
     [E], [('misorientation and phase comparison', E + ':Map.find_boundaries'), ('images and lines', E + ':BoundarySet')],
     [], ['ebsd.Map.data.grain_boundaries', 'phase_boundaries', 'find_boundaries(misori_tol)'])
prop('C05', 'EBSD grains are the connected regions of indexed pixels',
     'The grain map partitions the EBSD map into the regions that are 4-connected without crossing a grain boundary: regions of at least the minimum size are numbered 1..n in raster order of their first pixel, smaller indexed regions are -2 and non-indexed pixels are 0. '
     'Grain i of the map lists exactly the pixels labelled i+1, each once and as (x, y), and is assigned the phase of those pixels. '
     'This holds for every map, including one without any grain and maps one pixel wide or high.',
     ['inputs'], 'every boundary layout, non-indexed pattern, map shape and minimum grain size',
     'Tests run one fixed map and compare to a stored result; degenerate shapes, all-small and non-indexed maps are not covered.',
     [E, A], [('flood fill', A + ':flood_fill'), ('seed scan, small grains, phase assignment', E + ':Map.find_grains')],
     [('grains', 'label image', E)], ['ebsd.Map.data.grains', 'ebsd.Map.grains', 'Grain.data.point', 'Grain.phase'])
prop('C06', 'Grain data and map data correspond pixel by pixel',
     'Data extracted for a grain holds, for each of its points in order, the map value at that (x, y); scattering grain data back to a map, to a grain-sized map or filling grains with one value each puts every value at exactly those pixels and the background everywhere else. '
     'The bounding box, box centre, centre of mass, outline, grain averages and coarsened grain map follow from exactly the grain\'s own pixels. '
     'Selecting grains by id returns values in the order asked for, and a wrong number of values is refused.',
     ['inputs'], 'every grain layout, map data of any tensor order, grain id selection and background value',
     'Tests check a few values on one example grain of one example map.',
     [B], [('gather', B + ':Grain.grain_data'), ('scatter', B + ':Map.grain_data_to_map, Map.grain_data_to_map_data, Grain.grain_map_data'), ('extents', B + ':Grain.extreme_coords, centre_coords, grain_outline')],
     [], ['base.Map.calc_grain_average', 'base.Map.grain_data_to_map_data', 'base.Grain API'])
prop('C07', 'The neighbour network records exactly the shared boundaries',
     'Two grains of an EBSD map are neighbours if and only if some interior boundary point separates a pixel of one from a pixel of the other; points on the outermost rows and columns, within one grain, or touching unassigned pixels do not count. '
     'The boundary segment between two neighbours contains each such point exactly once, of the right kind, and pairs it with the pixel on the other side so that the first of the pair always lies in the segment\'s first grain. '
     'Every grain is a node, also when it has no neighbours.',
     ['inputs'], 'every grain layout and boundary pattern',
     'The only test counts edges of one example map; owners, pairs and kinds are not checked.',
     [E, B], [('network construction', E + ':Map.build_neighbour_network'), ('segments', E + ':BoundarySegment')],
     [('neighbour_network', 'graph of grains', E)], ['ebsd.Map.neighbour_network', 'BoundarySegment'])
prop('C08', 'The proxigram is the distance to the nearest boundary point',
     'At every pixel the proxigram equals the smallest Euclidean distance to any grain boundary point, boundary points being offset by half a pixel in both directions, and never exceeds the cap of 1000. '
     'The result does not depend on the number of trial distances processed per batch nor on the order of the boundary points.',
     ['inputs', 'configurations'], 'every boundary set, map shape and batch size',
     'One test on one example map with the default batch size.',
     [B], [('batched minimum', B + ':Map.calc_proxigram')], [], ['Map.calc_proxigram', 'data.proxigram'])
prop('C09', 'Cropping and masking select a view and never lose data',
     'Under any sequence of crop and mask changes, DIC map data read back is the loaded data restricted to the current crop window (scaled by the data\'s own binning) with exactly the currently masked pixels masked; data flagged as already cropped or exempt from masking is returned as it is. '
     'The reported map shape always equals the shape of the cropped data, and resetting the crop and mask restores the full original data. '
     'A mask of the wrong shape is refused, dilation grows the mask by exactly the given number of steps, and when asked to the homologous points move with the crop origin.',
     ['histories', 'inputs'], 'every sequence of set_crop, calc_mask and reads, every crop distance and binning',
     'Tests set one crop on one map and look at one array shape.',
     [H, U, B], [('crop window', H + ':Map.crop, Map.set_crop'), ('mask', H + ':Map.mask, Map.calc_mask'), ('ordering of crop and mask', U + ':Datastore.__getitem__')],
     [('crop_dists', 'distance cropped from each side', H), ('shape', 'cropped shape', H), ('mask', 'stored boolean mask or None', H)], ['hrdic.Map.data.*', 'hrdic.Map.shape', 'Frame.homog_points'])
prop('C10', 'DIC grains follow the linked EBSD grains',
     'Warping: a DIC pixel belongs to the grain whose EBSD label the frame transform brings to that pixel, DIC grain ids are consecutive in the order of EBSD ids, unassigned EBSD labels keep their value, and each DIC grain refers to that EBSD grain. '
     'Flood filling: DIC grains are the 4-connected regions between boundary pixels, each boundary pixel belonging to the first region that reaches it going right or down, regions below the minimum size are -2 and remaining boundary pixels -1; each grain refers to the EBSD grain most frequent among the EBSD pixels that fall in it (to none if there is no such grain). '
     'In both cases grains list exactly the pixels of their label in the cropped map, and finding grains without a linked EBSD map is refused; after linking another EBSD map its boundaries are used.',
     ['inputs', 'configurations'], 'every EBSD grain layout, integer frame offset, crop and minimum grain size',
     'Tests run one fixed example map for each algorithm.',
     [H, A, X], [('warp algorithm and flood fill algorithm', H + ':Map.find_grains'), ('flood fill', A + ':flood_fill_dic')],
     [], ['hrdic.Map.data.grains', 'hrdic.Map.grains', 'Grain.ebsd_grain'])
prop('C11', 'Linked frames map homologous points onto each other, both ways',
     'For two linked frames the transform from one to the other takes each homologous point of the first to its partner in the second, for every supported transform type, and the transform requested in the opposite sense takes it back. '
     'An image warped between frames shows at each output pixel the input value at the transformed position, and lines are moved point by point onto the half-pixel grid. '
     'Asking for frames that are not linked, or linked in both senses, is refused.',
     ['inputs', 'configurations'], 'every set of point pairs consistent with the transform type and every link direction',
     'Tests mock the estimation and check that the calls are made, for a few combinations.',
     [X, H], [('transform choice and direction', X + ':Experiment.get_frame_transform'), ('warping', X + ':Experiment.warp_image, warp_lines')],
     [('frame_relations', 'linked frame pairs', X)], ['Experiment.get_frame_transform', 'warp_image', 'warp_lines'])
prop('C12', 'Picking homologous points records exactly what was selected',
     'Over any sequence of clicks, arrow keys and saves on a map, a right click or shift-click inside the map selects the pixel under the cursor, arrow keys move the selection by one pixel (ten with shift) in the arrow\'s direction, and saving appends the selected position divided by the image binning and rounded, then clears the selection. '
     'Any other input, an input outside the map, and saving or moving without a selection change nothing. '
     'Editing a stored point replaces or shifts just that point, or shifts all points, and a positive index beyond the last point is refused.',
     ['histories'], 'every sequence of click, key, save and edit events and every binning',
     'Only direct edits of the list are tested, not the interactive state machine.',
     [X, P], [('click/key/save handlers', X + ':Frame.homog_click, homog_key, homog_click_save'), ('edits', X + ':Frame.update_homog_points')],
     [('homog_points', 'recorded points', X), ('selected point', 'point layer of the plot', P)], ['Frame.homog_points', 'plot point layers'])
prop('C13', 'Experiments keep their increments, maps and frames in order',
     'Increments are kept in the order they were added and belong to one experiment; a map is stored in exactly one increment, its own or a new one, under its given or default name, and iterating over a map name yields each increment index and map holding it, in order. '
     'A map created in an increment belongs to that increment\'s experiment, maps without an explicit frame never share one, and maps given the same frame share its points. '
     'Constructing a map with contradictory increment and experiment is refused.',
     ['histories', 'configurations'], 'every sequence of adding increments and maps with and without explicit experiment, increment, frame and name',
     'One test creates a single map.',
     [X, B], [('bookkeeping', X + ':Experiment, Increment'), ('attachment', B + ':Map.__init__')],
     [('increments', 'ordered list', X), ('maps', 'name to map', X)], ['Experiment.increments', 'Experiment.iter_over_maps', 'Map.frame'])
prop('C14', 'Quaternions represent rotations faithfully',
     'Products, conjugates, rotation matrices, vector transformation, axis-angle and Euler-angle construction all describe the same passive rotation: transforming a vector by a product equals transforming by the right then the left factor, the conjugate undoes a rotation, and Euler angles recovered from a quaternion rebuild the same rotation. '
     'Quaternions are kept in the northern hemisphere unless asked otherwise, and array versions agree with the single versions element by element.',
     ['inputs'], 'every quaternion, vector, axis, angle and Euler triple, including degenerate Euler angles',
     'Tests use a few hand picked quaternions.',
     [Q], [('algebra', Q + ':Quat.__mul__, conjugate, transform_vector, rot_matrix, from_euler_angles, euler_angles, from_axis_angle')],
     [], ['Quat API'])
prop('C15', 'Disorientation is a symmetric distance under crystal symmetry',
     'The symmetry operators of each crystal structure form a complete rotation group (24 cubic, 12 hexagonal), the symmetric equivalents of an orientation are its products with them, and the misorientation of two orientations is the smallest angle over all of these. '
     'It is zero exactly for symmetric equivalents, independent of the order of the two orientations and of which equivalent represents each, and the reported equivalent and axis attain it; the array routine agrees with the single one.',
     ['inputs'], 'every pair of orientations and every symmetric equivalent of each, for both crystal systems',
     'Tests check a few stored pairs.',
     [Q, CR], [('symmetry tables', CR + ':crystalStructures'), ('minimum over equivalents', Q + ':Quat.mis_ori, calc_sym_eqvs, calcMisOri')],
     [], ['Quat.mis_ori', 'Quat.calc_sym_eqvs', 'Quat.calcMisOri', 'Quat.sym_eqv'])
prop('C16', 'Crystal index conversions are exact and consistent',
     'Converting directions or planes between three- and four-index notation and back returns the same indices (directions up to their common factor), keeps the redundant index equal to minus the sum of the first two, and preserves whether a direction lies in a plane. '
     'Reducing indices divides by the greatest common factor, the positive form has a positive first non-zero index, and the string form shows the indices with bars on negatives. '
     'Symmetric equivalents of a plane or direction are images of it under the crystal\'s symmetry and orthonormal lattice and reciprocal matrices are dual to each other.',
     ['inputs'], 'all small integer directions and planes, for both orthonormalisation conventions and any c/a ratio',
     'Tests check a handful of index triples.',
     [CU], [('conversion', CU + ':convert_idc'), ('canonical forms', CU + ':pos_idc, reduce_idc, idc_to_string'), ('equivalents', CU + ':equavlent_indicies')],
     [], ['crystal_utils API'])
prop('C17', 'Slip systems contain their direction and are grouped correctly',
     'Every slip system supplied with the package has its slip direction lying in its slip plane, appears once, and together with its companions forms complete families under the crystal\'s symmetry. '
     'Loading groups systems by plane (planes equal up to sign, in file order) or by symmetry family without losing, duplicating or reordering within groups; two systems are equal exactly when plane and direction agree up to sign, and a file with the wrong number of columns is refused. '
     'A generated family contains exactly the symmetric images of the system.',
     ['inputs', 'configurations'], 'every slip system of every supplied file, every user file of integer rows and every grouping',
     'Tests load the files and count groups.',
     [CR, 'defdap/slip_systems/*.txt'], [('grouping', CR + ':SlipSystem.group'), ('family', CR + ':SlipSystem.generate_family'), ('loading', CR + ':SlipSystem.load')],
     [], ['SlipSystem.load', 'SlipSystem.group', 'SlipSystem.generate_family', 'Phase.slip_systems'])
prop('C18', 'Schmid factors and slip traces follow from orientation and geometry',
     'For each grain and slip system the Schmid factor is the absolute product of the cosines between the load and the plane normal and the load and the slip direction in the grain\'s mean orientation, never above one half, organised by plane exactly as the slip systems are. '
     'The slip trace angle is the direction in which the plane cuts the map surface, measured from vertical counter-clockwise in [0, 180] degrees, and the inclination is the angle between plane and surface in [0, 90] degrees. '
     'The relative displacement ratio of each system is minus the ratio of the x to the y component of its slip direction in the sample frame.',
     ['inputs'], 'every grain orientation, load direction and slip system',
     'One stored result for one example map.',
     [E], [('Schmid', E + ':Grain.calc_average_schmid_factors'), ('traces', E + ':Grain.calc_slip_traces'), ('rdr', E + ':Grain.calc_rdr')],
     [], ['Grain.average_schmid_factors', 'Grain.slip_trace_angles', 'Grain.slip_trace_inclinations', 'Grain.rdr'])
prop('C19', 'An EBSD map saved as text loads back as the same map',
     'Writing a map and loading the written file reproduces the shape, step size, phase names, lattice parameters, crystal symmetry, slip systems, phase, band contrast and orientation of every pixel, with non-indexed pixels staying non-indexed. '
     'Text files with the known columns in any order, with or without the optional ones, load the same map; files with an unknown column or missing rows, and dictionaries whose arrays do not fit together, are refused. '
     'Saving never overwrites an existing file.',
     ['inputs', 'configurations'], 'every map content, phase list and column layout',
     'Tests load one fixed file and write with mocked data; no round trip.',
     [W, R, E], [('writer', W + ':OxfordTextWriter'), ('reader', R + ':OxfordTextLoader')], [], ['ebsd.Map.save', 'ebsd.Map(data_type=OxfordText)'])
prop('C20', 'Binary EBSD records are decoded by the declared layout',
     'For a binary EBSD file the value of each data item at each pixel is read from that pixel\'s record at the position implied by the declared order of fields, for every order of the fields, with unknown fields present anywhere, as long as the Euler angles, angular deviation, band contrast and band slope are among them; a file of the wrong length is refused. '
     'Shape, step size, phases, lattice parameters and acquisition geometry equal those in the companion text file, and angles are in radians.',
     ['inputs', 'configurations'], 'every field order and selection, with unknown fields in any position, and every pixel content',
     'Tests load one example file pair.',
     [R], [('record layout', R + ':OxfordBinaryLoader')], [], ['ebsd.Map(data_type=OxfordBinary)'])
prop('C21', 'DIC files load with every displacement at its own coordinate',
     'For each supported DIC format the displacement stored for a grid point is found at the array position of that point\'s coordinate, with y increasing down the map, whichever way up the file is written, and the map shape and binning follow from the file\'s grid. '
     'A file whose grid is inconsistent with its declared shape, or an unknown format, is refused.',
     ['inputs', 'configurations'], 'every grid shape, spacing, displacement content and supported format',
     'Tests load one example file per format and compare a few values.',
     [R], [('grid reconstruction', R + ':DavisLoader, OpenPivLoader, PyValeLoader')], [], ['hrdic.Map.data.coordinate', 'hrdic.Map.data.displacement'])
prop('C22', 'Strain follows from the displacement gradient',
     'The deformation gradient at each pixel is the identity plus the finite-difference gradient of the displacement on the sub-window grid (central inside, one-sided at the edges), with component (i, j) the derivative of displacement i along direction j. '
     'Green strain is half of F-transposed-F minus identity, and the effective shear strain is the square root of the squared half difference of normal strains plus squared shear strain; a rigid shift gives zero strain.',
     ['inputs'], 'every displacement field and binning',
     'Tests compare one example map with stored arrays.',
     [H], [('gradient and strain', H + ':Map.__init__')], [], ['hrdic.Map.data.f', 'e', 'max_shear'])
prop('C23', 'Inspector lines, groups and saved files stay consistent',
     'Each line drawn in a grain is stored with its end points and its angle from vertical in [0, 180] less the correction; in the order drawn, each line joins the group whose mean angle is nearest if that is less than 10 degrees away and otherwise starts the next group, each group\'s angle is the mean of its lines and its planes are those whose trace is within 5 degrees. '
     'Removing a line deletes exactly that line and regroups the rest as if it had never been drawn. '
     'The displacement ratio measured for a group is the least-squares slope of the displacements across its lines. '
     'Saving and loading the inspector file restores every grain\'s lines and groups, and the slip trace table lists every group with its own grain\'s orientation, highest Schmid factor, active planes with their deviation and measured ratio. '
     'The windows show this state: the strain range and mean, lines and groups of the grain shown, and for a measured ratio its angle, slope, R squared and number of pixel rows next to the Schmid factors and theoretical ratios of every plane, the active ones marked.',
     ['histories', 'inputs'], 'every sequence of drawing, removing, grouping, saving and loading lines',
     'The inspector has no behavioural tests.',
     [I], [('line bookkeeping', I + ':GrainInspector.save_line, remove_line, group_lines'), ('persistence', I + ':save_file, load_file')],
     [('points_list', 'lines per grain', H), ('groups_list', 'groups per grain', H)], ['Grain.points_list', 'Grain.groups_list', 'saved file'])
prop('C24', 'Linking EBSD maps records the grains selected in every map',
     'Over any sequence of clicks and link presses, clicking the first map selects the grain under the cursor and in every other map the grain at the corresponding position (relative to each map\'s origin and scaled by step size), or none if there is no grain at that position; clicking another map corrects only that map\'s selection. '
     'Making a link records the tuple of currently selected grain ids in map order once, and is refused when any map has no selection; resetting clears all links. '
     'Linked grains of later maps take a copy of the first map\'s reference orientation, other grains keep theirs; misorientations, and rotations on request, are recalculated for exactly the linked grains of later maps.',
     ['histories'], 'every sequence of origin clicks, grain clicks, link and reset presses over several maps',
     'The linker has no tests.',
     [E, B], [('event handlers', E + ':Linker')], [('links', 'recorded grain tuples', E), ('sel_grain', 'selected grain per map', B)], ['Linker.links', 'Map.sel_grain', 'Map.origin', 'Grain.ref_ori'])
prop('C25', 'Rotating an EBSD map turns the data and orientations together',
     'Rotating a map by 180 degrees moves phase, Euler angles, orientation and all other data loaded for every pixel (band contrast and slope, if present, and so on) to the opposite position and multiplies each orientation by a half turn about the map normal. '
     'The result is the same whether or not orientations had been looked at before, and rotating twice restores the original map.',
     ['histories', 'inputs'], 'every map and every order of reads and rotations',
     'One test on one example map after a fixed sequence of calls.',
     [E], [('rotation', E + ':Map.rotate_data')], [], ['ebsd.Map.rotate_data', 'ebsd.Map.data.orientation'])
prop('C26', 'A grain\'s mean orientation represents its pixels',
     'The mean orientation of a grain is the normalised sum of its pixels\' orientations after moving each to the symmetric equivalent, and sign, closest to the running mean; a uniform grain\'s mean is that orientation. '
     'The mean does not change when pixels are replaced by symmetric equivalents (up to equivalence), and the misorientation of each pixel to it is the smallest angle over equivalents, listed in the grain\'s point order. '
     'Setting an explicit reference orientation is respected by later misorientation calculations.',
     ['inputs', 'histories'], 'every set of orientations of a grain, including those near a half turn, both symmetries',
     'One stored result for one example grain.',
     [E, Q], [('averaging', Q + ':Quat.calc_average_ori'), ('spread', E + ':Grain.build_mis_ori_list, calc_grod')],
     [('ref_ori', 'reference orientation', E)], ['Grain.ref_ori', 'Grain.mis_ori_list', 'Grain.data.GROD'])
prop('C27', 'Kernel average misorientation averages over direct neighbours',
     'At every pixel the kernel average misorientation is twice the arc cosine of the mean of the row and column averages of the absolute quaternion dot products with the direct neighbours, using only the neighbours that exist at map edges. '
     'It is zero in a uniform map, independent of the signs of the quaternions, and mirrors when the map is mirrored.',
     ['inputs'], 'every orientation map of at least two rows and columns',
     'One test against a stored array.',
     [E], [('kernel', E + ':Map.calc_kam')], [], ['ebsd.Map.data.KAM'])
prop('C28', 'Pole figure colours depend only on the crystallographic direction',
     'For any orientation and sample direction the direction expressed in the crystal is moved to the single symmetric equivalent inside the fundamental triangle of the crystal system. '
     'Symmetrically equivalent orientations therefore give the same point and colour, colours lie in [0, 1] with at least one channel at 1, and the corners of the triangle are pure red, green and blue. '
     'In a map, or the map of one grain, each pixel is coloured with its own phase\'s symmetry and phases that are not selected show the background.',
     ['inputs'], 'every orientation, direction, crystal system and phase selection',
     'Tests compare a few stored colours.',
     [Q, E], [('reduction', Q + ':Quat.calc_fund_dirs'), ('colours', Q + ':Quat.calc_ipf_colours'), ('per phase', E + ':Map.calc_ipf_colour')],
     [], ['Quat.calc_ipf_colours', 'Quat.calc_fund_dirs', 'Map.calc_ipf_colour', 'Map.calc_euler_colour'])
prop('C29', 'Progress reporting never changes what a computation returns',
     'Wrapping a progress-yielding computation returns exactly the value it returns and passes arguments, state changes and exceptions through unchanged, whatever progress values or messages it yields. '
     'Percentages are printed only after advancing by more than one percent, messages are printed once each, and the final line is printed unless the last thing printed was a message; runs of the same or other computations inside or after one another do not affect each other.',
     ['histories', 'inputs'], 'every sequence of yielded fractions and messages, return value or exception',
     'Used implicitly everywhere but never tested itself.',
     [U], [('wrapper', U + ':report_progress')], [], ['stdout', 'return value'])
prop('C30', 'Text EBSD files from EDAX load every pixel in place',
     'Each data row of an EDAX file gives the Euler angles, quality, confidence index and phase of the pixel at its position in raster order, with phases numbered from one and the first Euler angle turned back by a quarter turn into [0, 360) degrees. '
     'Shape, step size and the phase list with its lattice parameters and crystal structure equal those of the header, for any number of phases.',
     ['inputs', 'configurations'], 'every grid size, phase list and pixel content',
     'The reader has no test.',
     [R], [('reader', R + ':EdaxAngLoader')], [], ['ebsd.Map(data_type=EdaxAng)'])
prop('C31', 'Map and grain plots show the data asked for',
     'Plotting a named datum of a map or grain shows exactly the requested component at every pixel: the indexed one (indices in tensor order), the norm, or the stored default component (every datum a map loads has one that can be shown: displacements and coordinates their norm), with masked points staying masked. '
     'A grain plot shows the grain\'s own pixels placed in its bounding box with nothing elsewhere; a map of per-grain values shows each selected grain\'s value (or average) on exactly its pixels and the background elsewhere. '
     'The colour bar carries label, component and unit, given colour limits override stored ones, and the scale bar follows the step size and binning. Phase maps match their legend, boundary maps mark exactly the boundary pixels (dilated on request) and Schmid factor maps show the largest factor of the selected systems. '
     'Unknown names, data that are not maps and components that do not fit are refused.',
     ['inputs', 'configurations', 'histories'], 'every map shape, tensor order, component, mask, crop, grain layout and plot option',
     'The repository tests for plotting compare no pixels; the data layer tests fix one or two components.',
     [B, P, E, H], [('map plots', B + ':Map.plot_map'), ('components', B + ':Map._extract_component'), ('grain plots', B + ':Grain.plot_map'), ('grain data', B + ':Map.plot_grain_data_map')],
     [], ['plot.ax.images', 'plot.colour_bar', 'legend'])
prop('C32', 'Layers and selections on map plots follow what the user did',
     'A highlight marks exactly the pixels of the given grains, the i-th in the i-th given colour (the last one for the rest, white by default) at the given or the map\'s default transparency; highlighting again replaces the first highlight unless a new layer is asked for. '
     'Boundary layers mark exactly the boundary pixels or segments in the given colour, point layers are added or the asked-for one is moved, and grain numbers stand at the centres of mass. Clearing an interactive plot removes everything and later operations start afresh. '
     'Clicking selects and highlights the grain under the cursor (its neighbours yellow, theirs green in the neighbour view; its own data in the grain window) and clicks elsewhere change nothing. '
     'A drawn line yields the interpolated values along it against the distance, replacing the previous profile. No operation changes another plot, and requests for unknown grains or layers are refused.',
     ['histories', 'inputs'], 'every sequence of plot, layer, click, drag and clear operations on several plots of any EBSD or DIC map',
     'Tests never click, drag, highlight or clear; they assert at most that a figure was made.',
     [P, B], [('highlights', P + ':MapPlot.add_grain_highlights'), ('layers', P + ':MapPlot.add_points'), ('clicks', B + ':Map.click_grain_id'), ('profiles', B + ':Map.calc_line_profile')],
     [('img_layers', 'layers in drawing order', P), ('highlights_layer_id', 'layer replaced by later highlights', P), ('sel_grain', 'selected grain', B)], ['plot.ax', 'map.sel_grain', 'map.profile_plot'])

prop('C33', 'Filtering orientations smooths inside regions and keeps edges',
     'Each pixel further than two from the edge of the map is replaced by the normalised sum of the orientations, within the tolerance of the pixel, of that three by three window through the pixel whose orientations agree best with it; pixels of the two pixel rim and all other data stay as they are. '
     'Uniform regions and sharp edges between regions misoriented by more than the tolerance survive unchanged, the filtered orientations are unit quaternions within the spread of their neighbourhood, and the sign with which an orientation is stored never matters.',
     ['inputs'], 'every orientation map, size, tolerance and choice of quaternion signs',
     'No repository test calls the filter.',
     [E], [('filter', E + ':Map.filter_data')], [], ['ebsd_map.data.orientation'])
prop('C34', 'Nye tensor and dislocation density follow the lattice curvature',
     'The Nye tensor of a pixel follows from the lattice rotation to its right and to its lower neighbour (each taken through the nearest symmetric equivalent) divided by the step size and Burgers vector; the dislocation density is one and a half times the sum of the magnitudes. '
     'It is zero in the last row and column, where the lattice does not turn, and does not depend on which symmetric equivalent or quaternion sign represents a pixel; the gradients along the two directions stay separate and finer steps scale it inversely.',
     ['inputs'], 'every orientation map, symmetry, step size and choice of equivalents',
     'Tests never compute a Nye tensor.',
     [E], [('Nye tensor', E + ':Map.calc_nye')], [], ['ebsd_map.data.Nye_tensor', 'ebsd_map.data.GND'])
prop('C35', 'Pole figures put every direction where it belongs',
     'Directions are plotted at their stereographic or equal area position, as asked for (the default projection for none or an unknown one); inverse pole figures bring each crystal direction into the fundamental triangle of its symmetry (mirrored when asked), whose three great circle sides and labelled corners are those of the crystal. '
     'Plotted lines stay on the great circle through their ends, symmetric copies are exactly the equivalent directions, several colours belong to their points in order, grains show their own orientations, and the colour bar describes the points plotted last.',
     ['inputs', 'configurations'], 'every direction, orientation list, crystal symmetry, projection and plotting option',
     'Tests make no pole figure with known positions; they cannot cover projection, symmetry and option combinations.',
     [P, Q], [('pole plot', P + ':PolePlot.add_points'), ('projections', P + ':PolePlot.stereo_project'), ('fundamental directions', Q + ':Quat.calc_fund_dirs'), ('lines', P + ':PolePlot.add_line')],
     [], ['plot.ax.collections', 'plot.ax.lines', 'plot.ax.texts', 'plot.colour_bar'])
prop('C36', 'Statistics and histograms describe exactly the data shown',
     'The statistics table of a deformation map lists, for every component of every datum asked for, the percentiles of exactly the values that are inside the crop, unmasked and not missing; the head of the table states size, sub-window and number of points. '
     'A histogram counts exactly those values between evenly spaced (evenly spaced in the logarithm on a logarithmic axis) edges over the range given, or over the range of the data, as counts or as a density integrating to one, at the middle of each interval and with the matching label. Unknown data are refused.',
     ['inputs', 'histories'], 'every map, crop, mask, missing value pattern, percentile list, bin number, range and kind of histogram',
     'Tests neither print a table nor read a histogram back.',
     [H, P], [('statistics', H + ':Map.print_stats_table'), ('histogram', P + ':HistPlot.add_hist'), ('crop and mask', B + ':Map.shape')], [], ['standard output', 'hist.ax'])
prop('C37', 'Correlation values and patterns belong to their map',
     'Correlation values are taken over exactly as in the file when they have the size of the map; files of another size or kind are refused and leave what was loaded before in place. '
     'The pattern image is read from the path last set, must have the size of the uncropped map times the relative pixel size, and is shown for exactly the region of the current crop; until a fitting one is set, reading it is refused.',
     ['inputs', 'histories'], 'every sequence of loading, setting, cropping and reading on every map and image size',
     'The tests check one successful load of each and one wrong size.',
     [H, U], [('correlation values', H + ':Map.load_corr_val_data'), ('pattern', H + ':Map.load_pattern'), ('crop', H + ':Map.crop')],
     [('corr_val', 'correlation values', H)], ['dic_map.corr_val', 'dic_map.data.pattern'])

prop('C38', 'Unit cells, slip traces and slip bands are drawn as they lie in the sample',
     'The unit cell plotted for an orientation or grain has exactly the faces of the cube, or of the hexagonal prism with its corners along the a axes (turned by thirty degrees for the other axis convention), rotated from the crystal into the sample and seen from above; it is the same whichever equivalent represents the orientation. '
     'Traces on a grain plot run through the centre of the grain or the point given, at the given angles turned from upright towards the left, in the given colours (the last for the rest) or those of the phase, and only upwards when the upper half is asked for. '
     'Slip bands in the strain of a grain are found at their angle in that same convention: every band as strong as the threshold, none of two closer than the minimum distance, whatever the sign of the data or missing points outside the grain.',
     ['inputs', 'configurations'], 'every orientation, symmetry, axis convention, list of angles and colours, and every set of clear bands',
     'Tests draw no unit cell or trace and detect no band.',
     [Q, P, H, CR], [('unit cell', Q + ':Quat.plot_unit_cell'), ('polygons', P + ':CrystalPlot.add_verts'), ('traces', P + ':GrainPlot.add_traces'), ('bands', H + ':Grain.calc_slip_bands')],
     [], ['plot.ax.collections', 'grain.calc_slip_bands'])
prop('C39', 'Misorientation views show what was calculated for every grain',
     'A misorientation map, of a whole EBSD map or one grain, shows for each pixel of a grain the smallest angle in degrees between the pixel and the grain\'s reference orientation, or the chosen component (x, y or z) of the rotation from the reference to the closest equivalent of the pixel; pixels in no grain show zero on the map and nothing on a grain. '
     'A view makes the calculation it needs for the grains it shows if it was never made, with the mean orientation unless a reference was set, and otherwise shows the last one; views of angles and rotations made in any order agree. No rotation shows as zero. '
     'The misorientation of a boundary segment is the smallest angle between the references of its two grains, with the unit axis of that rotation from the first to the second.',
     ['histories', 'inputs'], 'every order of setting references, calculating and viewing, all sets of orientations of both symmetries',
     'No test plots a misorientation or asks a segment for it.',
     [E, Q], [('map view', E + ':Map.plot_mis_ori_map'), ('grain view', E + ':Grain.plot_mis_ori'), ('calculation', E + ':Grain.build_mis_ori_list'), ('segment', E + ':BoundarySegment.misorientation')],
     [('ref_ori, mis_ori_list, mis_ori_axis_list', 'reference and lists of a grain', E)], ['plot.img_layers', 'BoundarySegment.misorientation()'])

prop('C40', 'Deformation grains speak for their crystals',
     'The reference orientation, phase and slip traces of a deformation grain always are those of the EBSD grain it was found from, at that moment: slip traces are calculated from the reference orientation when first asked for and kept until calculated again, '
     'the same whether asked of the deformation grain or of its crystal, and linking another EBSD map leaves the grains found with the crystals they have. '
     'The crystal symmetry of a deformation map is that of the primary phase of the EBSD map linked, and its scale that of its pattern times the sub-window size. '
     'The default plots of the map and of a grain show the maximum shear strain present then, the grain with the slip traces of its crystal in the colours of its phase, and the grain average map shows the mean of the unmasked values on every grain. '
     'The slip trace report lists every slip plane with its colour, its present trace angle and, for every direction, the Schmid factor last calculated, and is refused without Schmid factors.',
     ['histories'], 'every history of links, grain searches, references, calculations, masks and looks, on any maps',
     'Tests plot one example grain; nothing relates deformation grains to changed or recalculated crystals.',
     [H, E], [('deformation grain', H + ':Grain'), ('traces', E + ':Grain.calc_slip_traces'), ('report', E + ':Grain.print_slip_traces'), ('plots', H + ':Map.plot_grain_av_max_shear')],
     [], ['hrdic.Grain', 'hrdic.Map.plot_default', 'hrdic.Map.plot_grain_av_max_shear', 'ebsd.Grain.print_slip_traces'])
LEVEL_NOTE = {}
LEVEL_NOTE_DEFAULT = ('Design explored exhaustively by TLC within the stated small constants; the code is bound by '
                      'validating recorded executions (model-generated and seeded) event by event with TLC. '
                      'Conclusions about the code cover the executions explored.')
TECH = 'TLA+ specification: TLC exhaustive model + TLC trace validation of the real code'
NA = {}


def main():
    (V / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in PROPS))
    checks = []
    na = []
    for p in PROPS:
        pid = p['id']
        if pid in registry.CHECKS:
            checks.append({'property': pid,
                           'quick_cmd': f'/opt/venv/bin/python check.py {pid} quick',
                           'thorough_cmd': f'/opt/venv/bin/python check.py {pid} thorough',
                           'evidence_file': f'evidence/{pid}.json',
                           'technique': TECH, 'level': 'model_checking',
                           'level_note': LEVEL_NOTE.get(pid, LEVEL_NOTE_DEFAULT)})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, 'Check not built yet.')})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks are needed: every check observes public API results. Known findings and repaired defects: known_findings.txt.'}
    (V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
    print(len(PROPS), 'properties,', len(checks), 'claimed')


main()
