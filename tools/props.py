NO = 'The 9 stable tests call a handful of helpers with one literal input each; '
FIX = 'the analysis-step tests need LFS fixtures that are absent and compare one recorded file each. '

prop('C01', 'Chunked parallel processing equals sequential processing under every schedule',
     'Applying a function chunk by chunk to an event table with several workers yields, for every interleaving of reader, workers and writer and every completion order, exactly the rows (in input order) or the summed histogram that applying it sequentially yields, and it always terminates. If the function, reading or writing fails, the caller gets an error; it never hangs and never returns normally with an incomplete result. The same holds when input and output are the same file, and other nodes of that file are kept.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'all interleavings (up to a preemption bound) of the pipeline threads and all completion orders of the worker tasks, for small tables, all chunk sizes, 1..3 workers, table and histogram results, in place or not, and a failure injected at each step',
     NO + 'none runs the parallel pipeline under more than the one schedule the OS picks, and none lets a worker fail.',
     [P + 'tools/smc.py'], [('SMC._reader/_async_worker/_writer', P + 'tools/smc.py'), ('SMC.split_map_combine', P + 'tools/smc.py')],
     technique='stateful exploration of thread interleavings, task completion orders and injected failures of the real code under a controlled scheduler',
     note='All interleavings for 1-2 chunks, preemption bounded ones for more (bounds in the evidence); operations of deque/Event/pool are atomic; HDF5-internal thread safety is outside of the model.')

prop('C02', 'Chunked reading delivers every selected event once, whole and in order',
     'Reading an event-sorted table in chunks delivers exactly the rows with start event <= event number < stop event inside the given row range, each once, in order, in chunks of at most the chunk size, without splitting an event over chunks, and reports the row index where reading continues. This does not depend on the chunk size or on the index speed-up. An event that does not fit into a chunk, or a missing start event that was asked for, is reported as an error, never silently dropped.',
     ['inputs', 'configurations'],
     'all non-decreasing event number sequences up to 6 rows (repeated, consecutive and missing events), all chunk sizes, start/stop events, start/stop rows and flags',
     NO + 'one test reads one fixture with a few chunk sizes.',
     [AU], [('data_aligned_at_events', AU)],
     technique='exhaustive exploration of the reader on all small tables/parameters in lock-step with a reference selection',
     note='Complete up to the stated number of rows; real PyTables tables. Assumes the documented precondition (sorted event numbers).')

prop('C03', 'Event number operations: range selection, intersection, union, mapping, pairing',
     'For event-number-sorted arrays, including empty ones and ones with repeated or missing events, selecting an event range returns exactly the rows in it; the membership test, the list of common events and the list of events of either array (each with its larger multiplicity) are the ones defined by equality of event numbers; mapping clusters on events puts the n-th cluster of an event on the n-th entry of that event; merging pairs every row with every row of the same event, in order. Rows keep their content and type and inputs are left unmodified.',
     ['inputs'], 'all pairs of sorted event number arrays up to length 4-5 over a small alphabet incl. negative and very large values, all range limits',
     NO + 'each helper is tested with one literal array pair, none empty or without overlap.',
     [AU, P + 'cpp/AnalysisFunctions.h', P + 'cpp/analysis_functions.pyx'],
     [('get_data_in_event_range, map_cluster, merge_on_event_number', AU), ('getEventsInBothArrays, getMaxEventsInBothArrays, in1d_sorted', P + 'cpp/AnalysisFunctions.h')],
     technique='exhaustive enumeration of all small sorted arrays and limits on the real compiled functions against their definition',
     note='Complete up to the stated lengths and alphabets. Assumes sorted event numbers (documented).')

prop('C04', 'Index histograms count every entry exactly once or fail',
     'A 1D, 2D or 3D index histogram holds in each bin exactly the number of entries with these indices, in the requested shape; an index outside of the shape, or more entries than a bin can hold, raises an error and is never counted elsewhere. The event-wise correlation histograms are incremented at exactly the index pairs of all entries of the same event of two devices, or of all entries of earlier events within the event range. Mean, RMS and median calculated from a histogram are those of its entries.',
     ['inputs'], 'all index tuples up to length 4 over all indices of small shapes and out-of-range values; all small event sequences for the correlations',
     NO + 'histograms are compared for one random array.',
     [AU, P + 'cpp/AnalysisFunctions.h', P + 'cpp/analysis_functions.pyx'], [('hist_1d_index, hist_2d_index, hist_3d_index', AU), ('histogram_1d/2d/3d', P + 'cpp/AnalysisFunctions.h'), ('correlate_position_on_event_number, correlate_hits_on_event_range', AU)],
     technique='exhaustive enumeration of all small inputs of the real compiled functions against their definition',
     note='Complete for the stated shapes/lengths; larger histograms only by the uniformity of the loops. Indices are 32-bit integers.')

prop('C05', 'Clustering partitions the hits of each event; clusters summarise their hits',
     'Each accepted hit belongs to exactly one cluster and hits share a cluster if and only if they are in the same event and linked by neighbouring hits within the given column, row and frame distances; rejected hits (masked or outside the charge cuts) belong to none. Number of hits, total charge, extents, seed, centre of gravity or mean position, position in the local frame and shape code of a cluster are those of its hits. Chunk size, number of workers and order of hits within an event do not change the clusters.',
     ['inputs', 'configurations'],
     'all hit patterns on small pixel matrices and frames as separate events of one file, all cluster distances, chunk sizes and worker counts', FIX,
     [P + 'hit_analysis.py', AU], [('cluster', P + 'hit_analysis.py'), ('calculate_cluster_array/shape', AU)],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Distinct pixels per event and frame, at least one accepted hit per file. Workers run in the process of the check (C01 explores the parallel machinery).')

prop('C07', 'Pixel masking marks exactly the noisy and disabled pixels',
     'The pixel mask marks a pixel as noisy exactly if its hit count exceeds its surrounding (median filter) by more than the threshold times the spread of all pixels, repeated until the given number of iterations, and marks exactly the pixels the caller disabled. The stored occupancy counts every hit of the file once, hits outside of the pixel matrix raise an error, and neither chunk size nor number of workers has an influence. The hit file and the arguments of the caller are not changed.',
     ['inputs', 'configurations'], 'all occupancy patterns over a small alphabet on small matrices, all thresholds, filter sizes and disable requests', FIX,
     [P + 'hit_analysis.py'], [('mask', P + 'hit_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Pixels within rounding errors of the threshold are not judged. At least one hit.')

prop('C08', 'Merging DUT cluster files keeps every cluster of every event exactly once',
     'The merged table contains, for each event, exactly the clusters of all DUTs in that event: row k of the event holds for each DUT its k-th cluster or an empty (NaN) entry and the number of rows is the largest number of clusters of any DUT. Positions, errors, charge and cluster properties are those of the cluster file, nothing is carried over from other events, and the result does not depend on the chunk size.',
     ['inputs', 'configurations'], 'all multiplicity patterns of clusters of 2-3 DUTs over a few events, with missing events in any DUT, all chunk sizes', FIX,
     [P + 'hit_analysis.py'], [('merge_cluster_data', P + 'hit_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Each cluster file has at least one cluster; an event fits into a chunk.')

prop('C09', 'Correlation histograms hold exactly all same-event pairs',
     'The correlation histogram of a DUT with a reference DUT contains each pair of a reference and a DUT entry of the same event exactly once at the bin of their global positions, and nothing else; its axes cover both devices as stored. This holds for hits and clusters, for indices and local positions, for every placement of the devices, and does not depend on the chunk size, the order of selected devices or on events that only one of the devices saw.',
     ['inputs', 'configurations'], 'all small event histories of 2-3 devices, all chunk sizes, hit and cluster input', FIX,
     [P + 'hit_analysis.py', AU], [('correlate', P + 'hit_analysis.py'), ('correlate_position_on_event_number', AU)],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Positions inside of the sensors; entries within rounding errors of a bin edge are not judged. Worker tasks run in the process of the check except for one run with the real pool.')

prop('C10', 'Track finding permutes, never alters, loses or duplicates the hits of an event',
     'In the track candidates each DUT has in each event exactly the hits of the merged data with all their values, only exchanged between the rows of this event; hit flags name exactly the DUTs with a hit, and events keep their order. For well separated tracks seen by the first DUT each candidate holds the hits of one particle, whatever hits are missing in other DUTs. The result does not depend on the chunk size or on the order of the rows within an event.',
     ['inputs', 'configurations'], 'all arrangements of up to 3 particles with missing hits in 3-4 DUTs, all row permutations, all chunk sizes, both alignment states', FIX,
     [P + 'track_analysis.py'], [('find_tracks, _find_tracks_loop', P + 'track_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='One candidate per particle is judged if all particles have a hit in the first device (otherwise hits cannot be told apart in general); event limit: at most, exactly for a single chunk.')

prop('C11', 'Track fit uses exactly the selected hits and reports them truthfully',
     "A track is fitted for a candidate exactly if it has the required number of hits among the fit DUTs and all hits of the demanded DUTs, using exactly its hits of the fit DUTs (without the device under test if it is excluded). The stored offset, slope, chi2 and hit/quality/isolation flags are those of this fit, hits and event numbers are those of the candidate. Chunk size, process pool, event limit and the other DUTs being fitted have no influence on a DUT's tracks.",
     ['inputs', 'configurations'], 'all hit patterns of a 4-DUT telescope with all small selections of fit, demanded, excluded DUTs and quality cuts, all chunk sizes', FIX,
     [P + 'track_analysis.py'], [('fit_tracks, _fit_tracks_loop', P + 'track_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Real fit_tracks on candidate files with all hit patterns; reference: independent orthogonal straight line fit, flags recomputed from stored tracks. Histograms/plots are off.')

prop('C12', 'Kalman filter and straight line fit agree with the reference estimators',
     'On collinear hits both fitters return that line for any arrangement of shifted and tilted planes; the straight line fit is the least squares line of the hits. The Kalman result is the batch least squares solution with the hit errors, the scattering angles of the material and the start estimate, for every subset of missing hits. The result does not depend on the numbering of the devices or on the other tracks processed together.',
     ['inputs', 'configurations'], 'all device orderings, hit subsets and a grid of hit positions, resolutions and scattering budgets for 3-5 planes', NO + 'the Kalman filter is not covered by a stable test at all.',
     [P + 'tools/kalman.py', P + 'track_analysis.py'], [('KalmanFilter.smooth', P + 'tools/kalman.py'), ('line_fit_3d', P + 'tools/geometry_utils.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Real fitters on grids of hits for several geometries and all subsets of missing hits, compared with a batch least squares solution. Known finding: hits of inner fit planes are counted twice by the smoother.')

prop('C13', 'Track selection keeps exactly the tracks that match the criteria',
     'The selected tracks are exactly the input tracks that meet the required or excluded DUT hits, the quality/isolation criteria and the query, unchanged and in order, for each DUT separately. With an event limit at most that many events are kept, whole and starting with the first. Apart from the event limit the result does not depend on the chunk size; selecting nothing or everything is no error.',
     ['inputs', 'configurations'], 'all flag patterns of a 3-DUT telescope times all selections of the criteria, all chunk sizes and event limits', FIX,
     [P + 'track_analysis.py', P + 'tools/data_selection.py'], [('select_tracks', P + 'track_analysis.py'), ('table_where', P + 'tools/data_selection.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Event limit: exactly min(limit, available) if read in one chunk. The isolated-track flag of tracks without hit in the DUT is not judged (documentation and code disagree).')

prop('C14', 'Reducing and combining files keeps whole events and their content',
     'Limiting a file to a number of events or an event range copies rows of whole events in order and unchanged, at most that many events (exactly as many as there are, if read in one chunk). Combining files concatenates their rows in the given order, shifting event numbers such that events of different files never share a number and the order within each file is kept; offsets that are given are applied as they are.',
     ['inputs', 'configurations'], 'all small event histories, all limits, chunk sizes and file sequences incl. empty ones', NO + 'combining and reducing are not tested.',
     [P + 'tools/data_selection.py'], [('combine_files, reduce_events', P + 'tools/data_selection.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Event numbers of the tables of a file are shifted per table.')

prop('C15', 'DUT coordinate transformations are exact inverses and respect the geometry',
     'For every DUT geometry, position and rotation, pixel index -> local -> global position and back returns the starting point, the pixel grid is symmetric around the DUT centre with the given pixel pitch, and positions outside of the sensor are reported as outside (error or no pixel). Reported extents, corners, size and centre are those of the pixel matrix; transformations between the frames preserve distances and accept scalars, arrays and missing (NaN) entries element-wise.',
     ['inputs', 'configurations'], 'all DUT types, a grid of sizes, pitches, translations and rotations, all pixel indices', NO + 'DUT objects are not tested by stable tests.',
     [P + 'telescope/dut.py'], [('index_to_local_position, local_to_index_position, local_to_global_position, global_to_local_position', P + 'telescope/dut.py')],
     technique='exhaustive enumeration of all pixel indices and borders for a grid of devices and placements on the real classes against the definition',
     note='Diamond types map indices on bump bonds: only local <-> global is covered for them. Angles/translations from a grid.')

prop('C16', 'Rotation, coordinate and line-plane geometry is exact incl. degenerate cases',
     'Rotation matrices are proper rotations, compose in the documented order and Euler angles extracted from any of them (incl. gimbal lock) give the same matrix; cartesian, cylindrical and spherical coordinates convert back and forth without loss, also on the axes. A line intersects a plane in the point that satisfies both, and a parallel line yields no (NaN) intersection for that line only.',
     ['inputs'], 'a full grid of angle triples incl. all multiples of 90 degrees, directions incl. all axes, line/plane combinations', NO + 'three geometry tests use a few angles and no degenerate case.',
     [P + 'tools/geometry_utils.py'], [('rotation_matrix, euler_angles, cartesian_to_spherical, get_line_intersections_with_plane', P + 'tools/geometry_utils.py')],
     technique='exhaustive enumeration of a closed grid of angles, axes, directions and line/plane combinations against the definition',
     note='Grid includes all multiples of 90 and 45 degrees and values next to them; improper matrices are outside of the property.')

prop('C17', 'Telescope configuration survives every edit, save and load history',
     'Saving a telescope and loading it gives the same devices with the same types, order and parameter values, after any history of adding, changing, saving and loading; loading replaces the devices of the same number. Invalid parameters and attributes that a device does not have are rejected and leave the device unchanged.',
     ['histories', 'inputs'], 'all operation sequences up to a depth over add / modify / save / load / invalid assignment with all DUT types', NO + 'one test round-trips nothing but reads an existing file.',
     [P + 'telescope/telescope.py', P + 'telescope/dut.py'], [('Telescope.save_configuration, load_configuration, add_dut', P + 'telescope/telescope.py'), ('Dut.__setattr__', P + 'telescope/dut.py')],
     technique='explicit-state exploration of all operation histories up to a depth on the real classes in lock-step with a reference model',
     note='Loading keeps devices of other numbers (documented by the code).')

prop('C18', 'Every result file records the arguments of the step that produced it',
     "After an analysis step each file it returns holds the arguments the step was called with (positional and keyword), the time and the version, re-running a step replaces its record and keeps those of other steps, and the step's data and return value are not changed by recording. A failing step records nothing.",
     ['histories', 'inputs'], 'all call shapes (positional/keyword/default), return value shapes and sequences of up to 3 steps', NO + 'recording is not tested.',
     [P + 'tools/storage_utils.py'], [('save_arguments, save_configuration_dict', P + 'tools/storage_utils.py')],
     technique='exhaustive enumeration of all call shapes, return shapes and step histories up to a depth on the real decorator and files',
     note='Defaults are not recorded (documented); text form of an argument up to 32 kB.')

prop('C19', 'Residual histograms contain every selected track exactly once',
     'Residual histograms contain, for each selected DUT and direction, each fitted track with a hit within the limits exactly once with hit minus track position (local frame, stored binning); profile histograms, maps, fits and track angle histograms describe the same tracks. Apart from the binning, which the first chunk defines, the result does not depend on chunk size, selection or order of the DUTs.',
     ['inputs', 'configurations'], 'all small track tables incl. missing hits, all chunk sizes, DUT selections and frames', FIX,
     [P + 'result_analysis.py'], [('calculate_residuals', P + 'result_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Real calculate_residuals and histogram_track_angle on all short sequences of kinds of tracks; the reference counts by hand. The gaussian/box fit of the histograms is compared with the fit of the reference histogram.')

prop('C20', 'Efficiency and purity count passing and total tracks exactly',
     'Per bin, pixel, region and in total, the efficiency is the number of selected tracks with a hit within the allowed distance divided by the number of selected tracks crossing it; no track counts twice and none outside the region, the sensor or on a disabled pixel counts. The purity is the number of hits with a track within the allowed distance divided by the number of hits. Results do not depend on the chunk size, and all stored histograms describe the same tracks.',
     ['inputs', 'configurations'], 'all small track tables, cut distances, chunk sizes and regions', FIX,
     [P + 'result_analysis.py'], [('calculate_efficiency, calculate_purity', P + 'result_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Real calculate_efficiency and calculate_purity on all short sequences of kinds of tracks and on position grids; the reference counts by hand in all stored histograms. The confidence interval calculation is replaced by a recorder (it is called for real for all k of N <= 4).')

prop('C21', 'Alignment recovers known misalignments and applying it is invertible',
     'For exact tracks through misaligned devices, pre-alignment (to the bin width) and the calculated transformation recover the misalignment of each selected device, and the complete alignment that of the device, independent of the numbering of the devices; chunks contribute in proportion to their tracks. Only the selected devices and parameters change and no temporary files remain. Applying an alignment to a file maps all positions and slopes of every device to the global frame and back without loss and leaves everything else unchanged.',
     ['inputs', 'configurations'], 'a grid of shifts and rotations, all chunk sizes and device selections', FIX,
     [P + 'dut_alignment.py'], [('apply_alignment, prealign, calculate_transformation, align_telescope', P + 'dut_alignment.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Real apply_alignment, calculate_transformation, align_telescope, prealign and align on exact tracks through misaligned devices. Modest misalignments (range of convergence); align_kalman is not judged; the telescope planes themselves are judged by the remaining deviation from straight lines.')

prop('C22', 'Simulated data are consistent, in bounds and reproducible',
     'A simulation with a given seed is reproducible and contains, for every chunk size, exactly the requested number of events with sorted event numbers and the same particles in all devices. Every simulated hit is a pixel of its device at the place where the particle crossed it (or shares its charge by diffusion), and no particle crossing a fully efficient device is lost, including its edge pixels. Efficiency, noise, threshold and scattering act on their device (or behind it) only, and the beam has the set position, size and angles.',
     ['inputs', 'configurations'], 'a grid of telescope set-ups, settings, seeds, chunk sizes and event numbers', NO + 'the simulation is not tested.',
     [P + 'tools/simulate_data.py'], [('SimulateData', P + 'tools/simulate_data.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Real simulation through its public interface. Beams without spread are compared with an own ray tracing and diffusion model; random beams with the consistency of the devices and, for mean and spread, within 5 standard deviations.')

prop('C23', 'The hit file check reports exactly the inconsistent files and correct statistics',
     'Checking a hit or cluster file raises an error exactly if a position is outside of the device or event numbers decrease, and otherwise the stored event numbers, event number differences and event-to-event position correlations are those of the data. The result does not depend on the chunk size.',
     ['inputs', 'configurations'], 'all small event histories incl. invalid ones, all chunk sizes', FIX,
     [P + 'hit_analysis.py'], [('check_file', P + 'hit_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='An event fits into a chunk (an error otherwise). Positions are not NaN, event numbers not negative.')

prop('C24', 'Coordinate conversion of hit files is lossless and complete',
     'Converting a hit file between index, local and global coordinates keeps every row with its event number and other fields, transforms exactly the position columns by the device\'s transformation, and converting back gives the original, for every chunk size and device.',
     ['inputs', 'configurations'], 'all pixel positions of small devices, all devices and directions, all chunk sizes', FIX,
     [P + 'hit_analysis.py'], [('convert, convert_coordinates', P + 'hit_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Devices with rectangular pixel matrix.')

prop('C25', 'Analysis steps report failures and never modify their input',
     'Whatever fails while an analysis step reads its input or writes its output, the caller gets an error instead of an incomplete or wrong result, and after success or failure its input files have the same content as before. A failed step ends, leaves no output file open and can be repeated with the correct result.',
     ['fault_sequences', 'inputs'], 'every single failing read, write, create or flush operation of each analysis step', NO + 'no test injects a failure.',
     [P + 'hit_analysis.py', P + 'track_analysis.py', P + 'tools/smc.py'], [('all analysis steps', P + 'hit_analysis.py')],
     technique='exhaustive enumeration of all small inputs and configurations of the real step on real files against an independent reference model',
     note='Real analysis steps; every single file operation that the step does fails once as reported by the library (operating system error). A failure without consequence for the result (for example while closing an input file) may be tolerated. Process pools are replaced by calls in this process; losses of worker processes are explored by C01.')
