"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, pathlib

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
    )
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


A = 'acoular/'

# ---------------------------------------------------------------- streaming
p('S01', 'Block size never changes a time-domain stream',
  'For every block in a processing chain that yields time data, the concatenation of the blocks it yields is the same signal for every requested block size. '
  'Every block except the last has exactly the requested length, the last has between one sample and that length, and sample and channel counts agree with what the object announces.',
  ['inputs', 'configurations'],
  'every generator class, every source length 1..Nmax, every block size 1..N+2, several channel counts and configurations of each class',
  'Tests use one or two block sizes on one signal length (and most of those that would run every generator need a data file that is not there), so lengths that leave a short last block, a block longer than the signal or a stateful carry-over between blocks are never met.',
  [A+'tprocess.py', A+'process.py', A+'base.py', A+'sources.py', A+'signals.py'],
  [('per-class result(num) generators', 'acoular/tprocess.py:*.result'), ('block reading of stored data', 'acoular/sources.py:TimeSamples.result'),
   ('simulated sources', 'acoular/sources.py:PointSource.result')],
  ['blocks yielded by result(num)', 'num_samples', 'num_channels'])

p('S02', 'Time-domain processing blocks compute their documented signal function',
  'Selecting samples and channels, mixing signals or channels, squaring, (cumulative) averaging, reversing, exponential averaging and filtering yield, sample for sample, the textbook function of the whole input signal, for every admissible configuration. '
  'A filter applied block by block equals the same filter applied once to the whole signal.',
  ['inputs', 'configurations'],
  'all start/stop/invalid-channel choices, all source lengths up to a bound, all block sizes, all filter types/orders/bands of a small menu',
  'Existing tests compare single configurations; the selection logic has separate paths for start/stop inside one block, across blocks and at block boundaries.',
  [A+'tprocess.py', A+'process.py', A+'sources.py'],
  [('sample and channel selection', 'acoular/tprocess.py:MaskedTimeOut.result'), ('selection when reading files', 'acoular/sources.py:MaskedTimeSamples.result'),
   ('filters keeping state between blocks', 'acoular/tprocess.py:Filter.result'), ('averaging', 'acoular/process.py:Average.result')],
  ['blocks yielded by result(num)'])

p('S03', 'Streaming convolution equals linear convolution',
  'Convolving a signal with impulse responses block by block yields exactly the full linear convolution (signal length plus kernel length minus one samples) per channel. This holds for every signal length, kernel length, block size and channel arrangement, with nothing lost, repeated or shifted at block boundaries.',
  ['inputs', 'configurations'],
  'all signal lengths x kernel lengths x block sizes up to a bound, single- and multi-channel kernels',
  'The test convolves one signal with one block size; partitioned overlap-save has a frequency-domain delay line whose depth depends on kernel and block length.',
  [A+'tprocess.py'], [('uniformly partitioned convolution', 'acoular/tprocess.py:TimeConvolve.result')], ['blocks yielded by result(num)'])

p('S04', 'Producing results never changes inputs; re-running reproduces the stream',
  'Producing output from any object leaves the data and the configuration of every object it reads from unchanged. Running the same unchanged object again yields the identical stream.',
  ['histories', 'configurations'],
  'every generator class, every upstream kind (stored arrays, files, other blocks), run twice with every pair of block sizes',
  'Tests consume each chain once and throw it away; in-place arithmetic on a block that is a view of stored data is invisible to them.',
  [A+'tprocess.py', A+'sources.py', A+'process.py', A+'tbeamform.py', A+'tools/metrics.py'],
  [('mixing', 'acoular/tprocess.py:Mixer.result'), ('mixing of simulated sources', 'acoular/sources.py:SourceMixer.result'), ('line sources', 'acoular/sources.py:LineSource.result')],
  ['source data before/after', 'second run of result(num)', 'configuration of upstream objects'])

p('S05', 'Results do not depend on how upstream manages its block memory',
  'A block handed from one processing object to the next is only guaranteed to be valid until the next block is requested. Every object yields the same stream whether its input blocks are fresh arrays, views into stored data, or one buffer that is overwritten for each block.',
  ['configurations', 'programs'],
  'every consumer class x every way of handing over blocks (fresh, view, overwritten buffer), plus all two-stage chains of library blocks, all block sizes',
  'Tests feed consumers from stored arrays only; the buffer-reusing producers (simulated sources, filter banks, masks) are combined with few consumers.',
  [A+'tprocess.py', A+'process.py', A+'sources.py', A+'fprocess.py'],
  [('consumers that keep blocks', 'acoular/tprocess.py:TimeReverse.result'), ('block queues', 'acoular/process.py:SampleSplitter'), ('buffer reuse', 'acoular/sources.py:PointSource.result')],
  ['blocks yielded by result(num)'])

p('S06', 'The sample buffer delivers exactly the requested sliding windows',
  'Reading a stream through the sample buffer yields consecutive windows of the requested length, advancing by the requested step, in order and without losing, repeating or inventing samples. This holds for every buffer length, input block size, window length and step that fit the buffer, including when the window is enlarged while running.',
  ['inputs', 'histories'],
  'all buffer lengths, source block sizes, window lengths (also changed between reads), both step modes, all signal lengths up to a bound',
  'The unit test checks a handful of settings with one signal; alignment of source blocks and windows is periodic and only some residues fail.',
  [A+'process.py'], [('ring-less shifting buffer', 'acoular/process.py:SamplesBuffer')], ['blocks yielded by result(num)'],
  [('_buffer/_index', 'stored samples and read position', 'acoular/process.py:SamplesBuffer')])

p('S07', 'A splitter gives every registered consumer the whole stream, in order',
  'Every object registered with a splitter receives every block of the source exactly once, in order and unaltered, whichever way the consumers alternate and whichever threads they run in. No consumer ends before it has received all blocks.',
  ['schedules', 'histories'],
  'all interleavings of 2-3 consumers over short streams, at generator granularity and, with real threads, at every source-line boundary up to a preemption bound',
  'Tests run consumers in two fixed orders; thread timing is never controlled.',
  [A+'process.py', A+'internal.py', A+'tools/utils.py', A+'base.py'],
  [('shared source generator', 'acoular/process.py:SampleSplitter._fill_block_buffers'), ('per-consumer queues', 'acoular/process.py:SampleSplitter.result'), ('locked generator', 'acoular/process.py:LockedGenerator')],
  ['blocks received by each consumer'],
  [('block_buffer', 'per-consumer queue of pending blocks', 'acoular/process.py:SampleSplitter')])

p('S08', 'A splitter never loses data silently when a consumer lags',
  'When a consumer falls behind by more blocks than its buffer holds, the configured treatment takes place: an error for every consumer, a warning with the oldest blocks dropped, or silent dropping only if that was asked for. A consumer whose buffer did not overflow is never affected by another consumer that tolerates loss, and buffer sizes given per consumer are honoured.',
  ['histories', 'schedules', 'configurations'],
  'all consumption orders of 2 consumers over short streams x all combinations of buffer size (global, per consumer) and overflow treatment',
  'Tests check one order per treatment with a global size.',
  [A+'process.py'], [('overflow inspection', 'acoular/process.py:SampleSplitter._inspect_buffer_levels')], ['exceptions and warnings', 'blocks received by each consumer'])

p('S09', 'Streaming spectra equal the transform of the windowed signal segments',
  'The streamed short-time spectra are the scaled discrete Fourier transforms of consecutive, overlapping, windowed segments of the input, the inverse transform restores the signal, and auto and cross power streams equal the products of these spectra. Values, number of snapshots and channel order do not depend on how many snapshots are requested per block.',
  ['inputs', 'configurations'],
  'all signal lengths x block sizes x overlaps x windows x snapshots per block x scalings x channel counts up to a bound',
  'The numerical tests use one long signal and one setting per scaling.',
  [A+'fprocess.py', A+'process.py', A+'spectra.py'],
  [('segmenting', 'acoular/spectra.py:BaseSpectra._get_source_data'), ('transforms', 'acoular/fprocess.py:RFFT.result'), ('cross powers', 'acoular/fprocess.py:CrossPowerSpectra.result')],
  ['blocks yielded by result(num)', 'num_samples', 'num_channels'])

p('S10', 'Interrupted and interleaved runs of one object do not disturb each other',
  'Abandoning a run after any number of blocks and starting again yields the complete, correct stream from the beginning. Two runs of the same object that are advanced alternately in any order each yield that same stream.',
  ['histories', 'schedules'],
  'every generator class, every abandonment point, every interleaving of two runs up to a block-count bound',
  'Tests always exhaust a generator before starting another one.',
  [A+'tprocess.py', A+'process.py', A+'sources.py', A+'fprocess.py', A+'tbeamform.py'],
  [('state kept in local variables of the generators', 'acoular/tprocess.py:*.result'), ('buffer state kept on the object', 'acoular/process.py:SamplesBuffer')],
  ['blocks yielded by each run'])

p('S11', 'Triggers, rotation angle and rotated microphone signals agree',
  'The triggers reported for a signal are those of the whole signal under the documented rules, wherever the boundaries of internally read blocks fall. The tracked speed and angle are those of the shaft: constant speed for evenly spaced triggers, the exact revolution count at every trigger otherwise, for any number of triggers per revolution, direction and start angle. Rotated microphone signals are the interpolation between the microphones turned by that angle: turning a ring by whole spacings exchanges its channels, virtual microphones in place of real ones get their signals, and the block size has no influence. Methods that do not exist for the dimension of the array are refused.',
  ['inputs', 'configurations', 'histories'],
  'trigger kinds x signal lengths around the internal block size x positions around block boundaries x signs x thresholds; trigger spacings x triggers per revolution x directions; all orders of ring microphones x rotations; dimensions x methods x orientations of the array; sequences of setting changes',
  'The tests only compare the output of one configuration with a stored result, and skip the trigger.',
  [A+'tprocess.py'],
  [('trigger search', 'acoular/tprocess.py:Trigger._get_trigger_data'), ('speed and angle', 'acoular/tprocess.py:AngleTracker._to_rpm_and_angle'), ('interpolation', 'acoular/tprocess.py:SpatialInterpolator._result_core_func'), ('rotation', 'acoular/tprocess.py:SpatialInterpolatorRotation.result')],
  ['Trigger.trigger_data', 'AngleTracker.rpm', 'AngleTracker.angle', 'blocks yielded by result(num)'])

# ---------------------------------------------------------------- caches
p('C01', 'The time-data cache is transparent',
  'Whatever sequence of complete and interrupted runs, block sizes, caching modes and reconfigurations came before, reading through the cache yields exactly the stream the uncached source would yield. The cached data is only reported as complete when it is.',
  ['histories', 'fault_sequences', 'configurations'],
  'all operation sequences up to a depth over {run fully, run k blocks and abandon, change caching mode, change block size, reconfigure source, restart process} for both HDF5 back ends',
  'The caching tests need a missing data file and check single runs only.',
  [A+'process.py', A+'h5cache.py', A+'h5files.py'],
  [('choice of the data path', 'acoular/process.py:Cache.result'), ('completion of interrupted caches', 'acoular/process.py:Cache._get_data_from_incomplete_cache')],
  ['blocks yielded by result(num)', 'cache file content'],
  [('complete flag', 'marks a finished node', 'cache file, node tc_<digest>')])

p('C02', 'Cached spectra, source maps and point spread functions equal uncached ones',
  'Cross spectral matrices, source maps and point spread functions obtained with result caching on are identical to those obtained with caching off, after any sequence of queries, partial queries, reconfigurations, mode changes and process restarts that share a cache directory.',
  ['histories', 'configurations'],
  'all operation sequences up to a depth over {query frequency/index, change mode, reconfigure, new process} for all caching modes and both HDF5 back ends',
  'The caching tests need a missing data file; partially filled caches and stale entries need multi-step histories.',
  [A+'spectra.py', A+'fbeamform.py', A+'h5cache.py', A+'h5files.py', A+'internal.py'],
  [('matrix cache', 'acoular/spectra.py:PowerSpectra._get_filecache'), ('source map cache', 'acoular/fbeamform.py:BeamformerBase._get_filecache'), ('psf cache', 'acoular/fbeamform.py:PointSpreadFunction._get_filecache')],
  ['csm', 'result', 'synthetic', 'psf', 'calc_psf'])

p('C03', 'The caching policy is obeyed',
  'With caching disabled no cache file is created or modified; in read-only mode cache files are never modified; in overwrite mode stored results are recomputed and replaced; in the individual mode the switch of each object decides. With an existing complete entry and caching on, the stored result is used without recomputing it.',
  ['configurations', 'histories'],
  'all modes x pre-existing cache state {absent, complete, incomplete, foreign} x cacheable classes x both HDF5 back ends',
  'The caching tests need a missing data file.',
  [A+'configuration.py', A+'process.py', A+'spectra.py', A+'fbeamform.py', A+'h5cache.py'],
  [('mode dispatch', 'acoular/h5cache.py:HDF5Cache._caching_strategy'), ('time cache', 'acoular/process.py:Cache.result')],
  ['files in the cache directory and their bytes', 'number of source evaluations'])

p('C04', 'A crash while caching never leads to wrong results afterwards',
  'If the process dies, or an exception is raised, between any two operations on a cache file, a later run that uses that cache directory yields the correct results. A partially written entry is never taken for a complete one.',
  ['crash_points'],
  'every point between two cache-file operations of each caching scenario, followed by a recovery run, for each cacheable class and both HDF5 back ends',
  'No test interrupts a run in the middle of writing.',
  [A+'process.py', A+'spectra.py', A+'fbeamform.py', A+'h5cache.py', A+'h5files.py'],
  [('validity marks', 'acoular/process.py:Cache._write_data_to_cache'), ('frequency flags', 'acoular/fbeamform.py:BeamformerBase._get_result'), ('matrix validity test', 'acoular/spectra.py:PowerSpectra._get_csm')],
  ['results after recovery'])

p('C05', 'Cache file handles follow the objects that use them',
  'A cache file stays open as long as any live object uses it and is closed no later than the next time a cache file is opened once the last one is gone or has moved to another file. Objects that change the file they use keep working, in every order of creation, switching and disposal.',
  ['histories'],
  'all sequences up to a depth of {create object, change its data set, query, dispose} over 2 objects and 2 cache files, for both HDF5 back ends',
  'Tests create one or two objects and never switch files.',
  [A+'h5cache.py'], [('reference counting', 'acoular/h5cache.py:HDF5Cache.get_cache_file')], ['open files', 'results', 'exceptions'],
  [('open_file_reference', 'number of users per cache file', 'acoular/h5cache.py:HDF5Cache')])

p('C06', 'Concurrent use of shared caches and generators is serialised',
  'Objects running in different threads can use the shared cache registry and the shared, locked source generator at the same time without lost updates, double handouts, use of a file while it is being closed, or deadlock.',
  ['schedules'],
  'all schedules of 2-3 threads with up to a bounded number of preemptions at every source line of the shared code',
  'Thread timing is never controlled by the tests.',
  [A+'h5cache.py', A+'process.py'], [('busy flag', 'acoular/h5cache.py:HDF5Cache'), ('locked generator', 'acoular/process.py:LockedGenerator')],
  ['handed-out blocks', 'reference counts', 'termination'])

p('C07', 'Results do not depend on the number of threads or on the order of parallel work',
  'Maps, cross spectra, steering vectors, point spread functions and beamformed time signals are the same, up to rounding, for every number of threads, every way in which the work of a parallel loop is divided, and every order in which its parts run. Parts of a parallel loop share no data that one of them changes.',
  ['schedules', 'configurations'],
  'all parallel loops reached by frequency and time domain beamformers, CSM, PSF, steering and trajectories; all orders of up to 4 tasks; all pairs of accesses of different tasks; 1-8 threads and several chunk sizes of the compiled code',
  'Tests compare with stored results for the one schedule that happens; a data race shows only now and then.',
  [A+'fastFuncs.py', A+'tfastfuncs.py'], [('frequency domain kernels', 'acoular/fastFuncs.py:beamformerFreq'), ('delay and sum kernels', 'acoular/tfastfuncs.py:_delayandsum4'), ('cross spectral matrix', 'acoular/fastFuncs.py:calcCSM')],
  ['results', 'accesses of tasks'])

# ---------------------------------------------------------------- identity and coherence
p('D01', 'Equal configurations have equal digests',
  'Two objects of the same class with equal settings have the same digest, regardless of the order in which the settings were made, of intermediate settings that were undone, and of the process they live in. The digest does not change by producing results.',
  ['histories', 'configurations'],
  'every public class with a digest, all permutations of up to three assignments, detours through another value, separate processes',
  'Tests compare digests of a few objects made in one way.',
  [A+'internal.py', A+'base.py', A+'sources.py', A+'grids.py', A+'fbeamform.py', A+'spectra.py'],
  [('digest computation', 'acoular/internal.py:digest'), ('list digests', 'acoular/internal.py:ldigest')], ['digest'])

p('D02', 'Any setting that affects the result affects the digest',
  'Changing any setting, or any setting of a nested object, so that the results differ also changes the digest, and so does replacing the data that is processed. Objects whose results differ never share a digest. Settings that only select a part of one result are excepted: the frequency range of spectra, the frequency and source positions of a point spread function, and the storage modes.',
  ['configurations', 'histories'],
  'every public class with a digest, every public setting of it (and of objects it refers to), two or more alternative values, set at construction, re-assigned and, for containers, changed in place',
  'The tests touch the settings of few classes and only check for change of one value at a time.',
  [A+'internal.py', A+'sources.py', A+'tprocess.py', A+'fbeamform.py', A+'tbeamform.py', A+'environments.py'],
  [('dependency lists of each digest', 'acoular/*.py: digest = Property(depends_on=...)')], ['digest', 'results'])

p('D03', 'A reconfigured object behaves like a freshly built one',
  'After any sequence of changes to its settings and to the settings of the objects it refers to, with results queried in between, every object yields the same values for all of its derived quantities and results as a newly built object with the final settings.',
  ['histories'],
  'every class with derived or stored quantities, all sequences of up to two or three assignments with all derived quantities read before and between them',
  'Tests build objects once; staleness needs read-change-read histories.',
  [A+'grids.py', A+'microphones.py', A+'spectra.py', A+'fbeamform.py', A+'environments.py', A+'tprocess.py', A+'trajectory.py', A+'fprocess.py', A+'calib.py', A+'signals.py'],
  [('cached properties and their dependency lists', 'acoular/*.py: @cached_property / property_depends_on'), ('interpolator store', 'acoular/environments.py:GeneralFlowEnvironment.idict')],
  ['all derived properties', 'result'])

# ---------------------------------------------------------------- spectra
p('F01', 'The cross spectral matrix is the averaged cross periodogram of the data',
  'The cross spectral matrix equals the average over all complete, overlapping, windowed blocks of the outer products of their spectra, with the documented scaling, for every block size, window, overlap and number of samples. It is Hermitian and positive semidefinite, and its eigenvalues and eigenvectors reproduce it.',
  ['inputs', 'configurations'],
  'all signal lengths x block sizes x overlaps x windows x precisions up to a bound',
  'The spectra tests use one signal and do not vary the number of samples relative to the block size.',
  [A+'spectra.py', A+'fastFuncs.py'],
  [('block loop', 'acoular/spectra.py:PowerSpectra.calc_csm'), ('accumulation kernel', 'acoular/fastFuncs.py:calcCSM')], ['csm', 'eva', 'eve', 'num_blocks'])

p('F02', 'The selected frequency range is consistent whichever way it is set',
  'The frequency range selected by index or by frequency, in any order and interleaved with changes of block size or sampling rate, always refers to existing frequencies, and the index limits, the frequency limits, the list of indices and the frequencies of beamforming results agree with each other.',
  ['histories', 'configurations'],
  'all sequences up to a depth of assignments to the index limits, frequency limits and block size with small value menus including None, negative and out-of-range values',
  'One test sets one range.',
  [A+'spectra.py'], [('last-set-wins range logic', 'acoular/spectra.py:PowerSpectra._get_ind_low')], ['ind_low', 'ind_high', 'freq_range', 'indices', 'fftfreq'])

p('F03', 'Imported cross spectral matrices behave like computed ones',
  'Replacing an imported cross spectral matrix or its frequencies at any time is immediately visible in all quantities derived from it and in all results of objects that use it. Beamforming an imported matrix equals beamforming the data it came from.',
  ['histories', 'configurations'],
  'all sequences up to a depth of matrix/frequency replacement, query and use in a beamformer, caching on and off',
  'The import class is only checked for its digest on one path.',
  [A+'spectra.py', A+'aiaa/aiaa.py'], [('checksum of the matrix', 'acoular/spectra.py:PowerSpectraImport._set_csm')], ['csm', 'digest', 'eva', 'eve', 'result'])

# ---------------------------------------------------------------- beamforming
p('B01', 'Source maps do not depend on the order or subset of frequencies queried',
  'The map delivered for one frequency is the same whether it is requested alone, before or after others, via a band, an index (also counted from the end), a slice or the complete result array. Band and sector values are the corresponding sums of these maps.',
  ['histories', 'schedules'],
  'every frequency-domain beamformer, all orders of querying the frequencies (all permutations and repeated queries) with all access forms',
  'The regression test evaluates complete frequency lists in one order and is skipped here because its input file is missing.',
  [A+'fbeamform.py'], [('lazy per-frequency evaluation', 'acoular/fbeamform.py:LazyBfResult'), ('band synthesis', 'acoular/fbeamform.py:BeamformerBase.synthetic')], ['result', 'synthetic', 'integrate'])

p('B02', 'Conventional beamformers match their formulas for every steering vector type',
  'Delay-and-sum, eigenvalue, functional, Capon and MUSIC maps equal the closed-form expressions for every steering vector formulation, with and without diagonal removal, including removal of microphones. The eigenvalue form with all components equals the delay-and-sum map.',
  ['inputs', 'configurations'],
  'all steering vector types x diagonal removal x eigenvalue subsets x small arrays, grids and frequencies',
  'Regression outputs pin one configuration per class and their input file is missing.',
  [A+'fbeamform.py', A+'fastFuncs.py'], [('kernels', 'acoular/fastFuncs.py:beamformerFreq'), ('steering vectors', 'acoular/fbeamform.py:SteeringVector')], ['result', 'steer_vector', 'transfer'])

p('B03', 'Beamformers treat microphones, grid points and frequencies consistently',
  'Renumbering the microphones together with the data, marking microphones invalid instead of removing them, and renumbering grid points leave the map of every frequency-domain beamformer the same up to the renumbering. Results are finite; those of methods that enforce it are non-negative. Methods whose result depends on the order of the points by definition are not renumbered.',
  ['inputs', 'configurations'],
  'all permutations and exclusions of a 4-5 microphone array, all beamformer classes, small grids',
  'No test compares two arrangements of the same problem.',
  [A+'fbeamform.py', A+'fastFuncs.py', A+'microphones.py'], [('valid channel handling', 'acoular/microphones.py:MicGeom'), ('beamformers', 'acoular/fbeamform.py')], ['result'])

p('B04', 'Point spread functions do not depend on calculation mode or query order',
  'The point spread function for any set of source positions equals its closed form for every steering vector type, calculation mode and precision, and does not depend on which positions were queried before.',
  ['histories', 'configurations'],
  'all calculation modes x all query sequences of index subsets up to a depth x steering vector types x precisions, cached or not',
  'Only the damas regression touches it, with one mode; its input file is missing.',
  [A+'fbeamform.py', A+'fastFuncs.py'], [('incremental computation', 'acoular/fbeamform.py:PointSpreadFunction.calc_psf')], ['psf', 'calc_psf'])

p('B05', 'Time-domain beamforming is delay and sum, independent of block size',
  'The time-domain beamformer output is, for every sample, the weighted sum of the microphone signals interpolated at the propagation delays, for fixed and moving grids, all weightings and steering vector types. It does not depend on the block size except for the documented deconvolution variants.',
  ['inputs', 'configurations'],
  'all block sizes x signal lengths x small arrays and grids x weightings x classes',
  'The regression test uses one block size and its input file is missing.',
  [A+'tbeamform.py', A+'tfastfuncs.py', A+'process.py'], [('windowed buffer', 'acoular/process.py:SamplesBuffer'), ('delay and sum kernels', 'acoular/tfastfuncs.py:_delayandsum4')], ['blocks yielded by result(num)'])

p('B06', 'Sources are found at their place with their level, from simulated signal to map',
  'A point source that is the only one, or one of a few well separated incoherent ones, is found at its grid point with its mean square pressure at the reference distance by every method that claims to (beamforming with the steering vector types made for levels, functional and eigenvalue methods, deconvolution and inverse methods, gridless CMF), for imported cross-spectral matrices as well as for simulated sources through spectra or time-domain processing, in still or moving air, at rest or on a trajectory, with invalid microphones and any reference position.',
  ['inputs', 'configurations'],
  'all methods and their options x scenes (grids, arrays, flow, references) x all source positions of the grid and pairs of them',
  'Regression tests compare stored numbers of one scene; whether the maps are right is not asserted.',
  [A+'fbeamform.py', A+'tbeamform.py', A+'sources.py', A+'spectra.py', A+'fprocess.py'], [('matching of matrix', 'acoular/fbeamform.py:BeamformerCMF._calc'), ('source levels', 'acoular/sources.py:PointSource.result'), ('steering vectors', 'acoular/fbeamform.py:SteeringVector.steer_vector')], ['result', 'synthetic'])

# ---------------------------------------------------------------- geometry
p('G01', 'Grid points, shapes and indices are consistent',
  'For every grid the number of points, the shape and the positions agree, every position is found under its own index, the index of an arbitrary point inside the grid is that of a nearest grid point, and subdomain indices select exactly the points inside the described region (the corners of rectangles and boxes being those of the nearest grid points).',
  ['inputs', 'configurations'],
  'all small grids (limits, increments, 2-D and 3-D, imported, line, merged) x all grid points and off-grid probes x all rectangles, circles, boxes from a lattice',
  'Tests check one grid of each type.',
  [A+'grids.py'], [('index computation', 'acoular/grids.py:RectGrid.index'), ('subdomains', 'acoular/grids.py:RectGrid.indices')], ['pos', 'size', 'shape', 'index', 'indices', 'subdomain'])

p('G02', 'Sectors contain exactly the points of their shape',
  'A sector reports exactly the grid points lying inside its shape, including or excluding the border as requested. If there is none and the nearest-point default is on, it reports exactly one point, a nearest one to its center; combined sectors report the union.',
  ['inputs', 'configurations'],
  'all sector shapes with corners on a small lattice x border handling x default handling x 2-D and 3-D grids',
  'Tests check one sector of each type with several points inside.',
  [A+'grids.py'], [('contains methods', 'acoular/grids.py:Sector.contains')], ['contains', 'subdomain'])

p('G03', 'Propagation distances obey the flow model',
  'In a medium at rest the propagation distance is the Euclidean distance; with uniform or general flow it is the speed of sound times the travel time along the ray, which reduces to the Euclidean distance without flow. Values do not depend on how many points or microphones are evaluated together.',
  ['inputs', 'configurations'],
  'all small sets of points and microphones (1..3 each) x flow settings',
  'Regression outputs pin one configuration per environment.',
  [A+'environments.py'], [('distance functions', 'acoular/environments.py:Environment._r')], ['_r via steering vector distances'])

p('G04', 'Trajectories pass through their sample points in time order',
  'A trajectory passes through every given point at the given time regardless of the order in which points were entered, is evaluated consistently by single, array and stepped evaluation, and derivatives agree with the positions. Changing points takes effect immediately.',
  ['inputs', 'histories'],
  'all insertion orders of up to 4 points, all step choices, all in-place changes of the point table',
  'Only constructed implicitly in tests.',
  [A+'trajectory.py'], [('spline', 'acoular/trajectory.py:Trajectory')], ['location', 'traj', 'interval'])

# ---------------------------------------------------------------- sources
p('X01', 'Simulated stationary sources reach each microphone with delay and decay',
  'The signal of a simulated stationary point source at a microphone is the source signal delayed by the propagation time (counted from the start times) and divided by the distance, preceded by silence or by the wrapped signal as configured. It is as long as announced, and mixing sources yields the weighted sum of their signals.',
  ['inputs', 'configurations'],
  'all start offsets, signal lengths, padding modes, microphone sets and block sizes of a small menu',
  'Tests check one configuration per class.',
  [A+'sources.py', A+'signals.py'], [('delay loop', 'acoular/sources.py:PointSource.result'), ('mixing', 'acoular/sources.py:SourceMixer.result')], ['blocks yielded by result(num)'])

p('X02', 'A moving source that does not move equals the stationary source',
  'A moving source whose trajectory stays at one place yields the signal of the corresponding stationary source, for every padding mode and block size. The emission time used for a moving source is consistent with the distance at emission.',
  ['inputs', 'configurations'],
  'all start offsets, padding modes, block sizes, source kinds of a small menu',
  'No test relates moving and stationary sources.',
  [A+'sources.py'], [('emission time iteration', 'acoular/sources.py:MovingPointSource.get_emission_time')], ['blocks yielded by result(num)'])

p('X03', 'Signal generators are reproducible and have the announced length and level',
  'Every signal generator yields the announced number of samples, the same samples every time for the same settings, different noise for different seeds, the requested rms level (noise within statistical tolerance), and resampled signals of the exact requested length. Scaling the level scales the signal and nothing else.',
  ['configurations', 'histories'],
  'all generator classes x lengths x levels x seeds x oversampling factors of a small menu',
  'Tests check one length per class.',
  [A+'signals.py'], [('signal methods', 'acoular/signals.py:*.signal')], ['signal', 'usignal'])

# ---------------------------------------------------------------- files, calibration, config, tools
p('I01', 'Data written to files is read back unchanged',
  'Time data saved to HDF5 (all, or a limited number of samples) and microphone geometries, calibrations and grids saved to or described in XML are read back with identical values, channel order and metadata, for both HDF5 back ends. WAV export clips nothing and preserves the waveform within the sample resolution.',
  ['inputs', 'configurations'],
  'all sample counts x channel counts x block sizes x precisions x limits of a small menu, both HDF5 back ends, caching of partial writes',
  'Tests write one file per class and rarely read it back.',
  [A+'tprocess.py', A+'sources.py', A+'microphones.py', A+'calib.py', A+'h5files.py', A+'grids.py'],
  [('writers', 'acoular/tprocess.py:WriteH5.result'), ('readers', 'acoular/sources.py:TimeSamples._load_timedata')], ['file content', 'TimeSamples.data', 'sample_freq'])

p('I02', 'Calibration scales every channel by its own factor',
  'Calibrated data is the raw data with each channel multiplied by the factor of that channel, whichever channels are masked or marked invalid and whichever class applies the calibration. Mismatching channel numbers are rejected instead of being misapplied.',
  ['inputs', 'configurations'],
  'all invalid channel subsets of data and of calibration x classes applying it x block sizes',
  'Tests use two settings.',
  [A+'calib.py', A+'sources.py', A+'tprocess.py'], [('calibration', 'acoular/calib.py:Calib.result'), ('calibrated reading', 'acoular/sources.py:MaskedTimeSamples.result')], ['blocks yielded by result(num)'])

p('I03', 'Recordings from a sound device are complete, in order, and end when they should',
  'A recording delivers exactly the announced number of samples (or, without a limit, all until collecting is switched off), every sample of the device once and in order, opened with the settings of the object in whatever order they were made, with the overflow indicator of the block just delivered. However it ends (by itself, stopped, abandoned, or by an error of the device, which is passed on) the device is released, the object no longer claims to be running, and it can record again. The sampling frequency is that of the device unless set, and the digest follows every setting.',
  ['histories', 'fault_sequences', 'configurations'],
  'a model of the sound card x devices x channels x sample types x numbers of samples x block sizes x ways to end at every block x overflow patterns x setting sequences',
  'Tests use a stub that returns zeros in one block size and never fails.',
  [A+'sdinput.py'], [('recording loop', 'acoular/sdinput.py:SoundDeviceSamplesGenerator.result')], ['blocks yielded by result(num)', 'running', 'overflow', 'sample_freq'])

p('K01', 'Configuration changes take effect and invalid ones are rejected intact',
  'After any sequence of valid and invalid settings of caching mode, HDF5 back end and directories, the configuration reads back the last valid setting, unavailable options are refused without changing it, and files are placed in the configured directories.',
  ['histories', 'configurations'],
  'all sequences up to a depth of configuration assignments over valid and invalid values',
  'Tests do not vary the configuration state.',
  [A+'configuration.py', A+'h5files.py', A+'h5cache.py'], [('config object', 'acoular/configuration.py:Config')], ['configuration attributes', 'file placement'])

p('K02', 'Deprecated names are faithful aliases',
  'Reading or writing any deprecated name has exactly the effect of the name that replaces it, in any order of mixed use, at construction and afterwards, including change notification and digests.',
  ['histories', 'configurations'],
  'every deprecated name of every public class, all sequences of up to three reads and writes mixing old and new name',
  'Tests touch a few names once.',
  [A+'deprecation.py', A+'sources.py', A+'grids.py', A+'fbeamform.py'], [('alias decorator', 'acoular/deprecation.py:deprecated_alias')], ['attribute values', 'digest'])

p('K03', 'Helper functions and metrics are consistent with the data they summarise',
  'Collecting results, band synthesis, bar data, level conversion and sector metrics return the values defined by their inputs for every admissible argument, without modifying the inputs. Limits on the amount of data are honoured exactly.',
  ['inputs', 'histories'],
  'all limits and block sizes, all band choices and small arrays; metric evaluated repeatedly in every order',
  'Tests check a few arguments once.',
  [A+'tools/helpers.py', A+'tools/metrics.py', A+'fbeamform.py'], [('collectors', 'acoular/tools/helpers.py:return_result'), ('metrics', 'acoular/tools/metrics.py:MetricEvaluator')], ['return values', 'inputs afterwards'])

p('K04', 'Set-ups that do not fit together are refused, and work once corrected',
  'When settings of connected objects contradict each other (numbers of channels, microphones, samples, frequencies, weights, seeds, kernels or calibration factors, sampling rates, block sizes, limits, unregistered consumers), an error is raised and no data is delivered. After the settings are corrected, the results are those of newly built objects; what fits is never refused.',
  ['configurations', 'histories'],
  'more than 40 groups of objects with all sequences of 2-3 assignments of fitting and unfitting values, with and without results asked for in between',
  'Tests try a few wrong settings on new objects.',
  [A+'sources.py', A+'tprocess.py', A+'fprocess.py', A+'process.py', A+'calib.py', A+'fbeamform.py', A+'tbeamform.py', A+'tools/metrics.py', A+'tools/helpers.py'],
  [('mixers', 'acoular/sources.py:SourceMixer'), ('channels and microphones', 'acoular/fbeamform.py:BeamformerBase'), ('inverse transform', 'acoular/fprocess.py:IRFFT')],
  ['errors', 'results'])

path = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
path.write_text(''.join(json.dumps(d) + '\n' for d in P))
print(len(P))
