#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.

Run `python3 tools/registry.py` after editing; both files are rewritten."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/solarspatialtools/'
INP = ['inputs']
CFG = ['inputs', 'configurations']

# id, title, statement, over, quantifier text, why tests cannot,
# [(file, function, role)], deciding method, level note
P = []


def prop(id, title, statement, over, text, why, where, technique, note,
         observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, where=where, technique=technique,
                  note=note, observe=observe))


prop('C01', 'UTM conversion is exact, invertible and the same in every container',
     'For every point with |latitude| below 84 degrees, converting latitude '
     'and longitude to UTM gives the true easting, northing, zone and '
     'hemisphere (to better than a millimetre, or those of an explicitly '
     'requested zone), and converting back returns the point.  Scalars, '
     'lists, arrays and DataFrames of the same points give the same numbers '
     'in the documented container, with row labels and order kept.  Points '
     'of one call that belong to different zones are each put in the zone '
     'documented for the call, and inputs of unequal length are refused.',
     CFG, 'all points on the globe including zone edges, the equator and the '
     'antimeridian, every container and every zone and hemisphere option',
     'Tests check a handful of points of one or two zones; correctness over '
     'the globe and the agreement of containers is a statement about all '
     'inputs.',
     [('spatial.py', 'latlon2utm', 'forward projection and zone choice'),
      ('spatial.py', 'utm2latlon', 'inverse projection'),
      ('spatial.py', '_calc_zone', 'zone and hemisphere of a point')],
     'reference monitor: every conversion judged against an independent '
     'Krueger-series transverse Mercator, plus round trips',
     'Exploration of thousands of points per run; trusts the sixth-order '
     'Krueger series and plain arithmetic.')

prop('C02', 'Local coordinates are true offsets from the origin and invert exactly',
     'The local east/north coordinates of a point are its offset, in metres, '
     'from the stated origin in the UTM zone of the origin (or in the zone '
     'requested), whatever zone or hemisphere the point itself lies in, and '
     'the origin is at (0, 0).  Converting local coordinates back with the '
     'same origin returns the latitude and longitude in every accepted '
     'container.  Both flat-earth methods agree with each other and with '
     'their published formulas at plant scale.',
     CFG, 'all origins and targets up to 150 km away, including pairs that '
     'straddle a zone edge or the equator, all containers, all methods',
     'Tests use one origin in the middle of one zone; edges, containers and '
     'explicit zones are a universal statement.',
     [('spatial.py', 'latlon2lcs', 'offset in the zone of the origin'),
      ('spatial.py', 'lcs2latlon', 'inverse'),
      ('spatial.py', 'lla2flat', 'flat-earth methods')],
     'reference monitor: independent transverse Mercator in the origin zone '
     'and round trips', 'Exploration; targets within 150 km, |lat| < 80.')

prop('C03', 'Planar vector tools obey plane geometry in every container',
     'Dot product, unit vector, magnitude, polar/Cartesian conversion, '
     'rotation, projection, vectors between points and intersection of two '
     'perpendiculars return what plane geometry says, for every pair of '
     'vectors and every accepted container.  Polar conversion inverts, '
     'rotation keeps length and composes, projection does not depend on the '
     'length of the target vector, and labels of tabular input are kept.',
     INP, 'all finite vectors of any magnitude and direction, every '
     'container', 'Tests check a few axis-aligned or 45 degree vectors; the '
     'identities quantify over all vectors.',
     [('spatial.py', 'dot/unit/magnitude', 'elementary operations'),
      ('spatial.py', 'rect2pol/pol2rect/rotate_vector', 'angles'),
      ('spatial.py', 'project_vectors/compute_vectors', 'projection'),
      ('spatial.py', 'compute_intersection', 'intersection')],
     'reference and metamorphic monitor: elementary trigonometry plus the '
     'algebraic laws on observed results', 'Exploration; floating point '
     'tolerances scale with the operands.')

prop('C04', 'Space-time distances are those of clouds frozen in the wind',
     'The matrix of space-time distances holds, for every pair of (site, '
     'time) samples, the planar distance between the two sites after each '
     'has been displaced by the cloud motion over its own time stamp, '
     'ordered as the flattened samples.  It is symmetric with zero diagonal, '
     'obeys the triangle inequality, does not depend on the origin of space '
     'or time, and is zero for samples that see the same piece of the frozen '
     'cloud field.',
     INP, 'all site sets, time indexes (irregular, sub-second, with time '
     'zone), speeds and directions',
     'Tests compare one or two small matrices to stored numbers.',
     [('spatial.py', 'spacetime_distances', 'advected pairwise distances')],
     'reference monitor: every matrix entry recomputed with plain arithmetic, '
     'plus metric axioms', 'Exploration; entry-wise exact to rounding.')

prop('C05', 'Correlation equals its defining sum at every lag and scaling',
     'The cross-correlation of two signals equals the direct sum of products '
     'at every lag, normalised as the chosen scaling documents, on a '
     'symmetric set of lags; swapping the signals mirrors it, coefficient '
     'scaling stays within one and is unaffected by gain.  A signal and its '
     'delayed copy give the true delay as the lag of the largest value.  The '
     'FFT-based variant used for many signals gives the same values.',
     CFG, 'all signals, lengths, containers and scalings',
     'Tests compare sinusoids of a few lengths; equality at every lag and '
     'scaling for every signal is universal.',
     [('signalproc.py', 'correlation', 'scalings and lags'),
      ('signalproc.py', '_fftcorrelate', 'vectorised variant')],
     'reference monitor: direct-sum correlation at every lag',
     'Exploration; unequal lengths are judged only for scalings defined for '
     'them.')

prop('C06', 'Pairwise delays are the lag of the true correlation peak',
     'For every pair of columns, the reported delay is the lag of the maximum '
     'of their mean-free cross-correlation, in seconds and with the documented '
     'sign, and the reported peak, mean and zero-lag correlations are the '
     'values of that correlation.  The loop and the FFT mode agree, a column '
     'delayed by a known number of samples gives that delay, swapping the two '
     'inputs flips its sign, and no column affects another.',
     CFG, 'all sets of signal pairs, scalings, modes, shapes of the inputs '
     'and sampling periods',
     'Tests exercise two or three fixed signals with one scaling; agreement '
     'of modes and independence of columns are universal.',
     [('signalproc.py', 'compute_delays', 'loop and fft modes'),
      ('signalproc.py', 'xcorr_delay', 'single-pair delay'),
      ('signalproc.py', '_fftcorrelate', 'fft mode')],
     'reference monitor: per-pair direct-sum correlation, recovery of planted '
     'shifts', 'Exploration; ties of the peak within 1e-9 accept either lag.')

prop('C07', 'Averaged spectra are Welch estimates of every column',
     'Averaged power spectra, transfer functions and coherences equal, at '
     'every frequency and for every column, the Welch estimate over '
     'overlapping windowed segments with the requested number of averages, '
     'overlap, window, detrending and scaling.  Power integrates to the '
     'variance, coherence lies between zero and one and is one between '
     'linearly related signals, transfer functions scale linearly, and '
     'labels pair every result with its column for all supported pairings '
     'of inputs.',
     CFG, 'all signals, lengths, averages, overlaps, windows, detrending, '
     'scalings and pairings of input and output columns',
     'Tests use a few synthetic signals and default options.',
     [('signalproc.py', 'averaged_psd', 'power spectra'),
      ('signalproc.py', 'averaged_tf', 'transfer function and coherence')],
     'reference monitor: independent Welch estimator evaluated on every call',
     'Exploration; bins that hold almost no input energy are not judged.')

prop('C08', 'Transfer-function delays recover the true time shift',
     'The delay obtained from a transfer function is the slope of its phase '
     'over exactly the bins whose coherence passes the limit and whose '
     'frequency is at most the limit; unusable bins, other columns and the '
     'gain of the signals have no influence.  Delays of copies shifted by '
     'whole or fractional samples are recovered with the documented sign, '
     'and the delays computed for a table of signals are those of each of '
     'its pairs together with their mean coherence.',
     CFG, 'all transfer functions, limits, delay methods, windows and signals',
     'Tests cover a few pure delays with full coherence.',
     [('signalproc.py', 'tf_delay', 'phase slope'),
      ('signalproc.py', 'compute_delays_tf', 'delays for tables'),
      ('signalproc.py', 'averaged_tf', 'estimate used')],
     'reference monitor: independent spectral estimate and phase fit; planted '
     'fractional delays', 'Exploration; near-pi unwrapping steps and '
     'coherences within 1e-9 of the limit are not judged.')

prop('C09', 'Filters apply exactly the frequency response they are given',
     'Interpolating a frequency response onto new frequencies keeps its '
     'values at the nodes and interpolates magnitude and unwrapped phase in '
     'between, for any order of the frequency axis.  Applying a response to '
     'a signal multiplies its spectrum by that response at every frequency '
     'and keeps index, labels and columns; identity, pure delays, sums and '
     'scalings act as such, and a delay added to a response moves its output '
     'by that time.',
     CFG, 'all responses, frequency axes (sorted, FFT-ordered, shuffled), '
     'signals, lengths and containers',
     'Tests apply one or two filters to one signal.',
     [('signalproc.py', 'apply_filter', 'application'),
      ('signalproc.py', 'interp_tf', 'interpolation'),
      ('signalproc.py', 'apply_delay', 'delay'),
      ('signalproc.py', 'cleanfreq', 'removal of frequencies')],
     'reference monitor: matrix DFT and hand interpolation; algebraic '
     'relations', 'Exploration; phase steps within 1e-6 of pi are not judged.')

prop('C10', 'Plant filters equal the sum of pure delays over the plant',
     'The frequency response built for a plant seen by clouds moving at a '
     'given speed equals the density-weighted mean of pure delays over the '
     'plant area relative to the reference point, with unit response at zero '
     'frequency and magnitude never above one.  Response from a plant layout '
     'depends on the direction but not on the length of the direction vector '
     'and not on where the plant lies on the map, and applying it to a '
     'frozen cloud signal gives the plant-average signal.  The published '
     'low-pass for plant area has the stated cut-off.',
     CFG, 'all plants, shapes, widths, grids, speeds of both signs and '
     'directions', 'Tests compare a few stored filters.',
     [('signalproc.py', 'get_1d_plant', 'plant density'),
      ('signalproc.py', 'plant1d_to_camfilter', 'filter of a density'),
      ('signalproc.py', 'get_camfilter', 'filter of a layout'),
      ('signalproc.py', 'get_marcosfilter', 'low-pass by area')],
     'reference monitor: explicit sums of delays over sites; end-to-end '
     'frozen clouds', 'Exploration; sites are represented to half a grid '
     'step, as documented by the grid; triangle shape judged for support only.')

prop('C11', 'Cloud motion follows the clouds and the coordinate system',
     'For sensors crossed by a frozen cloud pattern the reported speed and '
     'direction are those of the pattern, for both methods and both delay '
     'back ends, with and without reference sites.  Moving the cluster does '
     'not change the result, rotating it rotates the direction, stretching '
     'it or the clock scales the speed, mirroring or reversing mirrors or '
     'reverses it, and reordering, relabelling or rescaling the sensors '
     'changes nothing.',
     CFG, 'all layouts, velocities, methods, back ends, references and rigid '
     'or scaling transformations', 'Tests compare single stored results of '
     'sample data.',
     [('cmv.py', 'compute_cmv', 'estimation'),
      ('cmv.py', '_get_pairs', 'site pairs'),
      ('signalproc.py', 'compute_delays/compute_delays_tf', 'delays')],
     'metamorphic monitor: equivariance relations between observed runs, '
     'recovery of planted velocities', 'Exploration; direction judged where '
     'the variance ellipse of the vectors is not round.')

prop('C12', 'Cloud motion uses exactly the pairs that pass the documented checks',
     'Every considered site pair carries the flag that the documented '
     'quality rules and the given thresholds demand (correlation, clear-sky '
     'level, variability, velocity range, coincident sites), and the '
     'reported velocity is the best fit over exactly the pairs flagged good.  '
     'When too few pairs remain the overall result is flagged bad.  Unknown methods, back ends and options '
     'are refused, omitted options take documented defaults, and pairs that '
     'are rejected do not influence the result.',
     CFG, 'all layouts, signals (dead, missing, overcast, unrelated sensors), '
     'thresholds, references, methods and back ends',
     'Tests reach a few flags with fixed data; the rules must decide every '
     'pair for every threshold.',
     [('cmv.py', 'compute_cmv', 'selection and fit'),
      ('cmv.py', '_pairwise_qc', 'pair rules'),
      ('cmv.py', '_validate_method_options', 'options'),
      ('cmv.py', '_get_pairs', 'pairs')],
     'reference monitor: per-pair rule checker and closed-form fit over the '
     'flags actually reported', 'Exploration; pairs within 1e-7 of a '
     'threshold may carry either flag.')

prop('C13', 'Chosen motion vectors are spread as evenly as the data allow',
     'Choosing n motion vectors out of a set returns n distinct valid rows of '
     'the set whose directions match an evenly spaced fan nearly as well as '
     'the best rotation of the fan allows, with the error for a candidate '
     'measured as documented.  The choice does not depend on the length '
     'scale of the vectors or on reversing them all, and a planted perfect '
     'fan among clutter is found.',
     INP, 'all sets of vectors, sizes and containers',
     'Tests check one set; optimality quantifies over all sets.',
     [('cmv.py', 'optimum_subset', 'search over fan rotations')],
     'reference monitor: exhaustive fine grid of fan rotations as the bound',
     'Exploration; the search may stop in a neighbouring optimum (documented '
     'margins per set, tight margin on batches).')

prop('C14', "Predicted position is where the signals say the unit is",
     'From two cloud motions, the predicted position of a unit is the '
     'intersection implied by the mean distance error of exactly the units '
     'that the selection mode names, ranked by coherence or distance, and '
     'the returned tables hold the distances, delays and coherences used.  '
     'A unit listed at a wrong place is predicted near its real place.  '
     'Neither the order of columns, rows or cases, nor extra columns, nor '
     'the origin or orientation of the map changes the prediction.',
     CFG, 'all layouts, motions, selection modes and sizes, limits, delay '
     'methods and containers', 'Tests compare two stored positions for '
     'sample data.',
     [('field.py', 'compute_predicted_position', 'prediction'),
      ('signalproc.py', 'compute_delays_tf', 'delays'),
      ('spatial.py', 'project_vectors/compute_intersection', 'geometry')],
     'reference monitor: independent recomputation for every mode plus '
     'recovery of the planted place', 'Exploration; ties at the selection '
     'limit are not judged.')

prop('C15', 'Position assignment is optimal and its remaps are faithful',
     'Assigning predicted to planned positions yields a one-to-one mapping '
     'of minimum total distance, in which units without a prediction stay '
     'where they are.  Applying a remap moves exactly the named '
     'positions or columns and nothing else, and applying a cascade of two '
     'remaps is the same as applying them in turn.  Remapped tables carry '
     'the data of the unit that really sits at each place.',
     INP, 'all plans, predictions with and without missing rows, remaps and '
     'chains of remaps', 'Tests use a few fixed small plans.',
     [('field.py', 'assign_positions', 'assignment'),
      ('field.py', 'remap_positions', 'application'),
      ('field.py', 'cascade_remap', 'composition')],
     'reference monitor: enumeration of all assignments (small) and LP dual '
     'certificate (large); composition laws', 'Exploration; plan and '
     'prediction list units in the same order.')

prop('C16', 'Error metrics equal their definitions for all data',
     'Bias, absolute and squared errors are estimate-minus-baseline '
     'element by element, and the mean bias, mean absolute, mean squared and '
     'root mean squared errors are the means over samples that are present in '
     'both.  The metrics respect their mutual inequalities, vanish for a '
     'perfect estimate, react to shift and scale as their definitions do and '
     'give the same values for every container.',
     INP, 'all data, missing samples, alignments and containers',
     'Tests use a few short vectors.',
     [('stats.py', 'bias_error/absolute_error/squared_error', 'elements'),
      ('stats.py', 'mbe/mae/mse/rmse', 'means')],
     'reference monitor: element-by-element exact sums',
     'Exploration; exact to rounding.')

prop('C17', 'Variability metrics equal their published definitions',
     'Variability score, daily aggregate ramp rate and variability index '
     'equal their published definitions for every series, increment, '
     'averaging window and percentage option, including sub-second '
     'averaging.  They do not depend on a constant offset or on when the '
     'record starts, scale with the signal, vanish for constant signals '
     '(variability index one against itself) and treat every column of a '
     'table alike.',
     CFG, 'all series, sampling periods, increments, averaging windows and '
     'containers', 'Tests compare a few stored values.',
     [('stats.py', 'variability_score', 'ramps vs. cumulative frequency'),
      ('stats.py', 'darr', 'aggregate ramp rate'),
      ('stats.py', 'variability_index', 'length ratio')],
     'reference monitor: loops written from the definitions',
     'Exploration; ties of the score judged by bounds.')

prop('C18', 'Rolling daily quantiles use the right days, times and levels',
     'The quantile reported at a time stamp is the requested quantile of the '
     'samples at the same time of day over the preceding window of days, for '
     'every container, time zone and sampling period, and is missing while '
     'the window is not complete.  It grows with the level, never leaves the '
     'range of the samples it is taken from, never uses the future, scales '
     'with the data, and records too short for the window are refused.',
     CFG, 'all records (holes, time zones, fractional seconds), windows and '
     'levels', 'Tests compare one stored record.',
     [('stats.py', 'calc_quantile', 'window and time-of-day grouping')],
     'reference monitor: every reported sample recomputed by scanning the '
     'record', 'Exploration; for midnight samples the window may include the '
     'closing midnight; days of a clock change are not driven.')

prop('C19', 'Clear-sky index is the bounded ratio with no spurious values',
     'The clear-sky index is irradiance over clear-sky irradiance, limited '
     'to the range from zero to the cap, and zero where the reference is '
     'zero or the ratio is undefined; it is never infinite or negative.  It '
     'is the same in every container, keeps labels and columns, and applies '
     'the reference to each column of a table.',
     CFG, 'all irradiance and reference values including zero, negative, NaN '
     'and infinite, caps and containers', 'Tests use a few arrays.',
     [('irradiance.py', 'clearsky_index', 'ratio and limits')],
     'reference monitor: element-by-element definition',
     'Exploration; a missing or infinite input sample may give 0 or NaN.')

prop('C20', 'Synthetic cloud fields meet the statistics they were asked for',
     'A synthetic cloud field has the requested size, is finite, is '
     'determined by the random seed, and holds the requested clear fraction '
     'and mean index whenever the scaling method can reach them, with its '
     'documented fallback otherwise.  Each stage does what it documents: '
     'octave weights and their stacking, normalisation, clear mask of the '
     'exact fraction, edges of the requested width, scaling of clear, edge '
     'and cloudy pixels.  Inconsistent requests (fractions outside zero to '
     'one, unknown scaling, mismatched weights) are refused.',
     CFG, 'all sizes, weights, clear fractions, targets, scalings, edge '
     'widths and random streams', 'Tests fix one seed and one size and '
     'compare stored numbers.',
     [('synthirrad/cloudfield.py', 'cloudfield_timeseries', 'pipeline'),
      ('synthirrad/cloudfield.py', '_stack_random_field/_random_at_scale',
       'octaves'),
      ('synthirrad/cloudfield.py', '_calc_clear_mask/_find_edges', 'mask'),
      ('synthirrad/cloudfield.py', '_scale_field_lave/_scale_field_basic',
       'scaling')],
     'invariant and reference monitors on the pipeline and on hooked stages',
     'Exploration; constant fields and single cloudy pixels are not claimed.')

prop('C21', 'Cloud statistics describe the record; points sample the moving field',
     'The statistics extracted from a clear-sky index record (mean of all and '
     'of cloudy samples, clear fraction, maximum, variability, octave energies '
     'summing to one) equal their definitions, do not depend on offsets or gains where '
     'they should not, and localise a tone in its octave.  The series at a '
     'place is the field read along the wind at the given speed from that '
     'place: shifting the place downwind shifts the series in time, shifting '
     'it crosswind reads the neighbouring row.',
     INP, 'all records, samplings and thresholds; all fields, places, speeds '
     'and durations', 'Tests compare one stored record.',
     [('synthirrad/cloudfield.py', 'get_timeseries_stats', 'statistics'),
      ('synthirrad/cloudfield.py', 'get_positional_ts', 'sampling')],
     'reference monitor: recomputed statistics, uniquely marked fields whose '
     'samples identify their pixel', 'Exploration; non-negative positions.')

prop('C22', 'Downscaled series keep the mean, stay physical and follow the wind',
     'A downscaled period has one finite value per time and site; with '
     'scaling its mean is the given mean index, with the non-negativity '
     'switch no value is negative, and each switch only does its own job.  '
     'A seed repeats the realisation and different seeds differ.  Samples '
     'that see the same piece of the frozen cloud field are equal.',
     CFG, 'all site sets, times, velocities, means, switches, parameter sets '
     'and seeds', 'Tests fix one seed and compare stored numbers.',
     [('synthirrad/copula.py', 'downscale', 'one period'),
      ('synthirrad/copula.py', '_space_time_copula/_copularnd_gaussian',
       'correlated sampling'),
      ('synthirrad/copula.py', '_gmdistribution/_inverse_sample', 'marginal')],
     'metamorphic monitor: relations between runs of one seed with different '
     'switches', 'Exploration; equality of perfectly correlated samples to '
     '1e-4 of the range.')

prop('C23', 'Downscaled samples follow the published distribution',
     'Single samples of a downscaled period follow the published two-state '
     'mixture for the mean index, with its weights, means, deviations and '
     'inverse distribution, and the correlation between samples decays with '
     'space-time distance at the published rate.  Runs with different seeds '
     'are independent.',
     INP, 'all mean indexes, parameters, arrangements of sites and times, '
     'over the distribution of seeds', 'No test can look at a distribution '
     'through one fixed seed.',
     [('synthirrad/copula.py', '_process_params/_solar_gmm', 'mixture'),
      ('synthirrad/copula.py', '_exponential_decay_parameter', 'decay'),
      ('synthirrad/copula.py', '_space_time_copula/_copularnd_gaussian',
       'dependence')],
     'statistical monitor: Monte Carlo over seeds judged at six standard '
     'errors, equations recomputed', 'Exploration; statistical verdicts with '
     'false-alarm probability below 1e-8 per comparison.')

prop('C24', 'Several periods in one call are the periods one after another',
     'Downscaling several periods at once gives, period by period and in '
     'order, what downscaling each of them alone gives, with scalar or '
     'per-period times, directions, speeds and parameters in any mixture.  '
     'Sequences whose length matches neither one nor the number of periods '
     'are refused.',
     CFG, 'all numbers of periods and all mixtures and containers of '
     'per-period arguments', 'Tests cover two mixtures.',
     [('synthirrad/copula.py', 'downscale_multihour', 'loop over periods'),
      ('synthirrad/copula.py', 'downscale', 'one period')],
     'reference monitor: replay through single-period calls on one random '
     'stream', 'Exploration.')

prop('C25', 'Quality control removes bad samples, fills only short gaps',
     'Samples at or above the flag level and samples with missing-data '
     'sentinels become missing and every other sample is kept unchanged.  '
     'Gap filling interpolates linearly, for each sensor separately, exactly '
     'the gaps not longer than the limit that have good samples on both '
     'sides, and leaves longer gaps and the ends of the record missing.',
     INP, 'all records, flags, gap patterns and limits',
     'Tests cover one or two gaps of one sensor.',
     [('dataio/hope_campaign.py', 'flag_qc/null_qc', 'removal'),
      ('dataio/hope_campaign.py', 'interp_nan', 'gap filling')],
     'reference monitor: per-sample scan of neighbours',
     'Exploration; interpolation by position.')

prop('C26', 'Converted campaign files hold exactly the source measurements',
     'Converting campaign files puts every measurement, flag, time stamp and '
     'sensor place of the sources into the output under the right sensor and '
     'time, in order of time, for any number and layout of source files.  An '
     'existing output is not overwritten unless asked for, and sources and '
     'other files are never changed.',
     ['inputs', 'configurations', 'histories'],
     'all source contents, file counts, storage options and states of the '
     'output folder', 'No test runs a conversion (the sources are not '
     'shipped).',
     [('dataio/hope_campaign.py', 'parse_file/dataset_to_h5/_main', 'HOPE'),
      ('dataio/nrcan_data.py', 'process_files', 'NRCAN')],
     'conservation monitor: generated sources with unique values, every '
     'output sample traced back', 'Exploration; complete source files of the '
     'documented layout.')

prop('C27', 'Downloads are complete, fetched once and survive interruptions',
     'After a download run that reports no failure, every listed file is '
     'present with exactly the bytes of the server; a file under its final '
     'name is never partial, whatever the server, the connection or a kill '
     'does.  Running again fetches what is missing and does not fetch or '
     'touch what is complete; failures are reported.  Listing returns '
     'exactly the matching files in order and folders are created only when '
     'missing.',
     ['fault_sequences', 'crash_points', 'histories', 'inputs'],
     'all lists of files, server faults (refusal, cut, drop, delay), kill '
     'points during a transfer and sequences of runs',
     'No test downloads anything; atomicity quantifies over crash points and '
     'faults.',
     [('dataio/iotools.py', 'download', 'temporary name and rename'),
      ('dataio/iotools.py', 'wget_fromurl', 'skipping and looping'),
      ('dataio/iotools.py', 'ensurepath/getfiles', 'folders and listing')],
     'fault injection and crash testing against a loopback server with '
     'history checking of request log and directory',
     'Exploration of fault sequences and kill points at byte offsets; the '
     'page cache is assumed durable (process kill, not power loss).')

prop('C28', 'Computations leave inputs, settings and random streams alone',
     'No computation changes the data, options or positions handed to it, '
     'process-wide settings (error handling, options, warnings, environment, '
     'working folder), published tables of the package or results returned '
     'earlier, and only functions documented to draw random numbers advance '
     'the global random stream.  Repeating a call with the same inputs gives '
     'the same result or error, whatever was called in between.',
     ['inputs', 'histories'],
     'all sequences of public calls on all valid inputs',
     'Tests look at return values of isolated calls, not at side effects or '
     'at histories of calls.',
     [('signalproc.py', 'all public functions', 'copies before changing'),
      ('cmv.py', 'compute_cmv', 'options and error state'),
      ('field.py', 'all public functions', ''),
      ('stats.py', 'all public functions', ''),
      ('spatial.py', 'all public functions', ''),
      ('synthirrad/copula.py', 'downscale', 'private random generator'),
      ('synthirrad/cloudfield.py', 'all public functions', '')],
     'online monitor on call hooks: snapshots around every public call, '
     'shuffled replay of recorded calls',
     'Exploration over the workloads of the other checks; frequency cleaning '
     'changes its argument by design.')

prop('C29', 'Figure tools draw every datum where it belongs',
     'Annotating a frequency axis marks each time scale at its frequency in '
     'the right place for the scale of the axis and leaves other artists and '
     'scales alone.  The scatter-histogram figure shows every point, its two '
     'histograms count every point exactly once and its axes are shared and '
     'symmetric as documented.',
     INP, 'all point clouds and axis set-ups',
     'Tests only check that drawing does not fail.',
     [('visualization/vis_tools.py', 'annotate_fig', 'annotations'),
      ('visualization/vis_tools.py', 'scatter_hist', 'figure')],
     'invariant monitor: artists left on the axes are read back',
     'Exploration; finite points.')


prop('C30', 'Results are the same in every thread, process and environment',
     'A computation gives the same result, or the same kind of error, '
     'whether it runs alone, at the same time as other computations of the '
     'package in other threads (on the same input objects or on others), in '
     'a forked worker, or in a fresh interpreter with another hash seed, '
     'machine time zone, locale and working folder.  Inputs shared between '
     'threads can be read at any time: no computation changes them, not '
     'even temporarily.  (Functions documented to draw from the global '
     'random stream, to write files or to change their argument are '
     'excepted.)',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of concurrent calls, all environments and all valid '
     'inputs',
     'Tests run one call at a time in one process; independence of the '
     'schedule cannot be seen there.',
     [('signalproc.py', 'all public functions', 'no shared scratch state'),
      ('cmv.py', 'compute_cmv', 'no shared scratch state'),
      ('field.py', 'compute_predicted_position/assign_positions', 'run in '
       'thread pools by the demonstrations'),
      ('spatial.py', 'all public functions', 'shared projections'),
      ('stats.py', 'all public functions', 'time stamps'),
      ('synthirrad/copula.py', 'downscale', 'private random generator')],
     'stress with observation: harvested calls replayed from several threads '
     'at a switch interval of microseconds, in forks and fresh interpreters, '
     'results and shared inputs compared',
     'Exploration; interleavings are sampled, results compared to 1e-7.')

prop('C31', 'A plan with swapped units is put right by the documented workflow',
     'Estimating cloud motions, predicting the place of every unit, '
     'assigning predictions to places (in groups), cascading the remaps and '
     'repeating until nothing changes ends at the real layout of a plant '
     'whose plan lists a few units at wrong places, and leaves a correct '
     'plan alone.  At every step the accumulated remap is one-to-one and '
     'applied to the plan it gives the same table as applying the steps one '
     'after another.',
     CFG, 'all plants, mistakes in the plan, cloud motions, groupings and '
     'orders of units',
     'Tests look at each step with a stored example; that the steps compose '
     'to the right layout is a statement about every plant and mistake.',
     [('cmv.py', 'compute_cmv', 'motions'),
      ('field.py', 'compute_predicted_position', 'prediction'),
      ('field.py', 'assign_positions', 'assignment'),
      ('field.py', 'cascade_remap/remap_positions', 'composition')],
     'end-to-end monitor: planted mistakes in simulated plants must be '
     'undone, every intermediate remap is traced',
     'Exploration; two of three simulated plants failing is a violation, '
     'since a single estimate may be too coarse.')

prop('C32', 'Delays, motions and places mean the same in every module',
     'The modules agree on signs, units and directions.  A delay put into a '
     'signal by a filter comes out later by that time and is the delay every '
     'estimator reads; a measured transfer function or spectrum of a '
     'filtered signal is that of the filter.  With the speed and direction '
     'that cloud motion reports, space-time distances join the samples of '
     'one piece of cloud, the plant filter turns the reference into the mean '
     'of the plant and a true plan is predicted as it is.  Synthetic clouds '
     'made with a speed and direction move with them, and motion does not '
     'depend on the coordinate system the places are given in.',
     CFG, 'all delays, filters, scenes, velocities, synthetic clouds and '
     'coordinate systems',
     'Tests check each module against its own stored numbers; agreement '
     'between modules is never looked at.',
     [('signalproc.py', 'apply_delay/apply_filter/compute_delays/'
       'compute_delays_tf/averaged_tf', 'delays and filters'),
      ('cmv.py', 'compute_cmv', 'direction of motion'),
      ('spatial.py', 'spacetime_distances/latlon2utm/latlon2lcs',
       'advection and coordinates'),
      ('signalproc.py', 'get_camfilter', 'plant filter'),
      ('field.py', 'compute_predicted_position', 'prediction'),
      ('synthirrad/copula.py', 'downscale', 'synthetic motion'),
      ('synthirrad/cloudfield.py', 'get_positional_ts', 'synthetic motion')],
     'cross-module monitor: one planted delay, filter or motion followed '
     'through every module that reports it',
     'Exploration; random synthetic clouds judged on up to three fields.')


prop('C33', 'Results depend on the numbers and labels, not on their storage',
     'A computation gives the same result for the same numbers and labels in '
     'whatever way they are stored: whole numbers as integers or as floats, '
     'arrays and tables in any memory order, contiguous, strided, reversed, '
     'byte-swapped or read-only, columns of a table in one block or in '
     'several, time stamps of any resolution with or without an attached '
     'frequency, and single numbers as Python or NumPy numbers.  What is '
     'refused in one storage is refused in the others.',
     CFG, 'all valid inputs of all public computations in all storages that '
     'hold the same numbers',
     'Tests use one storage, mostly freshly made contiguous floats; data of '
     'files, slices and loggers come in others.',
     [('signalproc.py', 'all public functions', 'arrays taken from tables'),
      ('spatial.py', 'all public functions', 'containers of coordinates'),
      ('cmv.py', 'compute_cmv/optimum_subset', 'tables of signals'),
      ('field.py', 'compute_predicted_position/assign_positions',
       'tables of places'),
      ('stats.py', 'all public functions', 'time index and data'),
      ('synthirrad/copula.py', 'downscale/downscale_multihour',
       'times and places'),
      ('synthirrad/cloudfield.py', 'field functions', 'masks and fields')],
     'metamorphic monitor: harvested calls replayed on the same numbers in '
     'other storages, results compared',
     'Exploration; the calls that the other workloads make, ten storages '
     'each.')


prop('C34', 'Names of sensors and dates of records carry no meaning',
     'Renaming the sensors in all inputs alike, to any other distinct names '
     'or numbers, changes nothing in a result but the names, and the order '
     'of names has no influence on what is computed.  Moving a record to '
     'another date (before the epoch, across years and leap days) moves the '
     'time stamps of the result and changes nothing else, and expressing the '
     'time stamps of a record in another time zone changes nothing (except '
     'for daily quantiles and averaging windows, which follow the clock).',
     CFG, 'all valid inputs of all public computations, all names, dates and '
     'time zones',
     'Tests use one set of names and one record; a dependence on either '
     'shows only when they change.',
     [('signalproc.py', 'compute_delays/compute_delays_tf/averaged_tf',
       'pairing of columns'),
      ('cmv.py', 'compute_cmv', 'pairs of sites'),
      ('field.py', 'compute_predicted_position/assign_positions/'
       'cascade_remap/remap_positions', 'selection and mapping by name'),
      ('spatial.py', 'spacetime_distances', 'time stamps'),
      ('stats.py', 'all public functions', 'time stamps'),
      ('irradiance.py', 'clearsky_index', 'columns'),
      ('synthirrad/copula.py', 'downscale/downscale_multihour', 'times')],
     'metamorphic monitor: harvested calls replayed with other names, dates '
     'and zones, results compared after putting these back',
     'Exploration; the calls that the other workloads make.')


prop('C35', 'One sensor never changes the result of another',
     'In every function that takes a table of sensors, pairs of sensors or a '
     'list of places, the result for one of them is the result it has alone: '
     'other sensors, their number and order, and sensors that are broken '
     '(missing, stuck, spiking, full of gaps) change nothing in it.  A dead '
     'sensor changes neither the motion nor the pairs of the others, a unit '
     'without a prediction keeps its place and the others are assigned among '
     'themselves, and a remap changes only the units and columns it names.',
     CFG, 'all tables, numbers and orders of sensors, and kinds of failure',
     'Tests use complete tables; cross-talk shows only when one column is '
     'bad or the set of columns changes.',
     [('signalproc.py', 'averaged_psd/averaged_tf/interp_tf/compute_delays/'
       'compute_delays_tf/apply_filter', 'columns'),
      ('stats.py', 'variability_score/darr/variability_index/error metrics',
       'columns'),
      ('irradiance.py', 'clearsky_index', 'columns'),
      ('dataio/hope_campaign.py', 'flag_qc/null_qc/interp_nan', 'columns'),
      ('spatial.py', 'all functions over arrays', 'elements'),
      ('cmv.py', 'compute_cmv', 'pairs'),
      ('field.py', 'compute_predicted_position/assign_positions/'
       'remap_positions', 'units')],
     'metamorphic monitor: each sensor alone, among others, beside broken '
     'sensors; online comparison of the results of the real functions',
     'Exploration over random tables and failures.')


prop('C36', 'Results carry the units of their inputs',
     'Lengths, times and signals may be given in any consistent unit: when '
     'all inputs of a kind are multiplied by a factor, every result is '
     'multiplied by the power of that factor that its unit says (speeds by '
     'length over time, frequencies by one over time, densities by signal '
     'squared times time, correlations, coherences, choices and assignments '
     'not at all), apart from limits documented in absolute units.',
     CFG, 'all inputs and all factors of length, time and signal',
     'Tests use one system of units; hidden absolute constants show only '
     'when it changes.',
     [('signalproc.py', 'all public functions', 'sampling period, amplitude'),
      ('cmv.py', 'compute_cmv/optimum_subset', 'lengths and times'),
      ('field.py', 'compute_predicted_position/assign_positions', 'lengths'),
      ('spatial.py', 'vector tools/spacetime_distances', 'lengths'),
      ('stats.py', 'all public functions', 'signals'),
      ('irradiance.py', 'clearsky_index', 'ratio'),
      ('synthirrad/copula.py', 'downscale', 'times and speeds'),
      ('synthirrad/cloudfield.py', 'get_positional_ts', 'lengths')],
     'metamorphic monitor: calls repeated in other units, results compared '
     'with the power of the factors',
     'Exploration over random inputs and factors.')


prop('C37', 'Measured records go through the published analyses right',
     'On the measurements supplied with the package, from the raw records to '
     'the final answer, every step of the documented analyses equals what its '
     'definition gives for those records: coordinates, clear-sky index, '
     'variability metrics, spectra, quality and motion of every pair, '
     'predicted places, assignments, remaps, plant filters and the statistics '
     'of synthetic clouds, whichever sensors, units, part of the record, '
     'sampling and order a user picks.  The published worked examples end in '
     'the results that are printed with them.',
     CFG, 'all choices of sensors, units, times, sampling, methods and '
     'options on the supplied records',
     'Tests fix a handful of numbers of one selection of the records; real '
     'records are quantised, stored in single precision, saturated and '
     'incomplete in ways that synthetic ones are not.',
     [('cmv.py', 'compute_cmv', 'measured pairs'),
      ('field.py', 'compute_predicted_position/assign_positions/'
       'remap_positions/cascade_remap', 'a real plant'),
      ('signalproc.py', 'averaged_psd/averaged_tf/get_camfilter/apply_filter',
       'measured spectra'),
      ('stats.py', 'variability_score/darr/variability_index/rmse/mbe/mae',
       'measured records'),
      ('irradiance.py', 'clearsky_index', 'measured records'),
      ('spatial.py', 'latlon2utm', 'sensor positions'),
      ('synthirrad/cloudfield.py', 'get_timeseries_stats/get_positional_ts',
       'measured record')],
     'step-by-step oracles over measured records, and comparison of the '
     'worked examples with their published results',
     'Exploration over random selections of the supplied records.')


def extra():
    p = os.path.join(HERE, 'tools', 'registry_more.py')
    if os.path.exists(p):
        exec(compile(open(p).read(), p, 'exec'), globals())


def write():
    extra()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            files = sorted({S + w[0] for w in p['where']})
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': files,
                    'mechanism': [{'name': w[2] or w[1],
                                   'where': f'{S}{w[0]}: {w[1]}'}
                                  for w in p['where']],
                    'observe_at': p['observe'] or [
                        'arguments and results of the public calls, recorded '
                        'by call hooks installed at run time'],
                    'hook_needed': None}}) + '\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import numpy, pandas, '
                        'scipy, pyproj, matplotlib"',
           'checks': [], 'not_applicable': [],
           'notes': 'Call hooks are installed at run time from /verif; /repo '
                    'carries none.'}
    for p in P:
        man['checks'].append({
            'property': p['id'],
            'quick_cmd': f"python3 run.py {p['id']} --tier quick",
            'thorough_cmd': f"python3 run.py {p['id']} --tier thorough",
            'technique': 'runtime monitoring: ' + p['technique'],
            'level': 'exploration', 'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    write()
    print(len(P), 'properties')
