#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

prop('C01','FFA transform equals the recursive FFA sum of all input rows',
 "For every two-dimensional C-contiguous (or convertible) float input of m >= 1 rows (pulse periods) and p columns (phase bins), the FFA transform has the same shape, leaves its input unchanged, and its row s is: the row itself if m = 1, otherwise row h of the transform of the first floor(m/2) input rows plus row t of the transform of the remaining rows rotated left by s - t bins, where h and t are s*(n-1)/(m-1) rounded to the nearest integer for n the number of rows in the respective part. "
 "Consequently every output row sums every input row exactly once under some rotation, row 0 applies no rotation at all, and row m-1 rotates the last input row by m-1 bins. "
 "The one-dimensional form transforms exactly the floor(N/p) complete periods of its input and ignores the remaining samples. Non-contiguous float32 input is rejected with ValueError.",
 ['inputs'],'all row counts m >= 1, column counts p >= 1, all finite sample values; all N >= p >= 1 for the one-dimensional form',
 'The tests compare a few small shapes with a Python copy of the same recursion; they cannot cover all m, p, all shifts (including shifts larger than p) and all recursion depths.',
 ['riptide/cpp/transforms.hpp','riptide/cpp/kernels.hpp','riptide/cpp/block.hpp','riptide/cpp/python_bindings.cpp','riptide/libffa.py'],
 [('transform / merge recursion','riptide/cpp/transforms.hpp'),('fused_rollback_add, add','riptide/cpp/kernels.hpp'),('head/tail split','riptide/cpp/block.hpp'),('ffa1/ffa2 wrappers','riptide/libffa.py')],
 ['riptide.ffa2','riptide.ffa1'])

prop('C02','Trial frequencies and periods match the rows of the FFA transform',
 "For N samples transformed at base period p >= 2 with sampling time dt > 0, the trial frequency list has exactly m = floor(N/p) entries, entry s being (1/p - s/((m-1)*p^2))/dt (just 1/(p*dt) when m = 1); the list is strictly decreasing and strictly positive, and the trial period list is its elementwise reciprocal. "
 "Non-integer or non-positive N, p < 2, p > N or dt <= 0 are rejected with ValueError, in both lists.",
 ['inputs'],'all integers N >= p >= 2, all real dt > 0, and all invalid argument combinations',
 'The tests check a handful of (N, p, dt); positivity, monotonicity and the entry count are claims about all of them.',
 ['riptide/libffa.py'],[('ffafreq, ffaprd','riptide/libffa.py')],['riptide.ffafreq','riptide.ffaprd'])

prop('C03','Real-factor downsampling integrates the input over consecutive intervals',
 "Downsampling N samples by a real factor f with 1 < f <= N returns floor(N/f) float32 samples, where output sample k is the integral over [k*f, (k+1)*f] of the step function whose value is x[i] on [i, i+1): whole samples count fully, the partially covered samples at both ends count by the covered fraction. "
 "Any other factor is rejected with ValueError, as is non-contiguous float32 input, and the input is never modified.",
 ['inputs'],'all lengths N >= 2, all real factors f, all finite sample values',
 'The tests use a few factors on constant data; conservation at fractional boundaries must hold for every N, f and k.',
 ['riptide/cpp/downsample.hpp','riptide/cpp/python_bindings.cpp','riptide/libffa.py'],
 [('downsample, downsampled_size, check_downsampling_factor','riptide/cpp/downsample.hpp'),('downsample binding','riptide/cpp/python_bindings.cpp')],
 ['riptide.downsample','TimeSeries.downsample'])

prop('C04','Boxcar S/N is the best response of normalised boxcars over all phases',
 "For every pulse profile x of b bins, every trial width 0 < w < b and noise level s > 0, the boxcar S/N is the maximum over all b circular phases of the correlation of x with a boxcar of w bins at height h and b-w bins at -g, divided by s, where h, g > 0 give the filter zero mean and unit square sum. "
 "The output has the shape of the input with the phase axis replaced by the trial width axis, row by row and width by width in input order. "
 "A width outside 0 < w < b or a noise level that is not > 0 is rejected with ValueError.",
 ['inputs'],'all input shapes (any number of leading axes), all b >= 2, all width lists in any order, all finite noise levels and values',
 'The tests compare a few random profiles; wrap-around windows, all phases and every width/bin combination are universally quantified.',
 ['riptide/cpp/snr.hpp','riptide/cpp/kernels.hpp','riptide/cpp/python_bindings.cpp','riptide/libffa.py'],
 [('snr1, snr2, check_trial_widths, check_stdnoise','riptide/cpp/snr.hpp'),('circular_prefix_sum, diff_max','riptide/cpp/kernels.hpp'),('boxcar_snr','riptide/libffa.py')],
 ['riptide.boxcar_snr'])

prop('C05','Periodogram trial grid is ordered, in range, and free of gaps',
 "Up to floating-point rounding in every comparison, the trial periods of a periodogram search are strictly increasing, all lie in [period_min, period_max), and each is tau*b^2/(b - s/(r-1)) for a phase bin count b in [bins_min, bins_max] reported alongside it, where tau is the sampling time times period_min/(tsamp*bins_min)*((bins_max+1)/bins_min)^k for cycle k = 0, 1, ..., r = floor(n/b) rows for n the number of samples left at that resolution, and s = 0, 1, ... consecutive (blocks with r < 2 rows give no trials). "
 "Within each cycle every b from bins_min to the largest one allowed by bins_max, n and period_max is visited in order and every s whose period is below both (b+1)*tau and period_max is present, so that the periods from period_min up to period_max are covered without gaps as far as the data length allows. "
 "Inconsistent search parameters are rejected with ValueError, and a period_max beyond what the data length can support is not an error: the search just stops there (period_max/tau is assumed to fit in 64 bits).",
 ['inputs','configurations'],'all data lengths, sampling times, period ranges and bin ranges',
 'The tests check one configuration; the nested downsampling/bins/shift loops must be right for every parameter combination.',
 ['riptide/cpp/periodogram.hpp','riptide/cpp/downsample.hpp','riptide/cpp/python_bindings.cpp'],
 [('periodogram, periodogram_length, ceilshift, periodogram_check_arguments','riptide/cpp/periodogram.hpp')],
 ['riptide.ffa_search','riptide.libcpp.periodogram'])

prop('C06','Each periodogram S/N belongs to its trial period, bins and width',
 "Row i, column j of the periodogram S/N array is the boxcar S/N, at trial width j, of the FFA row that the i-th trial denotes: the data downsampled to the resolution of its cycle (or the data themselves when the factor is exactly 1), folded at the reported number of bins using all complete periods, transformed, taken at shift s, with noise level sqrt(rows * variance of one downsampled unit-noise sample). "
 "The periods, bin counts and S/N rows have the same number of entries, one per trial, and the input data are not modified.",
 ['inputs','configurations'],'all data, widths and search parameters',
 'The tests only check the S/N of a couple of injected signals; correspondence between row and trial must hold for every trial of every search.',
 ['riptide/cpp/periodogram.hpp','riptide/cpp/downsample.hpp','riptide/cpp/snr.hpp','riptide/cpp/transforms.hpp','riptide/cpp/python_bindings.cpp'],
 [('periodogram','riptide/cpp/periodogram.hpp'),('downsampled_variance','riptide/cpp/downsample.hpp')],
 ['riptide.ffa_search','riptide.libcpp.periodogram'])

prop('C07','Native kernels never access memory outside their buffers',
 "For every argument accepted by a native function (rotation, rotate-and-add, circular prefix sum, FFA, boxcar S/N, downsampling, periodogram, running median), every element read or written lies inside the caller's arrays or the buffers the function itself allocated, under IEEE rounding of all index computations, and every element of every returned array has been written. "
 "Arguments that would violate this (wrong dimensionality, non-contiguous memory, mismatched lengths) raise an exception instead.",
 ['inputs'],'all array lengths up to 2^40 samples (up to 2^22 rows for an FFA block), all factors, widths, shifts and periods accepted by the argument checks',
 'An out-of-bounds access in a test run usually goes unnoticed, and index computations in floating point can overrun by one only for rare sizes and factors.',
 ['riptide/cpp/kernels.hpp','riptide/cpp/transforms.hpp','riptide/cpp/snr.hpp','riptide/cpp/downsample.hpp','riptide/cpp/periodogram.hpp','riptide/cpp/running_median.hpp','riptide/cpp/python_bindings.cpp'],
 [('all kernels','riptide/cpp'),('output allocation and argument checks','riptide/cpp/python_bindings.cpp')],
 ['riptide.libcpp functions (e.g. under AddressSanitizer)'])

prop('C08','Running medians are exact sliding medians with edge padding',
 "The running median of x with odd window w < len(x) has, at every position i, the median of the w values x[i-w//2 .. i+w//2] where indices beyond either end are replaced by the nearest end sample; even windows or windows >= len(x) are rejected with ValueError and the input is never modified. "
 "The fast version returns exactly that when int(max(1, w/min_points)) = 1; otherwise it averages consecutive groups of that many samples, takes the running median of the averages with window min_points, and interpolates linearly between the group centres (constant beyond the first and last centre), rejecting even min_points with ValueError (data not shorter than that number of samples).",
 ['inputs'],'all lengths, window sizes and finite values (including ties)',
 'The tests use a few small windows; quickselect and ring-buffer correctness depends on every ordering of values and every window/length combination.',
 ['riptide/cpp/running_median.hpp','riptide/running_medians.py','riptide/cpp/python_bindings.cpp'],
 [('partition, nth_element, RunningMedian, running_median','riptide/cpp/running_median.hpp'),('fast_running_median, scrunch','riptide/running_medians.py')],
 ['riptide.running_median','riptide.fast_running_median'])

prop('C09','Time series operations: in-place equals out-of-place, input untouched',
 "Normalising a time series subtracts the mean and divides by the standard deviation of its samples; dereddening subtracts the fast running median with a window of round(width/tsamp) samples; downsampling by f replaces the data by their downsampled version and multiplies the sampling time by f. "
 "For each of these, the out-of-place form returns a new time series and leaves the original unchanged, and the in-place form returns None and gives the object exactly the data, sampling time and metadata that the out-of-place result has. "
 "Afterwards the data are float32 and the recorded observation length equals number of samples times sampling time.",
 ['inputs','histories'],'all sample values, lengths, sampling times, operation parameters and sequences of operations',
 'The tests run single operations on one series; agreement of the two forms and of the metadata must hold for all inputs and after any history of operations.',
 ['riptide/time_series.py','riptide/running_medians.py','riptide/libffa.py'],
 [('TimeSeries.normalise, deredden, downsample','riptide/time_series.py')],
 ['riptide.TimeSeries'],[('_data, _tsamp, metadata[tobs]','samples, sampling time, length in seconds','riptide/time_series.py')])

prop('C10','Folding yields the requested shape and the phase-coherent sum of the data',
 "Folding a time series at period P with b bins first downsamples it by f = P/(b*tsamp), forms m = floor(n/b) full pulse periods out of the n resulting samples, and scales every sample by 1/sqrt(m*f); with no sub-integration count it returns these m rows of b bins, with a count of 1 (or if m = 1) their column sum as a one-dimensional array of b bins, and with 1 < count < m exactly that many rows, each the integral of the m rows over an equal share of the observation. "
 "Requests with P longer than the data, bins not wider than the sampling time, a count below 1 or a count exceeding the number of periods folded raise ValueError, and the time series is left unchanged.",
 ['inputs'],'all data, periods, bin counts and sub-integration counts',
 'The tests fold one series with a few parameter values; the number of returned rows depends on floating-point division for every (m, subints) pair.',
 ['riptide/folding.py','riptide/time_series.py'],[('fold, downsample_vertical','riptide/folding.py')],['TimeSeries.fold'])

prop('C11','Peak search reports exactly the cluster maxima above threshold',
 "For each trial width separately, a trial of the periodogram is significant if and only if its S/N exceeds both the minimum S/N and the dynamic threshold (the reported polynomial in log frequency, fitted to median + nstd * IQR/1.349 over equal consecutive frequency segments; constant smin when there are fewer than minseg segments); significant trials are grouped by single linkage with frequency radius clrad/Tobs, and exactly one peak is reported per group, at its highest S/N. "
 "A peak's frequency, period, S/N, width, bin count-based duty cycle and width and period indices are those of that very trial, and its DM is that of the searched data. "
 "Peaks are returned in decreasing order of S/N. (The trial frequencies span at least one segment, and every segment holds at least one trial.)",
 ['inputs'],'all periodograms and threshold parameters',
 'The tests check that one injected signal yields a top peak with roughly the right parameters; completeness and exactness for every S/N landscape is not reachable by samples.',
 ['riptide/peak_detection.py','riptide/clustering.py','riptide/periodogram.py'],
 [('segment_stats, find_peaks_single, find_peaks','riptide/peak_detection.py'),('cluster1d','riptide/clustering.py')],['riptide.find_peaks'])

prop('C12','Clustering partitions points exactly at gaps larger than the radius',
 "Clustering n one-dimensional points with radius r returns index arrays that together contain every index 0..n-1 exactly once; two points adjacent in sorted order are in the same cluster if and only if they differ by at most r, so each cluster is a maximal run of sorted values without a gap above r, and clusters come in sorted order. "
 "With input declared already sorted (in increasing or decreasing order) the result groups the same points, and an empty input yields no clusters.",
 ['inputs'],'all finite inputs of any length, including duplicates, and all r >= 0',
 'No unit test targets the clustering directly; boundary gaps, duplicates and the first/last cluster must be right for all inputs.',
 ['riptide/clustering.py'],[('cluster1d','riptide/clustering.py')],['riptide.clustering.cluster1d'])

prop('C13','DM trial selection covers the DM range with actual trials in order',
 "For files with distinct trial DMs, the DM trials selected for a search are distinct trial values within the requested DM range (capped at dmsinb_max/|sin b| if given), in strictly increasing order, beginning with the smallest and ending with the largest such trial, and between consecutive selected trials either no gap remains between their coverage radii or they are adjacent available trials. "
 "The radius of a trial is max(minimum width, smearing across one channel at band centre at that DM) divided by the dispersion delay per unit DM across the band; no selected trial could be replaced by the next available one without leaving a gap from its predecessor, and an empty range raises ValueError. "
 "Iterating over files yields the file of each selected trial exactly once, in order, in chunks of the requested size (only the last one may be smaller), and looking up a DM returns the file with that DM.",
 ['inputs','configurations'],'all sets of trial DMs, DM ranges, band parameters, minimum widths and chunk sizes',
 'The pipeline tests use a few trial DMs; coverage is a claim about every trial set, in particular widely spaced or dense ones.',
 ['riptide/pipeline/dmiter.py'],[('select_dms','riptide/pipeline/dmiter.py'),('DMIterator','riptide/pipeline/dmiter.py')],['riptide.pipeline.dmiter.select_dms','riptide.pipeline.dmiter.DMIterator'])

prop('C14','Harmonic flagging is sound and yields a flat fundamental/harmonic relation',
 "Two candidates are reported harmonically related if and only if, for the fraction p/q with q <= denom_max closest to the ratio of the faster to the slower frequency, the phase drift over the observation in units of the faster one's duty cycle, the difference of dispersion delays across the band in units of the smaller pulse width, and the difference between the second candidate's S/N and first S/N / sqrt(p*q) are all within their limits; the reported fraction is the second candidate's frequency over the first's, i.e. the reciprocal if the second is the slower one. "
 "After flagging, ranks number clusters 0, 1, ... by decreasing S/N, and every cluster flagged as harmonic points to a fundamental that is not itself flagged, has a lower rank and no lower S/N, and passed the test with it, while any two unflagged clusters fail it.",
 ['inputs','histories'],'all candidate pairs and all sets of clusters',
 'The tests run one pipeline with one harmonic pair; the flat hierarchy must hold for all sets of clusters and all orders in which pairs are tested.',
 ['riptide/pipeline/harmonic_testing.py','riptide/pipeline/pipeline.py','riptide/pipeline/peak_cluster.py'],
 [('hdiag, htest','riptide/pipeline/harmonic_testing.py'),('Pipeline.flag_harmonics','riptide/pipeline/pipeline.py'),('PeakCluster','riptide/pipeline/peak_cluster.py')],
 ['riptide.pipeline.harmonic_testing.htest','Pipeline.flag_harmonics'],[('parent_fundamental, hfrac, rank','harmonic relation','riptide/pipeline/peak_cluster.py')])

prop('C15','Candidates are exactly the brightest clusters passing the filters',
 "The clusters retained for candidate building are exactly those whose brightest peak has DM >= dm_min and S/N >= snr_min (each only if set) and which are not flagged as harmonics (only if harmonic removal is enabled); if a maximum number is set, the retained ones are the brightest so many of these. "
 "Each candidate period is folded with the parameters of the configured search range with period_min <= period < period_max (the lowest range below all, the highest one above all), and the brightest peak of a cluster represents it in every summary.",
 ['inputs','configurations'],'all cluster sets, filter settings and (contiguous) search range lists in any order, and all periods',
 'The tests use one or two filter settings; order-dependence and boundary values (equal to a limit) need all inputs.',
 ['riptide/pipeline/pipeline.py','riptide/pipeline/peak_cluster.py'],
 [('Pipeline.apply_candidate_filters, get_search_range','riptide/pipeline/pipeline.py'),('PeakCluster.centre','riptide/pipeline/peak_cluster.py')],['Pipeline.apply_candidate_filters','Pipeline.get_search_range'])

prop('C16','Search ranges are validated for resolution and contiguity before searching',
 "A list of search ranges is accepted if and only if for every range both bins_min and the candidate bin count times the coarsest sampling time do not exceed its period_min, and every range begins exactly where the previous one ends; otherwise InvalidSearchRange is raised. "
 "A pipeline configuration with a missing or unknown section, or a value outside its documented type or range, is rejected with InvalidPipelineConfig, and an accepted configuration is returned with the same values (numbers possibly converted to float).",
 ['configurations'],'all search range lists and sampling times; all configurations differing from a valid one',
 'The tests try a few invalid configurations; acceptance must be exact for every configuration.',
 ['riptide/pipeline/config_validation.py'],[('validate_range, validate_ranges_contiguity, validate_ranges, validate_pipeline_config','riptide/pipeline/config_validation.py')],
 ['riptide.pipeline.config_validation.validate_ranges','riptide.pipeline.config_validation.validate_pipeline_config'])

prop('C17','SIGPROC reader returns exactly what the file encodes',
 "Reading a SIGPROC file whose header is any sequence of known (or declared extra) keys with 32-bit integer, 64-bit float, one-byte boolean or length-prefixed string values between the start and end flags yields exactly those key/value pairs, the header size in bytes, and as data every sample that follows the header, decoded as float32, or as signed or unsigned 8-bit per the signedness key. "
 "Header coordinates packed as (d)ddmmss.s are decoded sign included, DM and start time are carried over as metadata, and the observation length is the number of samples times the sampling time. "
 "Files are complete (they hold every byte their header announces). A missing start flag, an unknown key, more than one channel, a bit depth other than 8 or 32, or 8-bit data without signedness raises an exception.",
 ['inputs'],'all header contents and key orders, all numbers of samples, all sample values',
 'The tests read a few fixed files; header layout and decoding must be right for all headers.',
 ['riptide/reading/sigproc.py','riptide/time_series.py','riptide/metadata.py'],
 [('read_sigproc_header, read_attribute, parse_float_coord, SigprocHeader','riptide/reading/sigproc.py'),('TimeSeries.from_sigproc','riptide/time_series.py'),('Metadata.from_sigproc','riptide/metadata.py')],
 ['TimeSeries.from_sigproc','riptide.reading.SigprocHeader'])

prop('C18','PRESTO reader returns exactly what the .inf and .dat files encode',
 "Reading a PRESTO .inf file yields every documented field from its line (whatever follows the '=' at column 40), converted to its type, for radio as well as X-ray/gamma observations, whether or not on/off pairs are listed, and in that order; the data are all the float32 samples of the .dat file with the same base name. "
 "The time series carries the sampling time, DM, epoch, source name, coordinates and the observation length of the file; files are complete (they hold all the lines of their band); lines without '=' at column 40, simulated data and unsupported bands raise ValueError.",
 ['inputs'],'all field values, numbers of on/off pairs, bands and data lengths',
 'The tests read a few fixed files; field offsets after a variable number of on/off pairs must be right for all files.',
 ['riptide/reading/presto.py','riptide/time_series.py','riptide/metadata.py'],
 [('inf2dict, parse_inf_value, PrestoInf','riptide/reading/presto.py'),('Metadata.from_presto_inf','riptide/metadata.py')],['TimeSeries.from_presto_inf','riptide.reading.PrestoInf'])

prop('C19','Data products survive a JSON save and load unchanged',
 "Saving a time series, periodogram, candidate, or any nesting of lists and string-keyed dicts of these with plain JSON values to JSON and loading it back gives an object of the same class whose arrays have identical values, dtype and shape, whose tables have the same columns and values, whose sky coordinates agree to rounding, and whose other content is equal. "
 "The library version stored with an object is restored on load, and integer and floating numpy scalars are restored as plain numbers of equal value (tables have float columns, and metadata do not use the reserved keys __type__ and __version__).",
 ['inputs'],'all array contents, dtypes, shapes and memory layouts (except object arrays), and all nestings',
 'The tests round-trip one object per class; layout (non-contiguous, empty, zero-dimensional, big-endian) and nesting are universally quantified.',
 ['riptide/serialization.py','riptide/time_series.py','riptide/periodogram.py','riptide/candidate.py'],
 [('JSONEncoder.default, object_hook','riptide/serialization.py'),('to_dict/from_dict','riptide/time_series.py, periodogram.py, candidate.py')],['riptide.save_json','riptide.load_json'])

prop('C20','A search dereddens, then normalises, and tries the documented widths',
 "A single-series search removes red noise first (unless told not to) and normalises second (unless told the data already are), using the given running median window, searches exactly the resulting series with the given period and bin ranges, and returns that series together with its periodogram, whose metadata are those of the series; the caller's series is not modified. "
 "The trial widths are 1, then repeatedly the larger of the previous width plus 1 and the integer part of wtsp times it, as long as they do not exceed the larger of 1 and the integer part of ducy_max*bins_min. "
 "The longest trial period never exceeds the data length divided by the requested minimum number of periods (fpmin).",
 ['inputs','configurations'],'all time series and search parameters',
 'The tests run a few searches with default settings; the option combinations and width sequences are not sampled.',
 ['riptide/search.py','riptide/ffautils.py'],[('ffa_search','riptide/search.py'),('generate_width_trials','riptide/ffautils.py')],['riptide.ffa_search'])

prop('C21','The pipeline searches every selected file in every range and keeps all peaks',
 "A pipeline search dereddens and normalises each selected DM trial file once, searches it in every configured range with that range's parameters, and the resulting peak list contains the peaks found in every file and range exactly once, ordered by increasing period, whatever the number of processes. "
 "Clustering the peaks then assigns every peak to exactly one cluster, two peaks adjacent in frequency sharing a cluster if and only if their frequencies differ by at most the clustering radius divided by the median observation length.",
 ['inputs','configurations'],'all file lists, numbers of processes, range lists and per-file results',
 'The tests run one file list with one configuration; no peak lost or duplicated is a claim about all chunkings.',
 ['riptide/pipeline/worker_pool.py','riptide/pipeline/pipeline.py','riptide/pipeline/dmiter.py'],
 [('WorkerPool.process_fname_list, process_fname','riptide/pipeline/worker_pool.py'),('Pipeline.search, cluster_peaks','riptide/pipeline/pipeline.py')],['Pipeline.search','Pipeline.cluster_peaks'])

prop('C22','The seek program prints one brightest peak per frequency group',
 "The single-file search program passes its period, bin, width and running-median options to the search and its S/N threshold and clustering radius to the peak detection, groups the resulting peaks by frequency with the given radius over the data length, keeps from each group exactly the peak with the highest S/N, and returns them as a table in decreasing order of S/N, or nothing if there are no peaks. "
 "Every documented option accepts every value of its documented type.",
 ['inputs','configurations'],'all peak lists and all command line option values',
 'The tests run one signal and one noise file with default options.',
 ['riptide/apps/rseek.py'],[('run_program, get_parser','riptide/apps/rseek.py')],['rseek command line','riptide.apps.rseek.run_program'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
