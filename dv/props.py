"""Which functions are verified for which property."""
import os, time
from dv.core import *

class Unit:
    """kind 'cxx': a function of /repo/riptide/cpp against its contract; 'py': a Python function; 'lemma': facts about the specification"""
    def __init__(self, kind, key, helper=False, mode='real', where='', fn=None):
        self.kind, self.key, self.helper, self.mode, self.fn = kind, key, helper, mode, fn
        self.name = ('%s%s' % ('' if kind == 'cxx' else kind + ':', key)) + ('' if mode == 'real' else ' (%s arithmetic)' % mode)
        self.where = where

def cx(key, helper=True, mode='real'):
    return Unit('cxx', key, helper, mode, 'riptide/cpp/python_bindings.cpp' if key.startswith('b:') else 'riptide/cpp')
def lemma(key): return Unit('lemma', key, False, where='lemma over the contracts')
def py(key, helper=False): return Unit('py', key, helper, where=key)

_ast = {}
def prepare(pid, repo):
    us = UNITS[pid]()
    if any(u.kind == 'cxx' for u in us):
        from dv.cxx import AST
        try: _ast[repo] = AST(repo)
        except Exception as e: _ast[repo] = e
    if any(u.kind == 'py' for u in us):
        import dv.pyspecs

def lemmas():
    from dv import spec_cxx, pyspecs
    return {'boxcar': spec_cxx.boxcar_lemmas, 'freq': pyspecs.freq_lemmas, 'grid': spec_cxx.ceilshift_lemmas}

def run_unit(u, dropped, timeout, deadline, repo):
    ctx = Ctx(Prover(timeout=timeout, deadline=deadline))
    err = None; unsup = False; trusted = set(); used = set()
    ctx.func = u.key
    try:
        if u.kind == 'cxx': trusted, used = run_cxx(u, ctx, dropped, repo)
        elif u.kind == 'py': trusted, used = run_py(u, ctx, dropped, repo)
        else: lemmas()[u.key](ctx)
    except Unsupported as e: err = 'outside the supported subset: %s' % e; unsup = True
    except Deadline: err = 'no answer from the prover in time'
    return {'obls': [{'name': o.name, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 3), 'detail': o.detail[:1500]} for o in ctx.obls],
            'error': err, 'unsupported': unsup, 'assumptions': sorted(set(ctx.assumptions)), 'trusted': sorted(trusted), 'contracts_used': sorted(used)}

def run_cxx(u, ctx, dropped, repo):
    from dv import spec_cxx, search_cxx
    from dv.cxx import Cxx
    from dv.contract import verify
    ast = _ast[repo]
    if isinstance(ast, Exception): raise Unsupported(str(ast)[:300])
    m = Cxx(ctx, ast, u.mode)
    m.no_values = u.mode == 'fp'
    cs = {c.key: c for c in [k() for k in spec_cxx.ALL + search_cxx.SALL]}
    key = u.key
    if key.startswith('b:'): c = {k.key: k for k in spec_cxx.BALL + search_cxx.SBALL}[key[2:]]()
    else: c = cs[key]
    m.contracts = {k: v for k, v in cs.items() if k not in dropped}
    nm, n = c.key.split('/')
    ds = ast.find(c.ns, nm, int(n))
    if not ds: raise Unsupported('there is no function %s with %s parameters' % (nm, n))
    verify(m, c, ds[0])
    return m.trusted, m.used_contracts

def run_py(u, ctx, dropped, repo):
    from dv import pyspecs
    return pyspecs.run(u.key, ctx, dropped, repo)

UNITS = {
    'C01': lambda: [cx('transform/3', False), cx('fused_rollback_add/5'), cx('rollback/4'), cx('transform/5'), cx('b:ffa2/1', False), py('riptide.libffa.ffa2'), py('riptide.libffa.ffa1')],
    'C02': lambda: [py('riptide.libffa.ffafreq'), py('riptide.libffa.ffaprd'), lemma('freq')],
    'C03': lambda: [cx('downsample/4'), cx('b:downsample/2', False), py('riptide.libffa.downsample')],
    'C04': lambda: [cx('circular_prefix_sum/4'), cx('snr1/6'), cx('snr2/5'), cx('b:snr2/3', False), lemma('boxcar'), py('riptide.libffa.boxcar_snr')],
    'C05': lambda: [cx('periodogram_check_arguments/6'), cx('downsampled_size/2'), cx('ceilshift/3'), lemma('grid'), cx('periodogram_length/6', False), cx('periodogram/12', False), cx('b:periodogram/7', False)],
    'C06': lambda: [cx('periodogram_length/6', False), cx('periodogram/12', False), cx('b:periodogram/7', False), cx('downsampled_variance/2'), cx('ceilshift/3'), cx('downsampled_size/2'), cx('downsample/4'), cx('transform/5'), cx('snr2/5'), cx('snr1/6'), cx('circular_prefix_sum/4')],
    'C07': lambda: [cx(k, True, 'fp') for k in ('transform/3', 'downsample/4', 'fused_rollback_add/5', 'rollback/4', 'circular_prefix_sum/4', 'snr1/6', 'snr2/5', 'transform/5')]
        + [cx('periodogram_length/6', False), cx('periodogram/12', False), cx('b:periodogram/7', False)]
        + [cx('b:' + k, False, 'fp') for k in ('rollback/2', 'fused_rollback_add/3', 'circular_prefix_sum/2', 'ffa2/1', 'snr1/3', 'snr2/3', 'downsample/2')],
    'C08': lambda: [py('riptide.running_medians.running_median'), py('riptide.running_medians.scrunch'), py('riptide.running_medians.fast_running_median')],
    'C09': lambda: [py('riptide.time_series.TimeSeries.normalise'), py('riptide.time_series.TimeSeries.deredden'), py('riptide.time_series.TimeSeries.downsample'), py('riptide.time_series.TimeSeries.__init__'), py('riptide.running_medians.fast_running_median', True)],
    'C11': lambda: [py('riptide.peak_detection.' + f) for f in ('segment_stats', 'fit_threshold', 'find_peaks_single', 'find_peaks')] + [py('riptide.clustering.cluster1d')],
    'C12': lambda: [py('riptide.clustering.cluster1d')],
    'C13': lambda: [py('riptide.pipeline.dmiter.select_dms')],
    'C14': lambda: [py('riptide.pipeline.harmonic_testing.htest'), py('riptide.pipeline.pipeline.Pipeline.flag_harmonics'), py('riptide.pipeline.peak_cluster.PeakCluster.centre')],
    'C15': lambda: [py('riptide.pipeline.pipeline.Pipeline.apply_candidate_filters'), py('riptide.pipeline.pipeline.Pipeline.get_search_range'), py('riptide.pipeline.peak_cluster.PeakCluster.centre'), py('riptide.pipeline.peak_cluster.PeakCluster.summary_dict'), py('riptide.peak_detection.Peak.summary_dict')],
    'C16': lambda: [py('riptide.pipeline.config_validation.' + f) for f in ('validate_range', 'validate_ranges_contiguity', 'validate_ranges')],
    'C17': lambda: [py('riptide.reading.sigproc.' + f) for f in ('read_str', 'read_attribute', 'read_sigproc_header', 'parse_float_coord')]
        + [py('riptide.reading.sigproc.SigprocHeader.' + f) for f in ('__init__', 'bytesize', 'fname', 'bytes_per_sample', 'nsamp', 'tobs', 'skycoord')]
        + [py('riptide.metadata.Metadata.from_sigproc'), py('riptide.time_series.TimeSeries.from_sigproc')],
    'C18': lambda: [py('riptide.reading.presto.' + f) for f in ('parse_inf_value', 'inf2dict', 'PrestoInf.__init__', 'PrestoInf.fname', 'PrestoInf.data_fname', 'PrestoInf.skycoord', 'PrestoInf.load_data')]
        + [py('riptide.metadata.Metadata.from_presto_inf'), py('riptide.time_series.TimeSeries.from_presto_inf')],
    'C19': lambda: [py('riptide.serialization.load_json')],
    'C20': lambda: [py('riptide.ffautils.generate_width_trials'), py('riptide.search.ffa_search'), py('riptide.time_series.TimeSeries.deredden', True), py('riptide.time_series.TimeSeries.normalise', True)],
    'C21': lambda: [py('riptide.pipeline.worker_pool.WorkerPool.process_fname'), py('riptide.pipeline.worker_pool.WorkerPool.process_fname_list'), py('riptide.pipeline.pipeline.Pipeline.search'), py('riptide.pipeline.pipeline.Pipeline.cluster_peaks'), py('riptide.pipeline.peak_cluster.PeakCluster.__init__'), py('riptide.clustering.cluster1d')],
    'C22': lambda: [py('riptide.apps.rseek.run_program'), py('riptide.clustering.cluster1d')],
    'C10': lambda: [py('riptide.folding.fold'), py('riptide.folding.downsample_vertical'), py('riptide.time_series.TimeSeries.downsample', True)],
}
BUDGET = {}
ASAN = {'C07': 15}
SEARCH = ['period_max / tau fits in 64 bits, the number of cycles and of trials is below 2^48', 'exact real arithmetic, in particular for log, pow and the comparison of periods', 'powers of a number above 1 are at least 1 and increase with the exponent', 'sums of non-negative terms increase (ghost functions T and U defined by their recurrences)']
ASSUME = {
    'C05': SEARCH,
    'C06': SEARCH,
    'C11': ['the contents of the polynomial-coefficient dictionary returned by find_peaks are checked by the bounded runs only', 'numpy.polyfit, median and percentile are opaque functions of their arguments', 'the trial frequencies span at least one segment and every segment holds at least one trial'],
    'C13': ['DMIterator.iterate_filenames, get_filename and tsamp_max are covered by bounded runs only', 'trial DMs are distinct, wmin > 0, 0 < fmin < fmax, nchans >= 1'],
    'C16': ['validate_pipeline_config as a whole (schema library, YAML) is covered by bounded runs only'],
    'C17': ['struct.unpack, file objects, numpy.fromfile, os.path.getsize and astropy.coordinates.SkyCoord are trusted models', 'the file is long enough for the string lengths and values its header announces', 'the extra keys are an example set of one key per type', 'coordinates in exact real arithmetic'],
    'C18': ['str methods (strip, split, splitlines, rsplit), int() and float() of text, numpy.fromfile and astropy.coordinates.SkyCoord are trusted models', 'the file has all the lines of its band'],
    'C19': ['json, base64, numpy buffers (ascontiguousarray, frombuffer, reshape), pandas.DataFrame(values, columns) and astropy.coordinates.SkyCoord are trusted models', 'arrays of up to 4 dimensions; one example nesting of lists and dictionaries stands for all (the recursion over nestings is that of the json model); tables hold float columns', 'metadata do not use the reserved keys __type__ and __version__'],
    'C21': ['ffa_search, find_peaks and the time series loaders are opaque functions of their arguments; multiprocessing.Pool.map is trusted to return the results in argument order', 'DMIterator.iterate_filenames is covered by bounded runs only'],
    'C22': ['the argparse command line is covered by bounded runs only', 'pandas.DataFrame is a trusted model (construction from rows, column selection, sort_values)'],
    'C07': ['in libcpp.periodogram and periodogram_length themselves (not the kernels they call) index computations are in exact arithmetic; the effect of rounding on them is covered by bounded runs under AddressSanitizer', 'libcpp.running_median is covered by bounded runs under AddressSanitizer only'] + SEARCH[:1],
}
ASSUME_ALL = ['no array has 2^48 elements or more', 'size arithmetic does not overflow 64 bits for such arrays']
TRUSTED_ALL = ['clang 18 JSON AST of the working tree (C++), ast module (Python)', 'the dv executor and loop summariser (/verif/dv)', 'z3 5.3.2 and cvc5']
NOTE_ALL = 'Every obligation generated from the current source of the functions under contract is discharged by z3/cvc5, for all inputs; machine floating-point values are treated as exact reals in the value contracts. Trusted: the front ends and the loop summariser, library models listed in the evidence. Executable contracts on the built code run alongside (bounded, not counted as proved).'
NOTE = {
    'C05': 'Proved for all inputs (real arithmetic): the argument checks, samples per cycle and rows per block, the loop invariants of libcpp.periodogram_length and libcpp.periodogram (every cycle, bin count and shift of the specified grid is visited exactly once, in order, and its period and bin number are stored at its position), the binding, and the lemmas that trial periods increase and leave no gap. Real log/pow are trusted functions; the effect of float rounding on the grid is covered by bounded runs only.',
    'C06': 'Proved for all inputs (real arithmetic): the loop invariants of libcpp.periodogram (the S/N stored for every trial and width is the boxcar S/N of its row of the FFA of the data at the resolution of its cycle, with the specified noise level), the kernels it calls, and the binding. Float rounding of the values is covered by bounded runs only.',
    'C07': 'Memory safety, initialisation and argument rejection of the rotation, prefix-sum, FFA, boxcar S/N and downsampling kernels and of their Python bindings: every obligation generated from the current C++ source is discharged under IEEE rounding of all index computations (floating-point values themselves abstracted). libcpp.periodogram: proved in exact arithmetic only (every access in bounds, every output element written), and run under AddressSanitizer. libcpp.running_median is NOT proved: bounded runs of the freshly built extension under AddressSanitizer stand in for it.',
}
NOT_APPLICABLE = {}
