"""Check of one property:  python3-vt -m dv.check C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
                           python3-vt -m dv.check --replay FILE

1. every contract of the property is verified against the functions in the working tree of /repo
   (units of dv/props.py, each in its own process), the solver deciding every obligation;
2. the executable form of the contracts is evaluated on the real, freshly built code (dv/rt), to find
   a failing input for a failed obligation and to cross-check the trusted parts (bounded, never counted
   as proved)."""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing as mp, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
NCPU = os.cpu_count() or 4

# ------------------------------------------------------------------ building the real code
FLAGS = ['-O3', '-march=native', '-fassociative-math', '-fno-math-errno', '-ffinite-math-only', '-fno-rounding-math', '-fno-signed-zeros', '-fno-trapping-math']
def pyinfo():
    out = subprocess.run([PY, '-c', 'import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()["include"]);print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                         capture_output=True, text=True).stdout.split('\n')
    return out[0], out[1], out[2]

class Build:
    """scratch copy of /repo with the extension compiled from the current sources"""
    def __init__(self, asan=False):
        self.dir = tempfile.mkdtemp(prefix='dvbuild'); self.asan = asan
        def ig(d, names): return [n for n in names if n in ('.git', 'build', '__pycache__') or n.endswith('.so') or n.endswith('.egg-info')]
        for n in ('riptide',): shutil.copytree(os.path.join(REPO, n), os.path.join(self.dir, n), ignore=ig)
        v = os.path.join(self.dir, 'riptide/_version.py')
        if not os.path.exists(v): open(v, 'w').write('__version__ = version = "0.2.5"\n')
        inc, pinc, suf = pyinfo()
        fl = FLAGS if not asan else ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']
        cc = ['g++', '-std=c++17', '-shared', '-fPIC', '-DNDEBUG', '-fvisibility=hidden'] + fl + ['-I' + os.path.join(REPO, 'riptide/cpp'), '-I' + inc, '-I' + pinc,
              os.path.join(REPO, 'riptide/cpp/python_bindings.cpp'), '-o', os.path.join(self.dir, 'riptide/libcpp' + suf)]
        self.p = subprocess.Popen(cc, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    def wait(self):
        out, err = self.p.communicate()
        self.err = err[-2000:] if self.p.returncode else None
        return self.p.returncode == 0
    def env(self):
        e = dict(os.environ)
        e['PYTHONPATH'] = self.dir + ':' + ROOT
        e['PYTHONDONTWRITEBYTECODE'] = '1'; e['MPLBACKEND'] = 'Agg'; e['OMP_NUM_THREADS'] = '1'; e['OPENBLAS_NUM_THREADS'] = '1'
        if self.asan:
            lib = [subprocess.run(['g++', '-print-file-name=' + l], capture_output=True, text=True).stdout.strip() for l in ('libasan.so', 'libstdc++.so.6')]
            # new memory is filled with 0xff: elements never written read as NaN
            e['LD_PRELOAD'] = ' '.join(lib); e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=100000000'
        return e
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

# ------------------------------------------------------------------ executable contracts
class Oracle:
    def __init__(self, pid, build, seed, budget, workers, tier, known):
        self.pid, self.build, self.seed, self.budget, self.workers = pid, build, seed, budget, workers
        self.procs = []; self.tmp = tempfile.mkdtemp(prefix='dvrt')
        for w in range(workers): self.start(w, seed * 1000 + w, budget, tier, known)
        self.known = known
    def start(self, w, seed, budget, tier, known, replay=None):
        out = os.path.join(self.tmp, 'o%d.json' % len(self.procs))
        cmd = [PY, '-m', 'dv.rt.run', self.pid, out, str(seed), str(budget), tier, str(w), str(self.workers), json.dumps(sorted(known))]
        if replay: cmd += [replay]
        wd = os.path.join(self.tmp, 'w%d' % len(self.procs)); os.mkdir(wd)
        p = subprocess.Popen(cmd, cwd=wd, env=self.build.env(), stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT, start_new_session=True)
        self.procs.append((p, out, budget, time.time()))
    def failing(self):
        """all runs have ended and one of them found a failing input (or was killed by the code under test)"""
        if any(p.poll() is None for p, *_ in self.procs): return False
        for p, out, *_ in self.procs:
            r = rd(out)
            if p.returncode < 0 or (r and r['fails']): return True
        return False
    def wait(self):
        """returns (summary, failures [(case, msg)], known [(key, case, msg)], errors)"""
        cases = 0; nontrivial = 0; fails = []; known = []; errs = []; samples = []; rule = ''
        for p, out, budget, t0 in self.procs:
            try: p.wait(max(1, t0 + budget + 90 - time.time()))
            except subprocess.TimeoutExpired:
                kill(p)
                cur = rd(out + '.cur')
                if cur is not None: fails.append((cur, 'the call does not return (no answer within %d s)' % (budget + 90)))
                else: errs.append('oracle did not end')
                continue
            r = rd(out)
            if p.returncode != 0 or r is None:
                cur = rd(out + '.cur'); log = open(out + ".log").read(); log = log[:1500] + log[-1500:]
                if p.returncode < 0 and cur is not None:
                    if 'AddressSanitizer' in log: log = log[log.find('AddressSanitizer'):][:2500]
                    fails.append((cur, 'the process was ended by signal %d (%s)\n%s' % (-p.returncode, signal.Signals(-p.returncode).name, log[-1500:])))
                elif 'AddressSanitizer' in log and cur is not None: fails.append((cur, log[-2500:]))
                else: errs.append('oracle ended with %s: %s' % (p.returncode, log[-1500:]))
                continue
            cases += r['cases']; nontrivial += r['nontrivial']; fails += [tuple(f) for f in r['fails']]; known += [tuple(k) for k in r['known']]
            errs += r['errors']; rule = r['rule']; samples += r['samples'][:2]
        shutil.rmtree(self.tmp, ignore_errors=True)
        return {'evaluations': cases, 'distinct_nontrivial': nontrivial, 'rule': rule, 'samples': samples[:4]}, fails, known, errs

def rd(p):
    try: return json.load(open(p))
    except Exception: return None
def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    try: p.wait(5)
    except Exception: pass

# ------------------------------------------------------------------ proof units
def unit_proc(conn, unit, dropped, timeout, deadline):
    try:
        os.setpgid(0, 0)
    except Exception: pass
    try:
        from dv import props
        r = props.run_unit(unit, dropped, timeout, deadline, REPO)
    except Exception as e:
        r = {'obls': [], 'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-1500:], 'assumptions': []}
    try: conn.send(r); conn.close()
    finally: os._exit(0)

def run_units(units, dropped, timeout, unit_limit, jobs, stop_at, abort=None):
    """units in parallel processes; returns {unit name: result}"""
    ctxm = mp.get_context('fork')
    todo = list(units); run = []; res = {}
    while todo or run:
        if abort is not None and abort():
            for u, p, a, t0, dl in run:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
                p.join(2)
            for u in [x[0] for x in run] + todo: res[u.name] = {'obls': [], 'error': 'stopped: an input that breaks the property has been found', 'assumptions': [], 'stopped': True}
            return res
        while todo and len(run) < jobs:
            u = todo.pop(0); a, b = ctxm.Pipe(False)
            dl = min(time.time() + unit_limit, stop_at)
            p = ctxm.Process(target=unit_proc, args=(b, u, dropped, timeout, dl)); p.start(); b.close()
            run.append((u, p, a, time.time(), dl))
        for x in list(run):
            u, p, a, t0, dl = x
            if a.poll(0.05):
                try: res[u.name] = a.recv()
                except EOFError: res[u.name] = {'obls': [], 'error': 'the prover process died', 'assumptions': []}
                res[u.name]['wall'] = round(time.time() - t0, 2)
                p.join(2); run.remove(x)
            elif not p.is_alive():
                res[u.name] = {'obls': [], 'error': 'the prover process died', 'assumptions': [], 'wall': round(time.time() - t0, 2)}; run.remove(x)
            elif time.time() > dl + 20:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
                p.join(2); res[u.name] = {'obls': [], 'error': 'no answer from the prover within %d s' % (dl - t0), 'timeout': True, 'assumptions': [], 'wall': round(time.time() - t0, 2)}; run.remove(x)
    return res

def ok(r): return r is not None and not r.get('error') and len(r['obls']) > 0 and all(o['status'] == 'proved' for o in r['obls'])

def prove(pid, tier, jobs, stop_at, abort=None):
    from dv import props
    units = props.UNITS[pid]()
    timeout = 4000 if tier == 'quick' else 15000
    limit = 200 if tier == 'quick' else 1500
    dropped = set()
    res = run_units(units, dropped, timeout, limit, jobs, stop_at, abort)
    # once more, with longer solver timeouts, before anything is called unproved
    again = [u for u in units if not ok(res[u.name]) and not res[u.name].get('unsupported')]
    again = [u for u in again if res[u.name].get('error') or not any(o['status'] == 'refuted' for o in res[u.name]['obls'])]
    if abort and abort(): return units, res, dropped
    if again and time.time() < stop_at - 30:
        r2 = run_units(again, dropped, 3 * timeout, limit, max(1, jobs // 2), stop_at, abort)
        for k, v in r2.items():
            if ok(v): v['retried'] = True; res[k] = v
    # internal helpers whose own contract does not hold are expanded in place instead
    bad = [u for u in units if u.helper and not ok(res[u.name])]
    if bad and time.time() < stop_at - 30:
        dropped = {u.key for u in bad}
        for u in bad: res[u.name]['dropped'] = True
        rest = [u for u in units if u not in bad]
        r2 = run_units(rest, dropped, timeout, limit, jobs, stop_at, abort)
        res.update(r2)
        # helpers that themselves rely on a dropped helper
        bad2 = [u for u in rest if u.helper and not ok(res[u.name])]
        if bad2 and time.time() < stop_at - 30:
            dropped |= {u.key for u in bad2}
            for u in bad2: res[u.name]['dropped'] = True
            rest = [u for u in rest if u not in bad2]
            res.update(run_units(rest, dropped, timeout, limit, jobs, stop_at, abort))
    return units, res, dropped

# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = {}
    try: txt = open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')).read()
    except Exception: return out
    for l in txt.splitlines():
        l = l.strip()
        if l.startswith('known:'):
            w = l[6:].split(None, 2)
            if w[0] == 'property=' + pid: out[w[1].split('=', 1)[1]] = w[2] if len(w) > 2 else ''
    return out

def main(argv):
    if argv and argv[0] == '--replay': return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    T0 = time.time()
    stop_at = T0 + (330 if tier == 'quick' else 5400)
    from dv import props
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    known = known_findings(pid)
    viol = []
    b = Build(); builds = [b]; orc = None
    def emit(kind, payload, msg, suffix=''):
        p = os.path.join(ev, 'replay', '%s_%d.json' % (pid, len(viol)))
        json.dump(dict(payload, property=pid, kind=kind, message=msg), open(p, 'w'), indent=1, default=str)
        viol.append(p); print('VIOLATION property=%s replay=%s%s' % (pid, p, suffix), flush=True)
    try:
        props.prepare(pid, REPO)              # AST of the working tree, shared by the forked provers
        built = b.wait()
        rtinfo = {}; fails = []; kn = []; errs = []
        has_rt = os.path.exists(os.path.join(HERE, 'rt', pid + '.py'))
        nrt = 2
        if not built: errs.append('the extension does not build: ' + str(b.err))
        elif has_rt: orc = Oracle(pid, b, seed, props.BUDGET.get(pid, 20) * (1 if tier == 'quick' else 15), nrt if tier == 'quick' else 3, tier, known)
        units, res, dropped = prove(pid, tier, max(2, NCPU - nrt), stop_at, (lambda: time.time() > T0 + 45 and orc.failing()) if orc else None)
        tp = time.time() - T0
        if orc: rtinfo, fails, kn, errs2 = orc.wait(); errs += errs2
        required = [u for u in units if u.name not in [x.name for x in units if res[x.name].get('dropped')]]
        bad = [u for u in required if not ok(res[u.name])]
        if props.ASAN.get(pid) and built and not fails:
            ba = Build(asan=True); builds.append(ba)
            if ba.wait():
                o2 = Oracle(pid, ba, seed + 7, props.ASAN[pid] * (1 if tier == 'quick' else 10), 4, tier, known)
                i2, f2, k2, e2 = o2.wait(); fails += f2; kn += k2; errs += e2
                rtinfo['evaluations_under_address_sanitizer'] = i2['evaluations']
        if (bad or errs) and built and has_rt and not fails and not errs:
            # an obligation failed: search harder for an input that shows it
            o2 = Oracle(pid, b, seed + 100, 60 if tier == 'quick' else 300, 7, tier, known)
            i2, f2, k2, e2 = o2.wait(); fails += f2; kn += k2; errs += e2
            for k in ('evaluations', 'distinct_nontrivial'): rtinfo[k] = rtinfo.get(k, 0) + i2[k]
        for key, what in sorted(known.items()):
            hit = [x for x in kn if x[0] == key]
            if hit: print('KNOWN-FINDING: property=%s %s' % (pid, what), flush=True)
        seen = set()
        for case, msg in fails:
            k = msg.split(':')[0][:60]
            if k in seen: continue
            seen.add(k)
            if len(viol) < 3:
                emit('input', {'case': case, 'how': 'python3-vt -m dv.check --replay <this file> (in /verif)',
                               'failed_obligations': failed_list(bad, res)}, msg)
        if bad and not fails:
            emit('obligation', {'failed_obligations': failed_list(bad, res), 'verifier_output': {u.name: res[u.name] for u in bad}},
                 'the verifier does not accept: ' + '; '.join(failed_list(bad, res))[:1500], ' no-failing-input-found')
        if not built and not viol:
            emit('build', {'output': b.err}, 'the extension does not build', ' no-failing-input-found')
        # ---------------- evidence
        allo = [o for u in required for o in res[u.name]['obls']]
        ass = sorted(set(a for u in units for a in res[u.name].get('assumptions', [])) | set(props.ASSUME.get(pid, [])) | set(props.ASSUME_ALL))
        by = {}
        for o in allo:
            if o['status'] == 'proved': by[o['backend'] or 'simplifier'] = by.get(o['backend'] or 'simplifier', 0) + 1
        e = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
             'coverage': {'obligations': len(allo), 'discharged': sum(o['status'] == 'proved' for o in allo),
                          'checker_cmd': 'VERIF_TIER=%s python3-vt -m dv.check %s' % (tier, pid),
                          'trusted_base': sorted(set(t for u in units for t in res[u.name].get('trusted', [])) | set(props.TRUSTED_ALL)),
                          'functions_under_contract': {u.name: {'obligations': len(res[u.name]['obls']), 'discharged': sum(o['status'] == 'proved' for o in res[u.name]['obls']),
                                                                'where': u.where, 'wall_s': res[u.name].get('wall'), 'solver_s': round(sum(o['time'] for o in res[u.name]['obls']), 2),
                                                                'expanded_in_place_instead': bool(res[u.name].get('dropped')), 'error': res[u.name].get('error')} for u in units},
                          'discharged_by': by, 'kinds': count(o['kind'] for o in allo), 'proof_wall_s': round(tp, 1),
                          'bounded_cross_check_on_the_real_code': dict(rtinfo, errors=errs, known_findings_hit=len(kn), note='bounded: executable contracts on the built code; not counted as proved'),
                          'samples': [o['name'] for o in allo[:6]]},
             'assumptions': ass, 'wall_s': round(time.time() - T0, 1), 'violations': len(viol)}
        json.dump(e, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
        if errs and not viol:
            print('ERROR property=%s %s' % (pid, ' | '.join(errs)[:2000]), flush=True)
            return 2
        print('%s: %d obligations, %d discharged in %d functions; %s executable-contract evaluations; %.1f s' % (pid, len(allo), e['coverage']['discharged'], len(required), rtinfo.get('evaluations', 0), time.time() - T0))
        return 1 if viol else 0
    finally:
        for x in builds: x.close()

def failed_list(bad, res):
    out = []
    for u in bad:
        r = res[u.name]
        if r.get('error'): out.append('%s: %s' % (u.name, r['error'][:300]))
        out += ['%s: %s [%s]' % (u.name, o['name'], o['status']) for o in r['obls'] if o['status'] != 'proved'][:6]
        if not r.get('error') and not r['obls']: out.append('%s: no obligation was generated' % u.name)
    return out

def count(it):
    d = {}
    for x in it: d[x] = d.get(x, 0) + 1
    return d

def replay(path):
    d = json.load(open(path)); pid = d['property']
    if d.get('kind') != 'input':
        print(json.dumps(d, indent=1)[:4000]); return 1
    from dv import props
    b = Build(asan=bool(props.ASAN.get(pid)))
    try:
        if not b.wait(): print('the extension does not build:', b.err); return 2
        t = tempfile.mkdtemp(prefix='dvrp'); cf = os.path.join(t, 'case.json'); json.dump(d['case'], open(cf, 'w'))
        o = Oracle(pid, b, 1, 60, 0, 'quick', known_findings(pid)); o.workers = 1
        o.start(0, 1, 60, 'quick', {}, cf)
        info, fails, kn, errs = o.wait()
        for c, m in fails: print('VIOLATION property=%s replay=%s\n%s' % (pid, path, m))
        for e in errs: print(e)
        print('reproduced' if fails else 'not reproduced on this tree')
        return 1 if fails else 0
    finally: b.close()

if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
