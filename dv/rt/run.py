"""python -m dv.rt.run ID OUT SEED BUDGET TIER WORKER WORKERS KNOWN [CASE]   (run with riptide's interpreter)
Evaluates the executable contract of a property on the built code."""
import sys, os, json, time, importlib, hashlib, traceback, warnings
warnings.filterwarnings('ignore')
import random, logging
logging.disable(logging.CRITICAL)

def main():
    pid, out, seed, budget, tier, w, nw, known = sys.argv[1:9]
    known = set(json.loads(known))
    rng = random.Random(int(seed))
    mod = importlib.import_module('dv.rt.' + pid)
    res = {'cases': 0, 'nontrivial': 0, 'fails': [], 'known': [], 'errors': [], 'rule': mod.RULE, 'samples': []}
    t0 = time.time(); seen = set(); t_last = t0
    if len(sys.argv) > 9: src = iter([json.load(open(sys.argv[9]))])
    else: src = mod.gen(rng, tier, int(w), int(nw))
    cur = out + '.cur'
    for case in src:
        if time.time() - t0 > float(budget): break
        js = json.dumps(case)
        with open(cur, 'w') as f: f.write(js)
        try: r = mod.check(case)
        except MemoryError as e: res['errors'].append('out of memory in the oracle'); break
        except Exception as e:
            res['fails'].append([case, 'unexpected exception: %s: %s' % (type(e).__name__, str(e)[:300]) + '\n' + traceback.format_exc()[-1500:]])
            r = None
            if len(res['fails']) >= 3: break
            continue
        res['cases'] += 1
        h = hashlib.md5(js.encode()).hexdigest()
        if h not in seen and mod.nontrivial(case): res['nontrivial'] += 1
        seen.add(h)
        if len(res['samples']) < 2: res['samples'].append(case)
        if r:
            if isinstance(r, tuple) and r[0] in known: res['known'].append([r[0], case, r[1]]); continue
            msg = r[1] if isinstance(r, tuple) else r
            res['fails'].append([case, msg])
            if len(res['fails']) >= 3: break
    json.dump(res, open(out + '.tmp', 'w')); os.replace(out + '.tmp', out)
    try: os.remove(cur)
    except OSError: pass
main()
