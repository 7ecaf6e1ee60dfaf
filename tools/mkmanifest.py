"""writes MANIFEST.json from dv/props.py and properties.jsonl"""
import sys, json
sys.path.insert(0, '/verif')
from dv import props
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = getattr(props, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in P:
    i = p['id']
    if i in props.UNITS and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3-vt -m dv.check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt -m dv.check ' + i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'contract-based deductive verification of the current source (symbolic execution against contracts, loop invariants, SMT-discharged obligations)',
            'level': 'proof', 'level_note': props.NOTE.get(i, props.NOTE_ALL)})
    else: na.append({'property': i, 'reason': NA.get(i, 'no contract for the functions of this property has been completed yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q dv && python3-vt -c "import dv.check, dv.props"', 'checks': checks, 'not_applicable': na,
  'notes': 'Every check verifies the working tree of /repo (clang AST / Python ast) on every run; bounded executable-contract runs on the freshly built code accompany each proof and supply failing inputs. No hooks in /repo.'},
  open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
