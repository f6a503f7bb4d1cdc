"""writes MANIFEST.json from props/*.py and properties.jsonl (run by hand after a property is added)"""
import json, os, importlib, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from na import NA
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'props', i + '.py')) and i not in NA:
        m = importlib.import_module('props.' + i)
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification: contracts on the C++ functions, verification conditions generated from their LLVM IR on every run, '
                                             'discharged by z3 / cvc5; a bounded differential replay on the real library supplies failing inputs'),
                           level=getattr(m, 'LEVEL', 'proof'), level_note=getattr(m, 'NOTE', '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract within reach yet; see DESIGN.md')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.exit(0)"', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
