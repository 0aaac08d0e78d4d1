"""Writes /verif/MANIFEST.json from contracts/index.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = json.load(open(f'{V}/contracts/index.json'))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA = json.load(open(f'{V}/vc/na.json'))
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd=f'python3-vt vc/run.py {i} quick', thorough_cmd=f'python3-vt vc/run.py {i} thorough',
        technique='deductive verification: contracts on the real C++ (LLVM IR), VCs discharged by z3/cvc5', level=idx[i].get('level', 'proof'),
        level_note=idx[i].get('note', 'Every obligation of the listed contracts is discharged for all inputs and iterations; doubles are treated as reals, ints as unbounded, std::vector by its standard contract; the same contracts run natively as a floating-point cross-check.')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && which clang++-18 opt-18 cvc5 z3-new', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='Contracts are the drivers in contracts/*.cc, compiled with the current /repo source on every run; vc/ is the verification-condition generator. See DESIGN.md.'), open(f'{V}/MANIFEST.json', 'w'), indent=1)
