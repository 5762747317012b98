import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = ('Holds for every real input of every program of the family (values, prior adjoints, seeds, constants and buffer contents symbolic; sizes, '
        'shapes and histories fixed per program). Assumes real arithmetic for double; trusts clang\'s IR, the executor and algebra in vp/, z3. '
        'Undecided claims, partially explored and non-compiling programs are listed in the evidence.')
m = {'version': 1,
     'setup_cmd': 'true',
     'checks': [{'property': p['id'],
                 'quick_cmd': './check.py --prop %s --tier quick' % p['id'],
                 'thorough_cmd': './check.py --prop %s --tier thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': 'symbolic execution of the LLVM IR of the real headers; z3 decides branches and value/adjoint equalities; counterexamples replayed natively',
                 'level': 'model_checking', 'level_note': NOTE} for p in props if p['id'] != 'N01'],
     'not_applicable': [{'property': 'N01', 'reason': 'IEEE rounding of compositions of exp/log/erf and matrix decompositions is beyond what SMT floating-point reasoning can encode here; the checks reason over the reals'}],
     'notes': 'See DESIGN.md. known_findings.json lists repaired defects.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
