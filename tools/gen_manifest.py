#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
    'R01': 'a quantitative floating-point error bound: the verifier here reads machine floats as exact reals; no installed deductive verifier for Rust (verus, kani, creusot-style back ends) carries a relative-error semantics for f32/f64 through sqrt, division and trigonometric calls, so no contract within reach can state it',
    'R02': 'termination of the simplex iteration has no variant function that the contracts can express: convergence depends on the distance to the origin shrinking by an amount that is not bounded below for touching spheres; partial correctness of the same loop is S11',
}
EXTRA = {}
import sys
claimed = sys.argv[1:] or json.load(open(V + '/tools/claimed.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i not in claimed:
        na.append({'property': i, 'reason': 'not yet under contract'})
    else:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification of the compiled code (weakest-precondition style path obligations, SMT and polynomial back ends)',
            'level': 'proof',
            'level_note': 'every obligation generated from the current source is discharged for all inputs, with floats read as exact real numbers extended by NaN and infinities (no rounding, overflow or signed zero); trusted: rustc/llc, the IR instrumentation, the symbolic engine, z3/cvc5, the listed axioms of sin, cos, acos, ln, exp. ' + EXTRA.get(i, ''),
        })
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py replay.py tools/*.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'see DESIGN.md; known_findings.txt lists the repaired defects'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
