#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the rule table."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import table  # noqa: E402

TECH = {
    'spec': 'gated value-graph normal forms compared with a reference definition',
    'outputs': 'def/untouched analysis on the value graph',
    'memory': 'memory-access obligations on the value graph',
    'svdmem': 'the same for the SVD: up to the iteration and for one turn from an arbitrary state',
    'alias': 'value-graph comparison of aliased and distinct calls',
    'sibling': 'value-graph equivalence of sibling routines',
    'ranges': 'interval evaluation of value-graph leaves',
    'purity': 'mod/ref and call-graph effect analysis with points-to sets',
    'threads': 'static-storage and thread-local analysis of the thread-safe configuration',
    'terminates': 'loop-structure (ranking) and recursion analysis',
    'precision': 'type/precision flow analysis over live IR',
    'linsys': 'value-graph algebra (M*inverse = I, Leibniz determinant)',
    'bigsys': 'folding of the elimination over fixed matrices, symbolic right-hand sides',
    'conditioning': 'path-sensitive rule against ill-conditioned inverse functions',
    'access': 'closed forms of all accessors of the public value types',
    'history': 'closed forms of call histories, the standard-library engine opaque',
    'factor': 'algebraic invariants of the closed form of one loop turn (identity testing of closed forms by region)',
    'version': 'constant propagation of both version reports',
}
NOTE = {
    'value': 'Decides the closed normal form of every output for all argument values at once; real arithmetic, libm functions with their mathematical '
             'meaning, coefficients matched to 4e-12 (1.5e-7 for single-precision routines). Trusts clang\'s IR and the reference definitions in spec/.',
    'ir': 'Whole-program analysis of the linked IR of every translation unit; trusts clang\'s IR and the listed effects of libc/libm functions.',
}
NA = {
    'C36': 'whether the adaptive quadrature meets the requested accuracy depends on run-time error estimates of an integral with no closed form',
}
checks = []
for pid in sorted(table.PROPS):
    kinds = list(dict.fromkeys(i[0] for i in table.PROPS[pid]))
    ir = all(k in ('purity', 'threads', 'terminates', 'precision', 'version') for k in kinds)
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='python3 check.py %s --tier=thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique='; '.join(TECH.get(k, k) for k in kinds), level='other',
                       level_note=NOTE['ir' if ir else 'value']))
m = dict(version=1, setup_cmd='python3 -m compileall -q engine check.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks: /repo carries only fix: commits. All checks share check.py; see DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
