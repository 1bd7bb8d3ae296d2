"""Write MANIFEST.json from spec.py."""
import json, os
import spec
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the compiled crate (LLVM IR) with decision diagrams over real terms, goals and implied branches decided by z3'
NOTE = ('Holds for every value of the symbolic inputs within the bounds reported in the evidence, over real-number semantics of the compiled code; '
        'trusted: the executor (validated on every run against the native program), z3, the contracts of the stubbed ODE integrator and linear solver. ')
checks = []
for p in sorted(spec.SPEC):
    s = spec.SPEC[p]
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p,
                   'technique': TECH, 'level': 'model_checking', 'level_note': NOTE + s.get('note', '')})
na = [{'property': p, 'reason': r} for p, r in sorted(spec.NOT_APPLICABLE.items()) if p not in spec.SPEC]
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness crate uses the public API; nalgebra and ode_solvers are replaced by patched copies at build time.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
