"""Which harnesses decide which property, with the bounds of each tier."""
SPEC = {
    'C01': {'harnesses': [('c01_components', {}, {}), ('c01_settings', {}, {}), ('c01_missing', {}, {})],
            'covers': {'c01_components': ['described', 'after another'], 'c01_settings': ['settings'], 'c01_missing': ['incomplete', 'complete']}},
    'C02': {'harnesses': [('c02_legacy', {}, {})], 'covers': {'c02_legacy': ['legacy', 'described']}},
    'C04': {'harnesses': [('c04_sinusoidal', {}, {}), ('c04_rhombic', {}, {})],
            'covers': {'c04_sinusoidal': ['derivative'], 'c04_rhombic': ['derivative']}},
    'C05': {'harnesses': [('c05_sinusoidal', {}, {}), ('c05_rhombic', {}, {})],
            'covers': {'c05_sinusoidal': ['sinusoidal'], 'c05_rhombic': ['rhombic']}},
    'C06': {'harnesses': [('c06_helium', {}, {}), ('c06_hydrogen', {}, {})],
            'covers': {'c06_helium': ['consistency'], 'c06_hydrogen': ['consistency']}},
    'C16': {'harnesses': [('c16_chx', {}, {}), ('c16_hhx', {}, {}), ('c16_regen', {}, {})],
            'covers': {n: ['approach'] for n in ('c16_chx', 'c16_hhx', 'c16_regen')}},
    'C21': {'harnesses': [('c21_run_engine', {'points': 2, 'wrap': 150}, {'points': 3, 'wrap': 150})],
            'covers': {'c21_run_engine': ['both succeed', 'both fail in the inner loop', 'both fail in the outer loop']}},
    'C03': {'harnesses': [('c03_arguments', {'inner': 2, 'outer': 2, 'long_inner': 42, 'long_outer': 22}, {'inner': 3, 'outer': 3, 'long_inner': 60, 'long_outer': 30})],
            'covers': {'c03_arguments': ['result', 'settles later', 'does not settle', 'no steady state', 'fails']}},
    'C10': {'harnesses': [('c10_convergence', {'inner': 2, 'outer': 2, 'long_inner': 42, 'long_outer': 22}, {'inner': 3, 'outer': 3, 'long_inner': 60, 'long_outer': 30})],
            'covers': {'c10_convergence': ['settled', 'not settled']}},
    'C11': {'harnesses': [('c11_outcome', {'inner': 2, 'outer': 2, 'long_inner': 42, 'long_outer': 22}, {'inner': 3, 'outer': 3, 'long_inner': 60, 'long_outer': 30})],
            'covers': {'c11_outcome': ['settles', 'settles later', 'does not settle', 'no steady state', 'fails']}},
    'C07': {'harnesses': [('c07_mass', {'points': 2, 'systems': 8}, {'points': 2, 'systems': 8})],
            'covers': {'c07_mass': ['balance']}},
    'C08': {'harnesses': [('c08_energy', {'points': 2, 'systems': 8}, {'points': 2, 'systems': 8})],
            'covers': {'c08_energy': ['adiabatic', 'heat flow']}},
    'C12': {'harnesses': [('c12_averages', {'points': 4}, {'points': 5})], 'covers': {'c12_averages': ['first iteration', 'second iteration', 'not settled']}},
    'C13': {'harnesses': [('c13_temperatures', {}, {}), ('c13_order', {}, {})],
            'covers': {'c13_temperatures': ['initial approaches', 'updated approaches', 'not settled'], 'c13_order': ['order']}},
    'C14': {'harnesses': [('c14_power', {'points': 4}, {'points': 6})], 'covers': {'c14_power': ['power']}},
    'C15': {'harnesses': [('c15_heat', {'points': 4}, {'points': 6})], 'covers': {'c15_heat': ['heat']}},
    'C17': {'harnesses': [('c17_series', {'points': 5}, {'points': 8})], 'covers': {'c17_series': ['series']}},
    'C19': {'harnesses': [('c19_questions', {'points': 4}, {'points': 5})], 'covers': {'c19_questions': ['asked', 'asked again', 'not settled']}},
    'C20': {'harnesses': [('c20_resolution', {'points': 21, 'larger': 1}, {'points': 31, 'larger': 3}), ('c20_large', {}, {})], 'covers': {'c20_large': ['many points'], 'c20_resolution': ['resolution', 'inner points']}},
    'C22': {'harnesses': [('c22_directions', {'points': 3, 'systems': 8}, {'points': 3, 'systems': 12})], 'covers': {'c22_directions': ['verified', 'later point']}},
}

SPEC['C18'] = {'harnesses': [('c18_lu', {'sizes': 1, 'plain': 1}, {'sizes': 5, 'plain': 1}), ('c18_others', {'sizes': 5, 'plain': 1}, {'sizes': 5, 'plain': 1})], 'covers': {'c18_lu': ['LU'], 'c18_others': ['QR', 'SVD']}}
SPEC['C23'] = {'harnesses': [('c23_finite', {'points': 2}, {'points': 3})], 'covers': {'c23_finite': ['finite']}}

SPEC['C24'] = {'harnesses': [('c24_independent', {}, {})], 'covers': {'c24_independent': ['other run fails', 'succeeds twice', 'fails twice']}}
REALS = 'floating point values are reals: rounding is not modelled; undefined and infinite results of divisions, logarithms and roots are'
INTEGRATOR = 'integrator: any trajectory within the given box at the requested output times, or a failure (stub of ode_solvers)'
LINEAR = 'linear solver: any solution of the system it is given, or a failure (stub of the 10 x 10 decompositions)'
FLOWS = 'linear solver: any flows and rates within the given box'
def note(ids, assumptions, outside):
    for k in ids.split():
        SPEC[k].setdefault('assumptions', []).extend(assumptions)
        SPEC[k].setdefault('outside', []).extend('outside: ' + x for x in outside)
note(' '.join(k for k in SPEC if k not in ('C18', 'C20')), [REALS], [])
note('C03 C10 C11 C12 C13 C14 C15 C17 C19 C20 C21 C23 C24 C07 C08 C22', [INTEGRATOR], ['histories longer than the iteration limits in the bounds', 'cycles of more points than in the bounds'])
note('C07 C08 C22', [LINEAR], ['more solved systems per run than in the bounds'])
note('C12 C13 C14 C15 C17 C19 C23 C24', [FLOWS], [])
note('C03 C10 C11 C20', ['flows are constants; they do not enter the property'], [])
note('C01 C02 C21', ['configurations arrive through the serde data model with symbolic numbers'], ['the text formats', 'component models and fluids without an implementation'])
note('C04 C05', [], ['moments outside the first, second and thirteenth cycle', 'drives whose linkage does not close'])
note('C16', [], ['conductances and flows outside the ranges given'])
note('C18', ['real arithmetic; iterations of the singular value decomposition run on the concrete matrix'], ['other operating points than 10 MPa, 360 K and 830 K', 'rounding errors'])
note('C24', [], ['other runs with other components than those of the harness', 'runs at the same time in several threads'])
note('C20', ['every operation on values which depend on the frequency has a relative error of at most 2^-53'], ['numbers of points other than listed in the bounds'])

NOT_APPLICABLE = {
    'C30': 'the accuracy of the trajectory is a property of the Runge-Kutta integrator of the ode_solvers crate over a continuum of unbounded adaptive steps; no bounded encoding of it decides it',
    'C31': 'termination has no bound: the loops over iterations are bounded by construction (C11), the number of integrator steps is not decidable by a bounded encoding',
    'C32': 'needs floating point rounding of sequences of decompositions and divisions over 10 x 10 systems; the bit-precise encoding is out of reach of the solvers, the encoding used is over the reals',
}
