CHECKS = {
    'K19': ('linsys', 'run'),
    'K17': ('splinex', 'variables'),
    'K18': ('target', 'run'),
    'K16': ('exprs', 'nodes'),
    'K15': ('spline', 'poses'),
    'K14': ('spline', 'curves'),
    'K13': ('kin', 'transformations'),
    'K12': ('kin', 'rotations'),
    'K11': ('jac', 'rays'),
    'K10': ('jac', 'derivatives'),
    'K09': ('optimize', 'typestate'),
    'K08': ('weight', 'weighting'),
    'K07': ('errors', 'error_terms'),
    'K06': ('nodes', 'nodes'),
    'K05': ('serial', 'roundtrip'),
    'K04': [('history', 'derived'), ('derived', 'caches')],
    'K03': [('history', 'layout'), ('camera', 'layout')],
    'K01': [('history', 'revert'), ('dv', 'revert')],
    'K02': [('history', 'values'), ('dv', 'values')],
}
