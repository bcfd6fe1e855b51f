PROP = 'C11'
UNITS = [dict(cpp='C11.cpp', sources=['core/device.cpp', 'utils/except.cpp', 'utils/log.cpp'], flags=('-fno-sanitize=bounds,enum',), defaults=dict(mode='bv'), harness=dict(text=dict(weight=9, mode='int')))]
EXPLANATION = 'Device comparison, hashing and text over all 8-byte names and 32-bit ids; element type tables over the whole enumeration.'
ASSUMPTIONS = ['device names obey the representation invariant proved by name_invariant (characters followed by zero padding)', 'device text proved for |id| < 1000 (symbolic), exercised natively for all ids']
LEVEL_NOTE = 'Equality, strict total order (trichotomy, transitivity over all triples), hashing and the dtype tables proved for all names and ids. Text form proved for every name and |id|<1000. Trusts the VC generator and solvers.'
