PROP = 'C21'
UNITS = [dict(cpp='C21.cpp', sources=['utils/box.cpp'], defaults=dict(mode='int'),
  harness=dict(tiles_int=dict(bounded='bins 2..9 (first, second unbounded)'), tiles_long=dict(bounded='bins 2..9 (first, second unbounded)'), tiles_small=dict(native_only=True)))]
EXPLANATION = 'split_bins and lsplit_bins: every first/second of the whole int (64-bit: below 2^63) range.'
ASSUMPTIONS = ['lsplit_bins: range ends below 2^63']
LEVEL_NOTE = 'Empty and single-bin cases proved for every input; bin counts 2..9 proved for every first and second with the loop unwound (bounded); other bin counts only as run-time contract runs. Trusts the VC generator and solvers.'
