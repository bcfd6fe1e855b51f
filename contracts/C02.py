PROP = 'C02'
UNITS = [dict(cpp='C02.cpp', sources=['utils/except.cpp', 'utils/log.cpp'], flags=('-fno-sanitize=bounds',), defaults=dict(mode='int'))]
EXPLANATION = 'HypeShape and ShapeIterator for every rank 0..7 and every extent; index arithmetic proved over unbounded integers together with no-overflow obligations at the declared 32-bit width.'
ASSUMPTIONS = ['every suffix product of the extents is representable in int (the library keeps element counts in int)',
               'coordinates given to to_index have the rank of the shape and lie inside it']
LEVEL_NOTE = 'All ranks 0..7, all extents and coordinates symbolic; nonlinear facts discharged with lemma contracts inside the harness. Shapes whose element count overflows int are outside the precondition. Trusts the VC generator and solvers.'
