PROP = 'C13'
UNITS = [dict(cpp='C13.cpp', sources=['utils/except.cpp', 'utils/log.cpp'], defaults=dict(mode='bv', fp='ieee', rand=0.5),
              harness={**{'%s_%d' % (o, w): dict(mode='int', fp='uf') for o in ('mul', 'div') for w in (8, 16, 32)}, **{'%s_%d' % (o, w): dict(weight=9) for o in ('from_double', 'from_float', 'round_trip_real', 'to_real') for w in (8, 16, 32)}, **{'%s_%d_all' % (o, w): dict(tier='thorough', weight=9) for o in ('from_double', 'from_float', 'to_real') for w in (8, 16, 32)}})]
EXPLANATION = 'ts::sink<T,Q> for 8, 16 and 32 bit storage: all raw bit patterns, all in-range integers and reals symbolic.'
ASSUMPTIONS = ['real-number conversions: the quick tier proves Q=3,7 (8 bit), 8 (16 bit), 16 (32 bit), the thorough tier every listed Q; everything else every listed Q in both tiers', 'instantiations proved: sink8 Q=0..7 (all the library defines), sink16 Q in {0,5,8,13}, sink32 Q in {0,16,24}', 'results outside the representable range are outside the contract (the library wraps on purpose)']
LEVEL_NOTE = 'Bit-precise proofs (integers as bit vectors, float/double in the IEEE theory). Trusts the VC generator and solvers.'
