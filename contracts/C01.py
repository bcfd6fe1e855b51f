PROP = 'C01'
UNITS = [dict(cpp='C01.cpp', sources=['utils/except.cpp', 'utils/log.cpp'], flags=('-fno-sanitize=bounds',),
              harness={'string_compare': dict(mode='bv')})]
EXPLANATION = 'otl::vector<int,7,int> (ts::Shape) and otl::string<8> (DeviceType): every public operation against the sequence it denotes; lengths/positions are case-split over their whole range 0..capacity (and beyond), element values symbolic.'
ASSUMPTIONS = ['instantiations proved: vector<int,7,int> and string<8>, the ones the library uses for shapes and device names',
               'insertion/erasure positions are inside the sequence (begin()..end()), as for the equivalent unbounded sequence']
LEVEL_NOTE = ('Every public operation of the shape vector and the device-name string proved against the sequence it denotes: all lengths and positions enumerated symbolically-exhaustively, '
              'all element values symbolic, memory safety of every access included. Trusts the VC generator, clang -O0, z3/cvc5 and the modelled logging/exception runtime.')
