PROP = 'C12'


# `arithmetic` uses the two conversions through their contracts: widen_* / narrow_single prove that each is a function of
# the argument bits only, so here they are that (uninterpreted) function of the bits.
def _widen(m, st, a, ins):
    import z3
    from llparse import INT
    c = m.load(st, a[0], INT(16))
    return m.uf('half_to_single', [m.sv(c, 16)], z3.BitVecSort(32))


def _narrow(m, st, a, ins):
    import z3
    from llparse import INT
    c = m.uf('single_to_half', [m.fv(a[1], 'float')], z3.BitVecSort(16))
    m.store(st, a[0], c, INT(16))


UNITS = [dict(cpp='C12.cpp', sources=['utils/except.cpp', 'utils/log.cpp'], defaults=dict(mode='bv', fp='uf'),
              harness=dict(small_integers_exact=dict(fp='ieee', weight=5), from_integer=dict(weight=5),
                           arithmetic=dict(weight=9, replace={r'^ts::ieee754_float<16ul, 1ul, 5ul, 10ul>::operator float\(\) const$': _widen,
                                                    r'^ts::ieee754_float<16ul, 1ul, 5ul, 10ul>::ieee754_float\(float\)$': _narrow})))]
EXPLANATION = 'ts::float16 (ieee754_float<16,1,5,10>): all 65536 / 2^32 / 2^64 bit patterns symbolic, bit-vector proofs.'
LEVEL_NOTE = 'Bit-precise proofs over all finite patterns (half, single and double); half infinities/NaN are outside the contract. float +,-,*,/ themselves are uninterpreted (the contract is that half arithmetic is the rounded single-precision operation). Trusts the VC generator and solvers.'
ASSUMPTIONS = ['infinities and NaN are excluded (the library saturates on purpose)', 'IEEE single precision + - * / are uninterpreted functions of the operand bits']
