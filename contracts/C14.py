PROP = 'C14'
_TS = ['core/tensor.cpp', 'core/memory.cpp', 'core/hard_memory.cpp', 'core/device.cpp', 'core/controller.cpp', 'global/hard_allocator.cpp', 'global/hard_converter.cpp', 'global/memory_device.cpp', 'kernels/cpu/memory_cpu.cpp', 'utils/except.cpp', 'utils/log.cpp', 'module/io/*.cpp']
_B = dict(bounded='0..9 elements per tensor (0..5 when one side is float16)')
UNITS = [dict(cpp='C14.cpp', sources=_TS + ['core/tensor_builder.cpp'],
  keep_ctors=('core/tensor.cpp', 'kernels/cpu/memory_cpu.cpp'), defaults=dict(mode='bv', fp='uf'),
  harness=dict([('from_' + t, _B) for t in 'bool i8 u8 i16 u16 i32 u32 i64 u64 f16 f32 f64 c8 c16 c32'.split()] +
    [(n, dict(bounded='up to 6 elements')) for n in ('build', 'vectors', 'bools', 'strings', 'same_type')]))]
EXPLANATION = 'tensor::cast for all 15 x 15 numeric type pairs with arbitrary element values (float16 pairs: one arbitrary element at every position), every unsupported pair, identity conversion and clone, tensor_builder, array::to_* and string tensors.'
ASSUMPTIONS = ['a floating value converted to an integer type has a representable truncation (otherwise C++ leaves the result undefined)', 'scalar float operations are uninterpreted (same operation, same operands, same result)']
LEVEL_NOTE = 'All type pairs and all element values; element counts bounded (they cover the unrolled body, its repetition and every remainder). Unsupported pairs and the type table are proved without a bound on values.'
