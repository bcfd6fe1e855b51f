PROP = 'C04'
T = ['core/tensor.cpp', 'core/memory.cpp', 'core/hard_memory.cpp', 'core/device.cpp', 'core/controller.cpp', 'global/hard_allocator.cpp', 'global/hard_converter.cpp',
     'global/memory_device.cpp', 'kernels/cpu/memory_cpu.cpp', 'utils/except.cpp', 'utils/log.cpp',
     'core/sync/*.cpp', 'core/tensor_builder.cpp', 'module/bubble.cpp', 'module/header.cpp', 'module/io/*.cpp', 'utils/ctxmgr*.cpp']
UNITS = [dict(cpp='C04.cpp', sources=T, keep_ctors=('core/tensor.cpp', 'kernels/cpu/memory_cpu.cpp', 'module/bubble.cpp'),
              defaults=dict(mode='bv', max_unroll=400, max_paths=60000, bounded='tensors of at most 4 elements and 3 fields, every element type; every byte symbolic'),
              harness=dict(tensor=dict(weight=6), packed=dict(weight=6), prototype={}, sequence={}, file=dict(weight=4), string={}, header=dict(bounded=None),
                           bubble_wide=dict(tier='thorough', weight=9, bounded='as bubble, with every combination'),
                           bubble=dict(weight=9, bounded='texts of at most 2 characters, shapes of rank at most 2, at most 2 parameters of the listed names; characters, extents and values symbolic'),
                           bubble_copy=dict(weight=9, bounded='texts of at most 2 characters, shapes of rank at most 2, at most 2 parameters of the listed names; characters, extents and values symbolic')))]
LEVEL = 'other'
EXPLANATION = """serialize/externalize of Tensor, Header and Bubble run over a stream that keeps exactly what is written (contracts/memstream.h), with
every data byte, character, extent and parameter value symbolic: type, shape, fields and bytes read must equal those written, the reported sizes must
equal the bytes that moved, a sentinel behind the data must stay unread, and reading over an old value must leave nothing of it. tensor::save/load run
over the ghost file system. Bubble copies, moves and every constructor/accessor are under the same equality."""
LEVEL_NOTE = 'bounded structure (ranks, field and parameter counts), all contents symbolic'
ASSUMPTIONS = ['streams transfer everything asked for (no I/O errors)', 'fields of a packed tensor are not packed themselves', 'parameters are set under names known to the contract']
