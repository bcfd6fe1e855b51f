PROP = 'C03'
UNITS = [dict(cpp='C03.cpp', sources=['core/tensor.cpp', 'core/memory.cpp', 'core/hard_memory.cpp', 'core/device.cpp', 'core/controller.cpp', 'global/hard_allocator.cpp', 'global/hard_converter.cpp', 'global/memory_device.cpp', 'kernels/cpu/memory_cpu.cpp', 'utils/except.cpp', 'utils/log.cpp'],
  keep_ctors=('core/tensor.cpp', 'kernels/cpu/memory_cpu.cpp'), defaults=dict(mode='int'))]
EXPLANATION = 'Tensor::reshape, flatten, slice, field, pack, unpack, refield, weak, strong, view and the prototype accessors run on real Tensor objects over a block of exactly count * width bytes; extents, requested extents and indices are unbounded integers with overflow obligations. Static initialisers (empty-tensor singleton, CPU allocator and converter tables) are executed from their real code before each contract.'
ASSUMPTIONS = ['source tensor rank 0..4 (reshape: 0..3), requested rank 0..4 for reshape, element types of width 1, 4, 8 and 16',
               'packed tensors: up to 4 fields with extents 0..4']
LEVEL_NOTE = 'Every extent, requested extent and index symbolic over the whole int range; ranks enumerated as listed in the assumptions, field counts up to 4. CPU device only. Trusts the VC generator, solvers and the reference bodies of std::map and shared_ptr internals.'
