PROP = 'C06'
T = ['core/tensor.cpp', 'core/memory.cpp', 'core/hard_memory.cpp', 'core/device.cpp', 'core/controller.cpp', 'global/hard_allocator.cpp', 'global/hard_converter.cpp',
     'global/memory_device.cpp', 'kernels/cpu/memory_cpu.cpp', 'utils/except.cpp', 'utils/log.cpp', 'memory/flow.cpp', 'memory/orz/*.cpp']
UNITS = [dict(cpp='C06.cpp', sources=T, keep_ctors=('core/tensor.cpp', 'kernels/cpu/memory_cpu.cpp'), defaults=dict(mode='bv', opaque_text=True, max_unroll=200, max_paths=50000),
              harness=dict(pool_step=dict(weight=3, bounded='pools of at most 3 free and 2 used blocks, any capacities and order; request sizes symbolic'),
                           pool_history=dict(bounded='4 operations from the empty pool; request sizes symbolic'),
                           pool_history_long=dict(tier='thorough', bounded='5 operations from the empty pool; request sizes symbolic'),
                           pool_move=dict(bounded='at most 1 free and 1 used block'),
                           hard=dict(weight=9, bounded='2 operations on blocks of at most 4 bytes, allocator failures included; bytes symbolic'),
                           hard_assign=dict(bounded='blocks of at most 2 bytes'), allocators=dict(bounded='blocks of at most 4 bytes; bytes symbolic'),
                           controller=dict(weight=6, bounded='4 operations, memories of at most 3 bytes; bytes symbolic'),
                           fill=dict(bounded='at most 9 bytes filled with patterns of at most 9 bytes; bytes symbolic'),
                           copy=dict(bounded='memories of at most 4 bytes; requested size and bytes symbolic')))]
EXPLANATION = """Vat: invariant "every free or used block owns its own unreleased memory at least as large as its capacity, used blocks are known by
their address and are as large as requested, memory is released exactly once" is shown to be kept by one arbitrary operation (malloc of any size,
free of any block, free of unknown/inner/returned addresses, reset, clean, deprecated, dispose, move) from every pool of at most 3 free and 2 used
blocks of any capacities in any order, plus histories from the empty pool; a ghost allocator hands out disjoint memory and counts releases.
HardMemory: sequences of expect/shrink/resize/dispose/move/swap over an allocator that checks the protocol and may fail; bytes, sizes and block
counts are compared. cpu_allocator, HardAllocator::Bind/RegisterV2, VatMemoryController, memcpy and memset are under contract as well."""
LEVEL_NOTE = 'one step from every small pool state (inductive over histories within the state bound); sizes symbolic'
LEVEL = 'other'
ASSUMPTIONS = ['the underlying allocator hands out disjoint memory of the requested size', 'one thread']
