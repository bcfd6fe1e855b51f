PROP = 'C07'
T = ['core/tensor.cpp', 'core/memory.cpp', 'core/hard_memory.cpp', 'core/device.cpp', 'core/controller.cpp', 'global/hard_allocator.cpp', 'global/hard_converter.cpp',
     'global/memory_device.cpp', 'kernels/cpu/memory_cpu.cpp', 'utils/except.cpp', 'utils/log.cpp']
UNITS = [dict(cpp='C07.cpp', sources=T, keep_ctors=('core/tensor.cpp', 'kernels/cpu/memory_cpu.cpp'), defaults=dict(mode='bv', max_unroll=200, max_paths=50000),
              harness=dict(smart_step=dict(weight=9), sync_step=dict(weight=8, bounded='at most 4 devices, 3 handles; values symbolic'),
                           smart_chain=dict(bounded='chains of at most 3 objects'), sync_locked=dict(bounded='at most 4 devices; values symbolic'),
                           sync_memory=dict(bounded='2 devices, blocks of at most 6 bytes; bytes symbolic')))]
EXPLANATION = """Smart: class invariant use_count = number of owning handles (symbolic number of handles elsewhere), one arbitrary operation
(copy/move construction and assignment, self assignment, swap, destruction, dispose, weak/strong) from every way three handles can share or not
share objects, so by induction every sequence; destructor calls are counted. SyncBlock: from every set of devices already holding a copy, any
write+broadcast through any handle, then every handle reads every device."""
LEVEL_NOTE = 'Smart: all operation sequences (inductive). SyncBlock/SyncMemory: bounded number of devices/handles, symbolic values. Concurrent use is not covered (C22)'
ASSUMPTIONS = ['a write becomes visible to other devices at broadcast(), as documented', 'weak handles are not used after the object died']
