PROP = 'C05'
T = ['core/tensor.cpp', 'core/memory.cpp', 'core/hard_memory.cpp', 'core/device.cpp', 'core/controller.cpp', 'global/hard_allocator.cpp', 'global/hard_converter.cpp',
     'global/memory_device.cpp', 'kernels/cpu/memory_cpu.cpp', 'utils/except.cpp', 'utils/log.cpp',
     'core/sync/*.cpp', 'core/tensor_builder.cpp', 'module/*.cpp', 'module/loaders/*.cpp', 'module/io/*.cpp', 'utils/ctxmgr*.cpp', 'global/module_loader_factory.cpp', 'backend/name.cpp']
B = 'graphs of at most 3 nodes (4 and 5 where the name says so) with at most 2 inputs each, all wirings; names and parameter values symbolic'
UNITS = [dict(cpp='C05.cpp', sources=T, keep_ctors=('core/tensor.cpp', 'kernels/cpu/memory_cpu.cpp', 'module/bubble.cpp', 'module/loaders/open.cpp'),
              defaults=dict(mode='bv', max_unroll=400, max_paths=60000, bounded=B),
              harness=dict(order3=dict(weight=4), order4=dict(weight=9), order4_all=dict(tier='thorough', weight=9), order3_all=dict(tier='thorough', weight=9), module_all=dict(tier='thorough', weight=9), graph=dict(weight=4), module=dict(weight=9), module4=dict(tier='thorough', weight=9), again=dict(weight=5),
                           file=dict(weight=4), named=dict(weight=3), signature=dict(bounded='one network'), link=dict(weight=2, bounded='4 nodes, 2 links')))]
LEVEL = 'other'
EXPLANATION = """All graphs of the stated size (every wiring, nodes used several times, repeated outputs, outputs that are inputs, unreachable nodes, either
creation order) are built with the real Graph/Node code; list_reference_nodes must give every reachable node once and after its inputs; Save then Load
(both loaders, streams and files) must give an isomorphic network with the same ordered inputs and outputs and descriptions (names and parameter values
symbolic); header words are symbolic: rejected exactly when the signature differs or is cut off."""
LEVEL_NOTE = 'bounded graph size'
ASSUMPTIONS = ['no I/O errors', 'hash order of nodes as given by one assignment of addresses per path']
