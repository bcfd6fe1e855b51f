PROP = 'C17'
OPS = ['core/*.cpp', 'core/sync/*.cpp', 'global/*.cpp', 'kernels/cpu/memory_cpu.cpp', 'kernels/cpu/math_cpu.cpp', 'kernels/common/*.cpp', 'utils/*.cpp', '!utils/random.cpp', 'memory/*.cpp', 'memory/orz/*.cpp',
     'runtime/stack.cpp', 'runtime/operator.cpp', 'runtime/instruction.cpp', 'runtime/instruction/*.cpp', 'runtime/workbench.cpp', 'runtime/program.cpp', 'runtime/runtime.cpp',
     'runtime/switcher.cpp', 'runtime/importor.cpp', 'runtime/image_filter.cpp', 'runtime/inside/*.cpp', 'board/*.cpp', 'module/*.cpp', 'module/io/*.cpp', 'module/loaders/*.cpp',
     'compiler/*.cpp', 'api/plugin.cpp', 'api/errno.cpp', 'compiler/option/*.cpp', 'frontend/*.cpp', 'backend/name.cpp', 'backend/base/*.cpp']
K = ['kernels/cpu/%s.cpp' % f for f in 'add sub mul div maximum mod equal where add_bias batch_scale prelu broadcast_v2 cast'.split()]
UNITS = [dict(inline=(), select=True, flags=('-fwrapv', '-fno-sanitize=signed-integer-overflow'), cpp='C17.cpp', sources=OPS + K, keep_ctors=('core/tensor.cpp', 'backend/name.cpp', 'kernels/cpu/memory_cpu.cpp') + tuple(K),
              defaults=dict(mode='bv', fp='uf', opaque_text=True, max_unroll=400, max_paths=60000, bounded='every broadcast pattern of shapes of rank up to 3 with extents up to 5 (up to 9 along one dimension); all element values'),
              harness=dict(types=dict(weight=9), misfit=dict(weight=9), broadcast=dict(weight=5), where_three=dict(weight=4), equal_types=dict(weight=4)))]
LEVEL = 'other'
EXPLANATION = """The real operators (created from their registration, with their own prediction, allocation and path selection) run on every broadcast pattern of the stated
shapes with arbitrary elements. Contract: accepted exactly when the shapes are compatible; result shape is the larger extent per dimension; element k of the result is the scalar
operation, in operand order, on the elements at the right-aligned broadcast coordinates - so the equal-shape, scalar, bias and reversed paths and their vector remainders agree with the
general one; operands of different types are first brought to one common type; inputs are unchanged. Also equal, where, broadcast, and add_bias, batch_scale, prelu along a dimension.
Real arithmetic is uninterpreted (each operation a function of its operands), integers are bit-vectors of their width."""
LEVEL_NOTE = 'bounded shapes, every element value'
ASSUMPTIONS = ['maximum and prelu: no NaN among the elements', 'division and modulus: no zero divisor (except harness zero) and, for integers, no divisor -1', 'integer arithmetic wraps around (-fwrapv in this unit)',
               'equal and where with operands of different types are not covered (they convert through a Workbench)', 'half precision is only followed where the type is chosen, not computed with']
