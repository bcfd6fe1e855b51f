PROP = 'C08'
T = ['core/tensor.cpp', 'core/memory.cpp', 'core/hard_memory.cpp', 'core/device.cpp', 'core/controller.cpp', 'global/hard_allocator.cpp', 'global/hard_converter.cpp',
     'global/memory_device.cpp', 'kernels/cpu/memory_cpu.cpp', 'utils/except.cpp', 'utils/log.cpp',
     'core/sync/*.cpp', 'core/device_context.cpp', 'core/tensor_builder.cpp', 'runtime/stack.cpp', 'runtime/operator.cpp', 'runtime/instruction.cpp',
     'runtime/instruction/stack_instruction.cpp', 'runtime/instruction/tensor_instruction.cpp', 'utils/ctxmgr.cpp', 'utils/ctxmgr_lite.cpp', 'board/*.cpp', 'module/bubble.cpp', 'module/io/*.cpp', 'backend/name.cpp', 'runtime/instruction/instruction_factory.cpp', 'module/graph.cpp']
UNITS = [dict(cpp='C08.cpp', sources=T, keep_ctors=('core/tensor.cpp', 'kernels/cpu/memory_cpu.cpp'), defaults=dict(mode='bv', opaque_text=True, max_unroll=200, max_paths=50000, bounded='stacks of at most 4 values with at most 2 suspended frames; indices and counts symbolic over their whole type'),
              harness=dict(erase_range=dict(weight=9), instructions=dict(weight=8), call=dict(weight=8), frames=dict(weight=6)))]
EXPLANATION = """Specification: a sequence of values with a list of frame bases. From every stack of at most 4 values and every nesting of at most two
suspended frames, one arbitrary operation of Stack (index/operator[]/top, push, push(i), clone, pop, pop(n), clear, erase, erase range, push_base,
pop_base, rebase), of the executor's stack instructions (push, erase, erase range, ring shift, swap, pack, field) or one operator call (RunOperator,
InferOperator, OperatorInstruction with 0..2 results, failing operators included) is executed; the whole stack, the callers' values included, the
base and the base list must be those of the specification, and an error must be raised exactly when the index or count leaves the frame."""
LEVEL = 'other'
LEVEL_NOTE = 'every index/count value, bounded stack depth; operations are independent of what deeper values hold'
ASSUMPTIONS = ['values are identified by the address of their memory', 'instructions use only the stack of the workbench (a workbench of which only the stack is constructed)',
               'text of numbers in error messages is left unspecified']
