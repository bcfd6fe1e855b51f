from C09 import T, nothing
PROP = 'C10'
T = [t for t in T if not t.startswith('api/')] + ['api/*.cpp', '!api/operator_gpu.cpp', 'backend/base/base_cast_v2.cpp']
B = dict
UNITS = [dict(inline=(), cpp='C10.cpp', sources=T, keep_ctors=('core/tensor.cpp', 'backend/name.cpp', 'kernels/cpu/memory_cpu.cpp', 'module/bubble.cpp', 'module/loaders/open.cpp', 'runtime/instruction/tensor_instruction.cpp'),
              defaults=dict(mode='bv', opaque_text=True, max_unroll=2000, max_paths=60000,
                            replace={r'^ts::ThreadPool::ThreadPool\(': nothing, r'^ts::ThreadPool::~ThreadPool\(': nothing, r'^ts::check_cpu_feature\(': lambda m, st, a, i: 1,
                                     r'^ts::ArgParser::parse\(': 'contract_parse', r'^ts::ArgParser::map_device\(': 'contract_device'}),
              harness=dict(null_tensor={}, null_intime={}, null_filter={}, null_module={}, null_workbench={},
                           new_tensor=B(bounded='rank up to 3, extents 0 to 2, every element type, arbitrary bytes'), bad_tensor=B(covers=['end', 'rejected']),
                           parts=B(bounded='1 to 3 fields of up to 6 elements, every index'), slices=B(bounded='3 rows of 2 elements, every index and range'),
                           reshapes=B(bounded='6 elements, every shape of rank up to 3 with extents -1 to 6'), casts=B(bounded='3 elements, every pair of element types'),
                           workbench=B(bounded='a network of 2 inputs and 2 outputs, every index'), bench_more=B(bounded='a network of 2 inputs and 2 outputs'),
                           modules=B(bounded='two networks of 2 inputs and 2 outputs, every pair of slots'), copies=B(bounded='tensors of 16 bytes, every offset and size'),
                           flow=B(bounded='up to 4 elements of every type'), files=B(bounded='1 or 2 fields, files cut at every byte'), filters={},
                           plugins=B(bounded='one operator, every success and failure of its functions'), descriptions=B(bounded='descriptions of up to 7 arbitrary words')))]
EXPLANATION = """The real functions of src/api are executed against their contract: no exception leaves them; a call with a null handle or required argument (the other arguments arbitrary), an index or range outside, a negative
length, more dimensions than supported, an element type that is none, a missing program, context, file or device, a file or stream that is cut short, or a plugin function that fails returns the failure value and leaves a
message; every other call leaves no message and its handle has the shape, type, elements, fields, parameters or outputs of its arguments. Indices, offsets, sizes, slots, image sizes, data bytes and description words are
arbitrary in the prover. The null-argument contracts cover 140 calls of the interface and hold for all values of the remaining scalar arguments."""
LEVEL_NOTE = 'null and rejected arguments for all scalar values; contents of results for the small tensors and networks stated per contract'
ASSUMPTIONS = ['handles are either null or were returned by the library and not yet freed', 'C enumerations hold values their type can hold', 'arrays given with a length have that many elements',
               'the intime operators themselves are the subject of C17 to C20; here they are called without context', 'ThreadPool is replaced by none, ArgParser by splitting at blanks, check_cpu_feature by true',
               'the text of messages is not specified beyond not being empty', 'ts_Operator_Throw and ts_Operator_ThrowV2 are excluded: they exist to throw']
