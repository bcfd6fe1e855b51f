import os, glob
from C17 import OPS
PROP = 'C20'
_S = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')
def _src(*pats): return sorted(os.path.relpath(f, _S) for p in pats for f in glob.glob(os.path.join(_S, p)) if not any(x in f for x in ('rknn', 'xnnpack', 'gpu')))
K = [f for f in _src('kernels/cpu/*.cpp', 'kernels/cpu/[b-z]*/*.cpp') if f not in ('kernels/cpu/memory_cpu.cpp', 'kernels/cpu/math_cpu.cpp')]
B = [f for f in _src('backend/*/*.cpp') if not f.startswith('backend/base/')]
def nothing(m, st, args, ins): return None
UNITS = [dict(cpp='C20.cpp', inline=(), select=True, flags=('-fwrapv', '-fno-sanitize=signed-integer-overflow'), sources=OPS + K + B,
              keep_ctors=('core/tensor.cpp', 'backend/name.cpp', 'module/bubble.cpp', 'kernels/cpu/memory_cpu.cpp') + tuple(K) + tuple(B),
              defaults=dict(mode='bv', fp='uf', opaque_text=True, max_unroll=100000, max_paths=60000, covers=['end', 'ran'],
                            replace={r'^ts::ThreadPool::ThreadPool\(': nothing, r'^ts::ThreadPool::~ThreadPool\(': nothing, r'^ts::ArgParser::map_device\(': 'contract_device', r'^ts::check_cpu_feature\(': lambda m, st, a, i: 1},
                            bounded='the operators, parameters, shapes (rank up to 4, extents up to 9), types and small integer elements generated from the picked number'),
              harness={'matrix': dict(max_steps=20000000)})]
LEVEL = 'other'
EXPLANATION = """Contract of every registered CPU operator, checked for two operators created from the same registration and parameters: the number of fields, element types and shapes that infer() predicts for the inputs are those of
the tensors run() leaves on the stack (run through the real InferOperator/RunOperator with another tensor below); what runs also has a prediction; asking for a prediction (of these or of other inputs, before or after a run)
changes neither the results of later runs nor later predictions, and neither infer() nor run() changes shape, type or elements of an input; no access outside any buffer. 114 operators in seven groups (elementwise, reduction,
arithmetic, matrix, layout, window, image). The prover executes the real code path by path for the picked cases with every step an obligation (memory safety, casts, the assertions); native runs of the same contract pick
from an unlimited sequence of cases under AddressSanitizer and UBSan."""
LEVEL_NOTE = 'bounded: parameters, shapes and types are generated from a picked number; 4 to 6 cases per operator in the prover, thousands natively'
ASSUMPTIONS = ['operators whose number of rows depends on computed values (proposal, yolo_poster, detection_output) are left out: their prediction is an upper bound',
               'elements are small integers; results of LSTM are compared by shape and type only', 'devices other than CPU are not built here',
               'ThreadPool is replaced by none (loops are run in one thread); ArgParser::map_device by the identity, check_cpu_feature by true',
               'integer arithmetic of extents wraps around (-fwrapv)']
