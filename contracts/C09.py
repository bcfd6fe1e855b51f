PROP = 'C09'
T = ['core/*.cpp', 'core/sync/*.cpp', 'global/*.cpp', 'kernels/cpu/memory_cpu.cpp', 'kernels/cpu/math_cpu.cpp', 'kernels/common/*.cpp', 'utils/*.cpp', '!utils/random.cpp', 'memory/*.cpp', 'memory/orz/*.cpp',
     'runtime/stack.cpp', 'runtime/operator.cpp', 'runtime/instruction.cpp', 'runtime/instruction/*.cpp', 'runtime/workbench.cpp', 'runtime/program.cpp', 'runtime/runtime.cpp',
     'runtime/switcher.cpp', 'runtime/importor.cpp', 'runtime/image_filter.cpp', 'runtime/inside/*.cpp', 'board/*.cpp', 'module/*.cpp', 'module/io/*.cpp', 'module/loaders/*.cpp',
     'compiler/*.cpp', 'api/plugin.cpp', 'api/errno.cpp', 'compiler/option/*.cpp', 'frontend/*.cpp', 'backend/name.cpp', 'backend/base/base_cast_v2.cpp']
def nothing(m, st, args, ins): return None
UNITS = [dict(inline=(), cpp='C09.cpp', sources=T, keep_ctors=('core/tensor.cpp', 'backend/name.cpp', 'kernels/cpu/memory_cpu.cpp', 'module/bubble.cpp', 'module/loaders/open.cpp', 'runtime/instruction/tensor_instruction.cpp'),
              defaults=dict(mode='bv', opaque_text=True, max_unroll=400, max_paths=60000, bounded='networks of 3 nodes (4 and 5 where the name says so) with at most 2 inputs per node, all wirings',
                            replace={r'^ts::ThreadPool::ThreadPool\(': nothing, r'^ts::ThreadPool::~ThreadPool\(': nothing, r'^ts::check_cpu_feature\(': lambda m, st, a, i: 1,
                                     r'^ts::ArgParser::parse\(': 'contract_parse', r'^ts::ArgParser::map_device\(': 'contract_device'}),
              harness=dict(three_a=dict(weight=6), three_b=dict(weight=6), four_a=dict(weight=9), four_b=dict(weight=9), again=dict(weight=9), names=dict(weight=5), four_all=dict(tier='thorough', weight=9), five_thin=dict(tier='thorough', weight=9)))]
LEVEL = 'other'
EXPLANATION = """Every network of the stated size (every wiring, shared nodes, repeated outputs, outputs that are inputs, inputs that are not used or listed in another
order, constants anywhere) is built, compiled and run by the real Module, translators, Compiler, Program and Workbench. Operators are arbitrary: the value of a
node is the term of its operator and argument values, so equality of results holds for every meaning of the operators. Contract: each output is the term of its
node, each operator that depends on an input is applied once per run, operators of constants at most once when compiling and nothing else is applied;
running again with other inputs, on a clone or from a second compilation keeps this, and results handed out before stay."""
LEVEL_NOTE = 'bounded graph size; the operators are uninterpreted'
ASSUMPTIONS = ['option strings are split at blanks (ArgParser uses regular expressions the engine does not interpret)', 'the thread pool runs nothing (operators used here do not use it)',
               'all CPU features present', 'translator options pack and fp16 are only followed on graphs without gemm, inner product and convolution nodes']
