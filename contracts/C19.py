from C17 import OPS
PROP = 'C19'
K = ['kernels/cpu/%s.cpp' % f for f in 'conv2d conv2d_core conv2d_algorithm conv2d_v2 conv2d_winograd depthwise_conv2d depthwise_conv2d_v2 depthwise_conv2d_core depthwise_conv2d_algorithm transpose_conv2d transpose_conv2d_core pooling2d pooling2d_v2 pooling2d_core pooling_algorithm global_pooling2d im2col winograd_algorithm math_cpu pad_cpu pad2d_algorithm transpose'.split()]
B = ['backend/onnx/pooling2d_auto_pad.cpp', 'backend/tf/pooling2d_padding.cpp', 'backend/mxnet/pooling2d_padding.cpp', 'backend/tf/conv2d_padding.cpp', 'backend/dragon/conv2d_padding.cpp', 'backend/dragon/pooling2d_auto_pad.cpp']
KC = ('core/tensor.cpp', 'backend/name.cpp', 'module/bubble.cpp', 'kernels/cpu/memory_cpu.cpp') + tuple(K) + tuple(B)
SRC = OPS + K + B
def nothing(m, st, args, ins): return None
UNITS = [dict(cpp='C19b.cpp', inline=(), select=True, sources=SRC, keep_ctors=KC, defaults=dict(mode='int', rand=1.0, opaque_text=True), harness=dict()),
         dict(cpp='C19.cpp', inline=(), select=True, flags=('-fwrapv', '-fno-sanitize=signed-integer-overflow'), sources=SRC, keep_ctors=KC,
              defaults=dict(mode='bv', fp='uf', rand=1.0, opaque_text=True, max_unroll=100000, max_paths=60000,
                            replace={r'^ts::ThreadPool::ThreadPool\(': nothing, r'^ts::ThreadPool::~ThreadPool\(': nothing, r'^ts::ArgParser::map_device\(': 'contract_device', r'^ts::check_cpu_feature\(': lambda m, st, a, i: 1},
                            bounded='the geometries (extents up to 13, kernels up to 3, strides up to 3, dilations up to 2, paddings -2 to 5, up to 2 images and 11 channels) and, except for im2col, the small integer element values generated from the picked number'),
              harness=dict())]
LEVEL = 'proof'
EXPLANATION = """Extents (unbounded contracts, every extent, kernel, stride, dilation and padding the quantifier admits): the output extent computed by the shared
functions (conv2d_forward, pooling2d_forward, conv2d_backward), predicted by the convolution, depthwise, transposed convolution, winograd and pooling operators and
the paddings chosen by the tf, onnx, mxnet and dragon padding operators equal the specified quotients; the amounts of padding before and after follow the frameworks' rules.
Contents (bounded contracts): im2col puts each input element or the padding value where its window position requires and col2im is its transpose; convolution (float, double,
_v2, winograd, packed kernels), depthwise (general, 3x3 stride 1 and 2), transposed convolution, max/average pooling (general, 3x3/2, 2x2/2, _v2) and global pooling equal sums,
maxima and averages over exactly the window elements, written independently from the geometry; every load and store is an obligation, so no window reads anything else."""
LEVEL_NOTE = 'extents proved for all values; element placement and window contents for generated geometries and integer element values'
ASSUMPTIONS = ['element values are small integers (sums are exact), except im2col where they are arbitrary', 'parallel loops are read as sequential loops (their iterations write disjoint places, which is not proved here)',
               'the thread pool runs nothing in the prover (its code runs natively)', 'winograd is compared with a tolerance because its transform divides']
