from C17 import OPS
PROP = 'C18'
K = ['kernels/cpu/%s.cpp' % f for f in 'transpose concat stack_tensor slice slice_v2 slice_v3 strided_slice gather gatherv2 gather_elements scatter_nd tile pad_cpu pad2d_algorithm crop_to squeeze unsqueeze expand split chunk reshape reshape_v2 flatten flatten2d dimshuffle shape batchtospace4d spacetobatch4d'.split()]
UNITS = [dict(inline=(), select=True, flags=('-fwrapv', '-fno-sanitize=signed-integer-overflow'), cpp='C18.cpp', sources=OPS + K, keep_ctors=('core/tensor.cpp', 'backend/name.cpp', 'kernels/cpu/memory_cpu.cpp') + tuple(K),
              defaults=dict(mode='bv', fp='uf', opaque_text=True, max_unroll=400, max_paths=60000,
                            bounded='the shapes, ranks, axes, ranges, indices and paddings picked in the harness (rank up to 4, extents up to 5, or 13 in a copied row); all element values'),
              harness=dict(strided_range_all=dict(tier='thorough'), strided_two_all=dict(tier='thorough'), pad_form=dict(covers=('rejected',)))),
         dict(cpp='C18b.cpp', sources=OPS + ['!backend/base/base_slice_v3.cpp'], keep_ctors=('core/tensor.cpp', 'backend/name.cpp', 'kernels/cpu/memory_cpu.cpp'),
              defaults=dict(mode='int', opaque_text=True), harness=dict())]
LEVEL = 'proof'
EXPLANATION = """Two parts. (1) The range arithmetic of a sliced dimension (infer_output of strided_slice and slice_v3) is proved for every extent, begin, end, step and flag: the first element, the number of elements and
the rejection of step zero are those of the usual slice notation (negative counts from the end, cut to the extent). (2) The real operators (created from their registration, run by the real Operator/Stack code) transpose,
concat, stack, slice, slice_v2, slice_v3, strided_slice, gather, gatherv2, gather_elements, scatter_nd, tile, tile_v2, pad, crop_to, squeeze, unsqueeze, expand, split, chunk, reshape, reshape_v2, flatten, flatten2d, dimshuffle,
shape, space_to_batch4d and batch_to_space4d run on the stated shapes and parameters with arbitrary elements. Contract of each: accepted exactly when the arguments are valid, result shape by definition, and element k of the
result is the input element (or the fill value) at the coordinates the definition gives; inputs are unchanged; no read or write outside any buffer."""
LEVEL_NOTE = 'range arithmetic proved for all inputs; element placement bounded by shape, every element value'
ASSUMPTIONS = ['slice steps are not INT_MIN (its negation overflows)', 'pad is asked for extents of at least 1 (it clamps smaller ones to 1)', 'integer arithmetic of extents wraps around (-fwrapv in the operator unit)']
