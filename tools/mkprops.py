#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
K='lib/src/kernels/'
GEN='the bundled tests check a CRC of a few hard coded vectors per kernel and configuration; '
p('C01','Tile iteration covers a tensor exactly once',
 'Iterating over an output tensor with any tile size, order, skew and count visits every element of the tensor in exactly one tile, in the configured dimension order, with every tile inside the tensor and at most tile-sized. After the last tile the iteration reports completion and the position returns to the first tile, so the next pass yields the same sequence. In the natural dimension order, buffer positions seen through the iterator are those of the tile coordinates.',
 ['inputs','histories','configurations'],'all tensor shapes, tile sizes, iteration orders, skews and any number of Next steps and passes',
 GEN+'iteration is only exercised through a handful of fixed kernel tilings',
 ['include/mli_iterator.hpp'],[('iterator configuration from tensor, tile size and order','include/mli_iterator.hpp'),('buffer/tensor iterator stepping','include/mli_iterator.hpp')],['positions, sizes and completion flags returned by iterators'])
p('C02','Input tiles are the receptive fields of output tiles',
 'For a sliding-window operation the input tile paired with each output tile contains exactly the input elements (clipped to the input tensor) that the output tile needs, given kernel size, stride, dilation and leading padding. Kernels running on such tiles treat precisely the elements that fall outside the input as padding. The last tile of a dimension extends to the end of the input. With the overlap between neighbouring tiles removed, every input element is in exactly one tile.',
 ['inputs','histories'],'all output tilings, kernel sizes, strides, dilations and paddings',
 GEN+'a receptive field off by one shows only for specific stride/padding/tile combinations',
 ['include/mli_iterator.hpp','include/mli_service_functions.hpp'],[('input iterator derived from output iterator configuration','include/mli_iterator.hpp'),('tile parameter services','include/mli_service_functions.hpp')],['iterator positions/sizes','padding used per tile'])
p('C03','Compiled MAC kernels: tiled execution equals the mathematical result',
 'A compiled convolution, depthwise convolution, transposed convolution, fully connected or matrix multiplication kernel, run tile by tile to completion, leaves in the 32-bit output exactly the full-precision integer sum it is defined by. For the convolutions that is the sum over all kernel taps of the raw input times (weight minus its zero point), a tap that falls on padding counting as the input zero point; the fully connected layer has no padding; matrix multiplication removes both zero points. The result does not depend on how the tensors are tiled (in the natural iteration order) or on strides of the tensors in memory.',
 ['inputs','histories','configurations'],'all shapes, tilings, strides, paddings, dilations, quantisation parameters and data',
 GEN+'tests use one or two tilings of a few tensors',
 [K+'convolution/mli_krn_conv2d_runtime.cc',K+'convolution/mli_krn_depthwise_conv2d_runtime.cc',K+'convolution/mli_krn_transpose_conv_runtime.cc',K+'convolution/mli_krn_matmul_runtime.cc',K+'common/impl/mli_krn_fully_connected_runtime.cc'],[('per tile issue/update','runtime classes'),('integer convolution core',K+'convolution/impl/mli_krn_convolution_ref.h')],['output tensor memory after the last tile'])
p('C04','Compiled pooling, reduction and resize kernels equal their definition',
 'A compiled max-pool, sum-pool, reduce-max or reduce-sum kernel run to completion over any tiling, and the bilinear resize kernel, leave in the output exactly the maximum, sum or fixed-point interpolation its definition prescribes for every output element. Padding elements never contribute to a maximum or a sum. The result is independent of tiling and of memory strides.',
 ['inputs','histories','configurations'],'all shapes, tilings, window sizes, strides, paddings, axes and data',
 GEN+'border tiles and uncommon axes are sampled once or never',
 [K+'pooling',K+'conversion'],[('pooling runtime',K+'pooling/mli_krn_maxpool_runtime.cc'),('reduction runtime',K+'conversion/mli_reduce_max_runtime.cc')],['output tensor memory after the last tile'])
p('C05','Compiled element-wise and data kernels equal their definition',
 'A compiled add, subtract, multiply, minimum, maximum, rescale, clip, PReLU, permute, move or broadcast-move kernel, run to completion over any tiling with a supported combination of element types, leaves in the output exactly the value prescribed by its definition for every element (with the documented broadcasting, per-axis parameters, rounding and saturation). The result is independent of tiling and of memory strides.',
 ['inputs','histories','configurations'],'all shapes, tilings, parameter axes, broadcast patterns and data',
 GEN+'per-axis parameters combined with tiling are barely sampled',
 [K+'eltwise',K+'conversion',K+'clip',K+'transform',K+'diverse','lib/src/move'],[('element-wise runtime',K+'eltwise/mli_krn_add_runtime.cc'),('move runtime','lib/src/move/mli_mov_runtime.cc')],['output tensor memory after the last tile'])
p('C06','Compiled kernel descriptors are relocatable and self-contained',
 'The descriptor a compiled kernel emits has exactly the advertised size, and the runtime object created from it behaves identically wherever the memories it refers to are placed and wherever the descriptor itself is stored. Creating a runtime object succeeds for every supported kernel with a big enough buffer and yields nothing, writing nothing, when the buffer is too small; running it writes only the output buffer. The buffer size reported for an operand is the extent of that operand in memory, in elements, and every offered way to construct the kernel, attach its buffers and encode its parameters describes the same computation.',
 ['inputs','configurations','histories'],'all kernels, memory base addresses, buffer offsets and buffer sizes',
 GEN+'tests use a single base address and never a short buffer',
 ['lib/src/private/src/mli_runtime.cc','include/internal/mli_ref_private_types.hpp','include/api/mli_ref_compiler_api.hpp'],[('creation by kernel id','lib/src/private/src/mli_runtime.cc'),('offset buffers resolved against memory bases','include/mli_types.hpp')],['return values of creation','memory after execution'])
p('C07','2D convolution computes the quantised convolution',
 'For every layer configuration the 2D convolution kernels write to each output element the sum over the receptive field of input times weight (with zero points removed for asymmetric types) plus bias, rescaled to the output format with the build\'s rounding mode, saturated and limited by the requested activation. Padded positions contribute nothing. The result shape and element type are those prescribed by the configuration.',
 ['inputs','configurations'],'all data, shapes, strides, paddings, dilations, activation limits, quantisation parameters and build modes',
 GEN+'corner cases of padding, dilation, per-channel scales and saturation are not crossed',
 [K+'convolution/mli_krn_conv2d_hwcn.cc',K+'convolution/impl/mli_krn_convolution_ref.h','lib/src/bricks/impl/mli_prv_quant_ref.h'],[('convolution core',K+'convolution/impl/mli_krn_convolution_ref.h'),('requantisation','lib/src/bricks/impl/mli_prv_quant_ref.h')],['output tensor and its parameters after the call'])
p('C08','Depthwise and group convolution compute the quantised convolution',
 'The depthwise and group convolution kernels write to each output element the convolution of only the input channels of its group with the corresponding filter, plus bias, rescaled, saturated and limited as for the ordinary convolution. Channels never mix across groups.',
 ['inputs','configurations'],'all data, shapes, channel multipliers, group counts, strides, paddings, dilations, quantisation parameters and build modes',
 GEN+'group counts and channel multipliers are sampled thinly',
 [K+'convolution/mli_krn_depthwise_conv2d_hwcn.cc',K+'convolution/mli_krn_group_conv2d_hwcn.cc',K+'convolution/impl'],[('depthwise core',K+'convolution/impl/mli_krn_convolution_ref.h'),('group decomposition',K+'convolution/impl/mli_krn_group_conv2d_ref.h')],['output tensor after the call'])
p('C09','Transposed convolution computes the quantised transposed convolution',
 'The transposed convolution kernels write to each output element the sum of all input-times-weight contributions that the transposed (fractionally strided) convolution maps onto it, plus bias, rescaled, saturated and limited by the requested activation. Output positions reached by no input receive the bias alone.',
 ['inputs','configurations'],'all data, shapes, kernel sizes, strides, paddings, quantisation parameters and build modes',
 GEN+'only a few kernel/stride pairs are sampled',
 [K+'convolution/mli_krn_transpose_conv2d_hwcn.cc',K+'convolution/impl/mli_krn_transpose_conv_ref.h'],[('stride-phase decomposition',K+'convolution/impl/mli_krn_transpose_conv_ref.h')],['output tensor after the call'])
p('C10','Fully connected layers compute the quantised matrix product',
 'Each output of a fully connected layer is the dot product of the flattened input with its weight column (zero points removed) plus its bias, rescaled to the output format with the build\'s rounding mode, saturated and limited by the requested activation. Weight rows may be stored with gaps; the variant with pre-compensated bias takes the input zero point as zero.',
 ['inputs','configurations'],'all data, shapes, weight strides, per-output scales, activation limits and build modes',
 GEN+'saturation, rounding ties and strided weights are not crossed',
 [K+'common/mli_krn_fully_connected.cc',K+'common/impl/mli_krn_fully_connected_ref.h','lib/src/bricks/impl/mli_krn_dotprod_ref.h'],[('dot product','lib/src/bricks/impl/mli_krn_dotprod_ref.h')],['output tensor after the call'])
p('C11','LSTM cells and RNN dense layers follow their recurrence',
 'The RNN dense layer outputs the bias plus the sum of every input\'s matrix product, and the LSTM kernel applies its gate equations once per time step, carrying cell and hidden state from step to step. Running a sequence in one call equals running it split over several calls with the state handed over; backward direction processes the frames in reverse; keeping only the last result equals the last of all results.',
 ['inputs','histories','configurations'],'all sequences, splits, directions, result modes, activations, element types and build modes',
 GEN+'no test relates one call to another or varies direction, activation and result mode together',
 [K+'common/mli_krn_lstm_cell.cc',K+'common/impl/mli_krn_lstm_cell_ref.h',K+'common/mli_krn_rnn_dense.cc','lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h'],[('gate computation and state update',K+'common/impl/mli_krn_lstm_cell_ref.h')],['output and cell tensors after each call'])
p('C12','GRU cells follow their recurrence',
 'The GRU kernel applies its update, reset and candidate gate equations once per time step, carrying the hidden state from step to step. Running a sequence in one call equals running it split over several calls with the state handed over; backward direction processes the frames in reverse; keeping only the last result equals the last of all results.',
 ['inputs','histories','configurations'],'all sequences, splits, directions, result modes, activations, element types and build modes',
 GEN+'no test relates one call to another',
 [K+'common/mli_krn_gru_cell.cc',K+'common/impl/mli_krn_gru_cell_ref.h'],[('gate computation and state update',K+'common/impl/mli_krn_gru_cell_ref.h')],['output tensor after each call'])
p('C13','Max pooling takes the maximum of the valid window',
 'Each output of max pooling is the maximum of the input elements of its channel that lie both in the window and in the input; padding never wins. Output shape and quantisation parameters follow the configuration and the input.',
 ['inputs','configurations'],'all data, shapes, window sizes, strides and paddings',
 GEN+'windows clipped on several sides at once are sampled thinly',
 [K+'pooling/impl',K+'pooling/mli_krn_pool_hwc.h'],[('window reduction','lib/src/bricks/impl/mli_krn_reduce_max2d_ref.h')],['output tensor after the call'])
p('C14','Average pooling averages the valid window',
 'Each output of average pooling is the fixed-point average of exactly the input elements of its channel that lie both in the window and in the input, expressed in the output format with the library\'s fixed-point reciprocal, rounding and saturation. Padding is excluded from sum and count.',
 ['inputs','configurations'],'all data, shapes, window sizes, strides, paddings and build modes',
 GEN+'the reciprocal depends on the clipped window size, which tests sample thinly',
 [K+'pooling/impl/mli_krn_avepool_hwc_ref.h','lib/src/bricks/impl/mli_krn_reduce_sum2d_ref.h'],[('reciprocal table and computation',K+'pooling/mli_krn_avepool_hwc.h')],['output tensor after the call'])
p('C15','Element-wise add, sub, mul, min, max are exact in fixed point',
 'For every pair of operands of equal shape, or with either operand a single element, each output equals the element-wise operation on the real values the operands represent, computed in the library\'s fixed-point arithmetic: saturating, with the build\'s rounding mode, expressed in the output format. Operand order, shape and memory strides never change which elements are combined.',
 ['inputs','configurations'],'all data, quantisation parameters, shapes, strides, scalar operands and build modes',
 GEN+'saturation and rounding need specific operand values and format differences',
 [K+'eltwise/impl/mli_krn_eltwise_ref.h'],[('scaling and operation',K+'eltwise/impl/mli_krn_eltwise_ref.h')],['output tensor after the call'])
p('C16','ReLU family applies the documented piecewise-linear functions',
 'ReLU variants clamp every element to the limits the type denotes in the element\'s own format; leaky and parametric ReLU keep non-negative values and multiply negative ones by the (per-tensor or per-axis) slope, in the library\'s fixed-point arithmetic, rescaled to the output format where the operation defines one. Output shape and format parameters follow the operation.',
 ['inputs','configurations'],'all data, limits, slopes, axes, formats, shapes, strides and build modes',
 GEN+'format-dependent limits and per-axis slopes are sampled thinly',
 [K+'transform/impl',K+'transform/mli_krn_prelu.cc','lib/src/private/mli_prv_tensor.h'],[('clamp limits','lib/src/private/mli_prv_tensor.h'),('slope scaling',K+'transform/impl/mli_krn_leaky_relu_ref.h')],['output tensor after the call'])
p('C17','Sigmoid and tanh are faithful table approximations',
 'Sigmoid and tanh of every element equal the interpolated look-up of the kernel\'s table in fixed-point arithmetic, monotonically following the true function within the documented tolerance and saturating outside the table. Output shape, type and format parameters are those the operation prescribes, and in-place operation is allowed.',
 ['inputs','configurations'],'all input values, input formats, shapes, strides and build modes',
 GEN+'only a few hundred of the 65536 inputs per format are sampled',
 ['lib/src/private/src/mli_prv_activation_lut.cc','lib/src/bricks/impl/mli_prv_lut_ref.h',K+'transform/mli_krn_sigm_fx.cc',K+'transform/mli_krn_tanh_fx.cc'],[('table interpolation','lib/src/bricks/impl/mli_prv_lut_ref.h')],['output tensor after the call'])
p('C18','Softmax and L2 normalisation normalise along the chosen axis',
 'Softmax and L2 normalisation treat every slice along the chosen axis (or the whole tensor) independently and produce the normalised exponentials, respectively the elements divided by the slice norm, in the library\'s fixed-point arithmetic. Slices never influence each other, and the output shape and format parameters are those the operation prescribes.',
 ['inputs','configurations'],'all data, axes, shapes, strides, formats and build modes',
 GEN+'strided slices and extreme sums are sampled thinly',
 [K+'transform/impl/mli_krn_softmax_ref.h',K+'transform/impl/mli_krn_l2_normalize_ref.h'],[('slice iteration and normalisation',K+'transform/impl/mli_krn_softmax_ref.h')],['output tensor after the call'])
p('C19','Arg-max returns the positions of the largest elements',
 'Arg-max returns, for the whole tensor or for every slice along the chosen axis, the positions of the k largest elements in order of decreasing value, each position once. No reported element is smaller than an unreported one.',
 ['inputs','configurations'],'all data (including ties), axes, shapes, strides and values of k',
 GEN+'ties and large k relative to the slice are not crossed',
 [K+'diverse/impl/mli_krn_argmax_ref.h'],[('top-k selection',K+'diverse/impl/mli_krn_argmax_ref.h')],['output tensor after the call'])
p('C20','Permute reorders dimensions and nothing else',
 'Permute places every input element at the output position with correspondingly reordered coordinates, leaves values unchanged, and sets the output shape to the reordered input shape. Per-axis quantisation parameters follow their axis.',
 ['inputs','configurations'],'all permutations, ranks, shapes, strides, element types and quantisation axes',
 GEN+'strided operands and per-axis parameters are sampled thinly',
 [K+'diverse/impl/mli_krn_permute_ref.h'],[('coordinate reordering',K+'diverse/impl/mli_krn_permute_ref.h')],['output tensor and parameters after the call'])
p('C21','Tensor conversion preserves the represented value',
 'Converting a tensor between element types or formats yields for every element the destination-format value closest to the represented source value up to the library\'s fixed-point scale precision and rounding mode, saturated to the destination range, per tensor or per axis. Conversion from and to floating point follows the same rule.',
 ['inputs','configurations'],'all values, type pairs, scales, zero points, fractional bits, quantisation axes, shapes, strides and build modes',
 GEN+'saturation, ties and per-axis parameters are not crossed with every type pair',
 ['lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h'],[('requantisation','lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h')],['destination tensor after the call'])
p('C22','Tensor views and tensor helpers describe the same memory',
 'A sub-tensor aliases exactly the requested window of its parent, so element access through the sub-tensor reaches the parent element at offset plus index, with matching type and quantisation parameters. Element counts, element sizes, scale, shift and zero point queries agree with the tensor descriptor.',
 ['inputs','histories'],'all parents, offsets, sizes, result ranks, nested views, element types and quantisation axes',
 GEN+'nested views and per-axis parameters are hardly sampled',
 ['lib/src/helpers/src/mli_helpers.cc','lib/src/private/mli_prv_tensor.h'],[('view creation','lib/src/helpers/src/mli_helpers.cc')],['returned descriptors and values'])
p('C23','Data movement copies exactly the requested elements',
 'A tensor copy with any combination of offsets, sizes, sub-sampling, padding and permutation places at each destination position the source element the configuration designates, zero in padding, and touches nothing else. The destination shape, strides and quantisation parameters describe the result.',
 ['inputs','configurations'],'all configurations, shapes, ranks, strides, element types and quantisation axes',
 GEN+'combinations of the configuration fields are sampled thinly',
 ['lib/src/move/mli_mov_api.cc','lib/src/move/impl/mli_mov_ref.h'],[('element-wise copy with index mapping','lib/src/move/impl/mli_mov_ref.h')],['destination tensor after the copy'])
p('C24','Asynchronous data movement handles follow their protocol',
 'Channels handed to concurrently acquired data-movement handles are always disjoint and inside the configured pool, acquisition fails exactly when no sufficient contiguous block is free, and a released channel can be acquired again. A prepared transfer completes exactly once after being started: its callback runs exactly once with its own argument, waiting returns only when it is complete, and a handle is not reported done before that.',
 ['histories','schedules'],'all sequences of acquire, configure, register, prepare, start, wait, query and release on several handles',
 GEN+'the bundled tests perform one acquire/copy/release at a time',
 ['lib/src/move/mli_mov_api.cc','include/api/mli_mov_api.h'],[('channel pool','lib/src/move/mli_mov_api.cc'),('handle state','lib/src/move/mli_mov_api.cc')],['returned status, handle state queries, callback invocations'])
p('C25','Argument checking rejects bad calls without side effects',
 'In a build with argument checking enabled, a call whose arguments violate a documented requirement (null data, mismatched types or ranks, inconsistent shapes, too small destination, unsupported configuration) returns an error status and leaves every tensor and all memory untouched (only a refused data movement may already have filled in the destination\'s descriptor and quantization parameters). A call satisfying the requirements is accepted.',
 ['inputs','configurations'],'all kernels and all single violations of their documented requirements',
 GEN+'the bundled tests only make valid calls',
 ['lib/src/private/src/mli_check.cc'],[('per-kernel argument checks','lib/src/private/src/mli_check.cc')],['returned status and memory after the call'])
p('C26','Kernels write only their output elements',
 'A kernel call changes only the elements of its output tensor (and declared scratch or state): bytes before, after and in the gaps between output rows, the inputs, weights, tables and parameters stay as they were. Its result does not depend on memory outside the tensors it was given.',
 ['inputs','configurations'],'all kernels, shapes, memory strides, positions of tensors in memory and surrounding memory contents',
 GEN+'tests compare result tensors and check only a small guard region',
 ['lib/src/kernels','lib/src/private/mli_prv_tensor.h','lib/src/helpers','lib/src/move'],[('stride-aware element addressing','lib/src/private/mli_prv_tensor.h')],['all memory around the operands before and after the call'])
p('C27','In-place execution equals out-of-place execution',
 'For the operations that allow it, running with the output tensor occupying the memory of an input gives the same output elements and parameters as running into separate memory.',
 ['inputs','configurations'],'all element-wise, activation, and normalisation operations, shapes, strides, formats and data',
 GEN+'in-place use is sampled on very few kernels',
 [K+'transform',K+'eltwise','lib/src/helpers'],[('read-before-write order per element',K+'transform/impl')],['output tensor after the call'])
p('C28','The configured rounding mode governs every rescaling',
 'Whenever an operation drops fractional bits, exact ties are resolved as the build\'s rounding mode says (half up, or half to even), and every narrowing saturates instead of wrapping. This holds identically in every operation and data type.',
 ['inputs','configurations'],'all operations with rescaling, all tie values, extreme values and build modes',
 GEN+'exact ties and extreme values rarely occur in the fixed test vectors',
 ['lib/src/pal/ref/mli_math.h'],[('rounding shifts and saturating casts','lib/src/pal/ref/mli_math.h')],['output tensors'])
p('C29','Specialised entry points agree with the generic ones',
 'Every specialised entry point (fixed kernel sizes, fixed strides, and the like) produces exactly the same result as the generic entry point for every call within its documented restriction.',
 ['inputs','configurations'],'all specialised variants and all arguments in their restricted domain',
 GEN+'variants are tested on separate vectors and never compared',
 [K+'convolution',K+'pooling'],[('variant dispatch',K+'convolution/mli_krn_conv2d_hwcn.cc')],['outputs of both entry points'])
p('C30','Tensor views address the elements of the tensor they view',
 'A view obtained from a tensor by any chain of slicing, shrinking, transposing, splitting an axis into chunks (placed left or right of the rest) and combining two contiguous axes has the shape the operations prescribe, and each of its positions addresses exactly the element of the original tensor that the chain maps it to, whatever the memory strides of the original. Copying a view to a larger rank, to another kind of buffer or to another element size keeps addressing the same memory.',
 ['inputs','histories'],'all ranks, shapes, memory strides and chains of view operations',
 GEN+'views are used only where kernels happen to need one',
 ['include/mli_types.hpp'],[('slice, transpose, split and combine','include/mli_types.hpp')],['elements read through the view','reported dimensions'])
p('C31','Reconfigured and derived tile iterators stay consistent',
 'Deriving an iteration from another one keeps what it is about: with the dimensions reordered it visits the same elements tile by tile in the same order; walking one tile element by element reads and writes each of its elements exactly once, first dimension fastest; a buffer shrunk to N tiles has exactly the memory of N (aligned) tiles, every tile lies at its start and inside it; a configuration copied, rebuilt from its parts, or given to another iterator behaves like the original. Adding leading padding, aligning sizes, converting the element granularity, overriding increments and removing overlap change the documented quantities only, and the increments of a pass still lead back to its start. Tiles with the same update index have the same size. In the natural dimension order, the buffer position of every tile is the memory offset of its first element, also over tensors laid out last dimension first and after a conversion of the element size.',
 ['inputs','histories','configurations'],'all tensor shapes, tile sizes, orders, skews, windows, and any short sequence of reconfigurations',
 GEN+'almost none of these operations is used by a test',
 ['include/mli_iterator.hpp'],[('IteratorCfg operations','include/mli_iterator.hpp'),('transpose, ShrinkBuffer, GetSubTensorIterator','include/mli_iterator.hpp')],['configurations after each operation','positions, sizes and elements visited'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
