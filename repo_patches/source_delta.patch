From 4d2ae87895e9dc2bef06ff1c5a3200a1cf6a1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 01/59] fix: softmax_fx8 keeps mantissa and reciprocal of the
 exponent sum in 16 bits

They were narrowed to int8, which saturated the mantissa and truncated the
reciprocal, so the 8-bit softmax returned garbage.
---
 lib/src/kernels/transform/impl/mli_krn_softmax_ref.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h b/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h
index 360ab77..09a6243 100644
--- a/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h
@@ -81,19 +81,18 @@ static MLI_FORCE_INLINE void mli_krn_softmax_fx_run(
     }
 
     int sum_exp = mli_math_norm_fx<mli_acc32_t, int>(sum_acc);
-    io_T sum_mnt = mli_math_acc_cast_fx<io_T, mli_acc32_t>(sum_acc, 16 - sum_exp);
+    int16_t sum_mnt = mli_math_acc_cast_fx<int16_t, mli_acc32_t>(sum_acc, 16 - sum_exp);
     // sum_mnt is normalized (that is inside [0.5, 1) range)
     // so we use Q30(0.5) as a dividend to get Q15 result inside (0.5, 1)
     // saturation prevents it from reaching 1
-    io_T sum_recip = (io_T)MIN((1L << 29) / sum_mnt, 32767L);
+    int16_t sum_recip = (int16_t)MIN((1L << 29) / sum_mnt, 32767L);
 
     // sum_recip * vec_out[idx] = Q15 * Q15 (default LUT output)
     int lut_frac_bits = lut->out_frac_bits * 2;
     // 15 - sum_exp: sum_of_exps overhead
     int sum_exp_overhead = kMaxFracBitsFx16 - sum_exp;
 
-    constexpr int byte_size = 8;
-    constexpr int max_shift = 2 * sizeof(io_T) * byte_size - 1;
+    constexpr int max_shift = 31;
     int shift = mli_math_min_fx(lut_frac_bits + sum_exp_overhead - out_frac_bits, max_shift);
 
     // final result: normalizing
@@ -101,7 +100,7 @@ static MLI_FORCE_INLINE void mli_krn_softmax_fx_run(
         for (int pos1 = 0; pos1 < in_prv.shape[1]; pos1++) {
             for (int pos2 = 0; pos2 < in_prv.shape[2]; pos2++) {
                 for (int pos3 = 0; pos3 < in_prv.shape[3]; pos3++) {
-                    mli_acc32_t tmp_acc = mli_math_mul_fx<io_T, mli_acc32_t>(sum_recip,
+                    mli_acc32_t tmp_acc = mli_math_mul_fx<int16_t, mli_acc32_t>(sum_recip,
                                           vec_out[POS(&out_prv, pos0, pos1, pos2, pos3)]);
                     vec_out[POS(&out_prv, pos0, pos1, pos2, pos3)] =
                             mli_math_acc_cast_fx<io_T, mli_acc32_t>(tmp_acc, shift);
-- 
2.43.0


From 956a0b48250d47cbc8979925684246ff5dd2f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 02/59] fix: weight zero point terms of 2D convolutions ignore
 dilation and input channels

---
 lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h | 7 ++++---
 .../kernels/convolution/impl/mli_krn_group_conv2d_ref.h    | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
index 44ee99b..b138e89 100644
--- a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
+++ b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
@@ -107,7 +107,8 @@ MLI_FORCE_INLINE void convolution2D(
                           &accu);
 
                 accu = mli::krn::in_additive(in_ptr , accu, &quant_params, clmns, rows, in.ch,
-                                       in.col_mem_stride, in.row_mem_stride, in.ch_mem_stride);
+                                       in.col_mem_stride * dilation_width, in.row_mem_stride * dilation_height,
+                                       in.ch_mem_stride);
 
                 o_T out_val;
 
@@ -117,7 +118,7 @@ MLI_FORCE_INLINE void convolution2D(
                                                 weights.row_mem_stride,
                                                 weights.in_ch_mem_stride);
 
-                    accu = mli::krn::zp_additive(&quant_params, accu , clmns * rows);
+                    accu = mli::krn::zp_additive(&quant_params, accu , clmns * rows * in.ch);
 
                     accu = mli::krn::bias_additive(&biases[out_ch_idx], accu, &quant_params);
 
@@ -164,7 +165,7 @@ MLI_FORCE_INLINE void convolution2D(
                         // out_val = 0 - (-out_val - sum_i(w_zp*x_zp))
                         accu = ::mli::krn::ref::zp_additive(
                             &quant_params, mli_math_sub_fx<acc_T>(zero, accu),
-                            (weights_full.kernel_height * weights_full.kernel_width) - (clmns * rows));
+                            ((weights_full.kernel_height * weights_full.kernel_width) - (clmns * rows)) * in.ch);
                         accu = mli_math_sub_fx<acc_T>(zero, accu);
                     }
 
diff --git a/lib/src/kernels/convolution/impl/mli_krn_group_conv2d_ref.h b/lib/src/kernels/convolution/impl/mli_krn_group_conv2d_ref.h
index b493929..6ef3e62 100644
--- a/lib/src/kernels/convolution/impl/mli_krn_group_conv2d_ref.h
+++ b/lib/src/kernels/convolution/impl/mli_krn_group_conv2d_ref.h
@@ -97,8 +97,9 @@ MLI_FORCE_INLINE void group_convolution2D(
                             weights.in_ch_mem_stride);
 
                 accu = mli::krn::in_additive(in_ptr , accu, &quant_params, clmns, rows, weights.in_ch,
-                                       in.col_mem_stride, in.row_mem_stride, in.ch_mem_stride);
-                accu = mli::krn::zp_additive(&quant_params, accu , clmns * rows);
+                                       in.col_mem_stride * dilation_width, in.row_mem_stride * dilation_height,
+                                       in.ch_mem_stride);
+                accu = mli::krn::zp_additive(&quant_params, accu , clmns * rows * weights.in_ch);
 
                 accu = mli::krn::bias_additive(&biases[out_ch_idx], accu, &quant_params);
 
-- 
2.43.0


From 819743598e41f93e6118a0088919fa4871b2f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 03/59] fix: 16-bit bias wraps at 32 bits when aligned to the
 40-bit accumulator

---
 lib/src/pal/ref/mli_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 5796b55..01de2ed 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -361,7 +361,7 @@ MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
 
 template <>
 MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
 }
 
 template <>
-- 
2.43.0


From 3f872c220bf2cc8995f9f8b797506ccdf88ae0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:27 +0000
Subject: [PATCH 04/59] fix: 2D convolution of the int quantisation scheme
 ignores the weight zero point

---
 lib/src/bricks/impl/mli_prv_quant_ref.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/src/bricks/impl/mli_prv_quant_ref.h b/lib/src/bricks/impl/mli_prv_quant_ref.h
index 2071d0f..ceac4ff 100644
--- a/lib/src/bricks/impl/mli_prv_quant_ref.h
+++ b/lib/src/bricks/impl/mli_prv_quant_ref.h
@@ -360,6 +360,23 @@ MLI_FORCE_INLINE mli_acc32_t in_additive(
     }
 }
 
+template <>
+MLI_FORCE_INLINE mli_acc32_t in_additive(
+        const MLI_PTR(int8_t) __restrict in, mli_acc32_t init_accum,
+        const int_quant_specific_params* quant_params,
+        const int width, const int height, const int ch, int col_step, int row_step, int ch_step) {
+    // returns -(wights_zero_point * cumsum(input))
+    if (quant_params->weights_offset != 0) {
+        for (int c = 0; c < ch; c++) {
+            init_accum = reduce_sum2D(in, -quant_params->weights_offset, init_accum, width, height, /*channels = */0, col_step, row_step);
+            in += ch_step;
+        }
+        return init_accum;
+    } else {
+        return init_accum;
+    }
+}
+
 //==========================================================================
 // Calculation of zero points additive (zp_add) in
 // dot_prod_asym = dot_prod_gen + w_add + in_add + zp_add + bias_add
-- 
2.43.0


From 8bca6c8f025616e83c8cb5fb1feda1258e0523fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 05/59] fix: point_to_subtensor advances the data pointer of
 float tensors

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..1bf2195 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
-- 
2.43.0


From 490f46a2e61a2f3cff73705016c5056f77bbf269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 06/59] fix: create_subtensor keeps the parameters of a removed
 quantized dimension

---
 lib/src/helpers/src/mli_helpers.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 1bf2195..7acd1b9 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -237,7 +237,17 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->el_params = in->el_params;
 
     if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+        if (out->el_params.sa.dim >= 0 && out_asym_dim < 0) {
+            // The quantized dimension was removed: what remains is quantized per tensor.
+            const int scale_idx = cfg->offset[in->el_params.sa.dim];
+            out->el_params.sa.scale.mem.i16 = in->el_params.sa.scale.mem.pi16[scale_idx];
+            out->el_params.sa.scale_frac_bits.mem.i8 = in->el_params.sa.scale_frac_bits.mem.pi8[scale_idx];
+            out->el_params.sa.zero_point.mem.i16 = in->el_params.sa.zero_point.mem.pi16[scale_idx];
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.capacity = 0;
+            out->el_params.sa.dim = out_asym_dim;
+        } else if (out->el_params.sa.dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
             out->el_params.sa.dim = out_asym_dim;
-- 
2.43.0


From 93111672fcac02d804c864560b7b95cd9452b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:16 +0000
Subject: [PATCH 07/59] fix: pooling never writes outside the output when
 padding covers more than the output

---
 lib/src/kernels/pooling/mli_krn_pool_hwc.h | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_pool_hwc.h b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
index 81b0ad1..61a4360 100644
--- a/lib/src/kernels/pooling/mli_krn_pool_hwc.h
+++ b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
@@ -321,6 +321,13 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
     // (usually significantly smaller part of computations)
     //=======================================================================
     if (padding_top || padding_left || padding_bot || padding_right) {
+        // Borders of the output area affected by padding. With a kernel larger than the input
+        // they can cover the whole output, but they never go beyond it.
+        const int pad_row_end = MIN(CEIL_DIV(padding_top, stride_height), (int)out.height);
+        const int pad_row_beg = MAX((int)out.height - CEIL_DIV(padding_bot, stride_height), 0);
+        const int pad_clmn_end = MIN(CEIL_DIV(padding_left, stride_width), (int)out.width);
+        const int pad_clmn_beg = MAX((int)out.width - CEIL_DIV(padding_right, stride_width), 0);
+
         for(int i = 0; i < 4; i ++) {
             rect_t area;
             auto in_ = in;
@@ -337,11 +344,11 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 0) {
                 if (padding_top) {
                     area.row_beg = 0;
-                    area.row_end = CEIL_DIV(padding_top, stride_height);
+                    area.row_end = pad_row_end;
                     area.clmn_beg = 0;
-                    area.clmn_end = out.width - CEIL_DIV(padding_right, stride_width);
+                    area.clmn_end = pad_clmn_beg;
                     // compensate for cases where kernel size is larger than input size
-                    area.clmn_end = MAX(CEIL_DIV(padding_left, stride_width), (int)area.clmn_end);
+                    area.clmn_end = MAX(pad_clmn_end, (int)area.clmn_end);
                 } else {
                     continue;
                 }
@@ -349,8 +356,8 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 1) {
                 if (padding_right) {
                     int row_beg = 0;
-                    int row_end = out.height - CEIL_DIV(padding_bot, stride_height);
-                    int clmn_beg = out.width - CEIL_DIV(padding_right, stride_width);
+                    int row_end = pad_row_beg;
+                    int clmn_beg = pad_clmn_beg;
                     int clmn_end = out.width;
                     // rotate the right padding area to the top
                     area.clmn_beg = row_beg;
@@ -373,9 +380,9 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 2) {
                 if (padding_bot) {
-                    int row_beg = out.height - CEIL_DIV(padding_bot, stride_height);
+                    int row_beg = pad_row_beg;
                     int row_end = out.height;
-                    int clmn_beg = CEIL_DIV(padding_left, stride_width);
+                    int clmn_beg = pad_clmn_end;
                     int clmn_end = out.width;
                     // rotate the bottom padding area to the top
                     area.clmn_beg = out.width - clmn_end;
@@ -394,10 +401,10 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 3) {
                 if (padding_left) {
-                    int row_beg = CEIL_DIV(padding_top, stride_height);
+                    int row_beg = pad_row_end;
                     int row_end = out.height;
                     int clmn_beg = 0;
-                    int clmn_end = CEIL_DIV(padding_left, stride_width);
+                    int clmn_end = pad_clmn_end;
                     // rotate the left padding area to the top
                     area.clmn_beg = out.height - row_end;
                     area.clmn_end = out.height - row_beg;
-- 
2.43.0


From d3965c92883772c7a91c117192a4b9f671427eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 08/59] fix: data movement with offsets is not a single 1D copy

---
 lib/src/move/mli_mov_api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..f9c3ccb 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -240,6 +240,7 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         is_possible_in_single1d_transfer &= no_padding;
         is_possible_in_single1d_transfer &= (cfg->perm_dim[i] == i);
         is_possible_in_single1d_transfer &= (cfg->sub_sample_step[i] == 1);
+        is_possible_in_single1d_transfer &= (cfg->offset[i] == 0) && (cfg->dst_offset[i] == 0);
         stride *= src->shape[i];
     }
 
-- 
2.43.0


From 4eea69b8856d18fccaa67c17fc796b9c8f5fb583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 09/59] fix: acquire_handle never hands out channels beyond the
 pool

---
 lib/src/move/mli_mov_api.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index f9c3ccb..b22d1cf 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -385,8 +385,8 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
     MLI_ASSERT(h != NULL);
     // find first available channel, and check if enough adjacent channels are available.
     for (int i = dma_pool.base_channel; i < dma_pool.base_channel + dma_pool.pool_size; i++) {
-        bool found = true;
-        for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
+        bool found = (i + num_ch <= dma_pool.base_channel + dma_pool.pool_size);
+        for (int ch_cnt = 0; found && ch_cnt < num_ch; ch_cnt++) {
             found &= (dma_pool.channel_status[i + ch_cnt] == MLI_MOV_DMA_CH_AVAILABLE);
         }
         if (found) {
-- 
2.43.0


From cd82e76bcb297928144f960694efdb47e8ca6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 10/59] fix: a registered callback belongs to the handle it was
 registered for

---
 include/api/mli_mov_api.h   |  2 ++
 lib/src/move/mli_mov_api.cc | 13 ++++++-------
 lib/src/move/mli_mov_decl.h |  5 -----
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/api/mli_mov_api.h b/include/api/mli_mov_api.h
index ea87fbc..8017708 100644
--- a/include/api/mli_mov_api.h
+++ b/include/api/mli_mov_api.h
@@ -38,6 +38,8 @@ typedef struct _mli_mov_handle_t {
     int dma_ch;
     int num_ch;
     mli_mov_state state;
+    void (*cb)(int32_t);
+    int32_t cookie;
 } mli_mov_handle_t;
 
 //---------------------------------------------------------------------
diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index b22d1cf..992c833 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -28,9 +28,6 @@ extern "C" {
 // singleton for dma channel pool
 static mli_mov_dma_pool_t dma_pool = MLI_MOV_DMA_POOL_INIT;
 
-// singleton for callback functions
-static mli_mov_cb_t callbacktable[MAX_DMA_CHAN] = {{0}};
-
 //=====================================================================
 // Public functions
 //=====================================================================
@@ -286,8 +283,8 @@ mli_status mli_mov_registercallback(mli_mov_handle_t* h, void (*cb)(int32_t), in
     MLI_ASSERT(h != NULL);
     MLI_ASSERT(h->dma_ch < MAX_DMA_CHAN);
     // store the callback function ptr.
-    callbacktable[h->dma_ch].cb = cb;
-    callbacktable[h->dma_ch].cookie = cookie;
+    h->cb = cb;
+    h->cookie = cookie;
     // register isr to the DMA, and only call the cb once all channels are done
     // TODO
     return MLI_STATUS_OK;
@@ -314,8 +311,8 @@ mli_status mli_mov_start(mli_mov_handle_t* h, const mli_tensor* src, const mli_m
     {
     // in case DMA is not used, but direct copy was done, set state to DONE, and call callback.
         h->state = MLI_MOV_STATE_DONE;
-        if (callbacktable[h->dma_ch].cb != NULL) {
-            callbacktable[h->dma_ch].cb(callbacktable[h->dma_ch].cookie);
+        if (h->cb != NULL) {
+            h->cb(h->cookie);
         }
     }
     return MLI_STATUS_OK;
@@ -393,6 +390,8 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
             h->state = MLI_MOV_STATE_OPEN;
             h->dma_ch = i;
             h->num_ch = num_ch;
+            h->cb = NULL;
+            h->cookie = 0;
             for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
                 dma_pool.channel_status[i + ch_cnt] = MLI_MOV_DMA_CH_IN_USE;
             }
diff --git a/lib/src/move/mli_mov_decl.h b/lib/src/move/mli_mov_decl.h
index adb7793..1343d32 100644
--- a/lib/src/move/mli_mov_decl.h
+++ b/lib/src/move/mli_mov_decl.h
@@ -30,11 +30,6 @@ typedef struct {
 } mli_mov_dma_pool_t;
 #define MLI_MOV_DMA_POOL_INIT {0, MAX_DMA_CHAN}
 
-typedef struct {
-    void (*cb)(int32_t);
-    int32_t cookie;
-} mli_mov_cb_t;
-
 namespace mli {
 namespace mov {
 namespace ref {
-- 
2.43.0


From 19150bd162ab54ce491fbc96312b550ef97863cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 11/59] fix: moving float tensors trips the integer type
 assertion

---
 lib/src/move/impl/mli_mov_ref.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/move/impl/mli_mov_ref.h b/lib/src/move/impl/mli_mov_ref.h
index 3789c57..e79c858 100644
--- a/lib/src/move/impl/mli_mov_ref.h
+++ b/lib/src/move/impl/mli_mov_ref.h
@@ -129,8 +129,8 @@ static MLI_FORCE_INLINE void mli_mov_basic_operation (mli_mov_handle_t* h, const
                                     no_inner_src_stride, no_inner_dst_stride, small_size);
 
                         } else {
-                            int32_t* __restrict psrc = mli_prv_tensor_data_ptr<int32_t *>(src);
-                            int32_t* __restrict pdst = mli_prv_tensor_data_ptr<int32_t *>(dst);
+                            int32_t* __restrict psrc = (int32_t*)mli_prv_tensor_cast_data_ptr(src);
+                            int32_t* __restrict pdst = (int32_t*)mli_prv_tensor_cast_data_ptr(dst);
                             mli::mov::mov_inner_loop<int32_t>(h, &psrc[src_pos], &pdst[dst_pos],
                                     ordered_dst_write_size[3],
                                     ordered_src_mem_stride[ordered_pdim[3]], ordered_dst_mem_stride[3],
@@ -199,8 +199,8 @@ static MLI_FORCE_INLINE void mli_mov_basic_operation (mli_mov_handle_t* h, const
                                     no_inner_src_stride, no_inner_dst_stride, small_size, 0);
 
                         } else {
-                            int32_t* __restrict psrc = mli_prv_tensor_data_ptr<int32_t *>(src);
-                            int32_t* __restrict pdst = mli_prv_tensor_data_ptr<int32_t *>(dst);
+                            int32_t* __restrict psrc = (int32_t*)mli_prv_tensor_cast_data_ptr(src);
+                            int32_t* __restrict pdst = (int32_t*)mli_prv_tensor_cast_data_ptr(dst);
                             mli::mov::mov_inner_loop<int32_t>(h, &psrc[src_pos], &pdst[dst_pos],
                                     ordered_dst_write_size[3], ordered_src_cpy_size[3],
                                     ordered_src_mem_stride[ordered_pdim[3]], ordered_dst_mem_stride[3],
-- 
2.43.0


From 7e69cb16798fb30bff8889c7d4f6b006998d53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 12/59] fix: GRU new gate used shifted per-tensor scales of the
 weights

---
 lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
index 1561878..a43cb33 100644
--- a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
@@ -33,11 +33,14 @@ namespace ref {
 //========================================================================================
 
 static inline void inc_scales_for_new_gate(mli_element_params* params, int prev_gates) {
-	params->sa.scale.mem.pi16 += prev_gates;
+    // per-tensor parameters are stored as values and common for all gates
+    if (params->sa.dim < 0) return;
+    params->sa.scale.mem.pi16 += prev_gates;
     params->sa.scale_frac_bits.mem.pi8 += prev_gates;
 }
 
 static inline void dec_scales_for_new_gate(mli_element_params* params, int prev_gates) {
+    if (params->sa.dim < 0) return;
     params->sa.scale.mem.pi16 -= prev_gates;
     params->sa.scale_frac_bits.mem.pi8 -= prev_gates;
 }
-- 
2.43.0


From 40ef91e3361dbab66edc301048efef36e693a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 13/59] fix: read scalar operands of the 3.0 element-wise
 kernels when they are issued, not when they are created

---
 lib/src/kernels/eltwise/mli_krn_add_runtime.cc | 13 +++----------
 lib/src/kernels/eltwise/mli_krn_max_runtime.cc | 13 +++----------
 lib/src/kernels/eltwise/mli_krn_min_runtime.cc | 13 +++----------
 lib/src/kernels/eltwise/mli_krn_mul_runtime.cc | 13 +++----------
 lib/src/kernels/eltwise/mli_krn_sub_runtime.cc | 13 +++----------
 5 files changed, 15 insertions(+), 50 deletions(-)

diff --git a/lib/src/kernels/eltwise/mli_krn_add_runtime.cc b/lib/src/kernels/eltwise/mli_krn_add_runtime.cc
index fab4c6e..507d647 100644
--- a/lib/src/kernels/eltwise/mli_krn_add_runtime.cc
+++ b/lib/src/kernels/eltwise/mli_krn_add_runtime.cc
@@ -54,16 +54,9 @@ Add::Add(void* kernel_private_data_buffer, size_t size, uint64_t membases[], int
   private_buffer.m_in_right_buffer.get_mem_strides(right_stride);
   private_buffer.m_output_buffer.get_mem_strides(output_stride);
 
-  uint32_t m_in_left_rank = 0;
-  uint32_t m_in_right_rank = 0;
-  if( private_buffer.is_in_left_scalar == false )
-  {
-    m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
-  }
-  if( private_buffer.is_in_right_scalar == false )
-  {
-    m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
-  }
+  // A scalar operand keeps its rank too, so that its value is read when the kernel is issued
+  const uint32_t m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
+  const uint32_t m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
 
   if (m_i_elem_size == sizeof(int8_t)) {
     m_tile_input_left.el_type = MLI_EL_SA_8;
diff --git a/lib/src/kernels/eltwise/mli_krn_max_runtime.cc b/lib/src/kernels/eltwise/mli_krn_max_runtime.cc
index 3b2bb3e..f5f2a99 100644
--- a/lib/src/kernels/eltwise/mli_krn_max_runtime.cc
+++ b/lib/src/kernels/eltwise/mli_krn_max_runtime.cc
@@ -53,16 +53,9 @@ Max::Max(void* kernel_private_data_buffer, size_t size, uint64_t membases[], int
   private_buffer.m_in_right_buffer.get_mem_strides(right_stride);
   private_buffer.m_output_buffer.get_mem_strides(output_stride);
 
-  uint32_t m_in_left_rank = 0;
-  uint32_t m_in_right_rank = 0;
-  if( private_buffer.is_in_left_scalar == false )
-  {
-    m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
-  }
-  if( private_buffer.is_in_right_scalar == false )
-  {
-    m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
-  }
+  // A scalar operand keeps its rank too, so that its value is read when the kernel is issued
+  const uint32_t m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
+  const uint32_t m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
 
   if (m_i_elem_size == sizeof(int8_t)) {
     m_tile_input_left.el_type = MLI_EL_SA_8;
diff --git a/lib/src/kernels/eltwise/mli_krn_min_runtime.cc b/lib/src/kernels/eltwise/mli_krn_min_runtime.cc
index 54ccc36..abe5790 100644
--- a/lib/src/kernels/eltwise/mli_krn_min_runtime.cc
+++ b/lib/src/kernels/eltwise/mli_krn_min_runtime.cc
@@ -53,16 +53,9 @@ Min::Min(void* kernel_private_data_buffer, size_t size, uint64_t membases[], int
   private_buffer.m_in_right_buffer.get_mem_strides(right_stride);
   private_buffer.m_output_buffer.get_mem_strides(output_stride);
 
-  uint32_t m_in_left_rank = 0;
-  uint32_t m_in_right_rank = 0;
-  if( private_buffer.is_in_left_scalar == false )
-  {
-    m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
-  }
-  if( private_buffer.is_in_right_scalar == false )
-  {
-    m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
-  }
+  // A scalar operand keeps its rank too, so that its value is read when the kernel is issued
+  const uint32_t m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
+  const uint32_t m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
 
   if (m_i_elem_size == sizeof(int8_t)) {
     m_tile_input_left.el_type = MLI_EL_SA_8;
diff --git a/lib/src/kernels/eltwise/mli_krn_mul_runtime.cc b/lib/src/kernels/eltwise/mli_krn_mul_runtime.cc
index c55bcf4..6a06949 100644
--- a/lib/src/kernels/eltwise/mli_krn_mul_runtime.cc
+++ b/lib/src/kernels/eltwise/mli_krn_mul_runtime.cc
@@ -54,16 +54,9 @@ Mul::Mul(void* kernel_private_data_buffer, size_t size, uint64_t membases[], int
   private_buffer.m_in_right_buffer.get_mem_strides(right_stride);
   private_buffer.m_output_buffer.get_mem_strides(output_stride);
 
-  uint32_t m_in_left_rank = 0;
-  uint32_t m_in_right_rank = 0;
-  if( private_buffer.is_in_left_scalar == false )
-  {
-    m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
-  }
-  if( private_buffer.is_in_right_scalar == false )
-  {
-    m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
-  }
+  // A scalar operand keeps its rank too, so that its value is read when the kernel is issued
+  const uint32_t m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
+  const uint32_t m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
 
   if (m_i_elem_size == sizeof(int8_t)) {
     m_tile_input_left.el_type = MLI_EL_SA_8;
diff --git a/lib/src/kernels/eltwise/mli_krn_sub_runtime.cc b/lib/src/kernels/eltwise/mli_krn_sub_runtime.cc
index 5608e23..d52ebee 100644
--- a/lib/src/kernels/eltwise/mli_krn_sub_runtime.cc
+++ b/lib/src/kernels/eltwise/mli_krn_sub_runtime.cc
@@ -53,16 +53,9 @@ Sub::Sub(void* kernel_private_data_buffer, size_t size, uint64_t membases[], int
   private_buffer.m_in_right_buffer.get_mem_strides(right_stride);
   private_buffer.m_output_buffer.get_mem_strides(output_stride);
 
-  uint32_t m_in_left_rank = 0;
-  uint32_t m_in_right_rank = 0;
-  if( private_buffer.is_in_left_scalar == false )
-  {
-    m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
-  }
-  if( private_buffer.is_in_right_scalar == false )
-  {
-    m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
-  }
+  // A scalar operand keeps its rank too, so that its value is read when the kernel is issued
+  const uint32_t m_in_left_rank = private_buffer.m_in_left_buffer.get_rank();
+  const uint32_t m_in_right_rank = private_buffer.m_in_right_buffer.get_rank();
 
   if (m_i_elem_size == sizeof(int8_t)) {
     m_tile_input_left.el_type = MLI_EL_SA_8;
-- 
2.43.0


From 51b58eacbe78ab3dcc2168fa81315c47698338e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 14/59] fix: ReduceMax must size its first tile from the
 iterators, not from the full tensors

---
 lib/src/kernels/conversion/mli_reduce_max_runtime.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
index 8540068..fe64c3e 100644
--- a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
+++ b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
@@ -29,6 +29,8 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     m_out_elem_size = private_buffer.output.get_tensor().get_elem_size();
     m_input = private_buffer.input;
     m_output = private_buffer.output;
+    const auto input_tile_tensor = m_input.GetSubTensor();
+    const auto output_tile_tensor = m_output.GetSubTensor();
     // construct configurations
     m_reduce_axis = private_buffer.reduce_axis;
 
@@ -49,7 +51,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
 
     for(unsigned int i = 0; i < m_tile_input.rank ; i++){
-        m_tile_input.shape[i] = private_buffer.input.get_dim(i);
+        m_tile_input.shape[i] = input_tile_tensor.get_dim(i);
         m_tile_input.mem_stride[i] = private_buffer.input.get_mem_stride(i);
     }
 
@@ -71,7 +73,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
     
     for(unsigned int i = 0; i < m_tile_output.rank ; i++){
-        m_tile_output.shape[i] = private_buffer.output.get_dim(i);
+        m_tile_output.shape[i] = output_tile_tensor.get_dim(i);
         m_tile_output.mem_stride[i] = private_buffer.output.get_mem_stride(i);
     }
 }
-- 
2.43.0


From c95e277fe85ebd8599f4e76899bf87967fac1e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:27 +0000
Subject: [PATCH 15/59] fix: SumPool2D keeps the leading padding only for the
 first tile of a dimension

---
 lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
index afd86a2..abcd336 100644
--- a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
+++ b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
@@ -137,11 +137,11 @@ void SumPool2D::UpdateTilePaddings() {
   m_input.get_pos(tile_input_offsets);
 
   const auto& input_it_cfg = m_input.get_config();
-  if (tile_input_offsets[kTensorHeightDim]) m_tile_cfg.padding_top = 0;
+  if (!m_input.is_first_tile(kTensorHeightDim)) m_tile_cfg.padding_top = 0;
   if (tile_input_offsets[kTensorHeightDim] + (int32_t) input_it_cfg.get_size(kTensorHeightDim) < (int32_t)m_input.get_dim(kTensorHeightDim)) {
     m_tile_cfg.padding_bottom = 0;
   }
-  if (tile_input_offsets[kTensorWidthDim]) m_tile_cfg.padding_left = 0;
+  if (!m_input.is_first_tile(kTensorWidthDim)) m_tile_cfg.padding_left = 0;
   if (tile_input_offsets[kTensorWidthDim] + (int32_t) input_it_cfg.get_size(kTensorWidthDim) < (int32_t)m_input.get_dim(kTensorWidthDim)) {
     m_tile_cfg.padding_right = 0;
   }
-- 
2.43.0


From ad9b5ce81b665ed2570232dd9fb9cdc020bd0008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:42 +0000
Subject: [PATCH 16/59] fix: MatMul must not wrap the operands to 8 bits after
 subtracting their zero points

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 126205f..8479434 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -45,8 +45,9 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   MLI_ASSERT(encoded_params.get_elem_size() == sizeof(int8_t));
   MLI_ASSERT(encoded_params.get_size() == kMatMulRank);
 
-  in1_t val1;
-  in2_t val2;
+  // wide enough for the difference between a value and its zero point
+  int32_t val1;
+  int32_t val2;
   out_t acc;
 
   /**
-- 
2.43.0


From 99e72c7ce19b0a03aa77ce6bb38ed4f59ef68a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:42 +0000
Subject: [PATCH 17/59] fix: MatMul must honour the memory strides of all its
 operands

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 8479434..0ac50e7 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -63,15 +63,17 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   int32_t right_mem_strides[kMatMulRank];
   in_left.get_mem_strides(left_mem_strides);
   in_right.get_mem_strides(right_mem_strides);
+  int32_t out_mem_strides[kMatMulRank];
+  output.get_mem_strides(out_mem_strides);
   for(uint32_t left_height_index = 0; left_height_index < left_h; ++left_height_index) {
     for (uint32_t right_width_index = 0; right_width_index < right_w; ++right_width_index) {
       acc = 0;
       for (uint32_t left_width_index = 0, right_height_index = 0; left_width_index < left_w; ++left_width_index, ++right_height_index) {
-          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index) - in_left_zp;
-          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index) - in_right_zp;
+          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index * left_mem_strides[1]) - in_left_zp;
+          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index * right_mem_strides[1]) - in_right_zp;
           acc += val1 * val2;
       }
-        output.template write<out_t>( left_height_index * right_w + right_width_index, static_cast<out_t>(acc) );
+        output.template write<out_t>( left_height_index * out_mem_strides[0] + right_width_index * out_mem_strides[1], static_cast<out_t>(acc) );
     }
   }
 }
-- 
2.43.0


From 901b6e25f8cdb8bac9f580cf9eb2df6babfc1fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:42 +0000
Subject: [PATCH 18/59] fix: MatMul must report the tile position of its right
 operand

---
 lib/src/kernels/convolution/mli_krn_matmul_runtime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
index b4acf02..81b610d 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
@@ -92,7 +92,7 @@ void MatMul::GetIOSizesAndOffsets(uint32_t input_left_size[kMatMulRank], uint32_
                                   int32_t output_offsets[kMatMulRank]) const{
   
   m_input_left.get_pos(input_left_offsets);
-  m_input_left.get_pos(input_right_offsets);
+  m_input_right.get_pos(input_right_offsets);
   m_output.get_pos(output_offsets);
   
   m_tile_input_left.get_dims(input_left_size);
-- 
2.43.0


From fd9750e9b7456a6175d0e83a71ba6c572e041e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:41 +0000
Subject: [PATCH 19/59] fix: Rescale from 8 to 32 bits read its input as 32-bit
 elements

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 855e7cb..6975ebe 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -206,11 +206,11 @@ mli_status Rescale::Issue() {
                 MLI_ASSERT(0);
             }
             else if (out_elem_size == sizeof(int32_t)) {
-              mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
-                                                         &m_tile_metadata.in_bias,
-                                                         &m_tile_metadata.scale,
-                                                         &m_tile_metadata.shift,
-                                                         &m_tile_metadata.out_bias,
+              mli_krn::mli_krn_rescale<int8_t, int32_t>(&m_tile_metadata.input,
+                                                        &m_tile_metadata.in_bias,
+                                                        &m_tile_metadata.scale,
+                                                        &m_tile_metadata.shift,
+                                                        &m_tile_metadata.out_bias,
                                                          m_tile_metadata.rescale_axis,
                                                          &m_tile_metadata.output);
             }
-- 
2.43.0


From f5a5d1c659557deac3a953b32578fb40c6578cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 20/59] fix: compiled PReLU chose the slope by a difference
 that overflows

---
 lib/src/kernels/transform/impl/mli_krn_prelu_ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
index 906d347..2d9266c 100644
--- a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
@@ -431,7 +431,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_axis(
                         const int param_idx = pos[prelu_axis];
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias[param_idx] >= 0) {
+                        if(in_val >= in_bias[param_idx]) {
                             out_val = scale_value(in_val, in_bias[param_idx],
                                                   out_bias[param_idx], posscale[param_idx],
                                                   posshift[param_idx]);
@@ -470,7 +470,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_tensor(
                     for (pos[4] = 0; pos[4] < in.get_dim(4); pos[4]++) {
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias >= 0) {
+                        if(in_val >= in_bias) {
                             out_val = scale_value(in_val, in_bias,
                                                   out_bias, posscale, posshift);
                         } else {
-- 
2.43.0


From 1e8fde6babf255ea041071aa50e97621abaae8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:58 +0000
Subject: [PATCH 21/59] fix: iterating over a tensor moved its buffer position
 along dimensions with a single tile

---
 include/mli_iterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..2e6e7ba 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -909,8 +909,11 @@ class TensorIterator {
         if (m_tile_idx[r] == m_config.get_count(r) - 1) { // Last iteration
           m_pos[r] = 0/*+= m_config.get_last_inc(r)*/; // Temporary fix, need to debug transpose conv
           //m_offset += m_config.get_last_inc(r)*m_full_tensor.get_mem_stride(m_config.get_order(r));
-          m_buffer_itr.Next(r, kLastTile);
-          m_buffer_itr.EndOfDim(r);
+          // A dimension with a single tile doesn't move the buffer position
+          if (m_config.get_count(r) > 1) {
+            m_buffer_itr.Next(r, kLastTile);
+            m_buffer_itr.EndOfDim(r);
+          }
           m_tile_idx[r] = 0;
           if (r == iterRank - 1) done = true;
         } else {
-- 
2.43.0


From 83ed21eb3630501a723a2f81b4b7b8c276a48ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 22/59] fix: bilinear resize read outside the input for
 positions before its first row or column

---
 lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
index 13b722d..fb3b996 100644
--- a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
@@ -40,13 +40,13 @@ mli_status mli_resize_bilinear(const mli_tensor* in, const ResizeOpConfig& cfg,
             row_int = row_fx >> cfg.shift;
             delta_row_fx = row_fx - (row_int << cfg.shift);
             input_row0_int = MIN(MAX(row_int, 0), in_prv.shape[kTensorHeightDim] - 1);
-            input_row1_int = MIN(row_int + 1, in_prv.shape[kTensorHeightDim] - 1);
+            input_row1_int = MIN(MAX(row_int + 1, 0), in_prv.shape[kTensorHeightDim] - 1);
             for (w = 0; w < out_prv.shape[kTensorWidthDim]; w++) {
                 col_fx = w * cfg.stride[1] + cfg.offset[1];
                 col_int = col_fx >> cfg.shift;
                 delta_col_fx = col_fx - (col_int << cfg.shift);
                 input_col0_int = MIN(MAX(col_int, 0), in_prv.shape[kTensorWidthDim] - 1);
-                input_col1_int = MIN(col_int + 1, in_prv.shape[kTensorWidthDim] - 1);
+                input_col1_int = MIN(MAX(col_int + 1, 0), in_prv.shape[kTensorWidthDim] - 1);
                 for (c = 0; c < out_prv.shape[kTensorChannelDim]; c++) {
                     // read the nearest 4 input values around the output point
                     v00 = mli_prv_tensor_read(in_prv, b, input_row0_int, input_col0_int, c);
-- 
2.43.0


From a6b5c2772787817d06813e2caf8bc9e8a5cb66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 23/59] fix: the range check of bilinear resize overflowed for
 the largest shift

---
 lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc | 2 +-
 lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
index 0da0183..daeacbc 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
@@ -30,7 +30,7 @@ ResizeBilinear_CS::ResizeBilinear_CS(const lib_mli::PlatformDescription pd,
   }
  
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(m_cfg.stride[0] < val_16_fx);
   MLI_ASSERT(m_cfg.stride[1] < val_16_fx);
 
diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
index 2f04745..c321992 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
@@ -31,7 +31,7 @@ void run_mli_resize_bilinear_standalone(const mli_tensor* in, const ResizeOpConf
     MLI_ASSERT(cfg.stride[1] > (1 << (cfg.shift - 4)));
   }
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(cfg.stride[0] < val_16_fx);
   MLI_ASSERT(cfg.stride[1] < val_16_fx);
 
-- 
2.43.0


From 2fa0c5f72aaa12fb6fae505b8915690aeea0a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:36 +0000
Subject: [PATCH 24/59] fix: compiled depthwise convolution computed only the
 first batch of a tile with several

---
 .../convolution/mli_krn_depthwise_conv2d_runtime.cc    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 0ad28b2..e5fd60e 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -82,16 +82,16 @@ mli_status DepthwiseConv2d::Issue() {
     InternalBuffer out_buf = m_tile_output.get_buf();
     InternalBuffer curr_inp_buf(inp_buf);
     InternalBuffer curr_out_buf(out_buf);
-    m_tile_input.set_buf(curr_inp_buf);
-    m_tile_output.set_buf(curr_out_buf);
 
-    QTensor<InternalBuffer, kDepthwiseIORank> qinput{
-      m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
     QTensor<InternalBuffer, kDepthwiseWRank> qweights{
       m_tile_weights, m_tile_wzp.get_buf(), m_metadata.wts_quant_axis};
 
 
     for (uint32_t i = 0; i < m_tile_batch_size; i++) {
+      m_tile_input.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
+      QTensor<InternalBuffer, kDepthwiseIORank> qinput{
+        m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
       conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
                             ::mli::CONV_DEPTHWISE, kDepthwiseIORank,
                             kDepthwiseWRank, DwConv2DConfig>(
@@ -121,6 +121,7 @@ mli_status DepthwiseConv2d::Update() {
   const auto input_tile_tensor = m_metadata.input.GetSubTensor();
   uint32_t input_tile_shape[kDepthwiseIORank];
   input_tile_tensor.get_dims(input_tile_shape);
+  m_tile_batch_size = input_tile_shape[kGroupTensorBatchDim];
   input_tile_shape[kGroupTensorBatchDim] = 1;
   m_tile_input = Tensor<InternalBuffer, kDepthwiseIORank>(m_tile_input, input_tile_shape);
 
@@ -198,6 +199,7 @@ void DepthwiseConv2d::GetIOSizesAndOffsets(uint32_t input_size[kDepthwiseIORank]
   m_tile_input.get_dims(input_size);
   m_tile_weights.get_dims(weights_size);
   m_tile_output.get_dims(output_size);
+  input_size[kGroupTensorBatchDim] = output_size[kGroupTensorBatchDim] = m_tile_batch_size;
 }
 
 }  // namespace snps_arc::metaware::mli::ref
\ No newline at end of file
-- 
2.43.0


From 0e8bca3fba2d7e117de50e0acb339c43871cdbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:29 +0000
Subject: [PATCH 25/59] fix: compiled convolution and transposed convolution
 computed only the first batch of a tile with several

---
 .../convolution/mli_krn_conv2d_runtime.cc     | 25 +++++++++++++----
 .../mli_krn_transpose_conv_runtime.cc         | 28 ++++++++++++++-----
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_conv2d_runtime.cc
index b5e7210..dd021fb 100644
--- a/lib/src/kernels/convolution/mli_krn_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_conv2d_runtime.cc
@@ -60,14 +60,29 @@ mli_status Conv2d::Issue() {
       w_elem_size == sizeof(int8_t) &&
       o_elem_size == sizeof(int32_t)) {
 
-    QTensor<InternalBuffer, kConvIORank> qinput{m_tile_input, m_metadata.inpzp_buffer,
-                                                m_metadata.inp_quant_axis};
     QTensor<InternalBuffer, kConvWRank> qweights{m_tile_weights, m_tile_wzp.get_buf(),
                                                  m_metadata.wts_quant_axis};
 
-    conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
-                           ::mli::CONV_GENERAL, kConvIORank, kConvWRank,
-                           Conv2DConfig>(qinput, qweights, m_tile_output, m_tile_cfg);
+    // a tile is executed batch by batch
+    const InternalBuffer inp_buf = m_tile_input.get_buf();
+    const InternalBuffer out_buf = m_tile_output.get_buf();
+    InternalBuffer curr_inp_buf(inp_buf);
+    InternalBuffer curr_out_buf(out_buf);
+    for (uint32_t i = 0; i < m_tile_output.get_dim(kGroupTensorBatchDim); i++) {
+      m_tile_input.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
+      QTensor<InternalBuffer, kConvIORank> qinput{m_tile_input, m_metadata.inpzp_buffer,
+                                                  m_metadata.inp_quant_axis};
+
+      conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
+                             ::mli::CONV_GENERAL, kConvIORank, kConvWRank,
+                             Conv2DConfig>(qinput, qweights, m_tile_output, m_tile_cfg);
+
+      curr_inp_buf.inc(m_tile_input.get_mem_stride(kGroupTensorBatchDim));
+      curr_out_buf.inc(m_tile_output.get_mem_stride(kGroupTensorBatchDim));
+    }
+    m_tile_input.set_buf(inp_buf);
+    m_tile_output.set_buf(out_buf);
   } else {
     // datatype is not supported yet
     return MLI_STATUS_NOT_SUPPORTED;
diff --git a/lib/src/kernels/convolution/mli_krn_transpose_conv_runtime.cc b/lib/src/kernels/convolution/mli_krn_transpose_conv_runtime.cc
index 844411c..45f47b5 100644
--- a/lib/src/kernels/convolution/mli_krn_transpose_conv_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_transpose_conv_runtime.cc
@@ -58,17 +58,31 @@ mli_status TransposeConv2D::Issue() {
   
   if (i_elem_size == sizeof(int8_t) && w_elem_size == sizeof(int8_t) &&
       o_elem_size == sizeof(int32_t)) {
-      QTensor<InternalBuffer, kTransposeConvIORank> qinput{ m_tile_input,
-                                                            m_metadata.inpzp_buffer,
-                                                            m_metadata.inp_quant_axis};
       QTensor<InternalBuffer, kTransposeConvWRank> qweights{ m_tile_weights,
                                                              m_tile_wzp.get_buf(),
                                                              m_metadata.wts_quant_axis};
 
-      transpose_conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t,
-                                       LAYOUT_HWC, kTransposeConvIORank,
-                                       kTransposeConvWRank>(qinput, qweights, m_tile_output, m_tile_cfg);
-
+      // a tile is executed batch by batch
+      const InternalBuffer inp_buf = m_tile_input.get_buf();
+      const InternalBuffer out_buf = m_tile_output.get_buf();
+      InternalBuffer curr_inp_buf(inp_buf);
+      InternalBuffer curr_out_buf(out_buf);
+      for (uint32_t i = 0; i < m_tile_output.get_dim(kGroupTensorBatchDim); i++) {
+        m_tile_input.set_buf(curr_inp_buf);
+        m_tile_output.set_buf(curr_out_buf);
+        QTensor<InternalBuffer, kTransposeConvIORank> qinput{ m_tile_input,
+                                                              m_metadata.inpzp_buffer,
+                                                              m_metadata.inp_quant_axis};
+
+        transpose_conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t,
+                                         LAYOUT_HWC, kTransposeConvIORank,
+                                         kTransposeConvWRank>(qinput, qweights, m_tile_output, m_tile_cfg);
+
+        curr_inp_buf.inc(m_tile_input.get_mem_stride(kGroupTensorBatchDim));
+        curr_out_buf.inc(m_tile_output.get_mem_stride(kGroupTensorBatchDim));
+      }
+      m_tile_input.set_buf(inp_buf);
+      m_tile_output.set_buf(out_buf);
   } else {
       // datatype is not supported yet
       return MLI_STATUS_NOT_SUPPORTED;
-- 
2.43.0


From 40cbd6d6e9c35d2d269db20157f254ae0caf5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:06 +0000
Subject: [PATCH 26/59] fix: compiled kernels used the weight zero point of the
 first output channel for all channels

Convolutions and fully connected took a single zero point for weights quantized per
output channel, and fully connected read the int8 zero points that are encoded next
to the weights as int16.
---
 lib/src/bricks/impl/mli_prv_quant_ref.h       | 23 +++++++++--
 lib/src/bricks/mli_prv_quant_decl.h           |  5 +++
 .../common/impl/mli_krn_fully_connected_ref.h |  4 +-
 .../impl/mli_krn_fully_connected_runtime.cc   | 39 ++++++++++---------
 .../impl/mli_krn_convolution_ref.h            |  8 ++++
 5 files changed, 54 insertions(+), 25 deletions(-)

diff --git a/lib/src/bricks/impl/mli_prv_quant_ref.h b/lib/src/bricks/impl/mli_prv_quant_ref.h
index ceac4ff..4c4ee84 100644
--- a/lib/src/bricks/impl/mli_prv_quant_ref.h
+++ b/lib/src/bricks/impl/mli_prv_quant_ref.h
@@ -145,7 +145,11 @@ MLI_FORCE_INLINE void define_quant_params(const mli_tensor *in, const mli_tensor
 
     if (weights->el_params.sa.dim >= 0) {
         // per axis quantization
-        params->weights_offset = weights->el_params.sa.zero_point.mem.pi16[0];
+        const bool is_i8 = weights->el_params.sa.zero_point.capacity ==
+                           weights->shape[weights->el_params.sa.dim] * sizeof(int8_t);
+        params->weights_offsets_i8 = is_i8 ? weights->el_params.sa.zero_point.mem.pi8 : nullptr;
+        params->weights_offsets_i16 = is_i8 ? nullptr : weights->el_params.sa.zero_point.mem.pi16;
+        adjust_quant_params(params, 0);
     } else {
         // per tensor quantization
         params->weights_offset = weights->el_params.sa.zero_point.mem.i16;
@@ -186,6 +190,16 @@ MLI_FORCE_INLINE void adjust_quant_params(fx_quant_specific_params* in, int krn_
     return;
 }
 
+template <>
+MLI_FORCE_INLINE void adjust_quant_params(int_quant_specific_params* params, int krn_idx) {
+    // zero point of weights can be different across output channels (per axis quantization)
+    if (params->weights_offsets_i8 != nullptr) {
+        params->weights_offset = params->weights_offsets_i8[krn_idx];
+    } else if (params->weights_offsets_i16 != nullptr) {
+        params->weights_offset = params->weights_offsets_i16[krn_idx];
+    }
+}
+
 MLI_FORCE_INLINE int16_t quant_params_get_weigths_zeropoint(s8asym_quant_specific_params* params) {
     return params->weights_offset;
 }
@@ -722,9 +736,10 @@ MLI_FORCE_INLINE void define_quant_params(
         // not supported yet
         MLI_ASSERT(false);
     } else {
-        // If only weights zero points are all zero
-        params->weights_offset = get_per_channel_zp<w_T>(
-            weights.zp, weights.t.get_dim(weights.quant_axis))[0];
+        static_assert(sizeof(w_T) == sizeof(int8_t), "zero points of weights are int8");
+        params->weights_offsets_i8 = get_per_channel_zp<w_T>(
+            weights.zp, weights.t.get_dim(weights.quant_axis));
+        adjust_quant_params(params, 0);
     }
 }
 
diff --git a/lib/src/bricks/mli_prv_quant_decl.h b/lib/src/bricks/mli_prv_quant_decl.h
index 866669f..b1a69cb 100644
--- a/lib/src/bricks/mli_prv_quant_decl.h
+++ b/lib/src/bricks/mli_prv_quant_decl.h
@@ -80,6 +80,9 @@ struct fx_quant_specific_params {
 struct int_quant_specific_params {
     int16_t in_offset;
     int16_t weights_offset;
+    // Zero points of the output channels (per-channel quantization), nullptr for the per-tensor one
+    const int8_t* weights_offsets_i8 = nullptr;
+    const int16_t* weights_offsets_i16 = nullptr;
 };
 
 typedef union _conv_math_params {
@@ -114,6 +117,8 @@ template <>
 MLI_FORCE_INLINE void adjust_quant_params(s8asym_quant_specific_params* params, int krn_idx);
 template <>
 MLI_FORCE_INLINE void adjust_quant_params(fx_quant_specific_params* in, int krn_idx);
+template <>
+MLI_FORCE_INLINE void adjust_quant_params(int_quant_specific_params* params, int krn_idx);
 
 MLI_FORCE_INLINE int16_t quant_params_get_weigths_zeropoint(s8asym_quant_specific_params* params);
 
diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h b/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h
index eb21ad3..34f08ee 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h
@@ -82,14 +82,12 @@ MLI_FORCE_INLINE void inner_product(
             out[o_idx] = out_val;
         }
     } else {
-        acc_T in_additives = mli_math_mul_fx<i_T, acc_T>(0, 0);
-        in_additives  = mli::krn::in_additive(in, in_additives, &quant_params, in_elements, 1, 1, 1);
         for (int o_idx = 0; o_idx < out_elements; o_idx++) {
             mli::krn::adjust_quant_params(&quant_params, o_idx);
             acc_T accu = mli_math_mul_fx<i_T, acc_T>(0, 0);
             accu = dotprod1D(in, &weights[o_idx], accu, in_elements,
                             1, w_ch_out_mem_stride);
-            accu = mli_math_add_fx(accu, in_additives);
+            accu = mli::krn::in_additive(in, accu, &quant_params, in_elements, 1, 1, 1);
             // Cast result to output type with scaling
             o_T out_val = mli::krn::result_cast<o_T, acc_T, quant_T>(accu, &quant_params);
             out[o_idx] = out_val;
diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
index 9df7a55..58b5167 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
@@ -95,30 +95,33 @@ FullyConnected::FullyConnected(void* kernel_private_data_buffer,
     tsr.mem_stride[0] = private_data.weights_ic_stride;
     tsr.mem_stride[1] = private_data.weights_oc_stride;
 
-    // weights zero point should have the same size as the tensor they belong to.
-    uint32_t wtszp_elem_size = sizeof(int16_t);
-    uint32_t wtszp_size = private_data.wtszp_buffer.get_size();
-
+    // Zero points of weights are int8_t if they were encoded together with the weights and int16_t otherwise
+    const uint32_t wtszp_elem_size = private_data.wtszp_buffer.get_elem_size();
+    const uint32_t wtszp_size = private_data.wtszp_buffer.get_size();
+    const bool is_wtszp_i8 = (wtszp_elem_size == sizeof(int8_t));
+    MLI_ASSERT(is_wtszp_i8 || wtszp_elem_size == sizeof(int16_t));
+    const bool is_per_channel = is_wtszp_i8 ? private_data.qt_wtszp_axis >= 0
+                                            : wtszp_size / wtszp_elem_size > 1;
+
+    InternalBuffer wtszp_internal(private_data.wtszp_buffer, membases, num_mems);
+    tsr.el_params.sa.dim = private_data.qt_wtszp_axis;
     // per-channel quantization
-    // TODO: change zp to support both int8_t and int16_t (now zero int16_t value casted to int8_t and back to int16_t here )
-    if (wtszp_size / wtszp_elem_size > 1) {
+    if (is_per_channel) {
       MLI_ASSERT(private_data.qt_wtszp_axis < MLI_MAX_RANK);
-      MLI_ASSERT(private_data.weights_oc == wtszp_size / wtszp_elem_size);
-      tsr.el_params.sa.dim = private_data.qt_wtszp_axis;
+      MLI_ASSERT(private_data.weights_oc <= wtszp_size / wtszp_elem_size);
 
-      tsr.el_params.sa.zero_point.capacity = wtszp_size;
-      InternalBuffer wtszp_internal(private_data.wtszp_buffer, membases, num_mems);
-      wtszp_internal.set_elem_size(sizeof(int16_t));
-      tsr.el_params.sa.zero_point.mem.pi16 = wtszp_internal.get_ptr<int16_t>();
+      tsr.el_params.sa.zero_point.capacity = private_data.weights_oc * wtszp_elem_size;
+      if (is_wtszp_i8) {
+        tsr.el_params.sa.zero_point.mem.pi8 = wtszp_internal.get_ptr<int8_t>();
+      } else {
+        tsr.el_params.sa.zero_point.mem.pi16 = wtszp_internal.get_ptr<int16_t>();
+      }
     } else {
       // per-tensor quantization
-      MLI_ASSERT(1 == wtszp_size / wtszp_elem_size);
-      tsr.el_params.sa.dim = private_data.qt_wtszp_axis;
+      tsr.el_params.sa.dim = -1;
       tsr.el_params.sa.zero_point.capacity = 0;
-
-      InternalBuffer wtszp_internal(private_data.wtszp_buffer, membases, num_mems);
-      wtszp_internal.set_elem_size(sizeof(int16_t));
-      tsr.el_params.sa.zero_point.mem.i16 = wtszp_internal.read<int16_t>(0);
+      tsr.el_params.sa.zero_point.mem.i16 = is_wtszp_i8 ? wtszp_internal.read<int8_t>(0)
+                                                        : wtszp_internal.read<int16_t>(0);
     }
   }
 }
diff --git a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
index b138e89..003a77d 100644
--- a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
+++ b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
@@ -99,6 +99,10 @@ MLI_FORCE_INLINE void convolution2D(
                         + weights.col_mem_stride * comp.kernel_left
                         + weights.out_ch_mem_stride * out_ch_idx;
 
+                if (!has_bias) {
+                    mli::krn::adjust_quant_params(&quant_params, out_ch_idx);
+                }
+
                 acc_T accu = mli_math_mul_fx<i_T, acc_T>(0, 0);
 
                 mli::krn::dotprod3D(in_ptr, w_ptr, clmns, rows, in.ch,
@@ -241,6 +245,10 @@ MLI_FORCE_INLINE void depthwise_convolution2D(
                         + weights.in_ch_mem_stride * 0
                         + weights.out_ch_mem_stride * out_ch_idx;
 
+                if (!has_bias) {
+                    mli::krn::adjust_quant_params(&quant_params, out_ch_idx);
+                }
+
                 // Complete Convolution. Here calculations performes in a unfolded expression way.
                 // If the calulations do not involve input, they can be compuated offline and folded.
                 // out_val  = (x-x_zp)*(w-w_zp)
-- 
2.43.0


From d61f61ccc80469138160065c11d7fe1b4260103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:27 +0000
Subject: [PATCH 27/59] fix: encoding of FullyConnected zero points took their
 count from a dimension they do not have

---
 lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
index 72ff152..dbf19c1 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
@@ -188,7 +188,7 @@ mli_status FullyConnected_CS::EncodeWtsZeroPts(const Tensor<Buffer, 1> &wtszerop
     else {
       MLI_ASSERT(encoded_wtszeropts.get_size() / encoded_wtszeropts.get_elem_size() ==
       m_weights.get_dim(kKernelFCChannelOutDim));
-      for (uint32_t i = 0; i < wtszeropts.get_dim(kKernelFCChannelOutDim); ++i) {
+      for (uint32_t i = 0; i < wtszeropts.get_dim(0); ++i) {
         encoded_wtszeropts.write(i, static_cast<int16_t>(wtszeropts.read<int8_t>(i)));
       }
     }
-- 
2.43.0


From ec1238f2cda3f01b2a2c610a47be2cf0e56b286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:46 +0000
Subject: [PATCH 28/59] fix: Rescale labelled its bias parameters with the
 wrong element type

Reading them back aborts in the configurations with full debug checks.
---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 6975ebe..e97ae53 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -99,7 +99,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.in_bias.data.mem.pi8 = encoded_params_internal.get_ptr<int8_t>();
       }
       encoded_params_internal.inc(m_tile_param_max_size);
-      m_tile_metadata.in_bias.el_type = MLI_EL_SA_32;
+      m_tile_metadata.in_bias.el_type = MLI_EL_SA_8;
     }
     else {
         MLI_ASSERT(0);
@@ -151,7 +151,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.out_bias.rank = 1;
         m_tile_metadata.out_bias.data.mem.pi32 = encoded_params_internal.get_ptr<int32_t>();
       }
-      m_tile_metadata.out_bias.el_type = MLI_EL_SA_8;
+      m_tile_metadata.out_bias.el_type = MLI_EL_SA_32;
     }
     else {
         MLI_ASSERT(0);
-- 
2.43.0


From 8533204aef0869530ec9dcccb694cd72b2dd1e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 29/59] fix: combining two tensor axes in row order took the
 stride of the outer one

---
 include/mli_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index bd3b63e..874a70d 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -793,7 +793,7 @@ class Tensor {
           assert(mem_stride_[r] == (int)shape_[r+1]*mem_stride_[r+1]);
         }
         tns.set_dim(s, shape_[r]*shape_[r+1]);
-        tns.set_mem_stride(s, mem_stride_[r]);
+        tns.set_mem_stride(s, reverse_order ? mem_stride_[r] : mem_stride_[r+1]);
         ++r;
       }
       ++s;
-- 
2.43.0


From bef42ed8df5c5660fb61dfd2f89818bce7ebaa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 30/59] fix: shrinking a tensor view dropped its offset

---
 include/mli_types.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 874a70d..7761f53 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -720,6 +720,7 @@ class Tensor {
     
   Tensor<buf_T, maxRank> slice(uint32_t size[]) {
     Tensor<buf_T, maxRank> slice_tens(buf_, size, mem_stride_, rank_);
+    slice_tens.set_offs(offset_);
     return slice_tens;
   }
 
-- 
2.43.0


From 0ebc8d656f62d8f6aa7a905bf558a941f18e43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 31/59] fix: dropping an axis of an iterator configuration
 swapped the first and the following increments

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 2e6e7ba..b88a4a4 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -202,8 +202,8 @@ class IteratorCfg {
         m_first_size[j] = icfg.get_first_size(i);
         m_size[j] = icfg.get_size(i);
         m_last_size[j] = icfg.get_last_size(i);
-        m_pos_inc[j] = icfg.get_first_inc(i);
-        m_first_pos_inc[j] = icfg.get_inc(i);
+        m_pos_inc[j] = icfg.get_inc(i);
+        m_first_pos_inc[j] = icfg.get_first_inc(i);
         m_last_pos_inc[j] = icfg.get_last_inc(i);
         m_diff_code[j] = icfg.get_diff_code(i);
         j++;
-- 
2.43.0


From b3fb266b25a5342c48bee832531bbf899ef924ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 32/59] fix: a window larger than a dimension of one element
 turned a full tensor buffer into a cyclic one

---
 include/mli_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index b88a4a4..4961ca2 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -532,7 +532,7 @@ class BufferIterator {
           m_first_offset_inc[axis] = 0;
           m_offset_inc[axis] = 0;
           m_last_offset_inc[axis] = 0;
-          m_buffer_size *= buffer_dim;
+          if (cfg.get_buf_tiles_num() != 0) m_buffer_size *= buffer_dim;
         }
         m_buffer_dec[axis] = cfg.get_buf_tiles_num() == 0
                              ? full_tensor.get_dim(axis) * full_tensor.get_mem_stride(axis)
-- 
2.43.0


From 30befcbbb45c0fbadf6060d087c810fa3018946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 33/59] fix: tiles that start at the same position moved the
 buffer position

---
 include/mli_iterator.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 4961ca2..4a09b3e 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -524,9 +524,11 @@ class BufferIterator {
         // tensor/tile is 1 or 0, that simply means that dimension doesn't exist
         // in terms of buffer, so offset must be 0.
         if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(i) > 1) {
-          m_first_offset_inc[axis] = cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_offset_inc[axis] = cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_last_offset_inc[axis] = cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
+          // a single tile without increments is walked element by element
+          const bool by_element = cfg.get_count(axis) == 1;
+          m_first_offset_inc[axis] = by_element && cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_offset_inc[axis] = by_element && cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_last_offset_inc[axis] = by_element && cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
 
         } else {
           m_first_offset_inc[axis] = 0;
-- 
2.43.0


From 3a39dcd7cf45dee6d2814fbe09fac098c1acb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:34 +0000
Subject: [PATCH 34/59] fix: Move created from two tensors moved only their
 first element

---
 include/mli_kernels_factory_ref.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mli_kernels_factory_ref.hpp b/include/mli_kernels_factory_ref.hpp
index 29f843b..543af74 100644
--- a/include/mli_kernels_factory_ref.hpp
+++ b/include/mli_kernels_factory_ref.hpp
@@ -125,7 +125,9 @@ public:
          */
         assert(kernel_buffer != nullptr);
         assert(((size_t) kernel_buffer % kMliAlignment) == 0);
-        return new(kernel_buffer) lib_ref::Move_CS(m_pd, src, dst);
+        // the whole tensors as a single tile
+        return new(kernel_buffer) lib_ref::Move_CS(m_pd, src, dst,
+                                                   IteratorCfg<kMoveIterRank>(src), IteratorCfg<kMoveIterRank>(dst));
     }
 
     lib_mli::Move_CS* Move_CS(void *kernel_buffer,
-- 
2.43.0


From 744d37390f40bb767577a7c8d9a89c7ab13dd4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 35/59] fix: debug checks of fx layers read through the
 pointers before checking them for NULL

---
 lib/src/private/src/mli_check.cc | 88 ++++++++++++++++----------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2298717..b6a0c0e 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -517,17 +517,17 @@ mli_status mli_chk_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -540,17 +540,17 @@ mli_status mli_chk_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -637,17 +637,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -660,17 +660,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -804,17 +804,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -827,17 +827,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -981,17 +981,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1004,17 +1004,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1366,17 +1366,17 @@ mli_status mli_chk_fully_connected_fx16_fx8_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1388,17 +1388,17 @@ mli_status mli_chk_fully_connected_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_8, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1410,17 +1410,17 @@ mli_status mli_chk_fully_connected_fx16(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
-- 
2.43.0


From e78a09ab3804e194bef1da413fe5e57607020e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 36/59] fix: kernel size of specialised functions was read
 before the weights tensor was checked

---
 lib/src/private/src/mli_check.cc | 56 ++++++++++++++++----------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index b6a0c0e..8cba1cb 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -401,13 +401,6 @@ mli_status mli_chk_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -419,6 +412,13 @@ mli_status mli_chk_conv2d_hwcn (
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
@@ -566,13 +566,6 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -584,6 +577,13 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
@@ -730,13 +730,6 @@ mli_status mli_chk_group_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -748,6 +741,13 @@ mli_status mli_chk_group_conv2d_hwcn(
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
@@ -899,13 +899,6 @@ mli_status mli_chk_transpose_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -917,6 +910,13 @@ mli_status mli_chk_transpose_conv2d_hwcn (
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
-- 
2.43.0


From a60ebe6e79bd7a53731d0cb82b414c34a7813161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 37/59] fix: overlap check compared only the low 32 bits of the
 addresses

---
 lib/src/private/src/mli_check.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 8cba1cb..f96368f 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -243,8 +243,8 @@ bool mli_tensor_is_scalar (const mli_tensor * in) {
 }
 
 bool mli_chk_containers_not_overlapped(const mli_data_container & data1, const mli_data_container & data2) {
-    if ((data1.mem.i32 >= (data2.mem.i32 + (int)(data2.capacity))) ||
-        (data2.mem.i32 >= (data1.mem.i32 + (int)(data1.capacity)))) {
+    if ((data1.mem.pi8 >= data2.mem.pi8 + data2.capacity) ||
+        (data2.mem.pi8 >= data1.mem.pi8 + data1.capacity)) {
         return true;
     }
     return false;
-- 
2.43.0


From f1ec6d62632b6508ed18fd4f9a17c4f7279477ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 38/59] fix: scalar tensor check read through the pointer it
 found to be NULL

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index f96368f..9617f37 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -218,7 +218,7 @@ mli_status mli_chk_scalar_tensor (const mli_tensor * in) {
     // .el_type - any value (any valid element type)
     // .el_params - any value (any valid for primitive)
 
-    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) stat = MLI_STATUS_BAD_TENSOR;
+    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (in->rank == 0) {
         // for tensors with rank 0 no need for extra checks beside quant params.
-- 
2.43.0


From 4a2b71adeca54e44e8f224a6e575f1699159d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 39/59] fix: checks of the LSTM and GRU cells read through NULL
 configuration and LUT pointers

---
 lib/src/private/src/mli_check.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 9617f37..031a450 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -102,6 +102,7 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
 }
 
 mli_status mli_chk_lut(const mli_lut * lut, int buff_size) {
+    if (MLI_CHECK(lut != NULL, "Bad lut pointer")) return MLI_STATUS_BAD_FUNC_CFG;
     if (MLI_CHECK((int)lut->data.capacity >= buff_size, "Insufficient lut data capacity")) {
         return MLI_STATUS_NOT_ENGH_MEM;
     }
@@ -2222,6 +2223,8 @@ mli_status mli_chk_lstm_cell (
     bool fail = false;
 
 
+    if (MLI_CHECK(cfg != NULL, "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
     if (stat != MLI_STATUS_OK) return stat;
@@ -2445,6 +2448,8 @@ mli_status mli_chk_gru_cell (
     bool fail = false;
 
 
+    if (MLI_CHECK(cfg != NULL, "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
     if (stat != MLI_STATUS_OK) return stat;
-- 
2.43.0


From 61ee3213194de8aa3f43820023e561da42f9b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 40/59] fix: rnn_dense checked the output for overlap before
 checking it for NULL

---
 lib/src/private/src/mli_check.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 031a450..2174bf6 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2072,11 +2072,6 @@ mli_status mli_chk_rnn_dense (
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(weights[idx]), "Memory stride for inner most dimension of weights must be 1");
         if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
-        //check that input and output are not overlapped
-        if (MLI_CHECK(mli_chk_tensors_not_overlapped(in[idx], out),"in and out buffer must not be overlapped")) {
-            return MLI_STATUS_INCOMPATEBLE_TENSORS;
-        }
-
     }
 
     // Check bias
@@ -2094,6 +2089,13 @@ mli_status mli_chk_rnn_dense (
     fail |= MLI_CHECK(out->shape[0] == bias->shape[0], "shape mismatch out and bias");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
+    //check that inputs and output are not overlapped
+    for (int idx = 0; idx < inputs_num; idx++) {
+        if (MLI_CHECK(mli_chk_tensors_not_overlapped(in[idx], out),"in and out buffer must not be overlapped")) {
+            return MLI_STATUS_INCOMPATEBLE_TENSORS;
+        }
+    }
+
     if (MLI_CHECK(out->el_type == in[0]->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
-- 
2.43.0


From 3ab928a52b6f2bb08d28587745cf77f95ad71be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 41/59] fix: group convolution check divided by zero when the
 weights are deeper than the input

---
 lib/src/private/src/mli_check.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2174bf6..bcc49f5 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -755,8 +755,9 @@ mli_status mli_chk_group_conv2d_hwcn(
     fail |= MLI_CHECK(bias->rank == 1, "Wrong bias rank");
     fail |= MLI_CHECK(bias->shape[0] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch bias and weights");
 
-    int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
     fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
     fail |= MLI_CHECK(weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
     fail |= MLI_CHECK(out->shape[FMAP_C_DIM_HWC] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch out and weights");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From a70ddbebc1137ae319662023a2e3d9944710ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 42/59] fix: point_to_subtensor check read outside of the
 coordinates for no or too many of them

---
 lib/src/private/src/mli_check.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index bcc49f5..b21189b 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2785,7 +2785,9 @@ mli_status mli_chk_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
     if (MLI_CHECK(out != NULL , "Bad Output tensor  pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (MLI_CHECK(cfg->coord_num <= in->rank, "incorrect number of coordinates"))
+    if (MLI_CHECK(cfg->coord_num > 0 && cfg->coord_num <= in->rank &&
+                  cfg->coord_num <= sizeof(cfg->start_coord) / sizeof(cfg->start_coord[0]),
+                  "incorrect number of coordinates"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
     for (int i = 0; i < cfg->coord_num; i++) {
-- 
2.43.0


From 966add3ee119ec2b3da6e2357f92930e6885ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 43/59] fix: argmax check accepted outputs of the wrong rank
 and a topk that is not positive

---
 lib/src/private/src/mli_check.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index b21189b..da85092 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2948,9 +2948,11 @@ mli_status mli_chk_argmax(const mli_tensor *in, const mli_argmax_cfg *cfg, mli_t
     } else {
         fail |= MLI_CHECK(cfg->topk <= (int)in_size, "For axis < 0 topk   must be less or equal to the total number of elements in in");
     }
+    fail |= MLI_CHECK(cfg->topk > 0, "topk must be greater than zero");
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check out shape
+    fail |= MLI_CHECK(out->rank == 2, "Wrong output rank");
     fail |= MLI_CHECK(out->shape[0] == dim_size, "Out shape[0] should equal dim size");
     fail |= MLI_CHECK((int)out->shape[1] == cfg->topk, "Out shape[1] should equal topk");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From feb25a764eba48edfaa68abf860c178bf12b1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 44/59] fix: data movement check validated the configuration
 only for per-axis tensors and missed a NULL destination

---
 lib/src/private/src/mli_check.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index da85092..b82bb00 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2838,7 +2838,20 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in, false), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
 
+    if (MLI_CHECK(out != NULL , "Bad Output tensor  pointer")) return MLI_STATUS_BAD_TENSOR;
+
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+
+    //check that the configurations are valid
+    for (uint32_t i=0; i < in->rank; i++) {
+        if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+    }
+
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
@@ -2856,16 +2869,6 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == nullptr),
                     "El_params data for out tensor wasn`t initialized in a consistent way");
 
-        //check that the configurations are valid
-        for (uint32_t i=0; i < in->rank; i++) {
-            if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-        }
-
         int32_t in_dim = in->el_params.sa.dim;
         int32_t out_dim = 0;
         for (int dim = 0; dim < (int)in->rank; dim++) {
-- 
2.43.0


From 1b19f193e468b9cd98a82ca13b88e6a6a478dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:24 +0000
Subject: [PATCH 45/59] fix: L2 normalization treats every negative axis as the
 whole tensor

The documentation gives any negative axis that meaning, only -1 had it;
other values read the tensor's shape before its first entry.
---
 lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
index 4785a94..9400ec7 100644
--- a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
@@ -192,7 +192,7 @@ static MLI_FORCE_INLINE mli_status mli_krn_l2_normalize_run(const mli_tensor *in
     }
 
     /* Per Tensor Case */
-    if ( cfg->axis == -1 ) {
+    if ( cfg->axis < 0 ) {
         int shape = mli_prv_squash_tensor_to_one_dim(in, out);
         if (shape) {
             int norm_shift;
-- 
2.43.0


From 496039aabadbb33fabc4da126ba9cfaf49d1ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:24 +0000
Subject: [PATCH 46/59] fix: PReLU treats every negative axis as the whole
 tensor

Any negative axis means a single slope by the documentation of the
configuration, but only -1 selected that path.
---
 lib/src/kernels/transform/mli_krn_prelu.cc | 6 +++---
 lib/src/private/src/mli_check.cc           | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/transform/mli_krn_prelu.cc b/lib/src/kernels/transform/mli_krn_prelu.cc
index 16749cc..88f1ad8 100644
--- a/lib/src/kernels/transform/mli_krn_prelu.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu.cc
@@ -26,7 +26,7 @@ mli_status mli_krn_prelu_fx8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int8_t>(in, slope_coeff, cfg, out);
@@ -41,7 +41,7 @@ mli_status mli_krn_prelu_fx16(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx16(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int16_t>(in, slope_coeff, cfg, out);
@@ -56,7 +56,7 @@ mli_status mli_krn_prelu_sa8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_sa8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_sa8_run(in, slope_coeff, cfg, out);
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index b82bb00..15e3ce5 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1933,7 +1933,7 @@ mli_status mli_chk_prelu (
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         // Check that slope tensors is valid scalar
         stat = MLI_CHECK_STATUS(mli_chk_scalar_tensor (slope_coeff), "Slope should be scalar tensor");
     } else {
@@ -1951,7 +1951,7 @@ mli_status mli_chk_prelu (
     if (MLI_CHECK(cfg->axis < (int)in->rank, "Wrong Axis Configuration")) return MLI_STATUS_BAD_FUNC_CFG;
     fail |= MLI_CHECK(check_inner_most_dimension_is_one(in),
                       "Memory stride of the innermost dimension should be equal to 1 for the input tensor");
-    if (cfg->axis != -1) {
+    if (cfg->axis >= 0) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
         /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
-- 
2.43.0


From e755c86aa489f303eff4e12ea272af60ecd9ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:24 +0000
Subject: [PATCH 47/59] fix: check of in-place conversion covers tensors of
 different types

The comparison of data pointers used by the check is false whenever
element types differ, so conversions within one buffer to a container of
another size were never rejected.
---
 lib/src/private/src/mli_check.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 15e3ce5..83fddb2 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2761,7 +2761,8 @@ mli_status mli_chk_convert_tensor(const mli_tensor *in, mli_tensor *out) {
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
     // Check when output data points to the same memory as input, they have an equal container size.
-    if (mli_hlp_tensor_data_ptr_cmp(in, out))
+    // (mli_hlp_tensor_data_ptr_cmp() is false for tensors of different element types)
+    if (in->data.mem.pi8 == out->data.mem.pi8)
         fail |= MLI_CHECK(mli_hlp_tensor_element_size(in) == mli_hlp_tensor_element_size(out) && check_mem_stride_matches(in, out),
                           "In-place computation is permitted only when tensors have the same container size and mem_stride.");
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
-- 
2.43.0


From 6bed68d392e370ddc48d1da96ba82b8c52a00168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 48/59] fix: compiled kernels took an undefined weight zero
 point for the per-tensor one

Encoding a single zero point with the deprecated method marks it as per-tensor, for which the
zero point was left uninitialized.
---
 lib/src/bricks/impl/mli_prv_quant_ref.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/bricks/impl/mli_prv_quant_ref.h b/lib/src/bricks/impl/mli_prv_quant_ref.h
index 4c4ee84..5bc2f48 100644
--- a/lib/src/bricks/impl/mli_prv_quant_ref.h
+++ b/lib/src/bricks/impl/mli_prv_quant_ref.h
@@ -733,8 +733,7 @@ MLI_FORCE_INLINE void define_quant_params(
     MLI_ASSERT(weights.quant_axis >= -1 &&
                weights.quant_axis < static_cast<int>(weights.t.get_rank()));
     if (weights.quant_axis == -1) {
-        // not supported yet
-        MLI_ASSERT(false);
+        params->weights_offset = get_per_tensor_zp<w_T>(weights.zp);
     } else {
         static_assert(sizeof(w_T) == sizeof(int8_t), "zero points of weights are int8");
         params->weights_offsets_i8 = get_per_channel_zp<w_T>(
-- 
2.43.0


From 307ee8c0ec14e673a420c9787780c7946d307ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 49/59] fix: Move attached with tensors did not use their
 buffers

---
 include/api/mli_ref_compiler_api.hpp | 2 --
 lib/src/move/mli_mov_compiler.cc     | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index a308817..9e20ab7 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -910,8 +910,6 @@ private:
   TensorIterator<OffsetBuffer, kMoveRank, kMoveIterRank> m_src_it;
   TensorIterator<OffsetBuffer, kMoveRank, kMoveIterRank> m_dst_it;
 
-  OffsetBuffer m_src_offset_buf;
-  OffsetBuffer m_dst_offset_buf;
 
 };
 
diff --git a/lib/src/move/mli_mov_compiler.cc b/lib/src/move/mli_mov_compiler.cc
index 7ac4e36..1c8d218 100644
--- a/lib/src/move/mli_mov_compiler.cc
+++ b/lib/src/move/mli_mov_compiler.cc
@@ -53,8 +53,8 @@ mli_status Move_CS::GetKernelPrivateData(void *kernel_private_data_buffer) {
 
 mli_status Move_CS::AttachBufferOffsets(const Tensor<OffsetBuffer, kMoveRank> &src,
                                         const Tensor<OffsetBuffer, kMoveRank> &dst) {
-  m_src_offset_buf = src.get_buf();
-  m_dst_offset_buf = dst.get_buf();
+  m_src_it.set_buf(src.get_buf());
+  m_dst_it.set_buf(dst.get_buf());
 
   assert(src.get_elem_size() == dst.get_elem_size());
 
-- 
2.43.0


From e7d36713d7ab306de698c5ba27210b50869547d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:23 +0000
Subject: [PATCH 50/59] fix: compiled permute prepared 16 bit tensors but left
 their output unwritten

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index c103cc5..78ed08d 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -114,6 +114,13 @@ mli_status Permute::Issue() {
             }
             break;
 
+        case (sizeof(int16_t)):
+            for(uint32_t i = 0; i < kPermuteRank; i++) {
+                cfg.perm_dim[i] = m_perm_dim[i];
+            }
+            mli_ref::mli_krn_permute_run<int16_t, false>(&m_metadata.m_tile_input, &cfg, &m_metadata.m_tile_output);
+            break;
+
         case (sizeof(int8_t)):
             for(uint32_t i = 0; i < kPermuteRank; i++) {
                 cfg.perm_dim[i] = m_perm_dim[i];
-- 
2.43.0


From 7512d3486c0ad5d683f7d0030e0df3faa4f01247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:01 +0000
Subject: [PATCH 51/59] fix: a transposed iterator moved along the wrong
 dimensions unless the order was its own inverse

---
 include/mli_iterator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 4a09b3e..eeb584d 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -345,7 +345,11 @@ class IteratorCfg {
           // axis can only be selected once
           assert((c & (1 << new_order[axis])) == 0);
           c |= (1 << new_order[axis]);
-          iter.m_order[axis] = m_order[axis] < 0 ? -1 : new_order[m_order[axis]];
+          // the dimension moves to the position where it appears in the new order
+          iter.m_order[axis] = -1;
+          for (uint32_t dim = 0; dim < iterRank; dim++) {
+            if (m_order[axis] == (int32_t)new_order[dim]) iter.m_order[axis] = dim;
+          }
           iter.m_count[axis] = m_count[axis];
           iter.m_size[axis] = m_size[axis];
           iter.m_first_size[axis] = m_first_size[axis];
@@ -355,6 +359,7 @@ class IteratorCfg {
           iter.m_last_pos_inc[axis] = m_last_pos_inc[axis];
           iter.m_diff_code[axis] = m_diff_code[axis];
         }
+        iter.m_buf_tiles_num = m_buf_tiles_num;
         return iter;
     }
 
-- 
2.43.0


From 30096e508f69c28ddbc125cf0afcf7312032da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:01 +0000
Subject: [PATCH 52/59] fix: the shrunk buffer grew by the number of tiles for
 every iterated dimension

---
 include/mli_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index eeb584d..abf142c 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -860,8 +860,8 @@ class TensorIterator {
         } else {
           dims[m_config.get_order(i)] = CEIL_RND(dimsz, align);
         }
-        if (!cyclic) dims[0] *= nTiles;
       }
+      if (!cyclic) dims[0] *= nTiles;
       Tensor<buf_T, tensorRank> new_tensor(m_full_tensor.get_buf(), dims, tensorRank);
       for (uint32_t i = 0; i < tensorRank; ++i) m_full_tensor.set_mem_stride(i, new_tensor.get_mem_stride(i));
       m_config.ShrinkCfg(cyclic);
-- 
2.43.0


From dae918c7721e3eb35520dd83f217d9dc66b64aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:01 +0000
Subject: [PATCH 53/59] fix: granularity conversion rounded the negative last
 increment towards zero

---
 include/mli_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index abf142c..a19546d 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -302,7 +302,9 @@ class IteratorCfg {
         m_last_size[i] = CEIL_DIV(m_last_size[i] * old_vector_size, new_vector_size);
         m_first_pos_inc[i] = CEIL_DIV(m_first_pos_inc[i] * old_vector_size, new_vector_size);
         m_pos_inc[i] = CEIL_DIV(m_pos_inc[i] * old_vector_size, new_vector_size);
-        m_last_pos_inc[i] = CEIL_DIV(m_last_pos_inc[i] * old_vector_size, new_vector_size);
+        // leads back to the start of the dimension, so it is usually negative
+        m_last_pos_inc[i] = m_last_pos_inc[i] < 0 ? -CEIL_DIV(-m_last_pos_inc[i] * old_vector_size, new_vector_size)
+                                                  : CEIL_DIV(m_last_pos_inc[i] * old_vector_size, new_vector_size);
       }
     }
 
-- 
2.43.0


From 778c286d497c6747bed7cb4459993d2a74ace08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:54 +0000
Subject: [PATCH 54/59] fix: Tensor::ConvertGran leaves the offset of a sliced
 tensor and loses stride remainders

The offset stayed in old elements, so a converted slice read from another
place; outer strides that are not a multiple of the row stride were rounded
down to one.
---
 include/mli_types.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 7761f53..fccbf14 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -823,10 +823,17 @@ class Tensor {
     if (rank_ > 1) {
       int32_t oldstride = mem_stride_[reverse_order ? tns_dim + 1 : tns_dim - 1];
       int32_t newstride = CEIL_DIV(oldstride * old_vector_size, new_vector_size);
+      // whole rows, and what is left over within a row
+      auto convert = [=](int32_t pos) {
+        return pos / oldstride * newstride + (int32_t)CEIL_DIV(pos % oldstride * old_vector_size, new_vector_size);
+      };
       if (reverse_order)
-        for (int i = 1; i < rank_; ++i) mem_stride_[i] = mem_stride_[i] / oldstride * newstride;
+        for (int i = 1; i < rank_; ++i) mem_stride_[i] = convert(mem_stride_[i]);
       else
-        for (int i = rank_ - 2; i >= 0; --i) mem_stride_[i] = mem_stride_[i] / oldstride * newstride;
+        for (int i = rank_ - 2; i >= 0; --i) mem_stride_[i] = convert(mem_stride_[i]);
+      offset_ = convert(offset_);
+    } else {
+      offset_ = offset_ * old_vector_size / new_vector_size;
     }
   }
 
-- 
2.43.0


From e1fcade2d0332c0c3d412e33a2a3fdaacad633ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:28 +0000
Subject: [PATCH 55/59] fix: buffer positions of iterators over column-major
 tensors and with skipped dimensions

---
 include/mli_iterator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index a19546d..c6c8d86 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -521,6 +521,10 @@ class BufferIterator {
                    const IteratorCfg<iterRank>& cfg)
         : m_buffer_offset{0} {
       m_buffer_size = 1;
+      for (uint32_t i = 0; i < iterRank; i++) {
+        // skipped dimensions don't move the position
+        m_first_offset_inc[i] = m_offset_inc[i] = m_last_offset_inc[i] = m_buffer_dec[i] = 0;
+      }
       for (uint32_t i = 0; i < iterRank; i++) {
         int32_t axis = cfg.get_order(i);
         if (axis == kSkipIterDim) continue;
@@ -596,7 +600,8 @@ class BufferIterator {
      * @param dim [IN] Dimension where end is reached
      */
     void EndOfDim(uint32_t dim) {
-      if (m_buffer_dec[dim] <= m_buffer_offset) {
+      // increments that lead back to the start of the dimension need no fixing
+      if (m_last_offset_inc[dim] > 0 && m_buffer_dec[dim] <= m_buffer_offset) {
         m_buffer_offset -= m_buffer_dec[dim];
       }
     }
-- 
2.43.0


From f2d2fdbb4da6941118d9c5b5edf3856ad734140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:17 +0000
Subject: [PATCH 56/59] fix: SA8/FX8 average pooling with big kernels or scale
 ratios (32-bit overflow of the aligned offset and scaled sum)

---
 lib/src/kernels/pooling/impl/mli_krn_avepool_hwc_ref.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/src/kernels/pooling/impl/mli_krn_avepool_hwc_ref.h b/lib/src/kernels/pooling/impl/mli_krn_avepool_hwc_ref.h
index 5ba2112..0a8df3c 100644
--- a/lib/src/kernels/pooling/impl/mli_krn_avepool_hwc_ref.h
+++ b/lib/src/kernels/pooling/impl/mli_krn_avepool_hwc_ref.h
@@ -133,9 +133,13 @@ static MLI_FORCE_INLINE void compute_avepool_func(
         const int channels) {
 
     MLI_ASSERT(channels == 1);
-    mli_acc32_t accu = mli_prv_init_accu_with_bias_v<mli_acc32_t>(zp, shift_value);
-    accu = reduce_sum2D_v(in, mul, accu, width, height, col_mem_stride, row_mem_stride);
-    mli_prv_clip_and_store_output_v(out, accu, shift_value);
+    // Neither the aligned zero point nor the scaled sum of a big kernel fits in 32 bits
+    const mli_acc32_t sum = reduce_sum2D_v(in, (int16_t)1, (mli_acc32_t)0, width, height,
+                                           col_mem_stride, row_mem_stride);
+    mli_acc40_t accu = mli_prv_init_accu_with_bias_v<mli_acc40_t>(zp, shift_value);
+    accu += (mli_acc40_t)mul * sum;
+    accu = mli_math_asr_rnd_fx<mli_acc40_t>(accu, shift_value);
+    *out = (int8_t)mli_math_sat_fx<mli_acc40_t>(accu, 56);
 }
 
 static MLI_FORCE_INLINE void compute_avepool_func(
-- 
2.43.0


From 2f1edfd50e91aa42282f17e35e1ce86b616fa49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 57/59] fix: mli_hlp_count_elem_num answers 0 for a start
 dimension beyond a tensor of rank 0

---
 lib/src/private/src/mli_check.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 83fddb2..43f4261 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2739,6 +2739,9 @@ mli_status mli_chk_count_elem_num(const mli_tensor *in, uint32_t start_dim) {
     if (in->rank != 0) {
         if (MLI_CHECK(start_dim < in->rank, "start_dim should be smaller than rank"))
             return MLI_STATUS_BAD_FUNC_CFG;
+    } else {
+        if (MLI_CHECK(start_dim == 0, "start_dim should be zero for a tensor of rank 0"))
+            return MLI_STATUS_BAD_FUNC_CFG;
     }
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From 718ed5503ab2f6b817781d83056ed1fde739b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:20 +0000
Subject: [PATCH 58/59] fix: cyclic shrunk buffer ignored gaps between tiles

The gap between tiles further apart than their size was taken for a
negative overlap, which wraps around as unsigned for small alignments, and
two tiles with a gap between them did not both fit.
---
 include/mli_iterator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index c6c8d86..7f21c3a 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -855,15 +855,16 @@ class TensorIterator {
             if (m_config.get_count(0) == 1) {
               dimsz *= nTiles;
             } else if (m_config.get_count(0) == 2) {
-              dimsz = m_config.get_last_size(0) + m_config.get_first_size(0);
+              dimsz = m_config.get_last_size(0) + MAX(m_config.get_first_size(0), static_cast<uint32_t>(m_config.get_first_inc(0)));
               for (uint32_t j = 2; j < nTiles; ++j) dimsz += static_cast<uint32_t>(m_config.get_inc(0)); // ???? Rare case
             } else {
               dimsz += MAX(m_config.get_first_size(0), static_cast<uint32_t>(m_config.get_inc(0)));
               for (uint32_t j = 2; j < nTiles; ++j) dimsz += static_cast<uint32_t>(m_config.get_inc(0));
             }
           }
-          uint32_t overlap = m_config.get_size(0) - static_cast<uint32_t>(m_config.get_inc(0));
-          dims[m_config.get_order(0)] = MAX(dimsz, align * nTiles + overlap);
+          // tiles with a gap between them do not overlap
+          const int32_t overlap = MAX(static_cast<int32_t>(m_config.get_size(0)) - m_config.get_inc(0), 0);
+          dims[m_config.get_order(0)] = MAX(dimsz, align * nTiles + static_cast<uint32_t>(overlap));
         } else {
           dims[m_config.get_order(i)] = CEIL_RND(dimsz, align);
         }
-- 
2.43.0


From 43082f332b5be962c69bec7b6a89bb62cdde032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:37 +0000
Subject: [PATCH 59/59] fix: no-op kernel reported a runtime object size of
 zero

---
 include/api/mli_ref_compiler_api.hpp | 5 ++++-
 lib/src/private/src/mli_runtime.cc   | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index 9e20ab7..b303e1f 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -23,7 +23,10 @@ using lib_mli::NoBuffer;
 class Conv2DPrivateData;
 class Pool2DPrivateData;
 
-class Nop_CS : public lib_mli::Nop_CS {};
+class Nop_CS : public lib_mli::Nop_CS {
+public:
+    unsigned GetRuntimeObjectSize() const override;
+};
 
 class Conv2d_CS : public lib_mli::Conv2d_CS {
 public:
diff --git a/lib/src/private/src/mli_runtime.cc b/lib/src/private/src/mli_runtime.cc
index d25ffd2..2796fd7 100644
--- a/lib/src/private/src/mli_runtime.cc
+++ b/lib/src/private/src/mli_runtime.cc
@@ -39,6 +39,10 @@ using ref::ReduceSum;
 using ref::Prelu;
 using ref::MoveBroadcast;
 
+unsigned ref::Nop_CS::GetRuntimeObjectSize() const {
+    return sizeof(Nop);
+}
+
 ExecutionInterface* ExecutionInterface::Create(
         void* allocation_memory_buffer,
         uint32_t alloc_buf_size,
-- 
2.43.0

