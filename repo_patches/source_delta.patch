From dea2056237ee93ce1a324b0ce231b7d80a459f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:28 +0000
Subject: [PATCH 1/6] verif: add cfg(jxl_verif)-guarded include hooks for
 verification harnesses

---
 jxl/src/api/color.rs                                  |  3 +++
 jxl/src/api/data_types.rs                             |  3 +++
 jxl/src/api/decoder.rs                                |  3 +++
 jxl/src/api/inner/box_parser.rs                       |  6 ++++++
 jxl/src/api/inner/codestream_parser/frame_info.rs     |  6 ++++++
 .../api/inner/codestream_parser/frame_scan_info.rs    |  6 ++++++
 jxl/src/api/inner/codestream_parser/image_info.rs     |  6 ++++++
 jxl/src/api/inner/codestream_parser/mod.rs            |  6 ++++++
 jxl/src/api/inner/mod.rs                              |  3 +++
 jxl/src/api/inner/process.rs                          |  6 ++++++
 jxl/src/api/input.rs                                  |  3 +++
 jxl/src/api/options.rs                                |  3 +++
 jxl/src/api/signature.rs                              |  3 +++
 jxl/src/bit_reader.rs                                 |  3 +++
 jxl/src/color/tf.rs                                   |  3 +++
 jxl/src/entropy_coding/ans.rs                         |  6 ++++++
 jxl/src/entropy_coding/context_map.rs                 |  6 ++++++
 jxl/src/entropy_coding/decode.rs                      |  6 ++++++
 jxl/src/entropy_coding/huffman.rs                     |  6 ++++++
 jxl/src/entropy_coding/hybrid_uint.rs                 |  6 ++++++
 jxl/src/features/blending.rs                          |  6 ++++++
 jxl/src/features/epf.rs                               |  3 +++
 jxl/src/features/noise.rs                             |  3 +++
 jxl/src/features/patches.rs                           |  3 +++
 jxl/src/features/spline.rs                            |  3 +++
 jxl/src/frame/adaptive_lf_smoothing.rs                |  6 ++++++
 jxl/src/frame/block_context_map.rs                    |  6 ++++++
 jxl/src/frame/coeff_order.rs                          |  6 ++++++
 jxl/src/frame/color_correlation_map.rs                |  6 ++++++
 jxl/src/frame/decode.rs                               |  3 +++
 jxl/src/frame/group.rs                                |  3 +++
 jxl/src/frame/lf_preview.rs                           |  3 +++
 jxl/src/frame/mod.rs                                  |  3 +++
 jxl/src/frame/modular/buffers.rs                      |  6 ++++++
 jxl/src/frame/modular/decode/bitstream.rs             |  6 ++++++
 jxl/src/frame/modular/decode/channel.rs               |  6 ++++++
 jxl/src/frame/modular/decode/common.rs                |  6 ++++++
 jxl/src/frame/modular/decode/specialized_trees.rs     |  6 ++++++
 jxl/src/frame/modular/flat_tree.rs                    |  6 ++++++
 jxl/src/frame/modular/mod.rs                          |  6 ++++++
 jxl/src/frame/modular/predict.rs                      |  6 ++++++
 jxl/src/frame/modular/transforms/apply_local.rs       |  6 ++++++
 jxl/src/frame/modular/transforms/meta_apply.rs        |  6 ++++++
 jxl/src/frame/modular/transforms/palette.rs           |  6 ++++++
 jxl/src/frame/modular/transforms/rct.rs               |  6 ++++++
 jxl/src/frame/modular/transforms/squeeze.rs           |  6 ++++++
 jxl/src/frame/modular/transforms/step.rs              |  6 ++++++
 jxl/src/frame/modular/tree.rs                         |  6 ++++++
 jxl/src/frame/quant_weights.rs                        |  6 ++++++
 jxl/src/frame/quantizer.rs                            |  3 +++
 jxl/src/frame/render.rs                               |  3 +++
 jxl/src/headers/bit_depth.rs                          |  6 ++++++
 jxl/src/headers/color_encoding.rs                     |  6 ++++++
 jxl/src/headers/encodings.rs                          |  6 ++++++
 jxl/src/headers/extra_channels.rs                     |  6 ++++++
 jxl/src/headers/frame_header.rs                       |  6 ++++++
 jxl/src/headers/image_metadata.rs                     |  6 ++++++
 jxl/src/headers/mod.rs                                |  3 +++
 jxl/src/headers/modular.rs                            |  3 +++
 jxl/src/headers/permutation.rs                        |  6 ++++++
 jxl/src/headers/size.rs                               |  3 +++
 jxl/src/headers/toc.rs                                |  3 +++
 jxl/src/headers/transform_data.rs                     |  6 ++++++
 jxl/src/icc/header.rs                                 |  3 +++
 jxl/src/icc/mod.rs                                    |  3 +++
 jxl/src/icc/stream.rs                                 |  3 +++
 jxl/src/icc/tag.rs                                    |  3 +++
 jxl/src/image/internal.rs                             |  3 +++
 jxl/src/image/output_buffer.rs                        |  6 ++++++
 jxl/src/image/raw.rs                                  |  3 +++
 jxl/src/image/rect.rs                                 |  3 +++
 jxl/src/image/typed.rs                                |  3 +++
 jxl/src/lib.rs                                        | 11 +++++++++++
 jxl/src/render/buffer_splitter.rs                     |  6 ++++++
 jxl/src/render/builder.rs                             |  3 +++
 jxl/src/render/channels.rs                            |  3 +++
 jxl/src/render/internal.rs                            |  3 +++
 jxl/src/render/low_memory_pipeline/group_scheduler.rs |  6 ++++++
 jxl/src/render/low_memory_pipeline/helpers.rs         |  6 ++++++
 jxl/src/render/low_memory_pipeline/input_buffers.rs   |  6 ++++++
 jxl/src/render/low_memory_pipeline/mod.rs             |  6 ++++++
 jxl/src/render/low_memory_pipeline/render_group.rs    |  6 ++++++
 jxl/src/render/low_memory_pipeline/row_buffers.rs     |  6 ++++++
 jxl/src/render/low_memory_pipeline/save/identity.rs   |  6 ++++++
 jxl/src/render/low_memory_pipeline/save/mod.rs        |  6 ++++++
 jxl/src/render/save.rs                                |  3 +++
 jxl/src/render/simd_utils.rs                          |  6 ++++++
 jxl/src/render/simple_pipeline/extend.rs              |  6 ++++++
 jxl/src/render/simple_pipeline/save.rs                |  6 ++++++
 jxl/src/render/stages/blending.rs                     |  6 ++++++
 jxl/src/render/stages/chroma_upsample.rs              |  6 ++++++
 jxl/src/render/stages/convert.rs                      |  6 ++++++
 jxl/src/render/stages/extend.rs                       |  6 ++++++
 jxl/src/render/stages/from_linear.rs                  |  6 ++++++
 jxl/src/render/stages/gaborish.rs                     |  6 ++++++
 jxl/src/render/stages/nearest_neighbor.rs             |  6 ++++++
 jxl/src/render/stages/noise.rs                        |  6 ++++++
 jxl/src/render/stages/patches.rs                      |  6 ++++++
 jxl/src/render/stages/premultiply_alpha.rs            |  6 ++++++
 jxl/src/render/stages/spot.rs                         |  6 ++++++
 jxl/src/render/stages/to_linear.rs                    |  6 ++++++
 jxl/src/render/stages/upsample.rs                     |  6 ++++++
 jxl/src/render/stages/xyb.rs                          |  6 ++++++
 jxl/src/render/stages/ycbcr.rs                        |  6 ++++++
 jxl/src/util/concat_slice.rs                          |  6 ++++++
 jxl/src/util/fast_math.rs                             |  3 +++
 jxl/src/util/float16.rs                               |  3 +++
 jxl/src/util/mod.rs                                   |  3 +++
 jxl/src/util/smallvec.rs                              |  3 +++
 jxl/src/util/xorshift128plus.rs                       |  6 ++++++
 110 files changed, 548 insertions(+)

diff --git a/jxl/src/api/color.rs b/jxl/src/api/color.rs
index e1ab2be..7fe5f84 100644
--- a/jxl/src/api/color.rs
+++ b/jxl/src/api/color.rs
@@ -2756,3 +2756,6 @@ mod test {
         assert!(icc.windows(4).any(|w| w == b"mBA "));
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/api_color.rs"));
diff --git a/jxl/src/api/data_types.rs b/jxl/src/api/data_types.rs
index 01c88f7..508ea02 100644
--- a/jxl/src/api/data_types.rs
+++ b/jxl/src/api/data_types.rs
@@ -289,3 +289,6 @@ pub struct JxlFrameHeader {
     /// Frame size (width, height)
     pub size: (usize, usize),
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/api_data_types.rs"));
diff --git a/jxl/src/api/decoder.rs b/jxl/src/api/decoder.rs
index 4484497..56357e3 100644
--- a/jxl/src/api/decoder.rs
+++ b/jxl/src/api/decoder.rs
@@ -265,3 +265,6 @@ impl JxlDecoder<WithFrameInfo> {
         Ok(self.map_inner_processing_result(inner_result))
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/api_decoder.rs"));
diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 5ed1d9f..95db57d 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -555,3 +555,9 @@ mod tests {
         assert!(input.is_empty());
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/api_inner_box_parser.rs"
+));
diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 484ccae..94cfa0d 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -666,3 +666,9 @@ impl CodestreamParser {
         r
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/api_inner_codestream_parser_frame_info.rs"
+));
diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 15954f9..79a188c 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -172,3 +172,9 @@ impl CodestreamParser {
         &self.frame_scan_info.scanned_frames
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/api_inner_codestream_parser_frame_scan_info.rs"
+));
diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index 1a18722..edd7c9a 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -237,3 +237,9 @@ impl CodestreamParser {
         self.output_color_profile = Some(output_color_profile);
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/api_inner_codestream_parser_image_info.rs"
+));
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 47b6cd7..40578da 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -374,3 +374,9 @@ impl CodestreamParser {
         matches!(self.state, ParserState::Sections { .. })
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/api_inner_codestream_parser_mod.rs"
+));
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index db61cd1..57c0eab 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -170,3 +170,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/api_inner_mod.rs"));
diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 7ac7fbb..b9f2b2f 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -190,3 +190,9 @@ impl JxlDecoderInner {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/api_inner_process.rs"
+));
diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index dd4a91f..4034a04 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -68,3 +68,6 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
             .map(|x| x.saturating_sub(cur) as usize)
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/api_input.rs"));
diff --git a/jxl/src/api/options.rs b/jxl/src/api/options.rs
index 0b165e1..5c75ac8 100644
--- a/jxl/src/api/options.rs
+++ b/jxl/src/api/options.rs
@@ -48,3 +48,6 @@ impl Default for JxlDecoderOptions {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/api_options.rs"));
diff --git a/jxl/src/api/signature.rs b/jxl/src/api/signature.rs
index ebe73e6..9f4a02c 100644
--- a/jxl/src/api/signature.rs
+++ b/jxl/src/api/signature.rs
@@ -158,3 +158,6 @@ mod tests {
         Complete(Some(JxlSignatureType::Codestream))
     );
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/api_signature.rs"));
diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index 4c2d557..305996b 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -271,3 +271,6 @@ mod tests {
         assert_eq!(val, 0x12 >> 1); // Should get the lower 7 bits of 0x12
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/bit_reader.rs"));
diff --git a/jxl/src/color/tf.rs b/jxl/src/color/tf.rs
index 94b9638..d75d61c 100644
--- a/jxl/src/color/tf.rs
+++ b/jxl/src/color/tf.rs
@@ -804,3 +804,6 @@ mod test {
         });
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/color_tf.rs"));
diff --git a/jxl/src/entropy_coding/ans.rs b/jxl/src/entropy_coding/ans.rs
index 9da5cbe..b33ffc2 100644
--- a/jxl/src/entropy_coding/ans.rs
+++ b/jxl/src/entropy_coding/ans.rs
@@ -504,3 +504,9 @@ mod test {
         });
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/entropy_coding_ans.rs"
+));
diff --git a/jxl/src/entropy_coding/context_map.rs b/jxl/src/entropy_coding/context_map.rs
index ec1b9ac..dab3eee 100644
--- a/jxl/src/entropy_coding/context_map.rs
+++ b/jxl/src/entropy_coding/context_map.rs
@@ -74,3 +74,9 @@ pub fn decode_context_map(num_contexts: usize, br: &mut BitReader) -> Result<Vec
         Ok(ctx_map)
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/entropy_coding_context_map.rs"
+));
diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 9318f4e..4b029c9 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -605,3 +605,9 @@ pub struct Checkpoint<const N: usize> {
     ans_reader: AnsReader,
     errors: ErrorState,
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/entropy_coding_decode.rs"
+));
diff --git a/jxl/src/entropy_coding/huffman.rs b/jxl/src/entropy_coding/huffman.rs
index 00702e8..e2407ce 100644
--- a/jxl/src/entropy_coding/huffman.rs
+++ b/jxl/src/entropy_coding/huffman.rs
@@ -561,3 +561,9 @@ mod test {
         );
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/entropy_coding_huffman.rs"
+));
diff --git a/jxl/src/entropy_coding/hybrid_uint.rs b/jxl/src/entropy_coding/hybrid_uint.rs
index e6e3de9..70d2107 100644
--- a/jxl/src/entropy_coding/hybrid_uint.rs
+++ b/jxl/src/entropy_coding/hybrid_uint.rs
@@ -126,3 +126,9 @@ mod test {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/entropy_coding_hybrid_uint.rs"
+));
diff --git a/jxl/src/features/blending.rs b/jxl/src/features/blending.rs
index 5d432e9..b6b680f 100644
--- a/jxl/src/features/blending.rs
+++ b/jxl/src/features/blending.rs
@@ -1012,3 +1012,9 @@ mod tests {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/features_blending.rs"
+));
diff --git a/jxl/src/features/epf.rs b/jxl/src/features/epf.rs
index 23cbf64..aac2f2f 100644
--- a/jxl/src/features/epf.rs
+++ b/jxl/src/features/epf.rs
@@ -85,3 +85,6 @@ impl SigmaSource {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/features_epf.rs"));
diff --git a/jxl/src/features/noise.rs b/jxl/src/features/noise.rs
index 72f5ab5..9bb572e 100644
--- a/jxl/src/features/noise.rs
+++ b/jxl/src/features/noise.rs
@@ -39,3 +39,6 @@ impl Noise {
         ((hi - low) * frac_x + low).clamp(0.0, 1.0)
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/features_noise.rs"));
diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 411ffff..16c5be0 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -2050,3 +2050,6 @@ mod tests {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/features_patches.rs"));
diff --git a/jxl/src/features/spline.rs b/jxl/src/features/spline.rs
index 6729bca..d53b01d 100644
--- a/jxl/src/features/spline.rs
+++ b/jxl/src/features/spline.rs
@@ -2032,3 +2032,6 @@ mod test_splines {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/features_spline.rs"));
diff --git a/jxl/src/frame/adaptive_lf_smoothing.rs b/jxl/src/frame/adaptive_lf_smoothing.rs
index 0e63e92..7501596 100644
--- a/jxl/src/frame/adaptive_lf_smoothing.rs
+++ b/jxl/src/frame/adaptive_lf_smoothing.rs
@@ -123,3 +123,9 @@ pub fn adaptive_lf_smoothing(
     *lf_image = [smoothed0, smoothed1, smoothed2];
     Ok(())
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_adaptive_lf_smoothing.rs"
+));
diff --git a/jxl/src/frame/block_context_map.rs b/jxl/src/frame/block_context_map.rs
index 1f6e537..222309c 100644
--- a/jxl/src/frame/block_context_map.rs
+++ b/jxl/src/frame/block_context_map.rs
@@ -153,3 +153,9 @@ impl BlockContextMap {
         self.num_contexts * NON_ZERO_BUCKETS + ZERO_DENSITY_CONTEXT_COUNT * block_context
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_block_context_map.rs"
+));
diff --git a/jxl/src/frame/coeff_order.rs b/jxl/src/frame/coeff_order.rs
index fb814ac..2910fb8 100644
--- a/jxl/src/frame/coeff_order.rs
+++ b/jxl/src/frame/coeff_order.rs
@@ -177,3 +177,9 @@ mod tests {
         assert_eq!(order_2x1, COEFF_ORDER_2X1);
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_coeff_order.rs"
+));
diff --git a/jxl/src/frame/color_correlation_map.rs b/jxl/src/frame/color_correlation_map.rs
index 22abfe9..5f9c8f9 100644
--- a/jxl/src/frame/color_correlation_map.rs
+++ b/jxl/src/frame/color_correlation_map.rs
@@ -92,3 +92,9 @@ impl ColorCorrelationParams {
         self.y_to_b(self.ytob_lf)
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_color_correlation_map.rs"
+));
diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 6ba1d1c..6dde45d 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -823,3 +823,6 @@ impl Frame {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/frame_decode.rs"));
diff --git a/jxl/src/frame/group.rs b/jxl/src/frame/group.rs
index dd3daed..ab48423 100644
--- a/jxl/src/frame/group.rs
+++ b/jxl/src/frame/group.rs
@@ -667,3 +667,6 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/frame_group.rs"));
diff --git a/jxl/src/frame/lf_preview.rs b/jxl/src/frame/lf_preview.rs
index 957f082..56b21f2 100644
--- a/jxl/src/frame/lf_preview.rs
+++ b/jxl/src/frame/lf_preview.rs
@@ -386,3 +386,6 @@ impl Frame {
         Ok(!regions.is_empty())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/frame_lf_preview.rs"));
diff --git a/jxl/src/frame/mod.rs b/jxl/src/frame/mod.rs
index 67a59a2..d9be1cb 100644
--- a/jxl/src/frame/mod.rs
+++ b/jxl/src/frame/mod.rs
@@ -415,3 +415,6 @@ impl Frame {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/frame_mod.rs"));
diff --git a/jxl/src/frame/modular/buffers.rs b/jxl/src/frame/modular/buffers.rs
index b703a13..a89d560 100644
--- a/jxl/src/frame/modular/buffers.rs
+++ b/jxl/src/frame/modular/buffers.rs
@@ -274,3 +274,9 @@ pub fn with_buffers<T>(
     let bufs: Vec<&mut ModularChannel> = guards.iter_mut().map(|g| g.as_mut().unwrap()).collect();
     f(bufs)
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_buffers.rs"
+));
diff --git a/jxl/src/frame/modular/decode/bitstream.rs b/jxl/src/frame/modular/decode/bitstream.rs
index 2cb07be..53fa0fc 100644
--- a/jxl/src/frame/modular/decode/bitstream.rs
+++ b/jxl/src/frame/modular/decode/bitstream.rs
@@ -233,3 +233,9 @@ pub(in crate::frame::modular) fn decode_modular_subbitstream(
 
     Ok(())
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_decode_bitstream.rs"
+));
diff --git a/jxl/src/frame/modular/decode/channel.rs b/jxl/src/frame/modular/decode/channel.rs
index 6015d3b..ab98135 100644
--- a/jxl/src/frame/modular/decode/channel.rs
+++ b/jxl/src/frame/modular/decode/channel.rs
@@ -245,3 +245,9 @@ pub(super) fn decode_modular_channel(
     })?;
     br.check_for_error()
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_decode_channel.rs"
+));
diff --git a/jxl/src/frame/modular/decode/common.rs b/jxl/src/frame/modular/decode/common.rs
index 10067b2..518626e 100644
--- a/jxl/src/frame/modular/decode/common.rs
+++ b/jxl/src/frame/modular/decode/common.rs
@@ -85,3 +85,9 @@ pub(super) fn precompute_references(
 pub(super) fn make_pixel(dec: i32, mul: u32, guess: i64) -> i32 {
     (guess + (mul as i64) * (dec as i64)) as i32
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_decode_common.rs"
+));
diff --git a/jxl/src/frame/modular/decode/specialized_trees.rs b/jxl/src/frame/modular/decode/specialized_trees.rs
index f9b4a74..18e5743 100644
--- a/jxl/src/frame/modular/decode/specialized_trees.rs
+++ b/jxl/src/frame/modular/decode/specialized_trees.rs
@@ -576,3 +576,9 @@ pub fn run_on_specialized_tree<F: FnOnce(&mut dyn ModularChannelDecoder) -> Resu
     }
     run(&mut FlatTree::new(inner, ReaderGeneric, wp_state))
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_decode_specialized_trees.rs"
+));
diff --git a/jxl/src/frame/modular/flat_tree.rs b/jxl/src/frame/modular/flat_tree.rs
index a0512d2..25f3cad 100644
--- a/jxl/src/frame/modular/flat_tree.rs
+++ b/jxl/src/frame/modular/flat_tree.rs
@@ -160,3 +160,9 @@ impl Tree {
         Ok(flat_nodes)
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_flat_tree.rs"
+));
diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2915378..268f010 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -1120,3 +1120,9 @@ pub fn decode_quant_table(
     }
     Ok(qtable)
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_mod.rs"
+));
diff --git a/jxl/src/frame/modular/predict.rs b/jxl/src/frame/modular/predict.rs
index c6309ac..79b532c 100644
--- a/jxl/src/frame/modular/predict.rs
+++ b/jxl/src/frame/modular/predict.rs
@@ -607,3 +607,9 @@ mod tests {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_predict.rs"
+));
diff --git a/jxl/src/frame/modular/transforms/apply_local.rs b/jxl/src/frame/modular/transforms/apply_local.rs
index 563d5f8..01aa39e 100644
--- a/jxl/src/frame/modular/transforms/apply_local.rs
+++ b/jxl/src/frame/modular/transforms/apply_local.rs
@@ -354,3 +354,9 @@ impl TransformStep {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_transforms_apply_local.rs"
+));
diff --git a/jxl/src/frame/modular/transforms/meta_apply.rs b/jxl/src/frame/modular/transforms/meta_apply.rs
index b027d1f..667156f 100644
--- a/jxl/src/frame/modular/transforms/meta_apply.rs
+++ b/jxl/src/frame/modular/transforms/meta_apply.rs
@@ -725,3 +725,9 @@ pub fn make_grids(
 
     grid_transform_steps
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_transforms_meta_apply.rs"
+));
diff --git a/jxl/src/frame/modular/transforms/palette.rs b/jxl/src/frame/modular/transforms/palette.rs
index 702cc9d..fba20d5 100644
--- a/jxl/src/frame/modular/transforms/palette.rs
+++ b/jxl/src/frame/modular/transforms/palette.rs
@@ -513,3 +513,9 @@ pub fn do_palette_step_group_row(
     }
     Ok(())
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_transforms_palette.rs"
+));
diff --git a/jxl/src/frame/modular/transforms/rct.rs b/jxl/src/frame/modular/transforms/rct.rs
index e77ea0d..e53d651 100644
--- a/jxl/src/frame/modular/transforms/rct.rs
+++ b/jxl/src/frame/modular/transforms/rct.rs
@@ -155,3 +155,9 @@ pub fn do_rct_step(buffers: &mut [&mut ModularChannel], op: RctOp, perm: RctPerm
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_transforms_rct.rs"
+));
diff --git a/jxl/src/frame/modular/transforms/squeeze.rs b/jxl/src/frame/modular/transforms/squeeze.rs
index 2526224..113a900 100644
--- a/jxl/src/frame/modular/transforms/squeeze.rs
+++ b/jxl/src/frame/modular/transforms/squeeze.rs
@@ -1318,3 +1318,9 @@ mod tests {
         assert_eq!(h1_odd, h2_even);
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_transforms_squeeze.rs"
+));
diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index c1b76a4..6a5e3f9 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -1087,3 +1087,9 @@ impl TransformStepChunk {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_transforms_step.rs"
+));
diff --git a/jxl/src/frame/modular/tree.rs b/jxl/src/frame/modular/tree.rs
index 41c12c3..4255d42 100644
--- a/jxl/src/frame/modular/tree.rs
+++ b/jxl/src/frame/modular/tree.rs
@@ -389,3 +389,9 @@ impl Tree {
         self.nodes[tree_node]
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_modular_tree.rs"
+));
diff --git a/jxl/src/frame/quant_weights.rs b/jxl/src/frame/quant_weights.rs
index acb12ef..5485c85 100644
--- a/jxl/src/frame/quant_weights.rs
+++ b/jxl/src/frame/quant_weights.rs
@@ -2139,3 +2139,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/frame_quant_weights.rs"
+));
diff --git a/jxl/src/frame/quantizer.rs b/jxl/src/frame/quantizer.rs
index bdef549..caf4913 100644
--- a/jxl/src/frame/quantizer.rs
+++ b/jxl/src/frame/quantizer.rs
@@ -83,3 +83,6 @@ impl QuantizerParams {
         self.inv_global_scale() / self.quant_lf as f32
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/frame_quantizer.rs"));
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 3c05cd2..7962b90 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -955,3 +955,6 @@ impl Frame {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/frame_render.rs"));
diff --git a/jxl/src/headers/bit_depth.rs b/jxl/src/headers/bit_depth.rs
index 57d3fe1..ca946a7 100644
--- a/jxl/src/headers/bit_depth.rs
+++ b/jxl/src/headers/bit_depth.rs
@@ -105,3 +105,9 @@ impl BitDepth {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_bit_depth.rs"
+));
diff --git a/jxl/src/headers/color_encoding.rs b/jxl/src/headers/color_encoding.rs
index 608e80f..a3a8582 100644
--- a/jxl/src/headers/color_encoding.rs
+++ b/jxl/src/headers/color_encoding.rs
@@ -206,3 +206,9 @@ impl ColorEncoding {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_color_encoding.rs"
+));
diff --git a/jxl/src/headers/encodings.rs b/jxl/src/headers/encodings.rs
index b06c4dd..8eeb9d2 100644
--- a/jxl/src/headers/encodings.rs
+++ b/jxl/src/headers/encodings.rs
@@ -405,3 +405,9 @@ impl UnconditionalCoder<()> for Extensions {
         Ok(Extensions {})
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_encodings.rs"
+));
diff --git a/jxl/src/headers/extra_channels.rs b/jxl/src/headers/extra_channels.rs
index a164596..73f72c7 100644
--- a/jxl/src/headers/extra_channels.rs
+++ b/jxl/src/headers/extra_channels.rs
@@ -99,3 +99,9 @@ impl ExtraChannelInfo {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_extra_channels.rs"
+));
diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 9a7a239..da9f094 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -909,3 +909,9 @@ mod test_frame_header {
         assert_eq!(frame_header.name.len(), 13);
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_frame_header.rs"
+));
diff --git a/jxl/src/headers/image_metadata.rs b/jxl/src/headers/image_metadata.rs
index 3d11270..3f049a2 100644
--- a/jxl/src/headers/image_metadata.rs
+++ b/jxl/src/headers/image_metadata.rs
@@ -246,3 +246,9 @@ impl ImageMetadata {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_image_metadata.rs"
+));
diff --git a/jxl/src/headers/mod.rs b/jxl/src/headers/mod.rs
index 90cae74..0bff756 100644
--- a/jxl/src/headers/mod.rs
+++ b/jxl/src/headers/mod.rs
@@ -82,3 +82,6 @@ impl FileHeader {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/headers_mod.rs"));
diff --git a/jxl/src/headers/modular.rs b/jxl/src/headers/modular.rs
index 842736e..f796211 100644
--- a/jxl/src/headers/modular.rs
+++ b/jxl/src/headers/modular.rs
@@ -147,3 +147,6 @@ pub struct GroupHeader {
     #[size_coder(implicit(u2S(0, 1, Bits(4) + 2, Bits(8) + 18)))]
     pub transforms: Vec<Transform>,
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/headers_modular.rs"));
diff --git a/jxl/src/headers/permutation.rs b/jxl/src/headers/permutation.rs
index b268e3f..44074da 100644
--- a/jxl/src/headers/permutation.rs
+++ b/jxl/src/headers/permutation.rs
@@ -352,3 +352,9 @@ mod test {
         assert!(result.is_err());
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_permutation.rs"
+));
diff --git a/jxl/src/headers/size.rs b/jxl/src/headers/size.rs
index 74989e8..ea525d6 100644
--- a/jxl/src/headers/size.rs
+++ b/jxl/src/headers/size.rs
@@ -139,3 +139,6 @@ impl Preview {
         self.compute_xsize().unwrap()
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/headers_size.rs"));
diff --git a/jxl/src/headers/toc.rs b/jxl/src/headers/toc.rs
index 91cc8f9..557d53a 100644
--- a/jxl/src/headers/toc.rs
+++ b/jxl/src/headers/toc.rs
@@ -168,3 +168,6 @@ mod test {
         });
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/headers_toc.rs"));
diff --git a/jxl/src/headers/transform_data.rs b/jxl/src/headers/transform_data.rs
index 0a46346..f5bace2 100644
--- a/jxl/src/headers/transform_data.rs
+++ b/jxl/src/headers/transform_data.rs
@@ -343,3 +343,9 @@ pub struct CustomTransformData {
     #[default(DEFAULT_KERN_8)]
     pub weights8: [f32; 210],
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/headers_transform_data.rs"
+));
diff --git a/jxl/src/icc/header.rs b/jxl/src/icc/header.rs
index bdf76ad..fd080a8 100644
--- a/jxl/src/icc/header.rs
+++ b/jxl/src/icc/header.rs
@@ -49,3 +49,6 @@ pub(super) fn read_header(data_stream: &mut IccStream, output_size: u64) -> Resu
 
     Ok(profile)
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/icc_header.rs"));
diff --git a/jxl/src/icc/mod.rs b/jxl/src/icc/mod.rs
index 3b92c48..e4bd7b7 100644
--- a/jxl/src/icc/mod.rs
+++ b/jxl/src/icc/mod.rs
@@ -206,3 +206,6 @@ impl IncrementalIccReader {
         Ok(profile)
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/icc_mod.rs"));
diff --git a/jxl/src/icc/stream.rs b/jxl/src/icc/stream.rs
index 0de64e9..a1b95fb 100644
--- a/jxl/src/icc/stream.rs
+++ b/jxl/src/icc/stream.rs
@@ -116,3 +116,6 @@ impl IccStream {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/icc_stream.rs"));
diff --git a/jxl/src/icc/tag.rs b/jxl/src/icc/tag.rs
index e060856..d71c17e 100644
--- a/jxl/src/icc/tag.rs
+++ b/jxl/src/icc/tag.rs
@@ -248,3 +248,6 @@ pub(super) fn read_single_command(
 
     Ok(())
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/icc_tag.rs"));
diff --git a/jxl/src/image/internal.rs b/jxl/src/image/internal.rs
index 0ae5245..84a6b46 100644
--- a/jxl/src/image/internal.rs
+++ b/jxl/src/image/internal.rs
@@ -342,3 +342,6 @@ impl<const S: usize> DistinctRowsIndexes for [usize; S] {
         })
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/image_internal.rs"));
diff --git a/jxl/src/image/output_buffer.rs b/jxl/src/image/output_buffer.rs
index c683888..3a944d0 100644
--- a/jxl/src/image/output_buffer.rs
+++ b/jxl/src/image/output_buffer.rs
@@ -118,3 +118,9 @@ impl<'a> JxlOutputBuffer<'a> {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/image_output_buffer.rs"
+));
diff --git a/jxl/src/image/raw.rs b/jxl/src/image/raw.rs
index 9912576..6fb5e8b 100644
--- a/jxl/src/image/raw.rs
+++ b/jxl/src/image/raw.rs
@@ -166,3 +166,6 @@ impl Debug for RawImageRectMut<'_> {
         )
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/image_raw.rs"));
diff --git a/jxl/src/image/rect.rs b/jxl/src/image/rect.rs
index 18cb868..3183d8b 100644
--- a/jxl/src/image/rect.rs
+++ b/jxl/src/image/rect.rs
@@ -64,3 +64,6 @@ impl Rect {
             && other.end().1 > self.origin.1
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/image_rect.rs"));
diff --git a/jxl/src/image/typed.rs b/jxl/src/image/typed.rs
index f0b14c2..ed610b0 100644
--- a/jxl/src/image/typed.rs
+++ b/jxl/src/image/typed.rs
@@ -259,3 +259,6 @@ impl<T: ImageDataType> Debug for ImageRectMut<'_, T> {
         )
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/image_typed.rs"));
diff --git a/jxl/src/lib.rs b/jxl/src/lib.rs
index 3fd8fae..56c389b 100644
--- a/jxl/src/lib.rs
+++ b/jxl/src/lib.rs
@@ -4,6 +4,17 @@
 // license that can be found in the LICENSE file.
 
 #![deny(unsafe_code)]
+// `jxl_verif` compiles in the verification harnesses found in $JXL_VERIF_DIR; it is never set in
+// normal builds.
+#![allow(unexpected_cfgs)]
+
+#[cfg(jxl_verif)]
+#[macro_use]
+#[doc(hidden)]
+pub mod verif_rt {
+    include!(concat!(env!("JXL_VERIF_DIR"), "/rt.rs"));
+}
+
 pub mod api;
 pub mod bit_reader;
 pub mod color;
diff --git a/jxl/src/render/buffer_splitter.rs b/jxl/src/render/buffer_splitter.rs
index 2b5f2df..f8fa0a6 100644
--- a/jxl/src/render/buffer_splitter.rs
+++ b/jxl/src/render/buffer_splitter.rs
@@ -418,3 +418,9 @@ mod tests {
         });
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_buffer_splitter.rs"
+));
diff --git a/jxl/src/render/builder.rs b/jxl/src/render/builder.rs
index 7ba62ba..4ab3a0b 100644
--- a/jxl/src/render/builder.rs
+++ b/jxl/src/render/builder.rs
@@ -311,3 +311,6 @@ impl<Pipeline: RenderPipeline> RenderPipelineBuilder<Pipeline> {
         Ok(Box::new(Pipeline::new_from_shared(self.shared)?))
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/render_builder.rs"));
diff --git a/jxl/src/render/channels.rs b/jxl/src/render/channels.rs
index 0d81cb8..b8223cf 100644
--- a/jxl/src/render/channels.rs
+++ b/jxl/src/render/channels.rs
@@ -156,3 +156,6 @@ impl<'a, T> std::ops::IndexMut<usize> for ChannelsMut<'a, T> {
         &mut self.row_data[start..start + self.rows_per_channel]
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/render_channels.rs"));
diff --git a/jxl/src/render/internal.rs b/jxl/src/render/internal.rs
index 57f0885..35bc02c 100644
--- a/jxl/src/render/internal.rs
+++ b/jxl/src/render/internal.rs
@@ -254,3 +254,6 @@ pub trait RunInOutStage<Buffer: PipelineBuffer>: InOutStage {
         state: Option<&mut ErasedLocalState>,
     );
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/render_internal.rs"));
diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 322719f..63e8e67 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -342,3 +342,9 @@ mod tests {
         );
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_group_scheduler.rs"
+));
diff --git a/jxl/src/render/low_memory_pipeline/helpers.rs b/jxl/src/render/low_memory_pipeline/helpers.rs
index cf8169a..1e4801d 100644
--- a/jxl/src/render/low_memory_pipeline/helpers.rs
+++ b/jxl/src/render/low_memory_pipeline/helpers.rs
@@ -43,3 +43,9 @@ pub(super) fn get_distinct_indices<'a, T>(
         .map(|x| std::mem::take(x).expect("Not all elements were found"))
         .collect()
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_helpers.rs"
+));
diff --git a/jxl/src/render/low_memory_pipeline/input_buffers.rs b/jxl/src/render/low_memory_pipeline/input_buffers.rs
index 75a2abd..28a1021 100644
--- a/jxl/src/render/low_memory_pipeline/input_buffers.rs
+++ b/jxl/src/render/low_memory_pipeline/input_buffers.rs
@@ -207,3 +207,9 @@ impl InputBuffers {
         })
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_input_buffers.rs"
+));
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 780754a..a1883b1 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -481,3 +481,9 @@ impl RenderPipeline for LowMemoryRenderPipeline {
         &self.shared.channel_is_used
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_mod.rs"
+));
diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 4f28744..25a2788 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -606,3 +606,9 @@ impl LowMemoryRenderPipeline {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_render_group.rs"
+));
diff --git a/jxl/src/render/low_memory_pipeline/row_buffers.rs b/jxl/src/render/low_memory_pipeline/row_buffers.rs
index 69641c7..bb83745 100644
--- a/jxl/src/render/low_memory_pipeline/row_buffers.rs
+++ b/jxl/src/render/low_memory_pipeline/row_buffers.rs
@@ -118,3 +118,9 @@ impl RowBuffer {
         CACHE_LINE_BYTE_SIZE
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_row_buffers.rs"
+));
diff --git a/jxl/src/render/low_memory_pipeline/save/identity.rs b/jxl/src/render/low_memory_pipeline/save/identity.rs
index 478f5bd..aebf9f9 100644
--- a/jxl/src/render/low_memory_pipeline/save/identity.rs
+++ b/jxl/src/render/low_memory_pipeline/save/identity.rs
@@ -275,3 +275,9 @@ pub(super) fn store(
         _ => 0,
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_save_identity.rs"
+));
diff --git a/jxl/src/render/low_memory_pipeline/save/mod.rs b/jxl/src/render/low_memory_pipeline/save/mod.rs
index d5b1e73..c401aea 100644
--- a/jxl/src/render/low_memory_pipeline/save/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/save/mod.rs
@@ -139,3 +139,9 @@ impl SaveStage {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_low_memory_pipeline_save_mod.rs"
+));
diff --git a/jxl/src/render/save.rs b/jxl/src/render/save.rs
index 7118237..d50f995 100644
--- a/jxl/src/render/save.rs
+++ b/jxl/src/render/save.rs
@@ -96,3 +96,6 @@ impl std::fmt::Display for SaveStage {
         )
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/render_save.rs"));
diff --git a/jxl/src/render/simd_utils.rs b/jxl/src/render/simd_utils.rs
index d9ba69c..0685d13 100644
--- a/jxl/src/render/simd_utils.rs
+++ b/jxl/src/render/simd_utils.rs
@@ -236,3 +236,9 @@ mod tests {
         assert_eq!(d_out, d);
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_simd_utils.rs"
+));
diff --git a/jxl/src/render/simple_pipeline/extend.rs b/jxl/src/render/simple_pipeline/extend.rs
index 7f3f764..fcc0f45 100644
--- a/jxl/src/render/simple_pipeline/extend.rs
+++ b/jxl/src/render/simple_pipeline/extend.rs
@@ -91,3 +91,9 @@ impl ExtendToImageDimensionsStage {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_simple_pipeline_extend.rs"
+));
diff --git a/jxl/src/render/simple_pipeline/save.rs b/jxl/src/render/simple_pipeline/save.rs
index 173b951..d79acf3 100644
--- a/jxl/src/render/simple_pipeline/save.rs
+++ b/jxl/src/render/simple_pipeline/save.rs
@@ -244,3 +244,9 @@ mod test {
         })
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_simple_pipeline_save.rs"
+));
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index fbb54ec..eb3e8a0 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -193,3 +193,9 @@ mod test {
         )
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_blending.rs"
+));
diff --git a/jxl/src/render/stages/chroma_upsample.rs b/jxl/src/render/stages/chroma_upsample.rs
index dff0533..4869a19 100644
--- a/jxl/src/render/stages/chroma_upsample.rs
+++ b/jxl/src/render/stages/chroma_upsample.rs
@@ -236,3 +236,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_chroma_upsample.rs"
+));
diff --git a/jxl/src/render/stages/convert.rs b/jxl/src/render/stages/convert.rs
index dd754aa..5fcead4 100644
--- a/jxl/src/render/stages/convert.rs
+++ b/jxl/src/render/stages/convert.rs
@@ -1001,3 +1001,9 @@ mod test {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_convert.rs"
+));
diff --git a/jxl/src/render/stages/extend.rs b/jxl/src/render/stages/extend.rs
index 62576a4..27f2d79 100644
--- a/jxl/src/render/stages/extend.rs
+++ b/jxl/src/render/stages/extend.rs
@@ -112,3 +112,9 @@ mod test {
         )
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_extend.rs"
+));
diff --git a/jxl/src/render/stages/from_linear.rs b/jxl/src/render/stages/from_linear.rs
index c6cd018..ac25f6f 100644
--- a/jxl/src/render/stages/from_linear.rs
+++ b/jxl/src/render/stages/from_linear.rs
@@ -292,3 +292,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_from_linear.rs"
+));
diff --git a/jxl/src/render/stages/gaborish.rs b/jxl/src/render/stages/gaborish.rs
index e2af31d..6b6930a 100644
--- a/jxl/src/render/stages/gaborish.rs
+++ b/jxl/src/render/stages/gaborish.rs
@@ -144,3 +144,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_gaborish.rs"
+));
diff --git a/jxl/src/render/stages/nearest_neighbor.rs b/jxl/src/render/stages/nearest_neighbor.rs
index b866b08..9ca685a 100644
--- a/jxl/src/render/stages/nearest_neighbor.rs
+++ b/jxl/src/render/stages/nearest_neighbor.rs
@@ -98,3 +98,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_nearest_neighbor.rs"
+));
diff --git a/jxl/src/render/stages/noise.rs b/jxl/src/render/stages/noise.rs
index 222315f..ea62e84 100644
--- a/jxl/src/render/stages/noise.rs
+++ b/jxl/src/render/stages/noise.rs
@@ -342,3 +342,9 @@ mod test {
         )
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_noise.rs"
+));
diff --git a/jxl/src/render/stages/patches.rs b/jxl/src/render/stages/patches.rs
index 88f8128..adaa050 100644
--- a/jxl/src/render/stages/patches.rs
+++ b/jxl/src/render/stages/patches.rs
@@ -127,3 +127,9 @@ mod test {
         )
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_patches.rs"
+));
diff --git a/jxl/src/render/stages/premultiply_alpha.rs b/jxl/src/render/stages/premultiply_alpha.rs
index f321108..185ad6a 100644
--- a/jxl/src/render/stages/premultiply_alpha.rs
+++ b/jxl/src/render/stages/premultiply_alpha.rs
@@ -143,3 +143,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_premultiply_alpha.rs"
+));
diff --git a/jxl/src/render/stages/spot.rs b/jxl/src/render/stages/spot.rs
index e27fff6..10a579d 100644
--- a/jxl/src/render/stages/spot.rs
+++ b/jxl/src/render/stages/spot.rs
@@ -113,3 +113,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_spot.rs"
+));
diff --git a/jxl/src/render/stages/to_linear.rs b/jxl/src/render/stages/to_linear.rs
index a231112..902e5c6 100644
--- a/jxl/src/render/stages/to_linear.rs
+++ b/jxl/src/render/stages/to_linear.rs
@@ -232,3 +232,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_to_linear.rs"
+));
diff --git a/jxl/src/render/stages/upsample.rs b/jxl/src/render/stages/upsample.rs
index 7376385..796bfe4 100644
--- a/jxl/src/render/stages/upsample.rs
+++ b/jxl/src/render/stages/upsample.rs
@@ -850,3 +850,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_upsample.rs"
+));
diff --git a/jxl/src/render/stages/xyb.rs b/jxl/src/render/stages/xyb.rs
index 9a0d6bc..4217403 100644
--- a/jxl/src/render/stages/xyb.rs
+++ b/jxl/src/render/stages/xyb.rs
@@ -364,3 +364,9 @@ mod test {
 
     test_all_instruction_sets!(xyb_process_scalar_equivalent);
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_xyb.rs"
+));
diff --git a/jxl/src/render/stages/ycbcr.rs b/jxl/src/render/stages/ycbcr.rs
index b94a47a..6b4aeb4 100644
--- a/jxl/src/render/stages/ycbcr.rs
+++ b/jxl/src/render/stages/ycbcr.rs
@@ -152,3 +152,9 @@ mod test {
         Ok(())
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/render_stages_ycbcr.rs"
+));
diff --git a/jxl/src/util/concat_slice.rs b/jxl/src/util/concat_slice.rs
index 39f016d..d8dcab1 100644
--- a/jxl/src/util/concat_slice.rs
+++ b/jxl/src/util/concat_slice.rs
@@ -121,3 +121,9 @@ mod test {
         assert_eq!(&v, &[0, 1, 2, 3, 4, 5, 6, 7]);
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/util_concat_slice.rs"
+));
diff --git a/jxl/src/util/fast_math.rs b/jxl/src/util/fast_math.rs
index c360428..503b60c 100644
--- a/jxl/src/util/fast_math.rs
+++ b/jxl/src/util/fast_math.rs
@@ -243,3 +243,6 @@ mod test {
         });
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/util_fast_math.rs"));
diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 711c37c..1f4b5e6 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -309,3 +309,6 @@ mod tests {
         assert_eq!(h.to_be_bytes(), [0x12, 0x34]);
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/util_float16.rs"));
diff --git a/jxl/src/util/mod.rs b/jxl/src/util/mod.rs
index da698ee..f36f7a3 100644
--- a/jxl/src/util/mod.rs
+++ b/jxl/src/util/mod.rs
@@ -36,3 +36,6 @@ pub use shift_right_ceil::*;
 pub use smallvec::*;
 pub use vec_helpers::*;
 pub use xorshift128plus::*;
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/util_mod.rs"));
diff --git a/jxl/src/util/smallvec.rs b/jxl/src/util/smallvec.rs
index c314196..e2dcb2e 100644
--- a/jxl/src/util/smallvec.rs
+++ b/jxl/src/util/smallvec.rs
@@ -385,3 +385,6 @@ mod tests {
         });
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(env!("JXL_VERIF_DIR"), "/hooks/util_smallvec.rs"));
diff --git a/jxl/src/util/xorshift128plus.rs b/jxl/src/util/xorshift128plus.rs
index bf55805..ef87ffb 100644
--- a/jxl/src/util/xorshift128plus.rs
+++ b/jxl/src/util/xorshift128plus.rs
@@ -731,3 +731,9 @@ mod test {
         }
     }
 }
+
+#[cfg(jxl_verif)]
+include!(concat!(
+    env!("JXL_VERIF_DIR"),
+    "/hooks/util_xorshift128plus.rs"
+));
-- 
2.43.0


From 0b7974561ef47e691b39810cde50307501bc5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 2/6] fix: report over-reads of a split-off BitReader past its
 own end

---
 jxl/src/bit_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index 305996b..35932e0 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -237,6 +237,8 @@ impl<'a> BitReader<'a> {
         self.jump_to_byte_boundary()?;
         let mut ret = Self { ..*self };
         self.skip_bits(n * 8)?;
+        // `check_for_error` on the returned bitreader must report reads past its own end.
+        ret.initial_bits = ret.total_bits_read + n * 8;
         let bytes_in_buf = ret.bits_in_buf / 8;
         if n > bytes_in_buf {
             // Prevent the returned bitreader from over-reading.
-- 
2.43.0


From cc9355a160dac24302c036451eb35fa6fe6e0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 3/6] fix: convert f16 subnormals correctly in both directions

f16::to_f32 returned half of the value of every subnormal and
f16::from_f32 truncated (and halved) subnormal results; use the same
arithmetic as jxl_simd's f16.
---
 jxl/src/util/float16.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 1f4b5e6..4e686f8 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -54,7 +54,8 @@ impl f16 {
                     e += 1;
                 }
                 m &= 0x3FF; // Remove the implicit leading 1
-                let new_exp = 127 - 15 - e; // Rebias: f16 bias=15, f32 bias=127
+                // f16 denormal exponent is -14 (not -15), adjust by shift count
+                let new_exp = 127 - 14 - e;
                 (sign << 31) | (new_exp << 23) | (m << 13)
             }
         } else if exp == 31 {
@@ -98,13 +99,22 @@ impl f16 {
         } else {
             let unbiased = exp - 127;
 
-            if unbiased < -24 {
+            if unbiased < -25 {
                 // Too small, underflow to zero
                 sign << 15
             } else if unbiased < -14 {
                 // Denormal f16
-                let shift = (-14 - unbiased) as u32;
-                let m = ((mant | 0x0080_0000) >> (shift + 14)) as u16;
+                let shift = (-14 - unbiased + 13) as u32;
+                let full = mant | 0x0080_0000;
+                let m = (full >> shift) as u16;
+                // Round to nearest, ties to even
+                let round_bit = (full >> (shift - 1)) & 1;
+                let sticky = full & ((1 << (shift - 1)) - 1);
+                let m = if round_bit == 1 && (sticky != 0 || (m & 1) == 1) {
+                    m + 1
+                } else {
+                    m
+                };
                 (sign << 15) | m
             } else if unbiased > 15 {
                 // Overflow to infinity
-- 
2.43.0


From 72f03bfdd4ff01b3b807dda04c2904af1cbc0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:22 +0000
Subject: [PATCH 4/6] verif: payload-free error representation under
 cfg(all(kani, jxl_verif))

---
 jxl/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b61d0fa..5876189 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -12,6 +12,7 @@ use crate::entropy_coding::huffman::HUFFMAN_MAX_BITS;
 use crate::features::spline::Point;
 use crate::image::DataTypeTag;
 
+#[cfg(not(all(kani, jxl_verif)))]
 #[derive(Error, Debug)]
 #[non_exhaustive]
 pub enum Error {
@@ -274,3 +275,7 @@ pub enum Error {
 }
 
 pub type Result<T, E = Error> = std::result::Result<T, E>;
+
+// Same constructors, payload-free representation: keeps symbolic execution of `Result`s small.
+#[cfg(all(kani, jxl_verif))]
+include!(concat!(env!("JXL_VERIF_DIR"), "/error.rs"));
-- 
2.43.0


From 3ba0f87d4f8f63a638538919399789de29024d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 5/6] fix: modular sample reconstruction overflows i64 for
 extreme multipliers

---
 jxl/src/frame/modular/decode/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/frame/modular/decode/common.rs b/jxl/src/frame/modular/decode/common.rs
index 518626e..626e75c 100644
--- a/jxl/src/frame/modular/decode/common.rs
+++ b/jxl/src/frame/modular/decode/common.rs
@@ -83,7 +83,7 @@ pub(super) fn precompute_references(
 
 #[inline(always)]
 pub(super) fn make_pixel(dec: i32, mul: u32, guess: i64) -> i32 {
-    (guess + (mul as i64) * (dec as i64)) as i32
+    guess.wrapping_add((mul as i64) * (dec as i64)) as i32
 }
 
 #[cfg(jxl_verif)]
-- 
2.43.0


From 0354799b88c7e113297bc22bcd63c803c1c2fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 6/6] fix: restoring an LZ77 checkpoint panics when no symbol
 was decoded since

---
 jxl/src/entropy_coding/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 4b029c9..5efb927 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -463,7 +463,7 @@ impl SymbolReader {
 
                 let start = (num_decoded & Lz77State::WINDOW_MASK) as usize;
                 let end = ((num_decoded + num_rewind) & Lz77State::WINDOW_MASK) as usize;
-                if start < end {
+                if start <= end {
                     lz77_state.window[start..end].copy_from_slice(rewind_window);
                 } else {
                     let window_first = &mut lz77_state.window[start..];
-- 
2.43.0

