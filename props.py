"""All properties: what they say, what decides them, and within which bounds. gen.py writes properties.jsonl and
MANIFEST.json from this file."""
PROPS, NA, META = {}, {}, {}

TRUST = ["Kani's MIR-to-GOTO translation, CBMC's symbolic execution and bit-blasting, and the SAT solver are correct",
         "Kani executes the release semantics of the dev profile (overflow checks and debug assertions on)"]
NOMEM = ["--no-memory-safety-checks"]  # for modules without unsafe code


def P(id, title, statement, quant, why, files, mech, bounds, outside, engines=None, flags=NOMEM, assumptions=(),
      over=("inputs",), na=None, note="", **kw):
    META[id] = dict(
        id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     hook_needed="cfg(jxl_verif) include of the harness file in the anchored modules"))
    if na:
        NA[id] = na
        return
    PROPS[id] = dict(engines=engines or [dict(engine="kani", filter=id.lower() + "_", flags=list(flags), **kw)],
                     bounds=bounds, outside=outside, assumptions=list(assumptions) + TRUST, note=note)


P("C01", "Bit reader returns exactly the stream's bits and accounts for every one",
  "Reading, peeking, skipping, aligning and splitting a compressed stream yields exactly its bits in order, least "
  "significant first, whatever the sequence of operations. The consumed-bit count always equals the bits requested, "
  "reads that cross the end of the data (or of a split-off section) are reported as out of bounds, optimistic reads past "
  "the end see zero bits only and are reported when checked, and non-zero alignment padding is rejected.",
  "every buffer content, every operation sequence, every width and length within the bounds",
  "the tests read a few fixed buffers; refill boundaries, over-reads and splits depend on content, alignment and history",
  ["jxl/src/bit_reader.rs"], [("BitReader::read/peek/skip_bits/jump_to_byte_boundary/split_at/check_for_error",
                               "jxl/src/bit_reader.rs")],
  "buffers of up to 20 bytes with arbitrary content, sequences of 3 to 4 arbitrary operations with arbitrary widths "
  "(0..=56 bits per read, skips and splits over the whole buffer); memory safety of the unsafe loads is checked too.",
  "longer buffers and longer operation sequences (the reader's state is the buffered word plus the remaining slice, so "
  "these states recur).", flags=[])

P("C02", "Header field codings decode to the exact values and consume the exact bits",
  "Every coded header field type (variable-length 32-bit and 64-bit integers with any distribution, signed integers, "
  "booleans, half floats, names, conditional and defaulted fields, and extension blocks) decodes to the value the format "
  "defines and consumes exactly the bits of its encoding. Non-finite half floats are rejected, absent fields take their "
  "defaults without consuming bits, and extensions are skipped by exactly their announced sizes.",
  "every bit pattern of each field type, every distribution table",
  "tests decode a handful of files whose headers use few of the selector/width combinations",
  ["jxl/src/headers/encodings.rs", "jxl/src/headers/extensions.rs", "jxl/src/util/float16.rs"],
  [("UnconditionalCoder implementations", "jxl/src/headers/encodings.rs"), ("f16 conversion", "jxl/src/util/float16.rs")],
  "all field values; any U32 distribution (0..=32 bits, offsets up to 2^31); names of up to 3 bytes; up to two "
  "extensions present.",
  "longer names, more than two extensions. The bit reader's primitives are replaced by a checked log of fields, C01 "
  "decides the reader itself.", assumptions=["bit reader primitives behave as C01 decides"])

P("C03", "Image header fields and orientation decode as specified",
  "Image size, preview size, orientation, bit depth, animation timing, tone mapping, extra-channel descriptions, colour "
  "encoding and the all-default metadata decode to exactly the values the format assigns to their bits; combinations the "
  "format forbids are rejected and the stream position afterwards is exact. Applying an orientation maps every pixel "
  "inside the image to a distinct pixel inside the oriented image as EXIF defines it.",
  "every bit pattern of each header structure; every orientation and pixel position",
  "the sample files exercise a handful of header combinations out of millions",
  ["jxl/src/headers/size.rs", "jxl/src/headers/image_metadata.rs", "jxl/src/headers/color_encoding.rs"],
  [("derived header readers", "jxl/src/headers"), ("Size ratios", "jxl/src/headers/size.rs"),
   ("Orientation::display_pixel", "jxl/src/headers/image_metadata.rs")],
  "all values of every field of each structure, including whole metadata headers with intrinsic size, preview, animation and two extra channels; names of extra channels empty; image sizes up to 2^16 for orientation.",
  "names of extra channels, more than two extra channels, and metadata headers whose combination of optional parts is not "
  "among the five decided (each part is decided on its own as well).",
  assumptions=["field codings decode as C02 decides (they are replaced by a typed log of fields)"])

P("C04", "Modular sub-stream headers decode as specified and invalid transforms are rejected",
  "The header of a modular sub-bitstream (use of the global tree, parameters of the self-correcting predictor, and the "
  "list of transforms: reversible colour transform, palette, squeeze with its steps) decodes to exactly the values that "
  "the format assigns to its bits, absent fields take their defaults, and exactly its bits are consumed. Transforms with "
  "an undefined kind, colour transform number or predictor are rejected.",
  "every value of every field",
  "tests decode files whose encoder used a handful of transforms and valid ones only",
  ["jxl/src/headers/modular.rs"], [("GroupHeader, Transform, SqueezeParams, WeightedHeader", "jxl/src/headers/modular.rs")],
  "all field values; squeeze transforms of up to 2 steps; up to 3 transforms per header.",
  "more transforms per header and steps per squeeze (the coded counts are decided for these sizes only).",
  assumptions=["field codings decode as C02 decides (they are replaced by a typed log of fields)"])

P("C05", "Frame headers decode as specified and invalid ones are rejected",
  "A frame header decodes to exactly the values the format assigns to its bits: frame type, encoding, flags, chroma "
  "subsampling, upsampling, passes, crop, blending, timing, reference slots, restoration filter and defaults of absent "
  "fields, each field being read exactly when the format's conditions on earlier fields say so. Headers that violate the "
  "format's constraints are rejected, and derived facts (visibility, need for blending, canvas coverage, whether a frame "
  "may be saved before the colour transform) follow from the fields.",
  "every value of every field, for the combinations of layout-determining fields listed in the bounds",
  "the sample files exercise few of the conditional layouts and none of the invalid ones",
  ["jxl/src/headers/frame_header.rs"], [("derived reader and check()", "jxl/src/headers/frame_header.rs")],
  "17 layouts covering all four frame types, both encodings, crop, animation, YCbCr subsampling, all blending modes, LF "
  "frames, one extra channel and three passes; every other field arbitrary. Passes up to 5, restoration filter complete.",
  "frame names, extensions, more than one extra channel.",
  assumptions=["field codings decode as C02 decides (they are replaced by a typed log of fields)"])

P("C06", "Frames divide into groups, LF groups and sections exactly",
  "For every frame size, upsampling, LF level, chroma subsampling and group size the coded, padded and upsampled sizes are "
  "the format's, groups and LF groups tile the frame exactly in raster order without gaps or overlap, and the number of "
  "sections is the one the format defines. The passes' downsampling brackets partition the channel shifts in decreasing "
  "order down to zero.",
  "all frame sizes and group indices, in each combination of group size, upsampling, LF level and subsampling listed",
  "tests decode images of a few sizes; off-by-one errors at group borders depend on the exact size",
  ["jxl/src/headers/frame_header.rs"], [("size*/num_*/group_rect/lf_group_rect/block_group_rect/downsampling_bracket",
                                         "jxl/src/headers/frame_header.rs")],
  "sizes up to 2^30 for dimensions, up to 8000 for rectangles; group size shifts 0..3; upsampling 1..8; LF levels 0, 1, 4; "
  "4:4:4, 4:2:0, 4:2:2, 4:4:0; up to 11 passes (4 for brackets).",
  "rectangles of larger frames, other combinations of upsampling, LF level and subsampling.")

P("C11", "Coded integers have the values their hybrid configuration defines",
  "A coded integer is the token itself below the split, and otherwise the number that the token's exponent, its leading "
  "and trailing bits and the extra bits of the stream denote, exactly that many extra bits being consumed; configurations "
  "decode to the coded split and bit counts, impossible ones are rejected. The specialised reader for the common "
  "configuration returns the same numbers, signed numbers alternate 0, -1, 1, -2, ..., and variable-length 16-bit "
  "integers have their defined values.",
  "every configuration, token and extra-bit content",
  "tests read a few tokens with one configuration",
  ["jxl/src/entropy_coding/hybrid_uint.rs", "jxl/src/entropy_coding/decode.rs"],
  [("HybridUint::decode/read/read_config_420", "jxl/src/entropy_coding/hybrid_uint.rs"),
   ("unpack_signed, decode_varint16", "jxl/src/entropy_coding/decode.rs")],
  "all configurations the decoder accepts for alphabets of 2^5 to 2^8 and 2^15; all tokens up to 2^16; all bits.",
  "none within these functions.")

P("C12", "Back-references repeat exactly the symbols the stream names",
  "When a coded stream uses LZ77, a token at or above the threshold starts a copy of the coded length from the coded "
  "distance back: distances are counted in symbols or, for images, by the table of neighbouring positions and the row "
  "width, and never reach beyond the first symbol or the window. Copies may overlap themselves; literals and copies enter "
  "the history in order, the history keeps the last 2^20 symbols; a copy before the first symbol is an error. A reader "
  "rewound to a checkpoint continues as if nothing had been read since.",
  "every distance symbol, width, history length and stream content within the bounds",
  "tests decode images where copies are short, near and inside one window",
  ["jxl/src/entropy_coding/decode.rs"],
  [("Lz77State::apply_copy/push_decoded_symbol/pull_symbol", "jxl/src/entropy_coding/decode.rs"),
   ("SymbolReader::read_unsigned_clustered_inline/checkpoint/restore", "jxl/src/entropy_coding/decode.rs")],
  "all distance symbols, lengths and history lengths; row widths below 2^26; windows of the full size for single pushes, "
  "pulls and rewinds; whole streams of 3 symbols of arbitrary content.",
  "longer streams (their steps are those decided); the token coding itself is replaced by plain bytes (C09, C10).",
  assumptions=["tokens are coded as plain bytes"])

P("C15", "Reversible colour transforms are undone exactly",
  "Undoing any of the 42 reversible colour transforms of the modular mode (seven operations, six channel permutations) "
  "yields, for every sample and with wrapping 32-bit arithmetic, exactly the three channel values the format defines, "
  "placed in the channels that the permutation names, for every position of a row.",
  "every operation, every permutation, every triple of 32-bit samples",
  "tests use images whose encoder chose a few transforms and small sample values",
  ["jxl/src/frame/modular/transforms/rct.rs"], [("do_rct_step", "jxl/src/frame/modular/transforms/rct.rs")],
  "all operations and permutations, arbitrary 32-bit samples; rows of 2 samples (scalar path) and of 5 samples through "
  "the width-generic code with a 4-lane model of the vector type (one vector and a remainder).",
  "longer rows (samples are independent); the CPU's own vector instructions.")

P("C16", "Inverse squeeze reconstructs exactly the sample pairs the format defines",
  "Undoing a horizontal or vertical squeeze step turns averages and residuals into exactly the sample pairs the format "
  "defines, including the smooth-tendency prediction from the preceding output sample and the following average, the odd "
  "last sample, and the borders taken from neighbouring tiles when present. The width-generic vector formulation yields "
  "the same samples as the scalar one.",
  "every sample value within the bounds, presence and absence of neighbouring tiles, odd and even lengths, vector and "
  "remainder columns",
  "tests decode a few progressive images; rounding and monotonicity cases depend on particular value combinations",
  ["jxl/src/frame/modular/transforms/squeeze.rs"],
  [("unsqueeze_scalar/unsqueeze_impl", "jxl/src/frame/modular/transforms/squeeze.rs"),
   ("hsqueeze_impl/vsqueeze_impl/*_scalar", "jxl/src/frame/modular/transforms/squeeze.rs")],
  "pair kernels: 16-bit samples (scalar), 6-bit samples (vector formulation; 8-bit thorough); steps over up to 5x4 pairs "
  "plus odd sample, vector blocks through a 4-lane model of the vector type, in which the kernels are replaced by a "
  "routing function of the same inputs.",
  "larger tiles, wider samples in the vector formulation, the CPU's own vector instructions, the choice of the default "
  "squeeze sequence.", flags=NOMEM + ["--cbmc-args", "--max-field-sensitivity-array-size", "600"])

P("C07", "Permutations and section tables decode as specified",
  "A coded permutation is the one that its Lehmer code denotes: the leading elements that are exempt stay in place, each "
  "digit selects among the values not used so far, the remaining values follow in order, and every digit is read in the "
  "context that the previous one determines. Digits out of range and too many digits are rejected. Composing "
  "permutations composes their mappings, and an unpermuted table of contents yields exactly the coded section sizes, "
  "incrementally.",
  "every sequence of digits of the sizes in the bounds; every table entry value",
  "tests compare two decoders on random codes but never decide contexts, rejection or all codes of a size",
  ["jxl/src/headers/permutation.rs", "jxl/src/headers/toc.rs"],
  [("Permutation::decode_inner/decode_lehmer_code/compose", "jxl/src/headers/permutation.rs"),
   ("IncrementalTocReader", "jxl/src/headers/toc.rs")],
  "permutations of up to 6 elements (8 thorough) with arbitrary 32-bit digits; tables of 1 and 3 entries.",
  "longer permutations and tables; the entropy coding of the digits (C09 to C12).")

P("C18", "Modular samples decode from predictors, properties and decision trees as specified",
  "Every predictor of the modular mode computes the prediction the format defines from the neighbouring samples, the "
  "neighbours being replaced at image borders as the format says; rows are decoded left to right, each sample once. The "
  "properties that decision trees test (position, neighbours, gradients, differences, and the values, errors and "
  "predictions of reference channels) have the defined values; a tree is walked so that a property greater than the split "
  "value goes to the first child, a flattened tree or lookup table reaches the same leaf, and trees with empty splits are "
  "rejected. A sample is prediction plus offset plus multiplier times coded value, modulo 2^32.",
  "every neighbourhood, position, property value, split value, offset and multiplier; tree shapes within the bounds",
  "tests decode images whose encoder used few predictors and tree shapes, and never extreme samples",
  ["jxl/src/frame/modular/predict.rs", "jxl/src/frame/modular/tree.rs", "jxl/src/frame/modular/flat_tree.rs",
   "jxl/src/frame/modular/decode/common.rs", "jxl/src/frame/modular/decode/channel.rs",
   "jxl/src/frame/modular/decode/specialized_trees.rs"],
  [("Predictor::predict_one, PredictionData", "jxl/src/frame/modular/predict.rs"),
   ("compute_properties, validate_tree, Tree::walk", "jxl/src/frame/modular/tree.rs"),
   ("build_flat_tree, predict_flat", "jxl/src/frame/modular/flat_tree.rs"),
   ("make_pixel, precompute_references", "jxl/src/frame/modular/decode/common.rs"),
   ("ModularChannelDecoder::decode_row, decode_modular_channel", "jxl/src/frame/modular/decode/channel.rs"),
   ("GradientOnly, SingleGradientOnly, make_lut", "jxl/src/frame/modular/decode/specialized_trees.rs")],
  "arbitrary 32-bit samples; trees of up to 9 nodes in the listed shapes with arbitrary split values; rows of 5 and 6 "
  "samples, whole 2x2 channels; two reference channels; lookup tables for a 7-node gradient tree.",
  "the choice among the specialised decoders, the fast path for lossless RLE streams, larger trees and channels.",
  flags=NOMEM + ["--cbmc-args", "--max-field-sensitivity-array-size", "600"])

P("C19", "The self-correcting predictor follows its definition and history exactly",
  "For any history of errors the weighted predictor yields the four sub-predictions, the weights, the weighted, clamped "
  "and rounded prediction and the error property that the format defines; after each sample it records the true error and "
  "the sub-predictors' errors in exactly the defined places, and saving and restoring its state between strips loses "
  "nothing. No history makes it access memory out of bounds or overflow.",
  "every history, neighbourhood and parameter set within the bounds",
  "one test replays four golden steps; weights depend on accumulated errors over many magnitudes",
  ["jxl/src/frame/modular/predict.rs"],
  [("WeightedPredictorState::predict_and_property/update_errors/save_state/restore_state", "jxl/src/frame/modular/predict.rs")],
  "rows of 3 samples, all positions and row parities; memory safety and overflow: arbitrary 32-bit samples, errors and "
  "parameters; property and update: arbitrary; sub-predictions: 10-bit samples, 12-bit errors, all parameters; blend: "
  "default parameters with small samples and errors, and a fixed neighbourhood with errors of 9 bits (32 thorough).",
  "wider operands in the blend; non-default weights in the blend.",
  flags=["--cbmc-args", "--max-field-sensitivity-array-size", "600"])
