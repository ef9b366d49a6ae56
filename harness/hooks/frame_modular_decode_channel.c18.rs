// C18: rows are decoded left to right with the right neighbourhood for every sample.
mod verif_c18 {
    use super::*;
    use crate::entropy_coding::decode::Codes;
    use crate::entropy_coding::decode::verif_c18h::{empty_histograms, histograms, reader};
    use crate::entropy_coding::huffman::HuffmanCodes;
    use crate::entropy_coding::hybrid_uint::HybridUint;
    use crate::frame::modular::Predictor;
    use crate::frame::modular::tree::TreeNode;
    use crate::headers::bit_depth::BitDepth;
    use crate::verif_rt::*;

    // Records what it is asked for and yields given samples.
    struct Probe<const W: usize> { out: [i32; W], seen: [PredictionData; W], n: usize, pos_ok: bool, y: usize, toptop: bool }
    impl<const W: usize> ModularChannelDecoder for Probe<W> {
        fn needs_toptop(&self) -> bool { self.toptop }
        fn decode_one(&mut self, d: PredictionData, pos: (usize, usize), _: &mut SymbolReader, _: &mut BitReader, _: &Histograms) -> i32 {
            let i = self.n;
            self.n += 1;
            self.pos_ok &= pos == (i, self.y);
            self.seen[i] = d;
            self.out[i]
        }
    }
    fn row<const W: usize>() -> [i32; W] { core::array::from_fn(|_| any_i32()) }
    fn order<const W: usize>(y: usize, toptop: bool) {
        let mut ch = ModularChannel::new((W, 3), BitDepth::integer_samples(8)).ok().unwrap();
        let above: [[i32; W]; 2] = [row(), row()];
        for k in 0..y { ch.data.row_mut(k).copy_from_slice(&above[k]); }
        let mut p = Probe::<W> { out: row(), seen: [PredictionData::default(); W], n: 0, pos_ok: true, y, toptop };
        let h = empty_histograms();
        let (mut rd, mut br) = (reader(), BitReader::new(&[]));
        p.decode_row(&mut [&mut ch], 0, &h, &mut rd, &mut br, y, W);
        assert!(p.n == W && p.pos_ok, "every sample of the row is decoded once, in order");
        let cur = p.out;
        for x in 0..W {
            assert!(ch.data.row(y)[x] == cur[x], "the decoded sample is stored");
            let t = |x: usize| above[y - 1][x];
            let left = if x > 0 { cur[x - 1] } else if y > 0 { t(0) } else { 0 };
            let n = if y > 0 { t(x) } else { left };
            let nw = if x > 0 && y > 0 { t(x - 1) } else { left };
            let ne = if x + 1 < W && y > 0 { t(x + 1) } else { n };
            let ww = if x > 1 { cur[x - 2] } else { left };
            let nee = if x + 2 < W && y > 0 { t(x + 2) } else { ne };
            let nn = if y > 1 { above[y - 2][x] } else { n };
            let d = p.seen[x];
            assert!(d.left == left && d.top == n && d.topleft == nw && d.topright == ne && d.leftleft == ww && d.toprightright == nee, "neighbours");
            assert!(!toptop || d.toptop == nn, "neighbour NN");
        }
        for k in 0..y { for x in 0..W { assert!(ch.data.row(k)[x] == above[k][x], "earlier rows stay"); } }
        core::mem::forget((ch, h, rd));
    }
    harness!(c18_row_first, unwind = 8, { order::<5>(0, true) });
    harness!(c18_row_second, unwind = 8, { order::<5>(1, true) });
    harness!(c18_row_interior, unwind = 9, { order::<6>(2, true) });
    harness!(c18_row_interior_lean, unwind = 9, { order::<6>(2, false) });

    // Small channels: the sample is prediction + offset + multiplier * coded value, with wrapping to 32 bits.
    #[cfg(kani)]
    fn no_wp(_: &mut WeightedPredictorState, _: (usize, usize), _: &PredictionData) -> (i64, i32) { (0, 0) }
    #[cfg(kani)]
    fn no_update(_: &mut WeightedPredictorState, _: i32, _: (usize, usize)) {}
    fn small_channel(pred: Predictor, spec: fn(w: i64, n: i64, nw: i64, ne: i64) -> i64) {
        let (offset, multiplier) = (any_i32(), any_u32());
        let sym = (any_u8() & 15) as u16;
        let dec = if sym & 1 == 0 { sym as i64 / 2 } else { -(sym as i64 + 1) / 2 };
        let codes = Codes::Huffman(HuffmanCodes::verif_new(vec![vec![(1, sym)]]));
        let tree = Tree { nodes: vec![TreeNode::Leaf { predictor: pred, offset, multiplier, id: 0 }], histograms: histograms(vec![0], vec![HybridUint::verif_new(5, 0, 0)], codes, None), num_properties: 1 };
        let h = GroupHeader { use_global_tree: true, wp_header: WeightedHeader { all_default: true, p1c: 16, p2c: 10, p3ca: 7, p3cb: 7, p3cc: 7, p3cd: 0, p3ce: 0, w0: 13, w1: 12, w2: 12, w3: 12 }, transforms: vec![] };
        let mut ch = ModularChannel::new((2, 2), BitDepth::integer_samples(8)).ok().unwrap();
        let (mut rd, mut br) = (reader(), BitReader::new(&[]));
        let r = decode_modular_channel(&mut [&mut ch], 0, 0, &h, &tree, &mut rd, &mut br);
        assert!(ok(r).is_some());
        let mut img = [[0i64; 2]; 2];
        for y in 0..2 {
            for x in 0..2 {
                let w = if x > 0 { img[y][x - 1] } else if y > 0 { img[y - 1][x] } else { 0 };
                let n = if y > 0 { img[y - 1][x] } else { w };
                let nw = if x > 0 && y > 0 { img[y - 1][x - 1] } else { w };
                let ne = if x < 1 && y > 0 { img[y - 1][x + 1] } else { n };
                img[y][x] = (spec(w, n, nw, ne) + offset as i64 + multiplier as i64 * dec) as i32 as i64;
                assert!(ch.data.row(y)[x] as i64 == img[y][x], "decoded sample");
            }
        }
        core::mem::forget((tree, h, ch, rd));
    }
    harness!(c18_small_west, unwind = 6, stub(WeightedPredictorState::predict_and_property, no_wp), stub(WeightedPredictorState::update_errors, no_update), {
        small_channel(Predictor::West, |w, _, _, _| w)
    });
    harness!(c18_small_northeast, unwind = 6, stub(WeightedPredictorState::predict_and_property, no_wp), stub(WeightedPredictorState::update_errors, no_update), {
        small_channel(Predictor::NorthEast, |_, _, _, ne| ne)
    });
}
