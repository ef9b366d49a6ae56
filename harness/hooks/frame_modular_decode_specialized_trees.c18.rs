// C18: whatever specialised decoder is chosen for a tree, samples decode as the tree says.
mod verif_c18 {
    use super::*;
    use crate::entropy_coding::decode::verif_c18h::{histograms, reader};
    use crate::entropy_coding::decode::Codes;
    use crate::entropy_coding::huffman::HuffmanCodes;
    use crate::entropy_coding::hybrid_uint::HybridUint;
    use crate::headers::modular::WeightedHeader;
    use crate::verif_rt::*;

    fn small() -> i32 { any_i8() as i32 }
    fn any_data() -> PredictionData {
        PredictionData { left: small(), top: small(), toptop: small(), topleft: small(), topright: small(), leftleft: small(), toprightright: small() }
    }
    pub fn header() -> GroupHeader {
        GroupHeader {
            use_global_tree: true,
            wp_header: WeightedHeader { all_default: true, p1c: 16, p2c: 10, p3ca: 7, p3cb: 7, p3cc: 7, p3cd: 0, p3ce: 0, w0: 13, w1: 12, w2: 12, w3: 12 },
            transforms: vec![],
        }
    }
    /// Entropy coding in which cluster c always yields the signed value of SYM[c] (0..=15), coded with `bits` zero bits.
    pub struct Coding { pub sym: [u16; 4], pub bits: u8 }
    pub fn tree_of(nodes: Vec<TreeNode>, map: Vec<u8>, c: &Coding, split_exp: u32) -> Tree {
        let codes = Codes::Huffman(HuffmanCodes::verif_new((0..4).map(|i| vec![(c.bits, c.sym[i])]).collect()));
        let cfg = (0..4).map(|_| HybridUint::verif_new(split_exp, if split_exp == 4 { 2 } else { 0 }, 0)).collect();
        Tree { nodes, histograms: histograms(map, cfg, codes, None), num_properties: 16 }
    }
    pub fn coding(bits: u8) -> Coding {
        let mut sym = [0u16; 4];
        for s in sym.iter_mut() { *s = (any_u8() & 15) as u16; }
        Coding { sym, bits }
    }
    pub fn unpack(s: u16) -> i64 { let s = s as i64; if s & 1 == 0 { s / 2 } else { -(s + 1) / 2 } }

    fn s(property: u8, val: i32, left: u32) -> TreeNode { TreeNode::Split { property, val, left, right: left + 1 } }
    fn l(p: Predictor, id: u32) -> TreeNode { TreeNode::Leaf { predictor: p, offset: 0, multiplier: 1, id } }

    // The sample the tree denotes, given the values of its properties.
    fn sample(nodes: &[TreeNode], at: usize, prop: &dyn Fn(u8) -> i64, d: PredictionData, wp: i64, map: &[u8], c: &Coding) -> i32 {
        match nodes[at] {
            TreeNode::Leaf { predictor, offset, multiplier, id } => {
                let dec = unpack(c.sym[map[id as usize] as usize]);
                (predictor.predict_one(d, wp) + offset as i64 + multiplier as i64 * dec) as i32
            }
            TreeNode::Split { property, val, left, right } => {
                let a = sample(nodes, left as usize, prop, d, wp, map, c);
                let b = sample(nodes, right as usize, prop, d, wp, map, c);
                if prop(property) > val as i64 { a } else { b }
            }
        }
    }

    /// Two consecutive samples of a row through a decoder for the tree.
    fn two<T: ModularChannelDecoder>(t: &mut T, tree: &Tree, nodes: &[TreeNode], c: &Coding, wp: bool) {
        let (d0, d1) = (any_data(), any_data());
        let y = any_in(2, 3);
        let h = header();
        let mut got = [0i32; 2];
        let mut br = BitReader::new(&[]);
        let mut rd = reader();
        t.init_row(&mut [], 0, y);
        got[0] = t.decode_one(d0, (2, y), &mut rd, &mut br, &tree.histograms);
        got[1] = t.decode_one(d1, (3, y), &mut rd, &mut br, &tree.histograms);
        let mut state = WeightedPredictorState::new(&h.wp_header, 8);
        let mut grad = 0i64;
        for i in 0..2 {
            let d = if i == 0 { d0 } else { d1 };
            let (wpred, wprop) = if wp { state.predict_and_property((2 + i, y), &d) } else { (0, 0) };
            let (w, n, nw) = (d.left as i64, d.top as i64, d.topleft as i64);
            let prop = |p: u8| match p {
                2 => y as i64,
                3 => 2 + i as i64,
                4 => n.abs(),
                8 => w - grad,
                9 => w + n - nw,
                13 => n - d.toptop as i64,
                15 => wprop as i64,
                _ => 0,
            };
            let want = sample(nodes, 0, &prop, d, wpred, &[0, 1, 2, 3], c);
            assert!(got[i] == want, "decoded sample is the one the tree denotes");
            grad = w + n - nw;
            if wp { state.update_errors(want, (2 + i, y)); }
        }
        core::mem::forget((state, rd, h));
    }
    use Predictor::*;
    harness!(c18_spec_single_gradient, unwind = 7, {
        let c = coding(1);
        let nodes = [l(Gradient, 2)];
        let tree = tree_of(vec![], vec![], &c, 5);
        two(&mut SingleGradientOnly { clustered_ctx: 2, reader: ReaderGeneric }, &tree, &nodes, &c, false);
        core::mem::forget(tree);
    });
    harness!(c18_spec_gradient_lut, unwind = 12, {
        let c = coding(1);
        let nodes = [s(9, 10, 1), s(9, 100, 3), s(9, -30, 5), l(Gradient, 0), l(Gradient, 1), l(Gradient, 2), l(Gradient, 3)];
        let tree = tree_of(vec![], vec![], &c, 4);
        let mut t = GradientOnly::new(&nodes, Reader420NoLz).unwrap();
        two(&mut t, &tree, &nodes, &c, false);
        core::mem::forget((tree, t));
    });
    // Trees that the lookup table cannot represent must not get one.
    harness!(c18_spec_lut_refused, unwind = 12, {
        assert!(make_lut(&[s(9, 1023, 1), l(Gradient, 0), l(Gradient, 1)]).is_none(), "split above the table");
        assert!(make_lut(&[s(9, -1025, 1), l(Gradient, 0), l(Gradient, 1)]).is_none(), "split below the table");
        let (offset, multiplier) = (any_i32(), any_u32());
        assume(offset != 0 || multiplier != 1);
        assert!(make_lut(&[TreeNode::Leaf { predictor: Gradient, offset, multiplier, id: 0 }]).is_none(), "leaf with an offset or multiplier");
    });
}
