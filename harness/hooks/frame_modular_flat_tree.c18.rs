// C18: decision trees of the modular mode, walked directly and flattened.
mod verif_c18 {
    use super::*;
        use crate::verif_rt::*;

    pub fn any_data() -> PredictionData {
        PredictionData { left: any_i32(), top: any_i32(), toptop: any_i32(), topleft: any_i32(), topright: any_i32(), leftleft: any_i32(), toprightright: any_i32() }
    }
    // Only the properties named here are split on, so that the solver sees a small state.
    const PROPS: [u8; 4] = [2, 4, 7, 14];
    fn split(l: u32) -> TreeNode {
        let p = PROPS[any_in(0, PROPS.len() - 1)];
        TreeNode::Split { property: p, val: any_i32(), left: l, right: l + 1 }
    }
    fn leaf(id: u32) -> TreeNode { TreeNode::Leaf { predictor: [Predictor::North, Predictor::Select, Predictor::Zero, Predictor::AverageAll, Predictor::WestWest][id as usize], offset: any_i32(), multiplier: any_u32(), id } }

    // Stands for the predictors (decided on their own): names the predictor and one neighbour.
    #[cfg(kani)]
    fn route(p: &Predictor, d: PredictionData, wp: i64) -> i64 { ((*p as i64) << 40) + d.top as i64 + wp }
    #[cfg(not(kani))]
    fn route(p: &Predictor, d: PredictionData, wp: i64) -> i64 { p.predict_one(d, wp) }
    // The leaf that the decisions lead to: greater goes to the first child. Concrete recursion over the topology.
    fn decide(nodes: &[TreeNode], at: usize, d: &PredictionData, y: usize) -> (Predictor, i32, u32, u32) {
        match nodes[at] {
            TreeNode::Leaf { predictor, offset, multiplier, id } => (predictor, offset, multiplier, id),
            TreeNode::Split { property, val, left, right } => {
                let abs = |v: i32| if v < 0 { 0i32.wrapping_sub(v) } else { v };
                let p = match property { 2 => y as i32, 4 => abs(d.top), 7 => d.left, _ => d.left.wrapping_sub(d.leftleft) };
                let (l, r) = (decide(nodes, left as usize, d, y), decide(nodes, right as usize, d, y));
                if p > val { l } else { r }
            }
        }
    }
    /// The flattened tree gives that leaf.
    fn flat<const N: usize>(nodes: [TreeNode; N]) {
        let d = any_data();
        let (x, y) = (any_in(0, 1), any_in(0, 5));
        let (p, offset, multiplier, id) = decide(&nodes, 0, &d, y);
        let guess = route(&p, d, 0) + offset as i64;
        let refs = Image::<i32>::new((0, 2)).ok().unwrap();
        let flat = ok(Tree::build_flat_tree(&nodes)).unwrap();
        let mut buf = [0i32; 256];
        let b = predict_flat(&flat, d, None, (x, y), &refs, &mut buf);
        assert!(b.guess == guess && b.multiplier == multiplier && b.context == id, "flattened tree reaches the decided leaf");
        core::mem::forget(flat);
        core::mem::forget(refs);
    }
    harness!(c18_flat_leaf, unwind = 6, stub(Predictor::predict_one, route), { flat([leaf(0)]) });
    harness!(c18_flat_one, unwind = 8, stub(Predictor::predict_one, route), { flat([split(1), leaf(0), leaf(1)]) });
    harness!(c18_flat_full, unwind = 12, stub(Predictor::predict_one, route), { flat([split(1), split(3), split(5), leaf(0), leaf(1), leaf(2), leaf(3)]) });
    harness!(c18_flat_left, unwind = 16, stub(Predictor::predict_one, route), {
        flat([split(1), split(3), leaf(0), split(5), leaf(1), split(7), leaf(2), leaf(3), leaf(4)])
    });
    harness!(c18_flat_right, unwind = 16, stub(Predictor::predict_one, route), {
        flat([split(1), leaf(0), split(3), leaf(1), split(5), split(7), leaf(2), leaf(3), leaf(4)])
    });
}
