// C18: property computation and validation of decision trees.
mod verif_c18 {
    use super::*;
    use crate::verif_rt::*;

    fn props(nrefs: usize) {
        let d = PredictionData { left: any_i32(), top: any_i32(), toptop: any_i32(), topleft: any_i32(), topright: any_i32(), leftleft: any_i32(), toprightright: any_i32() };
        let (x, y) = (any_in(0, 2), any_in(0, 100_000));
        let mut refs = Image::<i32>::new((nrefs, 3)).ok().unwrap();
        let mut rv = [[0i32; 4]; 3];
        for i in 0..3 { for j in 0..nrefs { rv[i][j] = any_i32(); refs.row_mut(i)[j] = rv[i][j]; } }
        let mut buf = [0i32; 24];
        let (chan, stream, grad) = (any_i32(), any_i32(), any_i32());
        buf[0] = chan;
        buf[1] = stream;
        buf[9] = grad; // gradient of the preceding sample
        let wp = compute_properties(d, None, x, y, &refs, &mut buf);
        assert!(wp == 0);
        let abs = |v: i32| if v < 0 { 0i32.wrapping_sub(v) } else { v };
        let w = |a: i64| a as i32;
        let (l, t) = (d.left as i64, d.top as i64);
        assert!(buf[0] == chan && buf[1] == stream, "static properties");
        assert!(buf[2] == y as i32 && buf[3] == x as i32, "position");
        assert!(buf[4] == abs(d.top) && buf[5] == abs(d.left) && buf[6] == d.top && buf[7] == d.left, "N and W");
        assert!(buf[8] == w(l - grad as i64), "W minus the preceding gradient");
        assert!(buf[9] == w(l + t - d.topleft as i64), "gradient");
        assert!(buf[10] == w(l - d.topleft as i64), "W - NW");
        assert!(buf[11] == w(d.topleft as i64 - t), "NW - N");
        assert!(buf[12] == w(t - d.topright as i64), "N - NE");
        assert!(buf[13] == w(t - d.toptop as i64), "N - NN");
        assert!(buf[14] == w(l - d.leftleft as i64), "W - WW");
        assert!(buf[15] == 0, "weighted predictor property without a weighted predictor");
        for j in 0..8 { assert!(buf[16 + j] == if j < nrefs { rv[x][j] } else { 0 }, "reference properties"); }
        core::mem::forget(refs);
    }
    harness!(c18_properties, unwind = 12, { props(0) });
    harness!(c18_properties_refs, unwind = 12, { props(4) });

    // A tree is valid exactly when every split leaves both children a non-empty range of its property.
    fn split(l: u32) -> (TreeNode, u8, i32) {
        let (p, v) = (any_in(0, 1) as u8, any_i32());
        (TreeNode::Split { property: p, val: v, left: l, right: l + 1 }, p, v)
    }
    fn leaf() -> TreeNode { TreeNode::Leaf { predictor: Predictor::Zero, offset: 0, multiplier: 1, id: 0 } }
    // Whether v splits the range of values allowed by the given ancestors (property, value, went left).
    fn splits(p: u8, v: i32, anc: &[(u8, i32, bool)]) -> bool {
        let (mut lo, mut hi) = (i32::MIN as i64, i32::MAX as i64);
        for &(q, w, greater) in anc {
            if q == p { if greater { lo = lo.max(w as i64 + 1) } else { hi = hi.min(w as i64) } }
        }
        lo <= v as i64 && (v as i64) < hi
    }
    harness!(c18_validate_chain, unwind = 24, {
        // root -> left split -> right split
        let (n0, p0, v0) = split(1);
        let (n1, p1, v1) = split(3);
        let (n4, p4, v4) = split(5);
        let nodes = [n0, n1, leaf(), leaf(), n4, leaf(), leaf()];
        let good = splits(p0, v0, &[]) && splits(p1, v1, &[(p0, v0, true)]) && splits(p4, v4, &[(p0, v0, true), (p1, v1, false)]);
        assert!(ok(validate_tree(&nodes, 2)).is_some() == good, "valid exactly when no split has an empty side");
    });
    harness!(c18_validate_both, unwind = 24, {
        let (n0, p0, v0) = split(1);
        let (n1, p1, v1) = split(3);
        let (n2, p2, v2) = split(5);
        let nodes = [n0, n1, n2, leaf(), leaf(), leaf(), leaf()];
        let good = splits(p0, v0, &[]) && splits(p1, v1, &[(p0, v0, true)]) && splits(p2, v2, &[(p0, v0, false)]);
        assert!(ok(validate_tree(&nodes, 2)).is_some() == good, "valid exactly when no split has an empty side");
    });

    // Walking a tree: greater than the split value goes to the first child.
    fn wsplit(l: u32) -> TreeNode { TreeNode::Split { property: any_in(0, 2) as u8, val: any_i32(), left: l, right: l + 1 } }
    fn wleaf(id: u32) -> TreeNode { TreeNode::Leaf { predictor: Predictor::Gradient, offset: any_i32(), multiplier: any_u32(), id } }
    fn decide(nodes: &[TreeNode], at: usize, p: &[i32; 3]) -> (i32, u32, u32) {
        match nodes[at] {
            TreeNode::Leaf { offset, multiplier, id, .. } => (offset, multiplier, id),
            TreeNode::Split { property, val, left, right } => {
                let (l, r) = (decide(nodes, left as usize, p), decide(nodes, right as usize, p));
                if p[property as usize] > val { l } else { r }
            }
        }
    }
    fn walk<const N: usize>(nodes: [TreeNode; N]) {
        let p = [any_i32(), any_i32(), any_i32()];
        let want = decide(&nodes, 0, &p);
        let tree = Tree { nodes: nodes.to_vec(), histograms: crate::entropy_coding::decode::verif_c18h::empty_histograms(), num_properties: 3 };
        let TreeNode::Leaf { offset, multiplier, id, predictor } = tree.walk(&p) else { panic!("walk ends at a leaf") };
        assert!((offset, multiplier, id) == want && predictor == Predictor::Gradient, "tree walk reaches the decided leaf");
        core::mem::forget(tree);
    }
    harness!(c18_walk_one, unwind = 5, { walk([wsplit(1), wleaf(0), wleaf(1)]) });
    harness!(c18_walk_full, unwind = 9, { walk([wsplit(1), wsplit(3), wsplit(5), wleaf(0), wleaf(1), wleaf(2), wleaf(3)]) });
    harness!(c18_walk_left, unwind = 9, { walk([wsplit(1), wsplit(3), wleaf(0), wsplit(5), wleaf(1), wleaf(2), wleaf(3)]) });
    harness!(c18_walk_right, unwind = 9, { walk([wsplit(1), wleaf(0), wsplit(3), wsplit(5), wleaf(1), wleaf(2), wleaf(3)]) });
}
