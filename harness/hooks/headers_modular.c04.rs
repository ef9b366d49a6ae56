// C04: modular sub-bitstream headers.
mod verif_c04 {
    use super::*;
    use crate::verif_rt::fields::*;
    use crate::verif_rt::*;
    use core::mem::ManuallyDrop;

    const CHANNEL: [(usize, u64); 4] = [(3, 0), (6, 8), (10, 72), (13, 1096)];

    // Parameters of the self-correcting predictor.
    fn s_wp(default: bool) -> [u64; 11] {
        flag_val(default);
        let d = [16, 10, 7, 7, 7, 0, 0, 13, 12, 12, 12];
        core::array::from_fn(|i| if default { d[i] } else { bits(if i < 7 { 5 } else { 4 }) })
    }
    fn same_wp(w: &WeightedHeader, v: &[u64; 11]) -> bool {
        let g = [w.p1c, w.p2c, w.p3ca, w.p3cb, w.p3cc, w.p3cd, w.p3ce, w.w0, w.w1, w.w2, w.w3];
        let mut same = true;
        for i in 0..11 { same &= g[i] as u64 == v[i]; }
        same
    }
    fn wp(default: bool) {
        let v = s_wp(default);
        let mut br = reader();
        let w = ok(WeightedHeader::read_unconditional(&(), &mut br, &Empty {})).unwrap();
        assert!(w.all_default == default && same_wp(&w, &v), "predictor parameters");
        assert!(consumed(&br), "bits consumed");
    }
    harness!(c04_wp_default, unwind = 12, fields { wp(true); });
    harness!(c04_wp, unwind = 12, fields { wp(false); });

    struct T { id: u64, begin: u64, rct: u64, nc: u64, colors: u64, deltas: u64, pred: u64, n: usize, sq: [(bool, bool, u64, u64); 2] }
    /// A transform of the given kind (squeeze with n steps) and whether it is valid.
    fn s_transform(id: u64, n: usize) -> (T, bool) {
        let mut t = T { id, begin: 0, rct: 6, nc: 3, colors: 256, deltas: 0, pred: 0, n, sq: [(false, false, 0, 0); 2] };
        bits_val(2, id);
        let mut valid = id != 3;
        if id < 2 { t.begin = sel(CHANNEL); }
        if id == 0 {
            t.rct = sel([(0, 6), (2, 0), (4, 2), (6, 10)]);
            valid = t.rct < 42;
        }
        if id == 1 {
            t.nc = sel([(0, 1), (0, 3), (0, 4), (13, 1)]);
            t.colors = sel([(8, 0), (10, 256), (12, 1280), (16, 5376)]);
            t.deltas = sel([(0, 0), (8, 1), (10, 257), (16, 1281)]);
            t.pred = bits(4);
            valid = t.pred < 14;
        }
        if id == 2 {
            sel_val([(0, 0), (4, 1), (6, 9), (8, 41)], if n == 0 { 0 } else { 1 }, n as u64);
            for i in 0..n {
                let h = flag();
                let p = flag();
                let b = sel(CHANNEL);
                let c = sel([(0, 1), (0, 2), (0, 3), (4, 4)]);
                t.sq[i] = (h, p, b, c);
            }
        }
        (t, valid)
    }
    fn same_transform(g: &Transform, t: &T) -> bool {
        let mut same = g.id as u64 == t.id && g.begin_channel as u64 == t.begin && g.rct_type as u64 == t.rct
            && g.num_channels as u64 == t.nc && g.num_colors as u64 == t.colors && g.num_deltas as u64 == t.deltas
            && g.predictor_id as u64 == t.pred && g.squeezes.len() == t.n;
        for i in 0..2 {
            if i < t.n {
                let s = &g.squeezes[i];
                same &= s.horizontal == t.sq[i].0 && s.in_place == t.sq[i].1 && s.begin_channel as u64 == t.sq[i].2
                    && s.num_channels as u64 == t.sq[i].3;
            }
        }
        same
    }
    fn transform(id: u64, n: usize) {
        let (t, valid) = s_transform(id, n);
        if !valid { invalid(); }
        let mut br = reader();
        let r = ManuallyDrop::new(ok(Transform::read_unconditional(&(), &mut br, &Empty {})));
        assert!(r.is_some() == valid, "valid transforms are accepted, others rejected");
        if let Some(g) = &*r {
            assert!(same_transform(g, &t), "transform fields");
            assert!(consumed(&br), "bits consumed");
        }
        reach!(r.is_some() || id == 3);
    }
    harness!(c04_rct, unwind = 8, fields { transform(0, 0); });
    harness!(c04_palette, unwind = 8, fields { transform(1, 0); });
    harness!(c04_squeeze0, unwind = 8, fields { transform(2, 0); });
    harness!(c04_squeeze2, unwind = 8, fields { transform(2, 2); });
    harness!(c04_invalid, unwind = 8, fields { transform(3, 0); });

    // Whole group headers: kinds of the transforms as listed.
    fn group<const N: usize>(default_wp: bool, ids: [(u64, usize); N]) {
        let global = flag();
        let w = s_wp(default_wp);
        sel_val([(0, 0), (0, 1), (4, 2), (8, 18)], N.min(2), N as u64);
        let mut valid = true;
        let t = ids.map(|(id, n)| { let (t, v) = s_transform(id, n); valid &= v; t });
        if !valid { invalid(); }
        let mut br = reader();
        let r = ManuallyDrop::new(ok(GroupHeader::read_unconditional(&(), &mut br, &Empty {})));
        assert!(r.is_some() == valid, "valid headers are accepted, others rejected");
        if let Some(g) = &*r {
            assert!(g.use_global_tree == global && same_wp(&g.wp_header, &w) && g.transforms.len() == N, "group header fields");
            for i in 0..N { assert!(same_transform(&g.transforms[i], &t[i]), "transforms in coded order"); }
            assert!(consumed(&br), "bits consumed");
        }
        reach!(r.is_some());
    }
    harness!(c04_group0, unwind = 12, fields { group(false, []); });
    harness!(c04_group1, unwind = 12, fields { group(true, [(0, 0)]); });
    harness!(c04_group3, unwind = 12, fields { group(true, [(1, 0), (2, 1), (0, 0)]); });
}
