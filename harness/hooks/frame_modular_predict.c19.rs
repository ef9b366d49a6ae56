// C19: the self-correcting (weighted) predictor.
mod verif_c19 {
    use super::*;
    use crate::verif_rt::*;

    const XS: usize = 3;
    const S: usize = XS + 1; // stored samples per row
    fn wheader(sym: bool) -> WeightedHeader {
        let f = |v: u32, bits: u32| if sym { any_u8() as u32 & ((1 << bits) - 1) } else { v };
        WeightedHeader {
            all_default: false, p1c: f(16, 5), p2c: f(10, 5), p3ca: f(7, 5), p3cb: f(7, 5), p3cc: f(7, 5), p3cd: f(0, 5), p3ce: f(0, 5),
            w0: f(13, 4), w1: f(12, 4), w2: f(12, 4), w3: f(12, 4),
        }
    }
    /// An arbitrary history: per row parity, the true error of each sample (index 0 is left of the row) and the
    /// four sub-predictors' accumulated errors.
    struct Hist { te: [[i32; S]; 2], pe: [[[u32; 4]; S]; 2] }
    fn hist(te_bits: u32, pe_bits: u32) -> Hist {
        let mut h = Hist { te: [[0; S]; 2], pe: [[[0; 4]; S]; 2] };
        for r in 0..2 {
            for i in 0..S {
                if i > 0 { h.te[r][i] = any_i32() >> (32 - te_bits); }
                for k in 0..4 { h.pe[r][i][k] = if pe_bits == 0 { 0 } else { any_u32() >> (32 - pe_bits) }; }
            }
        }
        h
    }
    fn state(w: &WeightedHeader, h: &Hist) -> WeightedPredictorState {
        let mut s = WeightedPredictorState::new(w, XS);
        for r in 0..2 { for i in 0..S { s.error[r * S + i] = h.te[r][i]; s.pred_errors_buffer[r * S + i] = h.pe[r][i]; } }
        s
    }
    fn data(bits: u32) -> PredictionData {
        let mut f = || any_i32() >> (32 - bits);
        PredictionData { left: f(), top: f(), toptop: f(), topleft: f(), topright: f(), leftleft: 0, toprightright: 0 }
    }
    // Rows of the history for row y: odd rows are stored first.
    fn cur_prev(y: usize) -> (usize, usize) { if y & 1 == 1 { (0, 1) } else { (1, 0) } }
    struct Around { w: i64, n: i64, nw: i64, ne: i64 }
    fn around(h: &Hist, x: usize, y: usize) -> Around {
        let (c, p) = cur_prev(y);
        let (l, r) = (if x > 0 { x - 1 } else { x }, if x + 1 < XS { x + 1 } else { x });
        Around { w: h.te[c][x] as i64, n: h.te[p][x + 1] as i64, nw: h.te[p][l + 1] as i64, ne: h.te[p][r + 1] as i64 }
    }
    fn sub_preds(w: &WeightedHeader, d: &PredictionData, t: &Around) -> [i64; 4] {
        let s8 = |v: i32| v as i64 * 8;
        let (n, wv, ne, nw, nn) = (s8(d.top), s8(d.left), s8(d.topright), s8(d.topleft), s8(d.toptop));
        let c = |v: u32| v as i64;
        [
            wv + ne - n,
            n - (((t.w + t.n + t.ne) * c(w.p1c)) >> 5),
            wv - (((t.w + t.n + t.nw) * c(w.p2c)) >> 5),
            n - ((t.nw * c(w.p3ca) + t.n * c(w.p3cb) + t.ne * c(w.p3cc) + (nn - n) * c(w.p3cd) + (nw - wv) * c(w.p3ce)) >> 5),
        ]
    }
    // Largest true error in absolute value; W, N, NW, NE in this order of preference.
    fn max_error(t: &Around) -> i64 {
        let mut p = t.w;
        for v in [t.n, t.nw, t.ne] { if v.abs() > p.abs() { p = v; } }
        p
    }
    harness!(c19_property, unwind = 10, {
        let w = wheader(false);
        let mut h = hist(32, 0);
        for r in 0..2 { for i in 1..S { if h.te[r][i] == i32::MIN { h.te[r][i] = 0; } } }
        let mut s = state(&w, &h);
        let (x, y) = (any_in(0, XS - 1), any_in(0, 3));
        let d = PredictionData::default();
        let (_, p) = s.predict_and_property((x, y), &d);
        assert!(p as i64 == max_error(&around(&h, x, y)), "property is the neighbouring error of largest magnitude");
        core::mem::forget(s);
    });
    fn subs(x: usize, y: usize) {
        let w = wheader(true);
        let h = hist(12, 0);
        let mut s = state(&w, &h);
        let d = data(10);
        s.predict_and_property((x, y), &d);
        let want = sub_preds(&w, &d, &around(&h, x, y));
        for k in 0..4 { assert!(s.prediction[k] == want[k], "sub-prediction"); }
        core::mem::forget(s);
    }
    harness!(c19_sub_left, unwind = 10, solver = kissat, { subs(0, 1) });
    harness!(c19_sub_mid, unwind = 10, solver = kissat, { subs(1, 2) });
    harness!(c19_sub_right, unwind = 10, solver = kissat, { subs(2, 3) });

    // The blend: weights from the accumulated errors of N, NE and NW, then a weighted mean, then clamping.
    fn weights(w: &WeightedHeader, h: &Hist, x: usize, y: usize) -> [i64; 4] {
        let (_, p) = cur_prev(y);
        let (l, r) = (if x > 0 { x - 1 } else { x }, if x + 1 < XS { x + 1 } else { x });
        let maxw = [w.w0, w.w1, w.w2, w.w3];
        core::array::from_fn(|k| {
            let e = h.pe[p][x][k].wrapping_add(h.pe[p][r][k]).wrapping_add(h.pe[p][l][k]) as u64;
            let mut shift = 0;
            while ((e + 1) >> shift) >= 64 { shift += 1; } // floor(log2(e + 1)) - 5, at least 0
            4 + ((maxw[k] as u64 * ((1u64 << 24) / ((e >> shift) + 1))) >> shift) as i64
        })
    }
    fn blend(x: usize, y: usize, d_bits: u32, pe_bits: u32) {
        blend_with(x, y, data(d_bits), hist(3, pe_bits))
    }
    fn blend_with(x: usize, y: usize, d: PredictionData, h: Hist) {
        let w = wheader(false);
        let mut s = state(&w, &h);
        let (pred, _) = s.predict_and_property((x, y), &d);
        let t = around(&h, x, y);
        let p = sub_preds(&w, &d, &t);
        let wt = weights(&w, &h, x, y);
        let total = wt[0] + wt[1] + wt[2] + wt[3];
        let mut k = 0;
        while (total >> k) >= 32 { k += 1; }
        let ws: [i64; 4] = core::array::from_fn(|i| wt[i] >> k);
        let sum = ws[0] + ws[1] + ws[2] + ws[3];
        let mut acc = (sum >> 1) - 1;
        for i in 0..4 { acc += ws[i] * p[i]; }
        let mut want = (acc * ((1 << 24) / sum)) >> 24;
        if (t.n ^ t.w) | (t.n ^ t.nw) <= 0 {
            let (n, l, ne) = (d.top as i64 * 8, d.left as i64 * 8, d.topright as i64 * 8);
            let (lo, hi) = (n.min(l).min(ne), n.max(l).max(ne));
            if want < lo { want = lo }
            if want > hi { want = hi }
        }
        assert!(s.pred == want, "weighted prediction");
        assert!(pred == (want + 3) >> 3, "rounding of the weighted prediction");
        core::mem::forget(s);
    }
    harness!(c19_blend_equal, unwind = 40, { blend(1, 1, 6, 0) });
    harness!(c19_blend, unwind = 40, solver = kissat, { blend(1, 2, 2, 3) });
    harness!(c19_blend_t, unwind = 40, solver = kissat, { blend(1, 2, 3, 4) });
    // Fixed neighbourhood without clamping, arbitrary accumulated errors: decides the weights.
    fn weigh(pe_bits: u32) {
        let (y, x) = (2, 1);
        let (c, p) = cur_prev(y);
        let mut h = Hist { te: [[0; S]; 2], pe: [[[5, 70, 33, 260]; S]; 2] };
        h.pe[p][x][0] = any_u32() >> (32 - pe_bits);
        h.pe[p][x + 1][2] = any_u32() >> (32 - pe_bits);
        h.pe[p][x - 1] = [9, 1, 300, 40];
        h.te[c] = [0, 2, 0, 0];
        h.te[p] = [0, 4, 1, 3];
        let d = PredictionData { left: 900, top: -500, toptop: 40, topleft: 333, topright: 77, leftleft: 0, toprightright: 0 };
        blend_with(x, y, d, h)
    }
    harness!(c19_weigh, unwind = 40, solver = kissat, { weigh(9) });
    harness!(c19_weigh_t, unwind = 40, solver = kissat, { weigh(32) });

    // Weights alone: the sub-predictors coincide when all true errors are zero and all neighbours are equal, so
    // only memory safety and absence of overflow are decided here, for arbitrary errors.
    harness!(c19_any_errors, unwind = 10, {
        let w = wheader(true);
        let h = hist(32, 32);
        let mut s = state(&w, &h);
        let d = data(32);
        let pos = (any_in(0, XS - 1), any_in(0, 3));
        s.predict_and_property(pos, &d);
        core::mem::forget(s);
    });
    harness!(c19_update, unwind = 10, {
        let w = wheader(false);
        let h = hist(32, 32);
        let mut s = state(&w, &h);
        let (x, y) = (any_in(0, XS - 1), any_in(0, 3));
        let mut p = [0i64; 4];
        for v in p.iter_mut() { *v = any_i64() >> 24; }
        s.prediction = p;
        s.pred = any_i64() >> 24;
        let pred = s.pred;
        let val = any_i32();
        s.update_errors(val, (x, y));
        let (c, pr) = cur_prev(y);
        for r in 0..2 {
            for i in 0..S {
                let te = if r == c && i == x + 1 { (pred - 8 * val as i64) as i32 } else { h.te[r][i] };
                assert!(s.error[r * S + i] == te, "true error of the sample");
                for k in 0..4 {
                    let e = (((p[k] - 8 * val as i64).abs() + 3) >> 3) as u32;
                    let want = if r == c && i == x { e } else if r == pr && i == x + 1 { h.pe[r][i][k].wrapping_add(e) } else { h.pe[r][i][k] };
                    assert!(s.pred_errors_buffer[r * S + i][k] == want, "sub-predictor errors: stored for this sample and added to NE");
                }
            }
        }
        core::mem::forget(s);
    });
    harness!(c19_save_restore, unwind = 10, {
        let w = wheader(false);
        let h = hist(32, 32);
        let s = state(&w, &h);
        let mut im = Image::<i32>::new((S, 5)).ok().unwrap();
        s.save_state(&mut im);
        let mut t = WeightedPredictorState::new(&w, XS);
        t.restore_state(&im);
        // A chunk starts at an even row, whose previous row is the first stored one.
        for i in 0..S {
            assert!(t.error[i] == h.te[0][i], "saved true errors are restored");
            for k in 0..4 { assert!(t.pred_errors_buffer[i][k] == h.pe[0][i][k], "saved sub-predictor errors are restored"); }
        }
        core::mem::forget((s, t, im));
    });
}
