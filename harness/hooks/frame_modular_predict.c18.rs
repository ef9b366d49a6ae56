// C18: the modular predictors and their neighbourhoods.
mod verif_c18 {
    use super::*;
    use crate::verif_rt::*;

    fn any_data() -> PredictionData {
        PredictionData { left: any_i32(), top: any_i32(), toptop: any_i32(), topleft: any_i32(), topright: any_i32(), leftleft: any_i32(), toprightright: any_i32() }
    }
    // Division by a power of two, rounding towards zero.
    fn div_pow2(v: i64, k: u32) -> i64 { if v < 0 { -((-v) >> k) } else { v >> k } }
    fn spec(p: u32, d: &PredictionData, wp: i64) -> i64 {
        let (w, n, nn, nw, ne, ww, nee) = (d.left as i64, d.top as i64, d.toptop as i64, d.topleft as i64, d.topright as i64, d.leftleft as i64, d.toprightright as i64);
        match p {
            0 => 0,
            1 => w,
            2 => n,
            3 => div_pow2(w + n, 1),
            // select: |N - NW| < |W - NW| picks W, otherwise N.
            4 => { let (dw, dn) = ((n - nw).abs(), (w - nw).abs()); if dw < dn { w } else { n } }
            5 => { // median of W, N and W + N - NW
                let g = w + n - nw;
                let (lo, hi) = if w < n { (w, n) } else { (n, w) };
                if g < lo { lo } else if g > hi { hi } else { g }
            }
            6 => wp,
            7 => ne,
            8 => nw,
            9 => ww,
            10 => div_pow2(w + nw, 1),
            11 => div_pow2(n + nw, 1),
            12 => div_pow2(n + ne, 1),
            _ => div_pow2(6 * n - 2 * nn + 7 * w + ww + nee + 3 * ne + 8, 4),
        }
    }

    fn one(p: u32) {
        let d = any_data();
        let wp = any_i64();
        let pr = Predictor::try_from(p).ok().unwrap();
        assert!(pr as u32 == p, "predictor number");
        assert!(pr.predict_one(d, wp) == spec(p, &d, wp), "prediction");
    }
    harness!(c18_predict_simple, unwind = 5, { for p in [0, 1, 2, 6] { one(p) } for p in [7, 8, 9] { one(p) } });
    harness!(c18_predict_average, unwind = 5, { for p in [3, 10, 11, 12] { one(p) } });
    harness!(c18_predict_average_all, unwind = 5, { one(13) });
    harness!(c18_predict_select, unwind = 5, { one(4) });
    harness!(c18_predict_gradient, unwind = 5, { one(5) });
    harness!(c18_predict_number, unwind = 5, {
        let v = any_u32();
        let r = ok(Predictor::try_from(v));
        assert!(r.is_some() == (v < 14), "predictor numbers 0..=13 exist");
        if let Some(p) = r { assert!(p as u32 == v, "number of predictor"); }
    });

    // Neighbourhood: rows of W samples, all positions.
    fn spec_rows<const W: usize>(row: &[i32; W], top: &[i32; W], toptop: &[i32; W], x: usize, y: usize) -> PredictionData {
        let left = if x > 0 { row[x - 1] } else if y > 0 { top[x] } else { 0 };
        let n = if y > 0 { top[x] } else { left };
        let nw = if x > 0 && y > 0 { top[x - 1] } else { left };
        let ne = if x + 1 < W && y > 0 { top[x + 1] } else { n };
        let nn = if y > 1 { toptop[x] } else { n };
        let ww = if x > 1 { row[x - 2] } else { left };
        let nee = if x + 2 < W && y > 0 { top[x + 2] } else { ne };
        PredictionData { left, top: n, toptop: nn, topleft: nw, topright: ne, leftleft: ww, toprightright: nee }
    }
    fn same(a: &PredictionData, b: &PredictionData) {
        assert!(a.left == b.left, "W");
        assert!(a.top == b.top, "N");
        assert!(a.toptop == b.toptop, "NN");
        assert!(a.topleft == b.topleft, "NW");
        assert!(a.topright == b.topright, "NE");
        assert!(a.leftleft == b.leftleft, "WW");
        assert!(a.toprightright == b.toprightright, "NEE");
    }
    fn row<const W: usize>() -> [i32; W] { core::array::from_fn(|_| any_i32()) }
    fn rows<const W: usize>() {
        let (r, t, tt) = (row::<W>(), row::<W>(), row::<W>());
        let x = any_in(0, W - 1);
        let y = any_in(0, 3);
        // Rows above the image are absent.
        let none: &[i32] = &[];
        let got = PredictionData::get_rows(&r, if y > 0 { &t } else { none }, if y > 1 { &tt } else { none }, x, y);
        same(&got, &spec_rows(&r, &t, &tt, x, y));
    }
    harness!(c18_neighbours_w5, unwind = 8, { rows::<5>() });
    harness!(c18_neighbours_w2, unwind = 8, { rows::<2>() });
    harness!(c18_neighbours_w1, unwind = 8, { rows::<1>() });
    harness!(c18_neighbours_interior, unwind = 8, {
        const W: usize = 7;
        let (r, t, tt) = (row::<W>(), row::<W>(), row::<W>());
        let x = any_in(2, W - 3);
        let y = any_in(2, 5);
        let prev = PredictionData::get_rows(&r, &t, &tt, x - 1, y);
        let got = prev.update_for_interior_row(&t, &tt, x, r[x - 1], true);
        same(&got, &spec_rows(&r, &t, &tt, x, y));
        let mut lean = prev.update_for_interior_row(&t, &tt, x, r[x - 1], false);
        lean.toptop = got.toptop;
        same(&got, &lean);
    });
    harness!(c18_neighbours_image, unwind = 8, {
        let mut im = crate::image::Image::<i32>::new((3, 3)).ok().unwrap();
        let v: [[i32; 3]; 3] = core::array::from_fn(|_| row::<3>());
        for y in 0..3 { im.row_mut(y).copy_from_slice(&v[y]); }
        let (x, y) = (any_in(0, 2), any_in(0, 2));
        let got = PredictionData::get(&im, x, y);
        let t = if y > 0 { v[y - 1] } else { v[0] };
        let tt = if y > 1 { v[y - 2] } else { v[0] };
        same(&got, &spec_rows(&v[y], &t, &tt, x, y));
        core::mem::forget(im);
    });
}
