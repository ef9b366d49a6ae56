mod verif_c16 {
    use super::*;
    use crate::image::Rect;
    use crate::verif_rt::*;
    use crate::verif_rt::simd::*;
    use jxl_simd::ScalarDescriptor;

    // The inverse squeeze of one sample pair, as the format defines it.
    fn tendency(b: i64, a: i64, n: i64) -> i64 {
        let mut x = 0;
        if b >= a && a >= n {
            x = (4 * b - 3 * n - a + 6) / 12;
            if x - (x & 1) > 2 * (b - a) { x = 2 * (b - a) + 1; }
            if x + (x & 1) > 2 * (a - n) { x = 2 * (a - n); }
        } else if b <= a && a <= n {
            x = (4 * b - 3 * n - a - 6) / 12;
            if x + (x & 1) < 2 * (b - a) { x = 2 * (b - a) - 1; }
            if x - (x & 1) < 2 * (a - n) { x = 2 * (a - n); }
        }
        x
    }
    fn pair(avg: i32, res: i32, next: i32, prev: i32) -> (i32, i32) {
        let d = res as i64 + tendency(prev as i64, avg as i64, next as i64);
        let a = avg as i64 + d / 2;
        (a as i32, (a - d) as i32)
    }
    fn img<const W: usize, const H: usize>() -> ([[i32; W]; H], Image<i32>) {
        let mut i = ok(Image::<i32>::new((W, H))).unwrap();
        let mut v = [[0; W]; H];
        for y in 0..H { for x in 0..W {
            v[y][x] = any_i8() as i32;
        } }
        for y in 0..H { i.row_mut(y).copy_from_slice(&v[y]); }
        (v, i)
    }
    fn full<'a>(i: &'a Image<i32>) -> ImageRect<'a, i32> { i.get_rect(Rect { origin: (0, 0), size: i.size() }) }

    // One line: A averages and R residuals (A == R, or R + 1 for an odd output).
    fn spec<const A: usize, const R: usize>(avg: [i32; A], res: [i32; R], next: Option<i32>, prev: Option<i32>) -> [i32; 16] {
        let mut o = [0; 16];
        let mut p = prev.unwrap_or(avg[0]);
        for i in 0..R {
            let n = if i + 1 < A { avg[i + 1] } else { next.unwrap_or(avg[i]) };
            let (a, b) = kernel(avg[i], res[i], n, p);
            o[2 * i] = a;
            o[2 * i + 1] = b;
            p = b;
        }
        if A > R { o[2 * R] = avg[R]; }
        o
    }
    // Whole steps on lines of A averages and R residuals, H lines; next and previous tiles present or absent.
    fn horizontal<const A: usize, const R: usize, const O: usize, const H: usize, D: SimdDescriptor>(d: D, has_next: bool, has_prev: bool) {
        let (av, avg) = img::<A, H>();
        let (rv, res) = img::<R, H>();
        let (nv, next) = img::<1, H>();
        let (pv, prev) = img::<4, H>();
        let mut out = ok(Image::<i32>::new((O, H))).unwrap();
        hsqueeze_fwd(d, &full(&avg), &full(&res), has_next.then_some(&next), has_prev.then_some(&prev), &mut out);
        for y in 0..H {
            let w = spec(av[y], rv[y], has_next.then_some(nv[y][0]), has_prev.then_some(pv[y][3]));
            for x in 0..O { assert!(out.row(y)[x] == w[x]); }
        }
        reach!(true);
        core::mem::forget((avg, res, next, prev, out));
    }
    fn vertical<const A: usize, const R: usize, const O: usize, const W: usize, D: SimdDescriptor>(d: D, has_next: bool, has_prev: bool) {
        let (av, avg) = img::<W, A>();
        let (rv, res) = img::<W, R>();
        let (nv, next) = img::<W, 1>();
        let (pv, prev) = img::<W, 4>();
        let mut out = ok(Image::<i32>::new((W, O))).unwrap();
        vsqueeze_fwd(d, &full(&avg), &full(&res), has_next.then_some(&next), has_prev.then_some(&prev), &mut out);
        for x in 0..W {
            let mut a = [0; A];
            let mut r = [0; R];
            for i in 0..A { a[i] = av[i][x]; }
            for i in 0..R { r[i] = rv[i][x]; }
            let w = spec(a, r, has_next.then_some(nv[0][x]), has_prev.then_some(pv[3][x]));
            for y in 0..O { assert!(out.row(y)[x] == w[y]); }
        }
        reach!(true);
        core::mem::forget((avg, res, next, prev, out));
    }
    // The kernels themselves, on arbitrary samples.
    macro_rules! scalar { ($t:ident) => {{
        let (a, r, n, p) = ($t() as i32, $t() as i32, $t() as i32, $t() as i32);
        assert!(unsqueeze_scalar(a, r, n, p) == pair(a, r, n, p));
        reach!(p > a && a > n);
    }} }
    macro_rules! vector { ($t:ident, $s:literal) => {{
        let [a, r, n, p] = [$t(), $t(), $t(), $t()].map(|x| (x >> $s) as i32);
        let w = core::num::Wrapping;
        let (s, t) = unsqueeze_impl(ScalarDescriptor, w(a), w(r), w(n), w(p));
        assert!((s.0, t.0) == pair(a, r, n, p));
        reach!(p > a && a > n);
    }} }
    harness!(c16_kernel_scalar, unwind = 6, solver = kissat, { scalar!(any_i16); });
    harness!(c16_kernel_vector, unwind = 6, solver = kissat, { vector!(any_i8, 2); });
    harness!(c16_kernel_vector8_t, unwind = 6, solver = kissat, { vector!(any_i8, 0); });
    harness!(c16_kernel_vector16_t, unwind = 6, solver = kissat, { vector!(any_i16, 0); });

    // Whole steps: under Kani the kernels are replaced by a cheap mixing function of the same four inputs (the
    // kernels are decided above), so that only which samples are combined, and where the results go, remains.
    #[cfg(kani)]
    fn kernel(a: i32, r: i32, n: i32, p: i32) -> (i32, i32) {
        let x = (a << 24) | ((r & 255) << 16) | ((n & 255) << 8) | (p & 255);
        (x, x >> 3)
    }
    #[cfg(not(kani))]
    use pair as kernel;
    #[cfg(kani)]
    fn mix_vec<D: SimdDescriptor>(d: D, a: D::I32Vec, r: D::I32Vec, n: D::I32Vec, p: D::I32Vec) -> (D::I32Vec, D::I32Vec) {
        let m = D::I32Vec::splat(d, 255);
        let x = shl!(a, 24) | shl!(r & m, 16) | shl!(n & m, 8) | (p & m);
        (x, shr!(x, 3))
    }
    harness!(c16_h_pair, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<1, 1, 2, 1, _>(ScalarDescriptor, true, true); });
    harness!(c16_h_odd, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<3, 2, 5, 2, _>(ScalarDescriptor, false, false); });
    harness!(c16_h_even, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<2, 2, 4, 2, _>(ScalarDescriptor, true, false); });
    harness!(c16_h_even2_t, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<2, 2, 4, 1, _>(ScalarDescriptor, false, true); });
    // The average tile continues to the right (below) although the output is even.
    harness!(c16_h_wide, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<3, 2, 4, 1, _>(ScalarDescriptor, true, false); });
    harness!(c16_h_wide4, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<6, 5, 10, 4, _>(V4, true, false); });
    harness!(c16_h_wide4_rem_t, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<5, 4, 8, 4, _>(V4, true, false); });
    harness!(c16_v_wide, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<2, 1, 2, 1, _>(ScalarDescriptor, true, false); });
    harness!(c16_v_wide2, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<3, 2, 4, 1, _>(ScalarDescriptor, true, true); });
    harness!(c16_v_wide4, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<3, 2, 4, 5, _>(V4, true, false); });
    harness!(c16_h_vec_t, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<5, 5, 10, 4, _>(V4, true, true); });
    harness!(c16_h_vec_odd_t, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<5, 4, 9, 4, _>(V4, false, true); });
    harness!(c16_h_vec_rem_t, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<6, 6, 12, 4, _>(V4, true, false); });
    harness!(c16_h_vec4, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { horizontal::<4, 4, 8, 4, _>(V4, true, true); });
    harness!(c16_v_pair, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<1, 1, 2, 1, _>(ScalarDescriptor, true, true); });
    harness!(c16_v_odd, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<3, 2, 5, 2, _>(ScalarDescriptor, false, true); });
    harness!(c16_v_even, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<2, 2, 4, 1, _>(ScalarDescriptor, true, false); });
    harness!(c16_v_vec_t, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<2, 2, 4, 5, _>(V4, true, true); });
    harness!(c16_v_vec_odd, unwind = 17, stub(unsqueeze_scalar, kernel), stub(unsqueeze_impl, mix_vec), { vertical::<3, 2, 5, 5, _>(V4, false, false); });
}
