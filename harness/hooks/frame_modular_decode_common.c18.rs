// C18: sample arithmetic, reference properties and stream numbering.
mod verif_c18 {
    use super::*;
    use crate::headers::bit_depth::BitDepth;
    use crate::verif_rt::*;

    harness!(c18_make_pixel, unwind = 3, {
        let (dec, mul, guess) = (any_i32(), any_u32(), any_i64());
        assume(guess >= -(1 << 40) && guess <= 1 << 40);
        let want = (guess as i128 + mul as i128 * dec as i128) as i32;
        assert!(make_pixel(dec, mul, guess) == want, "guess + multiplier * coded value, modulo 2^32");
    });

    // Reference properties of channel 2: of channel 1 first, then of channel 0; unlike channels are passed over.
    fn refs(size1: (usize, usize), shift1: Option<(usize, usize)>, used1: bool) {
        let bd = BitDepth::integer_samples(8);
        let mut c: [ModularChannel; 3] = core::array::from_fn(|i| ModularChannel::new(if i == 1 { size1 } else { (2, 2) }, bd).ok().unwrap());
        c[1].shift = shift1;
        let mut v = [[[0i32; 2]; 2]; 2];
        for i in 0..2 {
            let s = c[i].data.size();
            for y in 0..s.1 { for x in 0..s.0.min(2) { v[i][y.min(1)][x] = any_i32(); let t = v[i][y.min(1)][x]; c[i].data.row_mut(y)[x] = t; } }
        }
        let mut im = Image::<i32>::new((8, 2)).ok().unwrap();
        let y = any_in(0, 1);
        let [c0, c1, c2] = &mut c;
        precompute_references(&mut [c0, c1, c2], 2, y, &mut im);
        for x in 0..2 {
            let mut k = 0;
            for i in [1usize, 0] {
                if i == 1 && !used1 { continue; }
                let a = |x: usize, y: usize| v[i][y][x] as i64;
                let s = a(x, y);
                let w = if x > 0 { a(x - 1, y) } else { 0 };
                let n = if y > 0 { a(x, y - 1) } else { w };
                let nw = if x > 0 && y > 0 { a(x - 1, y - 1) } else { w };
                let g = w + n - nw;
                let (lo, hi) = (w.min(n), w.max(n));
                let g = if g < lo { lo } else if g > hi { hi } else { g };
                let r = im.row(x);
                assert!(r[k] == s.abs() as i32, "absolute value");
                assert!(r[k + 1] == s as i32, "value");
                assert!(r[k + 2] == (s - g).abs() as i32, "absolute difference from the prediction");
                assert!(r[k + 3] == (s - g) as i32, "difference from the prediction");
                k += 4;
            }
            while k < 8 { assert!(im.row(x)[k] == 0, "no further reference"); k += 1; }
        }
        core::mem::forget((c, im));
    }
    harness!(c18_refs_both, unwind = 10, { refs((2, 2), Some((0, 0)), true) });
    harness!(c18_refs_other_size, unwind = 10, { refs((3, 2), Some((0, 0)), false) });
    harness!(c18_refs_other_shift, unwind = 10, { refs((2, 2), Some((1, 0)), false) });
}
