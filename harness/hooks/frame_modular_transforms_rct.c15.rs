mod verif_c15 {
    use super::*;
    use crate::headers::bit_depth::BitDepth;
    use crate::verif_rt::*;
    use num_traits::FromPrimitive;

    fn chan(v: &[i32]) -> ModularChannel {
        let mut c = ok(ModularChannel::new((v.len(), 1), BitDepth::integer_samples(8))).unwrap();
        c.data.row_mut(0).copy_from_slice(v);
        c
    }

    fn inverse(t: u32, a: i32, mut b: i32, mut c3: i32) -> [i32; 3] {
        if t == 6 {
            let tmp = a.wrapping_sub(c3 >> 1);
            let g = c3.wrapping_add(tmp);
            let bl = tmp.wrapping_sub(b >> 1);
            return [bl.wrapping_add(b), g, bl];
        }
        if t & 1 == 1 { c3 = c3.wrapping_add(a); }
        if t >> 1 == 1 { b = b.wrapping_add(a); }
        if t >> 1 == 2 { b = b.wrapping_add(a.wrapping_add(c3) >> 1); }
        [a, b, c3]
    }
    // Inverse of every reversible colour transform, on arbitrary 32-bit samples (wrapping arithmetic).
    fn rct(op: RctOp, perm: RctPermutation) {
        let v: [[i32; 2]; 3] = core::array::from_fn(|_| core::array::from_fn(|_| any_i32()));
        let mut c = [chan(&v[0]), chan(&v[1]), chan(&v[2])];
        {
            let [a, b, d] = &mut c;
            do_rct_step(&mut [a, b, d], op, perm);
        }
        for x in 0..2 {
            let w = inverse(op as u32, v[0][x], v[1][x], v[2][x]);
            // Component i goes to channel perm(i): as in the format, permutation p places component 0 in channel
            // p % 3, component 1 in channel (p + 1 + p / 3) % 3 and component 2 in channel (p + 2 - p / 3) % 3.
            let p = perm as usize;
            let dst = [p % 3, (p + 1 + p / 3) % 3, (p + 2 - p / 3) % 3];
            for i in 0..3 { assert!(c[dst[i]].data.row(0)[x] == w[i]); }
        }
        reach!(c[0].data.row(0)[0] == 12345);
        core::mem::forget(c);
    }
    fn all_perms(op: usize) { rct(RctOp::from_usize(op).unwrap(), RctPermutation::from_usize(any_in(0, 5)).unwrap()); }
    harness!(c15_noop, unwind = 8, { all_perms(0); });
    harness!(c15_add_third, unwind = 8, { all_perms(1); });
    harness!(c15_add_second, unwind = 8, { all_perms(2); });
    harness!(c15_add_both, unwind = 8, { all_perms(3); });
    harness!(c15_avg, unwind = 8, { all_perms(4); });
    harness!(c15_avg_add, unwind = 8, { all_perms(5); });
    harness!(c15_ycocg, unwind = 8, { all_perms(6); });

    // The width-generic code on a 4-lane model of the vector type: one vector and a remainder.
    fn blocks(op: RctOp) {
        let v: [[i32; 5]; 3] = core::array::from_fn(|_| core::array::from_fn(|_| any_i32()));
        let mut c = [chan(&v[0]), chan(&v[1]), chan(&v[2])];
        {
            let [a, b, d] = &mut c;
            rct_loop_fwd(crate::verif_rt::simd::V4, &mut a.data, &mut b.data, &mut d.data, op);
        }
        for x in 0..5 {
            let w = inverse(op as u32, v[0][x], v[1][x], v[2][x]);
            for i in 0..3 { assert!(c[i].data.row(0)[x] == w[i]); }
        }
        reach!(c[1].data.row(0)[4] == 12345);
        core::mem::forget(c);
    }
    harness!(c15_blocks_ycocg, unwind = 8, { blocks(RctOp::YCoCg); });
    harness!(c15_blocks_avg, unwind = 8, { blocks(RctOp::AddFirstToThirdAndAvgToSecond); });
}
