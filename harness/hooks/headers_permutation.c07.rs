mod verif_c07 {
    use super::*;
    use crate::verif_rt::*;

    fn context(x: u32) -> usize {
        let mut c = 0;
        while c < 7 && (1u64 << c) < x as u64 + 1 { c += 1; }
        c
    }
    // Decodes a permutation of N elements whose first `skip` stay in place from `end` arbitrary Lehmer code digits.
    fn lehmer<const N: usize>(skip: usize, end: usize) {
        let code: [u32; N] = core::array::from_fn(|_| any_u32());
        let mut k = 0;
        let mut prev = 0;
        let mut good_ctx = true;
        let r = Permutation::decode_inner(N as u32, skip as u32, end as u32, |ctx| {
            good_ctx &= ctx == context(prev) && k < end;
            let v = code[k % N];
            prev = v;
            k += 1;
            Ok(v)
        });
        assert!(good_ctx);
        let mut valid = skip + end <= N;
        for i in 0..N { if valid && i < end && code[i] as usize >= N - skip - i { valid = false; } }
        let r = ok(r);
        assert!(r.is_some() == valid);
        let Some(p) = r else { return };
        assert!(p.len() == N && k == end);
        // Digit i selects the code[i]-th smallest of the values not used so far; the rest follows in order.
        let mut used = [false; N];
        for i in 0..N {
            let want = if i < skip || i >= skip + end { 0 } else { code[i - skip] };
            let mut rank = 0;
            let mut sel = N;
            for j in 0..N { if !used[j] { if rank == want && sel == N { sel = j; } rank += 1; } }
            assert!(sel < N && p[i] as usize == sel);
            used[sel] = true;
        }
        reach!(valid && p[N - 1] == skip as u32);
        core::mem::forget(p);
    }
    harness!(c07_lehmer5, unwind = 12, { lehmer::<5>(0, 5); });
    harness!(c07_lehmer6_skip, unwind = 14, { lehmer::<6>(2, 3); });
    harness!(c07_lehmer4_short, unwind = 12, { lehmer::<4>(1, 2); });
    harness!(c07_lehmer8_t, unwind = 12, { lehmer::<8>(0, 8); });

    // Any number of digits, including too many.
    harness!(c07_lehmer3_any_t, unwind = 8, { lehmer::<3>(1, any_in(0, 3)); });
    harness!(c07_too_long, unwind = 8, {
        for (size, skip, end) in [(4, 2, 3), (5, 0, 6), (3, 3, 1)] {
            assert!(ok(Permutation::decode_inner(size, skip, end, |_| Ok(0))).is_none());
        }
        reach!(true);
    });
    harness!(c07_context, unwind = 9, {
        let x = any_u32();
        assume(x < u32::MAX);
        assert!(get_context(x) == context(x));
        reach!(x == 63);
    });
    // Composition: (p . q)[i] = p[q[i]].
    harness!(c07_compose, unwind = 8, {
        let a: [u32; 5] = core::array::from_fn(|_| any_in(0, 4) as u32);
        let b: [u32; 5] = core::array::from_fn(|_| any_in(0, 4) as u32);
        let mut p = Permutation(Cow::Owned(a.to_vec()));
        let q = Permutation(Cow::Owned(b.to_vec()));
        p.compose(&q);
        for i in 0..5 { assert!(p[i] == a[b[i] as usize]); }
        reach!(p[0] == 3);
        core::mem::forget((p, q));
    });
}
