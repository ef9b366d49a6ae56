mod verif_c07 {
    use super::*;
    use crate::verif_rt::*;

    // An unpermuted table of contents of n entries.
    fn toc_bits<const N: usize>() {
        fields::flag_val(false);
        let mut v = [0; N];
        if !cfg!(kani) { stream::put_val(7, 0); }
        for i in 0..N { v[i] = fields::sel([(10, 0), (14, 1024), (22, 17408), (30, 4211712)]); }
        let mut br = fields::reader();
        let mut r = ok(IncrementalTocReader::new(N as u32, &mut br)).unwrap();
        for i in 0..=N {
            assert!(!r.is_complete() && r.num_read_entries() as usize == i.saturating_sub(1));
            assert!(ok(r.read_step(&mut br)).is_some());
        }
        assert!(r.is_complete() && r.remaining_entries() == 0);
        let t = r.finalize();
        assert!(!t.permuted && t.entries.len() == N);
        for i in 0..N { assert!(t.entries[i] as u64 == v[i]); }
        reach!(v[N - 1] > 1 << 29);
        core::mem::forget(t);
    }
    harness!(c07_toc1, unwind = 7, fields { toc_bits::<1>(); });
    harness!(c07_toc3, unwind = 7, fields { toc_bits::<3>(); });
}
