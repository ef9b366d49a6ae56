// C12: LZ77 copies.
mod verif_c12 {
    use super::*;
    use crate::entropy_coding::huffman::HuffmanCodes;
    use crate::verif_rt::*;

    // Offsets of the short distance codes (format table): (column offset, rows up).
    const SPECIAL: [(i32, u32); 120] = [
        (0, 1), (1, 0), (1, 1), (-1, 1), (0, 2), (2, 0), (1, 2), (-1, 2), (2, 1), (-2, 1), (2, 2), (-2, 2), (0, 3), (3, 0), (1, 3),
        (-1, 3), (3, 1), (-3, 1), (2, 3), (-2, 3), (3, 2), (-3, 2), (0, 4), (4, 0), (1, 4), (-1, 4), (4, 1), (-4, 1), (3, 3), (-3, 3),
        (2, 4), (-2, 4), (4, 2), (-4, 2), (0, 5), (3, 4), (-3, 4), (4, 3), (-4, 3), (5, 0), (1, 5), (-1, 5), (5, 1), (-5, 1), (2, 5),
        (-2, 5), (5, 2), (-5, 2), (4, 4), (-4, 4), (3, 5), (-3, 5), (5, 3), (-5, 3), (0, 6), (6, 0), (1, 6), (-1, 6), (6, 1), (-6, 1),
        (2, 6), (-2, 6), (6, 2), (-6, 2), (4, 5), (-4, 5), (5, 4), (-5, 4), (3, 6), (-3, 6), (6, 3), (-6, 3), (0, 7), (7, 0), (1, 7),
        (-1, 7), (5, 5), (-5, 5), (7, 1), (-7, 1), (4, 6), (-4, 6), (6, 4), (-6, 4), (2, 7), (-2, 7), (7, 2), (-7, 2), (3, 7), (-3, 7),
        (7, 3), (-7, 3), (5, 6), (-5, 6), (6, 5), (-6, 5), (8, 0), (4, 7), (-4, 7), (7, 4), (-7, 4), (8, 1), (8, 2), (6, 6), (-6, 6),
        (8, 3), (5, 7), (-5, 7), (7, 5), (-7, 5), (8, 4), (6, 7), (-6, 7), (7, 6), (-7, 6), (8, 5), (7, 7), (-7, 7), (8, 6), (8, 7),
    ];
    fn distance(sym: u32, width: u32, decoded: u32) -> u32 {
        let d = if width == 0 { sym as i64 + 1 } else if sym >= 120 { sym as i64 - 119 } else {
            let (dx, dy) = SPECIAL[sym as usize];
            let d = dx as i64 + dy as i64 * width as i64;
            if d < 1 { 1 } else { d }
        };
        d.min(1 << 20).min(decoded as i64) as u32
    }
    fn lz(width: u32, cap: usize) -> Lz77State {
        Lz77State { min_symbol: 224, min_length: 3, dist_multiplier: width, window: Vec::with_capacity(cap), num_to_copy: 0, copy_pos: 0, num_decoded: 0 }
    }
    harness!(c12_distance, unwind = 4, {
        let width = any_u32();
        assume(width < 1 << 26);
        let mut s = lz(width, 4);
        s.num_decoded = any_u32();
        assume(s.num_decoded > 0);
        let (sym, n) = (any_u32(), any_u32());
        s.apply_copy(sym, n);
        assert!(s.num_to_copy == n, "length of the copy");
        assert!(s.num_decoded - s.copy_pos == distance(sym, width, s.num_decoded), "distance of the copy");
    });
    // A window of the full size (with spare capacity: the solver would otherwise follow a reallocation).
    #[cfg(kani)]
    #[allow(unsafe_code)]
    fn full(slots: &mut [u32; 1 << 20]) -> Vec<u32> { unsafe { Vec::from_raw_parts(slots.as_mut_ptr(), 1 << 20, 1 << 21) } }
    #[cfg(not(kani))]
    fn full(_: &mut [u32; 1 << 20]) -> Vec<u32> { vec![0; 1 << 20] }
    // Wrapping positions.
    harness!(c12_window_wrap, unwind = 4, solver = z3, {
        let mut s = lz(0, 4);
        let mut slots = [0u32; 1 << 20];
        s.window = full(&mut slots);
        s.num_decoded = any_u32();
        assume(s.num_decoded >= 1 << 20 && s.num_decoded < u32::MAX);
        let (a, b) = (any_u32(), any_u32());
        let n = s.num_decoded;
        s.push_decoded_symbol(a);
        assert!(s.num_decoded == n + 1);
        assert!(s.window.len() == 1 << 20 && s.window[(n % (1 << 20)) as usize] == a, "symbol takes the place of the one 2^20 before");
        let pos = any_u32();
        assume(pos < u32::MAX);
        s.copy_pos = pos;
        s.window[(pos % (1 << 20)) as usize] = b;
        s.num_to_copy = any_u32();
        let left = s.num_to_copy;
        let r = s.pull_symbol();
        if left == 0 { assert!(r.is_none() && s.copy_pos == pos && s.num_to_copy == 0); }
        else { assert!(r == Some(b) && s.copy_pos == pos + 1 && s.num_to_copy == left - 1, "copies run forward"); }
        core::mem::forget(s);
    });
    // Whole reader: byte tokens, 8-bit direct coding; every token below 224 is a literal, others copies of length
    // token - 224 + 3 at the distance coded next.
    fn symbol(_: &HuffmanCodes, br: &mut BitReader, _: usize) -> u32 { br.read_optimistic(8) as u32 }
    fn hist(clusters: bool) -> Histograms {
        Histograms {
            lz77_params: Lz77Params { enabled: true, min_symbol: Some(224), min_length: Some(3) },
            lz77_length_uint: Some(HybridUint::verif_new12(8)),
            context_map: if clusters { vec![0, 1] } else { vec![0, 0] },
            lz_dist_cluster: clusters as u8,
            log_alpha_size: 15,
            uint_configs: (0..1 + clusters as usize).map(|_| HybridUint::verif_new12(8)).collect(),
            codes: Codes::Huffman(HuffmanCodes::verif_new12(vec![])),
        }
    }
    fn run<const N: usize>(width: u32, syms: usize) {
        let h = hist(false);
        let data = any_bytes::<N>();
        let mut br = BitReader::new(&data);
        let mut r = SymbolReader { state: SymbolReaderState::Lz77(lz(width, 8)), ans_reader: AnsReader::new_unused(), errors: ErrorState::new() };
        let mut out = [0u32; 8];
        let (mut n, mut pos, mut left, mut dist) = (0usize, 0usize, 0u32, 0u32);
        for _ in 0..syms {
            if left == 0 {
                let t = data[pos] as u32;
                pos += 1;
                if t >= 224 {
                    assume(n > 0);
                    left = t - 224 + 3;
                    dist = distance(data[pos] as u32, width, n as u32);
                    pos += 1;
                } else {
                    out[n] = t;
                }
            }
            if left > 0 { out[n] = out[n - dist as usize]; left -= 1; }
            let got = r.read_unsigned(&h, &mut br, 0);
            assert!(got == out[n], "symbol: literal or copy");
            n += 1;
        }
        assert!(br.total_bits_read() == 8 * pos, "bits consumed");
        assert!(ok(r.check_final_state(&h, &mut br)).is_some(), "no error");
        core::mem::forget(h);
    }
    harness!(c12_reader_linear, unwind = 12, stub(HuffmanCodes::read, symbol), { run::<8>(0, 3) });
    harness!(c12_reader_image_t, unwind = 12, stub(HuffmanCodes::read, symbol), { run::<8>(2, 3) });
    // A copy before anything was decoded is an error.
    harness!(c12_first_copy, unwind = 12, stub(HuffmanCodes::read, symbol), {
        let h = hist(false);
        let data = any_bytes::<9>();
        assume(data[0] >= 224);
        let mut br = BitReader::new(&data);
        let mut r = SymbolReader { state: SymbolReaderState::Lz77(lz(0, 8)), ans_reader: AnsReader::new_unused(), errors: ErrorState::new() };
        r.read_unsigned(&h, &mut br, 0);
        assert!(ok(r.check_final_state(&h, &mut br)).is_none(), "copy without history is rejected");
        core::mem::forget(h);
    });
    // Rewinding a reader that stopped at the end of the data so far.
    fn rewind(steps: usize) {
        let mut s = lz(0, 4);
        for _ in 0..3 { s.push_decoded_symbol(any_u32()); }
        s.num_to_copy = any_u32();
        s.copy_pos = any_u32();
        assume(s.copy_pos < s.num_decoded && s.num_to_copy < 1 << 30);
        let (n, c, p) = (s.num_decoded, s.num_to_copy, s.copy_pos);
        let before = [s.window[0], s.window[1], s.window[2]];
        let mut r = SymbolReader { state: SymbolReaderState::Lz77(s), ans_reader: AnsReader::new_unused(), errors: ErrorState::new() };
        let cp = r.checkpoint::<1>();
        if let SymbolReaderState::Lz77(s) = &mut r.state {
            if steps > 0 {
                s.num_to_copy = any_u32();
                s.copy_pos = any_u32();
                s.push_decoded_symbol(any_u32());
            } else {
                r.errors.arithmetic_overflow = true; // a failing copy decodes no symbol
            }
        }
        r.restore(cp);
        let SymbolReaderState::Lz77(s) = &mut r.state else { panic!() };
        assert!(s.num_decoded == n && s.num_to_copy == c && s.copy_pos == p, "position is restored");
        for i in 0..3 { assert!(s.window[i] == before[i], "history is restored"); }
        let next = any_u32();
        s.push_decoded_symbol(next);
        assert!(s.window[3] == next && s.num_decoded == n + 1, "decoding continues from there");
        assert!(!r.errors.arithmetic_overflow && !r.errors.lz77_repeat, "errors are forgotten");
        core::mem::forget(r);
    }
    harness!(c12_rewind_none, unwind = 6, { rewind(0) });
    harness!(c12_rewind_one, unwind = 6, { rewind(1) });
    fn rewind_full(offset: u32, steps: usize) {
        let mut slots = [0u32; 1 << 20];
        let mut s = lz(0, 4);
        s.window = full(&mut slots);
        s.num_decoded = (3 << 20) + offset;
        s.num_to_copy = any_u32();
        s.copy_pos = any_u32();
        assume(s.copy_pos < s.num_decoded && s.num_to_copy < 1 << 30);
        let (n, c, p) = (s.num_decoded, s.num_to_copy, s.copy_pos);
        let v = any_u32();
        s.window[offset as usize] = v;
        let mut r = SymbolReader { state: SymbolReaderState::Lz77(s), ans_reader: AnsReader::new_unused(), errors: ErrorState::new() };
        let cp = r.checkpoint::<1>();
        if let SymbolReaderState::Lz77(s) = &mut r.state {
            s.copy_pos = any_u32();
            if steps > 0 { s.push_decoded_symbol(any_u32()); }
        }
        r.restore(cp);
        let SymbolReaderState::Lz77(s) = &mut r.state else { panic!() };
        assert!(s.num_decoded == n && s.num_to_copy == c && s.copy_pos == p, "position is restored");
        assert!(s.window[offset as usize] == v, "history is restored");
        core::mem::forget(r);
    }
    harness!(c12_rewind_full_none, unwind = 6, solver = z3, { rewind_full(5, 0) });
    harness!(c12_rewind_full_one, unwind = 6, solver = z3, { rewind_full(5, 1) });
    harness!(c12_rewind_full_last, unwind = 6, solver = z3, { rewind_full((1 << 20) - 1, 1) });
    harness!(c12_rewind_full_first, unwind = 6, solver = z3, { rewind_full(0, 1) });
}
