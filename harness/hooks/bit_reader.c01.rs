mod verif_c01 {
    use super::*;
    use crate::verif_rt::*;

    const N: usize = 10;

    /// Symbolic input of symbolic length <= N and its value as one little-endian integer.
    fn input() -> ([u8; N], usize, u128) {
        let data = any_bytes::<N>();
        let len = any_in(0, N);
        let mut b = [0u8; 16];
        b[..N].copy_from_slice(&data);
        let v = u128::from_le_bytes(b);
        let full = if len == 0 { 0 } else { v & (!0u128 >> (128 - 8 * len)) };
        (data, len, full)
    }

    fn bits(full: u128, pos: usize, n: usize) -> u64 {
        if pos >= 128 { 0 } else { ((full >> pos) & ((1u128 << n) - 1)) as u64 }
    }

    // skip, then read, then read again: values, position and errors.
    harness!(c01_skip_read, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let skip = any_in(0, 8 * N + 3);
        let n = any_in(0, 56);
        if ok(br.skip_bits(skip)).is_none() {
            assert!(skip > len * 8);
            return;
        }
        assert!(skip <= len * 8);
        let Some(v) = ok(br.read(n)) else {
            assert!(skip + n > len * 8);
            return;
        };
        assert!(skip + n <= len * 8);
        assert!(v == bits(full, skip, n));
        assert!(br.total_bits_read() == skip + n);
        assert!(br.total_bits_available() == len * 8 - skip - n);
        reach!(skip > 8 && n > 30);
        assert!(ok(br.check_for_error()).is_some());
    });

    // skip, then read, then read again: values, position and errors.
    harness!(c01_skip_read_read_t, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let skip = any_in(0, 8 * N + 3);
        let n = any_in(0, 56);
        let m = any_in(0, 56);
        if ok(br.skip_bits(skip)).is_none() {
            assert!(skip > len * 8);
            return;
        }
        assert!(skip <= len * 8);
        let Some(v) = ok(br.read(n)) else {
            assert!(skip + n > len * 8);
            return;
        };
        assert!(skip + n <= len * 8);
        assert!(v == bits(full, skip, n));
        assert!(br.total_bits_read() == skip + n);
        assert!(br.total_bits_available() == len * 8 - skip - n);
        match ok(br.read(m)) {
            Some(v) => {
                reach!(n > 30 && m > 30);
                assert!(skip + n + m <= len * 8);
                assert!(v == bits(full, skip + n, m));
            }
            None => assert!(skip + n + m > len * 8),
        }
        assert!(ok(br.check_for_error()).is_some());
    });

    // read, skip, peek+consume: skipping from a partly filled buffer.
    harness!(c01_read_skip_peek, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let n = any_in(0, 56);
        let skip = any_in(0, 8 * N + 3);
        let m = any_in(0, 56);
        if ok(br.read(n)).is_none() {
            assert!(n > len * 8);
            return;
        }
        if ok(br.skip_bits(skip)).is_none() {
            assert!(n + skip > len * 8);
            return;
        }
        assert!(n + skip <= len * 8);
        assert!(br.total_bits_read() == n + skip);
        let v = br.peek(m);
        assert!(v == bits(full, n + skip, m));
        assert!(br.total_bits_read() == n + skip);
        reach!(n > 8 && skip > 60 && m > 9);
        match ok(br.consume(m)) {
            Some(()) => assert!(n + skip + m <= len * 8 && br.total_bits_read() == n + skip + m),
            None => assert!(n + skip + m > len * 8),
        }
    });

    // Byte alignment: succeeds iff the padding is present and zero, and lands on the boundary.
    harness!(c01_align, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let n = any_in(0, 56);
        if ok(br.read(n)).is_none() {
            return;
        }
        let pad = (8 - n % 8) % 8;
        assert!(br.bits_to_next_byte() == pad);
        match ok(br.jump_to_byte_boundary()) {
            Some(()) => {
                reach!(pad > 0);
                assert!(bits(full, n, pad) == 0);
                assert!(br.total_bits_read() == n + pad);
                assert!(ok(br.read_noinline(8)) == if n + pad + 8 <= len * 8 { Some(bits(full, n + pad, 8)) } else { None });
            }
            None => {
                reach!(true);
                assert!(bits(full, n, pad) != 0);
            }
        }
    });

    // Optimistic reads: exact while in bounds, zero bits afterwards, and the over-read is reported.
    harness!(c01_optimistic, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let n = any_in(0, 56);
        let m = 0;
        let k = any_in(0, 56);
        let a = br.read_optimistic(n);
        assert!(a == bits(full, 0, n));
        let p = br.peek(k);
        br.consume_optimistic(k);
        assert!(p == bits(full, n + m, k));
        reach!(n + m + k > len * 8 && len > 7);
        reach!(n + m + k <= len * 8 && n > 9);
        assert!(ok(br.check_for_error()).is_none() == (n + m + k > len * 8));
    });

    harness!(c01_optimistic3_t, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let n = any_in(0, 56);
        let m = any_in(0, 56);
        let k = any_in(0, 56);
        let a = br.read_optimistic(n);
        assert!(a == bits(full, 0, n));
        let b = br.read_optimistic(m);
        assert!(b == bits(full, n, m));
        let p = br.peek(k);
        br.consume_optimistic(k);
        assert!(p == bits(full, n + m, k));
        reach!(n + m + k > len * 8 && len > 9);
        reach!(n + m + k <= len * 8 && len > 9);
        assert!(ok(br.check_for_error()).is_none() == (n + m + k > len * 8));
    });

    // Splitting: succeeds iff aligned and available; the parent continues after the child's bytes.
    harness!(c01_split_parent, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let n = any_in(0, 56);
        if ok(br.read(n)).is_none() {
            return;
        }
        let pad = (8 - n % 8) % 8;
        let pos = n + pad;
        let nb = any_in(0, N + 1);
        let Some(child) = ok(br.split_at(nb)) else {
            assert!(bits(full, n, pad) != 0 || pos + nb * 8 > len * 8);
            return;
        };
        assert!(pos + nb * 8 <= len * 8 && bits(full, n, pad) == 0);
        assert!(child.total_bits_available() == nb * 8);
        assert!(br.total_bits_available() == len * 8 - pos - nb * 8);
        let m = 8 * any_in(0, 7);
        match ok(br.read(m)) {
            Some(v) => {
                reach!(nb > 1 && m > 10);
                assert!(pos + nb * 8 + m <= len * 8);
                assert!(v == bits(full, pos + nb * 8, m));
            }
            None => assert!(pos + nb * 8 + m > len * 8),
        }
    });

    // The child can read its nb bytes and nothing more.
    harness!(c01_split_child, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let pos = 8 * any_in(0, 7);
        if ok(br.read(pos)).is_none() {
            return;
        }
        let nb = any_in(0, N + 1);
        let Some(mut child) = ok(br.split_at(nb)) else { return };
        let k = any_in(0, 56);
        let sub = if nb == 0 { 0 } else { (full >> pos) & (!0u128 >> (128 - 8 * nb)) };
        match ok(child.read(k)) {
            Some(v) => {
                reach!(nb >= 3 && k > 10);
                assert!(k <= nb * 8);
                assert!(v == bits(sub, 0, k));
            }
            None => assert!(k > nb * 8),
        }
    });

    // Over-reads of the child are reported, and read as zeros.
    harness!(c01_split_child_optimistic, unwind = 9, {
        let (data, len, full) = input();
        let mut br = BitReader::new(&data[..len]);
        let pos = 8 * any_in(0, 7);
        if ok(br.read(pos)).is_none() {
            return;
        }
        let nb = any_in(0, N + 1);
        let Some(mut child) = ok(br.split_at(nb)) else { return };
        let k = any_in(0, 56);
        let sub = if nb == 0 { 0 } else { (full >> pos) & (!0u128 >> (128 - 8 * nb)) };
        let v = child.read_optimistic(k);
        assert!(v == bits(sub, 0, k));
        reach!(k > nb * 8 && pos + k <= len * 8);
        assert!(ok(child.check_for_error()).is_none() == (k > nb * 8));
    });
}
