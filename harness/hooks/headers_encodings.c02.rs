mod verif_c02 {
    use super::*;
    use crate::verif_rt::stream::*;
    use crate::verif_rt::*;

    /// Reference: value of one U32 distribution.
    fn spec_u32(d: &U32) -> u64 {
        match *d {
            U32::Bits(n) => put(n),
            U32::BitsOffset { n, off } => put(n) + off as u64,
            U32::Val(v) => v as u64,
        }
    }
    fn any_dist() -> U32 {
        match any_in(0, 2) {
            0 => U32::Bits(any_in(0, 32)),
            1 => {
                // Largest offset distribution that fits 32 bits, as in every table of the format.
                let n = any_in(0, 31);
                U32::BitsOffset { n, off: any_in(0, (1u64 << 31) as usize) as u32 }
            }
            _ => U32::Val(any_u32()),
        }
    }

    harness!(c02_u32, unwind = 3, bits {
        let (a, b, c, d) = (any_dist(), any_dist(), any_dist(), any_dist());
        let direct = any_bool();
        let want = if direct {
            spec_u32(&a)
        } else {
            match put(2) {
                0 => spec_u32(&a),
                1 => spec_u32(&b),
                2 => spec_u32(&c),
                _ => spec_u32(&d),
            }
        };
        let coder = if direct { U32Coder::Direct(a) } else { U32Coder::Select(a, b, c, d) };
        let mut br = reader();
        let got = ok(u32::read_unconditional(&coder, &mut br, &Empty {}));
        reach!(!direct && want > 70000);
        assert!(got == Some(want as u32) && want <= u32::MAX as u64);
        assert!(consumed(&br));
    });

    harness!(c02_i32, unwind = 3, bits {
        let want = put(32);
        let mut br = reader();
        let got = ok(i32::read_unconditional(&U32Coder::Direct(U32::Bits(32)), &mut br, &Empty {}));
        let w: i64 = if want % 2 == 0 { (want / 2) as i64 } else { -(((want + 1) / 2) as i64) };
        reach!(w < -9);
        assert!(got == Some(w as i32));
        assert!(consumed(&br));
    });

    fn spec_u64() -> u64 {
        match put(2) {
            0 => 0,
            1 => 1 + put(4),
            2 => 17 + put(8),
            _ => {
                let mut v = put(12);
                let mut shift = 12;
                while shift < 60 && put(1) == 1 {
                    v += put(8) << shift;
                    shift += 8;
                }
                if shift == 60 && put(1) == 1 {
                    v += put(4) << 60;
                }
                v
            }
        }
    }

    harness!(c02_u64, unwind = 9, bits {
        let want = spec_u64();
        let mut br = reader();
        let got = ok(u64::read_unconditional(&(), &mut br, &Empty {}));
        reach!(want > (1 << 62));
        assert!(got == Some(want));
        assert!(consumed(&br));
    });

    // Half floats: NaN and infinities are rejected, everything else is the exact value.
    harness!(c02_f16, unwind = 12, bits {
        let raw = put(16);
        let mut br = reader();
        let got = ok(f32::read_unconditional(&(), &mut br, &Empty {}));
        let (s, e, m) = (raw >> 15, (raw >> 10) & 31, raw & 1023);
        reach!(e == 0 && m == 5);
        if e == 31 {
            assert!(got.is_none());
        } else {
            // value = (-1)^s * M * 2^k with M < 2^11
            let (mant, k) = if e == 0 { (m, -24i32) } else { (m + 1024, e as i32 - 25) };
            let scale = f32::from_bits(((127 + k) as u32) << 23);
            let v = mant as f32 * scale;
            let v = if s == 1 { -v } else { v };
            assert!(got.map(f32::to_bits) == Some(v.to_bits()));
        }
    });

    harness!(c02_bool, unwind = 3, bits {
        let w = put(1);
        let mut br = reader();
        assert!(ok(bool::read_unconditional(&(), &mut br, &Empty {})) == Some(w == 1));
        reach!(w == 1);
        assert!(consumed(&br));
    });

    // Absent fields take their defaults without touching the stream.
    harness!(c02_conditional, unwind = 3, bits {
        let cond = any_bool();
        let dflt = any_u32();
        let n = any_in(0, 32);
        let w = if cond { put(n) as u32 } else { dflt };
        let mut br = reader();
        let got = if any_bool() {
            ok(u32::read_defaulted(&U32Coder::Direct(U32::Bits(n)), cond, dflt, &mut br, &Empty {}))
        } else {
            match ok(Option::<u32>::read_conditional(&U32Coder::Direct(U32::Bits(n)), cond, &mut br, &Empty {})) {
                Some(None) => { assert!(!cond); Some(dflt) }
                Some(Some(v)) => { assert!(cond); Some(v) }
                None => None,
            }
        };
        reach!(cond);
        reach!(!cond);
        assert!(got == Some(w));
        assert!(consumed(&br));
    });

    // Extensions: the announced sizes of all present extensions are skipped, exactly.
    harness!(c02_extensions, unwind = 66, bits {
        put_val(2, 1);
        put_val(4, 8); // extensions 0 and 3
        put_val(2, 1);
        let mut total = 1 + put(4);
        put_val(2, 2);
        total += 17 + put(8);
        put_val(total as usize, 0);
        let mut br = reader();
        let r = ok(Extensions::read_unconditional(&(), &mut br, &Empty {}));
        reach!(total > 250);
        assert!(r.is_some());
        assert!(consumed(&br));
    });

    harness!(c02_no_extensions, unwind = 66, bits {
        put_val(2, 0);
        put_val(0, 0);
        let mut br = reader();
        assert!(ok(Extensions::read_unconditional(&(), &mut br, &Empty {})).is_some());
        assert!(consumed(&br));
        reach!(true);
    });

    // Names: length classes and byte values.
    harness!(c02_string, unwind = 5, bits {
        put_val(2, 1);
        let len = put_val(4, 2);
        let want = [put(8) as u8, put(8) as u8];
        // Non-ASCII bytes become the code point of the same number.
        let mut br = reader();
        let got = ok(String::read_unconditional(&(), &mut br, &Empty {}));
        let Some(s) = got else { assert!(false); return };
        assert!(s.len() >= len as usize && s.len() <= 2 * len as usize);
        assert!(consumed(&br));
        let b = s.as_bytes();
        let mut j = 0;
        for i in 0..2 {
            if i < len as usize {
                let c = want[i];
                if c < 128 {
                    assert!(b[j] == c);
                    j += 1;
                } else {
                    assert!(b[j] == 0xc0 | (c >> 6) && b[j + 1] == 0x80 | (c & 63));
                    j += 2;
                }
            }
        }
        assert!(j == b.len());
        reach!(len == 2);
        core::mem::forget(s);
    });
}
