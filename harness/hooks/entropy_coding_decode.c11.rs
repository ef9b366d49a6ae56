// C11: signed integers and 16-bit variable-length integers.
mod verif_c11 {
    use super::*;
    use crate::verif_rt::stream::*;
    use crate::verif_rt::*;
    harness!(c11_unpack_signed, unwind = 2, {
        let u = any_u32();
        let want = if u % 2 == 0 { (u / 2) as i64 } else { -((u as i64 + 1) / 2) };
        assert!(unpack_signed(u) as i64 == want, "even is non-negative, odd negative");
    });
    harness!(c11_varint16, unwind = 4, bits {
        let mut want = 0;
        if put(1) == 1 {
            let n = put(4);
            want = 1;
            if n > 0 { want = (1 << n) + put(n as usize); }
        }
        let mut br = reader();
        let r = ok(decode_varint16(&mut br));
        assert!(r.map(|v| v as u64) == Some(want) && consumed(&br), "value");
    });
}
