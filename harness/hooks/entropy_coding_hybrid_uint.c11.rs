// C11: hybrid integers.
mod verif_c11 {
    use super::*;
    use crate::verif_rt::stream::*;
    use crate::verif_rt::*;

    fn bits_for(n: u64) -> usize { let mut b = 0; while (1u64 << b) < n { b += 1; } b } // ceil(log2(n))
    fn config(las: usize) {
        let se = put(bits_for(las as u64 + 1));
        let mut good = true;
        let (mut msb, mut lsb) = (0, 0);
        if se != las as u64 {
            msb = put(bits_for(se + 1));
            if msb > se { good = false; invalid(); } else {
                lsb = put(bits_for(se - msb + 1));
                if msb + lsb > se { good = false; }
            }
        }
        let mut br = reader();
        let r = ok(HybridUint::decode(las, &mut br));
        assert!(r.is_some() == good, "configurations with more token bits than the split exponent are rejected");
        if let Some(h) = r {
            assert!(consumed(&br));
            assert!(h.split_exponent as u64 == se && h.msb_in_token as u64 == msb && h.lsb_in_token as u64 == lsb, "fields");
            assert!(h.split_token() == 1 << se, "split token");
            assert!(h.is_split_exponent_zero() == (se == 0));
            assert!(h.is_config_420() == (se == 4 && msb == 2 && lsb == 0));
        }
    }
    harness!(c11_config_5, unwind = 8, bits { config(5) });
    harness!(c11_config_7, unwind = 8, bits { config(7) });
    harness!(c11_config_8, unwind = 8, bits { config(8) });
    harness!(c11_config_15, unwind = 8, bits { config(15) });

    // The value a token and its extra bits denote: below the split the token itself, otherwise
    // 1 msb.. extra.. lsb.., the exponent growing with the token.
    harness!(c11_read, unwind = 4, bits {
        let se = any_in(0, 15) as u32;
        let msb = any_in(0, 15) as u32;
        let lsb = any_in(0, 15) as u32;
        assume(msb + lsb <= se);
        let h = HybridUint { split_token: 1 << se, split_exponent: se, msb_in_token: msb, lsb_in_token: lsb };
        let token = any_u32();
        assume(token < 1 << 16);
        if token < 1 << se {
            let mut br = reader();
            if h.is_config_420() { assert!(HybridUint::read_config_420(token, &mut br) == token && consumed(&br), "specialised reader agrees"); }
            assert!(h.read(token, &mut br) == token && consumed(&br), "small values are coded directly");
        } else {
            let t = token - (1 << se);
            let n = se - msb - lsb + (t >> (msb + lsb));
            assume(n < 32 - 0); // beyond that the stream is invalid
            let extra = put(n as usize);
            let top = (1u64 << msb) + ((t as u64 >> lsb) & ((1 << msb) - 1));
            let want = ((((top << n) + extra) << lsb) + (t as u64 & ((1 << lsb) - 1))) & 0xffff_ffff;
            let mut br = reader();
            if h.is_config_420() {
                assert!(HybridUint::read_config_420(token, &mut br) as u64 == want && consumed(&br), "specialised reader agrees");
            } else {
                assert!(h.read(token, &mut br) as u64 == want && consumed(&br), "value of token and extra bits");
            }
        }
    });
    harness!(c11_read_420, unwind = 4, bits {
        let h = HybridUint { split_token: 16, split_exponent: 4, msb_in_token: 2, lsb_in_token: 0 };
        assert!(h.is_config_420());
        let token = any_u32();
        assume(token < 1 << 16);
        let n = if token < 16 { 0 } else { 2 + ((token - 16) >> 2) };
        assume(n < 32);
        let (mut extra, mut want) = (0, token as u64);
        if token >= 16 { extra = put(n as usize); want = ((4 + (token as u64 & 3)) << n) + extra; }
        let _ = extra;
        let mut br = reader();
        assert!(HybridUint::read_config_420(token, &mut br) as u64 == want & 0xffff_ffff && consumed(&br), "specialised reader agrees");
    });
    // An invalid token must not fail, whatever its value.
    harness!(c11_read_any, unwind = 4, bits {
        let se = any_in(0, 15) as u32;
        let msb = any_in(0, 15) as u32;
        let lsb = any_in(0, 15) as u32;
        assume(msb + lsb <= se);
        let h = HybridUint { split_token: 1 << se, split_exponent: se, msb_in_token: msb, lsb_in_token: lsb };
        let token = any_u32();
        assume(token < 1 << 16);
        invalid();
        let mut br = reader();
        h.read(token, &mut br);
        HybridUint::read_config_420(token, &mut br);
    });
}
