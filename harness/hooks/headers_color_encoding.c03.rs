mod verif_c03 {
    use super::*;
    use crate::verif_rt::fields::*;
    use crate::verif_rt::*;

    fn s_xy() -> (i32, i32) {
        let d = [(19, 0), (19, 524288), (20, 1048576), (21, 2097152)];
        let f = |u: u64| if u & 1 == 0 { (u >> 1) as i32 } else { -(((u + 1) >> 1) as i32) };
        let x = sel(d);
        let y = sel(d);
        (f(x), f(y))
    }

    // class: 0 = anything without custom points, 1 = custom white point, 2 = custom primaries
    fn encoding(class: usize) {
        let dflt = class == 0 && flag();
        if class != 0 { flag_val(false); }
        let (mut icc, mut cs, mut wp, mut pr, mut have_gamma, mut gamma, mut tf, mut intent) = (false, 0, 1, 1, false, 0, 13, 1);
        let mut xy = [(0, 0); 4];
        let mut bad = false;
        if !dflt {
            icc = class == 0 && flag();
            if class != 0 { flag_val(false); }
            cs = if class == 0 { enumv() } else { sel_val(ENUM, 0, 0) };
            // XYB has its own implicit white point and transfer function; it is rejected here.
            assume(cs != 2);
            if cs > 3 { bad = true; }
            if !icc && !bad {
                wp = if class == 1 { sel_val(ENUM, 2, 2); xy[0] = s_xy(); 2 } else { let v = enumv(); assume(v != 2); v };
                if !matches!(wp, 1 | 2 | 10 | 11) { bad = true; }
                if cs != 1 && !bad {
                    pr = if class == 2 { sel_val(ENUM, 2, 2); xy[1] = s_xy(); xy[2] = s_xy(); xy[3] = s_xy(); 2 }
                         else { let v = enumv(); assume(v != 2); v };
                    if !matches!(pr, 1 | 2 | 9 | 11) { bad = true; }
                }
                if !bad {
                    have_gamma = class == 0 && flag();
                    if class != 0 { flag_val(false); }
                    if have_gamma {
                        gamma = bits(24);
                        if gamma > 10_000_000 || gamma * 8192 < 10_000_000 { bad = true; }
                        // Exactly at the limits the code compares in single precision.
                        assume(!(10_000_000 - 2..=10_000_000 + 2).contains(&gamma) && !(1219..=1222).contains(&gamma));
                    } else {
                        tf = enumv();
                        if !matches!(tf, 1 | 2 | 8 | 13 | 16 | 17 | 18) { bad = true; }
                    }
                }
                if !bad {
                    intent = enumv();
                    if intent > 3 { bad = true; }
                }
            }
        }
        if bad { invalid(); }
        let valid = !bad && (icc || (cs != 3 && (have_gamma || tf != 2)));
        let mut br = reader();
        match ok(ColorEncoding::read_unconditional(&(), &mut br, &Empty {})) {
            Some(c) => {
                assert!(valid);
                assert!(c.want_icc == icc && c.color_space as u64 == cs);
                assert!(c.white_point as u64 == wp && c.primaries as u64 == pr);
                assert!(c.rendering_intent as u64 == intent);
                assert!(c.tf.have_gamma == have_gamma);
                if have_gamma { assert!(c.tf.gamma as u64 == gamma); } else { assert!(c.tf.transfer_function as u64 == tf); }
                if class == 1 { assert!((c.white.x, c.white.y) == xy[0]); }
                if class == 2 { for i in 0..3 { assert!((c.custom_primaries[i].x, c.custom_primaries[i].y) == xy[i + 1]); } }
                assert!(consumed(&br));
                reach!(intent == 3 && tf == 18);
            }
            // An embedded profile with an unclassified colour space is refused as well.
            None => assert!(!valid || (icc && cs == 3)),
        }
    }
    harness!(c03_color_plain, unwind = 6, fields { encoding(0) });
    harness!(c03_color_white, unwind = 6, fields { encoding(1) });
    harness!(c03_color_primaries, unwind = 6, fields { encoding(2) });
}
