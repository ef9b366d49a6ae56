mod verif_c03 {
    use super::*;
    use crate::verif_rt::fields::*;
    use crate::verif_rt::*;

    /// (float, bits, exponent bits), or None if the stream must be rejected.
    fn s_bit_depth() -> Option<(bool, u64, u64)> {
        let float = flag();
        let (b, e) = if float {
            let b = sel([(0, 32), (0, 16), (0, 24), (6, 1)]);
            (b, bits_off(4, 1))
        } else {
            (sel([(0, 8), (0, 10), (0, 12), (6, 1)]), 0)
        };
        if float {
            if !(2..=8).contains(&e) || b < e + 1 + 2 || b > e + 1 + 23 { return None; }
        } else if b > 31 {
            return None;
        }
        Some((float, b, e))
    }
    fn same_depth(b: &BitDepth, w: (bool, u64, u64)) -> bool {
        (b.floating_point_sample(), b.bits_per_sample() as u64, b.exponent_bits_per_sample() as u64) == w
    }

    harness!(c03_bit_depth, unwind = 6, fields {
        let w = s_bit_depth();
        let mut br = reader();
        match ok(BitDepth::read_unconditional(&(), &mut br, &Empty {})) {
            Some(b) => {
                assert!(w.is_some_and(|w| same_depth(&b, w)));
                assert!(consumed(&br));
                reach!(b.floating_point_sample() && b.bits_per_sample() == 20);
            }
            None => assert!(w.is_none()),
        }
    });

    harness!(c03_animation, unwind = 6, fields {
        let num = sel([(0, 100), (0, 1000), (10, 1), (30, 1)]);
        let den = sel([(0, 1), (0, 1001), (8, 1), (10, 1)]);
        let loops = sel([(0, 0), (3, 0), (16, 0), (32, 0)]);
        let tc = flag();
        let mut br = reader();
        let a = ok(Animation::read_unconditional(&(), &mut br, &Empty {})).unwrap();
        assert!(a.tps_numerator as u64 == num && a.tps_denominator as u64 == den);
        assert!(a.num_loops as u64 == loops && a.have_timecodes == tc);
        assert!(consumed(&br));
        reach!(loops > 100000);
    });

    harness!(c03_tone_mapping, unwind = 12, fields {
        let dflt = flag();
        let mut w = (Some(255.0f32), Some(0.0f32), false, Some(0.0f32));
        if !dflt {
            w.0 = half();
            w.1 = half();
            w.2 = flag();
            w.3 = half();
        }
        let valid = match w {
            (Some(i), Some(m), rel, Some(l)) => i > 0.0 && m >= 0.0 && m <= i && l >= 0.0 && !(rel && l > 1.0),
            _ => false,
        };
        let mut br = reader();
        match ok(ToneMapping::read_unconditional(&(), &mut br, &Empty {})) {
            Some(t) => {
                assert!(valid);
                assert!(Some(t.intensity_target) == w.0 && Some(t.min_nits) == w.1);
                assert!(t.relative_to_max_display == w.2 && Some(t.linear_below) == w.3);
                assert!(consumed(&br));
                reach!(!dflt && t.relative_to_max_display);
            }
            None => assert!(!valid),
        }
    });

    const EC_SHIFT: [(usize, u64); 4] = [(0, 0), (0, 3), (0, 4), (3, 1)];
    fn extra_channel(class: usize) {
        let dflt = class == 4;
        flag_val(dflt);
        let (mut ty, mut depth, mut shift, mut assoc, mut spot, mut cfa) = (0, Some((false, 8, 0)), 0, false, [Some(0.0f32); 4], 0);
        if !dflt {
            // class 0: alpha; 1: spot colour; 2: colour filter array; 3: every other type
            ty = match class {
                0 => sel_val(ENUM, 0, 0),
                1 => sel_val(ENUM, 2, 2),
                2 => sel_val(ENUM, 2, 5),
                _ => { let v = enumv(); assume(v != 0 && v != 2 && v != 5); v }
            };
            depth = s_bit_depth();
            shift = sel(EC_SHIFT);
            no_name();
            if class == 0 { assoc = flag(); }
            if class == 1 { spot = [half(), half(), half(), half()]; }
            if class == 2 { cfa = sel([(0, 1), (2, 0), (4, 3), (8, 19)]); }
        }
        if ty > 16 || depth.is_none() { invalid(); }
        let valid = ty <= 16 && depth.is_some() && shift <= 3 && spot.iter().all(|x| x.is_some());
        let mut br = reader();
        match ok(ExtraChannelInfo::read_unconditional(&(), &mut br, &Empty {})) {
            Some(e) => {
                assert!(valid);
                assert!(e.ec_type as u64 == ty && e.dim_shift() as u64 == shift);
                assert!(same_depth(&e.bit_depth(), depth.unwrap()));
                assert!(ty != 0 || e.alpha_associated() == assoc);
                if ty == 2 {
                    let s = e.spot_color.unwrap();
                    for i in 0..4 { assert!(Some(s[i].to_bits()) == spot[i].map(f32::to_bits)); }
                }
                let _ = cfa;
                assert!(consumed(&br));
                reach!(dflt || e.dim_shift() == 3);
                core::mem::forget(e);
            }
            None => assert!(!valid),
        }
    }
    harness!(c03_ec_alpha, unwind = 6, fields { extra_channel(0) });
    harness!(c03_ec_spot, unwind = 12, fields { extra_channel(1) });
    harness!(c03_ec_cfa, unwind = 6, fields { extra_channel(2) });
    harness!(c03_ec_other, unwind = 6, fields { extra_channel(3) });
    harness!(c03_ec_default, unwind = 6, fields { extra_channel(4) });

    // Whole metadata headers; what decides the layout is concrete per harness, every other field is arbitrary.
    fn metadata(extra: bool, intrinsic: bool, preview: bool, anim: bool, nec: u64) {
        flag_val(false);
        flag_val(extra);
        let mut orient = 1;
        let big = [(9, 1), (13, 1), (18, 1), (30, 1)];
        let (mut iy, mut ix, mut py, mut px) = (0, 0, 0, 0);
        let (mut num, mut den, mut loops, mut tc) = (0, 0, 0, false);
        if extra {
            orient = bits_off(3, 1);
            flag_val(intrinsic);
            if intrinsic { flag_val(false); iy = sel(big); bits_val(3, 0); ix = sel(big); }
            flag_val(preview);
            if preview {
                let d = [(0, 16), (0, 32), (5, 1), (9, 33)];
                flag_val(true); py = sel(d) * 8; bits_val(3, 0); px = sel(d) * 8;
            }
            flag_val(anim);
            if anim {
                num = sel([(0, 100), (0, 1000), (10, 1), (30, 1)]);
                den = sel([(0, 1), (0, 1001), (8, 1), (10, 1)]);
                loops = sel([(0, 0), (3, 0), (16, 0), (32, 0)]);
                tc = flag();
            }
        }
        flag_val(false);
        let depth = sel([(0, 8), (0, 10), (0, 12), (6, 1)]);
        let m16 = flag();
        let mut shifts = [0u64; 2];
        sel_val([(0, 0), (0, 1), (4, 2), (12, 1)], nec as usize, nec);
        for i in 0..2 { if (i as u64) < nec {
            flag_val(false);
            sel_val(ENUM, 0, 1);
            flag_val(false); sel_val([(0, 8), (0, 10), (0, 12), (6, 1)], 0, 8);
            shifts[i] = sel(EC_SHIFT);
            no_name();
        } }
        let xyb = flag();
        flag_val(true);
        if extra { flag_val(true); }
        no_extensions();
        let mut valid = depth <= 31;
        for i in 0..2 { valid &= shifts[i] <= 3; }
        if !valid { invalid(); }
        let mut br = reader();
        match ok(ImageMetadata::read_unconditional(&(), &mut br, &Empty {})) {
            Some(m) => {
                assert!(valid && consumed(&br));
                assert!(m.orientation as u64 == orient && m.bit_depth.bits_per_sample() as u64 == depth);
                assert!(m.modular_16bit_sufficient == m16 && m.xyb_encoded == xyb);
                assert!(m.intrinsic_size.is_some() == intrinsic && m.preview.is_some() == preview);
                if let Some(s) = &m.intrinsic_size { assert!((s.xsize() as u64, s.ysize() as u64) == (ix, iy)); }
                if let Some(s) = &m.preview { assert!((s.xsize() as u64, s.ysize() as u64) == (px, py)); }
                assert!(m.animation.is_some() == anim);
                if let Some(a) = &m.animation {
                    assert!(a.tps_numerator as u64 == num && a.tps_denominator as u64 == den);
                    assert!(a.num_loops as u64 == loops && a.have_timecodes == tc);
                }
                assert!(m.extra_channel_info.len() as u64 == nec);
                for i in 0..2 { if (i as u64) < nec {
                    assert!(m.extra_channel_info[i].ec_type as u64 == 1);
                    assert!(m.extra_channel_info[i].dim_shift() as u64 == shifts[i]);
                } }
                assert!(m.tone_mapping.intensity_target == 255.0);
                reach!(depth == 16);
                core::mem::forget(m);
            }
            None => assert!(!valid),
        }
    }
    harness!(c03_metadata_plain, unwind = 6, fields { metadata(false, false, false, false, 0); });
    harness!(c03_metadata_extra, unwind = 6, fields { metadata(true, true, false, false, 0); });
    harness!(c03_metadata_anim, unwind = 6, fields { metadata(true, false, true, true, 0); });
    harness!(c03_metadata_ec, unwind = 6, fields { metadata(false, false, false, false, 2); });

    // The all-default metadata bundle.
    harness!(c03_metadata_default, unwind = 5, fields {
        flag_val(true);
        let mut br = reader();
        let m = ok(ImageMetadata::read_unconditional(&(), &mut br, &Empty {})).unwrap();
        assert!(consumed(&br));
        assert!(m.orientation == Orientation::Identity && same_depth(&m.bit_depth, (false, 8, 0)));
        assert!(m.xyb_encoded && m.modular_16bit_sufficient && m.extra_channel_info.is_empty());
        assert!(m.animation.is_none() && m.preview.is_none() && m.intrinsic_size.is_none());
        reach!(true);
        core::mem::forget(m);
    });

    // Orientation: display coordinates form a bijection that agrees with the size map, and rectangles map to
    // the rectangles that cover exactly the mapped pixels.
    harness!(c03_orientation, unwind = 3, {
        use num_traits::FromPrimitive;
        let o = Orientation::from_usize(any_in(1, 8)).unwrap();
        let size = (any_in(1, 1 << 16), any_in(1, 1 << 16));
        let (x, y) = (any_in(0, size.0 - 1), any_in(0, size.1 - 1));
        // The reference formulation works in display space: the EXIF definition of each orientation.
        let (dx, dy) = match o as usize {
            1 => (x, y),
            2 => (size.0 - 1 - x, y),
            3 => (size.0 - 1 - x, size.1 - 1 - y),
            4 => (x, size.1 - 1 - y),
            5 => (y, x),
            6 => (size.1 - 1 - y, x),
            7 => (size.1 - 1 - y, size.0 - 1 - x),
            _ => (y, size.0 - 1 - x),
        };
        let ds = o.map_size(size);
        assert!(ds == if o as usize >= 5 { (size.1, size.0) } else { size });
        assert!(o.display_pixel((x, y), size) == (dx, dy));
        assert!(dx < ds.0 && dy < ds.1);
        // Stepping along x.
        if x + 1 < size.0 {
            let n = o.display_pixel((x + 1, y), size);
            let s = o.display_row_step();
            assert!(n.0 as isize - dx as isize == s.0 && n.1 as isize - dy as isize == s.1);
        }
        // Rectangles.
        let r = Rect { origin: (x, y), size: (any_in(1, size.0 - x), any_in(1, size.1 - y)) };
        let d = o.display_rect(r, size);
        let a = o.display_pixel((x, y), size);
        let b = o.display_pixel((x + r.size.0 - 1, y + r.size.1 - 1), size);
        assert!(d.origin == (a.0.min(b.0), a.1.min(b.1)));
        assert!(d.size == (a.0.max(b.0) - d.origin.0 + 1, a.1.max(b.1) - d.origin.1 + 1));
        reach!(o as usize == 7 && r.size.0 > 5 && r.size.1 > 9);
    });
}
