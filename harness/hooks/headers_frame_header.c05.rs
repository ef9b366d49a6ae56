mod verif_c05 {
    use super::*;
    use crate::verif_rt::fields::*;
    use crate::verif_rt::*;
    use core::mem::ManuallyDrop;

    // Blending information of one channel group.
    struct B { mode: u64, alpha: u64, clamp: bool, source: u64 }
    fn s_blend(nec: u32, full: bool) -> Option<B> {
        let mode = sel([(0, 0), (0, 1), (0, 2), (2, 3)]);
        if mode > 4 { return None; }
        let alpha_mode = mode == 2 || mode == 3;
        let alpha = if nec > 0 && alpha_mode { sel([(0, 0), (0, 1), (0, 2), (3, 3)]) } else { 0 };
        let clamp = if (nec > 0 && alpha_mode) || mode == 4 { flag() } else { false };
        let source = if !(full && mode == 0) { sel([(0, 0), (0, 1), (0, 2), (0, 3)]) } else { 0 };
        Some(B { mode, alpha, clamp, source })
    }
    fn same_blend(b: &BlendingInfo, w: &B) -> bool {
        b.mode as u64 == w.mode && b.alpha_channel as u64 == w.alpha && b.clamp == w.clamp && b.source as u64 == w.source
    }
    fn blend(nec: u32, full: bool) {
        let w = s_blend(nec, full);
        if w.is_none() { invalid(); }
        let mut br = reader();
        let ns = BlendingInfoNonserialized { num_extra_channels: nec, full_frame: full };
        match ok(BlendingInfo::read_unconditional(&(), &mut br, &ns)) {
            Some(b) => {
                assert!(w.is_some_and(|w| same_blend(&b, &w)));
                assert!(consumed(&br));
                reach!(b.mode == BlendingMode::Mul && b.clamp && b.source == 3);
            }
            None => assert!(w.is_none()),
        }
    }
    harness!(c05_blend0, unwind = 6, fields { blend(0, true); });
    harness!(c05_blend1, unwind = 6, fields { blend(1, false); });

    // Passes: shifts, and the downsampling steps in coded order.
    fn passes(n: u64, nds: u64) {
        let dn = [(0, 1), (0, 2), (0, 3), (3, 4)];
        sel_val(dn, (n.min(4) - 1) as usize, n);
        let mut shift = [0u64; 5];
        let mut ds = [0u64; 4];
        let mut lp = [0u64; 4];
        if n != 1 { sel_val([(0, 0), (0, 1), (0, 2), (1, 3)], nds.min(3) as usize, nds); }
        known(n - 1);
        for i in 0..5 { if (i as u64) < n - 1 { shift[i] = bits(2); } }
        known(nds);
        for i in 0..4 { if (i as u64) < nds { ds[i] = sel([(0, 1), (0, 2), (0, 4), (0, 8)]); } }
        known(nds);
        for i in 0..4 { if (i as u64) < nds { lp[i] = sel([(0, 0), (0, 1), (0, 2), (3, 0)]); } }
        let mut br = reader();
        let p = ManuallyDrop::new(ok(Passes::read_unconditional(&(), &mut br, &Empty {})).unwrap());
        assert!(consumed(&br));
        assert!(p.num_passes as u64 == n);
        assert!(p.num_ds as u64 == nds && p.shift.len() as u64 == n - 1);
        assert!(p.downsample.len() as u64 == nds && p.last_pass.len() as u64 == nds);
        for i in 0..5 { if (i as u64) < n - 1 { assert!(p.shift[i] as u64 == shift[i]); } }
        for i in 0..4 { if (i as u64) < nds { assert!(p.downsample[i] as u64 == ds[i] && p.last_pass[i] as u64 == lp[i]); } }
        reach!(n == 1 || shift[0] == 3);
    }
    harness!(c05_passes1, unwind = 6, fields { passes(1, 0); });
    harness!(c05_passes2, unwind = 6, fields { passes(2, 1); });
    harness!(c05_passes3, unwind = 6, fields { passes(3, 2); });
    harness!(c05_passes5, unwind = 6, fields { passes(5, 4); });

    // Restoration filter.
    fn restoration(enc: Encoding, gab_custom: bool, iters: u64, sharp: bool, weight: bool, sigma: bool) {
        let mut f = [0f32; 24];
        let mut bad = false;
        let mut next = 0;
        let mut h = |f: &mut [f32; 24], bad: &mut bool, d: Option<f32>| {
            f[next] = match d { Some(d) => d, None => match half() { Some(v) => v, None => { *bad = true; 0.0 } } };
            next += 1;
        };
        let vardct = enc == Encoding::VarDCT;
        flag_val(false);
        flag_val(true);
        flag_val(gab_custom);
        let dg = [0.115169525f32, 0.061248592];
        for i in 0..6 { h(&mut f, &mut bad, if gab_custom { None } else { Some(dg[i % 2]) }); }
        bits_val(2, iters);
        if iters > 0 && vardct { flag_val(sharp); }
        if sharp { for _ in 0..8 { h(&mut f, &mut bad, None); } }
        if iters > 0 {
            flag_val(weight);
            let dw = [40.0, 5.0, 3.5, 0.45, 0.6];
            for i in 0..5 { h(&mut f, &mut bad, if weight { None } else { Some(dw[i]) }); }
            flag_val(sigma);
            h(&mut f, &mut bad, if sigma && vardct { None } else { Some(0.46) });
            let dsg = [0.9, 6.5, 2.0 / 3.0];
            for i in 0..3 { h(&mut f, &mut bad, if sigma { None } else { Some(dsg[i]) }); }
            if !vardct { h(&mut f, &mut bad, None); }
        }
        no_extensions();
        if bad { invalid(); }
        let mut br = reader();
        match ok(RestorationFilter::read_unconditional(&(), &mut br, &RestorationFilterNonserialized { encoding: enc })) {
            Some(r) => {
                assert!(!bad && consumed(&br));
                assert!(r.gab && r.epf_iters as u64 == iters);
                let g = [r.gab_x_weight1, r.gab_x_weight2, r.gab_y_weight1, r.gab_y_weight2, r.gab_b_weight1, r.gab_b_weight2];
                for i in 0..6 { assert!(g[i] == f[i]); }
                let mut k = 6;
                if sharp { for i in 0..8 { assert!(r.epf_sharp_lut[i] == f[k]); k += 1; } }
                else { for i in 0..8 { assert!(r.epf_sharp_lut[i] == i as f32 / 7.0); } }
                if iters > 0 {
                    let w = [r.epf_channel_scale[0], r.epf_channel_scale[1], r.epf_channel_scale[2],
                        r.epf_pass1_zeroflush, r.epf_pass2_zeroflush, r.epf_quant_mul, r.epf_pass0_sigma_scale,
                        r.epf_pass2_sigma_scale, r.epf_border_sad_mul];
                    for i in 0..9 { assert!(w[i] == f[k]); k += 1; }
                    assert!(r.epf_sigma_for_modular == if vardct { 1.0 } else { f[k] });
                }
                reach!(f[0] > 0.0);
            }
            None => assert!(bad),
        }
    }
    harness!(c05_restoration_gab, unwind = 13, fields { restoration(Encoding::VarDCT, true, 0, false, false, false); });
    harness!(c05_restoration_sharp, unwind = 13, fields { restoration(Encoding::VarDCT, false, 1, true, false, false); });
    harness!(c05_restoration_weight, unwind = 13, fields { restoration(Encoding::VarDCT, false, 2, false, true, false); });
    harness!(c05_restoration_sigma, unwind = 13, fields { restoration(Encoding::VarDCT, false, 3, false, false, true); });
    harness!(c05_restoration_modular, unwind = 13, fields { restoration(Encoding::Modular, false, 3, false, false, true); });
    harness!(c05_restoration_default, unwind = 13, fields {
        flag_val(true);
        let mut br = reader();
        let r = ok(RestorationFilter::read_unconditional(&(), &mut br, &RestorationFilterNonserialized { encoding: Encoding::VarDCT })).unwrap();
        assert!(consumed(&br));
        assert!(r.gab && r.epf_iters == 2 && r.gab_x_weight1 == 0.115169525 && r.epf_quant_mul == 0.46);
        reach!(true);
    });

    const U4: [(usize, u64); 4] = [(8, 0), (11, 256), (14, 2304), (30, 18688)];
    fn unpack(u: u64) -> i64 { if u % 2 == 0 { (u / 2) as i64 } else { -(((u + 1) / 2) as i64) } }

    // `crop`: 0 none, 1 arbitrary, 2 not covering the canvas, 3 covering it. What decides the layout of later
    // fields is concrete per harness, everything else is arbitrary.
    #[derive(Clone, Copy)]
    struct Cfg { ft: u64, modular: bool, xyb: bool, flags: u64, ycbcr: bool, crop: u64, anim: bool, last: bool, mode: u64, save: u64, dur: u64, ec: bool, passes: bool }
    const ANY: u64 = u64::MAX;
    fn header(c: Cfg) {
        let (iw, ih) = if c.crop < 2 { (any_in(1, 1 << 30) as u32, any_in(1, 1 << 30) as u32) } else { (100, 200) };
        let normal = c.ft == 0 || c.ft == 3;
        let lf = c.flags & 0x20 != 0;
        flag_val(false);
        bits_val(2, c.ft);
        bits_val(1, c.modular as u64);
        let fl = long_val(c.flags);
        if !c.xyb { flag_val(c.ycbcr); }
        let mut sub = [0u64; 3];
        if c.ycbcr && !lf { for i in 0..3 { sub[i] = bits(2); } }
        let up = if !lf { sel([(0, 1), (0, 2), (0, 4), (0, 8)]) } else { 1u64 };
        known(c.ec as u64);
        let mut ec_up = if c.ec { sel([(0, 1), (0, 2), (0, 4), (0, 8)]) } else { 1 };
        let dim_shift = if c.ec { any_in(0, 3) as u32 } else { 0 };
        let gss = if c.modular { bits(2) } else { 1 };
        let (xq, bq) = if !c.modular && c.xyb { (bits(3), bits(3)) } else { (2, 2) };
        let mut passes_ok = true;
        if c.ft != 2 && !c.passes { sel_val([(0, 1), (0, 2), (0, 3), (3, 4)], 0, 1); for _ in 0..3 { known(0); } }
        if c.passes {
            // Three passes, two downsampling steps: strictly decreasing factors at strictly increasing passes.
            sel_val([(0, 1), (0, 2), (0, 3), (3, 4)], 2, 3);
            sel_val([(0, 0), (0, 1), (0, 2), (1, 3)], 2, 2);
            known(2); bits(2); bits(2);
            known(2);
            let (d0, d1) = (sel([(0, 1), (0, 2), (0, 4), (0, 8)]), sel([(0, 1), (0, 2), (0, 4), (0, 8)]));
            known(2);
            let (l0, l1) = (sel([(0, 0), (0, 1), (0, 2), (3, 0)]), sel([(0, 0), (0, 1), (0, 2), (3, 0)]));
            passes_ok = d1 < d0 && l1 > l0 && l0 < 3 && l1 < 3;
        }
        let lf_level = if c.ft == 1 { sel([(0, 1), (0, 2), (0, 3), (0, 4)]) } else { 0 };
        if c.ft != 1 { flag_val(c.crop != 0); }
        let (mut x0, mut y0, mut w, mut h) = (0i64, 0i64, 0u64, 0u64);
        match c.crop {
            0 => {}
            1 => {
                if c.ft != 2 { x0 = unpack(sel(U4)); y0 = unpack(sel(U4)); }
                w = sel(U4);
                h = sel(U4);
            }
            2 => { x0 = unpack(sel_val(U4, 0, 2)); y0 = unpack(sel_val(U4, 0, 7)); w = sel_val(U4, 1, 300); h = sel_val(U4, 0, 204); }
            _ => { x0 = unpack(sel_val(U4, 0, 9)); y0 = unpack(sel_val(U4, 0, 7)); w = sel_val(U4, 0, 105); h = sel_val(U4, 0, 204); }
        }
        let covers = x0 <= 0 && y0 <= 0 && w as i64 + x0 >= iw as i64 && h as i64 + y0 >= ih as i64;
        let full = c.crop == 0 || covers;
        let mut blend = B { mode: 0, alpha: 0, clamp: false, source: 0 };
        if normal {
            blend.mode = sel_val([(0, 0), (0, 1), (0, 2), (2, 3)], c.mode.min(3) as usize, c.mode);
            if c.ec && (c.mode == 2 || c.mode == 3) { blend.alpha = sel([(0, 0), (0, 1), (0, 2), (3, 3)]); }
            if c.mode == 4 || c.ec && (c.mode == 2 || c.mode == 3) { blend.clamp = flag(); }
            if c.mode != 0 || !full { blend.source = sel([(0, 0), (0, 1), (0, 2), (0, 3)]); }
        }
        known(c.ec as u64);
        let mut eb = B { mode: 0, alpha: 0, clamp: false, source: 0 };
        if c.ec && normal {
            eb.mode = sel_val([(0, 0), (0, 1), (0, 2), (2, 3)], 3, 3);
            eb.alpha = sel([(0, 0), (0, 1), (0, 2), (3, 3)]);
            eb.clamp = flag();
            eb.source = sel([(0, 0), (0, 1), (0, 2), (0, 3)]);
        }
        let (mut dur, mut tc) = (0, 0);
        if normal && c.anim {
            let d = [(0, 0), (0, 1), (8, 0), (32, 0)];
            dur = if c.dur == ANY { sel(d) } else { sel_val(d, 3, c.dur) };
            tc = bits(32);
        }
        if normal { flag_val(c.last); }
        let last = normal && c.last;
        let save = if c.ft != 1 && !last { if c.save == ANY { bits(2) } else { bits_val(2, c.save) } } else { 0 };
        let refable = !last && c.ft != 1 && (dur == 0 || save != 0);
        let asks = refable && blend.mode == 0 && full && normal;
        let before = if c.ft == 2 || asks { flag() } else { c.ft == 1 };
        no_name();
        flag_val(true); // restoration filter
        no_extensions();
        let mut valid = passes_ok;
        if c.ec {
            if up > 1 {
                let eff = ec_up << dim_shift;
                valid &= eff >= up && eff <= 8;
            }
            if fl & 2 != 0 && up != 1 { valid &= ec_up == up; }
            if normal { valid &= blend.alpha == 0 && eb.alpha == 0; }
        }
        let valid = valid && !(lf && lf_level >= 4) && !(!before && !full && c.ft == 2);
        let ns = FrameHeaderNonserialized { xyb_encoded: c.xyb, num_extra_channels: c.ec as u32,
            extra_channel_info: if c.ec { vec![ec_info(dim_shift)] } else { Vec::new() },
            have_animation: c.anim, have_timecode: c.anim, img_width: iw, img_height: ih };
        let ns = ManuallyDrop::new(ns);
        let mut br = reader();
        match ok(FrameHeader::read_unconditional(&(), &mut br, &ns)) {
            Some(f) => {
                let mut f = ManuallyDrop::new(f);
                f.postprocess(&ns);
                assert!(valid && consumed(&br));
                assert!(f.frame_type as u64 == c.ft && (f.encoding == Encoding::Modular) == c.modular);
                assert!(f.has_lf_frame() == lf && f.has_patches() == (fl & 2 != 0) && f.has_noise() == (fl & 1 != 0));
                assert!(f.has_splines() == (fl & 16 != 0));
                assert!(f.do_ycbcr == c.ycbcr && f.upsampling as u64 == up && f.group_size_shift as u64 == gss);
                for i in 0..3 { assert!(f.jpeg_upsampling[i] as u64 == sub[i]); }
                assert!(f.x_qm_scale as u64 == xq && (c.modular || !c.xyb || f.b_qm_scale as u64 == bq));
                assert!(f.passes.num_passes == if c.passes { 3 } else { 1 } && f.lf_level as u64 == lf_level);
                assert!(f.have_crop == (c.crop != 0) && f.x0 as i64 == x0 && f.y0 as i64 == y0);
                assert!(f.width as u64 == if w == 0 { iw as u64 } else { w });
                assert!(f.height as u64 == if h == 0 { ih as u64 } else { h });
                assert!(f.full_frame == full);
                assert!(same_blend(&f.blending_info, &blend));
                if c.ec {
                    if up > 1 { ec_up <<= dim_shift; }
                    assert!(f.ec_upsampling.len() == 1 && f.ec_upsampling[0] as u64 == ec_up);
                    assert!(f.ec_blending_info.len() == 1 && (!normal || same_blend(&f.ec_blending_info[0], &eb)));
                }
                assert!(f.duration as u64 == dur && f.timecode as u64 == tc);
                assert!(!normal || f.is_last == last);
                assert!(f.save_as_reference as u64 == save && f.can_be_referenced == refable);
                assert!(f.save_before_ct == before);
                assert!(f.is_visible() == (normal && (last || dur > 0)));
                assert!(f.needs_blending() == (normal && (c.crop != 0 || blend.mode != 0 || c.ec)));
                assert!(f.should_do_adaptive_lf_smoothing() == (!lf && !c.modular && fl & 128 == 0));
                reach!(true);
            }
            None => assert!(!valid),
        }
    }
    fn ec_info(dim_shift: u32) -> ExtraChannelInfo {
        use crate::headers::{bit_depth::BitDepth, extra_channels::ExtraChannel};
        ExtraChannelInfo::new(false, ExtraChannel::Depth, BitDepth::integer_samples(8), dim_shift, String::new(), false, None, None)
    }
    const BASE: Cfg = Cfg { ft: 0, modular: false, xyb: true, flags: 0, ycbcr: false, crop: 0, anim: false, last: false, mode: 0, save: ANY, dur: ANY, ec: false, passes: false };
    harness!(c05_header_regular, unwind = 13, fields { header(Cfg { flags: 0x91, ..BASE }); });
    harness!(c05_header_last, unwind = 13, fields { header(Cfg { last: true, anim: true, flags: 0x82, ..BASE }); });
    harness!(c05_header_anim, unwind = 13, fields { header(Cfg { anim: true, modular: true, dur: 7, save: 0, ..BASE }); });
    harness!(c05_header_anim_save, unwind = 13, fields { header(Cfg { anim: true, modular: true, save: 3, ..BASE }); });
    harness!(c05_header_anim_zero, unwind = 13, fields { header(Cfg { anim: true, modular: true, dur: 0, ..BASE }); });
    harness!(c05_header_ycbcr, unwind = 13, fields { header(Cfg { ycbcr: true, xyb: false, ..BASE }); });
    harness!(c05_header_crop, unwind = 13, fields { header(Cfg { crop: 1, mode: 1, ..BASE }); });
    harness!(c05_header_crop_mul, unwind = 13, fields { header(Cfg { crop: 1, mode: 4, ft: 3, anim: true, ..BASE }); });
    harness!(c05_header_crop_part, unwind = 13, fields { header(Cfg { crop: 2, ..BASE }); });
    harness!(c05_header_crop_full, unwind = 13, fields { header(Cfg { crop: 3, ft: 3, ..BASE }); });
    harness!(c05_header_blend, unwind = 13, fields { header(Cfg { mode: 2, ..BASE }); });
    harness!(c05_header_ref, unwind = 13, fields { header(Cfg { ft: 2, ..BASE }); });
    harness!(c05_header_ref_crop, unwind = 13, fields { header(Cfg { ft: 2, crop: 1, ..BASE }); });
    harness!(c05_header_lf, unwind = 13, fields { header(Cfg { ft: 1, flags: 0x20, ..BASE }); });
    harness!(c05_header_passes, unwind = 13, fields { header(Cfg { passes: true, ..BASE }); });
    harness!(c05_header_ec, unwind = 13, fields { header(Cfg { ec: true, mode: 2, flags: 2, last: true, ..BASE }); });
    harness!(c05_header_ec_ref, unwind = 13, fields { header(Cfg { ec: true, ft: 2, ..BASE }); });
}
