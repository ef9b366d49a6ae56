mod verif_c06 {
    use super::*;
    use crate::verif_rt::*;

    fn nonser() -> FrameHeaderNonserialized {
        FrameHeaderNonserialized { xyb_encoded: true, num_extra_channels: 0, extra_channel_info: Vec::new(),
            have_animation: false, have_timecode: false, img_width: 1, img_height: 1 }
    }
    fn all_default() -> FrameHeader {
        let n = nonser();
        let nb = BlendingInfoNonserialized { num_extra_channels: 0, full_frame: true };
        let nr = RestorationFilterNonserialized { encoding: Encoding::VarDCT };
        FrameHeader {
            all_default: true, frame_type: FrameType::RegularFrame, encoding: Encoding::VarDCT, flags: 0,
            do_ycbcr: false, jpeg_upsampling: [0; 3], upsampling: 1, ec_upsampling: Vec::new(), group_size_shift: 1,
            x_qm_scale: 3, b_qm_scale: 2, passes: Passes::default(&Empty {}), lf_level: 0, have_crop: false, x0: 0, y0: 0,
            frame_width: 0, frame_height: 0, completely_covers: false, full_frame: true,
            blending_info: BlendingInfo::default(&nb), ec_blending_info: Vec::new(), duration: 0, timecode: 0,
            is_last: true, save_as_reference: 0, can_be_referenced: false, save_before_ct_def_false: false,
            save_before_ct: false, name: String::new(), restoration_filter: RestorationFilter::default(&nr),
            extensions: Extensions::default(), width: n.img_width, height: n.img_height, maxhs: 0, maxvs: 0,
            num_extra_channels: 0,
        }
    }
    /// A frame of arbitrary size up to `max`; `shift`: group size shift, `up`: upsampling.
    fn frame(max: usize, modular: bool, shift: u32, up: u32, lf_level: u32, sub: [u32; 3]) -> core::mem::ManuallyDrop<FrameHeader> {
        let mut f = core::mem::ManuallyDrop::new(all_default());
        f.encoding = if modular { Encoding::Modular } else { Encoding::VarDCT };
        f.group_size_shift = shift;
        f.upsampling = up;
        f.lf_level = lf_level;
        f.jpeg_upsampling = sub;
        f.maxhs = compute_jpeg_shift(&f.jpeg_upsampling, &H_SHIFT);
        f.maxvs = compute_jpeg_shift(&f.jpeg_upsampling, &V_SHIFT);
        f.width = any_in(1, max) as u32;
        f.height = any_in(1, max) as u32;
        f
    }
    fn ceil(a: usize, b: usize) -> usize { (a + b - 1) / b }

    // Frame, block, group and LF group counts for every size.
    fn counts(modular: bool, shift: u32, up: u32, lf_level: u32, sub: [u32; 3]) {
        let mut f = frame((1 << 30) - 1, modular, shift, up, lf_level, sub);
        f.passes.num_passes = any_in(1, 11) as u32;
        let mut hs = 0;
        let mut vs = 0;
        for c in 0..3 {
            if sub[c] == 1 || sub[c] == 2 { hs = 1; }
            if sub[c] == 1 || sub[c] == 3 { vs = 1; }
        }
        for c in 0..3 {
            assert!(f.hshift(c) == hs - (sub[c] == 1 || sub[c] == 2) as usize);
            assert!(f.vshift(c) == vs - (sub[c] == 1 || sub[c] == 3) as usize);
        }
        let (w, h) = (f.width as usize, f.height as usize);
        let down = 1usize << (3 * lf_level);
        let (uw, uh) = (ceil(w, down), ceil(h, down));
        assert!(f.size_upsampled() == (uw, uh));
        let (cw, ch) = (ceil(uw, up as usize), ceil(uh, up as usize));
        assert!(f.size() == (cw, ch));
        let (bw, bh) = (ceil(cw, 8 << hs) << hs, ceil(ch, 8 << vs) << vs);
        assert!(f.size_blocks() == (bw, bh));
        let padded = if modular { (cw, ch) } else { (bw * 8, bh * 8) };
        assert!(f.size_padded() == padded);
        assert!(f.size_padded_upsampled() == (padded.0 * up as usize, padded.1 * up as usize));
        let gd = 128usize << shift;
        assert!(f.group_dim() == gd && f.lf_group_dim() == gd * 8);
        let (gw, gh) = (ceil(cw, gd), ceil(ch, gd));
        assert!(f.size_groups() == (gw, gh));
        let (lw, lh) = (ceil(bw, gd), ceil(bh, gd));
        assert!(f.size_lf_groups() == (lw, lh));
        reach!(w > 100_000_000 && h > 70_000_000);
    }

    harness!(c06_counts_plain, unwind = 4, { counts(false, 1, 1, 0, [0; 3]); });
    harness!(c06_counts_420, unwind = 4, { counts(false, 1, 1, 0, [1, 0, 1]); });
    harness!(c06_counts_422, unwind = 4, { counts(false, 1, 1, 0, [2, 0, 2]); });
    harness!(c06_counts_440, unwind = 4, { counts(false, 1, 1, 0, [0, 3, 0]); });
    harness!(c06_counts_up2, unwind = 4, { counts(true, 0, 2, 0, [0; 3]); });
    harness!(c06_counts_up8_lf1, unwind = 4, { counts(true, 2, 8, 1, [0; 3]); });
    harness!(c06_counts_lf4, unwind = 4, { counts(true, 3, 4, 4, [0; 3]); });

    // Number of sections: one for a single-group single-pass frame, else globals, LF groups and pass groups.
    harness!(c06_sections, unwind = 4, {
        let mut f = frame(5000, true, 1, 1, 0, [0; 3]);
        f.passes.num_passes = any_in(1, 11) as u32;
        let (gw, gh) = (ceil(f.width as usize, 256), ceil(f.height as usize, 256));
        let (lw, lh) = (ceil(f.width as usize, 2048), ceil(f.height as usize, 2048));
        assert!(f.num_groups() == gw * gh && f.num_lf_groups() == lw * lh);
        let want = if gw == 1 && gh == 1 && f.passes.num_passes == 1 { 1 }
            else { 2 + lw * lh + gw * gh * f.passes.num_passes as usize };
        assert!(f.num_toc_entries() == want);
        reach!(lw == 3 && f.passes.num_passes == 3);
        reach!(want == 1);
        reach!(gw == 1 && gh == 1 && want > 1);
    });

    // Rectangles of all groups: disjoint, in raster order, cover the frame exactly.
    fn rects(f: &FrameHeader, gd: usize, kind: usize) {
        let (dims, n) = match kind {
            0 => (f.size(), f.size_groups()),
            1 => (f.size_blocks(), f.size_lf_groups()),
            _ => (f.size_blocks(), (ceil(f.size().0, gd * 8), ceil(f.size().1, gd * 8))),
        };
        let gx = any_in(0, n.0 - 1);
        let gy = any_in(0, n.1 - 1);
        let g = gy * n.0 + gx;
        let r = match kind { 0 => f.group_rect(g), 1 => f.lf_group_rect(g), _ => f.block_group_rect(g) };
        assert!(r.origin == (gx * gd, gy * gd));
        let right = if gx + 1 == n.0 { dims.0 } else { (gx + 1) * gd };
        let bottom = if gy + 1 == n.1 { dims.1 } else { (gy + 1) * gd };
        assert!(r.origin.0 + r.size.0 == right && r.origin.1 + r.size.1 == bottom);
        assert!(r.size.0 >= 1 && r.size.1 >= 1);
        reach!(gx == 2 && gy == 1 && gx + 1 == n.0 && r.size.0 != gd);
    }
    harness!(c06_group_rects, unwind = 4, {
        let f = frame(2000, true, 1, 1, 0, [0; 3]);
        rects(&f, 256, 0);
    });
    harness!(c06_group_rects_small, unwind = 4, {
        let f = frame(1000, true, 0, 1, 0, [0; 3]);
        rects(&f, 128, 0);
    });
    harness!(c06_lf_group_rects, unwind = 4, {
        let f = frame(8000, false, 1, 1, 0, [0; 3]);
        rects(&f, 256, 1);
    });
    harness!(c06_block_rects, unwind = 4, {
        let f = frame(1500, false, 1, 1, 0, [0; 3]);
        rects(&f, 32, 2);
    });
    harness!(c06_block_rects_420, unwind = 4, {
        let f = frame(1500, false, 1, 1, 0, [1, 0, 1]);
        rects(&f, 32, 2);
    });

    // Pass p covers the channel shifts min(p)..=max(p): max starts at 2, continues below the previous pass' minimum,
    // and the last pass goes down to 0.
    fn brackets(nd: usize) {
        let np = any_in(nd + 1, 4);
        let mut ds = Vec::new();
        let mut lp = Vec::new();
        for j in 0..nd {
            ds.push(1u32 << any_in(0, 3));
            lp.push(any_in(0, np - 1) as u32);
            assume(j == 0 || ds[j] < ds[j - 1] && lp[j] > lp[j - 1]);
        }
        let ps = Passes { num_passes: np as u32, num_ds: nd as u32, shift: Vec::new(), downsample: ds, last_pass: lp };
        let mut hi = 2isize;
        for p in 0..4 {
            if p < np {
                let (mn, mx) = ps.downsampling_bracket(p);
                let mut want = 3usize;
                for j in 0..nd {
                    if ps.last_pass[j] as usize <= p { want = ps.downsample[j].trailing_zeros() as usize; }
                }
                if p + 1 == np { want = 0; }
                assert!(mn == want);
                assert!(mx as isize == hi);
                hi = (mn as isize - 1).max(0);
            }
        }
        reach!(np == 4);
    }
    harness!(c06_brackets0, unwind = 6, { brackets(0); });
    harness!(c06_brackets1, unwind = 6, { brackets(1); });
    harness!(c06_brackets2, unwind = 6, { brackets(2); });
}
