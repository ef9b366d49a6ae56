mod verif_c03 {
    use super::*;
    use crate::verif_rt::spec::*;
    use crate::verif_rt::stream::*;
    use crate::verif_rt::*;

    fn ratio_size(ysize: u64, ratio: u64, explicit: u64) -> u64 {
        let (n, d) = match ratio {
            0 => return explicit,
            1 => (1, 1),
            2 => (6, 5),
            3 => (4, 3),
            4 => (3, 2),
            5 => (16, 9),
            6 => (5, 4),
            _ => (2, 1),
        };
        ysize * n / d
    }

    harness!(c03_size, unwind = 3, bits {
        let small = flag();
        let big = [(9, 1), (13, 1), (18, 1), (30, 1)];
        let y = if small { (put(5) + 1) * 8 } else { sel(big) };
        let ratio = put(3);
        let x = if ratio != 0 { 0 } else if small { (put(5) + 1) * 8 } else { sel(big) };
        let x = ratio_size(y, ratio, x);
        let mut br = reader();
        let Some(s) = ok(Size::read_unconditional(&(), &mut br, &Empty {})) else {
            assert!(x > u32::MAX as u64);
            return;
        };
        assert!(x <= u32::MAX as u64);
        assert!(s.ysize() as u64 == y && s.xsize() as u64 == x);
        assert!(consumed(&br));
        reach!(ratio == 0 && !small);
        reach!(ratio == 5);
    });

    harness!(c03_preview, unwind = 3, bits {
        let div8 = flag();
        let d8 = [(0, 16), (0, 32), (5, 1), (9, 33)];
        let d1 = [(6, 1), (8, 65), (10, 321), (12, 1345)];
        let y = if div8 { 8 * sel(d8) } else { sel(d1) };
        let ratio = put(3);
        let x = if ratio != 0 { 0 } else if div8 { 8 * sel(d8) } else { sel(d1) };
        let x = ratio_size(y, ratio, x);
        let mut br = reader();
        let p = ok(Preview::read_unconditional(&(), &mut br, &Empty {})).unwrap();
        assert!(p.ysize() as u64 == y && p.xsize() as u64 == x);
        assert!(consumed(&br));
        reach!(ratio == 0 && !div8);
    });
}
