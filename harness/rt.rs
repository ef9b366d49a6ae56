// Runtime shared by all harnesses: a source of values that is symbolic under Kani and replays a
// recorded counterexample natively, and the macro that declares a harness for both.

#[cfg(kani)]
mod src {
    #[inline(always)]
    pub fn any_u8() -> u8 { kani::any() }
    #[inline(always)]
    pub fn any_u16() -> u16 { kani::any() }
    #[inline(always)]
    pub fn any_u32() -> u32 { kani::any() }
    #[inline(always)]
    pub fn any_u64() -> u64 { kani::any() }
    #[inline(always)]
    pub fn any_bytes<const N: usize>() -> [u8; N] { kani::any() }
    #[inline(always)]
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod src {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { static VALS: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) }; }
    pub fn load(v: Vec<Vec<u8>>) { VALS.with(|c| *c.borrow_mut() = v.into()); }
    fn next<const N: usize>() -> [u8; N] {
        VALS.with(|c| {
            let mut c = c.borrow_mut();
            match c.pop_front() {
                // Values that the solver left unconstrained may be missing from the trace.
                None => [0; N],
                Some(v) => {
                    if v.len() != N { eprintln!("REPLAY-DESYNC want {} got {}", N, v.len()); std::process::exit(44); }
                    v.try_into().unwrap()
                }
            }
        })
    }
    pub fn any_u8() -> u8 { u8::from_le_bytes(next()) }
    pub fn any_u16() -> u16 { u16::from_le_bytes(next()) }
    pub fn any_u32() -> u32 { u32::from_le_bytes(next()) }
    pub fn any_u64() -> u64 { u64::from_le_bytes(next()) }
    pub fn any_bytes<const N: usize>() -> [u8; N] { std::array::from_fn(|_| any_u8()) }
    pub fn assume(c: bool) {
        if !c { eprintln!("REPLAY-ASSUME-FAILED"); std::process::exit(43); }
    }
}
pub use src::*;

pub fn any_bool() -> bool { any_u8() & 1 == 1 }
pub fn any_i8() -> i8 { any_u8() as i8 }
pub fn any_i16() -> i16 { any_u16() as i16 }
pub fn any_i32() -> i32 { any_u32() as i32 }
pub fn any_i64() -> i64 { any_u64() as i64 }
pub fn any_usize() -> usize { any_u64() as usize }
pub fn any_f32() -> f32 { f32::from_bits(any_u32()) }
/// A symbolic value in lo..=hi.
pub fn any_in(lo: usize, hi: usize) -> usize { let v = any_u64() as usize; assume(lo <= v && v <= hi); v }
pub fn any_i32_in(lo: i32, hi: i32) -> i32 { let v = any_i32(); assume(lo <= v && v <= hi); v }

/// Reachability marker: under Kani a cover property, natively nothing.
macro_rules! reach {
    ($c:expr) => {{ #[cfg(kani)] kani::cover!($c); }};
}

/// Declares a harness. Under Kani it is a proof harness; natively an exported function that the
/// replay binary calls after loading the counterexample.
macro_rules! harness {
    ($name:ident, unwind = $u:literal, $(solver = $s:ident,)? $(stub($a:path, $b:path),)* $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($u)]
        $(#[kani::solver($s)])?
        $(#[kani::stub($a, $b)])*
        fn $name() $body
        #[cfg(not(kani))]
        #[allow(unsafe_code)]
        #[unsafe(no_mangle)]
        pub extern "Rust" fn $name() $body
    };
    ($name:ident, unwind = $u:literal, bits $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(crate::bit_reader::BitReader::read, crate::bit_reader::BitReader::stub_read)]
        #[kani::stub(crate::bit_reader::BitReader::read_noinline, crate::bit_reader::BitReader::stub_read)]
        #[kani::stub(crate::bit_reader::BitReader::read_optimistic, crate::bit_reader::BitReader::stub_read_opt)]
        #[kani::stub(crate::bit_reader::BitReader::skip_bits, crate::bit_reader::BitReader::stub_skip)]
        #[kani::stub(crate::bit_reader::BitReader::total_bits_read, crate::bit_reader::BitReader::stub_total)]
        fn $name() $body
        #[cfg(not(kani))]
        #[allow(unsafe_code)]
        #[unsafe(no_mangle)]
        pub extern "Rust" fn $name() $body
    };
    ($name:ident, unwind = $u:literal, fields $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(<u32 as crate::headers::encodings::UnconditionalCoder<crate::headers::encodings::U32Coder>>::read_unconditional, crate::verif_rt::fields::stub_u32)]
        #[kani::stub(<bool as crate::headers::encodings::UnconditionalCoder<()>>::read_unconditional, crate::verif_rt::fields::stub_bool)]
        #[kani::stub(<u64 as crate::headers::encodings::UnconditionalCoder<()>>::read_unconditional, crate::verif_rt::fields::stub_u64)]
        #[kani::stub(<f32 as crate::headers::encodings::UnconditionalCoder<()>>::read_unconditional, crate::verif_rt::fields::stub_f32)]
        #[kani::stub(<std::string::String as crate::headers::encodings::UnconditionalCoder<()>>::read_unconditional, crate::verif_rt::fields::stub_string)]
        #[kani::stub(<crate::headers::encodings::Extensions as crate::headers::encodings::UnconditionalCoder<()>>::read_unconditional, crate::verif_rt::fields::stub_ext)]
        fn $name() $body
        #[cfg(not(kani))]
        #[allow(unsafe_code)]
        #[unsafe(no_mangle)]
        pub extern "Rust" fn $name() $body
    };
}

/// Result to Option without running the error's drop glue (which would dominate the encoding).
#[inline(always)]
pub fn ok<T, E>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => { core::mem::forget(e); None }
    }
}

// Abstract bit stream for header parsers. The reference model runs first and draws the fields it expects with
// `put(n)`; the parser under test then reads the same stream. Under Kani the reader's primitives are stubbed
// by a log that checks every read against the model's layout (what the reader itself does is decided by C01);
// natively the fields are packed into bytes and read by the real reader.
pub mod stream {
    use crate::bit_reader::BitReader;
    use crate::error::Error;

    pub const CAP: usize = 60; // <= 64: arrays CBMC tracks per element
    #[cfg(kani)]
    struct Log { w: [u32; CAP], v: [u64; CAP], len: usize, next: usize, pos: usize, open: bool }
    #[cfg(kani)]
    static mut LOG: Log = Log { w: [0; CAP], v: [0; CAP], len: 0, next: 0, pos: 0, open: false };

    #[cfg(not(kani))]
    thread_local! { static OUT: std::cell::RefCell<Vec<bool>> = const { std::cell::RefCell::new(Vec::new()) }; }

    /// Appends an n-bit field with an arbitrary value and returns the value.
    #[allow(unsafe_code, static_mut_refs)]
    pub fn put(n: usize) -> u64 {
        if n == 0 { return put_val(0, 0); }
        let v = super::any_u64();
        super::assume(n >= 64 || v < (1u64 << n));
        put_val(n, v)
    }
    #[allow(unsafe_code, static_mut_refs)]
    pub fn put_val(n: usize, v: u64) -> u64 {
        #[cfg(kani)]
        unsafe { LOG.w[LOG.len] = n as u32; LOG.v[LOG.len] = v; LOG.len += 1; }
        #[cfg(not(kani))]
        OUT.with(|o| for i in 0..n { o.borrow_mut().push((v >> i) & 1 == 1) });
        v
    }
    /// Widens the 1-bit field appended last to n bits (its high bits are zero).
    #[allow(unsafe_code, static_mut_refs)]
    pub fn fix_last(n: usize) {
        #[cfg(kani)]
        unsafe { LOG.w[LOG.len - 1] = n as u32; }
        #[cfg(not(kani))]
        OUT.with(|o| { let l = o.borrow().len(); o.borrow_mut().resize(l + n - 1, false) }); // 1-bit fields only
    }
    /// The model stops here because the stream is invalid; the parser may read on before it reports that.
    #[allow(unsafe_code, static_mut_refs)]
    pub fn invalid() {
        #[cfg(kani)]
        unsafe { LOG.open = true; }
        #[cfg(not(kani))]
        OUT.with(|o| for _ in 0..4096 { o.borrow_mut().push(false) });
    }
    /// Reader over everything appended so far.
    #[allow(unsafe_code, static_mut_refs)]
    pub fn reader() -> BitReader<'static> {
        #[cfg(kani)]
        return BitReader::new(&[]);
        #[cfg(not(kani))]
        return OUT.with(|o| {
            let bits = o.borrow();
            let mut v = vec![0u8; bits.len().div_ceil(8)];
            for (i, b) in bits.iter().enumerate() { v[i / 8] |= (*b as u8) << (i % 8); }
            let v: &'static [u8] = v.leak();
            BitReader::new(v)
        });
    }
    /// Whether the parser consumed exactly what the model laid out.
    #[allow(unsafe_code, static_mut_refs)]
    pub fn consumed(br: &BitReader) -> bool {
        #[cfg(kani)]
        { let _ = br; unsafe { LOG.next == LOG.len } }
        #[cfg(not(kani))]
        OUT.with(|o| br.total_bits_read() == o.borrow().len())
    }
    #[cfg(kani)]
    impl<'a> BitReader<'a> {
    #[allow(unsafe_code, static_mut_refs)]
    pub fn stub_read(&mut self, num: usize) -> Result<u64, Error> {
        assert!(num <= 56);
        unsafe {
            if num == 0 { // also alignment, which the model does not lay out
                if LOG.next < LOG.len && LOG.w[LOG.next] == 0 { LOG.next += 1; }
                return Ok(0);
            }
            // Beyond the model's layout: an arbitrary value if the model stopped at an error.
            if LOG.next >= LOG.len { assert!(LOG.open, "read beyond the model's layout"); return Ok(kani::any::<u64>() & ((1 << num) - 1)); }
            assert!(LOG.w[LOG.next] == num as u32, "field width differs from the model");
            let v = LOG.v[LOG.next];
            LOG.next += 1;
            LOG.pos += num;
            Ok(v)
        }
    }
    pub fn stub_read_opt(&mut self, num: usize) -> u64 {
        match self.stub_read(num) { Ok(v) => v, Err(e) => { core::mem::forget(e); 0 } }
    }
    /// Skipped ranges are laid out as one field of the skipped width.
    #[allow(unsafe_code, static_mut_refs)]
    pub fn stub_skip(&mut self, num: usize) -> Result<(), Error> {
        unsafe {
            if LOG.next >= LOG.len { assert!(LOG.open, "skip beyond the model's layout"); return Ok(()); }
            assert!(LOG.w[LOG.next] as usize == num, "skip width differs from the model");
            LOG.next += 1;
            LOG.pos += num;
            Ok(())
        }
    }
    #[allow(unsafe_code, static_mut_refs)]
    pub fn stub_total(&self) -> usize { unsafe { LOG.pos } }
    }
}

// Reference models of the coded field types, over the abstract stream.
pub mod spec {
    use super::stream::*;
    /// U32 with four (bits, offset) distributions.
    pub fn sel(d: [(usize, u64); 4]) -> u64 {
        // One field of the chosen width: keeps the layout index free of branches.
        let s = put(2) as usize;
        let (n, off) = d[s];
        if n == 0 { off } else { put(n) + off }
    }
    pub fn flag() -> bool { put(1) == 1 }
    pub fn enumv() -> u64 { sel([(0, 0), (0, 1), (4, 2), (6, 18)]) }
    /// Half float: None for NaN/Inf, otherwise its exact value.
    pub fn half() -> Option<f32> { half_bits(put(16)) }
    pub fn half_bits(raw: u64) -> Option<f32> {
        let (s, e, m) = (raw >> 15, (raw >> 10) & 31, raw & 1023);
        if e == 31 { return None; }
        let (mant, k) = if e == 0 { (m, -24i32) } else { (m + 1024, e as i32 - 25) };
        let v = mant as f32 * f32::from_bits(((127 + k) as u32) << 23);
        Some(if s == 1 { -v } else { v })
    }
}

// Typed field log, for structures composed of the field codings of headers::encodings: under Kani every field
// coder is replaced by one that checks the coding (distribution) it is asked for against the next entry of the
// model's layout and returns that entry's value (C02 decides the codings themselves); natively the fields are
// encoded into bits and read by the real coders.
pub mod fields {
    use crate::bit_reader::BitReader;
    use crate::error::Error;
    use crate::headers::encodings::{Empty, Extensions, U32, U32Coder};

    #[derive(Clone, Copy, PartialEq)]
    pub enum Kind { None, Bool, Half, Long, Str, Ext, Direct, Select }
    pub const CAP: usize = 60;
    type D = [(usize, u64); 4];
    #[cfg(kani)]
    struct Log { k: [Kind; CAP], v: [u64; CAP], d: [D; CAP], len: usize, next: usize, open: bool }
    #[cfg(kani)]
    static mut LOG: Log = Log { k: [Kind::None; CAP], v: [0; CAP], d: [[(0, 0); 4]; CAP], len: 0, next: 0, open: false };

    #[allow(unsafe_code, static_mut_refs)]
    fn push(_k: Kind, _v: u64, _d: D) {
        #[cfg(kani)]
        unsafe { LOG.k[LOG.len] = _k; LOG.v[LOG.len] = _v; LOG.d[LOG.len] = _d; LOG.len += 1; }
    }
    fn raw(_n: usize, _v: u64) {
        #[cfg(not(kani))]
        super::stream::put_val(_n, _v);
    }
    /// A U32 field with four (bits, offset) distributions and an arbitrary value.
    pub fn sel(d: D) -> u64 {
        let s = super::any_u8() as usize;
        let v = super::any_u64();
        super::assume(s < 4 && v >= d[s].1 && v - d[s].1 < (1u64 << d[s].0));
        raw(2, s as u64);
        raw(d[s].0, v - d[s].1);
        push(Kind::Select, v, d);
        v
    }
    /// The same with a given value, which distribution `s` represents.
    pub fn sel_val(d: D, s: usize, v: u64) -> u64 {
        raw(2, s as u64);
        raw(d[s].0, v - d[s].1);
        push(Kind::Select, v, d);
        v
    }
    /// A field of exactly n bits.
    pub fn bits(n: usize) -> u64 { let v = super::any_u64(); super::assume(v < (1u64 << n)); bits_val(n, v) }
    pub fn bits_val(n: usize, v: u64) -> u64 { raw(n, v); push(Kind::Direct, v, [(n, 0); 4]); v }
    /// A field of n bits with an offset.
    pub fn bits_off(n: usize, off: u64) -> u64 {
        let v = super::any_u64();
        super::assume(v < (1u64 << n));
        raw(n, v);
        push(Kind::Direct, v + off, [(n, off); 4]);
        v + off
    }
    /// A value known from other fields (a vector length): takes no bits.
    pub fn known(v: u64) -> u64 { push(Kind::Direct, v, [(0, v); 4]); v }
    pub fn flag() -> bool { let v = super::any_u8(); super::assume(v < 2); flag_val(v == 1) }
    pub fn flag_val(v: bool) -> bool { raw(1, v as u64); push(Kind::Bool, v as u64, [(0, 0); 4]); v }
    pub fn enumv() -> u64 { sel(ENUM) }
    pub const ENUM: D = [(0, 0), (0, 1), (4, 2), (6, 18)];
    pub fn half() -> Option<f32> {
        let r = super::any_u16() as u64;
        raw(16, r);
        push(Kind::Half, r, [(0, 0); 4]);
        super::spec::half_bits(r)
    }
    pub fn long() -> u64 { long_val(super::any_u64()) }
    pub fn long_val(v: u64) -> u64 {
        raw(2, 3);
        raw(12, v & 4095);
        for i in 0..6 { raw(1, 1); raw(8, (v >> (12 + 8 * i)) & 255); }
        raw(1, 1);
        raw(4, v >> 60);
        push(Kind::Long, v, [(0, 0); 4]);
        v
    }
    /// An empty name.
    pub fn no_name() { raw(2, 0); push(Kind::Str, 0, [(0, 0); 4]); }
    pub fn no_extensions() { raw(2, 0); push(Kind::Ext, 0, [(0, 0); 4]); }
    /// The model stops here because the stream is invalid; the parser may read on (zeros) before it reports that.
    #[allow(unsafe_code, static_mut_refs)]
    pub fn invalid() {
        #[cfg(kani)]
        unsafe { LOG.open = true; }
        #[cfg(not(kani))]
        super::stream::invalid();
    }
    pub fn reader() -> BitReader<'static> { super::stream::reader() }
    #[allow(unsafe_code, static_mut_refs)]
    pub fn consumed(br: &BitReader) -> bool {
        #[cfg(kani)]
        { let _ = br; unsafe { LOG.next == LOG.len } }
        #[cfg(not(kani))]
        super::stream::consumed(br)
    }
    #[cfg(kani)]
    #[allow(unsafe_code, static_mut_refs)]
    fn pop(k: Kind, d: D) -> u64 {
        unsafe {
            if LOG.next >= LOG.len { assert!(LOG.open, "reads beyond the model's layout"); return 0; }
            assert!(LOG.k[LOG.next] == k, "field kind differs from the model");
            for i in 0..4 {
                assert!(LOG.d[LOG.next][i].0 == d[i].0 && LOG.d[LOG.next][i].1 == d[i].1, "field coding differs from the model");
            }
            let v = LOG.v[LOG.next];
            LOG.next += 1;
            v
        }
    }
    #[cfg(kani)]
    fn dist(u: &U32) -> (usize, u64) {
        match *u { U32::Bits(n) => (n, 0), U32::BitsOffset { n, off } => (n, off as u64), U32::Val(v) => (0, v as u64) }
    }
    #[cfg(kani)]
    pub fn stub_u32(c: &U32Coder, _: &mut BitReader, _: &Empty) -> Result<u32, Error> {
        Ok(match c {
            U32Coder::Direct(a) => { let a = dist(a); pop(Kind::Direct, [a; 4]) }
            U32Coder::Select(a, b, c, d) => pop(Kind::Select, [dist(a), dist(b), dist(c), dist(d)]),
        } as u32)
    }
    #[cfg(kani)]
    pub fn stub_bool(_: &(), _: &mut BitReader, _: &Empty) -> Result<bool, Error> { Ok(pop(Kind::Bool, [(0, 0); 4]) == 1) }
    #[cfg(kani)]
    pub fn stub_u64(_: &(), _: &mut BitReader, _: &Empty) -> Result<u64, Error> { Ok(pop(Kind::Long, [(0, 0); 4])) }
    #[cfg(kani)]
    pub fn stub_f32(_: &(), _: &mut BitReader, _: &Empty) -> Result<f32, Error> {
        match super::spec::half_bits(pop(Kind::Half, [(0, 0); 4])) { Some(v) => Ok(v), None => Err(Error::FloatNaNOrInf) }
    }
    #[cfg(kani)]
    pub fn stub_string(_: &(), _: &mut BitReader, _: &Empty) -> Result<String, Error> { pop(Kind::Str, [(0, 0); 4]); Ok(String::new()) }
    #[cfg(kani)]
    pub fn stub_ext(_: &(), _: &mut BitReader, _: &Empty) -> Result<Extensions, Error> { pop(Kind::Ext, [(0, 0); 4]); Ok(Extensions {}) }
}

// A 4-lane model of the vector types of jxl_simd: every operation is the scalar one applied per lane, so that the
// width-generic kernels run symbolically with their real blocking, remainder, transposition and interleaving logic.
pub mod simd {
    use jxl_simd::*;
    use std::ops::*;
    pub const N: usize = 4;
    #[derive(Clone, Copy, Debug)]
    pub struct V4;
    #[derive(Clone, Copy, Debug)]
    pub struct F(pub [f32; N]);
    #[derive(Clone, Copy, Debug)]
    pub struct I(pub [i32; N]);
    #[derive(Clone, Copy, Debug)]
    pub struct U(pub [u32; N]);
    #[derive(Clone, Copy, Debug)]
    pub struct B8(pub [u8; N]);
    #[derive(Clone, Copy, Debug)]
    pub struct B16(pub [u16; N]);
    #[derive(Clone, Copy, Debug)]
    pub struct M(pub [bool; N]);

    impl SimdDescriptor for V4 {
        type F32Vec = F;
        type I32Vec = I;
        type U32Vec = U;
        type U16Vec = B16;
        type U8Vec = B8;
        type Mask = M;
        type Bf16Table8 = [f32; 8];
        type Descriptor256 = Self;
        type Descriptor128 = Self;
        fn new() -> Option<Self> { Some(V4) }
        fn maybe_downgrade_256bit(self) -> Self { self }
        fn maybe_downgrade_128bit(self) -> Self { self }
        fn call<R>(self, f: impl FnOnce(Self) -> R) -> R { f(self) }
    }
    #[inline(always)]
    fn m1<A: Copy, R>(a: [A; N], f: impl Fn(A) -> R) -> [R; N] { [f(a[0]), f(a[1]), f(a[2]), f(a[3])] }
    #[inline(always)]
    fn m2<A: Copy, B: Copy, R>(a: [A; N], b: [B; N], f: impl Fn(A, B) -> R) -> [R; N] {
        [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3])]
    }
    macro_rules! ops { ($t:ident, $($tr:ident $m:ident $at:ident $am:ident |$a:ident, $b:ident| $e:expr;)*) => { $(
        impl $tr for $t { type Output = $t; #[inline(always)] fn $m(self, o: $t) -> $t { $t(m2(self.0, o.0, |$a, $b| $e)) } }
        impl $at for $t { #[inline(always)] fn $am(&mut self, o: $t) { *self = $t(m2(self.0, o.0, |$a, $b| $e)); } }
    )* } }
    ops!(F, Add add AddAssign add_assign |a, b| a + b; Sub sub SubAssign sub_assign |a, b| a - b;
        Mul mul MulAssign mul_assign |a, b| a * b; Div div DivAssign div_assign |a, b| a / b;);
    ops!(I, Add add AddAssign add_assign |a, b| a.wrapping_add(b); Sub sub SubAssign sub_assign |a, b| a.wrapping_sub(b);
        Mul mul MulAssign mul_assign |a, b| a.wrapping_mul(b); BitAnd bitand BitAndAssign bitand_assign |a, b| a & b;
        BitOr bitor BitOrAssign bitor_assign |a, b| a | b; BitXor bitxor BitXorAssign bitxor_assign |a, b| a ^ b;);
    impl Neg for I { type Output = I; #[inline(always)] fn neg(self) -> I { I(m1(self.0, |a| a.wrapping_neg())) } }
    impl BitAnd for M { type Output = M; #[inline(always)] fn bitand(self, o: M) -> M { M(m2(self.0, o.0, |a, b| a & b)) } }
    impl BitOr for M { type Output = M; #[inline(always)] fn bitor(self, o: M) -> M { M(m2(self.0, o.0, |a, b| a | b)) } }

    #[inline(always)]
    fn put<T: Copy, const K: usize>(d: &mut [T], v: [[T; N]; K]) {
        let d = &mut d[..K * N];
        for i in 0..N { for k in 0..K { d[K * i + k] = v[k][i]; } }
    }
    #[inline(always)]
    fn get<T: Copy>(s: &[T]) -> [T; N] { [s[0], s[1], s[2], s[3]] }

    impl F32SimdVec for F {
        type Descriptor = V4;
        const LEN: usize = N;
        type UnderlyingArray = [f32; N];
        fn splat(_: V4, v: f32) -> Self { F([v; N]) }
        fn zero(_: V4) -> Self { F([0.0; N]) }
        fn mul_add(self, m: Self, a: Self) -> Self { self * m + a }
        fn neg_mul_add(self, m: Self, a: Self) -> Self { F(m1((self * m).0, |x| -x)) + a }
        fn load(_: V4, s: &[f32]) -> Self { F(get(s)) }
        fn load_array(_: V4, s: &[f32; N]) -> Self { F(*s) }
        fn store(&self, d: &mut [f32]) { put(d, [self.0]) }
        fn store_array(&self, d: &mut [f32; N]) { *d = self.0; }
        fn store_interleaved_2(a: Self, b: Self, d: &mut [f32]) { put(d, [a.0, b.0]) }
        fn store_interleaved_3(a: Self, b: Self, c: Self, d: &mut [f32]) { put(d, [a.0, b.0, c.0]) }
        fn store_interleaved_4(a: Self, b: Self, c: Self, e: Self, d: &mut [f32]) { put(d, [a.0, b.0, c.0, e.0]) }
        fn store_interleaved_8(a: Self, b: Self, c: Self, e: Self, f: Self, g: Self, h: Self, i: Self, d: &mut [f32]) {
            put(d, [a.0, b.0, c.0, e.0, f.0, g.0, h.0, i.0])
        }
        fn load_deinterleaved_2(_: V4, s: &[f32]) -> (Self, Self) {
            let l = |k: usize| F([s[k], s[2 + k], s[4 + k], s[6 + k]]);
            (l(0), l(1))
        }
        fn load_deinterleaved_3(_: V4, s: &[f32]) -> (Self, Self, Self) {
            let l = |k: usize| F([s[k], s[3 + k], s[6 + k], s[9 + k]]);
            (l(0), l(1), l(2))
        }
        fn load_deinterleaved_4(_: V4, s: &[f32]) -> (Self, Self, Self, Self) {
            let l = |k: usize| F([s[k], s[4 + k], s[8 + k], s[12 + k]]);
            (l(0), l(1), l(2), l(3))
        }
        fn round_store_u8(self, d: &mut [u8]) { put(d, [m1(self.0, |x| x.round() as u8)]) }
        fn round_store_u16(self, d: &mut [u16]) { put(d, [m1(self.0, |x| x.round() as u16)]) }
        fn abs(self) -> Self { F(m1(self.0, |x| x.abs())) }
        fn floor(self) -> Self { F(m1(self.0, |x| x.floor())) }
        fn sqrt(self) -> Self { F(m1(self.0, |x| x.sqrt())) }
        fn neg(self) -> Self { F(m1(self.0, |x| -x)) }
        fn copysign(self, s: Self) -> Self { F(m2(self.0, s.0, |a, b| a.copysign(b))) }
        fn max(self, o: Self) -> Self { F(m2(self.0, o.0, |a, b| a.max(b))) }
        fn min(self, o: Self) -> Self { F(m2(self.0, o.0, |a, b| a.min(b))) }
        fn gt(self, o: Self) -> M { M(m2(self.0, o.0, |a, b| a > b)) }
        fn as_i32(self) -> I { I(m1(self.0, |a| a as i32)) }
        fn bitcast_to_i32(self) -> I { I(m1(self.0, |a| a.to_bits() as i32)) }
        fn prepare_table_bf16_8(_: V4, t: &[f32; 8]) -> [f32; 8] { *t }
        fn table_lookup_bf16_8(_: V4, t: [f32; 8], i: I) -> Self { F(m1(i.0, |a| t[a as usize])) }
        fn make_array_slice(s: &[f32]) -> &[[f32; N]] { let (r, m) = s.as_chunks(); assert!(m.is_empty()); r }
        fn make_array_slice_mut(s: &mut [f32]) -> &mut [[f32; N]] { let (r, m) = s.as_chunks_mut(); assert!(m.is_empty()); r }
        fn transpose_square(_: V4, d: &mut [[f32; N]], st: usize) {
            for i in 0..N { for j in 0..i {
                let t = d[st * i][j];
                d[st * i][j] = d[st * j][i];
                d[st * j][i] = t;
            } }
        }
        fn load_f16_bits(_: V4, s: &[u16]) -> Self { F(m1(get(s), |a| f16::from_bits(a).to_f32())) }
        fn store_f16_bits(self, d: &mut [u16]) { put(d, [m1(self.0, |a| f16::from_f32(a).to_bits())]) }
    }
    impl I32SimdVec for I {
        type Descriptor = V4;
        const LEN: usize = N;
        fn splat(_: V4, v: i32) -> Self { I([v; N]) }
        fn load(_: V4, s: &[i32]) -> Self { I(get(s)) }
        fn store(&self, d: &mut [i32]) { put(d, [self.0]) }
        fn abs(self) -> Self { I(m1(self.0, |a| a.wrapping_abs())) }
        fn as_f32(self) -> F { F(m1(self.0, |a| a as f32)) }
        fn bitcast_to_f32(self) -> F { F(m1(self.0, |a| f32::from_bits(a as u32))) }
        fn bitcast_to_u32(self) -> U { U(m1(self.0, |a| a as u32)) }
        fn gt(self, o: Self) -> M { M(m2(self.0, o.0, |a, b| a > b)) }
        fn lt_zero(self) -> M { M(m1(self.0, |a| a < 0)) }
        fn eq(self, o: Self) -> M { M(m2(self.0, o.0, |a, b| a == b)) }
        fn eq_zero(self) -> M { M(m1(self.0, |a| a == 0)) }
        fn shl<const U: u32, const A: i32>(self) -> Self { I(m1(self.0, |a| a << U)) }
        fn shr<const U: u32, const A: i32>(self) -> Self { I(m1(self.0, |a| a >> U)) }
        fn mul_wide_take_high(self, o: Self) -> Self { I(m2(self.0, o.0, |a, b| ((a as i64 * b as i64) >> 32) as i32)) }
        fn store_u16(self, d: &mut [u16]) { put(d, [m1(self.0, |a| a as u16)]) }
        fn store_interleaved_2(a: Self, b: Self, d: &mut [i32]) { put(d, [a.0, b.0]) }
        fn store_u8(self, d: &mut [u8]) { put(d, [m1(self.0, |a| a as u8)]) }
    }
    impl U32SimdVec for U {
        type Descriptor = V4;
        const LEN: usize = N;
        fn bitcast_to_i32(self) -> I { I(m1(self.0, |a| a as i32)) }
        fn shr<const AU: u32, const A: i32>(self) -> Self { U(m1(self.0, |a| a >> AU)) }
    }
    macro_rules! bytes { ($t:ident, $tr:ident, $b:ty) => { impl $tr for $t {
        type Descriptor = V4;
        const LEN: usize = N;
        fn load(_: V4, s: &[$b]) -> Self { $t(get(s)) }
        fn splat(_: V4, v: $b) -> Self { $t([v; N]) }
        fn store(&self, d: &mut [$b]) { put(d, [self.0]) }
        fn store_interleaved_2(a: Self, b: Self, d: &mut [$b]) { put(d, [a.0, b.0]) }
        fn store_interleaved_3(a: Self, b: Self, c: Self, d: &mut [$b]) { put(d, [a.0, b.0, c.0]) }
        fn store_interleaved_4(a: Self, b: Self, c: Self, e: Self, d: &mut [$b]) { put(d, [a.0, b.0, c.0, e.0]) }
    } } }
    bytes!(B8, U8SimdVec, u8);
    bytes!(B16, U16SimdVec, u16);
    impl SimdMask for M {
        type Descriptor = V4;
        fn if_then_else_f32(self, a: F, b: F) -> F { F(std::array::from_fn(|i| if self.0[i] { a.0[i] } else { b.0[i] })) }
        fn if_then_else_i32(self, a: I, b: I) -> I { I(std::array::from_fn(|i| if self.0[i] { a.0[i] } else { b.0[i] })) }
        fn maskz_i32(self, v: I) -> I { I(m2(self.0, v.0, |m, a| if m { 0 } else { a })) }
        fn all(self) -> bool { self.0[0] && self.0[1] && self.0[2] && self.0[3] }
        fn andnot(self, r: Self) -> Self { M(m2(self.0, r.0, |a, b| !a & b)) }
    }
}
