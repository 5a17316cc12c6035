//! Integer tensors of the specification and their exact images in f32.
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::Tensor;

/// marks an observed value that is not an integer multiple of its unit (or NaN, or huge)
pub const BAD: i64 = 2_000_000_001;
thread_local! { static BADSEEN: std::cell::Cell<bool> = std::cell::Cell::new(false); }
fn bad() -> i64 {
    BADSEEN.with(|b| b.set(true));
    BAD
}
/// was a value observed since the last call that its encoding cannot express?
pub fn take_bad() -> bool {
    BADSEEN.with(|b| b.replace(false))
}

#[derive(Clone, Debug, PartialEq)]
pub struct IT {
    pub s: [u32; 3],
    pub d: Vec<i64>,
}
pub fn size(s: [u32; 3]) -> usize {
    (s[0] as usize) * (s[1] as usize) * (s[2] as usize)
}
pub fn shape(s: [u32; 3]) -> TensorShape {
    TensorShape { di: s[0], dj: s[1], dk: s[2] }
}
pub fn dims(s: &TensorShape) -> [u32; 3] {
    [s.di, s.dj, s.dk]
}
/// How numbers are represented: a value v stands for v * 2^exp; Bits and Ord are for
/// operations that only move or compare values.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc {
    Exp(i32),
    /// fixed point with rounding: v stands for v * 2^-bits, approximately
    Round(i32),
    Bits,
    /// like Bits for results of arithmetic: zeros and NaNs are canonical
    Canon,
    Ord,
    /// like Exp, with the special values PINF, -PINF and NAN
    X(i32),
}
pub const PINF: i64 = 1_000_000_001;
pub const NAN: i64 = 1_000_000_003;
pub fn ord_key(x: f32) -> i64 {
    let b = x.to_bits();
    let m = (b & 0x7fff_ffff) as i64;
    if b >> 31 == 0 { m } else { -m }
}
pub fn from_ord(k: i64) -> f32 {
    if k >= 0 { f32::from_bits(k as u32) } else { f32::from_bits((-k) as u32 | 0x8000_0000) }
}
impl Enc {
    pub fn real(&self, n: i64) -> f32 {
        match self {
            Enc::Exp(e) => ((n as f64) * (2f64).powi(*e)) as f32,
            Enc::Round(b) => ((n as f64) * (2f64).powi(-*b)) as f32,
            Enc::Bits | Enc::Canon => f32::from_bits(n as i32 as u32),
            Enc::Ord => from_ord(n),
            Enc::X(_) if n == PINF => f32::INFINITY,
            Enc::X(_) if n == -PINF => f32::NEG_INFINITY,
            Enc::X(_) if n == NAN => f32::NAN,
            Enc::X(e) => Enc::Exp(*e).real(n),
        }
    }
    pub fn int(&self, x: f32) -> i64 {
        match self {
            Enc::Exp(e) => {
                let v = (x as f64) * (2f64).powi(-*e);
                if v.is_finite() && v.fract() == 0.0 && v.abs() < 16_777_216.0 { v as i64 } else { bad() }
            }
            Enc::Round(b) => {
                let v = ((x as f64) * (2f64).powi(*b)).round();
                if v.is_finite() && v.abs() < 16_777_216.0 { v as i64 } else { bad() }
            }
            Enc::Bits => x.to_bits() as i32 as i64,
            Enc::Canon => if x == 0.0 { 0 } else if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() as i32 as i64 },
            Enc::Ord => if x.is_nan() { bad() } else { ord_key(x) },
            Enc::X(e) => if x.is_nan() { NAN } else if x.is_infinite() { if x > 0.0 { PINF } else { -PINF } } else { Enc::Exp(*e).int(x) },
        }
    }
    pub fn to(&self, t: &IT) -> Tensor {
        let mut r = Tensor::new(shape(t.s));
        // zeros come with either sign (which one is a function of the content)
        let h = t.d.iter().fold(t.s[0] as i64, |h, v| (h * 31 + v) % 1_000_003).unsigned_abs();
        let signed = matches!(self, Enc::Exp(_) | Enc::X(_)) && h % 3 == 0;
        let v = t.d.iter().enumerate().map(|(m, n)| if signed && *n == 0 && (h / 3 + m as u64) % 2 == 0 { -0.0 } else { self.real(*n) });
        r.fill_with_vec(v.collect()).unwrap();
        r
    }
    pub fn of(&self, t: &Tensor) -> IT {
        let s = dims(&t.get_shape());
        let mut d = Vec::with_capacity(size(s));
        for k in 0..s[2] {
            for j in 0..s[1] {
                for i in 0..s[0] {
                    d.push(self.int(t.get_item(&TensorIndex { i, j, k })));
                }
            }
        }
        IT { s, d }
    }
}

/// Small deterministic generator (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn u(&mut self, lo: u32, hi: u32) -> u32 {
        self.int(lo as i64, hi as i64) as u32
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.u(1, 100) <= pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[(self.next() % xs.len() as u64) as usize]
    }
    /// a dimension: mostly small
    pub fn dim(&mut self, max: u32) -> u32 {
        let small = max.min(3);
        if max <= 3 || self.chance(60) { self.u(1, small) } else { self.u(1, max) }
    }
    /// a dimension beyond the usual ones: around the sizes at which implementations change their ways
    pub fn wide(&mut self, max: u32) -> u32 {
        let l: Vec<u32> = [5u32, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 70].iter().cloned().filter(|x| *x <= max).collect();
        if l.is_empty() { max } else { *self.pick(&l) }
    }
    pub fn shape(&mut self, mi: u32, mj: u32, mk: u32) -> [u32; 3] {
        [self.dim(mi), self.dim(mj), self.dim(mk)]
    }
    pub fn data(&mut self, n: usize, r: i64) -> Vec<i64> {
        let style = self.u(0, 9);
        let c = self.int(-r, r);
        let spike = if n > 0 { self.u(0, n as u32 - 1) as usize } else { 0 };
        (0..n)
            .map(|m| match style {
                0 => c,
                1 => if m == spike { c.max(1) } else { 0 },
                2 => if self.chance(30) { self.int(-r, r) } else { 0 },
                3 => self.int(-r, -1.min(r)),
                4 => self.int(1.min(r), r),
                5 => self.int(-1, 1),
                _ => self.int(-r, r),
            })
            .collect()
    }
    pub fn tensor(&mut self, s: [u32; 3], r: i64) -> IT {
        IT { s, d: self.data(size(s), r) }
    }
    /// arbitrary float bits without NaN
    pub fn float(&mut self) -> f32 {
        loop {
            let x = match self.u(0, 9) {
                0 => f32::from_bits(self.next() as u32),
                1 => *self.pick(&[0.0, -0.0, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, f32::MAX, f32::MIN,
                                  f32::EPSILON, -f32::EPSILON, 1e-45, -1e-45, 1.0, -1.0]),
                2 => (self.int(-1000, 1000) as f32) * 1e-7,
                3 => (self.int(-1000, 1000) as f32) * 1e30,
                _ => (self.int(-1_000_000, 1_000_000) as f32) / 1000.0,
            };
            if x.is_finite() {
                return x;
            }
        }
    }
    /// arbitrary float bits: now and then an infinity or one of the many not-a-numbers
    pub fn anybits(&mut self) -> f32 {
        match self.u(0, 24) {
            0 => if self.chance(50) { f32::INFINITY } else { f32::NEG_INFINITY },
            1 => f32::from_bits(0x7fc0_0000 | (self.next() as u32 & 0x803f_ffff)),
            2 => f32::NAN,
            _ => self.float(),
        }
    }
    /// small numbers, many zeros, and a few special values
    pub fn special(&mut self, s: [u32; 3], some: bool) -> IT {
        let n = size(s);
        let zeros = self.u(0, 80);
        let mut d: Vec<i64> = (0..n).map(|_| if self.chance(zeros) { 0 } else { self.int(-9, 9) }).collect();
        if some {
            let kinds: &[i64] = *self.pick(&[&[PINF][..], &[-PINF], &[NAN], &[PINF, -PINF], &[PINF, -PINF, NAN]]);
            for _ in 0..self.u(1, 1 + (n as u32) / 3) {
                let p = self.u(0, n as u32 - 1) as usize;
                d[p] = *self.pick(kinds);
            }
        }
        IT { s, d }
    }
    pub fn farexp(&mut self) -> i32 {
        if self.chance(45) { 0 } else { *self.pick(&[-1, -2, -3, -5, 1, 4, 15, -15, 22, -22, 40, -40, 60, -60, -82, 80]) }
    }
    pub fn exp(&mut self) -> i32 {
        if self.chance(50) { 0 } else { *self.pick(&[-1, -2, -3, -5, 1, 4, 15, -15, 40, -40]) }
    }
}
