//! Element types: encoding for the trace, and input generation.
use fixed::types::extra::{LeEqU16, LeEqU32, LeEqU64, LeEqU8};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ty {
    pub k: u32,
    pub w: u32,
    pub f: u32,
    pub s: u32,
}
impl Ty {
    pub fn json(&self) -> String {
        format!("{{\"k\":{},\"w\":{},\"f\":{},\"s\":{}}}", self.k, self.w, self.f, self.s)
    }
    pub fn id(&self) -> u64 {
        (((self.k as u64 * 256 + self.w as u64) * 256) + self.f as u64) * 2 + self.s as u64
    }
    /// integer bits (without sign)
    pub fn ib(&self) -> i32 {
        self.w as i32 - self.f as i32 - self.s as i32
    }
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x5DEE_CE66_D153_12A7);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { (((self.next() as u128) * (n as u128)) >> 64) as u64 }
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn next128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    /// uniform in [-1, 1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
}

pub fn enc_mag(e: i32, neg: bool, mut m: u128) -> String {
    if m == 0 {
        return "[0,0,0]".into();
    }
    let mut s = format!("[0,{},{}", e, if neg { -1 } else { 1 });
    while m != 0 {
        s.push_str(&format!(",{}", m & ((1 << 30) - 1)));
        m >>= 30;
    }
    s.push(']');
    s
}

pub trait Num: Copy + PartialEq + PartialOrd + 'static {
    const TY: Ty;
    fn enc(&self) -> String;
    /// nearest value to x, saturating (input generation only)
    fn near(x: f64) -> Self;
    /// smallest positive step; neighbour n steps away, saturating
    fn step(&self, n: i64) -> Self;
    /// a neighbour at a log-uniformly random distance
    fn jit(&self, r: &mut Rng) -> Self;
    fn min_v() -> Self;
    fn max_v() -> Self;
    /// uniformly random representation
    fn bits(r: &mut Rng) -> Self;
    fn finite(&self) -> bool {
        true
    }
    /// |x| < 2^lg with a random, log-uniform magnitude
    fn lim(r: &mut Rng, lg: i32) -> Self;
    fn specials() -> Vec<Self>;
    /// the eight values whose combinations are swept
    fn core() -> [Self; 8];
    fn approx(&self) -> f64;
    /// the number with this representation (integers, fixed point), or a float with these leading digits
    fn raw(m: u128, neg: bool, r: &mut Rng) -> Self;
    /// the opposite number, saturating
    fn neg(&self) -> Self;

    /// boundary-biased input over the whole type
    fn gen(r: &mut Rng) -> Self {
        match r.below(10) {
            0 | 1 => {
                let s = Self::specials();
                r.pick(&s)
            }
            2 => {
                let s = Self::specials();
                let n = r.below(7) as i64 - 3;
                if r.bool() { r.pick(&s).step(n) } else { r.pick(&s).jit(r) }
            }
            3 => Self::bits(r),
            4 => Self::near((r.below(41) as f64 - 20.0) / r.pick(&[1.0, 2.0, 4.0, 8.0, 16.0])),
            5 => Self::near(r.unit() * r.pick(&[0.01, 0.1, 1.0, 2.0, 4.0, 10.0, 100.0])),
            6 => {
                let ib = Self::TY.ib().min(60);
                Self::lim(r, ib)
            }
            7 => Self::lim(r, 2),
            8 => {
                // a power of two, and its neighbours
                let ib = Self::TY.ib().min(60);
                let e = r.below((ib + Self::TY.f as i32 + 1) as u64) as i32 - Self::TY.f as i32;
                let v = Self::near(2f64.powi(e) * if r.bool() { 1.0 } else { -1.0 });
                let n = r.below(3) as i64 - 1;
                v.step(n)
            }
            _ => {
                let ib = Self::TY.ib().min(60);
                Self::lim(r, (ib + 1) / 2)
            }
        }
    }
    /// finite input
    fn gen_fin(r: &mut Rng) -> Self {
        loop {
            let v = Self::gen(r);
            if v.finite() {
                return v;
            }
        }
    }
    /// moderate input, so that products of two usually fit
    fn gen_mod(r: &mut Rng) -> Self {
        let ib = Self::TY.ib().min(60);
        match r.below(4) {
            0 => {
                loop {
                    let v = Self::gen(r);
                    if v.finite() && v.approx().abs() <= 2f64.powi((ib - 1) / 2) { return v; }
                }
            }
            1 => Self::lim(r, 1),
            _ => Self::lim(r, (ib - 1) / 2),
        }
    }
}

const PI: f64 = std::f64::consts::PI;
fn special_reals() -> Vec<f64> {
    let mut v = vec![0.0];
    for x in [1.0, 2.0, 3.0, 0.5, 0.25, 0.75, 1.5, 4.0, 5.0, 6.0, 8.0, 10.0, 16.0, PI, PI / 2.0, PI / 4.0, 3.0 * PI / 4.0, 2.0 * PI, 3.0 * PI, 1.0 / 3.0, 0.1, 0.7] {
        v.push(x);
        v.push(-x);
    }
    for k in 1..16 {
        v.push(k as f64 / 16.0);
    }
    v
}

macro_rules! impl_grid {
    ([$($g:tt)*], $t:ty, $raw:ty, $w:expr, $f:expr, $s:expr, $k:expr, $from:expr, $to:expr) => {
        impl<$($g)*> Num for $t {
            const TY: Ty = Ty { k: $k, w: $w, f: $f, s: $s };
            fn enc(&self) -> String {
                let r: $raw = $to(*self);
                #[allow(unused_comparisons)]
                let neg = r < 0;
                let m = if neg { (r as i128).unsigned_abs() } else { r as u128 };
                enc_mag(-(Self::TY.f as i32), neg, m)
            }
            fn near(x: f64) -> Self {
                let y = x * 2f64.powi(Self::TY.f as i32);
                $from(y.round() as $raw)
            }
            fn step(&self, n: i64) -> Self {
                let r: $raw = $to(*self);
                #[allow(unused_comparisons)]
                let n = n.clamp(-100, 100);
                $from(if n < 0 { r.saturating_sub((-n) as $raw) } else { r.saturating_add(n as $raw) })
            }
            fn jit(&self, r: &mut Rng) -> Self {
                let x: $raw = $to(*self);
                let nb = r.below(Self::TY.w as u64) as u32;
                let m = (r.next128() & ((1u128 << nb) - 1) | (1u128 << nb) >> 1) as $raw;
                $from(if r.bool() { x.saturating_add(m) } else { x.saturating_sub(m) })
            }
            fn min_v() -> Self { $from(<$raw>::MIN) }
            fn max_v() -> Self { $from(<$raw>::MAX) }
            fn bits(r: &mut Rng) -> Self { $from(r.next128() as $raw) }
            fn lim(r: &mut Rng, lg: i32) -> Self {
                let top = (lg + Self::TY.f as i32).clamp(1, Self::TY.w as i32 - Self::TY.s as i32);
                let nb = r.below(top as u64) as u32 + 1;
                let mut m = r.next128() & (u128::MAX >> (128 - nb));
                if r.bool() { m |= 1 << (nb - 1); }
                let m = m as $raw;
                #[allow(unused_comparisons)]
                let signed = <$raw>::MIN < 0;
                $from(if signed && r.bool() { (0 as $raw).wrapping_sub(m) } else { m })
            }
            fn specials() -> Vec<Self> {
                let mut v: Vec<Self> = special_reals().into_iter().map(Self::near).collect();
                for n in 0..4 { v.push(Self::min_v().step(n)); v.push(Self::max_v().step(-n)); v.push(Self::near(0.0).step(n)); v.push(Self::near(0.0).step(-n)); }
                let r: $raw = <$raw>::MAX;
                v.push($from(r / 2)); v.push($from(r / 2 + 1)); v.push($from(<$raw>::MIN / 2)); v.push($from(r / 3)); v.push($from(r/4)); v.push($from(r/4+1));
                v
            }
            fn core() -> [Self; 8] {
                [Self::near(0.0), Self::near(1.0), Self::near(-1.0), Self::near(0.0).step(1), Self::near(0.0).step(-1), Self::max_v(), Self::min_v(), $from(<$raw>::MAX / 2)]
            }
            fn approx(&self) -> f64 { ($to(*self)) as f64 / 2f64.powi(Self::TY.f as i32) }
            fn raw(m: u128, neg: bool, _: &mut Rng) -> Self { let m = m as $raw; $from(if neg && Self::TY.s == 1 { (0 as $raw).wrapping_sub(m) } else { m }) }
            fn neg(&self) -> Self { let r: $raw = $to(*self); $from((0 as $raw).saturating_sub(r)) }
        }
    };
}
macro_rules! impl_int { ($($t:ident $s:expr),*) => { $( impl_grid!([], $t, $t, <$t>::BITS, 0, $s, 0, (|x: $t| x), (|x: $t| x)); )* } }
impl_int!(i8 1, i16 1, i32 1, i64 1, i128 1, isize 1, u8 0, u16 0, u32 0, u64 0, u128 0, usize 0);
impl_grid!([F: LeEqU8 + 'static], fixed::FixedI8<F>, i8, 8, F::U32, 1, 1, (|x: i8| Self::from_bits(x)), (|x: Self| x.to_bits()));
impl_grid!([F: LeEqU16 + 'static], fixed::FixedI16<F>, i16, 16, F::U32, 1, 1, (|x: i16| Self::from_bits(x)), (|x: Self| x.to_bits()));
impl_grid!([F: LeEqU32 + 'static], fixed::FixedI32<F>, i32, 32, F::U32, 1, 1, (|x: i32| Self::from_bits(x)), (|x: Self| x.to_bits()));
impl_grid!([F: LeEqU64 + 'static], fixed::FixedI64<F>, i64, 64, F::U32, 1, 1, (|x: i64| Self::from_bits(x)), (|x: Self| x.to_bits()));
impl_grid!([F: LeEqU8 + 'static], fixed::FixedU8<F>, u8, 8, F::U32, 0, 1, (|x: u8| Self::from_bits(x)), (|x: Self| x.to_bits()));
impl_grid!([F: LeEqU16 + 'static], fixed::FixedU16<F>, u16, 16, F::U32, 0, 1, (|x: u16| Self::from_bits(x)), (|x: Self| x.to_bits()));
impl_grid!([F: LeEqU32 + 'static], fixed::FixedU32<F>, u32, 32, F::U32, 0, 1, (|x: u32| Self::from_bits(x)), (|x: Self| x.to_bits()));
impl_grid!([F: LeEqU64 + 'static], fixed::FixedU64<F>, u64, 64, F::U32, 0, 1, (|x: u64| Self::from_bits(x)), (|x: Self| x.to_bits()));

macro_rules! impl_float {
    ($t:ident, $b:ident, $w:expr, $p:expr, $emin:expr, $ebits:expr) => {
        impl Num for $t {
            const TY: Ty = Ty { k: 2, w: $w, f: 0, s: 1 };
            fn enc(&self) -> String {
                if self.is_nan() { return "[1]".into(); }
                if self.is_infinite() { return if *self > 0.0 { "[2]".into() } else { "[3]".into() }; }
                let b = self.to_bits();
                let neg = b >> ($w - 1) == 1;
                let m = b & ((1 << ($p - 1)) - 1);
                let ex = ((b >> ($p - 1)) & ((1 << $ebits) - 1)) as i32;
                if m == 0 && ex == 0 { return if neg { "[4]".into() } else { "[0,0,0]".into() }; }
                let (m, e) = if ex == 0 { (m, $emin) } else { (m | (1 << ($p - 1)), $emin + ex - 1) };
                enc_mag(e, neg, m as u128)
            }
            fn near(x: f64) -> Self { x as $t }
            fn step(&self, n: i64) -> Self {
                if !self.is_finite() { return *self; }
                // order-preserving integer representation
                let b = self.to_bits();
                let top: $b = 1 << ($w - 1);
                let o: i128 = if b & top != 0 { -((b & !top) as i128) } else { b as i128 };
                let o = o + n as i128;
                let r = if o < 0 { $t::from_bits(((-o) as $b) | top) } else { $t::from_bits(o as $b) };
                if r.is_finite() { r } else { *self }
            }
            fn jit(&self, r: &mut Rng) -> Self {
                if !self.is_finite() { return *self; }
                let k = r.below($p + 2) as i32;
                let d = (1.0 + r.unit().abs()) as $t * (2f64.powi(-k) as $t) * if r.bool() { 1.0 } else { -1.0 };
                let v = if r.bool() { *self + *self * d } else { *self + d };
                if v.is_finite() { v } else { *self }
            }
            fn min_v() -> Self { $t::MIN }
            fn max_v() -> Self { $t::MAX }
            fn bits(r: &mut Rng) -> Self { $t::from_bits(r.next() as $b) }
            fn finite(&self) -> bool { self.is_finite() }
            fn lim(r: &mut Rng, lg: i32) -> Self {
                let span = if r.below(8) == 0 { 120 } else { 24 };
                let e = lg - 1 - (r.below(span) as i32);
                let m = 1.0 + (r.next() >> 11) as f64 / (1u64 << 53) as f64;
                let v = (m * 2f64.powi(e)) as $t;
                if r.bool() { -v } else { v }
            }
            fn specials() -> Vec<Self> {
                let mut v: Vec<Self> = special_reals().into_iter().map(Self::near).collect();
                v.extend_from_slice(&[-0.0, $t::MAX, $t::MIN, $t::MIN_POSITIVE, -$t::MIN_POSITIVE, $t::from_bits(1), -$t::from_bits(1),
                    $t::INFINITY, $t::NEG_INFINITY, $t::NAN, $t::EPSILON, 1e10, -1e10, 1e-10, 1e30, 1e-30,
                    ((1u64 << 24) as $t), ((1u64 << 53) as $t), 255.0, 256.0, 127.0, 128.0, 65535.0, 65536.0, 2147483648.0, 4294967296.0, 9.223372036854775807e18, 1.8446744073709552e19]);
                v
            }
            fn core() -> [Self; 8] { [0.0, -0.0, 1.0, -1.5, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, $t::MAX] }
            fn approx(&self) -> f64 { *self as f64 }
            fn raw(m: u128, neg: bool, r: &mut Rng) -> Self {
                let v = (m as $t) * (2f64.powi(r.below(160) as i32 - 120) as $t);
                if neg { -v } else { v }
            }
            fn neg(&self) -> Self { -*self }
            fn gen(r: &mut Rng) -> Self {
                match r.below(10) {
                    0 | 1 => { let s = Self::specials(); r.pick(&s) }
                    2 => { let s = Self::specials(); let n = r.below(7) as i64 - 3; if r.bool() { r.pick(&s).step(n) } else { r.pick(&s).jit(r) } }
                    3 => Self::bits(r),
                    4 => Self::near((r.below(81) as f64 - 40.0) / r.pick(&[1.0, 2.0, 4.0, 8.0, 16.0])),
                    5 | 6 => Self::near(r.unit() * r.pick(&[0.01, 0.1, 1.0, 2.0, 4.0, 10.0, 100.0, 1000.0])),
                    7 => Self::lim(r, 30),
                    8 => Self::lim(r, 2),
                    _ => (r.below(2001) as $t) - 1000.0,
                }
            }
            fn gen_mod(r: &mut Rng) -> Self {
                loop {
                    let v = match r.below(4) { 0 => Self::gen(r), 1 => Self::lim(r, 1), 2 => Self::near(r.unit() * 10.0), _ => Self::lim(r, 20) };
                    if v.is_finite() && (v == 0.0 || (v.abs() < 1e12 && v.abs() > 1e-12)) { return v; }
                }
            }
        }
    };
}
impl_float!(f32, u32, 32, 24, -149, 8);
impl_float!(f64, u64, 64, 53, -1074, 11);
