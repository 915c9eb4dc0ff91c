#![allow(unused_imports)]
// integer powers of real numbers
use mixed_num::*;
use mnharness::*;

fn one<T: Num + MixedNum + MixedPowi + MixedOps>(r: &mut Rec, b: T, n: i64) {
    if n >= i32::MIN as i64 && n <= i32::MAX as i64 {
        r.beginx("powi", &format!("\"n\":{},", n), &[b.enc()]);
        let o = r.one(|| b.mixed_powi(n as i32));
        r.end(&[o]);
    }
    if n >= 0 && n < 5000 {
        r.beginx("tpowi", &format!("\"n\":{},", n), &[b.enc()]);
        let o = r.one(|| trigonometry::powi(b, n as usize));
        r.end(&[o]);
    }
}
fn grid<T: Num + MixedNum + MixedPowi + MixedOps>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(140);
    // every special value to small powers; 0 and +-1 to powers around the limits of narrower integers
    for (i, x) in all_specials::<T>().into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let k = g.below(9) as i64 - 4;
        one(r, x, k);
        one(r, x, g.pick(&[0, 1, 2, -1, -2, 3]));
    }
    r.hist(T::TY, "");
    for n in [127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537] {
        for b in [0.0, 1.0, -1.0] {
            if b < 0.0 && T::TY.s == 0 { continue; }
            let b = T::near(b);
            one(r, b, n);
            one(r, b, -n);
        }
    }
    let ib = T::TY.ib().min(62);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let n: i64 = match g.below(8) { 0 => g.below(3) as i64, 1 => -(g.below(4) as i64), 2 => -(g.below(20) as i64), 3 => g.below(140) as i64, _ => g.below(10) as i64 };
        let m = n.abs().max(1) as f64;
        let b: T = match g.below(8) {
            0 => T::gen(&mut g),
            // a power close to the end of the range
            1 | 2 => { let b = 2f64.powf(ib as f64 / m); let s = g.below(5) as i64 - 2; T::near(if T::TY.s == 1 && g.bool() { -b } else { b }).step(s) }
            3 => { let b = 2f64.powf(-(ib as f64) / m); let s = g.below(5) as i64 - 2; T::near(if T::TY.s == 1 && g.bool() { -b } else { b }).step(s) }
            4 => { let s = g.below(5) as i64 - 2; T::near(if T::TY.s == 1 && g.bool() { -1.0 } else { 1.0 }).step(s) }
            5 => T::lim(&mut g, (ib as f64 / m).ceil() as i32),
            6 => T::near(g.below(21) as f64 - if T::TY.s == 1 { 10.0 } else { 0.0 }),
            _ => T::gen_mod(&mut g),
        };
        one(r, b, n);
        if i % 64 == 63 {
            // long chains on 0 and +-1
            let k = r.q(300, 3000) as u64;
            let n = g.below(k) as i64;
            for b in [T::near(0.0), T::near(1.0), T::near(if T::TY.s == 1 { -1.0 } else { 1.0 })] { one(r, b, n); one(r, b, -n); }
        }
    }
}
fn all8<T: Num + MixedNum + MixedPowi + MixedOps>(r: &mut Rec) {
    for n in -3..10 {
        r.hist(T::TY, "");
        let mut x = T::min_v();
        loop {
            one(r, x, n);
            if x == T::max_v() { break; }
            x = x.step(1);
        }
    }
}
fn flt<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(141);
    for (i, x) in all_specials::<T>().into_iter().enumerate() {
        if i % 16 == 0 { r.hist(T::TY, ""); }
        for n in -4..=5 { one(r, x, n); }
        for n in [i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1, 65536, 65537, -65536, -65537, 256, 257, -256, -257, 32768, 128] { if g.below(3) == 0 { one(r, x, n as i64); } }
    }
    // exponents that narrower integers and the float itself do not hold, on bases close to +-1
    r.hist(T::TY, "");
    for k in 0..r.q(100, 1000) {
        let n = match k % 4 {
            0 => (1i64 << (7 + g.below(24))) + g.below(5) as i64 - 2,
            1 => i32::MAX as i64 - g.below(4) as i64,
            2 => 1 + g.below(i32::MAX as u64) as i64,
            _ => { let b = 1 + g.below(30); 1 + g.below(1 << b) as i64 }
        };
        let n = if g.bool() { -n } else { n }.max(i32::MIN as i64);
        let s = if g.below(3) == 0 { 0 } else { g.below(41) as i64 - 20 };
        one(r, T::near(if g.bool() { 1.0 } else { -1.0 }).step(s), n);
        if k % 8 == 7 { one(r, T::near(2f64.powf((if g.bool() { 1.0 } else { -1.0 }) * g.unit() * 160.0 / n as f64)), n); }
    }
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let n: i64 = match g.below(10) {
            0 => g.below(3) as i64,
            1 => -(g.below(4) as i64),
            2 => g.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1]),
            3 => { let k = g.below(1 << 20) as i64; if g.bool() { k } else { -k } }
            4 => { let k = g.below(300) as i64; if g.bool() { k } else { -k } }
            5 => -(g.below(20) as i64),
            _ => g.below(20) as i64,
        };
        let m = n.abs().max(1) as f64;
        let top = if T::TY.w == 32 { 127.0 } else { 1023.0 };
        let b: T = match g.below(6) {
            0 => T::gen(&mut g),
            1 => T::bits(&mut g),
            2 => { let s = g.below(9) as i64 - 4; T::near(2f64.powf(g.unit() * top / m) * if g.bool() { 1.0 } else { -1.0 }).step(s) }
            3 => { let s = g.below(2001) as i64 - 1000; T::near(if g.bool() { 1.0 } else { -1.0 }).step(s) }
            4 => T::near(g.below(41) as f64 - 20.0),
            _ => T::near(g.unit() * 4.0),
        };
        one(r, b, n);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(150, 3000);
    signed_fixed!(grid, r, n);
    unsigned_fixed!(grid, r, n);
    let n = 3 * n;
    signed_ints!(grid, r, n);
    unsigned_ints!(grid, r, n);
    let n = 10 * n;
    floats!(flt, r, n);
    all8::<i8>(r);
    all8::<u8>(r);
    use fixed::{types::extra::*, FixedI8, FixedU8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r); all8::<FixedU8<$u>>(r); )* } }
    all!(U1 U3 U5);
    if r.thorough { all!(U0 U2 U4); }
    rec.finish();
}
