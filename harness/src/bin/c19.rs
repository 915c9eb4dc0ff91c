#![allow(unused_imports)]
// sign, absolute value, predicates, limits, constants, floor and ceiling
use mixed_num::*;
use mnharness::*;

fn at<T: Num + MixedReal>(r: &mut Rec, x: T) {
    r.begin("sign", &[x.enc()]);
    let o = r.one(|| x.mixed_sign());
    r.end(&[o]);
    r.begin("pred", &[x.enc()]);
    let o = match r.guard(|| (x.mixed_is_positive(), x.mixed_is_negative())) {
        Some((a, b)) => vec![enc_small(a as i64), enc_small(b as i64)],
        None => vec![enc_small(2), enc_small(2)],
    };
    r.end(&o);
}
fn at_signed<T: Num + MixedReal + MixedOps + MixedNumSigned + MixedZero>(r: &mut Rec, x: T) {
    r.begin("sign", &[x.enc()]);
    let o = r.one(|| trigonometry::sign(x));
    r.end(&[o]);
}
fn at_abs<T: Num + MixedAbs>(r: &mut Rec, x: T) {
    r.begin("abs", &[x.enc()]);
    let o = r.one(|| x.mixed_abs());
    r.end(&[o]);
}
fn k<T: Num>(r: &mut Rec, f: &str, g: impl FnOnce() -> T) {
    r.beginx("const", &format!("\"f\":\"{}\",", f), &[]);
    let o = r.one(g);
    r.end(&[o]);
}
fn vals<T: Num>(r: &mut Rec, n: usize, salt: u64) -> Vec<T> {
    let mut g = r.rng::<T>(salt);
    let mut v = all_specials::<T>();
    for _ in 0..n {
        v.push(match g.below(4) { 0 => T::bits(&mut g), 1 => { let k = g.below(9) as i64 - 4; T::near(0.0).step(k) }, _ => T::gen(&mut g) });
    }
    v
}
// without MixedPi (integers)
fn base<T: Num + MixedReal + MixedZero + MixedOne + MixedAbs>(r: &mut Rec, n: usize) {
    r.hist(T::TY, "");
    k(r, "max", T::mixed_max_value);
    k(r, "min", T::mixed_min_value);
    k(r, "zero", T::mixed_zero);
    k(r, "one", T::mixed_one);
    for x in vals::<T>(r, n, 190) { at(r, x); at_abs(r, x); }
}
fn consts<T: Num + MixedPi>(r: &mut Rec, _n: usize) {
    k(r, "pi", T::mixed_pi);
    k(r, "tau", T::mixed_tau);
}
fn signed<T: SNum>(r: &mut Rec, n: usize) {
    base::<T>(r, n);
    for x in vals::<T>(r, n, 191) { at_signed(r, x); }
}
fn signed_pi<T: SReal>(r: &mut Rec, n: usize) {
    signed::<T>(r, n);
    consts::<T>(r, n);
}
fn unsigned_pi<T: Num + MixedReal + MixedZero + MixedOne + MixedAbs + MixedPi>(r: &mut Rec, n: usize) {
    base::<T>(r, n);
    consts::<T>(r, n);
}
fn round<T: Num + MixedCeil + MixedFloor>(r: &mut Rec, n: usize) {
    let mut v = vals::<T>(r, n, 192);
    let mut g = r.rng::<T>(193);
    // whole numbers, halves and their neighbours around every power of two
    for e in 0..64 {
        for h in [0.0, 0.5, 1.0, -0.5, -1.0] {
            for s in [1.0, -1.0] { for n in [0, 1, -1] { v.push(T::near(s * (2f64.powi(e) + h)).step(n)); } }
        }
    }
    for _ in 0..n {
        let j = g.below(5) as i64 - 2;
        v.push(match g.below(5) {
            0 => T::near((g.unit() * 2f64.powi(g.below(56) as i32)).floor()).step(j),
            1 => T::near((g.unit() * 2f64.powi(g.below(56) as i32)).floor() + 0.5).step(j),
            2 => T::near(g.unit() * 2f64.powi(g.below(56) as i32)),
            3 => T::near(g.unit()),
            _ => T::bits(&mut g),
        });
    }
    for (i, x) in v.into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        r.beginx("round", "\"f\":\"floor\",", &[x.enc()]);
        let o = r.one(|| x.mixed_floor());
        r.end(&[o]);
        r.beginx("round", "\"f\":\"ceil\",", &[x.enc()]);
        let o = r.one(|| x.mixed_ceil());
        r.end(&[o]);
    }
}
// every value of a small type
fn each<T: Num + MixedReal + MixedAbs>(r: &mut Rec) {
    r.hist(T::TY, "");
    let mut x = T::min_v();
    loop {
        at(r, x);
        at_abs(r, x);
        if x == T::max_v() { break; }
        x = x.step(1);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(60, 1500);
    signed_fixed!(signed_pi, r, n);
    unsigned_fixed!(unsigned_pi, r, n);
    let n = r.q(300, 6000);
    signed_ints!(signed, r, n);
    unsigned_ints!(base, r, n);
    let n = r.q(2000, 40000);
    floats!(signed_pi, r, n);
    floats!(round, r, n);
    use fixed::{types::extra::*, FixedI8, FixedU8};
    macro_rules! all { ($($u:ident)*) => { $( each::<FixedI8<$u>>(r); each::<FixedU8<$u>>(r); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    each::<i8>(r);
    each::<u8>(r);
    rec.finish();
}
