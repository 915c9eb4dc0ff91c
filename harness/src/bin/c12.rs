#![allow(unused_imports)]
// native trigonometric functions
use mixed_num::*;
use mnharness::*;

fn sc<T: SReal>(r: &mut Rec, x: T) {
    r.begin("sincos", &[x.enc()]);
    let mut o = vec![];
    r.form(&mut o, || x.mixed_sincos());
    r.form(&mut o, || (x.mixed_sin(), x.mixed_cos()));
    r.end(&o);
}
fn inv<T: SReal>(r: &mut Rec, x: T) {
    r.begin("asin", &[x.enc()]);
    let o = r.one(|| x.mixed_asin());
    r.end(&[o]);
    r.begin("acos", &[x.enc()]);
    let o = r.one(|| x.mixed_acos());
    r.end(&[o]);
}
fn unit<T: SReal>(g: &mut Rng) -> T {
    match g.below(6) {
        0 => { let n = g.below(9) as i64 - 4; T::near(g.pick(&[1.0, -1.0, 0.0, 0.5, -0.5, std::f64::consts::FRAC_1_SQRT_2])).step(n) }
        1 => T::near((g.below(65) as f64 - 32.0) / 32.0),
        2 => T::lim(g, 0),
        3 => if T::TY.k == 2 { T::gen(g) } else { T::near(g.unit()) },
        _ => T::near(g.unit()),
    }
}
// multiples of pi/8 within the type's range (or +-50 for floats) and their neighbours, and every special value
fn grid<T: Num>() -> Vec<T> {
    let mut v = vec![];
    let top = if T::TY.k == 2 { 200.0 } else { T::max_v().approx().min(26.0) };
    for k in -512..=512 {
        let x = k as f64 * std::f64::consts::FRAC_PI_8;
        if x.abs() > top { continue; }
        for n in [0, 1, -1] { v.push(T::near(x).step(n)); }
    }
    let big = T::near(400.0);
    v.extend(all_specials::<T>().into_iter().filter(|x| T::TY.k == 2 || big == T::max_v() || (*x < big && Num::neg(&big) < *x)));
    v
}
fn fix<T: SReal>(r: &mut Rec, n: usize, m: usize) {
    let mut g = r.rng::<T>(120);
    for (i, x) in grid::<T>().into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        sc(r, x);
    }
    for k in -16..=16 {
        for s in [0, 1, -1] {
            let x = T::near(k as f64 / 16.0).step(s);
            if T::near(-1.0) <= x && x <= T::near(1.0) { inv(r, x); }
        }
    }
    let lim = T::near(400.0);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let x = angle::<T>(&mut g, 3.0);
        if (x < lim && -lim < x) || g.below(4) == 0 { sc(r, x) }
        if i % m == 0 { inv(r, unit::<T>(&mut g)) }
    }
}
fn all8<T: SReal>(r: &mut Rec) {
    r.hist(T::TY, "");
    let mut x = T::min_v();
    loop {
        sc(r, x);
        if x >= T::near(-1.0) && x <= T::near(1.0) { inv(r, x) }
        if x == T::max_v() { break; }
        x = x.step(1);
    }
}
fn flt<T: SReal + MixedTan>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(121);
    for (i, x) in grid::<T>().into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        sc(r, x);
        r.begin("tan", &[x.enc()]);
        let o = r.one(|| x.mixed_tan());
        r.end(&[o]);
    }
    for (i, x) in all_specials::<T>().into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        inv(r, x);
    }
    for k in -64..=64 { for s in [0, 1, -1, 2, -2] { inv(r, T::near(k as f64 / 64.0).step(s)); } }
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let x = angle::<T>(&mut g, 50.0);
        sc(r, x);
        r.begin("tan", &[x.enc()]);
        let o = r.one(|| x.mixed_tan());
        r.end(&[o]);
        inv(r, unit::<T>(&mut g));
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(200, 3000);
    signed_fixed!(fix, r, n, 4);
    let n = r.q(5000, 60000);
    flt::<f32>(r, n);
    flt::<f64>(r, n);
    use fixed::{types::extra::*, FixedI8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
