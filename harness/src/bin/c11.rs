#![allow(unused_imports)]
// polynomial sine and cosine
use mixed_num::*;
use mnharness::*;

fn sc<T: SReal>(r: &mut Rec, x: T) {
    r.begin("psin", &[x.enc()]);
    let o = r.one(|| trigonometry::sin(x));
    r.end(&[o]);
    r.begin("pcos", &[x.enc()]);
    let o = r.one(|| trigonometry::cos(x));
    r.end(&[o]);
}
// multiples of pi/8 within the type's range (or +-50 for floats) and their neighbours, and every special value
fn grid<T: Num>() -> Vec<T> {
    let mut v = vec![];
    let top = if T::TY.k == 2 { 200.0 } else { T::max_v().approx().min(26.0) };
    for k in -512..=512 {
        let x = k as f64 * std::f64::consts::FRAC_PI_8;
        if x.abs() > top { continue; }
        for n in [0, 1, -1] { v.push(T::near(x).step(n)); }
    }
    let big = T::near(400.0);
    v.extend(all_specials::<T>().into_iter().filter(|x| T::TY.k == 2 || big == T::max_v() || (*x < big && Num::neg(&big) < *x)));
    v
}
fn run<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(110);
    for (i, x) in grid::<T>().into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        sc(r, x);
    }
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        sc(r, angle::<T>(&mut g, 10.0));
    }
}
fn all8<T: SReal>(r: &mut Rec) {
    r.hist(T::TY, "");
    let mut x = T::min_v();
    loop {
        sc(r, x);
        if x == T::max_v() { break; }
        x = x.step(1);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(250, 8000);
    signed_fixed!(run, r, n);
    let n = r.q(8000, 100000);
    floats!(run, r, n);
    use fixed::{types::extra::*, FixedI8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
