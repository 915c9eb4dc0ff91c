#![allow(unused_imports)]
// arctangents
use mixed_num::*;
use mnharness::*;

fn at2<T: SReal>(r: &mut Rec, y: T, x: T) {
    r.begin("atan2", &[y.enc(), x.enc()]);
    let o = r.one(|| y.mixed_atan2(x));
    r.end(&[o]);
    r.begin("patan2", &[y.enc(), x.enc()]);
    let mut o = vec![];
    r.form1(&mut o, || y.mixed_atan2_poly(x));
    r.form1(&mut o, || trigonometry::atan::atan2(y, x));
    r.end(&o);
}
fn at1<T: SReal>(r: &mut Rec, x: T) {
    r.begin("atan", &[x.enc()]);
    let o = r.one(|| x.mixed_atan());
    r.end(&[o]);
    r.begin("patan", &[x.enc()]);
    let o = r.one(|| trigonometry::atan::atan(x));
    r.end(&[o]);
}
fn run<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(100);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let (y, x) = pair::<T>(&mut g);
        at2(r, y, x);
        if i % 2 == 0 { at1(r, if i % 4 == 0 { x } else { T::lim(&mut g, 4) }); }
    }
    r.hist(T::TY, "");
    for c in cores::<T>() { at2(r, c.im, c.re); }
    let s = all_specials::<T>();
    if T::TY.k == 2 || r.thorough {
        let s = T::specials();
        for y in &s { r.hist(T::TY, ""); for x in &s { at2(r, *y, *x); } }
    }
    for (i, x) in s.iter().enumerate() { if i % 64 == 0 { r.hist(T::TY, ""); } at1(r, *x); }
}
fn all8<T: SReal>(r: &mut Rec) {
    r.hist(T::TY, "");
    let mut x = T::min_v();
    loop {
        at1(r, x);
        if x == T::max_v() { break; }
        x = x.step(1);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(150, 1800);
    signed_fixed!(run, r, n);
    let n = r.q(4000, 30000);
    floats!(run, r, n);
    use fixed::{types::extra::*, FixedI8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
