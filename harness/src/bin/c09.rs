#![allow(unused_imports)]
// square roots
use mixed_num::*;
use mnharness::*;

pub trait Sq: Num + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi + MixedSqrt {}
impl<T: Num + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi + MixedSqrt> Sq for T {}

fn sq<T: Sq>(r: &mut Rec, x: T, n: usize) {
    r.begin("sqrt", &[x.enc()]);
    let o = r.one(|| x.mixed_sqrt());
    r.end(&[o]);
    r.begin("niirf", &[x.enc()]);
    let mut o = vec![];
    r.form1(&mut o, || x.mixed_niirf());
    r.form1(&mut o, || trigonometry::sqrt::niirf(x, 2));
    r.end(&o);
    r.beginx("niirfn", &format!("\"n\":{},", n), &[x.enc()]);
    let o = r.one(|| trigonometry::sqrt::niirf(x, n));
    r.end(&[o]);
}
// mixed_niirf is MixedSqrt's for every real type; the generic function also serves the integers
fn int<T: Num + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(91);
    r.hist(T::TY, "");
    for _ in 0..n {
        let x = T::gen(&mut g);
        r.beginx("niirfn", "\"n\":2,", &[x.enc()]);
        let o = r.one(|| trigonometry::sqrt::niirf(x, 2));
        r.end(&[o]);
    }
}
fn positive<T: Sq>(g: &mut Rng) -> T {
    let f = T::TY.f as i32;
    match g.below(10) {
        // the segment boundaries of the approximation, k/16 * 4^j, and their neighbours
        0 | 1 | 2 => {
            let k = 4 + g.below(13);
            let top = if T::TY.k == 2 { 40 } else { T::TY.ib() } / 2;
            let bot = if T::TY.k == 2 { -40 } else { -f } / 2;
            let j = bot + g.below((top - bot + 1) as u64) as i32;
            let n = g.below(5) as i64 - 2;
            T::near(k as f64 / 16.0 * 4f64.powi(j)).step(n)
        }
        3 => { let n = g.below(40) as i64; T::near(0.0).step(n) }
        4 => { let n = g.below(40) as i64; T::max_v().step(-n) }
        5 => T::near(0.25 + 0.75 * (g.unit() + 1.0) / 2.0),
        6 => T::bits(g),
        7 => T::gen(g),
        8 => { let m = g.below(200) as f64; T::near(m * m / g.pick(&[1.0, 4.0, 16.0, 256.0])) }
        _ => { let ib = T::TY.ib().min(60); T::lim(g, ib) }
    }
}
fn run<T: Sq>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(90);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let x = positive::<T>(&mut g);
        let x = if x < T::near(0.0) && g.below(4) > 0 && x != T::min_v() { Num::neg(&x) } else { x };
        let it = [3, 4, 6, 2, 1, 0][g.below(6) as usize];
        sq(r, x, it);
    }
    for (i, x) in all_specials::<T>().into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        sq(r, x, 4);
    }
}
fn all8<T: Sq>(r: &mut Rec) {
    r.hist(T::TY, "");
    let mut x = T::min_v();
    loop {
        sq(r, x, 3);
        if x == T::max_v() { break; }
        x = x.step(1);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(120, 3000);
    signed_fixed!(run, r, n);
    unsigned_fixed!(run, r, n);
    let n = r.q(5000, 100000);
    floats!(run, r, n);
    let n = r.q(100, 1000);
    signed_ints!(int, r, n);
    unsigned_ints!(int, r, n);
    use fixed::{types::extra::*, FixedI8, FixedU8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r); all8::<FixedU8<$u>>(r); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
