#![allow(unused_imports)]
// complex exponential
use mixed_num::*;
use mnharness::*;

fn go<T: SReal + core::ops::MulAssign>(r: &mut Rec, a: T, b: T) {
    let z = Cartesian::new(a, b);
    r.begin("cexp", &[a.enc(), b.enc()]);
    let mut o = vec![];
    r.two(&mut o, || { let w = z.mixed_exp(); (w.re, w.im) });
    r.end(&o);
}
fn run<T: SReal + core::ops::MulAssign>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(160);
    let top = if T::TY.k == 2 { if T::TY.w == 32 { 88.0 } else { 709.0 } } else { (T::TY.ib().min(60)) as f64 * std::f64::consts::LN_2 };
    r.hist(T::TY, "");
    let small = |x: &T| T::TY.k == 2 || x.approx().abs() < 400.0;
    for c in cores::<T>() { if small(&c.re) && small(&c.im) { go(r, c.re, c.im); } }
    for (i, x) in all_specials::<T>().into_iter().filter(small).enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        go(r, x, T::near(0.0));
        go(r, T::near(0.0), x);
        if T::TY.k == 2 { let k = g.below(9) as f64 - 4.0; go(r, T::near(k), x); go(r, x, T::near(k * std::f64::consts::FRAC_PI_4)); }
    }
    if T::TY.k == 2 {
        let hard = |x: &T| !x.approx().is_finite() || x.approx() == 0.0;
        let all = all_specials::<T>();
        let salt = g.below(5);
        for (i, &x) in all.iter().enumerate() { for (j, &y) in all.iter().enumerate() {
            if (i * 7 + j) % 5 == salt as usize % 5 || (hard(&x) && j % 3 == i % 3) || hard(&y) && i % 4 == 0 { go(r, x, y); }
        } }
    }
    for k in -16..=16 {
        for s in [0, 1, -1] {
            let x = T::near(k as f64 * std::f64::consts::FRAC_PI_4).step(s);
            if small(&x) { go(r, T::near(0.0), x); go(r, T::near(k as f64 / 4.0), x); }
        }
    }
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let a: T = match g.below(8) {
            0 => T::near(0.0),
            1 => { let n = g.below(5) as i64 - 2; T::near(top).step(n) }
            2 => T::near((g.unit() * top).floor()),
            3 => { let x = T::gen(&mut g); if T::TY.k == 2 || x.approx().abs() < 400.0 { x } else { T::near(1.0) } }
            4 => T::near(g.unit() * top * 1.5),
            5 => T::lim(&mut g, 0),
            _ => T::near(g.unit() * top),
        };
        let b: T = if g.below(8) == 0 { T::near(0.0) } else { let x = angle::<T>(&mut g, 3.0); if T::TY.k == 2 || x.approx().abs() < 400.0 { x } else { T::near(1.0) } };
        go(r, a, b);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(400, 6000);
    signed_fixed!(run, r, n);
    let n = 15 * n;
    floats!(run, r, n);
    rec.finish();
}
