#![allow(unused_imports)]
// complex integer powers of fixed-point numbers
use mixed_num::*;
use mnharness::*;

fn go<T: SReal + fixed::traits::FixedSigned + MixedAtan + MixedSin>(r: &mut Rec, z: Cartesian<T>, n: usize) {
    r.beginx("cpow", &format!("\"n\":{},", n), &[z.re.enc(), z.im.enc()]);
    let mut o = vec![];
    r.two(&mut o, || { let w = complex::powi(z, n); (w.re, w.im) });
    r.end(&o);
}
fn run<T: SReal + fixed::traits::FixedSigned + MixedAtan + MixedSin>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(150);
    r.hist(T::TY, "");
    let ib = T::TY.ib().min(50);
    for z in cores::<T>() {
        for n in [0, 1, 2, 3] {
            if g.below(3) != 0 { continue; }
            go(r, z, n);
        }
    }
    // long powers of small numbers, also past the exponents an i32 holds
    r.hist(T::TY, "");
    for n in [1025usize, 5000, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (3 << 32) + 3] {
        for (re, im) in [(0.5, 0.0), (-0.25, 0.5), (0.0, 0.5), (0.125, -0.25)] {
            if T::TY.f >= 2 && (n < 1 << 31 || T::TY.f >= 6 && T::TY.ib() >= 36) { go(r, Cartesian::new(T::near(re), T::near(im)), n); }
        }
    }
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let n = match g.below(9) { 0 | 1 => g.below(3), 2 | 3 => g.below(16), 4 => g.below(70), _ => 1 + g.below(6) } as usize;
        let z: Cartesian<T> = match g.below(6) {
            0 => cplx(&mut g),
            1 => { let m = 2f64.powf(g.unit() * ib as f64 / (n.max(1) as f64)); let t = g.unit() * std::f64::consts::PI; Cartesian::new(T::near(m * t.cos()), T::near(m * t.sin())) }
            2 => { let t = g.unit() * std::f64::consts::PI; Cartesian::new(T::near(t.cos()), T::near(t.sin())) }
            3 => { let a = T::near(g.unit() * 2.0); let b = T::near(0.0); if g.bool() { Cartesian::new(a, b) } else { Cartesian::new(b, a) } }
            4 => Cartesian::new(T::near(g.below(9) as f64 / 2.0 - 2.0), T::near(g.below(9) as f64 / 2.0 - 2.0)),
            _ => { let l = (ib / (n.max(1) as i32)).min(4); Cartesian::new(T::lim(&mut g, l), T::lim(&mut g, l)) }
        };
        go(r, z, n);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(400, 6000);
    signed_fixed!(run, r, n);
    rec.finish();
}
