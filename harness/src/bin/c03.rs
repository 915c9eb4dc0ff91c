#![allow(unused_imports)]
// complex division, every form of the right operand
use mixed_num::*;
use mnharness::*;

fn forms<T: SNum>(r: &mut Rec, x: Cartesian<T>, y: Cartesian<T>) {
    r.begin("div", &[x.re.enc(), x.im.enc(), y.re.enc(), y.im.enc()]);
    let mut o = vec![];
    let mut ym = y;
    let mut nm = num::Complex::new(y.re, y.im);
    let n = nm;
    macro_rules! f { ($e:expr) => { r.form(&mut o, || { let z: Cartesian<T> = $e; (z.re, z.im) }); } }
    macro_rules! fa { ($y:expr) => { r.form(&mut o, || { let mut z: Cartesian<T> = x; z /= $y; (z.re, z.im) }); } }
    f!(x / y); f!(x / &y); f!(x / &mut ym); f!(x / n); f!(x / &n); f!(x / &mut nm);
    f!(complex::div_cartesian(x, y));
    fa!(y); fa!(&y); fa!(&mut ym); fa!(n); fa!(&n); fa!(&mut nm);
    r.endp(&o, &[ym.re.enc(), ym.im.enc(), nm.re.enc(), nm.im.enc()]);
}
fn run<T: SNum>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(3);
    let zero = T::near(0.0);
    for i in 0..n {
        if i % 128 == 0 { r.hist(T::TY, ""); }
        let y = match g.below(8) {
            0 => Cartesian::new(T::lim(&mut g, 1), T::lim(&mut g, 1)),
            1 => Cartesian::new(zero, zero),
            2 => Cartesian::new(T::lim(&mut g, 2), zero),
            3 => Cartesian::new(zero, T::lim(&mut g, 2)),
            _ => cplx::<T>(&mut g),
        };
        let x = match g.below(8) { 0 | 1 => mate(&mut g, y), 2 => Cartesian::new(T::lim(&mut g, 2), T::lim(&mut g, 2)), _ => cplx::<T>(&mut g) };
        forms(r, x, y);
    }
    for (i, (x, y)) in core_pairs::<T>(&mut g, 1, 40).into_iter().enumerate() {
        if i % 128 == 0 { r.hist(T::TY, ""); }
        forms(r, x, y);
    }
}
// exhaustive over a small lattice of integer and half-integer operands
fn lattice<T: SNum>(r: &mut Rec) {
    r.hist(T::TY, "");
    let v = [-3.0, -1.0, 0.0, 1.0, 2.0];
    for a in v { for b in v { for c in v { for d in v {
        if (a as i32 + b as i32 + c as i32 + d as i32) % 2 == 0 || r.thorough {
            forms(r, Cartesian::new(T::near(a), T::near(b)), Cartesian::new(T::near(c), T::near(d)));
        }
    } } } }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(300, 6000);
    signed_fixed!(run, r, n);
    let n = r.q(1500, 30000);
    signed_ints!(run, r, n);
    let n = r.q(4000, 80000);
    floats!(run, r, n);
    signed_ints!(lattice, r);
    floats!(lattice, r);
    lattice::<fixed::FixedI8<fixed::types::extra::U1>>(r);
    lattice::<fixed::FixedI16<fixed::types::extra::U4>>(r);
    lattice::<fixed::FixedI32<fixed::types::extra::U16>>(r);
    lattice::<fixed::FixedI64<fixed::types::extra::U30>>(r);
    rec.finish();
}
