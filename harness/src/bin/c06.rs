#![allow(unused_imports)]
// polar to cartesian: every entry point, and back
use mixed_num::*;
use mnharness::*;

fn cart<T: SReal>(r: &mut Rec, mag: T, ang: T) {
    r.begin("cart", &[mag.enc(), ang.enc()]);
    let x = Polar::new(mag, ang);
    let mut o = vec![];
    macro_rules! f { ($e:expr) => { r.form(&mut o, || { let z: Cartesian<T> = $e; (z.re, z.im) }) } }
    f!(x.to_cartesian());
    f!(complex::to_cartesian(x));
    f!(Cartesian::new_from_polar(mag, ang));
    let mut p = vec![];
    match r.guard(|| x.to_cartesian()) {
        Some(z) => r.two(&mut p, || { let b = z.to_polar(); (b.mag, b.ang) }),
        None => { p.push(PANIC.into()); p.push(PANIC.into()); }
    }
    r.two(&mut p, || { let b = x.to_polar(); (b.mag, b.ang) });
    r.endp(&o, &p);
}
fn run<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(60);
    let lim = T::near(400.0);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let mag = match g.below(8) { 0 => T::gen(&mut g), 1 => T::near(0.0), 2 => T::near(1.0), 3 => T::near(-1.0), 4 => { let ib = T::TY.ib().min(40); T::lim(&mut g, ib) } _ => T::gen_mod(&mut g) };
        let ang = match g.below(8) { 0 => T::gen(&mut g), _ => angle::<T>(&mut g, 3.0) };
        let _ = lim;
        cart(r, mag, ang);
    }
}
fn all8<T: SReal>(r: &mut Rec, part: usize, of: usize) {
    // every angle with some magnitudes, or a residue class of all pairs
    r.hist(T::TY, "");
    let mut k = 0;
    let mut m = T::min_v();
    loop {
        let mut a = T::min_v();
        loop {
            if k % of == part { cart(r, m, a); }
            k += 1;
            if r.len() > 255 { r.hist(T::TY, ""); }
            if a == T::max_v() { break; }
            a = a.step(1);
        }
        if m == T::max_v() { break; }
        m = m.step(1);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(200, 4000);
    signed_fixed!(run, r, n);
    floats!(run, r, 16 * n);
    let of = if r.thorough { 1 } else { 61 };
    let part = r.seed as usize % of;
    use fixed::{types::extra::*, FixedI8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r, part, of); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
