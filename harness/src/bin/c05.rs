#![allow(unused_imports)]
// cartesian to polar: every entry point
use mixed_num::*;
use mnharness::*;

fn pol<T: SReal>(r: &mut Rec, re: T, im: T) {
    let x = Cartesian::new(re, im);
    r.begin("pol", &[re.enc(), im.enc()]);
    let mut o = vec![];
    macro_rules! f { ($e:expr) => { r.form(&mut o, || $e) } }
    f!({ let p = x.to_polar(); (p.mag, p.ang) });
    f!({ let p = complex::to_polar(x); (p.mag, p.ang) });
    f!({ let p: Polar<T> = Polar::new_from_cartesian(re, im); (p.mag, p.ang) });
    f!((x.mag(), x.arg()));
    f!((Mag::abs(&x), x.ang()));
    f!((complex::abs(x), x.arg()));
    let mut p = vec![];
    r.two(&mut p, || { let m = x.mixed_abs(); (m.re, m.im) });
    r.two(&mut p, || { let m = x.to_cartesian(); (m.re, m.im) });
    r.endp(&o, &p);
}
fn run<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(50);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let (im, re) = pair::<T>(&mut g);
        pol(r, re, im);
    }
    r.hist(T::TY, "");
    for c in cores::<T>() { pol(r, c.re, c.im); }
}
fn grid<T: SReal>(r: &mut Rec, part: u64, of: u64) {
    // every pair of representable values of an 8-bit type, or a residue class of them
    for a in 0..256u64 {
        r.hist(T::TY, "");
        let re = T::min_v().step(a as i64 - if a > 100 { 100 } else { 0 }).step(if a > 100 { 100.min(a as i64 - 100) } else { 0 });
        let re = if a > 200 { T::max_v().step(a as i64 - 255) } else { re };
        for b in 0..256u64 {
            if (a * 256 + b) % of != part { continue; }
            let im = if b > 200 { T::max_v().step(b as i64 - 255) } else if b > 100 { T::min_v().step(100).step(b as i64 - 100) } else { T::min_v().step(b as i64) };
            pol(r, re, im);
        }
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(250, 4000);
    signed_fixed!(run, r, n);
    floats!(run, r, 16 * n);
    let of = if r.thorough { 1 } else { 61 };
    let part = r.seed % of;
    use fixed::{types::extra::*, FixedI8};
    macro_rules! all { ($($u:ident)*) => { $( grid::<FixedI8<$u>>(r, part, of); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
