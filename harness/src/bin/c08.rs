#![allow(unused_imports)]
// phase wrapping
use mixed_num::*;
use mnharness::*;

fn wrap<T: SReal>(r: &mut Rec, x: T) {
    r.begin("wrap", &[x.enc()]);
    let mut o = vec![];
    r.two(&mut o, || { let y = x.mixed_wrap_phase(); (y, y.mixed_wrap_phase()) });
    r.end(&o);
    r.begin("wrap", &[x.enc()]);
    let mut o = vec![];
    r.two(&mut o, || { let y = trigonometry::wrap_phase(x); (y, trigonometry::wrap_phase(y)) });
    r.end(&o);
}
fn run<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(80);
    let pi = T::mixed_pi();
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let x = match g.below(6) {
            0 => { let k = g.below(9) as i64 - 4; pi.step(k) }
            1 => { let k = g.below(9) as i64 - 4; (-pi).step(k) }
            2 => { let k = g.below(5) as i64 - 2; (T::near(2.0 * pi.approx() * if g.bool() { 1.0 } else { -1.0 })).step(k) }
            3 => T::bits(&mut g),
            4 => T::gen(&mut g),
            _ => angle::<T>(&mut g, 40.0),
        };
        wrap(r, x);
    }
}
fn all8<T: SReal>(r: &mut Rec) {
    r.hist(T::TY, "");
    let mut x = T::min_v();
    loop {
        wrap(r, x);
        if x == T::max_v() { break; }
        x = x.step(1);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(300, 6000);
    signed_fixed!(run, r, n);
    floats!(run, r, 20 * n);
    use fixed::{types::extra::*, FixedI8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
