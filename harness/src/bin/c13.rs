#![allow(unused_imports)]
// exponentials, logarithms, powers, roots, hyperbolic functions
use mixed_num::*;
use mnharness::*;

macro_rules! f1 { ($r:expr, $name:expr, $x:expr, $m:ident) => {{
    $r.beginx("fn1", &format!("\"f\":\"{}\",", $name), &[$x.enc()]);
    let o = $r.one(|| $x.$m());
    $r.end(&[o]);
}} }
fn fix<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(130);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let top = (T::TY.ib().min(60)) as f64 * std::f64::consts::LN_2;
        let x: T = match g.below(8) {
            0 => { let n = g.below(5) as i64 - 2; T::near(top).step(n) }
            1 => { let n = g.below(5) as i64 - 2; T::near((g.unit() * top).floor()).step(n) }
            2 => T::lim(&mut g, 0),
            3 => { let x = T::gen(&mut g); if x.approx().abs() < 400.0 { x } else { T::near(g.unit() * 400.0) } }
            4 => T::near(g.unit() * top * 2.0),
            _ => T::near(g.unit() * top),
        };
        f1!(r, "exp", x, mixed_exp);
    }
}
fn all8<T: SReal>(r: &mut Rec) {
    r.hist(T::TY, "");
    let mut x = T::min_v();
    loop {
        f1!(r, "exp", x, mixed_exp);
        if x == T::max_v() { break; }
        x = x.step(1);
    }
}
trait Flt: SReal + MixedExp2 + MixedExp10 + MixedPow + Mixedlog + Mixedlog2 + Mixedlog10 + MixedCbrt + MixedSinh + MixedCosh + MixedTanh {}
impl<T: SReal + MixedExp2 + MixedExp10 + MixedPow + Mixedlog + Mixedlog2 + Mixedlog10 + MixedCbrt + MixedSinh + MixedCosh + MixedTanh> Flt for T {}
fn arg<T: Num>(g: &mut Rng, top: f64) -> T {
    match g.below(7) {
        0 => T::gen(g),
        1 => { let n = g.below(7) as i64 - 3; T::near(if g.bool() { top } else { -top }).step(n) }
        2 => T::near(g.unit() * top * 1.1),
        3 => T::lim(g, 0),
        4 => T::near((g.unit() * top).floor()),
        5 => T::near(g.unit()),
        _ => T::near(g.unit() * 10.0),
    }
}
fn near1<T: Num>(g: &mut Rng) -> T {
    match g.below(3) {
        0 => { let n = g.below(41) as i64 - 20; T::near(if g.bool() { 1.0 } else { -1.0 }).step(n) }
        1 => T::near(1.0 + g.unit() / 16.0),
        _ => T::near(g.unit()),
    }
}
fn pos<T: Num>(g: &mut Rng) -> T {
    match g.below(6) {
        0 => T::gen(g),
        1 => near1(g),
        2 => T::bits(g),
        3 => T::near(10f64.powi(g.below(60) as i32 - 30)),
        4 => { let n = g.below(5) as i64 - 2; T::near(2f64.powi(g.below(200) as i32 - 100)).step(n) }
        _ => T::near(g.unit().abs() * 100.0),
    }
}
fn sweeps<T: Flt>(r: &mut Rec) {
    // whole arguments over the whole range, then every special value
    let d = if T::TY.w == 32 { (155, 110, 48) } else { (1080, 750, 330) };
    r.hist(T::TY, "");
    for k in -d.0..=d.0 {
        if k % 64 == 0 { r.hist(T::TY, ""); }
        let x = T::near(k as f64);
        f1!(r, "exp2", x, mixed_exp2);
        if k % 3 == 0 { f1!(r, "exp2", T::near(k as f64 + 0.5), mixed_exp2); }
        let p = T::near(2f64.powi(k));
        f1!(r, "log2", p, mixed_log2);
        f1!(r, "cbrt", p, mixed_cbrt);
        if k.abs() <= d.1 {
            f1!(r, "exp", x, mixed_exp);
            f1!(r, "sinh", x, mixed_sinh);
            f1!(r, "cosh", x, mixed_cosh);
            f1!(r, "log", p, mixed_log);
        }
        if k.abs() <= d.2 {
            f1!(r, "exp10", x, mixed_exp10);
            let q = T::near(10f64.powi(k));
            f1!(r, "log10", q, mixed_log10);
            f1!(r, "log", q, mixed_log);
        }
        for b in [2.0, 10.0, -2.0] {
            let b = T::near(b);
            if b.approx() == 10.0 && k.abs() > d.2 { continue; }
            r.begin("pow", &[b.enc(), x.enc()]);
            let o = r.one(|| b.mixed_pow(x));
            r.end(&[o]);
        }
    }
    for (i, x) in all_specials::<T>().into_iter().enumerate() {
        if i % 16 == 0 { r.hist(T::TY, ""); }
        f1!(r, "exp", x, mixed_exp); f1!(r, "exp2", x, mixed_exp2); f1!(r, "exp10", x, mixed_exp10);
        f1!(r, "log", x, mixed_log); f1!(r, "log2", x, mixed_log2); f1!(r, "log10", x, mixed_log10);
        f1!(r, "cbrt", x, mixed_cbrt);
        f1!(r, "sinh", x, mixed_sinh); f1!(r, "cosh", x, mixed_cosh); f1!(r, "tanh", x, mixed_tanh);
        f1!(r, "asinh", x, mixed_asinh); f1!(r, "acosh", x, mixed_acosh); f1!(r, "atanh", x, mixed_atanh);
    }
    for c in cores::<T>() {
        r.begin("pow", &[c.re.enc(), c.im.enc()]);
        let o = r.one(|| c.re.mixed_pow(c.im));
        r.end(&[o]);
    }
}
fn flt<T: Flt>(r: &mut Rec, n: usize) {
    sweeps::<T>(r);
    let mut g = r.rng::<T>(131);
    let d = if T::TY.w == 32 { [88.72, 128.0, 38.53, 104.0, 149.0, 45.2] } else { [709.78, 1024.0, 308.25, 745.13, 1075.0, 323.6] };
    for i in 0..n {
        if i % 16 == 0 { r.hist(T::TY, ""); }
        let j = if g.bool() { 0 } else { 3 };
        let x: T = arg(&mut g, d[j]); f1!(r, "exp", x, mixed_exp);
        let x: T = arg(&mut g, d[j + 1]); f1!(r, "exp2", x, mixed_exp2);
        let x: T = arg(&mut g, d[j + 2]); f1!(r, "exp10", x, mixed_exp10);
        let x: T = pos(&mut g); f1!(r, "log", x, mixed_log);
        let x: T = pos(&mut g); f1!(r, "log2", x, mixed_log2);
        let x: T = pos(&mut g); f1!(r, "log10", x, mixed_log10);
        let x: T = if g.bool() { T::bits(&mut g) } else { T::gen(&mut g) }; f1!(r, "cbrt", x, mixed_cbrt);
        let x: T = arg(&mut g, d[0]); f1!(r, "sinh", x, mixed_sinh);
        let x: T = arg(&mut g, d[0]); f1!(r, "cosh", x, mixed_cosh);
        let x: T = arg(&mut g, if T::TY.w == 32 { 9.0 } else { 19.0 }); f1!(r, "tanh", x, mixed_tanh);
        let x: T = if g.bool() { T::bits(&mut g) } else { arg(&mut g, 100.0) }; f1!(r, "asinh", x, mixed_asinh);
        let x: T = match g.below(4) { 0 => T::bits(&mut g), 1 => near1(&mut g), 2 => T::lim(&mut g, 30), _ => arg(&mut g, 5000.0) }; f1!(r, "acosh", x, mixed_acosh);
        let x: T = if g.below(4) == 0 { T::gen(&mut g) } else { near1(&mut g) }; f1!(r, "atanh", x, mixed_atanh);
        // powers
        let (x, y): (T, T) = match g.below(8) {
            0 => (T::gen(&mut g), T::gen(&mut g)),
            1 => (T::bits(&mut g), T::lim(&mut g, 3)),
            2 => (near1(&mut g), T::lim(&mut g, 40)),
            3 => (T::near(-(g.below(20) as f64) / 2.0), T::near(g.below(41) as f64 - 20.0)),
            4 => { let s = T::specials(); let t = T::specials(); (g.pick(&s), g.pick(&t)) }
            5 => { let a = pos::<T>(&mut g); let l = a.approx().abs().log2(); (a, T::near(g.unit() * if l == 0.0 { 1.0 } else { d[4] / l })) }
            6 => { let s = T::specials(); (g.pick(&s), T::near(g.below(9) as f64 - 4.0)) }
            _ => (T::near(g.below(40) as f64), T::near(g.unit() * 10.0)),
        };
        r.begin("pow", &[x.enc(), y.enc()]);
        let o = r.one(|| x.mixed_pow(y));
        r.end(&[o]);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(300, 5000);
    signed_fixed!(fix, r, n);
    let n = r.q(700, 20000);
    flt::<f32>(r, n);
    flt::<f64>(r, n);
    use fixed::{types::extra::*, FixedI8};
    macro_rules! all { ($($u:ident)*) => { $( all8::<FixedI8<$u>>(r); )* } }
    all!(U0 U1 U2 U3 U4 U5);
    rec.finish();
}
