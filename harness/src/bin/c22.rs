#![allow(unused_imports)]
// every operation on any bits: it returns, it returns the same again, and floats never panic
use mixed_num::*;
use mnharness::*;

type Op<T> = (&'static str, usize, fn(&[T], i64) -> Vec<T>);
fn c<T: Copy>(a: &[T]) -> Cartesian<T> { Cartesian::new(a[0], a[1]) }
fn d<T: Copy>(a: &[T]) -> Cartesian<T> { Cartesian::new(a[2], a[3]) }
fn p<T: Copy>(a: &[T]) -> Polar<T> { Polar::new(a[0], a[1]) }
fn q<T: Copy>(a: &[T]) -> Polar<T> { Polar::new(a[2], a[3]) }
fn vc<T: Copy>(z: Cartesian<T>) -> Vec<T> { vec![z.re, z.im] }
fn vp<T: Copy>(z: Polar<T>) -> Vec<T> { vec![z.mag, z.ang] }
/// a power: small for the loops, any for floats
fn ops_int<T: SNum>() -> Vec<Op<T>> {
    vec![
        ("c+c", 4, |a, _| vc(c(a) + d(a))), ("c-c", 4, |a, _| vc(c(a) - d(a))), ("c*c", 4, |a, _| vc(c(a) * d(a))), ("c/c", 4, |a, _| vc(c(a) / d(a))),
        ("c+=c", 4, |a, _| { let mut z = c(a); z += d(a); vc(z) }), ("c-=c", 4, |a, _| { let mut z = c(a); z -= d(a); vc(z) }),
        ("c/=c", 4, |a, _| { let mut z = c(a); z /= d(a); vc(z) }),
        ("c+i", 3, |a, n| vc(c(a) + n as i32)), ("c-i", 3, |a, n| vc(c(a) - n as i32)), ("c*i", 3, |a, n| vc(c(a) * (n as i32))), ("c/i", 3, |a, n| vc(c(a) / (n as i32))),
        ("c+f", 2, |a, n| vc(c(a) + n as f64 * 0.37)), ("c*f", 2, |a, n| vc(c(a) * (n as f64 * 0.37))), ("c/f", 2, |a, n| vc(c(a) / (n as f64 * 0.37))),
        ("c/=f", 2, |a, n| { let mut z = c(a); z /= n as f64 * 0.37; vc(z) }),
        ("conj", 2, |a, _| { let z: Cartesian<T> = c(a).conj(); vc(z) }),
        ("add", 4, |a, _| vc(complex::add(c(a), d(a)))), ("sub", 4, |a, _| vc(complex::sub(c(a), d(a)))),
        ("mul_cartesian", 4, |a, _| vc(complex::mul_cartesian(c(a), d(a)))), ("mul_polar", 4, |a, _| vp(complex::mul_polar(p(a), q(a)))),
        ("div_scalar", 3, |a, _| vc(complex::div_scalar_cartesian(c(a), a[2]))), ("div_cartesian", 4, |a, _| vc(complex::div_cartesian(c(a), d(a)))),
        ("p*p", 4, |a, _| vp(p(a) * q(a))), ("p*t", 3, |a, _| vp(p(a) * a[2])), ("p/t", 3, |a, _| vp(p(a) / a[2])),
        ("powi", 1, |a, n| vec![trigonometry::powi(a[0], n.unsigned_abs() as usize)]), ("mixed_powi", 1, |a, n| vec![a[0].mixed_powi(n as i32)]),
        ("abs", 1, |a, _| vec![a[0].mixed_abs()]), ("sign", 1, |a, _| vec![a[0].mixed_sign(), trigonometry::sign(a[0])]),
        ("niirf", 1, |a, n| vec![trigonometry::sqrt::niirf(a[0], (n.unsigned_abs() % 50) as usize)]),
        ("limits", 0, |_, _| vec![T::mixed_max_value(), T::mixed_min_value(), T::mixed_zero(), T::mixed_one()]),
        ("fromto", 1, |a, _| { let x: f64 = a[0].mixed_to_num(); vec![T::mixed_from_num(x)] }),
        ("fromto", 1, |a, _| { let x: i64 = a[0].mixed_to_num(); vec![T::mixed_from_num(x)] }),
        ("fromto", 1, |a, _| { let x: u8 = a[0].mixed_to_num(); vec![T::mixed_from_num(x)] }),
    ]
}
fn ops_real<T: SReal>() -> Vec<Op<T>> {
    let mut v = ops_int::<T>();
    let w: Vec<Op<T>> = vec![
        ("conj", 2, |a, _| { let z: Polar<T> = p(a).conj(); vp(z) }),
        ("to_polar", 2, |a, _| vp(c(a).to_polar())), ("to_polar", 2, |a, _| vp(complex::to_polar(c(a)))), ("mag", 2, |a, _| vec![c(a).mag(), c(a).abs(), c(a).arg(), c(a).ang()]),
        ("cabs", 2, |a, _| { let mut v = vc(c(a).mixed_abs()); v.push(complex::abs(c(a))); v }),
        ("to_cartesian", 2, |a, _| vc(p(a).to_cartesian())), ("to_cartesian", 2, |a, _| vc(complex::to_cartesian(p(a)))),
        ("from_polar", 2, |a, _| vc(Cartesian::new_from_polar(a[0], a[1]))), ("from_cartesian", 2, |a, _| vp(Polar::new_from_cartesian(a[0], a[1]))),
        ("c*p", 4, |a, _| vc(c(a) * q(a))), ("c*=p", 4, |a, _| { let mut z = c(a); z *= q(a); vc(z) }), ("p*c", 4, |a, _| vp(p(a) * d(a))),
        ("wrap", 1, |a, _| vec![a[0].mixed_wrap_phase(), trigonometry::wrap_phase(a[0])]),
        ("sqrt", 1, |a, _| vec![a[0].mixed_sqrt(), a[0].mixed_niirf()]),
        ("atan", 1, |a, _| vec![a[0].mixed_atan()]), ("atan2", 2, |a, _| vec![a[0].mixed_atan2(a[1])]), ("atan2poly", 2, |a, _| vec![a[0].mixed_atan2_poly(a[1])]),
        ("tatan", 1, |a, _| vec![trigonometry::atan::atan(a[0])]), ("tatan2", 2, |a, _| vec![trigonometry::atan::atan2(a[0], a[1])]),
        ("tsin", 1, |a, _| vec![trigonometry::sin(a[0])]), ("tcos", 1, |a, _| vec![trigonometry::cos(a[0])]),
        ("sin", 1, |a, _| vec![a[0].mixed_sin()]), ("cos", 1, |a, _| vec![a[0].mixed_cos()]), ("sincos", 1, |a, _| { let (s, k) = a[0].mixed_sincos(); vec![s, k] }),
        ("asin", 1, |a, _| vec![a[0].mixed_asin()]), ("acos", 1, |a, _| vec![a[0].mixed_acos()]),
        ("exp", 1, |a, _| vec![a[0].mixed_exp()]), ("cexp", 2, |a, _| vc(c(a).mixed_exp())),
        ("pi", 0, |_, _| vec![T::mixed_pi(), T::mixed_tau()]),
        ("print", 2, |a, _| { let l = format!("{}{}", c(a), p(a)).len(); vec![T::near((l % 7) as f64)] }),
    ];
    v.extend(w);
    v
}
trait Flt: SReal + MixedTan + MixedExp2 + MixedExp10 + MixedPow + Mixedlog + Mixedlog2 + Mixedlog10 + MixedCbrt + MixedSinh + MixedCosh + MixedTanh + DbMag + DbPow + MixedCeil + MixedFloor {}
impl<T: SReal + MixedTan + MixedExp2 + MixedExp10 + MixedPow + Mixedlog + Mixedlog2 + Mixedlog10 + MixedCbrt + MixedSinh + MixedCosh + MixedTanh + DbMag + DbPow + MixedCeil + MixedFloor> Flt for T {}
fn ops_flt<T: Flt>() -> Vec<Op<T>> {
    let mut v = ops_real::<T>();
    let w: Vec<Op<T>> = vec![
        ("tan", 1, |a, _| vec![a[0].mixed_tan()]), ("tanh", 1, |a, _| vec![a[0].mixed_tanh(), a[0].mixed_atanh()]),
        ("sinh", 1, |a, _| vec![a[0].mixed_sinh(), a[0].mixed_asinh()]), ("cosh", 1, |a, _| vec![a[0].mixed_cosh(), a[0].mixed_acosh()]),
        ("exp2", 1, |a, _| vec![a[0].mixed_exp2(), a[0].mixed_exp10()]), ("pow", 2, |a, _| vec![a[0].mixed_pow(a[1])]),
        ("log", 1, |a, _| vec![a[0].mixed_log(), a[0].mixed_log2(), a[0].mixed_log10()]), ("cbrt", 1, |a, _| vec![a[0].mixed_cbrt()]),
        ("db", 1, |a, _| vec![a[0].mixed_mag2db(), a[0].mixed_db2mag(), a[0].mixed_pow2db(), a[0].mixed_db2pow()]),
        ("round", 1, |a, _| vec![a[0].mixed_ceil(), a[0].mixed_floor()]),
        ("powi_any", 1, |a, n| vec![a[0].mixed_powi([i32::MIN, i32::MAX, i32::MIN + 1, 1 << 30][(n & 3) as usize])]),
    ];
    v.extend(w);
    v
}
fn call<T: Num>(r: &mut Rec, op: &Op<T>, a: &[T], n: i64) -> Vec<Enc> {
    let f = op.2;
    match r.guard(|| f(a, n)) { Some(v) => v.iter().map(|x| x.enc()).collect(), None => vec![PANIC.into()] }
}
fn values<T: Num>(r: &mut Rec, op: &Op<T>, a: &[T], n: i64) -> Option<Vec<T>> { let f = op.2; r.guard(|| f(a, n)) }
fn hist<T: Num>(r: &mut Rec, g: &mut Rng, ops: &[Op<T>], len: usize, first: usize) {
    r.hist(T::TY, "");
    let mut pool: Vec<T> = vec![T::gen(g), T::gen(g), T::bits(g), T::near(1.0)];
    let mut done: Vec<(usize, Vec<T>, i64, Vec<Enc>)> = vec![];
    for i in 0..len {
        let k = if i == 0 { first } else { g.below(ops.len() as u64) as usize };
        let op = &ops[k];
        let a: Vec<T> = (0..op.1).map(|_| match g.below(6) { 0 | 1 => g.pick(&pool), 2 => T::bits(g), 3 => { let s = T::specials(); g.pick(&s) }, _ => T::gen(g) }).collect();
        let n = match g.below(6) { 0 => 0, 1 => g.below(5) as i64 - 2, 2 => g.below(300) as i64 - 150, 3 => g.below(20001) as i64 - 10000, _ => g.below(41) as i64 - 20 };
        let e: Vec<Enc> = a.iter().map(|x| x.enc()).collect();
        r.beginx("any", &format!("\"f\":\"{}\",\"n\":{},", op.0, n), &e);
        let o = call(r, op, &a, n);
        let again = call(r, op, &a, n);
        r.endp(&o, &again);
        if let Some(v) = values(r, op, &a, n) { for x in v { if pool.len() < 12 { pool.push(x) } else { let j = g.below(12) as usize; pool[j] = x } } }
        done.push((k, a, n, o));
    }
    // the same calls again, in the opposite order
    for (k, a, n, o) in done.into_iter().rev() {
        let op = &ops[k];
        let e: Vec<Enc> = a.iter().map(|x| x.enc()).collect();
        r.beginx("any", &format!("\"f\":\"{}\",\"n\":{},", op.0, n), &e);
        let again = call(r, op, &a, n);
        r.endp(&o, &again);
    }
}
fn run<T: Num>(r: &mut Rec, ops: &[Op<T>], n: usize, len: usize) {
    let mut g = r.rng::<T>(220);
    for i in 0..n { hist(r, &mut g, ops, len, i % ops.len()); }
}
fn fix<T: SReal>(r: &mut Rec, n: usize) { run::<T>(r, &ops_real::<T>(), n, 24); }
fn int<T: SNum>(r: &mut Rec, n: usize) { run::<T>(r, &ops_int::<T>(), n, 24); }
fn flt<T: Flt>(r: &mut Rec, n: usize) { run::<T>(r, &ops_flt::<T>(), n, 24); }
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(20, 300);
    signed_fixed!(fix, r, n);
    let n = r.q(60, 1000);
    signed_ints!(int, r, n);
    let n = r.q(1500, 20000);
    floats!(flt, r, n);
    rec.finish();
}
