#![allow(unused_imports)]
// real scalars of every primitive type against cartesian and polar numbers
use mixed_num::*;
use mnharness::*;

const OPS: [&str; 4] = ["add", "sub", "mul", "div"];

fn scal<T: SNum + MixedNumConversion<S>, S: Num + MixedNum + MixedOps + MixedZero>(r: &mut Rec, g: &mut Rng, n: usize) {
    let k = extra::<T, S>(g);
    for i in 0..n + k.len() {
        let (x, s) = if i < n { (cplx::<T>(g), scalar::<T, S>(g, i)) } else { k[i - n] };
        for op in ["add", "sub", "mul"] {
            r.beginx("scal", &format!("\"k\":\"{}\",\"S\":{},", op, S::TY.json()), &[x.re.enc(), x.im.enc(), s.enc()]);
            let mut o = vec![];
            macro_rules! f { ($e:expr) => { r.form(&mut o, || { let z: Cartesian<T> = $e; (z.re, z.im) }); } }
            match op {
                "add" => { f!(x + s); f!({ let mut z = x; z += s; z }); }
                "sub" => { f!(x - s); f!({ let mut z = x; z -= s; z }); }
                _ => { f!(x * s); }
            }
            r.end(&o);
        }
    }
}
fn scald<T: SNum + MixedNumConversion<S>, S: Num + MixedNum + MixedOps + MixedZero + MixedNumSigned>(r: &mut Rec, g: &mut Rng, n: usize) {
    let k = extra::<T, S>(g);
    for i in 0..n + k.len() {
        let (x, s) = if i < n { (cplx::<T>(g), scalar::<T, S>(g, i)) } else { k[i - n] };
        r.beginx("scal", &format!("\"k\":\"div\",\"S\":{},", S::TY.json()), &[x.re.enc(), x.im.enc(), s.enc()]);
        let mut o = vec![];
        macro_rules! f { ($e:expr) => { r.form(&mut o, || { let z: Cartesian<T> = $e; (z.re, z.im) }); } }
        f!(x / s);
        f!({ let mut z = x; z /= s; z });
        r.end(&o);
    }
}
/// every core number with every core scalar, for floats; a few of the combinations elsewhere
fn extra<T: Num, S: Num>(g: &mut Rng) -> Vec<(Cartesian<T>, S)> {
    let (c, k) = (cores::<T>(), S::core());
    if T::TY.k == 2 && S::TY.k == 2 {
        c.iter().flat_map(|x| k.iter().map(move |s| (*x, *s))).collect()
    } else {
        (0..if T::TY.k == 1 { 1 } else { 12 }).map(|_| (g.pick(&c), g.pick(&k))).collect()
    }
}
/// scalars that usually convert, zeros, tiny values and values out of range
fn scalar<T: Num, S: Num>(g: &mut Rng, i: usize) -> S {
    match i % 7 {
        0 => S::near(0.0),
        6 => S::near(g.pick(&[1.0, -1.0, 2.0, 0.5])).jit(g),
        1 => S::gen(g),
        2 => S::near(g.unit() * 2f64.powi((T::TY.ib() / 2).clamp(1, 20))),
        3 => S::near((g.below(13) as f64 - 6.0) / g.pick(&[1.0, 1.0, 2.0, 4.0])),
        _ => S::gen_mod(g),
    }
}
fn own<T: SNum>(r: &mut Rec, g: &mut Rng, n: usize) {
    let zero = T::near(0.0);
    let k = extra::<T, T>(g);
    for i in 0..n + k.len() {
        let (x, s) = if i >= n { k[i - n] } else { (cplx::<T>(g), if i % 4 == 0 { zero } else { scalar::<T, T>(g, i) }) };
        let own = format!("\"S\":{},", T::TY.json());
        r.beginx("scal", &format!("\"k\":\"div\",{}", own), &[x.re.enc(), x.im.enc(), s.enc()]);
        let mut o = vec![];
        r.form(&mut o, || { let z = complex::div_scalar_cartesian(x, s); (z.re, z.im) });
        r.end(&o);
        for op in ["mul", "div"] {
            r.beginx("pscal", &format!("\"k\":\"{}\",", op), &[x.re.enc(), x.im.enc(), s.enc()]);
            let p = Polar::new(x.re, x.im);
            let mut o = vec![];
            r.form(&mut o, || { let z = if op == "mul" { p * s } else { p / s }; (z.mag, z.ang) });
            r.end(&o);
        }
    }
}
fn run<T: SNum>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(4);
    let g = &mut g;
    r.hist(T::TY, "");
    macro_rules! all { ($f:ident: $($s:ty)*) => { $( $f::<T, $s>(r, g, n); )* } }
    all!(scal: i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);
    all!(scald: i8 i16 i32 i64 i128 isize f32 f64);
    r.hist(T::TY, "");
    own::<T>(r, g, 4 * n);
    let _ = OPS;
}
// a scalar of a fixed-point type against complex numbers over the same type, every operator
fn run_own<T: SNum + MixedNumConversion<T>>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(44);
    scal::<T, T>(r, &mut g, n);
    scald::<T, T>(r, &mut g, n);
}
// unsigned element types: +, -, * by a scalar
fn run_u<T: Num + MixedNum + MixedOps + AllConv>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(5);
    r.hist(T::TY, "");
    macro_rules! all { ($($s:ty)*) => { $( for i in 0..n {
        let s = scalar::<T, $s>(&mut g, i);
        let x = cplx::<T>(&mut g);
        for op in ["add", "sub", "mul"] {
            r.beginx("scal", &format!("\"k\":\"{}\",\"S\":{},", op, <$s as Num>::TY.json()), &[x.re.enc(), x.im.enc(), s.enc()]);
            let mut o = vec![];
            macro_rules! f { ($e:expr) => { r.form(&mut o, || { let z: Cartesian<T> = $e; (z.re, z.im) }); } }
            match op {
                "add" => { f!(x + s); f!({ let mut z = x; z += s; z }); }
                "sub" => { f!(x - s); f!({ let mut z = x; z -= s; z }); }
                _ => { f!(x * s); }
            }
            r.end(&o);
        }
    } )* } }
    all!(i32 u8 f32 i64);
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(12, 120);
    signed_fixed!(run, r, n);
    let n = r.q(60, 600);
    signed_ints!(run, r, n);
    floats!(run, r, n);
    let n = r.q(600, 6000);
    r.hist(i32::TY, "");
    signed_ints_h(r, n);
    let n = r.q(8, 60);
    unsigned_fixed!(run_u, r, n);
    unsigned_ints!(run_u, r, n);
    rec.finish();
}
fn signed_ints_h(r: &mut Rec, n: usize) {
    macro_rules! all { ($($t:ty)*) => { $( r.hist(<$t as Num>::TY, ""); run_own::<$t>(r, n); )* } }
    all!(i8 i16 i32 i64 i128 isize f32 f64);
}
