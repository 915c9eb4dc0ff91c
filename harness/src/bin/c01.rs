#![allow(unused_imports)]
use mixed_num::*;
use mnharness::*;

fn forms<T>(r: &mut Rec, op: &str, x: Cartesian<T>, y: Cartesian<T>)
where T: Num + MixedNum + MixedNumSigned + MixedOps + MixedZero {
    r.begin(op, &[x.re.enc(), x.im.enc(), y.re.enc(), y.im.enc()]);
    let mut o = vec![];
    let mut ym = y;
    let mut nm = num::Complex::new(y.re, y.im);
    let n = nm;
    macro_rules! f { ($e:expr) => { r.form(&mut o, || { let z: Cartesian<T> = $e; (z.re, z.im) }); } }
    match op {
        "add" => { f!(x + y); f!(x + &y); f!(x + &mut ym); f!(x + n); f!(x + &n); f!(x + &mut nm); f!(complex::add(x, y)); }
        "sub" => { f!(x - y); f!(x - &y); f!(x - &mut ym); f!(x - n); f!(x - &n); f!(x - &mut nm); f!(complex::sub(x, y)); }
        _ => { f!(x * y); f!(x * &y); f!(x * &mut ym); f!(complex::mul_cartesian(x, y)); }
    }
    // the operand taken by mutable reference, as the calls left it
    r.endp(&o, &[ym.re.enc(), ym.im.enc(), nm.re.enc(), nm.im.enc()]);
}
fn conj<T>(r: &mut Rec, x: Cartesian<T>)
where T: Num + MixedNum + MixedNumSigned {
    r.begin("conj", &[x.re.enc(), x.im.enc()]);
    let mut o = vec![];
    r.two(&mut o, || { let z: Cartesian<T> = x.conj(); (z.re, z.im) });
    r.end(&o);
}
fn run<T>(r: &mut Rec, n: usize)
where T: Num + MixedNum + MixedNumSigned + MixedOps + MixedZero {
    let mut g = r.rng::<T>(1);
    let mut prev = Cartesian::new(T::near(0.0), T::near(1.0));
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let x = cplx::<T>(&mut g);
        let y = match g.below(8) { 0 | 1 => mate(&mut g, x), 2 => prev, _ => cplx::<T>(&mut g) };
        forms(r, "add", x, y);
        forms(r, "sub", x, y);
        forms(r, "mul", x, y);
        conj(r, x);
        prev = y;
    }
    for (i, (x, y)) in core_pairs::<T>(&mut g, 1, 24).into_iter().enumerate() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        for op in ["add", "sub", "mul"] { forms(r, op, x, y); }
        conj(r, x);
    }
}
// elements without a sign: only the free addition exists
fn run_u<T>(r: &mut Rec, n: usize)
where T: Num + MixedNum + MixedOps {
    let mut g = r.rng::<T>(2);
    for i in 0..n {
        if i % 128 == 0 { r.hist(T::TY, ""); }
        let (x, y) = (cplx::<T>(&mut g), cplx::<T>(&mut g));
        r.begin("add", &[x.re.enc(), x.im.enc(), y.re.enc(), y.im.enc()]);
        let mut o = vec![];
        r.two(&mut o, || { let z = complex::add(x, y); (z.re, z.im) });
        r.end(&o);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(200, 4000);
    signed_fixed!(run, r, n);
    let n = r.q(1000, 20000);
    signed_ints!(run, r, n);
    let n = r.q(3000, 60000);
    floats!(run, r, n);
    let n = r.q(50, 500);
    unsigned_fixed!(run_u, r, n);
    unsigned_ints!(run_u, r, n);
    rec.finish();
}
