#![allow(unused_imports)]
// polar arithmetic
use mixed_num::*;
use mnharness::*;

fn pair_of<T: Num>(g: &mut Rng) -> (T, T) {
    match g.below(8) { 0 => (T::gen(g), T::gen(g)), _ => { let c = cplx::<T>(g); (c.re, c.im) } }
}
fn polar_of<T: Num>(g: &mut Rng) -> (T, T) {
    match g.below(8) { 0 => (T::gen(g), T::gen(g)), 1 => (T::near(0.0), T::gen_mod(g)), 2 => (T::gen_mod(g), T::near(0.0)), 3 => (T::near(g.below(5) as f64 - 2.0), T::gen_mod(g)), _ => (T::gen_mod(g), angle::<T>(g, 1.0)) }
}
/// what every signed element type has, integers included
fn exact<T: SNum>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(70);
    let k = core_pairs::<T>(&mut g, 2, 24);
    for i in 0..n + k.len() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let (m1, a1) = if i >= n { (k[i - n].0.re, k[i - n].0.im) } else { polar_of::<T>(&mut g) };
        let (m2, a2) = if i >= n { (k[i - n].1.re, k[i - n].1.im) } else if g.below(4) == 0 { let c = mate(&mut g, Cartesian::new(m1, a1)); (c.re, c.im) } else { polar_of::<T>(&mut g) };
        let (x, y) = (Polar::new(m1, a1), Polar::new(m2, a2));
        r.begin("pmul", &[m1.enc(), a1.enc(), m2.enc(), a2.enc()]);
        let mut o = vec![];
        r.form(&mut o, || { let z = x * y; (z.mag, z.ang) });
        r.form(&mut o, || { let z = complex::mul_polar(x, y); (z.mag, z.ang) });
        r.end(&o);
        r.begin("pget", &[m1.enc(), a1.enc()]);
        let mut o = vec![];
        r.form(&mut o, || (x.mag, x.ang));
        r.form(&mut o, || (x.mag(), x.arg()));
        r.form(&mut o, || (Mag::abs(&x), x.ang()));
        r.form(&mut o, || { let p = x.to_polar(); (p.mag, p.ang) });
        let mut p = vec![];
        r.two(&mut p, || { let z = x.mixed_abs(); (z.mag, z.ang) });
        r.endp(&o, &p);
        for op in ["mul", "div"] {
            let s = match i % 10 { 0 | 5 => T::near(0.0), 1 => T::near(g.pick(&[1.0, -1.0, 2.0])).jit(&mut g), 2 => m1, 3 => T::gen(&mut g), _ => T::gen_mod(&mut g) };
            r.beginx("pscal", &format!("\"k\":\"{}\",", op), &[m1.enc(), a1.enc(), s.enc()]);
            let mut o = vec![];
            if op == "mul" { r.form(&mut o, || { let z = x * s; (z.mag, z.ang) }); } else { r.form(&mut o, || { let z = x / s; (z.mag, z.ang) }); }
            r.end(&o);
        }
    }
}
fn mixed<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(71);
    let k = core_pairs::<T>(&mut g, 3, 16);
    for i in 0..n + k.len() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let (m, a) = if i >= n { (k[i - n].0.re, k[i - n].0.im) } else { polar_of::<T>(&mut g) };
        let (re, im) = if i >= n { (k[i - n].1.re, k[i - n].1.im) } else { pair_of::<T>(&mut g) };
        let x = Polar::new(m, a);
        let c = Cartesian::new(re, im);
        r.begin("cmix", &[re.enc(), im.enc(), m.enc(), a.enc()]);
        let mut o = vec![];
        macro_rules! f { ($e:expr) => { r.form(&mut o, || { let z: Cartesian<T> = $e; (z.re, z.im) }) } }
        let mut y = x;
        f!(c * x);
        f!(c * &x);
        f!(c * &mut y);
        f!({ let mut z = c; z *= x; z });
        f!({ let mut z = c; z *= &x; z });
        f!({ let mut z = c; z *= &mut y; z });
        let mut p = vec![];
        r.two(&mut p, || { let z = complex::to_cartesian(x); (z.re, z.im) });
        p.extend([x.mag.enc(), x.ang.enc(), y.mag.enc(), y.ang.enc()]);
        r.endp(&o, &p);

        r.begin("pconj", &[m.enc(), a.enc()]);
        let mut o = vec![];
        r.form(&mut o, || { let z: Polar<T> = x.conj(); (z.mag, z.ang) });
        let mut p = vec![];
        r.two(&mut p, || { let z: Cartesian<T> = x.conj(); (z.re, z.im) });
        r.two(&mut p, || { let z = complex::to_cartesian(Polar::new(m, -a)); (z.re, z.im) });
        r.endp(&o, &p);
    }
}
/// polar * cartesian where the operator exists for the concrete types, None where it can not be called at all
struct Probe<L, R>(L, R);
trait Callable<O> { fn call(&self) -> Option<O>; }
impl<T: Copy> Callable<Polar<T>> for Probe<Polar<T>, Cartesian<T>> where Polar<T>: core::ops::Mul<Cartesian<T>, Output = Polar<T>> {
    fn call(&self) -> Option<Polar<T>> { Some(self.0 * self.1) }
}
trait Missing<O> { fn call(&self) -> Option<O>; }
impl<T: Copy> Missing<Polar<T>> for &Probe<Polar<T>, Cartesian<T>> {
    fn call(&self) -> Option<Polar<T>> { None }
}
fn pmix<T: SReal>(r: &mut Rec, n: usize, f: fn(Polar<T>, Cartesian<T>) -> Option<Polar<T>>) {
    let mut g = r.rng::<T>(72);
    let k = core_pairs::<T>(&mut g, 3, 16);
    for i in 0..n + k.len() {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let (m, a) = if i >= n { (k[i - n].0.re, k[i - n].0.im) } else { polar_of::<T>(&mut g) };
        let (re, im) = if i >= n { (k[i - n].1.re, k[i - n].1.im) } else { pair_of::<T>(&mut g) };
        let x = Polar::new(m, a);
        let c = Cartesian::new(re, im);
        r.begin("pmix", &[m.enc(), a.enc(), re.enc(), im.enc()]);
        let mut o = vec![];
        r.form(&mut o, || { let z = f(x, c).expect("polar * cartesian can be called"); (z.mag, z.ang) });
        let mut p = vec![];
        r.two(&mut p, || { let z = complex::to_polar(c); (z.mag, z.ang) });
        r.endp(&o, &p);
    }
}
macro_rules! go { ($t:ty, $r:tt, $n:tt) => { pmix::<$t>($r, $n, |a, b| (&Probe(a, b)).call()); } }
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(150, 3000);
    signed_fixed!(exact, r, n);
    signed_ints!(exact, r, 4 * n);
    floats!(exact, r, 10 * n);
    let n = r.q(100, 2000);
    signed_fixed!(mixed, r, n);
    floats!(mixed, r, 20 * n);
    signed_fixed_m!(go, r, n);
    let n = 20 * n;
    floats_m!(go, r, n);
    rec.finish();
}
