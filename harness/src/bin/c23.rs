#![allow(unused_imports)]
// comparison and default values of the complex types
use core::cmp::Ordering;
use mixed_num::*;
use mnharness::*;

fn near<T: Num>(g: &mut Rng, x: T) -> T {
    match g.below(5) { 0 | 1 => x, 2 => x.step(1), 3 => x.step(-1), _ => T::gen(g) }
}
fn ord(o: Option<Ordering>) -> i64 { match o { None => 2, Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1 } }
fn cmp<C: PartialEq + PartialOrd>(x: &C, y: &C) -> Vec<Enc> {
    [(x == y) as i64, (x != y) as i64, ord(x.partial_cmp(y)), (x < y) as i64, (x <= y) as i64, (x > y) as i64, (x >= y) as i64].iter().map(|v| enc_small(*v)).collect()
}
// the second of two adjacent complex numbers, read as the third and fourth of the scalars stored there
fn flat<T: Copy, C>(c: &[C; 2]) -> (T, T) {
    assert!(core::mem::size_of::<C>() == 2 * core::mem::size_of::<T>() && core::mem::align_of::<C>() == core::mem::align_of::<T>());
    let v = unsafe { core::slice::from_raw_parts(c.as_ptr() as *const T, 4) };
    (v[2], v[3])
}
fn run<T: Num + Default>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(230);
    r.hist(T::TY, "");
    let pairs = core_pairs::<T>(&mut g, 1, 200);
    for i in 0..n + pairs.len() {
        if i % 256 == 255 { r.hist(T::TY, ""); }
        let (a, b) = if i < n { (T::gen(&mut g), T::gen(&mut g)) } else { (pairs[i - n].0.re, pairs[i - n].0.im) };
        let (x, y) = if i >= n { (pairs[i - n].1.re, pairs[i - n].1.im) } else if g.below(4) == 0 { (b, a) } else { (near(&mut g, a), near(&mut g, b)) };
        let e = [a.enc(), b.enc(), x.enc(), y.enc()];
        r.begin("cmp", &e);
        let o = r.guard(|| cmp(&Cartesian::new(a, b), &Cartesian::new(x, y))).unwrap_or(vec![PANIC.into()]);
        r.end(&o);
        r.begin("cmp", &e);
        let o = r.guard(|| cmp(&Polar::new(a, b), &Polar::new(x, y))).unwrap_or(vec![PANIC.into()]);
        r.end(&o);
        r.beginx("ctor", "\"f\":\"new\",", &[a.enc(), b.enc()]);
        let mut o = vec![];
        r.form(&mut o, || { let c = Cartesian::new(a, b).clone(); (c.re, c.im) });
        r.form(&mut o, || { let c = Polar::new(a, b).clone(); (c.mag, c.ang) });
        r.form(&mut o, || { let c = Cartesian::new(a, b); let d = c; (d.re, d.im) });
        r.form(&mut o, || { let c = Polar::new(a, b); let d = c; (d.mag, d.ang) });
        r.form(&mut o, || flat::<T, _>(&[Cartesian::new(b, a), Cartesian::new(a, b)]));
        r.form(&mut o, || flat::<T, _>(&[Polar::new(b, a), Polar::new(a, b)]));
        r.end(&o);
    }
    r.beginx("ctor", "\"f\":\"zero\",", &[]);
    let mut o = vec![];
    r.form(&mut o, || { let c = Cartesian::<T>::default(); (c.re, c.im) });
    r.form(&mut o, || { let c = Polar::<T>::default(); (c.mag, c.ang) });
    r.end(&o);
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(60, 1500);
    signed_fixed!(run, r, n);
    unsigned_fixed!(run, r, n);
    let n = r.q(400, 6000);
    signed_ints!(run, r, n);
    unsigned_ints!(run, r, n);
    let n = r.q(4000, 60000);
    floats!(run, r, n);
    rec.finish();
}
