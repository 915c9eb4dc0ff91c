#![allow(unused_imports)]
// conversions between real, cartesian and polar numbers; constructors
use mixed_num::*;
use mnharness::*;

fn ev2<T: Num>(r: &mut Rec, f: &str, s: &str, a: &[Enc], g: impl FnOnce() -> (T, T)) {
    r.beginx("cconv", &format!("\"f\":\"{}\",{}", f, s), a);
    let mut o = vec![];
    r.two(&mut o, g);
    r.end(&o);
}
fn ev1<T: Num>(r: &mut Rec, f: &str, s: &str, a: &[Enc], g: impl FnOnce() -> T) {
    r.beginx("cconv", &format!("\"f\":\"{}\",{}", f, s), a);
    let o = r.one(g);
    r.end(&[o]);
}
/// mostly values the other type can hold
fn val<A: Num, B: Num>(g: &mut Rng) -> A {
    match g.below(9) {
        0 => A::gen(g),
        8 => { let c = A::core(); g.pick(&c) }
        1 => { let n = g.below(5) as i64 - 2; A::near(B::max_v().approx()).step(n) }
        2 => { let n = g.below(5) as i64 - 2; A::near(B::min_v().approx()).step(n) }
        3 => A::near((g.below(61) as f64 - 30.0) / 4.0),
        4 => { let x = B::gen_mod(g).approx(); A::near(x) }
        5 => if g.bool() { A::near(0.0) } else { aimed::<A, B>(g) },
        _ => A::gen_mod(g),
    }
}
// polar numbers over any element type
fn pol<A: Num + MixedNum + MixedNumConversion<B> + MixedZero, B: Num + MixedNum>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<A>(180 + 1000 * B::TY.id());
    let s = format!("\"S\":{},", B::TY.json());
    for _ in 0..n {
        let b: B = val::<B, A>(&mut g);
        ev2::<A>(r, "r2p", &s, &[b.enc()], || { let p = Polar::<A>::mixed_from_num(b); (p.mag, p.ang) });
        let (m, t): (A, A) = (val::<A, B>(&mut g), val::<A, B>(&mut g));
        ev1::<B>(r, "p2r", &s, &[m.enc(), t.enc()], || Polar::<A>::new(m, t).mixed_to_num());
    }
}
// cartesian numbers over signed element types
fn car<A: Num + MixedNum + MixedNumSigned + MixedNumConversion<B>, B: Num + MixedNum>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<A>(181 + 1000 * B::TY.id());
    let s = format!("\"S\":{},", B::TY.json());
    for _ in 0..n {
        let (x, y): (B, B) = (val::<B, A>(&mut g), val::<B, A>(&mut g));
        ev2::<A>(r, "c2c", &s, &[x.enc(), y.enc()], || { let c = Cartesian::<A>::mixed_from_num(Cartesian::new(x, y)); (c.re, c.im) });
        let (x, y): (A, A) = (val::<A, B>(&mut g), val::<A, B>(&mut g));
        ev2::<B>(r, "c2cto", &s, &[x.enc(), y.enc()], || { let c: Cartesian<B> = Cartesian::<A>::new(x, y).mixed_to_num(); (c.re, c.im) });
    }
}
// between a real number and a cartesian one of another type, directly
fn rc<A: Num + MixedNumConversion<Cartesian<B>>, B: Num>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<A>(182 + 1000 * B::TY.id());
    let s = format!("\"S\":{},", B::TY.json());
    for _ in 0..n {
        let (x, y): (B, B) = (val::<B, A>(&mut g), val::<B, A>(&mut g));
        ev1::<A>(r, "c2r", &s, &[x.enc(), y.enc()], || A::mixed_from_num(Cartesian::new(x, y)));
        let a: A = val::<A, B>(&mut g);
        ev2::<B>(r, "r2c", &s, &[a.enc()], || { let c: Cartesian<B> = a.mixed_to_num(); (c.re, c.im) });
    }
}
// between polar and cartesian numbers through the generic conversion: real part and magnitude only
fn pc<A: Num + MixedNum + MixedZero + MixedNumConversion<Cartesian<B>>, B: Num + MixedNum + MixedNumSigned>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<A>(183 + 1000 * B::TY.id());
    let s = format!("\"S\":{},", B::TY.json());
    for _ in 0..n {
        let (x, y): (B, B) = (val::<B, A>(&mut g), val::<B, A>(&mut g));
        ev2::<A>(r, "c2p", &s, &[x.enc(), y.enc()], || { let p = Polar::<A>::mixed_from_num(Cartesian::new(x, y)); (p.mag, p.ang) });
        let (m, t): (A, A) = (val::<A, B>(&mut g), val::<A, B>(&mut g));
        ev2::<B>(r, "p2c", &s, &[m.enc(), t.enc()], || { let c: Cartesian<B> = Polar::<A>::new(m, t).mixed_to_num(); (c.re, c.im) });
    }
}
fn ctor<T: Num + MixedNum + MixedZero + MixedOne>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(184);
    macro_rules! c1 { ($f:expr, $a:expr, $e:expr) => {{
        r.beginx("ctor", concat!("\"f\":\"", $f, "\","), &$a);
        let mut o = vec![];
        r.two(&mut o, || $e);
        r.end(&o);
    }} }
    for _ in 0..n {
        let (x, y) = (T::gen(&mut g), T::gen(&mut g));
        c1!("new", [x.enc(), y.enc()], { let c = Cartesian::new(x, y); (c.re, c.im) });
        c1!("new", [x.enc(), y.enc()], { let c = Polar::new(x, y); (c.mag, c.ang) });
        c1!("real", [x.enc()], { let c = Cartesian::<T>::mixed_to_complex(x); (c.re, c.im) });
        c1!("real", [x.enc()], { let c = Polar::<T>::mixed_to_complex(x); (c.mag, c.ang) });
    }
    c1!("zero", [], { let c = Cartesian::<T>::mixed_zero(); (c.re, c.im) });
    c1!("zero", [], { let c = Polar::<T>::mixed_zero(); (c.mag, c.ang) });
    c1!("one", [], { let c = Cartesian::<T>::mixed_one(); (c.re, c.im) });
    c1!("one", [], { let c = Polar::<T>::mixed_one(); (c.mag, c.ang) });
}
fn ctor_s<T: SNum>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(185);
    for _ in 0..n {
        let (x, y) = (T::gen(&mut g), T::gen(&mut g));
        r.beginx("ctor", "\"f\":\"new\",", &[x.enc(), y.enc()]);
        let mut o = vec![];
        r.two(&mut o, || { let c = Cartesian::<T>::new_from_cartesian(x, y); (c.re, c.im) });
        r.end(&o);
    }
}
fn ctor_t<T: SReal>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(186);
    for _ in 0..n {
        let (x, y) = (T::gen(&mut g), T::gen(&mut g));
        r.beginx("ctor", "\"f\":\"new\",", &[x.enc(), y.enc()]);
        let mut o = vec![];
        r.form(&mut o, || { let c = Polar::<T>::new_from_polar(x, y); (c.mag, c.ang) });
        r.form(&mut o, || { let c = Polar::<T>::new(x, y).to_polar(); (c.mag, c.ang) });
        r.form(&mut o, || { let c = Cartesian::<T>::new(x, y).to_cartesian(); (c.re, c.im) });
        r.end(&o);
    }
}
macro_rules! prims { ($m:ident!($($x:tt)*)) => { $m!(@ $($x)* ; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64) } }
macro_rules! each { (@ $f:ident $t:ty, $r:ident, $n:ident ; $($b:ty)*) => { $( $f::<$t, $b>($r, $n); )* } }
macro_rules! sgn { ($f:ident $t:ty, $r:ident, $n:ident) => { each!(@ $f $t, $r, $n ; i8 i16 i32 i64 i128 isize f32 f64) } }
fn polu<T: Num + MixedNum + AllConv + MixedZero + MixedOne>(r: &mut Rec, n: usize) {
    r.hist(T::TY, "");
    prims!(each!(pol T, r, n));
    let n = 2 * n;
    ctor::<T>(r, n);
}
fn cars<T: SNum>(r: &mut Rec, n: usize) {
    polu::<T>(r, n);
    r.hist(T::TY, "");
    prims!(each!(car T, r, n));
    let n = 2 * n;
    ctor_s::<T>(r, n);
}
macro_rules! full { ($t:ty, $r:ident, $n:ident) => {{
    cars::<$t>($r, $n);
    direct!($t, $r, $n);
    sgn!(pc $t, $r, $n);
    ctor_t::<$t>($r, $n);
}} }
macro_rules! direct { ($t:ty, $r:ident, $n:ident) => {{
    $r.hist(<$t as Num>::TY, "");
    prims!(each!(rc $t, $r, $n));
}} }
macro_rules! udirect { ($t:ty, $r:ident, $n:ident) => {{
    polu::<$t>($r, $n);
    direct!($t, $r, $n);
}} }
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(6, 80);
    signed_fixed_m!(full, r, n);
    unsigned_fixed_m!(udirect, r, n);
    let n = r.q(24, 320);
    signed_ints!(cars, r, n);
    unsigned_ints!(polu, r, n);
    let n = r.q(150, 3000);
    floats_m!(full, r, n);
    rec.finish();
}
