#![allow(unused_imports)]
// histories of compound assignments on one accumulator
use mixed_num::*;
use mnharness::*;

struct H<T> { acc: Cartesian<T> }

fn set<T: SNum>(r: &mut Rec, h: &H<T>) {
    r.begin("set", &[h.acc.re.enc(), h.acc.im.enc()]);
    r.end(&[]);
}
// perform `acc op= rhs` on the accumulator and `copy op rhs` on a copy of its value, log both
fn step<T: SNum>(r: &mut Rec, h: &mut H<T>, assign: impl FnOnce(&mut Cartesian<T>), binary: impl FnOnce(Cartesian<T>) -> Cartesian<T>, after: &mut dyn FnMut() -> Vec<Enc>) {
    let before = h.acc;
    let mut o = vec![];
    let mut acc = h.acc;
    let ok = r.guard(|| assign(&mut acc)).is_some();
    let c = if ok { (acc.re.enc(), acc.im.enc()) } else { (PANIC.into(), PANIC.into()) };
    o.push(c.0);
    o.push(c.1);
    r.two(&mut o, || { let z = binary(before); (z.re, z.im) });
    let p = after();
    r.endp(&o, &p);
    if ok {
        h.acc = acc;
    } else {
        set(r, h); // an assignment that panicked leaves the variable unspecified: start from the old value again
    }
}
fn cart<T: SNum>(r: &mut Rec, h: &mut H<T>, op: &str, form: u64, y: Cartesian<T>) {
    r.beginx("asg", &format!("\"k\":\"{}\",\"rk\":\"c\",\"x\":{},", op, form), &[y.re.enc(), y.im.enc()]);
    let mut ym = y;
    let mut y2 = y;
    let n = num::Complex::new(y.re, y.im);
    let mut nm = n;
    let mut n2 = n;
    let pc = &mut ym as *mut Cartesian<T>;
    let pn = &mut nm as *mut num::Complex<T>;
    let mut after = || unsafe { if form < 3 { vec![(*pc).re.enc(), (*pc).im.enc()] } else { vec![(*pn).re.enc(), (*pn).im.enc()] } };
    macro_rules! go { ($o:tt, $oa:tt) => { match form {
        0 => step(r, h, |a| *a $oa ym, |b| b $o y, &mut after),
        1 => step(r, h, |a| *a $oa &ym, |b| b $o &y, &mut after),
        2 => step(r, h, |a| *a $oa &mut ym, |b| b $o &mut y2, &mut after),
        3 => step(r, h, |a| *a $oa nm, |b| b $o n, &mut after),
        4 => step(r, h, |a| *a $oa &nm, |b| b $o &n, &mut after),
        _ => step(r, h, |a| *a $oa &mut nm, |b| b $o &mut n2, &mut after),
    } } }
    match op { "add" => go!(+, +=), "sub" => go!(-, -=), _ => go!(/, /=) }
}
fn polar<T: SReal>(r: &mut Rec, h: &mut H<T>, form: u64, y: Polar<T>) {
    let c: Option<Cartesian<T>> = r.guard(|| y.to_cartesian());
    let (a, b) = match c { Some(c) => (c.re.enc(), c.im.enc()), None => (PANIC.into(), PANIC.into()) };
    r.beginx("asg", &format!("\"k\":\"mul\",\"rk\":\"p\",\"x\":{},", form), &[y.mag.enc(), y.ang.enc(), a, b]);
    let mut ym = y;
    let mut y2 = y;
    let py = &mut ym as *mut Polar<T>;
    let mut after = || unsafe { vec![(*py).mag.enc(), (*py).ang.enc()] };
    match form % 3 {
        0 => step(r, h, |a| *a *= ym, |b| b * y, &mut after),
        1 => step(r, h, |a| *a *= &ym, |b| b * &y, &mut after),
        _ => step(r, h, |a| *a *= &mut ym, |b| b * &mut y2, &mut after),
    }
}
const NS: u64 = 14;
/// value: Some(x) a given value, None random
fn scalar<T: SNum>(r: &mut Rec, g: &mut Rng, h: &mut H<T>, op: &str, kind: u64, value: Option<f64>) {
    macro_rules! val { ($s:ty) => {{
        let s: $s = match value { Some(v) => <$s as Num>::near(v), None => match g.below(4) { 0 => <$s as Num>::gen(g), 1 => <$s as Num>::near(0.0), _ => <$s as Num>::gen_mod(g) } };
        r.beginx("asg", &format!("\"k\":\"{}\",\"rk\":\"s\",\"S\":{},", op, <$s as Num>::TY.json()), &[s.enc()]);
        s
    }} }
    let mut after = || vec![];
    macro_rules! addsub { ($s:ty) => {{
        let s = val!($s);
        if op == "add" { step(r, h, |a| *a += s, |b| b + s, &mut after) } else { step(r, h, |a| *a -= s, |b| b - s, &mut after) }
    }} }
    macro_rules! div { ($s:ty) => {{ let s = val!($s); step(r, h, |a| *a /= s, |b| b / s, &mut after) }} }
    if op == "div" {
        match kind % 8 { 0 => div!(i8), 1 => div!(i16), 2 => div!(i32), 3 => div!(i64), 4 => div!(i128), 5 => div!(isize), 6 => div!(f32), _ => div!(f64) }
    } else {
        match kind % NS {
            0 => addsub!(i8), 1 => addsub!(i16), 2 => addsub!(i32), 3 => addsub!(i64), 4 => addsub!(i128), 5 => addsub!(isize),
            6 => addsub!(u8), 7 => addsub!(u16), 8 => addsub!(u32), 9 => addsub!(u64), 10 => addsub!(u128), 11 => addsub!(usize),
            12 => addsub!(f32), _ => addsub!(f64),
        }
    }
}

type Prog = (i64, i64, Vec<(String, String, i64, i64)>);
fn load(var: &str) -> Vec<Prog> {
    let path = std::env::var(var).expect(var);
    let text = std::fs::read_to_string(path).expect("program file");
    text.lines().map(|l| {
        let toks: Vec<&str> = l.split(|c: char| "<>, \"\\".contains(c)).filter(|s| !s.is_empty()).collect();
        let n = |i: usize| toks[i].parse::<i64>().expect("program");
        let mut v = vec![];
        let mut i = 2;
        while i < toks.len() { v.push((toks[i].to_string(), toks[i + 1].to_string(), n(i + 2), n(i + 3))); i += 4; }
        (n(0), n(1), v)
    }).collect()
}
fn play_int<T: SNum>(r: &mut Rec, g: &mut Rng, p: &Prog) {
    play::<T>(r, g, p, |_, _, _, _| false)
}
fn play_real<T: SReal>(r: &mut Rec, g: &mut Rng, p: &Prog) {
    play::<T>(r, g, p, |r, h, form, mag| { polar(r, h, form, Polar::new(mag, T::near(0.0))); true })
}
fn play<T: SNum>(r: &mut Rec, g: &mut Rng, p: &Prog, pol: impl Fn(&mut Rec, &mut H<T>, u64, T) -> bool) {
    let mut h = H { acc: Cartesian::new(T::near(p.0 as f64), T::near(p.1 as f64)) };
    r.hist(T::TY, "");
    set(r, &h);
    for (op, rk, a, b) in &p.2 {
        let y = Cartesian::new(T::near(*a as f64), T::near(*b as f64));
        match &rk[..] {
            "c" => cart(r, &mut h, op, g.below(3), y),
            "n" => cart(r, &mut h, op, 3 + g.below(3), y),
            "s" => { let k = g.below(NS); scalar(r, g, &mut h, op, k, Some(*a as f64)) }
            _ => { let f = g.below(3); pol(r, &mut h, f, y.re); }
        }
    }
}
fn random_int<T: SNum>(r: &mut Rec, g: &mut Rng, n: usize) {
    random::<T>(r, g, n, |_, _, _| ())
}
fn random_real<T: SReal>(r: &mut Rec, g: &mut Rng, n: usize) {
    random::<T>(r, g, n, |r, g, h| {
        let y = Polar::new(if g.below(4) == 0 { T::gen(g) } else { T::lim(g, 1) }, T::near(g.unit() * 3.2));
        let f = g.below(3);
        polar(r, h, f, y)
    })
}
fn random<T: SNum>(r: &mut Rec, g: &mut Rng, n: usize, pol: impl Fn(&mut Rec, &mut Rng, &mut H<T>)) {
    let mut h = H { acc: cplx::<T>(g) };
    for i in 0..n {
        if i % 40 == 0 {
            r.hist(T::TY, "");
            h.acc = cplx::<T>(g);
            set(r, &h);
        }
        let op = g.pick(&["add", "sub", "div"]);
        match g.below(9) {
            0 => pol(r, g, &mut h),
            1 | 2 | 3 => { let k = g.below(NS); scalar(r, g, &mut h, op, k, None) }
            4 => { let y = h.acc; let f = g.below(6); cart(r, &mut h, op, f, y) } // an operand equal to the variable
            _ => { let y = cplx::<T>(g); let f = g.below(6); cart(r, &mut h, op, f, y) }
        }
        if g.below(10) == 0 {
            h.acc = cplx::<T>(g);
            set(r, &h);
        }
    }
}
// one assignment from each combination of core values
fn core_steps<T: SNum>(r: &mut Rec, g: &mut Rng) {
    r.hist(T::TY, "");
    let every = r.q(2, 1);
    for (i, (x, y)) in core_pairs::<T>(g, every, 12).into_iter().enumerate() {
        if i % 64 == 63 { r.hist(T::TY, ""); }
        let mut h = H { acc: x };
        for op in ["add", "sub", "div"] {
            h.acc = x;
            set(r, &h);
            let f = g.below(6);
            cart(r, &mut h, op, f, y);
        }
    }
}
fn all_int<T: SNum>(r: &mut Rec, s: &[Prog], l: &[Prog], every: usize, n: usize) {
    let mut g = r.rng::<T>(6);
    let o = g.below(every as u64) as usize;
    for (i, p) in s.iter().enumerate() { if i % every == o { play_int::<T>(r, &mut g, p) } }
    for (i, p) in l.iter().enumerate() { if i % every == o { play_int::<T>(r, &mut g, p) } }
    random_int::<T>(r, &mut g, n);
    core_steps::<T>(r, &mut g);
}
fn all_real<T: SReal>(r: &mut Rec, s: &[Prog], l: &[Prog], every: usize, n: usize) {
    let mut g = r.rng::<T>(6);
    let o = g.below(every as u64) as usize;
    for (i, p) in s.iter().enumerate() { if i % every == o { play_real::<T>(r, &mut g, p) } }
    for (i, p) in l.iter().enumerate() { if i % every == o { play_real::<T>(r, &mut g, p) } }
    random_real::<T>(r, &mut g, n);
    core_steps::<T>(r, &mut g);
}
fn main() {
    let (s, l) = (load("PROG_SHORT"), load("PROG_LONG"));
    let (s, l) = (&s[..], &l[..]);
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(240, 6000);
    let e = r.q(16, 3);
    signed_fixed!(all_real, r, s, l, e, n);
    let n = r.q(2000, 40000);
    signed_ints!(all_int, r, s, l, 2, n);
    floats!(all_real, r, s, l, 1, 2 * n);
    rec.finish();
}
