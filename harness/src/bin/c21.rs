#![allow(unused_imports)]
// printing
use core::fmt::*;
use mixed_num::*;
use mnharness::{Num, *};

macro_rules! fm { ($c:expr, $w:expr, $p:expr, $fl:literal, $n:literal) => { match ($w, $p) {
    (None, None) => format!(concat!("{:", $fl, $n, "}"), $c),
    (Some(w), None) => format!(concat!("{:", $fl, "1$", $n, "}"), $c, w),
    (None, Some(p)) => format!(concat!("{:", $fl, ".1$", $n, "}"), $c, p),
    (Some(w), Some(p)) => format!(concat!("{:", $fl, "1$.2$", $n, "}"), $c, w, p),
} } }
macro_rules! comp { ($x:expr, $p:expr, $n:literal) => { match $p {
    None => format!(concat!("{:", $n, "}"), $x),
    Some(p) => format!(concat!("{:.1$", $n, "}"), $x, p),
} } }
/// re and im of a printed number: the separator is the first sign that starts neither the number nor an exponent
fn split(t: &str) -> Option<(f64, f64, String, String)> {
    let t = t.strip_suffix('i')?;
    let b = t.as_bytes();
    let first = b.iter().position(|c| *c != b'+' && *c != b'-')?;
    let i = (first + 1..b.len()).find(|&i| (b[i] == b'+' || b[i] == b'-') && b[i - 1] != b'e' && b[i - 1] != b'E')?;
    let (re, im) = (&t[..i], &t[i..]);
    let re = re.strip_prefix('+').unwrap_or(re);      // +-0: the plus flag on a negative zero
    let im = im.strip_prefix('+').unwrap_or(im);
    Some((re.parse().ok()?, im.parse().ok()?, re.into(), im.into()))
}
trait Parse: Num { fn parse(_: &str) -> Option<Self> { None } }
impl Parse for f32 { fn parse(s: &str) -> Option<f32> { s.parse().ok() } }
impl Parse for f64 { fn parse(s: &str) -> Option<f64> { s.parse().ok() } }

struct Opt { w: Option<usize>, p: Option<usize>, plus: bool, alt: bool }
fn opt(g: &mut Rng) -> Opt {
    Opt {
        w: if g.below(3) == 0 { Some(g.below(50) as usize) } else { None },
        p: if g.below(3) == 0 { Some(g.below(9) as usize) } else { None },
        plus: g.below(3) == 0,
        alt: g.below(3) == 0,
    }
}
fn val<T: Num>(g: &mut Rng) -> T {
    match g.below(9) {
        0 => T::near(0.0),
        1 => T::gen(g),
        2 => T::min_v(),
        3 => { let n = g.below(3) as i64; T::min_v().step(n) }
        4 => T::near((g.below(2001) as f64 - 1000.0) / 8.0),
        5 => { let s = T::specials(); g.pick(&s) }
        _ => T::gen_mod(g),
    }
}
fn log<T: Num>(r: &mut Rec, nota: &str, o: &Opt, re: T, im: T, p: &[Enc], text: Option<String>, cr: Option<String>, ci: Option<String>) {
    let res = if text.is_some() { "[0,0,0]".to_string() } else { PANIC.into() };
    let _ = (nota, o, re, im);
    r.endx(&[res], p, &format!("\"own\":{},\"t\":{},\"cr\":{},\"ci\":{},", (cr.is_none() || ci.is_none()) as i32, enc_str(&text.unwrap_or_default()), enc_str(&cr.unwrap_or_default()), enc_str(&ci.unwrap_or_default())));
}
/// the element type's own formatting can panic
fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// the magnitude of x as the element type prints it; where it has no value of its own (the smallest value), what follows the sign
/// (two's complement notations show the magnitude of the smallest value as they are)
fn mag<T: Num + core::ops::Sub<Output = T>>(x: T, f: impl Fn(T) -> String) -> Option<String> {
    let z = T::near(0.0);
    match quiet(|| if x < z { z - x } else { x }) {
        Some(m) => quiet(|| f(m)),
        None => quiet(|| f(x)).map(|t| t.strip_prefix('-').map(|s| s.to_string()).unwrap_or(t)),
    }
}
macro_rules! go { ($r:ident, $o:ident, $re:ident, $im:ident, $n:literal, $back:expr) => {{
    $r.beginx("fmt", &format!("\"n\":\"{}\",\"plus\":{},\"alt\":{},\"width\":{},\"prec\":{},\"std\":{},", $n, $o.plus as i32, $o.alt as i32,
        $o.w.map(|x| x as i64).unwrap_or(-1), $o.p.map(|x| x as i64).unwrap_or(-1), cfg!(feature = "std") as i32), &[$re.enc(), $im.enc()]);
    let c = Cartesian::new($re, $im);
    let t = $r.guard(|| match ($o.plus, $o.alt) {
        (false, false) => fm!(c, $o.w, $o.p, "", $n),
        (true, false) => fm!(c, $o.w, $o.p, "+", $n),
        (false, true) => fm!(c, $o.w, $o.p, "#", $n),
        (true, true) => fm!(c, $o.w, $o.p, "+#", $n),
    });
    let cr = mag($re, |x| comp!(x, $o.p, $n));
    let ci = mag($im, |x| comp!(x, $o.p, $n));
    let back: fn(&str) -> Vec<Enc> = $back;
    let p = match &t { Some(t) if $o.p.is_none() => back(t.trim_start()), _ => vec![] };
    log($r, $n, &$o, $re, $im, &p, t, cr, ci);
}} }
fn back<T: Parse>(t: &str) -> Vec<Enc> {
    match split(t) {
        Some((_, _, a, b)) => match (T::parse(&a), T::parse(&b)) { (Some(a), Some(b)) => vec![a.enc(), b.enc()], _ => vec!["[5]".into(), "[5]".into()] },
        None => vec!["[5]".into(), "[5]".into()],
    }
}
fn none(_: &str) -> Vec<Enc> { vec![] }

fn disp<T: Num + Display + MixedNum + MixedZero + core::ops::Sub<Output = T>>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(210);
    for i in 0..n {
        if i % 64 == 0 { r.hist(T::TY, ""); }
        let o = opt(&mut g);
        let (re, im) = (val::<T>(&mut g), val::<T>(&mut g));
        go!(r, o, re, im, "", none);
    }
}
fn polar<T: Num + Display + MixedNum>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(211);
    r.hist(T::TY, "");
    for _ in 0..n {
        let (m, a) = (val::<T>(&mut g), val::<T>(&mut g));
        r.beginx("fmtp", "", &[m.enc(), a.enc()]);
        let p = Polar::new(m, a);
        let t = r.guard(|| p.to_string());
        let res = if t.is_some() { "[0,0,0]".to_string() } else { PANIC.into() };
        r.endx(&[res], &[], &format!("\"t\":{},\"cr\":{},\"ci\":{},", enc_str(&t.unwrap_or_default()), enc_str(&m.to_string()), enc_str(&a.to_string())));
    }
}
fn exps<T: Num + LowerExp + UpperExp + MixedNum + MixedZero + core::ops::Sub<Output = T>>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(212);
    for i in 0..n {
        if i % 32 == 0 { r.hist(T::TY, ""); }
        let o = opt(&mut g);
        let (re, im) = (val::<T>(&mut g), val::<T>(&mut g));
        go!(r, o, re, im, "e", none);
        go!(r, o, re, im, "E", none);
    }
}
fn pos<T: Num + LowerHex + UpperHex + Octal + Binary + MixedNum + MixedZero + core::ops::Sub<Output = T>>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(213);
    for i in 0..n {
        if i % 16 == 0 { r.hist(T::TY, ""); }
        let o = opt(&mut g);
        let (re, im) = (val::<T>(&mut g), val::<T>(&mut g));
        go!(r, o, re, im, "x", none);
        go!(r, o, re, im, "X", none);
        go!(r, o, re, im, "o", none);
        go!(r, o, re, im, "b", none);
    }
}
fn flt<T: Parse + Display + LowerExp + UpperExp + MixedNum + MixedZero + core::ops::Sub<Output = T>>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(214);
    // the core values under every combination of flags, with and without a width and a precision
    for c in cores::<T>() {
        r.hist(T::TY, "");
        let (re, im) = (c.re, c.im);
        for f in 0..4 {
            let k = g.below(40) as usize;
            let o = Opt { w: if g.bool() { Some(k) } else { None }, p: if g.bool() { Some(k % 7) } else { None }, plus: f & 1 == 1, alt: f & 2 == 2 };
            go!(r, o, re, im, "", back::<T>);
            go!(r, o, re, im, "e", back::<T>);
            go!(r, o, re, im, "E", back::<T>);
        }
    }
    for i in 0..n {
        if i % 16 == 0 { r.hist(T::TY, ""); }
        let o = opt(&mut g);
        let (re, im) = (val::<T>(&mut g), val::<T>(&mut g));
        go!(r, o, re, im, "", back::<T>);
        go!(r, o, re, im, "e", back::<T>);
        go!(r, o, re, im, "E", back::<T>);
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(24, 400);
    signed_fixed!(disp, r, n);
    unsigned_fixed!(disp, r, n);
    let n = r.q(6, 60);
    signed_fixed!(polar, r, n);
    unsigned_fixed!(polar, r, n);
    let n = r.q(150, 2000);
    signed_ints!(disp, r, n);
    unsigned_ints!(disp, r, n);
    signed_ints!(exps, r, n);
    unsigned_ints!(exps, r, n);
    signed_ints!(pos, r, n);
    unsigned_ints!(pos, r, n);
    signed_ints!(polar, r, n);
    use fixed::{types::extra::*, *};
    macro_rules! some { ($($t:ty)*) => { $( exps::<$t>(r, n); pos::<$t>(r, n); )* } }
    some!(FixedI8<U0> FixedI8<U4> FixedI16<U0> FixedI16<U9> FixedI32<U16> FixedI32<U29> FixedI64<U32> FixedI64<U61> FixedU8<U3> FixedU16<U8> FixedU32<U15> FixedU64<U40>);
    let n = r.q(1200, 12000);
    flt::<f32>(r, n);
    flt::<f64>(r, n);
    polar::<f32>(r, n);
    polar::<f64>(r, n);
    rec.finish();
}
