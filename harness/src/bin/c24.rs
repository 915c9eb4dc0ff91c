#![allow(unused_imports)]
// sessions: sequences of calls generated by TLC on a register file; every result feeds the following calls
use mixed_num::*;
use mnharness::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier};

#[derive(Clone, Copy)]
struct Regs<T> { z: Cartesian<T>, w: Cartesian<T>, p: Polar<T>, q: Polar<T>, x: T, y: T }
impl<T: Num> Regs<T> {
    fn c(&mut self, g: &str) -> &mut Cartesian<T> { if g == "z" { &mut self.z } else { &mut self.w } }
    fn pp(&mut self, g: &str) -> &mut Polar<T> { if g == "p" { &mut self.p } else { &mut self.q } }
    fn s(&mut self, g: &str) -> &mut T { if g == "x" { &mut self.x } else { &mut self.y } }
    fn dump(&self) -> Vec<Enc> {
        [self.z.re, self.z.im, self.w.re, self.w.im, self.p.mag, self.p.ang, self.q.mag, self.q.ang, self.x, self.y].iter().map(|v| v.enc()).collect()
    }
    fn gather(&self, src: &[&str]) -> Vec<Enc> {
        let d = self.dump();
        src.iter().flat_map(|g| match *g { "z" => d[0..2].to_vec(), "w" => d[2..4].to_vec(), "p" => d[4..6].to_vec(), "q" => d[6..8].to_vec(), "x" => d[8..9].to_vec(), _ => d[9..10].to_vec() }).collect()
    }
}
/// what an action is called in the trace
struct Plan { i: &'static str, extra: String, src: Vec<&'static str>, dst: Vec<&'static str>, consts: Vec<Enc> }
fn reg(s: &str) -> &'static str { match s { "z" => "z", "w" => "w", "p" => "p", "q" => "q", "x" => "x", _ => "y" } }
const SC: [(&str, f64); 5] = [("i16", -2.0), ("i32", 3.0), ("u8", 2.0), ("f32", 0.75), ("f64", 1.5)];
fn cst(t: &str) -> (String, Enc) {
    let v = SC.iter().find(|c| c.0 == t).unwrap().1;
    match t { "i16" => (<i16 as Num>::TY.json(), (v as i16).enc()), "i32" => (<i32 as Num>::TY.json(), (v as i32).enc()), "u8" => (<u8 as Num>::TY.json(), (v as u8).enc()),
              "f32" => (<f32 as Num>::TY.json(), (v as f32).enc()), _ => (<f64 as Num>::TY.json(), v.enc()) }
}
fn plan(act: &str, form: u64) -> Plan {
    let a: Vec<&str> = act.split(':').collect();
    let r: Vec<&'static str> = a[1..].iter().map(|s| reg(s)).collect();
    let p = |i, extra: String, src: &[&'static str], dst: &[&'static str]| Plan { i, extra: format!("{}\"x\":{},", extra, form), src: src.to_vec(), dst: dst.to_vec(), consts: vec![] };
    let k = a[0].split('-').nth(1).unwrap_or("");
    let ks = format!("\"k\":\"{}\",", k);
    match a[0] {
        "add" | "sub" | "mul" | "div" => p(match a[0] { "add" => "add", "sub" => "sub", "mul" => "mul", _ => "div" }, String::new(), &r, &r[..1]),
        "asg-add" | "asg-sub" | "asg-div" => p("asg", ks + "\"rk\":\"c\",", &r, &r[..1]),
        "asgp" => p("asg", "\"k\":\"mul\",\"rk\":\"p\",".into(), &r, &r[..1]),
        "conj" => p("conj", String::new(), &r, &r),
        "pol" => p("pol", String::new(), &r[..1], &r[1..]),
        "cart" => p("cart", String::new(), &r[..1], &r[1..]),
        "pmul" => p("pmul", String::new(), &r, &r[..1]),
        "pmix" => p("pmix", String::new(), &r, &r[..1]),
        "cmix" => p("cmix", String::new(), &r, &r[..1]),
        "pconj" => p("pconj", String::new(), &r, &r),
        "pscal-mul" | "pscal-div" => p("pscal", ks, &r, &r[..1]),
        "mv" => p("mv", format!("\"f\":{},", a[2]), &r[..1], &r[2..]),
        "swap" => p("swap", String::new(), &r, &r),
        "new" | "pnew" => p("new", String::new(), &["x", "y"], &r),
        "wrap" => p("wrap", String::new(), &r, &r),
        "sqrt" => p("sqrt", String::new(), &r, &r),
        "niirf" => p("niirf", String::new(), &r, &r),
        "sincos" => p("sincos", String::new(), &["x"], &["x", "y"]),
        "atan2" => p("atan2", String::new(), &["y", "x"], &["y"]),
        "patan2" => p("patan2", String::new(), &["y", "x"], &["x"]),
        "psin" | "pcos" => p(if a[0] == "psin" { "psin" } else { "pcos" }, String::new(), &r[..1], &r[1..]),
        "exp" => p("fn1", "\"f\":\"exp\",".into(), &r, &r),
        "powi" | "tpowi" => p(if a[0] == "powi" { "powi" } else { "tpowi" }, format!("\"n\":{},", a[2]), &r[..1], &r[..1]),
        "cpow" => p("cpow", format!("\"n\":{},", a[2]), &r[..1], &r[..1]),
        "cexp" => p("cexp", String::new(), &r, &r),
        "abs" => p("abs", String::new(), &r, &r),
        "sign" => p("sign", String::new(), &r, &r),
        "cmp" => p("cmp", String::new(), &r, &[]),
        _ => {
            let (ty, v) = cst(a[2]);
            let mut q = if a[0].starts_with("asgs") { p("asg", ks + "\"rk\":\"s\",\"S\":" + &ty + ",", &r[..1], &r[..1]) } else { p("scal", ks + "\"S\":" + &ty + ",", &r[..1], &r[..1]) };
            q.consts.push(v);
            q
        }
    }
}
struct Out { r: Vec<Enc>, p: Vec<Enc>, extra: Vec<Enc> }
fn cat<R>(f: impl FnOnce() -> R) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }
fn e2<T: Num>(v: Option<(T, T)>) -> Vec<Enc> { match v { Some((a, b)) => vec![a.enc(), b.enc()], None => vec![PANIC.into(), PANIC.into()] } }
fn e1<T: Num>(v: Option<T>) -> Vec<Enc> { vec![match v { Some(a) => a.enc(), None => PANIC.into() }] }
fn ct<T>(z: Cartesian<T>) -> (T, T) { (z.re, z.im) }
fn pt<T>(z: Polar<T>) -> (T, T) { (z.mag, z.ang) }

/// the part every signed element type has; None: not an action of these types
fn exec_int<T: SNum + std::fmt::Debug>(a: &[&str], form: u64, g: &mut Regs<T>) -> Option<Out> {
    let mut o = Out { r: vec![], p: vec![], extra: vec![] };
    let kind = a[0].split('-').next().unwrap();
    match kind {
        "add" | "sub" | "mul" | "div" => {
            let (x, y) = (*g.c(a[1]), *g.c(a[2]));
            let mut v = y;
            macro_rules! go { ($t:tt) => { match form % 3 { 0 => cat(|| x $t y), 1 => cat(|| x $t &y), _ => cat(|| x $t &mut v) } } }
            let z = match kind { "add" => go!(+), "sub" => go!(-), "mul" => go!(*), _ => go!(/) };
            o.r = e2(z.map(ct));
            if form % 3 == 2 { *g.c(a[2]) = v; }
            if let Some(z) = z { *g.c(a[1]) = z; }
        }
        "asg" => {
            let (x, y) = (*g.c(a[1]), *g.c(a[2]));
            let (mut v, mut t) = (y, x);
            let k = a[0];
            macro_rules! go { ($o:tt, $oa:tt) => { (match form % 3 { 0 => cat(|| t $oa y), 1 => cat(|| t $oa &y), _ => cat(|| t $oa &mut v) }, cat(|| x $o y)) } }
            let (d, b) = match k { "asg-add" => go!(+, +=), "asg-sub" => go!(-, -=), _ => go!(/, /=) };
            o.r = e2(d.map(|_| ct(t)));
            o.r.extend(e2(b.map(ct)));
            if form % 3 == 2 { *g.c(a[2]) = v; }
            if d.is_some() { *g.c(a[1]) = t; }
        }
        "asgs" => {
            let x = *g.c(a[1]);
            let mut t = x;
            macro_rules! go { ($s:ty, $o:tt, $oa:tt) => {{ let s = SC.iter().find(|c| c.0 == a[2]).unwrap().1 as $s; (cat(|| t $oa s), cat(|| x $o s)) }} }
            let (d, b) = match (a[0], a[2]) {
                ("asgs-add", _) => go!(i32, +, +=), ("asgs-sub", _) => go!(f64, -, -=), (_, "i16") => go!(i16, /, /=), _ => go!(f32, /, /=),
            };
            o.r = e2(d.map(|_| ct(t)));
            o.r.extend(e2(b.map(ct)));
            if d.is_some() { *g.c(a[1]) = t; }
        }
        "scal" => {
            let x = *g.c(a[1]);
            macro_rules! go { ($s:ty, $o:tt) => {{ let s = SC.iter().find(|c| c.0 == a[2]).unwrap().1 as $s; cat(|| x $o s) }} }
            let z = match (a[0], a[2]) { ("scal-mul", "f64") => go!(f64, *), ("scal-mul", _) => go!(u8, *), ("scal-div", _) => go!(i32, /), _ => go!(f32, +) };
            o.r = e2(z.map(ct));
            if let Some(z) = z { *g.c(a[1]) = z; }
        }
        "conj" => {
            let x = *g.c(a[1]);
            let z = cat(|| x.conj());
            o.r = e2(z.map(ct));
            if let Some(z) = z { *g.c(a[1]) = z; }
        }
        "pmul" => {
            let (x, y) = (*g.pp(a[1]), *g.pp(a[2]));
            let z = cat(|| x * y);
            o.r = e2(z.map(pt));
            if let Some(z) = z { *g.pp(a[1]) = z; }
        }
        "pscal" => {
            let (x, s) = (*g.pp(a[1]), *g.s(a[2]));
            let z = if a[0] == "pscal-mul" { cat(|| x * s) } else { cat(|| x / s) };
            o.r = e2(z.map(pt));
            if let Some(z) = z { *g.pp(a[1]) = z; }
        }
        "mv" => {
            let v = match (a[1], a[2]) { ("z", "1") | ("w", "1") => g.c(a[1]).re, ("z", _) | ("w", _) => g.c(a[1]).im, (_, "1") => g.pp(a[1]).mag, _ => g.pp(a[1]).ang };
            o.r = vec![v.enc()];
            *g.s(a[3]) = v;
        }
        "swap" => {
            match a[1] { "z" => std::mem::swap(&mut g.z, &mut g.w), "p" => std::mem::swap(&mut g.p, &mut g.q), _ => std::mem::swap(&mut g.x, &mut g.y) }
            o.r = g.gather(&[a[1], a[2]]);
        }
        "new" => { g.z = Cartesian::new(g.x, g.y); o.r = g.gather(&["z"]); }
        "pnew" => { *g.pp(a[1]) = Polar::new(g.x, g.y); o.r = g.gather(&[a[1]]); }
        "powi" => {
            let (x, n) = (*g.s(a[1]), a[2].parse::<i32>().unwrap());
            let v = cat(|| x.mixed_powi(n));
            o.r = e1(v);
            if let Some(v) = v { *g.s(a[1]) = v; }
        }
        "tpowi" => {
            let (x, n) = (*g.s(a[1]), a[2].parse::<usize>().unwrap());
            let v = cat(|| trigonometry::powi(x, n));
            o.r = e1(v);
            if let Some(v) = v { *g.s(a[1]) = v; }
        }
        "abs" | "sign" => {
            let x = *g.s(a[1]);
            let v = if kind == "abs" { cat(|| x.mixed_abs()) } else { cat(|| x.mixed_sign()) };
            o.r = e1(v);
            if let Some(v) = v { *g.s(a[1]) = v; }
        }
        "cmp" => {
            let (x, y) = (g.z, g.w);
            let ord = match x.partial_cmp(&y) { None => 2, Some(c) => c as i64 };
            o.r = [(x == y) as i64, (x != y) as i64, ord, (x < y) as i64, (x <= y) as i64, (x > y) as i64, (x >= y) as i64].iter().map(|v| enc_small(*v)).collect();
        }
        _ => return None,
    }
    Some(o)
}
/// fixed point and floats
fn exec_real<T: SReal + std::fmt::Debug + core::ops::MulAssign>(a: &[&str], form: u64, g: &mut Regs<T>, x: &Extra<T>) -> Option<Out> {
    if let Some(o) = exec_int(a, form, g) { return Some(o); }
    let mut o = Out { r: vec![], p: vec![], extra: vec![] };
    macro_rules! un { ($r:expr, $f:expr) => {{ let v = *g.s($r); let f = $f; let w = cat(|| f(v)); o.r = e1(w); w }} }
    match a[0] {
        "pol" => {
            let z = *g.c(a[1]);
            let v = match form % 3 { 0 => cat(|| z.to_polar()), 1 => cat(|| complex::to_polar(z)), _ => cat(|| Polar::new(z.mag(), z.arg())) };
            o.r = e2(v.map(pt));
            o.p = e2(cat(|| ct(z.mixed_abs())));
            o.p.extend(e2(cat(|| ct(z.to_cartesian()))));
            if let Some(v) = v { *g.pp(a[2]) = v; }
        }
        "cart" => {
            let z = *g.pp(a[1]);
            let v: Option<Cartesian<T>> = if form % 2 == 0 { cat(|| z.to_cartesian()) } else { cat(|| complex::to_cartesian(z)) };
            o.r = e2(v.map(ct));
            o.p = e2(v.and_then(|v| cat(|| pt(v.to_polar()))));
            o.p.extend(e2(cat(|| pt(z.to_polar()))));
            if let Some(v) = v { *g.c(a[2]) = v; }
        }
        "asgp" => {
            let (x, y) = (*g.c(a[1]), *g.pp(a[2]));
            let c: Option<Cartesian<T>> = cat(|| y.to_cartesian());
            o.extra = e2(c.map(ct));
            let (mut t, mut v) = (x, y);
            let d = match form % 3 { 0 => cat(|| t *= y), 1 => cat(|| t *= &y), _ => cat(|| t *= &mut v) };
            o.r = e2(d.map(|_| ct(t)));
            o.r.extend(e2(cat(|| ct(x * y))));
            if form % 3 == 2 { *g.pp(a[2]) = v; }
            if d.is_some() { *g.c(a[1]) = t; }
        }
        "pmix" => {
            let (x0, y) = (*g.pp(a[1]), *g.c(a[2]));
            let f = x.pmix;
            let v = cat(|| f(x0, y).expect("polar * cartesian can be called"));
            o.r = e2(v.map(pt));
            o.p = e2(cat(|| pt(complex::to_polar(y))));
            if let Some(v) = v { *g.pp(a[1]) = v; }
        }
        "cmix" => {
            let (x, y) = (*g.c(a[1]), *g.pp(a[2]));
            let mut m = y;
            let v: Option<Cartesian<T>> = match form % 3 { 0 => cat(|| x * y), 1 => cat(|| x * &y), _ => cat(|| x * &mut m) };
            o.r = e2(v.map(ct));
            o.p = e2(cat(|| ct(complex::to_cartesian(y))));
            if form % 3 == 2 { *g.pp(a[2]) = m; }
            if let Some(v) = v { *g.c(a[1]) = v; }
        }
        "pconj" => {
            let x = *g.pp(a[1]);
            let v: Option<Polar<T>> = cat(|| x.conj());
            o.r = e2(v.map(pt));
            if let Some(v) = v { *g.pp(a[1]) = v; }
        }
        "wrap" => {
            let w = un!(a[1], |v: T| v.mixed_wrap_phase());
            o.r.extend(match w { Some(v) => e1(cat(|| v.mixed_wrap_phase())), None => vec![PANIC.into()] });
            if let Some(v) = w { *g.s(a[1]) = v; }
        }
        "sqrt" => { if let Some(v) = un!(a[1], |v: T| v.mixed_sqrt()) { *g.s(a[1]) = v; } }
        "niirf" => { if let Some(v) = un!(a[1], |v: T| v.mixed_niirf()) { *g.s(a[1]) = v; } }
        "sincos" => {
            let v = g.x;
            let w = if form % 2 == 0 { cat(|| v.mixed_sincos()) } else { cat(|| (v.mixed_sin(), v.mixed_cos())) };
            o.r = e2(w);
            if let Some((s, c)) = w { g.x = s; g.y = c; }
        }
        "atan2" => { let (y, x) = (g.y, g.x); let w = cat(|| y.mixed_atan2(x)); o.r = e1(w); if let Some(v) = w { g.y = v; } }
        "patan2" => { let (y, x) = (g.y, g.x); let w = cat(|| trigonometry::atan::atan2(y, x)); o.r = e1(w); if let Some(v) = w { g.x = v; } }
        "psin" => { if let Some(v) = un!(a[1], |v: T| trigonometry::sin(v)) { *g.s(a[2]) = v; } }
        "pcos" => { if let Some(v) = un!(a[1], |v: T| trigonometry::cos(v)) { *g.s(a[2]) = v; } }
        "exp" => { if let Some(v) = un!(a[1], |v: T| v.mixed_exp()) { *g.s(a[1]) = v; } }
        "cexp" => { let x = *g.c(a[1]); let v = cat(|| x.mixed_exp()); o.r = e2(v.map(ct)); if let Some(v) = v { *g.c(a[1]) = v; } }
        "cpow" => {
            let f = x.cpow?;
            let (z, n) = (*g.c(a[1]), a[2].parse::<usize>().unwrap());
            let v = cat(|| f(z, n));
            o.r = e2(v.map(ct));
            if let Some(v) = v { *g.c(a[1]) = v; }
        }
        _ => return None,
    }
    Some(o)
}
#[derive(Clone, Copy)]
struct Extra<T> { pmix: fn(Polar<T>, Cartesian<T>) -> Option<Polar<T>>, cpow: Option<fn(Cartesian<T>, usize) -> Cartesian<T>> }

/// polar * cartesian where the operator exists for the concrete types, None where it can not be called at all
struct Probe<L, R>(L, R);
trait Callable<O> { fn call(&self) -> Option<O>; }
impl<T: Copy> Callable<Polar<T>> for Probe<Polar<T>, Cartesian<T>> where Polar<T>: core::ops::Mul<Cartesian<T>, Output = Polar<T>> {
    fn call(&self) -> Option<Polar<T>> { Some(self.0 * self.1) }
}
trait Missing<O> { fn call(&self) -> Option<O>; }
impl<T: Copy> Missing<Polar<T>> for &Probe<Polar<T>, Cartesian<T>> {
    fn call(&self) -> Option<Polar<T>> { None }
}

type Exec<T> = Arc<dyn Fn(&[&str], u64, &mut Regs<T>) -> Option<Out> + Send + Sync>;
type Past = VecDeque<Arc<dyn Fn() -> String + Send + Sync>>;
fn session<T: Num + Send + Sync + Copy>(past: &mut Past, r: &mut Rec, g: &mut Rng, prog: &[String], start: Regs<T>, exec: &Exec<T>) {
    let forms: Vec<u64> = prog.iter().map(|_| g.below(6)).collect();
    let mut regs = start;
    r.hist(T::TY, "");
    r.beginx("ses", "\"i\":\"init\",", &regs.dump());
    r.end(&[]);
    let mut made = 0;
    for (act, form) in prog.iter().zip(&forms) {
        let a: Vec<&str> = act.split(':').collect();
        // does this element type have the action at all?  (on a copy, discarded)
        let p = plan(act, *form);
        if !has::<T>(&a, exec) { continue; }
        let mut args = regs.gather(&p.src);
        args.extend(p.consts.iter().cloned());
        if a[0] == "asgp" {
            let before = regs;
            let o = r.guard(|| { let mut c = before; exec(&a, *form, &mut c) }).flatten().expect("action");
            args.extend(o.extra);
        }
        let q = |v: &[&str]| v.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(",");
        let head = format!("\"i\":\"{}\",\"src\":[{}],\"dst\":[{}],{}", p.i, q(&p.src), q(&p.dst), p.extra);
        r.beginx("ses", &head, &args);
        let o = r.guard(|| exec(&a, *form, &mut regs)).flatten().expect("action");
        r.endx(&o.r, &o.p, &format!("\"m\":[{}],", regs.dump().join(",")));
        made += 1;
    }
    if made == 0 { return; }
    // the same session again: repeatedly in two threads, while two others run earlier sessions (of any type), and once
    // more in this thread
    let again: Arc<dyn Fn() -> String + Send + Sync> = {
        let (prog, exec) = (prog.to_vec(), exec.clone());
        Arc::new(move || {
            let mut regs = start;
            let mut v = vec![];
            for (act, form) in prog.iter().zip(&forms) {
                let a: Vec<&str> = act.split(':').collect();
                if !has::<T>(&a, &exec) { continue; }
                if let Some(o) = exec(&a, *form, &mut regs) { v.push(format!("[{}]", o.r.join(","))); }
            }
            format!("[{}]", v.join(","))
        })
    };
    r.beginx("ses", "\"i\":\"again\",", &[]);
    let reps = if prog.len() > 4 { 4 } else { 12 };
    let all: Vec<String> = r.guard(|| {
        let bar = Arc::new(Barrier::new(4));
        let stop = Arc::new(AtomicBool::new(false));
        let hs: Vec<_> = (0..2).map(|_| {
            let (again, bar) = (again.clone(), bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                let mut seen: Vec<String> = vec![];
                for _ in 0..reps { let o = again(); if !seen.contains(&o) { seen.push(o); } }
                seen
            })
        }).collect();
        let ds: Vec<_> = (0..2).map(|k| {
            let (bar, stop, past) = (bar.clone(), stop.clone(), past.clone());
            std::thread::spawn(move || {
                bar.wait();
                let mut i = k;
                while !stop.load(Ordering::Relaxed) { if let Some(f) = past.get(i % past.len().max(1)) { f(); } i += 1; }
            })
        }).collect();
        let mut all: Vec<String> = hs.into_iter().flat_map(|h| h.join().unwrap_or(vec!["[]".into()])).collect();
        stop.store(true, Ordering::Relaxed);
        for d in ds { let _ = d.join(); }
        all.push(again());
        all.dedup();
        all
    }).unwrap_or(vec![]);
    r.endx(&[], &[], &format!("\"th\":[{}],", all.join(",")));
    past.push_back(again);
    if past.len() > 6 { past.pop_front(); }
}
fn has<T: Num>(a: &[&str], _exec: &Exec<T>) -> bool {
    let real = ["pol", "cart", "asgp", "pmix", "cmix", "pconj", "wrap", "sqrt", "niirf", "sincos", "atan2", "patan2", "psin", "pcos", "exp", "cexp"];
    if a[0] == "cpow" { T::TY.k == 1 } else { T::TY.k != 0 || !real.contains(&a[0]) }
}
fn start_of<T: Num>(g: &mut Rng, i: usize) -> Regs<T> {
    let v = |g: &mut Rng| match i % 4 { 0 => T::gen(g), 1 => T::lim(g, 2), _ => T::gen_mod(g) };
    let c = |g: &mut Rng| if i % 4 == 3 { cplx::<T>(g) } else { Cartesian::new(v(g), v(g)) };
    let (z, w) = (c(g), c(g));
    let (p, q) = (Polar::new(v(g), angle::<T>(g, 1.0)), Polar::new(v(g), angle::<T>(g, 1.0)));
    let s = |g: &mut Rng| match g.below(3) { 0 => angle::<T>(g, 2.0), _ => v(g) };
    Regs { z, w, p, q, x: s(g), y: s(g) }
}
fn load() -> (Vec<Vec<String>>, Vec<Vec<String>>) {
    let text = std::fs::read_to_string(std::env::var("SESSIONS").expect("SESSIONS")).expect("session file");
    let all: Vec<Vec<String>> = text.lines().map(|l| l.split('"').filter(|s| s.contains(':')).map(|s| s.trim_matches('\\').to_string()).collect()).collect();
    assert!(all.iter().all(|s: &Vec<String>| s.len() >= 2), "sessions");
    all.into_iter().partition(|s| s.len() < 10)
}
fn all<T: Num + Send + Sync>(past: &mut Past, r: &mut Rec, p: &(Vec<Vec<String>>, Vec<Vec<String>>), every: usize, every_long: usize, exec: Exec<T>) {
    let mut g = r.rng::<T>(240);
    let o = g.below(every as u64) as usize;
    for (i, s) in p.0.iter().enumerate() { if i % every == o { let st = start_of::<T>(&mut g, i); session(past, r, &mut g, s, st, &exec) } }
    let o = g.below(every_long as u64) as usize;
    for (i, s) in p.1.iter().enumerate() { if i % every_long == o { let st = start_of::<T>(&mut g, i); session(past, r, &mut g, s, st, &exec) } }
}
macro_rules! fixed_ty { ($t:ty, $r:tt, $d:tt, $p:tt, $e:tt, $l:tt) => {{
    let x = Extra::<$t> { pmix: |a, b| (&Probe(a, b)).call(), cpow: Some(|z, n| complex::powi(z, n)) };
    all::<$t>($d, $r, $p, $e, $l, Arc::new(move |a, f, g| exec_real(a, f, g, &x)));
}} }
macro_rules! float_ty { ($t:ty, $r:tt, $d:tt, $p:tt, $e:tt, $l:tt) => {{
    let x = Extra::<$t> { pmix: |a, b| (&Probe(a, b)).call(), cpow: None };
    all::<$t>($d, $r, $p, $e, $l, Arc::new(move |a, f, g| exec_real(a, f, g, &x)));
}} }
macro_rules! int_ty { ($t:ty, $r:tt, $d:tt, $p:tt, $e:tt, $l:tt) => { all::<$t>($d, $r, $p, $e, $l, Arc::new(exec_int::<$t>)); } }
fn main() {
    let progs = load();
    let p = &progs;
    let mut past = Past::new();
    let d = &mut past;
    let mut rec = Rec::start();
    let r = &mut rec;
    let (e, l) = if r.thorough { (120, 60) } else { (30, 30) };
    signed_fixed_m!(fixed_ty, r, d, p, e, l);
    let (e, l) = if r.thorough { (8, 8) } else { (2, 3) };
    floats_m!(float_ty, r, d, p, e, l);
    let (e, l) = if r.thorough { (60, 30) } else { (10, 10) };
    signed_ints_m!(int_ty, r, d, p, e, l);
    rec.finish();
}
