//! Recorder for the conformance checks: runs the real library and logs every call with its outcome as an
//! ndjson trace that the TLA+ specification validates.
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[macro_use]
pub mod types;
pub mod vals;
pub use vals::*;

pub type Enc = String;
pub const PANIC: &str = "[5]";

struct State {
    out: std::io::BufWriter<std::fs::File>,
    cur: String,
    flush: bool,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
static BUSY_SINCE: AtomicU64 = AtomicU64::new(0);
static QUIET: AtomicBool = AtomicBool::new(true); // REC_LOUD prints panics

fn now(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

pub struct Rec {
    t0: Instant,
    open: bool,
    first: bool,
    pub seed: u64,
    pub thorough: bool,
    n: usize,
}

impl Rec {
    /// Arguments: TRACE-FILE.  Environment: VERIF_SEED, VERIF_TIER, REC_FLUSH, REC_TIMEOUT_MS.
    pub fn start() -> Rec {
        let path = std::env::args().nth(1).expect("usage: recorder TRACE-FILE");
        let out = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(path).expect("create trace"));
        let flush = std::env::var("REC_FLUSH").is_ok();
        QUIET.store(std::env::var("REC_LOUD").is_err(), Ordering::Relaxed);
        *STATE.lock().unwrap() = Some(State { out, cur: String::new(), flush });
        std::panic::set_hook(Box::new(|i| {
            if !QUIET.load(Ordering::Relaxed) {
                eprintln!("{}", i);
            }
        }));
        let t0 = Instant::now();
        let limit: u64 = std::env::var("REC_TIMEOUT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10_000);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let b = BUSY_SINCE.load(Ordering::SeqCst);
            if b != 0 && now(t0) > b + limit {
                let mut g = STATE.lock().unwrap();
                if BUSY_SINCE.load(Ordering::SeqCst) != b {
                    continue;
                }
                let s = g.as_mut().unwrap();
                // the call in progress never came back: log that as its outcome
                let mut tail = s.cur.clone();
                tail.push_str("\"r\":[[6],[6]],\"p\":[],\"hang\":1}]}\n");
                s.out.write_all(tail.as_bytes()).unwrap();
                s.out.flush().unwrap();
                std::process::exit(3);
            }
        });
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
        Rec { t0, open: false, first: true, seed, thorough, n: 0 }
    }
    fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        f(STATE.lock().unwrap().as_mut().unwrap())
    }
    /// number of cases: quick or thorough
    pub fn q(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn rng<T: Num>(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x9E37_79B9).wrapping_add(T::TY.id()).wrapping_mul(1_000_003).wrapping_add(salt))
    }
    /// Start a history; `fields` is extra JSON ("\"x\":1,...") for the header.
    pub fn hist(&mut self, ty: Ty, fields: &str) {
        self.close();
        self.open = true;
        self.first = true;
        self.n = 0;
        let sep = if fields.is_empty() { "" } else { "," };
        self.with(|s| {
            s.cur.clear();
            let _ = write!(s.cur, "{{\"T\":{}{}{},\"ev\":[", ty.json(), sep, fields);
        });
    }
    pub fn len(&self) -> usize {
        self.n
    }
    fn close(&mut self) {
        if self.open {
            self.open = false;
            let first = self.first;
            self.with(|s| {
                if !first {
                    s.cur.push_str("]}\n");
                    s.out.write_all(s.cur.as_bytes()).unwrap();
                }
                s.cur.clear();
            });
        }
    }
    pub fn finish(mut self) {
        self.close();
        self.with(|s| s.out.flush().unwrap());
        std::process::exit(0);
    }
    /// Log the call about to be made.
    pub fn begin(&mut self, op: &str, args: &[Enc]) {
        self.beginx(op, "", args)
    }
    /// `extra`: further JSON fields of the event, each followed by a comma
    pub fn beginx(&mut self, op: &str, extra: &str, args: &[Enc]) {
        let first = self.first;
        self.first = false;
        self.n += 1;
        self.with(|s| {
            if !first {
                s.cur.push(',');
            }
            let _ = write!(s.cur, "{{\"o\":\"{}\",{}\"a\":[{}],", op, extra, args.join(","));
            if s.flush {
                // abort-proof mode: the file always ends with the call in progress
                let pos = s.cur.clone();
                s.out.write_all(b"#").unwrap();
                s.out.write_all(pos.as_bytes()).unwrap();
                s.out.write_all(b"\n").unwrap();
                s.out.flush().unwrap();
            }
        });
    }
    /// Run a piece of library code; a panic is data.
    pub fn guard<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        BUSY_SINCE.store(now(self.t0), Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        BUSY_SINCE.store(0, Ordering::SeqCst);
        r.ok()
    }
    pub fn one<T: Num>(&mut self, f: impl FnOnce() -> T) -> Enc {
        match self.guard(f) {
            Some(v) => v.enc(),
            None => PANIC.into(),
        }
    }
    pub fn two<T: Num>(&mut self, out: &mut Vec<Enc>, f: impl FnOnce() -> (T, T)) {
        match self.guard(f) {
            Some((a, b)) => {
                out.push(a.enc());
                out.push(b.enc());
            }
            None => {
                out.push(PANIC.into());
                out.push(PANIC.into());
            }
        }
    }
    /// The same evaluation written in another form: only a different outcome adds to the log, so a log with
    /// more than one outcome means that the forms disagree.
    pub fn form<T: Num>(&mut self, out: &mut Vec<Enc>, f: impl FnOnce() -> (T, T)) {
        let mut o = vec![];
        self.two(&mut o, f);
        if !out.chunks(2).any(|c| c == &o[..]) {
            out.append(&mut o);
        }
    }
    pub fn form1<T: Num>(&mut self, out: &mut Vec<Enc>, f: impl FnOnce() -> T) {
        let o = self.one(f);
        if !out.contains(&o) {
            out.push(o);
        }
    }
    pub fn end(&mut self, results: &[Enc]) {
        self.endp(results, &[]);
    }
    /// `p`: what else was observed after the call (operands passed by reference, ...)
    pub fn endp(&mut self, results: &[Enc], p: &[Enc]) {
        self.with(|s| {
            let _ = write!(s.cur, "\"r\":[{}],\"p\":[{}]}}", results.join(","), p.join(","));
        });
    }
    /// `extra`: further JSON fields known only after the call
    pub fn endx(&mut self, results: &[Enc], p: &[Enc], extra: &str) {
        self.with(|s| {
            let _ = write!(s.cur, "{}\"r\":[{}],\"p\":[{}]}}", extra, results.join(","), p.join(","));
        });
    }
}

/// Encode a string as its character codes.
pub fn enc_str(s: &str) -> Enc {
    let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
    format!("[{}]", v.join(","))
}
pub fn enc_small(n: i64) -> Enc {
    n.to_string()
}

// ---------------------------------------------------------------- bundles of bounds
use mixed_num::*;
/// converts from and to every primitive
pub trait AllConv:
    MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize>
    + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize>
    + MixedNumConversion<f32> + MixedNumConversion<f64>
{
}
impl<T> AllConv for T where
    T: MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize>
    + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize>
    + MixedNumConversion<f32> + MixedNumConversion<f64>
{
}
/// signed element types, integers included
pub trait SNum: Num + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedAbs + MixedPowi + AllConv {}
impl<T> SNum for T where T: Num + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedAbs + MixedPowi + AllConv {}
/// signed fixed point and floats
pub trait SReal: SNum + MixedPi + MixedSqrt + MixedTrigonometry + MixedWrapPhase + MixedExp + std::fmt::Display {}
impl<T> SReal for T where T: SNum + MixedPi + MixedSqrt + MixedTrigonometry + MixedWrapPhase + MixedExp + std::fmt::Display {}

/// the complex numbers over the core values: 64 of them
pub fn cores<T: Num>() -> Vec<Cartesian<T>> {
    let c = T::core();
    c.iter().flat_map(|a| c.iter().map(move |b| Cartesian::new(*a, *b))).collect()
}
/// pairs of them: all 4096 for floats (every `every`-th on average), `few` random ones for the exact types
pub fn core_pairs<T: Num>(g: &mut Rng, every: usize, few: usize) -> Vec<(Cartesian<T>, Cartesian<T>)> {
    let c = cores::<T>();
    if T::TY.k == 2 {
        let mut v = vec![];
        for a in &c { for b in &c { if g.below(every as u64) == 0 { v.push((*a, *b)); } } }
        v
    } else {
        (0..few).map(|_| (g.pick(&c), g.pick(&c))).collect()
    }
}
/// every special value of the type, and its neighbours
pub fn all_specials<T: Num>() -> Vec<T> {
    let mut v = vec![];
    for x in T::specials() { for n in [0, 1, -1, 2, -2] { v.push(x.step(n)); } }
    v
}

pub fn cplx<T: Num>(g: &mut Rng) -> Cartesian<T> {
    match g.below(11) {
        0 => Cartesian::new(T::gen(g), T::gen(g)),
        10 => { let a = T::gen_mod(g); let b = if g.bool() { a } else { Num::neg(&a) }; Cartesian::new(a, b.jit(g)) }
        1 => Cartesian::new(T::gen(g), T::near(0.0)),
        2 => Cartesian::new(T::near(0.0), T::gen(g)),
        3 => { let a = T::gen_mod(g); Cartesian::new(a, a) }
        4 => Cartesian::new(T::near(g.below(9) as f64 - 4.0), T::near(g.below(9) as f64 - 4.0)),
        _ => Cartesian::new(T::gen_mod(g), T::gen_mod(g)),
    }
}

/// an operand related to x: the same, its conjugate, opposite, mirror images, turned by quarter turns, equal in one
/// component, and neighbours of those
pub fn mate<T: Num>(g: &mut Rng, x: Cartesian<T>) -> Cartesian<T> {
    let (a, b) = (x.re, x.im);
    let (c, d) = match g.below(9) {
        0 | 1 => (a, b),
        2 => (a, Num::neg(&b)),
        3 => (Num::neg(&a), Num::neg(&b)),
        4 => (b, a),
        5 => (Num::neg(&b), a),
        6 => (b, Num::neg(&a)),
        7 => (a, T::gen_mod(g)),
        _ => (T::gen_mod(g), b),
    };
    match g.below(6) {
        0 => Cartesian::new(c.jit(g), d),
        1 => Cartesian::new(c, d.jit(g)),
        _ => Cartesian::new(c, d),
    }
}

/// angles: multiples of pi/8 and pi/16 of the type and their neighbours, uniform angles, angles many turns away
pub fn angle<T: Num>(g: &mut Rng, turns: f64) -> T {
    let pi = std::f64::consts::PI;
    match g.below(14) {
        12 | 13 => T::near((g.below(17) as f64 - 8.0) * pi / g.pick(&[8.0, 4.0, 2.0, 2.0])).jit(g),
        0 | 1 => { let n = g.below(9) as i64 - 4; T::near((g.below(17) as f64 - 8.0) * pi / 8.0).step(n) }
        2 => { let n = g.below(5) as i64 - 2; T::near((g.below(129) as f64 - 64.0) * pi / 16.0).step(n) }
        3 => T::lim(g, 0),
        4 => T::gen(g),
        5 => T::near(g.unit() * turns * 2.0 * pi),
        6 => { let k = (g.unit() * turns).floor() * 2.0 + 1.0; let n = g.below(5) as i64 - 2; T::near(k * pi).step(n) }
        7 => { let k = (g.unit() * turns).floor(); let n = g.below(5) as i64 - 2; T::near(k * pi / 2.0).step(n) }
        _ => T::near(g.unit() * pi),
    }
}
/// pairs that reach every octant and the boundaries between them
pub fn pair<T: Num>(g: &mut Rng) -> (T, T) {
    match g.below(12) {
        0 => (T::gen(g), T::gen(g)),
        // anything from equal magnitudes to the extremes of their ratio, in every quadrant
        10 => { let a = T::gen_mod(g); let b = (if g.bool() { a } else { Num::neg(&a) }).jit(g); if g.bool() { (a, b) } else { (b, a) } }
        11 => { let ib = T::TY.ib().min(60); (T::lim(g, ib), T::lim(g, ib)) }
        1 => { let a = T::gen(g); let n = g.below(3) as i64 - 1; (a, a.step(n)) }
        2 => { let a = T::gen_mod(g); let n = g.below(3) as i64 - 1; let b = Num::neg(&a).step(n); if g.bool() { (a, b) } else { (b, a) } }
        3 => (T::near(0.0), T::gen(g)),
        4 => (T::gen(g), T::near(0.0)),
        5 => (T::lim(g, 0), T::lim(g, (T::TY.ib() - 1).min(40))),
        6 => (T::lim(g, (T::TY.ib() - 1).min(40)), T::lim(g, 0)),
        7 => { let t = g.unit() * std::f64::consts::PI; let m = 2f64.powf(g.unit() * (T::TY.ib() as f64 / 2.0 - 0.5).min(20.0)); (T::near(m * t.sin()), T::near(m * t.cos())) }
        8 => { let a = T::lim(g, (T::TY.ib() / 2).min(30)); let n = g.below(33) as i64 - 16; (T::near(0.0).step(n), a) }
        _ => (T::gen_mod(g), T::gen_mod(g)),
    }
}

/// the middle between two floats of p digits, or a value near it, at any distance down to the last bit of S
pub fn tie<S: Num>(g: &mut Rng, p: u32) -> S {
    let w = if S::TY.k == 2 { if S::TY.w == 32 { 24 } else { 53 } } else { S::TY.w - S::TY.s };
    if w <= p { return S::gen(g); }
    let k = p + g.below((w - p) as u64) as u32; // top bit
    let low = k - p; // the bit of half a unit
    let lead = (g.next128() & ((1u128 << (p - 1)) - 1)) & if g.bool() { u128::MAX } else { 3 };
    let m = (1u128 << k) | (lead << (low + 1)) | (1u128 << low);
    let d = if low == 0 { 0 } else { match g.below(3) { 0 => 0, 1 => 1, _ => 1u128 << g.below(low as u64) } };
    let m = if g.bool() { m + d } else { m - d };
    let neg = g.bool();
    S::raw(m, neg, g)
}
/// a source value aimed at the borders of the target type
pub fn aimed<S: Num, T: Num>(g: &mut Rng) -> S {
    if T::TY.k == 2 && g.below(3) == 0 { return tie::<S>(g, if T::TY.w == 32 { 24 } else { 53 }); }
    match g.below(10) {
        0 => { let n = g.below(7) as i64 - 3; S::near(T::max_v().approx()).step(n) }
        1 => { let n = g.below(7) as i64 - 3; S::near(T::min_v().approx()).step(n) }
        2 => { let x = T::gen(g).approx(); let n = g.below(5) as i64 - 2; if x.is_nan() { S::gen(g) } else { S::near(x).step(n) } }
        // half way between two values of the target
        3 | 4 => {
            let u = 2f64.powi(-(T::TY.f as i32));
            let k = (g.unit() * 2f64.powi(g.below(T::TY.w.min(50) as u64) as i32)).floor();
            let n = g.below(3) as i64 - 1;
            S::near((k + 0.5) * u).step(n)
        }
        5 => { let k = 2f64.powi(g.below(130) as i32); let n = g.below(5) as i64 - 2; S::near(if g.bool() { k } else { -k }).step(n) }
        6 => S::bits(g),
        _ => S::gen(g),
    }
}
