#![allow(unused_imports)]
// decibels
use mixed_num::*;
use mnharness::*;

fn run<T: SReal + DbMag + DbPow>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<T>(200);
    let top = if T::TY.w == 32 { 38.53 } else { 308.25 };
    let bot = if T::TY.w == 32 { 45.2 } else { 323.6 };
    macro_rules! d { ($f:expr, $x:expr, $m:ident, $back:ident) => {{
        let x: T = $x;
        r.beginx("db", &format!("\"f\":\"{}\",", $f), &[x.enc()]);
        let o = r.one(|| x.$m());
        let p = r.one(|| x.$m().$back());
        r.endp(&[o], &[p]);
    }} }
    macro_rules! all4 { ($x:expr) => {{
        d!("mag2db", $x, mixed_mag2db, mixed_db2mag); d!("pow2db", $x, mixed_pow2db, mixed_db2pow);
        d!("db2mag", $x, mixed_db2mag, mixed_mag2db); d!("db2pow", $x, mixed_db2pow, mixed_pow2db);
    }} }
    // every special value, whole decibels, powers of ten and of two
    for (i, x) in all_specials::<T>().into_iter().enumerate() {
        if i % 16 == 0 { r.hist(T::TY, ""); }
        all4!(x);
    }
    for k in -330i32..=330 {
        if k % 32 == 0 { r.hist(T::TY, ""); }
        let x = T::near(k as f64);
        d!("db2mag", x, mixed_db2mag, mixed_mag2db); d!("db2pow", x, mixed_db2pow, mixed_pow2db);
        let x = T::near(k as f64 * if T::TY.w == 32 { 3.0 } else { 20.0 } + 0.5);
        d!("db2mag", x, mixed_db2mag, mixed_mag2db); d!("db2pow", x, mixed_db2pow, mixed_pow2db);
        let x = T::near(10f64.powi(k));
        d!("mag2db", x, mixed_mag2db, mixed_db2mag); d!("pow2db", x, mixed_pow2db, mixed_db2pow);
        let x = T::near(2f64.powi(k));
        d!("mag2db", x, mixed_mag2db, mixed_db2mag); d!("pow2db", x, mixed_pow2db, mixed_db2pow);
    }
    for i in 0..n {
        if i % 32 == 0 { r.hist(T::TY, ""); }
        for k in 0..2 {
            let x: T = match g.below(7) {
                0 => T::gen(&mut g),
                1 => T::bits(&mut g),
                2 => { let n = g.below(9) as i64 - 4; T::near(10f64.powi(g.below(60) as i32 - 30)).step(n) }
                3 => { let n = g.below(41) as i64 - 20; T::near(1.0).step(n) }
                4 => T::near(g.unit().abs()),
                5 => T::near(g.unit().abs() * 1000.0),
                _ => T::near(10f64.powf(g.unit() * top)),
            };
            if k == 0 { d!("mag2db", x, mixed_mag2db, mixed_db2mag) } else { d!("pow2db", x, mixed_pow2db, mixed_db2pow) }
            let f = if k == 0 { 20.0 } else { 10.0 };
            let x: T = match g.below(7) {
                0 => T::gen(&mut g),
                1 => { let n = g.below(9) as i64 - 4; T::near(if g.bool() { top } else { -bot } * f).step(n) }
                2 => T::near((g.unit() * top * f).floor()),
                3 => T::near(g.unit()),
                4 => T::near((g.below(61) as f64 - 30.0) * 10.0),
                5 => T::bits(&mut g),
                _ => T::near(g.unit() * top * f),
            };
            if k == 0 { d!("db2mag", x, mixed_db2mag, mixed_mag2db) } else { d!("db2pow", x, mixed_db2pow, mixed_pow2db) }
        }
    }
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(3000, 50000);
    floats!(run, r, n);
    rec.finish();
}
