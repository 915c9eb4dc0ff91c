#![allow(unused_imports)]
// conversions between real types, both directions
use mixed_num::*;
use mnharness::*;

fn pairs<A: Num + MixedNumConversion<B>, B: Num>(r: &mut Rec, n: usize) {
    let mut g = r.rng::<A>(170 + 1000 * B::TY.id());
    r.hist(A::TY, "");
    let s = format!("\"S\":{},", B::TY.json());
    for _ in 0..n {
        let b: B = aimed::<B, A>(&mut g);
        r.beginx("conv", &s, &[b.enc()]);
        let o = r.one(|| A::mixed_from_num(b));
        r.end(&[o]);
        let a: A = aimed::<A, B>(&mut g);
        r.beginx("convto", &s, &[a.enc()]);
        let o = r.one(|| { let z: B = a.mixed_to_num(); z });
        r.end(&[o]);
    }
}
fn all<A: Num + AllConv>(r: &mut Rec, n: usize) {
    macro_rules! p { ($($b:ty)*) => { $( pairs::<A, $b>(r, n); )* } }
    p!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);
}
fn main() {
    let mut rec = Rec::start();
    let r = &mut rec;
    let n = r.q(30, 500);
    signed_fixed!(all, r, n);
    unsigned_fixed!(all, r, n);
    let n = 2 * n;
    signed_ints!(all, r, n);
    unsigned_ints!(all, r, n);
    let n = 4 * n;
    floats!(all, r, n);
    rec.finish();
}
