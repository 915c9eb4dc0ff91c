# writes src/types.rs: macros that apply a generic function to every supported element type
def lst(sign, w, n): return [f"fixed::Fixed{sign}{w}<fixed::types::extra::U{k}>" for k in range(n)]
sf=[t for w,n in((8,6),(16,14),(32,30),(64,62)) for t in lst('I',w,n)]
uf=[t for w,n in((8,6),(16,14),(32,30),(64,62)) for t in lst('U',w,n)]
si=['i8','i16','i32','i64','i128','isize']; ui=['u8','u16','u32','u64','u128','usize']
def mac(name, ts):
    return f"#[macro_export]\nmacro_rules! {name} {{\n    ($f:ident $(, $a:expr)*) => {{\n" + ''.join(f"        $f::<{t}>($($a),*);\n" for t in ts) + "    };\n}\n"
def macm(name, ts):
    return f"#[macro_export]\nmacro_rules! {name}_m {{\n    ($m:ident $(, $a:tt)*) => {{\n" + ''.join(f"        $m!({t} $(, $a)*);\n" for t in ts) + "    };\n}\n"
s="// generated by gen_types.py\n"
for n,ts in (('signed_fixed',sf),('unsigned_fixed',uf),('signed_ints',si),('unsigned_ints',ui),('floats',['f32','f64'])):
    s+=mac(n,ts)+macm(n,ts)
open('src/types.rs','w').write(s)
