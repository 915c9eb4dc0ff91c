// generated by gen_types.py
#[macro_export]
macro_rules! signed_fixed {
    ($f:ident $(, $a:expr)*) => {
        $f::<fixed::FixedI8<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedI8<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedI8<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedI8<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedI8<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedI8<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U6>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U7>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U8>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U9>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U10>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U11>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U12>>($($a),*);
        $f::<fixed::FixedI16<fixed::types::extra::U13>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U6>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U7>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U8>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U9>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U10>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U11>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U12>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U13>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U14>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U15>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U16>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U17>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U18>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U19>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U20>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U21>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U22>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U23>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U24>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U25>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U26>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U27>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U28>>($($a),*);
        $f::<fixed::FixedI32<fixed::types::extra::U29>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U6>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U7>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U8>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U9>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U10>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U11>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U12>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U13>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U14>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U15>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U16>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U17>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U18>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U19>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U20>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U21>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U22>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U23>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U24>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U25>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U26>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U27>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U28>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U29>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U30>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U31>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U32>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U33>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U34>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U35>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U36>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U37>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U38>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U39>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U40>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U41>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U42>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U43>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U44>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U45>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U46>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U47>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U48>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U49>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U50>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U51>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U52>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U53>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U54>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U55>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U56>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U57>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U58>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U59>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U60>>($($a),*);
        $f::<fixed::FixedI64<fixed::types::extra::U61>>($($a),*);
    };
}
#[macro_export]
macro_rules! signed_fixed_m {
    ($m:ident $(, $a:tt)*) => {
        $m!(fixed::FixedI8<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedI8<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedI8<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedI8<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedI8<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedI8<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U6> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U7> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U8> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U9> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U10> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U11> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U12> $(, $a)*);
        $m!(fixed::FixedI16<fixed::types::extra::U13> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U6> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U7> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U8> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U9> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U10> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U11> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U12> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U13> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U14> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U15> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U16> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U17> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U18> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U19> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U20> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U21> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U22> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U23> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U24> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U25> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U26> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U27> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U28> $(, $a)*);
        $m!(fixed::FixedI32<fixed::types::extra::U29> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U6> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U7> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U8> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U9> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U10> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U11> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U12> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U13> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U14> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U15> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U16> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U17> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U18> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U19> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U20> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U21> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U22> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U23> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U24> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U25> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U26> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U27> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U28> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U29> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U30> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U31> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U32> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U33> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U34> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U35> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U36> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U37> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U38> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U39> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U40> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U41> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U42> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U43> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U44> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U45> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U46> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U47> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U48> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U49> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U50> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U51> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U52> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U53> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U54> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U55> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U56> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U57> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U58> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U59> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U60> $(, $a)*);
        $m!(fixed::FixedI64<fixed::types::extra::U61> $(, $a)*);
    };
}
#[macro_export]
macro_rules! unsigned_fixed {
    ($f:ident $(, $a:expr)*) => {
        $f::<fixed::FixedU8<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedU8<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedU8<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedU8<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedU8<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedU8<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U6>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U7>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U8>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U9>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U10>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U11>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U12>>($($a),*);
        $f::<fixed::FixedU16<fixed::types::extra::U13>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U6>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U7>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U8>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U9>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U10>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U11>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U12>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U13>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U14>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U15>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U16>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U17>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U18>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U19>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U20>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U21>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U22>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U23>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U24>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U25>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U26>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U27>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U28>>($($a),*);
        $f::<fixed::FixedU32<fixed::types::extra::U29>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U0>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U1>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U2>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U3>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U4>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U5>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U6>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U7>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U8>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U9>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U10>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U11>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U12>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U13>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U14>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U15>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U16>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U17>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U18>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U19>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U20>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U21>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U22>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U23>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U24>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U25>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U26>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U27>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U28>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U29>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U30>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U31>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U32>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U33>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U34>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U35>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U36>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U37>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U38>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U39>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U40>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U41>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U42>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U43>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U44>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U45>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U46>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U47>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U48>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U49>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U50>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U51>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U52>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U53>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U54>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U55>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U56>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U57>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U58>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U59>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U60>>($($a),*);
        $f::<fixed::FixedU64<fixed::types::extra::U61>>($($a),*);
    };
}
#[macro_export]
macro_rules! unsigned_fixed_m {
    ($m:ident $(, $a:tt)*) => {
        $m!(fixed::FixedU8<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedU8<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedU8<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedU8<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedU8<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedU8<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U6> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U7> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U8> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U9> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U10> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U11> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U12> $(, $a)*);
        $m!(fixed::FixedU16<fixed::types::extra::U13> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U6> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U7> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U8> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U9> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U10> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U11> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U12> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U13> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U14> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U15> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U16> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U17> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U18> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U19> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U20> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U21> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U22> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U23> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U24> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U25> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U26> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U27> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U28> $(, $a)*);
        $m!(fixed::FixedU32<fixed::types::extra::U29> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U0> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U1> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U2> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U3> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U4> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U5> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U6> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U7> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U8> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U9> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U10> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U11> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U12> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U13> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U14> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U15> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U16> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U17> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U18> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U19> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U20> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U21> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U22> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U23> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U24> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U25> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U26> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U27> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U28> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U29> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U30> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U31> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U32> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U33> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U34> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U35> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U36> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U37> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U38> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U39> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U40> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U41> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U42> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U43> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U44> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U45> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U46> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U47> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U48> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U49> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U50> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U51> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U52> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U53> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U54> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U55> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U56> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U57> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U58> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U59> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U60> $(, $a)*);
        $m!(fixed::FixedU64<fixed::types::extra::U61> $(, $a)*);
    };
}
#[macro_export]
macro_rules! signed_ints {
    ($f:ident $(, $a:expr)*) => {
        $f::<i8>($($a),*);
        $f::<i16>($($a),*);
        $f::<i32>($($a),*);
        $f::<i64>($($a),*);
        $f::<i128>($($a),*);
        $f::<isize>($($a),*);
    };
}
#[macro_export]
macro_rules! signed_ints_m {
    ($m:ident $(, $a:tt)*) => {
        $m!(i8 $(, $a)*);
        $m!(i16 $(, $a)*);
        $m!(i32 $(, $a)*);
        $m!(i64 $(, $a)*);
        $m!(i128 $(, $a)*);
        $m!(isize $(, $a)*);
    };
}
#[macro_export]
macro_rules! unsigned_ints {
    ($f:ident $(, $a:expr)*) => {
        $f::<u8>($($a),*);
        $f::<u16>($($a),*);
        $f::<u32>($($a),*);
        $f::<u64>($($a),*);
        $f::<u128>($($a),*);
        $f::<usize>($($a),*);
    };
}
#[macro_export]
macro_rules! unsigned_ints_m {
    ($m:ident $(, $a:tt)*) => {
        $m!(u8 $(, $a)*);
        $m!(u16 $(, $a)*);
        $m!(u32 $(, $a)*);
        $m!(u64 $(, $a)*);
        $m!(u128 $(, $a)*);
        $m!(usize $(, $a)*);
    };
}
#[macro_export]
macro_rules! floats {
    ($f:ident $(, $a:expr)*) => {
        $f::<f32>($($a),*);
        $f::<f64>($($a),*);
    };
}
#[macro_export]
macro_rules! floats_m {
    ($m:ident $(, $a:tt)*) => {
        $m!(f32 $(, $a)*);
        $m!(f64 $(, $a)*);
    };
}
