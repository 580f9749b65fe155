//! P04: derived implementations are in bijection with `0..ORDINAL_SIZE`, numbering enum
//! variants in declaration order and fields lexicographically.
use std::convert::Infallible;

use either::Either;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;

macro_rules! derived {
    ($($t:ty, $from:ident, $value:ident;)*) => {
        crate::harnesses! {
            #[unwind(2)] fn void_from() { law_from::<DVoid>() }
            #[unwind(2)] fn uninhabited_struct_from() { law_from::<DUninhabited>() }
            #[unwind(2)] fn uninhabited_enum_from() { law_from::<DNoneInhabited>() }
            #[unwind(2)] fn generic_void_from() { law_from::<DGeneric<Infallible, u8>>() }
            #[unwind(2)] fn layout() { documented_layout() }
            $(
            #[unwind(5)] fn $from() { law_from::<$t>() }
            #[unwind(5)] fn $value() { law_value::<$t>() }
        )* }
    };
}
derived! {
    DUnit, unit_from, unit_value;
    DEmptyTuple, empty_tuple_from, empty_tuple_value;
    DEmptyRecord, empty_record_from, empty_record_value;
    DNewtype, newtype_from, newtype_value;
    DTuple3, tuple3_from, tuple3_value;
    DRecord, record_from, record_value;
    DFour, four_from, four_value;
    DWide, wide_from, wide_value;
    DRaw, raw_from, raw_value;
    DGeneric<K<3>, K<4>>, generic_from, generic_value;
    DGeneric<Either<bool, K<3>>, char>, generic2_from, generic2_value;
    DConst<0>, const0_from, const0_value;
    DConst<2>, const2_from, const2_value;
    DOne, one_from, one_value;
    DOneTuple, one_tuple_from, one_tuple_value;
    DSeven, seven_from, seven_value;
    DDiscr, discr_from, discr_value;
    DMixed, mixed_from, mixed_value;
    DHoles, holes_from, holes_value;
    DBig, big_from, big_value;
    DEither<K<0>, K<3>>, either_0_3_from, either_0_3_value;
    DEither<K<3>, u8>, either_3_u8_from, either_3_u8_value;
    DEight, eight_from, eight_value;
    DNine, nine_from, nine_value;
    DNames, names_from, names_value;
    DNames2, names2_from, names2_value;
    DTail, tail_from, tail_value;
    DDeep, deep_from, deep_value;
    DMany, many_from, many_value;
    DGenericEnum<K<3>, bool>, generic_enum_from, generic_enum_value;
    DGenericEnum<Infallible, u16>, generic_enum2_from, generic_enum2_value;
    DNested, nested_from, nested_value;
}

/// The documented numbering, over symbolic fields.
fn documented_layout() {
    let (m, b) = (K::<3>::arb(), bool::arb());
    let o = Option::<bool>::arb();
    let od = o.ordinal();
    assert!(DTuple3(b, m, o).ordinal() == (b as usize * 3 + m.ord()) * 3 + od);
    let r = DRecord { a: Arb::arb(), m: b, z: Arb::arb() };
    assert!(r.ordinal() == (r.z.ord() * 256 + (r.a as i32 + 128) as usize) * 2 + b as usize);
    // DMixed: A | B(2) | C(3*3) | D | E | F(2*3*5) | G
    assert!(DMixed::ORDINAL_SIZE == 1 + 2 + 9 + 1 + 1 + 30 + 1);
    assert!(DMixed::A.ordinal() == 0);
    assert!(DMixed::B(b).ordinal() == 1 + b as usize);
    assert!(DMixed::C { x: o, y: m }.ordinal() == 3 + m.ord() * 3 + od);
    assert!(DMixed::D().ordinal() == 12);
    assert!(DMixed::E {}.ordinal() == 13);
    let (x, y, z) = (K::<2>::arb(), K::<3>::arb(), K::<5>::arb());
    assert!(DMixed::F(x, y, z).ordinal() == 14 + (x.ord() * 3 + y.ord()) * 5 + z.ord());
    assert!(DMixed::G.ordinal() == 44);
    // Variants without values take no numbers.
    assert!(DHoles::ORDINAL_SIZE == 3);
    assert!(DHoles::Yes1(b).ordinal() == b as usize);
    assert!(DHoles::Yes2.ordinal() == 2);
    // Explicit discriminants are ignored.
    assert!(DDiscr::X.ordinal() == 0 && DDiscr::Y.ordinal() == 1);
    assert!(DDiscr::Z.ordinal() == 2 && DDiscr::W.ordinal() == 3);
    // A 3 | B | C | D 2*3*2*5*2 | E | F | G none | H | I 3*2*2*2 | J
    assert!(DTail::ORDINAL_SIZE == 3 + 1 + 1 + 120 + 1 + 1 + 1 + 24 + 1);
    assert!(DTail::B.ordinal() == 3 && DTail::C.ordinal() == 4 && DTail::E.ordinal() == 125);
    assert!(DTail::F(()).ordinal() == 126 && DTail::H((), K::at(0)).ordinal() == 127 && DTail::J.ordinal() == 152);
    let i = DTail::I(m, b, K::at(1), x);
    assert!(i.ordinal() == 128 + ((m.ord() * 2 + b as usize) * 2 + 1) * 2 + x.ord());
    let many = DMany::arb();
    assert!(many.ordinal() == many as usize && DMany::ORDINAL_SIZE == 70);
    let lo = i32::arb();
    assert!(DBig::B { lo }.ordinal() == (1usize << 32) + (lo as i64 + (1i64 << 31)) as usize);
}
