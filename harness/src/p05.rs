//! P05: ordinals are ordered as the values are.
use std::cmp::Ordering;
use std::num::*;

use either::Either;

use crate::keys::*;
use crate::model::*;

macro_rules! ordered {
    ($($name:ident, $t:ty;)*) => {
        crate::harnesses! { $( #[unwind(6)] fn $name() { law_order::<$t>() } )* }
    };
}
ordered! {
    bool_, bool;
    u8_, u8;
    i8_, i8;
    u16_, u16;
    i16_, i16;
    u32_, u32;
    i32_, i32;
    char_, char;
    ordering_, Ordering;
    nzu8, NonZeroU8;
    nzi8, NonZeroI8;
    nzu16, NonZeroU16;
    nzi16, NonZeroI16;
    nzu32, NonZeroU32;
    nzi32, NonZeroI32;
    nzu64, NonZeroU64;
    nzi64, NonZeroI64;
    nzusize, NonZeroUsize;
    nzisize, NonZeroIsize;
    option, Option<i8>;
    option_big, Option<NonZeroI32>;
    result, Result<u8, i8>;
    result_big, Result<u32, i32>;
    either_, Either<i8, Option<bool>>;
    boxed, Box<i16>;
    unit, ();
    tuple_1, (i8,);
    tuple_2, (i8, u8);
    tuple_2_odd, (i16, K<3>);
    tuple_3, (bool, K<3>, i8);
    tuple_4, (K<2>, K<3>, K<5>, bool);
    tuple_5, (K<2>, K<3>, bool, K<4>, K<3>);
    array_0, [u8; 0];
    array_1, [i8; 1];
    array_2, [i8; 2];
    array_3, [K<3>; 3];
    array_4, [K<2>; 4];
    d_newtype, DNewtype;
    d_tuple3, DTuple3;
    d_record, DRecord;
    d_four, DFour;
    d_wide, DWide;
    d_generic, DGeneric<i8, K<3>>;
    d_seven, DSeven;
    d_mixed, DMixed;
    d_holes, DHoles;
    d_big, DBig;
    d_either, DEither<K<3>, i8>;
    d_nested, DNested;
    d_eight, DEight;
    d_nine, DNine;
    d_names, DNames;
    d_names2, DNames2;
    d_tail, DTail;
    d_deep, DDeep;
    d_many, DMany;
    d_generic_enum, DGenericEnum<K<3>, bool>;
}
