//! P01: built-in scalars are in bijection with `0..ORDINAL_SIZE`.
use std::cmp::Ordering;
use std::num::*;

use crate::model::*;

macro_rules! scalar {
    ($($t:ty, $from:ident, $value:ident;)*) => {
        crate::harnesses! { $(
            #[unwind(2)] fn $from() { law_from::<$t>() }
            #[unwind(2)] fn $value() { law_value::<$t>() }
        )* }
    };
}
scalar! {
    bool, bool_from, bool_value;
    u8, u8_from, u8_value;
    i8, i8_from, i8_value;
    u16, u16_from, u16_value;
    i16, i16_from, i16_value;
    u32, u32_from, u32_value;
    i32, i32_from, i32_value;
    char, char_from, char_value;
    Ordering, ordering_from, ordering_value;
    NonZeroU8, nzu8_from, nzu8_value;
    NonZeroI8, nzi8_from, nzi8_value;
    NonZeroU16, nzu16_from, nzu16_value;
    NonZeroI16, nzi16_from, nzi16_value;
    NonZeroU32, nzu32_from, nzu32_value;
    NonZeroI32, nzi32_from, nzi32_value;
    NonZeroU64, nzu64_from, nzu64_value;
    NonZeroI64, nzi64_from, nzi64_value;
    NonZeroUsize, nzusize_from, nzusize_value;
    NonZeroIsize, nzisize_from, nzisize_value;
}
