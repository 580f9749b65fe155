//! P02: `Option`, `Result`, `Either`, `Box` and `Infallible` are in bijection with
//! `0..ORDINAL_SIZE` whenever their components are.
use std::convert::Infallible;
use std::num::*;

use either::Either;

use crate::keys::*;
use crate::model::*;

type Half = K<{ 1 << 63 }>;
type AlmostHalf = K<{ (1 << 63) - 1 }>;
type AlmostAll = K<{ usize::MAX - 1 }>;

macro_rules! both {
    ($($t:ty, $from:ident, $value:ident;)*) => {
        crate::harnesses! {
            #[unwind(2)] fn infallible_from() { law_from::<Infallible>() }
            #[unwind(2)] fn result_void_from() { law_from::<Result<K<0>, K<0>>>() }
            #[unwind(2)] fn either_void_from() { law_from::<Either<K<0>, K<0>>>() }
            $(
            #[unwind(2)] fn $from() { law_from::<$t>() }
            #[unwind(2)] fn $value() { law_value::<$t>() }
        )* }
    };
}
both! {
    Option<K<0>>, option_0_from, option_0_value;
    Option<K<1>>, option_1_from, option_1_value;
    Option<u8>, option_u8_from, option_u8_value;
    Option<char>, option_char_from, option_char_value;
    Option<NonZeroI32>, option_nzi32_from, option_nzi32_value;
    Option<Option<Option<bool>>>, option3_from, option3_value;
    Option<AlmostAll>, option_max_from, option_max_value;
    Result<K<0>, K<3>>, result_0_3_from, result_0_3_value;
    Result<K<3>, K<0>>, result_3_0_from, result_3_0_value;
    Result<K<1>, K<64>>, result_1_64_from, result_1_64_value;
    Result<u8, bool>, result_u8_bool_from, result_u8_bool_value;
    Result<u32, i32>, result_u32_i32_from, result_u32_i32_value;
    Result<char, Option<char>>, result_char_from, result_char_value;
    Result<Half, AlmostHalf>, result_max_from, result_max_value;
    Result<AlmostHalf, Half>, result_max2_from, result_max2_value;
    Either<K<0>, K<3>>, either_0_3_from, either_0_3_value;
    Either<K<3>, K<0>>, either_3_0_from, either_3_0_value;
    Either<K<65>, K<2>>, either_65_2_from, either_65_2_value;
    Either<i16, bool>, either_i16_bool_from, either_i16_bool_value;
    Either<NonZeroU32, i32>, either_nzu32_i32_from, either_nzu32_i32_value;
    Either<Half, AlmostHalf>, either_max_from, either_max_value;
    Box<K<3>>, box_3_from, box_3_value;
    Box<char>, box_char_from, box_char_value;
    Box<NonZeroI64>, box_nzi64_from, box_nzi64_value;
    Box<Option<Result<bool, K<3>>>>, box_nested_from, box_nested_value;
    Option<Result<Box<u8>, Either<bool, i8>>>, nested_from, nested_value;
}
