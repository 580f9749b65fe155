//! P03: tuples and arrays are in bijection with `0..ORDINAL_SIZE`, in lexicographic order of
//! their components' ordinals.
use std::num::*;

use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;

/// Lexicographic weight of an array given its elements' ordinals, by definition.
pub fn lex(ords: &[usize], sizes: &[usize]) -> usize {
    let mut r = 0;
    let mut i = 0;
    while i < ords.len() {
        r = r * sizes[i] + ords[i];
        i += 1;
    }
    r
}

/// Wide tuples: no `PartialEq`/`Debug` in std above 12, so compared field by field.
macro_rules! tuple_law {
    ($(($p:ident, $n:tt, $s:literal))*) => {{
        $( let $p = nd::below($s); )*
        let v = ($(K::<$s>::at($p),)*);
        let o = v.ordinal();
        assert!(o == lex(&[$($p),*], &[$($s),*]), "tuple ordinal is not lexicographic");
        fn size<T: Ordinal>(_: &T) -> usize { T::ORDINAL_SIZE }
        assert!(o < size(&v));
        fn back<T: Ordinal>(_: &T, o: usize) -> T { T::from_ordinal(o).unwrap() }
        let w = back(&v, o);
        $( assert!(w.$n.ord() == $p, "tuple field lost in the round trip"); )*
    }};
}

macro_rules! array_law {
    ($s:literal, $n:literal) => {{
        let ords: [usize; $n] = std::array::from_fn(|_| nd::below($s));
        let v: [K<$s>; $n] = std::array::from_fn(|i| K::at(ords[i]));
        let o = v.ordinal();
        assert!(o == lex(&ords, &[$s; $n]), "array ordinal is not lexicographic");
        assert!(o < <[K<$s>; $n]>::ORDINAL_SIZE);
        let w = <[K<$s>; $n]>::from_ordinal(o).unwrap();
        let mut i = 0;
        while i < $n {
            assert!(w[i].ord() == ords[i], "array element lost in the round trip");
            i += 1;
        }
    }};
}

pub(crate) use array_law;

type T5 = (K<2>, K<3>, K<4>, K<5>, K<6>);
type T6 = (K<2>, K<3>, K<4>, K<1>, K<6>, K<5>);
type T7 = (K<2>, K<3>, K<4>, K<1>, K<6>, K<5>, K<2>);
type T8 = (K<2>, K<3>, K<4>, K<1>, K<6>, K<5>, K<2>, K<3>);
type T9 = (K<2>, K<4>, K<2>, K<1>, K<2>, K<3>, K<2>, K<2>, K<4>);
type T10 = (K<2>, K<4>, K<2>, K<1>, K<2>, K<3>, K<2>, K<2>, K<4>, K<2>);
type T11 = (K<2>, K<4>, K<2>, K<1>, K<2>, K<3>, K<2>, K<2>, K<4>, K<2>, K<1>);
type T13 = (K<2>, K<4>, K<2>, K<1>, K<2>, K<3>, K<2>, K<2>, K<4>, K<2>, K<1>, K<2>, K<2>);
type T14 = (K<2>, K<4>, K<2>, K<1>, K<2>, K<3>, K<2>, K<2>, K<4>, K<2>, K<1>, K<2>, K<2>, K<1>);
type T15 = (K<2>, K<4>, K<2>, K<1>, K<2>, K<3>, K<2>, K<2>, K<4>, K<2>, K<1>, K<2>, K<1>, K<2>, K<2>);
type T12 = (K<2>, K<3>, K<1>, K<4>, K<2>, K<3>, K<1>, K<4>, K<2>, K<3>, K<1>, K<2>);
type T16 = (
    K<2>, K<3>, K<1>, K<2>, K<2>, K<2>, K<1>, K<3>, K<2>, K<2>, K<1>, K<3>, K<2>, K<2>, K<1>, K<3>,
);

crate::harnesses! {
    #[unwind(2)] fn tuple_0_from() { law_from::<()>() }
    #[unwind(2)] fn tuple_0_value() { law_value::<()>() }
    #[unwind(3)] fn tuple_1_from() { law_from::<(K<3>,)>() }
    #[unwind(3)] fn tuple_1_value() { tuple_law!((a, 0, 3)) }
    #[unwind(3)] fn tuple_1_max_from() { law_from::<(K<{ usize::MAX }>,)>() }
    #[unwind(3)] fn tuple_1_max_value() { law_value::<(K<{ usize::MAX }>,)>() }
    #[unwind(3)] fn tuple_2_from() { law_from::<(K<3>, K<5>)>() }
    #[unwind(4)] fn tuple_2_value() { tuple_law!((a, 0, 3) (b, 1, 5)) }
    #[unwind(2)] fn tuple_2_hole_from() { law_from::<(K<0>, u8)>() }
    #[unwind(2)] fn tuple_2_hole2_from() { law_from::<(u8, K<0>)>() }
    #[unwind(2)] fn tuple_2_wide_from() { law_from::<(NonZeroU32, u32)>() }
    #[unwind(2)] fn tuple_2_wide_value() { law_value::<(NonZeroU32, u32)>() }
    #[unwind(2)] fn tuple_2_odd_from() { law_from::<(i16, NonZeroI8)>() }
    #[unwind(2)] fn tuple_2_odd_value() { law_value::<(i16, NonZeroI8)>() }
    #[unwind(3)] fn tuple_3_from() { law_from::<(K<2>, K<3>, K<5>)>() }
    #[unwind(5)] fn tuple_3_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 5)) }
    #[unwind(2)] fn tuple_3_wide_from() { law_from::<(u16, i32, u8)>() }
    #[unwind(2)] fn tuple_3_wide_value() { law_value::<(u16, i32, u8)>() }
    #[unwind(2)] fn tuple_3_hole_from() { law_from::<(u8, K<0>, bool)>() }
    #[unwind(3)] fn tuple_4_from() { law_from::<(K<7>, K<3>, K<2>, K<5>)>() }
    #[unwind(6)] fn tuple_4_value() { tuple_law!((a, 0, 7) (b, 1, 3) (c, 2, 2) (d, 3, 5)) }
    #[unwind(2)] fn tuple_4_wide_from() { law_from::<(u8, i16, bool, i32)>() }
    #[unwind(2)] fn tuple_4_wide_value() { law_value::<(u8, i16, bool, i32)>() }
    #[unwind(3)] fn tuple_5_from() { law_from::<T5>() }
    #[unwind(7)] fn tuple_5_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 4) (d, 3, 5) (e, 4, 6)) }
    #[unwind(3)] fn tuple_6_from() { law_from_below::<T6>(Some(1 << 32)) }
    #[unwind(8)] fn tuple_6_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 4) (d, 3, 1) (e, 4, 6) (f, 5, 5)) }
    #[unwind(3)] fn tuple_7_from() { law_from_below::<T7>(Some(1 << 32)) }
    #[unwind(9)] fn tuple_7_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 4) (d, 3, 1) (e, 4, 6) (f, 5, 5) (g, 6, 2)) }
    #[unwind(3)] fn tuple_8_from() { law_from_below::<T8>(Some(1 << 32)) }
    #[unwind(10)] fn tuple_8_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 4) (d, 3, 1) (e, 4, 6) (f, 5, 5) (g, 6, 2) (h, 7, 3)) }
    #[unwind(11)] fn tuple_9_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 4) (d, 3, 1) (e, 4, 2) (f, 5, 3) (g, 6, 2) (h, 7, 3) (i, 8, 4)) }
    #[unwind(12)] fn tuple_10_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 4) (d, 3, 1) (e, 4, 2) (f, 5, 3) (g, 6, 2) (h, 7, 3) (i, 8, 4) (j, 9, 2)) }
    #[unwind(13)] fn tuple_11_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 4) (d, 3, 1) (e, 4, 2) (f, 5, 3) (g, 6, 2) (h, 7, 3) (i, 8, 4) (j, 9, 2) (k, 10, 3)) }
    #[unwind(14)] fn tuple_12_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 1) (d, 3, 4) (e, 4, 2) (f, 5, 3) (g, 6, 1) (h, 7, 4) (i, 8, 2) (j, 9, 3) (k, 10, 1) (l, 11, 2)) }
    #[unwind(3)] fn tuple_12_from() { law_from_below::<T12>(Some(1 << 16)) }
    #[unwind(15)] fn tuple_13_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 1) (d, 3, 2) (e, 4, 2) (f, 5, 2) (g, 6, 1) (h, 7, 3) (i, 8, 2) (j, 9, 2) (k, 10, 1) (l, 11, 3) (m, 12, 2)) }
    #[unwind(16)] fn tuple_14_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 1) (d, 3, 2) (e, 4, 2) (f, 5, 2) (g, 6, 1) (h, 7, 3) (i, 8, 2) (j, 9, 2) (k, 10, 1) (l, 11, 3) (m, 12, 2) (n, 13, 2)) }
    #[unwind(17)] fn tuple_15_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 1) (d, 3, 2) (e, 4, 2) (f, 5, 2) (g, 6, 1) (h, 7, 3) (i, 8, 2) (j, 9, 2) (k, 10, 1) (l, 11, 3) (m, 12, 2) (n, 13, 2) (o_, 14, 1)) }
    #[unwind(18)] fn tuple_16_value() { tuple_law!((a, 0, 2) (b, 1, 3) (c, 2, 1) (d, 3, 2) (e, 4, 2) (f, 5, 2) (g, 6, 1) (h, 7, 3) (i, 8, 2) (j, 9, 2) (k, 10, 1) (l, 11, 3) (m, 12, 2) (n, 13, 2) (o_, 14, 1) (p, 15, 3)) }
    #[unwind(3)] fn tuple_9_from() { law_from_below::<T9>(Some(1 << 16)) }
    #[unwind(3)] fn tuple_10_from() { law_from_below::<T10>(Some(1 << 16)) }
    #[unwind(3)] fn tuple_11_from() { law_from_below::<T11>(Some(1 << 16)) }
    #[unwind(3)] fn tuple_13_from() { law_from_below::<T13>(Some(1 << 16)) }
    #[unwind(3)] fn tuple_14_from() { law_from_below::<T14>(Some(1 << 16)) }
    #[unwind(3)] fn tuple_15_from() { law_from_below::<T15>(Some(1 << 16)) }
    #[unwind(3)] fn tuple_16_from() { law_from_below::<T16>(Some(1 << 16)) }

    #[unwind(2)] fn array_0_from() { law_from::<[u16; 0]>() }
    #[unwind(2)] fn array_0_value() { law_value::<[u16; 0]>() }
    #[unwind(2)] fn array_0_void_from() { law_from::<[K<0>; 0]>() }
    #[unwind(3)] fn array_1_void_from() { law_from::<[K<0>; 1]>() }
    #[unwind(4)] fn array_2_void_from() { law_from::<[K<0>; 2]>() }
    #[unwind(7)] fn array_4_unit_from() { law_from::<[K<1>; 4]>() }
    #[unwind(7)] fn array_4_unit_value() { array_law!(1, 4) }
    #[unwind(4)] fn array_1_from() { law_from::<[K<5>; 1]>() }
    #[unwind(4)] fn array_1_value() { array_law!(5, 1) }
    #[unwind(4)] fn array_1_max_from() { law_from::<[K<{ usize::MAX }>; 1]>() }
    #[unwind(5)] fn array_2_from() { law_from::<[K<3>; 2]>() }
    #[unwind(5)] fn array_2_value() { array_law!(3, 2) }
    #[unwind(5)] fn array_2_i8_from() { law_from::<[i8; 2]>() }
    #[unwind(5)] fn array_2_i8_value() { law_value::<[i8; 2]>() }
    #[unwind(6)] fn array_3_from() { law_from::<[K<3>; 3]>() }
    #[unwind(6)] fn array_3_value() { array_law!(3, 3) }
    #[unwind(6)] fn array_3_i16_from() { law_from::<[i16; 3]>() }
    #[unwind(8)] fn array_3_i16_value() { law_value::<[i16; 3]>() }
    #[unwind(7)] fn array_4_from() { law_from::<[K<2>; 4]>() }
    #[unwind(7)] fn array_4_value() { array_law!(3, 4) }
    #[unwind(8)] fn array_5_value() { array_law!(3, 5) }
    #[unwind(9)] fn array_6_value() { array_law!(2, 6) }
    #[unwind(11)] fn array_8_value() { array_law!(2, 8) }
    #[unwind(16)] fn array_13_value() { array_law!(2, 13) }
    #[unwind(20)] fn array_16_from() { law_from::<[bool; 16]>() }
    #[unwind(21)] fn array_17_value() { array_law!(4, 17) }
    #[unwind(36)] fn array_33_value() { array_law!(2, 33) }
    #[unwind(36)] fn array_32_from() { law_from::<[K<4>; 31]>() }
    #[unwind(66)] fn array_63_from() { law_from::<[bool; 63]>() }
    #[unwind(12)] fn array_8_bool_from() { law_from::<[bool; 8]>() }
}
