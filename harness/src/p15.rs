//! P15: iterating a total map yields every entry exactly once, in key order, from both ends.
use ordinal_map::map::total::*;

use crate::keys::*;
use crate::model::*;
use crate::nd;
use crate::p14::values;

macro_rules! tmap {
    (heap, $v:ident) => { OrdinalTotalMap::<K<4>, u8>::new(|k| $v[k.ord()]) };
    (array, $v:ident) => { OrdinalTotalArrayMap::<K<4>, u8, 4>::from_array($v) };
}
macro_rules! one {
    ($w:ident, $m:ident, iter) => { { let v = values::<4>(); let m = crate::p15::tmap!($m, v); $w(m.iter(), Rest::all(v)) } };
    ($w:ident, $m:ident, by_ref) => { { let v = values::<4>(); let m = crate::p15::tmap!($m, v); $w((&m).into_iter(), Rest::all(v)) } };
    ($w:ident, $m:ident, iter_mut) => { { let v = values::<4>(); let mut m = crate::p15::tmap!($m, v); $w(m.iter_mut(), Rest::all(v)) } };
    ($w:ident, $m:ident, values) => { { let v = values::<4>(); let m = crate::p15::tmap!($m, v); $w(m.values(), Rest::all(v)) } };
    ($w:ident, $m:ident, values_mut) => { { let v = values::<4>(); let mut m = crate::p15::tmap!($m, v); $w(m.values_mut(), Rest::all(v)) } };
    ($w:ident, $m:ident, keys) => { { let v = values::<4>(); let m = crate::p15::tmap!($m, v); $w(m.keys(), Rest::all(v)) } };
    ($w:ident, $m:ident, into_keys) => { { let v = values::<4>(); let m = crate::p15::tmap!($m, v); $w(m.into_keys(), Rest::all(v)) } };
    ($w:ident, $m:ident, into_iter) => { { let v = values::<4>(); let m = crate::p15::tmap!($m, v); $w(m.into_iter(), Rest::all(v)) } };
}
pub(crate) use one;
pub(crate) use tmap;

/// Maps of values without size can be as large as `usize` allows, and their iterators take a
/// bounded number of steps to any position within a few steps of either end.
type Vast<const S: usize> = OrdinalTotalArrayMap<K<S>, (), S>;
fn vast<const S: usize, I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, ord: fn(I::Item) -> usize) {
    let (mut lo, mut hi) = (0, S);
    for _ in 0..3 {
        assert!(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "length");
        let skip = nd::below(2);
        let got = if nd::bool() {
            lo += skip + 1;
            (if skip == 0 { it.next() } else { it.nth(skip) }, lo - 1)
        } else {
            hi -= skip + 1;
            (if skip == 0 { it.next_back() } else { it.nth_back(skip) }, hi)
        };
        match got {
            (Some(x), want) => assert!(ord(x) == want, "wrong key in a vast map"),
            _ => panic!("a vast map's iterator ended"),
        }
    }
}
pub(crate) fn vast_owned<const S: usize>(c: u8) {
    let mut m = Vast::<S>::from_array([(); S]);
    match c {
        0 => vast::<S, _>(m.iter(), |(k, _)| k.ord()),
        1 => vast::<S, _>(m.iter_mut(), |(k, _)| k.ord()),
        2 => vast::<S, _>(m.into_iter(), |(k, _)| k.ord()),
        3 => vast::<S, _>(m.keys(), |k| k.ord()),
        _ => vast::<S, _>(m.into_keys(), |k| k.ord()),
    }
}

walks! { one, #[unwind(7)] {
    heap_iter(heap, iter);
    heap_iter_mut(heap, iter_mut);
    heap_into_iter(heap, into_iter);
    array_into_iter(array, into_iter);
} {
    #[unwind(5)] fn vast_40_iter() { vast_owned::<{ 1 << 40 }>(0) }
    #[unwind(5)] fn vast_40_iter_mut() { vast_owned::<{ 1 << 40 }>(1) }
    #[unwind(5)] fn vast_40_into_iter() { vast_owned::<{ 1 << 40 }>(2) }
    #[unwind(5)] fn vast_max_iter() { vast_owned::<{ usize::MAX }>(0) }
    #[unwind(5)] fn vast_max_iter_mut() { vast_owned::<{ usize::MAX }>(1) }
    #[unwind(5)] fn vast_62_into_iter() { vast_owned::<{ 1 << 62 }>(2) }
    #[unwind(5)] fn vast_max_keys() { vast_owned::<{ usize::MAX }>(3) }
    #[unwind(5)] fn vast_max_into_keys() { vast_owned::<{ usize::MAX }>(4) }
    #[unwind(7)] fn heap_by_ref() { one!(walk_ends, heap, by_ref) }
    #[unwind(7)] fn heap_values() { one!(walk_ends, heap, values) }
    #[unwind(7)] fn heap_values_mut() { one!(walk_ends, heap, values_mut) }
    #[unwind(7)] fn heap_keys() { one!(walk_ends, heap, keys) }
    #[unwind(7)] fn heap_into_keys() { one!(walk_ends, heap, into_keys) }
    #[unwind(7)] fn array_by_ref() { one!(walk_ends, array, by_ref) }
    #[unwind(7)] fn array_iter() { one!(walk_ends, array, iter) }
    #[unwind(7)] fn array_iter_mut() { one!(walk_ends, array, iter_mut) }
    #[unwind(7)] fn array_values() { one!(walk_ends, array, values) }
    #[unwind(7)] fn array_values_mut() { one!(walk_ends, array, values_mut) }
    #[unwind(7)] fn array_keys() { one!(walk_ends, array, keys) }
    #[unwind(7)] fn array_into_keys() { one!(walk_ends, array, into_keys) }
} }
