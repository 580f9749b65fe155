//! P17: `size_hint` brackets what is left, and an exact-size iterator's `len` is exact, at every
//! position of any iteration.
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;
use crate::p14::values;

/// Adaptors rely on an exact `size_hint`.
macro_rules! adapted {
    ($m:ident) => { {
        let v = values::<4>();
        let n = nd::below(6);
        let m = crate::p15::tmap!($m, v);
        assert!(m.iter().skip(n).len() == if n < 4 { 4 - n } else { 0 });
        assert!(m.iter().take(n).len() == if n < 4 { n } else { 4 });
        let mut m = m;
        assert!(m.iter_mut().skip(n).len() == if n < 4 { 4 - n } else { 0 });
        let left = m.into_iter().skip(n).len();
        assert!(left == if n < 4 { 4 - n } else { 0 });
    } };
}

/// A set of three of many values.
fn spread<const N: usize>() -> (OrdinalSet<K<N>>, Rest<3>) {
    let at = [1, N / 2, N - 1];
    let mut s = OrdinalSet::new();
    for i in 0..3 {
        s.insert(K::at(at[i]));
    }
    (s, Rest::of(at, [0; 3]))
}
/// From the front, from the back, and from the front to the end.
fn hints<const N: usize>() {
    let (s, mut m) = spread::<N>();
    let mut it = s.iter();
    for back in [false, true, false, false] {
        hint(it.size_hint(), m.count());
        if back {
            same(it.next_back(), m.back());
        } else {
            same(it.next(), m.front());
        }
    }
    hint(it.size_hint(), m.count());
}
/// Three steps through all 64 elements.
fn full() {
    let mut it = OrdinalSet64::<K<64>>::all().iter();
    for i in 0..4 {
        assert!(it.len() == 64 - i && it.size_hint() == (64 - i, Some(64 - i)));
        if nd::bool() {
            it.next();
        } else {
            it.next_back();
        }
    }
}

crate::harnesses! {
    #[unwind(66)] fn set_64() { hints::<64>() }
    #[unwind(132)] fn set_130() { hints::<130>() }
    #[unwind(6)] fn set64_full() { full() }
    #[unwind(5)] fn vast_iter() { crate::p15::vast_owned::<{ usize::MAX }>(0) }
    #[unwind(5)] fn vast_iter_mut() { crate::p15::vast_owned::<{ usize::MAX }>(1) }
    #[unwind(5)] fn vast_into_iter() { crate::p15::vast_owned::<{ 1 << 62 }>(2) }
    #[unwind(5)] fn vast_keys() { crate::p15::vast_owned::<{ usize::MAX }>(3) }
    #[unwind(6)] fn heap_iter() { crate::p10::one!(walk_hints, OrdinalMap, iter) }
    #[unwind(6)] fn heap_iter_mut() { crate::p10::one!(walk_hints, OrdinalMap, iter_mut) }
    #[unwind(6)] fn heap_keys() { crate::p10::one!(walk_hints, OrdinalMap, keys) }
    #[unwind(6)] fn heap_values() { crate::p10::one!(walk_hints, OrdinalMap, values) }
    #[unwind(6)] fn heap_values_mut() { crate::p10::one!(walk_hints, OrdinalMap, values_mut) }
    #[unwind(6)] fn heap_drain() { crate::p10::one!(walk_hints, OrdinalMap, drain) }
    #[unwind(6)] fn heap_into_iter() { crate::p10::one!(walk_hints, OrdinalMap, into_iter) }
    #[unwind(6)] fn array_iter() { crate::p10::one!(walk_hints, OrdinalArrayMap, iter) }
    #[unwind(6)] fn array_drain() { crate::p10::one!(walk_hints, OrdinalArrayMap, drain) }
    #[unwind(6)] fn array_into_iter() { crate::p10::one!(walk_hints, OrdinalArrayMap, into_iter) }
    #[unwind(6)] fn set_iter() { let (s, m) = crate::p08::pre::<3, OrdinalSet<_>>(); walk_hints(s.iter(), m) }
    #[unwind(7)] fn set64_iter() { let (s, m) = crate::p08::pre::<4, OrdinalSet64<_>>(); walk_exact(s.iter(), m) }
    #[unwind(7)] fn all_values() { walk_exact(K::<4>::all_values(), Rest::all([0; 4])) }
    #[unwind(7)] fn total_heap_iter() { crate::p15::one!(walk_exact, heap, iter) }
    #[unwind(7)] fn total_heap_iter_mut() { crate::p15::one!(walk_exact, heap, iter_mut) }
    #[unwind(7)] fn total_heap_into_iter() { crate::p15::one!(walk_exact, heap, into_iter) }
    #[unwind(7)] fn total_heap_values() { crate::p15::one!(walk_exact, heap, values) }
    #[unwind(7)] fn total_heap_values_mut() { crate::p15::one!(walk_exact, heap, values_mut) }
    #[unwind(7)] fn total_heap_keys() { crate::p15::one!(walk_exact, heap, keys) }
    #[unwind(7)] fn total_array_iter() { crate::p15::one!(walk_exact, array, iter) }
    #[unwind(7)] fn total_array_iter_mut() { crate::p15::one!(walk_exact, array, iter_mut) }
    #[unwind(7)] fn total_array_into_iter() { crate::p15::one!(walk_exact, array, into_iter) }
    #[unwind(7)] fn total_array_values() { crate::p15::one!(walk_exact, array, values) }
    #[unwind(7)] fn total_array_keys() { crate::p15::one!(walk_exact, array, keys) }
    #[unwind(7)] fn adapted_heap() { adapted!(heap) }
    #[unwind(7)] fn adapted_array() { adapted!(array) }
}
