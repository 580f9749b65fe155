//! P10: iterating a sparse map yields exactly its entries, ascending, from both ends.
use ordinal_map::map::*;

use crate::keys::*;
use crate::model::*;
use crate::nd;

/// Writing through a mutable iterator changes exactly the entry it stands for.
fn written<const N: usize, M: Sparse<K<N>, u8>>(values: bool) {
    let (mut m, mut r) = any_map::<N, u8, M>();
    let back = nd::bool();
    let v = nd::u8();
    let mut rest = Rest::new(r);
    let at = if back { rest.back() } else { rest.front() };
    if values {
        let mut it = m.values_mut();
        match if back { it.next_back() } else { it.next() } {
            Some(x) => *x = v,
            None => assert!(at.is_none()),
        }
    } else {
        let mut it = m.iter_mut();
        match if back { it.next_back() } else { it.next() } {
            Some((_, x)) => *x = v,
            None => assert!(at.is_none()),
        }
    }
    if let Some((o, _)) = at {
        r[o] = Some(v);
    }
    observe(&mut m, &r);
}

/// Every value reached by one pass of `iter_mut` is writable at once.
fn held<const N: usize, M: Sparse<K<N>, u8>>() {
    let (mut m, r) = any_map::<N, u8, M>();
    let mut it = m.iter_mut();
    let a = it.next();
    let b = it.next_back();
    if let (Some((ka, va)), Some((kb, vb))) = (a, b) {
        assert!(ka.ord() < kb.ord());
        let (x, y) = (*va, *vb);
        assert!(r[ka.ord()] == Some(x) && r[kb.ord()] == Some(y));
        *va = x.wrapping_add(1);
        assert!(*vb == y, "two entries share a value");
        std::mem::swap(va, vb);
        let (oa, ob) = (ka.ord(), kb.ord());
        assert!(m.get(&K::at(oa)).copied() == Some(y));
        assert!(m.get(&K::at(ob)).copied() == Some(x.wrapping_add(1)));
    }
}

/// A map of many keys, three of which have values: both ends, over long gaps.
macro_rules! wide {
    ($m:ident, $n:literal, $it:ident) => { {
        let at = [3, $n - 4, $n - 1];
        let v = [nd::u8(), nd::u8(), nd::u8()];
        let mut m = <map!($m, K<$n>, u8, $n)>::new();
        for i in 0..3 {
            m.insert(K::at(at[i]), v[i]);
        }
        let mut rest = Rest::of(at, v);
        let mut it = m.$it();
        same(it.next(), rest.front());
        same(it.next_back(), rest.back());
        same(it.next(), rest.front());
        same(it.next(), rest.front());
    } };
}

pub(crate) use wide;

macro_rules! one {
    ($w:ident, $m:ident, iter) => { { let (m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w(m.iter(), Rest::new(r)) } };
    ($w:ident, $m:ident, by_ref) => { { let (m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w((&m).into_iter(), Rest::new(r)) } };
    ($w:ident, $m:ident, iter_mut) => { { let (mut m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w(m.iter_mut(), Rest::new(r)) } };
    ($w:ident, $m:ident, keys) => { { let (m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w(m.keys(), Rest::new(r)) } };
    ($w:ident, $m:ident, values) => { { let (m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w(m.values(), Rest::new(r)) } };
    ($w:ident, $m:ident, values_mut) => { { let (mut m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w(m.values_mut(), Rest::new(r)) } };
    ($w:ident, $m:ident, drain) => { { let (mut m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w(m.drain(), Rest::new(r)) } };
    ($w:ident, $m:ident, into_iter) => { { let (m, r) = any_map::<3, u8, map!($m, K<3>, u8, 3)>(); $w(m.into_iter(), Rest::new(r)) } };
}
pub(crate) use one;

/// The iterators of a map that never held anything.
fn fresh<M: Sparse<K<3>, u8>>() {
    let mut m = M::new();
    assert!(m.iter().next().is_none() && m.iter().next_back().is_none());
    assert!(m.iter_mut().next().is_none() && m.iter_mut().next_back().is_none());
    assert!(m.keys().next().is_none() && m.values().next().is_none());
    assert!(m.values_mut().next().is_none());
    assert!(m.drain().next().is_none());
    assert!(m.by_ref().count() == 0);
    assert!(m.into_iter().next().is_none());
}

walks! { one, #[unwind(5)] {
    heap_iter(OrdinalMap, iter);
    heap_iter_mut(OrdinalMap, iter_mut);
    heap_keys(OrdinalMap, keys);
    heap_values(OrdinalMap, values);
    heap_values_mut(OrdinalMap, values_mut);
    heap_into_iter(OrdinalMap, into_iter);
    array_into_iter(OrdinalArrayMap, into_iter);
} {
    #[unwind(262)] fn wide_heap_iter() { wide!(OrdinalMap, 260, iter) }
    #[unwind(5)] fn array_iter() { one!(walk_ends, OrdinalArrayMap, iter) }
    #[unwind(5)] fn array_iter_mut() { one!(walk_ends, OrdinalArrayMap, iter_mut) }
    #[unwind(5)] fn array_keys() { one!(walk_ends, OrdinalArrayMap, keys) }
    #[unwind(5)] fn array_values() { one!(walk_ends, OrdinalArrayMap, values) }
    #[unwind(5)] fn array_values_mut() { one!(walk_ends, OrdinalArrayMap, values_mut) }
    #[unwind(5)] fn by_ref_heap() { one!(walk_ends, OrdinalMap, by_ref) }
    #[unwind(5)] fn by_ref_array() { one!(walk_ends, OrdinalArrayMap, by_ref) }
    #[unwind(5)] fn written_heap() { written::<3, OrdinalMap<K<3>, u8>>(false) }
    #[unwind(5)] fn written_heap_values() { written::<3, OrdinalMap<K<3>, u8>>(true) }
    #[unwind(5)] fn written_array() { written::<3, OrdinalArrayMap<K<3>, u8, 3>>(false) }
    #[unwind(5)] fn written_array_values() { written::<3, OrdinalArrayMap<K<3>, u8, 3>>(true) }
    #[unwind(5)] fn held_heap() { held::<3, OrdinalMap<K<3>, u8>>() }
    #[unwind(5)] fn held_array() { held::<3, OrdinalArrayMap<K<3>, u8, 3>>() }
    #[unwind(5)] fn fresh_heap() { fresh::<OrdinalMap<K<3>, u8>>() }
    #[unwind(5)] fn fresh_array() { fresh::<OrdinalArrayMap<K<3>, u8, 3>>() }
} }
