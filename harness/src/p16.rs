//! P16: a clone equals its original at that moment, and they change independently.
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;
use crate::p07::Set;
use crate::p14::values;

fn sparse<const N: usize, M: Sparse<K<N>, u8> + Clone>(fresh: bool) {
    let (mut m, mut r) = if fresh { (M::new(), [None; N]) } else { any_map::<N, u8, M>() };
    let mut c = m.clone();
    let mut cr = r;
    crate::p09::update(&mut m, &mut r);
    crate::p09::update(&mut c, &mut cr);
    observe(&mut m, &r);
    observe(&mut c, &cr);
}

/// `clone_from` is a clone.
fn sparse_from<const N: usize, M: Sparse<K<N>, u8> + Clone>(fresh: bool) {
    let (mut m, mut r) = if fresh { (M::new(), [None; N]) } else { any_map::<N, u8, M>() };
    let (mut c, mut cr) = any_map::<N, u8, M>();
    c.clone_from(&m);
    cr = r;
    crate::p09::update(&mut m, &mut r);
    observe(&mut c, &cr);
    observe(&mut m, &r);
}

/// A map of many keys, some of which have values.
fn wide<const N: usize, M: Sparse<K<N>, u8> + Clone>() {
    let mut m = M::new();
    let (a, b) = (nd::u8(), nd::u8());
    m.insert(K::at(1), a);
    m.insert(K::at(N - 1), b);
    let mut c = m.clone();
    let q = nd::below(N);
    let want = if q == 1 { Some(a) } else if q == N - 1 { Some(b) } else { None };
    assert!(c.get(&K::at(q)).copied() == want, "the clone differs");
    c.insert(K::at(N - 2), 7);
    c.remove(&K::at(1));
    assert!(m.get(&K::at(q)).copied() == want, "the original changed with its clone");
}

fn set_from<T: Ordinal + Arb + Copy + PartialEq, S: Set<T>>() {
    let (a, b, q) = (T::arb(), T::arb(), T::arb());
    let (mut s, mut t) = (S::new(), S::new());
    if nd::bool() {
        s.insert(a);
    }
    if nd::bool() {
        t.insert(b);
    }
    let had = s.contains(&q);
    t.clone_from(&s);
    s.insert(b);
    assert!(t.contains(&q) == had, "clone_from left something, or missed it");
}

macro_rules! total {
    ($m:expr, $v:ident) => { total!($m, $v, 3) };
    ($m:expr, $v:ident, $n:literal) => { {
        let mut m = $m;
        let mut c = m.clone();
        let (i, j, x, y) = (nd::below($n), nd::below($n), nd::u8(), nd::u8());
        let q = nd::below($n);
        m[&K::at(i)] = x;
        assert!(c[&K::at(q)] == $v[q], "the clone changed with its original");
        c[&K::at(j)] = y;
        assert!(m[&K::at(q)] == if q == i { x } else { $v[q] }, "the original changed with its clone");
        assert!(c[&K::at(q)] == if q == j { y } else { $v[q] });
        assert!(c.len() == $n);
    } };
}

fn set<T: Ordinal + Arb + Copy + PartialEq, S: Set<T>>() {
    let (a, b, c, q) = (T::arb(), T::arb(), T::arb(), T::arb());
    let mut s = S::new();
    if nd::bool() {
        s.insert(a);
    }
    let had = s.contains(&q);
    let mut t = s.clone();
    assert!(t.contains(&q) == had);
    s.insert(b);
    assert!(t.contains(&q) == had, "the clone changed with its original");
    t.insert(c);
    assert!(s.contains(&q) == (had || q == b), "the original changed with its clone");
    assert!(t.contains(&q) == (had || q == c));
}

crate::harnesses! {
    #[unwind(5)] fn map_heap() { sparse::<2, OrdinalMap<K<2>, u8>>(false) }
    #[unwind(5)] fn map_heap_fresh() { sparse::<3, OrdinalMap<K<3>, u8>>(true) }
    #[unwind(5)] fn map_array() { sparse::<2, OrdinalArrayMap<K<2>, u8, 2>>(false) }
    #[unwind(5)] fn total_heap() { let v = values::<3>(); total!(OrdinalTotalMap::<K<3>, u8>::new(|k| v[k.ord()]), v) }
    #[unwind(5)] fn total_array() { let v = values::<3>(); total!(OrdinalTotalArrayMap::<K<3>, u8, 3>::from_array(v), v) }
    #[unwind(72)] fn total_heap_70() { let v = values::<70>(); total!(OrdinalTotalMap::<K<70>, u8>::new(|k| v[k.ord()]), v, 70) }
    #[unwind(72)] fn total_array_70() { let v = values::<70>(); total!(OrdinalTotalArrayMap::<K<70>, u8, 70>::from_array(v), v, 70) }
    #[unwind(72)] fn map_heap_70() { wide::<70, OrdinalMap<K<70>, u8>>() }
    #[unwind(72)] fn map_array_70() { wide::<70, OrdinalArrayMap<K<70>, u8, 70>>() }
    #[unwind(5)] fn map_heap_from() { sparse_from::<2, OrdinalMap<K<2>, u8>>(false) }
    #[unwind(5)] fn map_heap_from_fresh() { sparse_from::<2, OrdinalMap<K<2>, u8>>(true) }
    #[unwind(5)] fn map_array_from() { sparse_from::<2, OrdinalArrayMap<K<2>, u8, 2>>(false) }
    #[unwind(5)] fn set_small_from() { set_from::<K<5>, OrdinalSet<_>>() }
    #[unwind(5)] fn set_large_from() { set_from::<K<65>, OrdinalSet<_>>() }
    #[unwind(5)] fn set_64_from() { set_from::<K<64>, OrdinalSet64<_>>() }
    #[unwind(5)] fn set_array_from() { set_from::<K<65>, OrdinalArraySet<_, 2>>() }
    #[unwind(6)] fn set_200() { set::<K<200>, OrdinalSet<_>>() }
    #[unwind(6)] fn set_array_200() { set::<K<200>, OrdinalArraySet<_, 4>>() }
    #[unwind(5)] fn set_small() { set::<K<5>, OrdinalSet<_>>() }
    #[unwind(5)] fn set_large() { set::<K<65>, OrdinalSet<_>>() }
    #[unwind(5)] fn set_64() { set::<K<64>, OrdinalSet64<_>>() }
    #[unwind(5)] fn set_array() { set::<K<65>, OrdinalArraySet<_, 2>>() }

    #[unwind(5)] fn iter_heap() { crate::p10::one!(walk_clone, OrdinalMap, iter) }
    #[unwind(5)] fn keys_heap() { crate::p10::one!(walk_clone, OrdinalMap, keys) }
    #[unwind(5)] fn values_heap() { crate::p10::one!(walk_clone, OrdinalMap, values) }
    #[unwind(5)] fn into_iter_heap() { crate::p10::one!(walk_clone, OrdinalMap, into_iter) }
    #[unwind(5)] fn into_iter_array() { crate::p10::one!(walk_clone, OrdinalArrayMap, into_iter) }
    #[unwind(6)] fn total_iter_heap() { let v = values::<3>(); let m = OrdinalTotalMap::<K<3>, u8>::new(|k| v[k.ord()]); walk_clone(m.iter(), Rest::all(v)) }
    #[unwind(6)] fn total_into_iter_heap() { let v = values::<3>(); let m = OrdinalTotalMap::<K<3>, u8>::new(|k| v[k.ord()]); walk_clone(m.into_iter(), Rest::all(v)) }
    #[unwind(6)] fn total_into_iter_array() { let v = values::<3>(); let m = OrdinalTotalArrayMap::<K<3>, u8, 3>::from_array(v); walk_clone(m.into_iter(), Rest::all(v)) }
    #[unwind(6)] fn set_iter() { let (s, m) = crate::p08::pre::<3, OrdinalSet<_>>(); walk_clone(s.iter(), m) }
    #[unwind(6)] fn set64_iter() { let (s, m) = crate::p08::pre::<4, OrdinalSet64<_>>(); walk_clone(s.iter(), m) }
    #[unwind(6)] fn all_values() { walk_clone(K::<4>::all_values(), Rest::all([0; 4])) }
}
