//! P09: a sparse map answers like a dictionary after any history of updates.
use ordinal_map::map::*;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;

/// One arbitrary update of a map and of its model, their answers compared.
pub fn update<const N: usize, V: Arb + Copy + PartialEq, M: Sparse<K<N>, V>>(m: &mut M, r: &mut [Option<V>; N]) {
    let i = nd::below(N);
    let v = V::arb();
    match nd::choice(3) {
        0 => {
            let old = m.insert(K::at(i), v);
            assert!(old == r[i], "insert did not return the previous value");
            r[i] = Some(v);
        }
        1 => {
            let old = m.remove(&K::at(i));
            assert!(old == r[i], "remove did not return the value");
            r[i] = None;
        }
        _ => match (m.get_mut(&K::at(i)), &mut r[i]) {
            (Some(x), Some(y)) => {
                assert!(*x == *y);
                *x = v;
                *y = v;
            }
            (None, None) => {}
            _ => panic!("get_mut disagrees about presence"),
        },
    }
}

/// An arbitrary state, one arbitrary update, every question.
fn step<const N: usize, V: Arb + Copy + PartialEq, M: Sparse<K<N>, V>>() {
    let (mut m, mut r) = any_map::<N, V, M>();
    update(&mut m, &mut r);
    observe(&mut m, &r);
}

/// An arbitrary state, every question.
fn state<const N: usize, V: Arb + Copy + PartialEq, M: Sparse<K<N>, V>>() {
    let (mut m, r) = any_map::<N, V, M>();
    observe(&mut m, &r);
}

/// A new map is empty, and any operation may be the first.
fn fresh<const N: usize, V: Arb + Copy + PartialEq, M: Sparse<K<N>, V>>() {
    let mut m = if nd::bool() { M::new() } else { M::default() };
    let mut r = [None; N];
    observe(&mut m, &r);
    update(&mut m, &mut r);
    observe(&mut m, &r);
}

/// Arbitrary histories from the empty map.
fn history<const N: usize, V: Arb + Copy + PartialEq, M: Sparse<K<N>, V>>(steps: usize) {
    let mut m = M::new();
    let mut r = [None; N];
    for _ in 0..steps {
        update(&mut m, &mut r);
    }
    observe(&mut m, &r);
}

/// Large key types: two arbitrary keys, then an arbitrary question.
fn large<const N: usize, M: Sparse<K<N>, u8>>() {
    let (a, b, q) = (nd::below(N), nd::below(N), nd::below(N));
    let (v, w) = (nd::u8(), nd::u8());
    let mut m = M::new();
    assert!(m.insert(K::at(a), v).is_none());
    assert!(m.insert(K::at(b), w) == if a == b { Some(v) } else { None });
    let want = if q == b {
        Some(w)
    } else if q == a {
        Some(v)
    } else {
        None
    };
    assert!(m.get(&K::at(q)).copied() == want);
    assert!(m.contains_key(&K::at(q)) == want.is_some());
    assert!(m.remove(&K::at(q)) == want);
    assert!(m.get(&K::at(q)).is_none());
}

/// As `large`, one key.
pub fn huge<const N: usize, M: Sparse<K<N>, ()>>() {
    let (a, q) = (nd::below(N), nd::below(N));
    let mut m = M::new();
    assert!(m.insert(K::at(a), ()).is_none());
    assert!(m.contains_key(&K::at(q)) == (q == a));
}

/// Many keys: fixed insertions around every power of two, any later update, any question.
pub fn spread<const N: usize, M: Sparse<K<N>, u8>>() {
    let at = [0, N / 2, N - 4, N - 1];
    let v = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let want = |o: usize| {
        let mut w = None;
        for i in 0..4 {
            if at[i] == o {
                w = Some(v[i]);
            }
        }
        w
    };
    let mut m = M::new();
    for i in 0..4 {
        assert!(m.insert(K::at(at[i]), v[i]).is_none(), "insert found a value in an empty slot");
    }
    let q = nd::below(N);
    assert!(m.get(&K::at(q)).copied() == want(q), "get");
    assert!(m.contains_key(&K::at(q)) == want(q).is_some(), "contains_key");
}

/// A map with an entry for every key.
pub fn full<const N: usize, M: Sparse<K<N>, ()>>() {
    let mut m = M::new();
    for i in 0..N {
        m.insert(K::at(i), ());
    }
    assert!(m.len() == N && !m.is_empty(), "len of a full map");
    let q = nd::below(N);
    assert!(m.contains_key(&K::at(q)), "contains_key");
}

/// As `spread`, one insertion.
pub fn spread_little<const N: usize, M: Sparse<K<N>, u8>>() {
    let (q, v) = (nd::below(N), nd::u8());
    let mut m = M::new();
    assert!(m.insert(K::at(N - 4), v).is_none());
    assert!(m.get(&K::at(q)).copied() == if q == N - 4 { Some(v) } else { None });
}

/// Keys whose `ordinal` is computed: every value of the type is its own key.
fn typed<T: Ordinal + Arb + Copy + PartialEq, M: Sparse<T, u8>>() {
    let (a, b, q) = (T::arb(), T::arb(), T::arb());
    let (v, w) = (nd::u8(), nd::u8());
    let mut m = M::new();
    m.insert(a, v);
    m.insert(b, w);
    let want = if q == b {
        Some(w)
    } else if q == a {
        Some(v)
    } else {
        None
    };
    assert!(m.get(&q).copied() == want);
    assert!(m.contains_key(&q) == want.is_some());
}

fn void<M: Sparse<DVoid, u8>>() {
    let mut m = M::new();
    assert!(m.len() == 0 && m.is_empty());
    m.clear();
    assert!(m.into_iter().next().is_none());
}

macro_rules! maps {
    ($($m:ident $(<$s:ident>)?: $step:ident $state:ident $fresh:ident $h3:ident $opt:ident $unit:ident $one:ident $l70:ident $l300:ident $f300:ident $typed:ident $void:ident;)*) => { crate::harnesses! {
    #[unwind(262)] fn full_heap_260() { full::<260, OrdinalMap<K<260>, ()>>() }
    #[unwind(262)] fn full_array_260() { full::<260, OrdinalArrayMap<K<260>, (), 260>>() }
    $(
        #[unwind(5)] fn $step() { step::<3, u8, map!($m, K<3>, u8, 3)>() }
        #[unwind(5)] fn $state() { state::<3, u8, map!($m, K<3>, u8, 3)>() }
        #[unwind(5)] fn $fresh() { fresh::<3, u8, map!($m, K<3>, u8, 3)>() }
        #[unwind(5)] fn $h3() { history::<2, u8, map!($m, K<2>, u8, 2)>(4) }
        #[unwind(5)] fn $opt() { step::<2, Option<bool>, map!($m, K<2>, Option<bool>, 2)>() }
        #[unwind(5)] fn $unit() { step::<3, (), map!($m, K<3>, (), 3)>() }
        #[unwind(5)] fn $one() { history::<1, u8, map!($m, K<1>, u8, 1)>(3) }
        #[unwind(72)] fn $l70() { large::<70, map!($m, K<70>, u8, 70)>() }
        #[unwind(262)] fn $l300() { $f300::<260, map!($m, K<260>, u8, 260)>() }
        #[unwind(9)] fn $typed() { typed::<DSeven, map!($m, DSeven, u8, 7)>() }
        #[unwind(3)] fn $void() { void::<map!($m, DVoid, u8, 0)>() }
    )* } };
}
maps! {
    OrdinalMap: step_heap state_heap fresh_heap history_heap option_heap unit_heap one_heap large_heap_70 spread_heap_260 spread typed_heap void_heap;
    OrdinalArrayMap: step_array state_array fresh_array history_array option_array unit_array one_array large_array_70 spread_array_260 spread_little typed_array void_array;
}
