//! P12: bulk operations: `drain`, `clear`, `retain`, `collect`.
use ordinal_map::map::*;

use crate::keys::*;
use crate::model::*;
use crate::nd;
use crate::p10::one;

/// A drain used for any number of steps leaves the map empty, and usable.
fn drained<const N: usize, M: Sparse<K<N>, u8>>() {
    let (mut m, r) = any_map::<N, u8, M>();
    let mut rest = Rest::new(r);
    {
        let mut d = m.drain();
        for _ in 0..2 {
            match nd::choice(3) {
                0 => same(d.next(), rest.front()),
                1 => same(d.next_back(), rest.back()),
                _ => {}
            }
        }
    }
    let r = [None; N];
    observe(&mut m, &r);
}

fn cleared<const N: usize, M: Sparse<K<N>, u8>>() {
    let (mut m, _) = any_map::<N, u8, M>();
    m.clear();
    let mut r = [None; N];
    observe(&mut m, &r);
    let (i, v) = (nd::below(N), nd::u8());
    assert!(m.insert(K::at(i), v).is_none());
    r[i] = Some(v);
    observe(&mut m, &r);
}

/// `retain` asks about every entry once, ascending, lets the predicate change the value, and
/// keeps exactly what it approved.
fn retained<const N: usize>() {
    let (mut m, mut r) = any_map::<N, u8, OrdinalArrayMap<K<N>, u8, N>>();
    let mut rest = Rest::new(r);
    let mut keep = [false; N];
    let mut to = [0; N];
    for i in 0..N {
        keep[i] = nd::bool();
        to[i] = nd::u8();
    }
    m.retain(|k, v| {
        same(Some((k, *v)), rest.front());
        *v = to[k.ord()];
        keep[k.ord()]
    });
    assert!(rest.count() == 0, "retain did not ask about every entry");
    for i in 0..N {
        if r[i].is_some() {
            r[i] = if keep[i] { Some(to[i]) } else { None };
        }
    }
    observe(&mut m, &r);
}

/// A map that never held anything survives all of it.
fn fresh<const N: usize, M: Sparse<K<N>, u8>>() {
    let mut m = M::new();
    match nd::choice(4) {
        0 => m.clear(),
        1 => drop(m.drain()),
        2 => assert!(if nd::bool() { m.drain().next() } else { m.drain().next_back() }.is_none()),
        _ => m = std::iter::empty().collect(),
    }
    let mut r = [None; N];
    observe(&mut m, &r);
    let (i, v) = (nd::below(N), nd::u8());
    assert!(m.insert(K::at(i), v).is_none());
    r[i] = Some(v);
    observe(&mut m, &r);
}

/// A map of many keys, three of which have values.
fn wide<const N: usize, M: Sparse<K<N>, u8>>() -> (M, [usize; 3], [u8; 3]) {
    let at = [2, N - 5, N - 1];
    let v = [nd::u8(), nd::u8(), nd::u8()];
    let mut m = M::new();
    for i in 0..3 {
        m.insert(K::at(at[i]), v[i]);
    }
    (m, at, v)
}
pub(crate) fn wide_cleared<const CLEAR: bool, const N: usize, M: Sparse<K<N>, u8>>() {
    let (mut m, at, v) = wide::<N, M>();
    if CLEAR {
        m.clear();
    } else {
        let mut rest = Rest::of(at, v);
        let mut d = m.drain();
        same(d.next_back(), rest.back());
        same(d.next(), rest.front());
    }
    let q = nd::below(N);
    assert!(m.get(&K::at(q)).is_none() && !m.contains_key(&K::at(q)), "an entry is left");
    assert!(m.is_empty());
}
pub(crate) fn one_of_many<const N: usize, M: Sparse<K<N>, ()>>(drain: bool) {
    let mut m = M::new();
    m.insert(K::at(N - 2), ());
    if drain {
        drop(m.drain());
    } else {
        m.clear();
    }
    assert!(!m.contains_key(&K::at(N - 2)), "an entry is left");
}
pub(crate) fn wide_retained<const N: usize>() {
    let (mut m, at, v) = wide::<N, OrdinalArrayMap<K<N>, u8, N>>();
    let keep = [nd::bool(), nd::bool(), nd::bool()];
    let mut n = 0;
    m.retain(|k, x| {
        assert!(n < 3 && k.ord() == at[n] && *x == v[n], "retain asked about something else");
        n += 1;
        keep[n - 1]
    });
    assert!(n == 3, "retain did not ask about every entry");
    let i = nd::below(3);
    assert!(m.get(&K::at(at[i])).copied() == if keep[i] { Some(v[i]) } else { None });
}

/// Collecting is inserting in order: later values win.
fn collected<const N: usize, M: Sparse<K<N>, u8>>() {
    let (a, b, c) = (nd::below(N), nd::below(N), nd::below(N));
    let (u, v, w) = (nd::u8(), nd::u8(), nd::u8());
    let n = nd::below(4);
    let mut m: M = [(K::at(a), u), (K::at(b), v), (K::at(c), w)].into_iter().take(n).collect();
    let mut r = [None; N];
    if n > 0 {
        r[a] = Some(u);
    }
    if n > 1 {
        r[b] = Some(v);
    }
    if n > 2 {
        r[c] = Some(w);
    }
    observe(&mut m, &r);
}

/// What `into_iter` yields rebuilds the map.
fn rebuilt<const N: usize, M: Sparse<K<N>, u8>>() {
    let (m, r) = any_map::<N, u8, M>();
    let mut m: M = m.into_iter().collect();
    observe(&mut m, &r);
}

walks! { one, #[unwind(5)] {
    heap_drain(OrdinalMap, drain);
} {
    #[unwind(5)] fn array_drain_ends() { one!(walk_ends, OrdinalArrayMap, drain) }
    #[unwind(5)] fn array_drain_nth() { one!(walk_nth, OrdinalArrayMap, drain) }
    #[unwind(5)] fn heap_fresh() { fresh::<3, OrdinalMap<K<3>, u8>>() }
    #[unwind(5)] fn array_fresh() { fresh::<3, OrdinalArrayMap<K<3>, u8, 3>>() }
    #[unwind(72)] fn heap_wide_clear() { wide_cleared::<true, 70, OrdinalMap<K<70>, u8>>() }
    #[unwind(72)] fn array_wide_clear() { wide_cleared::<true, 70, OrdinalArrayMap<K<70>, u8, 70>>() }
    #[unwind(72)] fn heap_wide_drain() { wide_cleared::<false, 70, OrdinalMap<K<70>, u8>>() }
    #[unwind(72)] fn array_wide_drain() { wide_cleared::<false, 70, OrdinalArrayMap<K<70>, u8, 70>>() }
    #[unwind(262)] fn array_260_clear() { one_of_many::<260, OrdinalArrayMap<K<260>, (), 260>>(false) }
    #[unwind(72)] fn array_wide_retain() { wide_retained::<70>() }
    #[unwind(5)] fn heap_drain() { drained::<3, OrdinalMap<K<3>, u8>>() }
    #[unwind(5)] fn heap_clear() { cleared::<3, OrdinalMap<K<3>, u8>>() }
    #[unwind(5)] fn heap_collect() { collected::<3, OrdinalMap<K<3>, u8>>() }
    #[unwind(5)] fn heap_rebuild() { rebuilt::<3, OrdinalMap<K<3>, u8>>() }
    #[unwind(5)] fn array_drain() { drained::<3, OrdinalArrayMap<K<3>, u8, 3>>() }
    #[unwind(5)] fn array_clear() { cleared::<3, OrdinalArrayMap<K<3>, u8, 3>>() }
    #[unwind(5)] fn array_collect() { collected::<3, OrdinalArrayMap<K<3>, u8, 3>>() }
    #[unwind(5)] fn array_rebuild() { rebuilt::<3, OrdinalArrayMap<K<3>, u8, 3>>() }
    #[unwind(5)] fn array_retain() { retained::<3>() }
} }
