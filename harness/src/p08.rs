//! P08: iterating a set yields exactly its elements, ascending, from both ends; `all()` and `==`.
use ordinal_map::set::*;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;
use crate::p07::Set;

/// A set with arbitrary elements, and which they are.
pub fn pre<const N: usize, S: Set<K<N>>>() -> (S, Rest<N>) {
    let mut s = S::new();
    let mut r = [None; N];
    for i in 0..N {
        if nd::bool() {
            s.insert(K::at(i));
            r[i] = Some(0);
        }
    }
    (s, Rest::new(r))
}

/// Three arbitrary distinct elements of a large type, inserted in an arbitrary order.
fn pre3<const N: usize, S: Set<K<N>>>() -> (S, Rest<3>) {
    let (a, b, c) = (nd::below(N), nd::below(N), nd::below(N));
    nd::assume(a < b && b < c);
    let mut s = S::new();
    match nd::choice(3) {
        0 => {
            s.insert(K::at(a));
            s.insert(K::at(b));
            s.insert(K::at(c));
        }
        1 => {
            s.insert(K::at(c));
            s.insert(K::at(a));
            s.insert(K::at(b));
        }
        _ => {
            s.insert(K::at(b));
            s.insert(K::at(c));
            s.insert(K::at(a));
        }
    }
    (s, Rest::of([a, b, c], [0; 3]))
}

/// `all()` holds every value.
fn all<T: Ordinal + Arb + PartialEq>() {
    let s = OrdinalSet64::<T>::all();
    assert!(s.contains(&T::arb()), "all() lacks a value");
}
fn all_iter<T: Ordinal>() {
    let s = OrdinalSet64::<T>::all();
    let n = T::ORDINAL_SIZE;
    let mut it = s.iter();
    assert!(it.len() == n, "all() does not have ORDINAL_SIZE elements");
    match it.next() {
        Some(v) => assert!(n > 0 && v.ordinal() == 0),
        None => assert!(n == 0),
    }
    match it.next_back() {
        Some(v) => assert!(n > 1 && v.ordinal() == n - 1),
        None => assert!(n <= 1),
    }
    let mut t = OrdinalSet64::<T>::all();
    match T::from_ordinal(nd::usize()) {
        Some(v) => assert!(!t.insert(v), "inserting into all() added an element"),
        None => {}
    }
}

/// Sets are equal exactly when they have the same elements, however they were built.
fn equality<const N: usize>() {
    let (a, b, c, d) = (nd::below(N), nd::below(N), nd::below(N), nd::below(N));
    let mut s = OrdinalSet64::<K<N>>::new();
    let mut t = OrdinalSet64::<K<N>>::new();
    assert!(s == t);
    s.insert(K::at(a));
    s.insert(K::at(b));
    t.insert(K::at(c));
    t.insert(K::at(d));
    let want = (a == c && b == d) || (a == d && b == c) || (a == b && false);
    let want = want || (a == b && c == d && a == c);
    assert!((s == t) == want, "== on sets");
    assert!((s != t) == !want, "!= on sets");
}
fn equality_all<const N: usize>() {
    let s: OrdinalSet64<K<N>> = K::<N>::all_values().collect();
    assert!(s == OrdinalSet64::all(), "all() is not the set of all values");
    let mut t = OrdinalSet64::<K<N>>::new();
    let hole = nd::below(N);
    for i in 0..N {
        if i != hole {
            t.insert(K::at(i));
        }
    }
    assert!(s != t);
    t.insert(K::at(hole));
    assert!(s == t);
}

/// A set of a type without values has nothing to iterate.
fn void() {
    let s = OrdinalSet::<DVoid>::new();
    assert!(s.iter().next().is_none());
    assert!(s.iter().next_back().is_none());
    assert!(s.iter().count() == 0);
    let s = OrdinalSet64::<DVoid>::new();
    assert!(s.iter().next().is_none());
    assert!(s.iter().next_back().is_none());
    assert!(s.iter().len() == 0);
    assert!(OrdinalSet64::<DVoid>::all().iter().next().is_none());
}

/// A fresh set, allocated or not, yields nothing.
fn fresh<const N: usize>() {
    let s = OrdinalSet::<K<N>>::new();
    assert!(s.iter().next().is_none());
    assert!(s.iter().next_back().is_none());
    let s = OrdinalSet::<K<N>>::default();
    assert!(s.iter().next().is_none());
}

/// An arbitrary element of a multi-word set is found from both ends, and nothing else is.
fn large<const N: usize>(back: bool, a: usize) {
    let b = nd::below(N);
    nd::assume(a <= b);
    let mut s = OrdinalSet::<K<N>>::new();
    s.insert(K::at(b));
    s.insert(K::at(a));
    let mut it = s.iter();
    if back {
        assert!(it.next_back().unwrap().ord() == b);
        match it.next_back() {
            Some(k) => assert!(k.ord() == a && a < b),
            None => assert!(a == b),
        }
    } else {
        assert!(it.next().unwrap().ord() == a);
        match it.next() {
            Some(k) => assert!(k.ord() == b && a < b),
            None => assert!(a == b),
        }
    }
}

macro_rules! set {
    ($w:ident, $p:ident, $s:ty, $n:literal) => { { let (s, m) = $p::<$n, $s>(); $w(s.iter(), m) } };
}

walks! { set, #[unwind(6)] {
    set_iter(pre, OrdinalSet<_>, 3);
    set64_iter(pre, OrdinalSet64<_>, 4);
    set64_of_64_iter(pre3, OrdinalSet64<_>, 64);
} {
    #[unwind(8)] fn set64_exact() { let (s, m) = pre::<4, OrdinalSet64<_>>(); walk_exact(s.iter(), m) }
    #[unwind(8)] fn set64_of_64_exact() { let (s, m) = pre3::<64, OrdinalSet64<_>>(); walk_exact(s.iter(), m) }
    #[unwind(2)] fn all_1() { all::<K<1>>() }
    #[unwind(2)] fn all_7() { all::<K<7>>() }
    #[unwind(2)] fn all_32() { all::<K<32>>() }
    #[unwind(2)] fn all_33() { all::<K<33>>() }
    #[unwind(2)] fn all_63() { all::<K<63>>() }
    #[unwind(2)] fn all_64() { all::<K<64>>() }
    #[unwind(2)] fn all_derived() { all::<DHoles>() }
    #[unwind(2)] fn all_iter_0() { all_iter::<DVoid>() }
    #[unwind(2)] fn all_iter_1() { all_iter::<K<1>>() }
    #[unwind(2)] fn all_iter_33() { all_iter::<K<33>>() }
    #[unwind(2)] fn all_iter_63() { all_iter::<K<63>>() }
    #[unwind(2)] fn all_iter_64() { all_iter::<K<64>>() }
    #[unwind(8)] fn equality_5() { equality::<5>() }
    #[unwind(2)] fn equality_64() { equality::<64>() }
    #[unwind(8)] fn equality_all_5() { equality_all::<5>() }
    #[unwind(67)] fn equality_all_64() { equality_all::<64>() }
    #[unwind(2)] fn void_sets() { void() }
    #[unwind(6)] fn fresh_3() { fresh::<3>() }
    #[unwind(68)] fn fresh_65() { fresh::<65>() }
    #[unwind(67)] fn large_65_next() { large::<65>(false, 1) }
    #[unwind(67)] fn large_65_back() { large::<65>(true, 62) }
    #[unwind(68)] fn large_66_next() { large::<66>(false, 63) }
    #[unwind(68)] fn large_66_back() { large::<66>(true, 64) }
} }
