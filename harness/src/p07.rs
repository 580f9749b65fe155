//! P07: a set contains exactly what was inserted.
use ordinal_map::set::*;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::nd;

/// The operations the three set types share.
pub trait Set<T>: Sized + Default + Clone + FromIterator<T> {
    fn new() -> Self;
    fn insert(&mut self, v: T) -> bool;
    fn contains(&self, v: &T) -> bool;
}
impl<T: Ordinal> Set<T> for OrdinalSet<T> {
    fn new() -> Self {
        OrdinalSet::new()
    }
    fn insert(&mut self, v: T) -> bool {
        OrdinalSet::insert(self, v)
    }
    fn contains(&self, v: &T) -> bool {
        OrdinalSet::contains(self, v)
    }
}
impl<T: Ordinal> Set<T> for OrdinalSet64<T> {
    fn new() -> Self {
        OrdinalSet64::new()
    }
    fn insert(&mut self, v: T) -> bool {
        OrdinalSet64::insert(self, v)
    }
    fn contains(&self, v: &T) -> bool {
        OrdinalSet64::contains(self, v)
    }
}
impl<T: Ordinal, const S: usize> Set<T> for OrdinalArraySet<T, S> {
    fn new() -> Self {
        OrdinalArraySet::new()
    }
    fn insert(&mut self, v: T) -> bool {
        OrdinalArraySet::insert(self, v)
    }
    fn contains(&self, v: &T) -> bool {
        OrdinalArraySet::contains(self, v)
    }
}

/// Three arbitrary insertions, then an arbitrary question.
fn inserts<T: Ordinal + Arb + Copy + PartialEq, S: Set<T>>() {
    let (a, b, c, q) = (T::arb(), T::arb(), T::arb(), T::arb());
    let mut s = if nd::bool() { S::new() } else { S::default() };
    assert!(!s.contains(&q), "a new set is not empty");
    assert!(s.insert(a), "first insertion answered false");
    assert!(s.contains(&q) == (q == a), "membership after one insertion");
    assert!(s.insert(b) == (b != a), "second insertion's answer");
    assert!(s.contains(&q) == (q == a || q == b), "membership after two insertions");
    assert!(s.insert(c) == (c != a && c != b), "third insertion's answer");
    assert!(s.contains(&q) == (q == a || q == b || q == c), "membership after three insertions");
}

/// One arbitrary insertion into a set of a large type, then an arbitrary question.
fn single<T: Ordinal + Arb + Copy + PartialEq, S: Set<T>>() {
    let (a, q) = (T::arb(), T::arb());
    let mut s = S::new();
    assert!(s.insert(a));
    assert!(s.contains(&q) == (q == a));
}

/// A set of a very large type: insertions at both sides of the 16-bit border, any question.
fn spread<const N: usize, S: Set<K<N>>>() {
    let q = K::<N>::arb();
    let mut s = S::new();
    assert!(s.insert(K::at(65_536 + 64)));
    assert!(s.contains(&q) == (q.ord() == 65_536 + 64));
    assert!(s.insert(K::at(64)));
    assert!(s.insert(K::at(N - 1)));
    assert!(!s.insert(K::at(N - 1)));
    let o = q.ord();
    assert!(s.contains(&q) == (o == 64 || o == 65_536 + 64 || o == N - 1));
}

/// Collecting is inserting one by one.
fn collected<T: Ordinal + Arb + Copy + PartialEq, S: Set<T>>() {
    let (a, b, q) = (T::arb(), T::arb(), T::arb());
    let n = nd::below(3);
    let s: S = [a, b].into_iter().take(n).collect();
    let want = (n > 0 && q == a) || (n > 1 && q == b);
    assert!(s.contains(&q) == want, "membership after collect()");
}

/// A set of a type without values.
fn void<S: Set<DVoid>>() {
    let s = S::new();
    let t: S = [].into_iter().collect();
    let _ = (s.clone(), t, S::default());
}

macro_rules! ins {
    ($($i:ident, $c:ident, $t:ty, $s:ty;)*) => { crate::harnesses! {
        #[unwind(2)] fn single_4000() { single::<K<4000>, OrdinalSet<_>>() }
        #[unwind(2)] fn single_a4000() { single::<K<4000>, OrdinalArraySet<_, 63>>() }
        #[unwind(2)] fn spread_set() { spread::<70000, OrdinalSet<_>>() }
        #[unwind(2)] fn spread_array() { spread::<70000, OrdinalArraySet<_, 1094>>() }
        #[unwind(2)] fn void_set() { void::<OrdinalSet<DVoid>>() }
        #[unwind(2)] fn void_set64() { void::<OrdinalSet64<DVoid>>() }
        #[unwind(2)] fn void_array() { void::<OrdinalArraySet<DVoid, 0>>() }
        $(
        #[unwind(5)] fn $i() { inserts::<$t, $s>() }
        #[unwind(5)] fn $c() { collected::<$t, $s>() }
    )* } };
}
ins! {
    set_1, set_1_collect, K<1>, OrdinalSet<K<1>>;
    set_3, set_3_collect, K<3>, OrdinalSet<K<3>>;
    set_63, set_63_collect, K<63>, OrdinalSet<K<63>>;
    set_64, set_64_collect, K<64>, OrdinalSet<K<64>>;
    set_65, set_65_collect, K<65>, OrdinalSet<K<65>>;
    set_128, set_128_collect, K<128>, OrdinalSet<K<128>>;
    set_129, set_129_collect, K<129>, OrdinalSet<K<129>>;
    set_300, set_300_collect, K<300>, OrdinalSet<K<300>>;
    set_derived, set_derived_collect, DMixed, OrdinalSet<DMixed>;
    set_i8, set_i8_collect, i8, OrdinalSet<i8>;
    array_1, array_1_collect, K<1>, OrdinalArraySet<K<1>, 1>;
    array_3, array_3_collect, K<3>, OrdinalArraySet<K<3>, 1>;
    array_64, array_64_collect, K<64>, OrdinalArraySet<K<64>, 1>;
    array_65, array_65_collect, K<65>, OrdinalArraySet<K<65>, 2>;
    array_128, array_128_collect, K<128>, OrdinalArraySet<K<128>, 2>;
    array_129, array_129_collect, K<129>, OrdinalArraySet<K<129>, 3>;
    array_300, array_300_collect, K<300>, OrdinalArraySet<K<300>, { ordinal_array_set_s::<K<300>>() }>;
    array_i8, array_i8_collect, i8, OrdinalArraySet<i8, 4>;
    set64_1, set64_1_collect, K<1>, OrdinalSet64<K<1>>;
    set64_3, set64_3_collect, K<3>, OrdinalSet64<K<3>>;
    set64_33, set64_33_collect, K<33>, OrdinalSet64<K<33>>;
    set64_63, set64_63_collect, K<63>, OrdinalSet64<K<63>>;
    set64_64, set64_64_collect, K<64>, OrdinalSet64<K<64>>;
    set64_derived, set64_derived_collect, DMixed, OrdinalSet64<DMixed>;
}
