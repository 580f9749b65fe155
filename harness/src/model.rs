//! The laws of `Ordinal` and the reference models the collections are compared with.

use ordinal_map::Ordinal;

use crate::keys::Arb;
use crate::nd;

/// For every `usize`: `from_ordinal` answers exactly on `0..ORDINAL_SIZE`, and what it
/// answers has that ordinal.
pub fn law_from<T: Ordinal>() {
    law_from_below::<T>(None)
}

pub fn law_from_below<T: Ordinal>(bound: Option<usize>) {
    let n = nd::usize();
    if let Some(b) = bound {
        nd::assume(n < b);
    }
    match T::from_ordinal(n) {
        Some(v) => {
            assert!(n < T::ORDINAL_SIZE, "from_ordinal answered beyond ORDINAL_SIZE");
            assert!(v.ordinal() == n, "from_ordinal(n).ordinal() != n");
        }
        None => assert!(n >= T::ORDINAL_SIZE, "from_ordinal refused n < ORDINAL_SIZE"),
    }
}

/// For every value: its ordinal is below `ORDINAL_SIZE` and leads back to it.
pub fn law_value<T: Ordinal + Arb + PartialEq>() {
    let v = T::arb();
    let o = v.ordinal();
    assert!(o < T::ORDINAL_SIZE, "ordinal() >= ORDINAL_SIZE");
    match T::from_ordinal(o) {
        Some(w) => assert!(w == v, "from_ordinal(v.ordinal()) != v"),
        None => panic!("from_ordinal(v.ordinal()) is None"),
    }
}

/// For every two values: ordinals compare as the values do.
pub fn law_order<T: Ordinal + Arb + Ord>() {
    let a = T::arb();
    let b = T::arb();
    assert!(a.cmp(&b) == a.ordinal().cmp(&b.ordinal()), "ordinal order differs from Ord");
}

// ---------------------------------------------------------------- iterators

/// An item of some iterator over a map or set with `K<N>` keys and `u8` values.
pub trait Item {
    /// Is this the entry with this key ordinal and this value (as far as the item tells)?
    fn is(&self, ord: usize, val: u8) -> bool;
}
use crate::keys::K;
impl<const N: usize> Item for K<N> {
    #[inline(always)]
    fn is(&self, ord: usize, _: u8) -> bool {
        self.ord() == ord
    }
}
impl<const N: usize> Item for (K<N>, u8) {
    #[inline(always)]
    fn is(&self, ord: usize, val: u8) -> bool {
        self.0.ord() == ord && self.1 == val
    }
}
impl<'a, const N: usize> Item for (K<N>, &'a u8) {
    #[inline(always)]
    fn is(&self, ord: usize, val: u8) -> bool {
        self.0.ord() == ord && *self.1 == val
    }
}
impl<'a, const N: usize> Item for (K<N>, &'a mut u8) {
    #[inline(always)]
    fn is(&self, ord: usize, val: u8) -> bool {
        self.0.ord() == ord && *self.1 == val
    }
}
impl Item for u8 {
    #[inline(always)]
    fn is(&self, _: usize, val: u8) -> bool {
        *self == val
    }
}
impl<'a> Item for &'a u8 {
    #[inline(always)]
    fn is(&self, _: usize, val: u8) -> bool {
        **self == val
    }
}
impl<'a> Item for &'a mut u8 {
    #[inline(always)]
    fn is(&self, _: usize, val: u8) -> bool {
        **self == val
    }
}

/// Reference model of a double-ended iterator: the present entries of `r[lo..hi]`, ascending.
/// The entry at `i` has the key with ordinal `ord[i]`.
#[derive(Clone, Copy)]
pub struct Rest<const N: usize> {
    pub r: [Option<u8>; N],
    pub ord: [usize; N],
    pub lo: usize,
    pub hi: usize,
}

impl<const N: usize> Rest<N> {
    pub fn new(r: [Option<u8>; N]) -> Self {
        let mut ord = [0; N];
        for i in 0..N {
            ord[i] = i;
        }
        Rest { r, ord, lo: 0, hi: N }
    }
    /// Entries with these ordinals, ascending.
    pub fn of(ord: [usize; N], v: [u8; N]) -> Self {
        let mut m = Rest::all(v);
        m.ord = ord;
        m
    }
    pub fn all(v: [u8; N]) -> Self {
        let mut r = [None; N];
        for i in 0..N {
            r[i] = Some(v[i]);
        }
        Rest::new(r)
    }
    #[inline(always)]
    fn has(&self, i: usize) -> bool {
        self.lo <= i && i < self.hi && self.r[i].is_some()
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        for i in 0..N {
            if self.has(i) {
                n += 1;
            }
        }
        n
    }
    pub fn front(&mut self) -> Option<(usize, u8)> {
        for i in 0..N {
            if self.has(i) {
                self.lo = i + 1;
                return Some((self.ord[i], self.r[i].unwrap()));
            }
        }
        self.lo = self.hi;
        None
    }
    pub fn back(&mut self) -> Option<(usize, u8)> {
        for j in 0..N {
            let i = N - 1 - j;
            if self.has(i) {
                self.hi = i;
                return Some((self.ord[i], self.r[i].unwrap()));
            }
        }
        self.hi = self.lo;
        None
    }
}

/// The implementation's answer is the model's answer.
#[inline(always)]
pub fn same<T: Item>(got: Option<T>, want: Option<(usize, u8)>) {
    match (got, want) {
        (None, None) => {}
        (Some(g), Some((o, v))) => assert!(g.is(o, v), "iterator yielded the wrong item"),
        (None, Some(_)) => panic!("iterator ended too early"),
        (Some(_), None) => panic!("iterator yielded an item too many"),
    }
}

/// Any interleaving of `next` and `next_back`, through exhaustion.
pub fn walk_ends<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    for _ in 0..N + 1 {
        if nd::bool() {
            same(it.next(), m.front());
        } else {
            same(it.next_back(), m.back());
        }
    }
}

/// A step from an arbitrary end, then `nth(k)`, then one more step each way.
pub fn walk_nth<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    step(&mut it, &mut m);
    let k = nd::usize();
    for i in 0..N + 1 {
        if i < k {
            m.front();
        }
    }
    same(it.nth(k), m.front());
    same(it.next(), m.front());
    same(it.next_back(), m.back());
}

/// A step from an arbitrary end, then `nth_back(k)`, then one more step each way.
pub fn walk_nth_back<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    step(&mut it, &mut m);
    let k = nd::usize();
    for i in 0..N + 1 {
        if i < k {
            m.back();
        }
    }
    same(it.nth_back(k), m.back());
    same(it.next(), m.front());
    same(it.next_back(), m.back());
}

#[inline(always)]
fn step<const N: usize, I: DoubleEndedIterator>(it: &mut I, m: &mut Rest<N>)
where
    I::Item: Item,
{
    match nd::choice(3) {
        0 => same(it.next(), m.front()),
        1 => same(it.next_back(), m.back()),
        _ => {}
    }
}

/// A step from an arbitrary end, then `count`.
pub fn walk_count<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    step(&mut it, &mut m);
    assert!(it.count() == m.count(), "count() is wrong");
}

/// A step from an arbitrary end, then `last`.
pub fn walk_last<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    step(&mut it, &mut m);
    same(it.last(), m.back());
}

/// A step from an arbitrary end, then `fold`.
pub fn walk_fold<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    step(&mut it, &mut m);
    it.fold((), |(), x| same(Some(x), m.front()));
    assert!(m.count() == 0, "fold() skipped an item");
}

/// A step from an arbitrary end, then `rfold`.
pub fn walk_rfold<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    step(&mut it, &mut m);
    it.rfold((), |(), x| same(Some(x), m.back()));
    assert!(m.count() == 0, "rfold() skipped an item");
}

/// `size_hint` is true at every position of any interleaving.
pub fn walk_hints<const N: usize, I: DoubleEndedIterator>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    for _ in 0..N + 1 {
        hint(it.size_hint(), m.count());
        if nd::bool() {
            it.next();
            m.front();
        } else {
            it.next_back();
            m.back();
        }
    }
    hint(it.size_hint(), m.count());
}

#[inline(always)]
pub fn hint((lo, hi): (usize, Option<usize>), n: usize) {
    assert!(lo <= n, "size_hint lower bound exceeds the remaining items");
    if let Some(hi) = hi {
        assert!(n <= hi, "size_hint upper bound is below the remaining items");
    }
}

/// `len` and `size_hint` are exact at every position of any interleaving.
pub fn walk_exact<const N: usize, I: DoubleEndedIterator + ExactSizeIterator>(
    mut it: I,
    mut m: Rest<N>,
) where
    I::Item: Item,
{
    for _ in 0..N + 2 {
        let n = m.count();
        assert!(it.len() == n, "len() is not the number of remaining items");
        assert!(it.size_hint() == (n, Some(n)), "size_hint of an ExactSizeIterator is not exact");
        if nd::bool() {
            it.next();
            m.front();
        } else {
            it.next_back();
            m.back();
        }
    }
}

/// Both halves of a cloned iterator continue alike and independently of each other.
pub fn walk_clone<const N: usize, I: DoubleEndedIterator + Clone>(mut it: I, mut m: Rest<N>)
where
    I::Item: Item,
{
    step(&mut it, &mut m);
    let mut c = it.clone();
    let mut cm = m;
    step(&mut it, &mut m);
    if nd::bool() {
        same(c.next(), cm.front());
        same(c.next_back(), cm.back());
    } else {
        same(c.next_back(), cm.back());
        same(c.next(), cm.front());
    }
    if nd::bool() {
        same(it.next(), m.front());
    } else {
        same(it.next_back(), m.back());
    }
}

// ---------------------------------------------------------------- sparse maps

use ordinal_map::map::*;

/// What the two sparse maps share.
pub trait Sparse<K: Ordinal, V>:
    Sized + Default + FromIterator<(K, V)> + IntoIterator<Item = (K, V)>
{
    fn new() -> Self;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, k: &K) -> Option<&V>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn contains_key(&self, k: &K) -> bool;
    fn insert(&mut self, k: K, v: V) -> Option<V>;
    fn entry(&mut self, k: K) -> Entry<'_, K, V>;
    fn remove(&mut self, k: &K) -> Option<V>;
    fn iter(&self) -> Iter<'_, K, V>;
    fn iter_mut(&mut self) -> IterMut<'_, K, V>;
    fn keys(&self) -> Keys<'_, K, V>;
    fn values(&self) -> Values<'_, K, V>;
    fn values_mut<'a>(&'a mut self) -> impl DoubleEndedIterator<Item = &'a mut V> where V: 'a;
    fn drain(&mut self) -> Drain<'_, K, V>;
    fn clear(&mut self);
    fn by_ref(&self) -> Iter<'_, K, V>;
}
macro_rules! sparse {
    ([$($g:tt)*] $t:ty) => { impl<K: Ordinal, V, $($g)*> Sparse<K, V> for $t {
        fn new() -> Self { <$t>::new() }
        fn len(&self) -> usize { <$t>::len(self) }
        fn is_empty(&self) -> bool { <$t>::is_empty(self) }
        fn get(&self, k: &K) -> Option<&V> { <$t>::get(self, k) }
        fn get_mut(&mut self, k: &K) -> Option<&mut V> { <$t>::get_mut(self, k) }
        fn contains_key(&self, k: &K) -> bool { <$t>::contains_key(self, k) }
        fn insert(&mut self, k: K, v: V) -> Option<V> { <$t>::insert(self, k, v) }
        fn entry(&mut self, k: K) -> Entry<'_, K, V> { <$t>::entry(self, k) }
        fn remove(&mut self, k: &K) -> Option<V> { <$t>::remove(self, k) }
        fn iter(&self) -> Iter<'_, K, V> { <$t>::iter(self) }
        fn iter_mut(&mut self) -> IterMut<'_, K, V> { <$t>::iter_mut(self) }
        fn keys(&self) -> Keys<'_, K, V> { <$t>::keys(self) }
        fn values(&self) -> Values<'_, K, V> { <$t>::values(self) }
        fn values_mut<'a>(&'a mut self) -> impl DoubleEndedIterator<Item = &'a mut V> where V: 'a { <$t>::values_mut(self) }
        fn drain(&mut self) -> Drain<'_, K, V> { <$t>::drain(self) }
        fn clear(&mut self) { <$t>::clear(self) }
        fn by_ref(&self) -> Iter<'_, K, V> { self.into_iter() }
    } };
}
sparse!([] OrdinalMap<K, V>);
sparse!([const S: usize] OrdinalArrayMap<K, V, S>);

/// A map in an arbitrary state, and that state. The storage exists.
pub fn any_map<const N: usize, V: Arb + Copy, M: Sparse<K<N>, V>>() -> (M, [Option<V>; N]) {
    let mut m = M::new();
    m.insert(K::at(0), V::arb());
    m.remove(&K::at(0));
    let mut r = [None; N];
    for i in 0..N {
        if nd::bool() {
            let v = V::arb();
            m.insert(K::at(i), v);
            r[i] = Some(v);
        }
    }
    (m, r)
}

/// Every question about every key, and the totals, have the model's answer.
pub fn observe<const N: usize, V: Copy + PartialEq, M: Sparse<K<N>, V>>(m: &mut M, r: &[Option<V>; N]) {
    let q = nd::below(N);
    assert!(m.get(&K::at(q)).copied() == r[q], "get");
    assert!(m.contains_key(&K::at(q)) == r[q].is_some(), "contains_key");
    assert!(m.get_mut(&K::at(q)).map(|v| *v) == r[q], "get_mut");
    let mut n = 0;
    for i in 0..N {
        n += r[i].is_some() as usize;
    }
    assert!(m.len() == n, "len");
    assert!(m.is_empty() == (n == 0), "is_empty");
}
