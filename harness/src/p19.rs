//! P19: every value put in is dropped exactly once, and not while it is still held.
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;

const MAX: usize = 16;
static mut DROPS: [u8; MAX] = [0; MAX];
static mut NEXT: usize = 0;
static mut CLONED: [bool; 8] = [false; 8];

/// A value with an identity, whose drops are counted.
pub struct Tok(usize);
impl Tok {
    fn new() -> Tok {
        unsafe {
            NEXT += 1;
            Tok(NEXT - 1)
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { DROPS[self.0] += 1 }
    }
}
impl Clone for Tok {
    /// The clone of `n` is `n + 8`; nothing is cloned twice.
    fn clone(&self) -> Tok {
        unsafe {
            assert!(self.0 < 8 && !CLONED[self.0]);
            CLONED[self.0] = true;
        }
        Tok(self.0 + 8)
    }
}
fn start() {
    unsafe {
        DROPS = [0; MAX];
        NEXT = 0;
        CLONED = [false; 8];
    }
}
fn drops(id: usize) -> u8 {
    unsafe { DROPS[id] }
}
/// All that was created is gone, each exactly once. (Any one of them: the solver picks.)
fn end() {
    only(&[]);
}
/// Dropped once is what is not in `held`, and nothing else.
fn only(held: &[Option<usize>]) {
    let q = nd::below(MAX);
    unsafe {
        let mut want = (q < NEXT || (q >= 8 && CLONED[q - 8])) as u8;
        for h in held {
            if *h == Some(q) {
                want = 0;
            }
        }
        assert!(DROPS[q] == want, "a value was dropped while held, or not exactly once after");
    }
}

fn filled<const N: usize, M: Sparse<K<N>, Tok>>() -> (M, [Option<usize>; N]) {
    start();
    let mut m = M::new();
    // Only the storage: a map that never had any is the business of P09 and P12.
    drop(m.entry(K::at(0)));
    let mut r = [None; N];
    for i in 0..N {
        if nd::bool() {
            let t = Tok::new();
            r[i] = Some(t.0);
            assert!(m.insert(K::at(i), t).is_none());
        }
    }
    (m, r)
}

fn insert_remove<const N: usize, M: Sparse<K<N>, Tok>>() {
    let (mut m, mut r) = filled::<N, M>();
    let i = nd::below(N);
    let t = Tok::new();
    let id = t.0;
    let old = m.insert(K::at(i), t);
    assert!(old.as_ref().map(|t| t.0) == r[i]);
    assert!(drops(id) == 0);
    drop(old);
    r[i] = Some(id);
    only(&r);
    let j = nd::below(N);
    let old = m.remove(&K::at(j));
    assert!(old.as_ref().map(|t| t.0) == r[j]);
    drop(old);
    r[j] = None;
    only(&r);
    drop(m);
    end();
}

fn entry<const N: usize, M: Sparse<K<N>, Tok>>() {
    let (mut m, mut r) = filled::<N, M>();
    let i = nd::below(N);
    let t = Tok::new();
    let id = t.0;
    if nd::bool() {
        let got = m.entry(K::at(i)).or_insert(t).0;
        if r[i].is_none() {
            r[i] = Some(id);
        }
        assert!(Some(got) == r[i]);
    } else {
        match m.entry(K::at(i)) {
            Entry::Vacant(e) => {
                e.insert(t);
                r[i] = Some(id);
            }
            Entry::Occupied(mut e) => {
                *e.get_mut() = t;
                r[i] = Some(id);
            }
        }
    }
    only(&r);
    drop(m);
    end();
}

fn clear<const N: usize, M: Sparse<K<N>, Tok>>() {
    let (mut m, _) = filled::<N, M>();
    m.clear();
    only(&[]);
    drop(m);
    end();
}

/// Any number of steps from either end, then dropped.
fn partly<I: DoubleEndedIterator>(it: &mut I, steps: usize, mut id: impl FnMut(&I::Item) -> usize) {
    for _ in 0..steps {
        let x = match nd::choice(3) {
            0 => it.next(),
            1 => it.next_back(),
            _ => None,
        };
        if let Some(x) = &x {
            assert!(drops(id(x)) == 0, "a yielded value was dropped already");
        }
        let id = x.as_ref().map(|x| id(x));
        drop(x);
        if let Some(id) = id {
            assert!(drops(id) == 1, "a yielded value has another owner");
        }
    }
}

pub(crate) fn drain<const N: usize, M: Sparse<K<N>, Tok>>() {
    let (mut m, _) = filled::<N, M>();
    partly(&mut m.drain(), N, |(_, t)| t.0);
    only(&[]);
    drop(m);
    end();
}

pub(crate) fn into_iter<const N: usize, M: Sparse<K<N>, Tok> + IntoIterator<Item = (K<N>, Tok)>>()
where
    M::IntoIter: DoubleEndedIterator,
{
    let (m, _) = filled::<N, M>();
    partly(&mut m.into_iter(), N, |(_, t)| t.0);
    end();
}

fn clone<const N: usize, const FIRST: bool, M: Sparse<K<N>, Tok> + Clone>() {
    let (m, r) = filled::<N, M>();
    let c = m.clone();
    if FIRST {
        drop(c);
        only(&r);
        drop(m);
    } else {
        let mut n = [None; N];
        for i in 0..N {
            n[i] = c.get(&K::at(i)).map(|t| t.0);
            assert!(n[i] == r[i].map(|t| t + 8));
        }
        drop(m);
        only(&n);
        drop(c);
    }
    end();
}

fn collected<const N: usize, M: Sparse<K<N>, Tok> + FromIterator<(K<N>, Tok)>>() {
    start();
    let (i, j) = (nd::below(N), nd::below(N));
    let (a, b) = (Tok::new(), Tok::new());
    let mut r = [None; N];
    r[i] = Some(a.0);
    r[j] = Some(b.0);
    let m: M = [(K::at(i), a), (K::at(j), b)].into_iter().collect();
    only(&r);
    drop(m);
    end();
}

fn retain<const N: usize>() {
    let (mut m, mut r) = filled::<N, OrdinalArrayMap<K<N>, Tok, N>>();
    m.retain(|k, t| {
        assert!(r[k.ord()] == Some(t.0) && drops(t.0) == 0);
        let keep = nd::bool();
        if !keep {
            r[k.ord()] = None;
        }
        keep
    });
    only(&r);
    drop(m);
    end();
}

type Heap<const N: usize> = OrdinalTotalMap<K<N>, Tok>;
type Array<const N: usize> = OrdinalTotalArrayMap<K<N>, Tok, N>;

macro_rules! total {
    ($name:ident, $m:ident) => { mod $name {
        use super::*;
        /// The initialisation fails at any key, or not at all.
        pub fn try_new<const N: usize>() {
            start();
            let fail = nd::below(N + 1);
            let m = $m::<N>::try_new(|k: K<N>| if k.ord() == fail { Err(Tok::new()) } else { Ok(Tok::new()) });
            match m {
                Ok(m) => {
                    assert!(fail == N);
                    only(&std::array::from_fn::<_, N, _>(|i| Some(i)));
                    drop(m);
                }
                Err(e) => {
                    assert!(e.0 == fail && drops(e.0) == 0);
                    only(&[Some(e.0)]);
                }
            }
            end();
        }
        pub fn replace<const N: usize>() {
            start();
            let mut m = $m::<N>::new(|_| Tok::new());
            let (i, j) = (nd::below(N), nd::below(N));
            let mut held: [Option<usize>; N] = std::array::from_fn(|i| Some(i));
            let old = m.insert(K::at(i), Tok::new());
            assert!(Some(old.0) == held[i] && drops(old.0) == 0);
            held[i] = Some(N);
            drop(old);
            only(&held);
            m[&K::at(j)] = Tok::new();
            held[j] = Some(N + 1);
            only(&held);
            drop(m);
            end();
        }
        pub fn into_iter<const N: usize>() {
            start();
            let m = $m::<N>::new(|_| Tok::new());
            partly(&mut m.into_iter(), N, |(_, t)| t.0);
            end();
        }
        pub fn into_iter_nth<const N: usize>() {
            start();
            let m = $m::<N>::new(|_| Tok::new());
            let mut it = m.into_iter();
            let n = nd::below(N + 1);
            let x = if nd::bool() { it.nth(n) } else { it.nth_back(n) };
            if let Some((_, t)) = &x {
                assert!(drops(t.0) == 0);
            }
            drop(it);
            drop(x);
            end();
        }
        pub fn into_keys<const N: usize>() {
            start();
            let m = $m::<N>::new(|_| Tok::new());
            let keys = m.into_keys();
            only(&[]);
            assert!(keys.len() == N);
            end();
        }
        pub fn into_values<const N: usize>() {
            start();
            let m = $m::<N>::new(|_| Tok::new());
            let v = m.into_values();
            let held: [Option<usize>; N] = std::array::from_fn(|i| Some(i));
            only(&held);
            let q = nd::below(N);
            assert!(v[q].0 == q);
            drop(v);
            end();
        }
        pub fn clone<const N: usize>() {
            start();
            let m = $m::<N>::new(|_| Tok::new());
            let c = m.clone();
            let held: [Option<usize>; N] = std::array::from_fn(|i| Some(i));
            let clones: [Option<usize>; N] = std::array::from_fn(|i| Some(8 + i));
            let q = nd::below(N);
            assert!(c[&K::at(q)].0 == 8 + q);
            if nd::bool() {
                drop(m);
                only(&clones);
                drop(c);
            } else {
                drop(c);
                only(&held);
                drop(m);
            }
            end();
        }
    } };
}
total!(heap, Heap);
total!(array, Array);

/// The array map's transformations.
fn zip<const N: usize>() {
    start();
    let (a, b) = (Array::<N>::new(|_| Tok::new()), Array::<N>::new(|_| Tok::new()));
    let m = a.zip(b);
    let q = nd::below(N);
    let (x, y) = &m[&K::at(q)];
    assert!(x.0 == q && y.0 == N + q);
    assert!(drops(q) == 0 && drops(N + q) == 0);
    drop(m);
    end();
}
fn map<const N: usize>() {
    start();
    let m = Array::<N>::new(|_| Tok::new()).map(|k, t| {
        assert!(t.0 == k.ord());
        (t, Tok::new())
    });
    let q = nd::below(N);
    let (x, y) = &m[&K::at(q)];
    assert!(x.0 == q && y.0 == N + q);
    assert!(drops(q) == 0 && drops(N + q) == 0);
    drop(m);
    end();
}
/// A mapping that gives some values away and drops the others.
fn map_values<const N: usize>() {
    start();
    let mut kept: [Option<usize>; N] = [None; N];
    let m = Array::<N>::new(|_| Tok::new()).map_values(|t| {
        if nd::bool() {
            kept[t.0] = Some(t.0);
            Some(t)
        } else {
            None
        }
    });
    only(&kept);
    drop(m);
    end();
}
fn borrowed<const N: usize>() {
    start();
    let mut m = Array::<N>::new(|_| Tok::new());
    let q = nd::below(N);
    {
        let r = m.as_ref();
        assert!(r[&K::at(q)].0 == q);
    }
    {
        let mut r = m.as_mut();
        *r[&K::at(q)] = Tok::new();
    }
    let mut held: [Option<usize>; N] = std::array::from_fn(|i| Some(i));
    held[q] = Some(N);
    only(&held);
    drop(m);
    end();
}

/// Many values: all creations are matched by drops.
struct Counted(u8);
static mut ALIVE: usize = 0;
impl Counted {
    fn new() -> Self {
        unsafe { ALIVE += 1 };
        Counted(0)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        unsafe { ALIVE -= 1 }
    }
}
fn alive() -> usize {
    unsafe { ALIVE }
}
pub(crate) fn many<const N: usize>(fail: usize) {
    let make = |k: K<N>| if k.ord() == fail { Err(()) } else { Ok(Counted::new()) };
    match OrdinalTotalArrayMap::<K<N>, Counted, N>::try_new(make) {
        Ok(m) => {
            assert!(fail == N && alive() == N, "a value is missing");
            let m = m.map_values(|c| (c, 1u8));
            assert!(alive() == N, "map_values dropped a value");
            let mut it = m.into_iter();
            drop(it.next());
            drop(it.next_back());
            assert!(alive() == N - 2, "into_iter dropped a value");
        }
        Err(()) => assert!(fail < N),
    }
    assert!(alive() == 0, "values were leaked");
}

/// A key type that owns something.
#[derive(Ordinal)]
pub enum Own {
    A(Part),
    B(Part, Part),
    C { x: Part, y: [Part; 2] },
}
pub struct Part(bool, Tok);
impl Ordinal for Part {
    const ORDINAL_SIZE: usize = 2;
    fn ordinal(&self) -> usize {
        self.0 as usize
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if o < 2 {
            Some(Part(o == 1, Tok::new()))
        } else {
            None
        }
    }
}
fn key<T: Ordinal>() {
    start();
    let n = nd::usize();
    nd::assume(n < T::ORDINAL_SIZE + 9);
    let v = T::from_ordinal(n);
    assert!(v.is_some() == (n < T::ORDINAL_SIZE));
    if let Some(v) = &v {
        assert!(v.ordinal() == n);
    }
    drop(v);
    end();
}

macro_rules! both {
    ($($(#[$u:meta])* $f:ident $h:ident $a:ident $n:literal;)*) => { crate::harnesses! { $(
        #[unwind(5)] fn $h() { $f::<$n, OrdinalMap<K<$n>, Tok>>() }
        #[unwind(5)] fn $a() { $f::<$n, OrdinalArrayMap<K<$n>, Tok, $n>>() }
    )* } };
}
pub mod sparse {
    use super::*;
    both! {
        insert_remove heap_insert_remove array_insert_remove 2;
        entry heap_entry array_entry 2;
        clear heap_clear array_clear 3;
        drain heap_drain array_drain 2;
        into_iter heap_into_iter array_into_iter 2;
        collected heap_collected array_collected 3;
    }
}
pub mod totals {
    use super::*;
    crate::harnesses! {
        #[unwind(5)] fn heap_sparse_clone() { clone::<2, true, OrdinalMap<K<2>, Tok>>() }
        #[unwind(5)] fn heap_sparse_cloned() { clone::<2, false, OrdinalMap<K<2>, Tok>>() }
        #[unwind(5)] fn array_sparse_clone() { clone::<2, true, OrdinalArrayMap<K<2>, Tok, 2>>() }
        #[unwind(5)] fn array_sparse_cloned() { clone::<2, false, OrdinalArrayMap<K<2>, Tok, 2>>() }
        #[unwind(22)] fn many_20() { many::<20>(nd::below(21)) }
        #[unwind(72)] fn many_70() { many::<70>(70) }
        #[unwind(262)] fn many_260_fail() { many::<260>(258) }
        #[unwind(5)] fn array_retain() { retain::<3>() }
        #[unwind(5)] fn heap_try_new() { heap::try_new::<3>() }
        #[unwind(5)] fn array_try_new() { array::try_new::<3>() }
        #[unwind(5)] fn heap_replace() { heap::replace::<3>() }
        #[unwind(5)] fn array_replace() { array::replace::<3>() }
        #[unwind(5)] fn heap_into_iter() { heap::into_iter::<3>() }
        #[unwind(5)] fn array_into_iter() { array::into_iter::<3>() }
        #[unwind(5)] fn heap_into_iter_nth() { heap::into_iter_nth::<3>() }
        #[unwind(5)] fn array_into_iter_nth() { array::into_iter_nth::<3>() }
        #[unwind(5)] fn heap_into_keys() { heap::into_keys::<3>() }
        #[unwind(5)] fn array_into_keys() { array::into_keys::<3>() }
        #[unwind(5)] fn heap_into_values() { heap::into_values::<3>() }
        #[unwind(5)] fn array_into_values() { array::into_values::<3>() }
        #[unwind(5)] fn heap_clone() { heap::clone::<3>() }
        #[unwind(5)] fn array_clone() { array::clone::<3>() }
        #[unwind(5)] fn array_zip() { zip::<3>() }
        #[unwind(5)] fn array_map() { map::<3>() }
        #[unwind(5)] fn array_map_values() { map_values::<3>() }
        #[unwind(5)] fn array_borrowed() { borrowed::<3>() }
        #[unwind(5)] fn key_array() { key::<[Part; 3]>() }
        #[unwind(5)] fn key_tuple() { key::<(Part, Part, bool)>() }
        #[unwind(5)] fn key_option() { key::<Option<Result<Part, Box<Part>>>>() }
        #[unwind(5)] fn key_derived() { key::<Own>() }
    }
}
pub const LISTS: &[&[(&str, fn(), u32)]] = &[sparse::LIST, totals::LIST];
