//! P20: `{:?}` shows exactly the remaining contents, in key order.
//!
//! The keys and values of these harnesses print nothing themselves; they note that they were
//! asked to. So the shape (`{..}` or `[..]`, what is inside, and in which order) is checked,
//! and the punctuation that `std::fmt` puts in between is not.
use std::fmt::{self, Debug, Write};
use std::sync::atomic::Ordering;

use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::{AtomicOrdinal, Ordinal};

use crate::keys::*;
use crate::model::*;
use crate::nd;

const CAP: usize = 12;
static mut LOG: [u8; CAP] = [0; CAP];
static mut LEN: usize = 0;

pub fn shown(c: u8) {
    unsafe {
        if LEN < CAP {
            LOG[LEN] = c;
        }
        LEN += 1;
    }
}

/// A value that notes that it is shown.
#[derive(Copy, Clone, PartialEq)]
pub struct D(u8);
impl Debug for D {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        shown(self.0);
        Ok(())
    }
}
impl Arb for D {
    fn arb() -> Self {
        D(nd::u8())
    }
}

/// The reader of the text: remembers how it starts and ends.
struct Ends(u8, u8);
impl Write for Ends {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        if s.len() > 0 {
            if self.0 == 0 {
                self.0 = s[0];
            }
            self.1 = s[s.len() - 1];
        }
        Ok(())
    }
}

struct Want {
    open: u8,
    close: u8,
    log: [u8; CAP],
    len: usize,
}
impl Want {
    fn new(s: &str) -> Want {
        Want { open: s.as_bytes()[0], close: s.as_bytes()[1], log: [0; CAP], len: 0 }
    }
    fn add(&mut self, c: u8) {
        self.log[self.len] = c;
        self.len += 1;
    }
    fn key(&mut self, ord: usize) {
        self.add(b'a' + ord as u8)
    }
}

fn shows<T: Debug>(t: &T, want: Want) {
    unsafe {
        LEN = 0;
        let mut ends = Ends(0, 0);
        assert!(write!(ends, "{:?}", t).is_ok(), "Debug failed");
        assert!(ends.0 == want.open && ends.1 == want.close, "not shown as that kind of collection");
        assert!(LEN == want.len, "Debug shows another number of keys and values");
        let i = nd::below(CAP);
        assert!(i >= want.len || LOG[i] == want.log[i], "Debug shows something else");
    }
}

/// `{a: 0, b: 7}`
fn entries<const N: usize>(brackets: &str, r: &[Option<D>; N]) -> Want {
    let mut w = Want::new(brackets);
    for i in 0..N {
        if let Some(d) = r[i] {
            w.key(i);
            w.add(d.0);
        }
    }
    w
}

fn sparse<const N: usize, M: Sparse<K<N>, D> + Debug>(fresh: bool) {
    let (m, r) = if fresh { (M::new(), [None; N]) } else { any_map::<N, D, M>() };
    shows(&m, entries("{}", &r));
}

fn bytes<const N: usize>(r: [Option<D>; N]) -> Rest<N> {
    let mut b = [None; N];
    for i in 0..N {
        b[i] = r[i].map(|d| d.0);
    }
    Rest::new(b)
}

/// After a step from an arbitrary end, the iterator shows what is left.
fn left<const N: usize, I: DoubleEndedIterator + Debug>(mut it: I, mut m: Rest<N>, keys: bool, values: bool) {
    match nd::choice(3) {
        0 => {
            it.next();
            m.front();
        }
        1 => {
            it.next_back();
            m.back();
        }
        _ => {}
    }
    let mut w = Want::new("[]");
    for i in 0..N {
        if m.lo <= i && i < m.hi {
            if let Some(v) = m.r[i] {
                if keys {
                    w.key(i);
                }
                if values {
                    w.add(v);
                }
            }
        }
    }
    shows(&it, w);
}

macro_rules! of {
    ($m:ident, $it:ident, $k:literal, $v:literal) => { {
        #[allow(unused_mut)]
        let (mut m, r) = any_map::<2, D, map!($m, K<2>, D, 2)>();
        left(m.$it(), bytes(r), $k, $v)
    } };
}
/// `Keys` is shown for maps to `()` only.
fn keys<M: Sparse<K<3>, ()>>(m: &mut M) -> Rest<3> {
    let mut r = [None; 3];
    for i in 0..3 {
        if nd::bool() {
            m.insert(K::at(i), ());
            r[i] = Some(0);
        }
    }
    Rest::new(r)
}
fn all() -> [D; 3] {
    [D::arb(), D::arb(), D::arb()]
}
fn full(v: [D; 3]) -> Rest<3> {
    Rest::all([v[0].0, v[1].0, v[2].0])
}
fn total_entries(v: [D; 3]) -> Want {
    entries("{}", &[Some(v[0]), Some(v[1]), Some(v[2])])
}
fn set<const N: usize, S: crate::p07::Set<K<N>> + Debug>() {
    let (s, m) = crate::p08::pre::<N, S>();
    let mut w = Want::new("{}");
    for i in 0..N {
        if m.r[i].is_some() {
            w.key(i);
        }
    }
    shows(&s, w);
}
pub mod maps {
    use super::*;
    crate::harnesses! {
        #[unwind(5)] fn heap() { sparse::<2, OrdinalMap<K<2>, D>>(false) }
        #[unwind(5)] fn heap_fresh() { sparse::<3, OrdinalMap<K<3>, D>>(true) }
        #[unwind(5)] fn array() { sparse::<2, OrdinalArrayMap<K<2>, D, 2>>(false) }
        #[unwind(5)] fn heap_iter() { of!(OrdinalMap, iter, true, true) }
        #[unwind(5)] fn heap_iter_mut() { of!(OrdinalMap, iter_mut, true, true) }
        #[unwind(5)] fn heap_values() { of!(OrdinalMap, values, false, true) }
        #[unwind(5)] fn heap_values_mut() { of!(OrdinalMap, values_mut, false, true) }
        #[unwind(5)] fn heap_into_iter() { of!(OrdinalMap, into_iter, true, true) }
        #[unwind(5)] fn array_into_iter() { of!(OrdinalArrayMap, into_iter, true, true) }
        #[unwind(5)] fn heap_keys() { let mut m = OrdinalMap::new(); let r = keys(&mut m); left(m.keys(), r, true, false) }
        #[unwind(5)] fn array_keys() { let mut m = OrdinalArrayMap::<_, _, 3>::new(); let r = keys(&mut m); left(m.keys(), r, true, false) }
    }
}
pub mod totals {
    use super::*;
    type T = OrdinalTotalMap<K<3>, D>;
    type A = OrdinalTotalArrayMap<K<3>, D, 3>;
    crate::harnesses! {
        #[unwind(5)] fn heap() { let v = all(); shows(&T::new(|k| v[k.ord()]), total_entries(v)) }
        #[unwind(5)] fn array() { let v = all(); shows(&A::from_array(v), total_entries(v)) }
        #[unwind(5)] fn heap_iter() { let v = all(); left(T::new(|k| v[k.ord()]).iter(), full(v), true, true) }
        #[unwind(5)] fn heap_iter_mut() { let v = all(); left(T::new(|k| v[k.ord()]).iter_mut(), full(v), true, true) }
        #[unwind(5)] fn heap_into_iter() { let v = all(); left(T::new(|k| v[k.ord()]).into_iter(), full(v), true, true) }
        #[unwind(5)] fn array_iter() { let v = all(); left(A::from_array(v).iter(), full(v), true, true) }
        #[unwind(5)] fn array_iter_mut() { let v = all(); left(A::from_array(v).iter_mut(), full(v), true, true) }
        #[unwind(5)] fn array_into_iter() { let v = all(); left(A::from_array(v).into_iter(), full(v), true, true) }
    }
}
pub mod sets {
    use super::*;
    crate::harnesses! {
        #[unwind(5)] fn small() { set::<3, OrdinalSet<_>>() }
        #[unwind(5)] fn array() { set::<3, OrdinalArraySet<_, 1>>() }
        #[unwind(5)] fn set64() { set::<3, OrdinalSet64<_>>() }
        #[unwind(5)] fn small_iter() { let (s, m) = crate::p08::pre::<3, OrdinalSet<_>>(); left(s.iter(), m, true, false) }
        #[unwind(5)] fn set64_iter() { let (s, m) = crate::p08::pre::<3, OrdinalSet64<_>>(); left(s.iter(), m, true, false) }
        // Nothing to show, and no failure.
        #[unwind(5)] fn of_nothing() {
            shows(&OrdinalSet::<DVoid>::new(), Want::new("{}"));
            shows(&OrdinalSet64::<DVoid>::new(), Want::new("{}"));
            shows(&OrdinalArraySet::<DVoid, 0>::new(), Want::new("{}"));
            shows(&OrdinalMap::<DVoid, D>::new(), Want::new("{}"));
            shows(&OrdinalTotalMap::<DVoid, D>::new(|_| D(0)), Want::new("{}"));
            shows(&OrdinalSet::<K<3>>::new(), Want::new("{}"));
        }
    }
}
/// Many elements: as many are shown.
fn count<T: Debug>(t: &T, n: usize) {
    unsafe {
        LEN = 0;
        let mut ends = Ends(0, 0);
        assert!(write!(ends, "{:?}", t).is_ok(), "Debug failed");
        assert!(LEN == n, "Debug shows another number of keys and values");
    }
}
fn many_in_set<const N: usize, S: crate::p07::Set<K<N>> + Debug>() {
    let mut s = S::new();
    for i in 0..N {
        s.insert(K::at(i));
    }
    count(&s, N);
}
fn many_in_map<const N: usize, M: Sparse<K<N>, D> + Debug>() {
    let mut m = M::new();
    for i in 0..N {
        m.insert(K::at(i), D(0));
    }
    count(&m, 2 * N);
}
pub mod wide {
    use super::*;
    crate::harnesses! {
        #[unwind(72)] fn set() { many_in_set::<66, OrdinalSet<_>>() }
        #[unwind(72)] fn set_array() { many_in_set::<66, OrdinalArraySet<_, 2>>() }
        #[unwind(66)] fn set64() { many_in_set::<64, OrdinalSet64<_>>() }
        #[unwind(72)] fn map() { many_in_map::<66, OrdinalMap<_, _>>() }
        #[unwind(72)] fn map_array() { many_in_map::<66, OrdinalArrayMap<_, _, 66>>() }
        #[unwind(72)] fn total() { count(&OrdinalTotalMap::<K<66>, _>::new(|_| D(0)), 132) }
        #[unwind(72)] fn total_array() { count(&OrdinalTotalArrayMap::<K<66>, _, 66>::new(|_| D(0)), 132) }
    }
}
pub mod others {
    use super::*;
    crate::harnesses! {
        // The first value left; the last one too when later ones are gone already.
        #[unwind(7)] fn all_values() {
            let mut it = K::<4>::all_values();
            let (a, b) = (nd::below(5), nd::below(5));
            let (mut lo, mut hi) = (0, 4);
            if a > 0 {
                it.nth(a - 1);
                lo = a;
            }
            if b > 0 {
                it.nth_back(b - 1);
                hi = if lo + b >= 4 { lo } else { 4 - b };
            }
            let mut w = Want::new("[]");
            if lo < hi {
                w.key(lo);
                if b > 0 && hi - lo > 1 {
                    w.key(hi - 1);
                }
            }
            shows(&it, w);
        }
        #[unwind(5)] fn atomic() {
            let a = AtomicOrdinal::new(K::<3>::arb());
            let v = K::<3>::arb();
            a.store(v, Ordering::Relaxed);
            let mut w = Want::new("??");
            w.open = 0;
            w.close = 0;
            w.key(v.ord());
            shows(&a, w);
        }
    }
}
pub const LISTS: &[&[(&str, fn(), u32)]] = &[maps::LIST, totals::LIST, sets::LIST, wide::LIST, others::LIST];
