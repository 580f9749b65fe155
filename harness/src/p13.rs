//! P13: a total map holds exactly one value per key, from construction through any update.
use ordinal_map::map::total::*;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;

fn values<const N: usize>() -> [u8; N] {
    let mut v = [0; N];
    for i in 0..N {
        v[i] = nd::u8();
    }
    v
}

macro_rules! total_map {
    (OrdinalTotalMap, $k:ty, $v:ty, $n:expr) => { OrdinalTotalMap<$k, $v> };
    (OrdinalTotalArrayMap, $k:ty, $v:ty, $n:expr) => { OrdinalTotalArrayMap<$k, $v, { $n }> };
}

macro_rules! body {
    // Construction asks for every key once, in order; every question has that answer.
    (new $m:ident $n:literal) => { {
        let v = values::<$n>();
        let mut asked = 0;
        let mut m = <total_map!($m, K<$n>, u8, $n)>::new(|k| {
            assert!(k.ord() == asked, "keys are not asked for in order");
            asked += 1;
            v[k.ord()]
        });
        assert!(asked == $n, "not every key was asked for");
        observe!(m, v, $n);
    } };
    // Any two updates through any of the mutating accessors.
    (update $m:ident $n:literal) => { {
        let mut v = values::<$n>();
        let mut m = <total_map!($m, K<$n>, u8, $n)>::new(|k| v[k.ord()]);
        for _ in 0..2 {
            let (i, x) = (nd::below($n), nd::u8());
            match nd::choice(3) {
                0 => assert!(m.insert(K::at(i), x) == v[i], "insert did not return the previous value"),
                1 => {
                    let p = m.get_mut(&K::at(i));
                    assert!(*p == v[i]);
                    *p = x;
                }
                _ => m[&K::at(i)] = x,
            }
            v[i] = x;
        }
        observe!(m, v, $n);
    } };
    // Values written through values_mut / iter_mut land where they belong.
    (written $m:ident $n:literal) => { {
        let mut v = values::<$n>();
        let mut m = <total_map!($m, K<$n>, u8, $n)>::new(|k| v[k.ord()]);
        let x = nd::u8();
        let back = nd::bool();
        if nd::bool() {
            let mut it = m.values_mut();
            assert!(it.len() == $n);
            *if back { it.next_back() } else { it.next() }.unwrap() = x;
        } else {
            let mut it = m.iter_mut();
            let (k, p) = if back { it.next_back() } else { it.next() }.unwrap();
            assert!(k.ord() == if back { $n - 1 } else { 0 });
            *p = x;
        }
        v[if back { $n - 1 } else { 0 }] = x;
        observe!(m, v, $n);
    } };
    // try_new stops at the first error and returns it; otherwise it is new.
    (fallible $m:ident $n:literal) => { {
        let v = values::<$n>();
        let mut fail = [false; $n];
        for i in 0..$n {
            fail[i] = nd::bool();
        }
        let mut asked = 0;
        let got = <total_map!($m, K<$n>, u8, $n)>::try_new(|k| {
            assert!(k.ord() == asked, "keys are not asked for in order");
            asked += 1;
            if fail[k.ord()] { Err(v[k.ord()]) } else { Ok(v[k.ord()]) }
        });
        let mut first = None;
        for i in 0..$n {
            if fail[i] && first.is_none() {
                first = Some(i);
            }
        }
        match (got, first) {
            (Ok(mut m), None) => observe!(m, v, $n),
            (Err(e), Some(i)) => {
                assert!(e == v[i], "another error was returned");
                assert!(asked == i + 1, "construction went on after an error");
            }
            _ => panic!("try_new disagrees about success"),
        }
    } };
    (default $m:ident $n:literal) => { {
        let mut m = <total_map!($m, K<$n>, u8, $n)>::default();
        let v = [0; $n];
        observe!(m, v, $n);
    } };
    (void $m:ident) => { {
        let m = <total_map!($m, DVoid, u8, 0)>::new(|_| panic!("there is no key"));
        assert!(m.len() == 0 && m.is_empty());
        assert!(m.iter().next().is_none() && m.values().next().is_none());
        let m = <total_map!($m, DVoid, u8, 0)>::default();
        assert!(m.keys().next().is_none());
        assert!(m.into_iter().next_back().is_none());
    } };
    // Keys of a computed ordinal and a large size: one arbitrary update, one arbitrary question.
    (large $m:ident $n:literal) => { {
        let mut m = <total_map!($m, K<$n>, u8, $n)>::new(|_| 0);
        let (a, q, x) = (nd::below($n), nd::below($n), nd::u8());
        assert!(m.insert(K::at(a), x) == 0);
        assert!(m[&K::at(q)] == if q == a { x } else { 0 });
        assert!(*m.get(&K::at(q)) == if q == a { x } else { 0 });
        assert!(m.len() == $n);
    } };
    // More keys than a byte can count: every one has its own value.
    (wide $m:ident $n:literal) => { {
        let m = <total_map!($m, K<$n>, u16, $n)>::new(|k| k.ord() as u16 ^ 0x5a5a);
        let q = nd::below($n);
        assert!(m.len() == $n);
        assert!(m[&K::at(q)] == q as u16 ^ 0x5a5a);
    } };
    (typed $m:ident $t:ty, $n:literal) => { {
        let (a, q, x) = (<$t>::arb(), <$t>::arb(), nd::u8());
        nd::assume(x != 0);
        let mut m = <total_map!($m, $t, u8, <$t as Ordinal>::ORDINAL_SIZE)>::default();
        m[&a] = x;
        assert!((m[&q] == x) == (q == a));
    } };
}

macro_rules! observe {
    ($m:ident, $v:ident, $n:literal) => { {
        let q = nd::below($n);
        assert!(m_get(&$m, q) == $v[q], "get");
        assert!($m[&K::at(q)] == $v[q], "index");
        assert!(*$m.get_mut(&K::at(q)) == $v[q], "get_mut");
        $m[&K::at(q)] = $v[q];
        assert!($m.len() == $n && $m.is_empty() == ($n == 0), "len");
        let mut vs = $m.values();
        assert!(vs.len() == $n);
        assert!(vs.nth(q).copied() == Some($v[q]), "values");
        let mut ks = $m.keys();
        assert!(ks.len() == $n, "keys");
        assert!(ks.nth(q).unwrap().ord() == q, "keys");
        let end = nd::choice(3);
        if end == 0 {
            let out = $m.into_values();
            assert!(out.len() == $n && out[q] == $v[q], "into_values");
        } else if end == 1 {
            let mut ks = $m.into_keys();
            assert!(ks.len() == $n && ks.nth_back(q).unwrap().ord() == $n - 1 - q, "into_keys");
        }
    } };
}
use observe;

/// `get`, by either map.
trait Get {
    fn at(&self, q: usize) -> u8;
}
impl<const N: usize> Get for OrdinalTotalMap<K<N>, u8> {
    fn at(&self, q: usize) -> u8 {
        *self.get(&K::at(q))
    }
}
impl<const N: usize> Get for OrdinalTotalArrayMap<K<N>, u8, N> {
    fn at(&self, q: usize) -> u8 {
        *self.get(&K::at(q))
    }
}
fn m_get<M: Get>(m: &M, q: usize) -> u8 {
    m.at(q)
}

macro_rules! totals {
    ($($m:ident: $new:ident $upd:ident $wr:ident $try:ident $def:ident $void:ident $one:ident $large:ident $wide:ident $typed:ident;)*) => { crate::harnesses! { $(
        #[unwind(5)] fn $new() { body!(new $m 3) }
        #[unwind(5)] fn $upd() { body!(update $m 3) }
        #[unwind(5)] fn $wr() { body!(written $m 3) }
        #[unwind(5)] fn $try() { body!(fallible $m 3) }
        #[unwind(5)] fn $def() { body!(default $m 3) }
        #[unwind(3)] fn $void() { body!(void $m) }
        #[unwind(5)] fn $one() { body!(update $m 1) }
        #[unwind(72)] fn $large() { body!(large $m 70) }
        #[unwind(262)] fn $wide() { body!(wide $m 260) }
        #[unwind(9)] fn $typed() { body!(typed $m DSeven, 7) }
    )* } };
}
totals! {
    OrdinalTotalMap: heap_new heap_update heap_written heap_try_new heap_default heap_void heap_one heap_large heap_wide heap_typed;
    OrdinalTotalArrayMap: array_new array_update array_written array_try_new array_default array_void array_one array_large array_wide array_typed;
}
