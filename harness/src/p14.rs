//! P14: the total array map's conversions keep every value with its key.
use ordinal_map::map::total::*;

use crate::keys::*;
use crate::model::*;
use crate::nd;

type M<const N: usize, V> = OrdinalTotalArrayMap<K<N>, V, N>;

pub fn values<const N: usize>() -> [u8; N] {
    let mut v = [0; N];
    // Of many values, all differ from their neighbours and any one is symbolic.
    let (at, x) = if N > 8 { (nd::below(N), nd::u8()) } else { (0, 0) };
    for i in 0..N {
        v[i] = if N <= 8 { nd::u8() } else if i == at { x } else { i as u8 };
    }
    v
}

fn from_array<const N: usize>() {
    let v = values::<N>();
    let m = M::<N, u8>::from_array(v);
    let q = nd::below(N);
    assert!(*m.get(&K::at(q)) == v[q]);
    assert!(m[&K::at(q)] == v[q]);
    assert!(m.len() == N && m.is_empty() == (N == 0));
    assert!(m.values_array()[q] == v[q]);
    assert!(m.into_values()[q] == v[q]);
}

fn values_array_mut<const N: usize>() {
    let v = values::<N>();
    let mut m = M::<N, u8>::from_array(v);
    let (i, q, x) = (nd::below(N), nd::below(N), nd::u8());
    assert!(m.values_array_mut()[i] == v[i]);
    m.values_array_mut()[i] = x;
    assert!(m[&K::at(q)] == if q == i { x } else { v[q] });
}

fn zip<const N: usize>() {
    let (v, w) = (values::<N>(), values::<N>());
    let m = M::<N, u8>::from_array(v).zip(M::from_array(w));
    let q = nd::below(N);
    assert!(m[&K::at(q)] == (v[q], w[q]), "zip paired the wrong values");
    assert!(m.len() == N);
}

fn map<const N: usize>() {
    let v = values::<N>();
    let mut asked = 0;
    let m = M::<N, u8>::from_array(v).map(|k, x| {
        assert!(k.ord() == asked, "map does not go through the keys in order");
        assert!(x == v[asked], "map passed another key's value");
        asked += 1;
        (x ^ 0x55, asked)
    });
    assert!(asked == N, "map did not ask for every key once");
    let q = nd::below(N);
    assert!(m[&K::at(q)] == (v[q] ^ 0x55, q + 1));
}

fn map_values<const N: usize>() {
    let v = values::<N>();
    let mut asked = 0;
    let m = M::<N, u8>::from_array(v).map_values(|x| {
        assert!(asked < N && x == v[asked]);
        asked += 1;
        (asked, x)
    });
    assert!(asked == N);
    let q = nd::below(N);
    assert!(m[&K::at(q)] == (q + 1, v[q]));
}

fn as_ref<const N: usize>() {
    let v = values::<N>();
    let m = M::<N, u8>::from_array(v);
    let r = m.as_ref();
    let q = nd::below(N);
    assert!(*r[&K::at(q)] == v[q]);
    assert!(std::ptr::eq(r[&K::at(q)], m.get(&K::at(q))), "as_ref points elsewhere");
    assert!(r.len() == N);
}

fn as_mut<const N: usize>() {
    let mut v = values::<N>();
    let mut m = M::<N, u8>::from_array(v);
    {
        let mut r = m.as_mut();
        let (i, j, x, y) = (nd::below(N), nd::below(N), nd::u8(), nd::u8());
        assert!(*r[&K::at(i)] == v[i]);
        *r[&K::at(i)] = x;
        v[i] = x;
        assert!(*r[&K::at(j)] == v[j]);
        *r[&K::at(j)] = y;
        v[j] = y;
    }
    let q = nd::below(N);
    assert!(m[&K::at(q)] == v[q]);
}

fn none() {
    let m = M::<0, u8>::from_array([]);
    assert!(m.len() == 0 && m.is_empty());
    let m = m.zip(M::<0, u8>::from_array([]));
    let mut m = m.map(|_, _| -> u8 { panic!("there is no key") }).map_values(|x| x);
    assert!(m.as_ref().is_empty());
    assert!(m.as_mut().is_empty());
    assert!(m.into_values().len() == 0);
}

macro_rules! all {
    ($($f:ident: $a:ident $b:ident $c:ident $d:ident;)*) => { crate::harnesses! {
        $(
        #[unwind(3)] fn $a() { $f::<1>() }
        #[unwind(5)] fn $b() { $f::<3>() }
        #[unwind(7)] fn $c() { $f::<5>() }
        #[unwind(72)] fn $d() { $f::<70>() }
        )*
        #[unwind(3)] fn of_nothing() { none() }
    } };
}
all! {
    from_array: from_array_1 from_array_3 from_array_5 from_array_70;
    values_array_mut: values_array_mut_1 values_array_mut_3 values_array_mut_5 values_array_mut_70;
    zip: zip_1 zip_3 zip_5 zip_70;
    map: map_1 map_3 map_5 map_70;
    map_values: map_values_1 map_values_3 map_values_5 map_values_70;
    as_ref: as_ref_1 as_ref_3 as_ref_5 as_ref_70;
    as_mut: as_mut_1 as_mut_3 as_mut_5 as_mut_70;
}
