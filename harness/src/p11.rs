//! P11: `entry` reflects presence and edits exactly its key.
use ordinal_map::map::*;

use crate::keys::*;
use crate::model::*;
use crate::nd;

/// An arbitrary entry of an arbitrary (or never allocated) map, used in an arbitrary way.
fn entry<const N: usize, M: Sparse<K<N>, u8>>(fresh: bool) {
    let (mut m, mut r) = if fresh {
        (M::new(), [None; N])
    } else {
        any_map::<N, u8, M>()
    };
    let i = nd::below(N);
    let (v, w) = (nd::u8(), nd::u8());
    let how = nd::choice(4);
    let e = m.entry(K::at(i));
    assert!(e.key().ord() == i, "entry has another key");
    if how == 0 {
        let x = e.or_insert(v);
        assert!(*x == r[i].unwrap_or(v), "or_insert");
        *x = w;
        r[i] = Some(w);
    } else {
        match e {
            Entry::Occupied(mut o) => {
                assert!(r[i].is_some(), "absent key is occupied");
                assert!(o.key().ord() == i);
                assert!(Some(*o.get()) == r[i]);
                if how == 1 {
                    let x = o.get_mut();
                    assert!(Some(*x) == r[i]);
                    *x = v;
                    assert!(*o.get() == v);
                    r[i] = Some(v);
                }
            }
            Entry::Vacant(x) => {
                assert!(r[i].is_none(), "present key is vacant");
                assert!(x.key().ord() == i);
                if how == 1 {
                    x.insert(v);
                    r[i] = Some(v);
                }
            }
        }
    }
    observe(&mut m, &r);
}

/// The entries of many keys are different ones.
fn wide<const N: usize, M: Sparse<K<N>, u8>>() {
    let v = nd::u8();
    let mut m = M::new();
    let e = m.entry(K::at(N - 1));
    assert!(e.key().ord() == N - 1);
    match e {
        Entry::Vacant(e) => e.insert(v),
        Entry::Occupied(_) => panic!("absent key is occupied"),
    }
    let q = nd::below(N);
    assert!(m.get(&K::at(q)).copied() == if q == N - 1 { Some(v) } else { None }, "the entry was another key's");
}

crate::harnesses! {
    #[unwind(262)] fn heap_260() { wide::<260, OrdinalMap<K<260>, u8>>() }
    #[unwind(262)] fn array_260() { wide::<260, OrdinalArrayMap<K<260>, u8, 260>>() }
    #[unwind(5)] fn heap() { entry::<3, OrdinalMap<K<3>, u8>>(false) }
    #[unwind(5)] fn heap_fresh() { entry::<3, OrdinalMap<K<3>, u8>>(true) }
    #[unwind(5)] fn heap_one() { entry::<1, OrdinalMap<K<1>, u8>>(true) }
    #[unwind(5)] fn array() { entry::<3, OrdinalArrayMap<K<3>, u8, 3>>(false) }
    #[unwind(5)] fn array_fresh() { entry::<3, OrdinalArrayMap<K<3>, u8, 3>>(true) }
    #[unwind(5)] fn array_one() { entry::<1, OrdinalArrayMap<K<1>, u8, 1>>(true) }
}
