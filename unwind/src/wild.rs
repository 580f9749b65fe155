//! P23: a key type whose numbering answers anything.
use super::*;

static mut WILD: bool = false;

/// Run with keys that answer anything; panics are allowed.
fn caught_wild<F: FnOnce()>(f: F) {
    unsafe {
        lenient();
        WILD = true;
        catch(f);
        WILD = false;
    }
}

/// A key that, when wild, answers any number, another one each time, and may not exist.
struct L<const N: usize> {
    o: u8,
    t: Tok,
}
fn l<const N: usize>(o: usize) -> L<N> {
    L { o: o as u8, t: tok() }
}
impl<const N: usize> Ordinal for L<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.t.alive();
        if unsafe { WILD } {
            nd() as usize
        } else {
            self.o as usize
        }
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if unsafe { WILD } {
            if bit() {
                Some(l(o))
            } else {
                None
            }
        } else if o < N {
            Some(l(o))
        } else {
            None
        }
    }
}
/// A wild key that is cheap to yield: it always exists.
struct W<const N: usize>;
impl<const N: usize> Ordinal for W<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        if unsafe { WILD } {
            nd() as usize
        } else {
            0
        }
    }
    fn from_ordinal(_: usize) -> Option<Self> {
        Some(W)
    }
}

macro_rules! held {
    ($m:expr) => {
        for i in 0..N {
            if let Some(v) = $m.get(&l(i)) {
                v.alive();
            }
        }
    };
}
macro_rules! some {
    ($M:ident) => {{
        let mut m: $M<L<N>> = $M::new();
        for i in 0..N {
            if bit() {
                m.insert(l(i), tok());
            }
        }
        m
    }};
}
macro_rules! sparse {
    ($M:ident; $lookup:ident $insert:ident $remove:ident $entry:ident $walk:ident $walk_mut:ident $drain:ident $into:ident
     $collect:ident $two:ident) => {
        harness!($lookup, {
            let mut m = some!($M);
            let which = pick(3);
            caught_wild(|| match which {
                0 => drop(m.get(&l(0)).map(|v| v.alive())),
                1 => drop(m.get_mut(&l(0)).map(|v| { v.alive(); *v = tok(); })),
                _ => drop(m.contains_key(&l(0))),
            });
            held!(m);
            drop(m);
        });
        harness!($insert, {
            let mut m = some!($M);
            caught_wild(|| drop(m.insert(l(0), tok()).map(|v| v.alive())));
            held!(m);
            drop(m);
        });
        harness!($remove, {
            let mut m = some!($M);
            caught_wild(|| drop(m.remove(&l(0)).map(|v| v.alive())));
            held!(m);
            drop(m);
        });
        harness!($entry, {
            let mut m = some!($M);
            let b = bit();
            caught_wild(|| {
                if b {
                    m.entry(l(0)).or_insert(tok()).alive();
                } else {
                    match m.entry(l(0)) {
                        Entry::Vacant(e) => e.insert(tok()),
                        Entry::Occupied(mut e) => {
                            e.get().alive();
                            *e.get_mut() = tok();
                        }
                    }
                }
            });
            held!(m);
            drop(m);
        });
        harness!($walk, {
            let m = some!($M);
            let which = pick(4);
            caught_wild(|| match which {
                0 => m.iter().for_each(|(_, v)| drop(v.alive())),
                1 => m.iter().rev().for_each(|(_, v)| drop(v.alive())),
                2 => m.keys().for_each(drop),
                _ => m.values().for_each(|v| drop(v.alive())),
            });
            held!(m);
            drop(m);
        });
        harness!($walk_mut, {
            let mut m = some!($M);
            let which = pick(3);
            caught_wild(|| match which {
                0 => m.iter_mut().for_each(|(_, v)| *v = tok()),
                1 => m.iter_mut().rev().for_each(|(_, v)| drop(v.alive())),
                _ => m.values_mut().for_each(|v| drop(v.alive())),
            });
            held!(m);
            drop(m);
        });
        harness!($drain, {
            let mut m = some!($M);
            let (a, b) = (bit(), bit());
            caught_wild(|| {
                let mut d = m.drain();
                if a {
                    drop(d.next().map(|(_, v)| v.alive()));
                }
                if b {
                    drop(d.next_back().map(|(_, v)| v.alive()));
                }
                // Its destructor asks the key type again, and would panic while unwinding.
                unsafe { WILD = false };
            });
            held!(m);
            drop(m);
        });
        harness!($into, {
            let m = some!($M);
            let (which, n) = (pick(4), pick(N as u64) as usize);
            caught_wild(|| {
                let mut i = m.into_iter();
                match which {
                    0 => drop(i.nth(n)),
                    1 => drop(i.nth_back(n)),
                    2 => drop(i.next().map(|(_, v)| v.alive())),
                    _ => i.rev().for_each(|(_, v)| drop(v.alive())),
                }
            });
        });
        harness!($collect, {
            let n = pick(3);
            caught_wild(|| {
                let m: $M<L<N>> = (0..n).map(|_| (l(0), tok())).collect();
                unsafe { WILD = false };
                held!(m);
            });
        });
        harness!($two, {
            let mut m: $M<L<N>> = $M::new();
            for _ in 0..2 {
                let op = pick(3);
                caught_wild(|| match op {
                    0 => drop(m.insert(l(0), tok())),
                    1 => drop(m.remove(&l(0))),
                    _ => drop(m.entry(l(0)).or_insert(tok()).alive()),
                });
            }
            held!(m);
            drop(m);
        });
    };
}
sparse!(H; g_heap_lookup g_heap_insert g_heap_remove g_heap_entry g_heap_walk g_heap_walk_mut g_heap_drain g_heap_into
    g_heap_collect g_heap_two);
sparse!(A; g_array_lookup g_array_insert g_array_remove g_array_entry g_array_walk g_array_walk_mut g_array_drain g_array_into
    g_array_collect g_array_two);

harness!(g_array_retain, {
    let mut m = some!(A);
    caught_wild(|| {
        m.retain(|k, v| {
            k.t.alive();
            v.alive();
            bit()
        })
    });
    held!(m);
    drop(m);
});

macro_rules! held_total {
    ($m:expr) => {
        for i in 0..N {
            $m.get(&l(i)).alive();
        }
    };
}
macro_rules! total {
    ($M:ident; $new:ident $try_new:ident $lookup:ident $insert:ident $walk:ident $walk_mut:ident $into:ident $values:ident) => {
        harness!($new, {
            caught_wild(|| {
                let m: $M<L<N>> = $M::new(|_| tok());
                unsafe { WILD = false };
                held_total!(m);
            });
        });
        harness!($try_new, {
            caught_wild(|| {
                let m: Result<$M<L<N>>, Tok> = $M::try_new(|_| if bit() { Ok(tok()) } else { Err(tok()) });
                unsafe { WILD = false };
                if let Ok(m) = &m {
                    held_total!(m);
                }
            });
        });
        harness!($lookup, {
            let mut m: $M<L<N>> = $M::new(|_| tok());
            let which = pick(4);
            caught_wild(|| match which {
                0 => drop(m.get(&l(0)).alive()),
                1 => drop(m.get_mut(&l(0)).alive()),
                2 => drop(m[&l(0)].alive()),
                _ => m[&l(0)] = tok(),
            });
            held_total!(m);
            drop(m);
        });
        harness!($insert, {
            let mut m: $M<L<N>> = $M::new(|_| tok());
            caught_wild(|| drop(m.insert(l(0), tok()).alive()));
            held_total!(m);
            drop(m);
        });
        harness!($walk, {
            let m: $M<L<N>> = $M::new(|_| tok());
            let which = pick(3);
            caught_wild(|| match which {
                0 => m.iter().for_each(|(_, v)| drop(v.alive())),
                1 => m.iter().rev().for_each(|(_, v)| drop(v.alive())),
                _ => m.keys().rev().for_each(drop),
            });
            held_total!(m);
            drop(m);
        });
        harness!($walk_mut, {
            let mut m: $M<L<N>> = $M::new(|_| tok());
            let b = bit();
            caught_wild(|| {
                if b {
                    m.iter_mut().for_each(|(_, v)| *v = tok())
                } else {
                    m.iter_mut().rev().for_each(|(_, v)| drop(v.alive()))
                }
            });
            held_total!(m);
            drop(m);
        });
        harness!($into, {
            let m: $M<L<N>> = $M::new(|_| tok());
            let (which, n) = (pick(4), pick(N as u64) as usize);
            caught_wild(|| {
                let mut i = m.into_iter();
                match which {
                    0 => drop(i.nth(n)),
                    1 => drop(i.nth_back(n)),
                    2 => drop(i.next().map(|(_, v)| v.alive())),
                    _ => i.rev().for_each(|(_, v)| drop(v.alive())),
                }
            });
        });
        harness!($values, {
            let m: $M<L<N>> = $M::new(|_| tok());
            let b = bit();
            caught_wild(|| {
                if b {
                    drop(m.into_keys().count());
                } else {
                    for v in m.into_values() {
                        v.alive();
                    }
                }
            });
        });
    };
}
total!(TH; g_total_new g_total_try_new g_total_lookup g_total_insert g_total_walk g_total_walk_mut g_total_into g_total_values);
total!(TA; g_total_array_new g_total_array_try_new g_total_array_lookup g_total_array_insert g_total_array_walk
    g_total_array_walk_mut g_total_array_into g_total_array_values);

harness!(g_total_array_map, {
    let mut m: TA<L<N>> = TA::new(|_| tok());
    let which = pick(3);
    caught_wild(|| match which {
        0 => drop(m.map(|k, v| (k, v, tok()))),
        1 => drop(m.as_ref().map(|_, v| v.alive())),
        _ => drop(m.as_mut().map(|_, v| *v = tok())),
    });
});

macro_rules! set {
    ($S:ty, $small:ty; $ops:ident $collect:ident $walk:ident) => {
        harness!($ops, {
            let mut s = <$S>::new();
            for _ in 0..2 {
                let b = bit();
                caught_wild(|| {
                    if b {
                        s.insert(W);
                    } else {
                        s.contains(&W);
                    }
                });
            }
            drop(s);
        });
        harness!($collect, {
            let n = pick(3);
            caught_wild(|| {
                let s: $S = (0..n).map(|_| W).collect();
                drop(s.contains(&W));
            });
        });
        harness!($walk, {
            let mut s = <$small>::new();
            caught_wild(|| drop(s.insert(W)));
            let b = bit();
            caught_wild(|| {
                if b {
                    drop(s.iter().count())
                } else {
                    drop(s.iter().rev().last())
                }
            });
            drop(s);
        });
    };
}
set!(OrdinalSet<W<70>>, OrdinalSet<W<5>>; g_set_ops g_set_collect g_set_walk);
set!(OrdinalSet64<W<64>>, OrdinalSet64<W<5>>; g_set64_ops g_set64_collect g_set64_walk);
harness!(g_set_array_ops, {
    let mut s: OrdinalArraySet<W<70>, 2> = OrdinalArraySet::new();
    for _ in 0..2 {
        let b = bit();
        caught_wild(|| {
            if b {
                s.insert(W);
            } else {
                s.contains(&W);
            }
        });
    }
    drop(s);
});

#[derive(Ordinal)]
struct PairL {
    a: L<2>,
    b: L<3>,
}
#[derive(Ordinal)]
enum SumL {
    Unit,
    One(L<2>),
    Two { x: L<2>, y: L<2> },
}
macro_rules! keys {
    ($name:ident, $t:ty) => {
        harness!($name, {
            let i = nd() as usize;
            caught_wild(|| {
                if let Some(v) = <$t as Ordinal>::from_ordinal(i) {
                    v.ordinal();
                }
                drop(<$t as Ordinal>::all_values().next_back());
            });
        });
    };
}
keys!(g_key_array, [L<2>; 3]);
keys!(g_key_tuple, (L<2>, L<3>));
keys!(g_key_option, Option<L<2>>);
keys!(g_key_box, Box<L<2>>);
keys!(g_key_struct, PairL);
keys!(g_key_enum, SumL);
