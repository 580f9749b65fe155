#![cfg_attr(not(feature = "native"), feature(core_intrinsics))]
#![allow(internal_features, static_mut_refs, dropping_copy_types)]
//! P21: what a panic in the caller's code leaves behind.
//!
//! Every harness runs an operation whose callbacks call `may_panic`, which unwinds at its P-th call,
//! P symbolic, and then looks at what is left.  `irexec.py` executes the compiled IR; `bin/replay.rs`
//! runs the same code with real panics.
extern crate alloc;
use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::Ordinal;

#[cfg(not(feature = "native"))]
mod env {
    extern "C-unwind" {
        pub fn nd_u64() -> u64;
        pub fn may_panic();
        pub fn violation(what: u32);
        pub fn assume(c: bool);
        pub fn leak_ok();
        pub fn lenient();
    }
    pub unsafe fn catch<F: FnOnce()>(f: F) {
        let mut f = Some(f);
        fn run<F: FnOnce()>(p: *mut u8) {
            unsafe { ((*(p as *mut Option<F>)).take().unwrap())() }
        }
        fn done(_: *mut u8, _: *mut u8) {}
        core::intrinsics::catch_unwind(run::<F>, &mut f as *mut _ as *mut u8, done);
    }
}
#[cfg(feature = "native")]
pub mod env {
    pub static mut INPUTS: Vec<u64> = Vec::new();
    pub static mut AT: usize = 0;
    pub static mut CALLS: u64 = 0;
    pub static mut PANIC_AT: u64 = u64::MAX;
    pub static mut PANICKED: bool = false;
    pub unsafe fn nd_u64() -> u64 {
        AT += 1;
        INPUTS.get(AT - 1).copied().unwrap_or(0)
    }
    pub unsafe fn may_panic() {
        if PANICKED {
            return;
        }
        CALLS += 1;
        if CALLS - 1 == PANIC_AT {
            PANICKED = true;
            std::panic::resume_unwind(Box::new(()));
        }
    }
    pub unsafe fn violation(what: u32) {
        println!("VIOLATED {what}");
        std::process::exit(3);
    }
    pub static mut LEAK_OK: bool = false;
    pub unsafe fn leak_ok() {
        LEAK_OK = true;
    }
    pub static mut LENIENT: bool = false;
    pub unsafe fn lenient() {
        LENIENT = true;
    }
    pub unsafe fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION");
            std::process::exit(4);
        }
    }
    pub unsafe fn catch<F: FnOnce()>(f: F) {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
            if !PANICKED && !LENIENT {
                println!("VIOLATED 9");
                std::process::exit(3);
            }
            PANICKED = true;
        }
    }
}
use env::*;

fn nd() -> u64 {
    unsafe { nd_u64() }
}
fn bit() -> bool {
    nd() & 1 != 0
}
fn pick(n: u64) -> u64 {
    let x = nd();
    unsafe { assume(x < n) };
    x
}

// ------------------------------------------------------------------ values and keys

pub const CAP: usize = 120;
static mut MADE: usize = 0;
static mut DROPS: [u8; CAP] = [0; CAP];
static mut ARMED: bool = false;
/// The panic came from a destructor: the language itself leaks then (a result not yet returned), so
/// only dropping twice counts.
static mut LEAKY: bool = false;

fn mp() {
    unsafe {
        if ARMED {
            may_panic()
        }
    }
}
fn mp_drop() {
    unsafe {
        let was = LEAKY;
        LEAKY = true;
        mp();
        LEAKY = was;
    }
}
/// Run with callbacks that may panic.
fn caught<F: FnOnce()>(f: F) {
    unsafe {
        ARMED = true;
        catch(f);
        ARMED = false;
    }
}

/// A value that counts its drops.
struct Tok(u8);
fn tok() -> Tok {
    unsafe {
        MADE += 1;
        Tok((MADE - 1) as u8)
    }
}
impl Tok {
    /// The value can be reached: it must not have been dropped.
    fn alive(&self) -> u8 {
        unsafe {
            if self.0 as usize >= MADE || DROPS[self.0 as usize] != 0 {
                violation(3)
            }
        }
        self.0
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe {
            let i = self.0 as usize;
            if i >= MADE || DROPS[i] != 0 {
                violation(1)
            }
            DROPS[i] += 1;
        }
        mp_drop();
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.alive();
        mp();
        tok()
    }
}
impl Default for Tok {
    fn default() -> Tok {
        mp();
        tok()
    }
}
/// Everything is gone by now: each value made was dropped once.
fn end() {
    unsafe {
        if LEAKY {
            return leak_ok();
        }
        for i in 0..MADE {
            if DROPS[i] != 1 {
                violation(2)
            }
        }
    }
}

/// A key that counts its drops, and whose numbering may panic.
struct K<const N: usize> {
    o: u8,
    t: Tok,
}
fn k<const N: usize>(o: usize) -> K<N> {
    K { o: o as u8, t: tok() }
}
impl<const N: usize> Ordinal for K<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.t.alive();
        mp();
        self.o as usize
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        mp();
        if o < N {
            Some(k(o))
        } else {
            None
        }
    }
}
/// Keys of the maps here.
const N: usize = if cfg!(feature = "deep") { 4 } else { 3 };

const NONE: u8 = 255;

macro_rules! harness {
    ($name:ident, $body:block) => {
        #[no_mangle]
        pub extern "C-unwind" fn $name() {
            $body
            end();
        }
    };
}

mod wild;
pub use wild::*;

// ------------------------------------------------------------------ sparse maps

type H<T> = OrdinalMap<T, Tok>;
type A<T> = OrdinalArrayMap<T, Tok, N>;
type TH<T> = OrdinalTotalMap<T, Tok>;
type TA<T> = OrdinalTotalArrayMap<T, Tok, N>;

/// What a sparse map of N keys holds; everything in it must be alive.
macro_rules! held {
    ($m:expr) => {{
        let mut r = [NONE; N];
        for i in 0..N {
            if let Some(v) = $m.get(&k(i)) {
                r[i] = v.alive();
            }
        }
        r
    }};
}
fn same(a: [u8; N], b: [u8; N]) {
    for i in 0..N {
        if a[i] != b[i] {
            unsafe { violation(4) }
        }
    }
}
/// Nothing but what was removed is missing.
fn subset(before: [u8; N], after: [u8; N]) {
    for i in 0..N {
        if after[i] != NONE && after[i] != before[i] {
            unsafe { violation(4) }
        }
    }
}
macro_rules! sparse {
    ($M:ident; $lookup:ident $insert:ident $replace:ident $remove:ident $entry:ident $entry_insert:ident $walk:ident $walk_mut:ident
     $drain:ident $clear:ident $into:ident $into_nth:ident $clone:ident $clone_from:ident $clone_into:ident $collect:ident
     $drop:ident $two:ident) => {
        harness!($lookup, {
            let mut m = some!($M);
            let before = held!(m);
            let which = pick(4);
            caught(|| {
                let q = k(pick(N as u64) as usize);
                match which {
                    0 => drop(m.get(&q).map(|v| v.alive())),
                    1 => drop(m.get_mut(&q).map(|v| v.alive())),
                    2 => drop(m.contains_key(&q)),
                    _ => drop((m.len(), m.is_empty())),
                }
            });
            same(before, held!(m));
            drop(m);
        });
        harness!($insert, {
            let mut m = some!($M);
            let before = held!(m);
            let o = pick(N as u64) as usize;
            let v = tok();
            let id = v.0;
            let mut done = false;
            caught(|| {
                let old = m.insert(k(o), v);
                done = true;
                drop(old);
            });
            let mut want = before;
            if done {
                want[o] = id;
            }
            let got = held!(m);
            if got[o] == id {
                want[o] = id;
            }
            same(want, got);
            drop(m);
        });
        harness!($replace, {
            let mut m = some!($M);
            let o = pick(N as u64) as usize;
            caught(|| {
                if let Some(v) = m.get_mut(&k(o)) {
                    *v = tok();
                }
            });
            held!(m);
            drop(m);
        });
        harness!($remove, {
            let mut m = some!($M);
            let before = held!(m);
            let o = pick(N as u64) as usize;
            let mut done = false;
            caught(|| {
                let old = m.remove(&k(o));
                done = true;
                if let Some(v) = &old {
                    v.alive();
                }
            });
            let mut want = before;
            let got = held!(m);
            if done || got[o] == NONE {
                want[o] = NONE;
            }
            same(want, got);
            drop(m);
        });
        harness!($entry, {
            let mut m = some!($M);
            let before = held!(m);
            let o = pick(N as u64) as usize;
            let v = tok();
            let id = v.0;
            caught(|| {
                let r = m.entry(k(o)).or_insert(v);
                r.alive();
            });
            let mut want = before;
            let got = held!(m);
            if before[o] == NONE && got[o] == id {
                want[o] = id;
            }
            same(want, got);
            drop(m);
        });
        harness!($entry_insert, {
            let mut m = some!($M);
            let before = held!(m);
            let o = pick(N as u64) as usize;
            let v = tok();
            let id = v.0;
            caught(|| match m.entry(k(o)) {
                Entry::Vacant(e) => {
                    e.key().t.alive();
                    e.insert(v)
                }
                Entry::Occupied(mut e) => {
                    e.key().t.alive();
                    e.get().alive();
                    *e.get_mut() = v;
                }
            });
            let mut want = before;
            let got = held!(m);
            if got[o] == id {
                want[o] = id;
            }
            same(want, got);
            drop(m);
        });
        harness!($walk, {
            let m = some!($M);
            let before = held!(m);
            let which = pick(5);
            caught(|| match which {
                0 => m.iter().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                1 => m.iter().rev().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                2 => m.keys().for_each(|k| { k.t.alive(); }),
                3 => m.values().rev().for_each(|v| { v.alive(); mp() }),
                _ => (&m).into_iter().for_each(|(_, v)| { v.alive(); mp() }),
            });
            same(before, held!(m));
            drop(m);
        });
        harness!($walk_mut, {
            let mut m = some!($M);
            let before = held!(m);
            let which = pick(3);
            caught(|| match which {
                0 => m.iter_mut().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                1 => m.iter_mut().rev().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                _ => m.values_mut().for_each(|v| { v.alive(); *v = tok(); mp() }),
            });
            let after = held!(m);
            if which < 2 {
                same(before, after);
            }
            drop(m);
        });
        harness!($drain, {
            let mut m = some!($M);
            let before = held!(m);
            let (a, b) = (bit(), bit());
            caught(|| {
                let mut d = m.drain();
                if a {
                    if let Some((k, v)) = d.next() {
                        k.t.alive();
                        v.alive();
                    }
                }
                if b {
                    if let Some((k, v)) = d.next_back() {
                        k.t.alive();
                        v.alive();
                    }
                }
                mp();
            });
            subset(before, held!(m));
            m.insert(k(1), tok());
            drop(m);
        });
        harness!($clear, {
            let mut m = some!($M);
            let before = held!(m);
            caught(|| m.clear());
            subset(before, held!(m));
            m.insert(k(1), tok());
            drop(m);
        });
        harness!($into, {
            let m = some!($M);
            let (a, b) = (bit(), bit());
            caught(|| {
                let mut i = m.into_iter();
                if a {
                    if let Some((k, v)) = i.next() {
                        k.t.alive();
                        v.alive();
                    }
                }
                if b {
                    if let Some((k, v)) = i.next_back() {
                        k.t.alive();
                        v.alive();
                    }
                }
                mp();
            });
        });
        harness!($into_nth, {
            let m = some!($M);
            let (which, n) = (pick(5), pick(N as u64 + 1) as usize);
            caught(|| {
                let mut i = m.into_iter();
                match which {
                    0 => drop(i.nth(n)),
                    1 => drop(i.nth_back(n)),
                    2 => drop(i.count()),
                    3 => drop(i.last()),
                    _ => i.for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                }
            });
        });
        harness!($clone, {
            let m = some!($M);
            let before = held!(m);
            caught(|| {
                let c = m.clone();
                held!(c);
            });
            same(before, held!(m));
            drop(m);
        });
        harness!($clone_from, {
            let m = some!($M);
            let mut c = some!($M);
            let before = held!(m);
            caught(|| c.clone_from(&m));
            same(before, held!(m));
            held!(c);
            drop(m);
            drop(c);
        });
        harness!($clone_into, {
            let m = some!($M);
            let a = bit();
            caught(|| {
                let mut i = m.into_iter();
                if a {
                    drop(i.next());
                }
                let j = i.clone();
                drop(i);
                for (_, v) in j {
                    v.alive();
                }
            });
        });
        harness!($collect, {
            let (n, a, b, c) = (pick(4), pick(3), pick(3), pick(3));
            caught(|| {
                let mut at = 0;
                let m: $M<K<N>> = core::iter::from_fn(|| {
                    mp();
                    at += 1;
                    if at > n {
                        None
                    } else {
                        Some((k([a, b, c][at as usize - 1] as usize), tok()))
                    }
                })
                .collect();
                held!(m);
            });
        });
        harness!($drop, {
            let m = some!($M);
            caught(|| drop(m));
        });
        harness!($two, {
            let mut m = some!($M);
            for _ in 0..2 {
                let (op, o) = (pick(5), pick(N as u64) as usize);
                caught(|| match op {
                    0 => drop(m.insert(k(o), tok())),
                    1 => drop(m.remove(&k(o))),
                    2 => drop(m.entry(k(o)).or_insert(tok()).alive()),
                    3 => drop(m.drain().next()),
                    _ => m = m.clone(),
                });
                held!(m);
            }
            drop(m);
        });
    };
}
/// A sparse map of N keys in any state.
macro_rules! some {
    ($M:ident) => {{
        let mut m: $M<K<N>> = $M::new();
        for i in 0..N {
            if bit() {
                m.insert(k(i), tok());
            }
        }
        m
    }};
}
sparse!(H; h_heap_lookup h_heap_insert h_heap_replace h_heap_remove h_heap_entry h_heap_entry_insert h_heap_walk h_heap_walk_mut
    h_heap_drain h_heap_clear h_heap_into h_heap_into_nth h_heap_clone h_heap_clone_from h_heap_clone_into h_heap_collect
    h_heap_drop h_heap_two);
sparse!(A; h_array_lookup h_array_insert h_array_replace h_array_remove h_array_entry h_array_entry_insert h_array_walk h_array_walk_mut
    h_array_drain h_array_clear h_array_into h_array_into_nth h_array_clone h_array_clone_from h_array_clone_into h_array_collect
    h_array_drop h_array_two);

harness!(h_array_retain, {
    let mut m = some!(A);
    let before = held!(m);
    let keep = core::array::from_fn::<bool, N, _>(|_| bit());
    let mut asked = [false; N];
    caught(|| {
        m.retain(|k, v| {
            k.t.alive();
            v.alive();
            mp();
            asked[k.o as usize] = true;
            keep[k.o as usize]
        })
    });
    let after = held!(m);
    for i in 0..N {
        let gone = asked[i] && !keep[i];
        // An entry the predicate has not rejected stays; one it has rejected may remain only if the panic came first.
        if !gone && after[i] != before[i] || after[i] != NONE && after[i] != before[i] {
            unsafe { violation(4) }
        }
    }
    drop(m);
});

// ------------------------------------------------------------------ total maps

/// What a total map of N keys holds; everything in it must be alive.
macro_rules! held_total {
    ($m:expr) => {{
        let mut r = [NONE; N];
        for i in 0..N {
            r[i] = $m.get(&k(i)).alive();
        }
        r
    }};
}
macro_rules! total {
    ($M:ident; $new:ident $try_new:ident $default:ident $lookup:ident $insert:ident $walk:ident $walk_mut:ident $into:ident
     $into_nth:ident $values:ident $clone:ident $clone_from:ident $clone_into:ident $drop:ident) => {
        harness!($new, {
            caught(|| {
                let m: $M<K<N>> = $M::new(|k: K<N>| {
                    k.t.alive();
                    mp();
                    tok()
                });
                held_total!(m);
            });
        });
        harness!($try_new, {
            let fail = nd() as usize;
            caught(|| {
                let m: Result<$M<K<N>>, Tok> = $M::try_new(|k: K<N>| {
                    mp();
                    if k.o as usize == fail {
                        Err(tok())
                    } else {
                        Ok(tok())
                    }
                });
                if let Ok(m) = &m {
                    held_total!(m);
                }
            });
        });
        harness!($default, {
            caught(|| {
                let m: $M<K<N>> = Default::default();
                held_total!(m);
            });
        });
        harness!($lookup, {
            let mut m: $M<K<N>> = $M::new(|_| tok());
            let before = held_total!(m);
            let (which, o) = (pick(4), pick(N as u64) as usize);
            caught(|| match which {
                0 => drop(m.get(&k(o)).alive()),
                1 => drop(m.get_mut(&k(o)).alive()),
                2 => drop(m[&k(o)].alive()),
                _ => m[&k(o)] = tok(),
            });
            let after = held_total!(m);
            if which < 3 {
                same(before, after);
            }
            drop(m);
        });
        harness!($insert, {
            let mut m: $M<K<N>> = $M::new(|_| tok());
            let before = held_total!(m);
            let o = pick(N as u64) as usize;
            let v = tok();
            let id = v.0;
            caught(|| drop(m.insert(k(o), v)));
            let mut want = before;
            let got = held_total!(m);
            if got[o] == id {
                want[o] = id;
            }
            same(want, got);
            drop(m);
        });
        harness!($walk, {
            let m: $M<K<N>> = $M::new(|_| tok());
            let before = held_total!(m);
            let which = pick(5);
            caught(|| match which {
                0 => m.iter().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                1 => m.iter().rev().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                2 => m.keys().for_each(|k| { k.t.alive(); }),
                3 => m.values().rev().for_each(|v| { v.alive(); mp() }),
                _ => (&m).into_iter().for_each(|(_, v)| { v.alive(); mp() }),
            });
            same(before, held_total!(m));
            drop(m);
        });
        harness!($walk_mut, {
            let mut m: $M<K<N>> = $M::new(|_| tok());
            let before = held_total!(m);
            let which = pick(3);
            caught(|| match which {
                0 => m.iter_mut().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                1 => m.iter_mut().rev().for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                _ => m.values_mut().for_each(|v| { v.alive(); *v = tok(); mp() }),
            });
            let after = held_total!(m);
            if which < 2 {
                same(before, after);
            }
            drop(m);
        });
        harness!($into, {
            let m: $M<K<N>> = $M::new(|_| tok());
            let (a, b) = (bit(), bit());
            caught(|| {
                let mut i = m.into_iter();
                if a {
                    if let Some((k, v)) = i.next() {
                        k.t.alive();
                        v.alive();
                    }
                }
                if b {
                    if let Some((k, v)) = i.next_back() {
                        k.t.alive();
                        v.alive();
                    }
                }
                mp();
            });
        });
        harness!($into_nth, {
            let m: $M<K<N>> = $M::new(|_| tok());
            let (which, n) = (pick(5), pick(N as u64 + 1) as usize);
            caught(|| {
                let mut i = m.into_iter();
                match which {
                    0 => drop(i.nth(n)),
                    1 => drop(i.nth_back(n)),
                    2 => drop(i.count()),
                    3 => drop(i.last()),
                    _ => i.for_each(|(k, v)| { k.t.alive(); v.alive(); mp() }),
                }
            });
        });
        harness!($values, {
            let m: $M<K<N>> = $M::new(|_| tok());
            let b = bit();
            caught(|| {
                if b {
                    for v in m.into_values() {
                        v.alive();
                        mp();
                    }
                } else {
                    m.into_keys().for_each(|k| { k.t.alive(); });
                }
            });
        });
        harness!($clone, {
            let m: $M<K<N>> = $M::new(|_| tok());
            let before = held_total!(m);
            caught(|| {
                let c = m.clone();
                held_total!(c);
            });
            same(before, held_total!(m));
            drop(m);
        });
        harness!($clone_from, {
            let m: $M<K<N>> = $M::new(|_| tok());
            let mut c: $M<K<N>> = $M::new(|_| tok());
            let before = held_total!(m);
            caught(|| c.clone_from(&m));
            same(before, held_total!(m));
            held_total!(c);
            drop(m);
            drop(c);
        });
        harness!($clone_into, {
            let m: $M<K<N>> = $M::new(|_| tok());
            let a = bit();
            caught(|| {
                let mut i = m.into_iter();
                if a {
                    drop(i.next());
                }
                let j = i.clone();
                drop(i);
                for (_, v) in j {
                    v.alive();
                }
            });
        });
        harness!($drop, {
            let m: $M<K<N>> = $M::new(|_| tok());
            caught(|| drop(m));
        });
    };
}
total!(TH; h_total_new h_total_try_new h_total_default h_total_lookup h_total_insert h_total_walk h_total_walk_mut h_total_into
    h_total_into_nth h_total_values h_total_clone h_total_clone_from h_total_clone_into h_total_drop);
total!(TA; h_total_array_new h_total_array_try_new h_total_array_default h_total_array_lookup h_total_array_insert h_total_array_walk
    h_total_array_walk_mut h_total_array_into h_total_array_into_nth h_total_array_values h_total_array_clone h_total_array_clone_from
    h_total_array_clone_into h_total_array_drop);

harness!(h_total_array_map, {
    let m: TA<K<N>> = TA::new(|_| tok());
    caught(|| {
        let r = m.map(|k, v| {
            k.t.alive();
            v.alive();
            mp();
            (k, v, tok())
        });
        for i in 0..N {
            r.get(&k(i)).2.alive();
        }
    });
});
harness!(h_total_array_map_values, {
    let m: TA<K<N>> = TA::new(|_| tok());
    caught(|| {
        let r = m.map_values(|v| {
            v.alive();
            mp();
            tok()
        });
        held_total!(r);
    });
});
harness!(h_total_array_zip, {
    let m: TA<K<N>> = TA::new(|_| tok());
    let n: TA<K<N>> = TA::new(|_| tok());
    caught(|| {
        let r = m.zip(n);
        for (_, (a, b)) in r {
            a.alive();
            b.alive();
            mp();
        }
    });
});
harness!(h_total_array_as_ref, {
    let mut m: TA<K<N>> = TA::new(|_| tok());
    let before = held_total!(m);
    let b = bit();
    caught(|| {
        if b {
            m.as_ref().map(|k, v| { k.t.alive(); v.alive(); mp() });
        } else {
            m.as_mut().map(|k, v| { k.t.alive(); v.alive(); mp() });
        }
    });
    same(before, held_total!(m));
    drop(m);
});
harness!(h_total_array_from, {
    let a: [Tok; N] = core::array::from_fn(|_| tok());
    caught(|| {
        let mut m: TA<K<N>> = TA::from_array(a);
        m.values_array()[0].alive();
        m.values_array_mut()[1] = tok();
        held_total!(m);
    });
});

// ------------------------------------------------------------------ sets and keys

fn set_holds<F: Fn(usize) -> bool>(n: usize, f: F) -> u64 {
    let mut r = 0;
    for i in 0..n {
        if f(i) {
            r |= 1 << i;
        }
    }
    r
}
macro_rules! set {
    ($S:ty; $ops:ident $collect:ident $walk:ident) => {
        harness!($ops, {
            let mut s = <$S>::new();
            for i in 0..N {
                if bit() {
                    s.insert(k(i));
                }
            }
            let before = set_holds(N, |i| s.contains(&k(i)));
            let (which, o) = (pick(3), pick(N as u64) as usize);
            caught(|| match which {
                0 => drop(s.insert(k(o))),
                1 => drop(s.contains(&k(o))),
                _ => drop(s.clone()),
            });
            let after = set_holds(N, |i| s.contains(&k(i)));
            if after != before && (which != 0 || after != before | 1 << o) {
                unsafe { violation(4) }
            }
            drop(s);
        });
        harness!($collect, {
            let (n, a, b) = (pick(3), pick(3), pick(3));
            caught(|| {
                let mut at = 0;
                let s: $S = core::iter::from_fn(|| {
                    mp();
                    at += 1;
                    if at > n {
                        None
                    } else {
                        Some(k([a, b][at as usize - 1] as usize))
                    }
                })
                .collect();
                drop(s.contains(&k(0)));
            });
        });
        harness!($walk, {
            let mut s = <$S>::new();
            for i in 0..N {
                if bit() {
                    s.insert(k(i));
                }
            }
            let before = set_holds(N, |i| s.contains(&k(i)));
            let b = bit();
            caught(|| {
                if b {
                    s.iter().for_each(|k| { k.t.alive(); mp() })
                } else {
                    s.iter().rev().for_each(|k| { k.t.alive(); })
                }
            });
            if before != set_holds(N, |i| s.contains(&k(i))) {
                unsafe { violation(4) }
            }
            drop(s);
        });
    };
}
set!(OrdinalSet<K<N>>; h_set_ops h_set_collect h_set_walk);
set!(OrdinalSet64<K<N>>; h_set64_ops h_set64_collect h_set64_walk);

harness!(h_set_array_ops, {
    let mut s: OrdinalArraySet<K<N>, 1> = OrdinalArraySet::new();
    for i in 0..N {
        if bit() {
            s.insert(k(i));
        }
    }
    let before = set_holds(N, |i| s.contains(&k(i)));
    let (insert, o) = (bit(), pick(N as u64) as usize);
    caught(|| {
        if insert {
            s.insert(k(o));
        } else {
            s.contains(&k(o));
        }
    });
    let after = set_holds(N, |i| s.contains(&k(i)));
    if after != before && (!insert || after != before | 1 << o) {
        unsafe { violation(4) }
    }
    drop(s);
});

#[derive(Ordinal)]
struct Pair {
    a: K<2>,
    b: K<3>,
}
#[derive(Ordinal)]
enum Sum {
    Unit,
    One(K<2>),
    Two { x: K<2>, y: K<2> },
}

macro_rules! keys {
    ($name:ident, $t:ty, $n:expr) => {
        harness!($name, {
            let i = pick($n) as usize;
            caught(|| {
                if let Some(v) = <$t as Ordinal>::from_ordinal(i) {
                    drop(v.ordinal());
                }
                drop(<$t as Ordinal>::all_values().nth(i / 2));
                drop(<$t as Ordinal>::all_values().next_back());
            });
        });
    };
}
keys!(h_key_array, [K<2>; 3], 9);
keys!(h_key_tuple, (K<2>, K<3>), 7);
keys!(h_key_option, Option<K<2>>, 4);
keys!(h_key_box, Box<K<2>>, 3);
keys!(h_key_struct, Pair, 7);
keys!(h_key_enum, Sum, 8);

// ------------------------------------------------------------------ many keys, counted

static mut LIVE: i64 = 0;
/// A value that is only counted; a dropped one is marked.
struct Cnt(u8);
fn cnt() -> Cnt {
    unsafe { LIVE += 1 };
    Cnt(77)
}
impl Drop for Cnt {
    fn drop(&mut self) {
        unsafe {
            if core::ptr::read_volatile(&self.0) != 77 {
                violation(1)
            }
            core::ptr::write_volatile(&mut self.0, 78);
            LIVE -= 1;
        }
    }
}
impl Clone for Cnt {
    fn clone(&self) -> Cnt {
        mp();
        cnt()
    }
}
#[derive(Clone, Copy)]
struct C<const N: usize>(u16);
impl<const N: usize> Ordinal for C<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.0 as usize
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if o < N {
            Some(C(o as u16))
        } else {
            None
        }
    }
}
macro_rules! wide {
    ($name:ident, $body:block) => {
        harness!($name, {
            $body
            unsafe {
                if LIVE != 0 {
                    violation(2)
                }
            }
        });
    };
}
wide!(h_wide_total_array_new, {
    caught(|| {
        OrdinalTotalArrayMap::<C<260>, Cnt, 260>::new(|_| {
            mp();
            cnt()
        });
    });
});
wide!(h_wide_total_new, {
    caught(|| {
        OrdinalTotalMap::<C<260>, Cnt>::new(|_| {
            mp();
            cnt()
        });
    });
});
wide!(h_wide_total_array_map, {
    let m = OrdinalTotalArrayMap::<C<70>, Cnt, 70>::new(|_| cnt());
    caught(|| {
        m.map_values(|v| {
            mp();
            (v, cnt())
        });
    });
});
wide!(h_wide_total_clone, {
    let m = OrdinalTotalMap::<C<70>, Cnt>::new(|_| cnt());
    caught(|| drop(m.clone()));
    drop(m);
});
wide!(h_wide_total_array_clone, {
    let m = OrdinalTotalArrayMap::<C<70>, Cnt, 70>::new(|_| cnt());
    caught(|| drop(m.clone()));
    drop(m);
});
macro_rules! wide_sparse {
    ($clone:ident $collect:ident, $M:ty) => {
        wide!($clone, {
            let mut m = <$M>::new();
            for i in 0..70 {
                if i % 3 != 0 {
                    m.insert(C(i), cnt());
                }
            }
            caught(|| drop(m.clone()));
            drop(m);
        });
        wide!($collect, {
            caught(|| {
                let mut i = 0;
                let m: $M = core::iter::from_fn(|| {
                    mp();
                    i += 1;
                    if i > 40 {
                        None
                    } else {
                        Some((C(i * 29 % 70), cnt()))
                    }
                })
                .collect();
                drop(m);
            });
        });
    };
}
wide_sparse!(h_wide_heap_clone h_wide_heap_collect, OrdinalMap<C<70>, Cnt>);
wide_sparse!(h_wide_array_clone h_wide_array_collect, OrdinalArrayMap<C<70>, Cnt, 70>);
wide!(h_wide_array_retain, {
    let mut m = OrdinalArrayMap::<C<70>, Cnt, 70>::new();
    for i in 0..70 {
        if i % 4 != 0 {
            m.insert(C(i), cnt());
        }
    }
    caught(|| {
        m.retain(|k, _| {
            mp();
            k.0 % 3 == 0
        })
    });
    drop(m);
});
