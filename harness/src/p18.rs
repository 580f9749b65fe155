//! P18: an `AtomicOrdinal` is an atomic cell of valid values, with the orderings asked for.
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::*;

use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::nd;

pub fn load_ordering() -> Ordering {
    [Relaxed, Acquire, SeqCst][nd::below(3)]
}
pub fn store_ordering() -> Ordering {
    [Relaxed, Release, SeqCst][nd::below(3)]
}
pub fn rmw_ordering() -> Ordering {
    [Relaxed, Acquire, Release, AcqRel, SeqCst][nd::below(5)]
}

/// Any sequence of three operations, on any values, with any legal orderings.
fn sequence<T: Ordinal + Arb + Copy + PartialEq>() {
    let mut m = T::arb();
    let a = AtomicOrdinal::new(m);
    for _ in 0..3 {
        match nd::choice(3) {
            0 => {
                m = T::arb();
                a.store(m, store_ordering());
            }
            1 => {
                let (old, new) = (T::arb(), T::arb());
                let r = a.compare_exchange(old, new, rmw_ordering(), load_ordering());
                if m == old {
                    assert!(matches!(r, Ok(v) if v == old), "compare_exchange refused the current value");
                    m = new;
                } else {
                    assert!(matches!(r, Err(v) if v == m), "compare_exchange's answer");
                }
            }
            _ => {}
        }
        assert!(a.load(load_ordering()) == m, "load");
    }
}

pub mod plain {
    use super::*;
crate::harnesses! {
    #[unwind(5)] fn sequence_bool() { sequence::<bool>() }
    #[unwind(5)] fn sequence_option() { sequence::<Option<bool>>() }
    #[unwind(5)] fn sequence_unit() { sequence::<()>() }
    #[unwind(5)] fn sequence_k5() { sequence::<K<5>>() }
    #[unwind(5)] fn sequence_k_max() { sequence::<K<{ usize::MAX }>>() }
    #[unwind(5)] fn sequence_derived() { sequence::<DMixed>() }
    #[unwind(5)] fn sequence_i32() { sequence::<i32>() }
    #[unwind(5)] fn sequence_char() { sequence::<char>() }
}
}

/// Three more harnesses put the atomic accesses themselves under control. Under Kani the methods
/// of `AtomicUsize` are replaced (`kani::stub`) by a model in which, before any access, another
/// thread may write the cell, and which records the orderings; natively their counterparts are
/// multi-threaded programs on the real atomics.
#[cfg(kani)]
mod shared {
    use super::*;

    /// The values the cell had before our operation's effect: the initial one, then one per
    /// write of the other thread.
    pub static mut SEEN: [usize; 3] = [0; 3];
    pub static mut WRITES: usize = 0;
    pub static mut ACTIVE: bool = false;
    /// What the last access guarantees, and what fences add to it.
    pub static mut ACQUIRE: bool = false;
    pub static mut RELEASE: bool = false;
    pub static mut SEQ_CST: bool = false;
    pub static mut FENCES: [bool; 3] = [false; 3];
    pub static mut ACCESSES: usize = 0;
    pub static mut SPURIOUS: bool = false;

    fn cell(a: &AtomicUsize) -> *mut usize {
        a.as_ptr()
    }
    fn note(o: Ordering) {
        unsafe {
            ACCESSES += 1;
            ACQUIRE = FENCES[0] || matches!(o, Acquire | AcqRel | SeqCst);
            RELEASE = FENCES[1] || matches!(o, Release | AcqRel | SeqCst);
            SEQ_CST = FENCES[2] || matches!(o, SeqCst);
        }
    }
    fn other_thread(p: *mut usize) {
        unsafe {
            for _ in 0..2 {
                if ACTIVE && WRITES < 2 && nd::bool() {
                    let v = nd::below(N);
                    *p = v;
                    WRITES += 1;
                    SEEN[WRITES] = v;
                }
            }
        }
    }
    pub const N: usize = 5;

    pub fn load(a: &AtomicUsize, o: Ordering) -> usize {
        other_thread(cell(a));
        note(o);
        unsafe { *cell(a) }
    }
    pub fn store(a: &AtomicUsize, v: usize, o: Ordering) {
        other_thread(cell(a));
        note(o);
        unsafe { *cell(a) = v }
    }
    pub fn swap(a: &AtomicUsize, v: usize, o: Ordering) -> usize {
        other_thread(cell(a));
        note(o);
        unsafe { std::mem::replace(&mut *cell(a), v) }
    }
    pub fn compare_exchange(a: &AtomicUsize, old: usize, new: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
        other_thread(cell(a));
        unsafe {
            let v = *cell(a);
            if v == old {
                note(s);
                *cell(a) = new;
                Ok(v)
            } else {
                note(f);
                Err(v)
            }
        }
    }
    /// May fail spuriously, once.
    pub fn compare_exchange_weak(a: &AtomicUsize, old: usize, new: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
        other_thread(cell(a));
        unsafe {
            let v = *cell(a);
            let fail = !SPURIOUS && nd::bool();
            SPURIOUS |= fail;
            if v == old && !fail {
                note(s);
                *cell(a) = new;
                Ok(v)
            } else {
                note(f);
                Err(v)
            }
        }
    }
    pub fn fence(o: Ordering) {
        unsafe {
            FENCES[0] |= matches!(o, Acquire | AcqRel | SeqCst);
            FENCES[1] |= matches!(o, Release | AcqRel | SeqCst);
            FENCES[2] |= matches!(o, SeqCst);
            ACQUIRE |= FENCES[0];
            RELEASE |= FENCES[1];
            SEQ_CST |= FENCES[2];
        }
    }

    pub fn start() -> (AtomicOrdinal<K<N>>, K<N>) {
        let init = K::arb();
        let a = AtomicOrdinal::new(init);
        unsafe {
            SEEN[0] = init.ord();
            ACTIVE = true;
        }
        (a, init)
    }
    /// The cell's value now; the other thread is done.
    pub fn end(a: &AtomicOrdinal<K<N>>) -> usize {
        unsafe {
            ACTIVE = false;
            assert!(ACCESSES >= 1, "an operation without an atomic access");
            // AtomicOrdinal<T> stores the ordinal in an AtomicUsize.
        }
        a.load(SeqCst).ord()
    }
    /// An operation that read `read` (if any) and wrote `wrote` (if any) at one instant among
    /// the other thread's writes explains what happened.
    pub fn linearizable(read: Option<usize>, wrote: Option<usize>, last: usize) -> bool {
        unsafe {
            for k in 0..3 {
                if k <= WRITES {
                    let left = if k == WRITES { wrote.unwrap_or(SEEN[WRITES]) } else { SEEN[WRITES] };
                    if read.map_or(true, |r| r == SEEN[k]) && left == last {
                        return true;
                    }
                }
            }
            false
        }
    }
    /// The accesses gave at least the ordering asked for.
    pub fn ordered(o: Ordering, acquire: bool, release: bool, seq_cst: bool) -> bool {
        let a = matches!(o, Acquire | AcqRel | SeqCst);
        let r = matches!(o, Release | AcqRel | SeqCst);
        let s = matches!(o, SeqCst);
        (!a || acquire) && (!r || release) && (!s || seq_cst)
    }
}

#[cfg(kani)]
macro_rules! with_stubs {
    ($(fn $name:ident() $body:block native $native:block)*) => { $(
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(std::sync::atomic::Atomic::<usize>::load, shared::load)]
        #[kani::stub(std::sync::atomic::Atomic::<usize>::store, shared::store)]
        #[kani::stub(std::sync::atomic::Atomic::<usize>::swap, shared::swap)]
        #[kani::stub(std::sync::atomic::Atomic::<usize>::compare_exchange, shared::compare_exchange)]
        #[kani::stub(std::sync::atomic::Atomic::<usize>::compare_exchange_weak, shared::compare_exchange_weak)]
        #[kani::stub(std::sync::atomic::fence, shared::fence)]
        pub fn $name() {
            let () = $body;
            kani::cover!(true, "harness end reached");
        }
    )* };
}
#[cfg(not(kani))]
macro_rules! with_stubs {
    ($(fn $name:ident() $body:block native $native:block)*) => {
        $( pub fn $name() $native )*
        pub const LIST: &[(&str, fn(), u32)] = &[
            $( (concat!(module_path!(), "::", stringify!($name)), $name as fn(), 5) ),*
        ];
    };
}
pub mod threads {
    use super::*;
    with_stubs! {
        fn load() {
            let (a, _) = shared::start();
            let o = load_ordering();
            let v = a.load(o);
            unsafe {
                assert!(shared::ordered(o, shared::ACQUIRE, true, shared::SEQ_CST), "load is weaker than asked for");
            }
            let last = shared::end(&a);
            assert!(shared::linearizable(Some(v.ord()), None, last), "load is not atomic");
        } native { race() }
        fn store() {
            let (a, _) = shared::start();
            let o = store_ordering();
            let v = K::<{ shared::N }>::arb();
            a.store(v, o);
            unsafe {
                assert!(shared::ordered(o, true, shared::RELEASE, shared::SEQ_CST), "store is weaker than asked for");
            }
            let last = shared::end(&a);
            assert!(shared::linearizable(None, Some(v.ord()), last), "store is not atomic");
        } native { race() }
        fn compare_exchange() {
            let (a, _) = shared::start();
            let (s, f) = (rmw_ordering(), load_ordering());
            let (old, new) = (K::<{ shared::N }>::arb(), K::<{ shared::N }>::arb());
            match a.compare_exchange(old, new, s, f) {
                Ok(v) => {
                    unsafe {
                        assert!(shared::ordered(s, shared::ACQUIRE, shared::RELEASE, shared::SEQ_CST), "a successful compare_exchange is weaker than asked for");
                    }
                    assert!(v == old, "compare_exchange succeeded on another value");
                    let last = shared::end(&a);
                    assert!(shared::linearizable(Some(v.ord()), Some(new.ord()), last), "compare_exchange is not atomic");
                }
                Err(v) => {
                    unsafe {
                        assert!(shared::ordered(f, shared::ACQUIRE, true, shared::SEQ_CST), "a failed compare_exchange is weaker than asked for");
                    }
                    assert!(v != old, "compare_exchange failed on the expected value");
                    let last = shared::end(&a);
                    assert!(shared::linearizable(Some(v.ord()), None, last), "compare_exchange is not atomic");
                }
            }
        } native { race() }
    }
}
#[cfg(kani)]
pub const LISTS: &[&[(&str, fn(), u32)]] = &[plain::LIST];
#[cfg(not(kani))]
pub const LISTS: &[&[(&str, fn(), u32)]] = &[plain::LIST, threads::LIST];

/// Real threads on the real type: lost updates, publication of plain data through each
/// operation, store buffering. Under Miri the weak behaviours show.
#[cfg(not(kani))]
pub fn race() {
    use std::cell::UnsafeCell;
    use std::thread::scope;
    struct Plain(UnsafeCell<u64>);
    unsafe impl Sync for Plain {}
    type A = AtomicOrdinal<K<{ usize::MAX }>>;
    let k = K::<{ usize::MAX }>::at;
    let miri = cfg!(miri);

    // No compare_exchange is lost.
    let (threads, each) = if miri { (2, 20) } else { (4, 200_000) };
    let a = A::new(k(0));
    scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                for _ in 0..each {
                    loop {
                        let v = a.load(Relaxed);
                        match a.compare_exchange(v, k(v.ord() + 1), AcqRel, Acquire) {
                            Ok(w) => {
                                assert!(w == v);
                                break;
                            }
                            Err(w) => assert!(w != v, "compare_exchange failed on the expected value"),
                        }
                    }
                }
            });
        }
    });
    assert!(a.load(Relaxed).ord() == threads * each, "an update was lost");

    // Uncontended: never a spurious failure.
    for i in 0..if miri { 50 } else { 1000 } {
        let a = A::new(k(i));
        assert!(matches!(a.compare_exchange(k(i), k(7), SeqCst, Relaxed), Ok(v) if v == k(i)));
        assert!(a.load(SeqCst) == k(7));
    }

    // Publication: what was written before a release is visible after the acquire that saw it.
    for (publish, observe) in [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (0, 3), (4, 4), (4, 5)] {
        for _ in 0..if miri { 2 } else { 50 } {
            let a = A::new(k(0));
            let p = Plain(UnsafeCell::new(0));
            let (a, p) = (&a, &p);
            scope(|s| {
                s.spawn(move || {
                    unsafe { *p.0.get() = 42 };
                    match publish {
                        0 => a.store(k(1), Release),
                        1 => drop(a.compare_exchange(k(0), k(1), Release, Relaxed).is_ok()),
                        2 => drop(a.compare_exchange(k(0), k(1), AcqRel, Relaxed).is_ok()),
                        3 => drop(a.compare_exchange(k(0), k(1), SeqCst, Relaxed).is_ok()),
                        _ => a.store(k(1), SeqCst),
                    }
                });
                s.spawn(move || {
                    loop {
                        let seen = match observe {
                            0 => a.load(Acquire) == k(1),
                            1 => a.compare_exchange(k(1), k(2), Acquire, Relaxed).is_ok(),
                            2 => matches!(a.compare_exchange(k(9), k(9), Relaxed, Acquire), Err(v) if v == k(1)),
                            3 => a.compare_exchange(k(1), k(2), AcqRel, Relaxed).is_ok(),
                            4 => a.load(SeqCst) == k(1),
                            _ => matches!(a.compare_exchange(k(9), k(9), Relaxed, SeqCst), Err(v) if v == k(1)),
                        };
                        if seen {
                            break;
                        }
                        std::thread::yield_now();
                    }
                    assert!(unsafe { *p.0.get() } == 42, "published data is missing");
                });
            });
        }
    }

    // Store buffering: with sequential consistency one of the two sees the other's write.
    for variant in 0..3 {
        for _ in 0..if miri { 60 } else { 2000 } {
            let (x, y) = (A::new(k(0)), A::new(k(0)));
            let write = |c: &A| match variant {
                2 => drop(c.compare_exchange(k(0), k(1), SeqCst, Relaxed).is_ok()),
                _ => c.store(k(1), SeqCst),
            };
            let read = |c: &A| match variant {
                1 => match c.compare_exchange(k(9), k(9), SeqCst, SeqCst) {
                    Ok(v) | Err(v) => v.ord(),
                },
                _ => c.load(SeqCst).ord(),
            };
            let (x, y, write, read) = (&x, &y, &write, &read);
            let (r, q) = scope(|s| {
                let t = s.spawn(move || {
                    write(x);
                    read(y)
                });
                let u = s.spawn(move || {
                    write(y);
                    read(x)
                });
                (t.join().unwrap(), u.join().unwrap())
            });
            assert!(r == 1 || q == 1, "sequential consistency is broken");
        }
    }
}
