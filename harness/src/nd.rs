//! Nondeterministic inputs.
//!
//! Under Kani every function returns a fresh symbolic value. In the native replay build the
//! same functions pop the solver's concrete values, in call order, from a queue, so that a
//! harness replays a counterexample (or a reachability witness) against the real code.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn u8() -> u8 {
        kani::any()
    }
    #[inline(always)]
    pub fn u16() -> u16 {
        kani::any()
    }
    #[inline(always)]
    pub fn u32() -> u32 {
        kani::any()
    }
    #[inline(always)]
    pub fn u64() -> u64 {
        kani::any()
    }
    #[inline(always)]
    pub fn usize() -> usize {
        kani::any()
    }
    #[inline(always)]
    pub fn bool() -> bool {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        pub static QUEUE: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
        pub static RNG: RefCell<Option<u64>> = RefCell::new(None);
        /// The values of the run, when the generator made them.
        pub static MADE: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
    }

    /// Payload of the panic that stops a run whose assumptions do not hold.
    pub struct AssumeFailed;
    /// Payload of the panic that stops a run whose recorded values do not fit the harness.
    pub struct BadTrace;

    fn next<const B: usize>() -> [u8; B] {
        if let Some(r) = RNG.with(|r| {
            let mut r = r.borrow_mut();
            r.as_mut().map(|s| {
                // xorshift64*; biased to small values now and then.
                *s ^= *s >> 12;
                *s ^= *s << 25;
                *s ^= *s >> 27;
                let x = s.wrapping_mul(0x2545F4914F6CDD1D);
                match (x >> 58) & 7 {
                    0 => x,
                    1 | 2 => x & 1,
                    3 | 4 => x & 3,
                    5 => 256 + (x & 3),
                    6 => 60 + (x & 7),
                    _ => x & 0xff,
                }
            })
        }) {
            let mut out = [0; B];
            out.copy_from_slice(&r.to_le_bytes()[..B]);
            MADE.with(|m| m.borrow_mut().push(out.to_vec()));
            return out;
        }
        let v = QUEUE.with(|q| q.borrow_mut().pop_front());
        match v {
            Some(v) if v.len() == B => {
                let mut out = [0; B];
                out.copy_from_slice(&v);
                out
            }
            _ => std::panic::panic_any(BadTrace),
        }
    }
    pub fn u8() -> u8 {
        next::<1>()[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(next())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(next())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(next())
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(next())
    }
    pub fn bool() -> bool {
        next::<1>()[0] & 1 == 1
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed)
        }
    }
}

pub use imp::*;

/// A symbolic `usize` in `0..n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let x = usize();
    assume(x < n);
    x
}

/// A symbolic choice in `0..n`.
#[inline(always)]
pub fn choice(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}
