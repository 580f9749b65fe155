//! P06: `all_values()` yields every value exactly once, in ordinal order, from both ends.
use std::num::*;

use ordinal_map::Ordinal;

use crate::keys::*;
use crate::nd;

/// A symbolic history of `steps` iterator calls over all of `T`, against the interval of
/// ordinals that is left.
fn history<T: Ordinal>(steps: usize, max_jump: usize) {
    let mut it = T::all_values();
    let (mut lo, mut hi) = (0, T::ORDINAL_SIZE);
    let at = |got: Option<T>, want: usize| match got {
        Some(v) => assert!(v.ordinal() == want, "wrong value"),
        None => panic!("ended too early"),
    };
    for _ in 0..steps {
        assert!(it.len() == hi - lo, "len() is not the number of remaining values");
        assert!(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint is not exact");
        match nd::choice(4) {
            0 => {
                let got = it.next();
                if lo < hi {
                    at(got, lo);
                    lo += 1;
                } else {
                    assert!(got.is_none());
                }
            }
            1 => {
                let got = it.next_back();
                if lo < hi {
                    hi -= 1;
                    at(got, hi);
                } else {
                    assert!(got.is_none());
                }
            }
            2 => {
                let k = nd::usize();
                nd::assume(k <= max_jump);
                let got = it.nth(k);
                if k < hi - lo {
                    at(got, lo + k);
                    lo += k + 1;
                } else {
                    assert!(got.is_none());
                    lo = hi;
                }
            }
            _ => {
                let k = nd::usize();
                nd::assume(k <= max_jump);
                let got = it.nth_back(k);
                if k < hi - lo {
                    at(got, hi - 1 - k);
                    hi -= k + 1;
                } else {
                    assert!(got.is_none());
                    hi = lo;
                }
            }
        }
    }
    let c = it.clone();
    assert!(c.len() == hi - lo);
    match nd::choice(4) {
        0 => assert!(it.count() == hi - lo, "count() is wrong"),
        1 => match it.last() {
            Some(v) => assert!(lo < hi && v.ordinal() == hi - 1, "last() is wrong"),
            None => assert!(lo == hi),
        },
        2 => match it.rev().next() {
            Some(v) => assert!(lo < hi && v.ordinal() == hi - 1),
            None => assert!(lo == hi),
        },
        _ => match it.next() {
            Some(v) => assert!(lo < hi && v.ordinal() == lo),
            None => assert!(lo == hi),
        },
    }
}

/// Consuming the whole iterator through internal iteration.
fn folded<T: Ordinal>() {
    let mut n = 0;
    T::all_values().fold((), |(), v| {
        assert!(v.ordinal() == n);
        n += 1;
    });
    assert!(n == T::ORDINAL_SIZE);
    T::all_values().rfold((), |(), v| {
        n -= 1;
        assert!(v.ordinal() == n);
    });
    assert!(n == 0);
}

/// Jumps of any length over large types. Where `nth` is a loop over `next` the solver's loop bound
/// is what stops these, and they are not counted; where it is computed they are decided.
pub mod opt {
    use super::*;
    crate::harnesses! {
        #[unwind(6)] fn far_u16() { history::<u16>(2, usize::MAX) }
        #[unwind(6)] fn far_u32() { history::<u32>(2, usize::MAX) }
        #[unwind(6)] fn far_max() { history::<K<{ usize::MAX }>>(2, usize::MAX) }
    }
}
pub const LISTS: &[&[(&str, fn(), u32)]] = &[plain::LIST, opt::LIST];
pub mod plain {
use super::*;
crate::harnesses! {
    #[unwind(4)] fn empty() { history::<K<0>>(2, 2) }
    #[unwind(4)] fn void() { history::<DVoid>(2, 2) }
    #[unwind(4)] fn unit() { history::<()>(2, 2) }
    #[unwind(5)] fn three() { history::<K<3>>(4, usize::MAX) }
    #[unwind(8)] fn six() { history::<K<6>>(3, usize::MAX) }
    #[unwind(5)] fn boolean() { history::<bool>(3, usize::MAX) }
    #[unwind(5)] fn option() { history::<Option<bool>>(3, usize::MAX) }
    #[unwind(9)] fn derived() { history::<DSeven>(3, usize::MAX) }
    #[unwind(6)] fn u8_() { history::<u8>(3, 3) }
    #[unwind(6)] fn i16_() { history::<i16>(3, 3) }
    #[unwind(6)] fn char_() { history::<char>(3, 3) }
    #[unwind(6)] fn u32_() { history::<u32>(3, 3) }
    #[unwind(6)] fn nzi64() { history::<NonZeroI64>(3, 3) }
    #[unwind(6)] fn nzusize() { history::<NonZeroUsize>(3, 3) }
    #[unwind(6)] fn max() { history::<K<{ usize::MAX }>>(3, 3) }
    #[unwind(9)] fn fold_six() { folded::<K<6>>() }
    #[unwind(9)] fn fold_derived() { folded::<DSeven>() }
}
}
