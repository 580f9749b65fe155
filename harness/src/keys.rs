//! Types the harnesses instantiate the library with, and symbolic values of them.

use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

use either::Either;
use ordinal_map::Ordinal;

use crate::nd;

/// A symbolic value of a type: every value is reachable.
pub trait Arb: Sized {
    fn arb() -> Self;
}

macro_rules! arb_prim {
    ($($t:ty = $f:ident as $u:ty;)*) => { $( impl Arb for $t {
        #[inline(always)]
        fn arb() -> Self { nd::$f() as $t }
    } )* };
}
arb_prim! {
    u8 = u8 as u8; i8 = u8 as u8; u16 = u16 as u16; i16 = u16 as u16; u32 = u32 as u32; i32 = u32 as u32;
    u64 = u64 as u64; i64 = u64 as u64; usize = usize as usize; isize = usize as usize;
}
macro_rules! arb_nz {
    ($($n:ty = $t:ty;)*) => { $( impl Arb for $n {
        #[inline(always)]
        fn arb() -> Self {
            let v = <$t as Arb>::arb();
            nd::assume(v != 0);
            <$n>::new(v).unwrap()
        }
    } )* };
}
arb_nz! {
    NonZeroU8 = u8; NonZeroI8 = i8; NonZeroU16 = u16; NonZeroI16 = i16; NonZeroU32 = u32; NonZeroI32 = i32;
    NonZeroU64 = u64; NonZeroI64 = i64; NonZeroUsize = usize; NonZeroIsize = isize;
}
impl Arb for bool {
    #[inline(always)]
    fn arb() -> Self {
        nd::bool()
    }
}
impl Arb for char {
    fn arb() -> Self {
        let v = nd::u32();
        // The Unicode scalar values, spelled out.
        nd::assume(v < 0xD800 || (v > 0xDFFF && v <= 0x10FFFF));
        char::from_u32(v).unwrap()
    }
}
impl Arb for Ordering {
    fn arb() -> Self {
        match nd::choice(3) {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
}
impl<A: Arb> Arb for Option<A> {
    fn arb() -> Self {
        if nd::bool() {
            Some(A::arb())
        } else {
            None
        }
    }
}
impl<A: Arb, B: Arb> Arb for Result<A, B> {
    fn arb() -> Self {
        if nd::bool() {
            Ok(A::arb())
        } else {
            Err(B::arb())
        }
    }
}
impl<A: Arb, B: Arb> Arb for Either<A, B> {
    fn arb() -> Self {
        if nd::bool() {
            Either::Left(A::arb())
        } else {
            Either::Right(B::arb())
        }
    }
}
impl<A: Arb> Arb for Box<A> {
    fn arb() -> Self {
        Box::new(A::arb())
    }
}
/// Uninhabited: no run continues past this point.
impl Arb for Infallible {
    fn arb() -> Self {
        nd::assume(false);
        unreachable!()
    }
}
impl<A: Arb, const N: usize> Arb for [A; N] {
    fn arb() -> Self {
        std::array::from_fn(|_| A::arb())
    }
}
macro_rules! arb_tuple {
    ($($p:ident)*) => { impl<$($p: Arb),*> Arb for ($($p,)*) {
        fn arb() -> Self { ($($p::arb(),)*) }
    } };
}
arb_tuple!();
arb_tuple!(A);
arb_tuple!(A B);
arb_tuple!(A B C);
arb_tuple!(A B C D);
arb_tuple!(A B C D E);
arb_tuple!(A B C D E F);
arb_tuple!(A B C D E F G);
arb_tuple!(A B C D E F G H);

/// A user-written `Ordinal` type of any size up to `usize::MAX`. The stored number is the
/// *reversed* ordinal, so that a value, its ordinal and an index are never the same thing by
/// accident; its `Ord` follows the ordinal.
#[derive(Copy, Clone, PartialEq, Eq, Hash)]
pub struct K<const N: usize>(usize);

impl<const N: usize> K<N> {
    /// The key with this ordinal.
    #[inline(always)]
    pub fn at(ordinal: usize) -> Self {
        K(N - 1 - ordinal)
    }
    #[inline(always)]
    pub fn ord(&self) -> usize {
        N - 1 - self.0
    }
}
impl<const N: usize> Ordinal for K<N> {
    const ORDINAL_SIZE: usize = N;
    #[inline(always)]
    fn ordinal(&self) -> usize {
        N - 1 - self.0
    }
    #[inline(always)]
    fn from_ordinal(ordinal: usize) -> Option<Self> {
        if ordinal < N {
            Some(K(N - 1 - ordinal))
        } else {
            None
        }
    }
}
impl<const N: usize> PartialOrd for K<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for K<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl<const N: usize> Arb for K<N> {
    #[inline(always)]
    fn arb() -> Self {
        K(nd::below(N))
    }
}
impl<const N: usize> std::fmt::Debug for K<N> {
    /// Writes nothing: which keys and values are shown, in which order, is noted elsewhere.
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        crate::p20::shown(b'a' + self.ord() as u8);
        Ok(())
    }
}

// ---------------------------------------------------------------- derived types

macro_rules! derived {
    ($($item:item)*) => { $(
        #[derive(Ordinal, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
        $item
    )* };
}

derived! {
    pub struct DUnit;
    pub struct DEmptyTuple();
    pub struct DEmptyRecord {}
    pub struct DNewtype(pub char);
    pub struct DTuple3(pub bool, pub K<3>, pub Option<bool>);
    pub struct DRecord {
        pub z: K<5>,
        pub a: i8,
        pub m: bool,
    }
    pub struct DFour {
        pub d: K<2>,
        pub c: K<3>,
        pub b: K<5>,
        pub a: K<7>,
    }
    pub struct DWide(pub NonZeroU32, pub u32);
    pub struct DRaw {
        pub r#type: bool,
        pub r#fn: K<3>,
    }
    pub struct DGeneric<A: Ordinal, B>
    where
        B: Ordinal,
    {
        pub a: A,
        pub b: B,
    }
    pub struct DConst<const N: usize>(pub [bool; N], pub K<3>);
    pub struct DUninhabited {
        pub a: bool,
        pub no: Infallible,
        pub b: K<3>,
    }
    pub enum DVoid {}
    pub enum DOne {
        Only,
    }
    pub enum DOneTuple {
        Only(K<3>, K<4>),
    }
    pub enum DSeven {
        A,
        B,
        C,
        D,
        E,
        F,
        G,
    }
    pub enum DMixed {
        A,
        B(bool),
        C { y: K<3>, x: Option<bool> },
        D(),
        E {},
        F(K<2>, K<3>, K<5>),
        G,
    }
    pub enum DHoles {
        No1(Infallible),
        Yes1(bool),
        No2(bool, Infallible, bool),
        No3 { a: Infallible },
        Yes2,
        No4(DVoid),
    }
    pub enum DNoneInhabited {
        A(Infallible),
        B { x: bool, y: DVoid },
    }
    pub enum DBig {
        A(u32),
        B { lo: i32 },
        C,
        D(char, u16),
    }
    pub enum DEither<A: Ordinal, B: Ordinal> {
        L(A),
        R { b: B },
        Both(A, B),
    }
    pub enum DNested {
        A(DMixed),
        B { s: DTuple3, e: DSeven },
        C(DEither<bool, DOne>),
    }
}

derived! {
    /// Eight fields, some of them with a single value.
    pub struct DEight {
        pub a: K<2>,
        pub unit: (),
        pub b: K<3>,
        pub one: K<1>,
        pub c: bool,
        pub d: K<5>,
        pub e: DUnit,
        pub f: K<2>,
    }
    pub struct DNine(pub K<2>, pub K<3>, pub (), pub bool, pub K<2>, pub K<1>, pub K<3>, pub K<2>, pub K<2>);
    /// Field and variant names that could be mistaken for the generated code's.
    pub struct DNames {
        pub ordinal: K<3>,
        pub f0: bool,
        pub size: K<2>,
        pub f1: K<5>,
    }
    pub enum DNames2 {
        None,
        Some { ordinal: bool, f0: K<3> },
        Self_ { f1: K<2>, ordinal: K<3>, f0: bool },
        Ordinal(bool),
    }
    /// Data variants first, unit variants between and behind them.
    pub enum DTail {
        A(K<3>),
        B,
        C,
        D { p: bool, q: K<3>, r: K<2>, s: K<5>, t: (), u: K<2> },
        E,
        F(()),
        G { z: Infallible },
        H((), K<1>),
        I(K<3>, bool, K<2>, K<2>),
        J,
    }
    /// Fields that are themselves products and sums, some without values.
    pub enum DDeep {
        A((), Option<bool>),
        B { r: Result<bool, K<3>>, t: (bool, K<3>) },
        C([bool; 2], [u8; 0]),
        E(DHoles),
    }
    pub enum DGenericEnum<A: Ordinal, B: Ordinal> {
        None,
        One(A),
        Two { a: A, b: B },
        Twice(A, A),
        Pair((A, B)),
    }
}

macro_rules! many {
    ($($v:ident)*) => {
        /// Seventy variants.
        #[derive(Ordinal, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
        #[repr(u16)]
        pub enum DMany { $($v),* }
    };
}
many! {
    V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19
    V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30 V31 V32 V33 V34 V35 V36 V37 V38 V39
    V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54 V55 V56 V57 V58 V59
    V60 V61 V62 V63 V64 V65 V66 V67 V68 V69
}
impl Arb for DMany {
    #[inline(always)]
    fn arb() -> Self {
        let n = nd::u16();
        nd::assume(n < 70);
        // SAFETY: a fieldless repr(u16) enum whose discriminants are 0..70.
        unsafe { std::mem::transmute::<u16, DMany>(n) }
    }
}

/// Explicit discriminants: ordinals follow the declaration order, not the discriminants.
#[derive(Ordinal, Copy, Clone, PartialEq, Eq, Debug)]
pub enum DDiscr {
    X = 30,
    Y = 10,
    Z = 20,
    W = 21,
}

macro_rules! arb_struct {
    ($($t:ty { $($f:ident),* })*) => { $( impl Arb for $t {
        fn arb() -> Self { Self { $($f: Arb::arb()),* } }
    } )* };
}
arb_struct! {
    DEmptyRecord {}
    DRecord { z, a, m }
    DFour { d, c, b, a }
    DRaw { r#type, r#fn }
    DUninhabited { a, no, b }
    DEight { a, unit, b, one, c, d, e, f }
    DNames { ordinal, f0, size, f1 }
}
impl Arb for DNine {
    fn arb() -> Self {
        DNine(Arb::arb(), Arb::arb(), (), Arb::arb(), Arb::arb(), Arb::arb(), Arb::arb(), Arb::arb(), Arb::arb())
    }
}
impl Arb for DNames2 {
    fn arb() -> Self {
        match nd::choice(4) {
            0 => DNames2::None,
            1 => DNames2::Some { ordinal: Arb::arb(), f0: Arb::arb() },
            2 => DNames2::Self_ { f1: Arb::arb(), ordinal: Arb::arb(), f0: Arb::arb() },
            _ => DNames2::Ordinal(Arb::arb()),
        }
    }
}
impl Arb for DTail {
    fn arb() -> Self {
        match nd::choice(10) {
            0 => DTail::A(Arb::arb()),
            1 => DTail::B,
            2 => DTail::C,
            3 => DTail::D { p: Arb::arb(), q: Arb::arb(), r: Arb::arb(), s: Arb::arb(), t: (), u: Arb::arb() },
            4 => DTail::E,
            5 => DTail::F(()),
            6 => DTail::G { z: Arb::arb() },
            7 => DTail::H((), Arb::arb()),
            8 => DTail::I(Arb::arb(), Arb::arb(), Arb::arb(), Arb::arb()),
            _ => DTail::J,
        }
    }
}
impl Arb for DDeep {
    fn arb() -> Self {
        match nd::choice(4) {
            0 => DDeep::A((), Arb::arb()),
            1 => DDeep::B { r: Arb::arb(), t: Arb::arb() },
            2 => DDeep::C(Arb::arb(), []),
            _ => DDeep::E(Arb::arb()),
        }
    }
}
impl<A: Arb + Ordinal, B: Arb + Ordinal> Arb for DGenericEnum<A, B> {
    fn arb() -> Self {
        match nd::choice(5) {
            0 => DGenericEnum::None,
            1 => DGenericEnum::One(Arb::arb()),
            2 => DGenericEnum::Two { a: Arb::arb(), b: Arb::arb() },
            3 => DGenericEnum::Twice(Arb::arb(), Arb::arb()),
            _ => DGenericEnum::Pair(Arb::arb()),
        }
    }
}
impl Arb for DUnit {
    fn arb() -> Self {
        DUnit
    }
}
impl Arb for DEmptyTuple {
    fn arb() -> Self {
        DEmptyTuple()
    }
}
impl Arb for DNewtype {
    fn arb() -> Self {
        DNewtype(Arb::arb())
    }
}
impl Arb for DTuple3 {
    fn arb() -> Self {
        DTuple3(Arb::arb(), Arb::arb(), Arb::arb())
    }
}
impl Arb for DWide {
    fn arb() -> Self {
        DWide(Arb::arb(), Arb::arb())
    }
}
impl<A: Arb + Ordinal, B: Arb + Ordinal> Arb for DGeneric<A, B> {
    fn arb() -> Self {
        DGeneric {
            a: Arb::arb(),
            b: Arb::arb(),
        }
    }
}
impl<const N: usize> Arb for DConst<N> {
    fn arb() -> Self {
        DConst(Arb::arb(), Arb::arb())
    }
}
impl Arb for DVoid {
    fn arb() -> Self {
        nd::assume(false);
        unreachable!()
    }
}
impl Arb for DOne {
    fn arb() -> Self {
        DOne::Only
    }
}
impl Arb for DOneTuple {
    fn arb() -> Self {
        DOneTuple::Only(Arb::arb(), Arb::arb())
    }
}
impl Arb for DSeven {
    fn arb() -> Self {
        match nd::choice(7) {
            0 => DSeven::A,
            1 => DSeven::B,
            2 => DSeven::C,
            3 => DSeven::D,
            4 => DSeven::E,
            5 => DSeven::F,
            _ => DSeven::G,
        }
    }
}
impl Arb for DMixed {
    fn arb() -> Self {
        match nd::choice(7) {
            0 => DMixed::A,
            1 => DMixed::B(Arb::arb()),
            2 => DMixed::C {
                y: Arb::arb(),
                x: Arb::arb(),
            },
            3 => DMixed::D(),
            4 => DMixed::E {},
            5 => DMixed::F(Arb::arb(), Arb::arb(), Arb::arb()),
            _ => DMixed::G,
        }
    }
}
impl Arb for DHoles {
    fn arb() -> Self {
        if nd::bool() {
            DHoles::Yes1(Arb::arb())
        } else {
            DHoles::Yes2
        }
    }
}
impl Arb for DBig {
    fn arb() -> Self {
        match nd::choice(4) {
            0 => DBig::A(Arb::arb()),
            1 => DBig::B { lo: Arb::arb() },
            2 => DBig::C,
            _ => DBig::D(Arb::arb(), Arb::arb()),
        }
    }
}
impl<A: Arb + Ordinal, B: Arb + Ordinal> Arb for DEither<A, B> {
    fn arb() -> Self {
        match nd::choice(3) {
            0 => DEither::L(Arb::arb()),
            1 => DEither::R { b: Arb::arb() },
            _ => DEither::Both(Arb::arb(), Arb::arb()),
        }
    }
}
impl Arb for DNested {
    fn arb() -> Self {
        match nd::choice(3) {
            0 => DNested::A(Arb::arb()),
            1 => DNested::B {
                s: Arb::arb(),
                e: Arb::arb(),
            },
            _ => DNested::C(Arb::arb()),
        }
    }
}
impl Arb for DDiscr {
    fn arb() -> Self {
        match nd::choice(4) {
            0 => DDiscr::X,
            1 => DDiscr::Y,
            2 => DDiscr::Z,
            _ => DDiscr::W,
        }
    }
}
