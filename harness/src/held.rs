//! Values to capture, every way of capturing them, and what the bag then contains.

use crate::data::*;
use crate::extra::tick;
use crate::model::*;
use crate::tape::Tape;
use crate::tree::*;
use std::borrow::Cow;
use std::fmt::{Debug, Display};
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

/// Keep a reference somewhere it can be borrowed from for as long as it's valid
fn keep<T: ?Sized>(v: &T) -> &&T {
    Box::leak(Box::new(v))
}

pub fn leak_str(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// Pretend a bag lives forever, for giving it to a slot.
///
/// # Safety
///
/// The bag must not be used after what it borrows from is gone.
pub unsafe fn extend(b: ValueBag<'_>) -> ValueBag<'static> {
    std::mem::transmute(b)
}

unsafe fn extend_ref<T: ?Sized>(v: &T) -> &'static T {
    &*(v as *const T)
}

// ------------------------------------------------------------ primitives

pub trait PT:
    Copy + Debug + Display + Send + Sync + 'static + serde_core::Serialize + Sized
{
    fn prim(self) -> Prim;
    fn by_val<'v>(self) -> Option<ValueBag<'v>>;
    fn by_ref<'v>(v: &'v Self) -> ValueBag<'v>;
    fn by_opt<'v>(v: Option<Self>) -> Option<ValueBag<'v>>;
    fn ctor<'v>(v: &'v Self) -> ValueBag<'v>;
    fn ctor2<'v>(v: &'v Self) -> ValueBag<'v>;
    fn fill_any(v: &Self, how: usize, slot: Slot) -> Result<(), Error>;
    #[cfg(feature = "sval2")]
    fn sval<'v>(st: &'v St<Self>, r: usize) -> Option<ValueBag<'v>>;
    #[cfg(feature = "sval2")]
    fn fill_sval(v: &Self, slot: Slot) -> Result<(), Error>;
    #[cfg(feature = "seq")]
    fn seq<'v>(st: &'v SeqSt<Self>, r: usize) -> Option<ValueBag<'v>>;
}

#[cfg(feature = "seq")]
macro_rules! seq_routes {
    ($t:ty) => {
        fn seq<'v>(st: &'v SeqSt<Self>, r: usize) -> Option<ValueBag<'v>> {
            let v = &st.v;
            macro_rules! arr {
                ($wrap:expr) => {
                    match v.len() {
                        0 => $wrap(<&[$t; 0]>::try_from(&v[..]).unwrap()),
                        1 => $wrap(<&[$t; 1]>::try_from(&v[..]).unwrap()),
                        2 => $wrap(<&[$t; 2]>::try_from(&v[..]).unwrap()),
                        3 => $wrap(<&[$t; 3]>::try_from(&v[..]).unwrap()),
                        4 => $wrap(<&[$t; 4]>::try_from(&v[..]).unwrap()),
                        5 => $wrap(<&[$t; 5]>::try_from(&v[..]).unwrap()),
                        _ => return None,
                    }
                };
            }
            Some(match r {
                0 => ValueBag::from(keep(&v[..])),
                1 => arr!(|a| ValueBag::from(a)),
                2 => arr!(|a| ValueBag::from(Some(a))),
                3 => ValueBag::from(Some(keep(&v[..]))),
                #[cfg(feature = "alloc")]
                4 => ValueBag::from(v),
                #[cfg(feature = "alloc")]
                5 => ValueBag::from(Some(v)),
                6 => ValueBag::from_seq_slice(v),
                7 => arr!(|a| ValueBag::from_seq_slice(a)),
                8 => ValueBag::from_seq_slice(&st.boxed),
                9 => ValueBag::from_fill(&st.fill),
                #[cfg(feature = "owned")]
                10 => ValueBag::capture_shared_seq_slice(v.clone()),
                #[cfg(feature = "owned")]
                11 => ValueBag::capture_shared_seq_slice(st.boxed.clone()),
                #[cfg(feature = "owned")]
                12 => match v.len() {
                    2 => ValueBag::capture_shared_seq_slice(<[$t; 2]>::try_from(&v[..]).unwrap()),
                    3 => ValueBag::capture_shared_seq_slice(<[$t; 3]>::try_from(&v[..]).unwrap()),
                    _ => return None,
                },
                _ => return None,
            })
        }
    };
}

pub const SEQ_ROUTES: &[&str] = &[
    "From<&&[T]>",
    "From<&[T; N]>",
    "From<Option<&[T; N]>>",
    "From<Option<&&[T]>>",
    "From<&Vec<T>>",
    "From<Option<&Vec<T>>>",
    "from_seq_slice(Vec)",
    "from_seq_slice(array)",
    "from_seq_slice(Box<[T]>)",
    "fill_seq_slice",
    "capture_shared_seq_slice(Vec)",
    "capture_shared_seq_slice(Box<[T]>)",
    "capture_shared_seq_slice(array)",
];

#[cfg(feature = "sval2")]
macro_rules! sval_routes {
    // no `sval::Value` for these
    (usize) => { sval_routes!(@none); };
    (isize) => { sval_routes!(@none); };
    (@none) => {
        fn sval<'v>(_: &'v St<Self>, _: usize) -> Option<ValueBag<'v>> {
            None
        }
        fn fill_sval(v: &Self, slot: Slot) -> Result<(), Error> {
            Self::fill_any(v, 1, slot)
        }
    };
    ($t:ident) => {
        fn sval<'v>(st: &'v St<Self>, r: usize) -> Option<ValueBag<'v>> {
            let v = &st.v;
            let some = &st.some;
            Some(match r {
                9 => ValueBag::capture_sval2(v),
                12 => ValueBag::capture_sval2(some),
                18 => ValueBag::from_sval2(v),
                19 => ValueBag::from_dyn_sval2(v),
                23 => ValueBag::from(v as &dyn sval_dynamic::Value),
                24 => ValueBag::from_sval2(some),
                #[cfg(feature = "owned")]
                30 => ValueBag::capture_shared_sval2(*v),
                #[cfg(feature = "owned")]
                33 => ValueBag::capture_shared_sval2(*some),
                40 => ValueBag::from_fill(&st.fill),
                _ => return None,
            })
        }
        fn fill_sval(v: &Self, slot: Slot) -> Result<(), Error> {
            slot.fill_sval2(*v)
        }
    };
}

macro_rules! impl_pt {
    ($($v:ident $t:ident $ctor:ident),*) => {
        $(impl PT for $t {
            fn prim(self) -> Prim { Prim::$v(self) }
            fn by_val<'v>(self) -> Option<ValueBag<'v>> { Some(ValueBag::from(self)) }
            fn by_ref<'v>(v: &'v Self) -> ValueBag<'v> { ValueBag::from(v) }
            fn by_opt<'v>(v: Option<Self>) -> Option<ValueBag<'v>> { Some(ValueBag::from(v)) }
            fn ctor<'v>(v: &'v Self) -> ValueBag<'v> { ValueBag::$ctor(*v) }
            fn ctor2<'v>(v: &'v Self) -> ValueBag<'v> { ValueBag::from_option(Some(*v)) }
            fn fill_any(v: &Self, how: usize, slot: Slot) -> Result<(), Error> {
                match how {
                    0 => slot.fill_any(*v),
                    1 => slot.fill_any(v),
                    _ => slot.fill_any(Some(*v)),
                }
            }
            #[cfg(feature = "sval2")]
            sval_routes!($t);
            #[cfg(feature = "seq")]
            seq_routes!($t);
        })*
    };
}

impl_pt!(U8 u8 from_u8, U16 u16 from_u16, U32 u32 from_u32, U64 u64 from_u64, Usize usize from_usize,
         I8 i8 from_i8, I16 i16 from_i16, I32 i32 from_i32, I64 i64 from_i64, Isize isize from_isize,
         F32 f32 from_f32, F64 f64 from_f64, Bool bool from_bool, Char char from_char);

macro_rules! impl_pt128 {
    ($($v:ident $t:ident $ctor:ident $ctor_ref:ident),*) => {
        $(impl PT for $t {
            fn prim(self) -> Prim { Prim::$v(self) }
            fn by_val<'v>(self) -> Option<ValueBag<'v>> {
                #[cfg(feature = "inline-i128")]
                return Some(ValueBag::from(self));
                #[cfg(not(feature = "inline-i128"))]
                None
            }
            fn by_ref<'v>(v: &'v Self) -> ValueBag<'v> { ValueBag::from(v) }
            fn by_opt<'v>(_: Option<Self>) -> Option<ValueBag<'v>> { None }
            fn ctor<'v>(v: &'v Self) -> ValueBag<'v> { ValueBag::$ctor_ref(v) }
            fn ctor2<'v>(v: &'v Self) -> ValueBag<'v> {
                #[cfg(feature = "inline-i128")]
                return ValueBag::$ctor(*v);
                #[cfg(not(feature = "inline-i128"))]
                ValueBag::from_option(Some(v))
            }
            fn fill_any(v: &Self, how: usize, slot: Slot) -> Result<(), Error> {
                match how {
                    #[cfg(feature = "inline-i128")]
                    0 => slot.fill_any(*v),
                    // SAFETY: the slot isn't used after this call
                    _ => slot.fill_any(unsafe { extend_ref(v) }),
                }
            }
            #[cfg(feature = "sval2")]
            sval_routes!($t);
            #[cfg(feature = "seq")]
            seq_routes!($t);
        })*
    };
}

impl_pt128!(U128 u128 from_u128 from_u128_ref, I128 i128 from_i128 from_i128_ref);

/// How a route treats what it's given
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    /// As the well-known type it is
    Nat,
    Dbg,
    Disp,
    Sval,
    Serde,
    /// `Some` of it, through a framework
    SvalOpt,
    SerdeOpt,
    DbgOpt,
    /// By a sharing constructor, which only recognises what it can hold by value
    ShDbg,
    ShDisp,
    ShSval,
    ShSerde,
    ShDbgOpt,
    ShSvalOpt,
    ShSerdeOpt,
    FillNat,
    FillDbg,
    FillDisp,
    FillSval,
    FillSerde,
}

pub const PRIM_ROUTES: &[(&str, K)] = &[
    ("From<T>", K::Nat),
    ("From<&T>", K::Nat),
    ("From<Option<T>>", K::Nat),
    ("const constructor", K::Nat),
    ("from_option", K::Nat),
    ("try_capture", K::Nat),
    ("try_capture(Option)", K::Nat),
    ("capture_debug", K::Nat),
    ("capture_display", K::Nat),
    ("capture_sval2", K::Nat),
    ("capture_serde1", K::Nat),
    ("capture_debug(Option)", K::Nat),
    ("capture_sval2(Option)", K::Nat),
    ("capture_serde1(Option)", K::Nat),
    ("from_debug", K::Dbg),
    ("from_display", K::Disp),
    ("from_dyn_debug", K::Dbg),
    ("from_dyn_display", K::Disp),
    ("from_sval2", K::Sval),
    ("from_dyn_sval2", K::Sval),
    ("from_serde1", K::Serde),
    ("From<&dyn Debug>", K::Dbg),
    ("From<&dyn Display>", K::Disp),
    ("From<&dyn sval::Value>", K::Sval),
    ("from_sval2(Option)", K::SvalOpt),
    ("from_serde1(Option)", K::SerdeOpt),
    ("from_debug(Option)", K::DbgOpt),
    ("try_capture_owned", K::Nat),
    ("capture_shared_debug", K::ShDbg),
    ("capture_shared_display", K::ShDisp),
    ("capture_shared_sval2", K::ShSval),
    ("capture_shared_serde1", K::ShSerde),
    ("capture_shared_debug(Option)", K::ShDbgOpt),
    ("capture_shared_sval2(Option)", K::ShSvalOpt),
    ("capture_shared_serde1(Option)", K::ShSerdeOpt),
    ("fill_any(T)", K::FillNat),
    ("fill_any(&T)", K::FillNat),
    ("fill_any(Option<T>)", K::FillNat),
    ("fill_debug", K::FillDbg),
    ("fill_display", K::FillDisp),
    ("fill_sval2", K::FillSval),
    ("fill_serde1", K::FillSerde),
    ("fill_debug(&dyn)", K::FillDbg),
];

pub fn prim_content(p: Prim, k: K) -> M {
    let fmt = |dbg, shared| C::Fmt {
        src: Src::Prim(p),
        dbg,
        shared,
    };
    let sval = |t, shared| C::Sval {
        t,
        b: Bor::No,
        shared,
        buffered: false,
    };
    let serde = |t, shared| C::Serde {
        t,
        shared,
        buffered: false,
    };
    let some = || Tree::Some(Box::new(Tree::P(p)));
    // what a sharing constructor can hold by value
    let small = INLINE128 || !matches!(p, Prim::U128(_) | Prim::I128(_));
    match k {
        K::Nat => M::new(prim_c(p)),
        K::Dbg => M::new(fmt(true, false)),
        K::Disp => M::new(fmt(false, false)),
        K::Sval => M::new(sval(Tree::P(p), false)),
        K::Serde => M::new(serde(Tree::P(p), false)),
        K::SvalOpt => M::new(sval(some(), false)),
        K::SerdeOpt => M::new(serde(some(), false)),
        K::DbgOpt => M::new(C::Fmt {
            src: Src::Opt(Box::new(Src::Prim(p))),
            dbg: true,
            shared: false,
        }),
        K::ShDbg | K::ShDisp | K::ShSval | K::ShSerde | K::ShDbgOpt | K::ShSvalOpt | K::ShSerdeOpt
            if small =>
        {
            M::new(prim_c(p))
        }
        K::ShDbg => M::new(fmt(true, true)),
        K::ShDisp => M::new(fmt(false, true)),
        K::ShSval => M::new(sval(Tree::P(p), true)),
        K::ShSerde => M::new(serde(Tree::P(p), true)),
        K::ShDbgOpt => M::new(C::Fmt {
            src: Src::Opt(Box::new(Src::Prim(p))),
            dbg: true,
            shared: true,
        }),
        K::ShSvalOpt => M::new(sval(some(), true)),
        K::ShSerdeOpt => M::new(serde(some(), true)),
        K::FillNat => M::filled(prim_c(p)),
        K::FillDbg => M::filled(fmt(true, false)),
        K::FillDisp => M::filled(fmt(false, false)),
        K::FillSval => M::filled(sval(Tree::P(p), false)),
        K::FillSerde => M::filled(serde(Tree::P(p), false)),
    }
}

#[derive(Clone)]
pub struct FillP<T> {
    v: T,
    how: usize,
}

impl<T: PT> Fill for FillP<T> {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        match self.how {
            0..=2 => T::fill_any(&self.v, self.how, slot),
            3 => slot.fill_debug(self.v),
            4 => slot.fill_display(self.v),
            #[cfg(feature = "sval2")]
            5 => T::fill_sval(&self.v, slot),
            #[cfg(feature = "serde1")]
            6 => slot.fill_serde1(self.v),
            _ => slot.fill_debug(&self.v as &dyn Debug),
        }
    }
}

#[derive(Clone)]
pub struct St<T> {
    v: T,
    some: Option<T>,
    fill: FillP<T>,
}

impl<T: PT> St<T> {
    fn new(v: T, r: usize) -> St<T> {
        St {
            v,
            some: Some(v),
            fill: FillP {
                v,
                how: match r {
                    35 => 0,
                    36 => 1,
                    37 => 2,
                    38 => 3,
                    39 => 4,
                    40 => 5,
                    41 => 6,
                    _ => 7,
                },
            },
        }
    }

    fn bag(&self, r: usize) -> Option<ValueBag<'_>> {
        let v = &self.v;
        let some = &self.some;
        Some(match r {
            #[cfg(feature = "sval2")]
            9 | 12 | 18 | 19 | 23 | 24 | 30 | 33 | 40 => return T::sval(self, r),
            0 => return T::by_val(*v),
            1 => T::by_ref(v),
            2 => return T::by_opt(*some),
            3 => T::ctor(v),
            4 => T::ctor2(v),
            5 => return ValueBag::try_capture(v),
            6 => return ValueBag::try_capture(some),
            7 => ValueBag::capture_debug(v),
            8 => ValueBag::capture_display(v),
            #[cfg(feature = "serde1")]
            10 => ValueBag::capture_serde1(v),
            11 => ValueBag::capture_debug(some),
            #[cfg(feature = "serde1")]
            13 => ValueBag::capture_serde1(some),
            14 => ValueBag::from_debug(v),
            15 => ValueBag::from_display(v),
            16 => ValueBag::from_dyn_debug(v),
            17 => ValueBag::from_dyn_display(v),
            #[cfg(feature = "serde1")]
            20 => ValueBag::from_serde1(v),
            21 => ValueBag::from(v as &dyn Debug),
            22 => ValueBag::from(v as &dyn Display),
            #[cfg(feature = "serde1")]
            25 => ValueBag::from_serde1(some),
            26 => ValueBag::from_debug(some),
            #[cfg(feature = "owned")]
            27 => return ValueBag::try_capture_owned(v),
            #[cfg(feature = "owned")]
            28 => ValueBag::capture_shared_debug(*v),
            #[cfg(feature = "owned")]
            29 => ValueBag::capture_shared_display(*v),
            #[cfg(all(feature = "owned", feature = "serde1"))]
            31 => ValueBag::capture_shared_serde1(*v),
            #[cfg(feature = "owned")]
            32 => ValueBag::capture_shared_debug(*some),
            #[cfg(all(feature = "owned", feature = "serde1"))]
            34 => ValueBag::capture_shared_serde1(*some),
            35 | 36 | 37 | 38 | 39 | 42 => ValueBag::from_fill(&self.fill),
            #[cfg(feature = "serde1")]
            41 => ValueBag::from_fill(&self.fill),
            _ => return None,
        })
    }
}

/// Every primitive type with its own storage
#[derive(Clone)]
pub enum PrimSt {
    U8(St<u8>),
    U16(St<u16>),
    U32(St<u32>),
    U64(St<u64>),
    Usize(St<usize>),
    U128(St<u128>),
    I8(St<i8>),
    I16(St<i16>),
    I32(St<i32>),
    I64(St<i64>),
    Isize(St<isize>),
    I128(St<i128>),
    F32(St<f32>),
    F64(St<f64>),
    Bool(St<bool>),
    Char(St<char>),
}

macro_rules! on_st {
    ($ty:ident, $p:expr, $x:ident => $body:expr) => {
        match $p {
            $ty::U8($x) => $body,
            $ty::U16($x) => $body,
            $ty::U32($x) => $body,
            $ty::U64($x) => $body,
            $ty::Usize($x) => $body,
            $ty::U128($x) => $body,
            $ty::I8($x) => $body,
            $ty::I16($x) => $body,
            $ty::I32($x) => $body,
            $ty::I64($x) => $body,
            $ty::Isize($x) => $body,
            $ty::I128($x) => $body,
            $ty::F32($x) => $body,
            $ty::F64($x) => $body,
            $ty::Bool($x) => $body,
            $ty::Char($x) => $body,
        }
    };
}

impl PrimSt {
    fn new(p: Prim, r: usize) -> PrimSt {
        match p {
            Prim::U8(v) => PrimSt::U8(St::new(v, r)),
            Prim::U16(v) => PrimSt::U16(St::new(v, r)),
            Prim::U32(v) => PrimSt::U32(St::new(v, r)),
            Prim::U64(v) => PrimSt::U64(St::new(v, r)),
            Prim::Usize(v) => PrimSt::Usize(St::new(v, r)),
            Prim::U128(v) => PrimSt::U128(St::new(v, r)),
            Prim::I8(v) => PrimSt::I8(St::new(v, r)),
            Prim::I16(v) => PrimSt::I16(St::new(v, r)),
            Prim::I32(v) => PrimSt::I32(St::new(v, r)),
            Prim::I64(v) => PrimSt::I64(St::new(v, r)),
            Prim::Isize(v) => PrimSt::Isize(St::new(v, r)),
            Prim::I128(v) => PrimSt::I128(St::new(v, r)),
            Prim::F32(v) => PrimSt::F32(St::new(v, r)),
            Prim::F64(v) => PrimSt::F64(St::new(v, r)),
            Prim::Bool(v) => PrimSt::Bool(St::new(v, r)),
            Prim::Char(v) => PrimSt::Char(St::new(v, r)),
        }
    }

    fn bag(&self, r: usize) -> Option<ValueBag<'_>> {
        on_st!(PrimSt, self, s => s.bag(r))
    }
}

// ------------------------------------------------------------ sequences of primitives

#[derive(Clone)]
pub struct FillSeq<T>(Vec<T>);

#[cfg(feature = "seq")]
impl<T: PT> Fill for FillSeq<T>
where
    for<'a> &'a T: Into<ValueBag<'a>>,
{
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        // SAFETY: the slot isn't used after this call
        slot.fill_seq_slice(unsafe { extend_ref(&self.0) })
    }
}

#[derive(Clone)]
pub struct SeqSt<T> {
    pub v: Vec<T>,
    boxed: Box<[T]>,
    #[allow(dead_code)]
    fill: FillSeq<T>,
}

impl<T: PT> SeqSt<T> {
    fn new(v: Vec<T>) -> SeqSt<T> {
        SeqSt {
            boxed: v.clone().into_boxed_slice(),
            fill: FillSeq(v.clone()),
            v,
        }
    }
}

#[derive(Clone)]
pub enum PrimSeq {
    U8(SeqSt<u8>),
    U16(SeqSt<u16>),
    U32(SeqSt<u32>),
    U64(SeqSt<u64>),
    Usize(SeqSt<usize>),
    U128(SeqSt<u128>),
    I8(SeqSt<i8>),
    I16(SeqSt<i16>),
    I32(SeqSt<i32>),
    I64(SeqSt<i64>),
    Isize(SeqSt<isize>),
    I128(SeqSt<i128>),
    F32(SeqSt<f32>),
    F64(SeqSt<f64>),
    Bool(SeqSt<bool>),
    Char(SeqSt<char>),
}

impl PrimSeq {
    fn new(kind: usize, ps: &[Prim]) -> PrimSeq {
        macro_rules! c {
            ($v:ident) => {
                PrimSeq::$v(SeqSt::new(
                    ps.iter()
                        .map(|p| match p {
                            Prim::$v(x) => *x,
                            _ => unreachable!(),
                        })
                        .collect(),
                ))
            };
        }
        match kind {
            0 => c!(U8),
            1 => c!(U16),
            2 => c!(U32),
            3 => c!(U64),
            4 => c!(Usize),
            5 => c!(U128),
            6 => c!(I8),
            7 => c!(I16),
            8 => c!(I32),
            9 => c!(I64),
            10 => c!(Isize),
            11 => c!(I128),
            12 => c!(F32),
            13 => c!(F64),
            14 => c!(Bool),
            _ => c!(Char),
        }
    }

    fn prims(&self) -> Vec<Prim> {
        on_st!(PrimSeq, self, s => s.v.iter().map(|x| x.prim()).collect())
    }

    #[cfg(feature = "seq")]
    fn bag(&self, r: usize) -> Option<ValueBag<'_>> {
        on_st!(PrimSeq, self, s => PT::seq(s, r))
    }

    #[cfg(not(feature = "seq"))]
    fn bag(&self, _: usize) -> Option<ValueBag<'_>> {
        None
    }
}

// ------------------------------------------------------------ strings

pub const STR_ROUTES: &[(&str, K)] = &[
    ("From<&str>", K::Nat),
    ("From<&&str>", K::Nat),
    ("From<Option<&str>>", K::Nat),
    ("from_str", K::Nat),
    ("from_option", K::Nat),
    ("From<&String>", K::Nat),
    ("From<&Cow> (owned)", K::Nat),
    ("From<&Cow> (borrowed)", K::Nat),
    ("try_capture(str)", K::Nat),
    ("try_capture(&'static str)", K::Nat),
    ("try_capture(String)", K::Nat),
    ("try_capture(Option<&'static str>)", K::Nat),
    ("try_capture(Option<String>)", K::Nat),
    ("capture_debug(String)", K::Nat),
    ("capture_display(String)", K::Nat),
    ("capture_debug(&'static str)", K::Nat),
    ("capture_display(&'static str)", K::Nat),
    ("capture_debug(Option<String>)", K::Nat),
    ("capture_sval2(String)", K::Nat),
    ("capture_sval2(&'static str)", K::Nat),
    ("capture_serde1(String)", K::Nat),
    ("capture_serde1(&'static str)", K::Nat),
    ("capture_serde1(Option<String>)", K::Nat),
    ("from_debug(String)", K::Dbg),
    ("from_display(String)", K::Disp),
    ("from_dyn_debug", K::Dbg),
    ("From<&dyn Display>", K::Disp),
    ("from_sval2(&str)", K::Sval),
    ("from_sval2(String)", K::Sval),
    ("from_dyn_sval2(String)", K::Sval),
    ("from_sval2(Option<&str>)", K::SvalOpt),
    ("from_serde1(String)", K::Serde),
    ("from_serde1(Option<&str>)", K::SerdeOpt),
    ("capture_shared_debug(String)", K::ShDbg),
    ("capture_shared_display(String)", K::ShDisp),
    ("capture_shared_sval2(String)", K::ShSval),
    ("capture_shared_serde1(String)", K::ShSerde),
    ("fill_any(&str)", K::FillNat),
    ("fill_any(Option<&str>)", K::FillNat),
    ("fill_debug", K::FillDbg),
    ("fill_display", K::FillDisp),
    ("fill_sval2", K::FillSval),
    ("fill_serde1", K::FillSerde),
];

#[derive(Clone)]
pub struct StrSt {
    pub s: String,
    some: Option<String>,
    cow: Cow<'static, str>,
    bcow: Cow<'static, str>,
    pub stat: &'static str,
    some_stat: Option<&'static str>,
    fill: FillStr,
}

#[derive(Clone)]
struct FillStr(String, usize);

impl Fill for FillStr {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        // SAFETY: the slot isn't used after this call
        let s: &'static str = unsafe { extend_ref(&*self.0) };
        match self.1 {
            37 => slot.fill_any(s),
            38 => slot.fill_any(Some(s)),
            39 => slot.fill_debug(&*self.0),
            40 => slot.fill_display(&*self.0),
            #[cfg(feature = "sval2")]
            41 => slot.fill_sval2(&*self.0),
            #[cfg(feature = "serde1")]
            42 => slot.fill_serde1(&*self.0),
            _ => Err(Error::msg("no such route")),
        }
    }
}

impl StrSt {
    fn new(s: String, r: usize) -> StrSt {
        let stat = match STR_ROUTES[r].0.contains("static") || r == 7 || r == 27 || r == 30 || r == 32 {
            true => leak_str(&s),
            false => "",
        };
        StrSt {
            some: Some(s.clone()),
            cow: Cow::Owned(s.clone()),
            bcow: Cow::Borrowed(stat),
            stat,
            some_stat: Some(stat),
            fill: FillStr(s.clone(), r),
            s,
        }
    }

    /// Where the text lives that a bag captured by this route should lend
    pub fn range(&self, r: usize) -> (usize, usize) {
        let s: &str = match r {
            6 => &self.cow,
            7 | 9 | 11 | 15 | 16 | 19 | 21 | 27 | 30 => self.stat,
            12 | 17 | 22 => self.some.as_ref().unwrap(),
            37 | 38 => &self.fill.0,
            _ => &self.s,
        };
        (s.as_ptr() as usize, s.len())
    }

    fn bag(&self, r: usize) -> Option<ValueBag<'_>> {
        let s = &self.s;
        let st = &self.stat;
        Some(match r {
            0 => ValueBag::from(&**s),
            1 => ValueBag::from(keep(&**s)),
            2 => ValueBag::from(Some(&**s)),
            3 => ValueBag::from_str(s),
            4 => ValueBag::from_option(Some(&**s)),
            #[cfg(feature = "alloc")]
            5 => ValueBag::from(s),
            #[cfg(feature = "alloc")]
            6 => ValueBag::from(&self.cow),
            #[cfg(feature = "alloc")]
            7 => ValueBag::from(&self.bcow),
            8 => return ValueBag::try_capture::<str>(s),
            9 => return ValueBag::try_capture(st),
            #[cfg(feature = "alloc")]
            10 => return ValueBag::try_capture(s),
            11 => return ValueBag::try_capture(&self.some_stat),
            #[cfg(feature = "alloc")]
            12 => return ValueBag::try_capture(&self.some),
            #[cfg(feature = "alloc")]
            13 => ValueBag::capture_debug(s),
            #[cfg(feature = "alloc")]
            14 => ValueBag::capture_display(s),
            15 => ValueBag::capture_debug(st),
            16 => ValueBag::capture_display(st),
            #[cfg(feature = "alloc")]
            17 => ValueBag::capture_debug(&self.some),
            #[cfg(all(feature = "sval2", feature = "alloc"))]
            18 => ValueBag::capture_sval2(s),
            #[cfg(feature = "sval2")]
            19 => ValueBag::capture_sval2(st),
            #[cfg(feature = "serde1")]
            20 => ValueBag::capture_serde1(s),
            #[cfg(feature = "serde1")]
            21 => ValueBag::capture_serde1(st),
            #[cfg(feature = "serde1")]
            22 => ValueBag::capture_serde1(&self.some),
            23 => ValueBag::from_debug(s),
            24 => ValueBag::from_display(s),
            25 => ValueBag::from_dyn_debug(s),
            26 => ValueBag::from(s as &dyn Display),
            #[cfg(feature = "sval2")]
            27 => ValueBag::from_sval2(st),
            #[cfg(all(feature = "sval2", feature = "alloc"))]
            28 => ValueBag::from_sval2(s),
            #[cfg(all(feature = "sval2", feature = "alloc"))]
            29 => ValueBag::from_dyn_sval2(s),
            #[cfg(feature = "sval2")]
            30 => ValueBag::from_sval2(&self.some_stat),
            #[cfg(feature = "serde1")]
            31 => ValueBag::from_serde1(s),
            #[cfg(feature = "serde1")]
            32 => ValueBag::from_serde1(&self.some_stat),
            #[cfg(feature = "owned")]
            33 => ValueBag::capture_shared_debug(s.clone()),
            #[cfg(feature = "owned")]
            34 => ValueBag::capture_shared_display(s.clone()),
            #[cfg(all(feature = "owned", feature = "sval2"))]
            35 => ValueBag::capture_shared_sval2(s.clone()),
            #[cfg(all(feature = "owned", feature = "serde1"))]
            36 => ValueBag::capture_shared_serde1(s.clone()),
            37 | 38 | 39 | 40 => ValueBag::from_fill(&self.fill),
            #[cfg(feature = "sval2")]
            41 => ValueBag::from_fill(&self.fill),
            #[cfg(feature = "serde1")]
            42 => ValueBag::from_fill(&self.fill),
            _ => return None,
        })
    }

    fn content(&self, k: K) -> M {
        let fmt = |dbg, shared| C::Fmt {
            src: Src::Text(self.s.clone()),
            dbg,
            shared,
        };
        let tree = || Tree::Str(self.s.clone(), StrMode::Borrowed);
        let some = || Tree::Some(Box::new(tree()));
        let sval = |t, b, shared| C::Sval {
            t,
            b,
            shared,
            buffered: false,
        };
        let serde = |t, shared| C::Serde {
            t,
            shared,
            buffered: false,
        };
        match k {
            K::Nat => M::new(C::Str(self.s.clone(), Bor::Yes)),
            K::Dbg | K::DbgOpt => M::new(fmt(true, false)),
            K::Disp => M::new(fmt(false, false)),
            K::Sval => M::new(sval(tree(), Bor::Yes, false)),
            K::Serde => M::new(serde(tree(), false)),
            K::SvalOpt => M::new(sval(some(), Bor::Yes, false)),
            K::SerdeOpt => M::new(serde(some(), false)),
            K::ShDbg | K::ShDbgOpt => M::new(fmt(true, true)),
            K::ShDisp => M::new(fmt(false, true)),
            K::ShSval | K::ShSvalOpt => M::new(sval(tree(), Bor::No, true)),
            K::ShSerde | K::ShSerdeOpt => M::new(serde(tree(), true)),
            K::FillNat => M::filled(C::Str(self.s.clone(), Bor::Yes)),
            K::FillDbg => M::filled(fmt(true, false)),
            K::FillDisp => M::filled(fmt(false, false)),
            K::FillSval => M::filled(sval(tree(), Bor::No, false)),
            K::FillSerde => M::filled(serde(tree(), false)),
        }
    }
}

// ------------------------------------------------------------ everything

pub const ABSENT_ROUTES: &[&str] = &[
    "empty",
    "From<()>",
    "From<&()>",
    "from_option(None)",
    "From<Option<u8>>",
    "From<Option<&str>>",
    "try_capture(Option<i64>)",
    "try_capture(Option<&'static str>)",
    "capture_debug(Option<f64>)",
    "capture_sval2(Option<bool>)",
    "capture_serde1(Option<char>)",
    "capture_shared_debug(Option<u32>)",
    "From<Option<&dyn Debug>>",
    "From<Option<&[u8; 2]>>",
    "From<Option<&dyn Error>>",
    "fill_any(())",
    "From<Option<&dyn sval::Value>>",
    "try_capture(Option<u128>)",
    "capture_debug(Option<String>)",
    "From<Option<&Vec<String>>>",
];

pub const FMT_ROUTES: &[(&str, K)] = &[
    ("capture_debug", K::Dbg),
    ("capture_display", K::Disp),
    ("from_debug", K::Dbg),
    ("from_display", K::Disp),
    ("from_dyn_debug", K::Dbg),
    ("from_dyn_display", K::Disp),
    ("From<&dyn Debug>", K::Dbg),
    ("From<&dyn Display>", K::Disp),
    ("From<&&dyn Debug>", K::Dbg),
    ("From<&&dyn Display>", K::Disp),
    ("From<Option<&dyn Debug>>", K::Dbg),
    ("From<Option<&dyn Display>>", K::Disp),
    ("capture_shared_debug", K::ShDbg),
    ("capture_shared_display", K::ShDisp),
    ("fill_debug", K::FillDbg),
    ("fill_display", K::FillDisp),
    ("fill_debug(&dyn)", K::FillDbg),
    ("fill_display(&dyn)", K::FillDisp),
];

fn fmt_bag<'v, T: Debug + Display + Clone + Send + Sync + 'static>(
    v: &'v T,
    fill: &'v FillFmt<T>,
    r: usize,
) -> Option<ValueBag<'v>> {
    Some(match r {
        0 => ValueBag::capture_debug(v),
        1 => ValueBag::capture_display(v),
        2 => ValueBag::from_debug(v),
        3 => ValueBag::from_display(v),
        4 => ValueBag::from_dyn_debug(v),
        5 => ValueBag::from_dyn_display(v),
        6 => ValueBag::from(v as &dyn Debug),
        7 => ValueBag::from(v as &dyn Display),
        8 => ValueBag::from(keep(v as &dyn Debug)),
        9 => ValueBag::from(keep(v as &dyn Display)),
        10 => ValueBag::from(Some(v as &dyn Debug)),
        11 => ValueBag::from(Some(v as &dyn Display)),
        #[cfg(feature = "owned")]
        12 => ValueBag::capture_shared_debug(v.clone()),
        #[cfg(feature = "owned")]
        13 => ValueBag::capture_shared_display(v.clone()),
        14..=17 => ValueBag::from_fill(fill),
        _ => return None,
    })
}

#[derive(Clone)]
pub struct FillFmt<T>(T, usize);

impl<T: Debug + Display> Fill for FillFmt<T> {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        match self.1 {
            14 => slot.fill_debug(&self.0),
            15 => slot.fill_display(&self.0),
            16 => slot.fill_debug(&self.0 as &dyn Debug),
            _ => slot.fill_display(&self.0 as &dyn Display),
        }
    }
}

fn fmt_content(src: Src, k: K) -> M {
    let fmt = |dbg, shared| C::Fmt { src, dbg, shared };
    match k {
        K::Dbg => M::new(fmt(true, false)),
        K::Disp => M::new(fmt(false, false)),
        K::ShDbg => M::new(fmt(true, true)),
        K::ShDisp => M::new(fmt(false, true)),
        K::FillDbg => M::filled(fmt(true, false)),
        _ => M::filled(fmt(false, false)),
    }
}

/// Routes for errors, after the ones for formatting only
pub const ERR_ROUTES: &[&str] = &[
    "capture_error",
    "from_dyn_error",
    "From<&dyn Error>",
    "From<&&dyn Error>",
    "From<Option<&dyn Error>>",
    "capture_shared_error",
    "fill_error",
    "fill_dyn_error",
];

#[derive(Clone)]
pub struct FillErr(ErrVal, #[allow(dead_code)] usize);

impl Fill for FillErr {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        #[cfg(feature = "error")]
        return match self.1 {
            6 => slot.fill_error(self.0.clone()),
            _ => slot.fill_dyn_error(&self.0),
        };
        #[cfg(not(feature = "error"))]
        slot.fill_display(&self.0)
    }
}

/// Routes for trees, after the ones for formatting only
pub const TREE_ROUTES: &[(&str, K)] = &[
    ("from_sval2", K::Sval),
    ("capture_sval2", K::Sval),
    ("from_dyn_sval2", K::Sval),
    ("From<&dyn sval::Value>", K::Sval),
    ("From<&&dyn sval::Value>", K::Sval),
    ("From<Option<&dyn sval::Value>>", K::Sval),
    ("capture_shared_sval2", K::ShSval),
    ("fill_sval2", K::FillSval),
    ("from_serde1", K::Serde),
    ("capture_serde1", K::Serde),
    ("capture_shared_serde1", K::ShSerde),
    ("fill_serde1", K::FillSerde),
];

#[derive(Clone)]
pub struct FillTree(Tree, #[allow(dead_code)] usize);

impl Fill for FillTree {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        match self.1 {
            #[cfg(feature = "sval2")]
            7 => slot.fill_sval2(&self.0),
            #[cfg(feature = "serde1")]
            11 => slot.fill_serde1(&self.0),
            _ => slot.fill_debug(&self.0),
        }
    }
}

pub const STRSEQ_ROUTES: &[&str] = &[
    "From<&&[&str]>",
    "From<&[&str; N]>",
    "From<Option<&[&str; N]>>",
    "From<Option<&&[&str]>>",
    "From<&Vec<String>>",
    "From<Option<&Vec<String>>>",
    "from_seq_slice(Vec<&str>)",
    "from_seq_slice(Vec<String>)",
    "capture_shared_seq_slice(Vec<String>)",
    "capture_shared_seq_slice(Vec<&'static str>)",
    "fill_seq_slice(Vec<&str>)",
];

#[derive(Clone)]
pub struct StrSeq {
    pub strs: Vec<&'static str>,
    owned: Vec<String>,
    #[allow(dead_code)]
    fill: FillStrs,
}

#[derive(Clone)]
struct FillStrs(#[allow(dead_code)] Vec<&'static str>);

#[cfg(feature = "seq")]
impl Fill for FillStrs {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        // SAFETY: the slot isn't used after this call
        slot.fill_seq_slice(unsafe { extend_ref(&self.0) })
    }
}

impl StrSeq {
    /// Where the text of each element lives
    pub fn ranges(&self, r: usize) -> Vec<(usize, usize)> {
        match r {
            4 | 5 | 7 => self
                .owned
                .iter()
                .map(|s| (s.as_ptr() as usize, s.len()))
                .collect(),
            _ => self
                .strs
                .iter()
                .map(|s| (s.as_ptr() as usize, s.len()))
                .collect(),
        }
    }

    #[cfg(not(feature = "seq"))]
    fn bag(&self, _: usize) -> Option<ValueBag<'_>> {
        None
    }

    #[cfg(feature = "seq")]
    fn bag(&self, r: usize) -> Option<ValueBag<'_>> {
        let v = &self.strs;
        macro_rules! arr {
            ($wrap:expr) => {
                match v.len() {
                    0 => $wrap(<&[&'static str; 0]>::try_from(&v[..]).unwrap()),
                    1 => $wrap(<&[&'static str; 1]>::try_from(&v[..]).unwrap()),
                    2 => $wrap(<&[&'static str; 2]>::try_from(&v[..]).unwrap()),
                    3 => $wrap(<&[&'static str; 3]>::try_from(&v[..]).unwrap()),
                    4 => $wrap(<&[&'static str; 4]>::try_from(&v[..]).unwrap()),
                    5 => $wrap(<&[&'static str; 5]>::try_from(&v[..]).unwrap()),
                    _ => return None,
                }
            };
        }
        Some(match r {
            0 => ValueBag::from(keep(&v[..])),
            1 => arr!(|a| ValueBag::from(a)),
            2 => arr!(|a| ValueBag::from(Some(a))),
            3 => ValueBag::from(Some(keep(&v[..]))),
            #[cfg(feature = "alloc")]
            4 => ValueBag::from(&self.owned),
            #[cfg(feature = "alloc")]
            5 => ValueBag::from(Some(&self.owned)),
            6 => ValueBag::from_seq_slice(v),
            #[cfg(feature = "alloc")]
            7 => ValueBag::from_seq_slice(&self.owned),
            #[cfg(feature = "owned")]
            8 => ValueBag::capture_shared_seq_slice(self.owned.clone()),
            #[cfg(feature = "owned")]
            9 => ValueBag::capture_shared_seq_slice(v.clone()),
            10 => ValueBag::from_fill(&self.fill),
            _ => return None,
        })
    }
}

/// A value usable as an element of a sequence, or through any trait
#[derive(Clone)]
pub struct El(pub Held);

impl<'v> From<&'v El> for ValueBag<'v> {
    fn from(v: &'v El) -> ValueBag<'v> {
        tick();
        v.0.bag()
    }
}

impl Fill for El {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        // SAFETY: the slot isn't used after this call
        slot.fill_any(unsafe { extend(self.0.bag()) })
    }
}

impl Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Debug::fmt(&self.0.bag(), f)
    }
}

impl Display for El {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Display::fmt(&self.0.bag(), f)
    }
}

#[cfg(feature = "serde1")]
impl serde_core::Serialize for El {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.bag().serialize(s)
    }
}

#[cfg(feature = "sval2")]
impl sval::Value for El {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval_ref::stream_ref(s, self.0.bag())
    }
}

pub const ELS_ROUTES: &[&str] = &[
    "from_seq_slice(Vec<El>)",
    "from_seq_slice(Box<[El]>)",
    "fill_seq_slice(Vec<El>)",
    "capture_shared_seq_slice(Vec<El>)",
];

#[derive(Clone)]
pub struct FillEls(#[allow(dead_code)] Vec<El>);

#[cfg(feature = "seq")]
impl Fill for FillEls {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        // SAFETY: the slot isn't used after this call
        slot.fill_seq_slice(unsafe { extend_ref(&self.0) })
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Any,
    AnyClone,
    Debug,
    Display,
    Serde,
    Sval,
    /// Through a chain of two fillers
    Twice,
}

#[derive(Clone)]
pub struct Filler {
    pub inner: Box<El>,
    pub how: How,
}

impl Fill for Filler {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        // SAFETY: the slot isn't used after this call
        let bag = unsafe { extend(self.inner.0.bag()) };
        match self.how {
            How::Any => slot.fill_any(bag),
            How::AnyClone => slot.fill_any(bag.clone()),
            How::Twice => {
                // SAFETY: the slot isn't used after this call
                let bag = unsafe { extend(ValueBag::from_fill(&*self.inner)) };
                slot.fill_any(bag)
            }
            How::Debug => slot.fill_debug(&*self.inner),
            How::Display => slot.fill_display(&*self.inner),
            #[cfg(feature = "serde1")]
            How::Serde => slot.fill_serde1(&*self.inner),
            #[cfg(feature = "sval2")]
            How::Sval => slot.fill_sval2(&*self.inner),
            #[allow(unreachable_patterns)]
            _ => slot.fill_any(bag),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FailHow {
    Msg,
    Boxed,
    Fmt,
    /// Fills the slot and then reports a failure
    AfterFill,
}

#[derive(Clone)]
pub struct FailFill(pub FailHow);

impl Fill for FailFill {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        match self.0 {
            FailHow::Msg => Err(Error::msg("failed to fill")),
            #[cfg(feature = "std")]
            FailHow::Boxed => Err(Error::boxed("failed to fill")),
            FailHow::AfterFill => {
                slot.fill_any("partial")?;
                Err(Error::msg("failed to fill"))
            }
            _ => Err(std::fmt::Error.into()),
        }
    }
}

#[derive(Clone)]
pub enum Held {
    P(Prim, PrimSt, usize),
    S(Box<StrSt>, usize),
    Absent(usize),
    F(Frag, FillFmt<Frag>, usize),
    /// An error; routes past the error ones are the formatting ones
    E(ErrVal, FillErr, FillFmt<ErrVal>, usize),
    T(Tree, FillTree, FillFmt<Tree>, usize),
    Q(PrimSeq, usize, usize),
    QS(StrSeq, usize),
    QE(Vec<El>, Box<[El]>, FillEls, usize),
    Fill(Filler),
    Wrap(Box<El>, How),
    FailFill(FailFill),
}

static NONE_U128: Option<u128> = None;
static NONE_I64: Option<i64> = None;
static NONE_F64: Option<f64> = None;
static NONE_STR: Option<&'static str> = None;
#[cfg(feature = "alloc")]
static NONE_STRING: Option<String> = None;
#[cfg(feature = "sval2")]
static NONE_BOOL: Option<bool> = None;
#[cfg(feature = "serde1")]
static NONE_CHAR: Option<char> = None;

struct FillUnit;

impl Fill for FillUnit {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        slot.fill_any(())
    }
}

fn absent(r: usize) -> Option<ValueBag<'static>> {
    Some(match r {
        0 => ValueBag::empty(),
        1 => ValueBag::from(()),
        2 => ValueBag::from(&()),
        3 => ValueBag::from_option(None::<i32>),
        4 => ValueBag::from(None::<u8>),
        5 => ValueBag::from(None::<&'static str>),
        6 => return ValueBag::try_capture(&NONE_I64),
        7 => return ValueBag::try_capture(&NONE_STR),
        8 => ValueBag::capture_debug(&NONE_F64),
        #[cfg(feature = "sval2")]
        9 => ValueBag::capture_sval2(&NONE_BOOL),
        #[cfg(feature = "serde1")]
        10 => ValueBag::capture_serde1(&NONE_CHAR),
        #[cfg(feature = "owned")]
        11 => ValueBag::capture_shared_debug(None::<u32>),
        12 => ValueBag::from(None::<&'static dyn Debug>),
        #[cfg(feature = "seq")]
        13 => ValueBag::from(None::<&'static [u8; 2]>),
        #[cfg(feature = "error")]
        14 => ValueBag::from(None::<&'static (dyn std::error::Error + 'static)>),
        15 => ValueBag::from_fill(&FillUnit),
        #[cfg(feature = "sval2")]
        16 => ValueBag::from(None::<&'static dyn sval_dynamic::Value>),
        17 => return ValueBag::try_capture(&NONE_U128),
        #[cfg(feature = "alloc")]
        18 => ValueBag::capture_debug(&NONE_STRING),
        #[cfg(all(feature = "seq", feature = "alloc"))]
        19 => ValueBag::from(None::<&'static Vec<String>>),
        _ => return None,
    })
}

impl Held {
    /// The bag, if this way of capturing exists in this configuration
    pub fn try_bag(&self) -> Option<ValueBag<'_>> {
        match self {
            Held::P(_, st, r) => st.bag(*r),
            Held::S(st, r) => st.bag(*r),
            Held::Absent(r) => absent(*r),
            Held::F(v, fill, r) => fmt_bag(v, fill, *r),
            Held::E(v, fe, ff, r) => {
                let _ = fe;
                if *r >= ERR_ROUTES.len() {
                    return fmt_bag(v, ff, *r - ERR_ROUTES.len());
                }
                #[cfg(feature = "error")]
                {
                    let d = v as &(dyn std::error::Error + 'static);
                    Some(match *r {
                        0 => ValueBag::capture_error(v),
                        1 => ValueBag::from_dyn_error(d),
                        2 => ValueBag::from(d),
                        3 => ValueBag::from(keep(d)),
                        4 => ValueBag::from(Some(d)),
                        #[cfg(feature = "owned")]
                        5 => ValueBag::capture_shared_error(v.clone()),
                        6 | 7 => ValueBag::from_fill(fe),
                        _ => return None,
                    })
                }
                #[cfg(not(feature = "error"))]
                None
            }
            Held::T(v, ft, ff, r) => {
                let _ = ft;
                if *r >= TREE_ROUTES.len() {
                    return fmt_bag(v, ff, *r - TREE_ROUTES.len());
                }
                Some(match *r {
                    #[cfg(feature = "sval2")]
                    0 => ValueBag::from_sval2(v),
                    #[cfg(feature = "sval2")]
                    1 => ValueBag::capture_sval2(v),
                    #[cfg(feature = "sval2")]
                    2 => ValueBag::from_dyn_sval2(v),
                    #[cfg(feature = "sval2")]
                    3 => ValueBag::from(v as &dyn sval_dynamic::Value),
                    #[cfg(feature = "sval2")]
                    4 => ValueBag::from(keep(v as &dyn sval_dynamic::Value)),
                    #[cfg(feature = "sval2")]
                    5 => ValueBag::from(Some(v as &dyn sval_dynamic::Value)),
                    #[cfg(all(feature = "sval2", feature = "owned"))]
                    6 => ValueBag::capture_shared_sval2(v.clone()),
                    #[cfg(feature = "sval2")]
                    7 => ValueBag::from_fill(ft),
                    #[cfg(feature = "serde1")]
                    8 => ValueBag::from_serde1(v),
                    #[cfg(feature = "serde1")]
                    9 => ValueBag::capture_serde1(v),
                    #[cfg(all(feature = "serde1", feature = "owned"))]
                    10 => ValueBag::capture_shared_serde1(v.clone()),
                    #[cfg(feature = "serde1")]
                    11 => ValueBag::from_fill(ft),
                    _ => return None,
                })
            }
            Held::Q(q, _, r) => q.bag(*r),
            Held::QS(q, r) => q.bag(*r),
            #[cfg(feature = "seq")]
            Held::QE(v, b, f, r) => {
                if v.iter().any(|e| e.0.try_bag().is_none()) {
                    return None;
                }
                Some(match r {
                    0 => ValueBag::from_seq_slice(v),
                    1 => ValueBag::from_seq_slice(b),
                    2 => ValueBag::from_fill(f),
                    #[cfg(feature = "owned")]
                    3 => ValueBag::capture_shared_seq_slice(v.clone()),
                    _ => return None,
                })
            }
            #[cfg(not(feature = "seq"))]
            Held::QE(..) => None,
            Held::Fill(f) => {
                f.inner.0.try_bag()?;
                match f.how {
                    How::Serde if !SERDE => None,
                    How::Sval if !SVAL => None,
                    _ => Some(ValueBag::from_fill(f)),
                }
            }
            Held::Wrap(el, how) => {
                el.0.try_bag()?;
                Some(match how {
                    How::Debug => ValueBag::from_debug(&**el),
                    How::Display => ValueBag::from_display(&**el),
                    #[cfg(feature = "serde1")]
                    How::Serde => ValueBag::from_serde1(&**el),
                    #[cfg(feature = "sval2")]
                    How::Sval => ValueBag::from_sval2(&**el),
                    _ => return None,
                })
            }
            Held::FailFill(f) => Some(ValueBag::from_fill(f)),
        }
    }

    pub fn bag(&self) -> ValueBag<'_> {
        self.try_bag().expect("route")
    }

    pub fn content(&self) -> M {
        match self {
            Held::P(p, _, r) => prim_content(*p, PRIM_ROUTES[*r].1),
            Held::S(st, r) => st.content(STR_ROUTES[*r].1),
            Held::Absent(15) => M::filled(C::Empty),
            Held::Absent(_) => M::new(C::Empty),
            Held::F(v, _, r) => fmt_content(Src::Frag(v.clone()), FMT_ROUTES[*r].1),
            Held::E(v, _, _, r) => {
                if *r >= ERR_ROUTES.len() {
                    return fmt_content(Src::Err(v.clone()), FMT_ROUTES[*r - ERR_ROUTES.len()].1);
                }
                let c = C::Err {
                    e: v.clone(),
                    shared: *r == 5,
                    buffered: false,
                    // a shared error is only lent by a reference to the bag
                    lend: if *r == 5 { Bor::Maybe } else { Bor::Yes },
                };
                if *r >= 6 {
                    M::filled(c)
                } else {
                    M::new(c)
                }
            }
            Held::T(v, _, _, r) => {
                if *r >= TREE_ROUTES.len() {
                    return fmt_content(Src::Tree(v.clone()), FMT_ROUTES[*r - TREE_ROUTES.len()].1);
                }
                let t = v.clone();
                let buffered = false;
                match TREE_ROUTES[*r].1 {
                    K::Sval => M::new(C::Sval { t, b: Bor::Yes, shared: false, buffered }),
                    K::ShSval => M::new(C::Sval { t, b: Bor::No, shared: true, buffered }),
                    K::FillSval => M::filled(C::Sval { t, b: Bor::No, shared: false, buffered }),
                    K::Serde => M::new(C::Serde { t, shared: false, buffered }),
                    K::ShSerde => M::new(C::Serde { t, shared: true, buffered }),
                    _ => M::filled(C::Serde { t, shared: false, buffered }),
                }
            }
            Held::Q(q, _, r) => {
                let c = C::Seq {
                    items: q.prims().into_iter().map(prim_c).collect(),
                    b: if *r >= 9 { Bor::No } else { Bor::Yes },
                    shared: *r >= 10,
                    buffered: false,
                };
                if *r == 9 {
                    M::filled(c)
                } else {
                    M::new(c)
                }
            }
            Held::QS(q, r) => {
                let c = C::Seq {
                    items: q.strs.iter().map(|s| C::Str(s.to_string(), Bor::Yes)).collect(),
                    b: if *r >= 8 { Bor::No } else { Bor::Yes },
                    shared: *r == 8 || *r == 9,
                    buffered: false,
                };
                if *r == 10 {
                    M::filled(c)
                } else {
                    M::new(c)
                }
            }
            Held::QE(v, _, _, r) => {
                let c = C::Seq {
                    items: v.iter().map(|e| e.0.content().c).collect(),
                    b: if *r >= 2 { Bor::No } else { Bor::Yes },
                    shared: *r == 3,
                    buffered: false,
                };
                if *r == 2 {
                    M::filled(c)
                } else {
                    M::new(c)
                }
            }
            Held::Fill(f) => M::filled(wrap_content(f.inner.0.content().c, f.how, true)),
            Held::Wrap(el, how) => M::new(wrap_content(el.0.content().c, *how, false)),
            Held::FailFill(f) => M::filled(C::FailFill(f.0 == FailHow::AfterFill)),
        }
    }

    /// The route was chosen without regard to this configuration: take one that exists
    pub fn available(mut self) -> Held {
        match self {
            Held::QE(ref mut v, ref mut b, ref mut f, _) => {
                if v.iter().any(|e| e.0.try_bag().is_none()) {
                    for e in v.iter_mut() {
                        let h = std::mem::replace(&mut e.0, Held::Absent(0));
                        e.0 = h.available();
                    }
                    *b = v.clone().into_boxed_slice();
                    *f = FillEls(v.clone());
                }
            }
            Held::Fill(ref mut f) => {
                if f.inner.0.try_bag().is_none() {
                    let h = std::mem::replace(&mut f.inner.0, Held::Absent(0));
                    f.inner.0 = h.available();
                }
            }
            Held::Wrap(ref mut e, _) => {
                if e.0.try_bag().is_none() {
                    let h = std::mem::replace(&mut e.0, Held::Absent(0));
                    e.0 = h.available();
                }
            }
            _ => (),
        }
        if self.try_bag().is_some() {
            return self;
        }
        match self {
            Held::P(p, ..) => Held::P(p, PrimSt::new(p, 1), 1),
            Held::S(s, _) => Held::S(Box::new(StrSt::new(s.s.clone(), 0)), 0),
            Held::Absent(_) => Held::Absent(0),
            Held::F(f, x, _) => Held::F(f, x, 2),
            Held::E(e, x, y, _) => Held::E(e, x, y, ERR_ROUTES.len() + 3),
            Held::T(t, x, y, r) => {
                // the other framework if there's one, or else only formatting
                let order: &[usize] = if r < 8 { &[8, 0] } else { &[0, 8] };
                for r in order {
                    let h = Held::T(t.clone(), x.clone(), y.clone(), *r);
                    if h.try_bag().is_some() {
                        return h;
                    }
                }
                Held::T(t, x, y, TREE_ROUTES.len() + 2)
            }
            Held::Q(ref q, k, _) if SEQ => Held::Q(q.clone(), k, 6),
            Held::Q(..) => Held::Absent(0),
            Held::QS(ref q, _) if SEQ => Held::QS(q.clone(), 6),
            Held::QS(..) => Held::Absent(0),
            Held::QE(v, b, f, _) if SEQ => Held::QE(v, b, f, 0),
            Held::QE(..) => Held::Absent(0),
            Held::Fill(f) => Held::Fill(Filler {
                inner: f.inner,
                how: How::Any,
            }),
            Held::Wrap(e, _) => Held::Wrap(e, How::Debug),
            h => h,
        }
    }

    pub fn route(&self) -> String {
        let f = |r: usize| format!("fmt:{}", FMT_ROUTES[r].0);
        match self {
            Held::P(_, _, r) => format!("prim:{}", PRIM_ROUTES[*r].0),
            Held::S(_, r) => format!("str:{}", STR_ROUTES[*r].0),
            Held::Absent(r) => format!("absent:{}", ABSENT_ROUTES[*r]),
            Held::F(_, _, r) => f(*r),
            Held::E(_, _, _, r) => {
                if *r >= ERR_ROUTES.len() {
                    f(*r - ERR_ROUTES.len())
                } else {
                    format!("err:{}", ERR_ROUTES[*r])
                }
            }
            Held::T(_, _, _, r) => {
                if *r >= TREE_ROUTES.len() {
                    f(*r - TREE_ROUTES.len())
                } else {
                    format!("tree:{}", TREE_ROUTES[*r].0)
                }
            }
            Held::Q(_, _, r) => format!("seq:{}", SEQ_ROUTES[*r]),
            Held::QS(_, r) => format!("strseq:{}", STRSEQ_ROUTES[*r]),
            Held::QE(_, _, _, r) => format!("elseq:{}", ELS_ROUTES[*r]),
            Held::Fill(f) => format!("filler:{:?}", f.how),
            Held::Wrap(_, h) => format!("wrap:{:?}", h),
            Held::FailFill(f) => format!("failing filler:{:?}", f.0),
        }
    }

    pub fn desc(&self) -> String {
        let v = match self {
            Held::P(p, ..) => format!("{:?}", p),
            Held::S(s, _) => format!("{:?}", s.s),
            Held::Absent(_) => "-".into(),
            Held::F(f, ..) => format!("{:?}", f.0),
            Held::E(e, ..) => e.desc(),
            Held::T(t, ..) => format!("{:?}", t),
            Held::Q(q, ..) => format!("{:?}", q.prims()),
            Held::QS(q, _) => format!("{:?}", q.strs),
            Held::QE(v, ..) => format!(
                "[{}]",
                v.iter().map(|e| e.0.desc()).collect::<Vec<_>>().join(", ")
            ),
            Held::Fill(f) => f.inner.0.desc(),
            Held::Wrap(e, _) => e.0.desc(),
            Held::FailFill(_) => "-".into(),
        };
        format!("{} of {}", self.route(), v)
    }

    /// Whether any value along the way is made to fail
    pub fn fails(&self) -> bool {
        match self {
            Held::F(f, ..) => f.fails(),
            Held::E(e, ..) => e.fails(),
            Held::T(t, ..) => t.fails(),
            Held::QE(v, ..) => v.iter().any(|e| e.0.fails()),
            Held::Fill(f) => f.inner.0.fails(),
            Held::Wrap(e, _) => e.0.fails(),
            Held::FailFill(_) => true,
            _ => false,
        }
    }
}

/// The content of a wrapper around content, by how it's looked at
pub fn wrap_content(c: C, how: How, filled: bool) -> C {
    // the widths of numbers and lengths of sequences aren't kept by buffering, and
    // nothing says whether a bag's own sequences come with their lengths
    let buffered = c.is_buffered() || matches!(c, C::Seq { .. });
    match how {
        How::Any | How::AnyClone | How::Twice => c,
        How::Debug | How::Display => C::Fmt {
            src: Src::Model(Box::new(c)),
            dbg: how == How::Debug,
            shared: false,
        },
        How::Serde => C::Serde {
            t: c.to_tree(false).expect("checked by the generator"),
            shared: false,
            buffered,
        },
        How::Sval => {
            let b = if filled {
                Bor::No
            } else {
                match c {
                    C::Str(_, b) => b,
                    C::Sval { b, .. } => b,
                    _ => Bor::Maybe,
                }
            };
            C::Sval {
                t: c.to_tree(true).expect("checked by the generator"),
                b,
                shared: false,
                buffered,
            }
        }
    }
}

// ------------------------------------------------------------ generation

#[derive(Clone, Copy)]
pub struct Gen {
    /// Weights of: primitive, string, absent, formatting, error, tree, primitive
    /// sequence, string sequence, mixed sequence, filler, wrapper, failing filler
    pub w: [usize; 12],
    /// Include values that fail part way
    pub fail: bool,
    pub depth: usize,
    pub tree: TreeOpts,
    pub numeric: bool,
    pub tree_depth: usize,
}

pub const ALL: Gen = Gen {
    w: [6, 5, 2, 4, 3, 6, 3, 2, 3, 3, 2, 0],
    fail: false,
    depth: 2,
    tree: TreeOpts {
        fail: false,
        named: true,
        bytes: true,
    },
    numeric: false,
    tree_depth: 3,
};

pub const NUMERIC: Gen = Gen {
    w: [30, 1, 1, 1, 1, 6, 0, 0, 1, 4, 3, 0],
    numeric: true,
    tree_depth: 1,
    ..ALL
};

pub fn gen_prim_held(t: &mut Tape, p: Prim) -> Held {
    let r = t.below(PRIM_ROUTES.len());
    Held::P(p, PrimSt::new(p, r), r)
}

pub fn prim_held(p: Prim, r: usize) -> Held {
    Held::P(p, PrimSt::new(p, r), r)
}

pub fn str_held(s: String, r: usize) -> Held {
    Held::S(Box::new(StrSt::new(s, r)), r)
}

pub fn gen_str_held(t: &mut Tape) -> Held {
    let r = t.below(STR_ROUTES.len());
    let s = gen_text(t);
    Held::S(Box::new(StrSt::new(s, r)), r)
}

pub fn frag_held(f: Frag, r: usize) -> Held {
    Held::F(f.clone(), FillFmt(f, r), r)
}

pub fn err_held(e: ErrVal, r: usize) -> Held {
    Held::E(
        e.clone(),
        FillErr(e.clone(), r),
        FillFmt(e, r.wrapping_sub(ERR_ROUTES.len())),
        r,
    )
}

pub fn tree_held(v: Tree, r: usize) -> Held {
    Held::T(
        v.clone(),
        FillTree(v.clone(), r),
        FillFmt(v, r.wrapping_sub(TREE_ROUTES.len())),
        r,
    )
}

pub fn gen_prim_seq(t: &mut Tape) -> Held {
    let n = t.count(7);
    prim_seq(t, n)
}

pub fn prim_seq(t: &mut Tape, n: usize) -> Held {
    let k = t.below(PRIM_KINDS);
    let ps: Vec<Prim> = (0..n).map(|_| gen_prim_of(t, k)).collect();
    let r = t.below(SEQ_ROUTES.len());
    Held::Q(PrimSeq::new(k, &ps), k, r)
}

pub fn gen_str_seq(t: &mut Tape) -> Held {
    let n = t.count(6);
    str_seq(t, n)
}

pub fn str_seq(t: &mut Tape, n: usize) -> Held {
    let strs: Vec<&'static str> = (0..n).map(|_| leak_str(&gen_short(t))).collect();
    let r = t.below(STRSEQ_ROUTES.len());
    Held::QS(
        StrSeq {
            owned: strs.iter().map(|s| s.to_string()).collect(),
            fill: FillStrs(strs.clone()),
            strs,
        },
        r,
    )
}

pub fn els_held(v: Vec<El>, r: usize) -> Held {
    Held::QE(v.clone(), v.clone().into_boxed_slice(), FillEls(v), r)
}

pub fn gen_held(t: &mut Tape, g: &Gen) -> Held {
    gen_raw(t, g).available()
}

/// Generate without regard to what this configuration has
pub fn gen_raw(t: &mut Tape, g: &Gen) -> Held {
    let mut w = g.w;
    if g.depth == 0 {
        w[8] = 0;
        w[9] = 0;
        w[10] = 0;
    }
    let deeper = Gen {
        depth: g.depth.saturating_sub(1),
        ..*g
    };
    match t.weighted(&w) {
        0 => {
            let p = if g.numeric && t.below(8) != 7 {
                gen_num_prim(t)
            } else {
                gen_prim(t)
            };
            gen_prim_held(t, p)
        }
        1 => gen_str_held(t),
        2 => Held::Absent(t.below(ABSENT_ROUTES.len())),
        3 => {
            let r = t.below(FMT_ROUTES.len());
            frag_held(gen_frag(t, g.fail), r)
        }
        4 => {
            let n = ERR_ROUTES.len();
            let r = if t.chance(1, 5) {
                n + t.below(FMT_ROUTES.len())
            } else {
                t.below(n)
            };
            err_held(gen_err(t, g.fail), r)
        }
        5 => {
            let n = TREE_ROUTES.len();
            let r = if t.chance(1, 12) {
                n + t.below(FMT_ROUTES.len())
            } else {
                t.below(n)
            };
            let o = TreeOpts {
                fail: g.fail && t.chance(1, 3),
                ..g.tree
            };
            let d = t.below(g.tree_depth + 1);
            tree_held(gen_tree(t, d, o), r)
        }
        6 => gen_prim_seq(t),
        7 => gen_str_seq(t),
        8 => {
            let n = if deeper.depth == 0 { t.count(5) } else { t.below(5) };
            let v: Vec<El> = (0..n).map(|_| El(gen_raw(t, &deeper))).collect();
            let r = t.below(ELS_ROUTES.len());
            els_held(v, r)
        }
        9 => {
            let inner = gen_raw(t, &deeper);
            let how = *t.pick(&[
                How::Any,
                How::AnyClone,
                How::Twice,
                How::Debug,
                How::Display,
                How::Serde,
                How::Sval,
            ]);
            let how = fix_how(&inner, how, How::Any);
            Held::Fill(Filler {
                inner: Box::new(El(inner)),
                how,
            })
        }
        10 => {
            let inner = gen_raw(t, &deeper);
            let how = *t.pick(&[How::Debug, How::Display, How::Serde, How::Sval]);
            let how = fix_how(&inner, how, How::Debug);
            Held::Wrap(Box::new(El(inner)), how)
        }
        _ => Held::FailFill(FailFill(*t.pick(&[
            FailHow::Msg,
            FailHow::Boxed,
            FailHow::Fmt,
            FailHow::AfterFill,
        ]))),
    }
}

/// A framework can only be used where the model can say what it shows
fn fix_how(inner: &Held, how: How, other: How) -> How {
    // an unavailable route may be replaced by any other one for the same value
    let ok = |sval: bool| {
        inner.content().c.to_tree(sval).is_some()
            && (inner.try_bag().is_some() || inner.clone().available().content().c.to_tree(sval).is_some())
    };
    match how {
        How::Serde if !ok(false) => other,
        How::Sval if !ok(true) => other,
        h => h,
    }
}

pub fn prim_of(h: &Held) -> Option<Prim> {
    match h {
        Held::P(p, ..) => Some(*p),
        _ => None,
    }
}

impl Held {
    /// Captured along with code of its own
    pub fn code(&self) -> bool {
        !matches!(self, Held::P(..) | Held::S(..) | Held::Absent(_) | Held::Q(..) | Held::QS(..))
    }
}
