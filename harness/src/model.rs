//! What a bag is supposed to contain, worked out without looking at the bag.

use crate::data::*;
use crate::tree::*;
use std::fmt;

pub const ALLOC: bool = cfg!(feature = "alloc");
pub const SERDE: bool = cfg!(feature = "serde1");
pub const SVAL: bool = cfg!(feature = "sval2");
pub const OWNED: bool = cfg!(feature = "owned");
pub const SEQ: bool = cfg!(feature = "seq");
pub const ERROR: bool = cfg!(feature = "error");
pub const TEST: bool = cfg!(feature = "test");
pub const INLINE128: bool = cfg!(feature = "inline-i128");

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bor {
    Yes,
    No,
    Maybe,
}

/// Something captured only for how it formats
#[derive(Clone)]
pub enum Src {
    Prim(Prim),
    Text(String),
    Frag(Frag),
    Err(ErrVal),
    Tree(Tree),
    Model(Box<C>),
    /// `Some(..)`, which has `Debug` only
    Opt(Box<Src>),
}

impl fmt::Debug for Src {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Src::Prim(p) => fmt::Debug::fmt(&Raw(*p), f),
            Src::Text(p) => fmt::Debug::fmt(p, f),
            Src::Frag(p) => fmt::Debug::fmt(p, f),
            Src::Err(p) => fmt::Debug::fmt(p, f),
            Src::Tree(p) => fmt::Debug::fmt(p, f),
            Src::Model(p) => fmt::Debug::fmt(p, f),
            Src::Opt(p) => f.debug_tuple("Some").field(p).finish(),
        }
    }
}

impl fmt::Display for Src {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Src::Prim(p) => fmt::Display::fmt(&Raw(*p), f),
            Src::Text(p) => fmt::Display::fmt(p, f),
            Src::Frag(p) => fmt::Display::fmt(p, f),
            Src::Err(p) => fmt::Display::fmt(p, f),
            Src::Tree(p) => fmt::Display::fmt(p, f),
            Src::Model(p) => fmt::Display::fmt(p, f),
            Src::Opt(_) => Err(fmt::Error),
        }
    }
}

/// The content of a bag
#[derive(Clone)]
pub enum C {
    Empty,
    U64(u64),
    I64(i64),
    U128(u128),
    I128(i128),
    /// An integer whose width isn't specified, but which is unsigned (or not)
    Int(Num, bool),
    F64(f64),
    Bool(bool),
    Char(char),
    Str(String, Bor),
    Fmt {
        src: Src,
        dbg: bool,
        shared: bool,
    },
    /// Formatted text kept in a buffer; otherwise whether it certainly failed to format
    Text(Result<String, bool>),
    Err {
        e: ErrVal,
        shared: bool,
        buffered: bool,
        lend: Bor,
    },
    Sval {
        t: Tree,
        b: Bor,
        shared: bool,
        buffered: bool,
    },
    Serde {
        t: Tree,
        shared: bool,
        buffered: bool,
    },
    Seq {
        items: Vec<C>,
        b: Bor,
        shared: bool,
        buffered: bool,
    },
    /// A filler that fails, perhaps after it has filled the slot
    FailFill(bool),
    Poisoned,
}

pub struct AsDisp<'a>(pub &'a Src, pub bool);

impl<'a> fmt::Display for AsDisp<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.1 {
            fmt::Debug::fmt(self.0, f)
        } else {
            fmt::Display::fmt(self.0, f)
        }
    }
}

impl<'a> fmt::Debug for AsDisp<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

impl C {
    fn put(&self, f: &mut fmt::Formatter, dbg: bool) -> fmt::Result {
        macro_rules! both {
            ($v:expr) => {
                if dbg {
                    fmt::Debug::fmt($v, f)
                } else {
                    fmt::Display::fmt($v, f)
                }
            };
        }
        match self {
            C::Empty => f.write_str("None"),
            C::U64(v) => both!(v),
            C::I64(v) => both!(v),
            C::U128(v) => both!(v),
            C::I128(v) => both!(v),
            C::Int(v, _) => both!(&Src::Text(v.to_string())).and_then(|_| {
                // only ever used for plain formatting, where the two are the same
                Ok(())
            }),
            C::F64(v) => both!(v),
            C::Bool(v) => both!(v),
            C::Char(v) => both!(v),
            C::Str(v, _) => both!(v),
            C::Fmt { src, dbg, .. } => fmt::Display::fmt(&AsDisp(src, *dbg), f),
            C::Text(t) => f.write_str(t.as_deref().unwrap_or("?")),
            C::Err { e, .. } => both!(e),
            C::Sval { t, .. } => sval_fmt::stream_to_fmt(f, t),
            C::Serde { t, .. } => {
                if dbg {
                    fmt::Debug::fmt(&serde_fmt::to_debug(t), f)
                } else {
                    fmt::Display::fmt(&serde_fmt::to_debug(t), f)
                }
            }
            C::Seq { items, .. } => f.debug_list().entries(items.iter()).finish(),
            C::FailFill(_) => Err(fmt::Error),
            C::Poisoned => f.write_str("<poisoned>"),
        }
    }

    /// What formatting prints can't be said
    pub fn fmt_unknown(&self, dbg: bool) -> bool {
        match self {
            C::Text(Err(_)) | C::Poisoned => true,
            C::Err { buffered: true, e, .. } => dbg || e.fails(),
            C::Seq { items, .. } => items.iter().any(|i| i.fmt_unknown(true)),
            C::Fmt { src: Src::Model(m), dbg, .. } => m.fmt_unknown(*dbg),
            _ => false,
        }
    }

    /// Whether only plain formatting is specified
    pub fn fmt_plain_only(&self) -> bool {
        match self {
            // padding of an absent value isn't specified
            C::Empty | C::Text(_) | C::Int(..) | C::Poisoned => true,
            C::Err { buffered, .. } | C::Sval { buffered, .. } | C::Serde { buffered, .. } => *buffered,
            C::Seq { items, buffered, .. } => *buffered || items.iter().any(|i| i.fmt_plain_only()),
            C::Fmt { src: Src::Model(m), .. } => m.fmt_plain_only(),
            _ => false,
        }
    }
}

impl fmt::Debug for C {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            // integers don't get quotes
            C::Int(v, _) => f.write_str(&v.to_string()),
            _ => self.put(f, true),
        }
    }
}

impl fmt::Display for C {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            C::Int(v, _) => f.write_str(&v.to_string()),
            _ => self.put(f, false),
        }
    }
}

impl serde_core::Serialize for C {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde_core::ser::{Error, SerializeSeq};
        match self {
            C::Empty => s.serialize_none(),
            C::U64(v) => s.serialize_u64(*v),
            C::I64(v) => s.serialize_i64(*v),
            C::U128(v) => s.serialize_u128(*v),
            C::I128(v) => s.serialize_i128(*v),
            C::Int(v, _) => match v.to_i(i128::MAX as u128) {
                Some(i) => s.serialize_i128(i),
                None => s.serialize_u128(v.mag),
            },
            C::F64(v) => s.serialize_f64(*v),
            C::Bool(v) => s.serialize_bool(*v),
            C::Char(v) => s.serialize_char(*v),
            C::Str(v, _) => s.serialize_str(v),
            C::Fmt { src, dbg, .. } => s.collect_str(&AsDisp(src, *dbg)),
            C::Text(t) => s.serialize_str(t.as_deref().unwrap_or("?")),
            C::Err { e, .. } => s.collect_str(e),
            C::Sval { t, .. } => sval_serde::serialize(s, t),
            C::Serde { t, .. } => t.serialize(s),
            C::Seq { items, .. } => {
                let mut q = s.serialize_seq(None)?;
                for i in items {
                    q.serialize_element(i)?;
                }
                q.end()
            }
            C::FailFill(_) | C::Poisoned => Err(S::Error::custom("failed")),
        }
    }
}

impl sval::Value for C {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self {
            C::Empty => s.null(),
            C::U64(v) => s.u64(*v),
            C::I64(v) => s.i64(*v),
            C::U128(v) => s.u128(*v),
            C::I128(v) => s.i128(*v),
            C::Int(v, _) => match v.to_i(i128::MAX as u128) {
                Some(i) => s.i128(i),
                None => s.u128(v.mag),
            },
            C::F64(v) => s.f64(*v),
            C::Bool(v) => s.bool(*v),
            C::Char(v) => s.value(v),
            C::Str(v, _) => s.value(&**v),
            C::Fmt { src, dbg, .. } => sval_fmt::stream_display(s, AsDisp(src, *dbg)),
            C::Text(t) => s.value_computed(t.as_deref().unwrap_or("?")),
            C::Err { e, .. } => sval_fmt::stream_display(s, e),
            C::Sval { t, .. } => s.value(t),
            C::Serde { t, .. } => sval_serde::stream(s, t),
            C::Seq { items, .. } => {
                s.seq_begin(None)?;
                for i in items {
                    s.seq_value_begin()?;
                    s.value(i)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            C::FailFill(_) | C::Poisoned => Err(sval::Error::new()),
        }
    }
}

/// Text that's given to a framework as something to format
const FORMATTED: StrMode = StrMode::ComputedPieces(1 << 30);

/// What a scalar reader sees
#[derive(Clone, Debug)]
pub enum Sc {
    Empty,
    /// The number, whether it's unsigned, and the name of its width if that's known
    Int(Num, bool, Option<&'static str>),
    F(f64),
    Bool(bool),
    Char(char),
    Str(String, Bor),
    /// Not a scalar
    Opaque,
    /// Reading it fails
    Fail,
    /// Not specified
    Unknown,
}

pub fn prim_c(p: Prim) -> C {
    match p {
        Prim::U8(v) => C::U64(v as u64),
        Prim::U16(v) => C::U64(v as u64),
        Prim::U32(v) => C::U64(v as u64),
        Prim::U64(v) => C::U64(v),
        Prim::Usize(v) => C::U64(v as u64),
        Prim::U128(v) => C::U128(v),
        Prim::I8(v) => C::I64(v as i64),
        Prim::I16(v) => C::I64(v as i64),
        Prim::I32(v) => C::I64(v as i64),
        Prim::I64(v) => C::I64(v),
        Prim::Isize(v) => C::I64(v as i64),
        Prim::I128(v) => C::I128(v),
        Prim::F32(v) => C::F64(v as f64),
        Prim::F64(v) => C::F64(v),
        Prim::Bool(v) => C::Bool(v),
        Prim::Char(v) => C::Char(v),
    }
}

/// Some text can only be held by a buffer that needs an allocator that isn't there
pub fn needs_alloc(t: &Tree, b: Bor) -> bool {
    !ALLOC
        && t.any(&|t| match t {
            Tree::Str(_, StrMode::Borrowed) => b != Bor::Yes,
            Tree::Str(..) | Tree::P(Prim::Char(_)) | Tree::UnitStruct(_) | Tree::UnitVar(..) => true,
            _ => false,
        })
}

pub fn tree_scalar(t: &Tree, sval: bool, b: Bor, exact_width: bool) -> Sc {
    match t {
        Tree::Null | Tree::Unit | Tree::OptNone => Sc::Empty,
        Tree::Some(t) => tree_scalar(t, sval, b, exact_width),
        Tree::P(Prim::Char(c)) if sval => {
            Sc::Str(c.to_string(), if b == Bor::Maybe { Bor::Maybe } else { Bor::No })
        }
        Tree::P(p) => match prim_c(*p).scalar() {
            Sc::Int(n, u, w) => Sc::Int(n, u, if exact_width { w } else { None }),
            s => s,
        },
        Tree::Str(s, m) => {
            let b = if !sval {
                Bor::No
            } else if b == Bor::Maybe || s.is_empty() {
                Bor::Maybe
            } else {
                match m {
                    StrMode::Borrowed => b,
                    StrMode::Pieces(n) if s.len() <= *n => b,
                    // a piece never ends inside a character, so it may be longer
                    StrMode::Pieces(n) if s.chars().count() == 1 => {
                        let _ = n;
                        b
                    }
                    // a single piece after rounding up to a whole character
                    StrMode::Pieces(n) if s.len() < *n + 4 && b == Bor::Yes => Bor::Maybe,
                    _ => Bor::No,
                }
            };
            Sc::Str(s.clone(), b)
        }
        Tree::Fail => Sc::Fail,
        Tree::Bytes(_) | Tree::Seq(..) | Tree::Tuple(_) | Tree::Map(..) | Tree::Struct(..) => Sc::Opaque,
        Tree::TupleStruct(..) | Tree::TupVar(..) | Tree::StructVar(..) => Sc::Opaque,
        // `sval` looks through tags, `serde` doesn't; neither is promised
        Tree::UnitStruct(_) | Tree::Newtype(..) | Tree::UnitVar(..) | Tree::NewVar(..) => {
            if sval {
                Sc::Unknown
            } else {
                Sc::Opaque
            }
        }
    }
}

impl C {
    pub fn scalar(&self) -> Sc {
        match self {
            C::Empty => Sc::Empty,
            C::U64(v) => Sc::Int(Num::u(*v as u128), true, Some("u64")),
            C::I64(v) => Sc::Int(Num::i(*v as i128), false, Some("i64")),
            C::U128(v) => Sc::Int(Num::u(*v), true, Some("u128")),
            C::I128(v) => Sc::Int(Num::i(*v), false, Some("i128")),
            C::Int(n, u) => Sc::Int(*n, *u, None),
            C::F64(v) => Sc::F(*v),
            C::Bool(v) => Sc::Bool(*v),
            C::Char(v) => Sc::Char(*v),
            C::Str(s, b) => Sc::Str(s.clone(), *b),
            C::Fmt { .. } | C::Text(_) | C::Err { .. } | C::Seq { .. } => Sc::Opaque,
            C::Sval { t, b, buffered, .. } => tree_scalar(t, true, *b, !*buffered),
            C::Serde { t, buffered, .. } => tree_scalar(t, false, Bor::No, !*buffered),
            C::FailFill(false) => Sc::Fail,
            C::FailFill(true) => Sc::Unknown,
            C::Poisoned => Sc::Fail,
        }
    }

    /// The elements, if this is a sequence
    ///
    /// The outer `None` means that what happens isn't specified.
    pub fn elements(&self) -> Option<Option<Vec<Sc>>> {
        fn tree(t: &Tree, sval: bool, b: Bor) -> Option<Option<Vec<Sc>>> {
            match t {
                Tree::Seq(v, _) | Tree::Tuple(v) => {
                    if v.iter().any(|t| t.fails()) {
                        return None;
                    }
                    Some(Some(
                        v.iter()
                            .map(|t| match t {
                                // `sval` text made of pieces is joined up inside a sequence
                                Tree::Str(s, StrMode::Pieces(_)) if sval => {
                                    Sc::Str(s.clone(), if b == Bor::No && !s.is_empty() { Bor::No } else { Bor::Maybe })
                                }
                                t => tree_scalar(t, sval, b, true),
                            })
                            .collect(),
                    ))
                }
                Tree::Some(t) => match tree(t, sval, b) {
                    Some(None) => Some(None),
                    _ if sval => None,
                    r => r,
                },
                Tree::Bytes(_)
                | Tree::TupleStruct(..)
                | Tree::TupVar(..)
                | Tree::Newtype(..)
                | Tree::NewVar(..) => None,
                t if t.fails() => None,
                _ => Some(None),
            }
        }
        match self {
            C::Seq { items, b, .. } => Some(Some(
                items
                    .iter()
                    .map(|i| match i.scalar() {
                        Sc::Str(s, own) => Sc::Str(
                            s,
                            match b {
                                Bor::Yes => own,
                                Bor::No if own != Bor::Maybe => Bor::No,
                                Bor::No => Bor::Maybe,
                                Bor::Maybe => {
                                    if own == Bor::No {
                                        Bor::No
                                    } else {
                                        Bor::Maybe
                                    }
                                }
                            },
                        ),
                        s => s,
                    })
                    .collect(),
            )),
            C::Sval { t, b, .. } if needs_alloc(t, *b) => None,
            C::Sval { t, b, .. } => tree(t, true, *b),
            C::Serde { t, .. } => tree(t, false, Bor::No),
            _ => Some(None),
        }
    }

    /// The text that a framework sees can't be said
    pub fn text_unknown(&self) -> bool {
        match self {
            C::Text(Err(_)) => true,
            C::Fmt { src: Src::Model(m), dbg, .. } => m.fmt_unknown(*dbg),
            C::Err { buffered: true, e, .. } => e.msg.fails(),
            C::Seq { items, .. } => items.iter().any(|i| i.text_unknown()),
            _ => false,
        }
    }

    /// Whether producing the whole value fails somewhere
    pub fn fails(&self) -> bool {
        match self {
            C::Fmt { src, .. } => src.fails(),
            C::Err { e, buffered: false, .. } => e.msg.fails(),
            C::Sval { t, .. } | C::Serde { t, .. } => t.fails(),
            C::Seq { items, .. } => items.iter().any(|i| i.fails()),
            C::FailFill(_) | C::Poisoned => true,
            _ => false,
        }
    }

    /// What's left after copying the content out of whatever it borrows from
    pub fn buffered(&self) -> C {
        match self {
            C::U64(v) => C::Int(Num::u(*v as u128), true),
            C::I64(v) => C::Int(Num::i(*v as i128), false),
            C::U128(v) => C::Int(Num::u(*v), true),
            C::I128(v) => C::Int(Num::i(*v), false),
            C::Str(s, _) => C::Str(s.clone(), Bor::Yes),
            C::Fmt { src, dbg, shared: false } => {
                let unk = match src {
                    Src::Model(m) => m.fmt_unknown(*dbg),
                    _ => false,
                };
                C::Text(if unk {
                    Err(false)
                } else {
                    plain(false, &AsDisp(src, *dbg)).map_err(|_| true)
                })
            }
            C::Err { e, shared: false, .. } => C::Err {
                e: e.clone(),
                shared: false,
                buffered: true,
                lend: Bor::Yes,
            },
            C::Err { e, shared: true, buffered, .. } => C::Err {
                e: e.clone(),
                shared: true,
                buffered: *buffered,
                lend: Bor::Yes,
            },
            C::Sval { t, shared: false, .. } => {
                if t.fails() {
                    C::Poisoned
                } else {
                    C::Sval {
                        t: t.clone(),
                        b: Bor::Maybe,
                        shared: false,
                        buffered: true,
                    }
                }
            }
            C::Serde { t, shared: false, .. } => {
                if t.fails() {
                    C::Poisoned
                } else {
                    C::Serde {
                        t: t.collected(),
                        shared: false,
                        buffered: true,
                    }
                }
            }
            C::Seq { items, shared: false, .. } => C::Seq {
                items: items.iter().map(|i| i.buffered()).collect(),
                b: Bor::Maybe,
                shared: false,
                buffered: true,
            },
            C::FailFill(_) => C::Poisoned,
            c => c.clone(),
        }
    }

    pub fn is_buffered(&self) -> bool {
        match self {
            C::Int(..) | C::Text(_) => true,
            C::Err { buffered, .. }
            | C::Sval { buffered, .. }
            | C::Serde { buffered, .. }
            | C::Seq { buffered, .. } => *buffered,
            _ => false,
        }
    }

    /// Mark the content as living in an `Arc`
    pub fn shared(&self) -> C {
        let mut c = self.clone();
        match c {
            C::Fmt { ref mut shared, .. }
            | C::Err { ref mut shared, .. }
            | C::Sval { ref mut shared, .. }
            | C::Serde { ref mut shared, .. }
            | C::Seq { ref mut shared, .. } => *shared = true,
            _ => (),
        }
        c
    }

    /// The data model of the content seen through one of the frameworks
    pub fn to_tree(&self, sval: bool) -> Option<Tree> {
        if self.text_unknown() {
            return None;
        }
        Some(match self {
            // what came before the failure isn't said
            C::FailFill(true) => return None,
            C::Empty => Tree::Null,
            C::U64(v) => Tree::P(Prim::U64(*v)),
            C::I64(v) => Tree::P(Prim::I64(*v)),
            C::U128(v) => Tree::P(Prim::U128(*v)),
            C::I128(v) => Tree::P(Prim::I128(*v)),
            C::Int(v, true) => Tree::P(Prim::U128(v.to_u(u128::MAX)?)),
            C::Int(v, false) => Tree::P(Prim::I128(v.to_i(i128::MAX as u128)?)),
            C::F64(v) => Tree::P(Prim::F64(*v)),
            C::Bool(v) => Tree::P(Prim::Bool(*v)),
            C::Char(v) => Tree::P(Prim::Char(*v)),
            C::Str(v, Bor::Yes) => Tree::Str(v.clone(), StrMode::Borrowed),
            C::Str(v, _) => Tree::Str(v.clone(), StrMode::Computed),
            C::Fmt { src, dbg, .. } => match plain(false, &AsDisp(src, *dbg)) {
                Ok(s) => Tree::Str(s, FORMATTED),
                Err(_) => return None,
            },
            C::Text(Ok(t)) => Tree::Str(t.clone(), FORMATTED),
            C::Text(Err(_)) => return None,
            C::Err { e, .. } => match plain(false, e) {
                Ok(s) => Tree::Str(s, FORMATTED),
                Err(_) => return None,
            },
            C::Sval { t, .. } if sval => t.clone(),
            C::Serde { t, .. } if !sval => t.clone(),
            C::Sval { .. } | C::Serde { .. } => return None,
            C::Seq { items, .. } => {
                let mut v = Vec::new();
                for i in items {
                    v.push(i.to_tree(sval)?);
                }
                Tree::Seq(v, false)
            }
            C::FailFill(_) | C::Poisoned => Tree::Fail,
        })
    }
}

impl Src {
    pub fn fails(&self) -> bool {
        match self {
            Src::Frag(f) => f.fails(),
            Src::Err(e) => e.msg.fails(),
            Src::Model(m) => m.fails(),
            Src::Opt(s) => s.fails(),
            _ => false,
        }
    }
}

/// Content together with whether it's reached through a filler
#[derive(Clone)]
pub struct M {
    pub c: C,
    pub filled: bool,
}

impl M {
    pub fn new(c: C) -> M {
        M { c, filled: false }
    }

    pub fn filled(c: C) -> M {
        let c = match c {
            C::Err { e, shared, buffered, .. } => C::Err { e, shared, buffered, lend: Bor::No },
            c => c,
        };
        M { c, filled: true }
    }
}
