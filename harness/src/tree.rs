//! A generated data model that is both a `serde::Serialize` and an `sval::Value`.

use crate::data::*;
use crate::tape::Tape;
use std::fmt;

pub type Name = &'static str;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum StrMode {
    Borrowed,
    Computed,
    /// Written in pieces of about this many bytes
    Pieces(usize),
    /// The same, but the pieces aren't borrowed
    ComputedPieces(usize),
}

#[derive(Clone, Debug)]
pub enum Tree {
    Null,
    Unit,
    OptNone,
    Some(Box<Tree>),
    P(Prim),
    Str(String, StrMode),
    Bytes(Vec<u8>),
    Seq(Vec<Tree>, bool),
    Tuple(Vec<Tree>),
    Map(Vec<(Tree, Tree)>, bool),
    UnitStruct(Name),
    Newtype(Name, Box<Tree>),
    TupleStruct(Name, Vec<Tree>),
    Struct(Name, Vec<(Name, Tree)>),
    UnitVar(Name, u32, Name),
    NewVar(Name, u32, Name, Box<Tree>),
    TupVar(Name, u32, Name, Vec<Tree>),
    StructVar(Name, u32, Name, Vec<(Name, Tree)>),
    Fail,
}

impl fmt::Display for Tree {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "tree:")?;
        fmt::Debug::fmt(self, f)
    }
}

fn pieces(s: &str, n: usize) -> Vec<&str> {
    let n = n.max(1);
    let mut out = Vec::new();
    let mut start = 0;
    while start < s.len() {
        let mut end = start.saturating_add(n).min(s.len());
        while !s.is_char_boundary(end) {
            end += 1;
        }
        out.push(&s[start..end]);
        start = end;
    }
    out
}

struct Pieces<'a>(&'a str, usize);

impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for p in pieces(self.0, self.1) {
            f.write_str(p)?;
        }
        Ok(())
    }
}

impl serde_core::Serialize for Tree {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde_core::ser::*;
        crate::extra::tick();
        match self {
            Tree::Null | Tree::OptNone => s.serialize_none(),
            Tree::Unit => s.serialize_unit(),
            Tree::Some(t) => s.serialize_some(&**t),
            Tree::P(p) => on_prim!(p, x => x.serialize(s)),
            Tree::Str(v, StrMode::Borrowed) | Tree::Str(v, StrMode::Computed) => s.serialize_str(v),
            Tree::Str(v, StrMode::Pieces(n)) | Tree::Str(v, StrMode::ComputedPieces(n)) => {
                s.collect_str(&Pieces(v, *n))
            }
            Tree::Bytes(b) => s.serialize_bytes(b),
            Tree::Seq(v, hint) => {
                let mut q = s.serialize_seq(if *hint { Some(v.len()) } else { None })?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tree::Map(v, hint) => {
                let mut q = s.serialize_map(if *hint { Some(v.len()) } else { None })?;
                for (k, x) in v {
                    if *hint {
                        q.serialize_entry(k, x)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    }
                }
                q.end()
            }
            Tree::UnitStruct(n) => s.serialize_unit_struct(n),
            Tree::Newtype(n, x) => s.serialize_newtype_struct(n, &**x),
            Tree::TupleStruct(n, v) => {
                let mut q = s.serialize_tuple_struct(n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tree::Struct(n, v) => {
                let mut q = s.serialize_struct(n, v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Tree::UnitVar(n, i, v) => s.serialize_unit_variant(n, *i, v),
            Tree::NewVar(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, &**x),
            Tree::TupVar(n, i, v, xs) => {
                let mut q = s.serialize_tuple_variant(n, *i, v, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tree::StructVar(n, i, v, xs) => {
                let mut q = s.serialize_struct_variant(n, *i, v, xs.len())?;
                for (k, x) in xs {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Tree::Fail => Err(S::Error::custom("tree failure")),
        }
    }
}

fn stream_prim<'sval, S: sval::Stream<'sval> + ?Sized>(p: &'sval Prim, s: &mut S) -> sval::Result {
    match p {
        Prim::U8(x) => s.value(x),
        Prim::U16(x) => s.value(x),
        Prim::U32(x) => s.value(x),
        Prim::U64(x) => s.value(x),
        Prim::Usize(x) => s.u64(*x as u64),
        Prim::U128(x) => s.value(x),
        Prim::I8(x) => s.value(x),
        Prim::I16(x) => s.value(x),
        Prim::I32(x) => s.value(x),
        Prim::I64(x) => s.value(x),
        Prim::Isize(x) => s.i64(*x as i64),
        Prim::I128(x) => s.value(x),
        Prim::F32(x) => s.value(x),
        Prim::F64(x) => s.value(x),
        Prim::Bool(x) => s.value(x),
        Prim::Char(x) => s.value(x),
    }
}

impl sval::Value for Tree {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        use sval::{Index, Label};
        crate::extra::tick();
        match self {
            Tree::Null => s.null(),
            Tree::Unit => s.value(&()),
            Tree::OptNone => s.value(&Option::<u8>::None),
            Tree::Some(t) => {
                let l = Label::new("Some").with_tag(&sval::tags::VALUE_IDENT);
                let i = Index::new(1).with_tag(&sval::tags::VALUE_OFFSET);
                s.tagged_begin(Some(&sval::tags::RUST_OPTION_SOME), Some(&l), Some(&i))?;
                s.value(&**t)?;
                s.tagged_end(Some(&sval::tags::RUST_OPTION_SOME), Some(&l), Some(&i))
            }
            Tree::P(p) => stream_prim(p, s),
            Tree::Str(v, StrMode::Borrowed) => s.value(&**v),
            Tree::Str(v, StrMode::Computed) => {
                s.text_begin(Some(v.len()))?;
                s.text_fragment_computed(v)?;
                s.text_end()
            }
            Tree::Str(v, StrMode::Pieces(n)) => {
                s.text_begin(None)?;
                for p in pieces(v, *n) {
                    s.text_fragment(p)?;
                }
                s.text_end()
            }
            Tree::Str(v, StrMode::ComputedPieces(n)) => {
                s.text_begin(Some(v.len()))?;
                for p in pieces(v, *n) {
                    s.text_fragment_computed(p)?;
                }
                s.text_end()
            }
            Tree::Bytes(b) => {
                s.binary_begin(Some(b.len()))?;
                s.binary_fragment(b)?;
                s.binary_end()
            }
            Tree::Seq(v, hint) => {
                s.seq_begin(if *hint { Some(v.len()) } else { None })?;
                for x in v {
                    s.seq_value_begin()?;
                    s.value(x)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Tree::Tuple(v) => tuple(s, None, None, v),
            Tree::Map(v, hint) => {
                s.map_begin(if *hint { Some(v.len()) } else { None })?;
                for (k, x) in v {
                    s.map_key_begin()?;
                    s.value(k)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    s.value(x)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Tree::UnitStruct(n) => s.tag(None, Some(&Label::new(n)), None),
            Tree::Newtype(n, x) => {
                s.tagged_begin(None, Some(&Label::new(n)), None)?;
                s.value(&**x)?;
                s.tagged_end(None, Some(&Label::new(n)), None)
            }
            Tree::TupleStruct(n, v) => tuple(s, Some(Label::new(n)), None, v),
            Tree::Struct(n, v) => record(s, Some(Label::new(n)), None, v),
            Tree::UnitVar(n, i, v) => {
                s.enum_begin(None, Some(&Label::new(n)), None)?;
                s.tag(None, Some(&Label::new(v)), Some(&Index::new_u32(*i)))?;
                s.enum_end(None, Some(&Label::new(n)), None)
            }
            Tree::NewVar(n, i, v, x) => {
                s.enum_begin(None, Some(&Label::new(n)), None)?;
                s.tagged_begin(None, Some(&Label::new(v)), Some(&Index::new_u32(*i)))?;
                s.value(&**x)?;
                s.tagged_end(None, Some(&Label::new(v)), Some(&Index::new_u32(*i)))?;
                s.enum_end(None, Some(&Label::new(n)), None)
            }
            Tree::TupVar(n, i, v, xs) => {
                s.enum_begin(None, Some(&Label::new(n)), None)?;
                tuple(s, Some(Label::new(v)), Some(Index::new_u32(*i)), xs)?;
                s.enum_end(None, Some(&Label::new(n)), None)
            }
            Tree::StructVar(n, i, v, xs) => {
                s.enum_begin(None, Some(&Label::new(n)), None)?;
                record(s, Some(Label::new(v)), Some(Index::new_u32(*i)), xs)?;
                s.enum_end(None, Some(&Label::new(n)), None)
            }
            Tree::Fail => Err(sval::Error::new()),
        }
    }
}

fn tuple<'sval, S: sval::Stream<'sval> + ?Sized>(
    s: &mut S,
    label: Option<sval::Label>,
    index: Option<sval::Index>,
    v: &'sval [Tree],
) -> sval::Result {
    s.tuple_begin(None, label.as_ref(), index.as_ref(), Some(v.len()))?;
    for (i, x) in v.iter().enumerate() {
        let ix = sval::Index::new(i);
        s.tuple_value_begin(None, &ix)?;
        s.value(x)?;
        s.tuple_value_end(None, &ix)?;
    }
    s.tuple_end(None, label.as_ref(), index.as_ref())
}

fn record<'sval, S: sval::Stream<'sval> + ?Sized>(
    s: &mut S,
    label: Option<sval::Label>,
    index: Option<sval::Index>,
    v: &'sval [(Name, Tree)],
) -> sval::Result {
    s.record_tuple_begin(None, label.as_ref(), index.as_ref(), Some(v.len()))?;
    for (i, (k, x)) in v.iter().enumerate() {
        let ix = sval::Index::new(i);
        let l = sval::Label::new(k);
        s.record_tuple_value_begin(None, &l, &ix)?;
        s.value(x)?;
        s.record_tuple_value_end(None, &l, &ix)?;
    }
    s.record_tuple_end(None, label.as_ref(), index.as_ref())
}

const NAMES: &[Name] = &["A", "Point", "x", "y", "z", "field", "Some", "None", "", "é", "long_name_of_a_field"];

#[derive(Clone, Copy)]
pub struct TreeOpts {
    pub fail: bool,
    /// Structs, variants, tagged values and byte strings
    pub named: bool,
    pub bytes: bool,
}

impl Tree {
    pub fn fails(&self) -> bool {
        match self {
            Tree::Fail => true,
            Tree::Some(t) | Tree::Newtype(_, t) | Tree::NewVar(_, _, _, t) => t.fails(),
            Tree::Seq(v, _) | Tree::Tuple(v) | Tree::TupleStruct(_, v) | Tree::TupVar(_, _, _, v) => {
                v.iter().any(|t| t.fails())
            }
            Tree::Map(v, _) => v.iter().any(|(k, t)| k.fails() || t.fails()),
            Tree::Struct(_, v) | Tree::StructVar(_, _, _, v) => v.iter().any(|(_, t)| t.fails()),
            _ => false,
        }
    }

    pub fn any(&self, f: &dyn Fn(&Tree) -> bool) -> bool {
        f(self)
            || match self {
                Tree::Some(t) | Tree::Newtype(_, t) | Tree::NewVar(_, _, _, t) => t.any(f),
                Tree::Seq(v, _)
                | Tree::Tuple(v)
                | Tree::TupleStruct(_, v)
                | Tree::TupVar(_, _, _, v) => v.iter().any(|t| t.any(f)),
                Tree::Map(v, _) => v.iter().any(|(k, t)| k.any(f) || t.any(f)),
                Tree::Struct(_, v) | Tree::StructVar(_, _, _, v) => v.iter().any(|(_, t)| t.any(f)),
                _ => false,
            }
    }

    /// With every text in one piece
    pub fn collected(&self) -> Tree {
        let all = |v: &[Tree]| v.iter().map(|t| t.collected()).collect::<Vec<_>>();
        let rec = |v: &[(Name, Tree)]| v.iter().map(|(k, t)| (*k, t.collected())).collect::<Vec<_>>();
        match self {
            Tree::Str(s, _) => Tree::Str(s.clone(), StrMode::Computed),
            Tree::Some(t) => Tree::Some(Box::new(t.collected())),
            Tree::Newtype(n, t) => Tree::Newtype(n, Box::new(t.collected())),
            Tree::NewVar(n, i, v, t) => Tree::NewVar(n, *i, v, Box::new(t.collected())),
            Tree::Seq(v, h) => Tree::Seq(all(v), *h),
            Tree::Tuple(v) => Tree::Tuple(all(v)),
            Tree::TupleStruct(n, v) => Tree::TupleStruct(n, all(v)),
            Tree::TupVar(n, i, x, v) => Tree::TupVar(n, *i, x, all(v)),
            Tree::Map(v, h) => {
                Tree::Map(v.iter().map(|(k, t)| (k.collected(), t.collected())).collect(), *h)
            }
            Tree::Struct(n, v) => Tree::Struct(n, rec(v)),
            Tree::StructVar(n, i, x, v) => Tree::StructVar(n, *i, x, rec(v)),
            t => t.clone(),
        }
    }

    /// Whether any text is given to `serde` as something to format, which is then
    /// printed differently from the same text given as a string
    pub fn collects(&self) -> bool {
        self.any(&|t| matches!(t, Tree::Str(_, StrMode::Pieces(_) | StrMode::ComputedPieces(_))))
    }

    pub fn depth(&self) -> usize {
        1 + match self {
            Tree::Some(t) | Tree::Newtype(_, t) | Tree::NewVar(_, _, _, t) => t.depth(),
            Tree::Seq(v, _) | Tree::Tuple(v) | Tree::TupleStruct(_, v) | Tree::TupVar(_, _, _, v) => {
                v.iter().map(|t| t.depth()).max().unwrap_or(0)
            }
            Tree::Map(v, _) => v
                .iter()
                .map(|(k, t)| k.depth().max(t.depth()))
                .max()
                .unwrap_or(0),
            Tree::Struct(_, v) | Tree::StructVar(_, _, _, v) => {
                v.iter().map(|(_, t)| t.depth()).max().unwrap_or(0)
            }
            _ => 0,
        }
    }
}

pub fn gen_str_mode(t: &mut Tape) -> StrMode {
    match t.weighted(&[4, 2, 2, 1]) {
        0 => StrMode::Borrowed,
        1 => StrMode::Computed,
        2 => StrMode::Pieces(1 + t.below(20)),
        _ => StrMode::ComputedPieces(1 + t.below(20)),
    }
}

pub fn gen_leaf(t: &mut Tape, o: TreeOpts) -> Tree {
    match t.weighted(&[8, 5, 1, 1, 1, if o.fail { 1 } else { 0 }, if o.bytes { 1 } else { 0 }]) {
        0 => Tree::P(gen_prim(t)),
        1 => {
            let s = gen_short(t);
            let m = gen_str_mode(t);
            Tree::Str(s, m)
        }
        2 => Tree::Null,
        3 => Tree::Unit,
        4 => Tree::OptNone,
        5 => Tree::Fail,
        _ => Tree::Bytes((0..t.count(5)).map(|_| t.below(256) as u8).collect()),
    }
}

fn many(t: &mut Tape, depth: usize, o: TreeOpts) -> Vec<Tree> {
    let n = if depth == 1 { t.count(4) } else { t.below(4) };
    (0..n).map(|_| gen_tree(t, depth - 1, o)).collect()
}

fn fields(t: &mut Tape, depth: usize, o: TreeOpts) -> Vec<(Name, Tree)> {
    let n = t.below(4);
    (0..n)
        .map(|_| {
            let k = *t.pick(NAMES);
            (k, gen_tree(t, depth - 1, o))
        })
        .collect()
}

pub fn gen_tree(t: &mut Tape, depth: usize, o: TreeOpts) -> Tree {
    if depth == 0 {
        return gen_leaf(t, o);
    }
    let nm = if o.named { 1 } else { 0 };
    match t.weighted(&[
        8, 2, 5, 2, 4, nm, nm, nm, 3 * nm, nm, nm, nm, nm,
    ]) {
        0 => gen_leaf(t, o),
        1 => Tree::Some(Box::new(gen_tree(t, depth - 1, o))),
        2 => {
            let v = many(t, depth, o);
            Tree::Seq(v, t.flip())
        }
        3 => Tree::Tuple(many(t, depth, o)),
        4 => {
            let n = if depth == 1 { t.count(4) } else { t.below(4) };
            let v = (0..n)
                .map(|_| {
                    let k = if t.chance(1, 4) {
                        gen_leaf(t, TreeOpts { fail: o.fail, named: false, bytes: false })
                    } else {
                        Tree::Str(gen_short(t), gen_str_mode(t))
                    };
                    (k, gen_tree(t, depth - 1, o))
                })
                .collect();
            Tree::Map(v, t.flip())
        }
        5 => Tree::UnitStruct(t.pick(NAMES)),
        6 => Tree::Newtype(t.pick(NAMES), Box::new(gen_tree(t, depth - 1, o))),
        7 => Tree::TupleStruct(t.pick(NAMES), many(t, depth, o)),
        8 => Tree::Struct(t.pick(NAMES), fields(t, depth, o)),
        9 => Tree::UnitVar(t.pick(NAMES), t.below(5) as u32, t.pick(NAMES)),
        10 => Tree::NewVar(
            t.pick(NAMES),
            t.below(5) as u32,
            t.pick(NAMES),
            Box::new(gen_tree(t, depth - 1, o)),
        ),
        11 => Tree::TupVar(t.pick(NAMES), t.below(5) as u32, t.pick(NAMES), many(t, depth, o)),
        _ => Tree::StructVar(t.pick(NAMES), t.below(5) as u32, t.pick(NAMES), fields(t, depth, o)),
    }
}
