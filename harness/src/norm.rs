//! The structure a value has in either framework, with the differences between
//! the frameworks taken out.

use crate::data::*;
use crate::held::*;
use crate::model::*;
use crate::ops::{self, gen_ops, Op};
use crate::props::*;
use crate::rec::*;
use crate::tape::Tape;
use crate::tree::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Norm {
    Null,
    Int(String),
    Float(String),
    Bool(String),
    Text(String),
    Bytes(String),
    Seq(Vec<Norm>),
    Map(Vec<(Norm, Norm)>),
    /// The name of a variant, and what's inside it
    Var(String, Box<Norm>),
    /// A unit struct
    Named(String),
}

fn text(s: &str) -> Norm {
    Norm::Text(format!("{:?}", s))
}

pub fn of_tree(t: &Tree) -> Norm {
    let seq = |v: &[Tree]| Norm::Seq(v.iter().map(of_tree).collect());
    let rec = |v: &[(Name, Tree)]| {
        Norm::Map(v.iter().map(|(k, t)| (text(k), of_tree(t))).collect())
    };
    match t {
        Tree::Null | Tree::Unit | Tree::OptNone => Norm::Null,
        Tree::Some(t) | Tree::Newtype(_, t) => of_tree(t),
        Tree::P(p) => match prim_c(*p) {
            C::F64(v) => Norm::Float(show_f64(v)),
            C::Bool(v) => Norm::Bool(v.to_string()),
            C::Char(v) => text(&v.to_string()),
            C::U64(v) => Norm::Int(v.to_string()),
            C::I64(v) => Norm::Int(v.to_string()),
            C::U128(v) => Norm::Int(v.to_string()),
            C::I128(v) => Norm::Int(v.to_string()),
            _ => unreachable!(),
        },
        Tree::Str(s, _) => text(s),
        Tree::Bytes(b) => Norm::Bytes(format!("{:?}", b)),
        Tree::Seq(v, _) | Tree::Tuple(v) | Tree::TupleStruct(_, v) => seq(v),
        Tree::Map(v, _) => Norm::Map(v.iter().map(|(k, t)| (of_tree(k), of_tree(t))).collect()),
        Tree::UnitStruct(n) => Norm::Named(format!("{:?}", n)),
        Tree::Struct(_, v) => rec(v),
        Tree::UnitVar(_, _, v) => Norm::Var(format!("{:?}", v), Box::new(Norm::Null)),
        Tree::NewVar(_, _, v, t) => Norm::Var(format!("{:?}", v), Box::new(of_tree(t))),
        Tree::TupVar(_, _, v, ts) => Norm::Var(format!("{:?}", v), Box::new(seq(ts))),
        Tree::StructVar(_, _, v, ts) => Norm::Var(format!("{:?}", v), Box::new(rec(ts))),
        Tree::Fail => Norm::Named("fail".into()),
    }
}

struct P<'a> {
    toks: &'a [Tok],
    at: usize,
}

/// The parts of an argument list: quoted names and numbers
fn args(s: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut quoted = false;
    let mut esc = false;
    for c in s.chars() {
        if quoted {
            out.last_mut().unwrap().push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                quoted = false;
            }
        } else if c == ',' {
            out.push(String::new());
        } else {
            if c == '"' {
                quoted = true;
            }
            out.last_mut().unwrap().push(c);
        }
    }
    out
}

impl<'a> P<'a> {
    fn next(&mut self) -> Result<&'a Tok, String> {
        let t = self.toks.get(self.at).ok_or("ended early")?;
        self.at += 1;
        Ok(t)
    }

    fn peek(&self) -> &str {
        self.toks.get(self.at).map(|t| t.name).unwrap_or("")
    }

    fn want(&mut self, n: &str) -> Result<&'a Tok, String> {
        let t = self.next()?;
        if t.name == n {
            Ok(t)
        } else {
            Err(format!("{} where {} should be", t.name, n))
        }
    }

    fn scalar(&self, t: &Tok) -> Option<Norm> {
        Some(match t.name {
            "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" => {
                Norm::Int(t.arg.clone())
            }
            "f32" | "f64" => Norm::Float(t.arg.clone()),
            "bool" => Norm::Bool(t.arg.clone()),
            "none" | "unit" | "null" | "none-tag" | "unit-tag" => Norm::Null,
            "str" | "text" => Norm::Text(t.arg.clone()),
            "bytes" => Norm::Bytes(t.arg.clone()),
            "binary" => Norm::Bytes(
                t.arg
                    .trim_start_matches("Some(")
                    .trim_end_matches(')')
                    .to_string(),
            ),
            _ => return None,
        })
    }

    // ---- serde

    fn serde(&mut self) -> Result<Norm, String> {
        let t = self.next()?;
        if let Some(n) = self.scalar(t) {
            return Ok(n);
        }
        let a = args(&t.arg);
        let var = |n: Norm, a: &[String]| Norm::Var(a[2].clone(), Box::new(n));
        Ok(match t.name {
            // the same character as text
            "char" => Norm::Text(t.hint.clone()),
            "some" | "newtype_struct" => self.serde()?,
            "unit_struct" => Norm::Named(a[0].clone()),
            "unit_variant" => var(Norm::Null, &a),
            "newtype_variant" => {
                let n = self.serde()?;
                var(n, &a)
            }
            "seq[" => Norm::Seq(self.serde_items("]")?),
            "tuple(" | "tuple_struct(" => Norm::Seq(self.serde_items(")")?),
            "tuple_variant(" => {
                let v = Norm::Seq(self.serde_items(")")?);
                var(v, &a)
            }
            "map{" => {
                let mut v = Vec::new();
                while self.peek() != "}" {
                    self.want("key")?;
                    let k = self.serde()?;
                    self.want("value")?;
                    v.push((k, self.serde()?));
                }
                self.next()?;
                Norm::Map(v)
            }
            "struct{" => Norm::Map(self.serde_fields()?),
            "struct_variant{" => {
                let v = Norm::Map(self.serde_fields()?);
                var(v, &a)
            }
            n => return Err(format!("stray {}", n)),
        })
    }

    fn serde_items(&mut self, end: &str) -> Result<Vec<Norm>, String> {
        let mut v = Vec::new();
        while self.peek() != end {
            v.push(self.serde()?);
        }
        self.next()?;
        Ok(v)
    }

    fn serde_fields(&mut self) -> Result<Vec<(Norm, Norm)>, String> {
        let mut v = Vec::new();
        while self.peek() != "}" {
            let k = self.want("field")?.arg.clone();
            v.push((Norm::Text(k), self.serde()?));
        }
        self.next()?;
        Ok(v)
    }

    // ---- sval

    fn sval(&mut self) -> Result<Norm, String> {
        let t = self.next()?;
        if let Some(n) = self.scalar(t) {
            return Ok(n);
        }
        Ok(match t.name {
            "tag" => Norm::Named(args(&t.arg)[0].clone()),
            "tagged{" => {
                let n = self.sval()?;
                self.want("}tagged")?;
                n
            }
            "enum{" => {
                let label = args(&self.toks.get(self.at).ok_or("ended early")?.arg)[0].clone();
                let inner = match self.peek() {
                    "tag" | "none-tag" | "unit-tag" => {
                        self.next()?;
                        Norm::Null
                    }
                    "tagged{" | "tuple(" | "record{" | "rectup{" => self.sval()?,
                    n => return Err(format!("{} in an enum", n)),
                };
                self.want("}enum")?;
                Norm::Var(label, Box::new(inner))
            }
            "seq[" => {
                let mut v = Vec::new();
                while self.peek() != "]" {
                    self.want("elem")?;
                    v.push(self.sval()?);
                    self.want("mele")?;
                }
                self.next()?;
                Norm::Seq(v)
            }
            "tuple(" => {
                let mut v = Vec::new();
                while self.peek() != ")tuple" {
                    self.want("item")?;
                    v.push(self.sval()?);
                    self.want("meti")?;
                }
                self.next()?;
                Norm::Seq(v)
            }
            "map{" => {
                let mut v = Vec::new();
                while self.peek() != "}" {
                    self.want("key")?;
                    let k = self.sval()?;
                    self.want("yek")?;
                    self.want("value")?;
                    v.push((k, self.sval()?));
                    self.want("eulav")?;
                }
                self.next()?;
                Norm::Map(v)
            }
            "record{" => {
                let mut v = Vec::new();
                while self.peek() != "}record" {
                    let k = args(&self.want("field")?.arg)[0].clone();
                    v.push((Norm::Text(k), self.sval()?));
                    self.want("dleif")?;
                }
                self.next()?;
                Norm::Map(v)
            }
            "rectup{" => {
                let mut v = Vec::new();
                while self.peek() != "}rectup" {
                    let k = args(&self.want("rtfield")?.arg)[0].clone();
                    v.push((Norm::Text(k), self.sval()?));
                    self.want("dleiftr")?;
                }
                self.next()?;
                Norm::Map(v)
            }
            n => return Err(format!("stray {}", n)),
        })
    }

    fn end<T>(&self, v: T) -> Result<T, String> {
        if self.at == self.toks.len() {
            Ok(v)
        } else {
            Err(format!("{} after the end", self.peek()))
        }
    }
}

pub fn of_serde<T: serde_core::Serialize + ?Sized>(v: &T) -> Result<Norm, String> {
    let rec = SerdeRec::new(None);
    v.serialize(rec.clone()).map_err(|e| e.0)?;
    let log = rec.0.borrow();
    let mut p = P {
        toks: &log.toks,
        at: 0,
    };
    let n = p.serde()?;
    p.end(n)
}

pub fn of_sval<T: sval::Value + ?Sized>(v: &T) -> Result<Norm, String> {
    let mut rec = SvalRec::new(None);
    v.stream(&mut rec).map_err(|_| "sval failed".to_string())?;
    let mut p = P {
        toks: &rec.log.toks,
        at: 0,
    };
    let n = p.sval()?;
    p.end(n)
}

pub fn c07(t: &mut Tape, cx: &mut Cx) -> Out {
    let o = TreeOpts {
        fail: false,
        named: true,
        bytes: true,
    };
    let d = 1 + t.below(5);
    let tree = gen_tree(t, d, o);
    let r = t.below(TREE_ROUTES.len());
    let inner = tree_held(tree.clone(), r).available();
    if !matches!(inner.content().c, C::Sval { .. } | C::Serde { .. }) {
        return Ok(());
    }
    // as an element of a sequence
    let wrap = SEQ && t.chance(1, 4);
    let h = if wrap {
        let r = t.below(ELS_ROUTES.len());
        let other = prim_held(gen_prim(t), 1);
        els_held(vec![El(inner), El(other)], r).available()
    } else {
        inner
    };
    const STEPS: &[Op] = &[
        Op::ByRef,
        Op::ToOwned,
        Op::Clone,
        Op::ToShared,
        Op::Fill,
        Op::IntoShared,
        Op::OwnedClone,
        Op::AsSerde,
        Op::AsSval,
    ];
    let m0 = h.content();
    let max = t.below(4);
    let (ops, _) = gen_ops(t, STEPS, max, &m0);
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class(h.route());
    cx.class(format!("depth:{}", tree.depth()));
    for o in &ops {
        cx.class(format!("step:{:?}", o));
    }
    cx.nontrivial = tree.depth() > 1;
    let want = of_tree(&tree);
    let mut r: Vec<(&str, Result<Norm, String>)> = Vec::new();
    ops::run(h.bag(), &ops, &mut |b| {
        let _ = b;
        #[cfg(feature = "serde1")]
        r.push(("serde", of_serde(b)));
        #[cfg(feature = "sval2")]
        r.push(("sval", of_sval(b)));
    });
    for (name, got) in r {
        let got = got.map_err(|e| format!("{}: {}", name, e))?;
        let got = if wrap {
            match got {
                Norm::Seq(v) if v.len() == 2 => v.into_iter().next().unwrap(),
                n => return Err(format!("{}: not a sequence of two: {:?}", name, n)),
            }
        } else {
            got
        };
        if got != want {
            return Err(format!("{}: got {:?} but expected {:?}", name, got, want));
        }
        cx.checks += 1;
    }
    Ok(())
}
