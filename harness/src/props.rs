//! The properties. Each takes a tape of choices, builds a case out of it, and
//! compares what the crate does with what the model says.

use crate::data::*;
use crate::held::*;
use crate::model::*;
use crate::observe::*;
use crate::ops::{self, gen_ops, Op};
use crate::specs::SPECS;
use crate::tape::Tape;
use crate::tree::*;
use value_bag::ValueBag;

#[derive(Default)]
pub struct Cx {
    /// Everything that makes this case what it is
    pub desc: String,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// Answers that were decided
    pub checks: usize,
}

impl Cx {
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
}

pub type Out = Result<(), String>;
pub type Prop = fn(&mut Tape, &mut Cx) -> Out;

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => crate::norm::c07,
        "C08" => c08,
        "C09" => c09,
        "C10" => crate::life::c10,
        "C11" => c11,
        "C12" => c12,
        "C13" => c13,
        "C14" => c14,
        "C15" => crate::down::c15,
        "C16" => c16,
        "C17" => crate::zero::c17,
        "C18" => crate::fault::c18,
        "C20" => c20,
        "C32" => c32,
        "C21" => crate::zero::c21,
        "C22" => c22,
        "C23" => crate::extra::c23,
        "C24" => crate::extra::c24,
        "C25" => crate::extra::c25,
        "C26" => crate::extra::c26,
        "C27" => crate::extra::c27,
        "C28" => crate::once::c28,
        "C29" => crate::sched::c29,
        _ => return None,
    })
}

pub fn gen_fmts(t: &mut Tape, n: usize) -> Vec<FmtAt> {
    (0..n)
        .map(|_| {
            let s = t.below(SPECS.len());
            let w = match t.below(3) {
                0 => t.below(8),
                1 => t.below(30),
                _ => t.below(80),
            };
            (s, w, t.below(21))
        })
        .collect()
}

pub fn ops_desc(ops: &[Op]) -> String {
    ops.iter().map(|o| format!(" > {:?}", o)).collect()
}

pub fn after(h: &Held, ops: &[Op], groups: u32, fmts: &[FmtAt]) -> Obs {
    let mut out = None;
    ops::run(h.bag(), ops, &mut |b| out = Some(observe(b, groups, fmts)));
    out.expect("ran")
}

fn step_class(cx: &mut Cx, ops: &[Op]) {
    for o in ops {
        cx.class(format!("step:{:?}", o));
    }
    cx.class(format!("steps:{}", ops.len()));
}

/// Make a value, take it through some steps, and ask it things the model knows
fn modelled(
    t: &mut Tape,
    cx: &mut Cx,
    g: &Gen,
    from: &[Op],
    max: usize,
    groups: u32,
    nf: usize,
) -> Result<(Held, M, Vec<Op>), String> {
    let h = gen_held(t, g);
    let m0 = h.content();
    let (ops, m) = gen_ops(t, from, max, &m0);
    let fmts = gen_fmts(t, nf);
    cx.desc = format!("{}{} {:?}", h.desc(), ops_desc(&ops), fmts);
    cx.class(h.route());
    step_class(cx, &ops);
    let x = expected(&m, groups, &fmts);
    let o = after(&h, &ops, groups, &fmts);
    cx.checks += compare(&x, &o)?;
    Ok((h, m, ops))
}

fn kind(c: &C) -> &'static str {
    match c {
        C::Empty => "absent",
        C::U64(_) => "u64",
        C::I64(_) => "i64",
        C::U128(_) => "u128",
        C::I128(_) => "i128",
        C::Int(..) => "int",
        C::F64(_) => "f64",
        C::Bool(_) => "bool",
        C::Char(_) => "char",
        C::Str(..) => "str",
        C::Fmt { dbg: true, .. } => "debug",
        C::Fmt { .. } => "display",
        C::Text(_) => "buffered text",
        C::Err { .. } => "error",
        C::Sval { .. } => "sval",
        C::Serde { .. } => "serde",
        C::Seq { .. } => "seq",
        C::FailFill(_) => "failing filler",
        C::Poisoned => "poisoned",
    }
}

// ------------------------------------------------------------ casts

fn c01(t: &mut Tape, cx: &mut Cx) -> Out {
    let (_, m, _) = modelled(t, cx, &NUMERIC, ops::ANY, 4, NUM, 0)?;
    let s = m.c.scalar();
    cx.class(match s {
        Sc::Int(n, ..) => format!("int of {} bits", (128 - n.mag.leading_zeros()).div_ceil(8) * 8),
        Sc::F(_) => "float".to_string(),
        _ => "not a number".to_string(),
    });
    cx.nontrivial = match s {
        Sc::Int(n, ..) => n.mag >= 128,
        Sc::F(f) => f != 0.0,
        _ => false,
    };
    Ok(())
}

const TEXTUAL: Gen = Gen {
    w: [5, 8, 2, 2, 1, 6, 1, 1, 1, 4, 3, 0],
    ..ALL
};

fn c02(t: &mut Tape, cx: &mut Cx) -> Out {
    let (_, m, _) = modelled(t, cx, &TEXTUAL, ops::ANY, 4, CAST, 0)?;
    let s = m.c.scalar();
    cx.class(match s {
        Sc::Str(_, b) => format!("text lent: {:?}", b),
        Sc::Bool(_) => "bool".into(),
        Sc::Char(_) => "char".into(),
        ref s => format!("{:?}", s).split('(').next().unwrap().to_string(),
    });
    cx.nontrivial = match s {
        Sc::Str(ref s, _) => !s.is_empty(),
        Sc::Bool(_) | Sc::Char(_) | Sc::Opaque => true,
        _ => false,
    };
    Ok(())
}

// ------------------------------------------------------------ capturing

pub const EVERYTHING: u32 =
    NUM | CAST | FMT | FLAGS | SERDE_G | SVAL_G | VISIT | SEQ_G | ERR_G | TOKEN;

fn c03(t: &mut Tape, cx: &mut Cx) -> Out {
    if t.chance(1, 4) {
        return crate::down::lookalike(t, cx);
    }
    let (h, reference) = match t.weighted(&[8, 4, 2]) {
        0 => {
            let p = gen_prim(t);
            let small = INLINE128 || !matches!(p, Prim::U128(_) | Prim::I128(_));
            let routes: Vec<usize> = (0..PRIM_ROUTES.len())
                .filter(|r| match PRIM_ROUTES[*r].1 {
                    K::Nat => true,
                    K::ShDbg | K::ShDisp | K::ShSval | K::ShSerde | K::ShDbgOpt | K::ShSvalOpt
                    | K::ShSerdeOpt => small,
                    _ => false,
                })
                .collect();
            let r = *t.pick(&routes);
            (prim_held(p, r), prim_held(p, 1))
        }
        1 => {
            let s = gen_text(t);
            let routes: Vec<usize> = (0..STR_ROUTES.len())
                .filter(|r| STR_ROUTES[*r].1 == K::Nat)
                .collect();
            let r = *t.pick(&routes);
            (str_held(s.clone(), r), str_held(s, 0))
        }
        _ => {
            let r = t.below(ABSENT_ROUTES.len());
            // filled in rather than captured
            let r = if r == 15 { 0 } else { r };
            (Held::Absent(r), Held::Absent(0))
        }
    };
    let h = h.available();
    let fmts = gen_fmts(t, 2);
    let (ops, m) = gen_ops(t, ops::ANY, 2, &h.content());
    cx.desc = format!("{}{} {:?}", h.desc(), ops_desc(&ops), fmts);
    cx.class(h.route());
    step_class(cx, &ops);
    cx.class(kind(&h.content().c));
    cx.nontrivial = h.route() != reference.route();
    let groups = if OWNED { EVERYTHING } else { EVERYTHING };
    let a = after(&reference, &ops, groups, &fmts);
    let b = after(&h, &ops, groups, &fmts);
    cx.checks += same(&a, &b, &|_| false)?;
    cx.checks += compare(&expected(&m, groups, &fmts), &b)?;
    Ok(())
}

// ------------------------------------------------------------ formatting

const UNBUFFERED: &[Op] = &[
    Op::ByRef,
    Op::Clone,
    Op::CloneDrop,
    Op::Fill,
    Op::FillRef,
    Op::AsDebug,
    Op::AsDisplay,
];

fn c04(t: &mut Tape, cx: &mut Cx) -> Out {
    let (_, m, _) = modelled(t, cx, &ALL, UNBUFFERED, 3, FMT | FLAGS, 4)?;
    cx.class(kind(&m.c));
    cx.nontrivial = !m.c.fmt_plain_only() && !m.c.fmt_unknown(true);
    Ok(())
}

// ------------------------------------------------------------ frameworks

const TREES: Gen = Gen {
    w: [4, 3, 1, 2, 1, 16, 1, 1, 3, 3, 1, 0],
    tree_depth: 4,
    ..ALL
};

const FRAMEWORK: &[Op] = &[
    Op::ByRef,
    Op::Clone,
    Op::Fill,
    Op::FillRef,
    Op::CloneDrop,
    Op::AsSerde,
    Op::AsSval,
    Op::ToOwned,
    Op::ToShared,
];

fn tree_class(cx: &mut Cx, c: &C) {
    cx.class(kind(c));
    if let C::Sval { t, .. } | C::Serde { t, .. } = c {
        cx.class(format!("depth:{}", t.depth()));
        for (name, f) in [
            ("map", (|t| matches!(t, Tree::Map(..))) as fn(&Tree) -> bool),
            ("struct", |t| matches!(t, Tree::Struct(..))),
            ("seq", |t| matches!(t, Tree::Seq(..))),
            ("tuple", |t| matches!(t, Tree::Tuple(..))),
            ("variant", |t| {
                matches!(
                    t,
                    Tree::UnitVar(..) | Tree::NewVar(..) | Tree::TupVar(..) | Tree::StructVar(..)
                )
            }),
            ("option", |t| matches!(t, Tree::Some(..) | Tree::OptNone)),
            ("128-bit", |t| {
                matches!(t, Tree::P(Prim::U128(_)) | Tree::P(Prim::I128(_)))
            }),
            ("bytes", |t| matches!(t, Tree::Bytes(..))),
        ] {
            if t.any(&f) {
                cx.class(format!("has {}", name));
            }
        }
    }
}

fn structured(c: &C) -> bool {
    match c {
        C::Sval { t, .. } | C::Serde { t, .. } => t.depth() > 1,
        C::Seq { items, .. } => !items.is_empty(),
        _ => false,
    }
}

fn c05(t: &mut Tape, cx: &mut Cx) -> Out {
    if SERDE && t.chance(1, 8) {
        return crate::extra::readable(t, cx);
    }
    let human = !t.chance(1, 4);
    let r = crate::extra::as_format(human, || modelled(t, cx, &TREES, FRAMEWORK, 3, SERDE_G, 0));
    cx.class(if human { "readable format" } else { "binary format" });
    let (_, m, _) = r?;
    tree_class(cx, &m.c);
    cx.nontrivial = structured(&m.c);
    Ok(())
}

fn c06(t: &mut Tape, cx: &mut Cx) -> Out {
    let (_, m, _) = modelled(t, cx, &TREES, FRAMEWORK, 3, SVAL_G, 0)?;
    tree_class(cx, &m.c);
    cx.nontrivial = structured(&m.c);
    Ok(())
}

// ------------------------------------------------------------ histories

fn c08(t: &mut Tape, cx: &mut Cx) -> Out {
    let groups = NUM | CAST | FMT | SERDE_G | SVAL_G | SEQ_G | ERR_G;
    let (h, m, ops) = modelled(t, cx, &ALL, ops::BUFFERS, 8, groups, 0)?;
    let m0 = h.content();
    cx.class(kind(&m0.c));
    cx.nontrivial = ops.iter().any(|o| o.buffers());
    if m0.c.fails() {
        return Ok(());
    }
    let a = observe(&h.bag(), groups, &[]);
    let b = after(&h, &ops, groups, &[]);
    let is_err = |c: &C| any_err(c);
    cx.checks += same(&a, &b, &|k| {
        // what can be lent depends on where it lives
        k.contains("borrowed")
            || k.contains("try_&")
            || k.ends_with(".exact")
            || (k == "is_empty" && m0.filled)
            || (k == "{:?}" && is_err(&m0.c))
            || (k == "{}" && is_err(&m0.c) && !matches!(m0.c, C::Err { .. }))
            || (k.starts_with('{') && collects(&m0.c))
    })?;
    let _ = m;
    Ok(())
}

/// Includes a `serde` value that has text formatted, which is printed without quotes
fn collects(c: &C) -> bool {
    match c {
        C::Serde { t, .. } => t.collects(),
        C::Seq { items, .. } => items.iter().any(collects),
        _ => false,
    }
}

/// The content's debug text includes that of an error, which isn't kept
fn any_err(c: &C) -> bool {
    match c {
        C::Err { .. } => true,
        C::Seq { items, .. } => items.iter().any(any_err),
        _ => false,
    }
}

fn c09(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen {
        fail: true,
        w: [6, 5, 2, 4, 3, 6, 3, 2, 3, 3, 2, 1],
        ..ALL
    };
    let h = gen_held(t, &g);
    let m0 = h.content();
    let (first, m1) = gen_ops(t, ops::BUFFERS, 2, &m0);
    let n = 1 + t.below(6);
    let refs: Vec<Op> = (0..n).map(|_| *t.pick(ops::REFS)).collect();
    let fmts = gen_fmts(t, 2);
    let buffer = OWNED && t.chance(1, 3);
    cx.desc = format!(
        "{}{} ; {} {:?}{}",
        h.desc(),
        ops_desc(&first),
        ops_desc(&refs),
        fmts,
        if buffer { " then buffered" } else { "" }
    );
    cx.class(h.route());
    cx.class(kind(&m1.c));
    step_class(cx, &refs);
    cx.nontrivial = true;
    let groups = DOWN | if m1.c.fails() { EVERYTHING & !TOKEN } else { EVERYTHING };
    let lend = matches!(m1.c, C::Err { shared: true, .. });
    let mut r = Ok(0);
    let mut all = 0;
    ops::run(h.bag(), &first, &mut |b| {
        let before = observe(b, groups, &fmts);
        ops::run(b.by_ref(), &refs, &mut |b2| {
            let o = observe(b2, groups, &fmts);
            r = same(&before, &o, &|k| {
                // a reference to a shared error can lend what the bag itself can't
                lend && (k.contains("orrowed_error") || k.contains("dyn Error") || k.ends_with(".call"))
            });
        });
        // neither does buffering it, including whether it's still the same object
        #[cfg(feature = "owned")]
        if r.is_ok() && buffer {
            let groups = NUM | CAST | FMT | FLAGS | DOWN;
            let want = observe(&b.to_owned().by_ref(), groups, &fmts);
            // a filler can share a different object each time it's asked
            let here = before.iter().any(|(k, _)| k.starts_with("downcast"));
            ops::run(b.by_ref(), &refs, &mut |b2| {
                let o = b2.to_owned();
                r = r.clone().and_then(|n| {
                    same(&want, &observe(&o.by_ref(), groups, &fmts), &|k| !here && k.starts_with("downcast"))
                        .map(|m| n + m)
                        .map_err(|e| format!("buffered: {}", e))
                });
            });
        }
        // looking at it twice makes no difference
        if r.is_ok() {
            r = r.clone().and_then(|n| {
                same(&before, &observe(b, groups, &fmts), &|_| false).map(|m| n + m)
            });
        }
        all += 1;
    });
    cx.checks += r?;
    let _ = (all, buffer);
    Ok(())
}

fn c14(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen {
        fail: true,
        ..ALL
    };
    let h = gen_held(t, &g);
    let m0 = h.content();
    let n = 1 + t.below(4);
    let fills: Vec<Op> = (0..n)
        .map(|_| {
            *t.pick(&[
                Op::Fill,
                Op::FillRef,
                Op::Fill,
                Op::FillFn,
                Op::ByRef,
                Op::Clone,
            ])
        })
        .collect();
    let fmts = gen_fmts(t, 2);
    let mut m = m0.clone();
    for f in &fills {
        m = f.apply(&m).expect("filling is always possible");
    }
    cx.desc = format!("{}{} {:?}", h.desc(), ops_desc(&fills), fmts);
    cx.class(h.route());
    cx.class(kind(&m0.c));
    cx.nontrivial = fills.iter().any(|f| matches!(f, Op::Fill | Op::FillRef | Op::FillFn));
    let mut groups = EVERYTHING;
    if m0.c.fails() {
        groups &= !TOKEN;
    }
    let skip = |k: &str| {
        // answered only by looking at the value directly
        k.ends_with("is_empty") || k.contains("_error") || k.contains("dyn Error")
            || (k.ends_with(".call") && matches!(m0.c, C::Err { .. }))
    };
    let direct = observe(&h.bag(), groups, &fmts);
    let mut r = Ok(0);
    ops::run(h.bag(), &fills, &mut |b| {
        for _ in 0..2 {
            let o = observe(b, groups, &fmts);
            r = r.clone().and_then(|n| same(&direct, &o, &skip).map(|m| n + m));
            r = r
                .clone()
                .and_then(|n| compare(&expected(&m, groups, &fmts), &o).map(|m| n + m));
        }
    });
    cx.checks += r?;
    if OWNED {
        let buffered = M::new(m0.c.buffered());
        let mut groups = NUM | CAST | FMT | SERDE_G | SVAL_G | SEQ_G | ERR_G | VISIT | TOKEN;
        if buffered.c.fails() {
            groups &= !TOKEN;
        }
        let a = after(&h, &[Op::ToOwned], groups, &[]);
        let mut ops = fills.clone();
        ops.push(Op::ToOwned);
        let b = after(&h, &ops, groups, &[]);
        cx.checks += same(&a, &b, &|_| false)?;
        cx.checks += compare(&expected(&buffered, groups, &[]), &b)?;
    }
    Ok(())
}

// ------------------------------------------------------------ buffered text

fn c11(t: &mut Tape, cx: &mut Cx) -> Out {
    // the length first, then how it's cut up
    let len = match t.weighted(&[300, 300, 100, 50, 1]) {
        0 => t.below(70),
        1 => {
            let b = *t.pick(&[22usize, 46, 23, 47, 64, 21, 45, 16, 32, 128, 256]);
            b + t.below(7) - 3
        }
        2 => t.below(300),
        3 => t.below(5000),
        _ => 65536 + t.below(7) - 3,
    };
    let len = t.at_most(len, 260);
    let text = text_of_len(t, len);
    let parts = cut(t, &text);
    cx.class(format!("len:{}", len.min(150)));
    let how = t.below(4);
    let h = match how {
        0 => {
            let r = t.below(STR_ROUTES.len());
            str_held(text.clone(), r)
        }
        1 => {
            let r = t.below(FMT_ROUTES.len());
            frag_held(
                Frag(FragData {
                    parts,
                    marked: false,
                }),
                r,
            )
        }
        2 => {
            let r = t.below(ERR_ROUTES.len());
            err_held(
                ErrVal {
                    msg: Frag(FragData {
                        parts,
                        marked: false,
                    }),
                    src: None,
                },
                r,
            )
        }
        _ => {
            let mode = gen_str_mode(t);
            let r = t.below(TREE_ROUTES.len());
            tree_held(Tree::Str(text.clone(), mode), r)
        }
    }
    .available();
    let mut ops = vec![*t.pick(&[
        Op::ToOwned,
        Op::ToShared,
        Op::IntoShared,
        Op::OwnedClone,
        Op::FromOwned,
    ])];
    let (more, _) = gen_ops(t, ops::BUFFERS, 2, &h.content());
    ops.extend(more);
    let mut m = h.content();
    for o in &ops {
        m = match o.apply(&m) {
            Some(m) => m,
            None => return Ok(()),
        };
    }
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class(h.route());
    cx.class(format!("pieces:{}", match h {
        Held::F(ref f, ..) => f.0.parts.len().min(9),
        Held::E(ref e, ..) => e.msg.0.parts.len().min(9),
        _ => 1,
    }));
    cx.nontrivial = len > 0;
    let groups = CAST | FMT | SERDE_G | SVAL_G | ERR_G | TOKEN;
    let o = after(&h, &ops, groups, &[]);
    cx.checks += compare(&expected(&m, groups, &[]), &o)?;
    // the text itself, without the model in between
    let dbg = match h {
        Held::S(_, r) => matches!(
            STR_ROUTES[r].1,
            K::Dbg | K::DbgOpt | K::ShDbg | K::ShDbgOpt | K::FillDbg
        ),
        _ => false,
    };
    let quoted = format!("{:?}", text);
    let want = format!("{:?}", if dbg { quoted.clone() } else { text });
    let framework = matches!(h, Held::T(..)) || matches!(m.c, C::Sval { .. } | C::Serde { .. });
    for (k, v) in &o {
        if k == "{}" && !framework && *v != want {
            return Err(format!("{}: got {} but expected {}", k, v, want));
        }
    }
    Ok(())
}

pub fn cut(t: &mut Tape, text: &str) -> Vec<Part> {
    let style = t.below(4);
    let mut parts = Vec::new();
    let mut rest = text;
    while !rest.is_empty() {
        let first = rest.chars().next().unwrap();
        let n = match style {
            0 => rest.len(),
            1 => first.len_utf8(),
            2 => 1 + t.below(30),
            _ => 1 + t.below(rest.len()),
        }
        .min(rest.len());
        let mut n = n.max(first.len_utf8());
        while !rest.is_char_boundary(n) {
            n += 1;
        }
        let (a, b) = rest.split_at(n);
        rest = b;
        if t.chance(1, 8) {
            parts.push(Part::Text(String::new()));
        }
        if a.chars().count() == 1 && t.flip() {
            parts.push(Part::Char(first));
        } else if t.chance(1, 4) {
            parts.push(Part::Pad(a.into()));
        } else {
            parts.push(Part::Text(a.into()));
        }
    }
    parts
}

// ------------------------------------------------------------ sequences

const SEQS: Gen = Gen {
    w: [1, 1, 1, 1, 1, 8, 6, 4, 8, 4, 2, 0],
    depth: 3,
    tree_depth: 3,
    ..ALL
};

fn c12(t: &mut Tape, cx: &mut Cx) -> Out {
    if t.chance(1, 3) {
        return c12_tree(t, cx);
    }
    if t.chance(1, 400) {
        return c12_long(t, cx);
    }
    let (h, m, ops) = modelled(t, cx, &SEQS, ops::ANY, 3, SEQ_G, 0)?;
    seq_class(cx, &m.c);
    if t.chance(1, 3) {
        let mut r = Ok(0);
        ops::run(h.bag(), &ops, &mut |b| r = collections(b));
        cx.checks += r?;
    }
    Ok(())
}

/// More elements than fit in any buffer that's likely to be used
fn c12_long(t: &mut Tape, cx: &mut Cx) -> Out {
    let n = *t.pick(&[128usize, 256, 512, 1024]) + t.below(5) - 2;
    let n = t.at_most(n, 40);
    let h = match t.below(3) {
        0 => prim_seq(t, n),
        1 => str_seq(t, n),
        _ => {
            let o = TreeOpts { fail: false, named: false, bytes: false };
            let r = t.below(TREE_ROUTES.len());
            let v = (0..n).map(|_| gen_leaf(t, o)).collect();
            tree_held(Tree::Seq(v, t.flip()), r)
        }
    }
    .available();
    let (ops, m) = gen_ops(t, ops::ANY, 2, &h.content());
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class("long");
    cx.class(h.route());
    seq_class(cx, &m.c);
    let groups = SEQ_G | FMT | SERDE_G | SVAL_G;
    cx.checks += compare(&expected(&m, groups, &[]), &after(&h, &ops, groups, &[]))?;
    let mut r = Ok(0);
    ops::run(h.bag(), &ops, &mut |b| r = collections(b));
    cx.checks += r?;
    Ok(())
}

fn seq_class(cx: &mut Cx, c: &C) {
    cx.class(kind(c));
    let n = match c.elements() {
        Some(Some(v)) => {
            cx.class(format!("elements:{}", v.len().min(12)));
            v.len()
        }
        Some(None) => {
            cx.class("not a sequence");
            0
        }
        None => 0,
    };
    cx.nontrivial = n > 0;
}

/// Takes what it's given one at a time, or many at once
struct Pile<T>(Vec<T>);

impl<T> Default for Pile<T> {
    fn default() -> Self {
        Pile(Vec::new())
    }
}

impl<T> Extend<T> for Pile<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let it = iter.into_iter();
        let (low, high) = it.size_hint();
        let before = self.0.len();
        self.0.extend(it);
        let n = self.0.len() - before;
        if n < low || high.map_or(false, |h| n > h) {
            panic!("promised {}..{:?} elements but gave {}", low, high, n);
        }
    }
}

/// Starts off with something in it
struct Begun<T>(Vec<Option<T>>);

impl<T> Default for Begun<T> {
    fn default() -> Self {
        Begun(vec![None])
    }
}

impl<T> Extend<Option<T>> for Begun<T> {
    fn extend<I: IntoIterator<Item = Option<T>>>(&mut self, iter: I) {
        self.0.extend(iter)
    }
}

/// What's collected doesn't depend on what it's collected into
fn collections(b: &ValueBag) -> Result<usize, String> {
    let _ = b;
    let mut n = 0;
    #[cfg(feature = "seq")]
    {
        use std::collections::{BTreeSet, LinkedList, VecDeque};
        macro_rules! all {
            ($($f:ident $t:ty, $show:expr;)*) => {
                $({
                    let want = b.$f::<Vec<_>>().map(|v| v.into_iter().map($show).collect::<Vec<_>>());
                    let deque = b.$f::<VecDeque<_>>().map(|v| v.into_iter().map($show).collect::<Vec<_>>());
                    let list = b.$f::<LinkedList<_>>().map(|v| v.into_iter().map($show).collect::<Vec<_>>());
                    let pile = b.$f::<Pile<Option<$t>>>().map(|v| v.0.into_iter().map($show).collect::<Vec<_>>());
                    let begun = b.$f::<Begun<$t>>().map(|v| v.0.into_iter().skip(1).map($show).collect::<Vec<_>>());
                    for (name, got) in [("VecDeque", deque), ("LinkedList", list), ("custom", pile), ("begun", begun)] {
                        if got != want {
                            return Err(format!(
                                "{}: a {} gets {:?} but a Vec gets {:?}",
                                stringify!($f), name, got, want
                            ));
                        }
                        n += 1;
                    }
                })*
            };
        }
        all! {
            to_u64_seq u64, opt;
            to_i64_seq i64, opt;
            to_u128_seq u128, opt;
            to_i128_seq i128, opt;
            to_f64_seq f64, optf;
            to_bool_seq bool, opt;
            to_char_seq char, opt;
            to_borrowed_str_seq &str, opt;
        }
        #[cfg(feature = "alloc")]
        all! { to_str_seq std::borrow::Cow<str>, opt; }
        let want: Vec<String> = b.as_f64_seq::<Vec<f64>>().into_iter().map(show_f64).collect();
        let pile: Vec<String> = b.as_f64_seq::<Pile<f64>>().0.into_iter().map(show_f64).collect();
        if pile != want {
            return Err(format!("as_f64_seq: a custom gets {:?} but a Vec gets {:?}", pile, want));
        }
        let set = b.to_i128_seq::<BTreeSet<_>>();
        let vec = b.to_i128_seq::<Vec<_>>().map(|v| v.into_iter().collect::<BTreeSet<_>>());
        if set != vec {
            return Err(format!("to_i128_seq: a set gets {:?} but a Vec gets {:?}", set, vec));
        }
        n += 2;
    }
    Ok(n)
}

/// A sequence in a framework, element by element against captured elements
fn c12_tree(t: &mut Tape, cx: &mut Cx) -> Out {
    let n = match t.weighted(&[6, 2, 1]) {
        0 => t.below(5),
        1 => t.below(12),
        _ => t.below(31),
    };
    let o = TreeOpts {
        fail: false,
        named: true,
        bytes: true,
    };
    let els: Vec<Tree> = (0..n)
        .map(|_| {
            let d = t.below(4);
            gen_tree(t, d, o)
        })
        .collect();
    let hint = t.flip();
    let tree = if t.chance(1, 4) {
        Tree::Tuple(els.clone())
    } else {
        Tree::Seq(els.clone(), hint)
    };
    let r = t.below(TREE_ROUTES.len());
    let h = tree_held(tree, r).available();
    let (ops, m) = gen_ops(t, ops::ANY, 2, &h.content());
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class(h.route());
    step_class(cx, &ops);
    seq_class(cx, &m.c);
    let o = after(&h, &ops, SEQ_G, &[]);
    cx.checks += compare(&expected(&m, SEQ_G, &[]), &o)?;
    let sval = match m.c {
        C::Sval { .. } => true,
        C::Serde { .. } => false,
        _ => return Ok(()),
    };
    if !ALLOC || !SEQ {
        return Ok(());
    }
    for (i, e) in els.iter().enumerate() {
        let b = element(e, sval);
        for (k, v) in observe(&b, NUM | CAST, &[]) {
            if k.contains("borrowed") || k.starts_with("try_") || k == "is_empty" {
                continue;
            }
            let key = format!("seq.{}[{}]", k, i);
            match o.iter().find(|(k, _)| *k == key) {
                Some((_, got)) if *got == v => cx.checks += 1,
                Some((_, got)) => {
                    return Err(format!("{}: got {} but the element alone gives {}", key, got, v))
                }
                None => return Err(format!("{}: missing", key)),
            }
        }
    }
    Ok(())
}

fn element<'v>(t: &'v Tree, sval: bool) -> ValueBag<'v> {
    #[cfg(feature = "sval2")]
    if sval {
        return ValueBag::from_sval2(t);
    }
    let _ = sval;
    #[cfg(feature = "serde1")]
    return ValueBag::from_serde1(t);
    #[cfg(not(feature = "serde1"))]
    ValueBag::from_debug(t)
}

// ------------------------------------------------------------ visiting

fn c13(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen {
        fail: t.chance(1, 6),
        w: [8, 6, 2, 3, 3, 6, 2, 1, 2, 3, 2, 1],
        ..ALL
    };
    let reject = t.chance(1, 3);
    let groups = VISIT | if reject { REJECT } else { 0 };
    let (_, m, _) = modelled(t, cx, &g, ops::ANY, 3, groups, 0)?;
    cx.class(kind(&m.c));
    cx.class(if reject { "rejecting visitor" } else { "accepting visitor" });
    cx.nontrivial = !m.c.fails();
    Ok(())
}

// ------------------------------------------------------------ errors

fn c16(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen {
        w: [1, 1, 1, 1, 20, 1, 1, 0, 1, 4, 1, 0],
        fail: false,
        ..ALL
    };
    const STEPS: &[Op] = &[
        Op::ByRef,
        Op::ToOwned,
        Op::Clone,
        Op::ToShared,
        Op::IntoShared,
        Op::OwnedClone,
        Op::CloneDrop,
        Op::FromOwned,
        Op::Fill,
        Op::ShareTwice,
        Op::Thread,
    ];
    let groups = ERR_G | FMT | SERDE_G | SVAL_G | VISIT | CAST | NUM;
    let (h, m, _) = modelled(t, cx, &g, STEPS, 4, groups, 0)?;
    cx.class(kind(&m.c));
    if let C::Err { ref e, .. } = m.c {
        let mut n = 0;
        let mut cur = e;
        while let Some(ref s) = cur.src {
            n += 1;
            cur = s;
        }
        cx.class(format!("sources:{}", n));
        cx.nontrivial = true;
    }
    #[cfg(feature = "error")]
    if let Held::E(ref e, _, _, r) = h {
        if r < 5 {
            let bag = h.bag();
            let got = bag.to_borrowed_error().and_then(|e| e.downcast_ref::<ErrVal>());
            match got {
                Some(g) if std::ptr::eq(g, e) => cx.checks += 1,
                _ => return Err("to_borrowed_error: not the captured error".into()),
            }
        }
    }
    let _ = h;
    Ok(())
}

// ------------------------------------------------------------ tokens

fn c22(t: &mut Tape, cx: &mut Cx) -> Out {
    let (_, m, _) = modelled(t, cx, &ALL, UNBUFFERED_OR_OWNED, 4, TOKEN, 0)?;
    cx.class(kind(&m.c));
    cx.nontrivial = !matches!(m.c, C::Empty);
    Ok(())
}

const UNBUFFERED_OR_OWNED: &[Op] = &[
    Op::ByRef,
    Op::Clone,
    Op::CloneDrop,
    Op::Fill,
    Op::FillRef,
    Op::AsDebug,
    Op::AsSerde,
    Op::AsSval,
    Op::ToOwned,
    Op::ToShared,
];

// ------------------------------------------------------------ memory

/// Any other property's case, run where memory errors are noticed
fn c20(t: &mut Tape, cx: &mut Cx) -> Out {
    const OTHERS: &[&str] = &[
        "C09", "C10", "C03", "C11", "C15", "C17", "C08", "C12", "C13", "C14", "C18", "C04", "C07",
        "C16", "C01", "C02", "C05", "C06", "C22", "C23", "C25", "C27", "C28",
    ];
    // an interpreter is too slow for anything but small cases
    if cfg!(miri) || t.chance(1, 3) {
        return if t.chance(1, 5) {
            let (inner, r) = crate::runner::case(crate::down::c15, t);
            *cx = inner;
            cx.desc.insert_str(0, "C15: ");
            only_memory(r)
        } else {
            crate::mem::small(t, cx)
        };
    }
    let id = *t.pick(OTHERS);
    let (inner, r) = crate::runner::case(find(id).expect("property"), t);
    cx.desc = format!("{}: {}", id, inner.desc);
    cx.class(id);
    cx.checks += inner.checks + 1;
    cx.nontrivial = inner.nontrivial;
    only_memory(r)
}

/// Cases of the others that are small enough for an interpreter, whatever platform that is
fn c32(t: &mut Tape, cx: &mut Cx) -> Out {
    const OTHERS: &[&str] = &[
        "C01", "C02", "C04", "C05", "C06", "C07", "C11", "C12", "C15", "C16", "C17", "C22", "C24",
    ];
    let id = *t.pick(OTHERS);
    t.limit = 6 + t.below(24);
    let (inner, r) = crate::runner::case(find(id).expect("property"), t);
    *cx = inner;
    cx.desc.insert_str(0, ": ");
    cx.desc.insert_str(0, id);
    cx.class(id);
    r
}

/// What the answers are is for another property to judge
fn only_memory(r: Out) -> Out {
    match r {
        Ok(()) => Ok(()),
        Err(e) if e.contains("memory:") => Err(e),
        Err(_) => Ok(()),
    }
}
