//! What isn't copied, and what isn't allocated.

use crate::alloc;
use crate::data::*;
use crate::held::*;
use crate::model::*;
use crate::ops::{self, gen_ops, Op};
use crate::props::*;
use crate::rec::*;
use crate::tape::Tape;
use crate::tree::*;
use value_bag::{visit::Visit, Error, ValueBag};

type At = (usize, usize);

fn at(s: &str) -> At {
    (s.as_ptr() as usize, s.len())
}

/// Every way of borrowing the text of a bag
fn lent<'v>(b: &ValueBag<'v>) -> Vec<(&'static str, Option<At>)> {
    let mut v = vec![
        ("to_borrowed_str", b.to_borrowed_str().map(at)),
        ("TryInto<&str>", <&str>::try_from(b.by_ref()).ok().map(at)),
    ];
    #[cfg(feature = "alloc")]
    {
        use std::borrow::Cow;
        v.push((
            "to_str",
            match b.to_str() {
                Some(Cow::Borrowed(s)) => Some(at(s)),
                _ => None,
            },
        ));
        v.push((
            "TryInto<Cow>",
            match Cow::<str>::try_from(b.by_ref()) {
                Ok(Cow::Borrowed(s)) => Some(at(s)),
                _ => None,
            },
        ));
    }
    for k in [0, 4] {
        let mut log = VisitLog::new(false, 0);
        let _ = visit_with(b, k, &mut log);
        v.push(("visit_borrowed_str", log.borrowed));
    }
    #[cfg(feature = "sval2")]
    {
        let mut rec = SvalRec::new(None);
        let r = sval_ref::stream_ref(&mut rec, b.by_ref());
        let r = sval_out(rec, r);
        v.push((
            "sval stream_ref",
            if r.computed == 0 && r.borrowed.len() == 1 {
                Some(r.borrowed[0])
            } else {
                None
            },
        ));
        let r = sval_of(b, None);
        v.push((
            "sval stream",
            if r.computed == 0 && r.borrowed.len() == 1 {
                Some(r.borrowed[0])
            } else {
                None
            },
        ));
    }
    v
}

#[cfg(feature = "seq")]
fn lent_seq<'v>(b: &ValueBag<'v>) -> Vec<(&'static str, Option<Vec<Option<At>>>)> {
    #[allow(unused_mut)]
    let mut v = vec![(
        "to_borrowed_str_seq",
        b.to_borrowed_str_seq::<Vec<_>>()
            .map(|v| v.into_iter().map(|s| s.map(at)).collect()),
    )];
    #[cfg(feature = "alloc")]
    {
        use std::borrow::Cow;
        v.push((
            "to_str_seq",
            b.to_str_seq::<Vec<_>>().map(|v| {
                v.into_iter()
                    .map(|s| match s {
                        Some(Cow::Borrowed(s)) => Some(at(s)),
                        _ => None,
                    })
                    .collect()
            }),
        ));
    }
    v
}

pub fn c17(t: &mut Tape, cx: &mut Cx) -> Out {
    match t.weighted(&[6, 3, 2, 3]) {
        0 => text(t, cx),
        1 => sequence(t, cx),
        2 => tree_sequence(t, cx),
        _ => buffered(t, cx),
    }
}

const STEPS: &[Op] = &[Op::ByRef, Op::Clone, Op::CloneDrop, Op::Fill, Op::FillRef];

fn text(t: &mut Tape, cx: &mut Cx) -> Out {
    let s = gen_text(t);
    let r = t.below(STR_ROUTES.len());
    let h = str_held(s.clone(), r).available();
    let (st, r) = match h {
        Held::S(ref st, r) => (st, r),
        _ => unreachable!(),
    };
    let k = STR_ROUTES[r].1;
    let (ops, _) = gen_ops(t, STEPS, 4, &h.content());
    let filled = ops.iter().any(|o| matches!(o, Op::Fill | Op::FillRef));
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class(h.route());
    cx.nontrivial = !s.is_empty();
    if s.is_empty() {
        return Ok(());
    }
    let want = st.range(r);
    let must = match k {
        K::Nat => true,
        K::Sval | K::SvalOpt => !filled,
        _ => false,
    };
    let never = matches!(
        k,
        K::Serde | K::SerdeOpt | K::Dbg | K::Disp | K::FillDbg | K::FillDisp | K::FillSerde | K::FillSval
    );
    let mut res = Ok(0);
    ops::run(h.bag(), &ops, &mut |b| {
        res = lent(b).into_iter().try_fold(0, |n, (name, got)| match got {
            Some(_) if never => Err(format!("{}: temporary text was lent", name)),
            Some(got) if got != want && (must || k == K::FillNat) => {
                Err(format!("{}: lent a copy of the text", name))
            }
            None if must && !(filled && name.starts_with("sval")) => {
                Err(format!("{}: the text wasn't lent", name))
            }
            _ => Ok(n + 1),
        });
    });
    cx.checks += res?;
    Ok(())
}

fn sequence(t: &mut Tape, cx: &mut Cx) -> Out {
    let h = gen_str_seq(t).available();
    let (q, r) = match h {
        Held::QS(ref q, r) => (q, r),
        _ => return Ok(()),
    };
    let _ = (q, r);
    let (ops, _) = gen_ops(t, ops::REFS, 4, &h.content());
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class(h.route());
    cx.nontrivial = q.strs.iter().any(|s| !s.is_empty());
    #[cfg(feature = "seq")]
    {
        let want = q.ranges(r);
        let must = r < 8;
        let never = r == 8;
        let mut res = Ok(0);
        ops::run(h.bag(), &ops, &mut |b| {
            res = lent_seq(b).into_iter().try_fold(0, |n, (name, got)| {
                let got = got.ok_or_else(|| format!("{}: not a sequence", name))?;
                if got.len() != want.len() {
                    return Err(format!("{}: {} elements rather than {}", name, got.len(), want.len()));
                }
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    if w.1 == 0 {
                        continue;
                    }
                    match g {
                        Some(g) if must && g != w => {
                            return Err(format!("{}[{}]: lent a copy of the text", name, i))
                        }
                        None if must => return Err(format!("{}[{}]: the text wasn't lent", name, i)),
                        Some(_) if never && ops.is_empty() => {
                            return Err(format!("{}[{}]: temporary text was lent", name, i))
                        }
                        _ => (),
                    }
                }
                Ok(n + got.len())
            });
        });
        cx.checks += res?;
    }
    Ok(())
}

/// Text inside an sval sequence
fn tree_sequence(t: &mut Tape, cx: &mut Cx) -> Out {
    let n = t.below(6);
    let els: Vec<Tree> = (0..n)
        .map(|_| {
            if t.chance(1, 4) {
                gen_leaf(t, TreeOpts { fail: false, named: false, bytes: false })
            } else {
                Tree::Str(gen_short(t), gen_str_mode(t))
            }
        })
        .collect();
    let r = t.below(12);
    let h = tree_held(Tree::Seq(els, t.flip()), r).available();
    let (ops, m) = gen_ops(t, ops::REFS, 3, &h.content());
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class(h.route());
    let _ = (&m, &ops);
    #[cfg(feature = "seq")]
    if let Held::T(Tree::Seq(ref els, _), ..) = h {
        cx.nontrivial = els.iter().any(|e| matches!(e, Tree::Str(s, _) if !s.is_empty()));
        let b = match m.c {
            C::Sval { ref t, b, .. } if needs_alloc(t, b) => return Ok(()),
            C::Sval { b, .. } => b,
            C::Serde { .. } => Bor::No,
            _ => return Ok(()),
        };
        let mut res = Ok(0);
        ops::run(h.bag(), &ops, &mut |bag| {
            res = lent_seq(bag).into_iter().try_fold(0, |n, (name, got)| {
                let got = got.ok_or_else(|| format!("{}: not a sequence", name))?;
                if got.len() != els.len() {
                    return Err(format!("{}: {} elements rather than {}", name, got.len(), els.len()));
                }
                for (i, (g, e)) in got.iter().zip(els).enumerate() {
                    match (g, e) {
                        (_, Tree::Str(s, _)) if s.is_empty() => (),
                        (Some(g), Tree::Str(s, StrMode::Borrowed)) if b == Bor::Yes && *g != at(s) => {
                            return Err(format!("{}[{}]: lent a copy of the text", name, i))
                        }
                        (None, Tree::Str(_, StrMode::Borrowed)) if b == Bor::Yes => {
                            return Err(format!("{}[{}]: the text wasn't lent", name, i))
                        }
                        (Some(_), Tree::Str(_, StrMode::Computed | StrMode::ComputedPieces(_))) => {
                            return Err(format!("{}[{}]: temporary text was lent", name, i))
                        }
                        (Some(_), _) if b == Bor::No => {
                            return Err(format!("{}[{}]: temporary text was lent", name, i))
                        }
                        _ => (),
                    }
                }
                Ok(n + got.len())
            });
        });
        cx.checks += res?;
    }
    Ok(())
}

/// Text owned by a buffered value
fn buffered(t: &mut Tape, cx: &mut Cx) -> Out {
    let s = gen_text(t);
    let r = t.below(23);
    let h = str_held(s.clone(), r).available();
    let shared = t.flip();
    let refs = t.below(4);
    cx.desc = format!("{} buffered, shared: {}, references: {}", h.desc(), shared, refs);
    cx.class(h.route());
    cx.nontrivial = !s.is_empty();
    #[cfg(feature = "owned")]
    if !s.is_empty() {
        let src = match h {
            Held::S(ref st, r) => st.range(r),
            _ => unreachable!(),
        };
        let o = if shared { h.bag().to_shared() } else { h.bag().to_owned() };
        let first = o.by_ref().to_borrowed_str().map(at);
        let first = match first {
            Some(f) => f,
            None => return Err("buffered text wasn't lent".into()),
        };
        if first.0 < src.0 + src.1 && src.0 < first.0 + first.1 {
            return Err("memory: the buffered text is still the source's".into());
        }
        let b = o.by_ref();
        let mut ops = vec![Op::ByRef; refs];
        if shared {
            ops.push(Op::Clone);
        }
        let mut res = Ok(0);
        ops::run(b, &ops, &mut |b| {
            res = lent(b).into_iter().try_fold(0, |n, (name, got)| match got {
                Some(g) if g == first => Ok(n + 1),
                Some(_) => Err(format!("{}: lent a copy of the buffered text", name)),
                None => Err(format!("{}: the buffered text wasn't lent", name)),
            });
        });
        cx.checks += res?;
    }
    Ok(())
}

// ------------------------------------------------------------ allocations

struct Quiet(u64);

impl<'v> Visit<'v> for Quiet {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.0 += 1;
        Ok(())
    }

    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.0 ^= v;
        Ok(())
    }

    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        self.0 ^= v.len() as u64;
        Ok(())
    }
}

fn none<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let (r, n) = alloc::count(f);
    if n == 0 {
        Ok(r)
    } else {
        Err(format!("{}: {} allocations", what, n))
    }
}

fn look(b: &ValueBag) -> Out {
    let r = none("by_ref", || b.by_ref())?;
    let c = none("clone", || b.clone())?;
    for b in [b, &r, &c] {
        none("casts", || {
            let mut n = 0u64;
            n ^= b.to_u64().unwrap_or(0);
            n ^= b.to_i64().unwrap_or(0) as u64;
            n ^= b.to_u128().unwrap_or(0) as u64;
            n ^= b.to_i128().unwrap_or(0) as u64;
            n ^= b.to_f64().unwrap_or(0.0).to_bits();
            n ^= b.as_f64().to_bits();
            n ^= b.to_bool().unwrap_or(false) as u64;
            n ^= b.to_char().unwrap_or(' ') as u64;
            n ^= b.to_borrowed_str().unwrap_or("").len() as u64;
            n ^= b.is_empty() as u64;
            n ^= b.is::<u64>() as u64;
            n ^= <&str>::try_from(b.by_ref()).unwrap_or("").len() as u64;
            #[cfg(feature = "alloc")]
            {
                n ^= b.to_str().map(|s| s.len()).unwrap_or(0) as u64;
                n ^= std::borrow::Cow::<str>::try_from(b.by_ref())
                    .map(|s| s.len())
                    .unwrap_or(0) as u64;
            }
            std::hint::black_box(n)
        })?;
        none("visit", || b.visit(Quiet(0)))?.map_err(|e| e.to_string())?;
    }
    Ok(())
}

pub const INLINE: usize = if cfg!(feature = "inline-str-l") {
    46
} else if cfg!(feature = "inline-str") {
    22
} else {
    0
};

pub fn c21(t: &mut Tape, cx: &mut Cx) -> Out {
    match t.weighted(&[3, 3, 2, 3, 3]) {
        0 => {
            // primitives
            let p = gen_prim(t);
            let routes: Vec<usize> = (0..PRIM_ROUTES.len())
                .filter(|r| PRIM_ROUTES[*r].1 == K::Nat)
                .collect();
            let h = prim_held(p, *t.pick(&routes)).available();
            value(cx, &h, true)
        }
        1 => {
            let s = gen_text(t);
            let routes: Vec<usize> = (0..STR_ROUTES.len())
                .filter(|r| STR_ROUTES[*r].1 == K::Nat && *r != 1)
                .collect();
            let small = s.len() <= INLINE;
            let h = str_held(s, *t.pick(&routes)).available();
            value(cx, &h, small)
        }
        2 => {
            let r = t.below(ABSENT_ROUTES.len());
            let h = Held::Absent(if r == 15 { 0 } else { r }).available();
            value(cx, &h, true)
        }
        3 => shared(t, cx),
        _ => formatted(t, cx),
    }
}

/// Formatted text that's short enough is kept in place
fn formatted(t: &mut Tape, cx: &mut Cx) -> Out {
    struct Pieces(String, usize);

    impl std::fmt::Debug for Pieces {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            let (a, b) = self.0.split_at(self.1);
            f.write_str(a)?;
            f.write_str(b)
        }
    }

    impl std::fmt::Display for Pieces {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            std::fmt::Debug::fmt(self, f)
        }
    }

    let s = gen_text(t);
    let mut cut = t.below(s.len() + 1);
    while !s.is_char_boundary(cut) {
        cut -= 1;
    }
    let small = s.len() <= INLINE;
    let v = Pieces(s, cut);
    let route = t.below(6);
    cx.desc = format!("formatted {:?} cut at {} route {}", v.0, cut, route);
    cx.class(if small { "can be kept in place" } else { "only captured" });
    cx.nontrivial = true;
    let b = none("capturing", || match route {
        0 => ValueBag::from_debug(&v),
        1 => ValueBag::from_display(&v),
        2 => ValueBag::capture_debug(&v),
        3 => ValueBag::capture_display(&v),
        4 => ValueBag::from_dyn_debug(&v),
        _ => ValueBag::from_dyn_display(&v),
    })?;
    none("by_ref", || b.by_ref())?;
    none("clone", || b.clone())?;
    cx.checks += 1;
    #[cfg(feature = "owned")]
    if small {
        let o = if t.flip() { b.to_owned() } else { b.to_shared() };
        let mut c = none("cloning the owned value", || o.clone())?;
        for _ in 0..t.below(3) {
            c = c.into_shared();
            c = none("cloning the owned value", || c.clone())?;
        }
        let same = c.by_ref().to_string();
        if same != v.0 {
            return Err(format!("got {:?} but expected {:?}", same, v.0));
        }
        cx.checks += 1;
    }
    Ok(())
}

/// Capture, look at, and perhaps buffer without allocating
fn value(cx: &mut Cx, h: &Held, small: bool) -> Out {
    cx.desc = format!("{} small: {}", h.desc(), small);
    cx.class(h.route());
    cx.class(if small { "can be buffered in place" } else { "only looked at" });
    cx.nontrivial = true;
    let b = none("capturing", || h.bag())?;
    look(&b)?;
    cx.checks += 1;
    #[cfg(feature = "owned")]
    if small {
        let o = none("to_owned", || b.to_owned())?;
        let s = none("to_shared", || b.to_shared())?;
        let c = none("cloning the owned value", || o.clone())?;
        let i = none("into_shared", || c.into_shared())?;
        for o in [&o, &s, &i] {
            look(&o.by_ref())?;
        }
        let again = none("buffering again", || i.by_ref().to_owned())?;
        look(&again.by_ref())?;
        cx.checks += 1;
    }
    Ok(())
}

/// Handles to a shared value are cheap, and leave it alone
fn shared(t: &mut Tape, cx: &mut Cx) -> Out {
    let _ = (&t, &cx);
    #[cfg(feature = "owned")]
    {
        use crate::life::*;
        use std::sync::atomic::Ordering;
        let text = gen_short(t);
        let (v, counts) = Tracked::new(text.clone());
        let r = t.below(SHARES.len());
        let (r, bag) = match share(r, v) {
            Ok(b) => (r, b),
            Err(v) => (0, share(0, v).ok().expect("always there")),
        };
        let n = 1 + t.below(8);
        let plan: Vec<usize> = (0..n).map(|_| t.below(6)).collect();
        cx.desc = format!("{} of {:?}: {:?}", SHARES[r], text, plan);
        cx.class(SHARES[r]);
        cx.nontrivial = true;
        let uses = || counts.uses.load(Ordering::SeqCst);
        let before = uses();
        if before != 0 {
            return Err(format!("capturing used the value {} times", before));
        }
        let mut o = none("to_owned", || bag.to_owned())?;
        for p in plan {
            o = match p {
                0 => none("to_owned", || bag.to_owned())?,
                1 => none("to_shared", || bag.to_shared())?,
                2 => none("cloning the owned value", || o.clone())?,
                3 => none("into_shared", || o.into_shared())?,
                4 => none("buffering again", || o.by_ref().to_owned())?,
                _ => {
                    let c = none("cloning the bag", || bag.clone())?;
                    none("sharing again", || c.by_ref().to_shared())?
                }
            };
            none("by_ref", || std::hint::black_box(o.by_ref().by_ref().is_empty()))?;
            if uses() != 0 {
                return Err("the value's own code was run".into());
            }
            cx.checks += 1;
        }
    }
    Ok(())
}
