//! Failures: of the captured value, and of whatever consumes it.

use crate::data::*;
use crate::held::*;
use crate::model::*;
use crate::observe::*;
use crate::ops::{self, gen_ops, Op};
use crate::props::*;
use crate::rec::*;
use crate::specs::SPECS;
use crate::tape::Tape;
use std::fmt::{self, Write};
use value_bag::fill::{Fill, Slot};
use value_bag::{Error, ValueBag};

/// Refuses text from the n-th piece on
struct Sink {
    left: usize,
    failed: bool,
    after: usize,
    calls: usize,
    text: String,
}

impl Sink {
    fn new(left: usize) -> Sink {
        Sink {
            left,
            failed: false,
            after: 0,
            calls: 0,
            text: String::new(),
        }
    }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        self.calls += 1;
        if self.left == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.text.push_str(s);
        Ok(())
    }
}

fn write_to(k: usize, dbg: bool, v: &dyn Both) -> (Sink, bool) {
    let mut s = Sink::new(k);
    let r = if dbg {
        write!(s, "{:?}", v)
    } else {
        write!(s, "{}", v)
    };
    (s, r.is_ok())
}

pub fn c18(t: &mut Tape, cx: &mut Cx) -> Out {
    match t.below(60) {
        0 => unfilled(t, cx),
        n if n < 21 => failing_value(t, cx),
        _ => failing_sink(t, cx),
    }
}

const STEPS: &[Op] = &[
    Op::ByRef,
    Op::Clone,
    Op::ToOwned,
    Op::Fill,
    Op::ToShared,
    Op::IntoShared,
    Op::OwnedClone,
    Op::FillRef,
    Op::AsDebug,
    Op::AsDisplay,
    Op::AsSerde,
    Op::AsSval,
    Op::ShareTwice,
];

/// A filler that succeeds without giving a value has none to show
fn unfilled(t: &mut Tape, cx: &mut Cx) -> Out {
    struct Unfilled;

    impl Fill for Unfilled {
        fn fill(&self, slot: Slot) -> Result<(), Error> {
            let _ = format!("{:?}", slot);
            Ok(())
        }
    }

    let n = t.below(5);
    let steps: Vec<Op> = (0..n)
        .map(|_| *t.pick(&[Op::ByRef, Op::Clone, Op::FillRef, Op::Fill]))
        .collect();
    cx.desc = format!("unfilled{}", ops_desc(&steps));
    cx.class("unfilled");
    cx.nontrivial = true;
    let mut o = Vec::new();
    let groups = NUM | CAST | SERDE_G | FMT | SVAL_G | VISIT | SEQ_G | ERR_G;
    ops::run(ValueBag::from_fill(&Unfilled), &steps, &mut |b| o = observe(b, groups, &[]));
    let mut x = expected(&M::filled(C::FailFill(false)), NUM | CAST | SERDE_G, &[]);
    for k in ["is_empty", "is_bool", "is_char"] {
        x.remove(k);
    }
    cx.checks += compare(&x, &o)?;
    Ok(())
}

/// A value, or part of one, that can't be produced
fn failing_value(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen {
        w: [0, 0, 0, 6, 4, 10, 0, 0, 4, 5, 4, 6],
        fail: true,
        ..ALL
    };
    let mut h = gen_held(t, &g);
    for _ in 0..4 {
        if h.fails() {
            break;
        }
        h = gen_held(t, &g);
    }
    let m0 = h.content();
    let (ops, m) = gen_ops(t, STEPS, 3, &m0);
    let fmts = gen_fmts(t, 1);
    cx.desc = format!("value: {}{} {:?}", h.desc(), ops_desc(&ops), fmts);
    cx.class(h.route());
    cx.class(if m.c.fails() { "fails" } else { "doesn't fail" });
    for o in &ops {
        cx.class(format!("step:{:?}", o));
    }
    cx.nontrivial = m.c.fails();
    let mut groups = NUM | CAST | FMT | FLAGS | SERDE_G | SVAL_G | VISIT | SEQ_G | ERR_G;
    // a token of something that couldn't be formatted or filled panics
    if !matches!(m.c, C::FailFill(_) | C::Fmt { .. }) {
        groups |= TOKEN;
    }
    let x = expected(&m, groups, &fmts);
    let o = after(&h, &ops, groups, &fmts);
    cx.checks += compare(&x, &o)?;
    // what the failure says
    if let Held::FailFill(ref f) = h {
        let says = match f.0 {
            FailHow::Fmt => None,
            FailHow::Boxed if !cfg!(feature = "error") => None,
            _ => Some("failed to fill"),
        };
        if let (Some(says), true) = (says, ops.is_empty()) {
            for k in ["visit0.res", "visit1.res"] {
                let got = &o.iter().find(|(k2, _)| k2 == k).unwrap().1;
                if got != &format!("err:{}", says) {
                    return Err(format!("{}: got {} but the filler said {}", k, got, says));
                }
                cx.checks += 1;
            }
        }
    }
    #[cfg(feature = "serde1")]
    {
        // a message from inside a serde value reaches a serde consumer
        if let Held::T(ref tree, ..) = h {
            if ops.is_empty() && tree.fails() && matches!(m.c, C::Serde { .. }) {
                let want = serde_of(tree, None).ok;
                let got = serde_of(&h.bag(), None).ok;
                if got != want {
                    return Err(format!("serde failure: got {:?} but expected {:?}", got, want));
                }
                cx.checks += 1;
            }
        }
    }
    Ok(())
}

/// Consumers that fail part way
fn failing_sink(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen {
        w: [3, 2, 1, 4, 2, 10, 3, 2, 5, 3, 2, 0],
        ..ALL
    };
    let h = gen_held(t, &g);
    let m0 = h.content();
    let (ops, m) = gen_ops(t, STEPS, 3, &m0);
    let which = t.below(4);
    let spot = t.any();
    cx.desc = format!("sink {} at {}: {}{}", which, spot, h.desc(), ops_desc(&ops));
    cx.class(h.route());
    for o in &ops {
        cx.class(format!("step:{:?}", o));
    }
    cx.nontrivial = true;
    // `sval`'s own bridge to `serde` has its own messages
    let plain = !cx.desc.contains("sval") && !cx.desc.contains("Sval");
    let stops = !formats(&m.c);
    let mut r = Ok(0);
    ops::run(h.bag(), &ops, &mut |b| {
        r = match which {
            0 => serde_sink(b, spot, plain, stops),
            1 => sval_sink(b, spot, stops),
            2 => fmt_sink(b, spot, &m),
            _ => visit_sink(b),
        };
    });
    cx.class(["serializer", "stream", "formatter", "visitor"][which]);
    cx.checks += r?;
    Ok(())
}

/// The calls to fail at: all of them if there are few
fn spots(n: usize, spot: u64) -> Vec<usize> {
    if n <= 12 {
        (0..n).collect()
    } else {
        (0..12).map(|i| ((spot >> (i * 5)) as usize + i * n / 12) % n).collect()
    }
}

/// Includes something formatted: other people's formatting may carry on regardless
fn formats(c: &C) -> bool {
    match c {
        C::Fmt { .. } | C::Text(_) | C::Err { .. } => true,
        C::Seq { items, .. } => items.iter().any(formats),
        C::Sval { t, .. } | C::Serde { t, .. } => t.collects(),
        _ => false,
    }
}

fn serde_sink(b: &ValueBag, spot: u64, plain: bool, stops: bool) -> Result<usize, String> {
    let _ = (b, spot, plain, stops);
    #[cfg(feature = "serde1")]
    {
        let full = serde_of(b, None);
        if full.ok.is_err() {
            return Ok(0);
        }
        let mut n = 0;
        for k in spots(full.calls, spot) {
            let r = serde_of(b, Some(k));
            match r.ok {
                Ok(()) => return Err(format!("serializer failed at call {} but serializing succeeded", k)),
                Err(e) if plain && !e.contains("sink failure") => {
                    return Err(format!("serializer's failure became {:?}", e))
                }
                Err(_) => (),
            }
            if stops && r.after > 0 {
                return Err(format!("{} calls after the serializer failed at {}", r.after, k));
            }
            if !full.exact.starts_with(&r.exact) {
                return Err(format!("before failing at {}: {} rather than {}", k, r.exact, full.exact));
            }
            n += 1;
        }
        return Ok(n);
    }
    #[cfg(not(feature = "serde1"))]
    Ok(0)
}

fn sval_sink(b: &ValueBag, spot: u64, stops: bool) -> Result<usize, String> {
    let _ = (b, spot, stops);
    #[cfg(feature = "sval2")]
    {
        let full = sval_of(b, None);
        if !full.ok {
            return Ok(0);
        }
        let mut n = 0;
        for k in spots(full.calls, spot) {
            let r = sval_of(b, Some(k));
            if r.ok {
                return Err(format!("stream failed at call {} but streaming succeeded", k));
            }
            if stops && r.after > 0 {
                return Err(format!("{} calls after the stream failed at {}", r.after, k));
            }
            if !full.exact.starts_with(&r.exact) {
                return Err(format!("before failing at {}: {} rather than {}", k, r.exact, full.exact));
            }
            n += 1;
        }
        return Ok(n);
    }
    #[cfg(not(feature = "sval2"))]
    Ok(0)
}

fn fmt_sink(b: &ValueBag, spot: u64, m: &M) -> Result<usize, String> {
    let mut n = 0;
    for dbg in [false, true] {
        let (full, ok) = write_to(usize::MAX, dbg, b);
        if !ok {
            continue;
        }
        for k in spots(full.calls, spot) {
            let (s, ok) = write_to(k, dbg, b);
            if ok {
                return Err(format!("formatter failed at write {} but formatting succeeded", k));
            }
            // other people's formatting may carry on regardless
            if s.after > 0 && !matches!(m.c, C::Sval { .. } | C::Serde { .. } | C::Seq { .. } | C::Fmt { .. }) {
                return Err(format!("{} writes after the formatter failed at {}", s.after, k));
            }
            if !full.text.starts_with(&s.text) {
                return Err(format!("before failing at {}: {:?} rather than {:?}", k, s.text, full.text));
            }
            n += 1;
        }
        let _ = SPECS;
    }
    Ok(n)
}

fn visit_sink(b: &ValueBag) -> Result<usize, String> {
    let mut n = 0;
    for k in 0..VISITORS {
        let mut log = VisitLog::new(true, 0);
        match visit_with(b, k, &mut log) {
            Ok(()) if log.calls.is_empty() => {
                return Err(format!("visitor {} wasn't called, but visiting succeeded", k))
            }
            Ok(()) => return Err(format!("visitor {} refused but visiting succeeded", k)),
            Err(e) => {
                let e = e.to_string();
                if log.calls.len() == 1 && e != VISIT_FAILURE {
                    return Err(format!("visitor {}'s failure became {:?}", k, e));
                }
            }
        }
        if log.calls.len() > 1 {
            return Err(format!("visitor {} called again after refusing: {:?}", k, log.calls));
        }
        n += 1;
    }
    Ok(n)
}
