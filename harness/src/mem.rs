//! Cases small enough to be run by an interpreter that notices any undefined behaviour.

use crate::data::*;
use crate::held::*;
use crate::model::*;
use crate::ops::{self, Op};
use crate::props::*;
use crate::tape::Tape;
use std::fmt::{self, Write};
use value_bag::{visit::Visit, Error, ValueBag};

/// Takes everything in, byte by byte
#[derive(Default)]
struct Sum {
    n: u64,
    bad: Option<&'static str>,
}

impl Sum {
    fn text(&mut self, what: &'static str, s: &str) {
        self.bytes(s.as_bytes());
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.bad = Some(what);
        }
    }

    fn bytes(&mut self, s: &[u8]) {
        for b in s {
            self.n = self.n.rotate_left(5) ^ *b as u64;
        }
    }

    fn ch(&mut self, what: &'static str, c: char) {
        if char::from_u32(c as u32).is_none() {
            self.bad = Some(what);
        }
        self.bytes(&(c as u32).to_le_bytes());
    }

    fn flag(&mut self, what: &'static str, b: bool) {
        if b as u8 > 1 {
            self.bad = Some(what);
        }
        self.bytes(&[b as u8]);
    }

    fn bits(&mut self, n: u128) {
        self.bytes(&n.to_le_bytes());
    }
}

impl Write for Sum {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.text("formatted text", s);
        Ok(())
    }
}

impl<'v> Visit<'v> for Sum {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        let _ = write!(self, "{}", v);
        Ok(())
    }

    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.bits(v as u128);
        Ok(())
    }

    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        self.bits(v as u128);
        Ok(())
    }

    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        self.bits(v);
        Ok(())
    }

    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        self.bits(v as u128);
        Ok(())
    }

    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        self.bits(v.to_bits() as u128);
        Ok(())
    }

    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        self.flag("visited boolean", v);
        Ok(())
    }

    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        self.ch("visited character", v);
        Ok(())
    }

    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.text("visited text", v);
        Ok(())
    }
}

/// Read everything there is, without keeping any of it
fn read(bag: &ValueBag, s: &mut Sum) {
    let _ = bag.visit(&mut *s);
    s.bits(bag.to_u128().unwrap_or(1));
    s.bits(bag.to_i64().unwrap_or(2) as u128);
    s.bits(bag.as_f64().to_bits() as u128);
    if let Some(b) = bag.to_bool() {
        s.flag("boolean", b);
    }
    if let Some(c) = bag.to_char() {
        s.ch("character", c);
    }
    if let Some(v) = bag.to_borrowed_str() {
        s.text("borrowed text", v);
    }
    #[cfg(feature = "alloc")]
    if let Some(v) = bag.to_str() {
        s.text("text", &v);
    }
    let _ = write!(s, "{:?}", bag);
    #[cfg(feature = "seq")]
    {
        for v in bag.to_u64_seq::<Vec<_>>().into_iter().flatten() {
            s.bits(v.unwrap_or(3) as u128);
        }
        for v in bag.to_bool_seq::<Vec<_>>().into_iter().flatten().flatten() {
            s.flag("boolean element", v);
        }
        for v in bag.to_char_seq::<Vec<_>>().into_iter().flatten().flatten() {
            s.ch("character element", v);
        }
        for v in bag.to_borrowed_str_seq::<Vec<_>>().into_iter().flatten().flatten() {
            s.text("borrowed text element", v);
        }
        #[cfg(feature = "alloc")]
        for v in bag.to_str_seq::<Vec<_>>().into_iter().flatten().flatten() {
            s.text("text element", &v);
        }
    }
    #[cfg(feature = "error")]
    {
        let mut next = bag.to_borrowed_error();
        while let Some(e) = next {
            let _ = write!(s, "{} {:?}", e, e);
            next = e.source();
        }
    }
    if let Some(v) = bag.downcast_ref::<Frag>() {
        let _ = write!(s, "{:?}", v);
    }
    if let Some(v) = bag.downcast_ref::<String>() {
        s.text("downcast text", v);
    }
    #[cfg(feature = "serde1")]
    {
        let _ = write!(s, "{:?}", serde_fmt::to_debug(bag));
    }
    #[cfg(feature = "sval2")]
    {
        struct Streamed<'a, 'v>(&'a ValueBag<'v>);

        impl<'a, 'v> fmt::Display for Streamed<'a, 'v> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                sval_fmt::stream_to_fmt(f, self.0)
            }
        }

        let _ = write!(s, "{}", Streamed(bag));
    }
}

const SMALL: Gen = Gen {
    fail: true,
    depth: 1,
    tree_depth: 1,
    w: [6, 6, 1, 3, 3, 4, 4, 4, 3, 2, 1, 1],
    ..ALL
};

/// A length around where text stops fitting inline
fn len(t: &mut Tape) -> usize {
    match t.below(4) {
        0 => t.below(6),
        1 => 20 + t.below(6),
        2 => 44 + t.below(6),
        _ => t.below(70),
    }
}

fn gen_small(t: &mut Tape) -> Held {
    match t.weighted(&[5, 2, 3]) {
        0 => gen_held(t, &SMALL),
        1 => {
            let n = len(t);
            let s = text_of_len(t, n);
            let r = t.below(STR_ROUTES.len());
            str_held(s, r).available()
        }
        _ => {
            let n = len(t);
            let s = text_of_len(t, n);
            let parts = cut(t, &s);
            let f = Frag(FragData {
                parts,
                marked: false,
            });
            if t.flip() {
                let r = t.below(FMT_ROUTES.len());
                frag_held(f, r).available()
            } else {
                let r = t.below(ERR_ROUTES.len());
                err_held(ErrVal { msg: f, src: None }, r).available()
            }
        }
    }
}

/// Capture something, take it through some steps, and read all of it
pub fn small(t: &mut Tape, cx: &mut Cx) -> Out {
    const STEPS: &[Op] = &[
        Op::ByRef,
        Op::ToOwned,
        Op::Clone,
        Op::ToShared,
        Op::IntoShared,
        Op::OwnedClone,
        Op::CloneDrop,
        Op::FromOwned,
        Op::ShareTwice,
        Op::Fill,
        Op::AsSerde,
        Op::AsSval,
        Op::Thread,
    ];
    let h = gen_small(t);
    let (ops, _) = ops::gen_ops(t, STEPS, 3, &h.content());
    cx.desc = format!("{}{}", h.desc(), ops_desc(&ops));
    cx.class(h.route());
    cx.nontrivial = true;
    let mut s = Sum::default();
    // buffered values are read once what they came from is gone
    if ops.first().map_or(false, |o| o.buffers()) {
        #[cfg(feature = "owned")]
        {
            let o = match ops[0] {
                Op::ToShared | Op::IntoShared | Op::ShareTwice => h.bag().to_shared(),
                _ => h.bag().to_owned(),
            };
            drop(h);
            ops::run(o.by_ref(), &ops[1..], &mut |b| read(b, &mut s));
        }
    } else {
        ops::run(h.bag(), &ops, &mut |b| read(b, &mut s));
        read(&h.bag(), &mut s);
    }
    cx.checks += 1;
    match s.bad {
        Some(what) => Err(format!("memory: the {} isn't valid", what)),
        None => Ok(()),
    }
}
