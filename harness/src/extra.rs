//! When captured code runs, what happens when it panics, the crate's own error
//! type, and owned bags looked at directly.

use crate::data::*;
use crate::held::*;
use crate::model::*;
use crate::observe::*;
use crate::ops::{self, gen_ops, Op};
use crate::props::*;
use crate::rec::*;
use crate::specs::SPECS;
use crate::tape::Tape;
use std::cell::Cell;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use value_bag::{
    fill::{Fill, Slot},
    visit::Visit,
    Error, ValueBag,
};

thread_local! {
    static TICKS: Cell<usize> = const { Cell::new(0) };
    static BOOM_AT: Cell<usize> = const { Cell::new(0) };
    static MEANWHILE_AT: Cell<usize> = const { Cell::new(0) };
    static MEANWHILE: Cell<Option<&'static dyn Fn()>> = const { Cell::new(None) };
    /// What the recording serializer says of itself
    pub static READABLE: Cell<bool> = const { Cell::new(true) };
}

/// What captured and consuming code panics with
struct Boom(usize);

/// Called whenever code that isn't the crate's is run by it
pub fn tick() {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if BOOM_AT.with(|b| b.get()) == n {
            // once only: values are also used while they're dropped
            BOOM_AT.with(|b| b.set(0));
            std::panic::panic_any(Boom(n));
        }
        let every = MEANWHILE_AT.with(|m| m.get());
        if every > 0 && n % every == 0 {
            // what's done meanwhile isn't interrupted itself
            if let Some(f) = MEANWHILE.with(|m| m.take()) {
                f();
                t.set(n);
                MEANWHILE.with(|m| m.set(Some(f)));
            }
        }
    })
}

/// Do something else every so many times other code is run
pub fn meanwhile<R>(every: usize, other: &dyn Fn(), f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            MEANWHILE_AT.with(|m| m.set(0));
            MEANWHILE.with(|m| m.set(None));
        }
    }
    // SAFETY: it's taken away again before this function returns
    let other: &'static dyn Fn() = unsafe { std::mem::transmute(other) };
    let _reset = Reset;
    TICKS.with(|t| t.set(0));
    MEANWHILE.with(|m| m.set(Some(other)));
    MEANWHILE_AT.with(|m| m.set(every));
    f()
}

/// How many times other code was run
fn ticks<R>(f: impl FnOnce() -> R) -> (usize, R) {
    let before = TICKS.with(|t| t.get());
    let r = f();
    (TICKS.with(|t| t.get()) - before, r)
}

/// Run with a panic at the n-th time other code is run
fn armed<R>(at: usize, f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    TICKS.with(|t| t.set(0));
    BOOM_AT.with(|b| b.set(at));
    let r = catch_unwind(AssertUnwindSafe(f));
    BOOM_AT.with(|b| b.set(0));
    r
}

// ------------------------------------------------------------ owned bags

#[cfg(not(feature = "owned"))]
pub fn c23(_: &mut Tape, _: &mut Cx) -> Out {
    Ok(())
}

/// An owned bag says the same as the view it lends
#[cfg(feature = "owned")]
pub fn c23(t: &mut Tape, cx: &mut Cx) -> Out {
    use value_bag::OwnedValueBag;
    let g = Gen {
        fail: t.chance(1, 8),
        ..ALL
    };
    let h = gen_held(t, &g);
    let m0 = h.content();
    let (ops, m1) = gen_ops(t, ops::ANY, 2, &m0);
    let last = t.below(6);
    let fmts = gen_fmts(t, 4);
    let groups = EVERYTHING & !TOKEN & !VISIT;
    let shared = matches!(last, 1 | 2 | 5);
    let m = M::new(if shared { m1.c.buffered().shared() } else { m1.c.buffered() });
    const LAST: &[&str] = &[
        "to_owned",
        "to_shared",
        "to_owned.into_shared",
        "to_owned.clone",
        "to_owned of an owned",
        "clone of a shared",
    ];
    cx.desc = format!("{}{} > {} {:?}", h.desc(), ops_desc(&ops), LAST[last], fmts);
    cx.class(h.route());
    cx.class(LAST[last]);
    cx.nontrivial = true;
    let mut res = Ok(0);
    ops::run(h.bag(), &ops, &mut |b| {
        let o: OwnedValueBag = match last {
            0 => b.to_owned(),
            1 => b.to_shared(),
            2 => b.to_owned().into_shared(),
            3 => b.to_owned().clone(),
            4 => b.to_owned().by_ref().to_owned(),
            _ => b.to_shared().clone(),
        };
        res = owned_case(&o, &m, groups, &fmts);
    });
    cx.checks += res?;
    Ok(())
}

#[cfg(feature = "owned")]
fn owned_case(o: &value_bag::OwnedValueBag, m: &M, groups: u32, fmts: &[FmtAt]) -> Result<usize, String> {
    let view = o.by_ref();
    let want = observe(&view, groups, fmts);
    let mut n = compare(&expected(m, groups, fmts), &want)?;
    let said = |k: &str| want.iter().find(|(x, _)| x == k).map(|(_, v)| v.clone());
    let mut is = |k: &str, got: String| -> Out {
        match said(k) {
            Some(w) if w == got => {
                n += 1;
                Ok(())
            }
            w => Err(format!("{}: the owned bag gives {} but what it lends gives {:?}", k, got, w)),
        }
    };
    let text = |r: Result<String, String>| match r {
        Ok(s) => format!("{:?}", s),
        Err(_) => "ERR".into(),
    };
    is("{}", text(plain(false, o)))?;
    is("{:?}", text(plain(true, o)))?;
    for (i, w, p) in fmts {
        is(
            &format!("{} w={} p={}", SPECS[*i].0, w, p),
            text((SPECS[*i].1)(o, *w, *p)),
        )?;
    }
    #[cfg(feature = "serde1")]
    {
        let r = serde_of(o, None);
        let ok = r.ok.is_ok();
        is("serde", if ok { r.norm } else { "ERR".into() })?;
        is("serde.exact", if ok { r.exact } else { "ERR".into() })?;
    }
    #[cfg(feature = "sval2")]
    {
        let r = sval_of(o, None);
        is("sval.open", (r.ok && r.open).to_string())?;
        is("sval", if r.ok { r.norm } else { "ERR".into() })?;
        is("sval.exact", if r.ok { r.exact } else { "ERR".into() })?;
        // text that the view lends is lent by the owned bag too
        let mut rec = SvalRec::new(None);
        let lent = sval_ref::stream_ref(&mut rec, o.by_ref());
        let lent = sval_out(rec, lent);
        if lent.borrowed.len() != r.borrowed.len() {
            return Err(format!(
                "sval: the owned bag lends {} pieces of text but what it lends does {}",
                r.borrowed.len(),
                lent.borrowed.len()
            ));
        }
    }
    n += same(&want, &observe(&ValueBag::from(o), groups, fmts), &|_| false)
        .map_err(|e| format!("converted: {}", e))?;
    // `serde` formats text of its own accord, and panics when that fails
    if m.c.fails() {
        return Ok(n);
    }
    // captured in turn, as a value of its own
    let mut pairs = vec![
        ("from_debug", ValueBag::from_debug(o), ValueBag::from_debug(&view)),
        ("from_display", ValueBag::from_display(o), ValueBag::from_display(&view)),
        ("capture_debug", ValueBag::capture_debug(o), ValueBag::from_debug(&view)),
        ("capture_display", ValueBag::capture_display(o), ValueBag::from_display(&view)),
        ("capture_shared_debug", ValueBag::capture_shared_debug(o.clone()), ValueBag::from_debug(&view)),
    ];
    #[cfg(feature = "serde1")]
    pairs.push(("from_serde1", ValueBag::from_serde1(o), ValueBag::from_serde1(&view)));
    #[cfg(feature = "sval2")]
    pairs.push(("from_sval2", ValueBag::from_sval2(o), ValueBag::from_sval2(&view)));
    for (name, a, b) in pairs {
        n += same(&observe(&b, groups, fmts), &observe(&a, groups, fmts), &|k| k.contains("borrowed") || k.contains("try_&"))
            .map_err(|e| format!("{}: {}", name, e))?;
    }
    Ok(n)
}

// ------------------------------------------------------------ formats

/// Serialize to a format that's meant for people, or one that isn't
pub fn as_format<R>(human: bool, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            READABLE.with(|r| r.set(true));
        }
    }
    let _reset = Reset;
    READABLE.with(|r| r.set(human));
    f()
}

#[cfg(not(feature = "serde1"))]
pub fn readable(_: &mut Tape, _: &mut Cx) -> Out {
    Ok(())
}

/// A value that serializes differently in formats meant for people, like an address or a date
#[cfg(feature = "serde1")]
#[derive(Clone, Debug)]
struct Shaped(crate::tree::Tree, crate::tree::Tree);

#[cfg(feature = "serde1")]
impl serde_core::Serialize for Shaped {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            self.0.serialize(s)
        } else {
            self.1.serialize(s)
        }
    }
}

#[cfg(feature = "serde1")]
impl<'v> From<&'v Shaped> for ValueBag<'v> {
    fn from(v: &'v Shaped) -> ValueBag<'v> {
        ValueBag::from_serde1(v)
    }
}

#[cfg(feature = "serde1")]
struct FillShaped(Shaped);

#[cfg(feature = "serde1")]
impl Fill for FillShaped {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        slot.fill_serde1(&self.0)
    }
}

/// What kind of format it's serialized to is passed on to the value
#[cfg(feature = "serde1")]
pub fn readable(t: &mut Tape, cx: &mut Cx) -> Out {
    use crate::tree::*;
    let o = TreeOpts {
        fail: false,
        named: true,
        bytes: true,
    };
    let d = t.below(3);
    let v = Shaped(gen_tree(t, d, o), gen_tree(t, d, o));
    let inside = t.below(4);
    let route = t.below(5);
    let human = t.flip();
    let k = t.below(4);
    let ops: Vec<Op> = (0..k)
        .map(|_| *t.pick(&[Op::ByRef, Op::Clone, Op::CloneDrop, Op::Fill, Op::FillFn, Op::AsSerde]))
        .collect();
    cx.desc = format!("{:?} inside {} by {} readable: {}{}", v, inside, route, human, ops_desc(&ops));
    cx.class(if human { "readable format" } else { "binary format" });
    cx.nontrivial = true;
    fn go<T: serde_core::Serialize + Clone + Send + Sync + 'static>(
        v: &T,
        f: &dyn Fill,
        r: usize,
        ops: &[Op],
    ) -> Out {
        let fill = |slot: Slot| f.fill(slot);
        let bag = match r {
            0 => ValueBag::from_serde1(v),
            1 => ValueBag::capture_serde1(v),
            #[cfg(feature = "owned")]
            2 => ValueBag::capture_shared_serde1(v.clone()),
            3 => ValueBag::from_fill(&fill),
            _ => ValueBag::from_serde1(v),
        };
        let want = serde_of(v, None);
        let mut out = Ok(());
        ops::run(bag, ops, &mut |b| {
            let got = serde_of(b, None);
            if got.ok.is_ok() != want.ok.is_ok() || got.exact != want.exact {
                out = Err(format!("got {} but expected {}", got.exact, want.exact));
            }
        });
        out
    }
    cx.checks += 1;
    as_format(human, || match inside {
        0 => {
            let v = vec![v.clone(), v.clone()];
            let (a, b) = (v[0].clone(), v[1].clone());
            #[cfg(feature = "seq")]
            if route == 4 {
                let mut out = Ok(());
                let want = serde_of(&&v[..], None);
                ops::run(ValueBag::from_seq_slice(&v), &ops, &mut |b| {
                    let got = serde_of(b, None);
                    if got.norm != want.norm {
                        out = Err(format!("got {} but expected {}", got.norm, want.norm));
                    }
                });
                return out;
            }
            let pair = Pair(a, b);
            go(&pair, &|slot: Slot| slot.fill_serde1(&pair), route, &ops)
        }
        _ => go(&v, &FillShaped(v.clone()), route, &ops),
    })
}

#[cfg(feature = "serde1")]
#[derive(Clone)]
struct Pair(Shaped, Shaped);

#[cfg(feature = "serde1")]
impl serde_core::Serialize for Pair {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde_core::ser::SerializeTuple;
        let mut t = s.serialize_tuple(2)?;
        t.serialize_element(&self.0)?;
        t.serialize_element(&self.1)?;
        t.end()
    }
}

// ------------------------------------------------------------ the crate's errors

#[derive(Debug)]
struct Chain(String, Option<Box<Chain>>);

impl fmt::Display for Chain {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Chain {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|s| &**s as _)
    }
}

#[derive(Clone, Debug)]
struct Msg {
    how: usize,
    text: &'static str,
}

const MSGS: &[&str] = &[
    "msg",
    "From<fmt::Error>",
    "boxed(&str)",
    "boxed(String)",
    "boxed(error)",
    "boxed(error with a source)",
    "boxed(Box<dyn Error>)",
    "From<io::Error>",
    "From<io::Error> of a kind",
];

impl Msg {
    fn make(&self) -> Error {
        match self.how {
            1 => fmt::Error.into(),
            #[cfg(feature = "std")]
            2 => Error::boxed(self.text),
            #[cfg(feature = "std")]
            3 => Error::boxed(self.text.to_string()),
            #[cfg(feature = "std")]
            4 => Error::boxed(Chain(self.text.into(), None)),
            #[cfg(feature = "std")]
            5 => Error::boxed(Chain(self.text.into(), Some(Box::new(Chain("source".into(), None))))),
            #[cfg(feature = "std")]
            6 => Error::boxed(Box::new(Chain(self.text.into(), None)) as Box<dyn std::error::Error + Send + Sync>),
            #[cfg(feature = "std")]
            7 => std::io::Error::new(std::io::ErrorKind::Other, self.text).into(),
            #[cfg(feature = "std")]
            8 => std::io::Error::from(std::io::ErrorKind::NotFound).into(),
            _ => Error::msg(self.text),
        }
    }

    fn want(&self) -> String {
        match self.how {
            1 => fmt::Error.to_string(),
            8 if cfg!(feature = "std") => std::io::Error::from(std::io::ErrorKind::NotFound).to_string(),
            _ => self.text.into(),
        }
    }
}

struct FailsWith(Msg, Option<&'static str>);

impl Fill for FailsWith {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        if let Some(s) = self.1 {
            slot.fill_any(s)?;
        }
        Err(self.0.make())
    }
}

/// Fails however it's called
struct Refuses<'a>(&'a Msg, usize);

impl<'a> Refuses<'a> {
    fn no(&mut self) -> Result<(), Error> {
        self.1 += 1;
        Err(self.0.make())
    }
}

impl<'v, 'a> Visit<'v> for Refuses<'a> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.no()
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        self.no()
    }
    fn visit_str(&mut self, _: &str) -> Result<(), Error> {
        self.no()
    }
    fn visit_u64(&mut self, _: u64) -> Result<(), Error> {
        self.no()
    }
}

/// A visitor that leaves everything to the catch-all
struct CatchAll(usize);

impl<'v> Visit<'v> for CatchAll {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.0 += 1;
        Ok(())
    }
}

/// An error says what it was made with, wherever it ends up
pub fn c24(t: &mut Tape, cx: &mut Cx) -> Out {
    let how = t.below(MSGS.len());
    let how = if how >= 2 && !cfg!(feature = "std") { 0 } else { how };
    let msg = Msg {
        how,
        text: leak_str(&gen_text(t)),
    };
    let want = msg.want();
    cx.class(MSGS[how]);
    cx.nontrivial = !want.is_empty();
    let is = |what: &str, e: &dyn fmt::Display| -> Out {
        let got = e.to_string();
        if got == want {
            Ok(())
        } else {
            Err(format!("{}: says {:?} rather than {:?}", what, got, want))
        }
    };
    match t.below(4) {
        0 => {
            cx.desc = format!("{} {:?}", MSGS[how], want);
            let e = msg.make();
            is("displayed", &e)?;
            // moving it makes no difference
            let e = std::thread::spawn(move || Box::new(e)).join().map_err(|_| "a thread panicked")?;
            is("moved", &*e)?;
            let dbg = format!("{:?}", e);
            if dbg.is_empty() {
                return Err("nothing to debug".into());
            }
            #[cfg(feature = "std")]
            {
                let d: Box<dyn std::error::Error + Send + Sync> = e;
                is("as a standard error", &*d)?;
                let again = Error::boxed(d);
                is("boxed again", &again)?;
            }
            cx.checks += 3;
        }
        1 => {
            // a filler's failure reaches whoever visits
            let partial = if t.chance(1, 3) { Some("partial") } else { None };
            let f = FailsWith(msg.clone(), partial);
            let k = t.below(4);
            let ops: Vec<Op> = (0..k)
                .map(|_| *t.pick(&[Op::Fill, Op::FillRef, Op::ByRef, Op::Clone, Op::CloneDrop]))
                .collect();
            cx.desc = format!("{} {:?} from a filler after {:?}{}", MSGS[how], want, partial, ops_desc(&ops));
            let mut r = Ok(());
            let mut n = 0;
            ops::run(ValueBag::from_fill(&f), &ops, &mut |b| {
                for k in 0..VISITORS {
                    let mut log = VisitLog::new(false, 0);
                    let e = visit_with(b, k, &mut log);
                    r = r.clone().and_then(|()| match e {
                        Ok(()) => Err(format!("visitor {} saw a value that couldn't be filled", k)),
                        Err(e) => is(&format!("visitor {}", k), &e),
                    });
                    n += 1;
                }
                #[cfg(feature = "serde1")]
                {
                    let e = serde_of(b, None).ok;
                    r = r.clone().and_then(|()| match e {
                        Ok(_) => Err("serde: a value that couldn't be filled".into()),
                        Err(e) if e.to_string().contains(&want) => Ok(()),
                        Err(e) => Err(format!("serde: says {:?} rather than {:?}", e.to_string(), want)),
                    });
                    n += 1;
                }
            });
            cx.checks += n;
            r?;
        }
        _ => {
            // so does the visitor's own
            let g = Gen { fail: false, ..ALL };
            let h = gen_held(t, &g);
            let (ops, _) = gen_ops(t, ops::ANY, 2, &h.content());
            cx.desc = format!("{} {:?} from the visitor of {}{}", MSGS[how], want, h.desc(), ops_desc(&ops));
            cx.class(h.route());
            let mut r = Ok(());
            ops::run(h.bag(), &ops, &mut |b| {
                let mut v = Refuses(&msg, 0);
                r = match b.visit(&mut v) {
                    Ok(()) => Err("the visitor's refusal was lost".to_string()),
                    Err(e) => is("visiting", &e),
                };
                if v.1 != 1 {
                    r = Err(format!("the visitor was called {} times", v.1));
                }
                let mut v = CatchAll(0);
                if let Err(e) = b.visit(&mut v) {
                    r = Err(format!("a visitor that accepts gave {}", e));
                }
            });
            cx.checks += 2;
            r?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ panics

/// Collects, and can panic while it does
#[derive(Default)]
struct Basket<T>(Vec<T>);

impl<T> Extend<T> for Basket<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            tick();
            self.0.push(x);
        }
    }
}

/// Takes text, and can panic while it does
struct Paper(String);

impl Write for Paper {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        tick();
        self.0.push_str(s);
        Ok(())
    }
}

pub const QUESTIONS: &[&str] = &[
    "{}", "{:?}", "{:#?}", "serde", "sval", "visit", "to_u64_seq", "to_f64_seq", "to_str_seq",
    "casts", "to_owned", "to_shared", "token", "error", "spec",
];

pub fn ask(b: &ValueBag, q: usize, a: usize) -> String {
    let text = |r: fmt::Result, p: Paper| match r {
        Ok(()) => format!("{:?}", p.0),
        Err(_) => "ERR".to_string(),
    };
    let mut p = Paper(String::new());
    match QUESTIONS[q] {
        "{}" => text(write!(p, "{}", b), p),
        "{:?}" => text(write!(p, "{:?}", b), p),
        "{:#?}" => text(write!(p, "{:#?}", b), p),
        "spec" => {
            let s = &SPECS[a % SPECS.len()];
            format!("{:?}", (s.1)(b, 7, 3))
        }
        #[cfg(feature = "serde1")]
        "serde" => {
            let r = serde_of(b, None);
            if r.ok.is_ok() { r.exact } else { "ERR".into() }
        }
        #[cfg(feature = "sval2")]
        "sval" => {
            let r = sval_of(b, None);
            if r.ok { r.exact } else { "ERR".into() }
        }
        #[cfg(feature = "seq")]
        "to_u64_seq" => opt(b.to_u64_seq::<Basket<_>>().map(|b| b.0)),
        #[cfg(feature = "seq")]
        "to_f64_seq" => opt(b.to_f64_seq::<Basket<_>>().map(|b| b.0.into_iter().map(optf).collect::<Vec<_>>())),
        #[cfg(all(feature = "seq", feature = "alloc"))]
        "to_str_seq" => opt(b.to_str_seq::<Basket<_>>().map(|b| b.0)),
        "casts" => observe(b, NUM | CAST, &[]).into_iter().map(|(_, v)| v).collect::<Vec<_>>().join(" "),
        #[cfg(feature = "owned")]
        "to_owned" => format!("{:?}", plain(false, &b.to_owned().by_ref())),
        #[cfg(feature = "owned")]
        "to_shared" => format!("{:?}", plain(false, &b.to_shared().by_ref())),
        #[cfg(feature = "test")]
        "token" => match b.to_test_token() {
            value_bag::test::TestToken::F64(v) => show_f64(v),
            t => format!("{:?}", t),
        },
        #[cfg(feature = "error")]
        "error" => opt(b.to_borrowed_error().map(err_text)),
        _ => {
            let mut log = VisitLog::new(false, FMT | NUM);
            let r = visit_with(b, a % VISITORS, &mut log);
            format!("{:?} {:?} {}", log.calls, log.nested, r.is_ok())
        }
    }
}

/// Panics go through, and leave everything as it was
pub fn c25(t: &mut Tape, cx: &mut Cx) -> Out {
    if OWNED && t.chance(1, 4) {
        return shared_panics(t, cx);
    }
    let h = gen_held(t, &Gen { fail: false, w: [2, 2, 0, 8, 5, 12, 2, 2, 8, 6, 6, 0], ..ALL });
    let (ops, m) = gen_ops(t, ops::ANY, 3, &h.content());
    let q = t.below(QUESTIONS.len());
    let a = t.below(64);
    let points: Vec<usize> = (0..3).map(|_| t.below(256)).collect();
    cx.desc = format!("{}{} {} {} panicking at {:?}", h.desc(), ops_desc(&ops), QUESTIONS[q], a, points);
    cx.class(h.route());
    cx.class(QUESTIONS[q]);
    let _ = m;
    let mut r = Ok(());
    ops::run(h.bag(), &ops, &mut |b| {
        r = panics(cx, b, q, a, &points);
    });
    r
}

fn panics(cx: &mut Cx, b: &ValueBag, q: usize, a: usize, points: &[usize]) -> Out {
    let groups = NUM | CAST | FMT | SERDE_G | SVAL_G | SEQ_G | ERR_G;
    let before = observe(b, groups, &[]);
    let (n, answer) = ticks(|| ask(b, q, a));
    if n == 0 {
        return Ok(());
    }
    cx.nontrivial = true;
    for p in points {
        let at = 1 + p % n;
        match armed(at, || ask(b, q, a)) {
            Ok(s) => {
                return Err(format!("the panic at {} of {} was lost, giving {}", at, n, s));
            }
            Err(e) => match e.downcast_ref::<Boom>() {
                Some(Boom(i)) if *i == at => (),
                Some(Boom(i)) => return Err(format!("a panic from {} rather than {}", i, at)),
                None => {
                    return Err(format!(
                        "the panic at {} of {} became a different one: {}",
                        at,
                        n,
                        crate::runner::last_panic()
                    ))
                }
            },
        }
        let again = ask(b, q, a);
        if again != answer {
            return Err(format!("after a panic at {}: {} became {}", at, answer, again));
        }
        cx.checks += 2;
    }
    cx.checks += same(&before, &observe(b, groups, &[]), &|_| false)
        .map_err(|e| format!("after a panic: {}", e))?;
    Ok(())
}

#[cfg(not(feature = "owned"))]
fn shared_panics(_: &mut Tape, _: &mut Cx) -> Out {
    Ok(())
}

/// Objects are still dropped once
#[cfg(feature = "owned")]
fn shared_panics(t: &mut Tape, cx: &mut Cx) -> Out {
    use crate::life::*;
    use std::sync::atomic::Ordering;
    let text = gen_short(t);
    let (v, counts) = Tracked::new(text.clone());
    let r = t.below(SHARES.len());
    let (r, bag) = match share(r, v) {
        Ok(b) => (r, b),
        Err(v) => (0, share(0, v).ok().expect("always there")),
    };
    let steps = 1 + t.below(4);
    let plan: Vec<(usize, usize, usize, usize)> = (0..steps)
        .map(|_| (t.below(QUESTIONS.len()), t.below(64), t.below(64), t.below(4)))
        .collect();
    cx.desc = format!("{} of {:?}: {:?}", SHARES[r], text, plan);
    cx.class(SHARES[r]);
    cx.class("shared");
    let drops = || counts.drops.load(Ordering::SeqCst);
    for (q, a, p, how) in plan {
        let look = |f: &mut dyn FnMut(&ValueBag) -> Out| -> Out {
            match how {
                0 => f(&bag),
                1 => f(&bag.by_ref()),
                2 => f(&bag.to_owned().by_ref()),
                _ => f(&bag.clone()),
            }
        };
        look(&mut |b| panics(cx, b, q, a, &[p]))?;
        if drops() != 0 {
            return Err("memory: dropped while there are handles to it".into());
        }
    }
    drop(bag);
    if drops() != 1 {
        return Err(format!("memory: dropped {} times after a panic", drops()));
    }
    Ok(())
}

// ------------------------------------------------------------ bags inside bags

/// Code that a bag runs can use bags itself
pub fn c27(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen { fail: false, w: [2, 2, 0, 8, 5, 12, 2, 2, 8, 6, 6, 0], ..ALL };
    let h = gen_held(t, &g);
    let (ops, _) = gen_ops(t, ops::ANY, 3, &h.content());
    let itself = t.chance(1, 3);
    let inner = if itself { h.clone() } else { gen_held(t, &Gen { w: ALL.w, ..g }) };
    let (inner_ops, _) = gen_ops(t, ops::ANY, 2, &inner.content());
    let (q, a) = (t.below(QUESTIONS.len()), t.below(64));
    let n = 1 + t.below(3);
    let qs: Vec<(usize, usize)> = (0..n).map(|_| (t.below(QUESTIONS.len()), t.below(64))).collect();
    let every = 1 + t.below(3);
    let names: Vec<String> = qs.iter().map(|(q, a)| format!("{} {}", QUESTIONS[*q], a)).collect();
    cx.desc = format!(
        "{}{} {} {}, every {} meanwhile {}{} {}",
        h.desc(), ops_desc(&ops), QUESTIONS[q], a, every,
        if itself { "itself".to_string() } else { inner.desc() }, ops_desc(&inner_ops), names.join(", ")
    );
    cx.class(h.route());
    cx.class(QUESTIONS[q]);
    cx.class(if itself { "itself" } else { "another" });
    let mut r = Ok(());
    ops::run(h.bag(), &ops, &mut |b| {
        let mut go = |other: &ValueBag| -> Out {
            let want: Vec<String> = qs.iter().map(|(q, a)| ask(other, *q, *a)).collect();
            let (ticks, answer) = ticks(|| ask(b, q, a));
            let wrong = std::cell::RefCell::new(None);
            let ran = Cell::new(0);
            let got = meanwhile(
                every,
                &|| {
                    ran.set(ran.get() + 1);
                    // the first few times are enough
                    if ran.get() > 4 {
                        return;
                    }
                    for ((q, a), want) in qs.iter().zip(&want) {
                        let got = ask(other, *q, *a);
                        if got != *want {
                            *wrong.borrow_mut() =
                                Some(format!("inside: {}: {} became {}", QUESTIONS[*q], want, got));
                        }
                    }
                },
                || ask(b, q, a),
            );
            if let Some(wrong) = wrong.into_inner() {
                return Err(wrong);
            }
            if got != answer {
                return Err(format!("outside: {} became {}", answer, got));
            }
            if ran.get() == 0 && ticks >= every {
                return Err("nothing was done meanwhile".into());
            }
            cx.checks += 1 + ran.get().min(4) * qs.len();
            cx.nontrivial |= ran.get() > 0;
            Ok(())
        };
        r = if itself && inner_ops.is_empty() {
            go(b)
        } else {
            let mut r = Ok(());
            ops::run(inner.bag(), &inner_ops, &mut |o| r = go(o));
            r
        };
    });
    r
}

// ------------------------------------------------------------ laziness

fn quiet<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    let (n, r) = ticks(f);
    if n == 0 {
        Ok(r)
    } else {
        Err(format!("{}: the captured value's own code was run {} times", what, n))
    }
}

/// Captured code isn't run until there's a need to
pub fn c26(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen {
        fail: t.chance(1, 6),
        w: [2, 2, 1, 10, 8, 8, 2, 2, 6, 6, 6, 1],
        ..ALL
    };
    let n = t.below(6);
    let steps: Vec<usize> = (0..n).map(|_| t.below(8)).collect();
    if t.chance(1, 4) {
        return tracked(t, cx, &steps);
    }
    let h = gen_held(t, &g);
    let m = h.content();
    cx.desc = format!("{} {:?}", h.desc(), steps);
    cx.class(h.route());
    let b = quiet("capturing", || h.bag())?;
    let mut r = Ok(0);
    lazily(&b, &steps, &m, true, &mut r);
    cx.checks += r?;
    // only counts when there's code that could have been run
    let (ran, _) = ticks(|| (plain(false, &b), observe(&b, SERDE_G | SVAL_G, &[])));
    cx.nontrivial = ran > 0 && h.code();
    Ok(())
}

/// A value that counts each use of it, captured every way there is
fn tracked(t: &mut Tape, cx: &mut Cx, steps: &[usize]) -> Out {
    use crate::life::*;
    const WAYS: &[&str] = &[
        "from_debug", "from_display", "from_dyn_debug", "from_dyn_display", "capture_debug",
        "capture_display", "From<&dyn Debug>", "From<&dyn Display>", "from_dyn_error",
        "capture_error", "From<&dyn Error>", "from_sval2", "capture_sval2", "from_dyn_sval2",
        "from_serde1", "capture_serde1", "from_seq_slice",
    ];
    let way = t.below(WAYS.len() + SHARES.len());
    let (v, counts) = Tracked::new(gen_short(t));
    let m = |c: fn(ErrVal) -> C| {
        M::new(c(ErrVal {
            msg: Frag(FragData { parts: vec![], marked: false }),
            src: None,
        }))
    };
    let fmt = m(|e| C::Fmt { src: Src::Err(e), dbg: true, shared: false });
    let other = &M::new(C::Poisoned);
    let got: Option<(ValueBag, &M)> = quiet("capturing", || match way {
        0 => Some((ValueBag::from_debug(&v), &fmt)),
        1 => Some((ValueBag::from_display(&v), &fmt)),
        2 => Some((ValueBag::from_dyn_debug(&v), &fmt)),
        3 => Some((ValueBag::from_dyn_display(&v), &fmt)),
        4 => Some((ValueBag::capture_debug(&v), &fmt)),
        5 => Some((ValueBag::capture_display(&v), &fmt)),
        6 => Some((ValueBag::from(&v as &dyn fmt::Debug), &fmt)),
        7 => Some((ValueBag::from(&v as &dyn fmt::Display), &fmt)),
        #[cfg(feature = "error")]
        8 => Some((ValueBag::from_dyn_error(&v), &fmt)),
        #[cfg(feature = "error")]
        9 => Some((ValueBag::capture_error(&v), &fmt)),
        #[cfg(feature = "error")]
        10 => Some((ValueBag::from(&v as &(dyn std::error::Error + 'static)), &fmt)),
        #[cfg(feature = "sval2")]
        11 => Some((ValueBag::from_sval2(&v), other)),
        #[cfg(feature = "sval2")]
        12 => Some((ValueBag::capture_sval2(&v), other)),
        #[cfg(feature = "sval2")]
        13 => Some((ValueBag::from_dyn_sval2(&v), other)),
        #[cfg(feature = "serde1")]
        14 => Some((ValueBag::from_serde1(&v), other)),
        #[cfg(feature = "serde1")]
        15 => Some((ValueBag::capture_serde1(&v), other)),
        #[cfg(feature = "seq")]
        16 => Some((ValueBag::from_seq_slice::<Tracked, u64>(&v), other)),
        #[cfg(feature = "owned")]
        w if w >= WAYS.len() => {
            let w = w - WAYS.len();
            share(w, Tracked::new("shared".into()).0)
                .ok()
                .map(|b| (b, if w < 3 { &fmt } else { other }))
        }
        _ => None,
    })?;
    // not every way is there without every feature
    let shared = way >= WAYS.len() && got.is_some();
    let name = match &got {
        None => WAYS[0],
        Some(_) if shared => SHARES[way - WAYS.len()],
        Some(_) => WAYS[way],
    };
    let (b, m) = got.unwrap_or_else(|| (ValueBag::from_debug(&v), &fmt));
    cx.desc = format!("{} of {:?} {:?}", name, v.text, steps);
    cx.class(name);
    cx.nontrivial = true;
    let mut r = Ok(0);
    lazily(&b, steps, m, true, &mut r);
    cx.checks += r?;
    // sharing what's shared already, and dropping it, don't either
    #[cfg(feature = "owned")]
    if shared {
        quiet("handles to a shared value", || drop((b.to_owned(), b.to_shared(), b.to_owned().into_shared())))?;
    }
    let _ = (counts, other);
    quiet("dropping", || drop(b))?;
    Ok(())
}

struct Wrapped<'a, 'v>(&'a ValueBag<'v>);

impl<'a, 'v> Fill for Wrapped<'a, 'v> {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        tick();
        // SAFETY: the slot isn't used after this call
        slot.fill_any(unsafe { extend(self.0.by_ref()) })
    }
}

/// Take the next step, which shouldn't run any captured code
fn lazily(b: &ValueBag, steps: &[usize], m: &M, top: bool, out: &mut Result<usize, String>) {
    let r = (|| {
        quiet("is_empty", || b.is_empty())?;
        quiet("downcasting", || observe(b, DOWN, &[]).len())?;
        let mut n = 2;
        if top && !m.filled {
            if let C::Fmt { .. } | C::Err { .. } = m.c {
                quiet("reading as other types", || observe(b, NUM | CAST | SEQ_G, &[]).len())?;
                quiet("visiting", || {
                    let mut v = CatchAll(0);
                    let _ = b.visit(&mut v);
                })?;
                n += 2;
            }
            #[cfg(feature = "error")]
            quiet("borrowing an error", || b.to_borrowed_error().is_some())?;
        }
        Ok(n)
    })();
    match r {
        Ok(n) => {
            if let Ok(x) = out {
                *x += n
            }
        }
        Err(e) => {
            *out = Err(e);
            return;
        }
    }
    let (step, rest) = match steps.split_first() {
        Some((s, r)) => (*s, r),
        None => return,
    };
    macro_rules! go {
        ($what:literal, $e:expr, $top:expr) => {
            match quiet($what, || $e) {
                Ok(b) => lazily(&b, rest, m, $top, out),
                Err(e) => *out = Err(e),
            }
        };
    }
    match step {
        0 => go!("by_ref", b.by_ref(), top),
        1 => go!("clone", b.clone(), top),
        2 => {
            let w = Wrapped(b);
            go!("from_fill", ValueBag::from_fill(&w), false)
        }
        3 => go!("from_debug", ValueBag::from_debug(b), false),
        4 => go!("from_display", ValueBag::from_display(b), false),
        #[cfg(feature = "serde1")]
        5 => go!("from_serde1", ValueBag::from_serde1(b), false),
        #[cfg(feature = "sval2")]
        6 => go!("from_sval2", ValueBag::from_sval2(b), false),
        _ => go!("from_option", ValueBag::from_option(Some(b.by_ref())), top),
    }
}
