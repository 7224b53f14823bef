//! Values that can be asked for their content once only.

use crate::data::*;
use crate::extra::*;
use crate::held::*;
use crate::observe::*;
use crate::ops::{self, Op};
use crate::props::*;
use crate::rec::*;
use crate::specs::SPECS;
use crate::tape::Tape;
use std::fmt::{self, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

/// How many times each part of a value was asked for its content
struct Log {
    counts: Vec<AtomicUsize>,
    once: bool,
}

#[derive(Clone, Debug)]
enum Shape {
    Text(Vec<String>),
    Num(u64),
    Wide(i128),
    Seq(Vec<Shape>),
    Map(Vec<(String, Shape)>),
    Opt(Option<Box<Shape>>),
}

struct Asked {
    log: Arc<Log>,
    id: usize,
    k: Kind,
    src: Option<Box<Asked>>,
}

enum Kind {
    Text(Vec<String>),
    Num(u64),
    Wide(i128),
    Seq(Vec<Asked>),
    Map(Vec<(String, Asked)>),
    Opt(Option<Box<Asked>>),
}

const AGAIN: &str = "(asked again)";

impl Shape {
    fn size(&self) -> usize {
        1 + match self {
            Shape::Seq(v) => v.iter().map(|s| s.size()).sum(),
            Shape::Map(v) => v.iter().map(|s| s.1.size()).sum(),
            Shape::Opt(Some(s)) => s.size(),
            _ => 0,
        }
    }

    fn build(&self, log: &Arc<Log>, next: &mut usize) -> Asked {
        let id = *next;
        *next += 1;
        let k = match self {
            Shape::Text(v) => Kind::Text(v.clone()),
            Shape::Num(n) => Kind::Num(*n),
            Shape::Wide(n) => Kind::Wide(*n),
            Shape::Seq(v) => Kind::Seq(v.iter().map(|s| s.build(log, next)).collect()),
            Shape::Map(v) => Kind::Map(v.iter().map(|(n, s)| (n.clone(), s.build(log, next))).collect()),
            Shape::Opt(s) => Kind::Opt(s.as_ref().map(|s| Box::new(s.build(log, next)))),
        };
        Asked { log: log.clone(), id, k, src: None }
    }
}

fn gen_shape(t: &mut Tape, depth: usize) -> Shape {
    match t.weighted(&[5, 3, 1, if depth > 0 { 4 } else { 0 }, if depth > 0 { 3 } else { 0 }, 1]) {
        0 => {
            let n = t.below(4);
            Shape::Text((0..=n).map(|_| gen_text(t)).collect())
        }
        1 => Shape::Num(t.below(1000) as u64),
        2 => Shape::Wide(i64::MAX as i128 + t.below(1000) as i128),
        3 => {
            let n = t.below(5);
            Shape::Seq((0..n).map(|_| gen_shape(t, depth - 1)).collect())
        }
        4 => {
            let n = t.below(4);
            Shape::Map((0..n).map(|i| (format!("k{}", i), gen_shape(t, depth - 1))).collect())
        }
        _ => Shape::Opt(if depth > 0 && t.flip() { Some(Box::new(gen_shape(t, depth - 1))) } else { None }),
    }
}

fn build(shape: &Shape, sources: &[Shape], once: bool) -> (Asked, Arc<Log>) {
    let n = shape.size() + sources.iter().map(|s| s.size()).sum::<usize>();
    let log = Arc::new(Log { counts: (0..n).map(|_| AtomicUsize::new(0)).collect(), once });
    let mut next = 0;
    let mut v = shape.build(&log, &mut next);
    let mut at = &mut v;
    for s in sources {
        at.src = Some(Box::new(s.build(&log, &mut next)));
        at = at.src.as_mut().expect("just set");
    }
    (v, log)
}

impl Log {
    fn worst(&self) -> (usize, usize) {
        let mut w = (0, 0);
        for (i, c) in self.counts.iter().enumerate() {
            let n = c.load(Ordering::SeqCst);
            if n > w.1 {
                w = (i, n);
            }
        }
        w
    }
}

impl Asked {
    /// Whether the content can be given
    fn ask(&self) -> bool {
        let n = self.log.counts[self.id].fetch_add(1, Ordering::SeqCst);
        n == 0 || !self.log.once
    }
}

impl fmt::Debug for Asked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if !self.ask() {
            return f.write_str(AGAIN);
        }
        match &self.k {
            Kind::Text(v) => v.iter().try_for_each(|s| f.write_str(s)),
            Kind::Num(n) => fmt::Debug::fmt(n, f),
            Kind::Wide(n) => fmt::Debug::fmt(n, f),
            Kind::Seq(v) => f.debug_list().entries(v).finish(),
            Kind::Map(v) => f.debug_map().entries(v.iter().map(|(k, v)| (k, v))).finish(),
            Kind::Opt(v) => f.debug_tuple("Opt").field(v).finish(),
        }
    }
}

impl fmt::Display for Asked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

impl std::error::Error for Asked {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.src.as_ref().map(|s| &**s as &(dyn std::error::Error + 'static))
    }
}

impl serde_core::Serialize for Asked {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde_core::ser::{SerializeMap, SerializeSeq};
        if !self.ask() {
            return s.serialize_str(AGAIN);
        }
        match &self.k {
            Kind::Text(v) => s.serialize_str(&v.concat()),
            Kind::Num(n) => s.serialize_u64(*n),
            Kind::Wide(n) => s.serialize_i128(*n),
            Kind::Seq(v) => {
                let mut s = s.serialize_seq(Some(v.len()))?;
                v.iter().try_for_each(|v| s.serialize_element(v))?;
                s.end()
            }
            Kind::Map(v) => {
                let mut s = s.serialize_map(None)?;
                v.iter().try_for_each(|(k, v)| s.serialize_entry(&**k, v))?;
                s.end()
            }
            Kind::Opt(Some(v)) => s.serialize_some(&**v),
            Kind::Opt(None) => s.serialize_none(),
        }
    }
}

impl sval::Value for Asked {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        if !self.ask() {
            return s.value(AGAIN);
        }
        match &self.k {
            Kind::Text(v) => {
                s.text_begin(None)?;
                for (i, v) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        s.text_fragment(v)?;
                    } else {
                        s.text_fragment_computed(v)?;
                    }
                }
                s.text_end()
            }
            Kind::Num(n) => s.u64(*n),
            Kind::Wide(n) => s.i128(*n),
            Kind::Seq(v) => {
                s.seq_begin(Some(v.len()))?;
                for v in v {
                    s.seq_value_begin()?;
                    s.value(v)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Kind::Map(v) => {
                s.map_begin(None)?;
                for (k, v) in v {
                    s.map_key_begin()?;
                    s.value(&**k)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    s.value(v)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Kind::Opt(Some(v)) => s.value(&**v),
            Kind::Opt(None) => s.null(),
        }
    }
}

impl AsRef<[Asked]> for Asked {
    fn as_ref(&self) -> &[Asked] {
        match &self.k {
            Kind::Seq(v) => v,
            _ => std::slice::from_ref(self),
        }
    }
}

/// Each element in a different way
impl<'v> From<&'v Asked> for ValueBag<'v> {
    fn from(v: &'v Asked) -> Self {
        match v.id % 4 {
            #[cfg(feature = "sval2")]
            1 => ValueBag::from_sval2(v),
            #[cfg(feature = "serde1")]
            2 => ValueBag::from_serde1(v),
            3 => ValueBag::from_display(v),
            _ => ValueBag::from_debug(v),
        }
    }
}

struct AskedFill(Arc<Asked>, usize);

impl Fill for AskedFill {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        match self.1 {
            #[cfg(feature = "sval2")]
            1 => slot.fill_sval2(&*self.0),
            #[cfg(feature = "serde1")]
            2 => slot.fill_serde1(&*self.0),
            #[cfg(feature = "error")]
            3 => slot.fill_error(self.0.clone()),
            #[cfg(feature = "seq")]
            // SAFETY: the slot isn't used after this call
            4 => slot.fill_seq_slice::<Asked, Asked>(unsafe { &*Arc::as_ptr(&self.0) }),
            5 => slot.fill_display(&self.0),
            _ => slot.fill_debug(&self.0),
        }
    }
}

const WAYS: &[&str] = &[
    "from_debug", "from_display", "from_dyn_debug", "from_dyn_display", "capture_debug",
    "capture_display", "from_dyn_error", "capture_error", "from_sval2", "capture_sval2",
    "from_dyn_sval2", "from_serde1", "capture_serde1", "from_seq_slice", "fill_debug", "fill_sval2",
    "fill_serde1", "fill_error", "fill_seq_slice", "fill_display", "capture_shared_debug",
    "capture_shared_display", "capture_shared_error", "capture_shared_sval2",
    "capture_shared_serde1", "capture_shared_seq_slice",
];

/// Not every way is there without every feature
fn captured(way: usize, v: Asked, f: &mut dyn FnMut(ValueBag)) {
    match WAYS[way] {
        "from_display" => f(ValueBag::from_display(&v)),
        "from_dyn_debug" => f(ValueBag::from_dyn_debug(&v)),
        "from_dyn_display" => f(ValueBag::from_dyn_display(&v)),
        "capture_debug" => f(ValueBag::capture_debug(&v)),
        "capture_display" => f(ValueBag::capture_display(&v)),
        #[cfg(feature = "error")]
        "from_dyn_error" => f(ValueBag::from_dyn_error(&v)),
        #[cfg(feature = "error")]
        "capture_error" => f(ValueBag::capture_error(&v)),
        #[cfg(feature = "sval2")]
        "from_sval2" => f(ValueBag::from_sval2(&v)),
        #[cfg(feature = "sval2")]
        "capture_sval2" => f(ValueBag::capture_sval2(&v)),
        #[cfg(feature = "sval2")]
        "from_dyn_sval2" => f(ValueBag::from_dyn_sval2(&v)),
        #[cfg(feature = "serde1")]
        "from_serde1" => f(ValueBag::from_serde1(&v)),
        #[cfg(feature = "serde1")]
        "capture_serde1" => f(ValueBag::capture_serde1(&v)),
        #[cfg(feature = "seq")]
        "from_seq_slice" => f(ValueBag::from_seq_slice::<Asked, Asked>(&v)),
        w if w.starts_with("fill_") => {
            let how = ["fill_debug", "fill_sval2", "fill_serde1", "fill_error", "fill_seq_slice", "fill_display"];
            let how = how.iter().position(|h| *h == w).expect("listed");
            f(ValueBag::from_fill(&AskedFill(Arc::new(v), how)))
        }
        #[cfg(feature = "owned")]
        "capture_shared_debug" => f(ValueBag::capture_shared_debug(v)),
        #[cfg(feature = "owned")]
        "capture_shared_display" => f(ValueBag::capture_shared_display(v)),
        #[cfg(all(feature = "owned", feature = "error"))]
        "capture_shared_error" => f(ValueBag::capture_shared_error(v)),
        #[cfg(all(feature = "owned", feature = "sval2"))]
        "capture_shared_sval2" => f(ValueBag::capture_shared_sval2(v)),
        #[cfg(all(feature = "owned", feature = "serde1"))]
        "capture_shared_serde1" => f(ValueBag::capture_shared_serde1(v)),
        #[cfg(all(feature = "owned", feature = "seq"))]
        "capture_shared_seq_slice" => f(ValueBag::capture_shared_seq_slice::<Asked, Asked>(v)),
        _ => f(ValueBag::from_debug(&v)),
    }
}

const READS: &[&str] = &[
    "{}", "{:?}", "{:#?}", "spec", "serde", "sval", "stream_ref", "visit", "to_owned", "to_shared",
    "to_u64_seq", "to_i64_seq", "to_u128_seq", "to_f64_seq", "as_f64_seq", "to_bool_seq",
    "to_char_seq", "to_borrowed_str_seq", "to_str_seq",
];

/// One thing that can be asked of a bag
fn read(b: &ValueBag, q: usize, a: usize) -> String {
    let text = |r: fmt::Result, p: String| match r {
        Ok(()) => p,
        Err(_) => "ERR".to_string(),
    };
    let mut p = String::new();
    match READS[q] {
        "{}" => text(write!(p, "{}", b), p),
        "{:?}" => text(write!(p, "{:?}", b), p),
        "{:#?}" => text(write!(p, "{:#?}", b), p),
        "spec" => format!("{:?}", (SPECS[a % SPECS.len()].1)(b, 7, 3)),
        #[cfg(feature = "serde1")]
        "serde" => serde_of(b, None).exact,
        #[cfg(feature = "sval2")]
        "sval" => sval_of(b, None).exact,
        #[cfg(feature = "sval2")]
        "stream_ref" => {
            let mut rec = SvalRec::new(None);
            let r = sval_ref::stream_ref(&mut rec, b.by_ref());
            sval_out(rec, r).exact
        }
        "visit" => {
            struct Only(usize);
            impl<'v> value_bag::visit::Visit<'v> for Only {
                fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
                    self.0 += 1;
                    Ok(())
                }
            }
            let mut v = Only(0);
            let r = b.visit(&mut v);
            format!("{} {}", v.0, r.is_ok())
        }
        #[cfg(feature = "owned")]
        "to_owned" | "to_shared" => {
            let o = if READS[q] == "to_owned" { b.to_owned() } else { b.to_shared() };
            // what's shared already is only asked now
            let q = match a % 16 {
                8 => 0,
                9 => 1,
                n => n.min(7),
            };
            read(&o.by_ref(), q, a / 16)
        }
        #[cfg(feature = "seq")]
        "to_u64_seq" => format!("{:?}", b.to_u64_seq::<Vec<_>>()),
        #[cfg(feature = "seq")]
        "to_i64_seq" => format!("{:?}", b.to_i64_seq::<Vec<_>>()),
        #[cfg(feature = "seq")]
        "to_u128_seq" => format!("{:?}", b.to_u128_seq::<Vec<_>>()),
        #[cfg(feature = "seq")]
        "to_f64_seq" => format!("{:?}", b.to_f64_seq::<Vec<_>>()),
        #[cfg(feature = "seq")]
        "as_f64_seq" => format!("{:?}", b.as_f64_seq::<Vec<f64>>()),
        #[cfg(feature = "seq")]
        "to_bool_seq" => format!("{:?}", b.to_bool_seq::<Vec<_>>()),
        #[cfg(feature = "seq")]
        "to_char_seq" => format!("{:?}", b.to_char_seq::<Vec<_>>()),
        #[cfg(feature = "seq")]
        "to_borrowed_str_seq" => format!("{:?}", b.to_borrowed_str_seq::<Vec<_>>()),
        #[cfg(all(feature = "seq", feature = "alloc"))]
        "to_str_seq" => format!("{:?}", b.to_str_seq::<Vec<_>>()),
        _ => format!("{}", b.is_empty()),
    }
}

/// One operation asks a value for its content no more than once
pub fn c28(t: &mut Tape, cx: &mut Cx) -> Out {
    let shape = gen_shape(t, 3);
    let sources: Vec<Shape> = (0..t.below(3)).map(|_| gen_shape(t, 1)).collect();
    let way = t.below(WAYS.len());
    let steps: Vec<Op> = (0..t.below(4))
        .map(|_| {
            *t.pick(&[Op::ByRef, Op::Clone, Op::FillRef, Op::Fill, Op::FillFn, Op::CloneDrop, Op::AsDebug, Op::AsDisplay])
        })
        .collect();
    let q = t.below(READS.len());
    let a = t.below(1000);
    cx.desc = format!("{} of {:?} {:?}{} {} {}", WAYS[way], shape, sources, ops_desc(&steps), READS[q], a);
    cx.class(WAYS[way]);
    cx.class(READS[q]);
    let mut answer = |once| {
        let (v, log) = build(&shape, &sources, once);
        let mut r = String::new();
        captured(way, v, &mut |b| ops::run(b, &steps, &mut |b| r = read(b, q, a)));
        (r, log.worst())
    };
    let (want, _) = answer(false);
    let (got, (part, n)) = answer(true);
    cx.nontrivial = n > 0;
    cx.checks += 2;
    if n > 1 {
        return Err(format!("part {} of the value was asked for its content {} times, giving {}", part, n, got));
    }
    if got != want {
        return Err(format!("got {} but expected {}", got, want));
    }
    Ok(())
}
