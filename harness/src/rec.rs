//! Recording sinks for serde, sval and the visitor, which can be told to fail.

use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub name: &'static str,
    pub arg: String,
    /// Present only in the exact rendering
    pub hint: String,
}

#[derive(Default)]
pub struct Log {
    pub toks: Vec<Tok>,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub failed: bool,
    /// Calls made after the sink reported its failure
    pub after: usize,
    /// (address, length) of every piece of text that arrived as borrowed
    pub borrowed: Vec<(usize, usize)>,
    pub computed: usize,
}

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];

impl Log {
    pub fn new(fail_at: Option<usize>) -> Log {
        Log {
            fail_at,
            ..Default::default()
        }
    }

    fn call(&mut self) -> bool {
        crate::extra::tick();
        if self.failed {
            self.after += 1;
            return false;
        }
        let n = self.calls;
        self.calls += 1;
        if self.fail_at == Some(n) {
            self.failed = true;
            return false;
        }
        true
    }

    fn put(&mut self, name: &'static str, arg: String, hint: String) -> bool {
        if !self.call() {
            return false;
        }
        self.toks.push(Tok { name, arg, hint });
        true
    }

    pub fn render(&self, norm: bool) -> String {
        render(&self.toks, norm)
    }
}

pub fn render(toks: &[Tok], norm: bool) -> String {
    let mut s = String::new();
    for t in toks {
        if !s.is_empty() {
            s.push(' ');
        }
        if norm {
            if INTS.contains(&t.name) {
                s.push_str("int");
            } else if t.name == "f32" {
                s.push_str("f64");
            } else {
                s.push_str(t.name);
            }
        } else {
            s.push_str(t.name);
        }
        if !t.arg.is_empty() {
            s.push('(');
            s.push_str(&t.arg);
            s.push(')');
        }
        if !norm && !t.hint.is_empty() {
            s.push('<');
            s.push_str(&t.hint);
            s.push('>');
        }
    }
    s
}

// ---------------------------------------------------------------- serde

#[derive(Debug, Clone)]
pub struct RErr(pub String);

impl fmt::Display for RErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for RErr {}

impl serde_core::ser::Error for RErr {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        use std::fmt::Write;
        let mut s = String::new();
        let _ = write!(s, "{}", msg);
        RErr(s)
    }
}

#[derive(Clone)]
pub struct SerdeRec(pub Rc<RefCell<Log>>);

impl SerdeRec {
    pub fn new(fail_at: Option<usize>) -> SerdeRec {
        SerdeRec(Rc::new(RefCell::new(Log::new(fail_at))))
    }

    fn put(&self, name: &'static str, arg: String, hint: String) -> Result<(), RErr> {
        if self.0.borrow_mut().put(name, arg, hint) {
            Ok(())
        } else {
            Err(RErr("sink failure".into()))
        }
    }
}

macro_rules! num {
    ($($f:ident $n:ident $t:ty),*) => {
        $(fn $f(self, v: $t) -> Result<(), RErr> {
            self.put(stringify!($n), v.to_string(), String::new())
        })*
    };
}

pub struct SerdeSub(SerdeRec, &'static str);

impl serde_core::Serializer for SerdeRec {
    type Ok = ();
    type Error = RErr;
    type SerializeSeq = SerdeSub;
    type SerializeTuple = SerdeSub;
    type SerializeTupleStruct = SerdeSub;
    type SerializeTupleVariant = SerdeSub;
    type SerializeMap = SerdeSub;
    type SerializeStruct = SerdeSub;
    type SerializeStructVariant = SerdeSub;

    fn is_human_readable(&self) -> bool {
        crate::extra::READABLE.with(|r| r.get())
    }

    num!(serialize_u8 u8 u8, serialize_u16 u16 u16, serialize_u32 u32 u32, serialize_u64 u64 u64,
         serialize_u128 u128 u128, serialize_i8 i8 i8, serialize_i16 i16 i16, serialize_i32 i32 i32,
         serialize_i64 i64 i64, serialize_i128 i128 i128, serialize_bool bool bool);

    fn serialize_f32(self, v: f32) -> Result<(), RErr> {
        self.put("f32", crate::data::show_f64(v as f64), String::new())
    }

    fn serialize_f64(self, v: f64) -> Result<(), RErr> {
        self.put("f64", crate::data::show_f64(v), String::new())
    }

    fn serialize_char(self, v: char) -> Result<(), RErr> {
        self.put("char", format!("{:?}", v), format!("{:?}", v.to_string()))
    }

    fn serialize_str(self, v: &str) -> Result<(), RErr> {
        self.put("str", format!("{:?}", v), String::new())
    }

    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<(), RErr> {
        use std::fmt::Write;
        let mut s = String::new();
        if write!(s, "{}", v).is_err() {
            return Err(RErr("formatting failed".into()));
        }
        self.put("str", format!("{:?}", s), String::new())
    }

    fn serialize_bytes(self, v: &[u8]) -> Result<(), RErr> {
        self.put("bytes", format!("{:?}", v), String::new())
    }

    fn serialize_none(self) -> Result<(), RErr> {
        self.put("none", String::new(), String::new())
    }

    fn serialize_some<T: serde_core::Serialize + ?Sized>(self, v: &T) -> Result<(), RErr> {
        self.put("some", String::new(), String::new())?;
        v.serialize(self)
    }

    fn serialize_unit(self) -> Result<(), RErr> {
        self.put("unit", String::new(), String::new())
    }

    fn serialize_unit_struct(self, n: &'static str) -> Result<(), RErr> {
        self.put("unit_struct", format!("{:?}", n), String::new())
    }

    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), RErr> {
        self.put("unit_variant", format!("{:?},{},{:?}", n, i, v), String::new())
    }

    fn serialize_newtype_struct<T: serde_core::Serialize + ?Sized>(
        self,
        n: &'static str,
        v: &T,
    ) -> Result<(), RErr> {
        self.put("newtype_struct", format!("{:?}", n), String::new())?;
        v.serialize(self)
    }

    fn serialize_newtype_variant<T: serde_core::Serialize + ?Sized>(
        self,
        n: &'static str,
        i: u32,
        var: &'static str,
        v: &T,
    ) -> Result<(), RErr> {
        self.put("newtype_variant", format!("{:?},{},{:?}", n, i, var), String::new())?;
        v.serialize(self)
    }

    fn serialize_seq(self, len: Option<usize>) -> Result<SerdeSub, RErr> {
        self.put("seq[", String::new(), format!("{:?}", len))?;
        Ok(SerdeSub(self, "]"))
    }

    fn serialize_tuple(self, len: usize) -> Result<SerdeSub, RErr> {
        self.put("tuple(", len.to_string(), String::new())?;
        Ok(SerdeSub(self, ")"))
    }

    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<SerdeSub, RErr> {
        self.put("tuple_struct(", format!("{:?},{}", n, len), String::new())?;
        Ok(SerdeSub(self, ")"))
    }

    fn serialize_tuple_variant(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
        len: usize,
    ) -> Result<SerdeSub, RErr> {
        self.put("tuple_variant(", format!("{:?},{},{:?},{}", n, i, v, len), String::new())?;
        Ok(SerdeSub(self, ")"))
    }

    fn serialize_map(self, len: Option<usize>) -> Result<SerdeSub, RErr> {
        self.put("map{", String::new(), format!("{:?}", len))?;
        Ok(SerdeSub(self, "}"))
    }

    fn serialize_struct(self, n: &'static str, len: usize) -> Result<SerdeSub, RErr> {
        self.put("struct{", format!("{:?},{}", n, len), String::new())?;
        Ok(SerdeSub(self, "}"))
    }

    fn serialize_struct_variant(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
        len: usize,
    ) -> Result<SerdeSub, RErr> {
        self.put("struct_variant{", format!("{:?},{},{:?},{}", n, i, v, len), String::new())?;
        Ok(SerdeSub(self, "}"))
    }
}

macro_rules! sub {
    ($($tr:ident $f:ident),*) => {
        $(impl serde_core::ser::$tr for SerdeSub {
            type Ok = ();
            type Error = RErr;

            fn $f<T: serde_core::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RErr> {
                v.serialize(self.0.clone())
            }

            fn end(self) -> Result<(), RErr> {
                self.0.put(self.1, String::new(), String::new())
            }
        })*
    };
}

sub!(SerializeSeq serialize_element, SerializeTuple serialize_element,
     SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

impl serde_core::ser::SerializeMap for SerdeSub {
    type Ok = ();
    type Error = RErr;

    fn serialize_key<T: serde_core::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RErr> {
        self.0.put("key", String::new(), String::new())?;
        v.serialize(self.0.clone())
    }

    fn serialize_value<T: serde_core::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RErr> {
        self.0.put("value", String::new(), String::new())?;
        v.serialize(self.0.clone())
    }

    fn end(self) -> Result<(), RErr> {
        self.0.put(self.1, String::new(), String::new())
    }
}

macro_rules! subst {
    ($($tr:ident),*) => {
        $(impl serde_core::ser::$tr for SerdeSub {
            type Ok = ();
            type Error = RErr;

            fn serialize_field<T: serde_core::Serialize + ?Sized>(
                &mut self,
                k: &'static str,
                v: &T,
            ) -> Result<(), RErr> {
                self.0.put("field", format!("{:?}", k), String::new())?;
                v.serialize(self.0.clone())
            }

            fn end(self) -> Result<(), RErr> {
                self.0.put(self.1, String::new(), String::new())
            }
        })*
    };
}

subst!(SerializeStruct, SerializeStructVariant);

pub struct SerdeOut {
    pub exact: String,
    pub norm: String,
    pub ok: Result<(), String>,
    pub calls: usize,
    pub after: usize,
}

/// The serde calls a value makes
pub fn serde_of<T: serde_core::Serialize + ?Sized>(v: &T, fail_at: Option<usize>) -> SerdeOut {
    let rec = SerdeRec::new(fail_at);
    let r = v.serialize(rec.clone());
    let log = rec.0.borrow();
    SerdeOut {
        exact: log.render(false),
        norm: log.render(true),
        ok: r.map_err(|e| e.0),
        calls: log.calls,
        after: log.after,
    }
}

// ---------------------------------------------------------------- sval

#[derive(Default)]
pub struct SvalRec {
    pub log: Log,
    text: Option<(String, String)>,
    bin: Option<Vec<u8>>,
}

fn tag_of(
    tag: Option<&sval::Tag>,
    label: Option<&sval::Label>,
    index: Option<&sval::Index>,
) -> (String, String) {
    (
        format!(
            "{},{}",
            label.map(|l| format!("{:?}", l.as_str())).unwrap_or_else(|| "-".into()),
            index.map(|i| i.to_string()).unwrap_or_else(|| "-".into())
        ),
        format!(
            "{:?},{}",
            tag,
            label.map_or(false, |l| l.as_static_str().is_some())
        ),
    )
}

impl SvalRec {
    pub fn new(fail_at: Option<usize>) -> SvalRec {
        SvalRec {
            log: Log::new(fail_at),
            text: None,
            bin: None,
        }
    }

    fn put(&mut self, name: &'static str, arg: String, hint: String) -> sval::Result {
        if self.log.put(name, arg, hint) {
            Ok(())
        } else {
            Err(sval::Error::new())
        }
    }

    fn tagged(
        &mut self,
        name: &'static str,
        tag: Option<&sval::Tag>,
        label: Option<&sval::Label>,
        index: Option<&sval::Index>,
        n: Option<Option<usize>>,
    ) -> sval::Result {
        let (a, mut h) = tag_of(tag, label, index);
        if let Some(n) = n {
            h.push_str(&format!(",{:?}", n));
        }
        self.put(name, a, h)
    }
}

macro_rules! svnum {
    ($($n:ident),*) => {
        $(fn $n(&mut self, v: $n) -> sval::Result {
            self.put(stringify!($n), v.to_string(), String::new())
        })*
    };
}

impl<'sval> sval::Stream<'sval> for SvalRec {
    fn null(&mut self) -> sval::Result {
        self.put("null", String::new(), String::new())
    }

    svnum!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

    fn f32(&mut self, v: f32) -> sval::Result {
        self.put("f32", crate::data::show_f64(v as f64), String::new())
    }

    fn f64(&mut self, v: f64) -> sval::Result {
        self.put("f64", crate::data::show_f64(v), String::new())
    }

    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        if !self.log.call() {
            return Err(sval::Error::new());
        }
        self.text = Some((String::new(), format!("{:?}", n)));
        Ok(())
    }

    fn text_fragment(&mut self, s: &'sval str) -> sval::Result {
        if !self.log.call() {
            return Err(sval::Error::new());
        }
        self.log.borrowed.push((s.as_ptr() as usize, s.len()));
        match self.text {
            Some((ref mut t, _)) => t.push_str(s),
            None => self.log.toks.push(Tok {
                name: "STRAY-TEXT",
                arg: s.into(),
                hint: String::new(),
            }),
        }
        Ok(())
    }

    fn text_fragment_computed(&mut self, s: &str) -> sval::Result {
        if !self.log.call() {
            return Err(sval::Error::new());
        }
        self.log.computed += 1;
        match self.text {
            Some((ref mut t, _)) => t.push_str(s),
            None => self.log.toks.push(Tok {
                name: "STRAY-TEXT",
                arg: s.into(),
                hint: String::new(),
            }),
        }
        Ok(())
    }

    fn text_end(&mut self) -> sval::Result {
        match self.text.take() {
            Some((t, _)) => self.put("text", format!("{:?}", t), String::new()),
            None => self.put("STRAY-TEXT-END", String::new(), String::new()),
        }
    }

    fn binary_begin(&mut self, _: Option<usize>) -> sval::Result {
        if !self.log.call() {
            return Err(sval::Error::new());
        }
        self.bin = Some(Vec::new());
        Ok(())
    }

    fn binary_fragment(&mut self, b: &'sval [u8]) -> sval::Result {
        self.binary_fragment_computed(b)
    }

    fn binary_fragment_computed(&mut self, b: &[u8]) -> sval::Result {
        if !self.log.call() {
            return Err(sval::Error::new());
        }
        if let Some(ref mut v) = self.bin {
            v.extend_from_slice(b);
        }
        Ok(())
    }

    fn binary_end(&mut self) -> sval::Result {
        let b = self.bin.take();
        self.put("binary", format!("{:?}", b), String::new())
    }

    fn map_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.put("map{", String::new(), format!("{:?}", n))
    }

    fn map_end(&mut self) -> sval::Result {
        self.put("}", String::new(), String::new())
    }

    fn map_key_begin(&mut self) -> sval::Result {
        self.put("key", String::new(), String::new())
    }

    fn map_key_end(&mut self) -> sval::Result {
        self.put("yek", String::new(), String::new())
    }

    fn map_value_begin(&mut self) -> sval::Result {
        self.put("value", String::new(), String::new())
    }

    fn map_value_end(&mut self) -> sval::Result {
        self.put("eulav", String::new(), String::new())
    }

    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.put("seq[", String::new(), format!("{:?}", n))
    }

    fn seq_end(&mut self) -> sval::Result {
        self.put("]", String::new(), String::new())
    }

    fn seq_value_begin(&mut self) -> sval::Result {
        self.put("elem", String::new(), String::new())
    }

    fn seq_value_end(&mut self) -> sval::Result {
        self.put("mele", String::new(), String::new())
    }

    fn enum_begin(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        self.tagged("enum{", t, l, i, None)
    }

    fn enum_end(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        self.tagged("}enum", t, l, i, None)
    }

    fn tagged_begin(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        self.tagged("tagged{", t, l, i, None)
    }

    fn tagged_end(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        self.tagged("}tagged", t, l, i, None)
    }

    fn tag(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        let unit = t == Some(&sval::tags::RUST_UNIT);
        let none = t == Some(&sval::tags::RUST_OPTION_NONE);
        self.tagged(
            if unit {
                "unit-tag"
            } else if none {
                "none-tag"
            } else {
                "tag"
            },
            t,
            l,
            i,
            None,
        )
    }

    fn tag_hint(&mut self, _: &sval::Tag) -> sval::Result {
        Ok(())
    }

    fn record_begin(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
        n: Option<usize>,
    ) -> sval::Result {
        self.tagged("record{", t, l, i, Some(n))
    }

    fn record_value_begin(&mut self, t: Option<&sval::Tag>, l: &sval::Label) -> sval::Result {
        self.tagged("field", t, Some(l), None, None)
    }

    fn record_value_end(&mut self, t: Option<&sval::Tag>, l: &sval::Label) -> sval::Result {
        self.tagged("dleif", t, Some(l), None, None)
    }

    fn record_end(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        self.tagged("}record", t, l, i, None)
    }

    fn tuple_begin(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
        n: Option<usize>,
    ) -> sval::Result {
        self.tagged("tuple(", t, l, i, Some(n))
    }

    fn tuple_value_begin(&mut self, t: Option<&sval::Tag>, i: &sval::Index) -> sval::Result {
        self.tagged("item", t, None, Some(i), None)
    }

    fn tuple_value_end(&mut self, t: Option<&sval::Tag>, i: &sval::Index) -> sval::Result {
        self.tagged("meti", t, None, Some(i), None)
    }

    fn tuple_end(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        self.tagged(")tuple", t, l, i, None)
    }

    fn record_tuple_begin(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
        n: Option<usize>,
    ) -> sval::Result {
        self.tagged("rectup{", t, l, i, Some(n))
    }

    fn record_tuple_value_begin(
        &mut self,
        t: Option<&sval::Tag>,
        l: &sval::Label,
        i: &sval::Index,
    ) -> sval::Result {
        self.tagged("rtfield", t, Some(l), Some(i), None)
    }

    fn record_tuple_value_end(
        &mut self,
        t: Option<&sval::Tag>,
        l: &sval::Label,
        i: &sval::Index,
    ) -> sval::Result {
        self.tagged("dleiftr", t, Some(l), Some(i), None)
    }

    fn record_tuple_end(
        &mut self,
        t: Option<&sval::Tag>,
        l: Option<&sval::Label>,
        i: Option<&sval::Index>,
    ) -> sval::Result {
        self.tagged("}rectup", t, l, i, None)
    }
}

pub struct SvalOut {
    pub exact: String,
    pub norm: String,
    pub ok: bool,
    pub calls: usize,
    pub after: usize,
    pub borrowed: Vec<(usize, usize)>,
    pub computed: usize,
    /// Text was still open when the stream ended
    pub open: bool,
}

pub fn sval_out(rec: SvalRec, r: sval::Result) -> SvalOut {
    SvalOut {
        exact: rec.log.render(false),
        norm: rec.log.render(true),
        ok: r.is_ok(),
        calls: rec.log.calls,
        after: rec.log.after,
        borrowed: rec.log.borrowed.clone(),
        computed: rec.log.computed,
        open: rec.text.is_some() || rec.bin.is_some(),
    }
}

/// The sval calls a value makes
pub fn sval_of<T: sval::Value + ?Sized>(v: &T, fail_at: Option<usize>) -> SvalOut {
    let mut rec = SvalRec::new(fail_at);
    let r = v.stream(&mut rec);
    sval_out(rec, r)
}

// ---------------------------------------------------------------- visitor

use value_bag::{visit::Visit, Error, ValueBag};

#[derive(Default)]
pub struct VisitLog {
    pub calls: Vec<String>,
    pub fail: bool,
    /// (address, length) when borrowed text arrived
    pub borrowed: Option<(usize, usize)>,
    /// What the bag given to the catch-all looked like
    pub nested: Vec<(String, String)>,
    /// What to look at there
    pub groups: u32,
}

pub const VISIT_FAILURE: &str = "the visitor refused the value";

impl VisitLog {
    pub fn new(fail: bool, groups: u32) -> VisitLog {
        VisitLog {
            fail,
            groups,
            ..Default::default()
        }
    }

    fn got(&mut self, s: String) -> Result<(), Error> {
        crate::extra::tick();
        self.calls.push(s);
        if self.fail {
            Err(Error::msg(VISIT_FAILURE))
        } else {
            Ok(())
        }
    }
}

macro_rules! visitors {
    ($($name:ident { $($tt:tt)* })*) => {
        $(
            pub struct $name<'l>(pub &'l mut VisitLog);

            impl<'v, 'l> Visit<'v> for $name<'l> {
                fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
                    let groups = self.0.groups;
                    self.0.nested = crate::observe::observe(&v, groups, &[]);
                    self.0.got("any".into())
                }
                visitors!(@methods $($tt)*);
            }
        )*
    };
    (@methods) => {};
    (@methods empty $($tt:tt)*) => {
        fn visit_empty(&mut self) -> Result<(), Error> { self.0.got("empty".into()) }
        visitors!(@methods $($tt)*);
    };
    (@methods ints $($tt:tt)*) => {
        fn visit_u64(&mut self, v: u64) -> Result<(), Error> { self.0.got(format!("u64({})", v)) }
        fn visit_i64(&mut self, v: i64) -> Result<(), Error> { self.0.got(format!("i64({})", v)) }
        fn visit_u128(&mut self, v: u128) -> Result<(), Error> { self.0.got(format!("u128({})", v)) }
        fn visit_i128(&mut self, v: i128) -> Result<(), Error> { self.0.got(format!("i128({})", v)) }
        visitors!(@methods $($tt)*);
    };
    (@methods f64 $($tt:tt)*) => {
        fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
            self.0.got(format!("f64({})", crate::data::show_f64(v)))
        }
        visitors!(@methods $($tt)*);
    };
    (@methods bool $($tt:tt)*) => {
        fn visit_bool(&mut self, v: bool) -> Result<(), Error> { self.0.got(format!("bool({})", v)) }
        visitors!(@methods $($tt)*);
    };
    (@methods char $($tt:tt)*) => {
        fn visit_char(&mut self, v: char) -> Result<(), Error> { self.0.got(format!("char({:?})", v)) }
        visitors!(@methods $($tt)*);
    };
    (@methods str $($tt:tt)*) => {
        fn visit_str(&mut self, v: &str) -> Result<(), Error> { self.0.got(format!("str({:?})", v)) }
        visitors!(@methods $($tt)*);
    };
    (@methods bstr $($tt:tt)*) => {
        fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
            self.0.borrowed = Some((v.as_ptr() as usize, v.len()));
            self.0.got(format!("bstr({:?})", v))
        }
        visitors!(@methods $($tt)*);
    };
    (@methods err $($tt:tt)*) => {
        #[cfg(feature = "error")]
        fn visit_error(&mut self, v: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
            self.0.got(format!("err({})", err_text(v)))
        }
        visitors!(@methods $($tt)*);
    };
    (@methods berr $($tt:tt)*) => {
        #[cfg(feature = "error")]
        fn visit_borrowed_error(&mut self, v: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
            self.0.got(format!("berr({})", err_text(v)))
        }
        visitors!(@methods $($tt)*);
    };
}

visitors! {
    VFull { empty ints f64 bool char str bstr err berr }
    VAny { }
    VNum { empty ints f64 }
    VStr { str }
    VBorrowed { bstr berr }
    VNoBorrow { empty ints f64 bool char str err }
    VScalar { ints bool str bstr }
}

pub const VISITORS: usize = 10;

/// Visit a bag with the `which`-th visitor
pub fn visit_with<'v>(bag: &ValueBag<'v>, which: usize, log: &mut VisitLog) -> Result<(), Error> {
    match which {
        0 => bag.visit(VFull(log)),
        1 => bag.visit(VAny(log)),
        2 => bag.visit(VNum(log)),
        3 => bag.visit(VStr(log)),
        4 => bag.visit(VBorrowed(log)),
        5 => bag.visit(&mut VNoBorrow(log)),
        6 => bag.visit(&mut VScalar(log)),
        7 => bag.visit(&mut VFull(log)),
        8 => {
            let mut v = VBorrowed(log);
            let v: &mut dyn Visit<'v> = &mut v;
            bag.visit(v)
        }
        _ => bag.visit(&mut &mut VNum(log)),
    }
}

/// Display text of every error along a chain
pub fn err_text(e: &(dyn std::error::Error + 'static)) -> String {
    let mut out = Vec::new();
    let mut cur = Some(e);
    while let Some(e) = cur {
        out.push(match crate::data::plain(false, &e) {
            Ok(s) => format!("{:?}", s),
            Err(_) => "FAIL".into(),
        });
        cur = e.source();
        if out.len() > 64 {
            out.push("...".into());
            break;
        }
    }
    out.join(" <- ")
}
