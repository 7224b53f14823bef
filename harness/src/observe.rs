//! Everything there is to ask a bag, and what the model says the answers are.

use crate::data::*;
use crate::held::El;
use crate::model::*;
use crate::rec::*;
use crate::specs::SPECS;
use std::collections::HashMap;
use value_bag::ValueBag;

pub const NUM: u32 = 1;
pub const CAST: u32 = 1 << 1;
pub const FMT: u32 = 1 << 2;
pub const FLAGS: u32 = 1 << 3;
pub const SERDE_G: u32 = 1 << 4;
pub const SVAL_G: u32 = 1 << 5;
pub const VISIT: u32 = 1 << 6;
pub const SEQ_G: u32 = 1 << 7;
pub const ERR_G: u32 = 1 << 8;
pub const TOKEN: u32 = 1 << 9;
/// Visit with visitors that reject what they're given
pub const REJECT: u32 = 1 << 10;
/// Downcast to the types values are captured as; the answers include addresses
pub const DOWN: u32 = 1 << 11;

/// What a bag given to a visitor's catch-all is asked
pub const NESTED: u32 = NUM | CAST | FMT | SERDE_G | SVAL_G | SEQ_G | ERR_G;

pub type Obs = Vec<(String, String)>;

/// A formatting to try: index into the table, width, and precision
pub type FmtAt = (usize, usize, usize);

pub enum Exp {
    Is(String),
    OneOf(Vec<String>),
    /// The text begins with this
    Starts(&'static str),
    /// Anything else
    NoneOf(Vec<String>),
}

pub fn opt<T: std::fmt::Debug>(v: Option<T>) -> String {
    format!("{:?}", v)
}

pub fn optf(v: Option<f64>) -> String {
    match v {
        Some(v) => format!("Some({})", show_f64(v)),
        None => "None".into(),
    }
}

fn fmt_result(r: Result<String, String>) -> String {
    match r {
        Ok(s) => format!("{:?}", s),
        Err(_) => "ERR".into(),
    }
}

/// Ask a bag
pub fn observe<'v>(bag: &ValueBag<'v>, groups: u32, fmts: &[FmtAt]) -> Obs {
    let mut o: Obs = Vec::new();
    macro_rules! put {
        ($k:expr, $v:expr) => {
            o.push(($k.to_string(), $v))
        };
    }
    if groups & NUM != 0 {
        put!("to_u64", opt(bag.to_u64()));
        put!("to_i64", opt(bag.to_i64()));
        put!("to_u128", opt(bag.to_u128()));
        put!("to_i128", opt(bag.to_i128()));
        put!("to_f64", optf(bag.to_f64()));
        put!("as_f64", show_f64(bag.as_f64()));
        macro_rules! conv {
            ($($t:ident)*) => {
                $(put!(concat!("try_", stringify!($t)), opt($t::try_from(bag.by_ref()).ok()));)*
            };
        }
        conv!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
        put!("try_f64", optf(f64::try_from(bag.by_ref()).ok()));
    }
    if groups & CAST != 0 {
        put!("to_bool", opt(bag.to_bool()));
        put!("to_char", opt(bag.to_char()));
        put!("to_borrowed_str", opt(bag.to_borrowed_str()));
        put!("is_empty", bag.is_empty().to_string());
        put!("try_bool", opt(bool::try_from(bag.by_ref()).ok()));
        put!("try_char", opt(char::try_from(bag.by_ref()).ok()));
        put!("try_&str", opt(<&str>::try_from(bag.by_ref()).ok()));
        #[cfg(feature = "alloc")]
        {
            put!("to_str", opt(bag.to_str()));
            put!("try_String", opt(String::try_from(bag.by_ref()).ok()));
            put!(
                "try_Cow",
                opt(std::borrow::Cow::<str>::try_from(bag.by_ref()).ok())
            );
        }
    }
    if groups & FMT != 0 {
        put!("{}", fmt_result(plain(false, bag)));
        put!("{:?}", fmt_result(plain(true, bag)));
    }
    if groups & FLAGS != 0 {
        for (i, w, p) in fmts {
            put!(
                format!("{} w={} p={}", SPECS[*i].0, w, p),
                fmt_result((SPECS[*i].1)(bag, *w, *p))
            );
        }
    }
    #[cfg(feature = "serde1")]
    if groups & SERDE_G != 0 {
        let r = serde_of(bag, None);
        let ok = r.ok.is_ok();
        put!("serde", if ok { r.norm } else { "ERR".into() });
        put!("serde.exact", if ok { r.exact } else { "ERR".into() });
    }
    #[cfg(feature = "sval2")]
    if groups & SVAL_G != 0 {
        let r = sval_of(bag, None);
        let ok = r.ok;
        put!("sval.open", (ok && r.open).to_string());
        put!("sval", if ok { r.norm } else { "ERR".into() });
        put!("sval.exact", if ok { r.exact } else { "ERR".into() });
        let mut rec = SvalRec::new(None);
        let r = sval_ref::stream_ref(&mut rec, bag.by_ref());
        let r = sval_out(rec, r);
        put!("sval.ref", if r.ok { r.norm } else { "ERR".into() });
    }
    if groups & VISIT != 0 {
        for k in 0..VISITORS {
            let mut log = VisitLog::new(groups & REJECT != 0, NESTED);
            let r = visit_with(bag, k, &mut log);
            put!(format!("visit{}.call", k), log.calls.join("; "));
            put!(
                format!("visit{}.res", k),
                match r {
                    Ok(()) => "ok".to_string(),
                    Err(e) => format!("err:{}", e),
                }
            );
            for (nk, nv) in log.nested {
                put!(format!("visit{}.any.{}", k, nk), nv);
            }
        }
    }
    #[cfg(feature = "seq")]
    if groups & SEQ_G != 0 {
        macro_rules! seq {
            ($name:literal, $v:expr, $show:expr) => {
                match $v {
                    None => put!(concat!("seq.", $name), "None".to_string()),
                    Some(v) => {
                        put!(concat!("seq.", $name), format!("Some({})", v.len()));
                        for (i, x) in v.into_iter().enumerate() {
                            put!(format!(concat!("seq.", $name, "[{}]"), i), $show(x));
                        }
                    }
                }
            };
        }
        seq!("to_u64", bag.to_u64_seq::<Vec<_>>(), opt);
        seq!("to_i64", bag.to_i64_seq::<Vec<_>>(), opt);
        seq!("to_u128", bag.to_u128_seq::<Vec<_>>(), opt);
        seq!("to_i128", bag.to_i128_seq::<Vec<_>>(), opt);
        seq!("to_f64", bag.to_f64_seq::<Vec<_>>(), optf);
        seq!("as_f64", Some(bag.as_f64_seq::<Vec<_>>()), show_f64);
        seq!("to_bool", bag.to_bool_seq::<Vec<_>>(), opt);
        seq!("to_char", bag.to_char_seq::<Vec<_>>(), opt);
        seq!("to_borrowed_str", bag.to_borrowed_str_seq::<Vec<_>>(), opt);
        #[cfg(feature = "alloc")]
        seq!("to_str", bag.to_str_seq::<Vec<_>>(), opt);
    }
    #[cfg(feature = "error")]
    if groups & ERR_G != 0 {
        put!(
            "to_borrowed_error",
            match bag.to_borrowed_error() {
                Some(e) => err_text(e),
                None => "None".into(),
            }
        );
        let conv: Result<&(dyn std::error::Error + 'static), _> = bag.by_ref().try_into();
        put!(
            "try_&dyn Error",
            match conv {
                Ok(e) => err_text(e),
                Err(_) => "None".into(),
            }
        );
    }
    #[cfg(feature = "test")]
    if groups & TOKEN != 0 {
        use value_bag::test::TestToken;
        put!(
            "token",
            match bag.to_test_token() {
                TestToken::F64(v) => format!("F64({})", show_f64(v)),
                t => format!("{:?}", t),
            }
        );
    }
    if groups & DOWN != 0 {
        macro_rules! down {
            ($($t:ty),*) => {
                $(
                    if let Some(p) = bag.downcast_ref::<$t>() {
                        put!(concat!("downcast ", stringify!($t)), format!("{:p}", p));
                    }
                    if bag.is::<$t>() {
                        put!(concat!("is ", stringify!($t)), "true".to_string());
                    }
                )*
            };
        }
        down!(
            Frag, ErrVal, crate::tree::Tree, El, String, Option<String>, u8, u16, u32, u64, usize, u128,
            i8, i16, i32, i64, isize, i128, f32, f64, bool, char, &'static str, Vec<u8>, Vec<u16>,
            Vec<u32>, Vec<u64>, Vec<usize>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>,
            Vec<isize>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<bool>, Vec<char>, Vec<String>,
            Vec<&'static str>, Vec<El>, Box<[El]>, [i32; 3], [f64; 2]
        );
    }
    o
}

pub type Expected = HashMap<String, Exp>;

/// The answers for a scalar, by the name of the cast
fn scalar_exp(s: &Sc, name: &str, err_ok: bool) -> Option<Exp> {
    use Exp::*;
    let none = || "None".to_string();
    if let Sc::Unknown = s {
        return None;
    }
    let _ = err_ok;
    let int_u = |max: u128| match s {
        Sc::Int(n, ..) => opt(n.to_u(max)),
        _ => none(),
    };
    let int_i = |max: u128| match s {
        Sc::Int(n, ..) => opt(n.to_i(max)),
        _ => none(),
    };
    Some(match name {
        "to_u64" | "try_u64" => Is(int_u(u64::MAX as u128)),
        "to_i64" | "try_i64" => Is(int_i(i64::MAX as u128)),
        "to_u128" | "try_u128" => Is(int_u(u128::MAX)),
        "to_i128" | "try_i128" => Is(int_i(i128::MAX as u128)),
        "try_u8" => Is(int_u(u8::MAX as u128)),
        "try_u16" => Is(int_u(u16::MAX as u128)),
        "try_u32" => Is(int_u(u32::MAX as u128)),
        "try_usize" => Is(int_u(usize::MAX as u128)),
        "try_i8" => Is(int_i(i8::MAX as u128)),
        "try_i16" => Is(int_i(i16::MAX as u128)),
        "try_i32" => Is(int_i(i32::MAX as u128)),
        "try_isize" => Is(int_i(isize::MAX as u128)),
        "to_f64" | "try_f64" => match s {
            Sc::F(v) => Is(optf(Some(*v))),
            Sc::Int(n, unsigned, _) => {
                let yes = optf(Some(n.as_f64()));
                let within = n.to_i(i32::MAX as u128).is_some()
                    || (*unsigned && n.to_u(u32::MAX as u128).is_some());
                if within {
                    Is(yes)
                } else if n.exact_f64() {
                    OneOf(vec![none(), yes])
                } else {
                    Is(none())
                }
            }
            _ => Is(none()),
        },
        "as_f64" => match s {
            Sc::F(v) => Is(show_f64(*v)),
            Sc::Int(n, ..) => Is(show_f64(n.as_f64())),
            _ => Is("NaN".into()),
        },
        "to_bool" | "try_bool" => match s {
            Sc::Bool(b) => Is(opt(Some(b))),
            _ => Is(none()),
        },
        "to_char" | "try_char" => match s {
            Sc::Char(b) => Is(opt(Some(b))),
            _ => Is(none()),
        },
        "to_borrowed_str" | "try_&str" => match s {
            Sc::Str(s, Bor::Yes) => Is(opt(Some(s))),
            Sc::Str(s, Bor::Maybe) => OneOf(vec![none(), opt(Some(s))]),
            _ => Is(none()),
        },
        "to_str" | "try_String" | "try_Cow" => match s {
            Sc::Str(s, _) => Is(opt(Some(s))),
            _ => Is(none()),
        },
        _ => return None,
    })
}

const CASTS: &[&str] = &[
    "to_u64", "to_i64", "to_u128", "to_i128", "to_f64", "as_f64", "try_u8", "try_u16", "try_u32",
    "try_u64", "try_usize", "try_u128", "try_i8", "try_i16", "try_i32", "try_i64", "try_isize",
    "try_i128", "try_f64",
];

const OTHERS: &[&str] = &[
    "to_bool", "to_char", "to_borrowed_str", "try_bool", "try_char", "try_&str", "to_str",
    "try_String", "try_Cow",
];

const SEQS: &[&str] = &[
    "to_u64", "to_i64", "to_u128", "to_i128", "to_f64", "as_f64", "to_bool", "to_char",
    "to_borrowed_str", "to_str",
];

/// Which methods each visitor overrides, in the order of `visit_with`
const OVERRIDES: &[&[&str]] = &[
    &["empty", "ints", "f64", "bool", "char", "str", "bstr", "err", "berr"],
    &[],
    &["empty", "ints", "f64"],
    &["str"],
    &["bstr", "berr"],
    &["empty", "ints", "f64", "bool", "char", "str", "err"],
    &["ints", "bool", "str", "bstr"],
    // by reference
    &["empty", "ints", "f64", "bool", "char", "str", "bstr", "err", "berr"],
    &["bstr", "berr"],
    &["empty", "ints", "f64"],
];

/// The possible calls on a visitor, where `any` is the catch-all
fn calls(k: usize, c: &C) -> Option<(Vec<String>, Option<C>)> {
    let has = |m: &str| OVERRIDES[k].contains(&m);
    let str_call = |s: &str| {
        if has("str") {
            format!("str({:?})", s)
        } else {
            "any".into()
        }
    };
    let bstr_call = |s: &str| {
        if has("bstr") {
            format!("bstr({:?})", s)
        } else {
            str_call(s)
        }
    };
    let any = |yes: bool, call: String| if yes { call } else { "any".to_string() };
    if let C::Err { e, buffered, shared, lend } = c {
        let chain = err_text(e);
        let berr = any(has("berr"), format!("berr({})", chain));
        let err = any(has("err"), format!("err({})", chain));
        if *buffered && e.fails() {
            return None;
        }
        // only an error captured by reference is sure to be lent
        let v = match lend {
            Bor::Yes if !*shared && !*buffered => vec![berr],
            _ => vec![berr, err],
        };
        return Some((v, Some(relax(c))));
    }
    Some(match c.scalar() {
        Sc::Empty => (vec![any(has("empty"), "empty".into())], Some(C::Empty)),
        Sc::Int(n, unsigned, w) => {
            let mut v = Vec::new();
            let mut put = |name: &str| {
                if w.map_or(true, |w| w == name) {
                    v.push(any(has("ints"), format!("{}({})", name, n)))
                }
            };
            if unsigned {
                put("u128");
                if n.to_u(u64::MAX as u128).is_some() {
                    put("u64");
                }
            } else {
                put("i128");
                if n.to_i(i64::MAX as u128).is_some() {
                    put("i64");
                }
            }
            (v, Some(C::Int(n, unsigned)))
        }
        Sc::F(f) => (
            vec![any(has("f64"), format!("f64({})", show_f64(f)))],
            Some(C::F64(f)),
        ),
        Sc::Bool(b) => (vec![any(has("bool"), format!("bool({})", b))], Some(C::Bool(b))),
        Sc::Char(ch) => {
            if has("char") {
                (vec![format!("char({:?})", ch)], None)
            } else {
                (
                    vec![str_call(&ch.to_string())],
                    Some(C::Str(ch.to_string(), Bor::Maybe)),
                )
            }
        }
        Sc::Str(s, b) => {
            let mut v = match b {
                Bor::Yes => vec![bstr_call(&s)],
                Bor::No => vec![str_call(&s)],
                Bor::Maybe => vec![bstr_call(&s), str_call(&s)],
            };
            let nested = if !ALLOC && b != Bor::Yes {
                // there's nowhere to put text that arrives in pieces
                v.push("any".into());
                None
            } else {
                Some(C::Str(s, Bor::Maybe))
            };
            (v, nested)
        }
        Sc::Opaque => (vec!["any".into()], Some(relax(c))),
        Sc::Fail | Sc::Unknown => return None,
    })
}

/// Content handed on inside another bag: what it can lend may be less, or more
fn relax(c: &C) -> C {
    let mut c = c.clone();
    match c {
        C::Sval { ref mut b, .. } | C::Seq { ref mut b, .. } => *b = Bor::Maybe,
        C::Err { ref mut lend, .. } => *lend = Bor::Maybe,
        _ => (),
    }
    c
}

fn fill_expected(x: &mut Expected, prefix: &str, m: &M, groups: u32, fmts: &[FmtAt]) {
    use Exp::*;
    let c = &m.c;
    let mut put = |k: &str, e: Exp| {
        x.insert(format!("{}{}", prefix, k), e);
    };
    let sc = c.scalar();
    let mut later = Vec::new();
    if groups & NUM != 0 {
        for k in CASTS {
            if let Some(e) = scalar_exp(&sc, k, true) {
                put(k, e);
            }
        }
    }
    if groups & CAST != 0 {
        for k in OTHERS {
            if let Some(e) = scalar_exp(&sc, k, true) {
                put(k, e);
            }
        }
        match c {
            C::Empty if m.filled => (),
            C::Empty => put("is_empty", Is("true".into())),
            _ => match sc {
                // an absent value inside a framework
                Sc::Empty | Sc::Unknown => (),
                _ => put("is_empty", Is("false".into())),
            },
        }
    }
    if groups & FMT != 0 {
        if !c.fmt_unknown(false) {
            put("{}", Is(fmt_result(plain(false, c))));
        }
        if !c.fmt_unknown(true) {
            put("{:?}", Is(fmt_result(plain(true, c))));
        }
        // something that couldn't be buffered doesn't pass for empty text
        if let C::Text(Err(true)) | C::Poisoned = c {
            // and can still be printed
            let not = vec![fmt_result(Ok(String::new())), fmt_result(Err(String::new()))];
            put("{}", NoneOf(not.clone()));
            put("{:?}", NoneOf(not));
        }
    }
    if groups & FLAGS != 0 && !c.fmt_plain_only() {
        for (i, w, p) in fmts {
            if !c.fmt_unknown(SPECS[*i].0.contains('?')) {
                put(
                    &format!("{} w={} p={}", SPECS[*i].0, w, p),
                    Is(fmt_result((SPECS[*i].1)(c, *w, *p))),
                );
            }
        }
    }
    if groups & SERDE_G != 0 && SERDE && !c.text_unknown() {
        let r = serde_of(c, None);
        let ok = r.ok.is_ok();
        put("serde", Is(if ok { r.norm } else { "ERR".into() }));
        if let C::Serde { buffered: false, .. } = c {
            put("serde.exact", Is(if ok { r.exact } else { "ERR".into() }));
        }
    }
    if groups & SVAL_G != 0 && SVAL && !c.text_unknown() {
        let r = sval_of(c, None);
        put("sval.open", Is("false".into()));
        put("sval", Is(if r.ok { r.norm.clone() } else { "ERR".into() }));
        put("sval.ref", Is(if r.ok { r.norm } else { "ERR".into() }));
        if let C::Sval { buffered: false, .. } = c {
            put("sval.exact", Is(if r.ok { r.exact } else { "ERR".into() }));
        }
    }
    if groups & SEQ_G != 0 && SEQ {
        if let Some(els) = c.elements() {
            for k in SEQS {
                match els {
                    None if *k == "as_f64" => put("seq.as_f64", Is("Some(0)".into())),
                    None => put(&format!("seq.{}", k), Is("None".into())),
                    Some(ref v) => {
                        put(&format!("seq.{}", k), Is(format!("Some({})", v.len())));
                        for (i, s) in v.iter().enumerate() {
                            if let Some(e) = scalar_exp(s, k, true) {
                                put(&format!("seq.{}[{}]", k, i), e);
                            }
                        }
                    }
                }
            }
        }
    }
    if groups & ERR_G != 0 && ERROR {
        for k in ["to_borrowed_error", "try_&dyn Error"] {
            match c {
                C::Err { e, buffered: true, .. } if e.fails() => (),
                C::Err { e, lend, .. } => {
                    let yes = err_text(e);
                    put(
                        k,
                        match lend {
                            Bor::Yes => Is(yes),
                            Bor::No => Is("None".into()),
                            Bor::Maybe => OneOf(vec![yes, "None".into()]),
                        },
                    );
                }
                _ => put(k, Is("None".into())),
            }
        }
    }
    if groups & TOKEN != 0 && TEST {
        let e = match c {
            C::Empty => Is("None".into()),
            C::U64(v) => Is(format!("U64({})", v)),
            C::I64(v) => Is(format!("I64({})", v)),
            C::U128(v) => Is(format!("U128({})", v)),
            C::I128(v) => Is(format!("I128({})", v)),
            C::Int(n, true) => OneOf(vec![format!("U64({})", n), format!("U128({})", n)]),
            C::Int(n, false) => OneOf(vec![format!("I64({})", n), format!("I128({})", n)]),
            C::F64(v) => Is(format!("F64({})", show_f64(*v))),
            C::Bool(v) => Is(format!("Bool({})", v)),
            C::Char(v) => Is(format!("Char({:?})", v)),
            C::Str(v, _) => Is(format!("Str({:?})", v)),
            C::Fmt { .. } if c.fmt_unknown(false) => Starts("Str("),
            C::Fmt { src, dbg, .. } => match plain(false, &AsDisp(src, *dbg)) {
                Ok(s) => Is(format!("Str({:?})", s)),
                Err(_) => Starts(""),
            },
            C::Text(Ok(s)) => Is(format!("Str({:?})", s)),
            C::Text(Err(_)) => Starts("Str("),
            C::Err { .. } => Is("Error".into()),
            C::Sval { .. } => Is("Sval { version: 2 }".into()),
            C::Serde { .. } => Is("Serde { version: 1 }".into()),
            C::Seq { .. } => Is("Seq".into()),
            C::FailFill(_) => Starts(""),
            C::Poisoned => Starts("Poisoned("),
        };
        put("token", e);
    }
    if groups & VISIT != 0 {
        let reject = groups & REJECT != 0;
        for k in 0..VISITORS {
            let res = format!("visit{}.res", k);
            let call = format!("visit{}.call", k);
            match calls(k, c) {
                Some((v, nested)) => {
                    put(&call, OneOf(v));
                    put(
                        &res,
                        Is(if reject {
                            format!("err:{}", VISIT_FAILURE)
                        } else {
                            "ok".into()
                        }),
                    );
                    if let Some(n) = nested {
                        later.push((format!("{}visit{}.any.", prefix, k), n));
                    }
                }
                None => match c {
                    C::FailFill(false) | C::Poisoned => {
                        put(&call, Is("".into()));
                        put(&res, Starts("err:"));
                    }
                    C::FailFill(true) => put(&res, Starts("err:")),
                    _ => (),
                },
            }
        }
    }
    for (prefix, n) in later {
        fill_expected(x, &prefix, &M::new(n), NESTED, &[]);
    }
}

/// What the model says a bag answers
pub fn expected(m: &M, groups: u32, fmts: &[FmtAt]) -> Expected {
    let mut x = Expected::new();
    fill_expected(&mut x, "", m, groups, fmts);
    x
}

/// Compare answers with the model's; gives how many were decided
pub fn compare(x: &Expected, o: &Obs) -> Result<usize, String> {
    let mut n = 0;
    for (k, got) in o {
        match x.get(k) {
            None => (),
            Some(Exp::Is(s)) if s == got => n += 1,
            Some(Exp::OneOf(v)) if v.contains(got) => n += 1,
            Some(Exp::Starts(s)) if got.starts_with(s) => n += 1,
            Some(Exp::NoneOf(s)) if !s.contains(got) => n += 1,
            Some(Exp::NoneOf(_)) => return Err(format!("{}: got {} but it has something to print", k, got)),
            Some(Exp::Is(s)) => return Err(format!("{}: got {} but expected {}", k, got, s)),
            Some(Exp::OneOf(v)) => {
                return Err(format!("{}: got {} but expected one of {}", k, got, v.join(" | ")))
            }
            Some(Exp::Starts(s)) => {
                return Err(format!("{}: got {} but expected {}...", k, got, s))
            }
        }
    }
    Ok(n)
}

/// Compare the answers of two bags
pub fn same(a: &Obs, b: &Obs, skip: &dyn Fn(&str) -> bool) -> Result<usize, String> {
    let bm: HashMap<&str, &str> = b.iter().map(|(k, v)| (&**k, &**v)).collect();
    let mut n = 0;
    for (k, va) in a {
        if skip(k) {
            continue;
        }
        match bm.get(&**k) {
            Some(vb) if *vb == va => n += 1,
            Some(vb) => return Err(format!("{}: {} became {}", k, va, vb)),
            None => return Err(format!("{}: {} became nothing", k, va)),
        }
    }
    for (k, vb) in b {
        if !skip(k) && !a.iter().any(|(ka, _)| ka == k) {
            return Err(format!("{}: nothing became {}", k, vb));
        }
    }
    Ok(n)
}
