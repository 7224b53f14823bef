//! Types that look like one another: downcasting, and what's taken for a primitive.

use crate::data::*;
use crate::model::*;
use crate::observe::*;
use crate::ops::{self, Op};
use crate::props::*;
use crate::tape::Tape;
use std::fmt;
use value_bag::ValueBag;

/// Everything a value needs in order to be captured in every way
pub trait Member:
    fmt::Debug
    + fmt::Display
    + std::error::Error
    + serde_core::Serialize
    + sval::Value
    + AsRef<[u64]>
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    fn make(n: u64) -> Self;
}

macro_rules! family {
    ($($T:ident($inner:ty) $make:expr;)*) => {
        $(
            #[repr(transparent)]
            pub struct $T(pub $inner);

            impl Member for $T {
                const NAME: &'static str = stringify!($T);

                fn make(n: u64) -> Self {
                    let make: fn(u64) -> $inner = $make;
                    $T(make(n))
                }
            }

            impl fmt::Debug for $T {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str(concat!("debug ", stringify!($T)))
                }
            }

            impl fmt::Display for $T {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str(concat!("display ", stringify!($T)))
                }
            }

            impl std::error::Error for $T {}

            impl serde_core::Serialize for $T {
                fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_str(stringify!($T))
                }
            }

            impl sval::Value for $T {
                fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                    s.value(stringify!($T))
                }
            }

            impl AsRef<[u64]> for $T {
                fn as_ref(&self) -> &[u64] {
                    &[1, 2, 3]
                }
            }
        )*

        pub const FAMILY: &[&str] = &[$(stringify!($T)),*];

        fn family_targets(bag: &ValueBag, v: &mut Vec<(&'static str, bool, Option<usize>)>) {
            $(v.push(target::<$T>(stringify!($T), bag));)*
        }

        fn dispatch(which: usize, t: &mut Tape, cx: &mut Cx, n: u64) -> Out {
            let mut i = 0;
            $(
                if i == which {
                    return member_case::<$T>(t, cx, n);
                }
                i += 1;
            )*
            let _ = i;
            Ok(())
        }
    };
}

family! {
    A(u64) |n| n;
    B(u64) |n| n;
    I(i64) |n| n as i64;
    F(f64) |n| n as f64;
    Arr([u64; 1]) |n| [n];
    Pair((u32, u32)) |n| (n as u32, 1);
    Text(String) |n| format!("text {}", n);
    Text2(String) |n| format!("text {}", n);
    Boxed(Box<u64>) |n| Box::new(n);
    Zero(()) |_| ();
    Zero2([u8; 0]) |_| [];
    Byte(u8) |n| n as u8;
    Flag(bool) |n| n % 2 == 1;
    Big([u64; 9]) |n| [n; 9];
    Listed(Vec<u64>) |n| vec![n, n];
}

fn target<T: 'static>(name: &'static str, bag: &ValueBag) -> (&'static str, bool, Option<usize>) {
    (
        name,
        bag.is::<T>(),
        bag.downcast_ref::<T>().map(|p| p as *const T as usize),
    )
}

/// What downcasting to each type gives: what the type test says, and the address
fn targets(bag: &ValueBag) -> Vec<(&'static str, bool, Option<usize>)> {
    let mut v = Vec::new();
    family_targets(bag, &mut v);
    macro_rules! others {
        ($($t:ty),*) => {
            $(v.push(target::<$t>(stringify!($t), bag));)*
        };
    }
    others!(
        u64, i64, u8, [u64; 1], [u8; 8], (u64,), String, &'static str, f64, bool, (), Vec<u64>, Box<u64>,
        Option<u64>, std::sync::Arc<u64>
    );
    v
}

/// Only the type captured, at the address if one is known
fn check(bag: &ValueBag, captured: Option<&'static str>, addr: &mut Option<usize>) -> Result<usize, String> {
    let mut n = 0;
    for (name, is, at) in targets(bag) {
        if is != at.is_some() {
            return Err(format!("{}: the type test says {} but downcasting gives {:?}", name, is, at));
        }
        if captured == Some(name) {
            match (at, *addr) {
                (None, _) => return Err(format!("{}: can't be downcast to its own type", name)),
                (Some(at), Some(want)) if at != want => {
                    return Err(format!("{}: downcast to a different object", name))
                }
                (Some(at), _) => *addr = Some(at),
            }
        } else if is {
            return Err(format!("{:?} was downcast to {}", captured, name));
        }
        n += 1;
    }
    Ok(n)
}

const CAPTURES: &[&str] = &[
    "capture_debug",
    "capture_display",
    "capture_error",
    "capture_sval2",
    "capture_serde1",
    "capture_shared_debug",
    "capture_shared_display",
    "capture_shared_error",
    "capture_shared_sval2",
    "capture_shared_serde1",
    "capture_shared_seq_slice",
    "from_debug",
    "from_display",
    "from_dyn_debug",
    "from_dyn_display",
    "from_dyn_error",
    "from_sval2",
    "from_dyn_sval2",
    "from_serde1",
    "from_seq_slice",
];

fn capture<'v, T: Member>(r: usize, v: &'v T, n: u64) -> Option<ValueBag<'v>> {
    let _ = n;
    Some(match r {
        0 => ValueBag::capture_debug(v),
        1 => ValueBag::capture_display(v),
        #[cfg(feature = "error")]
        2 => ValueBag::capture_error(v),
        #[cfg(feature = "sval2")]
        3 => ValueBag::capture_sval2(v),
        #[cfg(feature = "serde1")]
        4 => ValueBag::capture_serde1(v),
        #[cfg(feature = "owned")]
        5 => ValueBag::capture_shared_debug(T::make(n)),
        #[cfg(feature = "owned")]
        6 => ValueBag::capture_shared_display(T::make(n)),
        #[cfg(all(feature = "owned", feature = "error"))]
        7 => ValueBag::capture_shared_error(T::make(n)),
        #[cfg(all(feature = "owned", feature = "sval2"))]
        8 => ValueBag::capture_shared_sval2(T::make(n)),
        #[cfg(all(feature = "owned", feature = "serde1"))]
        9 => ValueBag::capture_shared_serde1(T::make(n)),
        #[cfg(all(feature = "owned", feature = "seq"))]
        10 => ValueBag::capture_shared_seq_slice::<T, u64>(T::make(n)),
        11 => ValueBag::from_debug(v),
        12 => ValueBag::from_display(v),
        13 => ValueBag::from_dyn_debug(v),
        14 => ValueBag::from_dyn_display(v),
        #[cfg(feature = "error")]
        15 => ValueBag::from_dyn_error(v),
        #[cfg(feature = "sval2")]
        16 => ValueBag::from_sval2(v),
        #[cfg(feature = "sval2")]
        17 => ValueBag::from_dyn_sval2(v),
        #[cfg(feature = "serde1")]
        18 => ValueBag::from_serde1(v),
        #[cfg(feature = "seq")]
        19 => ValueBag::from_seq_slice::<T, u64>(v),
        _ => return None,
    })
}

pub fn c15(t: &mut Tape, cx: &mut Cx) -> Out {
    let which = t.below(FAMILY.len());
    let n = t.any();
    dispatch(which, t, cx, n)
}

fn member_case<T: Member>(t: &mut Tape, cx: &mut Cx, n: u64) -> Out {
    let v = T::make(n);
    let mut r = t.below(CAPTURES.len());
    if capture::<T>(r, &v, n).is_none() {
        r = 0;
    }
    let shared = (5..=10).contains(&r);
    let steps: &[Op] = if OWNED {
        &[
            Op::ByRef,
            Op::Clone,
            Op::CloneDrop,
            Op::ToOwned,
            Op::ToShared,
            Op::IntoShared,
            Op::OwnedClone,
            Op::ShareTwice,
            Op::FromOwned,
        ]
    } else {
        ops::REFS
    };
    let k = t.below(5);
    let ops: Vec<Op> = (0..k).map(|_| *t.pick(steps)).collect();
    cx.desc = format!("{} of {}({}){}", CAPTURES[r], T::NAME, n, ops_desc(&ops));
    cx.class(CAPTURES[r]);
    cx.class(T::NAME);
    for o in &ops {
        cx.class(format!("step:{:?}", o));
    }
    cx.nontrivial = true;
    let mut addr = if r < 5 { Some(&v as *const T as usize) } else { None };
    let bag = capture::<T>(r, &v, n).expect("route");
    let captured = if r <= 10 { Some(T::NAME) } else { None };
    cx.checks += check(&bag, captured, &mut addr)?;
    // every handle along the way is to the same object
    let mut res = Ok(0);
    let bufs = ops.iter().any(|o| o.buffers());
    let lost = bufs && !shared;
    let mut after_addr = if lost { None } else { addr };
    ops::run(bag.clone(), &ops, &mut |b| {
        res = check(b, if lost { None } else { captured }, &mut after_addr);
    });
    cx.checks += res.map_err(|e| format!("after the steps: {}", e))?;
    cx.checks += check(&bag, captured, &mut addr).map_err(|e| format!("the original: {}", e))?;
    Ok(())
}

// ------------------------------------------------------------ look-alikes

#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct N<T>(pub T);

impl<T: fmt::Debug> fmt::Display for N<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "N{:?}", self.0)
    }
}

fn not_prim<T: fmt::Debug + Send + Sync + Clone + 'static>(cx: &mut Cx, what: &str, v: &T) -> Out {
    cx.desc.push_str(&format!("{} {} {:?}", what, std::any::type_name::<T>(), v));
    cx.class(format!("look-alike {}", what));
    if ValueBag::try_capture(v).is_some() {
        return Err(format!("try_capture: {} was taken for a primitive", std::any::type_name::<T>()));
    }
    let mut bags = vec![("capture_debug", ValueBag::capture_debug(v))];
    #[cfg(feature = "owned")]
    {
        if ValueBag::try_capture_owned(v).is_some() {
            return Err(format!(
                "try_capture_owned: {} was taken for a primitive",
                std::any::type_name::<T>()
            ));
        }
        bags.push(("capture_shared_debug", ValueBag::capture_shared_debug(v.clone())));
    }
    let text = format!("{:?}", v);
    let pretty = format!("{:#?}", v);
    let x = expected(&M::new(C::Poisoned), NUM | CAST, &[]);
    let mut later = Vec::new();
    for (name, b) in &bags {
        let r = b.by_ref();
        for b in [b, &r] {
            if format!("{}", b) != text || format!("{:?}", b) != text || format!("{:#?}", b) != pretty {
                return Err(format!("{}: prints {} rather than {}", name, b, text));
            }
            cx.checks += compare(&x, &observe(b, NUM | CAST, &[])).map_err(|e| format!("{}: {}", name, e))?;
            if b.downcast_ref::<T>().is_none() {
                return Err(format!("{}: {} isn't kept as its own type", name, std::any::type_name::<T>()));
            }
        }
        #[cfg(feature = "owned")]
        later.push((*name, b.to_owned()));
        #[cfg(not(feature = "owned"))]
        later.push(*name);
    }
    #[cfg(feature = "owned")]
    for (name, o) in later {
        cx.checks += compare(&x, &observe(&o.by_ref(), NUM | CAST, &[]))
            .map_err(|e| format!("{} buffered: {}", name, e))?;
    }
    Ok(())
}

/// A value that isn't of a well-known type isn't taken for one
pub fn lookalike(t: &mut Tape, cx: &mut Cx) -> Out {
    cx.nontrivial = true;
    cx.desc = "look-alike ".into();
    let p = gen_prim(t);
    let shape = t.below(12);
    macro_rules! shapes {
        ($x:expr) => {{
            let x = $x;
            match shape {
                0 => not_prim(cx, "newtype", &N(x)),
                1 => not_prim(cx, "option of newtype", &Some(N(x))),
                2 => not_prim(cx, "array", &[x]),
                3 => not_prim(cx, "tuple", &(x,)),
                4 => not_prim(cx, "wrapping", &std::num::Wrapping(x)),
                5 => not_prim(cx, "newtype of option", &N(Some(x))),
                6 => not_prim(cx, "result", &Ok::<_, ()>(x)),
                7 => not_prim(cx, "none of a newtype", &None::<N<u64>>),
                8 => not_prim(cx, "manually drop", &std::mem::ManuallyDrop::new(x)),
                9 => not_prim(cx, "slice", &vec![x, x]),
                10 => not_prim(cx, "reverse", &std::cmp::Reverse(x)),
                _ => not_prim(cx, "newtype of newtype", &N(N(x))),
            }
        }};
    }
    if t.chance(1, 4) {
        let s = gen_short(t);
        return match t.below(8) {
            0 => not_prim(cx, "newtype", &N(s)),
            1 => not_prim(cx, "option of newtype", &Some(N(s))),
            2 => not_prim(cx, "bytes", &s.into_bytes()),
            3 => not_prim(cx, "array", &[s]),
            4 => not_prim(cx, "newtype", &N(crate::held::leak_str(&s))),
            5 => not_prim(cx, "nonzero", &std::num::NonZeroU64::new(s.len() as u64 + 1)),
            6 => not_prim(cx, "ordering", &s.as_str().cmp("m")),
            _ => not_prim(cx, "duration", &std::time::Duration::from_secs(s.len() as u64)),
        };
    }
    on_prim!(&p, x => shapes!(*x))
}
