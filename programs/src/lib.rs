//! What generated programs capture and use. They're only compiled.

pub use value_bag::{fill::Fill, fill::Slot, visit::Visit, Error as BagError, ValueBag};
#[cfg(feature = "owned")]
pub use value_bag::OwnedValueBag;
pub use serde_core::Serialize;
pub use sval::Value;
pub use sval_ref::ValueRef;

pub use std::borrow::Cow;
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;

/// Nothing special
pub struct Plain(pub String);
/// Can't be looked at from two threads
pub struct Celled(pub String, pub Cell<u8>);
/// Has to stay on its thread
pub struct Counted(pub Rc<String>);
/// Can be looked at from two threads but not given to another
pub struct Guarded(pub String, pub PhantomData<MutexGuard<'static, ()>>);
/// Borrows from something else
pub struct Lent<'a>(pub &'a str);

pub fn plain() -> Plain {
    Plain(text())
}

pub fn celled() -> Celled {
    Celled(text(), Cell::new(1))
}

pub fn counted() -> Counted {
    Counted(Rc::new(text()))
}

pub fn guarded() -> Guarded {
    Guarded(text(), PhantomData)
}

pub fn text() -> String {
    String::from("text")
}

pub fn numbers() -> Vec<u64> {
    vec![1, 2]
}

pub fn texts() -> Vec<String> {
    vec![text()]
}

macro_rules! impls {
    ($(($($t:tt)*) |$v:ident| $e:expr,)*) => {
        $(
            $($t)* {
                fn name(&self) -> &str {
                    let $v = self;
                    $e
                }
            }
        )*
    };
}

trait Named {
    fn name(&self) -> &str;
}

impls! {
    (impl Named for Plain) |v| &v.0,
    (impl Named for Celled) |v| &v.0,
    (impl Named for Counted) |v| &v.0,
    (impl Named for Guarded) |v| &v.0,
    (impl<'a> Named for Lent<'a>) |v| v.0,
}

macro_rules! all {
    ($([$($g:tt)*] $t:ty,)*) => {
        $(
            impl<$($g)*> fmt::Debug for $t {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str(self.name())
                }
            }

            impl<$($g)*> fmt::Display for $t {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str(self.name())
                }
            }

            impl<$($g)*> std::error::Error for $t {}

            impl<$($g)*> Fill for $t {
                fn fill(&self, slot: Slot) -> Result<(), BagError> {
                    slot.fill_any(7u64)
                }
            }

            impl<$($g)*> serde_core::Serialize for $t {
                fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_str(self.name())
                }
            }

            impl<$($g)*> sval::Value for $t {
                fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                    s.value(self.name())
                }
            }
        )*
    };
}

all! {
    [] Plain,
    [] Celled,
    [] Counted,
    [] Guarded,
    ['a] Lent<'a>,
}

/// Keeps what it's lent
#[derive(Default)]
pub struct Keep<'v>(pub Option<&'v str>);

impl<'v> Visit<'v> for Keep<'v> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), BagError> {
        Ok(())
    }

    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), BagError> {
        self.0 = Some(v);
        Ok(())
    }
}

/// Keeps the error it's lent
#[cfg(feature = "error")]
pub struct KeepError<'v>(pub Option<&'v (dyn std::error::Error + 'static)>);

#[cfg(feature = "error")]
impl<'v> Visit<'v> for KeepError<'v> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), BagError> {
        Ok(())
    }

    fn visit_borrowed_error(&mut self, v: &'v (dyn std::error::Error + 'static)) -> Result<(), BagError> {
        self.0 = Some(v);
        Ok(())
    }
}

/// Keeps the text that's streamed to it
#[cfg(feature = "sval2")]
pub struct Streamed<'v>(pub Option<&'v str>);

#[cfg(feature = "sval2")]
impl<'v> sval::Stream<'v> for Streamed<'v> {
    fn text_fragment(&mut self, v: &'v str) -> sval::Result {
        self.0 = Some(v);
        Ok(())
    }

    fn null(&mut self) -> sval::Result {
        Ok(())
    }

    fn bool(&mut self, _: bool) -> sval::Result {
        Ok(())
    }

    fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }

    fn text_fragment_computed(&mut self, _: &str) -> sval::Result {
        Ok(())
    }

    fn text_end(&mut self) -> sval::Result {
        Ok(())
    }

    fn i64(&mut self, _: i64) -> sval::Result {
        Ok(())
    }

    fn f64(&mut self, _: f64) -> sval::Result {
        Ok(())
    }

    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }

    fn seq_value_begin(&mut self) -> sval::Result {
        Ok(())
    }

    fn seq_value_end(&mut self) -> sval::Result {
        Ok(())
    }

    fn seq_end(&mut self) -> sval::Result {
        Ok(())
    }
}

pub fn touch<T>(_: &T) {}
pub fn send<T: Send>(_: T) {}
pub fn sync<T: Sync>(_: &T) {}
pub fn forever<T: 'static>(_: T) {}
