//! Steps a bag can go through between being captured and being looked at.

use crate::held::*;
use crate::model::*;
use crate::tape::Tape;
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    ByRef,
    Clone,
    /// Clone, then drop the original
    CloneDrop,
    ToOwned,
    ToShared,
    IntoShared,
    /// Share twice over
    ShareTwice,
    OwnedClone,
    FromOwned,
    Thread,
    Fill,
    FillRef,
    /// With a closure
    FillFn,
    AsSerde,
    AsSval,
    AsDebug,
    AsDisplay,
}

pub const REFS: &[Op] = &[Op::ByRef, Op::Clone, Op::CloneDrop];
pub const BUFFERS: &[Op] = &[
    Op::ByRef,
    Op::ToOwned,
    Op::ToShared,
    Op::IntoShared,
    Op::OwnedClone,
    Op::Clone,
    Op::ShareTwice,
    Op::FromOwned,
    Op::CloneDrop,
    Op::Thread,
];
pub const ANY: &[Op] = &[
    Op::ByRef,
    Op::ToOwned,
    Op::Clone,
    Op::ToShared,
    Op::Fill,
    Op::FillRef,
    Op::IntoShared,
    Op::OwnedClone,
    Op::CloneDrop,
    Op::FromOwned,
    Op::AsSerde,
    Op::AsSval,
    Op::FillFn,
];

struct FillWith<'a, 'v>(&'a ValueBag<'v>, bool);

impl<'a, 'v> Fill for FillWith<'a, 'v> {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        crate::extra::tick();
        // SAFETY: the slot isn't used after this call
        if self.1 {
            slot.fill_any(unsafe { extend(self.0.by_ref()) })
        } else {
            slot.fill_any(unsafe { extend(self.0.clone()) })
        }
    }
}

impl Op {
    pub fn buffers(self) -> bool {
        matches!(
            self,
            Op::ToOwned
                | Op::ToShared
                | Op::IntoShared
                | Op::ShareTwice
                | Op::OwnedClone
                | Op::FromOwned
                | Op::Thread
        )
    }

    /// The content after this step, if it's possible here
    pub fn apply(self, m: &M) -> Option<M> {
        if self.buffers() && !OWNED {
            return None;
        }
        let weaken = |m: &M| {
            let mut m = m.clone();
            if let C::Err { shared: true, ref mut lend, .. } = m.c {
                if *lend == Bor::Yes {
                    *lend = Bor::Maybe;
                }
            }
            m
        };
        Some(match self {
            Op::ByRef | Op::Clone | Op::CloneDrop => weaken(m),
            Op::ToOwned | Op::OwnedClone | Op::FromOwned | Op::Thread => M::new(m.c.buffered()),
            Op::ToShared | Op::IntoShared | Op::ShareTwice => M::new(m.c.buffered().shared()),
            Op::Fill | Op::FillRef | Op::FillFn => M::filled(m.c.clone()),
            Op::AsSerde if !SERDE || m.c.to_tree(false).is_none() => return None,
            Op::AsSval if !SVAL || m.c.to_tree(true).is_none() => return None,
            Op::AsSerde => M::new(wrap_content(m.c.clone(), How::Serde, false)),
            Op::AsSval => M::new(wrap_content(m.c.clone(), How::Sval, false)),
            Op::AsDebug => M::new(wrap_content(m.c.clone(), How::Debug, false)),
            Op::AsDisplay => M::new(wrap_content(m.c.clone(), How::Display, false)),
        })
    }
}

/// Choose steps that are possible, giving the content after each
pub fn gen_ops(t: &mut Tape, from: &[Op], max: usize, m: &M) -> (Vec<Op>, M) {
    let max = if t.chance(1, 60) { max * 5 } else { max };
    let n = t.below(max + 1);
    let mut ops = Vec::new();
    let mut m = m.clone();
    for _ in 0..n {
        let op = *t.pick(from);
        if let Some(next) = op.apply(&m) {
            m = next;
            ops.push(op);
        }
    }
    (ops, m)
}

/// Take a bag through the steps and look at the result
pub fn run<'v>(bag: ValueBag<'v>, ops: &[Op], k: &mut dyn FnMut(&ValueBag)) {
    let (op, rest) = match ops.split_first() {
        None => return k(&bag),
        Some((op, rest)) => (*op, rest),
    };
    match op {
        Op::ByRef => run(bag.by_ref(), rest, k),
        Op::Clone => {
            let c = bag.clone();
            run(c, rest, k);
            drop(bag);
        }
        Op::CloneDrop => {
            let c = bag.clone();
            drop(bag);
            run(c, rest, k)
        }
        #[cfg(feature = "owned")]
        Op::ToOwned => {
            let o = bag.to_owned();
            drop(bag);
            run(o.by_ref(), rest, k)
        }
        #[cfg(feature = "owned")]
        Op::ToShared => {
            let o = bag.to_shared();
            drop(bag);
            run(o.by_ref(), rest, k)
        }
        #[cfg(feature = "owned")]
        Op::IntoShared => {
            let o = bag.to_owned().into_shared();
            drop(bag);
            run(o.by_ref(), rest, k)
        }
        #[cfg(feature = "owned")]
        Op::ShareTwice => {
            let o = bag.to_shared().into_shared();
            drop(bag);
            let c = o.clone();
            drop(o);
            run(c.by_ref(), rest, k)
        }
        #[cfg(feature = "owned")]
        Op::OwnedClone => {
            let o = bag.to_owned();
            let c = o.clone();
            drop(o);
            run(c.by_ref(), rest, k)
        }
        #[cfg(feature = "owned")]
        Op::FromOwned => {
            let o = bag.to_owned();
            run(ValueBag::from(&o), rest, k)
        }
        #[cfg(feature = "owned")]
        Op::Thread => {
            let o = bag.to_owned();
            let o = std::thread::spawn(move || o).join().expect("thread");
            run(o.by_ref(), rest, k)
        }
        Op::Fill => run(ValueBag::from_fill(&FillWith(&bag, false)), rest, k),
        Op::FillRef => run(ValueBag::from_fill(&FillWith(&bag, true)), rest, k),
        Op::FillFn => {
            let fill = |slot: Slot| {
                crate::extra::tick();
                // SAFETY: the slot isn't used after this call
                slot.fill_any(unsafe { extend(bag.by_ref()) })
            };
            run(ValueBag::from_fill(&fill), rest, k)
        }
        #[cfg(feature = "serde1")]
        Op::AsSerde => run(ValueBag::from_serde1(&bag), rest, k),
        #[cfg(feature = "sval2")]
        Op::AsSval => run(ValueBag::from_sval2(&bag), rest, k),
        Op::AsDebug => run(ValueBag::from_debug(&bag), rest, k),
        Op::AsDisplay => run(ValueBag::from_display(&bag), rest, k),
        #[allow(unreachable_patterns)]
        _ => unreachable!("not in this configuration"),
    }
}
