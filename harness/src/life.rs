//! How long owned and shared values live.

use crate::held::*;
use crate::model::*;
use crate::observe::*;
use crate::props::*;
use crate::tape::Tape;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Default)]
pub struct Counts {
    pub drops: AtomicUsize,
    /// Calls of the value's own formatting, serializing or iterating
    pub uses: AtomicUsize,
}

/// A value that counts what happens to it, and can't be copied
pub struct Tracked {
    pub counts: Arc<Counts>,
    pub text: String,
    pub items: Vec<u64>,
}

impl Tracked {
    pub fn new(text: String) -> (Tracked, Arc<Counts>) {
        let counts = Arc::new(Counts::default());
        (
            Tracked {
                counts: counts.clone(),
                items: vec![text.len() as u64, 7],
                text,
            },
            counts,
        )
    }

    fn used(&self) {
        self.counts.uses.fetch_add(1, Ordering::SeqCst);
        crate::extra::tick();
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        self.counts.drops.fetch_add(1, Ordering::SeqCst);
    }
}

impl fmt::Debug for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.used();
        write!(f, "debug {}", self.text)
    }
}

impl fmt::Display for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.used();
        write!(f, "display {}", self.text)
    }
}

impl std::error::Error for Tracked {}

impl serde_core::Serialize for Tracked {
    fn serialize<S: serde_core::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.used();
        s.serialize_str(&self.text)
    }
}

impl sval::Value for Tracked {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.used();
        s.value(&*self.text)
    }
}

impl AsRef<[u64]> for Tracked {
    fn as_ref(&self) -> &[u64] {
        self.used();
        &self.items
    }
}

pub const SHARES: &[&str] = &[
    "capture_shared_debug",
    "capture_shared_display",
    "capture_shared_error",
    "capture_shared_sval2",
    "capture_shared_serde1",
    "capture_shared_seq_slice",
];

#[cfg(feature = "owned")]
pub fn share(r: usize, v: Tracked) -> Result<value_bag::ValueBag<'static>, Tracked> {
    use value_bag::ValueBag;
    Ok(match r {
        0 => ValueBag::capture_shared_debug(v),
        1 => ValueBag::capture_shared_display(v),
        #[cfg(feature = "error")]
        2 => ValueBag::capture_shared_error(v),
        #[cfg(feature = "sval2")]
        3 => ValueBag::capture_shared_sval2(v),
        #[cfg(feature = "serde1")]
        4 => ValueBag::capture_shared_serde1(v),
        #[cfg(feature = "seq")]
        5 => ValueBag::capture_shared_seq_slice::<Tracked, u64>(v),
        _ => return Err(v),
    })
}

pub fn c10(t: &mut Tape, cx: &mut Cx) -> Out {
    if !OWNED {
        return Ok(());
    }
    if t.chance(2, 3) {
        shared(t, cx)
    } else {
        outlives(t, cx)
    }
}

#[cfg(not(feature = "owned"))]
fn shared(_: &mut Tape, _: &mut Cx) -> Out {
    Ok(())
}

#[cfg(not(feature = "owned"))]
fn outlives(_: &mut Tape, _: &mut Cx) -> Out {
    Ok(())
}

#[cfg(feature = "owned")]
mod owned {
    use super::*;
    use value_bag::{OwnedValueBag, ValueBag};

    pub enum Handle {
        Bag(ValueBag<'static>),
        Owned(OwnedValueBag),
    }

    impl Handle {
        pub fn look<R>(&self, f: impl FnOnce(&ValueBag) -> R) -> R {
            match self {
                Handle::Bag(b) => f(b),
                Handle::Owned(o) => f(&o.by_ref()),
            }
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Step {
        Read,
        Clone,
        ToOwned,
        ToShared,
        IntoShared,
        Drop,
        Threads,
        DropElsewhere,
        CloneRef,
        Swap,
    }

    pub const STEPS: &[Step] = &[
        Step::Clone,
        Step::ToOwned,
        Step::Drop,
        Step::ToShared,
        Step::IntoShared,
        Step::Read,
        Step::CloneRef,
        Step::Drop,
        Step::Swap,
        Step::Clone,
        Step::Drop,
        Step::Threads,
        Step::DropElsewhere,
    ];

    /// What a handle says, and where it says the object is
    pub fn read(b: &ValueBag, r: usize) -> (Obs, Option<usize>) {
        let mut groups = FMT | SERDE_G | SVAL_G | SEQ_G;
        if r == 5 {
            groups |= NUM;
        }
        (
            observe(b, groups, &[]),
            b.downcast_ref::<Tracked>().map(|p| p as *const Tracked as usize),
        )
    }
}

#[cfg(feature = "owned")]
fn shared(t: &mut Tape, cx: &mut Cx) -> Out {
    use owned::*;
    let text = crate::data::gen_short(t);
    let (v, counts) = Tracked::new(text.clone());
    let r = t.below(SHARES.len());
    let (r, bag) = match share(r, v) {
        Ok(b) => (r, b),
        Err(v) => (0, share(0, v).ok().expect("always there")),
    };
    let n = 1 + t.below(12);
    let plan: Vec<(Step, usize, usize)> = (0..n)
        .map(|_| (*t.pick(STEPS), t.below(64), t.below(64)))
        .collect();
    cx.desc = format!("{} of {:?}: {:?}", SHARES[r], text, plan);
    cx.class(SHARES[r]);
    cx.nontrivial = plan.len() > 1;
    let (first, addr) = read(&bag, r);
    if addr.is_none() {
        return Err("the shared object can't be reached".into());
    }
    let mut hs: Vec<Handle> = vec![Handle::Bag(bag)];
    let drops = || counts.drops.load(Ordering::SeqCst);
    let check = |h: &Handle| -> Out {
        let (o, a) = h.look(|b| read(b, r));
        same(&first, &o, &|k| k.contains("borrowed") || k.ends_with(".exact"))?;
        if a != addr {
            return Err(format!("a handle to a different object: {:?} rather than {:?}", a, addr));
        }
        Ok(())
    };
    for (i, (s, a, b)) in plan.iter().enumerate() {
        if hs.is_empty() {
            break;
        }
        let j = a % hs.len();
        cx.class(format!("step:{:?}", s));
        match s {
            Step::Read => check(&hs[j])?,
            Step::Clone => {
                let c = match &hs[j] {
                    Handle::Bag(b) => Handle::Bag(b.clone()),
                    Handle::Owned(o) => Handle::Owned(o.clone()),
                };
                hs.push(c);
            }
            Step::CloneRef => {
                let o = hs[j].look(|b| b.by_ref().clone().by_ref().to_owned());
                hs.push(Handle::Owned(o));
            }
            Step::ToOwned => {
                let o = hs[j].look(|b| b.to_owned());
                hs.push(Handle::Owned(o));
            }
            Step::ToShared => {
                let o = hs[j].look(|b| b.to_shared());
                hs.push(Handle::Owned(o));
            }
            Step::IntoShared => {
                let h = hs.swap_remove(j);
                hs.push(match h {
                    Handle::Owned(o) => Handle::Owned(o.into_shared()),
                    h => h,
                });
            }
            Step::Drop => {
                drop(hs.swap_remove(j));
            }
            Step::DropElsewhere => {
                let o = hs[j].look(|b| b.to_owned());
                drop(hs.swap_remove(j));
                std::thread::spawn(move || drop(o)).join().map_err(|_| "thread panicked")?;
            }
            Step::Swap => {
                let k = b % hs.len();
                hs.swap(j, k);
            }
            Step::Threads => {
                let n = 2 + b % 3;
                let mine: Vec<_> = (0..n).map(|_| hs[j].look(|b| b.to_owned())).collect();
                let first = &first;
                let bad: Vec<String> = std::thread::scope(|sc| {
                    let ts: Vec<_> = mine
                        .into_iter()
                        .map(|o| {
                            sc.spawn(move || {
                                for _ in 0..3 {
                                    let c = o.clone();
                                    let s = c.by_ref().to_shared();
                                    drop(c);
                                    let (got, a) = read(&s.by_ref(), r);
                                    if a != addr {
                                        return Err("a different object on another thread".into());
                                    }
                                    same(first, &got, &|k| k.contains("borrowed") || k.ends_with(".exact"))?;
                                }
                                Ok(())
                            })
                        })
                        .collect();
                    ts.into_iter()
                        .filter_map(|t| match t.join() {
                            Ok(Ok(())) => None,
                            Ok(Err(e)) => Some(e),
                            Err(_) => Some("a thread panicked".into()),
                        })
                        .collect()
                });
                if let Some(e) = bad.into_iter().next() {
                    return Err(e);
                }
            }
        }
        let want = if hs.is_empty() { 1 } else { 0 };
        if drops() != want {
            return Err(format!(
                "memory: after step {} ({:?}) the value was dropped {} times with {} handles left",
                i,
                s,
                drops(),
                hs.len()
            ));
        }
        cx.checks += 1;
    }
    for h in &hs {
        check(h)?;
        cx.checks += 1;
    }
    drop(hs);
    if drops() != 1 {
        return Err(format!("memory: the value was dropped {} times in the end", drops()));
    }
    Ok(())
}

/// Buffered values don't depend on where they came from
#[cfg(feature = "owned")]
fn outlives(t: &mut Tape, cx: &mut Cx) -> Out {
    let h = gen_held(t, &ALL);
    let shared = t.flip();
    let threads = 1 + t.below(3);
    let c = h.content().c.buffered();
    let m = M::new(if shared { c.shared() } else { c });
    cx.desc = format!(
        "{} {} read by {} threads",
        h.desc(),
        if shared { "to_shared" } else { "to_owned" },
        threads
    );
    cx.class(h.route());
    cx.class(format!("threads:{}", threads));
    cx.nontrivial = true;
    let groups = NUM | CAST | FMT | SERDE_G | SVAL_G | SEQ_G | ERR_G | VISIT;
    let o = if shared { h.bag().to_shared() } else { h.bag().to_owned() };
    let before = observe(&o.by_ref(), groups, &[]);
    // the memory is overwritten as it's freed
    drop(h);
    let o = Box::new(o);
    let bad: Vec<String> = std::thread::scope(|sc| {
        let ts: Vec<_> = (0..threads)
            .map(|i| {
                let (o, before) = (&o, &before);
                sc.spawn(move || {
                    let got = if i % 2 == 0 {
                        observe(&o.by_ref(), groups, &[])
                    } else {
                        let c = (**o).clone();
                        observe(&c.by_ref(), groups, &[])
                    };
                    same(before, &got, &|_| false)
                })
            })
            .collect();
        ts.into_iter()
            .filter_map(|t| match t.join() {
                Ok(Ok(_)) => None,
                Ok(Err(e)) => Some(e),
                Err(_) => Some("a thread panicked".into()),
            })
            .collect()
    });
    if let Some(e) = bad.into_iter().next() {
        return Err(format!("after the source was dropped: {}", e));
    }
    cx.checks += before.len();
    let moved = std::thread::spawn(move || {
        let r = observe(&o.by_ref(), groups, &[]);
        drop(o);
        r
    })
    .join()
    .map_err(|_| "a thread panicked".to_string())?;
    cx.checks += same(&before, &moved, &|_| false)?;
    cx.checks += compare(&expected(&m, groups, &[]), &moved)?;
    Ok(())
}
