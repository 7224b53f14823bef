//! Operations that overlap on several threads.
//!
//! Only one thread runs at a time, and which one is next is decided by the case
//! each time captured or consuming code is run, so a case can be run again.

use crate::data::*;
use crate::extra::*;
use crate::held::*;
use crate::ops::{self, gen_ops, Op};
use crate::props::*;
use crate::tape::Tape;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use value_bag::ValueBag;

struct State {
    turn: usize,
    done: Vec<bool>,
    /// Which of the others goes on, each time one may stop
    plan: Vec<u8>,
    next: usize,
    switches: usize,
}

struct Sched {
    state: Mutex<State>,
    change: Condvar,
}

impl Sched {
    fn new(n: usize, plan: Vec<u8>) -> Sched {
        Sched {
            state: Mutex::new(State {
                turn: 0,
                done: vec![false; n],
                plan,
                next: 0,
                switches: 0,
            }),
            change: Condvar::new(),
        }
    }

    fn wait(&self, me: usize) {
        let mut s = self.state.lock().expect("state");
        while s.turn != me {
            s = self.change.wait(s).expect("state");
        }
    }

    /// Let whoever the plan says go on
    fn pass(&self, me: usize) {
        let mut s = self.state.lock().expect("state");
        let Some(p) = s.plan.get(s.next).copied() else {
            return;
        };
        s.next += 1;
        let n = s.done.len();
        let to = (me + p as usize) % n;
        if to == me || s.done[to] {
            return;
        }
        s.switches += 1;
        s.turn = to;
        self.change.notify_all();
        while s.turn != me {
            s = self.change.wait(s).expect("state");
        }
    }

    fn finish(&self, me: usize) {
        let mut s = self.state.lock().expect("state");
        s.done[me] = true;
        if let Some(to) = s.done.iter().position(|d| !d) {
            s.turn = to;
        }
        self.change.notify_all();
    }
}

struct Actor {
    h: Held,
    ops: Vec<Op>,
    qs: Vec<(usize, usize)>,
    /// Asks the bag that everyone shares instead of its own
    common: bool,
}

impl Actor {
    fn answers(&self, common: Option<&ValueBag>, out: &mut Vec<String>) {
        let mut go = |b: &ValueBag| out.extend(self.qs.iter().map(|(q, a)| ask(b, *q, *a)));
        match common {
            Some(b) if self.common => ops::run(b.by_ref(), &self.ops, &mut go),
            _ => ops::run(self.h.bag(), &self.ops, &mut go),
        }
    }
}

/// Text in pieces if there are no weights to go by
fn gen_value(t: &mut Tape, g: &Gen) -> Held {
    if g.w.iter().any(|w| *w > 0) {
        return gen_held(t, g);
    }
    let n = 1 + t.below(7);
    let parts = (0..n)
        .map(|_| if t.chance(1, 8) { Part::Char('\u{e9}') } else { Part::Text(gen_text(t)) })
        .collect();
    let r = t.below(FMT_ROUTES.len());
    frag_held(Frag(FragData { parts, marked: t.flip() }), r).available()
}

pub fn c29(t: &mut Tape, cx: &mut Cx) -> Out {
    let g = Gen { fail: false, w: [2, 2, 0, 8, 5, 12, 2, 2, 8, 6, 6, 0], ..ALL };
    let n = 2 + t.below(2);
    let shared = cfg!(feature = "owned") && t.flip();
    // the same kind of thing, done by everyone at once
    let alike = t.flip();
    let g = match t.below(5) {
        _ if !alike => g,
        0 => Gen { w: [0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0], ..g },
        1 => Gen { w: [0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0], ..g },
        2 => Gen { w: [0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0], ..g },
        3 => Gen { w: [0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0], ..g },
        _ => Gen { w: [0; 12], ..g },
    };
    let each = (t.below(QUESTIONS.len() + 4), t.below(64));
    let each = match each.0.checked_sub(QUESTIONS.len()) {
        None => each,
        Some(k) => {
            let name = ["to_owned", "to_shared", "{}", "{:?}"][k];
            (QUESTIONS.iter().position(|q| *q == name).expect("a question"), each.1)
        }
    };
    let first = gen_value(t, &g);
    let buffer = t.flip();
    let actors: Vec<Actor> = (0..n)
        .map(|i| {
            let common = shared && (i == 0 || t.flip());
            let h = if common || i == 0 { first.clone() } else { gen_value(t, &g) };
            let m = h.content();
            let (ops, _) = gen_ops(t, ops::ANY, 2, &m);
            let qs = if alike {
                vec![each]
            } else {
                (0..1 + t.below(2)).map(|_| (t.below(QUESTIONS.len()), t.below(64))).collect()
            };
            Actor { h, ops, qs, common }
        })
        .collect();
    let plan: Vec<u8> = (0..t.below(32)).map(|_| t.below(n) as u8).collect();
    cx.class(if alike { "alike" } else { "different" });
    cx.desc = actors
        .iter()
        .map(|a| {
            let qs: Vec<String> = a.qs.iter().map(|(q, x)| format!("{} {}", QUESTIONS[*q], x)).collect();
            format!("{}{}{} {}", if a.common { "common " } else { "" }, a.h.desc(), ops_desc(&a.ops), qs.join(", "))
        })
        .collect::<Vec<_>>()
        .join(" | ");
    cx.desc.push_str(&format!(" buffered: {} plan {:?}", buffer, plan));
    cx.class(format!("threads:{}", n));
    for a in &actors {
        cx.class(if a.common { "common" } else { "separate" });
        for (q, _) in &a.qs {
            cx.class(QUESTIONS[*q]);
        }
    }
    #[cfg(feature = "owned")]
    let owned = match shared {
        true if buffer => Some(first.bag().to_owned()),
        true => Some(first.bag().to_shared()),
        false => None,
    };
    #[cfg(feature = "owned")]
    let common = owned.as_ref();
    #[cfg(not(feature = "owned"))]
    let common: Option<&Nothing> = None;
    let want: Vec<Vec<String>> = actors
        .iter()
        .map(|a| {
            let mut out = Vec::new();
            a.answers(common.map(|o| o.by_ref()).as_ref(), &mut out);
            out
        })
        .collect();
    let sched = Sched::new(n, plan);
    let got: Vec<Result<Vec<String>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = actors
            .iter()
            .enumerate()
            .map(|(me, a)| {
                let sched = &sched;
                sc.spawn(move || {
                    sched.wait(me);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let mut out = Vec::new();
                        meanwhile(1, &|| sched.pass(me), || {
                            a.answers(common.map(|o| o.by_ref()).as_ref(), &mut out)
                        });
                        out
                    }));
                    let r = r.map_err(|_| format!("panicked: {}", crate::runner::last_panic()));
                    sched.finish(me);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("caught")).collect()
    });
    let switches = sched.state.lock().expect("state").switches;
    cx.nontrivial = switches > 0;
    for (i, (want, got)) in want.iter().zip(got).enumerate() {
        let got = got.map_err(|e| format!("thread {}: {}", i, e))?;
        for (k, (w, g)) in want.iter().zip(&got).enumerate() {
            if w != g {
                let q = actors[i].qs[k].0;
                return Err(format!("thread {}: {}: {} became {}", i, QUESTIONS[q], w, g));
            }
            cx.checks += 1;
        }
    }
    Ok(())
}

/// Stands for an owned bag where there aren't any
#[cfg(not(feature = "owned"))]
struct Nothing;

#[cfg(not(feature = "owned"))]
impl Nothing {
    fn by_ref(&self) -> ValueBag<'_> {
        ValueBag::empty()
    }
}
