//! A transcript of what a case does, for comparing builds with different features.

use crate::data::Prim;
use crate::held::*;
use crate::model::*;
use crate::observe::*;
use crate::ops::{self, Op};
use crate::props::*;
use crate::rec::*;
use crate::runner::{hash, json_str, last_panic, read_tape, Args};
use crate::tape::Tape;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The parts of a transcript that are compared on their own
pub const PARTS: &[&str] = &[
    "casts",
    "alloc casts",
    "formatting",
    "serde",
    "sval",
    "visit",
    "sequences",
    "alloc sequences",
    "errors",
    "token",
];

const STEPS: &[Op] = &[
    Op::ByRef,
    Op::ToOwned,
    Op::Clone,
    Op::ToShared,
    Op::Fill,
    Op::FillRef,
    Op::IntoShared,
    Op::OwnedClone,
    Op::CloneDrop,
    Op::AsSerde,
    Op::AsSval,
    Op::AsDebug,
    Op::AsDisplay,
];

/// Storing 128-bit integers in a sharing constructor is documented to depend on the build
fn depends_on_storage(h: &Held) -> bool {
    match h {
        Held::P(Prim::U128(_) | Prim::I128(_), _, r) => {
            PRIM_ROUTES[*r].0.contains("capture_shared") || PRIM_ROUTES[*r].0.contains("capture_owned")
        }
        Held::QE(v, ..) => v.iter().any(|e| depends_on_storage(&e.0)),
        Held::Fill(f) => depends_on_storage(&f.inner.0),
        Held::Wrap(e, _) => depends_on_storage(&e.0),
        _ => false,
    }
}

/// The description of a case, and the parts of its transcript
fn transcript(t: &mut Tape) -> (String, Vec<Option<Obs>>) {
    let g = Gen {
        fail: t.chance(1, 8),
        ..ALL
    };
    let h = gen_raw(t, &g);
    let n = t.below(5);
    let steps: Vec<Op> = (0..n).map(|_| *t.pick(STEPS)).collect();
    let fmts = gen_fmts(t, 3);
    let desc = format!("{}{} {:?}", h.desc(), ops_desc(&steps), fmts);
    let none = || PARTS.iter().map(|_| None).collect();
    if depends_on_storage(&h) || h.try_bag().is_none() {
        return (desc, none());
    }
    let mut m = h.content();
    for o in &steps {
        m = match o.apply(&m) {
            Some(m) => m,
            None => return (desc, none()),
        };
    }
    let mut parts: Vec<Option<Obs>> = none();
    ops::run(h.bag(), &steps, &mut |b| {
        let (alloc, casts): (Obs, Obs) = observe(b, NUM | CAST, &[])
            .into_iter()
            .partition(|(k, _)| ["to_str", "try_String", "try_Cow"].contains(&&**k));
        let text_in_pieces = !ALLOC && matches!(m.c, C::Sval { .. } | C::Seq { .. });
        parts[0] = Some(casts);
        if ALLOC {
            parts[1] = Some(alloc);
        }
        parts[2] = Some(observe(b, FMT | FLAGS, &fmts));
        if SERDE {
            parts[3] = Some(observe(b, SERDE_G, &[]));
        }
        if SVAL {
            parts[4] = Some(observe(b, SVAL_G, &[]));
        }
        if !text_in_pieces && !(matches!(m.c, C::Err { .. }) && !ERROR) {
            let mut v = Obs::new();
            for k in 0..VISITORS {
                let mut log = VisitLog::new(false, NUM | FMT);
                let r = visit_with(b, k, &mut log);
                v.push((format!("visit{}", k), log.calls.join("; ")));
                v.push((format!("visit{}.ok", k), r.is_ok().to_string()));
                v.extend(log.nested.into_iter().map(|(nk, nv)| (format!("visit{}.{}", k, nk), nv)));
            }
            parts[5] = Some(v);
        }
        let unheld = matches!(m.c, C::Sval { ref t, b, .. } if needs_alloc(t, b));
        if SEQ && !unheld {
            let (alloc, seqs): (Obs, Obs) = observe(b, SEQ_G, &[])
                .into_iter()
                .partition(|(k, _)| k.starts_with("seq.to_str"));
            parts[6] = Some(seqs);
            if ALLOC {
                parts[7] = Some(alloc);
            }
        }
        if ERROR {
            parts[8] = Some(observe(b, ERR_G, &[]));
        }
        if TEST && !m.c.fails() {
            parts[9] = Some(observe(b, TOKEN, &[]));
        }
    });
    (desc, parts)
}

fn guarded(t: &mut Tape) -> (String, Vec<Option<Obs>>) {
    match catch_unwind(AssertUnwindSafe(|| transcript(t))) {
        Ok(r) => r,
        // for the other properties to judge
        Err(_) => (format!("panicked: {}", last_panic()), PARTS.iter().map(|_| None).collect()),
    }
}

fn line(d: &str, parts: &[Option<Obs>]) -> String {
    let mut s = format!("{:x}", hash(d));
    for p in parts {
        match p {
            None => s.push_str(" -"),
            Some(o) => {
                let all: String = o.iter().map(|(k, v)| format!("{}={};", k, v)).collect();
                let _ = write!(s, " {:x}", hash(&all));
            }
        }
    }
    s
}

/// Either a range of cases, or the choices in each line of a file
pub fn run(a: &Args) {
    let seed = a.num("seed", 1);
    let verbose = a.num("verbose", 0) != 0;
    let tapes: Option<Vec<Vec<u64>>> = a.text("tapes").map(|f| {
        std::fs::read_to_string(f)
            .expect("tapes")
            .lines()
            .map(read_tape)
            .collect()
    });
    let from = a.num("from", 0);
    let n = match tapes {
        Some(ref v) => v.len() as u64,
        None => a.num("cases", 100),
    };
    let threads = a.num("threads", 1).max(1);
    let progress = a
        .text("progress")
        .map(|p| std::fs::File::create(p).expect("progress file"));
    let lines: Vec<Vec<(u64, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (tapes, progress) = (&tapes, &progress);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut out = Vec::new();
                        let mut i = k;
                        while i < n {
                            if let Some(f) = progress {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_at(&(from + i).to_le_bytes(), k * 8);
                            }
                            let mut t = match tapes {
                                Some(v) => Tape::replay(v[i as usize].clone()),
                                None => Tape::random(seed, hash("C19"), from + i),
                            };
                            let (d, parts) = guarded(&mut t);
                            let mut l = line(&d, &parts);
                            if verbose {
                                let _ = write!(l, " {{\"input\": {}, \"tape\": {:?}", json_str(&d), t.rec);
                                for (name, p) in PARTS.iter().zip(&parts) {
                                    let _ = write!(l, ", {}: ", json_str(name));
                                    match p {
                                        None => l.push_str("null"),
                                        Some(o) => {
                                            let o: Vec<String> = o
                                                .iter()
                                                .map(|(k, v)| format!("[{}, {}]", json_str(k), json_str(v)))
                                                .collect();
                                            let _ = write!(l, "[{}]", o.join(", "));
                                        }
                                    }
                                }
                                l.push('}');
                            }
                            out.push((i, l));
                            i += threads;
                        }
                        out
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("finished")).collect()
    });
    let mut all: Vec<(u64, String)> = lines.into_iter().flatten().collect();
    all.sort();
    let mut f = std::io::BufWriter::new(match a.text("out") {
        Some(f) => Box::new(std::fs::File::create(f).expect("out")) as Box<dyn std::io::Write>,
        None => Box::new(std::io::stdout()),
    });
    for (_, l) in all {
        writeln!(f, "{}", l).expect("write");
    }
}
