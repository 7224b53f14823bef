//! Runs cases, shrinks failures, and reports.

use crate::digest;
use crate::props::{find, Cx, Out, Prop};
use crate::tape::{shrink, Tape};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn hash(s: &str) -> u64 {
    // a fixed function, so that runs in different configurations agree
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{} at {}", msg, at));
    }));
}

/// The last panic on this thread
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

/// Run one case; a panic is a failure
pub fn case(p: Prop, t: &mut Tape) -> (Cx, Out) {
    let mut cx = Cx::default();
    let r = catch_unwind(AssertUnwindSafe(|| p(t, &mut cx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    };
    (cx, r)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn short(s: &str) -> String {
    let mut o: String = s.chars().take(400).collect();
    if o.len() < s.len() {
        o.push('…');
    }
    o
}

pub struct Args(BTreeMap<String, String>);

impl Args {
    fn parse(it: impl Iterator<Item = String>) -> Args {
        let v: Vec<String> = it.collect();
        let mut m = BTreeMap::new();
        let mut i = 0;
        while i < v.len() {
            let k = v[i].trim_start_matches("--").to_string();
            m.insert(k, v.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        }
        Args(m)
    }

    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }

    pub fn text(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| &**s)
    }
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: u64,
    checks: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    failure: Option<(u64, Vec<u64>, String, String)>,
}

fn stream(id: &str) -> u64 {
    hash(id)
}

fn run(id: &str, a: &Args) {
    let p = find(id).expect("no such property");
    let seed = a.num("seed", 1);
    let from = a.num("from", 0);
    let to = from + a.num("cases", 1000);
    let threads = a.num("threads", 1).max(1);
    let every = ((to - from) / 6).max(1);
    let progress = a
        .text("progress")
        .map(|p| std::fs::File::create(p).expect("progress file"));
    let seconds = Duration::from_secs(a.num("seconds", 1 << 30));
    let total = Mutex::new(Totals::default());
    let stop = AtomicU64::new(u64::MAX);
    let start = Instant::now();
    std::thread::scope(|sc| {
        for k in 0..threads {
            let (total, stop, progress) = (&total, &stop, &progress);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut mine = Totals::default();
                    let mut next_sample = from;
                    let mut i = from + k;
                    while i < to && i < stop.load(Ordering::Relaxed) && start.elapsed() < seconds {
                        if let Some(f) = progress {
                            let _ = f.write_at(&i.to_le_bytes(), k * 8);
                        }
                        let mut t = Tape::random(seed, stream(id), i);
                        let (mut cx, r) = case(p, &mut t);
                        mine.evaluations += 1;
                        mine.checks += cx.checks as u64;
                        if cx.nontrivial {
                            mine.nontrivial += 1;
                            mine.distinct.insert(hash(&cx.desc));
                            if k == 0 && i >= next_sample {
                                mine.samples.push((i, short(&cx.desc)));
                                next_sample = i + every;
                            }
                        }
                        for c in std::mem::take(&mut cx.classes) {
                            *mine.classes.entry(c).or_default() += 1;
                        }
                        if let Err(e) = r {
                            stop.fetch_min(i, Ordering::Relaxed);
                            mine.failure = Some((i, t.rec, cx.desc, e));
                            break;
                        }
                        i += threads;
                    }
                    if let Some(f) = progress {
                        let _ = f.write_at(&u64::MAX.to_le_bytes(), k * 8);
                    }
                    let mut t = total.lock().unwrap();
                    t.evaluations += mine.evaluations;
                    t.nontrivial += mine.nontrivial;
                    t.checks += mine.checks;
                    t.distinct.extend(mine.distinct);
                    t.samples.extend(mine.samples);
                    for (c, n) in mine.classes {
                        *t.classes.entry(c).or_default() += n;
                    }
                    if let Some(f) = mine.failure {
                        if t.failure.as_ref().map_or(true, |g| f.0 < g.0) {
                            t.failure = Some(f);
                        }
                    }
                })
                .expect("thread");
        }
    });
    let mut t = total.into_inner().unwrap();
    let failure = t.failure.take().map(|(i, tape, desc, said)| {
        on_big_stack(move || {
            let deadline = Instant::now() + Duration::from_secs(20);
            let best = shrink(tape.clone(), 4000, deadline, &mut |c| {
                let mut t = Tape::replay(c.to_vec());
                let (_, r) = case(p, &mut t);
                r.err().map(|_| t.rec)
            });
            let mut t = Tape::replay(best.clone());
            let (cx, r) = case(p, &mut t);
            match r {
                Err(e) => (i, best, cx.desc, e),
                // it only fails now and then: the case as it was found
                Ok(()) => {
                    let mut t = Tape::replay(tape.clone());
                    let (_, r) = case(p, &mut t);
                    let e = r.err().unwrap_or_else(|| format!("{} (but not on its own)", said));
                    (i, tape, desc, e)
                }
            }
        })
    });
    let mut o = String::from("{");
    o += &format!("\"evaluations\": {}, ", t.evaluations);
    o += &format!("\"nontrivial\": {}, ", t.nontrivial);
    o += &format!("\"distinct_nontrivial\": {}, ", t.distinct.len());
    o += &format!("\"answers_decided\": {}, ", t.checks);
    o += &format!("\"run_s\": {:.2}, ", start.elapsed().as_secs_f64());
    o += "\"classes\": {";
    o += &t
        .classes
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    o += "}, \"samples\": [";
    o += &t
        .samples
        .iter()
        .map(|(i, s)| format!("{{\"case\": {}, \"input\": {}}}", i, json_str(s)))
        .collect::<Vec<_>>()
        .join(", ");
    o += "], \"failure\": ";
    match failure {
        None => o += "null",
        Some((i, tape, desc, e)) => {
            o += &format!(
                "{{\"case\": {}, \"input\": {}, \"message\": {}, \"tape\": {:?}}}",
                i,
                json_str(&desc),
                json_str(&e),
                tape
            )
        }
    }
    o += "}\n";
    emit(a, &o);
}

fn emit(a: &Args, o: &str) {
    match a.text("out") {
        Some(f) => std::fs::write(f, o).expect("write"),
        None => print!("{}", o),
    }
}

pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, f)
            .expect("thread")
            .join()
            .expect("finished")
    })
}

/// Choices separated by anything that isn't a digit
pub fn read_tape(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit())
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().expect("choice"))
        .collect()
}

/// A single case, either from a file of choices or by number
fn one(id: &str, a: &Args) -> i32 {
    let p = find(id).expect("no such property");
    let mut t = match a.text("tape") {
        Some(f) => Tape::replay(read_tape(&std::fs::read_to_string(f).expect("tape"))),
        None => Tape::random(a.num("seed", 1), stream(id), a.num("case", 0)),
    };
    t.echo = a.text("echo").map(|f| std::fs::File::create(f).expect("echo"));
    let (cx, r, rec) = on_big_stack(move || {
        let (cx, r) = case(p, &mut t);
        (cx, r, t.rec)
    });
    let _ = rec;
    println!("input: {}", cx.desc);
    match r {
        Ok(()) => {
            println!("held ({} answers)", cx.checks);
            0
        }
        Err(e) => {
            println!("failed: {}", e);
            1
        }
    }
}

pub fn main() {
    hook();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    match &*cmd {
        "run" => {
            let id = it.next().expect("property");
            let a = Args::parse(it);
            run(&id, &a)
        }
        "one" => {
            let id = it.next().expect("property");
            let a = Args::parse(it);
            std::process::exit(one(&id, &a))
        }
        "digest" => digest::run(&Args::parse(it)),
        _ => {
            eprintln!("usage: vbharness run|one ID [--seed N] [--cases N] ... | digest");
            std::process::exit(2)
        }
    }
}
