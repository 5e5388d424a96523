//! Runs the generated cases of one property on all cores, shrinks failures and reports.

use crate::g::{hash_bytes, Rng, G};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a passing case was.
pub struct Case {
    pub nontrivial: bool,
    pub class: String,
}

pub fn ok<S: Into<String>>(nontrivial: bool, class: S) -> R {
    Ok(Case {
        nontrivial,
        class: class.into(),
    })
}

/// A failing case. `known` names the known finding it is an instance of; the check prints those
/// as such if the committed list has them, and as a violation otherwise.
#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub known: Option<String>,
}

impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { msg, known: None }
    }
}

impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail {
            msg: msg.to_owned(),
            known: None,
        }
    }
}

pub type R = Result<Case, Fail>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::runner::Fail::from(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { $crate::fail!($($arg)*); } };
}

pub struct Sub {
    pub name: String,
    pub quick: usize,
    pub thorough: usize,
    pub f: Box<dyn Fn(&mut G) -> R + Sync + Send>,
}

/// Registers one family of cases: `cases` of them in the quick tier, 15 times as many otherwise.
pub fn sub<F>(subs: &mut Vec<Sub>, name: &str, cases: usize, f: F)
where
    F: Fn(&mut G) -> R + Sync + Send + 'static,
{
    subs.push(Sub {
        name: name.to_owned(),
        quick: cases,
        thorough: cases * 15,
        f: Box::new(f),
    });
}

/// Registers a generic family of cases for both number types.
#[macro_export]
macro_rules! both {
    ($subs:expr, $name:expr, $cases:expr, $f:ident) => {
        $crate::runner::sub($subs, concat!($name, "<f32>"), $cases, $f::<f32>);
        $crate::runner::sub($subs, concat!($name, "<f64>"), $cases, $f::<f64>);
    };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn one(s: &Sub, g: &mut G) -> R {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    crate::alloc::take_broken();
    crate::alloc::take_misfreed();
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(g)));
    let broken = crate::alloc::take_broken();
    let misfreed = crate::alloc::take_misfreed();
    match r {
        Ok(Ok(_)) if misfreed > 0 => Err(Fail {
            msg: "memory was freed with another size than it was allocated with".to_owned(),
            known: g.known(),
        }),
        Ok(Ok(_)) if broken > 0 => Err(Fail {
            msg: format!("memory behind an allocation was written ({} bytes)", broken),
            known: g.known(),
        }),
        Ok(r) => r.map_err(|mut f| {
            if f.known.is_none() {
                f.known = g.known();
            }
            f
        }),
        Err(e) => {
            let mut msg = LAST_PANIC.with(|p| p.borrow().clone());
            if msg.is_empty() {
                msg = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic in another thread".to_owned()
                };
            }
            Err(Fail {
                msg: format!("panic: {}", msg),
                known: g.known(),
            })
        }
    }
}

fn shrink(s: &Sub, start: Vec<u64>, thorough: bool, first: Fail) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_fail = first;
    let mut evals = 0;
    let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, best_fail: &mut Fail| -> bool {
        if evals > 3000 || t0.elapsed() > Duration::from_secs(20) {
            return false;
        }
        evals += 1;
        let mut g = G::replaying(cand, thorough);
        match one(s, &mut g) {
            Err(f) if f.known == best_fail.known => {
                let mut rec = g.rec.clone();
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let smaller = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
                if smaller {
                    *best = rec;
                    *best_fail = f;
                }
                smaller
            }
            _ => false,
        }
    };
    loop {
        let mut progress = false;
        // Delete blocks.
        for size in [8usize, 4, 2, 1].iter() {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if try_one(c, &mut best, &mut best_fail) {
                    progress = true;
                } else {
                    i += 1;
                }
            }
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut cands = vec![0];
                if v > 1 {
                    cands.push(1);
                }
                let mut d = v / 2;
                while d > 0 {
                    cands.push(v - d);
                    d /= 2;
                }
                for cand in cands {
                    if i >= best.len() || cand >= best[i] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = cand;
                    if try_one(c, &mut best, &mut best_fail) {
                        progress = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !progress {
            break;
        }
    }
    (best, best_fail)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

struct Args {
    tier: String,
    seed: u64,
    out: Option<String>,
    journal: Option<String>,
    only: Option<String>,
    case: Option<usize>,
    choices: Option<Vec<u64>>,
    list: bool,
    scale: f64,
    threads: usize,
}

fn parse_args() -> Args {
    let mut a = Args {
        tier: "quick".into(),
        seed: 1,
        out: None,
        journal: None,
        only: None,
        case: None,
        choices: None,
        list: false,
        scale: 1.0,
        threads: 8,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("missing argument value");
        match k.as_str() {
            "--tier" => a.tier = v(),
            "--seed" => a.seed = v().parse().expect("seed"),
            "--out" => a.out = Some(v()),
            "--journal" => a.journal = Some(v()),
            "--only" => a.only = Some(v()),
            "--case" => a.case = Some(v().parse().expect("case")),
            "--scale" => a.scale = v().parse().expect("scale"),
            "--threads" => a.threads = v().parse().expect("threads"),
            "--choices" => {
                a.choices = Some(
                    v().split(',')
                        .filter(|s| !s.is_empty())
                        .map(|s| s.parse().expect("choice"))
                        .collect(),
                )
            }
            "--list" => a.list = true,
            _ => panic!("unknown argument {}", k),
        }
    }
    a
}

fn case_seed(seed: u64, prop: &str, sub: &str, case: usize) -> u64 {
    let h = hash_bytes(seed, prop.as_bytes());
    let h = hash_bytes(h, sub.as_bytes());
    Rng::new(h ^ (case as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    failures: Vec<(String, usize, Vec<u64>, Fail, Vec<String>)>,
    known: BTreeMap<String, (u64, String)>,
}

/// Entry point of each property's binary. Exit code 0: ran to the end (the driver reads the
/// failures from the report), anything else: an error.
pub fn main(prop: &str, rule: &str, subs: Vec<Sub>) {
    let args = parse_args();
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let thorough = args.tier == "thorough";
    if args.list {
        for s in &subs {
            println!("{} {}", s.name, s.quick);
        }
        return;
    }
    let subs: Vec<Sub> = subs
        .into_iter()
        .filter(|s| args.only.as_ref().map_or(true, |o| if args.case.is_some() || args.choices.is_some() { s.name == *o } else { s.name.starts_with(o.as_str()) }))
        .collect();

    // Replaying one case.
    if args.case.is_some() || args.choices.is_some() {
        let s = subs.first().expect("no such sub");
        let mut g = match args.choices {
            Some(ref c) => G::replaying(c.clone(), thorough),
            None => G::random(case_seed(args.seed, prop, &s.name, args.case.unwrap()), thorough),
        };
        g.describe = true;
        let r = one(s, &mut g);
        for n in &g.notes {
            println!("  {}", n);
        }
        match r {
            Ok(c) => println!("REPLAY-PASS class={} nontrivial={}", c.class, c.nontrivial),
            Err(f) => println!("REPLAY-FAIL known={:?} {}", f.known, f.msg),
        }
        return;
    }

    // The work list: chunks of cases of one sub.
    let mut work = vec![];
    for (si, s) in subs.iter().enumerate() {
        let n = if thorough { s.thorough } else { s.quick };
        let n = ((n as f64 * args.scale).round() as usize).max(1);
        let chunk = (n / 64).max(1).min(64);
        let mut i = 0;
        while i < n {
            let e = (i + chunk).min(n);
            work.push((si, i, e));
            i = e;
        }
    }
    let next = AtomicUsize::new(0);
    let stop: Vec<AtomicBool> = subs.iter().map(|_| AtomicBool::new(false)).collect();
    let totals = Mutex::new(Totals::default());
    let sub_time: Vec<AtomicUsize> = subs.iter().map(|_| AtomicUsize::new(0)).collect();
    std::thread::scope(|scope| {
        for w in 0..args.threads {
            let (next, stop, totals, work, subs, args, sub_time) =
                (&next, &stop, &totals, &work, &subs, &args, &sub_time);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, move || {
                let mut journal = args.journal.as_ref().map(|d| {
                    fs::File::create(format!("{}/w{}", d, w)).expect("journal")
                });
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= work.len() {
                        break;
                    }
                    let (si, a, b) = work[k];
                    let s = &subs[si];
                    if stop[si].load(Ordering::SeqCst) {
                        continue;
                    }
                    let t0 = Instant::now();
                    let mut local_evals = 0;
                    let mut local_nt = vec![];
                    let mut local_classes: BTreeMap<String, u64> = BTreeMap::new();
                    for i in a..b {
                        if let Some(ref mut j) = journal {
                            let line = format!("{:<60} {:<12}\n", s.name, i);
                            let _ = j.seek(SeekFrom::Start(0));
                            let _ = j.write_all(line.as_bytes());
                        }
                        let seed = case_seed(args.seed, prop, &s.name, i);
                        let mut g = G::random(seed, thorough);
                        // The first cases of each family are also the samples of the evidence.
                        g.describe = i < 2;
                        let r = one(s, &mut g);
                        local_evals += 1;
                        match r {
                            Ok(c) => {
                                if c.nontrivial {
                                    let mut h = hash_bytes(1, s.name.as_bytes());
                                    for v in &g.rec {
                                        h = hash_bytes(h, &v.to_le_bytes());
                                    }
                                    local_nt.push(h);
                                }
                                *local_classes
                                    .entry(format!("{}: {}", s.name, c.class))
                                    .or_insert(0) += 1;
                                if i < 2 {
                                    let text = format!(
                                        "{} #{}: {} [{}]",
                                        s.name,
                                        i,
                                        clip(&g.notes.join("; "), 400),
                                        c.class
                                    );
                                    totals.lock().unwrap().samples.push(text);
                                }
                            }
                            Err(f) => {
                                if let Some(ref id) = f.known {
                                    let mut t = totals.lock().unwrap();
                                    let seen = t.known.contains_key(id);
                                    let e = t.known.entry(id.clone()).or_insert((0, String::new()));
                                    e.0 += 1;
                                    if !seen {
                                        e.1 = clip(&f.msg, 300);
                                        drop(t);
                                        let (choices, fail) = shrink(s, g.rec.clone(), thorough, f.clone());
                                        totals.lock().unwrap().failures.push((
                                            s.name.clone(), i, choices, fail, vec![],
                                        ));
                                    }
                                    continue;
                                }
                                if stop[si].swap(true, Ordering::SeqCst) {
                                    break;
                                }
                                let (choices, fail) = shrink(s, g.rec.clone(), thorough, f);
                                let mut g2 = G::replaying(choices.clone(), thorough);
                                g2.describe = true;
                                let _ = one(s, &mut g2);
                                totals.lock().unwrap().failures.push((
                                    s.name.clone(),
                                    i,
                                    choices,
                                    fail,
                                    g2.notes.clone(),
                                ));
                                break;
                            }
                        }
                    }
                    sub_time[si].fetch_add(t0.elapsed().as_micros() as usize, Ordering::SeqCst);
                    let mut t = totals.lock().unwrap();
                    t.evaluations += local_evals;
                    t.nontrivial.extend(local_nt);
                    for (k, v) in local_classes {
                        *t.classes.entry(k).or_insert(0) += v;
                    }
                }
            }).expect("a thread");
        }
    });
    let mut t = totals.into_inner().unwrap();
    t.samples.sort();
    t.failures.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n",
        t.evaluations,
        t.nontrivial.len(),
        json_str(rule)
    ));
    o.push_str("\"classes\": {");
    o.push_str(
        &t.classes
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(",\n "),
    );
    o.push_str("},\n\"time_ms\": {");
    o.push_str(
        &subs
            .iter()
            .zip(sub_time.iter())
            .map(|(s, v)| format!("{}: {}", json_str(&s.name), v.load(Ordering::SeqCst) / 1000))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("},\n\"samples\": [");
    o.push_str(
        &t.samples
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(",\n "),
    );
    o.push_str("],\n\"known\": {");
    o.push_str(
        &t.known
            .iter()
            .map(|(k, v)| format!("{}: {{\"count\": {}, \"msg\": {}}}", json_str(k), v.0, json_str(&v.1)))
            .collect::<Vec<_>>()
            .join(",\n "),
    );
    o.push_str("},\n\"failures\": [");
    o.push_str(
        &t.failures
            .iter()
            .map(|(s, i, c, f, notes)| {
                format!(
                    "{{\"sub\": {}, \"case\": {}, \"choices\": [{}], \"known\": {}, \"msg\": {}, \"notes\": {}}}",
                    json_str(s),
                    i,
                    c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
                    f.known.as_ref().map_or("null".to_owned(), |k| json_str(k)),
                    json_str(&clip(&f.msg, 1500)),
                    json_str(&clip(&notes.join("; "), 1500))
                )
            })
            .collect::<Vec<_>>()
            .join(",\n "),
    );
    o.push_str("]}\n");
    match args.out {
        Some(p) => fs::write(p, o).expect("report"),
        None => println!("{}", o),
    }
}
