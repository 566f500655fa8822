//! Case runner: deterministic cases, monitors' verdicts, counts of what was observed.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;

use crate::json;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub idx: u64,
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub cases: u64,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub tier: Tier,
    pub scratch: PathBuf,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    /// Description of the running case, part of every report.
    pub desc: String,
    pub verbose: bool,
}

impl Ctx {
    /// Reports a violation of the property.
    pub fn fail(&mut self, sig: &str, msg: String) {
        let mut m = msg;
        if !self.desc.is_empty() {
            m.push_str("\n  case: ");
            m.push_str(&self.desc);
        }
        if m.len() > 6000 {
            let mut k = 6000;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
            m.push_str(" ...");
        }
        self.viols.push(Violation { idx: self.idx, sig: sig.to_string(), msg: m });
    }

    pub fn count(&mut self, key: &str) {
        self.add(key, 1);
    }

    pub fn add(&mut self, key: &str, n: u64) {
        *self.stats.counters.entry(key.to_string()).or_insert(0) += n;
    }

    pub fn max(&mut self, key: &str, n: u64) {
        let e = self.stats.maxima.entry(key.to_string()).or_insert(0);
        if n > *e {
            *e = n;
        }
    }

    /// Registers a distinct non-trivial observation.
    pub fn seen(&mut self, h: u64) {
        self.stats.distinct.insert(h);
    }

    pub fn sample(&mut self, s: String) {
        if self.stats.samples.len() < 4 {
            let mut s = s;
            if s.len() > 700 {
                let mut k = 700;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.stats.samples.push(s);
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Location and message of the last panic of this thread.
pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or((String::new(), String::new()))
}

/// True if the panic came from the harness itself and not from code under test.
pub fn harness_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("harness/src/")
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = match info.location() {
            Some(l) => format!("{}:{}", l.file(), l.line()),
            None => String::from("?"),
        };
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        if std::env::var("MON_TRACE").is_ok() {
            eprintln!("panic at {}: {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs code under test; Err has the location and message of a panic.
/// A panic of the harness is passed on.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let (loc, msg) = take_panic();
            if harness_panic(&loc) {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
                panic::resume_unwind(e);
            }
            Err(format!("panic at {}: {}", strip_line(&loc), msg))
        }
    }
}

fn strip_line(loc: &str) -> String {
    match loc.rfind(':') {
        Some(k) => loc[..k].to_string(),
        None => loc.to_string(),
    }
}

/// True if the code panics (any panic counts, the caller makes no harness calls inside).
pub fn refuses<T, F: FnOnce() -> T>(f: F) -> bool {
    let r = panic::catch_unwind(AssertUnwindSafe(f)).is_err();
    if r {
        let (loc, msg) = take_panic();
        if harness_panic(&loc) {
            panic!("harness panic inside refuses: {} {}", loc, msg);
        }
    }
    r
}

pub type CaseFn = fn(&mut Ctx);

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub shards: u64,
    pub out: PathBuf,
    pub scratch: PathBuf,
    pub only: Option<u64>,
    pub cases: Option<u64>,
    pub verbose: bool,
    pub scale: f64,
}

pub fn parse_args() -> Args {
    let v: Vec<String> = std::env::args().collect();
    let mut a = Args {
        prop: v.get(1).cloned().unwrap_or_default(),
        seed: 1,
        tier: Tier::Quick,
        shard: 0,
        shards: 1,
        out: PathBuf::from("/tmp"),
        scratch: PathBuf::from("/tmp"),
        only: None,
        cases: None,
        verbose: false,
        scale: 1.,
    };
    let mut i = 2;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--seed" => a.seed = val.parse().unwrap(),
            "--tier" => a.tier = if val == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--shard" => a.shard = val.parse().unwrap(),
            "--shards" => a.shards = val.parse().unwrap(),
            "--out" => a.out = PathBuf::from(val),
            "--scratch" => a.scratch = PathBuf::from(val),
            "--only" => a.only = Some(val.parse().unwrap()),
            "--cases" => a.cases = Some(val.parse().unwrap()),
            "--scale" => a.scale = val.parse().unwrap(),
            "-v" => {
                a.verbose = true;
                i += 1;
                continue;
            }
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    a
}

/// Runs the cases of one shard and writes its report. Exit code 0 unless the harness failed.
pub fn run(props: &[Prop], args: &Args) -> i32 {
    let prop = match props.iter().find(|p| p.id == args.prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args.prop);
            return 2;
        }
    };
    let total = match args.cases {
        Some(n) => n,
        None => {
            let n = if args.tier == Tier::Quick { prop.quick } else { prop.thorough };
            ((n as f64) * args.scale).ceil() as u64
        }
    };
    install_hook();
    fs::create_dir_all(&args.out).unwrap();
    let mut ctx = Ctx {
        rng: Rng::new(args.seed, prop.id, 0),
        idx: 0,
        seed: args.seed,
        tier: args.tier,
        scratch: args.scratch.clone(),
        stats: Stats::default(),
        viols: Vec::new(),
        desc: String::new(),
        verbose: args.verbose,
    };
    let mut cur = fs::File::create(args.out.join(format!("shard-{}.cur", args.shard))).unwrap();
    let idxs: Vec<u64> = match args.only {
        Some(i) => vec![i],
        None => (0..total).filter(|i| i % args.shards == args.shard).collect(),
    };
    let mut harness_error = String::new();
    for idx in idxs {
        cur.seek(SeekFrom::Start(0)).unwrap();
        write!(cur, "{:<20}", idx).unwrap();
        ctx.idx = idx;
        ctx.rng = Rng::new(args.seed, prop.id, idx);
        ctx.desc.clear();
        let r = panic::catch_unwind(AssertUnwindSafe(|| (prop.f)(&mut ctx)));
        ctx.stats.cases += 1;
        if r.is_err() {
            let (loc, msg) = take_panic();
            if harness_panic(&loc) {
                harness_error = format!("case {}: {}: {}\n{}", idx, loc, msg, ctx.desc);
                break;
            }
            ctx.fail(&format!("panic:{}", strip_line(&loc)), format!("panic at {}: {}", loc, msg));
        }
        if ctx.viols.len() >= 8 {
            break;
        }
    }
    cur.seek(SeekFrom::Start(0)).unwrap();
    write!(cur, "{:<20}", "done").unwrap();
    let viols: Vec<String> = ctx
        .viols
        .iter()
        .map(|v| {
            json::obj(&[
                ("idx", format!("{}", v.idx)),
                ("sig", json::esc(&v.sig)),
                ("msg", json::esc(&v.msg)),
            ])
        })
        .collect();
    let counters: Vec<String> = ctx
        .stats
        .counters
        .iter()
        .map(|(k, v)| format!("{}:{}", json::esc(k), v))
        .collect();
    let maxima: Vec<String> = ctx
        .stats
        .maxima
        .iter()
        .map(|(k, v)| format!("{}:{}", json::esc(k), v))
        .collect();
    let samples: Vec<String> = ctx.stats.samples.iter().map(|s| json::esc(s)).collect();
    let rep = json::obj(&[
        ("cases", format!("{}", ctx.stats.cases)),
        ("counters", format!("{{{}}}", counters.join(","))),
        ("maxima", format!("{{{}}}", maxima.join(","))),
        ("samples", json::arr(&samples)),
        ("violations", json::arr(&viols)),
        ("harness_error", json::esc(&harness_error)),
    ]);
    let mut hb: Vec<u8> = Vec::with_capacity(ctx.stats.distinct.len() * 8);
    for h in ctx.stats.distinct.iter() {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(args.out.join(format!("shard-{}.hash", args.shard)), hb).unwrap();
    fs::write(args.out.join(format!("shard-{}.json", args.shard)), rep).unwrap();
    if args.verbose || args.only.is_some() {
        for v in ctx.viols.iter() {
            eprintln!("case {} [{}] {}", v.idx, v.sig, v.msg);
        }
    }
    if !harness_error.is_empty() {
        eprintln!("harness error: {}", harness_error);
        return 3;
    }
    0
}

/// Runs f on a thread with a large stack.
pub fn big_stack<F: FnOnce() -> i32 + Send + 'static>(f: F) -> i32 {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or(3)
}
