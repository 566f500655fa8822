//! C20 to C23: solves with command-line solvers, observed from outside.

use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::process::{Command, Stdio};

use crate::core::{guarded, Ctx};
use crate::p_lp::{gen_data, Data};
use crate::p_real::{solver, Which};
use crate::p_sol::*;
use crate::rng::{hash_bytes, Rng};
use crate::spec::*;
use crate::stub::dims;
use crate::sys::*;

// ---------------------------------------------------------------- C20

pub fn class_cfg(linear: bool, p_int: f64) -> ModelCfg {
    ModelCfg { max_vars: 5, max_cons: 6, max_ops: 14, p_int, linear, bounds: 0.35, p_dup: 0.05, names: NameStyle::Plain }
}

fn accepts(w: Which, c: &Class) -> bool {
    match w {
        Which::Clp => matches!(c, Class::Lp),
        Which::Cbc => matches!(c, Class::Lp | Class::Milp),
        Which::Ipopt => matches!(c, Class::Lp | Class::Nlp),
    }
}

/// Nothing to solve for: no variables, or rows without any entry.
fn no_entries(p: &Problem) -> bool {
    let (nx, na, nf) = dims(p);
    let nj = match p {
        Problem::Nlp(q) => q.j().nnz(),
        _ => 0,
    };
    nx == 0 || (na + nf > 0 && std_data(p).a.nnz() + nj == 0)
}

pub fn c20(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    w.clear_log();
    let lin = ctx.rng.chance(0.5);
    let pi = *ctx.rng.pick(&[0., 0.5, 1.]);
    let g = gen_model(&mut ctx.rng, &class_cfg(lin, pi));
    let spec = g.spec;
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return, // C01
    };
    let mut sp = match guarded(|| std_prob(&b)) {
        Ok(s) => s,
        Err(_) => return, // C08
    };
    let class = class_of(&sp.prob);
    let which = *ctx.rng.pick(&[Which::Clp, Which::Cbc, Which::Ipopt]);
    let ok = accepts(which, &class);
    if ok && which == Which::Ipopt && ctx.rng.chance(0.8) {
        return; // takes long
    }
    ctx.desc = format!("{:?} given a problem of class {:?}: {}", which, class, spec.show());
    if ok && which == Which::Ipopt && no_entries(&sp.prob) {
        return;
    }
    let s = solver(which);
    w.use_fake();
    w.control("exit 0\n");
    for d in [&w.cwd, &w.tmp] {
        age_dir(d);
    }
    if ok {
        // Accepted: the stand-in is called once, or Ipopt gives a status
        let r = guarded(|| s.solve(&mut sp.prob).map(|_| ()).map_err(|e| format!("{}", e)));
        match r {
            Err(e) => ctx.fail("panic", e),
            Ok(Err(e)) => ctx.fail("accepted-refused", format!("refused: {}", e)),
            Ok(Ok(())) => {
                let calls = w.calls();
                let want = if which == Which::Ipopt { 0 } else { 1 };
                if calls.len() != want {
                    ctx.fail("calls", format!("{} solver commands were run", calls.len()));
                }
                let name = match which {
                    Which::Clp => "clp",
                    Which::Cbc => "cbc",
                    Which::Ipopt => "",
                };
                if calls.iter().any(|c| c.name != name) {
                    ctx.fail("calls", format!("{} was run", calls[0].name));
                }
                ctx.count(&format!("accepted_{:?}_{:?}", which, class));
                ctx.seen(spec.shape());
            }
        }
        return;
    }
    // Refused
    let direct = guarded(|| s.solve(&mut sp.prob).map(|r| r.0).map_err(|e| format!("{}", e)));
    let mut bad: Vec<(&'static str, String)> = Vec::new();
    match direct {
        Err(e) => bad.push(("panic", e)),
        Ok(Ok(st)) => bad.push(("not-refused", format!("not refused but status {}", st))),
        Ok(Err(_)) => (),
    }
    // The model may have results of an earlier solve
    if ctx.rng.chance(0.5) {
        let st = crate::stub::Stub::new(Box::new(|p| {
            let (n, a, f) = dims(p);
            Ok((SolverStatus::Solved, ProblemSol::new(n, a, f)))
        }));
        let _ = guarded(|| b.model.solve(&st).is_ok());
    }
    match guarded(|| b.model.solve(s.as_ref()).map_err(|e| format!("{}", e))) {
        Err(e) => bad.push(("panic", e)),
        Ok(Ok(())) => bad.push(("not-refused", "the model's solve is not refused".to_string())),
        Ok(Err(_)) => (),
    }
    if b.model.solver_status().is_some() || !b.model.final_primals().is_empty() || !b.model.final_duals().is_empty() {
        bad.push(("results", "the model has results after a refused solve".to_string()));
    }
    let calls = w.calls();
    if !calls.is_empty() {
        bad.push(("ran", format!("{} was run", calls[0].name)));
    }
    if !is_aged(&w.cwd) || !is_aged(&w.tmp) {
        bad.push(("files", "files were created".to_string()));
    }
    for (sig, e) in bad {
        ctx.fail(sig, e);
    }
    ctx.count(&format!("refused_{:?}_{:?}", which, class));
    ctx.seen(spec.shape());
    let d = ctx.desc.clone();
    ctx.sample(d);
}

// ---------------------------------------------------------------- C21

/// What the stand-in does.
#[derive(Clone, Debug)]
pub struct Fault {
    pub what: String,
    pub control: String,
    /// Bytes of the solution file that are there when the solver ends
    pub bytes: Option<Vec<u8>>,
    /// Ends by itself with success
    pub success: bool,
    /// The complete file says that the solver did not get to an optimum
    pub unfinished: bool,
}

/// First lines with which cbc and clp report that they ended without an optimum.
const UNFINISHED: [&str; 12] = [
    "Stopped on time - objective value 5.00000000",
    "Stopped on iterations - objective value 5.00000000",
    "Stopped on nodes - objective value 0.00000000",
    "Stopped on solutions - objective value -3.50000000",
    "Stopped on ctrl-c - objective value 5.00000000",
    "Stopped on difficulties - objective value 1e+50",
    "Unbounded - objective value 0.00000000",
    "Infeasible - objective value 12.5",
    "Integer infeasible - objective value 0.00000000",
    "Status unknown - objective value 5.00000000",
    "unbounded\nObjective value: 1",
    "infeasible\nObjective value: 1",
];

fn part(t: &[u8], k: usize) -> Option<Vec<u8>> {
    Some(t[..k].to_vec())
}

/// Fault number `n` of a file.
pub fn fault(rng: &mut Rng, w: &World, t: &[u8], n: u64) -> Fault {
    let src = w.data.join("full");
    fs::write(&src, t).unwrap();
    let src = src.display();
    let k = ((n / 12) as usize) % (t.len() + 1);
    let sig = *rng.pick(&[9, 15, 6, 11, 2, 1]);
    let code = *rng.pick(&[1, 2, 3, 100, 126, 127, 255]);
    match n % 12 {
        0 => Fault { what: format!("exits with {} after {} bytes", code, k), control: format!("write 0 {} {}\nexit {}\n", k, src, code), bytes: part(t, k), success: false, unfinished: false },
        1 => Fault { what: format!("exits with {} after all bytes", code), control: format!("write 0 {} {}\nexit {}\n", t.len(), src, code), bytes: part(t, t.len()), success: false, unfinished: false },
        2 | 3 => Fault { what: format!("killed by {} after {} bytes", sig, k), control: format!("write 0 {} {}\nkill {}\n", k, src, sig), bytes: part(t, k), success: false, unfinished: false },
        4 => Fault { what: format!("killed by {} after all bytes", sig), control: format!("write 0 {} {}\nkill {}\n", t.len(), src, sig), bytes: part(t, t.len()), success: false, unfinished: false },
        5 | 6 => Fault { what: format!("ends with {} bytes", k), control: format!("write 0 {} {}\nexit 0\n", k, src), bytes: part(t, k), success: true, unfinished: false },
        7 => match rng.below(4) {
            0 => Fault { what: "no file".to_string(), control: "exit 0\n".to_string(), bytes: None, success: true, unfinished: false },
            1 => Fault { what: "a directory".to_string(), control: "mkdir\nexit 0\n".to_string(), bytes: None, success: true, unfinished: false },
            2 => Fault { what: "no file, exit code".to_string(), control: format!("exit {}\n", code), bytes: None, success: false, unfinished: false },
            _ => Fault { what: "no file, killed".to_string(), control: format!("kill {}\n", sig), bytes: None, success: false, unfinished: false },
        },
        8 => Fault {
            what: format!("late with the rest after {} bytes", k),
            control: format!("write 0 {} {}\nsleep 3\nwrite {} {} {}\nexit 0\n", k, src, k, t.len(), src),
            bytes: part(t, t.len()),
            success: true,
            unfinished: false,
        },
        9 => {
            // garbage in the middle
            let mut g = t.to_vec();
            for _ in 0..rng.us(1, 3) {
                if g.is_empty() {
                    break;
                }
                let at = rng.below(g.len());
                match rng.below(3) {
                    0 => g[at] = rng.below(256) as u8,
                    1 => {
                        let z = (at + rng.us(1, 40)).min(g.len());
                        g.drain(at..z);
                    }
                    _ => g.insert(at, *rng.pick(b"\n x_1c\0")),
                }
            }
            let f = w.data.join("garbled");
            fs::write(&f, &g).unwrap();
            Fault { what: "garbled file".to_string(), control: format!("write 0 {} {}\nexit 0\n", g.len(), f.display()), bytes: Some(g), success: true, unfinished: false }
        }
        10 => Fault { what: "removes its input".to_string(), control: format!("unlink\nwrite 0 {} {}\nexit 0\n", t.len(), src), bytes: part(t, t.len()), success: true, unfinished: false },
        _ if rng.chance(0.6) => {
            // a complete file, with another status
            let body = t.iter().position(|c| *c == b'\n').map(|k| k + 1).unwrap_or(t.len());
            let body = match t[body..].starts_with(b"Objective value") {
                true => body + t[body..].iter().position(|c| *c == b'\n').map(|k| k + 1).unwrap_or(0),
                false => body,
            };
            let mut g = format!("{}\n", rng.pick(&UNFINISHED)).into_bytes();
            let what = format!("ends with {:?}", String::from_utf8_lossy(&g));
            g.extend_from_slice(&t[body..]);
            let f = w.data.join("unfinished");
            fs::write(&f, &g).unwrap();
            Fault { what, control: format!("write 0 {} {}\nexit 0\n", g.len(), f.display()), bytes: Some(g), success: true, unfinished: true }
        }
        _ => Fault { what: "none".to_string(), control: format!("write 0 {} {}\nexit 0\n", t.len(), src), bytes: part(t, t.len()), success: true, unfinished: false },
    }
}

type Got = Result<(SolverStatus, ProblemSol), String>;

pub fn cmd_solver(cbc: bool) -> Box<dyn Solver> {
    solver(if cbc { Which::Cbc } else { Which::Clp })
}

fn must_not_solve(r: &Got) -> Option<(&'static str, String)> {
    match r {
        Ok((SolverStatus::Solved, s)) => Some(("failure-solved", format!("solved with values {:?}", s.x))),
        _ => None,
    }
}

/// Verdict about the result of a solve in which the solver behaved as the fault says.
pub fn judge(f: &Fault, r: &Got, full: &[u8], said: &Said) -> Option<(&'static str, String)> {
    if let Ok((s, sol)) = r {
        if let Some(e) = wrong_sizes(sol, said.x.len(), said.dual.len()) {
            return Some(("sizes", format!("status {} with {}", s, e)));
        }
    }
    if !f.success || f.unfinished {
        return must_not_solve(r);
    }
    let bytes = match &f.bytes {
        None => return must_not_solve(r),
        Some(b) => b,
    };
    if bytes == full {
        return match r {
            Ok((SolverStatus::Solved, s)) => not_said(s, said).map(|e| ("misread", e)),
            Ok((s, _)) => Some(("success-lost", format!("the solver succeeded but the status is {}", s))),
            Err(e) => Some(("success-lost", format!("the solver succeeded but the result is an error: {}", e))),
        };
    }
    if full.starts_with(bytes) {
        return match r {
            Ok((SolverStatus::Solved, s)) if bytes.len() + 1 == full.len() => not_said(s, said).map(|e| ("misread", e)),
            _ => must_not_solve(r),
        };
    }
    match r {
        Ok((SolverStatus::Solved, s)) => not_given(bytes, s).map(|e| ("invented", e)),
        _ => None,
    }
}

pub fn small_data(rng: &mut Rng) -> Data {
    let mut d = gen_data(rng, false, false);
    while d.nx() == 0 {
        d = gen_data(rng, false, false);
    }
    d
}

pub fn problem_of(d: &Data, lp: bool) -> Problem {
    if lp {
        Problem::Lp(d.lp())
    } else {
        Problem::Milp(d.milp())
    }
}

pub fn c21(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    w.clear_log();
    w.use_fake();
    if ctx.idx % 17 == 5 {
        return cannot_start(ctx, &w);
    }
    if ctx.idx % 17 == 11 {
        return through_model(ctx, &w);
    }
    // Consecutive cases go through the faults of one file
    let group = ctx.idx / 4096;
    let mut r = Rng::new(ctx.seed, "c21-file", group);
    let cbc = r.chance(0.5);
    let d = small_data(&mut r);
    let lines = solved_lines(&mut r, cbc, d.nx(), d.m);
    let full = lines.text().into_bytes();
    let n = ctx.idx % 4096;
    let mut f = fault(&mut ctx.rng, &w, &full, n);
    // A few take long: nothing is wrong with that
    if matches!(ctx.idx % 24000, 3 | 4 | 7) {
        let (src, k, secs) = (w.data.join("slow"), ctx.rng.below(full.len()), if ctx.thorough() { 100 } else { 12 });
        fs::write(&src, &full).unwrap();
        f = Fault {
            what: format!("{} bytes, the rest after {} s", k, secs),
            control: format!("write 0 {} {}\nsleep {}\nwrite {} {} {}\nexit 0\n", k, src.display(), 1000 * secs, k, full.len(), src.display()),
            bytes: Some(full.clone()),
            success: true,
            unfinished: false,
        };
        ctx.count("slow_commands");
    }
    ctx.desc = format!("{}: {}; {} variables, {} rows, file {:?}", if cbc { "cbc" } else { "clp" }, f.what, d.nx(), d.m, String::from_utf8_lossy(&full));
    w.control(&f.control);
    let lp = !cbc || (d.p.iter().all(|p| !p) && ctx.rng.chance(0.5));
    let s = cmd_solver(cbc);
    let mut p = problem_of(&d, lp);
    // In some processes the ends of commands are not reported
    let ignored = ctx.idx % 13 == 8;
    if ignored {
        ctx.desc = format!("SIGCHLD ignored, {}", ctx.desc);
        ctx.count("ends_not_reported");
        ignore_children(true);
    }
    let got = guarded(|| s.solve(&mut p).map_err(|e| format!("{}", e)));
    ignore_children(false);
    let got = match got {
        Err(e) => return ctx.fail("panic", e),
        Ok(Err(_)) if ignored => return,
        Ok(r) => r,
    };
    if w.calls().len() != 1 {
        ctx.fail("calls", format!("the solver was run {} times", w.calls().len()));
    }
    let verdict = match &got {
        // Nobody knows how the command ended
        Ok((s, sol)) if ignored && *s != SolverStatus::Solved => {
            wrong_sizes(sol, lines.said.x.len(), lines.said.dual.len()).map(|e| ("sizes", format!("status {} with {}", s, e)))
        }
        _ => judge(&f, &got, &full, &lines.said),
    };
    if let Some((sig, e)) = verdict {
        ctx.fail(sig, e);
    }
    let kind = ["exit_code_partial", "exit_code_full", "killed_partial", "killed_partial", "killed_full", "truncated", "truncated", "no_file", "slow", "garbled", "input_removed", if f.unfinished { "unfinished" } else { "no_fault" }][(n % 12) as usize];
    ctx.count(&format!("fault_{}", kind));
    ctx.count(match &got {
        Ok((SolverStatus::Solved, _)) => "ended_solved",
        Ok(_) => "ended_not_solved",
        Err(_) => "ended_with_error",
    });
    ctx.seen(hash_bytes(format!("{}{}", group, f.control).as_bytes()));
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}

/// Directory with something under the solver's name that does not start.
pub fn unstartable(rng: &mut Rng, w: &World, name: &str) -> (String, Option<String>) {
    let dir = w.root.join("odd");
    if dir.exists() {
        fs::remove_dir_all(&dir).unwrap();
    }
    fs::create_dir(&dir).unwrap();
    let f = dir.join(name);
    let path = Some(dir.display().to_string());
    let what = match rng.below(9) {
        0 => return ("empty search path".to_string(), Some(String::new())),
        1 => return ("search path of nothing".to_string(), Some("/nonexistent/dir".to_string())),
        2 => "missing",
        3 => {
            fs::write(&f, "#!/bin/sh\nexit 0\n").unwrap();
            fs::set_permissions(&f, fs::Permissions::from_mode(0o644)).unwrap();
            "not executable"
        }
        4 => {
            fs::write(&f, [0x7fu8, b'E', b'L', b'F', 1, 2, 3]).unwrap();
            fs::set_permissions(&f, fs::Permissions::from_mode(0o755)).unwrap();
            "broken executable"
        }
        5 => {
            fs::create_dir(&f).unwrap();
            "directory"
        }
        6 => {
            symlink("/nonexistent/x", &f).unwrap();
            "dangling link"
        }
        7 => {
            fs::write(&f, "#!/nonexistent/interpreter\n").unwrap();
            fs::set_permissions(&f, fs::Permissions::from_mode(0o755)).unwrap();
            "missing interpreter"
        }
        _ => {
            fs::write(&f, "").unwrap();
            fs::set_permissions(&f, fs::Permissions::from_mode(0o755)).unwrap();
            "empty executable"
        }
    };
    (what.to_string(), path)
}

fn cannot_start(ctx: &mut Ctx, w: &World) {
    let cbc = ctx.rng.chance(0.5);
    let d = small_data(&mut ctx.rng);
    let (what, path) = unstartable(&mut ctx.rng, w, if cbc { "cbc" } else { "clp" });
    ctx.desc = format!("{} cannot start: {}", if cbc { "cbc" } else { "clp" }, what);
    std::env::set_var("PATH", path.unwrap());
    let s = cmd_solver(cbc);
    let mut p = problem_of(&d, !cbc);
    let got = guarded(|| s.solve(&mut p).map_err(|e| format!("{}", e)));
    w.use_fake();
    match got {
        Err(e) => ctx.fail("panic", e),
        Ok(r) => {
            if let Some((sig, e)) = must_not_solve(&r) {
                ctx.fail(sig, e);
            }
        }
    }
    ctx.count(&format!("unstartable_{}", what.replace(' ', "_")));
    ctx.seen(crate::rng::hash_str(&format!("{}{}", ctx.desc, d.show())));
}

/// The same through a model.
fn through_model(ctx: &mut Ctx, w: &World) {
    let g = gen_model(&mut ctx.rng, &class_cfg(true, 0.2));
    let spec = g.spec;
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return,
    };
    let (class, (nx, na, _)) = match guarded(|| { let p = std_prob(&b); (class_of(&p.prob), dims(&p.prob)) }) {
        Ok(s) => s,
        Err(_) => return,
    };
    if nx == 0 {
        return;
    }
    let cbc = match class {
        Class::Lp => ctx.rng.chance(0.5),
        Class::Milp => true,
        _ => return,
    };
    let lines = solved_lines(&mut ctx.rng, cbc, nx, na);
    let full = lines.text().into_bytes();
    let n = ctx.rng.below(12 * (full.len() + 1)) as u64;
    let f = fault(&mut ctx.rng, w, &full, n);
    ctx.desc = format!("{}: {}; model {}; file {:?}", if cbc { "cbc" } else { "clp" }, f.what, spec.show(), String::from_utf8_lossy(&full));
    w.control(&f.control);
    let s = cmd_solver(cbc);
    match guarded(|| b.model.solve(s.as_ref()).map_err(|e| format!("{}", e))) {
        Err(e) => return ctx.fail("panic", e),
        Ok(Err(_)) => {
            if b.model.solver_status().is_some() || !b.model.final_primals().is_empty() || !b.model.final_duals().is_empty() {
                ctx.fail("results", "the model has results after a failed solve".to_string());
            }
            if f.success && f.bytes.as_deref() == Some(&full[..]) {
                ctx.fail("success-lost", "the solver succeeded".to_string());
            }
        }
        Ok(Ok(())) => {
            let solved = matches!(b.model.solver_status(), Some(SolverStatus::Solved));
            let prefix = f.bytes.as_deref().map(|x| full.starts_with(x) && x.len() + 1 < full.len()).unwrap_or(true);
            if solved && (!f.success || f.unfinished || prefix) {
                ctx.fail("failure-solved", "the model is solved".to_string());
            }
            if !solved && f.success && f.bytes.as_deref() == Some(&full[..]) {
                ctx.fail("success-lost", "the solver succeeded".to_string());
            }
            if solved {
                // every value is one the file gives
                let toks: Vec<f64> = f.bytes.iter().flat_map(|t| String::from_utf8_lossy(t).split_whitespace().filter_map(|s| s.parse().ok()).collect::<Vec<f64>>()).collect();
                for (v, x) in b.model.final_primals() {
                    if !toks.iter().any(|t| t == &x || (t.is_nan() && x.is_nan())) {
                        ctx.fail("invented", format!("{} = {:?}, which the file does not say", v, x));
                    }
                }
            }
        }
    }
    ctx.count("model_solves");
    ctx.seen(hash_bytes(&full));
}

// ---------------------------------------------------------------- C22

fn decoys(rng: &mut Rng, w: &World) {
    let pid = std::process::id();
    let names = [
        "cbc.lp".to_string(),
        "cbc.sol".to_string(),
        "clp.lp".to_string(),
        "clp.sol".to_string(),
        format!("cbc{}.lp", pid),
        format!("cbc{}.sol", pid),
        format!("clp{}.lp", pid),
        format!("clp-{}.sol", pid),
        "clp0.sol".to_string(),
        "cbcAAAAAA.lp".to_string(),
        "cbcAAAAAA.sol".to_string(),
        "clpzzzzzz.lp".to_string(),
        "clpzzzzzz.sol".to_string(),
        "cbc_best.sol".to_string(),
        "clp_best.sol".to_string(),
        "input.lp".to_string(),
        "problem.lp".to_string(),
        "solution.sol".to_string(),
        "temp.lp".to_string(),
        ".tmpAAAAAA".to_string(),
        "x.mps".to_string(),
        "notes.txt".to_string(),
    ];
    for d in [&w.cwd, &w.tmp] {
        for n in names.iter() {
            if rng.chance(0.5) {
                let f = d.join(n);
                fs::write(&f, format!("decoy {} {}", n, rng.next())).unwrap();
                if rng.chance(0.2) {
                    fs::set_permissions(&f, fs::Permissions::from_mode(0o444)).unwrap();
                }
                if rng.chance(0.5) {
                    age_dir(&f); // from long ago
                }
            }
        }
        if rng.chance(0.3) {
            let s = d.join("cbc_dir.lp");
            fs::create_dir_all(&s).unwrap();
            fs::write(s.join("inner.sol"), "inner").unwrap();
        }
    }
}

pub fn c22(ctx: &mut Ctx) {
    let w = World::new(ctx);
    decoys(&mut ctx.rng, &w);
    let mut text = String::new();
    for _ in 0..ctx.rng.us(1, 6) {
        let before = snapshot(&[&w.cwd, &w.tmp]);
        let (what, made_dir) = one_solve(ctx, &w);
        text.push_str(&what);
        text.push_str("; ");
        let mut after = snapshot(&[&w.cwd, &w.tmp]);
        if made_dir {
            // The directory that the stand-in made is not the library's
            let extra: Vec<_> = after.iter().filter(|(p, v)| v.0 == 'd' && !before.contains_key(*p)).map(|(p, _)| p.clone()).collect();
            for p in extra {
                let _ = fs::remove_dir(&p);
                after.remove(&p);
            }
        }
        ctx.count("solves");
        ctx.desc = text.clone();
        if let Some(e) = snapshot_diff(&before, &after) {
            return ctx.fail("files", format!("after \"{}\": {}", what, e));
        }
        ctx.add("files_watched", before.len() as u64);
    }
    ctx.seen(crate::rng::hash_str(&text));
    ctx.sample(text);
}

/// A solve with some outcome; tells what it was and if the solver made a directory.
fn one_solve(ctx: &mut Ctx, w: &World) -> (String, bool) {
    let cbc = ctx.rng.chance(0.5);
    let name = if cbc { "cbc" } else { "clp" };
    let mut d = small_data(&mut ctx.rng);
    let lines = solved_lines(&mut ctx.rng, cbc, d.nx(), d.m);
    let full = lines.text().into_bytes();
    let mut s = cmd_solver(cbc);
    w.use_fake();
    let mut made_dir = false;
    let kind = ctx.rng.below(14);
    let n = ctx.rng.below(12 * (full.len() + 1)) as u64;
    let f = fault(&mut ctx.rng, w, &full, n);
    w.control(&f.control);
    let mut lp = !cbc;
    let mut what = format!("{}: {}", name, f.what);
    match kind {
        0..=4 => made_dir = f.control.contains("mkdir"),
        5 => {
            let (odd, path) = unstartable(&mut ctx.rng, w, name);
            std::env::set_var("PATH", path.unwrap());
            what = format!("{} cannot start: {}", name, odd);
        }
        6 => {
            what = format!("{}: logLevel removed", name);
            s.get_params_mut().remove("logLevel");
        }
        7 => {
            what = format!("{}: logLevel of another type", name);
            let v = if ctx.rng.chance(0.5) { SolverParam::FloatParam(1.) } else { SolverParam::StrParam("1".to_string()) };
            s.get_params_mut().insert("logLevel".to_string(), v);
        }
        8 => {
            // refused
            s = cmd_solver(false);
            lp = false;
            what = "clp: refused".to_string();
        }
        9 => {
            // the file cannot be written completely
            d = gen_data(&mut ctx.rng, false, true);
            what = format!("{}: writing the input fails", name);
            let k = ctx.rng.us(0, 200) as u64;
            let mut p = problem_of(&d, lp);
            limit_file_size(Some(k));
            let r = guarded(|| s.solve(&mut p).map(|r| r.0).map_err(|e| format!("{}", e)));
            limit_file_size(None);
            check_outcome(ctx, &r, true);
            return (what, false);
        }
        10 => {
            // Infeasible and other statuses
            let h = *ctx.rng.pick(&["Infeasible - objective value 1\n", "Unbounded - objective value 0\n", "Stopped on time - objective value 3\n", "Integer infeasible - objective value 0\n", ""]);
            let src = w.data.join("head");
            fs::write(&src, h).unwrap();
            w.control(&format!("write 0 {} {}\nexit 0\n", h.len(), src.display()));
            what = format!("{}: {:?}", name, h);
        }
        12 => {
            // in a directory that is gone or has an unusual name
            let gone = ctx.rng.chance(0.5);
            let n = *ctx.rng.pick(&["with space", "-dash", "ünï", "cbc.lp", "a'b\"c", "$HOME", "%d", "new\nline"]);
            let dir = w.cwd.join(n);
            if fs::create_dir(&dir).is_err() {
                return ("directory exists".to_string(), false);
            }
            std::env::set_current_dir(&dir).unwrap();
            if gone {
                fs::remove_dir(&dir).unwrap();
            }
            let mut p = problem_of(&d, lp);
            let r = guarded(|| s.solve(&mut p).map(|r| r.0).map_err(|e| format!("{}", e)));
            std::env::set_current_dir(&w.cwd).unwrap();
            let _ = fs::remove_dir(&dir); // fails if something was left
            check_outcome(ctx, &r, false);
            ctx.count("other_directories");
            what.push_str(&format!(", in the directory {:?}{}", n, if gone { ", which is gone" } else { "" }));
            return (what, f.control.contains("mkdir"));
        }
        11 if ctx.idx % 4 == 0 => {
            w.use_real();
            d = gen_data(&mut ctx.rng, true, false);
            for j in 0..d.nx() {
                if d.l[j].abs() > 50. || d.u[j].abs() > 50. {
                    d.p[j] = false;
                }
            }
            ctx.count("real_solver_runs");
            what = format!("{}: real solver", name);
        }
        _ => {
            // no temporary directory, or the same as the working directory
            let tmp = std::env::var("TMPDIR").unwrap();
            let same = ctx.rng.chance(0.5);
            std::env::set_var("TMPDIR", if same { w.cwd.clone() } else { w.root.join("absent") });
            let mut p = problem_of(&d, lp);
            let r = guarded(|| s.solve(&mut p).map(|r| r.0).map_err(|e| format!("{}", e)));
            std::env::set_var("TMPDIR", tmp);
            check_outcome(ctx, &r, false);
            what.push_str(if same { ", TMPDIR is the working directory" } else { ", TMPDIR is absent" });
            return (what, f.control.contains("mkdir"));
        }
    }
    let mut p = problem_of(&d, lp);
    if ctx.rng.chance(0.08) {
        what.push_str(", SIGCHLD ignored");
        ctx.count("ends_not_reported");
        ignore_children(true);
    }
    let r = guarded(|| s.solve(&mut p).map(|r| r.0).map_err(|e| format!("{}", e)));
    ignore_children(false);
    check_outcome(ctx, &r, false);
    (what, made_dir)
}

fn check_outcome(ctx: &mut Ctx, r: &Result<Result<SolverStatus, String>, String>, must_fail: bool) {
    match r {
        Err(e) => ctx.fail("panic", e.clone()),
        Ok(Ok(s)) => {
            ctx.count(&format!("outcome_{}", s));
            if must_fail && *s == SolverStatus::Solved {
                ctx.fail("unwritten-solved", "solved though the input could not be written".to_string());
            }
        }
        Ok(Err(e)) => ctx.count(&format!("outcome_error_{}", e.replace(' ', "_"))),
    }
}

// ---------------------------------------------------------------- C23

/// What a solve in a thread must give.
struct Want {
    data: Data,
    end: i64,
}

fn want(rng: &mut Rng, thread: usize, k: usize, delays: bool) -> Want {
    let nx = rng.us(2, 5);
    let na = rng.below(4);
    let id = (thread * 100 + k) as f64;
    let end = *rng.pick(&[0, 0, 0, 0, 0, 1, 2, 3, 4, 5]);
    let mut c = vec![0.; nx];
    c[0] = if delays { rng.below(60) as f64 } else { 0. };
    c[1] = end as f64;
    let mut t = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..na {
        t.0.push(i);
        t.1.push(rng.below(nx));
        t.2.push(1. + id);
    }
    Want {
        data: Data {
            c,
            m: na,
            rows: t.0,
            cols: t.1,
            vals: t.2,
            b: (0..na).map(|i| id * 10. + i as f64 + 0.5).collect(),
            l: (0..nx).map(|j| id * 10. + j as f64).collect(),
            u: vec![1e6; nx],
            p: vec![false; nx],
        },
        end,
    }
}

fn check_echo(w: &Want, r: &Got) -> Option<String> {
    let d = &w.data;
    match (w.end, r) {
        (0, Ok((SolverStatus::Solved, s))) => {
            for j in 0..d.nx() {
                if s.x[j] != d.l[j] || s.pi[j] + s.mu[j] != (d.l[j] + 0.25).abs() {
                    return Some(format!("x {:?} instead of {:?}", s.x, d.l));
                }
            }
            for i in 0..d.m {
                if s.lam[i] != d.b[i] + 0.5 {
                    return Some(format!("duals {:?} of right-hand sides {:?}", s.lam, d.b));
                }
            }
            None
        }
        (0, Ok((s, _))) => Some(format!("status {} instead of solved", s)),
        (0, Err(e)) => Some(format!("error {} instead of solved", e)),
        (4, Ok((SolverStatus::Infeasible, _))) => None,
        (4, Ok((s, _))) => Some(format!("status {} instead of infeasible", s)),
        (4, Err(e)) => Some(format!("error {} instead of infeasible", e)),
        (e, Ok((s, _))) if *s == SolverStatus::Solved || *s == SolverStatus::Infeasible => Some(format!("status {} though the solver failed ({})", s, e)),
        _ => None,
    }
}

/// Solves problem after problem and returns what went wrong.
fn rounds_of(seed: u64, t: usize, rounds: usize, delays: bool, solvers: (&dyn Solver, &dyn Solver)) -> Vec<String> {
    let mut bad = Vec::new();
    let mut rng = Rng::new(seed, "c23-thread", t as u64);
    for k in 0..rounds {
        let wt = want(&mut rng, t, k, delays);
        let use_cbc = rng.chance(0.5);
        let mut p = problem_of(&wt.data, !use_cbc || rng.chance(0.5));
        let s = if use_cbc { solvers.0 } else { solvers.1 };
        match guarded(|| s.solve(&mut p).map_err(|e| format!("{}", e))) {
            Err(e) => bad.push(e),
            Ok(r) => {
                if let Some(e) = check_echo(&wt, &r) {
                    bad.push(format!("thread {} solve {} (ending {}): {}", t, k, wt.end, e));
                }
            }
        }
    }
    bad
}

/// Another process that solves in the same directory: `c23-worker seed number rounds delays`.
pub fn worker_main() -> Option<i32> {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 6 || a[1] != "c23-worker" {
        return None;
    }
    let (cbc, clp) = (cmd_solver(true), cmd_solver(false));
    print!("+");
    std::io::stdout().flush().unwrap();
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    for e in rounds_of(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5] == "true", (cbc.as_ref(), clp.as_ref())) {
        println!("BAD {}", e.replace('\n', " "));
    }
    Some(0)
}

pub fn c23(ctx: &mut Ctx) {
    let w = World::new(ctx);
    w.use_fake();
    w.control("echo\n");
    decoys(&mut ctx.rng, &w);
    let before = snapshot(&[&w.cwd, &w.tmp]);
    let threads = ctx.rng.us(2, 8);
    let rounds = ctx.rng.us(1, 5);
    let delays = ctx.rng.chance(0.8);
    let shared = ctx.rng.chance(0.8);
    ctx.desc = format!("{} threads, {} solves each, delays {}, shared solver objects {}", threads, rounds, delays, shared);
    let mut cbc = SolverCbcCmd::new();
    let mut clp = SolverClpCmd::new();
    cbc.set_param("logLevel", SolverParam::IntParam(0)).unwrap();
    clp.set_param("logLevel", SolverParam::IntParam(0)).unwrap();
    let (cbc, clp) = (&cbc, &clp);
    let seed = ctx.rng.next();
    let barrier = std::sync::Barrier::new(threads);
    let barrier = &barrier;
    // Further processes, which start together with the threads
    let procs = if ctx.idx % 5 == 2 { ctx.rng.us(1, 4) } else { 0 };
    let mut kids = Vec::new();
    for t in 0..procs {
        let k = Command::new(std::env::current_exe().unwrap())
            .args(&["c23-worker".to_string(), format!("{}", seed), format!("{}", threads + t), format!("{}", rounds), format!("{}", delays)])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        match k {
            Ok(k) => kids.push(k),
            Err(e) => panic!("harness: cannot start a process: {}", e),
        }
    }
    for k in kids.iter_mut() {
        // It says when it is ready
        let mut c = [0; 1];
        k.stdout.as_mut().unwrap().read_exact(&mut c).expect("harness: worker is not ready");
    }
    for k in kids.iter_mut() {
        drop(k.stdin.take());
    }
    let mut out: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    let own: (Box<dyn Solver>, Box<dyn Solver>) = (cmd_solver(true), cmd_solver(false));
                    barrier.wait();
                    let s: (&dyn Solver, &dyn Solver) = if shared { (cbc, clp) } else { (own.0.as_ref(), own.1.as_ref()) };
                    rounds_of(seed, t, rounds, delays, s)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["harness thread panicked".to_string()])).collect()
    });
    for mut k in kids {
        let mut text = String::new();
        let _ = k.stdout.take().unwrap().read_to_string(&mut text);
        let st = k.wait().expect("harness: worker");
        let mut bad: Vec<String> = text.lines().filter(|l| l.contains("BAD ")).map(|l| format!("process: {}", l)).collect();
        if !st.success() {
            bad.push(format!("a process that solves ended with {}", st));
        }
        out.push(bad);
    }
    ctx.add("processes", procs as u64);
    let threads = threads + procs;
    for e in out.into_iter().flatten().take(3) {
        ctx.fail("interference", e);
    }
    if let Some(e) = snapshot_diff(&before, &snapshot(&[&w.cwd, &w.tmp])) {
        ctx.fail("files", e);
    }
    let calls = w.calls();
    if calls.len() != threads * rounds {
        ctx.fail("calls", format!("{} solver runs for {} solves", calls.len(), threads * rounds));
    }
    ctx.add("solves", (threads * rounds) as u64);
    ctx.max("threads", threads as u64);
    // order in which the solver processes started: the interleaving
    let mut order = String::new();
    for c in calls.iter() {
        order.push_str(&c.lp_hash);
    }
    ctx.seen(crate::rng::hash_str(&order));
    let d = ctx.desc.clone();
    ctx.sample(d);
}
