//! C34: what a solve shows, and the process it runs in.

use numopt::model::model_std::ModelStd;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::milp::ProblemMilpIO;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::path::PathBuf;

use crate::core::{guarded, Ctx};
use crate::p_cmd::{class_cfg, cmd_solver, fault, problem_of, small_data, unstartable};
use crate::p_real::{solver, Which};
use crate::p_sol::solved_lines;
use crate::spec::*;
use crate::stub::*;
use crate::sys::*;

/// What a process has that outlives a call.
#[derive(PartialEq, Debug)]
struct Process {
    cwd: Option<PathBuf>,
    env: BTreeMap<OsString, OsString>,
    umask: u32,
    signals: Vec<String>,
    limits: Vec<(u64, u64)>,
    nice: i32,
    input: i64,
    group: (i32, i32),
}

fn process() -> Process {
    unsafe {
        let umask = libc::umask(0o022);
        libc::umask(umask);
        let status = fs::read_to_string("/proc/self/status").unwrap_or_default();
        let keep = ["SigBlk", "SigIgn", "SigCgt", "Seccomp:", "NoNewPrivs", "Uid", "Gid"];
        let limits = [libc::RLIMIT_FSIZE, libc::RLIMIT_NOFILE, libc::RLIMIT_CPU, libc::RLIMIT_AS, libc::RLIMIT_STACK, libc::RLIMIT_CORE]
            .iter()
            .map(|k| {
                let mut r: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(*k, &mut r);
                (r.rlim_cur as u64, r.rlim_max as u64)
            })
            .collect();
        Process {
            cwd: std::env::current_dir().ok(),
            env: std::env::vars_os().collect(),
            umask: umask as u32,
            signals: status.lines().filter(|l| keep.iter().any(|k| l.starts_with(k))).map(|l| l.to_string()).collect(),
            limits,
            nice: libc::getpriority(libc::PRIO_PROCESS, 0),
            input: libc::lseek(0, 0, libc::SEEK_CUR),
            group: (libc::getpgrp(), libc::getsid(0)),
        }
    }
}

fn changed(a: &Process, b: &Process) -> Option<String> {
    if a == b {
        return None;
    }
    let mut v = Vec::new();
    if a.cwd != b.cwd {
        v.push(format!("the working directory is {:?}, it was {:?}", b.cwd, a.cwd));
    }
    for k in a.env.keys().chain(b.env.keys()) {
        if a.env.get(k) != b.env.get(k) {
            v.push(format!("environment: {:?} is {:?}, it was {:?}", k, b.env.get(k), a.env.get(k)));
        }
    }
    if a.umask != b.umask {
        v.push(format!("file mode mask is {:o}, it was {:o}", b.umask, a.umask));
    }
    if a.signals != b.signals {
        v.push(format!("signals and credentials: {:?}, they were {:?}", b.signals, a.signals));
    }
    if a.limits != b.limits || a.nice != b.nice || a.group != b.group {
        v.push(format!("limits, priority and group: {:?}, they were {:?}", (&b.limits, b.nice, b.group), (&a.limits, a.nice, a.group)));
    }
    if a.input != b.input {
        v.push(format!("standard input is at {}, it was at {}", b.input, a.input));
    }
    Some(v.join("; "))
}

/// A change is reported and then undone: the next case starts in the scratch directory again.
fn put_back(before: &Process, after: &Process) {
    if let Some(d) = &before.cwd {
        let _ = std::env::set_current_dir(d);
    }
    for k in after.env.keys() {
        if !before.env.contains_key(k) {
            std::env::remove_var(k);
        }
    }
    for (k, v) in &before.env {
        if after.env.get(k) != Some(v) {
            std::env::set_var(k, v);
        }
    }
    unsafe {
        libc::umask(before.umask as libc::mode_t);
    }
}

fn memory_file(name: &str) -> i32 {
    let n = std::ffi::CString::new(name).unwrap();
    let f = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(f >= 0, "harness: no memory file");
    f
}

fn flush() {
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe {
        libc::fflush(std::ptr::null_mut());
    }
}

fn content(f: i32) -> String {
    let mut v = Vec::new();
    let mut b = [0u8; 4096];
    unsafe {
        loop {
            let n = libc::pread(f, b.as_mut_ptr() as *mut libc::c_void, b.len(), v.len() as libc::off_t);
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
    }
    String::from_utf8_lossy(&v).to_string()
}

struct Shown {
    out: String,
    err: String,
    change: Option<String>,
}

/// Runs something with the standard streams replaced, and looks at what it wrote and changed.
fn watched<T>(f: impl FnOnce() -> T) -> (T, Shown) {
    flush();
    let (i, o, e) = (memory_file("in"), memory_file("out"), memory_file("err"));
    let text = b"some lines\nthat nobody\nhas to read\n";
    let (r, out, err, change) = unsafe {
        libc::write(i, text.as_ptr() as *const libc::c_void, text.len());
        libc::lseek(i, 5, libc::SEEK_SET);
        let old = [libc::fcntl(0, libc::F_DUPFD_CLOEXEC, 10), libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10), libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10)];
        assert!(old.iter().all(|f| *f >= 0), "harness: standard streams");
        for (k, f) in [i, o, e].iter().enumerate() {
            libc::dup2(*f, k as i32);
        }
        let before = process();
        let r = f();
        flush();
        let after = process();
        put_back(&before, &after);
        for (k, f) in old.iter().enumerate() {
            libc::dup2(*f, k as i32);
            libc::close(*f);
        }
        let x = (r, content(o), content(e), changed(&before, &after));
        for f in [i, o, e] {
            libc::close(f);
        }
        x
    };
    (r, Shown { out, err, change })
}

fn start_of(s: &str) -> String {
    s.chars().take(120).collect()
}

pub fn c34(ctx: &mut Ctx) {
    ignore_file_size_signal();
    match ctx.idx % 8 {
        0 => library(ctx),
        1 if ctx.idx % 32 == 1 => real(ctx),
        2 if ctx.idx % 32 == 2 => ipopt(ctx),
        3 => results(ctx),
        _ => commands(ctx),
    }
}

/// The library without a solver.
fn library(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    let lin = ctx.rng.chance(0.4);
    let g = gen_model(&mut ctx.rng, &class_cfg(lin, 0.3));
    let spec = g.spec;
    ctx.desc = format!("everything but solving: {}", spec.show());
    let pts = g.pts;
    let idx = ctx.idx;
    let file = w.data.join("written.lp");
    let (r, s) = watched(|| {
        guarded(|| {
            let b = spec.build();
            let mut n = format!("{}", b.model).len();
            for e in b.nodes.iter().rev().take(2) {
                n += format!("{} {:?}", e, e).len();
                let vs: Vec<&Node> = b.vars.iter().collect();
                n += e.derivatives(&vs).len() + e.std_components().hphi.len();
            }
            let mut sp = b.model.std_problem();
            let (nx, _, _) = dims(&sp.prob);
            let x = vec![pts[0].get(0).cloned().unwrap_or(0.5); nx];
            match &mut sp.prob {
                Problem::Lp(p) => p.as_mut_milp().write_to_lp_file(file.to_str().unwrap()).is_ok() as usize,
                Problem::Milp(p) => p.write_to_lp_file(file.to_str().unwrap()).is_ok() as usize,
                Problem::Nlp(p) => {
                    p.evaluate(&x);
                    p.combine_h(&vec![0.5; p.nf()]);
                    p.hcomb().nnz()
                }
                Problem::Minlp(p) => {
                    p.evaluate(&x);
                    p.combine_h(&vec![0.5; p.nf()]);
                    p.hcomb().nnz()
                }
            };
            let a: HashMap<&Node, f64> = b.vars.iter().map(|v| (v, 0.5)).collect();
            for c in b.model.constraints().iter() {
                n += (c.violation(&a) > 0.) as usize;
            }
            let mut s = cmd_solver(idx % 16 == 0);
            n += s.set_param("loglevel", SolverParam::IntParam(0)).is_err() as usize;
            n += s.set_param("logLevel", SolverParam::StrParam("0".to_string())).is_err() as usize;
            n
        })
    });
    let _ = fs::remove_file(&file);
    if r.is_err() {
        return; // others
    }
    ctx.count("library_uses");
    silent(ctx, &s, "");
    ctx.seen(spec.shape());
}

/// Judges what a piece of work without output showed.
fn silent(ctx: &mut Ctx, s: &Shown, what: &str) {
    if !s.out.is_empty() {
        ctx.fail("output", format!("{}written to standard output: {:?}", what, start_of(&s.out)));
    }
    if !s.err.is_empty() {
        ctx.fail("errors", format!("{}written to standard error: {:?}", what, start_of(&s.err)));
    }
    if let Some(c) = &s.change {
        ctx.fail("process", format!("{}{}", what, c));
    }
}

/// A model that is solved by a solver of the harness.
fn results(ctx: &mut Ctx) {
    let g = gen_model(&mut ctx.rng, &class_cfg(false, 0.3));
    let spec = g.spec;
    ctx.desc = format!("solver of the harness: {}", spec.show());
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return, // C01
    };
    let k = ctx.rng.below(4);
    let (r, s) = watched(|| {
        guarded(|| {
            let st = Stub::new(Box::new(move |p: &mut Problem| {
                let (n, na, nf) = dims(p);
                let s = ProblemSol::new(n, na, nf);
                match k {
                    0 => Ok((SolverStatus::Solved, s)),
                    1 => Ok((SolverStatus::Infeasible, s)),
                    2 => Ok((SolverStatus::Error, s)),
                    _ => Err(SimpleError::new("failed")),
                }
            }));
            let _ = b.model.solve(&st);
            b.model.final_primals().len() + b.model.final_duals().len() + format!("{}", b.model).len()
        })
    });
    if r.is_err() {
        return; // others
    }
    ctx.count("model_solves");
    silent(ctx, &s, "");
    ctx.seen(spec.shape());
}

fn commands(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    w.use_fake();
    w.clear_log();
    let cbc = ctx.rng.chance(0.5);
    let lp = !cbc || ctx.rng.chance(0.4);
    let d = small_data(&mut ctx.rng);
    let full = solved_lines(&mut ctx.rng, cbc, d.nx(), d.m).text().into_bytes();
    let n = ctx.rng.below(12 * (full.len() + 1)) as u64;
    let f = fault(&mut ctx.rng, &w, &full, n);
    let whole = ctx.rng.chance(0.3);
    let fails = if whole { format!("write 0 {} {}\nexit 0\n", full.len(), w.data.join("full").display()) } else { f.control.clone() };
    let level: i32 = if ctx.rng.chance(0.6) { 0 } else { *ctx.rng.pick(&[1, 2, 3, 5]) };
    let mut said: String = (0..ctx.rng.us(1, 4)).map(|_| format!("line {} of the command\n", ctx.rng.below(1000))).collect();
    let mut warned = if ctx.rng.chance(0.3) { "a warning\n" } else { "" };
    let mut control = String::new();
    for l in said.lines() {
        control.push_str(&format!("out {}\n", l));
    }
    for l in warned.lines() {
        control.push_str(&format!("err {}\n", l));
    }
    control.push_str(&fails);
    w.control(&control);
    let mut s = cmd_solver(cbc);
    s.set_param("logLevel", SolverParam::IntParam(level)).unwrap();
    let name = if cbc { "cbc" } else { "clp" };
    let mut what = format!("{}, logLevel {}: {}", name, level, if whole { "answers" } else { &f.what });
    let tmp = std::env::var("TMPDIR").unwrap();
    let mut limit = None;
    match ctx.rng.below(16) {
        0 => {
            let (odd, path) = unstartable(&mut ctx.rng, &w, name);
            if let Some(p) = path {
                std::env::set_var("PATH", p);
            }
            what = format!("{}, logLevel {}, cannot start: {}", name, level, odd);
        }
        1 => {
            s.get_params_mut().remove("logLevel");
            what = format!("{}: logLevel removed", name);
        }
        2 => {
            std::env::set_var("TMPDIR", w.root.join("absent"));
            what.push_str(", no temporary directory");
        }
        3 => {
            limit = Some(ctx.rng.us(0, 100) as u64);
            what.push_str(", the input cannot be written");
            // The limit holds for the outputs, too
            said.clear();
            warned = "";
            w.control(&fails);
        }
        4 => {
            ignore_children(true);
            what.push_str(", SIGCHLD ignored");
        }
        _ => (),
    }
    ctx.desc = what.clone();
    let mut p = problem_of(&d, lp);
    let (r, shown) = watched(|| {
        guarded(|| {
            if limit.is_some() {
                limit_file_size(limit);
            }
            let r = s.solve(&mut p).map(|r| r.0).map_err(|e| format!("{}", e));
            if limit.is_some() {
                limit_file_size(None);
            }
            r
        })
    });
    ignore_children(false);
    std::env::set_var("TMPDIR", tmp);
    w.use_fake();
    for e in fs::read_dir(&w.cwd).into_iter().flatten().flatten() {
        let _ = fs::remove_dir(e.path()); // made by the stand-in
    }
    let r = match r {
        Ok(r) => r,
        Err(_) => return, // C21
    };
    let runs = w.calls().len();
    let says = if level != 0 && runs == 1 { said.as_str() } else { "" };
    ctx.count(if runs == 0 { "commands_not_run" } else if level == 0 { "quiet_commands" } else { "speaking_commands" });
    match &r {
        Ok(SolverStatus::Solved) => ctx.count("solved"),
        Ok(_) => ctx.count("not_solved"),
        Err(_) => ctx.count("errors"),
    }
    if shown.out != says {
        return ctx.fail(
            "output",
            format!("{} runs of a command that says {:?} (cbc not with logLevel 0), with logLevel {}: standard output got {:?}", runs, said, level, start_of(&shown.out)),
        );
    }
    if !(shown.err.is_empty() || runs == 1 && shown.err == warned) {
        return ctx.fail("errors", format!("standard error got {:?}, the command wrote {:?}", start_of(&shown.err), warned));
    }
    if let Some(c) = shown.change {
        return ctx.fail("process", c);
    }
    ctx.seen(crate::rng::hash_str(&format!("{} {} {}", what, d.nx(), d.m)));
    ctx.sample(what);
}

/// The real commands, told to be quiet.
fn real(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    let cbc = ctx.rng.chance(0.5);
    let g = gen_model(&mut ctx.rng, &class_cfg(true, if cbc { 0.4 } else { 0. }));
    let spec = g.spec;
    ctx.desc = format!("real {}: {}", if cbc { "cbc" } else { "clp" }, spec.show());
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return, // C01
    };
    w.use_real();
    let s = cmd_solver(cbc);
    let (r, shown) = watched(|| guarded(|| b.model.solve(s.as_ref()).is_ok()));
    w.use_fake();
    if r.is_err() {
        return; // others
    }
    ctx.count("real_commands");
    if !shown.out.is_empty() {
        ctx.fail("output", format!("with logLevel 0, standard output got {:?}", start_of(&shown.out)));
    }
    if let Some(c) = shown.change {
        ctx.fail("process", c);
    }
    ctx.seen(spec.shape());
}

fn ipopt(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    let lin = ctx.rng.chance(0.3);
    let g = gen_model(&mut ctx.rng, &class_cfg(lin, 0.1));
    let spec = g.spec;
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return, // C01
    };
    let mut s = solver(Which::Ipopt);
    let bad = ctx.rng.chance(0.2);
    if bad {
        s.get_params_mut().remove(*ctx.rng.pick(&["sb", "print_level"]));
    }
    ctx.desc = format!("Ipopt{}: {}", if bad { ", parameter removed" } else { "" }, spec.show());
    let before = snapshot(&[&w.cwd]);
    let (r, shown) = watched(|| guarded(|| b.model.solve(s.as_ref()).is_ok()));
    if r.is_err() {
        return; // others
    }
    ctx.count("ipopt_solves");
    silent(ctx, &shown, "Ipopt: ");
    if let Some(e) = snapshot_diff(&before, &snapshot(&[&w.cwd])) {
        ctx.fail("files", e);
    }
    ctx.seen(spec.shape());
}
