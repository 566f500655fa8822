//! C30: paths through expressions. C31: nothing is retained.

use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use std::collections::{HashMap, HashSet};
use std::fs;
use std::rc::Rc;

use crate::alloc;
use crate::core::{guarded, refuses, Ctx};
use crate::p_cmd::{class_cfg, fault};
use crate::p_expr::{deep_case_for, wide_case_for, fresh_vars, gen_case_for};
use crate::p_real::{solver, Which};
use crate::spec::*;
use crate::stub::*;
use crate::sys::*;

// ---------------------------------------------------------------- C30

fn address(n: &Node) -> usize {
    match n {
        Node::ConstantScalar(x) => Rc::as_ptr(x) as *const u8 as usize,
        Node::VariableScalar(x) => Rc::as_ptr(x) as *const u8 as usize,
        Node::FunctionAdd(x) => Rc::as_ptr(x) as *const u8 as usize,
        Node::FunctionCos(x) => Rc::as_ptr(x) as *const u8 as usize,
        Node::FunctionDiv(x) => Rc::as_ptr(x) as *const u8 as usize,
        Node::FunctionMul(x) => Rc::as_ptr(x) as *const u8 as usize,
        Node::FunctionSin(x) => Rc::as_ptr(x) as *const u8 as usize,
    }
}

fn walk(n: &Node, at: &mut Vec<usize>, out: &mut HashMap<usize, Vec<Vec<usize>>>) {
    at.push(address(n));
    if let Node::VariableScalar(_) = n {
        out.entry(address(n)).or_default().push(at.clone());
    }
    for a in n.arguments() {
        walk(a, at, out);
    }
    at.pop();
}

pub fn c30(ctx: &mut Ctx) {
    let (prog, nv, text) = if ctx.idx % 1009 == 22 {
        deep_case_for(ctx, 200, 600)
    } else if ctx.idx % 1009 == 23 {
        wide_case_for(ctx, 130, 400)
    } else if ctx.idx % 51 == 21 { deep_case_for(ctx, 20, 150) } else { gen_case_for(ctx, 300, 12, 18, 5) };
    ctx.desc = text;
    let vars = fresh_vars(&mut ctx.rng, nv);
    let nodes = match guarded(|| prog.build(&vars)) {
        Ok(n) => n,
        Err(_) => return, // C01
    };
    let root = prog.root();
    for k in 0..3 {
        let i = if k == 0 { root } else { ctx.rng.below(nodes.len()) };
        let node = &nodes[i];
        let mut want: HashMap<usize, Vec<Vec<usize>>> = HashMap::new();
        walk(node, &mut vec![], &mut want);
        // Some of the variables, some more than once, some that do not occur
        let strangers = [VariableScalar::new_continuous("x0"), VariableScalar::new_continuous("q")];
        let mut ask: Vec<&Node> = Vec::new();
        let p = *ctx.rng.pick(&[0.3, 0.7, 1.]);
        for v in vars.iter() {
            if ctx.rng.chance(p) {
                ask.push(v);
            }
        }
        if ctx.rng.chance(0.3) {
            ask.push(&strangers[ctx.rng.below(2)]);
        }
        if !ask.is_empty() && ctx.rng.chance(0.2) {
            let n = ask.len();
            let d = ask[ctx.rng.below(n)];
            ask.push(d);
            ctx.count("asked_twice");
        }
        ctx.rng.shuffle(&mut ask);
        let got = match guarded(|| node.all_simple_paths(&ask)) {
            Ok(g) => g,
            Err(e) => return ctx.fail("panic", e),
        };
        let keys: HashSet<usize> = got.keys().map(address).collect();
        let asked: HashSet<usize> = ask.iter().map(|n| address(n)).collect();
        if keys != asked || got.len() != asked.len() {
            return ctx.fail("variables", format!("paths to {} variables were asked for, there are lists for {}", asked.len(), got.len()));
        }
        let mut total = 0;
        for (v, paths) in got.iter() {
            let mut a: Vec<Vec<usize>> = paths.iter().map(|p| p.iter().map(address).collect()).collect();
            let mut b = want.get(&address(v)).cloned().unwrap_or_default();
            a.sort();
            b.sort();
            total += b.len();
            if b.is_empty() {
                ctx.count("variables_not_contained");
            }
            if a != b {
                return ctx.fail("paths", format!("{} paths to a variable called {:?} in {}, there are {} (or they take other ways)", a.len(), v.name(), node, b.len()));
            }
        }
        ctx.add("paths_compared", total as u64);
        if total > want.len() {
            ctx.count("expressions_with_several_paths");
        }
        // Only variables can be asked for
        if ctx.rng.chance(0.1) {
            let j = ctx.rng.below(nodes.len());
            if !matches!(nodes[j], Node::VariableScalar(_)) {
                let mut bad = ask.clone();
                bad.insert(ctx.rng.below(ask.len() + 1), &nodes[j]);
                ctx.count("not_variables");
                if !refuses(|| node.all_simple_paths(&bad)) || !refuses(|| node.derivatives(&bad)) || !refuses(|| node.derivative(&nodes[j])) {
                    return ctx.fail("accepted", format!("asking {} for paths to {} or derivatives with respect to it is not refused", node, nodes[j]));
                }
            }
        }
    }
    if prog.ops.len() > nv + 1 {
        ctx.seen(prog.shape(root));
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

// ---------------------------------------------------------------- C31

fn open_files() -> usize {
    fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn threads() -> usize {
    fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// State of the children of this process, if there are any.
fn children() -> Option<&'static str> {
    unsafe {
        let mut info: libc::siginfo_t = std::mem::zeroed();
        let r = libc::waitid(libc::P_ALL, 0, &mut info, libc::WEXITED | libc::WNOHANG | libc::WNOWAIT);
        if r != 0 {
            return None;
        }
        Some(if info.si_pid() != 0 { "has ended and was not waited for" } else { "is still running" })
    }
}

fn reap() {
    unsafe { while libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) > 0 {} }
}

#[derive(Clone, Copy, Debug)]
struct Held {
    bytes: i64,
    blocks: i64,
    files: i64,
    threads: i64,
}

fn held(outside: bool) -> Held {
    // What is counted must not count itself: the directory listings are done first
    let (files, threads) = if outside { (open_files() as i64, threads() as i64) } else { (0, 0) };
    let (bytes, blocks) = alloc::live();
    Held { bytes, blocks, files, threads }
}

/// Repeats the same thing; what grows every time is retained.
fn repeat(ctx: &mut Ctx, outside: bool, f: &mut dyn FnMut() -> Result<(), String>) -> bool {
    const N: usize = 7;
    let mut h = [Held { bytes: 0, blocks: 0, files: 0, threads: 0 }; N];
    for k in 0..N {
        if let Err(e) = f() {
            ctx.fail("panic", e);
            return false;
        }
        h[k] = held(outside);
        // Nothing has changed: no need for more
        if k == 2 && h[1].bytes == h[2].bytes && h[1].blocks == h[2].blocks && h[1].files == h[2].files && h[1].threads == h[2].threads {
            ctx.count("nothing_retained");
            return true;
        }
    }
    ctx.count("repeated_more");
    let grows = |g: &dyn Fn(&Held) -> i64, least: i64| (2..N).all(|k| g(&h[k]) - g(&h[k - 1]) >= least);
    let per = |g: &dyn Fn(&Held) -> i64| (g(&h[N - 1]) - g(&h[1])) as f64 / (N - 2) as f64;
    if grows(&|x| x.bytes, 1) {
        ctx.fail("memory", format!("each time, {} more bytes in {} more blocks stay allocated", per(&|x| x.bytes), per(&|x| x.blocks)));
    }
    if grows(&|x| x.files, 1) {
        ctx.fail("files", format!("each time, {} more files stay open", per(&|x| x.files)));
    }
    if grows(&|x| x.threads, 1) {
        ctx.fail("threads", format!("each time, {} more threads keep running", per(&|x| x.threads)));
    }
    true
}

pub fn c31(ctx: &mut Ctx) {
    match ctx.idx % 8 {
        0 | 1 => expressions(ctx),
        2 => models(ctx),
        3 | 4 => solves(ctx),
        5 | 6 => commands(ctx),
        _ => ipopt(ctx),
    }
}

fn expressions(ctx: &mut Ctx) {
    let (prog, nv, text) = gen_case_for(ctx, 200, 12, 16, 4);
    ctx.desc = format!("expression {}", text);
    let x: Vec<f64> = (0..nv).map(|i| 0.5 + i as f64).collect();
    // What is kept for longer must not collect either
    let keep = ctx.rng.chance(0.5);
    let outer = fresh_vars(&mut ctx.rng, nv);
    let seed = ctx.rng.next();
    let ok = repeat(ctx, false, &mut || {
        guarded(|| {
            let mut r = crate::rng::Rng::new(seed, "vars", 0);
            let inner = if keep { outer.clone() } else { fresh_vars(&mut r, nv) };
            let nodes = prog.build(&inner);
            let n = &nodes[prog.root()];
            let vars: Vec<&Node> = inner.iter().collect();
            let vals: HashMap<&Node, f64> = vars.iter().map(|v| *v).zip(x.iter().cloned()).collect();
            let _ = n.evaluate(&vals);
            let d = n.derivatives(&vars);
            for e in d.values() {
                let _ = e.evaluate(&vals);
            }
            let _ = n.std_components();
            let _ = format!("{} {:?}", n, n);
            let c = n.leq(&nodes[0]);
            let _ = c.violation(&vals);
            let _ = format!("{} {:?}", c, c.clone());
        })
    });
    if ok {
        ctx.count("expressions");
        ctx.seen(prog.shape(prog.root()));
    }
}

fn models(ctx: &mut Ctx) {
    let g = model(ctx);
    let spec = g.spec;
    ctx.desc = format!("model {}", spec.show());
    let keep = if ctx.rng.chance(0.5) { guarded(|| spec.build()).ok() } else { None };
    let x = g.pts;
    let ok = repeat(ctx, false, &mut || {
        guarded(|| {
            let fresh;
            let b = match &keep {
                Some(b) => b,
                None => {
                    fresh = spec.build();
                    &fresh
                }
            };
            let _ = format!("{}", b.model);
            let mut sp = std_prob(b);
            let (nx, _, nf) = dims(&sp.prob);
            for p in x.iter() {
                let y: Vec<f64> = (0..nx).map(|i| p[i % p.len()]).collect();
                let _ = std_eval(&mut sp.prob, &y);
                match &mut sp.prob {
                    Problem::Nlp(q) => q.combine_h(&vec![1.5; nf]),
                    Problem::Minlp(q) => q.combine_h(&vec![1.5; nf]),
                    _ => (),
                }
            }
        })
    });
    if ok {
        ctx.count("models");
        ctx.seen(spec.shape());
    }
}

fn model(ctx: &mut Ctx) -> GenModel {
    let lin = ctx.rng.chance(0.5);
    let pi = *ctx.rng.pick(&[0., 0.5]);
    gen_model(&mut ctx.rng, &class_cfg(lin, pi))
}

/// The same model solved again and again, with answers of every kind.
fn solves(ctx: &mut Ctx) {
    let g = model(ctx);
    let spec = g.spec;
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return, // C01
    };
    let answers: Vec<usize> = (0..ctx.rng.us(1, 3)).map(|_| ctx.rng.below(5)).collect();
    ctx.desc = format!("answers {:?}: {}", answers, spec.show());
    let inits = ctx.rng.chance(0.5);
    let vars = b.vars.clone();
    let ok = repeat(ctx, false, &mut || {
        guarded(|| {
            for a in answers.iter() {
                if inits {
                    let vals: HashMap<&Node, f64> = vars.iter().map(|v| (v, 1.5)).collect();
                    b.model.set_init_primals(&vals);
                }
                let s = Stub::new(Box::new(|p: &mut Problem| {
                    let (n, na, nf) = dims(p);
                    let s = ProblemSol::new(n, na, nf);
                    match a {
                        0 | 1 => Ok((SolverStatus::Solved, s)),
                        2 => Ok((SolverStatus::Infeasible, s)),
                        3 => Ok((SolverStatus::Error, s)),
                        _ => Err(SimpleError::new("failed")),
                    }
                }));
                let _ = b.model.solve(&s);
                let _ = (b.model.final_primals().len(), b.model.final_duals().len(), b.model.init_primals().len());
            }
        })
    });
    if ok {
        ctx.count("models_solved_repeatedly");
        ctx.seen(spec.shape());
    }
}

fn commands(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    let g = gen_model(&mut ctx.rng, &class_cfg(true, 0.));
    let spec = g.spec;
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return, // C01
    };
    // A few commands take long
    let slow = match ctx.idx % 24000 {
        5 => Some(Which::Clp),
        6 => Some(Which::Cbc),
        _ => None,
    };
    let which = slow.unwrap_or(*ctx.rng.pick(&[Which::Clp, Which::Cbc]));
    let text = {
        let mut t = String::from("Optimal - objective value 0\n");
        if let Ok(sp) = guarded(|| std_prob(&b)) {
            let (nx, na, _) = dims(&sp.prob);
            for i in 0..na {
                t.push_str(&format!("{} c_{} 1 0.5\n", i, i));
            }
            for i in 0..nx {
                t.push_str(&format!("{} x_{} 1 0.5\n", i, i));
            }
        }
        t
    };
    let n = ctx.rng.next() % 4096;
    let f = fault(&mut ctx.rng, &w, text.as_bytes(), n);
    let mut s = solver(which);
    let mut what = f.what.clone();
    let mut limit = None;
    w.use_fake();
    match if slow.is_some() { 10 } else { ctx.rng.below(10) } {
        10 => {
            let t = w.data.join("whole");
            fs::write(&t, &text).unwrap();
            let secs = if ctx.thorough() { 45 } else { 9 };
            w.control(&format!("sleep {}\nwrite 0 {} {}\nexit 0\n", 1000 * secs, text.len(), t.display()));
            what = format!("answers after {} s", secs);
            ctx.count("slow_commands");
        }
        0 => {
            std::env::set_var("PATH", &w.data); // no solver
            what = "no command".to_string();
        }
        1 => {
            let k = "logLevel";
            s.get_params_mut().insert(k.to_string(), SolverParam::StrParam("no".to_string()));
            what = "unusable parameter".to_string();
        }
        2 | 3 => {
            let t = w.data.join("whole");
            fs::write(&t, &text).unwrap();
            w.control(&format!("write 0 {} {}\nexit 0\n", text.len(), t.display()));
            what = "answers".to_string();
        }
        4 => {
            limit = Some(ctx.rng.us(0, 60) as u64);
            what = format!("only {} bytes of the input can be written", limit.unwrap());
        }
        _ => w.control(&f.control),
    }
    ctx.desc = format!("{:?}, command {}: {}", which, what, spec.show());
    reap();
    let mut child = None;
    let mut solved = 0;
    let ok = repeat(ctx, true, &mut || {
        if limit.is_some() {
            limit_file_size(limit);
        }
        let r = guarded(|| b.model.solve(s.as_ref()).map_err(|e| format!("{}", e)));
        if limit.is_some() {
            limit_file_size(None);
        }
        if child.is_none() {
            child = children();
        }
        if let Ok(Ok(())) = &r {
            solved += (b.model.solver_status() == Some(&SolverStatus::Solved)) as u64;
        }
        // Directories made by the stand-in are not what is looked at here
        for e in fs::read_dir(&w.cwd).into_iter().flatten().flatten() {
            let _ = fs::remove_dir(e.path());
        }
        r.map(|_| ())
    });
    w.use_fake();
    if let Some(c) = child {
        reap();
        return ctx.fail("child", format!("the solve has returned and the command {}", c));
    }
    if ok {
        ctx.count("commands_repeated");
        ctx.add("commands_solved", solved);
        if limit.is_some() {
            ctx.count("unwritten_inputs");
        }
        ctx.seen(spec.shape() ^ crate::rng::hash_str(&what));
    }
}

fn ipopt(ctx: &mut Ctx) {
    if ctx.idx % 32 != 7 {
        return models(ctx); // takes long
    }
    let lin = ctx.rng.chance(0.3);
    let g = gen_model(&mut ctx.rng, &class_cfg(lin, 0.));
    let spec = g.spec;
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(_) => return, // C01
    };
    let mut s = solver(Which::Ipopt);
    let bad = ctx.rng.chance(0.3);
    if bad {
        let _ = s.set_param("sb", SolverParam::StrParam(ctx.rng.pick(&["maybe", "", "a\0b"]).to_string()));
    }
    ctx.desc = format!("Ipopt, options {}: {}", if bad { "refused" } else { "taken" }, spec.show());
    let mut n = 0;
    let ok = repeat(ctx, true, &mut || {
        guarded(|| {
            if let Ok(()) = b.model.solve(s.as_ref()) {
                n += 1;
            }
        })
    });
    if ok {
        ctx.count("ipopt_repeated");
        ctx.add("ipopt_solves", n);
        ctx.seen(spec.shape());
    }
}
