//! C26 and C28: histories of parameter settings, edits and solves.

use numopt::model::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd, SolverIpopt};
use simple_error::SimpleError;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::core::{guarded, Ctx};
use crate::p_real::*;
use crate::rng::{hash_str, Rng};
use crate::spec::*;
use crate::stub::*;
use crate::sys::*;

// ------------------------------------------------------------------ C26

#[derive(Clone, Debug)]
enum Val {
    I(i32),
    F(f64),
    S(String),
}

impl Val {
    fn kind(&self) -> u8 {
        match self {
            Val::I(_) => 0,
            Val::F(_) => 1,
            Val::S(_) => 2,
        }
    }
    fn param(&self) -> SolverParam {
        match self {
            Val::I(x) => SolverParam::IntParam(*x),
            Val::F(x) => SolverParam::FloatParam(*x),
            Val::S(x) => SolverParam::StrParam(x.clone()),
        }
    }
    fn is(&self, p: &SolverParam) -> bool {
        match (self, p) {
            (Val::I(x), SolverParam::IntParam(y)) => x == y,
            (Val::F(x), SolverParam::FloatParam(y)) => x.to_bits() == y.to_bits(),
            (Val::S(x), SolverParam::StrParam(y)) => x == y,
            _ => false,
        }
    }
}

fn gen_val(rng: &mut Rng, kind: usize) -> Val {
    match kind {
        0 => Val::I(*rng.pick(&[0, 1, 2, -1, 3, 7, 12, 1000, i32::MAX, i32::MIN])),
        1 => Val::F(*rng.pick(&[0., -0., 1.5, -2.25, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1e300])),
        _ => Val::S(rng.pick(&["", "no", "yes", "a b", "\u{e9}\u{4e2d}", "nul\0inside", "12", "1.5", "\n"]).to_string()),
    }
}

struct Held<'a> {
    what: &'static str,
    s: Box<dyn Solver + 'a>,
    want: HashMap<String, Val>,
}

fn differs(h: &Held) -> Option<String> {
    let p = h.s.get_params();
    if p.len() != h.want.len() {
        return Some(format!("{} has {} parameters instead of {}", h.what, p.len(), h.want.len()));
    }
    for (k, v) in h.want.iter() {
        match h.s.get_param(k) {
            Some(q) if v.is(q) => (),
            Some(_) => return Some(format!("{}: {} is not {:?}", h.what, k, v)),
            None => return Some(format!("{}: {} is gone", h.what, k)),
        }
        match p.get(k) {
            Some(q) if v.is(q) => (),
            _ => return Some(format!("{}: {} is not {:?} in the list of parameters", h.what, k, v)),
        }
    }
    None
}

pub fn c26(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    w.use_fake();
    let mut held: Vec<Held> = Vec::new();
    for _ in 0..ctx.rng.us(1, 4) {
        let (what, s): (&'static str, Box<dyn Solver>) = match ctx.rng.below(4) {
            0 => ("cbc", Box::new(SolverCbcCmd::new())),
            1 => ("clp", Box::new(SolverClpCmd::new())),
            2 => ("ipopt", Box::new(SolverIpopt::new())),
            _ => {
                let mut s = Stub::new(Box::new(|_: &mut Problem| Err(SimpleError::new("no"))));
                for k in ["i", "f", "s", "logLevel", "I", ""] {
                    if ctx.rng.chance(0.6) {
                        let kind = ctx.rng.below(3);
                        let v = gen_val(&mut ctx.rng, kind);
                        s.params.insert(k.to_string(), v.param());
                    }
                }
                ("other", Box::new(s))
            }
        };
        let want = s
            .get_params()
            .iter()
            .map(|(k, v)| {
                let v = match v {
                    SolverParam::IntParam(x) => Val::I(*x),
                    SolverParam::FloatParam(x) => Val::F(*x),
                    SolverParam::StrParam(x) => Val::S(x.clone()),
                };
                (k.clone(), v)
            })
            .collect();
        held.push(Held { what, s, want });
    }
    // the parameters that the solvers document
    for h in held.iter() {
        let need: &[(&str, u8)] = match h.what {
            "cbc" | "clp" => &[("logLevel", 0)],
            "ipopt" => &[("print_level", 0), ("sb", 2)],
            _ => &[],
        };
        for (k, kind) in need {
            if h.want.get(*k).map(|v| v.kind()) != Some(*kind) {
                ctx.fail("missing", format!("{} has no {} of the right type", h.what, k));
                return;
            }
        }
    }
    let mut hist: Vec<String> = Vec::new();
    for _ in 0..ctx.rng.us(2, 14) {
        let n = held.len();
        let i = ctx.rng.below(n);
        let mut names: Vec<String> = held[i].want.keys().cloned().collect();
        names.sort();
        let known = !names.is_empty() && ctx.rng.chance(0.75);
        let name = if known {
            ctx.rng.pick(&names).clone()
        } else {
            let base = if names.is_empty() { "x".to_string() } else { ctx.rng.pick(&names).clone() };
            match ctx.rng.below(6) {
                0 => base.to_uppercase(),
                1 => format!("{} ", base),
                2 => base.chars().take(base.chars().count().saturating_sub(1)).collect(),
                3 => format!("{}\0", base),
                4 => ctx.rng.pick(&["logLevel", "print_level", "sb", "loglevel", "tol"]).to_string(),
                _ => String::new(),
            }
        };
        let own = held[i].want.get(&name).map(|v| v.kind());
        let kind = match own {
            Some(k) if ctx.rng.chance(0.7) => k as usize,
            _ => ctx.rng.below(3),
        };
        let v = gen_val(&mut ctx.rng, kind);
        hist.push(format!("{}:{}.set({:?},{:?})", i, held[i].what, name, v));
        let fits = own == Some(kind as u8);
        let h = &mut held[i];
        let r = match guarded(|| h.s.set_param(&name, v.param()).map_err(|e| format!("{}", e))) {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("panic", format!("{}: {}", hist.join(" "), e));
                return;
            }
        };
        match (fits, r.is_ok()) {
            (true, true) => {
                h.want.insert(name.clone(), v);
                ctx.count("set");
            }
            (false, false) => ctx.count(if own.is_some() { "wrong_type" } else { "unknown" }),
            (true, false) => {
                ctx.fail("refused", hist.join(" "));
                return;
            }
            (false, true) => {
                ctx.fail("accepted", hist.join(" "));
                return;
            }
        }
        if own.is_none() && held[i].s.get_param(&name).is_some() {
            ctx.fail("invented", hist.join(" "));
            return;
        }
        for h in held.iter() {
            if let Some(e) = differs(h) {
                ctx.fail("store", format!("{}: {}", hist.join(" "), e));
                return;
            }
        }
        // what arrives at the command
        if (held[i].what == "cbc" || held[i].what == "clp") && ctx.rng.chance(0.08) {
            w.clear_log();
            w.control("exit 0\n");
            let d = crate::p_cmd::small_data(&mut ctx.rng);
            let mut p = crate::p_cmd::problem_of(&d, true);
            let h = &held[i];
            let _ = guarded(|| h.s.solve(&mut p).is_ok());
            let want = match &h.want["logLevel"] {
                Val::I(x) => x.to_string(),
                _ => String::new(),
            };
            hist.push(format!("{}:solve", i));
            let calls = w.calls();
            if calls.len() != 1 {
                ctx.fail("calls", format!("{}: {} commands", hist.join(" "), calls.len()));
                return;
            }
            let got = calls[0].after("logLevel").or_else(|| calls[0].after("log"));
            if got.as_ref() != Some(&want) {
                ctx.fail("other-value", format!("{}: the command got {:?}", hist.join(" "), calls[0].args));
                return;
            }
            ctx.count("values_seen_by_commands");
            if let Some(e) = differs(&held[i]) {
                ctx.fail("store-after-solve", format!("{}: {}", hist.join(" "), e));
                return;
            }
        }
    }
    let s = hist.join(" ");
    ctx.seen(hash_str(&s));
    ctx.sample(s);
}

// ------------------------------------------------------------------ C28

/// What a solver sees of a problem, whatever the order of its rows and columns.
#[derive(Clone, Debug, Default)]
struct Sight {
    dims: (usize, usize, usize),
    class: String,
    exact: Vec<String>,
    x0: Vec<u64>,
    has_x0: bool,
    approx: Vec<Vec<f64>>,
}

fn sorted(mut v: Vec<f64>) -> Vec<f64> {
    v.sort_by(|a, b| a.total_cmp(b));
    v
}

fn signatures(d: &StdData) -> (Vec<String>, Vec<String>) {
    let mut rows: Vec<Vec<f64>> = vec![vec![]; d.b.len()];
    let mut cols: Vec<Vec<(f64, f64)>> = vec![vec![]; d.nx];
    for (i, j, v) in d.a.iter() {
        rows[*i].push(*v + 0.);
        cols[*j].push((*v + 0., d.b[*i] + 0.));
    }
    let r = rows.into_iter().zip(&d.b).map(|(r, b)| format!("row {:?} {:?}", b + 0., sorted(r))).collect();
    let c = cols
        .into_iter()
        .enumerate()
        .map(|(j, mut c)| {
            c.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.total_cmp(&b.1)));
            format!("col {:?} {:?} {} {:?}", d.l[j] + 0., d.u[j] + 0., d.p[j], c)
        })
        .collect();
    (r, c)
}

fn sight(p: &mut Problem) -> Sight {
    let d = std_data(p);
    let (r, c) = signatures(&d);
    let mut exact = r;
    exact.extend(c);
    exact.sort();
    let mut approx = Vec::new();
    let mut nf = 0;
    for t in [0., 1., -0.5] {
        let e = std_eval(p, &vec![t; d.nx]);
        nf = e.f.len();
        approx.push(vec![e.phi]);
        approx.push(sorted(e.gphi.clone()));
        approx.push(sorted(e.f.clone()));
        approx.push(vec![e.j.data().iter().sum(), e.j.data().iter().map(|v| v * v).sum()]);
    }
    if let Some(c) = &d.c {
        approx.push(sorted(c.clone()));
    }
    let mut x0: Vec<u64> = d.x0.iter().flatten().map(|v| v.to_bits()).collect();
    x0.sort();
    Sight { dims: (d.nx, d.b.len(), nf), class: format!("{:?}", d.class), exact, x0, has_x0: d.x0.is_some(), approx }
}

fn close(a: f64, b: f64) -> bool {
    if !a.is_finite() || !b.is_finite() {
        // the way a sum overflows depends on its order
        return !a.is_finite() && !b.is_finite() || a.abs() > 1e150 || b.abs() > 1e150;
    }
    (a - b).abs() <= 1e-6 * (1. + a.abs().max(b.abs()))
}

fn sees_other(a: &Sight, b: &Sight) -> Option<String> {
    if a.class != b.class || a.dims != b.dims {
        return Some(format!("{} {:?} instead of {} {:?}", a.class, a.dims, b.class, b.dims));
    }
    if a.exact != b.exact {
        return Some(format!("{:?} instead of {:?}", a.exact, b.exact));
    }
    if a.has_x0 != b.has_x0 || a.x0 != b.x0 {
        return Some(format!("another initial point: {:?} instead of {:?}", a.x0, b.x0));
    }
    for (x, y) in a.approx.iter().zip(&b.approx) {
        if x.len() != y.len() || x.iter().zip(y).any(|(p, q)| !close(*p, *q)) {
            // values of very different size in one sum say nothing
            if x.iter().chain(y).any(|v| v.abs() > 1e7 || !v.is_finite()) {
                continue;
            }
            return Some(format!("{:?} instead of {:?}", x, y));
        }
    }
    None
}

fn num(s: &str, salt: u64) -> f64 {
    ((hash_str(s) ^ salt.wrapping_mul(0x9e37_79b9)) % 1_000_003) as f64 + 1.
}

/// An answer in which every value depends on what the row or column is, not on where it is.
fn telling(p: &Problem, nf: usize, salt: u64) -> ProblemSol {
    let d = std_data(p);
    let (r, c) = signatures(&d);
    let mut s = ProblemSol::new(d.nx, d.b.len(), nf);
    s.x = c.iter().map(|q| num(q, salt)).collect();
    s.pi = c.iter().map(|q| num(q, salt + 1)).collect();
    s.mu = c.iter().map(|q| num(q, salt + 2)).collect();
    s.lam = r.iter().map(|q| num(q, salt + 3)).collect();
    s.nu = vec![num("nu", salt + 4); nf];
    s
}

fn status_of(k: usize) -> SolverStatus {
    match k {
        0 => SolverStatus::Solved,
        1 => SolverStatus::Infeasible,
        2 => SolverStatus::Unknown,
        _ => SolverStatus::Error,
    }
}

struct Seen {
    status: Option<String>,
    primals: HashMap<Node, u64>,
    duals: HashMap<Constraint, u64>,
}

fn results(m: &Model) -> Seen {
    let bits = |v: f64| (v + 0.).to_bits();
    Seen {
        status: m.solver_status().map(|s| format!("{}", s)),
        primals: m.final_primals().into_iter().map(|(k, v)| (k.clone(), bits(v))).collect(),
        duals: m.final_duals().into_iter().map(|(k, v)| (k.clone(), bits(v))).collect(),
    }
}

fn named(m: &HashMap<Node, u64>) -> Vec<String> {
    let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{}={}", k, f64::from_bits(*v))).collect();
    v.sort();
    v
}

/// Values of the model's variables, and those of others (slacks, new ones in every solve).
fn split(m: &HashMap<Node, u64>, vars: &[Node]) -> (Vec<Option<u64>>, Vec<u64>) {
    let mut o: Vec<u64> = m.iter().filter(|(k, _)| !vars.contains(k)).map(|(_, v)| *v).collect();
    o.sort();
    (vars.iter().map(|v| m.get(v).cloned()).collect(), o)
}

fn empty(r: &Seen) -> bool {
    r.status.is_none() && r.primals.is_empty() && r.duals.is_empty()
}

fn init_of(m: &Model) -> HashMap<Node, u64> {
    m.init_primals().into_iter().map(|(k, v)| (k.clone(), v.to_bits())).collect()
}

/// The model as its user sees it.
fn view(m: &Model) -> (String, Vec<String>, Vec<(Node, u64)>) {
    let mut x: Vec<(Node, u64)> = init_of(m).into_iter().collect();
    x.sort_by_key(|e| (format!("{}", e.0), e.1));
    (format!("{}", m), m.constraints().iter().map(|c| format!("{}", c)).collect(), x)
}

fn fresh(spec: &MSpec, b: &Built, start: &Option<Vec<f64>>) -> Model {
    let mut m = Model::new();
    spec.fill(&mut m, &b.nodes, &b.cons);
    if let Some(x) = start {
        let v: HashMap<&Node, f64> = b.vars.iter().zip(x.iter().cloned()).collect();
        m.set_init_primals(&v);
    }
    m
}

fn recording<'a>(log: &Rc<RefCell<Option<Sight>>>, k: usize, salt: u64) -> Stub<'a> {
    let log = log.clone();
    Stub::new(Box::new(move |p: &mut Problem| {
        let s = sight(p);
        let nf = s.dims.2;
        *log.borrow_mut() = Some(s);
        if k == 4 {
            return Err(SimpleError::new("told to fail"));
        }
        Ok((status_of(k), telling(p, nf, salt)))
    }))
}

fn edit(ctx: &mut Ctx, now: &mut MSpec, b: &mut Built, start: &mut Option<Vec<f64>>, objs: &[usize], linear: bool) -> String {
    let nv = now.nv();
    match ctx.rng.below(5) {
        0 | 1 if !now.cons.is_empty() => {
            let k = ctx.rng.below(now.cons.len());
            if linear && now.order.contains(&k) {
                return String::new();
            }
            now.order.push(k);
            b.model.add_constraint(&b.cons[k]);
            ctx.count("edit_constraint");
            format!("add [{}]", k)
        }
        2 if !objs.is_empty() => {
            let o = *ctx.rng.pick(objs);
            let max = ctx.rng.chance(0.5);
            now.obj = Some((max, o));
            b.model.set_objective(now.objective(&b.nodes));
            ctx.count("edit_objective");
            format!("objective {} {}", max, o)
        }
        3 if !linear => {
            now.obj = None;
            b.model.set_objective(Objective::empty());
            ctx.count("edit_objective_away");
            "no objective".to_string()
        }
        _ => {
            let x: Vec<f64> = (0..nv).map(|_| ctx.rng.dyadic(4)).collect();
            let v: HashMap<&Node, f64> = b.vars.iter().zip(x.iter().cloned()).collect();
            b.model.set_init_primals(&v);
            *start = Some(x);
            ctx.count("edit_start");
            "start".to_string()
        }
    }
}

fn told(ctx: &mut Ctx) {
    let cfg = ModelCfg { max_vars: 5, max_cons: 6, max_ops: 12, p_int: 0.3, linear: ctx.rng.chance(0.5), bounds: 0.35, p_dup: 0.1, names: NameStyle::Plain };
    let g = gen_model(&mut ctx.rng, &cfg);
    let full = g.spec;
    ctx.desc = full.show();
    let mut now = full.clone();
    now.order.truncate(ctx.rng.us(0, full.order.len()));
    let mut b = match guarded(|| now.build()) {
        Ok(b) => b,
        Err(e) => {
            ctx.fail("panic", e);
            return;
        }
    };
    // any scalar expression may become the objective
    let paths = now.prog.paths();
    let mut objs: Vec<usize> = (0..now.prog.ops.len()).filter(|i| paths[*i] < 40).collect();
    ctx.rng.shuffle(&mut objs);
    objs.truncate(3);
    if let Some((_, o)) = full.obj {
        objs.push(o);
    }
    let mut start: Option<Vec<f64>> = None;
    let mut hist: Vec<String> = Vec::new();
    let mut failed_before = false;
    for step in 0..ctx.rng.us(2, 7) {
        if ctx.rng.chance(0.55) {
            for _ in 0..ctx.rng.us(1, 2) {
                hist.push(edit(ctx, &mut now, &mut b, &mut start, &objs, false));
            }
        }
        let k = *ctx.rng.pick(&[0usize, 0, 0, 1, 2, 3, 4, 4, 5, 5]);
        let salt = ctx.rng.next() % 100_000 + 10 * step as u64;
        hist.push(format!("solve({})", k));
        let before = view(&b.model);
        let nodes: Vec<String> = b.nodes.iter().map(|n| format!("{}", n)).collect();
        let log = Rc::new(RefCell::new(None));
        let stub = recording(&log, k.min(4), salt);
        let missing = k == 5 && ctx.rng.chance(0.5);
        let r = guarded(|| {
            if k == 5 {
                // a solver that cannot be used: refuses the class, or its option is unusable
                let mut s = SolverIpopt::new();
                if missing {
                    s.get_params_mut().remove("sb");
                } else {
                    s.set_param("sb", SolverParam::StrParam("\0".to_string())).unwrap();
                }
                return b.model.solve(&s).map_err(|e| format!("{}", e));
            }
            b.model.solve(&stub).map_err(|e| format!("{}", e))
        });
        drop(stub);
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("panic", format!("{}: {}", hist.join(", "), e));
                return;
            }
        };
        let got = results(&b.model);
        if k >= 4 {
            ctx.count("failed_solves");
            if r.is_ok() {
                ctx.fail("no-error", hist.join(", "));
                return;
            }
            if !empty(&got) {
                ctx.fail("stale", format!("{}: after an error: status {:?}, {} values, {} duals", hist.join(", "), got.status, got.primals.len(), got.duals.len()));
                return;
            }
        } else if let Err(e) = r {
            ctx.fail("error", format!("{}: {}", hist.join(", "), e));
            return;
        }
        let after = view(&b.model);
        if before != after || nodes != b.nodes.iter().map(|n| format!("{}", n)).collect::<Vec<String>>() {
            ctx.fail("changed", format!("{}: {:?} became {:?}", hist.join(", "), before, after));
            return;
        }
        // the same from a model that never saw anything else
        if k <= 4 {
            let flog = Rc::new(RefCell::new(None));
            let stub = recording(&flog, k, salt);
            let mut f = fresh(&now, &b, &start);
            let r = guarded(|| f.solve(&stub).is_ok());
            drop(stub);
            if r != Ok(k < 4) {
                ctx.fail("fresh", format!("{}: {:?}", hist.join(", "), r));
                return;
            }
            let (x, y) = (log.borrow_mut().take(), flog.borrow_mut().take());
            match (&x, &y) {
                (Some(x), Some(y)) => {
                    if let Some(e) = sees_other(x, y) {
                        ctx.fail("sees-other", format!("{}: {}", hist.join(", "), e));
                        return;
                    }
                }
                _ => {
                    ctx.fail("not-called", hist.join(", "));
                    return;
                }
            }
            let want = results(&f);
            if got.status != want.status {
                ctx.fail("status", format!("{}: {:?} instead of {:?}", hist.join(", "), got.status, want.status));
                return;
            }
            if split(&got.primals, &b.vars) != split(&want.primals, &b.vars) {
                ctx.fail("primals", format!("{}: {:?} instead of {:?}", hist.join(", "), named(&got.primals), named(&want.primals)));
                return;
            }
            if got.duals != want.duals {
                ctx.fail("duals", format!("{}: {} duals, {} afresh, or other ones", hist.join(", "), got.duals.len(), want.duals.len()));
                return;
            }
            ctx.count("compared_with_fresh");
            if failed_before {
                ctx.count("compared_after_failure");
            }
        }
        failed_before = k >= 4;
    }
    ctx.seen(hash_str(&hist.join(",")) ^ now.shape());
    let d = format!("{} | {}", hist.join(", "), ctx.desc);
    ctx.sample(d);
}

/// Real solvers on a model that is changed between solves.
fn real_history(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    w.use_real();
    let (l, _x) = gen_lin(&mut ctx.rng, true);
    let spec = lin_spec(&mut ctx.rng, &l, true);
    ctx.desc = spec.show();
    let mut now = spec.clone();
    // limits first: without them it may be unbounded
    let nb = now.cons.len();
    let single: Vec<usize> = (0..nb).filter(|k| l.rows[*k].0.iter().filter(|v| **v != 0.).count() == 1).collect();
    now.order = single;
    let o = spec.obj.unwrap().1;
    let mut b = match guarded(|| now.build()) {
        Ok(b) => b,
        Err(e) => {
            ctx.fail("panic", e);
            return;
        }
    };
    let mut start: Option<Vec<f64>> = None;
    let mut hist: Vec<String> = Vec::new();
    for _ in 0..ctx.rng.us(2, 4) {
        if ctx.rng.chance(0.7) {
            hist.push(edit(ctx, &mut now, &mut b, &mut start, &[o], true));
        }
        let which = *ctx.rng.pick(&[Which::Clp, Which::Cbc, Which::Ipopt, Which::Ipopt]);
        if which != Which::Ipopt && ctx.rng.chance(0.3) {
            // the command is missing this time
            hist.push(format!("{:?} missing", which));
            std::env::set_var("PATH", &w.data);
            let s = solver(which);
            let r = guarded(|| b.model.solve(s.as_ref()).is_ok());
            w.use_real();
            ctx.count("missing_solver");
            match r {
                Ok(false) if empty(&results(&b.model)) => (),
                Ok(ok) => {
                    ctx.fail("stale", format!("{}: {}", hist.join(", "), ok));
                    return;
                }
                Err(e) => {
                    ctx.fail("panic", format!("{}: {}", hist.join(", "), e));
                    return;
                }
            }
        }
        hist.push(format!("{:?}", which));
        let before = view(&b.model);
        let mut f = fresh(&now, &b, &start);
        let repeat = ctx.rng.chance(0.4);
        let r = guarded(|| {
            let s = solver(which);
            let mut out = vec![];
            out.push(b.model.solve(s.as_ref()).map_err(|e| format!("{}", e)));
            let h1 = outcome(&b);
            let h2 = if repeat {
                // the same once more
                out.push(b.model.solve(s.as_ref()).map_err(|e| format!("{}", e)));
                Some(outcome(&b))
            } else {
                None
            };
            out.push(f.solve(s.as_ref()).map_err(|e| format!("{}", e)));
            (out, h1, h2)
        });
        let (out, h1, h2) = match r {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("panic", format!("{}: {}", hist.join(", "), e));
                return;
            }
        };
        if let Some(Err(e)) = out.iter().find(|r| r.is_err()) {
            ctx.fail("error", format!("{}: {}", hist.join(", "), e));
            return;
        }
        if view(&b.model) != before {
            ctx.fail("changed", hist.join(", "));
            return;
        }
        let fr = Built { vars: b.vars.clone(), nodes: b.nodes.clone(), cons: b.cons.clone(), model: f };
        let of = match outcome(&fr) {
            Ok(o) => o,
            Err(e) => {
                ctx.fail("no-status", e);
                return;
            }
        };
        for h in [Some(h1), h2].into_iter().flatten() {
            let h = match h {
                Ok(h) => h,
                Err(e) => {
                    ctx.fail("no-status", e);
                    return;
                }
            };
            ctx.count(&format!("real_{:?}_{}", which, h.status));
            let (p, q) = (value(&spec, o, &h.x), value(&spec, o, &of.x));
            let tol = if which == Which::Ipopt { 1e-5 } else { 1e-6 };
            // a variable that no constraint or objective has is not among the values
            let same = (p.is_nan() && q.is_nan()) || (p - q).abs() <= tol * (1. + q.abs());
            if h.status != of.status || (h.status == "solved" && !same) {
                ctx.fail("history", format!("{}: {} {} instead of {} {}", hist.join(", "), h.status, p, of.status, q));
                return;
            }
        }
    }
    ctx.seen(hash_str(&hist.join(",")) ^ now.shape());
}

/// The same problem object solved again and again.
fn same_problem(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    w.use_real();
    let conv = ctx.rng.chance(0.4);
    let spec = if conv {
        gen_convex(&mut ctx.rng).0
    } else {
        let (l, _) = gen_lin(&mut ctx.rng, true);
        lin_spec(&mut ctx.rng, &l, true)
    };
    ctx.desc = format!("one problem object: {}", spec.show());
    let runs: Vec<Which> = (0..ctx.rng.us(2, 4))
        .map(|_| if conv { Which::Ipopt } else { *ctx.rng.pick(&[Which::Clp, Which::Cbc, Which::Ipopt, Which::Ipopt]) })
        .collect();
    let x: Vec<f64> = Vec::new();
    let log: RefCell<Vec<(String, f64, Vec<f64>)>> = RefCell::new(vec![]);
    let changed = RefCell::new(None);
    let _ = x;
    let r = {
        let runs = &runs;
        let (log, changed) = (&log, &changed);
        let rng = RefCell::new(ctx.rng.clone());
        guarded(move || {
            let mut b = spec.build();
            let stub = Stub::new(Box::new(move |p: &mut Problem| {
                let d0 = std_data(p);
                let mut last = None;
                for w in runs.iter() {
                    if rng.borrow_mut().chance(0.3) {
                        let _ = std_eval(p, &vec![0.5; d0.nx]);
                    }
                    let r = solver(*w).solve(p)?;
                    let d = std_data(p);
                    let same = d.nx == d0.nx
                        && d.c == d0.c
                        && d.b == d0.b
                        && d.l == d0.l
                        && d.u == d0.u
                        && d.p == d0.p
                        && d.x0 == d0.x0
                        && d.a.row_inds() == d0.a.row_inds()
                        && d.a.col_inds() == d0.a.col_inds()
                        && d.a.data() == d0.a.data();
                    if !same {
                        *changed.borrow_mut() = Some(format!("{:?}", w));
                    }
                    let e = std_eval(p, &r.1.x);
                    log.borrow_mut().push((format!("{}", r.0), e.phi, r.1.x.clone()));
                    last = Some(r);
                }
                Ok(last.unwrap())
            }));
            b.model.solve(&stub).map_err(|e| format!("{}", e))
        })
    };
    match r {
        Err(e) => {
            ctx.fail("panic", e);
            return;
        }
        Ok(Err(e)) => {
            ctx.fail("error", e);
            return;
        }
        _ => (),
    }
    if let Some(w) = changed.into_inner() {
        ctx.fail("problem-changed", format!("by {}", w));
        return;
    }
    let log = log.into_inner();
    ctx.add("solves_of_one_problem", log.len() as u64);
    for e in log.iter() {
        let ok = e.0 == log[0].0 && (e.0 != "solved" || (e.1 - log[0].1).abs() <= 2e-5 * (1. + e.1.abs()));
        if !ok {
            ctx.fail("differs", format!("{:?}: {:?}", runs, log));
            return;
        }
    }
    ctx.seen(hash_str(&ctx.desc.clone()));
}

pub fn c28(ctx: &mut Ctx) {
    match ctx.rng.below(20) {
        0 => real_history(ctx),
        1 => same_problem(ctx),
        _ => told(ctx),
    }
}
