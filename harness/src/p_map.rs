//! C19: results are mapped back to the right variables and constraints.


use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::SolverStatus;
use simple_error::SimpleError;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::core::{guarded, Ctx};
use crate::expr::*;
use crate::rng::hash_str;
use crate::spec::*;
use crate::stub::*;

/// How a constraint is recognized in the problem the solver gets.
#[derive(Clone, Debug)]
struct Mark {
    /// lhs - rhs at zero
    k: f64,
    /// (variable, limit, upper) if it states a limit
    limit: Option<(usize, f64, bool)>,
    kind: Kind,
    nonlinear: bool,
}

struct Seen {
    d: StdData,
    grad: Vec<f64>,
    f0: Vec<f64>,
    j: Vec<Vec<(usize, f64)>>,
    x: Vec<f64>,
    lam: Vec<f64>,
    nu: Vec<f64>,
    mu: Vec<f64>,
    pi: Vec<f64>,
}

/// Answers a problem with values that are all different and duals that are consistent with
/// the slacks; tells what it saw.
fn answer(p: &mut Problem, salt: f64, first_slack_coef: &dyn Fn(f64) -> bool) -> Seen {
    let d = std_data(p);
    let e = std_eval(p, &vec![0.; d.nx]);
    let n = d.nx;
    let nf = e.f.len();
    let m = d.b.len();
    let x: Vec<f64> = (0..n).map(|j| 3. + j as f64 + salt).collect();
    let mut mu: Vec<f64> = (0..n).map(|j| 10000. + j as f64 + salt).collect();
    let mut pi: Vec<f64> = (0..n).map(|j| 20000. + j as f64 + salt).collect();
    let mut lam: Vec<f64> = (0..m).map(|i| 30000. + i as f64 + salt).collect();
    let mut nu: Vec<f64> = (0..nf).map(|i| 40000. + i as f64 + salt).collect();
    let grad: Vec<f64> = match &d.c {
        Some(c) => c.clone(),
        None => e.gphi.clone(),
    };
    let mut jr: Vec<Vec<(usize, f64)>> = vec![vec![]; nf];
    for (i, j, v) in e.j.iter() {
        jr[*i].push((*j, *v));
    }
    let mut ar: Vec<Vec<(usize, f64)>> = vec![vec![]; m];
    for (i, j, v) in d.a.iter() {
        ar[*i].push((*j, *v));
    }
    // A slack is a column without objective coefficient; its limit's dual and its row's agree.
    let slack = |row: &Vec<(usize, f64)>| row.iter().find(|(j, v)| *v == -1. && first_slack_coef(grad[*j])).map(|(j, _)| *j);
    for i in 0..m {
        if let Some(s) = slack(&ar[i]) {
            if d.u[s] == 0. {
                lam[i] = -lam[i];
                mu[s] = -lam[i];
                pi[s] = 0.;
            } else {
                pi[s] = lam[i];
                mu[s] = 0.;
            }
        }
    }
    for i in 0..nf {
        if let Some(s) = slack(&jr[i]) {
            if d.u[s] == 0. {
                nu[i] = -nu[i];
                mu[s] = -nu[i];
                pi[s] = 0.;
            } else {
                pi[s] = nu[i];
                mu[s] = 0.;
            }
        }
    }
    Seen { d, grad, f0: e.f, j: jr, x, lam, nu, mu, pi }
}

pub fn c19(ctx: &mut Ctx) {
    for k in 0..4 {
        if crate::p_big::large(ctx, k) {
            return crate::p_big::model(ctx, k < 2, k % 2 == 0, k == 3);
        }
    }
    let big = ctx.idx % 50 == 7;
    let nv = if big { ctx.rng.us(11, 150) } else { ctx.rng.us(1, 7) };
    let nc = if big { ctx.rng.us(11, 150) } else { ctx.rng.below(12) };
    let nonlinear = ctx.rng.chance(0.5);
    let ints: Vec<bool> = {
        let p = if ctx.rng.chance(0.3) { 0.5 } else { 0. };
        (0..nv).map(|_| ctx.rng.chance(p)).collect()
    };
    let mut prog = Prog::new();
    for v in 0..nv {
        prog.push(Op::Var(v));
    }
    // Objective: distinct coefficients, and nonlinear terms without slope at zero
    let max = ctx.rng.chance(0.5);
    let mut order: Vec<usize> = (0..nv).collect();
    ctx.rng.shuffle(&mut order);
    let terms: Vec<(usize, f64)> = order.iter().map(|v| (*v, (101. + *v as f64) * if ctx.rng.chance(0.5) { 1. } else { -1. })).collect();
    let coef: HashMap<u64, usize> = terms.iter().map(|(v, c)| (c.abs().to_bits(), *v)).collect();
    let k0 = if ctx.rng.chance(0.3) { ctx.rng.dyadic(5) } else { 0. };
    let mut obj = push_affine(&mut ctx.rng, &mut prog, &terms, k0);
    let curve = |ctx: &mut Ctx, prog: &mut Prog| -> usize {
        let (a, b) = (ctx.rng.below(nv), ctx.rng.below(nv));
        let q = match ctx.rng.below(3) {
            0 => prog.push(Op::Bin(Bop::Mul, Arg::R(a), Arg::R(b), 0)),
            1 => {
                let s = prog.push(Op::Sin(a));
                prog.push(Op::Bin(Bop::Mul, Arg::R(s), Arg::R(b), 0))
            }
            _ => {
                let p = prog.push(Op::Bin(Bop::Mul, Arg::R(a), Arg::R(b), 1));
                prog.push(Op::Sin(p))
            }
        };
        let f = ctx.rng.dyadic(3);
        let f = if f == 0. { 1. } else { f };
        prog.push(Op::Bin(Bop::Mul, Arg::N(f), Arg::R(q), 0))
    };
    if nonlinear && ctx.rng.chance(0.5) {
        let q = curve(ctx, &mut prog);
        obj = prog.push(Op::Bin(Bop::Add, Arg::R(obj), Arg::R(q), 0));
    }
    let mut cons: Vec<ConSpec> = Vec::new();
    let mut marks: Vec<Mark> = Vec::new();
    let mut uniq = 0;
    for i in 0..nc {
        uniq += 1;
        let val = 500. + uniq as f64 + 0.25 * ctx.rng.below(4) as f64;
        let val = if ctx.rng.chance(0.5) { val } else { -val };
        let kind = *ctx.rng.pick(&[Kind::Eq, Kind::Le, Kind::Ge]);
        let label = if ctx.rng.chance(0.2) { "same".to_string() } else { format!("c{}", i) };
        let form = ctx.rng.next() as u8;
        let shape = ctx.rng.below(10);
        if shape < 4 {
            // a limit, in several spellings
            let v = ctx.rng.below(nv);
            let kind = if shape == 3 { kind } else { *ctx.rng.pick(&[Kind::Le, Kind::Ge]) };
            let s = *ctx.rng.pick(&[1., 1., 1., 1., 2., -1., -2.]);
            let t = if s == 1. && ctx.rng.chance(0.7) { v } else { prog.push(Op::Bin(Bop::Mul, Arg::N(s), Arg::R(v), 0)) };
            let flip = ctx.rng.chance(0.3);
            // s * x  kind  s * val
            let (k, limit) = (-s * val, val);
            let real = if s < 0. { mirror(kind) } else { kind };
            let lim = if kind == Kind::Eq { None } else { Some((v, limit, real == Kind::Le)) };
            let shift = if ctx.rng.chance(0.2) { ctx.rng.dyadic(4) } else { 0. };
            let t = if shift != 0. { prog.push(Op::Bin(Bop::Add, Arg::R(t), Arg::N(shift), 0)) } else { t };
            let c = if flip {
                ConSpec { lhs: Arg::N(s * val + shift), rhs: Arg::R(t), kind: mirror(kind), label, form }
            } else {
                ConSpec { lhs: Arg::R(t), rhs: Arg::N(s * val + shift), kind, label, form }
            };
            marks.push(Mark { k: if flip { -k } else { k }, limit: lim, kind: c.kind, nonlinear: false });
            cons.push(c);
        } else {
            let nt = ctx.rng.us(2, 4);
            let terms: Vec<(usize, f64)> = (0..nt)
                .map(|_| (ctx.rng.below(nv), *ctx.rng.pick(&[1., 2., -3., 0.5, 1.5])))
                .collect();
            let nl = nonlinear && ctx.rng.chance(0.5);
            let mut e = push_affine(&mut ctx.rng, &mut prog, &terms, 0.);
            if nl {
                let q = curve(ctx, &mut prog);
                e = prog.push(Op::Bin(Bop::Add, Arg::R(e), Arg::R(q), 1));
            }
            // Sides: expression and number, number and expression, expression and expression
            let mut net: HashMap<usize, f64> = HashMap::new();
            for (v, c) in terms.iter() {
                *net.entry(*v).or_insert(0.) += *c;
            }
            let (lhs, rhs, k) = match ctx.rng.below(4) {
                0 => {
                    for c in net.values_mut() {
                        *c = -*c;
                    }
                    (Arg::N(val), Arg::R(e), val)
                }
                1 => {
                    let v = ctx.rng.below(nv);
                    let o = prog.push(Op::Bin(Bop::Add, Arg::R(v), Arg::N(val), 0));
                    *net.entry(v).or_insert(0.) -= 1.;
                    (Arg::R(e), Arg::R(o), -val)
                }
                _ => (Arg::R(e), Arg::N(val), -val),
            };
            // May be a limit after all
            net.retain(|_, c| *c != 0.);
            let limit = match net.iter().next() {
                Some((v, a)) if !nl && net.len() == 1 && kind != Kind::Eq => Some((*v, -k / a, (kind == Kind::Le) == (*a > 0.))),
                _ => None,
            };
            marks.push(Mark { k, limit, kind, nonlinear: nl });
            cons.push(ConSpec { lhs, rhs, kind, label, form });
        }
    }
    let mut ord: Vec<usize> = (0..cons.len()).collect();
    ctx.rng.shuffle(&mut ord);
    if !ord.is_empty() && ctx.rng.chance(0.15) {
        let k = *ctx.rng.pick(&ord);
        let at = ctx.rng.below(ord.len() + 1);
        ord.insert(at, k);
    }
    let names = gen_names(&mut ctx.rng, nv, NameStyle::Mixed);
    let spec = MSpec { prog, names, ints, obj: Some((max, obj)), cons, order: ord };
    ctx.desc = spec.show();
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(e) => return ctx.fail("build-panic", e),
    };
    let solves = if ctx.rng.chance(0.2) { 2 } else { 1 };
    for round in 0..solves {
        let salt = round as f64 * 0.25;
        let seen: Rc<RefCell<Option<Seen>>> = Rc::new(RefCell::new(None));
        let keep = seen.clone();
        let stub = Stub::new(Box::new(move |p: &mut Problem| {
            let s = answer(p, salt, &|g| g == 0.);
            let (n, na, nf) = dims(p);
            let mut sol = ProblemSol::new(n, na, nf);
            sol.x = s.x.clone();
            sol.lam = s.lam.clone();
            sol.nu = s.nu.clone();
            sol.mu = s.mu.clone();
            sol.pi = s.pi.clone();
            *keep.borrow_mut() = Some(s);
            Ok::<_, SimpleError>((SolverStatus::Solved, sol))
        }));
        match guarded(|| b.model.solve(&stub)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return ctx.fail("solve", format!("solve failed: {}", e)),
            Err(e) => return ctx.fail("solve-panic", e),
        }
        drop(stub);
        if b.model.solver_status() != Some(&SolverStatus::Solved) {
            return ctx.fail("status", format!("status {:?} instead of solved", b.model.solver_status()));
        }
        let s = seen.borrow_mut().take().unwrap();
        ctx.count("solves");
        // Columns
        let mut col: HashMap<usize, usize> = HashMap::new();
        for (j, g) in s.grad.iter().enumerate() {
            if let Some(v) = coef.get(&g.abs().to_bits()) {
                if col.insert(*v, j).is_some() {
                    return ctx.fail("column", format!("two columns have the objective coefficient of variable {}", v));
                }
            } else if *g != 0. {
                return ctx.fail("column", format!("objective coefficient {:?} of column {} is none of the model's", g, j));
            }
        }
        let primals = b.model.final_primals();
        for v in 0..nv {
            let j = match col.get(&v) {
                Some(j) => *j,
                None => return ctx.fail("column", format!("no column has the objective coefficient of variable {}", v)),
            };
            match primals.get(&b.vars[v]) {
                Some(x) if *x == s.x[j] => ctx.count("primals_checked"),
                got => {
                    return ctx.fail(
                        "primal",
                        format!("variable {} ({}) is column {}, which has value {:?}, but is reported as {:?}", v, spec.names[v], j, s.x[j], got),
                    )
                }
            }
        }
        // Rows
        let duals = b.model.final_duals();
        for d in duals.keys() {
            if !b.cons.iter().any(|c| c == *d) {
                return ctx.fail("dual-foreign", format!("a dual is reported for {} which is not in the model", d));
            }
        }
        for (k, m) in marks.iter().enumerate() {
            let times = spec.order.iter().filter(|o| **o == k).count();
            if times == 0 {
                continue;
            }
            let got = duals.get(&b.cons[k]).cloned();
            let rows: Vec<usize> = (0..s.d.b.len()).filter(|i| s.d.b[*i] == -m.k && !m.nonlinear).collect();
            let nrows: Vec<usize> = (0..s.f0.len()).filter(|i| m.nonlinear && s.f0[*i] == m.k).collect();
            let mut want: f64 = 0.;
            let mut reps = 0;
            let what;
            if !rows.is_empty() || !nrows.is_empty() {
                let duals_of = |l: f64| match m.kind {
                    Kind::Eq => l,
                    Kind::Le => -l,
                    Kind::Ge => l,
                };
                for i in rows.iter() {
                    want += duals_of(s.lam[*i]);
                    reps += 1;
                }
                for i in nrows.iter() {
                    want += duals_of(s.nu[*i]);
                    reps += 1;
                }
                what = "row";
                if reps != times {
                    return ctx.fail("row", format!("constraint {} ({}) was added {} times and has {} rows", k, b.cons[k], times, reps));
                }
            } else if let Some((v, lim, up)) = m.limit {
                let j = col[&v];
                if (if up { s.d.u[j] } else { s.d.l[j] }) == lim {
                    want = if up { s.mu[j] } else { s.pi[j] };
                    what = "limit";
                } else {
                    // dominated by another limit
                    let ok = if up { s.d.u[j] < lim } else { s.d.l[j] > lim };
                    if !ok {
                        return ctx.fail("limit-lost", format!("constraint {} ({}) is neither a row nor a limit", k, b.cons[k]));
                    }
                    ctx.count("dominated_limits");
                    if got.is_some() && got != Some(0.) {
                        return ctx.fail("dual-dominated", format!("constraint {} ({}) is dominated, but is reported with dual {:?}", k, b.cons[k], got));
                    }
                    continue;
                }
            } else {
                return ctx.fail("row-lost", format!("constraint {} ({}) has no row", k, b.cons[k]));
            }
            if got != Some(want) {
                return ctx.fail(
                    "dual",
                    format!("the {} of constraint {} ({}) has dual {:?}, but the constraint is reported with {:?}", what, k, b.cons[k], want, got),
                );
            }
            ctx.count(&format!("duals_checked_{}_{:?}", if m.nonlinear { "nonlinear" } else { what }, m.kind));
        }
        ctx.count(&format!("class_{:?}", s.d.class));
        let _ = &s.j;
        ctx.max("variables", nv as u64);
        ctx.max("constraints", spec.order.len() as u64);
        let sig: String = marks.iter().map(|m| format!("{:?}{}{:?};", m.kind, m.nonlinear, m.limit.map(|l| (l.0, l.2)))).collect();
        ctx.seen(hash_str(&format!("{} {} {} {:?} {:?}", nv, max, sig, spec.order, s.d.class)));
    }
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}

pub fn mirror(k: Kind) -> Kind {
    match k {
        Kind::Eq => Kind::Eq,
        Kind::Le => Kind::Ge,
        Kind::Ge => Kind::Le,
    }
}
