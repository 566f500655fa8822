//! Few but large cases: sizes beyond sixteen bits, for several properties.

use numopt::matrix::coo::CooMat;
use numopt::model::model_std::ModelStd;
use numopt::model::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use numopt::solver::ipopt::SolverIpopt;
use simple_error::SimpleError;
use std::collections::HashMap;
use std::fs;

use crate::core::{guarded, Ctx};
use crate::lp::read_lp;
use crate::p_lp::{differs, Data};
use crate::p_sol::{not_said, solved_lines};
use crate::rng::Rng;
use crate::spec::{std_data, std_eval, Class};
use crate::stub::*;

fn size(rng: &mut Rng) -> usize {
    rng.us(65537, 71000)
}

/// Which of the cases are large: one of each kind.
pub fn large(ctx: &Ctx, k: u64) -> bool {
    let every = if ctx.thorough() { 20011 } else { 1 << 40 };
    ctx.idx % every == 5 + k
}

// ---------------------------------------------------------------- C12

pub fn views(ctx: &mut Ctx) {
    let n = size(&mut ctx.rng);
    let m = size(&mut ctx.rng);
    ctx.desc = format!("{} columns, {} rows", n, m);
    let c: Vec<f64> = (0..n).map(|i| i as f64 - 7.).collect();
    let l: Vec<f64> = (0..n).map(|i| -(i as f64)).collect();
    let u: Vec<f64> = (0..n).map(|i| i as f64 + 0.5).collect();
    let b: Vec<f64> = (0..m).map(|i| 3. * i as f64).collect();
    let p: Vec<bool> = (0..n).map(|i| i % 3 == 1).collect();
    let r: Vec<usize> = (0..m).collect();
    let k: Vec<usize> = (0..m).map(|i| (7 * i + 1) % n).collect();
    let d: Vec<f64> = (0..m).map(|i| i as f64 + 0.25).collect();
    let a = CooMat::new((m, n), r.clone(), k.clone(), d.clone());
    let x: Vec<f64> = (0..n).map(|i| (i % 1000) as f64).collect();
    let phi: f64 = c.iter().zip(x.iter()).map(|(a, b)| a * b).sum();
    let x0: Vec<f64> = x.iter().map(|v| v + 1.).collect();
    let res = guarded(|| {
        let mut lp = ProblemLp::new(c.clone(), a.clone(), b.clone(), l.clone(), u.clone(), Some(x0.clone()));
        let mut mi = ProblemMilp::new(c.clone(), a.clone(), b.clone(), l.clone(), u.clone(), p.clone(), Some(x0.clone()));
        macro_rules! look {
            ($q:expr, $what:expr) => {{
                let q = $q;
                q.evaluate(&x);
                if q.gphi() != &c[..] || (q.phi() - phi).abs() > 1e-10 * phi.abs() || q.nx() != n || q.na() != m {
                    return Some(format!("objective of the {} differs", $what));
                }
                if q.a().row_inds() != &r[..] || q.a().col_inds() != &k[..] || q.a().data() != &d[..] || q.b() != &b[..] || q.l() != &l[..] || q.u() != &u[..] || q.x0() != Some(&x0[..]) {
                    return Some(format!("data of the {} differ", $what));
                }
            }};
        }
        look!(lp.as_mut_nlp(), "lp as nlp");
        look!(lp.as_mut_minlp(), "lp as minlp");
        look!(mi.as_mut_minlp(), "milp as minlp");
        if mi.as_mut_minlp().p() != &p[..] || mi.p() != &p[..] || lp.as_mut_milp().p().iter().any(|p| *p) {
            return Some("integrality differs".to_string());
        }
        None
    });
    match res {
        Err(e) => return ctx.fail("refused", e),
        Ok(Some(e)) => return ctx.fail("view", e),
        Ok(None) => (),
    }
    // Combined Hessians of many rows
    let nf = size(&mut ctx.rng);
    let nx = size(&mut ctx.rng);
    let at = |i: usize| ((3 * i + 2) % nx, (5 * i) % nx);
    let order = |(a, b): (usize, usize)| if a >= b { (a, b) } else { (b, a) };
    let h: Vec<CooMat<f64>> = (0..nf).map(|i| CooMat::new((nx, nx), vec![order(at(i)).0], vec![order(at(i)).1], vec![i as f64])).collect();
    let nu: Vec<f64> = (0..nf).map(|i| 1. + (i % 5) as f64).collect();
    let res = guarded(|| {
        let mut q = ProblemMinlp::new(
            CooMat::from_nnz((nx, nx), 0),
            CooMat::from_nnz((0, nx), 0),
            vec![],
            CooMat::from_nnz((nf, nx), 0),
            h,
            vec![0.; nx],
            vec![1.; nx],
            vec![false; nx],
            None,
            Box::new(|_, _, _, _, _, _, _| ()),
        );
        q.combine_h(&nu);
        q.hcomb().iter().map(|(i, j, v)| ((*i, *j), *v)).collect::<Vec<_>>()
    });
    let got = match res {
        Err(e) => return ctx.fail("refused", e),
        Ok(g) => g,
    };
    let mut sum: HashMap<(usize, usize), f64> = HashMap::new();
    for (p, v) in got {
        *sum.entry(p).or_insert(0.) += v;
    }
    for i in 0..nf {
        *sum.entry(order(at(i))).or_insert(0.) -= nu[i] * i as f64;
    }
    if let Some((p, v)) = sum.iter().find(|(_, v)| **v != 0.) {
        return ctx.fail("hcomb", format!("combined Hessian of {} rows is off by {:?} at {:?}", nf, v, p));
    }
    ctx.count("large_cases");
}

// ---------------------------------------------------------------- C13

pub fn matrices(ctx: &mut Ctx) {
    // all in one row, all in one column, all over
    for kind in 0..3 {
        let rng = &mut ctx.rng;
        let (m, n, nnz) = match kind {
            0 => (3, size(rng), 90000),
            1 => (size(rng), 2, 90000),
            _ => (size(rng), size(rng), 150000),
        };
        ctx.desc = format!("{} x {} with {} entries", m, n, nnz);
        let r: Vec<usize> = (0..nnz).map(|_| if kind == 0 && rng.chance(0.9) { 1 } else { rng.below(m) }).collect();
        let c: Vec<usize> = (0..nnz).map(|_| rng.below(n)).collect();
        let d: Vec<i64> = (0..nnz).map(|_| rng.range(-9, 9)).collect();
        let x: Vec<i64> = (0..n).map(|_| rng.range(-9, 9)).collect();
        let mut yw = vec![0i64; m];
        let mut want: HashMap<(usize, usize), i64> = HashMap::new();
        for k in 0..nnz {
            yw[r[k]] += d[k] * x[c[k]];
            *want.entry((r[k], c[k])).or_insert(0) += d[k];
        }
        let res = guarded(|| {
            let a = CooMat::new((m, n), r.clone(), c.clone(), d.clone());
            if &a * x.clone() != yw {
                return Some("product differs".to_string());
            }
            let mut s = a.to_csr();
            for round in 0..2 {
                let ip = s.indptr();
                if ip.len() != m + 1 || ip[0] != 0 || ip[m] != s.nnz() || s.indices().len() != s.nnz() || s.data().len() != s.nnz() || ip.windows(2).any(|w| w[0] > w[1]) {
                    return Some(format!("round {}: pointers are wrong", round));
                }
                let mut got: HashMap<(usize, usize), i64> = HashMap::new();
                let mut places = 0;
                for i in 0..m {
                    for k in ip[i]..ip[i + 1] {
                        places += 1;
                        *got.entry((i, s.indices()[k])).or_insert(0) += s.data()[k];
                    }
                }
                if round == 1 && places != got.len() {
                    return Some("duplicates are left".to_string());
                }
                if round == 0 && places != nnz {
                    return Some(format!("{} entries of {}", places, nnz));
                }
                for (p, v) in want.iter() {
                    if got.get(p).cloned().unwrap_or(0) != *v {
                        return Some(format!("round {}: entry {:?} is {:?}, expected {}", round, p, got.get(p), v));
                    }
                }
                if got.len() > want.len() {
                    return Some(format!("round {}: there are more entries", round));
                }
                s.sum_duplicates();
            }
            None
        });
        match res {
            Err(e) => return ctx.fail("panic", e),
            Ok(Some(e)) => return ctx.fail("large", e),
            Ok(None) => ctx.count("large_cases"),
        }
    }
}

// ---------------------------------------------------------------- C14

pub fn lp_file(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let n = size(rng);
    let m = size(rng);
    ctx.desc = format!("{} columns, {} rows", n, m);
    let mut d = Data { c: vec![], m, rows: vec![], cols: vec![], vals: vec![], b: vec![], l: vec![], u: vec![], p: vec![] };
    for i in 0..n {
        d.c.push(if rng.chance(0.5) { 0. } else { rng.dyadic(8) });
        d.l.push(-(i as f64));
        d.u.push(i as f64 + 1.);
        d.p.push(rng.chance(0.5));
    }
    for i in 0..m {
        d.b.push(rng.dyadic(9));
        // the last row has very many entries
        let k = if i + 1 == m { 3000 } else { rng.below(3) };
        for _ in 0..k {
            d.rows.push(i);
            d.cols.push(rng.below(n));
            d.vals.push(rng.dyadic(5));
        }
    }
    let name = "large.lp";
    match guarded(|| d.milp().write_to_lp_file(name)) {
        Err(e) => return ctx.fail("write-panic", e),
        Ok(Err(e)) => return ctx.fail("write-failed", format!("writing failed: {}", e)),
        Ok(Ok(())) => (),
    }
    let text = fs::read_to_string(name).unwrap_or_default();
    let _ = fs::remove_file(name);
    let f = match read_lp(&text) {
        Ok(f) => f,
        Err(e) => return ctx.fail("not-lp", format!("the file is not in LP format: {}", e)),
    };
    if let Some(e) = differs(&f, &d, false, 5e-10) {
        return ctx.fail("file-differs", e);
    }
    ctx.count("large_cases");
}

// ---------------------------------------------------------------- C15

pub fn solution(ctx: &mut Ctx) {
    for cbc in [true, false].iter() {
        let (n, m) = (size(&mut ctx.rng), size(&mut ctx.rng));
        ctx.desc = format!("{} variables, {} rows, cbc {}", n, m, cbc);
        let l = solved_lines(&mut ctx.rng, *cbc, n, m);
        let p = Data { c: vec![1.; n], m, rows: vec![], cols: vec![], vals: vec![], b: vec![0.; m], l: vec![0.; n], u: vec![1.; n], p: vec![false; n] }.milp();
        let name = "large.sol";
        let text = l.text();
        let read = |t: &str| {
            fs::write(name, t).unwrap();
            guarded(|| SolverCbcCmd::read_sol_file(name, &p, *cbc).map_err(|e| format!("{}", e)))
        };
        match read(&text) {
            Err(e) => return ctx.fail("panic", e),
            Ok(Ok((SolverStatus::Solved, s))) => {
                if let Some(e) = not_said(&s, &l.said) {
                    return ctx.fail("misread", e);
                }
            }
            Ok(Ok((s, _))) => return ctx.fail("complete-rejected", format!("complete file gives status {}", s)),
            Ok(Err(e)) => return ctx.fail("complete-rejected", format!("complete file gives error {}", e)),
        }
        // A line missing anywhere, or cut
        for k in 0..3 {
            let mut j = l.clone();
            match k {
                0 => {
                    let i = ctx.rng.below(j.body.len());
                    j.body.remove(i);
                }
                1 => {
                    j.body.pop();
                }
                _ => {
                    // one line twice instead of another
                    let i = j.body.len() / 2;
                    j.body[i] = j.body[i + 1].clone();
                }
            }
            if let Ok(Ok((SolverStatus::Solved, _))) = read(&j.text()) {
                let _ = fs::remove_file(name);
                return ctx.fail("accepted", format!("solved although a line is missing (way {})", k));
            }
        }
        if let Ok(Ok((SolverStatus::Solved, _))) = read(&text[..text.len() - 2]) {
            return ctx.fail("accepted", "solved although the end is missing".to_string());
        }
        let _ = fs::remove_file(name);
        ctx.count("large_cases");
    }
}

// ---------------------------------------------------------------- C08, C09, C10, C19

/// n variables; per variable a lower and an upper limit, an equation, and a nonlinear
/// equation; every number names its variable and constraint.
pub fn model(ctx: &mut Ctx, nonlinear: bool, inequalities: bool, ints: bool) {
    let n = if nonlinear { 66000 } else { size(&mut ctx.rng) };
    ctx.desc = format!("{} variables, nonlinear {}, inequalities {}, integers {}", n, nonlinear, inequalities, ints);
    // squares in the objective
    let ns = if nonlinear { 400 } else { 0 };
    let integer = |i: usize| ints && i % 5 == 3;
    let built = guarded(|| {
        let vars: Vec<Node> = (0..n)
            .map(|i| {
                let name = format!("v{}", (i * 7919) % n);
                if integer(i) {
                    VariableScalar::new_integer(&name)
                } else {
                    VariableScalar::new_continuous(&name)
                }
            })
            .collect();
        let mut m = Model::new();
        let mut obj = &vars[0] + 2. * &vars[n - 1];
        for i in 0..ns {
            obj = obj + (i as f64 + 1.) * &vars[i] * &vars[i];
        }
        m.set_objective(Objective::minimize(&obj));
        let start: HashMap<&Node, f64> = vars.iter().enumerate().map(|(i, v)| (v, i as f64 + 0.5)).collect();
        m.set_init_primals(&start);
        let mut lims: Vec<(Constraint, Constraint)> = Vec::new();
        let mut eqs: Vec<Constraint> = Vec::new();
        let mut nls: Vec<Constraint> = Vec::new();
        for i in 0..n {
            let (x, y) = (&vars[i], &vars[(i + 1) % n]);
            let f = i as f64;
            lims.push((x.geq(-1. - f), x.leq(2. + f)));
            let e = x + 2. * y;
            eqs.push(if inequalities { e.leq(5. + f) } else { e.equal(5. + f) });
            if nonlinear {
                nls.push((x * y).equal(3. + f));
            }
        }
        for (a, b) in lims.iter() {
            m.add_constraint(a);
            m.add_constraint(b);
        }
        let all: Vec<&Constraint> = eqs.iter().chain(nls.iter()).collect();
        m.add_constraints(&all);
        (vars, m, lims, eqs, nls)
    });
    let (vars, mut m, lims, eqs, nls) = match built {
        Ok(b) => b,
        Err(e) => return ctx.fail("build-panic", e),
    };
    // The problem
    let nc = n + if inequalities { n } else { 0 };
    let nf = if nonlinear { n } else { 0 };
    let mut sp = match guarded(|| m.std_problem()) {
        Ok(s) => s,
        Err(e) => return ctx.fail("std-panic", e),
    };
    let d = std_data(&sp.prob);
    if d.nx != nc || d.b.len() != n || dims(&sp.prob).2 != nf {
        return ctx.fail("shape", format!("{} columns, {} and {} rows", d.nx, d.b.len(), dims(&sp.prob).2));
    }
    let mut col = vec![0; n];
    for (i, v) in vars.iter().enumerate() {
        match sp.var2index.get(v) {
            Some(j) if *j < nc => col[i] = *j,
            _ => return ctx.fail("column", format!("variable {} has no column", i)),
        }
    }
    let class = match (nonlinear, ints) {
        (false, false) => Class::Lp,
        (false, true) => Class::Milp,
        (true, false) => Class::Nlp,
        (true, true) => Class::Minlp,
    };
    if d.class != class {
        return ctx.fail("class", format!("the problem is of class {:?}, expected {:?}", d.class, class));
    }
    for i in 0..n {
        if d.p[col[i]] != integer(i) {
            return ctx.fail("integrality", format!("column of variable {} is integer: {}", i, d.p[col[i]]));
        }
        if d.x0.as_ref().map(|x| x[col[i]]) != Some(i as f64 + 0.5) {
            return ctx.fail("initial", format!("initial value of variable {} is {:?}", i, d.x0.as_ref().map(|x| x[col[i]])));
        }
    }
    if d.p.iter().filter(|p| **p).count() != (0..n).filter(|i| integer(*i)).count() {
        return ctx.fail("integrality", "there are other integer columns".to_string());
    }
    for i in 0..n {
        let f = i as f64;
        if d.l[col[i]] != -1. - f || d.u[col[i]] != 2. + f {
            return ctx.fail("limits", format!("limits of variable {} are {:?} and {:?}", i, d.l[col[i]], d.u[col[i]]));
        }
        if sp.lindex2constr.get(&col[i]) != Some(&lims[i].0) || sp.uindex2constr.get(&col[i]) != Some(&lims[i].1) {
            return ctx.fail("attribution", format!("limits of variable {} are attributed to other constraints", i));
        }
    }
    let mut rows: Vec<Vec<(usize, f64)>> = vec![vec![]; n];
    for (i, j, v) in d.a.iter() {
        rows[*i].push((*j, *v));
    }
    let who: HashMap<&Constraint, usize> = eqs.iter().enumerate().map(|(i, c)| (c, i)).collect();
    for r in 0..n {
        let i = match sp.aindex2constr.get(&r).and_then(|c| who.get(c)) {
            Some(i) => *i,
            None => return ctx.fail("row", format!("row {} belongs to no constraint", r)),
        };
        if d.b[r] != 5. + i as f64 {
            return ctx.fail("row", format!("right-hand side of constraint {} is {:?}", i, d.b[r]));
        }
        for (v, w) in [(i, 1.), ((i + 1) % n, 2.)].iter() {
            let s: f64 = rows[r].iter().filter(|(j, _)| *j == col[*v]).map(|(_, v)| *v).sum();
            if s != *w {
                return ctx.fail("row", format!("coefficient of variable {} in constraint {} is {:?}", v, i, s));
            }
        }
        if rows[r].len() != 2 + inequalities as usize {
            return ctx.fail("row", format!("constraint {} has {} entries", i, rows[r].len()));
        }
    }
    let nwho: HashMap<&Constraint, usize> = nls.iter().enumerate().map(|(i, c)| (c, i)).collect();
    if nonlinear {
        for round in 0..2 {
            let mut x = vec![0.; nc];
            for i in 0..n {
                x[col[i]] = 1. + (i % (100 - round)) as f64;
            }
            let e = match guarded(|| std_eval(&mut sp.prob, &x)) {
                Ok(e) => e,
                Err(e) => return ctx.fail("evaluate-panic", e),
            };
            let mut grad = vec![0.; nc];
            grad[col[0]] += 1.;
            grad[col[n - 1]] += 2.;
            let mut hess: HashMap<(usize, usize), f64> = HashMap::new();
            for i in 0..ns {
                grad[col[i]] += 2. * (i as f64 + 1.) * x[col[i]];
                hess.insert((col[i], col[i]), 2. * (i as f64 + 1.));
            }
            if e.gphi != grad {
                return ctx.fail("gradient", format!("gradient of the objective differs in evaluation {}", round));
            }
            for (i, j, v) in e.hphi.iter() {
                *hess.entry((*i, *j)).or_insert(0.) -= *v;
            }
            if let Some((p, v)) = hess.iter().find(|(_, v)| **v != 0.) {
                return ctx.fail("hessian", format!("second derivatives of the objective are off by {:?} at {:?} in evaluation {}", v, p, round));
            }
            let mut jr: Vec<Vec<(usize, f64)>> = vec![vec![]; nf];
            for (i, j, v) in e.j.iter() {
                jr[*i].push((*j, *v));
            }
            for r in 0..nf {
                let i = match sp.jindex2constr.get(&r).and_then(|c| nwho.get(c)) {
                    Some(i) => *i,
                    None => return ctx.fail("row", format!("nonlinear row {} belongs to no constraint", r)),
                };
                let (a, b) = (col[i], col[(i + 1) % n]);
                if e.f[r] != x[a] * x[b] - 3. - i as f64 {
                    return ctx.fail("value", format!("value of nonlinear constraint {} is {:?}", i, e.f[r]));
                }
                let mut got = jr[r].clone();
                let mut want = vec![(a, x[b]), (b, x[a])];
                got.sort_by(|p, q| p.partial_cmp(q).unwrap());
                want.sort_by(|p, q| p.partial_cmp(q).unwrap());
                if got != want {
                    return ctx.fail("jacobian", format!("derivatives of nonlinear constraint {} are {:?}, expected {:?}", i, got, want));
                }
                let h: Vec<(usize, usize, f64)> = e.h[r].iter().map(|(i, j, v)| (*i, *j, *v)).filter(|t| t.2 != 0.).collect();
                if h.len() != 1 || h[0].2 != 1. || h[0].0.max(h[0].1) != a.max(b) || h[0].0.min(h[0].1) != a.min(b) {
                    return ctx.fail("hessian", format!("second derivatives of nonlinear constraint {} are {:?}", i, h));
                }
            }
        }
    }
    drop(sp);
    // What a solver answers
    let stub = Stub::new(Box::new(|p: &mut Problem| {
        let d = std_data(p);
        let (n, na, nf) = dims(p);
        let mut s = ProblemSol::new(n, na, nf);
        for k in 0..n {
            s.x[k] = d.l[k] - 0.25;
            s.mu[k] = d.u[k] + 0.5;
            s.pi[k] = 0.125 - d.l[k];
        }
        for k in 0..na {
            s.lam[k] = d.b[k] + 0.25;
        }
        if nf > 0 {
            let e = std_eval(p, &vec![0.; n]);
            for k in 0..nf {
                s.nu[k] = 1e6 - e.f[k];
            }
        }
        if inequalities {
            // the dual of the slack's limit is the row's
            for (i, j, v) in d.a.iter() {
                if *v == -1. {
                    s.mu[*j] = -(d.b[*i] + 0.25);
                    s.pi[*j] = 0.;
                }
            }
        }
        Ok::<_, SimpleError>((SolverStatus::Solved, s))
    }));
    match guarded(|| m.solve(&stub)) {
        Ok(Ok(())) => (),
        Ok(Err(e)) => return ctx.fail("solve", format!("{}", e)),
        Err(e) => return ctx.fail("solve-panic", e),
    }
    drop(stub);
    let (x, y) = (m.final_primals(), m.final_duals());
    for i in 0..n {
        let f = i as f64;
        if x.get(&vars[i]) != Some(&(-1.25 - f)) {
            return ctx.fail("primal", format!("variable {} is reported as {:?}", i, x.get(&vars[i])));
        }
        if y.get(&lims[i].0) != Some(&(1.125 + f)) || y.get(&lims[i].1) != Some(&(2.5 + f)) {
            return ctx.fail("dual", format!("limits of variable {} have duals {:?} and {:?}", i, y.get(&lims[i].0), y.get(&lims[i].1)));
        }
        let got = y.get(&eqs[i]).map(|v| v.abs());
        if got != Some(5.25 + f) {
            return ctx.fail("dual", format!("linear constraint {} has dual {:?}", i, got));
        }
        if nonlinear && y.get(&nls[i]) != Some(&(1e6 + 3. + f)) {
            return ctx.fail("dual", format!("nonlinear constraint {} has dual {:?}", i, y.get(&nls[i])));
        }
    }
    ctx.count("large_cases");
}

// ---------------------------------------------------------------- C16, C17

/// Pairs x + y = b with limits and costs, all independent of each other: the optimum and
/// the duals are known.
pub fn real(ctx: &mut Ctx, cbc: bool) {
    let rng = &mut ctx.rng;
    let k = size(rng) / 2 + 1;
    let n = 2 * k;
    ctx.desc = format!("{} pairs, {}", k, if cbc { "cbc" } else { "clp" });
    let mut d = Data { c: vec![], m: k, rows: vec![], cols: vec![], vals: vec![], b: vec![], l: vec![], u: vec![], p: vec![false; n] };
    let mut want = vec![0.; n];
    let mut lam = vec![0.; k];
    let mut red = vec![0.; n];
    let mut place: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut place);
    d.c = vec![0.; n];
    d.l = vec![0.; n];
    d.u = vec![1e8; n];
    for i in 0..k {
        let (x, y) = (place[2 * i], place[2 * i + 1]);
        let b = 10. + rng.below(50) as f64;
        let cap = 3. + rng.below(5) as f64; // less than b
        let (p, q) = (1. + rng.below(5) as f64, 7. + rng.below(9) as f64);
        for v in [x, y].iter() {
            d.rows.push(i);
            d.cols.push(*v);
            d.vals.push(1.);
        }
        d.b.push(b);
        d.c[x] = p;
        d.c[y] = q;
        if cbc {
            // x takes whole values up to cap + 0.5
            d.p[x] = true;
            d.u[x] = cap + 0.5;
        } else {
            d.u[x] = cap;
        }
        want[x] = cap;
        want[y] = b - cap;
        lam[i] = q;
        red[x] = p - q;
    }
    let mut prob = if cbc { Problem::Milp(d.milp()) } else { Problem::Lp(d.lp()) };
    let mut s: Box<dyn Solver> = if cbc { Box::new(SolverCbcCmd::new()) } else { Box::new(SolverClpCmd::new()) };
    s.set_param("logLevel", SolverParam::IntParam(0)).unwrap();
    let r = guarded(|| s.solve(&mut prob).map_err(|e| format!("{}", e)));
    match r {
        Err(e) => ctx.fail("panic", e),
        Ok(Err(e)) => ctx.fail("error", format!("solve failed: {}", e)),
        Ok(Ok((SolverStatus::Solved, r))) => {
            for j in 0..n {
                if (r.x[j] - want[j]).abs() > 1e-6 {
                    return ctx.fail("value", format!("x_{} is {:?}, at the optimum it is {:?}", j, r.x[j], want[j]));
                }
                if !cbc && (r.pi[j] - r.mu[j] - red[j]).abs() > 1e-6 {
                    return ctx.fail("dual", format!("duals of x_{} are {:?} and {:?}, the reduced cost is {:?}", j, r.pi[j], r.mu[j], red[j]));
                }
            }
            if !cbc {
                for i in 0..k {
                    if (r.lam[i] - lam[i]).abs() > 1e-6 {
                        return ctx.fail("dual", format!("dual of row {} is {:?}, expected {:?}", i, r.lam[i], lam[i]));
                    }
                }
            }
            ctx.count("large_cases");
        }
        Ok(Ok((s, _))) => ctx.fail("status", format!("ends as {}", s)),
    }
}

// ---------------------------------------------------------------- C18

/// Minimizes the sum of (x - t)^2 within limits, and of pairs with x + y = b: the optimum
/// and the duals are known.
pub fn smooth(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let k = size(rng) / 2 + 1;
    let n = 2 * k;
    ctx.desc = format!("{} pairs, Ipopt", k);
    let t: Vec<f64> = (0..n).map(|_| rng.range(-8, 8) as f64).collect();
    let b: Vec<f64> = (0..k).map(|_| rng.range(-8, 8) as f64).collect();
    // pair i is (i, k + i); every third pair is not coupled, but limited
    let coupled: Vec<usize> = (0..k).filter(|i| i % 3 != 0).collect();
    let na = coupled.len();
    let mut l = vec![-100.; n];
    let mut u = vec![100.; n];
    let mut want = vec![0.; n];
    let mut lam = vec![0.; na];
    let mut red = vec![0.; n];
    for i in (0..k).step_by(3) {
        l[i] = t[i] + 1.; // active
        u[k + i] = t[k + i] - 2.; // active
        want[i] = l[i];
        want[k + i] = u[k + i];
        red[i] = 2.;
        red[k + i] = -4.;
    }
    for (r, i) in coupled.iter().enumerate() {
        let s = (b[*i] - t[*i] - t[k + i]) / 2.;
        want[*i] = t[*i] + s;
        want[k + i] = t[k + i] + s;
        lam[r] = 2. * s;
    }
    let rows: Vec<usize> = (0..na).chain(0..na).collect();
    let cols: Vec<usize> = coupled.iter().cloned().chain(coupled.iter().map(|i| k + i)).collect();
    let tt = t.clone();
    let r = guarded(|| {
        let mut p = Problem::Nlp(ProblemNlp::new(
            CooMat::new((n, n), (0..n).collect(), (0..n).collect(), vec![2.; n]),
            CooMat::new((na, n), rows, cols, vec![1.; 2 * na]),
            coupled.iter().map(|i| b[*i]).collect(),
            CooMat::from_nnz((0, n), 0),
            vec![],
            l,
            u,
            None,
            Box::new(move |phi, gphi, _, _, _, _, x| {
                *phi = x.iter().zip(tt.iter()).map(|(x, t)| (x - t) * (x - t)).sum();
                for i in 0..x.len() {
                    gphi[i] = 2. * (x[i] - tt[i]);
                }
            }),
        ));
        let mut s = SolverIpopt::new();
        s.set_param("print_level", SolverParam::IntParam(0)).unwrap();
        s.set_param("sb", SolverParam::StrParam("yes".to_string())).unwrap();
        s.solve(&mut p).map_err(|e| format!("{}", e))
    });
    match r {
        Err(e) => ctx.fail("panic", e),
        Ok(Err(e)) => ctx.fail("error", format!("solve failed: {}", e)),
        Ok(Ok((SolverStatus::Solved, r))) => {
            for j in 0..n {
                if (r.x[j] - want[j]).abs() > 1e-4 {
                    return ctx.fail("value", format!("x_{} is {:?}, at the optimum it is {:?}", j, r.x[j], want[j]));
                }
                if (r.pi[j] - r.mu[j] - red[j]).abs() > 1e-3 {
                    return ctx.fail("dual", format!("duals of x_{} are {:?} and {:?}, expected a difference of {:?}", j, r.pi[j], r.mu[j], red[j]));
                }
            }
            for i in 0..na {
                if (r.lam[i] - lam[i]).abs() > 1e-3 {
                    return ctx.fail("dual", format!("dual of row {} is {:?}, expected {:?}", i, r.lam[i], lam[i]));
                }
            }
            ctx.count("large_cases");
        }
        Ok(Ok((s, _))) => ctx.fail("status", format!("ends as {}", s)),
    }
}
