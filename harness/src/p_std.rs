//! C32: models and their parts report what they were given. C33: standard components of
//! single constraints and of whole models.

use numopt::model::constraint::ConstraintKind;
use numopt::model::constraint_std::{ConstraintStd, ConstraintStdComp};
use numopt::model::model_std::ModelStd;
use numopt::model::node_std::{NodeStd, NodeStdComp, NodeStdProp};
use numopt::model::*;
use numopt::problem::base::ProblemSol;
use numopt::solver::SolverStatus;
use simple_error::SimpleError;
use std::collections::HashMap;

use crate::core::{guarded, Ctx};
use crate::expr::*;
use crate::p_model::gen_any;
use crate::spec::*;
use crate::stub::{dims, Stub};

// ---------------------------------------------------------------- C32

fn same_bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn kind_of(k: &ConstraintKind) -> Kind {
    match k {
        ConstraintKind::Equal => Kind::Eq,
        ConstraintKind::LessEqual => Kind::Le,
        ConstraintKind::GreaterEqual => Kind::Ge,
    }
}

/// What the model should hold.
struct Held {
    order: Vec<usize>,
    obj: Option<(bool, usize)>,
    init: Vec<(usize, f64)>,
    /// Bits of the value of each operation at a point
    vals: Vec<u64>,
    texts: Vec<String>,
    x: Vec<f64>,
}

fn vars_as_given(spec: &MSpec, b: &Built) -> Result<(), String> {
    for (i, v) in b.vars.iter().enumerate() {
        if v.name() != spec.names[i] {
            return Err(format!("the name of a variable called {:?} is {:?}", spec.names[i], v.name()));
        }
        match v {
            Node::VariableScalar(x) => {
                if x.name() != spec.names[i] || x.is_integer() != spec.ints[i] || x.is_continuous() == spec.ints[i] {
                    return Err(format!("variable {:?} (integer: {}) says name {:?}, integer {}, continuous {}", spec.names[i], spec.ints[i], x.name(), x.is_integer(), x.is_continuous()));
                }
            }
            _ => return Err(format!("variable {:?} is not a variable", spec.names[i])),
        }
        if format!("{}", v) != spec.names[i] {
            return Err(format!("variable {:?} prints as {}", spec.names[i], v));
        }
    }
    Ok(())
}

fn con_as_given(spec: &MSpec, b: &Built, k: usize, c: &Constraint) -> Result<(), String> {
    let s = &spec.cons[k];
    if kind_of(c.kind()) != s.kind {
        return Err(format!("constraint {} was made as {:?} and is {:?}", c, s.kind, kind_of(c.kind())));
    }
    if c.label() != s.label {
        return Err(format!("constraint {} was labelled {:?} and says {:?}", c, s.label, c.label()));
    }
    for (what, a, n) in [("left", s.lhs, c.lhs()), ("right", s.rhs, c.rhs())].iter() {
        match a {
            Arg::R(i) => match (&b.nodes[*i], n) {
                (Node::ConstantScalar(p), Node::ConstantScalar(q)) if same_bits(p.value(), q.value()) => (),
                (p, q) if p == *q => (),
                _ => return Err(format!("the {} side of a constraint made with {} is {}", what, b.nodes[*i], n)),
            },
            Arg::N(x) => match n {
                Node::ConstantScalar(y) if same_bits(y.value(), *x) => (),
                _ => return Err(format!("the {} side of a constraint made with {:?} is {}", what, x, n)),
            },
        }
    }
    Ok(())
}

/// Does everything still say what it was made of?
fn as_given(spec: &MSpec, b: &Built, h: &Held) -> Result<(), String> {
    vars_as_given(spec, b)?;
    for (k, c) in b.cons.iter().enumerate() {
        con_as_given(spec, b, k, c)?;
    }
    let list = b.model.constraints();
    if list.len() != h.order.len() {
        return Err(format!("the model has {} constraints, {} were added", list.len(), h.order.len()));
    }
    for (c, k) in list.iter().zip(h.order.iter()) {
        if *c != b.cons[*k] {
            return Err(format!("the model lists {} where {} was added", c, b.cons[*k]));
        }
    }
    let ok = match (b.model.objective(), h.obj) {
        (Objective::Empty, None) => true,
        (Objective::Maximize(f), Some((true, i))) => *f == b.nodes[i],
        (Objective::Minimize(f), Some((false, i))) => *f == b.nodes[i],
        _ => false,
    };
    if !ok {
        return Err("the objective is not the one that was set".to_string());
    }
    let init = b.model.init_primals();
    if init.len() != h.init.len() {
        return Err(format!("{} initial values, {} were set", init.len(), h.init.len()));
    }
    for (i, v) in h.init.iter() {
        match init.get(&b.vars[*i]) {
            Some(w) if same_bits(*v, *w) => (),
            w => return Err(format!("the initial value of {:?} (number {}) was set to {:?} and is {:?}", spec.names[*i], i, v, w)),
        }
    }
    let a = assignment(&b.vars, &h.x);
    for (k, n) in b.nodes.iter().enumerate() {
        let v = n.evaluate(&a);
        if !same_bits(v, f64::from_bits(h.vals[k])) {
            return Err(format!("{} had the value {:?} at {:?} and now has {:?}", n, f64::from_bits(h.vals[k]), h.x, v));
        }
    }
    for (n, t) in [spec.prog.root()].iter().zip(h.texts.iter()) {
        let s = format!("{}", b.nodes[*n]);
        if s != *t {
            return Err(format!("{} now prints as {}", t, s));
        }
    }
    Ok(())
}

/// Replaces numbers in constraints by unusual ones. Returns those used.
fn odd_numbers(ctx: &mut Ctx, spec: &mut MSpec, undefined: bool) -> Vec<f64> {
    let mut out = Vec::new();
    if ctx.idx % 7 != 3 {
        return out;
    }
    let odd = [
        1e8, 99999999., 100000001., 2e8, 1e9, 1e10, 1e12, 1e15, 1e16, 9007199254740993., 1e20, 1e30, 1e100, 1e300, f64::MAX, 0., -0., 5e-324, 1e-300, 1e-16, 1e-12, 1e-9, 1e-6, 1.0000000001, 0.1, 1. / 3.,
    ];
    for c in spec.cons.iter_mut() {
        for a in [&mut c.lhs, &mut c.rhs].iter_mut() {
            if let Arg::N(v) = a {
                if ctx.rng.chance(0.7) {
                    *v = if undefined && ctx.rng.chance(0.1) {
                        *ctx.rng.pick(&[f64::NAN, f64::INFINITY, -f64::INFINITY])
                    } else {
                        *ctx.rng.pick(&odd) * *ctx.rng.pick(&[1., -1.])
                    };
                    out.push(*v);
                }
            }
        }
    }
    if !out.is_empty() {
        ctx.count("with_unusual_numbers");
    }
    out
}

pub fn c32(ctx: &mut Ctx) {
    let g = gen_any(ctx);
    let mut spec = g.spec;
    let hostile = ["", " ", "c", "C", "c_0", "\n", "é", "limit : 1", "0", "x"];
    for c in spec.cons.iter_mut() {
        if ctx.rng.chance(0.5) {
            c.label = ctx.rng.pick(&hostile).to_string();
        }
    }
    if ctx.idx % 11 == 5 {
        let long = "n".repeat(300);
        let odd = [
            "", " ", "x ", " x", "\tx", "x\n", "X", "x", "_s_a0_", "_s_j0_", "obj", "0", "-1", "1e5", "x+y", "x*y", "(x)", "a b", "é", "ÀÉ", "変数", "\u{1F600}", "x\0y", "\"", "\\", "{}", "%s", "nan", "inf", &long,
        ];
        for n in spec.names.iter_mut() {
            if ctx.rng.chance(0.8) {
                *n = ctx.rng.pick(&odd).to_string();
            }
        }
        ctx.count("with_unusual_names");
    }
    odd_numbers(ctx, &mut spec, true);
    ctx.desc = spec.show();
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(e) => return ctx.fail("build-panic", e),
    };
    if b.model.solver_status().is_some() || !b.model.final_primals().is_empty() || !b.model.final_duals().is_empty() || !b.model.init_primals().is_empty() {
        return ctx.fail("results-before-solve", "a model that was not solved has results or initial values".to_string());
    }
    let x = g.pts[0].clone();
    let mut h = Held {
        order: spec.order.clone(),
        obj: spec.obj,
        init: Vec::new(),
        vals: Vec::new(),
        texts: vec![format!("{}", b.nodes[spec.prog.root()])],
        x,
    };
    h.vals = {
        let a = assignment(&b.vars, &h.x);
        b.nodes.iter().map(|n| n.evaluate(&a).to_bits()).collect()
    };
    if let Err(e) = as_given(&spec, &b, &h) {
        return ctx.fail("not-as-given", e);
    }
    let steps = if spec.nv() > 10 { 2 } else { ctx.rng.us(2, 7) };
    let mut what = String::new();
    for _ in 0..steps {
        let k = ctx.rng.below(12);
        let name;
        let r = match k {
            0 => {
                name = "add";
                if b.cons.is_empty() {
                    continue;
                }
                let mut add: Vec<usize> = (0..ctx.rng.us(0, 4)).map(|_| ctx.rng.below(b.cons.len())).collect();
                if add.len() == 1 && ctx.rng.chance(0.5) {
                    b.model.add_constraint(&b.cons[add[0]].clone());
                } else {
                    let cs: Vec<&Constraint> = add.iter().map(|i| &b.cons[*i]).collect();
                    b.model.add_constraints(&cs);
                }
                h.order.append(&mut add);
                Ok(())
            }
            1 => {
                name = "objective";
                h.obj = match ctx.rng.below(3) {
                    0 => None,
                    m => Some((m == 1, ctx.rng.below(b.nodes.len()))),
                };
                b.model.set_objective(match h.obj {
                    None => Objective::empty(),
                    Some((true, i)) => Objective::maximize(&b.nodes[i]),
                    Some((false, i)) => Objective::minimize(&b.nodes[i]),
                });
                Ok(())
            }
            2 | 3 => {
                name = "initial values";
                h.init.clear();
                for i in 0..spec.nv() {
                    if ctx.rng.chance(0.5) {
                        let v = *ctx.rng.pick(&[0., -0., 1e8, 1e300, 5e-324, f64::INFINITY, f64::NAN, 0.3, -7.25]);
                        h.init.push((i, v));
                    }
                }
                let m: HashMap<&Node, f64> = h.init.iter().map(|(i, v)| (&b.vars[*i], *v)).collect();
                b.model.set_init_primals(&m);
                ctx.count("initial_values_set");
                Ok(())
            }
            4 => {
                name = "evaluate";
                let y: Vec<f64> = h.x.iter().map(|v| v + 1.).collect();
                guarded(|| {
                    let a = assignment(&b.vars, &y);
                    for n in b.nodes.iter() {
                        let _ = n.evaluate(&a);
                    }
                    for c in b.cons.iter() {
                        let _ = c.violation(&a);
                    }
                })
            }
            5 => {
                name = "differentiate";
                if spec.prog.paths().iter().max().cloned().unwrap_or(0) > 2000 {
                    continue;
                }
                guarded(|| {
                    let vars: Vec<&Node> = b.vars.iter().collect();
                    let _ = b.nodes[spec.prog.root()].derivatives(&vars);
                })
            }
            6 => {
                name = "print";
                guarded(|| {
                    let _ = format!("{}", b.model);
                    for c in b.cons.iter() {
                        let _ = format!("{} {:?}", c, c);
                    }
                })
            }
            7 => {
                name = "standard problem";
                guarded(|| {
                    let mut p = b.model.std_problem();
                    let (nx, _, _) = dims(&p.prob);
                    let _ = std_eval(&mut p.prob, &vec![0.5; nx]);
                })
            }
            8 => {
                name = "properties";
                guarded(|| {
                    for n in b.nodes.iter() {
                        let _ = n.std_properties();
                    }
                })
            }
            9 => {
                name = "clone and use";
                guarded(|| {
                    let cs: Vec<Constraint> = b.cons.iter().cloned().collect();
                    let ns: Vec<Node> = b.nodes.iter().cloned().collect();
                    for n in ns.iter() {
                        let _ = n + 1.;
                        let _ = 2. * n.clone();
                        let _ = -n;
                        let _ = n.sin();
                        let _ = n.equal_and_tag(n, "other");
                    }
                    for (k, c) in cs.iter().enumerate() {
                        let _ = con_as_given(&spec, &b, k, c);
                    }
                })
            }
            _ => {
                let fail = ctx.rng.chance(0.4);
                name = if fail { "failing solve" } else { "solve" };
                let status = ctx.rng.below(4);
                let m = &mut b.model;
                let r = guarded(|| {
                    let stub = Stub::new(Box::new(move |p| {
                        if fail {
                            return Err(SimpleError::new("no"));
                        }
                        let (nx, na, nf) = dims(p);
                        let _ = std_eval(p, &vec![0.25; nx]);
                        let mut s = ProblemSol::new(nx, na, nf);
                        s.x = (0..nx).map(|i| 3. + i as f64).collect();
                        Ok((
                            match status {
                                0 => SolverStatus::Error,
                                1 => SolverStatus::Infeasible,
                                2 => SolverStatus::Unknown,
                                _ => SolverStatus::Solved,
                            },
                            s,
                        ))
                    }));
                    m.solve(&stub).is_ok()
                });
                ctx.count("solves");
                r.map(|_| ())
            }
        };
        what.push_str(name);
        what.push_str("; ");
        if let Err(e) = r {
            return ctx.fail("panic", format!("after {}: {}", what, e));
        }
        ctx.count("compared_after_use");
        if let Err(e) = as_given(&spec, &b, &h) {
            return ctx.fail("not-as-given", format!("after {}: {}", what, e));
        }
    }
    ctx.add("constraints", b.cons.len() as u64);
    ctx.seen(crate::rng::hash_str(&format!("{:x} {}", spec.shape(), what)));
    let d = format!("{} | {}", what, ctx.desc);
    ctx.sample(d);
}

// ---------------------------------------------------------------- C33

/// Values of the derivative entries of an expression at a point, by variable (by pair).
fn check_entries(
    spec: &MSpec,
    what: &str,
    want: &Jet,
    ix: &HashMap<Node, usize>,
    slack: Option<(&Node, f64)>,
    g: &[(&Node, f64)],
    h: &[(&Node, &Node, f64)],
    n: &mut u64,
) -> Result<(), String> {
    let nv = spec.nv();
    let mut gv = vec![0.; nv];
    let mut gs = 0.;
    let mut seen: Vec<Node> = Vec::new();
    for (v, d) in g.iter() {
        if seen.contains(v) {
            return Err(format!("{}: two gradient entries for {}", what, v));
        }
        seen.push((*v).clone());
        match (ix.get(v), slack) {
            (Some(i), _) => gv[*i] += d,
            (None, Some((s, _))) if s == *v => gs += d,
            _ => return Err(format!("{}: gradient entry for {} that is not in it", what, v)),
        }
    }
    if let Some((_, c)) = slack {
        if gs != c {
            return Err(format!("{}: derivative {:?} for the new variable", what, gs));
        }
    }
    for i in 0..nv {
        let w = want.g[i];
        if w.ok() {
            *n += 1;
            if !((gv[i] - w.v).abs() <= 16. * w.tol() + 1e-250) {
                return Err(format!("{}: derivative with respect to {:?} (number {}) is {:?}, expected {:?}", what, spec.names[i], i, gv[i], w.v));
            }
        }
    }
    let mut hv: HashMap<(usize, usize), f64> = HashMap::new();
    for (a, b, d) in h.iter() {
        match (ix.get(a), ix.get(b)) {
            (Some(i), Some(j)) => {
                if hv.insert((*i.max(j), *i.min(j)), *d).is_some() {
                    return Err(format!("{}: two Hessian entries for {} and {}", what, a, b));
                }
            }
            _ if *d == 0. => (),
            _ => return Err(format!("{}: Hessian entry for {} and {}", what, a, b)),
        }
    }
    // A model with many variables is linear
    let second = if want.h.is_empty() { 0 } else { nv };
    for i in 0..second {
        for j in 0..=i {
            let w = want.hess(i, j);
            let got = hv.get(&(i, j)).cloned().unwrap_or(0.);
            if w.ok() {
                *n += 1;
                if !((got - w.v).abs() <= 16. * w.tol() + 1e-250) {
                    return Err(format!("{}: second derivative for ({}, {}) is {:?}, expected {:?}", what, i, j, got, w.v));
                }
            }
        }
    }
    Ok(())
}

/// Far points are for linear rows only: elsewhere, the derivatives are ill conditioned there.
fn far(x: &[f64]) -> bool {
    x.iter().any(|v| !(v.abs() < 1e3) || (*v != 0. && v.abs() < 1e-3))
}

fn check_constraint(ctx: &mut Ctx, spec: &MSpec, b: &Built, k: usize, comp: &ConstraintStdComp, a0: usize, j0: usize, a1: usize, j1: usize, pts: &[(Vec<f64>, Vec<Jet>)]) -> Result<(), String> {
    let con = &b.cons[k];
    if a1 < a0 || j1 < j0 {
        return Err(format!("the row counters went from ({}, {}) to ({}, {})", a0, j0, a1, j1));
    }
    let (na, nj) = (a1 - a0, j1 - j0);
    if comp.ca.len() != na || comp.b.len() != na || comp.cj.len() != nj || comp.f.len() != nj || comp.h.len() != nj {
        return Err(format!("{} linear and {} nonlinear rows were counted, there are {} owners and {} right-hand sides, {} owners, {} functions and {} Hessians", na, nj, comp.ca.len(), comp.b.len(), comp.cj.len(), comp.f.len(), comp.h.len()));
    }
    if comp.prop.len() != 1 {
        return Err(format!("{} sets of properties", comp.prop.len()));
    }
    if comp.ca.iter().chain(comp.cj.iter()).chain(comp.u.iter().map(|(_, _, c)| c)).chain(comp.l.iter().map(|(_, _, c)| c)).any(|c| c != con) {
        return Err("a row or limit has another constraint as its owner".to_string());
    }
    if comp.a.iter().any(|(r, _, _)| *r < a0 || *r >= a1) || comp.j.iter().any(|(r, _, _)| *r < j0 || *r >= j1) {
        return Err(format!("an entry is outside of the rows {}..{} (linear) and {}..{} (nonlinear)", a0, a1, j0, j1));
    }
    let ix = b.index();
    // New variables
    let mut new: Vec<Node> = Vec::new();
    {
        let all = comp.a.iter().map(|(_, v, _)| v).chain(comp.j.iter().map(|(_, v, _)| v)).chain(comp.u.iter().map(|(v, _, _)| v)).chain(comp.l.iter().map(|(v, _, _)| v));
        for v in all {
            if !ix.contains_key(v) && !new.contains(v) {
                new.push(v.clone());
            }
            if !comp.prop[0].a.contains_key(v) {
                return Err(format!("{} is not among the variables of the properties", v));
            }
        }
    }
    if new.len() > 1 {
        return Err(format!("{} new variables", new.len()));
    }
    if let Some(Node::VariableScalar(s)) = new.get(0) {
        if s.is_integer() {
            return Err("the new variable is an integer".to_string());
        }
    }
    ctx.count(&format!("parts_{}{}{}{}", if na > 0 { "A" } else { "" }, if nj > 0 { "F" } else { "" }, if comp.u.is_empty() && comp.l.is_empty() { "" } else { "L" }, if new.is_empty() { "" } else { "S" }));
    for (x, jets) in pts.iter() {
        let d = spec.diff(k, jets, spec.nv(), if spec.nv() > 10 { 1 } else { 2 });
        if !d.v.ok() || x.iter().any(|v| !v.is_finite()) || (nj > 0 && (d.v.v.abs() > 1e7 || far(x))) || d.v.tol() > 1e-6 * (1. + d.v.v.abs()) {
            ctx.count("points_skipped");
            continue;
        }
        let at = |s: f64| -> (Vec<f64>, f64) {
            let mut vals = assignment(&b.vars, x);
            for n in new.iter() {
                vals.insert(n, s);
            }
            let mut scale: f64 = d.v.v.abs();
            let mut r = vec![0.; na + nj];
            for (i, v, c) in comp.a.iter() {
                let t = c * vals[v];
                r[*i - a0] += t;
                scale = scale.max(t.abs());
            }
            for (i, v) in comp.b.iter().enumerate() {
                r[i] -= v;
                scale = scale.max(v.abs());
            }
            for (i, f) in comp.f.iter().enumerate() {
                r[na + i] = f.evaluate(&vals);
            }
            (r, scale)
        };
        let (r0, scale) = at(0.);
        let (r1, _) = at(1.);
        let eps = 1e-13 * (1. + scale) + 16. * d.v.tol();
        let mut s = 0.;
        if !new.is_empty() {
            // Coefficient in a linear row, slope of a nonlinear one
            let linear = comp.a.iter().filter(|(_, v, _)| *v == new[0]).map(|(r, _, c)| (*r - a0, *c)).next();
            let slope = (na..r0.len()).map(|i| (i, r1[i] - r0[i])).find(|(_, k)| k.abs() > 1e-3);
            match linear.or(slope) {
                Some((_, k)) if k == 0. || !k.is_finite() => return Err(format!("coefficient {:?} of the new variable", k)),
                Some((i, k)) => s = -r0[i] / k,
                None => return Err("no row depends on the new variable".to_string()),
            }
        }
        let (rs, _) = at(s);
        let mut v: f64 = rs.iter().fold(0., |m, r| if r.is_nan() { f64::INFINITY } else { m.max(r.abs()) });
        let mut vals = assignment(&b.vars, x);
        for n in new.iter() {
            vals.insert(n, s);
        }
        for (n, lim, _) in comp.u.iter() {
            v = v.max(vals[n] - lim);
        }
        for (n, lim, _) in comp.l.iter() {
            v = v.max(lim - vals[n]);
        }
        let viol = spec.viol(k, d.v.v);
        if viol <= eps {
            ctx.count("points_satisfying");
            if !(v <= 100. * eps) {
                return Err(format!("{:?} satisfies it (violation {:e}), but violates its components by {:e}", x, viol, v));
            }
        } else if viol > 1e4 * eps {
            ctx.count("points_violating");
            if !(v > 100. * eps) {
                return Err(format!("{:?} violates it by {:e}, but satisfies its components (violation {:e})", x, viol, v));
            }
        } else {
            ctx.count("points_skipped");
        }
        // Nonlinear rows
        for r in 0..nj {
            let g: Vec<(&Node, f64)> = comp.j.iter().filter(|(i, _, _)| *i == j0 + r).map(|(_, v, e)| (v, e.evaluate(&vals))).collect();
            let h: Vec<(&Node, &Node, f64)> = comp.h[r].iter().map(|(p, q, e)| (p, q, e.evaluate(&vals))).collect();
            let sl = new.get(0).map(|s| (s, r1[na + r] - r0[na + r])).map(|(s, c)| (s, c.round()));
            let mut n = 0;
            check_entries(spec, &format!("row {} at {:?}", r, x), &d, &ix, sl, &g, &h, &mut n)?;
            ctx.add("derivatives_compared", n);
        }
        // Properties
        let p = &comp.prop[0];
        for i in 0..spec.nv() {
            if d.g[i].ok() && d.g[i].nonzero() && !p.a.contains_key(&b.vars[i]) {
                return Err(format!("{:?} (number {}) is not among the variables of the properties", spec.names[i], i));
            }
        }
    }
    Ok(())
}

fn size_of(c: &ConstraintStdComp) -> [usize; 10] {
    [c.ca.len(), c.cj.len(), c.a.len(), c.b.len(), c.f.len(), c.j.len(), c.h.len(), c.u.len(), c.l.len(), c.prop.len()]
}

/// Takes the parts of the next constraint off the components of a model.
struct Parts<'a> {
    of: &'a ConstraintStdComp,
    at: [usize; 10],
}

impl<'a> Parts<'a> {
    fn take(&mut self, n: &[usize; 10]) -> Option<ConstraintStdComp> {
        let have = size_of(self.of);
        let at = self.at;
        if at.iter().zip(n.iter()).zip(have.iter()).any(|((a, n), h)| a + n > *h) {
            return None;
        }
        let o = self.of;
        let mut c = ConstraintStdComp::new();
        c.ca.extend(o.ca[at[0]..at[0] + n[0]].iter().cloned());
        c.cj.extend(o.cj[at[1]..at[1] + n[1]].iter().cloned());
        c.a.extend(o.a[at[2]..at[2] + n[2]].iter().cloned());
        c.b.extend(o.b[at[3]..at[3] + n[3]].iter().cloned());
        c.f.extend(o.f[at[4]..at[4] + n[4]].iter().cloned());
        c.j.extend(o.j[at[5]..at[5] + n[5]].iter().cloned());
        c.h.extend(o.h[at[6]..at[6] + n[6]].iter().cloned());
        c.u.extend(o.u[at[7]..at[7] + n[7]].iter().cloned());
        c.l.extend(o.l[at[8]..at[8] + n[8]].iter().cloned());
        for p in o.prop[at[9]..at[9] + n[9]].iter() {
            c.prop.push(NodeStdProp { affine: p.affine, a: p.a.clone(), b: p.b });
        }
        for (a, n) in self.at.iter_mut().zip(n.iter()) {
            *a += n;
        }
        Some(c)
    }
}

pub fn c33(ctx: &mut Ctx) {
    let g = gen_any(ctx);
    let mut spec = g.spec;
    let odd = odd_numbers(ctx, &mut spec, false);
    ctx.desc = spec.show();
    let b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(e) => return ctx.fail("build-panic", e),
    };
    let nv = spec.nv();
    let wide = nv > 10;
    // Points
    let mut pts: Vec<Vec<f64>> = g.pts.iter().take(2).cloned().collect();
    for _ in 0..if wide { 1 } else { 4 } {
        let mut x = g.pts[0].clone();
        for v in x.iter_mut() {
            if ctx.rng.chance(0.5) {
                *v += match ctx.rng.below(4) {
                    3 => *ctx.rng.pick(&[-1., -1., -0.999999, 99.]) * *v,
                    0 => ctx.rng.dyadic(4),
                    1 => ctx.rng.uniform(-2., 2.),
                    _ => 0.01 * ctx.rng.uniform(-1., 1.),
                };
            }
        }
        pts.push(x);
    }
    if !wide {
        for v in odd.iter().take(4) {
            for f in [0.5, 1., 1.00001, 2.].iter() {
                let mut x = g.pts[0].clone();
                for y in x.iter_mut() {
                    if ctx.rng.chance(0.5) {
                        *y = v * f;
                    }
                }
                pts.push(x);
            }
        }
    }
    let pts: Vec<(Vec<f64>, Vec<Jet>)> = pts
        .into_iter()
        .map(|x| {
            let j = spec.prog.jets(&x, if wide { 1 } else { 2 });
            (x, j)
        })
        .collect();
    // Single constraints, numbered from anywhere
    let some: Vec<usize> = (0..b.cons.len()).filter(|_| !wide || ctx.rng.chance(0.1)).collect();
    for k in some {
        let (a0, j0) = match ctx.rng.below(4) {
            0 => (0, 0),
            1 => (ctx.rng.below(10), ctx.rng.below(10)),
            2 => (ctx.rng.below(100000), ctx.rng.below(100000)),
            _ => (0, 70000),
        };
        let (mut a1, mut j1) = (a0, j0);
        let c = match guarded(|| b.cons[k].std_components(&mut a1, &mut j1)) {
            Ok(c) => c,
            Err(e) => return ctx.fail("panic", format!("components of {}: {}", b.cons[k], e)),
        };
        ctx.count("constraints");
        if let Err(e) = check_constraint(ctx, &spec, &b, k, &c, a0, j0, a1, j1, &pts) {
            return ctx.fail("components", format!("{} from rows ({}, {}): {}", b.cons[k], a0, j0, e));
        }
    }
    // Added up, and those of the model
    let (mut arow, mut jrow) = (0, 0);
    let mut sum = ConstraintStdComp::new();
    if size_of(&sum) != [0; 10] {
        return ctx.fail("components", "new components are not empty".to_string());
    }
    let mut sizes = [0; 10];
    let mut each: Vec<(usize, [usize; 10], usize, usize)> = Vec::new();
    for c in b.model.constraints().iter() {
        let (a0, j0) = (arow, jrow);
        let p = c.std_components(&mut arow, &mut jrow);
        match b.cons.iter().position(|o| o == c) {
            Some(k) => each.push((k, size_of(&p), a0, j0)),
            None => return ctx.fail("model", format!("the model has a constraint that it was not given: {}", c)),
        }
        for (t, n) in sizes.iter_mut().zip(size_of(&p).iter()) {
            *t += n;
        }
        sum += p;
        if size_of(&sum) != sizes {
            return ctx.fail("sum", format!("after adding {}: sizes {:?}, expected {:?}", c, size_of(&sum), sizes));
        }
    }
    if sum.b.len() != arow || sum.f.len() != jrow {
        return ctx.fail("sum", format!("{} and {} rows, counted {} and {}", sum.b.len(), sum.f.len(), arow, jrow));
    }
    let m = match guarded(|| b.model.std_components()) {
        Ok(m) => m,
        Err(e) => return ctx.fail("panic", format!("components of the model: {}", e)),
    };
    if size_of(&m.constr) != sizes {
        return ctx.fail("model", format!("sizes {:?} of the components of the model, adding those of its constraints gives {:?}", size_of(&m.constr), sizes));
    }
    let (mut ps, mut pm) = (Parts { of: &sum, at: [0; 10] }, Parts { of: &m.constr, at: [0; 10] });
    for (k, n, a0, j0) in each.iter() {
        let all = !wide || ctx.rng.chance(0.1);
        for (what, p) in [("the sum", &mut ps), ("the model", &mut pm)].iter_mut() {
            let c = match p.take(n) {
                Some(c) => c,
                None => return ctx.fail("model", format!("{} has too few parts for {}", what, b.cons[*k])),
            };
            if !all {
                continue;
            }
            if let Err(e) = check_constraint(ctx, &spec, &b, *k, &c, *a0, *j0, *a0 + n[0], *j0 + n[1], &pts[..1]) {
                return ctx.fail("model", format!("{} in {}, rows ({}, {}): {}", b.cons[*k], what, a0, j0, e));
            }
        }
    }
    // Objective
    if !wide {
        for (x, jets) in pts.iter().filter(|(x, _)| !far(x)) {
            let o = match spec.obj {
                None => constant_jet(Num::zero(), nv, 2),
                Some((max, i)) => {
                    let j = jets[i].clone();
                    if max {
                        chain(j.v.neg(), &[&j], &[Num::c(-1.)], &[], nv, 2)
                    } else {
                        j
                    }
                }
            };
            if !o.v.ok() {
                continue;
            }
            if let Err(e) = objective(&spec, &b, &m.obj, &o, x) {
                return ctx.fail("objective", e);
            }
            ctx.count("objectives_compared");
        }
    }
    ctx.count("models");
    if !spec.order.is_empty() {
        ctx.seen(spec.shape());
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

fn objective(spec: &MSpec, b: &Built, c: &NodeStdComp, want: &Jet, x: &[f64]) -> Result<(), String> {
    let vals = assignment(&b.vars, x);
    let v = c.phi.evaluate(&vals);
    if !((v - want.v.v).abs() <= 16. * want.v.tol() + 1e-250) {
        return Err(format!("value {:?} at {:?}, expected {:?}", v, x, want.v.v));
    }
    let g: Vec<(&Node, f64)> = c.gphi.iter().map(|(v, e)| (v, e.evaluate(&vals))).collect();
    let h: Vec<(&Node, &Node, f64)> = c.hphi.iter().map(|(p, q, e)| (p, q, e.evaluate(&vals))).collect();
    let mut n = 0;
    check_entries(spec, &format!("objective at {:?}", x), want, &b.index(), None, &g, &h, &mut n)?;
    for i in 0..spec.nv() {
        if want.g[i].ok() && want.g[i].nonzero() && !c.prop.a.contains_key(&b.vars[i]) {
            return Err(format!("{:?} is not among the variables of the properties", spec.names[i]));
        }
    }
    Ok(())
}
