//! C16, C17, C18: what the real solvers' results say about the model.

use numopt::model::*;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd, SolverIpopt};
use std::collections::HashMap;

use crate::core::{guarded, Ctx};
use crate::expr::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::sys::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Which {
    Clp,
    Cbc,
    Ipopt,
}

pub fn solver(w: Which) -> Box<dyn Solver> {
    let mut s: Box<dyn Solver> = match w {
        Which::Clp => Box::new(SolverClpCmd::new()),
        Which::Cbc => Box::new(SolverCbcCmd::new()),
        Which::Ipopt => Box::new(SolverIpopt::new()),
    };
    match w {
        Which::Ipopt => {
            s.set_param("print_level", SolverParam::IntParam(0)).unwrap();
            s.set_param("sb", SolverParam::StrParam("yes".to_string())).unwrap();
        }
        _ => s.set_param("logLevel", SolverParam::IntParam(0)).unwrap(),
    }
    s
}

/// A linear (integer) program as numbers.
#[derive(Clone, Debug, Default)]
pub struct Lin {
    pub max: bool,
    pub c: Vec<f64>,
    pub rows: Vec<(Vec<f64>, Kind, f64)>,
    pub ints: Vec<bool>,
    /// Equations may be repeated (simplex)
    pub dup_eq: bool,
}

impl Lin {
    pub fn value(&self, x: &[f64]) -> f64 {
        dot(&self.c, x)
    }
    /// Largest violation
    pub fn viol(&self, x: &[f64]) -> f64 {
        self.rows
            .iter()
            .map(|(a, k, b)| {
                let d = dot(a, x) - b;
                match k {
                    Kind::Eq => d.abs(),
                    Kind::Le => d,
                    Kind::Ge => -d,
                }
            })
            .fold(0., f64::max)
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b.iter()).map(|(x, y)| x * y).sum()
}

fn terms_of(rng: &mut Rng, a: &[f64]) -> Vec<(usize, f64)> {
    let mut t: Vec<(usize, f64)> = a.iter().cloned().enumerate().filter(|(_, c)| *c != 0.).collect();
    if rng.chance(0.3) {
        rng.shuffle(&mut t);
    }
    if !t.is_empty() && rng.chance(0.1) {
        // a term in two parts
        let k = rng.below(t.len());
        let (v, c) = t[k];
        t[k] = (v, c - 1.);
        t.push((v, 1.));
        t.retain(|(_, c)| *c != 0.);
    }
    t
}

/// A constraint a'x (kind) b written in one of many ways.
pub fn write_row(rng: &mut Rng, prog: &mut Prog, a: &[f64], kind: Kind, b: f64, label: &str) -> ConSpec {
    let mut t = terms_of(rng, a);
    let form = rng.next() as u8;
    let label = label.to_string();
    let single = t.len() == 1;
    match rng.below(if single { 5 } else { 8 }) {
        0 => {
            // number on the left
            let e = push_affine(rng, prog, &t, 0.);
            ConSpec { lhs: Arg::N(b), rhs: Arg::R(e), kind: crate::p_map::mirror(kind), label, form }
        }
        1 => {
            // constants on both sides
            let k = rng.range(-5, 5) as f64;
            let e = push_affine(rng, prog, &t, k);
            ConSpec { lhs: Arg::R(e), rhs: Arg::N(b + k), kind, label, form }
        }
        5 => {
            // terms on both sides
            let m = rng.us(1, t.len().max(2) - 1).min(t.len());
            let r: Vec<(usize, f64)> = t.split_off(m).into_iter().map(|(v, c)| (v, -c)).collect();
            let e = push_affine(rng, prog, &t, 0.);
            let f = push_affine(rng, prog, &r, b);
            ConSpec { lhs: Arg::R(e), rhs: Arg::R(f), kind, label, form }
        }
        6 => {
            // everything on the right
            let r: Vec<(usize, f64)> = t.iter().map(|(v, c)| (*v, -c)).collect();
            let f = push_affine(rng, prog, &r, b);
            ConSpec { lhs: Arg::N(0.), rhs: Arg::R(f), kind, label, form }
        }
        _ => {
            let e = push_affine(rng, prog, &t, 0.);
            ConSpec { lhs: Arg::R(e), rhs: Arg::N(b), kind, label, form }
        }
    }
}

pub fn lin_spec(rng: &mut Rng, l: &Lin, with_obj: bool) -> MSpec {
    let nv = l.c.len();
    let mut prog = Prog::new();
    let mut vs: Vec<usize> = (0..nv).collect();
    rng.shuffle(&mut vs);
    for v in vs {
        prog.push(Op::Var(v));
    }
    let mut cons = Vec::new();
    for (i, (a, k, b)) in l.rows.iter().enumerate() {
        cons.push(write_row(rng, &mut prog, a, *k, *b, &format!("r{}", i)));
    }
    let obj = if with_obj {
        let t = terms_of(rng, &l.c);
        let k = if rng.chance(0.3) { rng.range(-20, 20) as f64 } else { 0. };
        Some((l.max, push_affine(rng, &mut prog, &t, k)))
    } else {
        None
    };
    let mut order: Vec<usize> = (0..cons.len()).collect();
    if rng.chance(0.7) {
        rng.shuffle(&mut order);
    }
    if !order.is_empty() && rng.chance(0.1) {
        let k = *rng.pick(&order);
        if l.rows[k].1 != Kind::Eq || l.dup_eq {
            order.push(k); // added twice
        }
    }
    MSpec { prog, names: (0..nv).map(|i| format!("v{}", i)).collect(), ints: l.ints.clone(), obj, cons, order }
}

fn half(rng: &mut Rng, n: i64) -> f64 {
    let k = rng.range(1, 2 * n) as f64 / 2.;
    if rng.chance(0.5) {
        k
    } else {
        -k
    }
}

fn rank(mut m: Vec<Vec<f64>>) -> usize {
    let mut r = 0;
    if m.is_empty() {
        return 0;
    }
    for j in 0..m[0].len() {
        let p = match (r..m.len()).max_by(|a, b| m[*a][j].abs().partial_cmp(&m[*b][j].abs()).unwrap()) {
            Some(p) if m[p][j].abs() > 1e-6 => p,
            _ => continue,
        };
        m.swap(p, r);
        for i in r + 1..m.len() {
            let f = m[i][j] / m[r][j];
            for k in j..m[i].len() {
                m[i][k] -= f * m[r][k];
            }
        }
        r += 1;
        if r == m.len() {
            break;
        }
    }
    r
}

/// A feasible linear program around a point; boxed, or bounded by construction of its duals.
/// strict: the point is strictly inside and equations are independent (interior-point methods).
pub fn gen_lin(rng: &mut Rng, strict: bool) -> (Lin, Vec<f64>) {
    gen_lin_of(rng, strict, false)
}

/// As before, or large enough for many iterations.
pub fn gen_lin_of(rng: &mut Rng, strict: bool, long: bool) -> (Lin, Vec<f64>) {
    let wide = long || rng.chance(0.1);
    let nv = if long {
        rng.us(50, 80)
    } else if wide {
        rng.us(7, 24)
    } else {
        rng.us(1, 6)
    };
    let boxed = strict || rng.chance(0.5);
    // coefficients that need digits
    let fine = rng.chance(0.2);
    let x: Vec<f64> = (0..nv).map(|_| rng.range(-20, 20) as f64 / 2.).collect();
    let mut l = Lin { max: rng.chance(0.4), c: vec![0.; nv], rows: vec![], ints: vec![false; nv], dup_eq: !strict };
    let gap = |rng: &mut Rng| if strict || rng.chance(0.6) { rng.range(1, 12) as f64 / 2. } else { 0. };
    for j in 0..nv {
        let mut a = vec![0.; nv];
        a[j] = 1.;
        // limits by themselves or scaled
        for (kind, p) in [(Kind::Le, 0.5), (Kind::Ge, 0.5)] {
            if boxed || rng.chance(p) {
                let g = gap(rng);
                let s = if rng.chance(0.75) { 1. } else { half(rng, 3) };
                let k = if s < 0. { crate::p_map::mirror(kind) } else { kind };
                let b = if kind == Kind::Le { x[j] + g } else { x[j] - g };
                l.rows.push((a.iter().map(|v| v * s).collect(), k, b * s));
                if rng.chance(0.15) {
                    // another limit of the same kind
                    let extra = rng.range(1, 4) as f64 / 2.;
                    let b = if kind == Kind::Le { b + extra } else { b - extra };
                    l.rows.push((a.clone(), kind, b));
                }
            }
        }
    }
    let mut eqs: Vec<Vec<f64>> = Vec::new();
    let nr = if long { rng.us(40, 70) } else { rng.below(if wide { 20 } else { 6 }) };
    for _ in 0..nr {
        let mut a = vec![0.; nv];
        let dense = if wide { *rng.pick(&[0.15, 0.3, 0.9]) } else { 0.6 };
        for v in a.iter_mut() {
            if rng.chance(dense) {
                *v = half(rng, 4);
                if fine {
                    *v += rng.range(-499, 499) as f64 / 1e3;
                    if v.abs() < 0.1 {
                        *v = 0.5;
                    }
                }
            }
        }
        if a.iter().all(|v| *v == 0.) {
            continue;
        }
        let kind = *rng.pick(&[Kind::Eq, Kind::Le, Kind::Ge, Kind::Le, Kind::Ge]);
        let val = dot(&a, &x);
        let b = match kind {
            Kind::Eq => {
                let mut e = eqs.clone();
                e.push(a.clone());
                if e.len() >= nv || rank(e.clone()) < e.len() {
                    continue;
                }
                eqs = e;
                val
            }
            Kind::Le => val + gap(rng),
            Kind::Ge => val - gap(rng),
        };
        l.rows.push((a, kind, b));
    }
    if boxed {
        for j in 0..nv {
            if rng.chance(0.85) {
                l.c[j] = half(rng, 5);
                if rng.chance(0.15) {
                    l.c[j] *= *rng.pick(&[1. / 16., 1. / 256., 1e-3, 2e-4, 64.]);
                }
            }
        }
        if l.c.iter().all(|c| *c == 0.) {
            l.c[0] = 1.5;
        }
    } else {
        // a combination of the gradients of constraints that are active at the point
        for (a, k, b) in l.rows.iter() {
            if (dot(a, &x) - b).abs() < 1e-9 && rng.chance(0.8) {
                let y = rng.range(1, 8) as f64 / 4.;
                let y = match k {
                    Kind::Eq if rng.chance(0.5) => y,
                    Kind::Eq => -y,
                    Kind::Le => -y,
                    Kind::Ge => y,
                };
                for j in 0..nv {
                    l.c[j] += y * a[j];
                }
            }
        }
        if l.max {
            for c in l.c.iter_mut() {
                *c = -*c;
            }
        }
    }
    (l, x)
}

/// Makes a program contradictory.
pub fn contradict(rng: &mut Rng, l: &mut Lin) {
    let nv = l.c.len();
    let mut a = vec![0.; nv];
    let mut b = 0.;
    let n = rng.us(1, 3.min(l.rows.len()));
    for _ in 0..n {
        let (r, k, v) = rng.pick(&l.rows).clone();
        let y = rng.range(1, 4) as f64 / 2.;
        let s = match k {
            Kind::Le => y,
            Kind::Ge => -y,
            Kind::Eq if rng.chance(0.5) => y,
            Kind::Eq => -y,
        };
        for j in 0..nv {
            a[j] += s * r[j];
        }
        b += s * v;
    }
    // a'x <= b follows
    let g = rng.range(2, 12) as f64 / 2.;
    if rng.chance(0.3) {
        l.rows.push((a.iter().map(|v| -v).collect(), Kind::Le, -b - g));
    } else if rng.chance(0.3) {
        l.rows.push((a, Kind::Eq, b + g));
    } else {
        l.rows.push((a, Kind::Ge, b + g));
    }
    let k = l.rows.len() - 1;
    let j = rng.below(l.rows.len());
    l.rows.swap(k, j);
}

pub struct Outcome {
    pub status: String,
    pub x: Vec<f64>,
    /// Duals of the distinct constraints
    pub y: Vec<f64>,
}

/// Results of the model after a solve.
pub fn outcome(b: &Built) -> Result<Outcome, String> {
    let status = match b.model.solver_status() {
        Some(s) => format!("{}", s),
        None => return Err("no status after a solve".to_string()),
    };
    let p = b.model.final_primals();
    let d = b.model.final_duals();
    Ok(Outcome {
        status,
        x: b.vars.iter().map(|v| p.get(v).cloned().unwrap_or(f64::NAN)).collect(),
        y: b.cons.iter().map(|c| d.get(c).cloned().unwrap_or(0.)).collect(),
    })
}

pub struct Kkt {
    pub worst: f64,
}

/// Checks feasibility, signs, complementarity and stationarity.
pub fn kkt(spec: &MSpec, o: &Outcome, tol: f64) -> Result<Kkt, (&'static str, String)> {
    let nv = spec.nv();
    if let Some(j) = (0..nv).find(|j| !o.x[*j].is_finite()) {
        return Err(("no-value", format!("variable {} has value {:?}", spec.names[j], o.x[j])));
    }
    let jets = spec.prog.jets(&o.x, 1);
    let xs = 1. + o.x.iter().fold(0f64, |a, b| a.max(b.abs()));
    let ys = 1. + o.y.iter().fold(0f64, |a, b| a.max(b.abs()));
    let mut worst = 0f64;
    let mut used: Vec<usize> = spec.order.clone();
    used.sort();
    used.dedup();
    let (sign, grad): (f64, Vec<f64>) = match spec.obj {
        None => (1., vec![0.; nv]),
        Some((max, i)) => (if max { -1. } else { 1. }, jets[i].g.iter().map(|g| g.v).collect()),
    };
    let mut res: Vec<f64> = grad.iter().map(|g| sign * g).collect();
    let mut mag: Vec<f64> = res.iter().map(|g| 1. + g.abs()).collect();
    for k in used {
        let g = spec.diff(k, &jets, nv, 1);
        let y = o.y[k];
        let gs = 1. + g.g.iter().fold(0f64, |a, b| a.max(b.v.abs()));
        let v = spec.viol(k, g.v.v);
        worst = worst.max(v / (xs * gs));
        if !(v <= tol * xs * gs) {
            return Err(("infeasible", format!("constraint {} is violated by {:e}", k, v)));
        }
        let s = match spec.cons[k].kind {
            Kind::Eq => -1.,
            Kind::Le => 1.,
            Kind::Ge => -1.,
        };
        if spec.cons[k].kind != Kind::Eq {
            if !(y >= -tol * ys) {
                return Err(("sign", format!("dual {:?} of constraint {}", y, k)));
            }
            if y.abs().min(g.v.v.abs() / (gs * xs)) > tol.sqrt() * 0.3 {
                return Err(("complementarity", format!("constraint {} is inactive ({:?}) with dual {:?}", k, g.v.v, y)));
            }
        }
        for j in 0..nv {
            res[j] += s * y * g.g[j].v;
            mag[j] += (y * g.g[j].v).abs();
        }
    }
    for j in 0..nv {
        worst = worst.max(res[j].abs() / mag[j]);
        if !(res[j].abs() <= tol * mag[j].max(ys)) {
            return Err(("stationarity", format!("gradients and duals leave {:e} (of terms up to {:e}) in the direction of {}", res[j], mag[j], spec.names[j])));
        }
    }
    Ok(Kkt { worst })
}

pub fn show_outcome(o: &Outcome) -> String {
    format!("status {}, values {:?}, duals {:?}", o.status, o.x, o.y)
}

/// Builds and solves; None if it failed (reported).
fn solve(ctx: &mut Ctx, spec: &MSpec, w: Which, x0: Option<&[f64]>) -> Option<(Built, Outcome)> {
    let r = guarded(|| {
        let mut b = spec.build();
        if let Some(x0) = x0 {
            let m: HashMap<&Node, f64> = b.vars.iter().zip(x0.iter().cloned()).collect();
            b.model.set_init_primals(&m);
        }
        let s = solver(w);
        let r = b.model.solve(s.as_ref()).map_err(|e| format!("{}", e));
        (b, r)
    });
    ctx.count("solves");
    match r {
        Err(e) => {
            ctx.fail("panic", e);
            None
        }
        Ok((_, Err(e))) => {
            ctx.fail("error", format!("solve failed: {}", e));
            None
        }
        Ok((b, Ok(()))) => match outcome(&b) {
            Ok(o) => {
                ctx.count(&format!("{}_{}", format!("{:?}", w).to_lowercase(), o.status));
                Some((b, o))
            }
            Err(e) => {
                ctx.fail("no-status", e);
                None
            }
        },
    }
}

/// Ipopt looks only for a feasible point if there are as many equations as columns, also if
/// they depend on each other (a known finding).
fn square(ctx: &mut Ctx) {
    let l = Lin {
        max: false,
        c: vec![1., 0.],
        rows: vec![
            (vec![1., 1.], Kind::Eq, 1.),
            (vec![1., 0.], Kind::Ge, -5.),
            (vec![1., 0.], Kind::Le, 5.),
            (vec![0., 1.], Kind::Le, 5.),
        ],
        ints: vec![false; 2],
        dup_eq: true,
    };
    let mut prog = Prog::new();
    let (x, y) = (prog.push(Op::Var(0)), prog.push(Op::Var(1)));
    let s = bin(&mut prog, Bop::Add, Arg::R(x), Arg::R(y));
    let con = |e, kind, b: f64| ConSpec { lhs: Arg::R(e), rhs: Arg::N(b), kind, label: String::new(), form: 0 };
    let cons = vec![con(s, Kind::Eq, 1.), con(x, Kind::Ge, -5.), con(x, Kind::Le, 5.), con(y, Kind::Le, 5.)];
    let spec = MSpec { prog, names: vec!["x".to_string(), "y".to_string()], ints: l.ints, obj: Some((false, x)), cons, order: vec![0, 0, 1, 2, 3] };
    ctx.desc = format!("Ipopt: {}", spec.show());
    if let Some((_b, o)) = solve(ctx, &spec, Which::Ipopt, None) {
        if o.status == "solved" {
            if let Err((_, e)) = kkt(&spec, &o, 2e-5) {
                ctx.fail("known-ipopt-square", format!("{}; {}", e, show_outcome(&o)));
            }
        }
    }
}

/// Ipopt refuses problems with rows of which none has an entry (a known finding).
fn empty_row(ctx: &mut Ctx) {
    let mut prog = Prog::new();
    let (x, y) = (prog.push(Op::Var(0)), prog.push(Op::Var(1)));
    let f = bin(&mut prog, Bop::Add, Arg::R(x), Arg::R(y));
    let d = push_affine(&mut ctx.rng, &mut prog, &[], 0.);
    let con = |e, kind, b: f64| ConSpec { lhs: Arg::R(e), rhs: Arg::N(b), kind, label: String::new(), form: 0 };
    let cons = vec![con(d, Kind::Eq, 0.), con(x, Kind::Ge, 1.), con(x, Kind::Le, 5.), con(y, Kind::Ge, 1.), con(y, Kind::Le, 5.)];
    let spec = MSpec { prog, names: vec!["x".to_string(), "y".to_string()], ints: vec![false; 2], obj: Some((false, f)), cons, order: vec![0, 1, 2, 3, 4] };
    ctx.desc = format!("Ipopt: {}", spec.show());
    let mut b = spec.build();
    let s = solver(Which::Ipopt);
    match guarded(|| b.model.solve(s.as_ref()).map_err(|e| format!("{}", e))) {
        Err(e) => ctx.fail("panic", e),
        Ok(Err(e)) => ctx.fail("known-ipopt-empty-row", e),
        Ok(Ok(())) => match outcome(&b) {
            Ok(o) if o.status != "solved" => ctx.fail("unsolved", show_outcome(&o)),
            Ok(o) => {
                if let Err((s, e)) = kkt(&spec, &o, 2e-5) {
                    ctx.fail(s, format!("{}; {}", e, show_outcome(&o)));
                }
            }
            Err(e) => ctx.fail("no-status", e),
        },
    }
}

/// Clp 1.17 gives up reading an LP file without rows and with more than a few columns.
fn clp_refuses_rowless(ctx: &Ctx, nx: usize) -> bool {
    let f = ctx.scratch.join("rowless.lp");
    let mut t = "Minimize\n obj:\n + 1 x_0\nSubject to\nBounds\n".to_string();
    for j in 0..nx {
        t.push_str(&format!(" -1 <= x_{} <= 1\n", j));
    }
    t.push_str("End\n");
    if std::fs::write(&f, t).is_err() {
        return false;
    }
    let st = std::process::Command::new(real("clp").unwrap_or_default())
        .arg(&f)
        .args(["logLevel", "0", "solve"])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let _ = std::fs::remove_file(&f);
    match st {
        Ok(s) => !s.success(),
        Err(_) => false,
    }
}

pub fn c16(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        return crate::p_big::real(ctx, false);
    }
    if ctx.idx == 0 {
        return square(ctx);
    }
    if ctx.idx == 1 {
        return empty_row(ctx);
    }
    let w = World::new_once(ctx);
    w.use_real();
    let which = *ctx.rng.pick(&[Which::Clp, Which::Cbc, Which::Ipopt, Which::Ipopt]);
    let long = ctx.idx % 97 == 11;
    if long {
        ctx.count("long_programs");
    }
    let (mut l, x) = gen_lin_of(&mut ctx.rng, which == Which::Ipopt, long);
    let bad = ctx.rng.chance(0.2) && !l.rows.is_empty();
    if bad {
        contradict(&mut ctx.rng, &mut l);
    }
    let no_obj = ctx.rng.chance(0.05);
    let live = !no_obj && l.c.iter().any(|c| *c != 0.);
    if !live && which != Which::Ipopt && l.rows.is_empty() {
        return;
    }
    let spec = lin_spec(&mut ctx.rng, &l, !no_obj);
    ctx.desc = format!("{:?}: {}", which, spec.show());
    ctx.seen(spec.shape());
    let (na, entries) = guarded(|| {
        let d = std_data(&std_prob(&spec.build()).prob);
        (d.b.len(), d.a.nnz())
    })
    .unwrap_or((1, 1));
    if bad && which == Which::Ipopt && entries == 0 {
        // contradictory rows without entries may be refused
        ctx.count("rows_without_entries");
        return;
    }
    let (b, mut o) = match solve(ctx, &spec, which, None) {
        Some(r) => r,
        None => return,
    };
    // Variables that occur nowhere are not part of the model
    for j in 0..l.c.len() {
        if o.x[j].is_nan() && (l.c[j] == 0. || no_obj) && l.rows.iter().all(|r| r.0[j] == 0.) {
            o.x[j] = 0.;
        }
    }
    let d = format!("{} -> {}", ctx.desc, show_outcome(&o));
    ctx.sample(d);
    if o.status == "solved" {
        if bad {
            return ctx.fail("contradiction-solved", show_outcome(&o));
        }
        match kkt(&spec, &o, 2e-5) {
            Err((s, e)) => ctx.fail(s, format!("{}; {}", e, show_outcome(&o))),
            Ok(k) => {
                ctx.count("certificates_checked");
                ctx.max("worst_residual_e9", (k.worst * 1e9) as u64);
            }
        }
    } else if !bad {
        if o.status == "infeasible" {
            ctx.fail("feasible-infeasible", format!("{:?} is feasible; {}", x, show_outcome(&o)));
        } else if live {
            if which == Which::Clp && na == 0 && o.status == "error" && clp_refuses_rowless(ctx, b.vars.len()) {
                return ctx.count("solver_faults");
            }
            ctx.fail("unsolved", show_outcome(&o));
        }
    }
}

// ---------------------------------------------------------------- integer programs

/// Best value over the feasible points, or None if there is none.
pub fn brute(l: &Lin, lo: &[i64], hi: &[i64]) -> Option<f64> {
    let nv = l.c.len();
    let iv: Vec<usize> = (0..nv).filter(|j| l.ints[*j]).collect();
    let cv: Vec<usize> = (0..nv).filter(|j| !l.ints[*j]).collect();
    let mut best: Option<f64> = None;
    let mut x = vec![0.; nv];
    let mut cur: Vec<i64> = iv.iter().map(|j| lo[*j]).collect();
    if iv.iter().any(|j| lo[*j] > hi[*j]) {
        return None;
    }
    loop {
        for (k, j) in iv.iter().enumerate() {
            x[*j] = cur[k] as f64;
        }
        for c in candidates(l, &cv, &x) {
            for (k, j) in cv.iter().enumerate() {
                x[*j] = c[k];
            }
            if l.viol(&x) <= 1e-7 {
                let v = l.value(&x);
                best = Some(match best {
                    None => v,
                    Some(b) if l.max => b.max(v),
                    Some(b) => b.min(v),
                });
            }
        }
        // next
        let mut k = 0;
        loop {
            if k == iv.len() {
                return best;
            }
            cur[k] += 1;
            if cur[k] <= hi[iv[k]] {
                break;
            }
            cur[k] = lo[iv[k]];
            k += 1;
        }
    }
}

/// Vertices in the continuous variables.
fn candidates(l: &Lin, cv: &[usize], x: &[f64]) -> Vec<Vec<f64>> {
    if cv.is_empty() {
        return vec![vec![]];
    }
    let lines: Vec<(Vec<f64>, f64)> = l
        .rows
        .iter()
        .filter(|r| cv.iter().any(|j| r.0[*j] != 0.))
        .map(|(a, _, b)| {
            let rest: f64 = (0..a.len()).filter(|j| !cv.contains(j)).map(|j| a[j] * x[j]).sum();
            (cv.iter().map(|j| a[*j]).collect(), b - rest)
        })
        .collect();
    let mut v = Vec::new();
    if cv.len() == 1 {
        for (a, b) in lines.iter() {
            v.push(vec![b / a[0]]);
        }
    } else {
        for i in 0..lines.len() {
            for k in 0..i {
                let (a, b) = (&lines[i], &lines[k]);
                let det = a.0[0] * b.0[1] - a.0[1] * b.0[0];
                if det.abs() > 1e-9 {
                    v.push(vec![(a.1 * b.0[1] - a.0[1] * b.1) / det, (a.0[0] * b.1 - a.1 * b.0[0]) / det]);
                }
            }
        }
    }
    v
}

/// Binary problems with many close objective values (knapsacks, packings, covers).
fn gen_packing(rng: &mut Rng) -> (Lin, Vec<i64>, Vec<i64>) {
    let nv = rng.us(6, 12);
    let max = rng.chance(0.5);
    let mut l = Lin { max, c: vec![0.; nv], rows: vec![], ints: vec![true; nv], dup_eq: true };
    for j in 0..nv {
        let mut a = vec![0.; nv];
        a[j] = 1.;
        l.rows.push((a.clone(), Kind::Ge, 0.));
        l.rows.push((a, Kind::Le, 1.));
        l.c[j] = rng.range(15, 60) as f64;
    }
    for i in 0..rng.us(1, 4) {
        // the first row goes along with the objective, the others do not
        let a: Vec<f64> = (0..nv).map(|j| if i == 0 { (l.c[j] + rng.range(-9, 9) as f64).max(1.) } else { rng.range(20, 100) as f64 }).collect();
        let sum: f64 = a.iter().sum();
        let frac = *rng.pick(&[0.35, 0.5, 0.5, 0.65]);
        l.rows.push((a, if max { Kind::Le } else { Kind::Ge }, (sum * frac).floor()));
    }
    // of any scale
    let s = *rng.pick(&[1., 1., 1. / 16., 1. / 64., 32.]);
    l.c.iter_mut().for_each(|c| *c *= s);
    (l, vec![0; nv], vec![1; nv])
}

/// Market split: binary choices that split several rows as evenly as possible. It takes many
/// nodes. The optimum is found by trying all choices.
fn gen_split(rng: &mut Rng) -> (Lin, f64) {
    let n = rng.us(10, 15);
    let m = rng.us(2, 3);
    let nv = n + 2 * m;
    let unit = |j: usize| -> Vec<f64> { (0..nv).map(|k| if k == j { 1. } else { 0. }).collect() };
    let mut l = Lin { max: false, c: vec![0.; nv], rows: vec![], ints: (0..nv).map(|j| j < n).collect(), dup_eq: true };
    for j in 0..nv {
        l.rows.push((unit(j), Kind::Ge, 0.));
        l.rows.push((unit(j), Kind::Le, if j < n { 1. } else { 500. }));
    }
    let a: Vec<Vec<i64>> = (0..m).map(|_| (0..n).map(|_| rng.range(1, 60)).collect()).collect();
    let half: Vec<i64> = a.iter().map(|r| r.iter().sum::<i64>() / 2).collect();
    for i in 0..m {
        let mut r: Vec<f64> = a[i].iter().map(|v| *v as f64).collect();
        r.resize(nv, 0.);
        r[n + 2 * i] = 1.;
        r[n + 2 * i + 1] = -1.;
        l.rows.push((r, Kind::Eq, half[i] as f64));
        l.c[n + 2 * i] = 1.;
        l.c[n + 2 * i + 1] = 1.;
    }
    let mut best = i64::max_value();
    for s in 0..1u32 << n {
        let mut t = 0;
        for i in 0..m {
            let mut v = half[i];
            for j in 0..n {
                if s >> j & 1 == 1 {
                    v -= a[i][j];
                }
            }
            t += v.abs();
        }
        best = best.min(t);
    }
    (l, best as f64)
}

/// Fixed charges: a continuous amount is possible only with its integer variable, which the
/// relaxation gets with a small fraction of it.
fn gen_charges(rng: &mut Rng) -> (Lin, Vec<i64>, Vec<i64>) {
    let n = rng.us(1, 2);
    let nv = 2 * n;
    let mut l = Lin { max: false, c: vec![0.; nv], rows: vec![], ints: vec![false; nv], dup_eq: true };
    let mut lo = vec![0i64; nv];
    let mut hi = vec![0i64; nv];
    let big = *rng.pick(&[20., 100., 500.]);
    let unit = |j: usize, t: f64| -> Vec<f64> { (0..nv).map(|k| if k == j { t } else { 0. }).collect() };
    for i in 0..n {
        let (x, y) = (i, n + i);
        l.ints[y] = true;
        hi[y] = rng.range(1, 2);
        lo[y] = 0;
        hi[x] = big as i64;
        for j in [x, y].iter() {
            l.rows.push((unit(*j, 1.), Kind::Ge, lo[*j] as f64));
            l.rows.push((unit(*j, 1.), Kind::Le, hi[*j] as f64));
        }
        let mut a = unit(x, 1.);
        a[y] = -big;
        l.rows.push((a, Kind::Le, 0.));
        l.c[x] = rng.range(0, 3) as f64;
        l.c[y] = rng.range(1, 40) as f64;
    }
    let total: Vec<f64> = (0..nv).map(|k| if k < n { 1. } else { 0. }).collect();
    l.rows.push((total, Kind::Ge, rng.range(1, 6) as f64 / 4.));
    (l, lo, hi)
}

pub fn gen_int(rng: &mut Rng) -> (Lin, Vec<i64>, Vec<i64>) {
    if rng.chance(0.3) {
        return gen_packing(rng);
    }
    if rng.chance(0.1) {
        return gen_charges(rng);
    }
    let ni = rng.us(1, 4);
    let nc = rng.below(3);
    let nv = ni + nc;
    let mut ints = vec![true; ni];
    ints.extend(vec![false; nc]);
    rng.shuffle(&mut ints);
    let mut l = Lin { max: rng.chance(0.4), c: vec![0.; nv], rows: vec![], ints, dup_eq: true };
    let mut lo = vec![0i64; nv];
    let mut hi = vec![0i64; nv];
    let mut x = vec![0.; nv];
    for j in 0..nv {
        if rng.chance(0.3) {
            lo[j] = 0;
            hi[j] = 1;
        } else {
            lo[j] = rng.range(-6, 4);
            hi[j] = lo[j] + rng.range(0, 4);
        }
        x[j] = rng.range(lo[j], hi[j]) as f64;
        let mut a = vec![0.; nv];
        a[j] = 1.;
        for (kind, v) in [(Kind::Ge, lo[j]), (Kind::Le, hi[j])] {
            let mut v = v as f64;
            if l.ints[j] && rng.chance(0.2) {
                // limits that are no integers
                v += if kind == Kind::Le { 0.5 } else { -0.5 };
            }
            let s = *rng.pick(&[1., 1., 1., 2., -1.]);
            let k = if s < 0. { crate::p_map::mirror(kind) } else { kind };
            l.rows.push((a.iter().map(|t| t * s).collect(), k, v * s));
        }
    }
    let feasible = rng.chance(0.7);
    for _ in 0..rng.below(4) {
        let mut a = vec![0.; nv];
        for v in a.iter_mut() {
            if rng.chance(0.7) {
                *v = rng.range(-5, 5) as f64;
            }
        }
        let kind = *rng.pick(&[Kind::Eq, Kind::Le, Kind::Ge]);
        let mut val = dot(&a, &x);
        if feasible {
            val += match kind {
                Kind::Eq => 0.,
                Kind::Le => rng.range(0, 3) as f64 * 0.75,
                Kind::Ge => -rng.range(0, 3) as f64 * 0.75,
            };
        } else if kind == Kind::Eq && rng.chance(0.5) {
            // parity: no integer points, though the relaxation has
            for j in 0..nv {
                a[j] = if l.ints[j] { (a[j] / 2.).round() * 2. } else { 0. };
            }
            val = dot(&a, &x) + *rng.pick(&[1., -1., 0.5]);
        } else {
            val += rng.range(-4, 4) as f64 + if rng.chance(0.3) { 0.5 } else { 0. };
        }
        if a.iter().all(|v| *v == 0.) {
            continue;
        }
        l.rows.push((a, kind, val));
    }
    for j in 0..nv {
        if rng.chance(0.85) {
            l.c[j] = rng.range(-8, 8) as f64 / if rng.chance(0.3) { 2. } else { 1. };
        }
    }
    if l.c.iter().all(|c| *c == 0.) {
        l.c[0] = 1.;
    }
    // widened integer limits are the integers inside
    (l, lo, hi)
}

pub fn c17(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        return crate::p_big::real(ctx, true);
    }
    let w = World::new_once(ctx);
    let kept = |s: &str| w.cwd.join(s).display().to_string();
    w.use_fake();
    w.control(&format!("keep {} {}\n", kept("kept.lp"), kept("kept.sol")));
    let _ = std::fs::remove_file("kept.sol");
    let (l, best) = if ctx.idx % 61 == 17 {
        ctx.count("splits");
        let (l, b) = gen_split(&mut ctx.rng);
        (l, Some(b))
    } else {
        let (l, lo, hi) = gen_int(&mut ctx.rng);
        let best = brute(&l, &lo, &hi);
        (l, best)
    };
    let spec = lin_spec(&mut ctx.rng, &l, true);
    ctx.desc = spec.show();
    ctx.seen(spec.shape());
    let (_b, o) = match solve(ctx, &spec, Which::Cbc, None) {
        Some(r) => r,
        None => return,
    };
    let d = format!("{} -> {}, best {:?}", ctx.desc, show_outcome(&o), best);
    ctx.sample(d);
    if let Some((sig, e)) = int_fault(ctx, &l, &spec, &o, best) {
        if cbc_contradicts_itself() {
            ctx.count("solver_faults");
        } else {
            ctx.fail(sig, format!("{}; {}", e, show_outcome(&o)));
        }
    }
}

fn int_fault(ctx: &mut Ctx, l: &Lin, spec: &MSpec, o: &Outcome, best: Option<f64>) -> Option<(&'static str, String)> {
    match (o.status.as_str(), best) {
        ("solved", b) => {
            if let Some(j) = o.x.iter().position(|v| !v.is_finite()) {
                return Some(("no-value", format!("variable {} has value {:?}", spec.names[j], o.x[j])));
            }
            for j in 0..l.c.len() {
                if l.ints[j] && (o.x[j] - o.x[j].round()).abs() > 1e-5 {
                    return Some(("fractional", format!("integer variable {} has value {:?}", spec.names[j], o.x[j])));
                }
            }
            let v = l.viol(&o.x);
            if v > 1e-4 {
                return Some(("infeasible", format!("violation {:e}", v)));
            }
            match b {
                None => return Some(("none-solved", "no integer-feasible point exists".to_string())),
                Some(b) => {
                    let got = l.value(&o.x);
                    let worse = if l.max { b - got } else { got - b };
                    if worse > 1e-4 * (1. + b.abs()) {
                        return Some(("suboptimal", format!("objective {:?}, the best is {:?}", got, b)));
                    }
                    ctx.count("optima_compared");
                }
            }
            None
        }
        ("infeasible", None) => {
            ctx.count("infeasible_confirmed");
            None
        }
        ("infeasible", Some(b)) => Some(("feasible-infeasible", format!("a point with objective {:?} is feasible", b))),
        (s, b) => Some(("unsolved", format!("status {} (best objective {:?})", s, b))),
    }
}

/// Solves the file that the last solve wrote again, with cbc as it is and without its
/// reductions. If the first gives what the solve got but one of the others gives another status or
/// objective, then cbc (2.10.11 does, rarely) is wrong about the very file it was given.
fn cbc_contradicts_itself() -> bool {
    let head = |f: &str| -> Option<(bool, f64)> {
        let t = std::fs::read_to_string(f).ok()?;
        let h = t.lines().next()?.to_string();
        let v = h.split_whitespace().last()?.parse::<f64>().ok()?;
        Some((h.starts_with("Optimal"), v))
    };
    let first = match head("kept.sol") {
        Some(h) => h,
        None => return false,
    };
    let again = |opts: &[&str]| -> Option<(bool, f64)> {
        let _ = std::fs::remove_file("again.sol");
        let mut a = vec!["kept.lp", "logLevel", "0"];
        a.extend(opts);
        a.extend(["solve", "solution", "again.sol"]);
        let r = std::process::Command::new(real("cbc").expect("cbc")).args(&a).stdin(std::process::Stdio::null()).output();
        match r {
            Ok(o) if o.status.success() => head("again.sol"),
            _ => None,
        }
    };
    let differ = |h: (bool, f64)| h.0 != first.0 || (h.0 && (h.1 - first.1).abs() > 1e-4 * (1. + h.1.abs()));
    match again(&[]) {
        Some(h) if !differ(h) => (),
        _ => return false,
    }
    let others: [&[&str]; 3] = [&["preprocess", "off", "presolve", "off", "cuts", "off", "heur", "off"], &["preprocess", "off"], &["presolve", "off", "cuts", "off"]];
    others.iter().any(|o| again(o).map(differ).unwrap_or(false))
}

// ---------------------------------------------------------------- nonlinear programs

fn bin(p: &mut Prog, o: Bop, a: Arg, b: Arg) -> usize {
    p.push(Op::Bin(o, a, b, 0))
}

fn var(p: &mut Prog, v: usize) -> usize {
    p.ops.iter().position(|o| *o == Op::Var(v)).unwrap_or_else(|| p.push(Op::Var(v)))
}

fn sum(p: &mut Prog, t: &[usize]) -> usize {
    let mut acc = t[0];
    for x in t[1..].iter() {
        acc = bin(p, Bop::Add, Arg::R(acc), Arg::R(*x));
    }
    acc
}

/// w * (x - a)^2, and the fourth power sometimes
fn power(rng: &mut Rng, p: &mut Prog, e: usize, a: f64, w: f64, four: bool) -> usize {
    let d = if a == 0. { e } else { bin(p, Bop::Sub, Arg::R(e), Arg::N(a)) };
    let mut s = bin(p, Bop::Mul, Arg::R(d), Arg::R(d));
    if four {
        s = bin(p, Bop::Mul, Arg::R(s), Arg::R(s));
    }
    if w == 1. {
        s
    } else if rng.chance(0.5) {
        bin(p, Bop::Mul, Arg::N(w), Arg::R(s))
    } else if rng.chance(0.5) {
        bin(p, Bop::Mul, Arg::R(s), Arg::N(w))
    } else {
        bin(p, Bop::Div, Arg::R(s), Arg::N(1. / w))
    }
}

pub fn value(spec: &MSpec, i: usize, x: &[f64]) -> f64 {
    spec.prog.jets(x, 0)[i].v.v
}

/// Convex: strictly convex objective and constraints that have a strictly feasible point.
pub fn gen_convex(rng: &mut Rng) -> (MSpec, Vec<f64>) {
    let (mut l, x) = gen_lin(rng, true);
    let nv = l.c.len();
    // fewer limits
    let keep = *rng.pick(&[0.2, 0.5, 1.]);
    l.rows = l.rows.into_iter().filter(|_| rng.chance(keep)).collect();
    let mut spec = lin_spec(rng, &l, false);
    let mut terms = Vec::new();
    for v in 0..nv {
        let e = var(&mut spec.prog, v);
        let (a, w) = (rng.range(-16, 16) as f64 / 2., *rng.pick(&[1., 0.5, 2., 4.]));
        terms.push(power(rng, &mut spec.prog, e, a, w, false));
        if rng.chance(0.1) {
            let a = rng.range(-4, 4) as f64;
            terms.push(power(rng, &mut spec.prog, e, a, 0.25, true));
        }
        if rng.chance(0.3) {
            terms.push(bin(&mut spec.prog, Bop::Mul, Arg::N(half(rng, 4)), Arg::R(e)));
        }
    }
    for _ in 0..rng.below(nv + 1) {
        let t: Vec<(usize, f64)> = (0..2).map(|_| (rng.below(nv), half(rng, 2))).collect();
        let e = push_affine(rng, &mut spec.prog, &t, 0.);
        let a = rng.range(-4, 4) as f64;
        terms.push(power(rng, &mut spec.prog, e, a, 1., false));
    }
    rng.shuffle(&mut terms);
    let mut f = sum(&mut spec.prog, &terms);
    let max = rng.chance(0.3);
    if max {
        f = spec.prog.push(Op::Neg(f, 0));
    }
    spec.obj = Some((max, f));
    // convex constraints g(x) <= r
    for k in 0..rng.below(4) {
        let mut t = Vec::new();
        for v in 0..nv {
            if rng.chance(0.6) {
                let e = var(&mut spec.prog, v);
                let a = rng.range(-10, 10) as f64 / 2.;
                let w = *rng.pick(&[1., 0.5, 2.]);
                t.push(power(rng, &mut spec.prog, e, a, w, false));
            }
        }
        if t.is_empty() {
            let e = var(&mut spec.prog, 0);
            t.push(power(rng, &mut spec.prog, e, 0., 1., false));
        }
        if rng.chance(0.5) {
            let v = rng.below(nv);
            let e = var(&mut spec.prog, v);
            t.push(bin(&mut spec.prog, Bop::Mul, Arg::N(half(rng, 3)), Arg::R(e)));
        }
        rng.shuffle(&mut t);
        let g = sum(&mut spec.prog, &t);
        let r = value(&spec, g, &x) + rng.range(2, 40) as f64 / 2.;
        let label = format!("q{}", k);
        let form = rng.next() as u8;
        spec.cons.push(match rng.below(5) {
            0 => ConSpec { lhs: Arg::N(r), rhs: Arg::R(g), kind: Kind::Ge, label, form },
            1 => {
                let n = spec.prog.push(Op::Neg(g, 0));
                ConSpec { lhs: Arg::R(n), rhs: Arg::N(-r), kind: Kind::Ge, label, form }
            }
            2 => {
                let d = bin(&mut spec.prog, Bop::Sub, Arg::R(g), Arg::N(r));
                ConSpec { lhs: Arg::N(0.), rhs: Arg::R(d), kind: Kind::Ge, label, form }
            }
            3 => {
                // a linear part on the other side
                let v = rng.below(nv);
                let e = var(&mut spec.prog, v);
                let s = bin(&mut spec.prog, Bop::Sub, Arg::R(g), Arg::R(e));
                let m = bin(&mut spec.prog, Bop::Sub, Arg::N(r), Arg::R(e));
                ConSpec { lhs: Arg::R(s), rhs: Arg::R(m), kind: Kind::Le, label, form }
            }
            _ => ConSpec { lhs: Arg::R(g), rhs: Arg::N(r), kind: Kind::Le, label, form },
        });
        let n = spec.cons.len() - 1;
        let at = rng.below(spec.order.len() + 1);
        spec.order.insert(at, n);
    }
    (spec, x)
}

/// Smooth, not convex; the point is feasible.
pub fn gen_smooth(rng: &mut Rng) -> (MSpec, Vec<f64>) {
    let (mut spec, x) = gen_convex(rng);
    let nv = spec.nv();
    let (max, f) = spec.obj.unwrap();
    let mut t = vec![f];
    let mut piece = |rng: &mut Rng, p: &mut Prog| -> usize {
        let (u, v) = (rng.below(nv), rng.below(nv));
        let (a, b) = (var(p, u), var(p, v));
        match rng.below(4) {
            0 => p.push(Op::Sin(a)),
            1 => p.push(Op::Cos(a)),
            2 => bin(p, Bop::Mul, Arg::R(a), Arg::R(b)),
            _ => {
                let s = bin(p, Bop::Mul, Arg::R(a), Arg::R(a));
                let d = bin(p, Bop::Add, Arg::R(s), Arg::N(2.));
                bin(p, Bop::Div, Arg::R(b), Arg::R(d))
            }
        }
    };
    for _ in 0..rng.us(1, 3) {
        let e = piece(rng, &mut spec.prog);
        t.push(bin(&mut spec.prog, Bop::Mul, Arg::N(half(rng, 2)), Arg::R(e)));
    }
    let f = sum(&mut spec.prog, &t);
    spec.obj = Some((max, f));
    if nv >= 2 {
        for k in 0..rng.below(3) {
            let e1 = piece(rng, &mut spec.prog);
            let e2 = piece(rng, &mut spec.prog);
            let v = var(&mut spec.prog, k);
            let g = sum(&mut spec.prog, &[e1, e2, v]);
            let val = value(&spec, g, &x);
            let kind = *rng.pick(&[Kind::Eq, Kind::Le, Kind::Ge]);
            // fewer equations than variables
            let eqs = spec.cons.iter().filter(|c| c.kind == Kind::Eq).count();
            let kind = if kind == Kind::Eq && eqs + 1 >= nv { Kind::Le } else { kind };
            let r = match kind {
                Kind::Eq => val,
                Kind::Le => val + 1.,
                Kind::Ge => val - 1.,
            };
            spec.cons.push(ConSpec { lhs: Arg::R(g), rhs: Arg::N(r), kind, label: format!("s{}", k), form: rng.next() as u8 });
            let n = spec.cons.len() - 1;
            spec.order.push(n);
        }
    }
    (spec, x)
}

pub fn c18(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        return crate::p_big::smooth(ctx);
    }
    let convex = ctx.rng.chance(0.6);
    let (spec, x) = if convex { gen_convex(&mut ctx.rng) } else { gen_smooth(&mut ctx.rng) };
    ctx.desc = format!("{}: {}", if convex { "convex" } else { "smooth" }, spec.show());
    ctx.seen(spec.shape());
    let start: Option<Vec<f64>> = match ctx.rng.below(3) {
        0 => None,
        1 => Some(x.clone()),
        _ => Some(x.iter().map(|v| v + ctx.rng.uniform(-3., 3.)).collect()),
    };
    let (_b, o) = match solve(ctx, &spec, Which::Ipopt, start.as_deref()) {
        Some(r) => r,
        None => return,
    };
    ctx.count(if convex { "convex_models" } else { "smooth_models" });
    let d = format!("{} -> {}", ctx.desc, show_outcome(&o));
    ctx.sample(d);
    if !convex && o.x.iter().any(|v| v.abs() > 1e3) {
        // (nearly) unbounded
        ctx.count("unbounded_models");
        return;
    }
    if o.status == "solved" {
        match kkt(&spec, &o, if convex { 1e-5 } else { 1e-4 }) {
            Err((s, e)) => ctx.fail(s, format!("{}; {}", e, show_outcome(&o))),
            Ok(k) => {
                ctx.count("certificates_checked");
                ctx.max("worst_residual_e9", (k.worst * 1e9) as u64);
            }
        }
    } else if convex {
        ctx.fail("unsolved", show_outcome(&o));
    }
}

// ---------------------------------------------------------------- points without values

/// C29: models that have no finite values at points that Ipopt visits.
pub fn c29(ctx: &mut Ctx) {
    let lin = ctx.rng.chance(0.1);
    let cfg = ModelCfg { max_vars: 5, max_cons: 6, max_ops: 14, p_int: 0., linear: lin, bounds: 0.35, p_dup: 0.05, names: NameStyle::Plain };
    let mut g = gen_model(&mut ctx.rng, &cfg);
    let nv = g.spec.nv();
    let mut how = "as is";
    match ctx.rng.below(6) {
        0 => {
            // a division by something that is zero at the start
            let v = ctx.rng.below(nv);
            let p = &mut g.spec.prog;
            let x = var(p, v);
            let y = var(p, ctx.rng.below(nv));
            let sq = bin(p, Bop::Mul, Arg::R(x), Arg::R(x));
            let d = if ctx.rng.chance(0.5) { sq } else { x };
            let e = if ctx.rng.chance(0.5) { bin(p, Bop::Div, Arg::N(1.), Arg::R(d)) } else { bin(p, Bop::Div, Arg::R(y), Arg::R(d)) };
            match (g.spec.obj, ctx.rng.chance(0.5)) {
                (Some((m, o)), true) => {
                    let s = bin(p, Bop::Add, Arg::R(o), Arg::R(e));
                    g.spec.obj = Some((m, s));
                }
                _ => {
                    g.spec.cons.push(ConSpec { lhs: Arg::R(e), rhs: Arg::N(2.), kind: Kind::Le, label: "d".to_string(), form: 0 });
                    let n = g.spec.cons.len() - 1;
                    g.spec.order.push(n);
                }
            }
            how = "division by zero";
        }
        1 => {
            // overflow
            let p = &mut g.spec.prog;
            let x = var(p, ctx.rng.below(nv));
            let big = *ctx.rng.pick(&[1e3, 1e40, 1e80, 1e154, 1e200]);
            let t = bin(p, Bop::Mul, Arg::N(big), Arg::R(x));
            let mut e = bin(p, Bop::Add, Arg::R(t), Arg::N(1e3));
            for _ in 0..ctx.rng.us(1, 3) {
                e = bin(p, Bop::Mul, Arg::R(e), Arg::R(e));
            }
            g.spec.obj = Some((ctx.rng.chance(0.5), e));
            how = "overflow";
        }
        2 => {
            // constants that are no numbers
            let p = &mut g.spec.prog;
            let k = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308]);
            let x = var(p, ctx.rng.below(nv));
            let e = if ctx.rng.chance(0.5) { bin(p, Bop::Mul, Arg::N(k), Arg::R(x)) } else { bin(p, Bop::Add, Arg::R(x), Arg::N(k)) };
            if ctx.rng.chance(0.5) {
                g.spec.obj = Some((ctx.rng.chance(0.5), e));
            } else {
                let kind = *ctx.rng.pick(&[Kind::Le, Kind::Ge, Kind::Eq]);
                g.spec.cons.push(ConSpec { lhs: Arg::R(e), rhs: Arg::N(2.), kind, label: "k".to_string(), form: 0 });
                let n = g.spec.cons.len() - 1;
                g.spec.order.push(n);
            }
            how = "constant";
        }
        _ => (),
    }
    let spec = g.spec;
    let start: Option<Vec<f64>> = match ctx.rng.below(5) {
        0 => Some(g.pts[0].clone()),
        1 => Some((0..nv).map(|_| ctx.rng.constant()).collect()),
        2 => Some((0..nv).map(|_| *ctx.rng.pick(&[f64::NAN, f64::INFINITY, 1e300, -1e200, 0., 1.])).collect()),
        _ => None,
    };
    ctx.desc = format!("{}, start {:?}: {}", how, start, spec.show());
    if ctx.verbose {
        eprintln!("{}", ctx.desc);
    }
    ctx.seen(spec.shape());
    let r = guarded(|| {
        let mut b = spec.build();
        if let Some(x0) = &start {
            let m: HashMap<&Node, f64> = b.vars.iter().zip(x0.iter().cloned()).collect();
            b.model.set_init_primals(&m);
        }
        let s = solver(Which::Ipopt);
        let r = b.model.solve(s.as_ref()).map_err(|e| format!("{}", e));
        (b, r)
    });
    ctx.count("solves");
    match r {
        Err(e) => ctx.fail("panic", e),
        Ok((_, Err(_))) => ctx.count("errors"),
        Ok((b, Ok(()))) => match outcome(&b) {
            Err(e) => ctx.fail("no-status", e),
            Ok(o) => {
                ctx.count(&format!("{}_{}", how.replace(' ', "_"), o.status));
                let given = start.as_ref().map_or(true, |x| x.iter().all(|v| v.is_finite()));
                if given && o.status == "solved" && b.model.final_primals().values().any(|v| !v.is_finite()) {
                    ctx.fail("solved-without-values", show_outcome(&o));
                }
            }
        },
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}
