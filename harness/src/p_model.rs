//! C08 to C11: the standard problem of a model.

use numopt::model::model_std::ModelStdProb;
use numopt::model::constraint::ConstraintKind;
use numopt::model::*;
use std::collections::{HashMap, HashSet};

use crate::core::{guarded, Ctx};
use crate::expr::*;
use crate::spec::*;

pub const INF: f64 = 1e8;

pub fn mixed_cfg(linear: bool) -> ModelCfg {
    ModelCfg {
        max_vars: 5,
        max_cons: 10,
        max_ops: 18,
        p_int: 0.3,
        linear,
        bounds: 0.35,
        p_dup: 0.08,
        names: NameStyle::Mixed,
    }
}

pub fn gen_any(ctx: &mut Ctx) -> GenModel {
    if ctx.idx % 60 == 17 {
        let nv = ctx.rng.us(11, 120);
        let nr = ctx.rng.us(11, 120);
        gen_wide_linear(&mut ctx.rng, nv, nr, 0.1)
    } else {
        let lin = ctx.rng.chance(0.15);
        gen_model(&mut ctx.rng, &mixed_cfg(lin))
    }
}

pub struct Setup {
    pub b: Built,
    pub sp: ModelStdProb,
    pub d: StdData,
    pub cols: Cols,
}

/// Builds the model and its standard problem.
pub fn setup(ctx: &mut Ctx, spec: &MSpec) -> Option<Setup> {
    let b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(e) => {
            ctx.fail("build-panic", e);
            return None;
        }
    };
    let sp = match guarded(|| std_prob(&b)) {
        Ok(s) => s,
        Err(e) => {
            ctx.fail("standard-panic", format!("building the standard problem failed: {}", e));
            return None;
        }
    };
    let d = std_data(&sp.prob);
    let cols = match columns(&b, &sp, d.nx) {
        Ok(c) => c,
        Err(e) => {
            ctx.fail("columns", e);
            return None;
        }
    };
    Some(Setup { b, sp, d, cols })
}

/// Variables the model certainly depends on, by the sample points.
pub fn depends(spec: &MSpec, pts: &[Vec<f64>]) -> Vec<bool> {
    let nv = spec.nv();
    let mut dep = vec![false; nv];
    for x in pts {
        let jets = spec.prog.jets(x, 1);
        let mut mark = |g: &Vec<Num>| {
            for k in 0..nv {
                if g[k].ok() && g[k].nonzero() {
                    dep[k] = true;
                }
            }
        };
        if let Some((_, o)) = spec.obj {
            mark(&jets[o].g);
        }
        for c in spec.order.iter() {
            mark(&spec.diff(*c, &jets, nv, 1).g);
        }
    }
    dep
}

// ---------------------------------------------------------------- C08

pub fn c08(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        return crate::p_big::model(ctx, false, true, false);
    }
    if crate::p_big::large(ctx, 1) {
        return crate::p_big::model(ctx, true, false, false);
    }
    let g = gen_any(ctx);
    let spec = g.spec;
    ctx.desc = format!("{} from {:?}", spec.show(), g.pts[0]);
    let mut s = match setup(ctx, &spec) {
        Some(s) => s,
        None => return,
    };
    let nv = spec.nv();
    if nv <= 10 {
        let dep = depends(&spec, &g.pts);
        for k in 0..nv {
            if dep[k] && !s.cols.var.iter().any(|v| *v == Some(k)) {
                return ctx.fail("column-missing", format!("no column for {} (number {})", spec.names[k], k));
            }
        }
    }
    let mut pts = g.pts.clone();
    let x0 = g.pts[0].clone();
    let extra = if nv > 10 { 30 } else { 3 * nv + 6 };
    for e in 0..extra {
        let mut x = x0.clone();
        if e % 3 == 2 {
            let t = ctx.rng.uniform(-1., 1.) * 10f64.powi(ctx.rng.range(-3, 1) as i32);
            for k in 0..nv {
                x[k] += t * ctx.rng.uniform(-1., 1.);
            }
        } else {
            let k = ctx.rng.below(nv);
            let t = match ctx.rng.below(4) {
                0 => ctx.rng.dyadic(4),
                1 => 0.3 * ctx.rng.uniform(-1., 1.),
                2 => ctx.rng.sign() * 10f64.powf(ctx.rng.uniform(-9., -1.)),
                _ if ctx.rng.chance(0.3) => -x[k],
                _ => ctx.rng.uniform(-4., 4.),
            };
            x[k] += t;
        }
        pts.push(x);
    }
    let mut base: Option<(f64, f64, f64)> = None; // standard objective, model objective, tolerance
    for x in pts.iter() {
        let jets = spec.prog.jets(x, 0);
        let mut vm: f64 = 0.;
        let mut tol: f64 = 0.;
        let mut mag: f64 = 1.;
        let mut bad = false;
        let mut nviol = 0;
        for c in spec.order.iter() {
            let df = spec.diff(*c, &jets, nv, 0);
            if !df.v.ok() || df.v.v.abs() > 1e7 || df.v.tol() > 1e-6 * (1. + df.v.v.abs()) {
                bad = true;
                break;
            }
            let v = spec.viol(*c, df.v.v);
            if v > 1e-6 {
                nviol += 1;
            }
            vm = vm.max(v);
            tol = tol.max(df.v.tol());
            mag = mag.max(df.v.v.abs());
        }
        if bad {
            ctx.count("points_skipped");
            continue;
        }
        let lf = match lift(&mut s.sp.prob, &s.d, &s.cols, x) {
            Ok(l) => l,
            Err(e) => return ctx.fail("row-shape", format!("{} at {:?}", e, x)),
        };
        if lf.slack > 0.5 * INF {
            ctx.count("points_skipped");
            continue;
        }
        let mut vs = lf.resid;
        for i in 0..s.d.nx {
            vs = vs.max(s.d.l[i] - lf.x[i]).max(lf.x[i] - s.d.u[i]);
        }
        let eps = 1e-13 * lf.scale.max(mag) + 16. * tol;
        if vm <= eps {
            ctx.count("points_satisfying");
            if !(vs <= 100. * eps) {
                return ctx.fail(
                    "excluded",
                    format!("{:?} satisfies the constraints (violation {:e}), but violates the standard problem by {:e}", x, vm, vs),
                );
            }
        } else if vm > 1e4 * eps {
            ctx.count("points_violating");
            if nviol == 1 {
                ctx.count("points_violating_one_constraint");
            }
            if !(vs > 100. * eps) {
                return ctx.fail(
                    "admitted",
                    format!("{:?} violates a constraint by {:e}, but satisfies the standard problem (violation {:e})", x, vm, vs),
                );
            }
        } else {
            ctx.count("points_skipped");
        }
        // Objective
        let (sign, f) = match spec.obj {
            None => (1., Num::zero()),
            Some((m, o)) => (if m { -1. } else { 1. }, jets[o].v),
        };
        if !f.ok() {
            continue;
        }
        match &s.d.c {
            Some(c) => {
                let mut v = 0.;
                let mut t = 0.;
                for i in 0..s.d.nx {
                    v += c[i] * lf.x[i];
                    t += (c[i] * lf.x[i]).abs();
                }
                let t = 1e-12 * t + 16. * f.tol() + 1e-12;
                match base {
                    None => base = Some((v, sign * f.v, t)),
                    Some((v0, f0, t0)) => {
                        ctx.count("objective_differences");
                        if !(((v - v0) - (sign * f.v - f0)).abs() <= t + t0) {
                            return ctx.fail(
                                "objective",
                                format!("the standard objective changes by {:?} from {:?} to {:?}, the model objective by {:?}", v - v0, pts[0], x, sign * f.v - f0),
                            );
                        }
                    }
                }
            }
            None => {
                let e = std_eval(&mut s.sp.prob, &lf.x);
                ctx.count("objective_values");
                if !((e.phi - sign * f.v).abs() <= 16. * f.tol() + 1e-250) {
                    return ctx.fail("objective", format!("the standard objective at {:?} is {:?}, expected {:?}", x, e.phi, sign * f.v));
                }
            }
        }
    }
    ctx.count("models");
    ctx.count(&format!("class_{:?}", s.d.class));
    ctx.max("columns", s.d.nx as u64);
    if !spec.order.is_empty() {
        ctx.seen(spec.shape());
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

// ---------------------------------------------------------------- C09

pub fn c09(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        return crate::p_big::model(ctx, true, false, true);
    }
    if crate::p_big::large(ctx, 1) {
        return crate::p_big::model(ctx, false, true, true);
    }
    let g = gen_any(ctx);
    let mut spec = g.spec;
    if ctx.rng.chance(0.3) {
        // exactly one integer variable
        let k = ctx.rng.below(spec.nv());
        for i in 0..spec.nv() {
            spec.ints[i] = i == k;
        }
    }
    let nv = spec.nv();
    if ctx.rng.chance(0.15) {
        // a variable that is fixed by its limits
        let k = ctx.rng.below(nv);
        let x = ctx.rng.dyadic(4);
        let v = spec.prog.push(Op::Var(k));
        for kind in [Kind::Le, Kind::Ge] {
            let form = ctx.rng.next() as u8;
            spec.order.push(spec.cons.len());
            spec.cons.push(ConSpec { lhs: Arg::R(v), rhs: Arg::N(x), kind, label: String::new(), form });
        }
    }
    ctx.desc = format!("{}", spec.show());
    let mut b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(e) => return ctx.fail("build-panic", e),
    };
    // Initial values: several sets, the last one counts
    let foreign = VariableScalar::new_continuous(&spec.names[0]);
    let mut init: HashMap<usize, f64> = HashMap::new();
    let nsets = ctx.rng.below(4);
    for _ in 0..nsets {
        init.clear();
        for k in 0..nv {
            if ctx.rng.chance(0.5) {
                init.insert(k, ctx.rng.uniform(-50., 50.));
            }
        }
        let mut m: HashMap<&Node, f64> = init.iter().map(|(k, v)| (&b.vars[*k], *v)).collect();
        if ctx.rng.chance(0.3) {
            m.insert(&foreign, 777.);
        }
        b.model.set_init_primals(&m);
    }
    let sp = match guarded(|| std_prob(&b)) {
        Ok(s) => s,
        Err(e) => return ctx.fail("standard-panic", e),
    };
    let d = std_data(&sp.prob);
    let cols = match columns(&b, &sp, d.nx) {
        Ok(c) => c,
        Err(e) => return ctx.fail("columns", e),
    };
    // Affine?
    let (aff, _) = spec.prog.affine_flags();
    let mut affine = true; // as written
    if let Some((_, o)) = spec.obj {
        affine &= aff[o];
    }
    for c in spec.order.iter() {
        affine &= spec.con_affine(*c, &aff);
    }
    let mut curved = false;
    if !affine {
        for x in g.pts.iter() {
            let jets = spec.prog.jets(x, 2);
            let mut look = |h: &Vec<Num>| {
                for e in h.iter() {
                    if e.ok() && e.nonzero() {
                        curved = true;
                    }
                }
            };
            if let Some((_, o)) = spec.obj {
                look(&jets[o].h);
            }
            for c in spec.order.iter() {
                look(&spec.diff(*c, &jets, nv, 2).h);
            }
        }
    }
    let pts: Vec<Vec<f64>> = g.pts.iter().take(if nv > 10 { 1 } else { 3 }).cloned().collect();
    let dep = depends(&spec, &pts);
    let contained = b.contained();
    let certain_int = (0..nv).any(|k| spec.ints[k] && dep[k]);
    let maybe_int = (0..nv).any(|k| spec.ints[k] && contained.contains(&b.vars[k]));
    let int_known = certain_int || !maybe_int;
    let is_lin = d.class == Class::Lp || d.class == Class::Milp;
    let is_int = d.class == Class::Milp || d.class == Class::Minlp;
    if affine {
        ctx.count("affine_models");
        if !is_lin {
            return ctx.fail("class", format!("the model is affine as written, but its class is {:?}", d.class));
        }
    } else if curved {
        ctx.count("nonlinear_models");
        if is_lin {
            return ctx.fail("class", format!("the model is not affine, but its class is {:?}", d.class));
        }
    } else {
        ctx.count("affinity_undecided");
    }
    if int_known {
        ctx.count(if certain_int { "integer_models" } else { "continuous_models" });
        if is_int != certain_int {
            return ctx.fail("class", format!("integer variables: {}, but its class is {:?}", certain_int, d.class));
        }
    } else {
        ctx.count("integrality_undecided");
    }
    for i in 0..d.nx {
        let want = match cols.var[i] {
            Some(k) => spec.ints[k],
            None => false,
        };
        ctx.count("integrality_flags");
        if d.p[i] != want && (d.class == Class::Milp || d.class == Class::Minlp || want) {
            return ctx.fail("integrality", format!("column {} ({:?}) is marked integer: {}, expected {}", i, cols.var[i].map(|k| spec.names[k].clone()), d.p[i], want));
        }
    }
    for k in 0..nv {
        if dep[k] && !cols.var.iter().any(|v| *v == Some(k)) {
            return ctx.fail("column-missing", format!("no column for {}", spec.names[k]));
        }
    }
    match &d.x0 {
        None => {
            if init.iter().any(|(k, v)| *v != 0. && dep[*k]) {
                return ctx.fail("initial", "there is no initial point".to_string());
            }
        }
        Some(x0) => {
            if x0.len() != d.nx {
                return ctx.fail("initial", format!("the initial point has {} entries of {}", x0.len(), d.nx));
            }
            for i in 0..d.nx {
                let want = match cols.var[i] {
                    Some(k) => *init.get(&k).unwrap_or(&0.),
                    None => 0.,
                };
                ctx.count("initial_values");
                if x0[i] != want {
                    return ctx.fail("initial", format!("the initial value of column {} is {:?}, expected {:?}; sets given: {}", i, x0[i], want, nsets));
                }
            }
        }
    }
    ctx.count(&format!("class_{:?}", d.class));
    ctx.seen(spec.shape() ^ (nsets as u64));
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}

// ---------------------------------------------------------------- C10

pub fn c10(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let nv = if rng.chance(0.1) { rng.us(8, 30) } else { rng.us(1, 4) };
    let vars: Vec<Node> = {
        let nm = gen_names(rng, nv, NameStyle::Mixed);
        nm.iter().map(|n| make_var(n, rng.chance(0.2))).collect()
    };
    struct B {
        v: usize,
        upper: bool,
        val: f64,
        con: Constraint,
    }
    let nb = match rng.below(5) {
        0 => 1,
        1 => rng.us(2, 3),
        _ => rng.us(1, 4 * nv + 4),
    };
    let mut bounds: Vec<B> = Vec::new();
    let mut text: Vec<String> = Vec::new();
    let few = [-2., -1., 0., 1., 2.5];
    let style = rng.below(5);
    let near = rng.uniform(-20., 20.);
    let step = 10f64.powf(rng.uniform(-13., -2.));
    for _ in 0..nb {
        let v = rng.below(nv);
        let upper = rng.chance(0.5);
        let val = match style {
            0 => *rng.pick(&few),
            1 => rng.dyadic(50),
            2 => *rng.pick(&[-1e8, 1e8, 9.9e7, -9.9e7, 2e8, -2e8, 0., -5., 5., 1e7]),
            3 => near * (1. + step * rng.range(-5, 5) as f64),
            _ => rng.range(-1000, 1000) as f64 / 4. * (*rng.pick(&[1., 1024., 1. / 1024.])),
        };
        let x = &vars[v];
        let k = rng.dyadic(8);
        let f = rng.below(7);
        let big = val.abs() >= 1e6 || val.abs() < 0.01 || style == 3;
        let con = match (upper, if big { f % 2 } else { f }) {
            (true, 0) => x.leq(val),
            (true, 1) => x.leq(&ConstantScalar::new(val)),
            (true, 2) => (x + k).leq(val + k),
            (true, 3) => (x - k).leq(val - k),
            (true, 4) => x.leq(&ConstantScalar::new(val)),
            (true, 5) => (2. * x).leq(x + val),
            (true, _) => Constraint::new(x.clone(), ConstraintKind::LessEqual, ConstantScalar::new(val), "u"),
            (false, 0) => x.geq(val),
            (false, 1) => x.geq(&ConstantScalar::new(val)),
            (false, 2) => (x + k).geq(val + k),
            (false, 3) => (x - k).geq(val - k),
            (false, 4) => x.geq(ConstantScalar::new(val)),
            (false, 5) => (3. * x).geq(2. * x + val),
            (false, _) => Constraint::new(x.clone(), ConstraintKind::GreaterEqual, ConstantScalar::new(val), "l"),
        };
        text.push(format!("{}[{}] {} {:?}", x, v, if upper { "<=" } else { ">=" }, val));
        bounds.push(B { v, upper, val, con });
    }
    // Other constraints that are not simple bounds, in between
    let mut others: Vec<Constraint> = Vec::new();
    for _ in 0..rng.below(4) {
        let i = rng.below(nv);
        let j = rng.below(nv);
        if i == j {
            continue;
        }
        others.push(match rng.below(3) {
            0 => (&vars[i] + &vars[j]).leq(rng.dyadic(5)),
            1 => (&vars[i] * &vars[j]).geq(rng.dyadic(5)),
            _ => (&vars[i] - 2. * &vars[j]).equal(rng.dyadic(5)),
        });
    }
    let mut m = Model::new();
    let used: Vec<bool> = (0..nv).map(|_| rng.chance(0.6)).collect();
    let mut obj = ConstantScalar::new(0.);
    for k in 0..nv {
        if used[k] {
            obj = obj + &vars[k];
        }
    }
    if rng.chance(0.8) {
        m.set_objective(Objective::minimize(&obj));
    }
    let mut seq: Vec<(bool, usize)> = (0..bounds.len()).map(|i| (true, i)).collect();
    for i in 0..others.len() {
        let at = rng.below(seq.len() + 1);
        seq.insert(at, (false, i));
    }
    if rng.chance(0.1) {
        let k = *rng.pick(&seq);
        seq.push(k);
    }
    for (bd, i) in seq.iter() {
        if *bd {
            m.add_constraint(&bounds[*i].con);
        } else {
            m.add_constraint(&others[*i]);
        }
    }
    ctx.desc = format!("{:?}, {} other constraints", text, others.len());
    let b = Built { vars: vars.clone(), nodes: vec![], cons: vec![], model: m };
    let sp = match guarded(|| std_prob(&b)) {
        Ok(s) => s,
        Err(e) => return ctx.fail("standard-panic", e),
    };
    let d = std_data(&sp.prob);
    let cols = match columns(&b, &sp, d.nx) {
        Ok(c) => c,
        Err(e) => return ctx.fail("columns", e),
    };
    for k in 0..nv {
        let mut lo = -INF;
        let mut hi = INF;
        let mut any = false;
        for bd in bounds.iter().filter(|bd| bd.v == k) {
            any = true;
            if bd.upper {
                hi = hi.min(bd.val);
            } else {
                lo = lo.max(bd.val);
            }
        }
        let col = match cols.var.iter().position(|v| *v == Some(k)) {
            Some(c) => c,
            None => {
                if any {
                    return ctx.fail("column-missing", format!("no column for variable {}", k));
                }
                continue;
            }
        };
        ctx.count("limits_compared");
        if d.l[col] != lo || d.u[col] != hi {
            return ctx.fail(
                "limits",
                format!("the limits of variable {} are [{:?}, {:?}], expected [{:?}, {:?}]", k, d.l[col], d.u[col], lo, hi),
            );
        }
        for upper in [true, false].iter() {
            let at = if *upper { sp.uindex2constr.get(&col) } else { sp.lindex2constr.get(&col) };
            let lim = if *upper { hi } else { lo };
            let stated: Vec<&B> = bounds.iter().filter(|bd| bd.v == k && bd.upper == *upper && bd.val == lim).collect();
            match at {
                Some(c) => {
                    ctx.count("attributions");
                    if !stated.iter().any(|bd| bd.con == *c) {
                        return ctx.fail(
                            "attribution",
                            format!("the {} limit {:?} of variable {} is attributed to {}, which does not state it", if *upper { "upper" } else { "lower" }, lim, k, c),
                        );
                    }
                }
                None => {
                    if !stated.is_empty() && lim.abs() < INF {
                        return ctx.fail("attribution-missing", format!("the {} limit {:?} of variable {} is attributed to no constraint", if *upper { "upper" } else { "lower" }, lim, k));
                    }
                }
            }
        }
        let n = bounds.iter().filter(|bd| bd.v == k).count() as u64;
        ctx.max("bounds_on_one_variable", n);
    }
    for (i, c) in sp.uindex2constr.iter().chain(sp.lindex2constr.iter()) {
        if *i >= d.nx {
            return ctx.fail("attribution", format!("limit of column {} of {} is attributed to {}", i, d.nx, c));
        }
    }
    // The duals of these limits as reported by a solve; columns of equal names may be
    // ordered differently each time
    let nm: HashSet<String> = vars.iter().map(|v| v.name().to_string()).collect();
    if nm.len() != nv || nm.iter().any(|n| n.starts_with("_s_")) {
        ctx.count("models_without_dual_check");
        return;
    }
    let before = crate::stub::solve_with_unique_duals(b, &d);
    match before {
        Err(e) => return ctx.fail("solve", e),
        Ok((b, mu, pi)) => {
            let duals = b.model.final_duals();
            for k in 0..nv {
                let col = match cols.var.iter().position(|v| *v == Some(k)) {
                    Some(c) => c,
                    None => continue,
                };
                for upper in [true, false].iter() {
                    let lim = if *upper { d.u[col] } else { d.l[col] };
                    if lim.abs() >= INF {
                        continue;
                    }
                    let val = if *upper { mu[col] } else { pi[col] };
                    let mut uniq: HashSet<Constraint> = HashSet::new();
                    let mut sum = 0.;
                    for bd in bounds.iter().filter(|bd| bd.v == k && bd.upper == *upper) {
                        if !uniq.insert(bd.con.clone()) {
                            continue;
                        }
                        let got = duals.get(&bd.con).cloned().unwrap_or(0.);
                        if bd.val == lim {
                            sum += got;
                        } else if got != 0. {
                            return ctx.fail("dual", format!("{} is looser than {:?}, but has dual {:?}", bd.con, lim, got));
                        }
                    }
                    ctx.count("bound_duals");
                    if sum != val {
                        return ctx.fail("dual", format!("the constraints that state the limit {:?} of variable {} have dual {:?}, the solver gave {:?}", lim, k, sum, val));
                    }
                }
            }
        }
    }
    let mut sig = String::new();
    for bd in bounds.iter() {
        let r = bounds.iter().filter(|o| o.v == bd.v && o.upper == bd.upper && o.val < bd.val).count();
        sig.push_str(&format!("{}{}{};", bd.v, bd.upper, r));
    }
    ctx.seen(crate::rng::hash_str(&sig));
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}

// ---------------------------------------------------------------- C11

pub fn c11(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        return crate::p_big::model(ctx, true, true, false);
    }
    let mut cfg = mixed_cfg(false);
    cfg.bounds = 0.15;
    cfg.max_cons = 8;
    let mut tries = 0;
    let (spec, pts, mut s) = loop {
        tries += 1;
        let g = gen_model(&mut ctx.rng, &cfg);
        ctx.desc = g.spec.show();
        let s = match setup(ctx, &g.spec) {
            Some(s) => s,
            None => return,
        };
        if s.d.class == Class::Nlp || s.d.class == Class::Minlp || tries > 20 {
            break (g.spec, g.pts, s);
        }
    };
    if s.d.class == Class::Lp || s.d.class == Class::Milp {
        return;
    }
    let nv = spec.nv();
    let nx = s.d.nx;
    let cons_of_row: Vec<Option<usize>> = {
        let nf = std_eval(&mut s.sp.prob, &vec![0.5; nx]).f.len();
        let mut v = Vec::new();
        for r in 0..nf {
            let c = match s.sp.jindex2constr.get(&r) {
                None => return ctx.fail("row-unmapped", format!("nonlinear row {} of {} has no constraint", r, nf)),
                Some(c) => c,
            };
            v.push(s.b.cons.iter().position(|k| k == c));
            if v[r].is_none() {
                return ctx.fail("row-unmapped", format!("nonlinear row {} belongs to {} which is not in the model", r, c));
            }
        }
        v
    };
    // What is found at a point does not depend on the points before it
    for _ in 0..if nx > 0 { 3 } else { 0 } {
        let point = |ctx: &mut Ctx| -> Vec<f64> {
            let x = ctx.rng.pick(&pts).clone();
            (0..nx)
                .map(|i| match s.cols.var[i] {
                    Some(k) if ctx.rng.chance(0.7) => x[k],
                    _ => ctx.rng.dyadic(4),
                })
                .collect()
        };
        let (a, b, mut x) = (point(ctx), point(ctx), point(ctx));
        match ctx.rng.below(4) {
            0 => x = vec![0.; nx],
            1 => {
                let v = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 0.]);
                let k = ctx.rng.below(nx);
                x[k] = v;
            }
            2 => x = vec![*ctx.rng.pick(&[f64::NAN, f64::INFINITY, 1e300]); nx],
            _ => (),
        }
        let flat = |e: &EvalData| -> Vec<f64> {
            let mut v = vec![e.phi];
            v.extend(e.gphi.iter());
            v.extend(e.hphi.data().iter());
            v.extend(e.f.iter());
            v.extend(e.j.data().iter());
            for h in e.h.iter() {
                v.extend(h.data().iter());
            }
            v
        };
        let _ = std_eval(&mut s.sp.prob, &a);
        let p = flat(&std_eval(&mut s.sp.prob, &x));
        let _ = std_eval(&mut s.sp.prob, &b);
        let q = flat(&std_eval(&mut s.sp.prob, &x));
        ctx.count("evaluations_after_other_points");
        if p.iter().any(|v| !v.is_finite()) {
            ctx.count("evaluations_after_other_points_not_finite");
        }
        let same = p.len() == q.len() && p.iter().zip(q.iter()).all(|(u, v)| u == v || (u.is_nan() && v.is_nan()));
        if !same {
            return ctx.fail("stale", format!("at {:?}, the values are {:?} after {:?}, but {:?} after {:?}", x, p, a, q, b));
        }
    }
    let npts = ctx.rng.us(3, 8);
    let mut last: Option<Vec<f64>> = None;
    for step in 0..npts {
        // Points: the sample points and others near them; sometimes the same one again,
        // one that differs in a single entry, or one that is not a number.
        let mut x = ctx.rng.pick(&pts).clone();
        match ctx.rng.below(6) {
            0 => {
                if let Some(l) = &last {
                    x = l.clone();
                }
            }
            1 => {
                if let Some(l) = &last {
                    x = l.clone();
                    let k = ctx.rng.below(nv);
                    x[k] += ctx.rng.uniform(-0.2, 0.2);
                }
            }
            2 => {
                for k in 0..nv {
                    x[k] += ctx.rng.uniform(-0.1, 0.1);
                }
            }
            3 => {
                // Zeros, and values of other sizes
                let c = 10f64.powf(ctx.rng.uniform(-12., 2.));
                for k in 0..nv {
                    match ctx.rng.below(4) {
                        0 => x[k] = 0.,
                        1 => (),
                        _ => x[k] *= c,
                    }
                }
                ctx.count("points_of_other_sizes");
            }
            _ => (),
        }
        let mut full = vec![0.; nx];
        for i in 0..nx {
            full[i] = match s.cols.var[i] {
                Some(k) => x[k],
                None => ctx.rng.dyadic(4),
            };
        }
        if ctx.rng.chance(0.1) {
            // Something that leaves strange values behind
            let junk = vec![*ctx.rng.pick(&[f64::NAN, f64::INFINITY, 1e300]); nx];
            let _ = std_eval(&mut s.sp.prob, &junk);
            ctx.count("evaluations_at_junk");
        }
        let e = std_eval(&mut s.sp.prob, &full);
        ctx.count("evaluations");
        last = Some(x.clone());
        let jets = spec.prog.jets(&x, 2);
        let at = format!("evaluation {} at {:?}", step, x);
        let sign = match spec.obj {
            Some((true, _)) => -1.,
            _ => 1.,
        };
        let oj = match spec.obj {
            Some((_, o)) => jets[o].clone(),
            None => constant_jet(Num::zero(), nv, 2),
        };
        macro_rules! same {
            ($what:expr, $want:expr, $sg:expr, $got:expr) => {{
                let w: Num = $want;
                if w.ok() {
                    ctx.count("values_compared");
                    if !(($got - $sg * w.v).abs() <= 16. * w.tol() + 1e-250) {
                        return ctx.fail("value", format!("{}, {}: got {:?}, expected {:?}", at, $what, $got, $sg * w.v));
                    }
                }
            }};
        }
        same!("objective", oj.v, sign, e.phi);
        let col_of: HashMap<usize, usize> = s.cols.var.iter().enumerate().filter_map(|(i, v)| v.map(|k| (k, i))).collect();
        if e.gphi.len() != nx {
            return ctx.fail("gradient", format!("{}: gradient of length {}", at, e.gphi.len()));
        }
        for i in 0..nx {
            match s.cols.var[i] {
                Some(k) => same!(format!("gradient entry {}", i), oj.g[k], sign, e.gphi[i]),
                None => {
                    if e.gphi[i] != 0. {
                        return ctx.fail("gradient", format!("{}: gradient entry of a slack is {:?}", at, e.gphi[i]));
                    }
                }
            }
        }
        for k in 0..nv {
            if !col_of.contains_key(&k) && oj.g[k].ok() && oj.g[k].nonzero() {
                return ctx.fail("gradient", format!("{}: no column for {}", at, spec.names[k]));
            }
        }
        let hess = |ctx: &mut Ctx, what: &str, m: &numopt::matrix::coo::CooMat<f64>, want: &Jet, sg: f64| -> bool {
            let mut seen: HashMap<(usize, usize), f64> = HashMap::new();
            if m.rows() != nx || m.cols() != nx {
                ctx.fail("hessian-shape", format!("{}, {}: shape {} x {}", at, what, m.rows(), m.cols()));
                return false;
            }
            for (i, j, v) in m.iter() {
                if *i >= nx || *j > *i {
                    ctx.fail("hessian-triangle", format!("{}, {}: entry ({}, {}) is not in the lower triangle of {}", at, what, i, j, nx));
                    return false;
                }
                if seen.insert((*i, *j), *v).is_some() {
                    ctx.fail("hessian-twice", format!("{}, {}: entry ({}, {}) occurs twice", at, what, i, j));
                    return false;
                }
            }
            for i in 0..nx {
                for j in 0..=i {
                    let got = *seen.get(&(i, j)).unwrap_or(&0.);
                    let w = match (s.cols.var[i], s.cols.var[j]) {
                        (Some(p), Some(q)) => want.hess(p, q),
                        _ => Num::zero(),
                    };
                    if !w.ok() {
                        continue;
                    }
                    ctx.count("hessian_values_compared");
                    if w.nonzero() {
                        ctx.count("hessian_values_nonzero");
                    }
                    if !((got - sg * w.v).abs() <= 16. * w.tol() + 1e-250) {
                        ctx.fail("hessian", format!("{}, {} entry ({}, {}): got {:?}, expected {:?}", at, what, i, j, got, sg * w.v));
                        return false;
                    }
                }
            }
            true
        };
        if !hess(ctx, "objective Hessian", &e.hphi, &oj, sign) {
            return;
        }
        let nf = e.f.len();
        if nf != cons_of_row.len() || e.j.rows() != nf || e.h.len() != nf {
            return ctx.fail("rows", format!("{}: {} values, {} Jacobian rows, {} Hessians", at, nf, e.j.rows(), e.h.len()));
        }
        let mut jd = vec![0.; nf * nx];
        for (i, j, v) in e.j.iter() {
            if *i >= nf || *j >= nx {
                return ctx.fail("jacobian", format!("{}: Jacobian entry ({}, {})", at, i, j));
            }
            jd[i * nx + j] += *v;
        }
        for r in 0..nf {
            let c = match cons_of_row[r] {
                Some(c) => c,
                None => continue,
            };
            let want = spec.diff(c, &jets, nv, 2);
            // slack columns of this row
            let mut f = want.v;
            let mut ns = 0;
            for i in 0..nx {
                match s.cols.var[i] {
                    Some(k) => same!(format!("Jacobian entry ({}, {})", r, i), want.g[k], 1., jd[r * nx + i]),
                    None => {
                        let w = jd[r * nx + i];
                        if w != 0. {
                            ns += 1;
                            if w != -1. {
                                return ctx.fail("jacobian-slack", format!("{}: slack of row {} has coefficient {:?}", at, r, w));
                            }
                            f = f.sub(Num::c(full[i]));
                        }
                    }
                }
            }
            let ineq = spec.cons[c].kind != Kind::Eq;
            if ns != (ineq as usize) {
                return ctx.fail("jacobian-slack", format!("{}: row {} for {} has {} slacks", at, r, s.b.cons[c], ns));
            }
            same!(format!("constraint value {}", r), f, 1., e.f[r]);
            for k in 0..nv {
                if !col_of.contains_key(&k) && want.g[k].ok() && want.g[k].nonzero() {
                    return ctx.fail("jacobian", format!("{}: no column for {}", at, spec.names[k]));
                }
            }
            if !hess(ctx, &format!("Hessian of row {}", r), &e.h[r], &want, 1.) {
                return;
            }
        }
        ctx.max("nonlinear_rows", nf as u64);
    }
    ctx.count(&format!("class_{:?}", s.d.class));
    if s.d.class == Class::Nlp || s.d.class == Class::Minlp {
        ctx.seen(spec.shape());
    }
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}
