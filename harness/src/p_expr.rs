//! C01 to C05: expressions.

use numopt::model::node_std::NodeStd;
use numopt::model::*;
use std::collections::{HashMap, HashSet};

use crate::core::{guarded, refuses, Ctx};
use crate::expr::*;
use crate::rng::Rng;
use crate::spec::{gen_names, NameStyle};

/// New variables. Names mean nothing: they may be equal, empty, or look like others.
pub fn fresh_vars(rng: &mut Rng, n: usize) -> Vec<Node> {
    let names: Vec<String> = match rng.below(6) {
        0 => vec!["x".to_string(); n],
        1 => gen_names(rng, n, NameStyle::Mixed),
        2 => (0..n).map(|i| format!("x{}", i / 2)).collect(),
        _ => names(n, "x"),
    };
    names.iter().map(|s| if rng.chance(0.1) { VariableScalar::new_integer(s) } else { VariableScalar::new_continuous(s) }).collect()
}

pub fn names(n: usize, prefix: &str) -> Vec<String> {
    (0..n).map(|i| format!("{}{}", prefix, i)).collect()
}

pub fn show_point(x: &[f64]) -> String {
    format!("{:?}", x)
}

struct Case {
    prog: Prog,
    nv: usize,
    pts: Vec<Vec<f64>>,
    names: Vec<String>,
}

fn gen_case(ctx: &mut Ctx, raw: bool, max_paths: u64, max_depth: usize, max_ops: usize, max_vars: usize) -> Case {
    let rng = &mut ctx.rng;
    let nv = rng.us(1, max_vars);
    let nops = match rng.below(10) {
        0..=1 => rng.us(1, 3),
        2..=6 => rng.us(3, 10.min(max_ops)),
        _ => rng.us(5.min(max_ops), max_ops),
    };
    let npts = rng.us(2, 4);
    let mut pts: Vec<Vec<f64>> = (0..npts).map(|_| gen_point(rng, nv)).collect();
    // Zeros, and numbers of other sizes
    let scale = match rng.below(10) {
        0 => 10f64.powf(rng.uniform(-25., -3.)),
        1 if rng.chance(0.4) => 10f64.powf(rng.uniform(2., 12.)),
        _ => 1.,
    };
    let mixed = rng.chance(0.5);
    for v in pts.iter_mut().flatten() {
        if scale != 1. && !(mixed && rng.chance(0.3)) {
            *v *= scale;
        }
        if rng.chance(0.03) {
            *v = 0.;
        }
    }
    let cfg = GenCfg {
        nvars: nv,
        nops,
        trig: rng.chance(0.6),
        div: rng.chance(0.6),
        raw,
        affine_only: rng.chance(0.1),
        max_paths,
        max_depth,
        max_abs: 1e8 * scale.max(1.),
        scale,
    };
    let mut prog = Prog::new();
    gen_ops(rng, &mut prog, &cfg, &pts);
    Case { prog, nv, pts, names: names(nv, "x") }
}

fn long_sum(ctx: &mut Ctx, nv: usize) -> Prog {
    // A wide expression: many terms added one at a time, some cancelling.
    let mut prog = Prog::new();
    for v in 0..nv {
        prog.push(Op::Var(v));
    }
    let mut acc = 0;
    for k in 0..nv {
        let c = ctx.rng.nonzero();
        let t = match ctx.rng.below(4) {
            0 => prog.push(Op::Bin(Bop::Mul, Arg::R(k), Arg::N(c), 0)),
            1 => prog.push(Op::Bin(Bop::Mul, Arg::N(c), Arg::R(k), 1)),
            2 => {
                let s = prog.push(Op::Sin(k));
                prog.push(Op::Bin(Bop::Mul, Arg::R(s), Arg::R(k), 0))
            }
            _ => prog.push(Op::Bin(Bop::Add, Arg::R(k), Arg::N(c), 0)),
        };
        let b = if ctx.rng.chance(0.3) { Bop::Sub } else { Bop::Add };
        let f = ctx.rng.below(4) as u8;
        acc = prog.push(Op::Bin(b, Arg::R(acc), Arg::R(t), f));
    }
    prog
}

fn check_value(ctx: &mut Ctx, what: &str, want: &Num, got: f64) -> bool {
    if !want.ok() {
        ctx.count("skipped_ill_conditioned");
        return true;
    }
    ctx.count("values_compared");
    if want.tol() < 1e-7 * (1e-3 + want.v.abs()) {
        ctx.count("values_compared_tightly");
    }
    if !want.matches(got) {
        ctx.fail(
            "value",
            format!("{}: got {:?}, expected {:?} within {:e}", what, got, want.v, want.tol()),
        );
        return false;
    }
    true
}

fn long_case(ctx: &mut Ctx, lo: usize, hi: usize) -> Case {
    let nv = ctx.rng.us(lo, hi);
    let prog = long_sum(ctx, nv);
    let p = gen_point(&mut ctx.rng, nv);
    Case { prog, nv, pts: vec![p], names: names(nv, "x") }
}

/// One operation upon the other, many times; values stay small.
fn deep(rng: &mut Rng, nv: usize, depth: usize) -> Prog {
    let mut prog = Prog::new();
    for v in 0..nv {
        prog.push(Op::Var(v));
    }
    deep_on(rng, &mut prog, nv, 0, depth);
    prog
}

/// Operations upon acc.
pub fn deep_on(rng: &mut Rng, prog: &mut Prog, nv: usize, mut acc: usize, depth: usize) -> usize {
    let raw = rng.chance(0.3);
    let mostly = rng.below(6);
    // Once or twice the same argument is taken twice, mostly far below
    let mut twice: Vec<usize> = (0..rng.below(3)).map(|_| if depth > 60 || rng.chance(0.6) { rng.below(3) } else { rng.below(depth) }).collect();
    twice.dedup();
    for k in 0..depth {
        if twice.contains(&k) {
            acc = double(rng, prog, acc);
        }
        let f = rng.below(4) as u8;
        let k = prog.push(Op::Var(rng.below(nv)));
        let c = rng.uniform(0.3, 1.2) * if rng.chance(0.5) { 1. } else { -1. };
        let what = if rng.chance(0.5) { mostly } else { rng.below(6) };
        acc = match what {
            0 => prog.push(if raw { Op::RawSin(acc) } else { Op::Sin(acc) }),
            1 => prog.push(if raw { Op::RawCos(acc) } else { Op::Cos(acc) }),
            2 => {
                // c*(...) + x
                let m = prog.push(Op::Bin(Bop::Mul, Arg::N(c * 0.8), Arg::R(acc), f));
                prog.push(Op::Bin(Bop::Add, Arg::R(m), Arg::R(k), f))
            }
            3 => {
                // sin(...)*x
                let m = prog.push(Op::Sin(acc));
                let (a, b) = if rng.chance(0.5) { (m, k) } else { (k, m) };
                prog.push(if raw { Op::RawMul(a, b) } else { Op::Bin(Bop::Mul, Arg::R(a), Arg::R(b), f) })
            }
            4 => {
                // x/(cos(...) + 2.5)
                let m = prog.push(Op::Cos(acc));
                let d = prog.push(Op::Bin(Bop::Add, Arg::R(m), Arg::N(2.5), f));
                prog.push(if raw { Op::RawDiv(k, d) } else { Op::Bin(Bop::Div, Arg::R(k), Arg::R(d), f) })
            }
            _ => {
                let b = *rng.pick(&[Bop::Sub, Bop::Add]);
                let d = if c.abs() < 1. { 1.5 } else { c };
                let m = prog.push(Op::Bin(Bop::Div, Arg::R(acc), Arg::N(d), f));
                prog.push(Op::Bin(b, Arg::R(m), Arg::N(c), f))
            }
        };
    }
    acc
}

/// The same argument twice; values do not get much larger.
fn double(rng: &mut Rng, prog: &mut Prog, acc: usize) -> usize {
    let f = rng.below(4) as u8;
    let m = if rng.chance(0.5) { acc } else { prog.push(Op::Sin(acc)) };
    let (a, b) = (Arg::R(m), Arg::R(m));
    match rng.below(5) {
        0 => prog.push(Op::RawMul(m, m)),
        1 => prog.push(Op::Bin(Bop::Mul, a, b, f)),
        2 => prog.push(Op::Bin(Bop::Add, a, b, f)),
        3 => {
            let (p, q) = (prog.push(Op::Sin(m)), prog.push(Op::Cos(m)));
            prog.push(Op::Bin(Bop::Mul, Arg::R(p), Arg::R(q), f))
        }
        _ => {
            let p = prog.push(Op::Bin(Bop::Mul, Arg::N(1.5), b, f));
            prog.push(Op::Bin(Bop::Add, a, Arg::R(p), f))
        }
    }
}

fn deep_case(ctx: &mut Ctx, lo: usize, hi: usize) -> Case {
    let nv = ctx.rng.us(1, 4);
    let n = ctx.rng.us(lo, hi);
    let prog = deep(&mut ctx.rng, nv, n);
    let p = gen_point(&mut ctx.rng, nv);
    ctx.count("deep_expressions");
    ctx.max("max_depth", prog.depths()[prog.root()] as u64);
    Case { prog, nv, pts: vec![p], names: names(nv, "x") }
}

/// A sum of many terms, for other monitors.
pub fn wide_case_for(ctx: &mut Ctx, lo: usize, hi: usize) -> (Prog, usize, String) {
    let nv = ctx.rng.us(lo, hi);
    let prog = long_sum(ctx, nv);
    let t = prog.show(prog.root(), &names(nv, "x"));
    ctx.count("wide_expressions");
    (prog, nv, t)
}

/// The same for other monitors.
pub fn deep_case_for(ctx: &mut Ctx, lo: usize, hi: usize) -> (Prog, usize, String) {
    let c = deep_case(ctx, lo, hi);
    let t = c.prog.show(c.prog.root(), &c.names);
    (c.prog, c.nv, t)
}

// ---------------------------------------------------------------- C01

pub fn c01(ctx: &mut Ctx) {
    if ctx.idx % 50 == 7 {
        return c01_div_zero(ctx);
    }
    let c = if ctx.idx % 1100 == 11 {
        long_case(ctx, 150, 600)
    } else if ctx.idx % 1009 == 62 {
        deep_case(ctx, 200, 600)
    } else if ctx.idx % 100 == 11 {
        long_case(ctx, 20, 150)
    } else if ctx.idx % 101 == 61 {
        deep_case(ctx, 30, 150)
    } else {
        gen_case(ctx, false, 5000, 40, 40, 6)
    };
    let root = c.prog.root();
    ctx.desc = format!("{} at {:?}", c.prog.show(root, &c.names), c.pts);
    let vars = fresh_vars(&mut ctx.rng, c.nv);
    let nodes = match guarded(|| c.prog.build(&vars)) {
        Ok(n) => n,
        Err(e) => {
            ctx.fail("build-panic", format!("building a valid expression failed: {}", e));
            return;
        }
    };
    for (pi, x) in c.pts.iter().enumerate() {
        let want = c.prog.jets(x, 0);
        let vals = assignment(&vars, x);
        for (i, n) in nodes.iter().enumerate() {
            let got = n.evaluate(&vals);
            if !check_value(
                ctx,
                &format!("value of {} at {}", c.prog.show(i, &c.names), show_point(x)),
                &want[i].v,
                got,
            ) {
                return;
            }
            // A clone is the same expression.
            if pi == 0 && i == root {
                let g2 = n.clone().evaluate(&vals);
                if !(g2 == got || (g2.is_nan() && got.is_nan())) {
                    ctx.fail("clone-value", format!("clone evaluates to {:?}, original to {:?}", g2, got));
                }
            }
        }
    }
    ctx.add("expressions", nodes.len() as u64);
    if c.prog.ops.len() > c.nv + 1 {
        ctx.seen(c.prog.shape(root));
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

fn c01_div_zero(ctx: &mut Ctx) {
    let v = fresh_vars(&mut ctx.rng, 2);
    let zero = if ctx.rng.chance(0.5) { 0. } else { -0. };
    let z = ConstantScalar::new(zero);
    let k = ctx.rng.nonzero();
    let others: Vec<Node> = vec![v[0].clone(), &v[0] + &v[1], &v[0] * &v[1], v[1].sin(), ConstantScalar::new(k)];
    let e = ctx.rng.pick(&others).clone();
    ctx.desc = format!("{} divided by literal {:?}", e, zero);
    let res = vec![
        ("node/f64", refuses(|| &e / zero)),
        ("owned/f64", refuses(|| e.clone() / zero)),
        ("&/&const", refuses(|| &e / &z)),
        ("&/const", refuses(|| &e / z.clone())),
        ("owned/&const", refuses(|| e.clone() / &z)),
        ("owned/const", refuses(|| e.clone() / z.clone())),
        ("f64/&const", refuses(|| k / &z)),
        ("f64/const", refuses(|| k / z.clone())),
    ];
    for (form, r) in res {
        ctx.count("zero_divisions");
        if !r {
            ctx.fail("div-zero-accepted", format!("division by a literal zero was accepted in form {}", form));
        }
    }
}

// ---------------------------------------------------------------- C02

pub fn c02(ctx: &mut Ctx) {
    let c = if ctx.idx % 1009 == 50 {
        deep_case(ctx, 200, 400)
    } else if ctx.idx % 100 == 13 {
        let nv = if ctx.idx % 5500 == 13 { ctx.rng.us(130, 300) } else { ctx.rng.us(20, 80) };
        let prog = long_sum(ctx, nv);
        let p = gen_point(&mut ctx.rng, nv);
        Case { prog, nv, pts: vec![p], names: names(nv, "x") }
    } else if ctx.idx % 101 == 63 {
        deep_case(ctx, 20, 120)
    } else {
        gen_case(ctx, true, 400, 14, 25, 5)
    };
    let root = c.prog.root();
    ctx.desc = format!("{} at {:?}", c.prog.show(root, &c.names), c.pts);
    let vars = fresh_vars(&mut ctx.rng, c.nv);
    let foreign = VariableScalar::new_continuous("x0");
    let nodes = match guarded(|| c.prog.build(&vars)) {
        Ok(n) => n,
        Err(e) => return ctx.fail("build-panic", e),
    };
    // Root and one inner expression
    let mut targets = vec![root];
    if c.prog.ops.len() > 1 {
        targets.push(ctx.rng.below(c.prog.ops.len()));
    }
    for t in targets {
        // One at a time
        let mut single: Vec<Node> = Vec::new();
        for v in vars.iter() {
            single.push(nodes[t].derivative(v));
        }
        let df = nodes[t].derivative(&foreign);
        // Several at once (a random subset with a foreign variable, in random order)
        let mut sub: Vec<usize> = (0..c.nv).filter(|_| ctx.rng.chance(0.7)).collect();
        ctx.rng.shuffle(&mut sub);
        let mut args: Vec<&Node> = sub.iter().map(|k| &vars[*k]).collect();
        if ctx.rng.chance(0.3) && !args.is_empty() {
            let d = args[0];
            args.push(d);
        }
        let with_foreign = ctx.rng.chance(0.5);
        if with_foreign {
            let k = ctx.rng.below(args.len() + 1);
            args.insert(k, &foreign);
        }
        if let Err(e) = partials(ctx, &nodes[t], &vars, &foreign, &c.pts) {
            return ctx.fail("partial", e);
        }
        let many = nodes[t].derivatives(&args);
        for x in c.pts.iter() {
            let want = c.prog.jets(x, 1);
            let mut vals = assignment(&vars, x);
            for (k, d) in single.iter().enumerate() {
                let got = d.evaluate(&vals);
                let w = want[t].g[k];
                if !check_value(
                    ctx,
                    &format!("d/d{} of {} at {}", c.names[k], c.prog.show(t, &c.names), show_point(x)),
                    &w,
                    got,
                ) {
                    return;
                }
                if w.nonzero() {
                    ctx.count("nonzero_partials");
                }
            }
            for k in sub.iter() {
                match many.get(&vars[*k]) {
                    None => return ctx.fail("derivatives-missing", format!("derivatives() has no entry for {}", c.names[*k])),
                    Some(d) => {
                        let got = d.evaluate(&vals);
                        if !check_value(
                            ctx,
                            &format!("derivatives()[{}] of {} at {}", c.names[*k], c.prog.show(t, &c.names), show_point(x)),
                            &want[t].g[*k],
                            got,
                        ) {
                            return;
                        }
                    }
                }
            }
            vals.insert(&foreign, 1.5);
            if df.evaluate(&vals) != 0. {
                return ctx.fail("foreign-derivative", format!("derivative with respect to a variable that does not occur is {}", df));
            }
            if with_foreign {
                match many.get(&foreign) {
                    Some(d) if d.evaluate(&vals) == 0. => (),
                    _ => return ctx.fail("foreign-derivative", "derivatives() of a variable that does not occur is not zero".to_string()),
                }
            }
        }
        if many.len() != args.iter().collect::<HashSet<_>>().len() {
            return ctx.fail("derivatives-extra", format!("derivatives() has {} entries for {} variables", many.len(), args.len()));
        }
        ctx.max("max_paths", c.prog.paths()[t]);
    }
    ctx.count("expressions");
    if c.prog.ops.len() > c.nv + 1 {
        ctx.seen(c.prog.shape(root));
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

/// Partial derivatives of an expression with respect to its direct arguments,
/// where an argument occurs once, and with respect to something that is no argument.
fn partials(ctx: &mut Ctx, node: &Node, vars: &[Node], foreign: &Node, pts: &[Vec<f64>]) -> Result<(), String> {
    let args: Vec<Node> = node.arguments().into_iter().cloned().collect();
    if args.len() > 40 {
        return Ok(());
    }
    let small = |v: f64| v.is_finite() && v.abs() < 1e60 && (v == 0. || v.abs() > 1e-60);
    let other = node.partial(foreign);
    for x in pts.iter() {
        let mut vals = assignment(vars, x);
        vals.insert(foreign, 1.5);
        let v: Vec<f64> = args.iter().map(|a| a.evaluate(&vals)).collect();
        if other.evaluate(&vals) != 0. {
            return Err(format!("partial derivative of {} with respect to something that is no argument is {}", node, other));
        }
        ctx.count("zero_direct_partials");
        if v.iter().any(|v| !small(*v)) {
            continue;
        }
        for (k, a) in args.iter().enumerate() {
            if args.iter().filter(|b| *b == a).count() != 1 {
                continue;
            }
            let want = match node {
                Node::FunctionAdd(_) => 1.,
                Node::FunctionMul(_) => v[1 - k],
                Node::FunctionDiv(_) if v[1] == 0. => continue,
                Node::FunctionDiv(_) if k == 0 => 1. / v[1],
                Node::FunctionDiv(_) => -v[0] / (v[1] * v[1]),
                Node::FunctionSin(_) => v[0].cos(),
                Node::FunctionCos(_) => -v[0].sin(),
                _ => continue,
            };
            let d = node.partial(a);
            let got = d.evaluate(&vals);
            ctx.count("direct_partials");
            if !((got - want).abs() <= 1e-9 * want.abs() + 1e-200) {
                return Err(format!("partial derivative of {} with respect to its argument {} is {} = {:?} at {}, expected {:?}", node, a, d, got, show_point(x), want));
            }
        }
    }
    if let Node::VariableScalar(_) = node {
        let vals = assignment(vars, &pts[0]);
        if node.partial(node).evaluate(&vals) != 1. {
            return Err("partial derivative of a variable with respect to itself is not one".to_string());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

/// Number of simple derivative paths two levels deep is quadratic in the paths: keep small.
pub fn c03(ctx: &mut Ctx) {
    let c = if ctx.idx % 100 == 13 {
        long_case(ctx, 8, 30)
    } else if ctx.idx % 101 == 37 {
        deep_case(ctx, 8, 16)
    } else {
        gen_case(ctx, true, 40, 9, 14, 5)
    };
    let root = c.prog.root();
    ctx.desc = format!("{} at {:?}", c.prog.show(root, &c.names), c.pts);
    let vars = fresh_vars(&mut ctx.rng, c.nv);
    let nodes = match guarded(|| c.prog.build(&vars)) {
        Ok(n) => n,
        Err(e) => return ctx.fail("build-panic", e),
    };
    let f = &nodes[root];
    let comp = f.std_components();
    let index: HashMap<&Node, usize> = vars.iter().enumerate().map(|(i, v)| (v, i)).collect();
    let contained: HashSet<usize> = node_vars(f).iter().map(|v| *index.get(v).unwrap_or(&usize::MAX)).collect();
    // Gradient entries
    let mut gseen: HashSet<usize> = HashSet::new();
    for (v, _) in comp.gphi.iter() {
        match index.get(v) {
            None => return ctx.fail("gradient-unknown", format!("gradient entry for unknown variable {}", v)),
            Some(k) => {
                if !gseen.insert(*k) {
                    return ctx.fail("gradient-twice", format!("two gradient entries for {}", v));
                }
            }
        }
    }
    for k in contained.iter() {
        if !gseen.contains(k) {
            return ctx.fail("gradient-missing", format!("no gradient entry for {}", c.names[*k]));
        }
    }
    // Hessian entries
    let mut hseen: HashMap<(usize, usize), &Node> = HashMap::new();
    for (v1, v2, e) in comp.hphi.iter() {
        match (index.get(v1), index.get(v2)) {
            (Some(i), Some(j)) => {
                let key = if i >= j { (*i, *j) } else { (*j, *i) };
                if hseen.insert(key, e).is_some() {
                    return ctx.fail("hessian-twice", format!("two Hessian entries for {} {}", v1, v2));
                }
            }
            _ => return ctx.fail("hessian-unknown", format!("Hessian entry for unknown variables {} {}", v1, v2)),
        }
    }
    let mut nz = 0;
    for x in c.pts.iter() {
        let want = &c.prog.jets(x, 2)[root];
        let vals = assignment(&vars, x);
        if !check_value(ctx, "standard expression", &want.v, comp.phi.evaluate(&vals)) {
            return;
        }
        for (v, e) in comp.gphi.iter() {
            let k = index[v];
            if !check_value(ctx, &format!("gradient entry {} at {}", v, show_point(x)), &want.g[k], e.evaluate(&vals)) {
                return;
            }
        }
        for k in 0..c.nv {
            if !gseen.contains(&k) && want.g[k].nonzero() && want.g[k].ok() {
                return ctx.fail("gradient-missing", format!("no gradient entry for {} but the derivative is {}", c.names[k], want.g[k].v));
            }
        }
        for i in 0..c.nv {
            for j in 0..=i {
                let w = want.hess(i, j);
                if w.ok() && w.nonzero() {
                    nz += 1;
                }
                match hseen.get(&(i, j)) {
                    Some(e) => {
                        if !check_value(
                            ctx,
                            &format!("Hessian entry {} {} at {}", c.names[i], c.names[j], show_point(x)),
                            &w,
                            e.evaluate(&vals),
                        ) {
                            return;
                        }
                    }
                    None => {
                        ctx.count("unlisted_pairs");
                        if w.ok() && w.nonzero() {
                            return ctx.fail(
                                "hessian-missing",
                                format!("pair {} {} is not listed but its second derivative at {} is {}", c.names[i], c.names[j], show_point(x), w.v),
                            );
                        }
                    }
                }
            }
        }
    }
    ctx.add("nonzero_second_derivatives", nz);
    ctx.add("hessian_entries", comp.hphi.len() as u64);
    ctx.count("expressions");
    if nz > 0 {
        ctx.seen(c.prog.shape(root));
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

// ---------------------------------------------------------------- C04

/// What is reported as a constant has its value everywhere; a number is a constant.
fn constant_wrong(n: &Node, op: &Op, nothing: &HashMap<&Node, f64>, values: impl Iterator<Item = Num>) -> Option<String> {
    let v = n.evaluate(nothing);
    match op {
        Op::Const(c) if !(n.is_constant() && n.is_constant_with_value(*c) && v.to_bits() == c.to_bits()) => {
            return Some(format!("the number {} is no constant with this value", c));
        }
        Op::Var(_) if n.is_constant() => return Some("a variable is reported as constant".to_string()),
        _ => (),
    }
    if !n.is_constant() {
        let other = [0., 1., v].iter().any(|x| n.is_constant_with_value(*x));
        return if other { Some("it is no constant and has a constant value".to_string()) } else { None };
    }
    if v.is_finite() && (!n.is_constant_with_value(v) || n.is_constant_with_value(v + 1. + v.abs())) {
        return Some(format!("a constant evaluates to {} but has another value", v));
    }
    for w in values {
        if w.ok() && !((w.v - v).abs() <= TOLU * (w.e + w.v.abs()) + 1e-290) {
            return Some(format!("reported as the constant {}, it has the value {}", v, w.v));
        }
    }
    None
}

pub fn c04(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let nv = if rng.chance(0.05) { rng.us(10, 60) } else { rng.us(1, 6) };
    let mut pts: Vec<Vec<f64>> = (0..3).map(|_| gen_point(rng, nv)).collect();
    let scale = if rng.chance(0.1) { 10f64.powf(rng.uniform(-25., 10.)) } else { 1. };
    for v in pts.iter_mut().flatten() {
        *v *= scale;
    }
    let affine_only = rng.chance(0.65);
    let cfg = GenCfg {
        nvars: nv,
        nops: rng.us(1, 22) + if nv > 6 { nv } else { 0 },
        trig: rng.chance(0.5),
        div: true,
        raw: rng.chance(0.6),
        affine_only,
        max_paths: 20000,
        max_depth: 30,
        max_abs: 1e8 * scale.max(1.),
        scale,
    };
    let mut prog = Prog::new();
    if rng.chance(0.3) {
        // Constants first, so that constant factors are composed ones.
        let k = rng.us(1, 3);
        for _ in 0..k {
            let c = rng.nonzero();
            let i = prog.push(Op::Const(c));
            if rng.chance(0.5) {
                let j = prog.push(Op::Const(rng.nonzero()));
                match rng.below(4) {
                    0 => prog.push(Op::RawAdd(vec![i, j])),
                    1 => prog.push(Op::RawMul(i, j)),
                    2 => prog.push(Op::RawDiv(i, j)),
                    _ => {
                        if affine_only {
                            prog.push(Op::Cos(i))
                        } else {
                            prog.push(Op::RawCos(i))
                        }
                    }
                };
            }
        }
    }
    gen_ops(rng, &mut prog, &cfg, &pts);
    if rng.chance(0.01) {
        // Many operations one upon the other
        let mut acc = prog.root();
        for _ in 0..rng.us(30, 120) {
            let f = rng.below(4) as u8;
            let c = rng.uniform(0.6, 1.3) * if rng.chance(0.5) { 1. } else { -1. };
            acc = match rng.below(6) {
                0 => prog.push(Op::Bin(Bop::Mul, Arg::N(c), Arg::R(acc), f)),
                1 => prog.push(Op::Bin(Bop::Mul, Arg::R(acc), Arg::N(c), f)),
                2 => prog.push(Op::Bin(Bop::Div, Arg::R(acc), Arg::N(c), f)),
                3 => prog.push(Op::Bin(Bop::Sub, Arg::N(c), Arg::R(acc), f)),
                4 => prog.push(Op::Neg(acc, f)),
                _ => {
                    let v = prog.push(Op::Var(rng.below(nv)));
                    prog.push(Op::Bin(Bop::Sub, Arg::R(v), Arg::R(acc), f))
                }
            };
        }
        ctx.count("deep_expressions");
    }
    let rng = &mut ctx.rng;
    if rng.chance(0.1) {
        // A badly scaled term
        let (k, c) = (rng.below(nv), *rng.pick(&[1e-9, -1e-11, 1e-13, -3e-16, 1e-20, 1e12]));
        let r = prog.root();
        let v = prog.push(Op::Var(k));
        let t = prog.push(if rng.chance(0.5) { Op::Bin(Bop::Mul, Arg::R(v), Arg::N(c), 0) } else { Op::Bin(Bop::Mul, Arg::N(c), Arg::R(v), 0) });
        prog.push(if rng.chance(0.5) { Op::Bin(Bop::Add, Arg::R(r), Arg::R(t), 0) } else { Op::Bin(Bop::Sub, Arg::R(t), Arg::R(r), 1) });
    }
    let nm = names(nv, "x");
    let root = prog.root();
    ctx.desc = format!("{} at {:?}", prog.show(root, &nm), pts);
    let vars = fresh_vars(&mut ctx.rng, nv);
    let nodes = match guarded(|| prog.build(&vars)) {
        Ok(n) => n,
        Err(e) => return ctx.fail("build-panic", e),
    };
    let index: HashMap<&Node, usize> = vars.iter().enumerate().map(|(i, v)| (v, i)).collect();
    let (aff, _con) = prog.affine_flags();
    let mut more: Vec<Vec<f64>> = pts.clone();
    more.push(vec![0.; nv]);
    let jets: Vec<Vec<Jet>> = pts.iter().map(|x| prog.jets(x, 1)).collect();
    let nothing: HashMap<&Node, f64> = HashMap::new();
    for (i, n) in nodes.iter().enumerate() {
        if let Some(e) = constant_wrong(n, &prog.ops[i], &nothing, jets.iter().map(|j| j[i].v)) {
            return ctx.fail("constant", format!("{} (written as {}): {}", n, prog.show(i, &nm), e));
        }
        ctx.add("constants_compared", n.is_constant() as u64);
        let p = n.std_properties();
        let contained: HashSet<usize> = node_vars(n).iter().map(|v| *index.get(v).unwrap_or(&usize::MAX)).collect();
        let mut reported: HashSet<usize> = HashSet::new();
        for (v, _) in p.a.iter() {
            match index.get(v) {
                Some(k) => {
                    reported.insert(*k);
                    if !contained.contains(k) {
                        return ctx.fail("variable-extra", format!("{} reported for {} which does not contain it", v, n));
                    }
                }
                None => return ctx.fail("variable-extra", format!("unknown variable {} reported for {}", v, n)),
            }
        }
        for k in 0..nv {
            let dep = jets.iter().any(|j| j[i].g[k].ok() && j[i].g[k].nonzero());
            if dep && !reported.contains(&k) {
                return ctx.fail("variable-missing", format!("{} not reported for {} which depends on it", nm[k], n));
            }
        }
        if aff[i] && !p.affine {
            return ctx.fail("affine-incomplete", format!("{} (written as {}) is not reported as affine", n, prog.show(i, &nm)));
        }
        if p.affine {
            for (x, js) in pts.iter().zip(jets.iter()) {
                let mut s = Num::c(p.b);
                for (v, a) in p.a.iter() {
                    s = s.add(Num::c(*a).mul(Num::c(x[index[v]])));
                }
                let w = js[i].v;
                ctx.count("affine_values_compared");
                if !w.ok() {
                    continue;
                }
                // Coefficients come with errors of their own; bound them by the same paths.
                let mut ge = 0.;
                for k in 0..nv {
                    ge += js[i].g[k].e * x[k].abs();
                }
                let tol = TOLU * (w.e + s.e + w.v.abs() + ge) + 1e-290;
                if !((s.v - w.v).abs() <= tol) {
                    return ctx.fail(
                        "affine-unsound",
                        format!(
                            "{} is reported as affine with value {:?} at {}, but evaluates to {:?} (coefficients {:?}, constant {:?})",
                            n, s.v, show_point(x), w.v, p.a, p.b
                        ),
                    );
                }
            }
            ctx.count("affine_reported");
        } else {
            ctx.count("not_affine_reported");
        }
        if aff[i] {
            ctx.count("affine_written");
        }
    }
    if prog.ops.len() > nv + 1 {
        ctx.seen(prog.shape(root));
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

// ---------------------------------------------------------------- C05

pub fn c05(ctx: &mut Ctx) {
    let c = if ctx.idx % 101 == 17 { deep_case(ctx, 30, 150) } else { gen_case(ctx, true, 3000, 25, 25, 6) };
    ctx.desc = format!("{} at {:?}", c.prog.show(c.prog.root(), &c.names), c.pts);
    let vars = fresh_vars(&mut ctx.rng, c.nv);
    let nodes = match guarded(|| c.prog.build(&vars)) {
        Ok(n) => n,
        Err(e) => return ctx.fail("build-panic", e),
    };
    let index: HashMap<&Node, usize> = vars.iter().enumerate().map(|(i, v)| (v, i)).collect();
    for x in c.pts.iter() {
        let jets = c.prog.jets(x, 1);
        for _ in 0..3 {
            let pm = *ctx.rng.pick(&[0.2, 0.5, 1.0]);
            let missing: Vec<bool> = (0..c.nv).map(|_| ctx.rng.chance(pm)).collect();
            // Values of other variables of the same names say nothing
            let others: Vec<Node> = if ctx.rng.chance(0.4) {
                ctx.count("assignments_with_namesakes");
                vars.iter().map(|v| VariableScalar::new_continuous(v.name())).collect()
            } else {
                vec![]
            };
            let vals: HashMap<&Node, f64> = vars
                .iter()
                .zip(x.iter())
                .zip(missing.iter())
                .filter(|(_, m)| !**m)
                .map(|((v, x), _)| (v, *x))
                .chain(others.iter().map(|o| (o, 1.5)))
                .collect();
            for (i, n) in nodes.iter().enumerate() {
                let got = n.evaluate(&vals);
                let depends = (0..c.nv).any(|k| missing[k] && jets[i].g[k].ok() && jets[i].g[k].nonzero());
                let contains = node_vars(n).iter().any(|v| missing[index[v]]);
                if depends || contains {
                    ctx.count("missing_value_evaluations");
                    if !got.is_nan() {
                        return ctx.fail(
                            "missing-value",
                            format!("{} evaluates to {:?} although a variable that occurs in it has no value (missing {:?})", c.prog.show(i, &c.names), got, missing),
                        );
                    }
                } else {
                    if !check_value(ctx, &format!("value of {}", c.prog.show(i, &c.names)), &jets[i].v, got) {
                        return;
                    }
                }
            }
            // Constraints over pairs of expressions, and expressions and numbers
            for _ in 0..4 {
                let l = ctx.rng.below(nodes.len());
                let r = ctx.rng.below(nodes.len());
                let kind = ctx.rng.below(3);
                let form = ctx.rng.below(4);
                let lv = nodes[l].evaluate(&vals);
                let rv;
                let con = match form {
                    0 | 1 => {
                        rv = nodes[r].evaluate(&vals);
                        match (kind, form) {
                            (0, 0) => nodes[l].equal(&nodes[r]),
                            (0, _) => nodes[l].equal(nodes[r].clone()),
                            (1, 0) => nodes[l].leq(&nodes[r]),
                            (1, _) => nodes[l].leq(nodes[r].clone()),
                            (_, 0) => nodes[l].geq(&nodes[r]),
                            (_, _) => nodes[l].geq(nodes[r].clone()),
                        }
                    }
                    _ => {
                        // Close to, at, or away from the value
                        let base = if lv.is_finite() { lv } else { 1. };
                        rv = match ctx.rng.below(5) {
                            0 => base,
                            1 => base + 1e-9 * (1. + base.abs()),
                            2 => base - 1e-9 * (1. + base.abs()),
                            _ => base + ctx.rng.uniform(-5., 5.),
                        };
                        match (kind, form) {
                            (0, 2) => nodes[l].equal(rv),
                            (1, 2) => nodes[l].leq(rv),
                            (2, 2) => nodes[l].geq(rv),
                            // number on the left: the sides are swapped
                            (0, _) => rv.equal(&nodes[l]),
                            (1, _) => rv.leq(&nodes[l]),
                            (_, _) => rv.geq(nodes[l].clone()),
                        }
                    }
                };
                let (a, b) = if form == 3 { (rv, lv) } else { (lv, rv) };
                let v = con.violation(&vals);
                ctx.count("violations_compared");
                let d = match kind {
                    0 => (a - b).abs(),
                    1 => a - b,
                    _ => b - a,
                };
                let text = || format!("violation of {} with sides {:?} and {:?} is {:?}", con, a, b, v);
                if a.is_nan() || b.is_nan() {
                    ctx.count("violations_undefined");
                    if !v.is_nan() {
                        return ctx.fail("violation-undefined", format!("{}, expected NaN", text()));
                    }
                } else if d.is_nan() {
                    // both sides infinite
                } else if d <= 0. {
                    ctx.count("violations_zero");
                    if v != 0. {
                        return ctx.fail("violation-zero", format!("{}, expected zero", text()));
                    }
                } else if !(v > 0. && (v - d).abs() <= 1e-12 * d) {
                    return ctx.fail("violation-amount", format!("{}, expected {:?}", text(), d));
                }
            }
        }
    }
    if c.prog.ops.len() > c.nv + 1 {
        ctx.seen(c.prog.shape(c.prog.root()));
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

/// An expression program, its number of variables, and how it reads.
pub fn gen_case_for(ctx: &mut Ctx, max_paths: u64, max_depth: usize, max_ops: usize, max_vars: usize) -> (Prog, usize, String) {
    let c = gen_case(ctx, true, max_paths, max_depth, max_ops, max_vars);
    let t = c.prog.show(c.prog.root(), &c.names);
    (c.prog, c.nv, t)
}
