//! C07: variables and constraints are their creation, not their name.

use numopt::model::constraint::ConstraintKind;
use numopt::model::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};

use crate::core::{guarded, Ctx};
use crate::expr::*;
use crate::p_model::*;
use crate::rng::{hash_str, Rng};
use crate::spec::*;

pub fn c07(ctx: &mut Ctx) {
    if ctx.idx % 2 == 0 {
        histories(ctx)
    } else {
        renaming(ctx)
    }
}

// ---------------------------------------------------------------- identity histories

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct Bag<T> {
    handles: Vec<(usize, T)>,
    map: HashMap<T, usize>,
    set: HashSet<T>,
    in_set: HashSet<usize>,
    next: usize,
}

impl<T: Clone + Eq + Hash + std::fmt::Display> Bag<T> {
    fn new() -> Bag<T> {
        Bag { handles: vec![], map: HashMap::new(), set: HashSet::new(), in_set: HashSet::new(), next: 0 }
    }

    fn add(&mut self, t: T) {
        self.handles.push((self.next, t));
        self.next += 1;
    }

    /// One random step; an error is a violation.
    fn step(&mut self, rng: &mut Rng, mapped: &mut HashMap<usize, usize>, compared: &mut u64) -> Result<(), String> {
        if self.handles.is_empty() {
            return Ok(());
        }
        let k = rng.below(self.handles.len());
        match rng.below(8) {
            0 | 1 => {
                let (id, t) = (self.handles[k].0, self.handles[k].1.clone());
                self.handles.push((id, t));
            }
            2 => {
                // drop a handle; later objects may take its address
                self.handles.swap_remove(k);
            }
            3 => {
                let (id, t) = (self.handles[k].0, self.handles[k].1.clone());
                let tag = rng.below(1000);
                let old = self.map.insert(t, tag);
                let want = mapped.insert(id, tag);
                if old != want {
                    return Err(format!("inserting object {} ({}) in a map replaced {:?}, not {:?}", id, self.handles[k].1, old, want));
                }
            }
            4 => {
                let (id, t) = (self.handles[k].0, self.handles[k].1.clone());
                let new = self.set.insert(t);
                if new != self.in_set.insert(id) {
                    return Err(format!("inserting object {} ({}) in a set: new is {}", id, self.handles[k].1, new));
                }
            }
            5 => {
                let (id, t) = &self.handles[k];
                if self.map.remove(t) != mapped.remove(id) {
                    return Err(format!("removing object {} ({}) from a map removed something else", id, t));
                }
            }
            _ => (),
        }
        // Everything against one handle
        if self.handles.is_empty() {
            return Ok(());
        }
        let k = rng.below(self.handles.len());
        let (id, t) = &self.handles[k];
        for (id2, t2) in self.handles.iter() {
            *compared += 1;
            if (t == t2) != (id == id2) || (t2 != t) == (id == id2) {
                return Err(format!("objects {} ({}) and {} ({}) compare as equal: {}", id, t, id2, t2, t == t2));
            }
            if id == id2 && hash_of(t) != hash_of(t2) {
                return Err(format!("clones of object {} ({}) have different hashes", id, t));
            }
        }
        if self.map.get(t) != mapped.get(id) {
            return Err(format!("map has {:?} for object {} ({}), expected {:?}", self.map.get(t), id, t, mapped.get(id)));
        }
        if self.set.contains(t) != self.in_set.contains(id) {
            return Err(format!("set membership of object {} ({}) is wrong", id, t));
        }
        if self.map.len() != mapped.len() || self.set.len() != self.in_set.len() {
            return Err(format!(
                "map has {} keys instead of {}, set has {} instead of {}",
                self.map.len(),
                mapped.len(),
                self.set.len(),
                self.in_set.len()
            ));
        }
        Ok(())
    }
}

fn histories(ctx: &mut Ctx) {
    let names: &[&str] = &["x", "x", "y", "", "_s_a0_"];
    let mut vars: Bag<Node> = Bag::new();
    let mut cons: Bag<Constraint> = Bag::new();
    let mut vm: HashMap<usize, usize> = HashMap::new();
    let mut cm: HashMap<usize, usize> = HashMap::new();
    let mut compared = 0;
    let steps = ctx.rng.us(5, 60);
    let mut hist = String::new();
    for s in 0..steps {
        let r = ctx.rng.below(6);
        hist.push_str(&format!("{}", r));
        let res = match r {
            0 => {
                let n = *ctx.rng.pick(names);
                vars.add(make_var(n, ctx.rng.chance(0.3)));
                Ok(())
            }
            1 => {
                // Constraints with the same sides and label
                if vars.handles.is_empty() {
                    vars.add(make_var("x", false));
                }
                let k = ctx.rng.below(vars.handles.len());
                let v = vars.handles[k].1.clone();
                let lab = *ctx.rng.pick(&["", "c", "c"]);
                let rhs = *ctx.rng.pick(&[0., 0., 1.]);
                let c = match ctx.rng.below(4) {
                    0 => v.equal_and_tag(rhs, lab),
                    1 => v.leq_and_tag(rhs, lab),
                    2 => v.geq_and_tag(&v, lab),
                    _ => {
                        // a sibling of an existing one
                        if cons.handles.is_empty() {
                            v.leq_and_tag(rhs, lab)
                        } else {
                            let c = &cons.handles[ctx.rng.below(cons.handles.len())].1;
                            let k = match c.kind() {
                                ConstraintKind::Equal => ConstraintKind::Equal,
                                ConstraintKind::LessEqual => ConstraintKind::LessEqual,
                                ConstraintKind::GreaterEqual => ConstraintKind::GreaterEqual,
                            };
                            Constraint::new(c.lhs().clone(), k, c.rhs().clone(), c.label())
                        }
                    }
                };
                cons.add(c);
                Ok(())
            }
            2 | 3 => vars.step(&mut ctx.rng, &mut vm, &mut compared),
            _ => cons.step(&mut ctx.rng, &mut cm, &mut compared),
        };
        if let Err(e) = res {
            return ctx.fail("identity", format!("step {}: {}", s, e));
        }
        ctx.count("history_steps");
    }
    ctx.add("identity_comparisons", compared);
    ctx.max("objects", (vars.next + cons.next) as u64);
    ctx.seen(hash_str(&hist));
    // Expressions of equal-named variables: derivatives and values keep them apart
    let n = ctx.rng.us(2, 5);
    let vs: Vec<Node> = (0..n).map(|_| make_var("x", false)).collect();
    let mut e = vs[0].clone() * 1.;
    for i in 1..n {
        e = &e + (i as f64 + 1.) * &vs[i];
    }
    for i in 0..n {
        let d = e.derivative(&vs[i]).evaluate(&HashMap::new());
        if d != i as f64 + 1. {
            return ctx.fail("identity", format!("derivative of {} with respect to its variable {} is {:?}", e, i, d));
        }
    }
    let x: Vec<f64> = (0..n).map(|i| 10f64.powi(i as i32)).collect();
    let want: f64 = (0..n).map(|i| (i as f64 + 1.) * x[i]).sum();
    let got = e.evaluate(&assignment(&vs, &x));
    if got != want {
        return ctx.fail("identity", format!("{} at {:?} is {:?}, expected {:?}", e, x, got, want));
    }
}

// ---------------------------------------------------------------- renaming

/// Replaces constants by ones with exact arithmetic.
pub fn tame(rng: &mut Rng, p: &mut Prog) {
    let pow: &[f64] = &[1., -1., 2., -2., 0.5, -0.5, 0.25, 4.];
    let all: &[f64] = &[1., -1., 2., -2., 0.5, 3., 1.5, -3., 0.25, 1.];
    for o in p.ops.iter_mut() {
        match o {
            Op::Const(c) if *c != 0. => *c = *rng.pick(pow),
            Op::Bin(b, l, r, _) => {
                if let Arg::N(c) = l {
                    if *c != 0. {
                        *c = *rng.pick(all);
                    }
                }
                if let Arg::N(c) = r {
                    if *c != 0. {
                        *c = *rng.pick(if *b == Bop::Div { pow } else { all });
                    }
                }
            }
            _ => (),
        }
    }
}

type Key = (u8, usize);

#[derive(Clone, Debug)]
struct Col {
    l: f64,
    u: f64,
    int: bool,
    x0: f64,
    c: f64,
    lcon: Vec<usize>,
    ucon: Vec<usize>,
}

#[derive(Clone, Debug)]
struct Form {
    class: Class,
    rows: Vec<(usize, BTreeMap<Key, f64>, f64)>,
    nlrows: Vec<usize>,
    cols: BTreeMap<Key, Col>,
    evals: Vec<(f64, BTreeMap<Key, f64>, Vec<f64>)>,
    /// Second-order values and the Jacobian, by (function, column, column)
    second: Vec<BTreeMap<(usize, Key, Key), f64>>,
}

fn form(b: &mut Built, pts: &[Vec<f64>]) -> Result<Form, String> {
    let mut sp = std_prob(b);
    let d = std_data(&sp.prob);
    let cols = columns(b, &sp, d.nx)?;
    let con = |c: &Constraint| b.cons.iter().position(|k| k == c).ok_or_else(|| format!("{} is not a constraint of the model", c));
    let nf = std_eval(&mut sp.prob, &vec![0.5; d.nx]).f.len();
    let mut key: Vec<Option<Key>> = cols.var.iter().map(|v| v.map(|k| (0u8, k))).collect();
    let m = d.b.len();
    for (i, j, v) in d.a.iter() {
        if key[*j].is_none() && *v != 0. {
            key[*j] = Some((1, *i));
        }
    }
    let e = std_eval(&mut sp.prob, &vec![0.5; d.nx]);
    for (i, j, v) in e.j.iter() {
        if key[*j].is_none() && *v != 0. {
            key[*j] = Some((2, *i));
        }
    }
    let key: Vec<Key> = key.into_iter().enumerate().map(|(j, k)| k.unwrap_or((3, j))).collect();
    if key.iter().collect::<HashSet<_>>().len() != key.len() {
        return Err("a row has two slack columns".to_string());
    }
    let mut rows = Vec::new();
    for i in 0..m {
        let c = sp.aindex2constr.get(&i).ok_or_else(|| format!("row {} has no constraint", i))?;
        rows.push((con(c)?, BTreeMap::new(), d.b[i]));
    }
    for (i, j, v) in d.a.iter() {
        *rows[*i].1.entry(key[*j]).or_insert(0.) += *v;
    }
    let mut nlrows = Vec::new();
    for i in 0..nf {
        let c = sp.jindex2constr.get(&i).ok_or_else(|| format!("nonlinear row {} has no constraint", i))?;
        nlrows.push(con(c)?);
    }
    let mut cs = BTreeMap::new();
    for j in 0..d.nx {
        let at = |m: &HashMap<usize, Constraint>| -> Result<Vec<usize>, String> {
            match m.get(&j) {
                Some(c) => {
                    let k = con(c)?;
                    // ties: all constraints that look the same are fine
                    let same: Vec<usize> =
                        (0..b.cons.len()).filter(|i| *i == k).collect();
                    Ok(same)
                }
                None => Ok(vec![]),
            }
        };
        cs.insert(
            key[j],
            Col {
                l: d.l[j],
                u: d.u[j],
                int: d.p[j],
                x0: d.x0.as_ref().map(|x| x[j]).unwrap_or(0.),
                c: d.c.as_ref().map(|c| c[j]).unwrap_or(0.),
                lcon: at(&sp.lindex2constr)?,
                ucon: at(&sp.uindex2constr)?,
            },
        );
    }
    let mut evals = Vec::new();
    let mut second = Vec::new();
    for x in pts {
        let full: Vec<f64> = key.iter().map(|(t, k)| if *t == 0 { x[*k] } else { 0.25 * (*k as f64 + 1.) }).collect();
        let e = std_eval(&mut sp.prob, &full);
        let g = e.gphi.iter().enumerate().map(|(j, v)| (key[j], *v)).collect();
        let mut sec: BTreeMap<(usize, Key, Key), f64> = BTreeMap::new();
        for (k, m) in std::iter::once(&e.hphi).chain(e.h.iter()).enumerate() {
            for (i, j, v) in m.iter() {
                let (p, q) = (key[*i].min(key[*j]), key[*i].max(key[*j]));
                *sec.entry((k, p, q)).or_insert(0.) += *v;
            }
        }
        for (i, j, v) in e.j.iter() {
            *sec.entry((*i, (9, 0), key[*j])).or_insert(0.) += *v;
        }
        second.push(sec);
        evals.push((e.phi, g, e.f));
    }
    Ok(Form { second, class: d.class, rows, nlrows, cols: cs, evals })
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1. + a.abs().max(b.abs()))
}

fn differs(a: &Form, b: &Form, smooth: &[bool], tol: &[f64]) -> Option<String> {
    if a.class != b.class {
        return Some(format!("class {:?} and {:?}", a.class, b.class));
    }
    if a.nlrows != b.nlrows {
        return Some(format!("nonlinear rows for constraints {:?} and {:?}", a.nlrows, b.nlrows));
    }
    if a.rows.len() != b.rows.len() {
        return Some(format!("{} and {} rows", a.rows.len(), b.rows.len()));
    }
    for (i, (r, s)) in a.rows.iter().zip(b.rows.iter()).enumerate() {
        if r.0 != s.0 {
            return Some(format!("row {} for constraint {} and {}", i, r.0, s.0));
        }
        let keys: HashSet<&Key> = r.1.keys().chain(s.1.keys()).collect();
        for k in keys {
            let (v, w) = (r.1.get(k).cloned().unwrap_or(0.), s.1.get(k).cloned().unwrap_or(0.));
            if !near(v, w, 1e-9) {
                return Some(format!("row {} has coefficients {:?} and {:?} for column {:?}", i, v, w, k));
            }
        }
        if !near(r.2, s.2, 1e-9) {
            return Some(format!("row {} has right-hand sides {:?} and {:?}", i, r.2, s.2));
        }
    }
    if a.cols.len() != b.cols.len() || a.cols.keys().any(|k| !b.cols.contains_key(k)) {
        return Some(format!("columns {:?} and {:?}", a.cols.keys().collect::<Vec<_>>(), b.cols.keys().collect::<Vec<_>>()));
    }
    for (k, c) in a.cols.iter() {
        let d = &b.cols[k];
        if !near(c.l, d.l, 1e-9) || !near(c.u, d.u, 1e-9) || c.int != d.int || !near(c.x0, d.x0, 0.) || !near(c.c, d.c, 1e-9) || c.lcon != d.lcon || c.ucon != d.ucon {
            return Some(format!("column {:?}: {:?} and {:?}", k, c, d));
        }
    }
    for (t, (e, f)) in a.second.iter().zip(b.second.iter()).enumerate() {
        if !smooth[t] {
            continue;
        }
        for k in e.keys().chain(f.keys()) {
            let (v, w) = (e.get(k).cloned().unwrap_or(0.), f.get(k).cloned().unwrap_or(0.));
            if !near(v, w, tol[t]) {
                return Some(format!("derivatives {:?} and {:?} for {:?} (function, columns)", v, w, k));
            }
        }
    }
    for (t, (e, f)) in a.evals.iter().zip(b.evals.iter()).enumerate() {
        if !smooth[t] {
            continue;
        }
        if !near(e.0, f.0, tol[t]) {
            return Some(format!("objective values {:?} and {:?}", e.0, f.0));
        }
        for (k, v) in e.1.iter() {
            let w = f.1.get(k).cloned().unwrap_or(f64::NAN);
            if !near(*v, w, tol[t]) {
                return Some(format!("objective derivatives {:?} and {:?} for column {:?}", v, w, k));
            }
        }
        if e.2.len() != f.2.len() {
            return Some("numbers of nonlinear functions".to_string());
        }
        for (i, (v, w)) in e.2.iter().zip(f.2.iter()).enumerate() {
            if !near(*v, *w, tol[t]) {
                return Some(format!("values {:?} and {:?} of nonlinear row {}", v, w, i));
            }
        }
    }
    None
}

fn renaming(ctx: &mut Ctx) {
    let mut cfg = mixed_cfg(ctx.rng.chance(0.4));
    cfg.names = NameStyle::Plain;
    let g = if ctx.idx % 60 == 17 {
        let nv = ctx.rng.us(11, 60);
        let nr = ctx.rng.us(11, 60);
        gen_wide_linear(&mut ctx.rng, nv, nr, 0.1)
    } else {
        gen_model(&mut ctx.rng, &cfg)
    };
    let mut spec = g.spec;
    tame(&mut ctx.rng, &mut spec.prog);
    for c in spec.cons.iter_mut() {
        for a in [&mut c.lhs, &mut c.rhs] {
            if let Arg::N(x) = a {
                *x = (*x * 4.).round() / 4.;
            }
        }
    }
    let nv = spec.nv();
    let base: Vec<String> = (0..nv).map(|i| format!("x{}", i)).collect();
    let other: Vec<String> = match ctx.rng.below(8) {
        0 => vec!["x".to_string(); nv],
        1 => vec!["".to_string(); nv],
        2 => vec![format!("_s_a{}_", ctx.rng.below(3)); nv],
        3 => vec![format!("_s_j{}_", ctx.rng.below(3)); nv],
        4 => (0..nv).map(|i| format!("_s_{}{}_", if i % 2 == 0 { 'a' } else { 'j' }, i / 2)).collect(),
        5 => (0..nv).map(|i| format!("x{}", 1000 - i)).collect(),
        6 => (0..nv).map(|i| format!("x{}", i / 2)).collect(),
        _ => gen_names(&mut ctx.rng, nv, NameStyle::Mixed),
    };
    ctx.desc = format!("{}; renamed to {:?}", spec.show(), if nv > 10 { &other[..10] } else { &other[..] });
    // Initial values
    let init: Vec<Option<f64>> = (0..nv).map(|_| if ctx.rng.chance(0.6) { Some(ctx.rng.dyadic(5)) } else { None }).collect();
    let pts = g.pts.clone();
    let mut smooth = vec![true; pts.len()];
    let mut tol: Vec<f64> = vec![1e-9; pts.len()];
    if nv <= 10 {
        for (t, x) in pts.iter().enumerate() {
            let jets = spec.prog.jets(x, 2);
            let mut nums: Vec<Num> = Vec::new();
            let mut all = |j: &Jet| {
                nums.push(j.v);
                nums.extend(j.g.iter().cloned());
                for p in 0..nv {
                    for q in 0..=p {
                        nums.push(j.hess(p, q));
                    }
                }
            };
            if let Some((_, o)) = spec.obj {
                all(&jets[o]);
            }
            for c in spec.order.iter() {
                all(&spec.diff(*c, &jets, nv, 2));
            }
            for n in nums {
                if !n.ok() {
                    smooth[t] = false;
                } else {
                    tol[t] = tol[t].max(32. * n.tol());
                }
            }
        }
    }
    // Labels mean nothing either
    let mut relabelled = spec.clone();
    let style = ctx.rng.below(4);
    for (k, c) in spec.cons.iter_mut().enumerate() {
        c.label = format!("c{}", k);
    }
    for c in relabelled.cons.iter_mut() {
        c.label = match style {
            0 => "same".to_string(),
            1 => String::new(),
            2 => (*ctx.rng.pick(&["a", "b", "", "c_0"])).to_string(),
            _ => c.label.clone(),
        };
    }
    let run = |spec: &MSpec, names: &[String]| -> Result<Result<Form, String>, String> {
        guarded(|| {
            let mut b = spec.build_named(names);
            let given: Vec<usize> = b.model.constraints().iter().map(|c| b.cons.iter().position(|k| k == c).unwrap_or(usize::MAX)).collect();
            if given != spec.order {
                return Err(format!("constraints {:?} were added, but the model has {:?}", spec.order, given));
            }
            let vals: Vec<(Node, f64)> = (0..nv).filter_map(|k| init[k].map(|x| (b.vars[k].clone(), x))).collect();
            let mut m: HashMap<&Node, f64> = HashMap::new();
            for (k, x) in vals.iter() {
                m.insert(k, *x);
            }
            b.model.set_init_primals(&m);
            form(&mut b, &pts)
        })
    };
    let a = match run(&spec, &base) {
        Err(_) => {
            ctx.count("models_refused");
            return;
        }
        Ok(Err(e)) => return ctx.fail("form", e),
        Ok(Ok(f)) => f,
    };
    for _ in 0..2 {
        match run(&relabelled, &other) {
            Err(e) => return ctx.fail("renamed-panic", e),
            Ok(Err(e)) => return ctx.fail("renamed-form", e),
            Ok(Ok(f)) => {
                ctx.count("renamings");
                if let Some(e) = differs(&a, &f, &smooth, &tol) {
                    return ctx.fail("renamed", format!("after renaming, the standard problem differs: {}", e));
                }
            }
        }
    }
    ctx.count(&format!("class_{:?}", a.class));
    ctx.add("columns_compared", a.cols.len() as u64);
    ctx.add("rows_compared", (a.rows.len() + a.nlrows.len()) as u64);
    ctx.seen(spec.shape());
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}
