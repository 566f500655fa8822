//! Model specifications: an own description of models, their construction through the
//! public interface, and reference evaluation of objectives and constraints.

use numopt::matrix::coo::CooMat;
use numopt::model::model_std::{ModelStd, ModelStdProb};
use numopt::model::constraint::ConstraintKind;
use numopt::model::*;
use numopt::problem::base::Problem;
use std::collections::{HashMap, HashSet};

use crate::expr::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Eq,
    Le,
    Ge,
}

#[derive(Clone, Debug)]
pub struct ConSpec {
    pub lhs: Arg,
    pub rhs: Arg,
    pub kind: Kind,
    pub label: String,
    pub form: u8,
}

#[derive(Clone, Debug)]
pub struct MSpec {
    pub prog: Prog,
    pub names: Vec<String>,
    pub ints: Vec<bool>,
    /// maximize, operation
    pub obj: Option<(bool, usize)>,
    pub cons: Vec<ConSpec>,
    /// Order in which constraints are added; an index may occur more than once.
    pub order: Vec<usize>,
}

pub struct Built {
    pub vars: Vec<Node>,
    pub nodes: Vec<Node>,
    pub cons: Vec<Constraint>,
    pub model: Model,
}

pub fn make_var(name: &str, int: bool) -> Node {
    if int {
        VariableScalar::new_integer(name)
    } else {
        VariableScalar::new_continuous(name)
    }
}

pub fn make_con(c: &ConSpec, nodes: &[Node]) -> Constraint {
    let l = c.label.as_str();
    match (c.lhs, c.rhs) {
        (Arg::R(i), Arg::R(j)) => match (c.kind, c.form % 3) {
            (Kind::Eq, 0) => nodes[i].equal_and_tag(&nodes[j], l),
            (Kind::Le, 0) => nodes[i].leq_and_tag(&nodes[j], l),
            (Kind::Ge, 0) => nodes[i].geq_and_tag(&nodes[j], l),
            (Kind::Eq, 1) => nodes[i].equal_and_tag(nodes[j].clone(), l),
            (Kind::Le, 1) => nodes[i].leq_and_tag(nodes[j].clone(), l),
            (Kind::Ge, 1) => nodes[i].geq_and_tag(nodes[j].clone(), l),
            (k, _) => {
                let kk = match k {
                    Kind::Eq => ConstraintKind::Equal,
                    Kind::Le => ConstraintKind::LessEqual,
                    Kind::Ge => ConstraintKind::GreaterEqual,
                };
                Constraint::new(nodes[i].clone(), kk, nodes[j].clone(), l)
            }
        },
        (Arg::R(i), Arg::N(x)) => match c.kind {
            Kind::Eq => nodes[i].equal_and_tag(x, l),
            Kind::Le => nodes[i].leq_and_tag(x, l),
            Kind::Ge => nodes[i].geq_and_tag(x, l),
        },
        (Arg::N(x), Arg::R(j)) => match (c.kind, c.form % 2) {
            (Kind::Eq, 0) => x.equal_and_tag(&nodes[j], l),
            (Kind::Le, 0) => x.leq_and_tag(&nodes[j], l),
            (Kind::Ge, 0) => x.geq_and_tag(&nodes[j], l),
            (Kind::Eq, _) => x.equal_and_tag(nodes[j].clone(), l),
            (Kind::Le, _) => x.leq_and_tag(nodes[j].clone(), l),
            (Kind::Ge, _) => x.geq_and_tag(nodes[j].clone(), l),
        },
        (Arg::N(x), Arg::N(y)) => {
            let kk = match c.kind {
                Kind::Eq => ConstraintKind::Equal,
                Kind::Le => ConstraintKind::LessEqual,
                Kind::Ge => ConstraintKind::GreaterEqual,
            };
            Constraint::new(ConstantScalar::new(x), kk, ConstantScalar::new(y), l)
        }
    }
}

impl MSpec {
    pub fn nv(&self) -> usize {
        self.names.len()
    }

    pub fn build(&self) -> Built {
        self.build_named(&self.names)
    }

    pub fn build_named(&self, names: &[String]) -> Built {
        let vars: Vec<Node> = names.iter().zip(self.ints.iter()).map(|(n, i)| make_var(n, *i)).collect();
        self.build_on(vars)
    }

    pub fn build_on(&self, vars: Vec<Node>) -> Built {
        let nodes = self.prog.build(&vars);
        let cons: Vec<Constraint> = self.cons.iter().map(|c| make_con(c, &nodes)).collect();
        let mut model = Model::new();
        self.fill(&mut model, &nodes, &cons);
        Built { vars, nodes, cons, model }
    }

    pub fn objective(&self, nodes: &[Node]) -> Objective {
        match self.obj {
            None => Objective::empty(),
            Some((true, i)) => Objective::maximize(&nodes[i]),
            Some((false, i)) => Objective::minimize(&nodes[i]),
        }
    }

    pub fn fill(&self, model: &mut Model, nodes: &[Node], cons: &[Constraint]) {
        if self.obj.is_some() {
            model.set_objective(self.objective(nodes));
        }
        let mut k = 0;
        while k < self.order.len() {
            // Singly and several at once
            if self.cons[self.order[k]].form >= 128 && k + 1 < self.order.len() {
                model.add_constraints(&[&cons[self.order[k]], &cons[self.order[k + 1]]]);
                k += 2;
            } else {
                model.add_constraint(&cons[self.order[k]]);
                k += 1;
            }
        }
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        match self.obj {
            None => s.push_str("find"),
            Some((m, i)) => {
                s.push_str(if m { "max " } else { "min " });
                s.push_str(&self.prog.show(i, &self.names));
            }
        }
        for k in self.order.iter() {
            let c = &self.cons[*k];
            s.push_str(&format!(
                "; [{}] {} {} {}",
                k,
                self.show_arg(c.lhs),
                match c.kind {
                    Kind::Eq => "==",
                    Kind::Le => "<=",
                    Kind::Ge => ">=",
                },
                self.show_arg(c.rhs)
            ));
            if s.len() > 2500 {
                s.push_str(" ...");
                break;
            }
        }
        let ints: Vec<&String> = self.names.iter().zip(self.ints.iter()).filter(|(_, i)| **i).map(|(n, _)| n).collect();
        if !ints.is_empty() {
            s.push_str(&format!("; integer {:?}", ints));
        }
        s
    }

    fn show_arg(&self, a: Arg) -> String {
        match a {
            Arg::R(i) => self.prog.show(i, &self.names),
            Arg::N(x) => format!("{:?}", x),
        }
    }

    /// lhs - rhs of constraint k.
    pub fn diff(&self, k: usize, jets: &[Jet], nv: usize, order: usize) -> Jet {
        let get = |a: Arg| match a {
            Arg::R(i) => jets[i].clone(),
            Arg::N(x) => constant_jet(Num::c(x), nv, order),
        };
        let l = get(self.cons[k].lhs);
        let r = get(self.cons[k].rhs);
        let one = Num::c(1.);
        chain(l.v.sub(r.v), &[&l, &r], &[one, Num::c(-1.)], &[], nv, order)
    }

    /// Violation of constraint k given lhs - rhs.
    pub fn viol(&self, k: usize, d: f64) -> f64 {
        match self.cons[k].kind {
            Kind::Eq => d.abs(),
            Kind::Le => d.max(0.),
            Kind::Ge => (-d).max(0.),
        }
    }

    /// Operation that the sides refer to and whether they are all affine as written.
    pub fn con_affine(&self, k: usize, aff: &[bool]) -> bool {
        let f = |a: Arg| match a {
            Arg::R(i) => aff[i],
            Arg::N(_) => true,
        };
        f(self.cons[k].lhs) && f(self.cons[k].rhs)
    }

    /// Structural signature.
    pub fn shape(&self) -> u64 {
        let mut s = String::new();
        for c in self.order.iter() {
            let c = &self.cons[*c];
            let f = |a: Arg| match a {
                Arg::R(i) => format!("{:x}", self.prog.shape(i)),
                Arg::N(_) => "n".to_string(),
            };
            s.push_str(&format!("{}{:?}{};", f(c.lhs), c.kind, f(c.rhs)));
        }
        if let Some((m, i)) = self.obj {
            s.push_str(&format!("{}{:x}", m, self.prog.shape(i)));
        }
        s.push_str(&format!("{:?}", self.ints));
        crate::rng::hash_str(&s)
    }
}

impl Built {
    /// Variables in the objective or an added constraint.
    pub fn contained(&self) -> HashSet<Node> {
        let mut s: HashSet<Node> = HashSet::new();
        match self.model.objective() {
            Objective::Minimize(f) | Objective::Maximize(f) => s.extend(node_vars(f)),
            Objective::Empty => (),
        }
        for c in self.model.constraints().iter() {
            s.extend(node_vars(c.lhs()));
            s.extend(node_vars(c.rhs()));
        }
        s
    }

    pub fn index(&self) -> HashMap<Node, usize> {
        self.vars.iter().enumerate().map(|(i, v)| (v.clone(), i)).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Lp,
    Milp,
    Nlp,
    Minlp,
}

pub fn class_of(p: &Problem) -> Class {
    match p {
        Problem::Lp(_) => Class::Lp,
        Problem::Milp(_) => Class::Milp,
        Problem::Nlp(_) => Class::Nlp,
        Problem::Minlp(_) => Class::Minlp,
    }
}

/// Everything a standard problem presents.
pub struct StdData {
    pub class: Class,
    pub nx: usize,
    pub c: Option<Vec<f64>>,
    pub a: CooMat<f64>,
    pub b: Vec<f64>,
    pub l: Vec<f64>,
    pub u: Vec<f64>,
    pub p: Vec<bool>,
    pub x0: Option<Vec<f64>>,
}

pub fn std_data(p: &Problem) -> StdData {
    macro_rules! lin {
        ($q:expr, $class:expr, $p:expr) => {
            StdData {
                class: $class,
                nx: $q.nx(),
                c: Some($q.c().to_vec()),
                a: $q.a().clone(),
                b: $q.b().to_vec(),
                l: $q.l().to_vec(),
                u: $q.u().to_vec(),
                p: $p,
                x0: $q.x0().map(|x| x.to_vec()),
            }
        };
    }
    macro_rules! non {
        ($q:expr, $class:expr, $p:expr) => {
            StdData {
                class: $class,
                nx: $q.nx(),
                c: None,
                a: $q.a().clone(),
                b: $q.b().to_vec(),
                l: $q.l().to_vec(),
                u: $q.u().to_vec(),
                p: $p,
                x0: $q.x0().map(|x| x.to_vec()),
            }
        };
    }
    match p {
        Problem::Lp(q) => lin!(q, Class::Lp, vec![false; q.nx()]),
        Problem::Milp(q) => lin!(q, Class::Milp, q.p().to_vec()),
        Problem::Nlp(q) => non!(q, Class::Nlp, vec![false; q.nx()]),
        Problem::Minlp(q) => non!(q, Class::Minlp, q.p().to_vec()),
    }
}

/// What an evaluation shows.
#[derive(Clone, Debug)]
pub struct EvalData {
    pub phi: f64,
    pub gphi: Vec<f64>,
    pub hphi: CooMat<f64>,
    pub f: Vec<f64>,
    pub j: CooMat<f64>,
    pub h: Vec<CooMat<f64>>,
}

pub fn std_eval(p: &mut Problem, x: &[f64]) -> EvalData {
    macro_rules! go {
        ($q:expr) => {{
            $q.evaluate(x);
            EvalData {
                phi: $q.phi(),
                gphi: $q.gphi().to_vec(),
                hphi: $q.hphi().clone(),
                f: $q.f().to_vec(),
                j: $q.j().clone(),
                h: $q.h().clone(),
            }
        }};
    }
    match p {
        Problem::Lp(q) => go!(q.as_mut_nlp()),
        Problem::Milp(q) => go!(q.as_mut_minlp()),
        Problem::Nlp(q) => go!(q),
        Problem::Minlp(q) => go!(q),
    }
}

/// Columns of the standard problem: model variable or slack.
pub struct Cols {
    /// column -> model variable
    pub var: Vec<Option<usize>>,
}

pub fn columns(b: &Built, sp: &ModelStdProb, nx: usize) -> Result<Cols, String> {
    let index = b.index();
    let mut var: Vec<Option<usize>> = vec![None; nx];
    let mut used = vec![false; nx];
    if sp.var2index.len() != nx {
        return Err(format!("{} variables are mapped to {} columns", sp.var2index.len(), nx));
    }
    for (v, i) in sp.var2index.iter() {
        if *i >= nx || used[*i] {
            return Err(format!("variable {} has column {} of {}, which is out of range or taken", v, i, nx));
        }
        used[*i] = true;
        var[*i] = index.get(v).cloned();
    }
    Ok(Cols { var })
}

/// Position in column space of a model point, with slacks implied by their rows.
/// Fails if a row has more than one slack or a slack occurs in more than one row.
pub struct Lifted {
    pub x: Vec<f64>,
    /// residual of rows without slack
    pub resid: f64,
    /// largest magnitude met
    pub scale: f64,
    /// largest magnitude of a slack
    pub slack: f64,
}

pub fn lift(p: &mut Problem, d: &StdData, cols: &Cols, x: &[f64]) -> Result<Lifted, String> {
    let mut full: Vec<f64> = cols.var.iter().map(|v| v.map(|i| x[i]).unwrap_or(0.)).collect();
    let mut owner: HashMap<usize, usize> = HashMap::new();
    let mut scale: f64 = 1.;
    let mut resid: f64 = 0.;
    let mut smax: f64 = 0.;
    // Linear rows
    let m = d.b.len();
    let mut r = d.b.clone();
    let mut sl: Vec<Option<(usize, f64)>> = vec![None; m];
    for (i, j, v) in d.a.iter() {
        if *i >= m || *j >= d.nx {
            return Err(format!("matrix entry ({}, {}) is outside of {} x {}", i, j, m, d.nx));
        }
        if cols.var[*j].is_some() {
            r[*i] -= v * full[*j];
            scale = scale.max((v * full[*j]).abs());
        } else if *v != 0. {
            match &mut sl[*i] {
                None => sl[*i] = Some((*j, *v)),
                Some((k, w)) if *k == *j => *w += *v,
                _ => return Err(format!("row {} has two slacks", i)),
            }
        }
    }
    for i in 0..m {
        scale = scale.max(d.b[i].abs());
        match sl[i] {
            Some((k, w)) if w != 0. => {
                if owner.insert(k, i).is_some() {
                    return Err(format!("slack column {} is in two rows", k));
                }
                full[k] = r[i] / w;
                smax = smax.max(full[k].abs());
            }
            _ => resid = resid.max(r[i].abs()),
        }
    }
    // Nonlinear rows
    let e = std_eval(p, &full);
    let nf = e.f.len();
    let mut sl: Vec<Option<(usize, f64)>> = vec![None; nf];
    for (i, j, v) in e.j.iter() {
        if *i >= nf || *j >= d.nx {
            return Err(format!("Jacobian entry ({}, {}) is outside of {} x {}", i, j, nf, d.nx));
        }
        if cols.var[*j].is_none() && *v != 0. {
            match &mut sl[*i] {
                None => sl[*i] = Some((*j, *v)),
                Some((k, w)) if *k == *j => *w += *v,
                _ => return Err(format!("nonlinear row {} has two slacks", i)),
            }
        }
    }
    for i in 0..nf {
        scale = scale.max(e.f[i].abs());
        if let Some((k, w)) = sl[i] {
            if owner.insert(k, m + i).is_some() {
                return Err(format!("slack column {} is in two rows", k));
            }
            full[k] -= e.f[i] / w;
            smax = smax.max(full[k].abs());
        }
    }
    if nf > 0 {
        let e = std_eval(p, &full);
        for i in 0..nf {
            if e.f[i].is_nan() {
                return Err(format!("nonlinear function {} is NaN", i));
            }
            resid = resid.max(e.f[i].abs());
        }
    }
    Ok(Lifted { x: full, resid, scale, slack: smax })
}

pub fn std_prob(b: &Built) -> ModelStdProb {
    b.model.std_problem()
}

// ------------------------------------------------------------------ generation

#[derive(Clone, Debug)]
pub struct ModelCfg {
    pub max_vars: usize,
    pub max_cons: usize,
    pub max_ops: usize,
    pub p_int: f64,
    pub linear: bool,
    pub bounds: f64,
    pub p_dup: f64,
    pub names: NameStyle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NameStyle {
    Plain,
    Mixed,
}

pub fn gen_names(rng: &mut Rng, n: usize, style: NameStyle) -> Vec<String> {
    let mode = if style == NameStyle::Plain { 0 } else { rng.below(8) };
    let long = "long name ".repeat(*rng.pick(&[2, 3, 7, 26, 30]));
    (0..n)
        .map(|i| match mode {
            0 | 1 => format!("x{}", i),
            2 => "x".to_string(),
            3 => match rng.below(4) {
                0 => format!("_s_a{}_", rng.below(3)),
                1 => format!("_s_j{}_", rng.below(3)),
                2 => format!("x_{}", rng.below(n + 1)),
                _ => "obj".to_string(),
            },
            4 => format!("v{}", n - i),
            // long, equal or different only at the end
            6 => if rng.chance(0.5) { long.clone() } else { format!("{}{}", long, rng.below(3)) },
            // different only in case, spaces or marks
            7 => (*rng.pick(&["x", "X", " x", "x ", "x\u{301}", "x\0", "x\t", "x\n", "\u{feff}x", "x'", "x1", "x01"])).to_string(),
            _ => (*rng.pick(&["alpha", "b", "Z", "a b", "", "_", "x_0", "c_1", "é", "1"])).to_string(),
        })
        .collect()
}

/// A model with points; the first point satisfies the constraints unless spoiled.
pub struct GenModel {
    pub spec: MSpec,
    pub pts: Vec<Vec<f64>>,
}

pub fn gen_model(rng: &mut Rng, cfg: &ModelCfg) -> GenModel {
    let nv = rng.us(1, cfg.max_vars);
    let ints: Vec<bool> = if rng.chance(cfg.p_int) {
        (0..nv).map(|_| rng.chance(0.5)).collect()
    } else {
        vec![false; nv]
    };
    let npts = 3;
    let mut pts: Vec<Vec<f64>> = (0..npts).map(|_| gen_point(rng, nv)).collect();
    for (k, i) in ints.iter().enumerate() {
        if *i {
            pts[0][k] = pts[0][k].round();
        }
    }
    let nops = if rng.chance(0.3) { rng.us(1, cfg.max_ops) } else { rng.us(cfg.max_ops / 2, cfg.max_ops) };
    let gcfg = GenCfg {
        nvars: nv,
        nops,
        trig: rng.chance(0.5),
        div: rng.chance(0.4),
        raw: rng.chance(0.3),
        affine_only: cfg.linear || rng.chance(0.2),
        max_paths: 30,
        max_depth: 9,
        max_abs: 1e4,
        scale: 1.,
    };
    let mut prog = Prog::new();
    gen_ops(rng, &mut prog, &gcfg, &pts);
    let vals = prog.jets(&pts[0], 0);
    let mut spec = MSpec {
        prog,
        names: gen_names(rng, nv, cfg.names),
        ints,
        obj: None,
        cons: vec![],
        order: vec![],
    };
    let nops_total = spec.prog.ops.len();
    let choose = |rng: &mut Rng| -> usize {
        if rng.chance(0.5) {
            nops_total - 1 - rng.below(nops_total.min(4))
        } else {
            rng.below(nops_total)
        }
    };
    if rng.chance(0.9) {
        spec.obj = Some((rng.chance(0.4), choose(rng)));
    }
    let nc = match rng.below(10) {
        0 => 0,
        1..=3 => 1,
        4..=6 => rng.us(2, 3.min(cfg.max_cons).max(2)),
        _ => rng.us(1, cfg.max_cons),
    };
    let spoil = rng.chance(0.1);
    for _ in 0..nc {
        let label = if rng.chance(0.3) { format!("c{}", rng.below(5)) } else { String::new() };
        let form = rng.next() as u8;
        let kind = *rng.pick(&[Kind::Eq, Kind::Le, Kind::Ge, Kind::Le, Kind::Ge]);
        let gap = match rng.below(4) {
            0 => 0.,
            1 => rng.dyadic(3).abs(),
            _ => rng.uniform(0.05, 3.),
        };
        let gap = if spoil && rng.chance(0.5) { -gap } else { gap };
        let c = if rng.chance(cfg.bounds) {
            // Simple bound (possibly shifted)
            let v = rng.below(nv);
            let op = match spec.prog.ops.iter().position(|o| *o == Op::Var(v)) {
                Some(k) => k,
                None => continue,
            };
            let x = pts[0][v];
            let kind = *rng.pick(&[Kind::Le, Kind::Ge, Kind::Le, Kind::Ge, Kind::Eq]);
            let bound = match kind {
                Kind::Eq => x,
                Kind::Le => x + gap,
                Kind::Ge => x - gap,
            };
            match rng.below(5) {
                0 => {
                    // number on the left
                    let flip = match kind {
                        Kind::Eq => Kind::Eq,
                        Kind::Le => Kind::Ge,
                        Kind::Ge => Kind::Le,
                    };
                    ConSpec { lhs: Arg::N(bound), rhs: Arg::R(op), kind: flip, label, form }
                }
                1 => {
                    let s = rng.dyadic(3);
                    let k = spec.prog.push(Op::Bin(Bop::Add, Arg::R(op), Arg::N(s), 0));
                    ConSpec { lhs: Arg::R(k), rhs: Arg::N(bound + s), kind, label, form }
                }
                2 => {
                    let s = *rng.pick(&[2., -1., -0.5, 3., 1.]);
                    let k = spec.prog.push(Op::Bin(Bop::Mul, Arg::N(s), Arg::R(op), 0));
                    let kind2 = if s < 0. {
                        match kind {
                            Kind::Eq => Kind::Eq,
                            Kind::Le => Kind::Ge,
                            Kind::Ge => Kind::Le,
                        }
                    } else {
                        kind
                    };
                    ConSpec { lhs: Arg::R(k), rhs: Arg::N(bound * s), kind: kind2, label, form }
                }
                _ => ConSpec { lhs: Arg::R(op), rhs: Arg::N(bound), kind, label, form },
            }
        } else if rng.chance(0.05) {
            let x = rng.dyadic(3);
            ConSpec { lhs: Arg::N(x), rhs: Arg::N(if kind == Kind::Eq { x } else { x + if kind == Kind::Le { gap } else { -gap } }), kind, label, form }
        } else {
            let l = choose(rng);
            let lv = vals[l].v.v;
            match rng.below(4) {
                0 => {
                    // between two expressions
                    let r = choose(rng);
                    let rv = vals[r].v.v;
                    let kind = if lv == rv {
                        kind
                    } else if kind == Kind::Eq {
                        // shift to make it hold
                        let k = spec.prog.push(Op::Bin(Bop::Add, Arg::R(r), Arg::N(lv - rv), 1));
                        spec.cons.push(ConSpec { lhs: Arg::R(l), rhs: Arg::R(k), kind, label, form });
                        spec.order.push(spec.cons.len() - 1);
                        continue;
                    } else if (lv < rv) != (spoil && rng.chance(0.3)) {
                        Kind::Le
                    } else {
                        Kind::Ge
                    };
                    ConSpec { lhs: Arg::R(l), rhs: Arg::R(r), kind, label, form }
                }
                1 => {
                    let b = match kind {
                        Kind::Eq => lv,
                        Kind::Le => lv - gap,
                        Kind::Ge => lv + gap,
                    };
                    ConSpec { lhs: Arg::N(b), rhs: Arg::R(l), kind, label, form }
                }
                _ => {
                    let b = match kind {
                        Kind::Eq => lv,
                        Kind::Le => lv + gap,
                        Kind::Ge => lv - gap,
                    };
                    ConSpec { lhs: Arg::R(l), rhs: Arg::N(b), kind, label, form }
                }
            }
        };
        spec.cons.push(c);
        spec.order.push(spec.cons.len() - 1);
    }
    if !spec.order.is_empty() && rng.chance(cfg.p_dup) {
        let k = *rng.pick(&spec.order);
        let at = rng.below(spec.order.len() + 1);
        spec.order.insert(at, k);
    }
    if rng.chance(0.2) {
        let mut o = spec.order.clone();
        rng.shuffle(&mut o);
        spec.order = o;
    }
    GenModel { spec, pts }
}

/// A sum of terms c * x_v (and a constant) as operations; returns the operation.
pub fn push_affine(rng: &mut Rng, prog: &mut Prog, terms: &[(usize, f64)], k: f64) -> usize {
    let mut acc: Option<usize> = None;
    for (v, c) in terms.iter() {
        let x = prog.ops.iter().position(|o| *o == Op::Var(*v)).unwrap_or_else(|| prog.push(Op::Var(*v)));
        let f = rng.below(4) as u8;
        let t = if *c == 1. && rng.chance(0.7) {
            x
        } else if rng.chance(0.2) {
            prog.push(Op::Bin(Bop::Mul, Arg::R(x), Arg::N(*c), f))
        } else if *c == -1. && rng.chance(0.5) {
            prog.push(Op::Neg(x, f % 2))
        } else {
            prog.push(Op::Bin(Bop::Mul, Arg::N(*c), Arg::R(x), f))
        };
        acc = Some(match acc {
            None => t,
            Some(a) => prog.push(Op::Bin(Bop::Add, Arg::R(a), Arg::R(t), f)),
        });
    }
    let a = match acc {
        None => prog.push(Op::Const(k)),
        Some(a) if k != 0. => prog.push(Op::Bin(Bop::Add, Arg::R(a), Arg::N(k), 0)),
        Some(a) => a,
    };
    a
}

/// A sparse linear model with many variables and rows.
pub fn gen_wide_linear(rng: &mut Rng, nv: usize, nr: usize, p_int: f64) -> GenModel {
    let ints: Vec<bool> = (0..nv).map(|_| rng.chance(p_int)).collect();
    let x: Vec<f64> = (0..nv).map(|i| if ints[i] { rng.range(-3, 3) as f64 } else { rng.dyadic(3) }).collect();
    let mut prog = Prog::new();
    for v in 0..nv {
        prog.push(Op::Var(v));
    }
    let terms: Vec<(usize, f64)> = (0..nv).filter(|_| rng.chance(0.8)).map(|v| (v, 0.)).collect();
    let terms: Vec<(usize, f64)> = terms.into_iter().map(|(v, _)| (v, rng.dyadic(4))).collect();
    let o = push_affine(rng, &mut prog, &terms, 0.);
    let mut spec = MSpec {
        prog,
        names: (0..nv).map(|i| format!("x{}", i)).collect(),
        ints,
        obj: Some((rng.chance(0.4), o)),
        cons: vec![],
        order: vec![],
    };
    for r in 0..nr {
        let nt = rng.us(1, 4);
        let terms: Vec<(usize, f64)> = (0..nt)
            .map(|_| (rng.below(nv), { let c = rng.dyadic(3); if c == 0. { 1.5 } else { c } }))
            .collect();
        let val: f64 = terms.iter().map(|(v, c)| c * x[*v]).sum();
        let kind = *rng.pick(&[Kind::Eq, Kind::Le, Kind::Ge, Kind::Le, Kind::Ge]);
        let gap = rng.dyadic(3).abs();
        let rhs = match kind {
            Kind::Eq => val,
            Kind::Le => val + gap,
            Kind::Ge => val - gap,
        };
        let e = push_affine(rng, &mut spec.prog, &terms, 0.);
        spec.cons.push(ConSpec { lhs: Arg::R(e), rhs: Arg::N(rhs), kind, label: format!("r{}", r), form: rng.next() as u8 });
        spec.order.push(r);
    }
    GenModel { spec, pts: vec![x] }
}
