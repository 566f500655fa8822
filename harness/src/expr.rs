//! Expression programs: an own representation of arithmetic DAGs, their construction as
//! numopt nodes, and a reference evaluator with first and second derivatives that carries
//! a bound of the rounding error any evaluation order may have.

use numopt::model::function::add::FunctionAdd;
use numopt::model::function::cos::FunctionCos;
use numopt::model::function::div::FunctionDiv;
use numopt::model::function::mul::FunctionMul;
use numopt::model::function::sin::FunctionSin;
use numopt::model::{ConstantScalar, Node, NodeBase, NodeFunc};
use std::collections::HashMap;

use crate::rng::{hash_str, Rng};

pub const U: f64 = 1.1102230246251565e-16;
/// Allowed error in units of the running bound.
pub const TOLU: f64 = 512. * U;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arg {
    R(usize),
    N(f64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    Div,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Const(f64),
    Var(usize),
    Bin(Bop, Arg, Arg, u8),
    Neg(usize, u8),
    Sin(usize),
    Cos(usize),
    RawAdd(Vec<usize>),
    RawMul(usize, usize),
    RawDiv(usize, usize),
    RawSin(usize),
    RawCos(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub ops: Vec<Op>,
}

impl Prog {
    pub fn new() -> Prog {
        Prog { ops: Vec::new() }
    }

    pub fn push(&mut self, op: Op) -> usize {
        self.ops.push(op);
        self.ops.len() - 1
    }

    pub fn root(&self) -> usize {
        self.ops.len() - 1
    }

    /// Written form of the arithmetic (own printer, fully bracketed).
    pub fn show(&self, i: usize, names: &[String]) -> String {
        let mut out = String::new();
        self.show_in(i, names, &mut out);
        out
    }

    fn show_arg(&self, a: Arg, names: &[String], out: &mut String) {
        match a {
            Arg::R(j) => self.show_in(j, names, out),
            Arg::N(c) => out.push_str(&format!("{:?}f", c)),
        }
    }

    fn show_in(&self, i: usize, names: &[String], out: &mut String) {
        if out.len() > 3000 {
            out.push_str("..");
            return;
        }
        match &self.ops[i] {
            Op::Const(c) => out.push_str(&format!("{:?}", c)),
            Op::Var(v) => out.push_str(names.get(*v).map(|s| s.as_str()).unwrap_or("?")),
            Op::Bin(b, l, r, _) => {
                out.push('(');
                self.show_arg(*l, names, out);
                out.push_str(match b {
                    Bop::Add => " + ",
                    Bop::Sub => " - ",
                    Bop::Mul => " * ",
                    Bop::Div => " / ",
                });
                self.show_arg(*r, names, out);
                out.push(')');
            }
            Op::Neg(j, _) => {
                out.push_str("(-");
                self.show_in(*j, names, out);
                out.push(')');
            }
            Op::Sin(j) | Op::RawSin(j) => {
                out.push_str("sin(");
                self.show_in(*j, names, out);
                out.push(')');
            }
            Op::Cos(j) | Op::RawCos(j) => {
                out.push_str("cos(");
                self.show_in(*j, names, out);
                out.push(')');
            }
            Op::RawAdd(v) => {
                out.push_str("Add[");
                for j in v {
                    self.show_in(*j, names, out);
                    out.push_str(", ");
                }
                out.push(']');
            }
            Op::RawMul(l, r) => {
                out.push_str("Mul[");
                self.show_in(*l, names, out);
                out.push_str(", ");
                self.show_in(*r, names, out);
                out.push(']');
            }
            Op::RawDiv(l, r) => {
                out.push_str("Div[");
                self.show_in(*l, names, out);
                out.push_str(", ");
                self.show_in(*r, names, out);
                out.push(']');
            }
        }
    }

    pub fn args(&self, i: usize) -> Vec<Arg> {
        match &self.ops[i] {
            Op::Const(_) | Op::Var(_) => vec![],
            Op::Bin(_, l, r, _) => vec![*l, *r],
            Op::Neg(j, _) | Op::Sin(j) | Op::Cos(j) | Op::RawSin(j) | Op::RawCos(j) => {
                vec![Arg::R(*j)]
            }
            Op::RawAdd(v) => v.iter().map(|j| Arg::R(*j)).collect(),
            Op::RawMul(l, r) | Op::RawDiv(l, r) => vec![Arg::R(*l), Arg::R(*r)],
        }
    }

    /// Number of paths from each operation down to variables (saturating).
    pub fn paths(&self) -> Vec<u64> {
        let mut p: Vec<u64> = Vec::with_capacity(self.ops.len());
        for i in 0..self.ops.len() {
            let n = match &self.ops[i] {
                Op::Var(_) => 1,
                _ => self
                    .args(i)
                    .iter()
                    .map(|a| match a {
                        Arg::R(j) => p[*j],
                        Arg::N(_) => 0,
                    })
                    .fold(0u64, |x, y| x.saturating_add(y)),
            };
            p.push(n);
        }
        p
    }

    pub fn depths(&self) -> Vec<usize> {
        let mut p: Vec<usize> = Vec::with_capacity(self.ops.len());
        for i in 0..self.ops.len() {
            let n = self
                .args(i)
                .iter()
                .map(|a| match a {
                    Arg::R(j) => p[*j] + 1,
                    Arg::N(_) => 0,
                })
                .max()
                .unwrap_or(0);
            p.push(n);
        }
        p
    }

    /// Operations reachable from i.
    pub fn reach(&self, i: usize) -> Vec<bool> {
        let mut seen = vec![false; self.ops.len()];
        let mut st = vec![i];
        while let Some(k) = st.pop() {
            if seen[k] {
                continue;
            }
            seen[k] = true;
            for a in self.args(k) {
                if let Arg::R(j) = a {
                    st.push(j);
                }
            }
        }
        seen
    }

    /// Structural signature of what is reachable from i (operators and sharing, no constants).
    pub fn shape(&self, i: usize) -> u64 {
        let seen = self.reach(i);
        let mut s = String::new();
        for k in 0..=i {
            if !seen[k] {
                continue;
            }
            s.push_str(&match &self.ops[k] {
                Op::Const(_) => format!("{}c;", k),
                Op::Var(v) => format!("{}v{};", k, v),
                Op::Bin(b, l, r, f) => {
                    let sa = |a: &Arg| match a {
                        Arg::R(j) => format!("r{}", j),
                        Arg::N(_) => "n".to_string(),
                    };
                    format!("{}{:?}{}{}{};", k, b, sa(l), sa(r), f)
                }
                o => format!("{}{:?};", k, o),
            });
        }
        hash_str(&s)
    }

    /// For each operation: composed of sums, differences, negations and products or
    /// quotients with constants only (so that the library must see it as affine);
    /// and: free of variables.
    pub fn affine_flags(&self) -> (Vec<bool>, Vec<bool>) {
        let mut aff: Vec<bool> = Vec::new();
        let mut con: Vec<bool> = Vec::new(); // arithmetic constant
        for i in 0..self.ops.len() {
            let fa = |a: &Arg, v: &Vec<bool>| match a {
                Arg::R(j) => v[*j],
                Arg::N(_) => true,
            };
            let (a, c) = match &self.ops[i] {
                Op::Const(_) => (true, true),
                Op::Var(_) => (true, false),
                Op::Bin(Bop::Add, l, r, _) | Op::Bin(Bop::Sub, l, r, _) => {
                    (fa(l, &aff) && fa(r, &aff), fa(l, &con) && fa(r, &con))
                }
                Op::Bin(Bop::Mul, l, r, _) => (
                    fa(l, &aff) && fa(r, &aff) && (fa(l, &con) || fa(r, &con)),
                    fa(l, &con) && fa(r, &con),
                ),
                Op::Bin(Bop::Div, l, r, _) => {
                    (fa(l, &aff) && fa(r, &con), fa(l, &con) && fa(r, &con))
                }
                Op::Neg(j, _) => (aff[*j], con[*j]),
                Op::Sin(j) | Op::Cos(j) => {
                    // Functions of folded constants are folded to constants.
                    let folded = match &self.ops[*j] {
                        Op::Const(_) => true,
                        _ => false,
                    };
                    (folded, folded)
                }
                Op::RawSin(_) | Op::RawCos(_) => (false, false),
                Op::RawAdd(v) => (v.iter().all(|j| aff[*j]), v.iter().all(|j| con[*j])),
                Op::RawMul(l, r) => {
                    (aff[*l] && aff[*r] && (con[*l] || con[*r]), con[*l] && con[*r])
                }
                Op::RawDiv(l, r) => (aff[*l] && con[*r], con[*l] && con[*r]),
            };
            aff.push(a);
            con.push(c);
        }
        (aff, con)
    }

    /// Builds the nodes of all operations with the operand forms that the program asks for.
    pub fn build(&self, vars: &[Node]) -> Vec<Node> {
        let mut n: Vec<Node> = Vec::with_capacity(self.ops.len());
        for op in self.ops.iter() {
            let x = match op {
                Op::Const(c) => ConstantScalar::new(*c),
                Op::Var(v) => vars[*v].clone(),
                Op::Bin(b, l, r, f) => bin(*b, l, r, *f, &n),
                Op::Neg(j, f) => {
                    if *f == 0 {
                        -&n[*j]
                    } else {
                        -(n[*j].clone())
                    }
                }
                Op::Sin(j) => n[*j].sin(),
                Op::Cos(j) => n[*j].cos(),
                Op::RawAdd(v) => FunctionAdd::new(v.iter().map(|j| n[*j].clone()).collect()),
                Op::RawMul(l, r) => FunctionMul::new(n[*l].clone(), n[*r].clone()),
                Op::RawDiv(l, r) => FunctionDiv::new(n[*l].clone(), n[*r].clone()),
                Op::RawSin(j) => FunctionSin::new(n[*j].clone()),
                Op::RawCos(j) => FunctionCos::new(n[*j].clone()),
            };
            n.push(x);
        }
        n
    }
}

fn bin(b: Bop, l: &Arg, r: &Arg, f: u8, n: &[Node]) -> Node {
    macro_rules! forms {
        ($op:tt) => {
            match (l, r) {
                (Arg::R(i), Arg::R(j)) => match f % 4 {
                    0 => &n[*i] $op &n[*j],
                    1 => &n[*i] $op n[*j].clone(),
                    2 => n[*i].clone() $op &n[*j],
                    _ => n[*i].clone() $op n[*j].clone(),
                },
                (Arg::R(i), Arg::N(c)) => {
                    if f % 2 == 0 { &n[*i] $op *c } else { n[*i].clone() $op *c }
                }
                (Arg::N(c), Arg::R(j)) => {
                    if f % 2 == 0 { *c $op &n[*j] } else { *c $op n[*j].clone() }
                }
                (Arg::N(_), Arg::N(_)) => unreachable!(),
            }
        };
    }
    match b {
        Bop::Add => forms!(+),
        Bop::Sub => forms!(-),
        Bop::Mul => forms!(*),
        Bop::Div => forms!(/),
    }
}

/// Number with a bound e of its rounding error in units of U, and a bound m of the sum of
/// the magnitudes of the terms that an expansion into paths has (for derivatives).
#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub v: f64,
    pub e: f64,
    pub m: f64,
}

impl Num {
    pub fn c(v: f64) -> Num {
        Num { v, e: 0., m: v.abs() }
    }
    pub fn zero() -> Num {
        Num { v: 0., e: 0., m: 0. }
    }
    /// Forgets how the value came about.
    pub fn fresh(self) -> Num {
        Num { v: self.v, e: self.e, m: self.v.abs() }
    }
    pub fn is_zero(&self) -> bool {
        self.v == 0. && self.e == 0. && self.m == 0.
    }
    pub fn add(self, o: Num) -> Num {
        if o.is_zero() {
            return self;
        }
        if self.is_zero() {
            return o;
        }
        Num {
            v: self.v + o.v,
            e: self.e + o.e + self.v.abs() + o.v.abs(),
            m: self.m + o.m,
        }
    }
    pub fn neg(self) -> Num {
        Num { v: -self.v, e: self.e, m: self.m }
    }
    pub fn sub(self, o: Num) -> Num {
        self.add(o.neg())
    }
    pub fn mul(self, o: Num) -> Num {
        if (self.is_zero() && o.ok()) || (o.is_zero() && self.ok()) {
            return Num::zero();
        }
        let v = self.v * o.v;
        Num {
            v,
            e: self.m * o.e + o.m * self.e + self.e * o.e * U + v.abs(),
            m: self.m * o.m,
        }
    }
    pub fn div(self, o: Num) -> Num {
        if self.is_zero() && o.v.abs() > o.e * U * 64. {
            return Num::zero();
        }
        let v = self.v / o.v;
        let d = o.v.abs() - o.e * U * 64.;
        if d <= 0. {
            return Num { v, e: f64::INFINITY, m: v.abs() };
        }
        Num { v, e: (self.e + v.abs() * o.e) / d + v.abs(), m: v.abs() }
    }
    pub fn sin(self) -> Num {
        let v = self.v.sin();
        Num { v, e: self.e + v.abs(), m: v.abs() }
    }
    pub fn cos(self) -> Num {
        let v = self.v.cos();
        Num { v, e: self.e + v.abs(), m: v.abs() }
    }
    pub fn tol(&self) -> f64 {
        TOLU * (self.e + self.m) + 1e-290
    }
    pub fn ok(&self) -> bool {
        self.v.is_finite() && self.e.is_finite() && self.m.is_finite()
    }
    /// Does the observed value agree?
    pub fn matches(&self, x: f64) -> bool {
        (x - self.v).abs() <= self.tol()
    }
    /// Certainly not zero.
    pub fn nonzero(&self) -> bool {
        self.v.abs() > self.tol()
    }
}

/// Value, gradient and Hessian (packed lower triangle) in nv directions.
#[derive(Clone, Debug)]
pub struct Jet {
    pub v: Num,
    pub g: Vec<Num>,
    pub h: Vec<Num>,
}

impl Jet {
    pub fn hess(&self, i: usize, j: usize) -> Num {
        let (i, j) = if i >= j { (i, j) } else { (j, i) };
        self.h[i * (i + 1) / 2 + j]
    }
}

pub fn constant_jet(c: Num, nv: usize, order: usize) -> Jet {
    Jet {
        v: c,
        g: if order >= 1 { vec![Num::zero(); nv] } else { vec![] },
        h: if order >= 2 { vec![Num::zero(); nv * (nv + 1) / 2] } else { vec![] },
    }
}

/// Combination of args with first partials p and second partials pp[(i,j)], i <= j.
pub fn chain(v: Num, args: &[&Jet], p: &[Num], pp: &[(usize, usize, Num)], nv: usize, order: usize) -> Jet {
    let mut r = constant_jet(v.fresh(), nv, order);
    if order >= 1 {
        for (a, d) in args.iter().zip(p.iter()) {
            let d = d.fresh();
            if d.is_zero() {
                continue;
            }
            for k in 0..nv {
                r.g[k] = r.g[k].add(d.mul(a.g[k]));
            }
        }
    }
    if order >= 2 {
        for (a, d) in args.iter().zip(p.iter()) {
            let d = d.fresh();
            if d.is_zero() {
                continue;
            }
            for k in 0..r.h.len() {
                r.h[k] = r.h[k].add(d.mul(a.h[k]));
            }
        }
        for (i, j, d) in pp.iter() {
            let d = d.fresh();
            if d.is_zero() {
                continue;
            }
            let mut q = 0;
            for r1 in 0..nv {
                for r2 in 0..=r1 {
                    let mut t = args[*i].g[r1].mul(args[*j].g[r2]);
                    if i != j {
                        t = t.add(args[*i].g[r2].mul(args[*j].g[r1]));
                    }
                    r.h[q] = r.h[q].add(d.mul(t));
                    q += 1;
                }
            }
        }
    }
    r
}

impl Prog {
    /// Evaluates all operations at x; order 0: values, 1: gradients, 2: Hessians.
    pub fn jets(&self, x: &[f64], order: usize) -> Vec<Jet> {
        let mut out: Vec<Jet> = Vec::with_capacity(self.ops.len());
        for i in 0..self.ops.len() {
            let j = self.jet_op(&self.ops[i], &out, x, order);
            out.push(j);
        }
        out
    }

    pub fn jet_op(&self, op: &Op, out: &[Jet], x: &[f64], order: usize) -> Jet {
        let nv = x.len();
        let one = Num::c(1.);
        let get = |a: &Arg| match a {
            Arg::R(j) => out[*j].clone(),
            Arg::N(c) => constant_jet(Num::c(*c), nv, order),
        };
        match op {
            Op::Const(c) => constant_jet(Num::c(*c), nv, order),
            Op::Var(v) => {
                let mut r = constant_jet(Num::c(x[*v]), nv, order);
                if order >= 1 {
                    r.g[*v] = one;
                }
                r
            }
            Op::Bin(b, l, r, _) => {
                let l = get(l);
                let r = get(r);
                match b {
                    Bop::Add => chain(l.v.add(r.v), &[&l, &r], &[one, one], &[], nv, order),
                    Bop::Sub => {
                        chain(l.v.sub(r.v), &[&l, &r], &[one, Num::c(-1.)], &[], nv, order)
                    }
                    Bop::Mul => mul_jet(&l, &r, nv, order),
                    Bop::Div => div_jet(&l, &r, nv, order),
                }
            }
            Op::Neg(j, _) => {
                chain(out[*j].v.neg(), &[&out[*j]], &[Num::c(-1.)], &[], nv, order)
            }
            Op::Sin(j) | Op::RawSin(j) => {
                let a = &out[*j];
                chain(a.v.sin(), &[a], &[a.v.cos()], &[(0, 0, a.v.sin().neg())], nv, order)
            }
            Op::Cos(j) | Op::RawCos(j) => {
                let a = &out[*j];
                chain(a.v.cos(), &[a], &[a.v.sin().neg()], &[(0, 0, a.v.cos().neg())], nv, order)
            }
            Op::RawAdd(v) => {
                let mut s = out[v[0]].v;
                for j in v[1..].iter() {
                    s = s.add(out[*j].v);
                }
                let args: Vec<&Jet> = v.iter().map(|j| &out[*j]).collect();
                chain(s, &args, &vec![one; v.len()], &[], nv, order)
            }
            Op::RawMul(l, r) => mul_jet(&out[*l], &out[*r], nv, order),
            Op::RawDiv(l, r) => div_jet(&out[*l], &out[*r], nv, order),
        }
    }
}

fn mul_jet(l: &Jet, r: &Jet, nv: usize, order: usize) -> Jet {
    chain(l.v.mul(r.v), &[l, r], &[r.v, l.v], &[(0, 1, Num::c(1.))], nv, order)
}

fn div_jet(l: &Jet, r: &Jet, nv: usize, order: usize) -> Jet {
    let one = Num::c(1.);
    let inv = one.div(r.v);
    let inv2 = inv.mul(inv);
    let p1 = l.v.mul(inv2).neg();
    let p11 = Num::c(2.).mul(l.v).mul(inv2).mul(inv);
    chain(
        l.v.div(r.v),
        &[l, r],
        &[inv, p1],
        &[(0, 1, inv2.neg()), (1, 1, p11)],
        nv,
        order,
    )
}

/// All variables that occur in a node.
pub fn node_vars(n: &Node) -> Vec<Node> {
    let mut seen: std::collections::HashSet<Node> = std::collections::HashSet::new();
    let mut vars: Vec<Node> = Vec::new();
    let mut st: Vec<Node> = vec![n.clone()];
    while let Some(k) = st.pop() {
        if !seen.insert(k.clone()) {
            continue;
        }
        if let Node::VariableScalar(_) = k {
            vars.push(k.clone());
        }
        for a in k.arguments() {
            st.push(a.clone());
        }
    }
    vars
}

pub fn assignment<'a>(vars: &'a [Node], x: &[f64]) -> HashMap<&'a Node, f64> {
    vars.iter().zip(x.iter()).map(|(v, x)| (v, *x)).collect()
}

/// What a generated program may contain.
#[derive(Clone, Debug)]
pub struct GenCfg {
    pub nvars: usize,
    pub nops: usize,
    pub trig: bool,
    pub div: bool,
    pub raw: bool,
    pub affine_only: bool,
    pub max_paths: u64,
    pub max_depth: usize,
    pub max_abs: f64,
    /// Size of the numbers at the points (one if ordinary); constants are of that size, too.
    pub scale: f64,
}

/// Extends prog by random operations; every operation is finite and well away from
/// singularities at the points pts. Returns the last operation.
pub fn gen_ops(rng: &mut Rng, prog: &mut Prog, cfg: &GenCfg, pts: &[Vec<f64>]) -> usize {
    let start = prog.ops.len();
    let mut vals: Vec<Vec<Num>> = pts
        .iter()
        .map(|x| prog.jets(x, 0).into_iter().map(|j| j.v).collect())
        .collect();
    let mut paths = prog.paths();
    let mut depths = prog.depths();
    let (mut _aff, mut con) = prog.affine_flags();
    let mut pool: Vec<usize> = Vec::new();
    let number = |rng: &mut Rng| {
        let c = rng.constant();
        if cfg.scale != 1. && rng.chance(0.5) {
            c * cfg.scale
        } else {
            c
        }
    };
    let push = |prog: &mut Prog,
                    op: Op,
                    vals: &mut Vec<Vec<Num>>,
                    paths: &mut Vec<u64>,
                    depths: &mut Vec<usize>|
     -> Option<usize> {
        // Values
        let mut nv: Vec<Num> = Vec::new();
        for (x, v) in pts.iter().zip(vals.iter()) {
            let r = num_op(&op, v, x);
            if !r.ok() || r.v.abs() > cfg.max_abs || r.e > cfg.max_abs {
                return None;
            }
            nv.push(r);
        }
        prog.ops.push(op);
        let i = prog.ops.len() - 1;
        let p = match prog.ops[i] {
            Op::Var(_) => 1,
            _ => prog.args(i).iter().map(|a| if let Arg::R(j) = a { paths[*j] } else { 0 }).sum(),
        };
        let d = prog
            .args(i)
            .iter()
            .map(|a| if let Arg::R(j) = a { depths[*j] + 1 } else { 0 })
            .max()
            .unwrap_or(0);
        if p > cfg.max_paths || d > cfg.max_depth {
            prog.ops.pop();
            return None;
        }
        for (v, r) in vals.iter_mut().zip(nv) {
            v.push(r);
        }
        paths.push(p);
        depths.push(d);
        Some(i)
    };
    // Leaves
    for v in 0..cfg.nvars {
        if let Some(i) = push(prog, Op::Var(v), &mut vals, &mut paths, &mut depths) {
            pool.push(i);
        }
    }
    for _ in 0..rng.below(3) {
        let c = number(rng);
        if let Some(i) = push(prog, Op::Const(c), &mut vals, &mut paths, &mut depths) {
            pool.push(i);
        }
    }
    let mut tries = 0;
    let mut made = 0;
    while made < cfg.nops && tries < 40 * cfg.nops + 100 {
        tries += 1;
        con = {
            if con.len() != prog.ops.len() {
                prog.affine_flags().1
            } else {
                con
            }
        };
        let choose = |rng: &mut Rng| -> usize {
            let n = pool.len();
            match rng.below(10) {
                0..=3 => pool[n - 1 - rng.below(n.min(3))],
                4 => pool[n - 1],
                _ => pool[rng.below(n)],
            }
        };
        let l = choose(rng);
        let r = if rng.chance(0.12) { l } else { choose(rng) };
        let form = rng.below(4) as u8;
        let ok_den = |k: usize| vals.iter().all(|v| v[k].v.abs() > 0.05 * cfg.scale.min(1.) && v[k].v.abs() < 1e6 * cfg.scale.max(1.));
        let kind = rng.below(24);
        let op = match kind {
            0..=3 => Op::Bin(Bop::Add, Arg::R(l), Arg::R(r), form),
            4..=5 => Op::Bin(Bop::Sub, Arg::R(l), Arg::R(r), form),
            6..=8 => {
                if cfg.affine_only && !con[l] && !con[r] {
                    continue;
                }
                Op::Bin(Bop::Mul, Arg::R(l), Arg::R(r), form)
            }
            9..=10 => {
                if !cfg.div || !ok_den(r) || (cfg.affine_only && !con[r]) {
                    continue;
                }
                Op::Bin(Bop::Div, Arg::R(l), Arg::R(r), form)
            }
            11..=16 => {
                // With a plain number
                let c = number(rng);
                let b = *rng.pick(&[Bop::Add, Bop::Add, Bop::Sub, Bop::Mul, Bop::Mul, Bop::Div]);
                if rng.chance(0.5) {
                    if b == Bop::Div && c == 0. {
                        continue;
                    }
                    Op::Bin(b, Arg::R(l), Arg::N(c), form)
                } else {
                    if b == Bop::Div && (!cfg.div || !ok_den(l) || (cfg.affine_only && !con[l])) {
                        continue;
                    }
                    Op::Bin(b, Arg::N(c), Arg::R(l), form)
                }
            }
            17 => Op::Neg(l, form % 2),
            18 => {
                if !cfg.trig || cfg.affine_only {
                    continue;
                }
                Op::Sin(l)
            }
            19 => {
                if !cfg.trig || cfg.affine_only {
                    continue;
                }
                Op::Cos(l)
            }
            20 => Op::Const(number(rng)),
            21 => {
                // Cancel a constant that was added
                let c = rng.dyadic(4);
                if c == 0. {
                    continue;
                }
                let i = match push(
                    prog,
                    Op::Bin(Bop::Add, Arg::R(l), Arg::N(c), form),
                    &mut vals,
                    &mut paths,
                    &mut depths,
                ) {
                    Some(i) => i,
                    None => continue,
                };
                pool.push(i);
                Op::Bin(Bop::Sub, Arg::R(i), Arg::N(c), form)
            }
            _ => {
                if !cfg.raw {
                    continue;
                }
                match rng.below(5) {
                    0 => {
                        let n = rng.us(2, 5);
                        let mut v = vec![l, r];
                        while v.len() < n {
                            v.push(choose(rng));
                        }
                        Op::RawAdd(v)
                    }
                    1 => {
                        if cfg.affine_only && !con[l] && !con[r] {
                            continue;
                        }
                        Op::RawMul(l, r)
                    }
                    2 => {
                        if !ok_den(r) || (cfg.affine_only && !con[r]) {
                            continue;
                        }
                        Op::RawDiv(l, r)
                    }
                    3 => {
                        if cfg.affine_only {
                            continue;
                        }
                        Op::RawSin(l)
                    }
                    _ => {
                        if cfg.affine_only {
                            continue;
                        }
                        Op::RawCos(l)
                    }
                }
            }
        };
        if let Some(i) = push(prog, op, &mut vals, &mut paths, &mut depths) {
            pool.push(i);
            made += 1;
        }
    }
    if prog.ops.len() == start {
        prog.push(Op::Const(1.));
    }
    prog.root()
}

fn num_op(op: &Op, v: &[Num], x: &[f64]) -> Num {
    let get = |a: &Arg| match a {
        Arg::R(j) => v[*j],
        Arg::N(c) => Num::c(*c),
    };
    match op {
        Op::Const(c) => Num::c(*c),
        Op::Var(k) => Num::c(x[*k]),
        Op::Bin(b, l, r, _) => match b {
            Bop::Add => get(l).add(get(r)),
            Bop::Sub => get(l).sub(get(r)),
            Bop::Mul => get(l).mul(get(r)),
            Bop::Div => get(l).div(get(r)),
        },
        Op::Neg(j, _) => v[*j].neg(),
        Op::Sin(j) | Op::RawSin(j) => v[*j].sin(),
        Op::Cos(j) | Op::RawCos(j) => v[*j].cos(),
        Op::RawAdd(a) => {
            let mut s = v[a[0]];
            for j in a[1..].iter() {
                s = s.add(v[*j]);
            }
            s
        }
        Op::RawMul(l, r) => v[*l].mul(v[*r]),
        Op::RawDiv(l, r) => v[*l].div(v[*r]),
    }
}

/// Points with entries away from zero mostly.
pub fn gen_point(rng: &mut Rng, n: usize) -> Vec<f64> {
    (0..n)
        .map(|_| match rng.below(8) {
            0 => rng.dyadic(4),
            1 => *rng.pick(&[1., -1., 2., 0.5, -3.]),
            _ => rng.uniform(-3., 3.),
        })
        .collect()
}
