//! C06: printed forms, read back by an own parser.

use numopt::model::*;
use std::collections::HashMap;

use crate::core::{guarded, Ctx};
use crate::p_expr::deep_on;
use crate::expr::*;
use crate::p_model::mixed_cfg;
use crate::spec::*;

/// Parsed arithmetic.
#[derive(Debug)]
pub enum Tree {
    Num(f64),
    Var(usize),
    Neg(Box<Tree>),
    Bin(char, Box<Tree>, Box<Tree>),
    Fun(bool, Box<Tree>), // sin?
}

pub struct Parser<'a> {
    s: &'a [u8],
    i: usize,
    names: &'a HashMap<String, usize>,
}

impl<'a> Parser<'a> {
    pub fn parse(text: &'a str, names: &'a HashMap<String, usize>) -> Result<Tree, String> {
        let mut p = Parser { s: text.as_bytes(), i: 0, names };
        let t = p.sum()?;
        p.ws();
        if p.i != p.s.len() {
            return Err(format!("unexpected text at {} of {:?}", p.i, text));
        }
        Ok(t)
    }

    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }

    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.s.get(self.i).cloned()
    }

    fn sum(&mut self) -> Result<Tree, String> {
        let mut t = self.product()?;
        while let Some(c) = self.peek() {
            if c == b'+' || c == b'-' {
                self.i += 1;
                let r = self.product()?;
                t = Tree::Bin(c as char, Box::new(t), Box::new(r));
            } else {
                break;
            }
        }
        Ok(t)
    }

    fn product(&mut self) -> Result<Tree, String> {
        let mut t = self.unary()?;
        while let Some(c) = self.peek() {
            if c == b'*' || c == b'/' {
                self.i += 1;
                let r = self.unary()?;
                t = Tree::Bin(c as char, Box::new(t), Box::new(r));
            } else {
                break;
            }
        }
        Ok(t)
    }

    fn unary(&mut self) -> Result<Tree, String> {
        match self.peek() {
            Some(b'-') => {
                self.i += 1;
                Ok(Tree::Neg(Box::new(self.unary()?)))
            }
            Some(b'+') => {
                self.i += 1;
                self.unary()
            }
            _ => self.atom(),
        }
    }

    fn atom(&mut self) -> Result<Tree, String> {
        match self.peek() {
            None => Err("text ends".to_string()),
            Some(b'(') => {
                self.i += 1;
                let t = self.sum()?;
                if self.peek() != Some(b')') {
                    return Err(format!("bracket not closed at {}", self.i));
                }
                self.i += 1;
                Ok(t)
            }
            Some(c) if c.is_ascii_digit() || c == b'.' => {
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == b'.') {
                    self.i += 1;
                }
                if self.i < self.s.len() && (self.s[self.i] == b'e' || self.s[self.i] == b'E') {
                    self.i += 1;
                    if self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i] == b'+') {
                        self.i += 1;
                    }
                    while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                        self.i += 1;
                    }
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                t.parse::<f64>().map(Tree::Num).map_err(|_| format!("number {:?}", t))
            }
            Some(c) if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
                if self.s.get(self.i) == Some(&b'(') {
                    let sin = match t.as_str() {
                        "sin" => true,
                        "cos" => false,
                        _ => return Err(format!("function {:?}", t)),
                    };
                    let a = self.atom()?;
                    return Ok(Tree::Fun(sin, Box::new(a)));
                }
                match self.names.get(&t) {
                    Some(k) => Ok(Tree::Var(*k)),
                    None => Err(format!("name {:?}", t)),
                }
            }
            Some(c) => Err(format!("character {:?} at {}", c as char, self.i)),
        }
    }
}

impl Tree {
    pub fn eval(&self, x: &[f64]) -> f64 {
        match self {
            Tree::Num(c) => *c,
            Tree::Var(k) => x[*k],
            Tree::Neg(t) => -t.eval(x),
            Tree::Bin('+', l, r) => l.eval(x) + r.eval(x),
            Tree::Bin('-', l, r) => l.eval(x) - r.eval(x),
            Tree::Bin('*', l, r) => l.eval(x) * r.eval(x),
            Tree::Bin(_, l, r) => l.eval(x) / r.eval(x),
            Tree::Fun(true, t) => t.eval(x).sin(),
            Tree::Fun(false, t) => t.eval(x).cos(),
        }
    }
}

pub fn reads_as(text: &str, names: &HashMap<String, usize>, pts: &[Vec<f64>], want: &[Num]) -> Result<u64, String> {
    let t = Parser::parse(text, names).map_err(|e| format!("{:?} is no arithmetic: {}", text, e))?;
    let mut n = 0;
    for (x, w) in pts.iter().zip(want.iter()) {
        if !w.ok() {
            continue;
        }
        n += 1;
        let v = t.eval(x);
        if !((v - w.v).abs() <= 4. * w.tol()) {
            return Err(format!("{:?} denotes {:?} at {:?}, the expression is {:?}", text, v, x, w.v));
        }
    }
    Ok(n)
}

fn split_con(text: &str) -> Option<(String, Kind, String)> {
    for (s, k) in [(" == ", Kind::Eq), (" <= ", Kind::Le), (" >= ", Kind::Ge)].iter() {
        if let Some(i) = text.find(s) {
            return Some((text[..i].to_string(), *k, text[i + s.len()..].to_string()));
        }
    }
    None
}

pub fn c06(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let mut cfg = mixed_cfg(false);
    cfg.names = NameStyle::Plain;
    cfg.max_ops = 25;
    cfg.p_dup = 0.2;
    let g = if ctx.idx % 100 == 3 {
        let nv = rng.us(5, 40);
        gen_wide_linear(rng, nv, 12, 0.)
    } else {
        gen_model(rng, &cfg)
    };
    let mut spec = g.spec;
    let is_deep = ctx.idx % 401 == 53;
    if is_deep {
        let (root, depth) = (spec.prog.root(), rng.us(20, 90));
        deep_on(rng, &mut spec.prog, spec.names.len(), root, depth);
    }
    let style = rng.below(3);
    for (i, n) in spec.names.iter_mut().enumerate() {
        *n = match style {
            0 => format!("x{}", i),
            1 => format!("{}{}", ["a", "b", "var_", "sinx", "_y", "Q"][i % 6], i),
            _ => format!("x_{}", 9 * i),
        };
    }
    if is_deep {
        ctx.count("deep_expressions");
    }
    let rng = &mut ctx.rng;
    // Labels
    for c in spec.cons.iter_mut() {
        c.label = match rng.below(5) {
            0 | 1 => String::new(),
            2 => format!("limit {}", rng.below(3)),
            3 => (*rng.pick(&["a : b", "x <= 3", "  spaced  ", "é", "==", ":"])).to_string(),
            _ => "same".to_string(),
        };
    }
    ctx.desc = spec.show();
    let b = match guarded(|| spec.build()) {
        Ok(b) => b,
        Err(e) => return ctx.fail("build-panic", e),
    };
    let nv = spec.nv();
    let names: HashMap<String, usize> = spec.names.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
    let jets: Vec<Vec<Jet>> = g.pts.iter().map(|x| spec.prog.jets(x, 0)).collect();
    // Expressions
    for (i, n) in b.nodes.iter().enumerate() {
        let want: Vec<Num> = jets.iter().map(|j| j[i].v).collect();
        let text = format!("{}", n);
        ctx.count("expressions_printed");
        match reads_as(&text, &names, &g.pts, &want) {
            Ok(n) => ctx.add("values_compared", n),
            Err(e) => return ctx.fail("expression", format!("{} (written {})", e, spec.prog.show(i, &spec.names))),
        }
    }
    // Derivative expressions print too
    if nv <= 6 {
        let root = spec.prog.ops.len() - 1;
        let k = ctx.rng.below(nv);
        let d = b.nodes[root].derivative(&b.vars[k]);
        let text = format!("{}", d);
        for (x, _) in g.pts.iter().zip(jets.iter()) {
            let j = spec.prog.jets(x, 1);
            match reads_as(&text, &names, &[x.clone()], &[j[root].g[k]]) {
                Ok(n) => ctx.add("derivative_values_compared", n),
                Err(e) => return ctx.fail("derivative", format!("{} (derivative of {} by {})", e, b.nodes[root], spec.names[k])),
            }
        }
    }
    let side = |a: Arg, jets: &Vec<Vec<Jet>>| -> Vec<Num> {
        match a {
            Arg::R(i) => jets.iter().map(|j| j[i].v).collect(),
            Arg::N(x) => vec![Num::c(x); jets.len()],
        }
    };
    let check_con = |text: &str, k: usize| -> Result<u64, String> {
        let (l, kind, r) = split_con(text).ok_or_else(|| format!("{:?} is no constraint", text))?;
        let c = &spec.cons[k];
        if kind != c.kind {
            return Err(format!("{:?} has direction {:?}, the constraint has {:?}", text, kind, c.kind));
        }
        let a = reads_as(&l, &names, &g.pts, &side(c.lhs, &jets))?;
        let b = reads_as(&r, &names, &g.pts, &side(c.rhs, &jets))?;
        Ok(a + b)
    };
    for (k, c) in b.cons.iter().enumerate() {
        ctx.count("constraints_printed");
        match check_con(&format!("{}", c), k) {
            Ok(n) => ctx.add("values_compared", n),
            Err(e) => return ctx.fail("constraint", e),
        }
        if format!("{:?}", c) != format!("{}", c) {
            return ctx.fail("constraint-debug", format!("{:?} and {} differ", c, c));
        }
    }
    // The model
    let text = format!("{}", b.model);
    let mut lines = text.lines().filter(|l| !l.trim().is_empty());
    let head = lines.next().unwrap_or("").to_lowercase();
    let want = match spec.obj {
        None => "find",
        Some((true, _)) => "max",
        Some((false, _)) => "min",
    };
    if !head.starts_with(want) {
        return ctx.fail("sense", format!("the listing starts with {:?}, expected {:?}", head, want));
    }
    if let Some((_, o)) = spec.obj {
        let l = lines.next().unwrap_or("");
        let w: Vec<Num> = jets.iter().map(|j| j[o].v).collect();
        match reads_as(l, &names, &g.pts, &w) {
            Ok(n) => ctx.add("values_compared", n),
            Err(e) => return ctx.fail("objective", e),
        }
    }
    let rest: Vec<&str> = lines.collect();
    if !spec.order.is_empty() {
        if rest.is_empty() || !rest[0].to_lowercase().starts_with("subject to") {
            return ctx.fail("listing", format!("no constraints in {:?}", text));
        }
        if rest.len() != spec.order.len() + 1 {
            return ctx.fail("listing", format!("{} lines for {} constraints in {:?}", rest.len() - 1, spec.order.len(), text));
        }
        for (line, k) in rest[1..].iter().zip(spec.order.iter()) {
            let (c, label) = match line.find(" : ") {
                Some(i) => (&line[..i], &line[i + 3..]),
                None => (*line, ""),
            };
            ctx.count("listed_constraints");
            if label != spec.cons[*k].label {
                return ctx.fail("label", format!("line {:?} has label {:?}, expected {:?}", line, label, spec.cons[*k].label));
            }
            if let Err(e) = check_con(c, *k) {
                return ctx.fail("listed-constraint", e);
            }
        }
    } else if !rest.is_empty() {
        return ctx.fail("listing", format!("unexpected lines {:?}", rest));
    }
    // Names and labels
    for (v, n) in b.vars.iter().zip(spec.names.iter()) {
        if v.name() != n || format!("{}", v) != *n {
            return ctx.fail("name", format!("variable {} has name {:?}", n, v.name()));
        }
    }
    for (c, s) in b.cons.iter().zip(spec.cons.iter()) {
        if c.label() != s.label {
            return ctx.fail("label", format!("constraint has label {:?}, expected {:?}", c.label(), s.label));
        }
    }
    ctx.seen(spec.shape());
    ctx.sample(text);
}
