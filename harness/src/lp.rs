//! Reader of the LP file format (as documented for CPLEX and CoinLpIO: linear problems with
//! bounds and integers) and of free MPS files, both written for the harness.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct LpRow {
    pub name: String,
    pub coef: BTreeMap<String, f64>,
    /// '<', '>' or '='
    pub sense: char,
    pub rhs: f64,
}

#[derive(Clone, Debug, Default)]
pub struct LpFile {
    pub maximize: bool,
    pub obj: BTreeMap<String, f64>,
    pub obj_const: f64,
    pub rows: Vec<LpRow>,
    pub lo: BTreeMap<String, f64>,
    pub up: BTreeMap<String, f64>,
    pub ints: BTreeSet<String>,
    /// All variables that occur
    pub names: BTreeSet<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(f64),
    Name(String),
    Plus,
    Minus,
    Rel(char),
    Colon,
    /// Start of a line
    Line,
}

fn tokens(text: &str) -> Result<Vec<Tok>, String> {
    let mut v = Vec::new();
    for line in text.lines() {
        let line = match line.find('\\') {
            Some(k) => &line[..k],
            None => line,
        };
        v.push(Tok::Line);
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c.is_whitespace() {
                i += 1;
            } else if c == '+' {
                v.push(Tok::Plus);
                i += 1;
            } else if c == '-' {
                v.push(Tok::Minus);
                i += 1;
            } else if c == ':' {
                v.push(Tok::Colon);
                i += 1;
            } else if c == '<' || c == '>' || c == '=' {
                let mut r = c;
                i += 1;
                if i < b.len() && (b[i] == '=' || b[i] == '<' || b[i] == '>') {
                    if r == '=' {
                        r = b[i];
                    }
                    i += 1;
                }
                v.push(Tok::Rel(r));
            } else if c.is_ascii_digit() || c == '.' {
                let s = i;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == '.') {
                    i += 1;
                }
                if i < b.len() && (b[i] == 'e' || b[i] == 'E') {
                    let mut k = i + 1;
                    if k < b.len() && (b[k] == '+' || b[k] == '-') {
                        k += 1;
                    }
                    if k < b.len() && b[k].is_ascii_digit() {
                        while k < b.len() && b[k].is_ascii_digit() {
                            k += 1;
                        }
                        i = k;
                    }
                }
                let t: String = b[s..i].iter().collect();
                v.push(Tok::Num(t.parse::<f64>().map_err(|_| format!("bad number {}", t))?));
            } else {
                let s = i;
                while i < b.len() && !b[i].is_whitespace() && !"+-:<>=".contains(b[i]) {
                    i += 1;
                }
                let t: String = b[s..i].iter().collect();
                let low = t.to_ascii_lowercase();
                if low == "inf" || low == "infinity" {
                    v.push(Tok::Num(f64::INFINITY));
                } else {
                    v.push(Tok::Name(t));
                }
            }
        }
    }
    Ok(v)
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Sec {
    Obj(bool),
    Rows,
    Bounds,
    Ints,
    Bins,
    End,
}

/// Section that starts at a token, and how many tokens name it.
fn section(t: &[Tok], i: usize) -> Option<(Sec, usize)> {
    if i > 0 && t[i - 1] != Tok::Line {
        return None;
    }
    let w = |k: usize| match t.get(k) {
        Some(Tok::Name(n)) => n.to_ascii_lowercase(),
        _ => String::new(),
    };
    let a = w(i);
    let follows_colon = t.get(i + 1) == Some(&Tok::Colon);
    if follows_colon {
        return None;
    }
    match a.as_str() {
        "minimize" | "minimum" | "minimise" | "min" => Some((Sec::Obj(false), 1)),
        "maximize" | "maximum" | "maximise" | "max" => Some((Sec::Obj(true), 1)),
        "subject" | "such" => Some((Sec::Rows, 2)),
        "st" | "s.t." | "st." => Some((Sec::Rows, 1)),
        "bounds" | "bound" => Some((Sec::Bounds, 1)),
        "general" | "generals" | "gen" | "integer" | "integers" | "int" | "gin" => Some((Sec::Ints, 1)),
        "binary" | "binaries" | "bin" => Some((Sec::Bins, 1)),
        "end" => Some((Sec::End, 1)),
        _ => None,
    }
}

impl LpFile {
    fn name(&mut self, n: &str) {
        self.names.insert(n.to_string());
    }
}

pub fn read_lp(text: &str) -> Result<LpFile, String> {
    let t = tokens(text)?;
    let mut f = LpFile::default();
    let mut i = 0;
    let mut sec: Option<Sec> = None;
    let mut ended = false;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    while i < t.len() {
        if t[i] == Tok::Line {
            i += 1;
            continue;
        }
        if ended {
            return Err("content after End".to_string());
        }
        if let Some((s, n)) = section(&t, i) {
            if let Sec::Obj(m) = s {
                if sec.is_some() {
                    return Err("two objectives".to_string());
                }
                f.maximize = m;
            } else if sec.is_none() {
                return Err("section before the objective".to_string());
            }
            sec = Some(s);
            ended = s == Sec::End;
            i += n;
            continue;
        }
        match sec {
            None | Some(Sec::End) => return Err("content outside of sections".to_string()),
            Some(Sec::Obj(_)) => {
                let (name, e, k, j) = expr(&t, i)?;
                let _ = name;
                if !f.obj.is_empty() || f.obj_const != 0. {
                    return Err("two objective expressions".to_string());
                }
                for (n, c) in e {
                    f.name(&n);
                    *f.obj.entry(n).or_insert(0.) += c;
                }
                f.obj_const = k;
                i = j;
            }
            Some(Sec::Rows) => {
                let (name, e, k, j) = expr(&t, i)?;
                let rel = match t.get(j) {
                    Some(Tok::Rel(r)) => *r,
                    x => return Err(format!("row {:?} has no relation, but {:?}", name, x)),
                };
                let (rhs, j) = number(&t, j + 1)?;
                let name = name.unwrap_or_default();
                if !name.is_empty() && !seen.insert(name.clone()) {
                    return Err(format!("two rows are called {}", name));
                }
                let mut row = LpRow { name, sense: rel, rhs: rhs - k, ..Default::default() };
                for (n, c) in e {
                    f.name(&n);
                    *row.coef.entry(n).or_insert(0.) += c;
                }
                f.rows.push(row);
                i = j;
            }
            Some(Sec::Bounds) => i = bound(&mut f, &t, i)?,
            Some(Sec::Ints) | Some(Sec::Bins) => match &t[i] {
                Tok::Name(n) => {
                    f.name(n);
                    f.ints.insert(n.clone());
                    if sec == Some(Sec::Bins) {
                        f.lo.insert(n.clone(), 0.);
                        f.up.insert(n.clone(), 1.);
                    }
                    i += 1;
                }
                x => return Err(format!("{:?} in a list of integers", x)),
            },
        }
    }
    if !ended {
        return Err("no End".to_string());
    }
    Ok(f)
}

fn number(t: &[Tok], mut i: usize) -> Result<(f64, usize), String> {
    let mut s = 1.;
    loop {
        match t.get(i) {
            Some(Tok::Line) => i += 1,
            Some(Tok::Plus) => i += 1,
            Some(Tok::Minus) => {
                s = -s;
                i += 1
            }
            Some(Tok::Num(x)) => return Ok((s * x, i + 1)),
            x => return Err(format!("{:?} instead of a number", x)),
        }
    }
}

type Terms = Vec<(String, f64)>;

/// Optional name, terms, constant, next token.
fn expr(t: &[Tok], mut i: usize) -> Result<(Option<String>, Terms, f64, usize), String> {
    let mut name = None;
    if let (Some(Tok::Name(n)), Some(Tok::Colon)) = (t.get(i), t.get(i + 1)) {
        name = Some(n.clone());
        i += 2;
    }
    let mut terms = Vec::new();
    let mut k = 0.;
    let mut sign: Option<f64> = None;
    let mut coef: Option<f64> = None;
    let mut first = true;
    loop {
        // A section or a named row ends the expression
        if let Some(Tok::Line) = t.get(i) {
            i += 1;
            continue;
        }
        if i >= t.len() || section(t, i).is_some() || (matches!(t[i], Tok::Name(_)) && t.get(i + 1) == Some(&Tok::Colon)) {
            break;
        }
        match &t[i] {
            Tok::Plus | Tok::Minus => {
                if let Some(c) = coef.take() {
                    k += sign.take().unwrap_or(1.) * c;
                }
                let s = if t[i] == Tok::Minus { -1. } else { 1. };
                sign = Some(sign.unwrap_or(1.) * s);
                i += 1;
            }
            Tok::Num(x) => {
                if coef.is_some() {
                    return Err("two numbers in a row".to_string());
                }
                if sign.is_none() && !first {
                    return Err("no sign between terms".to_string());
                }
                coef = Some(*x);
                i += 1;
            }
            Tok::Name(n) => {
                if sign.is_none() && coef.is_none() && !first {
                    return Err(format!("no sign before {}", n));
                }
                terms.push((n.clone(), sign.take().unwrap_or(1.) * coef.take().unwrap_or(1.)));
                i += 1;
            }
            _ => break,
        }
        first = false;
    }
    if let Some(c) = coef {
        k += sign.take().unwrap_or(1.) * c;
    }
    if sign.is_some() {
        return Err("dangling sign".to_string());
    }
    Ok((name, terms, k, i))
}

fn bound(f: &mut LpFile, t: &[Tok], mut i: usize) -> Result<usize, String> {
    let line_end = |i: usize| i >= t.len() || t[i] == Tok::Line;
    let var = |i: usize| match t.get(i) {
        Some(Tok::Name(n)) => Ok(n.clone()),
        x => Err(format!("{:?} instead of a variable in bounds", x)),
    };
    if let Tok::Name(_) = t[i] {
        let n = var(i)?;
        f.name(&n);
        if let Some(Tok::Name(w)) = t.get(i + 1) {
            if w.eq_ignore_ascii_case("free") {
                f.lo.insert(n.clone(), f64::NEG_INFINITY);
                f.up.insert(n, f64::INFINITY);
                return Ok(i + 2);
            }
        }
        let r = match t.get(i + 1) {
            Some(Tok::Rel(r)) => *r,
            x => return Err(format!("{:?} after {} in bounds", x, n)),
        };
        let (v, j) = number(t, i + 2)?;
        match r {
            '<' => {
                f.up.insert(n, v);
            }
            '>' => {
                f.lo.insert(n, v);
            }
            _ => {
                f.lo.insert(n.clone(), v);
                f.up.insert(n, v);
            }
        }
        return Ok(j);
    }
    let (a, j) = number(t, i)?;
    let r = match t.get(j) {
        Some(Tok::Rel(r)) => *r,
        x => return Err(format!("{:?} after a number in bounds", x)),
    };
    let n = var(j + 1)?;
    f.name(&n);
    match r {
        '<' => {
            f.lo.insert(n.clone(), a);
        }
        '>' => {
            f.up.insert(n.clone(), a);
        }
        _ => {
            f.lo.insert(n.clone(), a);
            f.up.insert(n.clone(), a);
        }
    }
    i = j + 2;
    if !line_end(i) {
        if let Some(Tok::Rel(r)) = t.get(i) {
            let (b, j) = number(t, i + 1)?;
            match r {
                '<' => {
                    f.up.insert(n, b);
                }
                '>' => {
                    f.lo.insert(n, b);
                }
                _ => return Err("equation in a double bound".to_string()),
            }
            i = j;
        } else {
            return Err("junk in bounds".to_string());
        }
    }
    Ok(i)
}

/// Free MPS as written by clp.
pub fn read_mps(text: &str) -> Result<LpFile, String> {
    let mut f = LpFile::default();
    let mut sec = "";
    let mut obj = String::new();
    let mut int = false;
    let mut index: BTreeMap<String, usize> = BTreeMap::new();
    let mut up_set: BTreeSet<String> = BTreeSet::new();
    for line in text.lines() {
        if line.starts_with('*') || line.trim().is_empty() {
            continue;
        }
        let w: Vec<&str> = line.split_whitespace().collect();
        if !line.starts_with(' ') {
            sec = match w[0] {
                "NAME" => "NAME",
                "ROWS" => "ROWS",
                "COLUMNS" => "COLUMNS",
                "RHS" => "RHS",
                "RANGES" => "RANGES",
                "BOUNDS" => "BOUNDS",
                "ENDATA" => "ENDATA",
                "OBJSENSE" => "OBJSENSE",
                x => return Err(format!("section {}", x)),
            };
            continue;
        }
        let num = |s: &str| s.parse::<f64>().map_err(|_| format!("number {}", s));
        match sec {
            "OBJSENSE" => f.maximize = w[0].starts_with("MAX"),
            "ROWS" => {
                if w[0] == "N" {
                    if obj.is_empty() {
                        obj = w[1].to_string();
                    }
                } else {
                    let sense = match w[0] {
                        "E" => '=',
                        "L" => '<',
                        "G" => '>',
                        x => return Err(format!("row type {}", x)),
                    };
                    index.insert(w[1].to_string(), f.rows.len());
                    f.rows.push(LpRow { name: w[1].to_string(), sense, ..Default::default() });
                }
            }
            "COLUMNS" => {
                if w.len() >= 3 && w[1] == "'MARKER'" {
                    int = w[2] == "'INTORG'";
                    continue;
                }
                f.name(w[0]);
                if int {
                    f.ints.insert(w[0].to_string());
                }
                for p in w[1..].chunks(2) {
                    if p.len() < 2 {
                        return Err("columns".to_string());
                    }
                    let v = num(p[1])?;
                    if p[0] == obj {
                        *f.obj.entry(w[0].to_string()).or_insert(0.) += v;
                    } else {
                        let k = *index.get(p[0]).ok_or("row")?;
                        *f.rows[k].coef.entry(w[0].to_string()).or_insert(0.) += v;
                    }
                }
            }
            "RHS" => {
                for p in w[1..].chunks(2) {
                    let v = num(p[1])?;
                    if p[0] == obj {
                        f.obj_const = -v;
                    } else {
                        let k = *index.get(p[0]).ok_or("row")?;
                        f.rows[k].rhs = v;
                    }
                }
            }
            "RANGES" => return Err("ranges".to_string()),
            "BOUNDS" => {
                let n = w[2].to_string();
                let v = if w.len() > 3 { num(w[3])? } else { 0. };
                match w[0] {
                    "UP" | "UI" => {
                        if v < 0. && !f.lo.contains_key(&n) && w[0] == "UP" {
                            f.lo.insert(n.clone(), f64::NEG_INFINITY);
                        }
                        f.up.insert(n.clone(), v);
                        up_set.insert(n.clone());
                        if w[0] == "UI" {
                            f.ints.insert(n);
                        }
                    }
                    "LO" | "LI" => {
                        f.lo.insert(n.clone(), v);
                        if w[0] == "LI" {
                            f.ints.insert(n);
                        }
                    }
                    "FX" => {
                        f.lo.insert(n.clone(), v);
                        f.up.insert(n, v);
                    }
                    "FR" => {
                        f.lo.insert(n.clone(), f64::NEG_INFINITY);
                        f.up.insert(n, f64::INFINITY);
                    }
                    "MI" => {
                        f.lo.insert(n, f64::NEG_INFINITY);
                    }
                    "PL" => {
                        f.up.insert(n, f64::INFINITY);
                    }
                    "BV" => {
                        f.lo.insert(n.clone(), 0.);
                        f.up.insert(n.clone(), 1.);
                        f.ints.insert(n);
                    }
                    x => return Err(format!("bound type {}", x)),
                }
            }
            _ => (),
        }
    }
    if sec != "ENDATA" {
        return Err("no ENDATA".to_string());
    }
    Ok(f)
}
