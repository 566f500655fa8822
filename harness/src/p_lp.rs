//! C14: the written LP file is the problem.

use numopt::matrix::coo::CooMat;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::process::{Command, Stdio};

use crate::core::{guarded, Ctx};
use crate::lp::*;
use crate::rng::Rng;
use crate::sys::*;

/// Data of a mixed-integer linear problem.
#[derive(Clone, Debug)]
pub struct Data {
    pub c: Vec<f64>,
    pub m: usize,
    pub rows: Vec<usize>,
    pub cols: Vec<usize>,
    pub vals: Vec<f64>,
    pub b: Vec<f64>,
    pub l: Vec<f64>,
    pub u: Vec<f64>,
    pub p: Vec<bool>,
}

impl Data {
    pub fn nx(&self) -> usize {
        self.c.len()
    }

    pub fn mat(&self) -> CooMat<f64> {
        CooMat::new((self.m, self.nx()), self.rows.clone(), self.cols.clone(), self.vals.clone())
    }

    pub fn milp(&self) -> ProblemMilp {
        ProblemMilp::new(self.c.clone(), self.mat(), self.b.clone(), self.l.clone(), self.u.clone(), self.p.clone(), None)
    }

    pub fn lp(&self) -> ProblemLp {
        ProblemLp::new(self.c.clone(), self.mat(), self.b.clone(), self.l.clone(), self.u.clone(), None)
    }

    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
}

fn coef(rng: &mut Rng, real: bool) -> f64 {
    let x = match rng.below(16) {
        0 => 1.,
        1 => -1.,
        2 => 0.,
        3 => -0.,
        4 => *rng.pick(&[1e7, -1e7, 123456.789, 99999999.99, -1e8]),
        5 => {
            // close to a value that is written in another way
            let t = *rng.pick(&[1., -1., 1., -1., 10., 0.5, 1e8, -1e8, 1e3]);
            let e = match rng.below(3) {
                0 => f64::EPSILON,
                _ => 10f64.powf(rng.uniform(-15., -2.)),
            };
            t * (1. + if rng.chance(0.5) { e } else { -e })
        }
        6 if !real => *rng.pick(&[1e-12, 1e15, -1e-9, 1e-100, 1e100, 5e-324, 1e300, 1e-5]),
        7..=9 => rng.dyadic(6),
        10 => rng.uniform(-1., 1.) * 10f64.powi(rng.range(if real { -2 } else { -8 }, if real { 4 } else { 12 }) as i32),
        _ => rng.uniform(-10., 10.),
    };
    if real && x.abs() < 1e-3 {
        if x == 0. {
            x
        } else {
            x.signum() * 0.5
        }
    } else {
        x
    }
}

pub fn gen_data(rng: &mut Rng, real: bool, wide: bool) -> Data {
    let n = if wide { rng.us(11, 150) } else { rng.us(if real { 1 } else { 0 }, 8) };
    let m = if wide { rng.us(11, 150) } else { rng.below(7) };
    let dens = *rng.pick(&[0.1, 0.4, 0.8]);
    let mut t: Vec<(usize, usize, f64)> = Vec::new();
    for i in 0..m {
        if rng.chance(0.15) {
            continue; // empty row
        }
        for j in 0..n {
            if rng.chance(if wide { 3. / n as f64 } else { dens }) {
                let v = coef(rng, real);
                if rng.chance(0.2) {
                    // duplicates that add up
                    let w = coef(rng, real);
                    t.push((i, j, v - w));
                    t.push((i, j, w));
                } else if rng.chance(0.1) {
                    // duplicates that cancel
                    t.push((i, j, v));
                    t.push((i, j, -v));
                } else {
                    t.push((i, j, v));
                }
            }
        }
    }
    if rng.chance(0.6) {
        rng.shuffle(&mut t);
    }
    let zero_obj = rng.chance(0.1);
    let c: Vec<f64> = (0..n).map(|_| if zero_obj || rng.chance(0.2) { 0. } else { coef(rng, real) }).collect();
    let b: Vec<f64> = (0..m).map(|_| coef(rng, real)).collect();
    let mut l = Vec::new();
    let mut u = Vec::new();
    for _ in 0..n {
        let (a, z) = match rng.below(9) {
            0 => (-1e8, 1e8),
            1 => (0., 1e8),
            2 => (-1e8, 0.),
            3 => {
                let v = coef(rng, real);
                (v, v)
            }
            4 if !real => (f64::NEG_INFINITY, f64::INFINITY),
            5 => (0., 1.),
            6 => {
                let v = coef(rng, real).abs();
                (-1e8, -v)
            }
            _ => {
                let (v, w) = (coef(rng, real), coef(rng, real));
                (v.min(w), v.max(w))
            }
        };
        l.push(a);
        u.push(z);
    }
    let pi = *rng.pick(&[0., 0.3, 1.]);
    let p: Vec<bool> = (0..n).map(|_| rng.chance(pi)).collect();
    Data { c, m, rows: t.iter().map(|x| x.0).collect(), cols: t.iter().map(|x| x.1).collect(), vals: t.iter().map(|x| x.2).collect(), b, l, u, p }
}

/// Difference of the file from the problem.
pub fn differs(f: &LpFile, d: &Data, mps: bool, rel: f64) -> Option<String> {
    let n = d.nx();
    let near = |a: f64, b: f64, mag: f64| a == b || (a - b).abs() <= rel * b.abs() + 1e-14 * mag;
    let col = |s: &str| -> Option<usize> { s.strip_prefix("x_").and_then(|k| k.parse::<usize>().ok()).filter(|k| *k < n && s == format!("x_{}", k)) };
    for s in f.names.iter() {
        if col(s).is_none() {
            return Some(format!("unknown variable {}", s));
        }
    }
    if f.maximize {
        return Some("it is a maximization".to_string());
    }
    if f.obj_const != 0. {
        return Some(format!("objective has a constant {:?}", f.obj_const));
    }
    for j in 0..n {
        let v = f.obj.get(&format!("x_{}", j)).cloned().unwrap_or(0.);
        if !near(v, d.c[j], 0.) {
            return Some(format!("objective coefficient of x_{} is {:?}, not {:?}", j, v, d.c[j]));
        }
    }
    let mut want: Vec<BTreeMap<usize, (f64, f64)>> = vec![BTreeMap::new(); d.m];
    for k in 0..d.rows.len() {
        let e = want[d.rows[k]].entry(d.cols[k]).or_insert((0., 0.));
        e.0 += d.vals[k];
        e.1 += d.vals[k].abs();
    }
    if f.rows.len() != d.m {
        return Some(format!("{} rows instead of {}", f.rows.len(), d.m));
    }
    let mut named: HashMap<&str, &LpRow> = HashMap::new();
    for r in f.rows.iter() {
        named.insert(&r.name, r);
    }
    for i in 0..d.m {
        let r = match named.get(&format!("c_{}", i)[..]) {
            Some(r) => *r,
            None => return Some(format!("no row c_{}", i)),
        };
        if r.sense != '=' {
            return Some(format!("row c_{} is not an equation", i));
        }
        if !near(r.rhs, d.b[i], 0.) {
            return Some(format!("right-hand side of c_{} is {:?}, not {:?}", i, r.rhs, d.b[i]));
        }
        let mut js: Vec<usize> = want[i].keys().cloned().chain(r.coef.keys().map(|k| col(k).unwrap())).collect();
        js.sort();
        js.dedup();
        for j in js {
            let v = r.coef.get(&format!("x_{}", j)).cloned().unwrap_or(0.);
            let w = want[i].get(&j).cloned().unwrap_or((0., 0.));
            if !near(v, w.0, w.1) {
                return Some(format!("coefficient of x_{} in c_{} is {:?}, not {:?}", j, i, v, w.0));
            }
        }
    }
    for j in 0..n {
        let name = format!("x_{}", j);
        if mps && !f.names.contains(&name) {
            continue; // clp does not export empty columns
        }
        let int = f.ints.contains(&name);
        // clp exports fixed columns without integrality
        if int != d.p[j] && !(mps && !int && f.lo.contains_key(&name) && f.lo.get(&name) == f.up.get(&name)) {
            return Some(format!("{} is integer: {}", name, int));
        }
        let lo = f.lo.get(&name).cloned().unwrap_or(0.);
        let up = f.up.get(&name).cloned().unwrap_or(f64::INFINITY);
        // clp exports limits that are closer than 1e-8 to each other, or to the
        // limits of a binary variable, as equal
        let near_limit = |a: f64, b: f64| near(a, b, if mps { 1e6 } else { 0. });
        if !near_limit(lo, d.l[j]) || !near_limit(up, d.u[j]) {
            return Some(format!("limits of {} are {:?} and {:?}, not {:?} and {:?}", name, lo, up, d.l[j], d.u[j]));
        }
    }
    None
}

pub fn c14(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        let _w = World::new_once(ctx);
        return crate::p_big::lp_file(ctx);
    }
    let w = World::new_once(ctx);
    let use_real = ctx.idx % 41 == 3;
    let wide = ctx.idx % 123 == 3 || ctx.idx % 101 == 50;
    let d = gen_data(&mut ctx.rng, use_real, wide);
    ctx.desc = d.show();
    let name = "written.lp";
    let as_lp = d.p.iter().all(|p| !p) && ctx.rng.chance(0.5);
    // A file that is there already is replaced
    let old = ctx.rng.chance(0.2);
    if old {
        fs::write(name, vec![b'x'; 20000]).unwrap();
    }
    let r = guarded(|| if as_lp { d.lp().as_mut_milp().write_to_lp_file(name) } else { d.milp().write_to_lp_file(name) });
    match r {
        Err(e) => return ctx.fail("write-panic", e),
        Ok(Err(e)) => return ctx.fail("write-failed", format!("writing failed: {}", e)),
        Ok(Ok(())) => (),
    }
    let text = fs::read_to_string(name).unwrap_or_default();
    ctx.count("files_written");
    let f = match read_lp(&text) {
        Ok(f) => f,
        Err(e) => return ctx.fail("not-lp", format!("the file is not in LP format: {}", e)),
    };
    if let Some(e) = differs(&f, &d, false, 5e-10) {
        return ctx.fail("file-differs", e);
    }
    ctx.add("rows_compared", d.m as u64);
    ctx.add("entries_compared", (d.rows.len() + d.nx()) as u64);
    if use_real && d.nx() > 0 {
        read_by_clp(ctx, &w, &d, name);
    }
    if ctx.idx % 7 == 5 {
        unwritable(ctx, &w, &d, as_lp, text.len());
    }
    ctx.max("variables", d.nx() as u64);
    ctx.seen(crate::rng::hash_bytes(text.as_bytes()));
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}

/// A file that cannot be written, or not in full, is not reported as written.
fn unwritable(ctx: &mut Ctx, w: &World, d: &Data, as_lp: bool, len: usize) {
    let write = |name: &str| guarded(|| if as_lp { d.lp().as_mut_milp().write_to_lp_file(name) } else { d.milp().write_to_lp_file(name) });
    if ctx.rng.chance(0.3) {
        // a directory, nothing at all, or a place below a file
        let name = match ctx.rng.below(4) {
            0 => w.data.clone(),
            1 => w.root.join("absent").join("x.lp"),
            2 => w.ctl.join("x.lp"),
            _ => std::path::PathBuf::new(),
        };
        match write(name.to_str().unwrap()) {
            Err(e) => ctx.fail("write-panic", e),
            Ok(Ok(())) => ctx.fail("written-nowhere", format!("a file in a place that cannot be written ({}) is reported as written", name.display())),
            Ok(Err(_)) => ctx.count("impossible_files_refused"),
        }
        return;
    }
    let limit = match ctx.rng.below(5) {
        0 => 0,
        1 => len - 1,
        2 => len - len.min(ctx.rng.us(1, 30)),
        _ => ctx.rng.us(0, len - 1),
    };
    limit_file_size(Some(limit as u64));
    let r = write("limited.lp");
    limit_file_size(None);
    let text = fs::read_to_string("limited.lp").unwrap_or_default();
    match r {
        Err(e) => ctx.fail("write-panic", e),
        Ok(Err(_)) => ctx.count("cut_files_refused"),
        Ok(Ok(())) => {
            let e = match read_lp(&text) {
                Ok(f) => differs(&f, d, false, 5e-10),
                Err(e) => Some(e),
            };
            if let Some(e) = e {
                ctx.fail("cut-file", format!("only {} of {} bytes could be written, the file is reported as written: {}", limit, len, e));
            }
        }
    }
}

fn read_by_clp(ctx: &mut Ctx, _w: &World, d: &Data, name: &str) {
    let clp = real("clp").expect("clp is installed");
    // Without entries clp has nothing to read
    let mut sums: BTreeMap<(usize, usize), f64> = BTreeMap::new();
    for k in 0..d.rows.len() {
        *sums.entry((d.rows[k], d.cols[k])).or_insert(0.) += d.vals[k];
    }
    let used = d.c.iter().any(|c| *c != 0.) && sums.values().any(|v| v.abs() > 1e-6);
    if !used {
        ctx.count("solver_readings_skipped");
        return;
    }
    let _ = fs::remove_file("out.mps");
    let o = Command::new(clp)
        .args([name, "presolve", "off", "outputFormat", "4", "export", "out.mps"])
        .stdin(Stdio::null())
        .output()
        .expect("clp runs");
    let text = match fs::read_to_string("out.mps") {
        Ok(t) => t,
        Err(_) if o.status.code().is_none() => {
            // clp itself crashed
            ctx.count("solver_readings_skipped");
            return;
        }
        Err(_) => {
            return ctx.fail("unread", format!("clp does not read the file: {}", String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.contains("###")).collect::<Vec<_>>().join("; ")));
        }
    };
    let f = match read_mps(&text) {
        Ok(f) => f,
        Err(e) => return ctx.fail("mps", format!("what clp read is strange: {}", e)),
    };
    if let Some(e) = differs(&f, d, true, 5e-10) {
        return ctx.fail("read-differs", format!("as clp reads it: {}", e));
    }
    ctx.count("files_read_by_clp");
}
