//! C15: solution files are read exactly or rejected.

use numopt::problem::base::ProblemSol;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use numopt::solver::base::SolverStatus;
use numopt::solver::cbc_cmd::SolverCbcCmd;
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};

use crate::core::{guarded, Ctx};
use crate::p_lp::{gen_data, Data};
use crate::rng::{hash_bytes, Rng};
use crate::sys::*;

/// What a complete file says.
#[derive(Clone, Debug, Default)]
pub struct Said {
    pub x: Vec<f64>,
    pub rc: Vec<f64>,
    pub dual: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct Lines {
    pub cbc: bool,
    pub header: Vec<String>,
    /// (is a row, index, text)
    pub body: Vec<(bool, usize, String)>,
    pub said: Said,
}

impl Lines {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for h in self.header.iter() {
            s.push_str(h);
            s.push('\n');
        }
        for b in self.body.iter() {
            s.push_str(&b.2);
            s.push('\n');
        }
        s
    }
}

fn number(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => "0".to_string(),
        1 => "-0".to_string(),
        2 => format!("{}", rng.range(-1000, 1000)),
        3 => format!("{:e}", rng.uniform(-1., 1.) * 10f64.powi(rng.range(-300, 300) as i32)),
        4 => format!("{}e+{:02}", rng.range(-9, 9), rng.below(30)),
        5 => format!("{}e-{:02}", rng.range(-9, 9), rng.below(30)),
        6 => "1e+08".to_string(),
        7 => "-1e+08".to_string(),
        8 => format!("{}", f64::from_bits(0x3ff0000000000000 + rng.below(1000) as u64)),
        _ => format!("{:.7}", rng.uniform(-100., 100.)),
    }
}

pub fn solved_lines(rng: &mut Rng, cbc: bool, nx: usize, na: usize) -> Lines {
    let mut l = Lines { cbc, header: Vec::new(), body: Vec::new(), said: Said { x: vec![0.; nx], rc: vec![0.; nx], dual: vec![0.; na] } };
    if cbc || rng.chance(0.7) {
        l.header.push(format!("Optimal{} - objective value {}", if cbc && rng.chance(0.1) { " (within gap tolerance)" } else { "" }, number(rng)));
    } else {
        l.header.push("optimal".to_string());
        l.header.push(format!("Objective value: {}", number(rng)));
    }
    let style = rng.below(3);
    for k in 0..na + nx {
        let row = k < na;
        let i = if row { k } else { k - na };
        let name = format!("{}_{}", if row { 'c' } else { 'x' }, i);
        let (a, b) = (number(rng), number(rng));
        let (va, vb): (f64, f64) = (a.parse().unwrap(), b.parse().unwrap());
        if row {
            l.said.dual[i] = vb;
        } else {
            l.said.x[i] = va;
            l.said.rc[i] = vb;
        }
        let mark = if rng.chance(0.06) { "**" } else { "  " };
        let s = match style {
            0 => format!("{}{:>5} {:<20} {:>15} {:>15}", mark, i, name, a, b),
            1 => format!("{}{:>5} {} {:>22} {:>22}", mark, i, name, a, b),
            _ => format!("{} {} {}\t{}  {}", mark, i, name, a, b),
        };
        l.body.push((row, i, s));
    }
    if rng.chance(0.4) {
        rng.shuffle(&mut l.body);
    }
    l
}

type Got = Result<(SolverStatus, ProblemSol), String>;

fn read(p: &ProblemMilp, f: &Path, cbc: bool) -> Result<Got, String> {
    let r = guarded(|| SolverCbcCmd::read_sol_file(f.to_str().unwrap(), p, cbc)).map(|r| r.map_err(|e| format!("{}", e)))?;
    match &r {
        Ok((s, sol)) => match wrong_sizes(sol, p.nx(), p.na()) {
            Some(e) => Err(format!("status {} with {}", s, e)),
            None => Ok(r),
        },
        _ => Ok(r),
    }
}

/// A result has one entry per variable and row, whatever its status.
pub fn wrong_sizes(s: &ProblemSol, nx: usize, na: usize) -> Option<String> {
    if s.x.len() != nx || s.mu.len() != nx || s.pi.len() != nx || s.lam.len() != na || s.nu.len() != 0 {
        return Some(format!(
            "results of {} values, {} and {} bound multipliers, {} and {} row multipliers for {} variables and {} linear rows",
            s.x.len(), s.mu.len(), s.pi.len(), s.lam.len(), s.nu.len(), nx, na
        ));
    }
    None
}

/// Difference of a solved result from what the file says.
pub fn not_said(sol: &ProblemSol, s: &Said) -> Option<String> {
    let n = s.x.len();
    if sol.x.len() != n || sol.pi.len() != n || sol.mu.len() != n || sol.lam.len() != s.dual.len() {
        return Some("results have wrong lengths".to_string());
    }
    for j in 0..n {
        if sol.x[j] != s.x[j] {
            return Some(format!("x_{} is {:?}, the file says {:?}", j, sol.x[j], s.x[j]));
        }
        let (mu, pi) = if s.rc[j] > 0. { (0., s.rc[j]) } else { (-s.rc[j], 0.) };
        if sol.mu[j] != mu || sol.pi[j] != pi {
            return Some(format!("duals of x_{} are mu {:?}, pi {:?}, the file says {:?}", j, sol.mu[j], sol.pi[j], s.rc[j]));
        }
    }
    for i in 0..s.dual.len() {
        if sol.lam[i] != s.dual[i] {
            return Some(format!("dual of c_{} is {:?}, the file says {:?}", i, sol.lam[i], s.dual[i]));
        }
    }
    None
}

fn problem(nx: usize, na: usize) -> ProblemMilp {
    Data { c: vec![1.; nx], m: na, rows: vec![], cols: vec![], vals: vec![], b: vec![0.; na], l: vec![0.; nx], u: vec![1.; nx], p: vec![false; nx] }.milp()
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

pub fn c15(ctx: &mut Ctx) {
    if crate::p_big::large(ctx, 0) {
        let _w = World::new_once(ctx);
        return crate::p_big::solution(ctx);
    }
    let dir = ctx.scratch.clone();
    let file = dir.join("c15.sol");
    if file.is_dir() {
        fs::remove_dir(&file).unwrap();
    }
    if ctx.idx % 53 == 7 {
        return genuine(ctx);
    }
    let wide = ctx.idx % 59 == 0;
    let nx = if wide { ctx.rng.us(11, 120) } else { ctx.rng.us(1, 6) };
    let na = if wide { ctx.rng.us(0, 120) } else { ctx.rng.below(6) };
    let cbc = ctx.rng.chance(0.5);
    let p = problem(nx, na);
    let lines = solved_lines(&mut ctx.rng, cbc, nx, na);
    let text = lines.text().into_bytes();
    ctx.desc = format!("{} variables, {} rows, {} file {}", nx, na, if cbc { "cbc" } else { "clp" }, show(&text));
    ctx.seen(hash_bytes(&text));
    let d = ctx.desc.clone();
    ctx.sample(d);

    // Complete
    fs::write(&file, &text).unwrap();
    match read(&p, &file, cbc) {
        Err(e) => ctx.fail("panic", e),
        Ok(Err(e)) => ctx.fail("complete-rejected", format!("complete file gives error {}", e)),
        Ok(Ok((SolverStatus::Solved, s))) => {
            ctx.count("complete_files");
            ctx.add("values_compared", (3 * nx + na) as u64);
            if let Some(e) = not_said(&s, &lines.said) {
                ctx.fail("misread", e);
            }
        }
        Ok(Ok((s, _))) => ctx.fail("complete-rejected", format!("complete file gives status {}", s)),
    }

    // Cut at every byte
    let cuts: Vec<usize> = if wide {
        let mut v: Vec<usize> = (0..60).map(|_| ctx.rng.below(text.len())).collect();
        v.push(text.len() - 1);
        v
    } else if ctx.idx % 13 == 1 {
        (0..text.len()).collect()
    } else {
        Vec::new()
    };
    let mut cuts = cuts;
    cuts.sort();
    let cut = fs::OpenOptions::new().write(true).open(&file).unwrap();
    for k in cuts.into_iter().rev() {
        cut.set_len(k as u64).unwrap();
        ctx.count("cut_files");
        match read(&p, &file, cbc) {
            Err(e) => ctx.fail("panic", format!("{} for the first {} bytes", e, k)),
            Ok(Ok((SolverStatus::Solved, s))) => {
                if k + 1 < text.len() || not_said(&s, &lines.said).is_some() {
                    ctx.fail("cut-solved", format!("solved although only the first {} of {} bytes are there", k, text.len()));
                }
            }
            _ => (),
        }
    }

    // Definitely wrong
    for _ in 0..3 {
        broken(ctx, &p, &lines, &file);
    }
    // Another status
    status(ctx, &p, &lines, &file);
    // Anything
    for _ in 0..3 {
        arbitrary(ctx, &p, &lines, &file);
    }
}

fn must_reject(ctx: &mut Ctx, p: &ProblemMilp, file: &Path, cbc: bool, what: &str, bytes: &[u8]) {
    ctx.count(&format!("rejected_{}", what.replace(' ', "_")));
    match read(p, file, cbc) {
        Err(e) => ctx.fail("panic", format!("{} for {}: {}", e, what, show(bytes))),
        Ok(Ok((SolverStatus::Solved, _))) => ctx.fail("accepted", format!("solved although {}: {}", what, show(bytes))),
        _ => (),
    }
}

fn broken(ctx: &mut Ctx, p: &ProblemMilp, l: &Lines, file: &Path) {
    let mut l = l.clone();
    let (nx, na) = (p.nx(), p.na());
    let nb = l.body.len();
    let k = ctx.rng.below(nb);
    let cbc = l.cbc;
    let token = |l: &Lines, k: usize| -> (Vec<String>, usize) {
        let t: Vec<String> = l.body[k].2.split_ascii_whitespace().map(|s| s.to_string()).collect();
        let i = if t[0] == "**" { 2 } else { 1 };
        (t, i)
    };
    let what;
    match ctx.rng.below(11) {
        0 => {
            l.body.remove(k);
            what = "a line is missing";
        }
        1 => {
            let (mut t, i) = token(&l, k);
            let far = *ctx.rng.pick(&[nx.max(na), nx.max(na) + 1, 1000000, usize::MAX, u32::MAX as usize]);
            t[i] = format!("{}_{}", if l.body[k].0 { 'c' } else { 'x' }, far);
            l.body[k].2 = t.join(" ");
            what = "an index is out of range";
        }
        2 => {
            let (mut t, i) = token(&l, k);
            let neg = *ctx.rng.pick(&["-1", "-0x1", "", "99999999999999999999999", "1.5", "1e0", "one", "0x0", "_0", "\u{e9}"]);
            t[i] = format!("{}_{}", if l.body[k].0 { 'c' } else { 'x' }, neg);
            l.body[k].2 = t.join(" ");
            what = "an index is no index";
        }
        3 => {
            let (mut t, i) = token(&l, k);
            let at = if ctx.rng.chance(0.5) || l.body[k].0 { 2 } else { 1 };
            let bad = *ctx.rng.pick(&["abc", "1,5", "--1", "1e", "0x10", "1.2.3", "1e5e5", "\u{e9}", "1_0", "-", "1d5"]);
            t[i + at] = bad.to_string();
            l.body[k].2 = t.join(" ");
            what = "a value is no number";
        }
        4 => {
            let (mut t, _) = token(&l, k);
            t.pop();
            l.body[k].2 = t.join(" ");
            what = "a dual is missing";
        }
        5 => {
            let (mut t, i) = token(&l, k);
            t.truncate(i + 1);
            l.body[k].2 = t.join(" ");
            what = "the numbers are missing";
        }
        6 => {
            let (mut t, i) = token(&l, k);
            let idx = l.body[k].1;
            let pre = *ctx.rng.pick(&["y", "X", "C", "xx", "", "row", "z_x"]);
            t[i] = format!("{}_{}", pre, idx);
            l.body[k].2 = t.join(" ");
            what = "a name is unknown";
        }
        7 => {
            // values of a line under the name of another one of the same kind
            let same: Vec<usize> = (0..nb).filter(|j| *j != k && l.body[*j].0 == l.body[k].0).collect();
            if same.is_empty() {
                return;
            }
            let j = *ctx.rng.pick(&same);
            let (mut t, i) = token(&l, k);
            let (t2, i2) = token(&l, j);
            t[i] = t2[i2].clone();
            l.body[k].2 = t.join(" ");
            what = "a line is replaced by a second one of another name";
        }
        8 => {
            let (mut t, i) = token(&l, k);
            t[i] = t[i].replace('_', *ctx.rng.pick(&["", "-", "."]));
            l.body[k].2 = t.join(" ");
            what = "a name has no separator";
        }
        9 => {
            l.body.truncate(k);
            what = "lines are missing";
        }
        _ => {
            l.header.remove(0);
            if l.header.is_empty() {
                what = "the status is missing";
            } else {
                return;
            }
        }
    }
    let t = l.text().into_bytes();
    fs::write(file, &t).unwrap();
    must_reject(ctx, p, file, cbc, what, &t);
}

fn status(ctx: &mut Ctx, p: &ProblemMilp, l: &Lines, file: &Path) {
    let cbc = l.cbc;
    let infeasible: Vec<&str> = if cbc {
        vec!["Infeasible - objective value 12.5", "Integer infeasible - objective value 0.00000000", "Infeasible"]
    } else {
        vec!["Infeasible - objective value 7", "infeasible\nObjective value:    0", "infeasible"]
    };
    let mut other: Vec<&str> = vec![
        "Unbounded - objective value 0.00000000",
        "Stopped on time - objective value 5.00000000",
        "Stopped on iterations - objective value 5.00000000",
        "Stopped on difficulties - objective value 5.00000000",
        "Stopped on ctrl-c - objective value 5.00000000",
        "Stopped on nodes - objective value 1",
        "Stopped on solutions - objective value 1",
        "Stopped on gap - objective value 1",
        "Optimality unknown - objective value 1",
        "Optimal-ish - objective value 1",
        "OPTIMAL - objective value 1",
        "Infeasibility unknown",
        "Status unknown - objective value 5.00000000",
        "No feasible solution - objective value 1e+50",
        "unbounded\nObjective value: 1",
        "dual infeasible\nObjective value: 1",
        "Not Optimal - objective value 1",
        "NotOptimal - objective value 1",
        "Suboptimal - objective value 1",
        "Unknown",
        "primal infeasible",
        "0",
        "",
        " ",
    ];
    if cbc {
        other.push("Integer optimal - objective value 2");
        other.push("optimal - objective value 2");
    }
    let inf = ctx.rng.chance(0.4);
    let h = if inf { *ctx.rng.pick(&infeasible) } else { *ctx.rng.pick(&other) };
    let mut m = l.clone();
    m.header = vec![h.to_string()];
    if ctx.rng.chance(0.3) {
        m.body.clear();
    }
    let t = m.text().into_bytes();
    fs::write(file, &t).unwrap();
    match read(p, file, cbc) {
        Err(e) => ctx.fail("panic", format!("{} for {}", e, show(&t))),
        Ok(Err(e)) if inf => ctx.fail("infeasible-unread", format!("error {} for {}", e, show(&t))),
        Ok(Ok((s, _))) if inf && s != SolverStatus::Infeasible => ctx.fail("infeasible-unread", format!("status {} for {}", s, show(&t))),
        Ok(Ok((s, _))) if !inf && (s == SolverStatus::Solved || s == SolverStatus::Infeasible) => {
            ctx.fail("status-misread", format!("status {} for {}", s, show(&t)));
        }
        _ => ctx.count("other_statuses"),
    }
}

fn arbitrary(ctx: &mut Ctx, p: &ProblemMilp, l: &Lines, file: &Path) {
    let cbc = l.cbc;
    let mut t = l.text().into_bytes();
    let _ = fs::remove_file(file);
    match ctx.rng.below(12) {
        0 => {
            // nothing there, or not a file
            let dir = ctx.rng.chance(0.5);
            if dir {
                fs::create_dir(file).unwrap();
            }
            must_reject(ctx, p, file, cbc, "there is no file", b"");
            if dir {
                fs::remove_dir(file).unwrap();
            }
            return;
        }
        1 => t.clear(),
        2 => {
            let n = ctx.rng.below(200);
            t = (0..n).map(|_| ctx.rng.below(256) as u8).collect();
        }
        3 => {
            t = b"Optimal - objective value 1\n".to_vec();
            let n = ctx.rng.below(200);
            t.extend((0..n).map(|_| ctx.rng.below(256) as u8));
        }
        4..=8 => {
            for _ in 0..ctx.rng.us(1, 4) {
                if t.is_empty() {
                    break;
                }
                let k = ctx.rng.below(t.len());
                match ctx.rng.below(6) {
                    0 => t[k] = ctx.rng.below(256) as u8,
                    1 => {
                        t.remove(k);
                    }
                    2 => t.insert(k, *ctx.rng.pick(b" \n\t\r_-0.ex*c9\0")),
                    3 => {
                        let z = (k + ctx.rng.below(30)).min(t.len());
                        t.drain(k..z);
                    }
                    4 => {
                        let z = (k + ctx.rng.below(60)).min(t.len());
                        let part = t[k..z].to_vec();
                        let at = ctx.rng.below(t.len());
                        for (i, c) in part.into_iter().enumerate() {
                            t.insert(at + i, c);
                        }
                    }
                    _ => t[k] ^= 1 << ctx.rng.below(8),
                }
            }
        }
        9 => {
            let s = String::from_utf8(t).unwrap().replace('\n', "\r\n");
            t = s.into_bytes();
        }
        10 => {
            // lines twice
            let mut m = l.clone();
            let k = ctx.rng.below(m.body.len());
            let b = m.body[k].clone();
            m.body.push(b);
            t = m.text().into_bytes();
        }
        _ => {
            let s = String::from_utf8(t).unwrap();
            t = s.replacen(' ', *ctx.rng.pick(&["\u{2003}", "\u{a0}", "\u{0b}", "  nan ", " inf "]), ctx.rng.us(1, 9)).into_bytes();
        }
    }
    fs::write(file, &t).unwrap();
    ctx.count("arbitrary_files");
    match read(p, file, cbc) {
        Err(e) => ctx.fail("panic", format!("{} for {}", e, show(&t))),
        Ok(Ok((SolverStatus::Solved, s))) => {
            ctx.count("arbitrary_files_solved");
            if let Some(e) = not_given(&t, &s) {
                ctx.fail("invented", format!("{}: {}", e, show(&t)));
            }
        }
        _ => (),
    }
}

/// A value of a solved result that the file does not give.
pub fn not_given(t: &[u8], s: &ProblemSol) -> Option<String> {
    let t = String::from_utf8_lossy(t);
    let toks: Vec<&str> = t.split_whitespace().collect();
    for (j, x) in s.x.iter().enumerate() {
        let ok = (0..toks.len()).any(|k| {
            toks[k].strip_prefix("x_").and_then(|r| r.parse::<usize>().ok()) == Some(j)
                && toks.get(k + 1).and_then(|v| v.parse::<f64>().ok()).map(|v| v == *x || (v.is_nan() && x.is_nan())) == Some(true)
        });
        if !ok {
            return Some(format!("solved with x_{} = {:?}, which the file does not say", j, x));
        }
    }
    if !t.trim_start().to_ascii_lowercase().starts_with("optimal") {
        return Some("solved although the file does not say so".to_string());
    }
    None
}

/// Files written by the real solvers.
fn genuine(ctx: &mut Ctx) {
    let w = World::new_once(ctx);
    let _ = &w;
    let mut d = gen_data(&mut ctx.rng, true, false);
    for j in 0..d.nx() {
        // integers within limits
        if d.l[j].abs() > 50. || d.u[j].abs() > 50. {
            d.p[j] = false;
        }
    }
    let (cbc, k) = (ctx.rng.chance(0.5), ctx.rng.next());
    if !cbc {
        d.p = vec![false; d.nx()];
    }
    let _ = k;
    if ctx.rng.chance(0.75) {
        // a point within the limits satisfies the rows
        let x: Vec<f64> = (0..d.nx())
            .map(|j| {
                let v = ctx.rng.uniform(d.l[j].max(-9.), d.u[j].min(9.)).max(d.l[j]).min(d.u[j]);
                if d.p[j] { v.ceil().min(d.u[j].floor()) } else { v }
            })
            .collect();
        d.b = vec![0.; d.m];
        for k in 0..d.rows.len() {
            d.b[d.rows[k]] += d.vals[k] * x[d.cols[k]];
        }
    }
    ctx.desc = d.show();
    let p = d.milp();
    let lp = "genuine.lp";
    let sol = "genuine.sol";
    let _ = fs::remove_file(sol);
    if let Ok(Err(_)) | Err(_) = guarded(|| p.write_to_lp_file(lp)) {
        return; // C14
    }
    let o = Command::new(real(if cbc { "cbc" } else { "clp" }).expect("solver"))
        .args([lp, "logLevel", "0", "printingOptions", "all", "solve", "solution", sol])
        .stdin(Stdio::null())
        .output()
        .expect("solver runs");
    if o.status.code() != Some(0) {
        ctx.count("solver_crashes");
        return;
    }
    let t = fs::read(sol).unwrap_or_default();
    let text = String::from_utf8_lossy(&t).to_string();
    let head = text.lines().next().unwrap_or("").to_string();
    let got = match read(&p, Path::new(sol), cbc) {
        Err(e) => return ctx.fail("panic", format!("{} for {}", e, show(&t))),
        Ok(g) => g,
    };
    let status = match &got {
        Ok((s, _)) => format!("{}", s),
        Err(e) => format!("error {}", e),
    };
    if head.starts_with("Optimal") {
        ctx.count("genuine_optimal_files");
        let mut said = Said { x: vec![f64::NAN; d.nx()], rc: vec![0.; d.nx()], dual: vec![f64::NAN; d.m] };
        for l in text.lines().skip(1) {
            let t: Vec<&str> = l.split_whitespace().filter(|s| *s != "**").collect();
            if t.len() != 4 {
                return ctx.count("genuine_files_of_unknown_form");
            }
            let (v, m): (f64, f64) = (t[2].parse().unwrap_or(f64::NAN), t[3].parse().unwrap_or(f64::NAN));
            let i: usize = t[1][2..].parse().unwrap_or(usize::MAX);
            if t[1].starts_with("x_") && i < d.nx() {
                said.x[i] = v;
                said.rc[i] = m;
            } else if t[1].starts_with("c_") && i < d.m {
                said.dual[i] = m;
            }
        }
        if said.x.iter().chain(said.dual.iter()).any(|v| v.is_nan()) {
            // empty columns or rows that the solver does not report
            return ctx.count("genuine_files_not_complete");
        }
        match got {
            Ok((SolverStatus::Solved, s)) => {
                if let Some(e) = not_said(&s, &said) {
                    ctx.fail("misread", format!("{}: {}", e, show(&t)));
                }
            }
            _ => ctx.fail("complete-rejected", format!("{}: {}", status, show(&t))),
        }
    } else if head.starts_with("Infeasible") || head.starts_with("Integer infeasible") {
        ctx.count("genuine_infeasible_files");
        if status != "infeasible" {
            ctx.fail("infeasible-unread", format!("{}: {}", status, show(&t)));
        }
    } else {
        ctx.count("genuine_other_files");
        if status == "solved" || status == "infeasible" {
            ctx.fail("status-misread", format!("{}: {}", status, show(&t)));
        }
    }
    ctx.seen(hash_bytes(&t));
}
