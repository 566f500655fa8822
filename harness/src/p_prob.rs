//! C12 and C13: problems and matrices.

use numopt::matrix::coo::CooMat;
use numopt::matrix::csr::CsrMat;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use std::fmt::Debug;

use crate::core::{guarded, refuses, Ctx};
use crate::p_big::large;
use crate::rng::Rng;

fn vecs(rng: &mut Rng, n: usize) -> Vec<f64> {
    (0..n).map(|_| rng.constant()).collect()
}

/// Random pattern with duplicates.
pub fn gen_triplets(rng: &mut Rng, m: usize, n: usize, lower: bool) -> (Vec<usize>, Vec<usize>) {
    let nnz = if m == 0 || n == 0 {
        0
    } else {
        match rng.below(4) {
            0 => 0,
            1 => rng.us(0, 3),
            _ => rng.us(0, 2 * (m + n)),
        }
    };
    let mut r = Vec::new();
    let mut c = Vec::new();
    for _ in 0..nnz {
        let i = rng.below(m);
        let j = rng.below(n);
        if lower && j > i {
            r.push(j);
            c.push(i);
        } else {
            r.push(i);
            c.push(j);
        }
        if rng.chance(0.2) {
            let k = rng.below(r.len());
            let (a, b) = (r[k], c[k]);
            r.push(a);
            c.push(b);
        }
    }
    (r, c)
}

fn gen_coo(rng: &mut Rng, m: usize, n: usize, lower: bool) -> CooMat<f64> {
    let (r, c) = gen_triplets(rng, m, n, lower);
    let d = vecs(rng, r.len());
    CooMat::new((m, n), r, c, d)
}

fn coo_same(a: &CooMat<f64>, b: &CooMat<f64>) -> bool {
    a.rows() == b.rows() && a.cols() == b.cols() && a.row_inds() == b.row_inds() && a.col_inds() == b.col_inds() && a.data() == b.data()
}

type Eval = Box<dyn Fn(&mut f64, &mut Vec<f64>, &mut CooMat<f64>, &mut Vec<f64>, &mut CooMat<f64>, &mut Vec<CooMat<f64>>, &[f64])>;

/// Entry k of constraint Hessian r at x.
fn h_entry(r: usize, k: usize, x: &[f64]) -> f64 {
    let s: f64 = x.iter().enumerate().map(|(i, v)| v * ((i + r + 1) as f64)).sum();
    s * ((k + 1) as f64) + (r as f64) * 0.5 - (k as f64) * 0.25
}

fn h_eval() -> Eval {
    Box::new(|phi, gphi, _hphi, f, _j, h, x| {
        *phi = x.iter().sum();
        for (g, v) in gphi.iter_mut().zip(x.iter()) {
            *g = *v;
        }
        for (i, v) in f.iter_mut().enumerate() {
            *v = i as f64;
        }
        for (r, hh) in h.iter_mut().enumerate() {
            for (k, v) in hh.data_mut().iter_mut().enumerate() {
                *v = h_entry(r, k, x);
            }
        }
    })
}

fn nothing() -> Eval {
    Box::new(|_, _, _, _, _, _, _| ())
}

pub fn c12(ctx: &mut Ctx) {
    if large(ctx, 0) {
        return crate::p_big::views(ctx);
    }
    match ctx.idx % 3 {
        0 => c12_views(ctx),
        1 => c12_shapes(ctx),
        _ => c12_hcomb(ctx),
    }
}

fn c12_views(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let nx = if rng.chance(0.05) { rng.us(20, 200) } else { rng.below(7) };
    let na = rng.below(5);
    let a = gen_coo(rng, na, nx, false);
    let (b, c, l, u) = (vecs(rng, na), vecs(rng, nx), vecs(rng, nx), vecs(rng, nx));
    let p: Vec<bool> = (0..nx).map(|_| rng.chance(0.5)).collect();
    let x0 = if rng.chance(0.6) { Some(vecs(rng, nx)) } else { None };
    ctx.desc = format!("nx {} na {} c {:?} a {:?} b {:?} l {:?} u {:?} p {:?} x0 {:?}", nx, na, c, a, b, l, u, p, x0);
    let pts: Vec<Vec<f64>> = (0..3).map(|_| vecs(&mut ctx.rng, nx)).collect();
    macro_rules! same_data {
        ($q:expr, $what:expr) => {{
            let q = &$q;
            if !(coo_same(q.a(), &a) && q.b() == &b[..] && q.l() == &l[..] && q.u() == &u[..] && q.x0().map(|x| x.to_vec()) == x0) {
                return ctx.fail("view", format!("the data of the {} view differ", $what));
            }
            if q.nx() != nx || q.na() != na {
                return ctx.fail("view", format!("the {} view has {} columns and {} rows", $what, q.nx(), q.na()));
            }
            ctx.count("views_compared");
        }};
    }
    let dot = |x: &[f64]| -> (f64, f64) {
        let v: f64 = c.iter().zip(x.iter()).map(|(a, b)| a * b).sum();
        let t: f64 = c.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum();
        (v, 1e-13 * t)
    };
    macro_rules! same_eval {
        ($q:expr, $what:expr, $x:expr) => {{
            $q.evaluate($x);
            let (v, t) = dot($x);
            ctx.count("view_evaluations");
            if !(($q.phi() - v).abs() <= t) {
                return ctx.fail("view-objective", format!("the {} view has objective {:?} at {:?}, expected {:?}", $what, $q.phi(), $x, v));
            }
            if $q.gphi() != &c[..] {
                return ctx.fail("view-gradient", format!("the {} view has gradient {:?}", $what, $q.gphi()));
            }
            if $q.hphi().nnz() != 0 && $q.hphi().data().iter().any(|v| *v != 0.) {
                return ctx.fail("view-hessian", format!("the {} view has an objective Hessian", $what));
            }
            if $q.nf() != 0 || $q.f().len() != 0 || $q.j().rows() != 0 || $q.h().len() != 0 {
                return ctx.fail("view-rows", format!("the {} view has nonlinear rows", $what));
            }
            if $q.hphi().rows() != nx || $q.hphi().cols() != nx || $q.j().cols() != nx || $q.hcomb().rows() != nx || $q.hcomb().nnz() != 0 {
                return ctx.fail("view-shapes", format!("the {} view has matrices of other shapes", $what));
            }
            if $q.j().nnz() != 0 || $q.j().row_inds().len() != 0 || $q.j().col_inds().len() != 0 {
                return ctx.fail("view-shapes", format!("the {} view has {} Jacobian entries and no nonlinear rows", $what, $q.j().nnz()));
            }
            if $q.hphi().row_inds().iter().any(|i| *i >= nx) || $q.hphi().col_inds().iter().any(|i| *i >= nx) {
                return ctx.fail("view-shapes", format!("the {} view has entries of the objective Hessian outside its shape", $what));
            }
        }};
    }
    let r = guarded(|| {
        (
            ProblemLp::new(c.clone(), a.clone(), b.clone(), l.clone(), u.clone(), x0.clone()),
            ProblemMilp::new(c.clone(), a.clone(), b.clone(), l.clone(), u.clone(), p.clone(), x0.clone()),
        )
    });
    let (mut lp, mut mi) = match r {
        Ok(x) => x,
        Err(e) => return ctx.fail("refused", format!("a consistent problem is refused: {}", e)),
    };
    same_data!(lp, "lp");
    if lp.c() != &c[..] {
        return ctx.fail("view", "the cost vector of the lp view differs".to_string());
    }
    {
        let q = lp.as_mut_milp();
        same_data!(q, "lp as milp");
        if q.c() != &c[..] || q.p().iter().any(|p| *p) || q.p().len() != nx {
            return ctx.fail("view", "cost vector or integrality of the milp view of an lp differ".to_string());
        }
    }
    {
        let q = lp.as_mut_minlp();
        same_data!(q, "lp as minlp");
        if q.p().iter().any(|p| *p) {
            return ctx.fail("view", "the minlp view of an lp has integer variables".to_string());
        }
        for x in pts.iter() {
            same_eval!(q, "lp as minlp", x);
        }
    }
    {
        let q = lp.as_mut_nlp();
        same_data!(q, "lp as nlp");
        for x in pts.iter() {
            same_eval!(q, "lp as nlp", x);
        }
        let q = q.as_mut_minlp();
        same_data!(q, "lp as nlp as minlp");
        for x in pts.iter() {
            same_eval!(q, "lp as nlp as minlp", x);
        }
        if q.p().iter().any(|p| *p) {
            return ctx.fail("view", "the nlp view of an lp has integer variables".to_string());
        }
    }
    same_data!(mi, "milp");
    if mi.c() != &c[..] || mi.p() != &p[..] {
        return ctx.fail("view", "cost vector or integrality of the milp differ".to_string());
    }
    {
        let q = mi.as_mut_minlp();
        same_data!(q, "milp as minlp");
        if q.p() != &p[..] {
            return ctx.fail("view", "integrality of the minlp view of a milp differs".to_string());
        }
        for x in pts.iter() {
            same_eval!(q, "milp as minlp", x);
        }
    }
    ctx.seen(crate::rng::hash_str(&format!("v{} {} {:?} {:?}", nx, na, a.row_inds(), a.col_inds())));
    let d = ctx.desc.clone();
    ctx.sample(d);
}

/// Dimensions of everything a problem is built from.
#[derive(Clone, Debug)]
struct Dims {
    c: usize,
    hr: usize,
    hc: usize,
    ar: usize,
    ac: usize,
    b: usize,
    jr: usize,
    jc: usize,
    h: Vec<(usize, usize)>,
    l: usize,
    u: usize,
    p: usize,
    x0: Option<usize>,
}

fn c12_shapes(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let nx = rng.below(6);
    let na = rng.below(4);
    let nf = rng.below(4);
    let kind = rng.below(6);
    let good = Dims {
        c: nx,
        hr: nx,
        hc: nx,
        ar: na,
        ac: nx,
        b: na,
        jr: nf,
        jc: nx,
        h: vec![(nx, nx); nf],
        l: nx,
        u: nx,
        p: nx,
        x0: if rng.chance(0.7) { Some(nx) } else { None },
    };
    let mut bad = good.clone();
    let other = |rng: &mut Rng, n: usize| -> usize {
        match rng.below(4) {
            0 if n > 0 => n - 1,
            1 if n > 0 => 0,
            2 => n + rng.us(2, 5),
            _ => n + 1,
        }
    };
    // One dimension is wrong
    let which: &str;
    match kind {
        // linear problems
        0 | 1 => {
            let opts = ["c", "ar", "ac", "b", "l", "u", "p", "x0"];
            let w = *rng.pick(&opts);
            which = w;
            match w {
                "c" => bad.c = other(rng, nx),
                "ar" => bad.ar = other(rng, na),
                "ac" => bad.ac = other(rng, nx),
                "b" => bad.b = other(rng, na),
                "l" => bad.l = other(rng, nx),
                "u" => bad.u = other(rng, nx),
                "p" => bad.p = other(rng, nx),
                _ => bad.x0 = Some(other(rng, nx)),
            }
        }
        // nonlinear problems
        2 | 3 => {
            let opts = ["hr", "hc", "ar", "ac", "b", "jr", "jc", "hn", "hh", "hw", "l", "u", "p", "x0"];
            let w = *rng.pick(&opts);
            which = w;
            match w {
                "hr" => bad.hr = other(rng, nx),
                "hc" => bad.hc = other(rng, nx),
                "ar" => bad.ar = other(rng, na),
                "ac" => bad.ac = other(rng, nx),
                "b" => bad.b = other(rng, na),
                "jr" => bad.jr = other(rng, nf),
                "jc" => bad.jc = other(rng, nx),
                "hn" => bad.h = vec![(nx, nx); other(rng, nf)],
                "hh" | "hw" => {
                    if nf == 0 {
                        return;
                    }
                    let k = rng.below(nf);
                    if w == "hh" {
                        bad.h[k].0 = other(rng, nx);
                    } else {
                        bad.h[k].1 = other(rng, nx);
                    }
                }
                "l" => bad.l = other(rng, nx),
                "u" => bad.u = other(rng, nx),
                "p" => bad.p = other(rng, nx),
                _ => bad.x0 = Some(other(rng, nx)),
            }
        }
        _ => {
            return c12_matrix_shapes(ctx);
        }
    }
    let build = |d: &Dims| -> bool {
        let z = |n: usize| vec![0.; n];
        let m = |r: usize, c: usize| CooMat::<f64>::from_nnz((r, c), 0);
        let dd = d.clone();
        match kind {
            0 => refuses(move || {
                ProblemLp::new(z(dd.c), m(dd.ar, dd.ac), z(dd.b), z(dd.l), z(dd.u), dd.x0.map(z));
            }),
            1 => refuses(move || {
                ProblemMilp::new(z(dd.c), m(dd.ar, dd.ac), z(dd.b), z(dd.l), z(dd.u), vec![false; dd.p], dd.x0.map(z));
            }),
            2 => refuses(move || {
                let h = dd.h.iter().map(|(r, c)| m(*r, *c)).collect();
                ProblemNlp::new(m(dd.hr, dd.hc), m(dd.ar, dd.ac), z(dd.b), m(dd.jr, dd.jc), h, z(dd.l), z(dd.u), dd.x0.map(z), nothing());
            }),
            _ => refuses(move || {
                let h = dd.h.iter().map(|(r, c)| m(*r, *c)).collect();
                ProblemMinlp::new(m(dd.hr, dd.hc), m(dd.ar, dd.ac), z(dd.b), m(dd.jr, dd.jc), h, z(dd.l), z(dd.u), vec![true; dd.p], dd.x0.map(z), nothing());
            }),
        }
    };
    let name = ["lp", "milp", "nlp", "minlp"][kind];
    ctx.desc = format!("{} {:?}", name, bad);
    if build(&good) {
        return ctx.fail("refused", format!("a consistent {} is refused: {:?}", name, good));
    }
    ctx.count("consistent_accepted");
    if which == "p" && (kind == 0 || kind == 2) {
        return; // not an argument
    }
    if !build(&bad) {
        return ctx.fail("accepted", format!("a {} with inconsistent dimension {} is accepted: {:?}", name, which, bad));
    }
    ctx.count(&format!("inconsistent_refused_{}_{}", name, which));
    ctx.seen(crate::rng::hash_str(&format!("s{}{:?}", name, bad)));
}

fn c12_matrix_shapes(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let (m, n) = (rng.below(4), rng.below(4));
    let nnz = if m == 0 || n == 0 { 0 } else { rng.below(5) };
    let r: Vec<usize> = (0..nnz).map(|_| rng.below(m.max(1))).collect();
    let c: Vec<usize> = (0..nnz).map(|_| rng.below(n.max(1))).collect();
    let d = vec![1.; nnz];
    let delta = rng.us(1, 2);
    let longer = |v: &Vec<usize>| -> Vec<usize> {
        let mut w = v.clone();
        for _ in 0..delta {
            w.push(0);
        }
        w
    };
    ctx.desc = format!("{} x {} with {} entries", m, n, nnz);
    let mut bad: Vec<(&str, bool)> = Vec::new();
    bad.push(("coo rows", refuses(|| CooMat::new((m, n), longer(&r), c.clone(), d.clone()))));
    bad.push(("coo cols", refuses(|| CooMat::new((m, n), r.clone(), longer(&c), d.clone()))));
    bad.push(("coo data", refuses(|| CooMat::new((m, n), r.clone(), c.clone(), vec![1.; nnz + delta]))));
    bad.push(("coo pattern", refuses(|| CooMat::<f64>::from_pattern((m, n), longer(&r), c.clone()))));
    bad.push(("coo pattern", refuses(|| CooMat::<f64>::from_pattern((m, n), r.clone(), longer(&c)))));
    if nnz > 0 {
        bad.push(("coo rows", refuses(|| CooMat::new((m, n), r[1..].to_vec(), c.clone(), d.clone()))));
        bad.push(("coo data", refuses(|| CooMat::new((m, n), r.clone(), c.clone(), d[1..].to_vec()))));
    }
    let coo = CooMat::new((m, n), r.clone(), c.clone(), d.clone());
    bad.push(("product", refuses(|| &coo * vec![1.; n + delta])));
    if n > 0 {
        bad.push(("product", refuses(|| &coo * vec![1.; n - 1])));
    }
    let csr = coo.to_csr();
    let ip = csr.indptr().to_vec();
    let ix = csr.indices().to_vec();
    let dt = csr.data().to_vec();
    bad.push(("csr pointers", refuses(|| CsrMat::new((m, n), longer(&ip), ix.clone(), dt.clone()))));
    bad.push(("csr rows", refuses(|| CsrMat::new((m + delta, n), ip.clone(), ix.clone(), dt.clone()))));
    bad.push(("csr indices", refuses(|| CsrMat::new((m, n), ip.clone(), longer(&ix), dt.clone()))));
    bad.push(("csr data", refuses(|| CsrMat::new((m, n), ip.clone(), ix.clone(), vec![1.; nnz + delta]))));
    {
        let mut q = ip.clone();
        let k = q.len() - 1;
        q[k] += delta;
        bad.push(("csr last pointer", refuses(|| CsrMat::new((m, n), q, ix.clone(), dt.clone()))));
    }
    if refuses(|| CsrMat::new((m, n), ip.clone(), ix.clone(), dt.clone())) {
        return ctx.fail("refused", "a consistent compressed matrix is refused".to_string());
    }
    for (w, ok) in bad.iter() {
        if !ok {
            return ctx.fail("accepted", format!("inconsistent {} accepted", w));
        }
        ctx.count("inconsistent_matrices_refused");
    }
    // Multipliers of another length
    let nf = ctx.rng.below(4);
    let mut p = ProblemMinlp::new(
        CooMat::from_nnz((2, 2), 0),
        CooMat::from_nnz((0, 2), 0),
        vec![],
        CooMat::from_nnz((nf, 2), 0),
        vec![CooMat::from_nnz((2, 2), 1); nf],
        vec![0.; 2],
        vec![0.; 2],
        vec![false; 2],
        None,
        nothing(),
    );
    if refuses(|| p.combine_h(&vec![1.; nf])) {
        return ctx.fail("refused", format!("{} multipliers for {} constraints are refused", nf, nf));
    }
    if !refuses(|| p.combine_h(&vec![1.; nf + delta])) || (nf > 0 && !refuses(|| p.combine_h(&vec![1.; nf - 1]))) {
        return ctx.fail("accepted", format!("other than {} multipliers are accepted", nf));
    }
    ctx.seen(crate::rng::hash_str(&format!("m{} {} {} {} {}", m, n, nnz, delta, nf)));
}

fn c12_hcomb(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let nx = rng.us(1, 5);
    let nf = rng.below(5);
    let hphi = gen_coo(rng, nx, nx, true);
    let h: Vec<CooMat<f64>> = (0..nf).map(|_| gen_coo(rng, nx, nx, true)).collect();
    let pats: Vec<(Vec<usize>, Vec<usize>)> = h.iter().map(|m| (m.row_inds().to_vec(), m.col_inds().to_vec())).collect();
    let mut cur: Vec<Vec<f64>> = h.iter().map(|m| m.data().to_vec()).collect();
    let as_nlp = rng.chance(0.5);
    ctx.desc = format!("nx {} patterns {:?}", nx, pats);
    macro_rules! go {
        ($p:expr) => {{
            let n = ctx.rng.us(2, 10);
            let mut ops = String::new();
            for _ in 0..n {
                if ctx.rng.chance(0.4) {
                    let x = vecs(&mut ctx.rng, nx);
                    $p.evaluate(&x);
                    ops.push('e');
                    for r in 0..nf {
                        for k in 0..cur[r].len() {
                            cur[r][k] = h_entry(r, k, &x);
                        }
                    }
                    ctx.count("evaluations");
                } else {
                    let mut nu = vecs(&mut ctx.rng, nf);
                    ops.push('c');
                    if nf > 0 && ctx.rng.chance(0.1) {
                        let r = ctx.rng.below(nf);
                        nu[r] = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                        ctx.count("nonfinite_multipliers");
                    }
                    $p.combine_h(&nu);
                    ctx.count("combinations");
                    let m = $p.hcomb();
                    if m.rows() != nx || m.cols() != nx {
                        return ctx.fail("hcomb-shape", format!("combined Hessian is {} x {}", m.rows(), m.cols()));
                    }
                    let mut want = vec![0.; nx * nx];
                    let mut tol = vec![0.; nx * nx];
                    for r in 0..nf {
                        for k in 0..cur[r].len() {
                            let at = pats[r].0[k] * nx + pats[r].1[k];
                            want[at] += nu[r] * cur[r][k];
                            tol[at] += 1e-13 * (nu[r] * cur[r][k]).abs();
                        }
                    }
                    let mut got = vec![0.; nx * nx];
                    for (i, j, v) in m.iter() {
                        if *i >= nx || *j >= nx {
                            return ctx.fail("hcomb", format!("combined Hessian entry ({}, {})", i, j));
                        }
                        got[i * nx + j] += *v;
                    }
                    for k in 0..nx * nx {
                        let same = got[k] == want[k] || got[k].is_nan() && want[k].is_nan();
                        if !same && !((got[k] - want[k]).abs() <= tol[k] && tol[k].is_finite()) {
                            return ctx.fail("hcomb", format!("after {}: entry ({}, {}) is {:?}, expected {:?}", ops, k / nx, k % nx, got[k], want[k]));
                        }
                    }
                    // The constraint Hessians are untouched
                    for (r, hh) in $p.h().iter().enumerate() {
                        if hh.data() != &cur[r][..] {
                            return ctx.fail("h-changed", format!("after {}: Hessian {} changed", ops, r));
                        }
                    }
                }
            }
            ops
        }};
    }
    let a = CooMat::from_nnz((0, nx), 0);
    let j = CooMat::from_nnz((nf, nx), 0);
    let ops = if as_nlp {
        let mut p = ProblemNlp::new(hphi, a, vec![], j, h, vec![0.; nx], vec![1.; nx], None, h_eval());
        go!(p)
    } else {
        let mut p = ProblemMinlp::new(hphi, a, vec![], j, h, vec![0.; nx], vec![1.; nx], vec![true; nx], None, h_eval());
        go!(p)
    };
    ctx.seen(crate::rng::hash_str(&format!("h{} {:?} {}", nx, pats, ops)));
    let d = ctx.desc.clone();
    ctx.sample(format!("{} operations {}", d, ops));
}

// ---------------------------------------------------------------- C13

pub fn c13(ctx: &mut Ctx) {
    if large(ctx, 0) {
        return crate::p_big::matrices(ctx);
    }
    if ctx.idx % 2 == 0 {
        // exact arithmetic
        c13_with::<i64>(ctx, |r| r.range(-9, 9))
    } else {
        c13_with::<f64>(ctx, |r| r.dyadic(6))
    }
}

fn c13_with<T>(ctx: &mut Ctx, gen: fn(&mut Rng) -> T)
where
    T: numopt::matrix::item::MatItem + PartialEq + Debug + std::ops::Add<Output = T> + std::ops::Mul<Output = T> + Copy + Default,
{
    let rng = &mut ctx.rng;
    let (m, n) = match rng.below(8) {
        0 => (0, rng.below(4)),
        1 => (rng.below(4), 0),
        2 => (rng.us(1, 60), rng.us(1, 60)),
        3 => (1, rng.us(1, 20)),
        4 => (rng.us(1, 20), 1),
        _ => (rng.us(1, 6), rng.us(1, 6)),
    };
    let (r, c) = gen_triplets(rng, m, n, false);
    let d: Vec<T> = r.iter().map(|_| gen(rng)).collect();
    ctx.desc = format!("{} x {}, rows {:?}, columns {:?}, values {:?}", m, n, r, c, d);
    let route = rng.below(3);
    let coo = match guarded(|| match route {
        0 => CooMat::new((m, n), r.clone(), c.clone(), d.clone()),
        1 => {
            let mut a = CooMat::<T>::from_pattern((m, n), r.clone(), c.clone());
            if a.data() != &vec![T::default(); r.len()][..] {
                panic!("from_pattern gives entries that are not zero");
            }
            a.data_mut().copy_from_slice(&d);
            a
        }
        _ => {
            let mut a = CooMat::<T>::from_nnz((m, n), r.len());
            if a.rows() != m
                || a.cols() != n
                || a.nnz() != r.len()
                || a.row_inds() != &vec![0; r.len()][..]
                || a.col_inds() != &vec![0; r.len()][..]
                || a.data() != &vec![T::default(); r.len()][..]
            {
                panic!("from_nnz does not give {} zeros at the origin", r.len());
            }
            for k in 0..r.len() {
                a.set_row_ind(k, r[k]);
                a.set_col_ind(k, c[k]);
            }
            a.data_mut().copy_from_slice(&d);
            a
        }
    }) {
        Ok(x) => x,
        Err(e) => return ctx.fail("coo-panic", e),
    };
    if coo.rows() != m || coo.cols() != n || coo.nnz() != r.len() || coo.row_inds() != &r[..] || coo.col_inds() != &c[..] || coo.data() != &d[..] {
        return ctx.fail("coo", "the coordinate matrix does not hold what it was given".to_string());
    }
    let it: Vec<(usize, usize, T)> = coo.iter().map(|(i, j, v)| (*i, *j, *v)).collect();
    let want: Vec<(usize, usize, T)> = (0..r.len()).map(|k| (r[k], c[k], d[k])).collect();
    if it != want {
        return ctx.fail("coo-iter", format!("iteration gives {:?}", it));
    }
    let zero = T::default();
    let mut dense = vec![zero; m * n];
    for k in 0..r.len() {
        dense[r[k] * n + c[k]] = dense[r[k] * n + c[k]] + d[k];
    }
    // Product
    let x: Vec<T> = (0..n).map(|_| gen(&mut ctx.rng)).collect();
    let y = match guarded(|| &coo * x.clone()) {
        Ok(y) => y,
        Err(e) => return ctx.fail("product-panic", e),
    };
    let mut yw = vec![zero; m];
    for i in 0..m {
        for j in 0..n {
            yw[i] = yw[i] + dense[i * n + j] * x[j];
        }
    }
    if y != yw {
        return ctx.fail("product", format!("times {:?} is {:?}, expected {:?}", x, y, yw));
    }
    ctx.count("products");
    // Conversion
    let csr = match guarded(|| coo.to_csr()) {
        Ok(y) => y,
        Err(e) => return ctx.fail("csr-panic", e),
    };
    let check = |csr: &CsrMat<T>, unique: bool| -> Result<(), String> {
        let ip = csr.indptr();
        if csr.rows() != m || csr.cols() != n {
            return Err(format!("shape {} x {}", csr.rows(), csr.cols()));
        }
        if ip.len() != m + 1 || ip[0] != 0 || ip[m] != csr.nnz() || csr.indices().len() != csr.data().len() || csr.nnz() != csr.data().len() {
            return Err(format!("pointers {:?} for {} entries", ip, csr.nnz()));
        }
        let mut got = vec![zero; m * n];
        for i in 0..m {
            if ip[i] > ip[i + 1] {
                return Err(format!("pointers {:?} decrease", ip));
            }
            let mut seen = vec![false; n];
            for k in ip[i]..ip[i + 1] {
                let j = csr.indices()[k];
                if j >= n {
                    return Err(format!("column {} of {}", j, n));
                }
                if unique && seen[j] {
                    return Err(format!("position ({}, {}) occurs twice", i, j));
                }
                seen[j] = true;
                got[i * n + j] = got[i * n + j] + csr.data()[k];
            }
        }
        if got != dense {
            return Err(format!("describes {:?}, expected {:?}", got, dense));
        }
        Ok(())
    };
    if csr.nnz() != r.len() {
        return ctx.fail("csr", format!("{} entries of {}", csr.nnz(), r.len()));
    }
    if let Err(e) = check(&csr, false) {
        return ctx.fail("csr", e);
    }
    // Each row has the entries of the row, with their values
    for i in 0..m {
        let mut a: Vec<String> = (csr.indptr()[i]..csr.indptr()[i + 1]).map(|k| format!("{} {:?}", csr.indices()[k], csr.data()[k])).collect();
        let mut b: Vec<String> = want.iter().filter(|w| w.0 == i).map(|w| format!("{} {:?}", w.1, w.2)).collect();
        a.sort();
        b.sort();
        if a != b {
            return ctx.fail("csr-row", format!("row {} has {:?}, expected {:?}", i, a, b));
        }
    }
    ctx.count("conversions");
    let mut s = csr.clone();
    for round in 0..2 {
        if let Err(e) = guarded(|| s.sum_duplicates()) {
            return ctx.fail("sum-panic", e);
        }
        if let Err(e) = check(&s, true) {
            return ctx.fail("sum", format!("after summing {} times: {}", round + 1, e));
        }
        let mut pos: Vec<(usize, usize)> = r.iter().cloned().zip(c.iter().cloned()).collect();
        pos.sort();
        pos.dedup();
        if s.nnz() != pos.len() {
            ctx.count("sums_dropping_zeros");
            // Positions may only vanish if they add up to zero
            if s.nnz() > pos.len() {
                return ctx.fail("sum", format!("{} entries for {} positions", s.nnz(), pos.len()));
            }
        }
        ctx.count("sums");
    }
    // The original is untouched
    if coo.data() != &d[..] || csr.nnz() != r.len() {
        return ctx.fail("changed", "conversion changed the original".to_string());
    }
    let dup = {
        let mut pos: Vec<(usize, usize)> = r.iter().cloned().zip(c.iter().cloned()).collect();
        let k = pos.len();
        pos.sort();
        pos.dedup();
        k - pos.len()
    };
    ctx.add("duplicates", dup as u64);
    if (0..m).any(|i| !r.contains(&i)) {
        ctx.count("matrices_with_empty_rows");
    }
    if m == 0 || n == 0 || r.is_empty() {
        ctx.count("empty_matrices");
    }
    ctx.seen(crate::rng::hash_str(&format!("{} {} {:?} {:?}", m, n, r, c)));
    let dd = ctx.desc.clone();
    ctx.sample(dd);
}
