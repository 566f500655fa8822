//! C24, C25, C26 and C27 with a stand-in for the Ipopt library: this binary defines the
//! functions that the bridge links to, drives the callbacks itself and answers as told.
//! Runs natively, under AddressSanitizer and under Miri.

use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr;

use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::ipopt::SolverIpopt;

use numopt_mon::core::{big_stack, guarded, parse_args, run, Ctx, Prop};
use numopt_mon::rng::{hash_str, Rng};
use numopt_mon::spec::*;
use numopt_mon::stub::Stub;

// ------------------------------------------------------------------ the stand-in library

type EvalF = extern "C" fn(c_int, *const f64, c_int, *mut f64, *mut c_void) -> c_int;
type EvalGradF = extern "C" fn(c_int, *const f64, c_int, *mut f64, *mut c_void) -> c_int;
type EvalG = extern "C" fn(c_int, *const f64, c_int, c_int, *mut f64, *mut c_void) -> c_int;
type EvalJacG = extern "C" fn(c_int, *const f64, c_int, c_int, c_int, *mut c_int, *mut c_int, *mut f64, *mut c_void) -> c_int;
type EvalH = extern "C" fn(c_int, *const f64, c_int, f64, c_int, *const f64, c_int, c_int, *mut c_int, *mut c_int, *mut f64, *mut c_void) -> c_int;

#[derive(Clone, Copy)]
struct Calls {
    f: EvalF,
    g: EvalG,
    grad: EvalGradF,
    jac: EvalJacG,
    h: EvalH,
}

/// What the library was given for one problem.
#[derive(Clone)]
struct Rec {
    n: usize,
    m: usize,
    l: Vec<f64>,
    u: Vec<f64>,
    gl: Vec<f64>,
    gu: Vec<f64>,
    nnzj: i64,
    nnzh: i64,
    style: i32,
    ints: Vec<(String, i32)>,
    strs: Vec<(String, String)>,
    start: Option<Vec<f64>>,
    solves: usize,
    freed: usize,
    calls: Calls,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Req {
    F,
    Grad,
    G,
    Jac,
    Hess,
    Structure,
}

/// One request of the script.
#[derive(Clone, Debug)]
struct Step {
    req: Req,
    pt: usize,
    new_x: bool,
    lam: usize,
    new_lam: bool,
    sigma: f64,
}

/// What is told by the bridge in answer to a request.
#[derive(Clone, Debug)]
struct Reply {
    step: Step,
    ok: bool,
    vals: Vec<f64>,
}

/// How the library behaves in one solve.
#[derive(Clone, Default)]
struct Script {
    refuse_create: bool,
    refuse_option: Option<String>,
    steps: Vec<Step>,
    points: Vec<Vec<f64>>,
    lams: Vec<Vec<f64>>,
    code: i32,
    x: Vec<f64>,
    mult_g: Vec<f64>,
    zl: Vec<f64>,
    zu: Vec<f64>,
    /// buffers exactly as large as needed (for sanitizers), otherwise with a guard zone
    exact: bool,
    fresh_buffers: bool,
    /// ends without writing any of its outputs
    silent: bool,
}

#[derive(Default)]
struct Lib {
    recs: Vec<Rec>,
    script: Script,
    replies: Vec<Reply>,
    jac_pos: Vec<(i32, i32)>,
    hess_pos: Vec<(i32, i32)>,
    structure_ok: (bool, bool),
    /// breaches of the library's interface
    breaches: Vec<String>,
}

thread_local! {
    static LIB: RefCell<Lib> = RefCell::new(Lib::default());
}

const GUARD: usize = 8;
const CANARY: u64 = 0x7ff8_dead_beef_1234;
const CANARY_I: i32 = -0x5a5a_5a5a;

fn breach(s: String) {
    LIB.with(|l| l.borrow_mut().breaches.push(s));
}

/// Handles are boxes so that sanitizers see their life.
struct Handle {
    id: usize,
}

unsafe fn copy_in(p: *const f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| *p.add(i)).collect()
}

#[no_mangle]
pub unsafe extern "C" fn CreateIpoptProblem(
    n: c_int,
    xl: *const f64,
    xu: *const f64,
    m: c_int,
    gl: *const f64,
    gu: *const f64,
    nele_jac: c_int,
    nele_hess: c_int,
    index_style: c_int,
    eval_f: EvalF,
    eval_g: EvalG,
    eval_grad_f: EvalGradF,
    eval_jac_g: EvalJacG,
    eval_h: EvalH,
) -> *mut c_void {
    // As the library does
    if n < 1 || m < 0 || xl.is_null() || xu.is_null() || (m > 0 && (gl.is_null() || gu.is_null())) || (m > 0 && nele_jac < 1) || nele_hess < 0 {
        return ptr::null_mut();
    }
    let (nn, mm) = (n as usize, m as usize);
    let rec = Rec {
        n: nn,
        m: mm,
        l: copy_in(xl, nn),
        u: copy_in(xu, nn),
        gl: copy_in(gl, mm),
        gu: copy_in(gu, mm),
        nnzj: nele_jac as i64,
        nnzh: nele_hess as i64,
        style: index_style,
        ints: vec![],
        strs: vec![],
        start: None,
        solves: 0,
        freed: 0,
        calls: Calls { f: eval_f, g: eval_g, grad: eval_grad_f, jac: eval_jac_g, h: eval_h },
    };
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        if l.script.refuse_create {
            return ptr::null_mut();
        }
        l.recs.push(rec);
        let h = Box::new(Handle { id: l.recs.len() - 1 });
        Box::into_raw(h) as *mut c_void
    })
}

/// Reads the handle; a released one is a breach (and an error for the sanitizers).
unsafe fn id_of(p: *mut c_void, what: &str) -> Option<usize> {
    if p.is_null() {
        breach(format!("{} of a null problem", what));
        return None;
    }
    // Any released problem makes reading the handle unsafe: look whether one is left first
    let live = LIB.with(|l| l.borrow().recs.iter().any(|r| r.freed == 0));
    if !live {
        breach(format!("{} of a released problem", what));
        return None;
    }
    Some((*(p as *const Handle)).id)
}

#[no_mangle]
pub unsafe extern "C" fn FreeIpoptProblem(p: *mut c_void) {
    if let Some(id) = id_of(p, "release") {
        LIB.with(|l| l.borrow_mut().recs[id].freed += 1);
        drop(Box::from_raw(p as *mut Handle));
    }
}

#[no_mangle]
pub unsafe extern "C" fn AddIpoptIntOption(p: *mut c_void, key: *const c_char, val: c_int) -> c_int {
    let id = match id_of(p, "option") {
        Some(i) => i,
        None => return 0,
    };
    let k = CStr::from_ptr(key).to_string_lossy().into_owned();
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        let refuse = l.script.refuse_option.as_ref() == Some(&k);
        l.recs[id].ints.push((k, val));
        if refuse {
            0
        } else {
            1
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn AddIpoptStrOption(p: *mut c_void, key: *const c_char, val: *const c_char) -> c_int {
    let id = match id_of(p, "option") {
        Some(i) => i,
        None => return 0,
    };
    let k = CStr::from_ptr(key).to_string_lossy().into_owned();
    let v = String::from_utf8_lossy(CStr::from_ptr(val).to_bytes()).into_owned();
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        let refuse = l.script.refuse_option.as_ref() == Some(&k);
        l.recs[id].strs.push((k, v));
        if refuse {
            0
        } else {
            1
        }
    })
}

/// An output buffer with a guard zone behind it.
struct Out {
    v: Vec<f64>,
    n: usize,
}

impl Out {
    fn new(n: usize, exact: bool) -> Out {
        let cap = if exact { n } else { n + GUARD };
        let mut v = Vec::with_capacity(cap);
        v.resize(cap, f64::from_bits(CANARY));
        Out { v, n }
    }
    /// The values; None for those that were not written.
    fn get(&self, what: &str) -> Vec<f64> {
        if self.v[self.n..].iter().any(|x| x.to_bits() != CANARY) {
            breach(format!("{} was written beyond its end", what));
        }
        self.v[..self.n].to_vec()
    }
}

struct OutI {
    v: Vec<c_int>,
    n: usize,
}

impl OutI {
    fn new(n: usize, exact: bool) -> OutI {
        let cap = if exact { n } else { n + GUARD };
        let mut v = Vec::with_capacity(cap);
        v.resize(cap, CANARY_I);
        OutI { v, n }
    }
    fn get(&self, what: &str) -> Vec<c_int> {
        if self.v[self.n..].iter().any(|x| *x != CANARY_I) {
            breach(format!("{} was written beyond its end", what));
        }
        self.v[..self.n].to_vec()
    }
}

fn exact_copy(v: &[f64]) -> Vec<f64> {
    let mut c = Vec::with_capacity(v.len());
    c.extend_from_slice(v);
    c
}

#[no_mangle]
pub unsafe extern "C" fn IpoptSolve(
    p: *mut c_void,
    x: *mut f64,
    g: *mut f64,
    obj: *mut f64,
    mult_g: *mut f64,
    zl: *mut f64,
    zu: *mut f64,
    user: *mut c_void,
) -> c_int {
    let id = match id_of(p, "solve") {
        Some(i) => i,
        None => return -199,
    };
    let (s, n, m, c, nnzj, nnzh) = LIB.with(|l| {
        let l = l.borrow();
        let r = &l.recs[id];
        (l.script.clone(), r.n, r.m, r.calls, r.nnzj as usize, r.nnzh as usize)
    });
    if x.is_null() {
        return -11;
    }
    let start = copy_in(x, n);
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        l.recs[id].start = Some(start);
        l.recs[id].solves += 1;
    });
    let (cn, cm, cj, ch) = (n as c_int, m as c_int, nnzj as c_int, nnzh as c_int);
    let mut xb = exact_copy(&vec![0.; n]);
    for st in s.steps.iter() {
        match st.req {
            Req::Structure => {
                let mut ir = OutI::new(nnzj, s.exact);
                let mut jc = OutI::new(nnzj, s.exact);
                let r1 = (c.jac)(cn, ptr::null(), 0, cm, cj, ir.v.as_mut_ptr(), jc.v.as_mut_ptr(), ptr::null_mut(), user);
                let jp: Vec<(i32, i32)> = ir.get("Jacobian rows").into_iter().zip(jc.get("Jacobian columns")).collect();
                let mut ir = OutI::new(nnzh, s.exact);
                let mut jc = OutI::new(nnzh, s.exact);
                let r2 = (c.h)(cn, ptr::null(), 0, 1., cm, ptr::null(), 0, ch, ir.v.as_mut_ptr(), jc.v.as_mut_ptr(), ptr::null_mut(), user);
                let hp: Vec<(i32, i32)> = ir.get("Hessian rows").into_iter().zip(jc.get("Hessian columns")).collect();
                if r1 != 0 && jp.iter().any(|(i, j)| *i < 0 || *i >= cm || *j < 0 || *j >= cn) {
                    breach(format!("Jacobian positions {:?} of a {} by {} matrix", jp, m, n));
                }
                if r2 != 0 && hp.iter().any(|(i, j)| *i < 0 || *i >= cn || *j < 0 || *j >= cn) {
                    breach(format!("Hessian positions {:?} of {} columns", hp, n));
                }
                LIB.with(|l| {
                    let mut l = l.borrow_mut();
                    l.structure_ok = (r1 != 0, r2 != 0);
                    l.jac_pos = jp;
                    l.hess_pos = hp;
                    l.replies.push(Reply { step: st.clone(), ok: r1 != 0 && r2 != 0, vals: vec![] });
                });
            }
            _ => {
                let px = &s.points[st.pt];
                if s.fresh_buffers {
                    xb = exact_copy(px);
                } else {
                    xb.copy_from_slice(px);
                }
                let nx = if st.new_x { 1 } else { 0 };
                let (ok, vals) = match st.req {
                    Req::F => {
                        let mut o = Out::new(1, s.exact);
                        let r = (c.f)(cn, xb.as_ptr(), nx, o.v.as_mut_ptr(), user);
                        (r, o.get("objective"))
                    }
                    Req::Grad => {
                        let mut o = Out::new(n, s.exact);
                        let r = (c.grad)(cn, xb.as_ptr(), nx, o.v.as_mut_ptr(), user);
                        (r, o.get("gradient"))
                    }
                    Req::G => {
                        let mut o = Out::new(m, s.exact);
                        let r = (c.g)(cn, xb.as_ptr(), nx, cm, o.v.as_mut_ptr(), user);
                        (r, o.get("constraints"))
                    }
                    Req::Jac => {
                        let mut o = Out::new(nnzj, s.exact);
                        let r = (c.jac)(cn, xb.as_ptr(), nx, cm, cj, ptr::null_mut(), ptr::null_mut(), o.v.as_mut_ptr(), user);
                        (r, o.get("Jacobian"))
                    }
                    _ => {
                        let lam = exact_copy(&s.lams[st.lam]);
                        let nl = if st.new_lam { 1 } else { 0 };
                        let mut o = Out::new(nnzh, s.exact);
                        let r = (c.h)(cn, xb.as_ptr(), nx, st.sigma, cm, lam.as_ptr(), nl, ch, ptr::null_mut(), ptr::null_mut(), o.v.as_mut_ptr(), user);
                        (r, o.get("Hessian"))
                    }
                };
                if ok != 0 && vals.iter().any(|v| v.to_bits() == CANARY) {
                    breach(format!("values of {:?} left unwritten", st.req));
                }
                if ok != 0 && ok != 1 {
                    breach(format!("{:?} answered {}", st.req, ok));
                }
                LIB.with(|l| l.borrow_mut().replies.push(Reply { step: st.clone(), ok: ok != 0, vals }));
            }
        }
    }
    if s.silent {
        return s.code;
    }
    for (i, v) in s.x.iter().enumerate() {
        *x.add(i) = *v;
    }
    if !g.is_null() {
        for i in 0..m {
            *g.add(i) = 0.;
        }
    }
    if !obj.is_null() {
        *obj = 0.;
    }
    for (q, v) in [(mult_g, &s.mult_g), (zl, &s.zl), (zu, &s.zu)] {
        if !q.is_null() {
            for (i, y) in v.iter().enumerate() {
                *q.add(i) = *y;
            }
        }
    }
    s.code
}

// ------------------------------------------------------------------ problems with known values

#[derive(Clone, Debug)]
struct Term {
    c: f64,
    kind: u8,
    i: usize,
    j: usize,
}

type Fun = Vec<Term>;

fn gen_fun(rng: &mut Rng, n: usize) -> Fun {
    let k = rng.us(0, 4);
    (0..k)
        .map(|_| Term { c: rng.nonzero(), kind: rng.below(7) as u8, i: rng.below(n), j: rng.below(n) })
        .collect()
}

/// Value, gradient and (symmetric) Hessian, dense, and a bound on the terms' size.
#[derive(Clone, Debug)]
struct V2 {
    v: f64,
    g: Vec<f64>,
    h: Vec<Vec<f64>>,
    size: f64,
}

fn at(f: &Fun, x: &[f64]) -> V2 {
    let n = x.len();
    let mut o = V2 { v: 0., g: vec![0.; n], h: vec![vec![0.; n]; n], size: 0. };
    for t in f.iter() {
        let (a, b) = (x[t.i], x[t.j]);
        let c = t.c;
        let mut sec = |i: usize, j: usize, v: f64| {
            o.h[i][j] += v;
            if i != j {
                o.h[j][i] += v;
            }
        };
        let val = match t.kind {
            0 => {
                o.g[t.i] += c;
                c * a
            }
            1 if t.i != t.j => {
                o.g[t.i] += c * b;
                o.g[t.j] += c * a;
                sec(t.i, t.j, c);
                c * a * b
            }
            1 | 2 => {
                o.g[t.i] += 2. * c * a;
                sec(t.i, t.i, 2. * c);
                c * a * a
            }
            3 => {
                o.g[t.i] += 3. * c * a * a;
                sec(t.i, t.i, 6. * c * a);
                c * a * a * a
            }
            4 => {
                o.g[t.i] += c * a.cos();
                sec(t.i, t.i, -c * a.sin());
                c * a.sin()
            }
            5 if t.i != t.j => {
                // a * b^2
                o.g[t.i] += c * b * b;
                o.g[t.j] += 2. * c * a * b;
                sec(t.i, t.j, 2. * c * b);
                sec(t.j, t.j, 2. * c * a);
                c * a * b * b
            }
            _ => c,
        };
        o.v += val;
        o.size += val.abs();
    }
    o
}

/// Positions of a matrix with shares: entry k holds share w of the value at (i, j).
type Pattern = Vec<(usize, usize, f64)>;

fn spread(rng: &mut Rng, pos: &[(usize, usize)]) -> Pattern {
    let mut p: Pattern = Vec::new();
    for (i, j) in pos.iter() {
        match rng.below(6) {
            0 => {
                p.push((*i, *j, 0.5));
                p.push((*i, *j, 0.5));
            }
            1 => {
                p.push((*i, *j, 2.));
                p.push((*i, *j, -1.));
            }
            _ => p.push((*i, *j, 1.)),
        }
    }
    if rng.chance(0.7) {
        rng.shuffle(&mut p);
    }
    p
}

fn coo_of(m: usize, n: usize, p: &Pattern) -> CooMat<f64> {
    CooMat::new((m, n), p.iter().map(|e| e.0).collect(), p.iter().map(|e| e.1).collect(), vec![0.; p.len()])
}

fn lower(rng: &mut Rng, f: &Fun, n: usize) -> Vec<(usize, usize)> {
    let mut s = std::collections::BTreeSet::new();
    for t in f.iter() {
        let (i, j) = (t.i.max(t.j), t.i.min(t.j));
        match t.kind {
            1 => {
                s.insert((i, j));
            }
            2 | 3 | 4 => {
                s.insert((t.i, t.i));
            }
            5 => {
                s.insert((i, j));
                s.insert((t.j, t.j));
            }
            _ => (),
        }
    }
    while n > 0 && rng.chance(0.2) {
        let (i, j) = (rng.below(n), rng.below(n));
        s.insert((i.max(j), i.min(j)));
    }
    s.into_iter().collect()
}

/// How an evaluation function misbehaves.
#[derive(Clone, Debug, PartialEq)]
enum Hostile {
    No,
    Gphi(i64),
    F(i64),
    H(i64),
    J(usize, bool),
    Hphi(usize, bool),
    Hk(usize, bool),
    Shift,
}

struct Case {
    n: usize,
    a: Pattern,
    b: Vec<f64>,
    phi: Fun,
    f: Vec<Fun>,
    jp: Pattern,
    hp: Pattern,
    hk: Vec<Pattern>,
    l: Vec<f64>,
    u: Vec<f64>,
    x0: Option<Vec<f64>>,
    lp: bool,
    hostile: Hostile,
    when: i64,
}

fn gen_case(rng: &mut Rng) -> Case {
    let n = rng.us(1, 6);
    let na = rng.us(0, 3);
    let lp = rng.chance(0.2);
    let nf = if lp { 0 } else { rng.us(0, 3) };
    let mut a: Pattern = Vec::new();
    for i in 0..na {
        for j in 0..n {
            if rng.chance(0.5) {
                a.push((i, j, rng.constant()));
                if rng.chance(0.15) {
                    a.push((i, j, rng.constant()));
                }
            }
        }
    }
    if rng.chance(0.5) {
        rng.shuffle(&mut a);
    }
    let phi: Fun = if lp {
        (0..n).map(|i| Term { c: rng.constant(), kind: 0, i, j: i }).collect()
    } else {
        gen_fun(rng, n)
    };
    let f: Vec<Fun> = (0..nf).map(|_| gen_fun(rng, n)).collect();
    let mut jpos = Vec::new();
    for (k, t) in f.iter().enumerate() {
        let mut s = std::collections::BTreeSet::new();
        for e in t.iter() {
            if e.kind <= 5 {
                s.insert(e.i);
            }
            if e.kind == 1 || e.kind == 5 {
                s.insert(e.j);
            }
        }
        while rng.chance(0.2) {
            s.insert(rng.below(n));
        }
        for j in s {
            jpos.push((k, j));
        }
    }
    let jp = spread(rng, &jpos);
    let hpos = if lp { vec![] } else { lower(rng, &phi, n) };
    let hp = spread(rng, &hpos);
    let hk: Vec<Pattern> = f
        .iter()
        .map(|t| {
            let q = lower(rng, t, n);
            spread(rng, &q)
        })
        .collect();
    let l: Vec<f64> = (0..n).map(|_| if rng.chance(0.3) { -1e8 } else { -rng.unit() * 10. }).collect();
    let u: Vec<f64> = (0..n).map(|_| if rng.chance(0.3) { 1e8 } else { rng.unit() * 10. }).collect();
    let x0 = match rng.below(4) {
        0 => None,
        1 => Some((0..n).map(|_| *rng.pick(&[0., -0., f64::NAN, f64::INFINITY, 1e-310, -3.5])).collect()),
        _ => Some((0..n).map(|_| rng.constant()).collect()),
    };
    Case { n, a, b: (0..na).map(|_| rng.constant()).collect(), phi, f, jp, hp, hk, l, u, x0, lp, hostile: Hostile::No, when: 0 }
}

fn resize(v: &mut Vec<f64>, d: i64) {
    let n = (v.len() as i64 + d).max(0) as usize;
    v.resize(n, 1.);
}

fn other(m: &CooMat<f64>, nnz: usize, wild: bool) -> CooMat<f64> {
    let (r, c) = (m.rows(), m.cols());
    let big = if wild { 1_000_000 } else { 0 };
    CooMat::new((r, c), vec![big; nnz], vec![big; nnz], vec![1.; nnz])
}

fn build_problem(c: &Case) -> Problem {
    let a = CooMat::new(
        (c.b.len(), c.n),
        c.a.iter().map(|e| e.0).collect(),
        c.a.iter().map(|e| e.1).collect(),
        c.a.iter().map(|e| e.2).collect(),
    );
    if c.lp {
        let cost: Vec<f64> = (0..c.n).map(|i| c.phi[i].c).collect();
        return Problem::Lp(ProblemLp::new(cost, a, c.b.clone(), c.l.clone(), c.u.clone(), c.x0.clone()));
    }
    let (phi, fs, jp, hp, hk) = (c.phi.clone(), c.f.clone(), c.jp.clone(), c.hp.clone(), c.hk.clone());
    let (hostile, when) = (c.hostile.clone(), c.when);
    let count = std::cell::Cell::new(0i64);
    let eval = Box::new(
        move |o: &mut f64, g: &mut Vec<f64>, h0: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
            count.set(count.get() + 1);
            let go = hostile != Hostile::No && count.get() >= when;
            if hostile == Hostile::No || (!go && g.len() == x.len()) {
                let v = at(&phi, x);
                *o = v.v;
                g.copy_from_slice(&v.g);
                for (k, e) in hp.iter().enumerate() {
                    h0.data_mut()[k] = e.2 * v.h.get(e.0).and_then(|r| r.get(e.1)).unwrap_or(&1.);
                }
                let vs: Vec<V2> = fs.iter().map(|t| at(t, x)).collect();
                for (k, v) in vs.iter().enumerate() {
                    f[k] = v.v;
                }
                for (k, e) in jp.iter().enumerate() {
                    j.data_mut()[k] = e.2 * vs.get(e.0).and_then(|v| v.g.get(e.1)).unwrap_or(&1.);
                }
                for (r, p) in hk.iter().enumerate() {
                    for (k, e) in p.iter().enumerate() {
                        h[r].data_mut()[k] = e.2 * vs[r].h.get(e.0).and_then(|q| q.get(e.1)).unwrap_or(&1.);
                    }
                }
            }
            if !go {
                return;
            }
            match &hostile {
                Hostile::No => (),
                Hostile::Gphi(d) => resize(g, *d),
                Hostile::F(d) => resize(f, *d),
                Hostile::H(d) => {
                    let n = (h.len() as i64 + d).max(0) as usize;
                    let z = CooMat::new((x.len(), x.len()), vec![0], vec![0], vec![1.]);
                    h.resize(n, z);
                }
                Hostile::J(k, w) => *j = other(j, *k, *w),
                Hostile::Hphi(k, w) => *h0 = other(h0, *k, *w),
                Hostile::Hk(k, w) => {
                    if let Some(m) = h.first_mut() {
                        *m = other(m, *k, *w);
                    }
                }
                Hostile::Shift => {
                    // the same number of entries in total, but elsewhere
                    if h.len() >= 2 {
                        let (p, q) = (h[0].nnz(), h[1].nnz());
                        let (m, w) = (other(&h[0], q, false), other(&h[1], p, false));
                        h[0] = m;
                        h[1] = w;
                    }
                }
            }
        },
    );
    let nf = c.f.len();
    Problem::Nlp(ProblemNlp::new(
        coo_of(c.n, c.n, &c.hp),
        a,
        c.b.clone(),
        coo_of(nf, c.n, &c.jp),
        c.hk.iter().map(|p| coo_of(c.n, c.n, p)).collect(),
        c.l.clone(),
        c.u.clone(),
        c.x0.clone(),
        eval,
    ))
}

// ------------------------------------------------------------------ scripts

/// Legal request sequences: the point is flagged as new whenever it differs from the one of
/// the request before (and sometimes without need), likewise the multipliers.
fn gen_steps(rng: &mut Rng, np: usize, nl: usize, k: usize) -> Vec<Step> {
    let mut out = vec![Step { req: Req::Structure, pt: 0, new_x: false, lam: 0, new_lam: false, sigma: 1. }];
    if rng.chance(0.05) {
        out.push(out[0].clone());
    }
    let mut last: Option<usize> = None;
    let mut last_lam: Option<usize> = None;
    for _ in 0..k {
        let req = *rng.pick(&[Req::F, Req::Grad, Req::G, Req::Jac, Req::Hess, Req::Hess]);
        let pt = match last {
            Some(p) if rng.chance(0.6) => p,
            _ => rng.below(np),
        };
        let new_x = last != Some(pt) || rng.chance(0.1);
        let lam = match last_lam {
            Some(q) if rng.chance(0.5) => q,
            _ => rng.below(nl),
        };
        let new_lam = last_lam != Some(lam) || rng.chance(0.1);
        let sigma = *rng.pick(&[1., 0., -1., 0.25, 3.5]);
        out.push(Step { req, pt, new_x, lam, new_lam, sigma });
        last = Some(pt);
        if req == Req::Hess {
            last_lam = Some(lam);
        }
    }
    out
}

fn odd_values(rng: &mut Rng, n: usize) -> Vec<f64> {
    (0..n)
        .map(|_| {
            if rng.chance(0.15) {
                *rng.pick(&[0., -0., f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-310, 1e300])
            } else {
                rng.uniform(-20., 20.)
            }
        })
        .collect()
}

fn gen_script(rng: &mut Rng, n: usize, m: usize, k: usize) -> Script {
    let np = rng.us(1, 4);
    let nl = rng.us(1, 3);
    let points: Vec<Vec<f64>> = (0..np)
        .map(|_| {
            let mut p: Vec<f64> = (0..n).map(|_| rng.uniform(-3., 3.)).collect();
            if rng.chance(0.1) {
                p[rng.below(n)] = *rng.pick(&[0., -0., 1e-9, 1e5, -1e6]);
            }
            p
        })
        .collect();
    let mut lams: Vec<Vec<f64>> = (0..nl).map(|_| (0..m).map(|_| rng.constant()).collect()).collect();
    for l in lams.iter_mut() {
        if rng.chance(0.15) {
            l.iter_mut().for_each(|v| *v = 0.);
        }
    }
    let steps = gen_steps(rng, np, nl, k);
    let codes = [0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199];
    let code = match rng.below(4) {
        0 => 0,
        1 => rng.range(-205, 12) as i32,
        2 => *rng.pick(&[i32::MAX, i32::MIN, 256, 257, 258, 65536, 1 << 8 | 2]),
        _ => *rng.pick(&codes),
    };
    Script {
        refuse_create: false,
        refuse_option: None,
        steps,
        points,
        lams,
        code,
        x: odd_values(rng, n),
        mult_g: odd_values(rng, m),
        zl: odd_values(rng, n),
        zu: odd_values(rng, n),
        exact: cfg!(miri) || rng.chance(0.5),
        fresh_buffers: rng.chance(0.5),
        silent: code != 0 && code != 1 && code != 2 && rng.chance(0.3),
    }
}

/// Leaves recognisable contents in freed memory of the sizes that the bridge allocates.
fn soil(sizes: &[usize]) {
    let mut held: Vec<Vec<u64>> = vec![];
    for n in sizes.iter() {
        for _ in 0..8 {
            held.push(vec![CANARY; *n]);
        }
    }
    std::hint::black_box(&held);
}

fn load(s: Script) {
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        *l = Lib::default();
        l.script = s;
    });
}

fn take_lib() -> Lib {
    LIB.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Every problem that was created was released once.
fn released(lib: &Lib) -> Option<String> {
    for (k, r) in lib.recs.iter().enumerate() {
        if r.freed != 1 {
            return Some(format!("problem {} was released {} times", k, r.freed));
        }
    }
    lib.breaches.first().cloned()
}

fn dims(p: &Problem) -> Option<(usize, usize)> {
    match p {
        Problem::Lp(q) => Some((q.nx(), q.na())),
        Problem::Nlp(q) => Some((q.nx(), q.na() + q.nf())),
        _ => None,
    }
}

// ------------------------------------------------------------------ C24

/// Values at a point, and how exact they are.
struct Ref {
    phi: f64,
    phi_size: f64,
    g: Vec<f64>,
    c: Vec<f64>,
    c_size: Vec<f64>,
    j: Vec<Vec<f64>>,
    h0: Vec<Vec<f64>>,
    hk: Vec<Vec<Vec<f64>>>,
}

fn reference(c: &Case, x: &[f64]) -> Ref {
    let (na, nf) = (c.b.len(), c.f.len());
    let p = at(&c.phi, x);
    let mut j = vec![vec![0.; c.n]; na + nf];
    let mut cv = vec![0.; na + nf];
    let mut cs = vec![0.; na + nf];
    for i in 0..na {
        cv[i] = -c.b[i];
        cs[i] = c.b[i].abs();
    }
    for (i, k, v) in c.a.iter() {
        j[*i][*k] += v;
        cv[*i] += v * x[*k];
        cs[*i] += (v * x[*k]).abs();
    }
    let mut hk = Vec::new();
    for (r, t) in c.f.iter().enumerate() {
        let v = at(t, x);
        cv[na + r] = v.v;
        cs[na + r] = v.size;
        j[na + r] = v.g.clone();
        hk.push(v.h);
    }
    Ref { phi: p.v, phi_size: p.size, g: p.g, c: cv, c_size: cs, j, h0: p.h, hk }
}

fn sym(m: &CooMat<f64>, n: usize) -> Vec<Vec<f64>> {
    let mut o = vec![vec![0.; n]; n];
    for (i, j, v) in m.iter() {
        o[*i][*j] += *v;
        if i != j {
            o[*j][*i] += *v;
        }
    }
    o
}

/// The same from an evaluation of a problem that came from a model.
fn reference_of(p: &mut Problem, d: &StdData, x: &[f64]) -> Ref {
    let e = std_eval(p, x);
    let (na, nf, n) = (d.b.len(), e.f.len(), d.nx);
    let mut j = vec![vec![0.; n]; na + nf];
    let mut cv: Vec<f64> = d.b.iter().map(|b| -b).collect();
    let mut cs: Vec<f64> = d.b.iter().map(|b| b.abs()).collect();
    for (i, k, v) in d.a.iter() {
        j[*i][*k] += *v;
        cv[*i] += v * x[*k];
        cs[*i] += (v * x[*k]).abs();
    }
    for r in 0..nf {
        cv.push(e.f[r]);
        cs.push(e.f[r].abs());
    }
    for (i, k, v) in e.j.iter() {
        j[na + *i][*k] += *v;
    }
    Ref {
        phi: e.phi,
        phi_size: e.phi.abs(),
        g: e.gphi.clone(),
        c: cv,
        c_size: cs,
        j,
        h0: sym(&e.hphi, n),
        hk: e.h.iter().map(|m| sym(m, n)).collect(),
    }
}

fn near(a: f64, b: f64, size: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= 1e-11 * (1. + size.abs().max(a.abs()).max(b.abs()))
}

fn matrix_differs(pos: &[(i32, i32)], vals: &[f64], m: usize, n: usize, want: &dyn Fn(usize, usize) -> (f64, f64), symmetric: bool) -> Option<String> {
    let mut got = vec![vec![0.; n]; m];
    let mut size = vec![vec![0.; n]; m];
    for ((i, j), v) in pos.iter().zip(vals.iter()) {
        let (mut i, mut j) = (*i as usize, *j as usize);
        if i >= m || j >= n {
            return Some(format!("entry at {} {} of a {} by {} matrix", i, j, m, n));
        }
        if symmetric && j > i {
            std::mem::swap(&mut i, &mut j);
        }
        got[i][j] += v;
        size[i][j] += v.abs();
    }
    for i in 0..m {
        for j in 0..(if symmetric { i + 1 } else { n }) {
            let (w, s) = want(i, j);
            if !near(got[i][j], w, s + size[i][j]) {
                return Some(format!("entry {} {} is {} instead of {}", i, j, got[i][j], w));
            }
        }
    }
    None
}

/// Compares every reply with the values at the point, multipliers and factor it was about.
fn check_replies(lib: &Lib, s: &Script, refs: &[Ref], n: usize, m: usize, na: usize) -> Option<(&'static str, String)> {
    for (k, r) in lib.replies.iter().enumerate() {
        if r.step.req == Req::Structure {
            if !r.ok {
                return Some(("structure-refused", format!("request {}", k)));
            }
            continue;
        }
        let f = &refs[r.step.pt];
        let lam = &s.lams[r.step.lam];
        let hw = |i: usize, j: usize| -> (f64, f64) {
            let mut v = r.step.sigma * f.h0[i][j];
            let mut z = v.abs();
            for (q, h) in f.hk.iter().enumerate() {
                v += lam[na + q] * h[i][j];
                z += (lam[na + q] * h[i][j]).abs();
            }
            (v, z)
        };
        let bad: Option<String> = match r.step.req {
            Req::F => (!near(r.vals[0], f.phi, f.phi_size)).then(|| format!("{} instead of {}", r.vals[0], f.phi)),
            Req::Grad => (0..n).find(|i| !near(r.vals[*i], f.g[*i], f.g[*i])).map(|i| format!("gradient {} is {} instead of {}", i, r.vals[i], f.g[i])),
            Req::G => (0..m).find(|i| !near(r.vals[*i], f.c[*i], f.c_size[*i])).map(|i| format!("constraint {} is {} instead of {}", i, r.vals[i], f.c[i])),
            Req::Jac => matrix_differs(&lib.jac_pos, &r.vals, m, n, &|i, j| (f.j[i][j], f.j[i][j].abs()), false),
            Req::Hess => matrix_differs(&lib.hess_pos, &r.vals, n, n, &hw, true),
            Req::Structure => None,
        };
        let name = match r.step.req {
            Req::F => "objective",
            Req::Grad => "gradient",
            Req::G => "constraints",
            Req::Jac => "jacobian",
            _ => "hessian",
        };
        if !r.ok {
            // allowed only if there is no finite answer
            let finite = f.phi.is_finite()
                && f.g.iter().chain(f.c.iter()).all(|v| v.is_finite())
                && f.j.iter().chain(f.h0.iter()).chain(f.hk.iter().flatten()).all(|q| q.iter().all(|v| v.is_finite()))
                && (0..n).all(|i| (0..n).all(|j| hw(i, j).1.is_finite()));
            if finite {
                return Some((name, format!("request {} {:?} refused", k, r.step)));
            }
            continue;
        }
        if let Some(b) = bad {
            return Some((name, format!("request {} {:?}: {}", k, r.step, b)));
        }
    }
    None
}

fn observe(ctx: &mut Ctx, lib: &Lib) {
    for r in lib.replies.iter() {
        let key = match (r.step.req, r.step.new_x, r.step.new_lam) {
            (Req::Structure, _, _) => "structure".to_string(),
            (Req::Hess, x, l) => format!("Hess_x{}_l{}", x as u8, l as u8),
            (q, x, _) => format!("{:?}_x{}", q, x as u8),
        };
        ctx.count(&key);
        if !r.ok {
            ctx.count("refused_requests");
        }
    }
    if !lib.replies.is_empty() {
        let h: Vec<String> = lib.replies.iter().map(|r| format!("{:?}{}{}{}{}", r.step.req, r.step.pt, r.step.new_x, r.step.lam, r.step.new_lam)).collect();
        ctx.seen(hash_str(&h.join(",")));
    }
}

/// A problem with more columns, rows and entries than sixteen bits can number.
fn large(ctx: &mut Ctx, code: i32) {
    let n = ctx.rng.us(65537, 68000);
    let (na, nf) = (ctx.rng.us(65537, 68000), ctx.rng.us(65537, 68000));
    let m = na + nf;
    ctx.desc = format!("{} columns, {} linear and {} nonlinear rows", n, na, nf);
    let pair = |i: usize| (i % n, (3 * i + 1) % n); // of nonlinear row i
    let low = |(a, b): (usize, usize)| if a >= b { (a, b) } else { (b, a) };
    let mut ar = vec![];
    let mut ac = vec![];
    let mut av = vec![];
    for i in 0..na {
        for (j, v) in [(i % n, 1.), ((i + 5) % n, 2.)].iter() {
            ar.push(i);
            ac.push(*j);
            av.push(*v);
        }
    }
    let b: Vec<f64> = (0..na).map(|i| i as f64).collect();
    let mut jr = vec![];
    let mut jc = vec![];
    for i in 0..nf {
        let (p, q) = pair(i);
        jr.extend_from_slice(&[i, i]);
        jc.extend_from_slice(&[p, q]);
    }
    // row i is x_p * x_q - i; the objective the sum of j * x_j^2 / 2
    let eval = Box::new(
        move |o: &mut f64, g: &mut Vec<f64>, h0: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
            *o = x.iter().enumerate().map(|(k, v)| k as f64 * v * v / 2.).sum();
            for k in 0..x.len() {
                g[k] = k as f64 * x[k];
                h0.data_mut()[k] = k as f64;
            }
            for i in 0..f.len() {
                let (p, q) = (i % x.len(), (3 * i + 1) % x.len());
                f[i] = x[p] * x[q] - i as f64;
                j.data_mut()[2 * i] = x[q];
                j.data_mut()[2 * i + 1] = x[p];
                h[i].data_mut()[0] = if p == q { 2. } else { 1. };
            }
        },
    );
    let l: Vec<f64> = (0..n).map(|i| -1. - i as f64).collect();
    let u: Vec<f64> = (0..n).map(|i| 1. + i as f64).collect();
    let x0: Vec<f64> = (0..n).map(|i| 0.5 * (i % 7) as f64).collect();
    let mut p = match guarded(|| {
        Problem::Nlp(ProblemNlp::new(
            CooMat::new((n, n), (0..n).collect(), (0..n).collect(), vec![0.; n]),
            CooMat::new((na, n), ar, ac, av),
            b.clone(),
            CooMat::new((nf, n), jr, jc, vec![0.; 2 * nf]),
            (0..nf).map(|i| CooMat::new((n, n), vec![low(pair(i)).0], vec![low(pair(i)).1], vec![0.])).collect(),
            l.clone(),
            u.clone(),
            Some(x0.clone()),
            eval,
        ))
    }) {
        Ok(p) => p,
        Err(e) => return ctx.fail("panic", e),
    };
    let x: Vec<f64> = (0..n).map(|i| 1. + (i % 50) as f64).collect();
    let lam: Vec<f64> = (0..m).map(|i| 1. + (i % 4) as f64).collect();
    let step = |req: Req, new: bool| Step { req, pt: 0, new_x: new, lam: 0, new_lam: new, sigma: 2. };
    let s = Script {
        steps: vec![step(Req::Structure, false), step(Req::G, true), step(Req::F, false), step(Req::Jac, false), step(Req::Hess, true), step(Req::Grad, false)],
        points: vec![x.clone()],
        lams: vec![lam.clone()],
        code,
        x: (0..n).map(|i| 0.25 + i as f64).collect(),
        mult_g: (0..m).map(|i| 1. + i as f64).collect(),
        zl: (0..n).map(|i| 2. + i as f64).collect(),
        zu: (0..n).map(|i| 3. + i as f64).collect(),
        ..Script::default()
    };
    load(s.clone());
    let r = guarded(|| SolverIpopt::new().solve(&mut p).map_err(|e| format!("{}", e)));
    let lib = take_lib();
    if let Some(b) = lib.breaches.first() {
        let mut b = b.clone();
        b.truncate(300);
        return ctx.fail("breach", b);
    }
    let (st, sol) = match r {
        Err(e) => return ctx.fail("panic", e),
        Ok(Err(e)) => return ctx.fail("error", e),
        Ok(Ok(r)) => r,
    };
    let rec = match lib.recs.first() {
        Some(r) => r,
        None => return ctx.fail("not-created", "no problem was created".to_string()),
    };
    if rec.n != n || rec.m != m || rec.l != l || rec.u != u || rec.gl != vec![0.; m] || rec.gu != rec.gl || rec.start != Some(x0) || rec.freed != 1 {
        return ctx.fail("given", "sizes, limits or the starting point differ".to_string());
    }
    if lib.replies.len() != s.steps.len() || lib.replies.iter().any(|r| !r.ok) {
        return ctx.fail("refused", "requests are refused".to_string());
    }
    // Constraints, objective, gradient
    let g = &lib.replies[1].vals;
    for i in 0..na {
        if g[i] != x[i % n] + 2. * x[(i + 5) % n] - i as f64 {
            return ctx.fail("constraints", format!("linear row {} is {:?}", i, g[i]));
        }
    }
    for i in 0..nf {
        if g[na + i] != x[pair(i).0] * x[pair(i).1] - i as f64 {
            return ctx.fail("constraints", format!("nonlinear row {} is {:?}", i, g[na + i]));
        }
    }
    let phi: f64 = x.iter().enumerate().map(|(k, v)| k as f64 * v * v / 2.).sum();
    if lib.replies[2].vals != vec![phi] || (0..n).any(|k| lib.replies[5].vals[k] != k as f64 * x[k]) {
        return ctx.fail("objective", "the objective or its gradient differ".to_string());
    }
    // Matrices
    let mut jac: HashMap<(usize, usize), f64> = HashMap::new();
    for (p, v) in lib.jac_pos.iter().zip(lib.replies[3].vals.iter()) {
        *jac.entry((p.0 as usize, p.1 as usize)).or_insert(0.) += *v;
    }
    for i in 0..na {
        *jac.entry((i, i % n)).or_insert(0.) -= 1.;
        *jac.entry((i, (i + 5) % n)).or_insert(0.) -= 2.;
    }
    for i in 0..nf {
        let (p, q) = pair(i);
        *jac.entry((na + i, p)).or_insert(0.) -= x[q];
        *jac.entry((na + i, q)).or_insert(0.) -= x[p];
    }
    if let Some((p, v)) = jac.iter().find(|(_, v)| **v != 0.) {
        return ctx.fail("jacobian", format!("entry {:?} is off by {:?}", p, v));
    }
    let mut hess: HashMap<(usize, usize), f64> = HashMap::new();
    for (p, v) in lib.hess_pos.iter().zip(lib.replies[4].vals.iter()) {
        *hess.entry(low((p.0 as usize, p.1 as usize))).or_insert(0.) += *v;
    }
    for k in 0..n {
        *hess.entry((k, k)).or_insert(0.) -= 2. * k as f64;
    }
    for i in 0..nf {
        let (p, q) = low(pair(i));
        *hess.entry((p, q)).or_insert(0.) -= lam[na + i] * if p == q { 2. } else { 1. };
    }
    if let Some((p, v)) = hess.iter().find(|(_, v)| **v != 0.) {
        return ctx.fail("hessian", format!("entry {:?} is off by {:?}", p, v));
    }
    // The answer
    if st != if code == 0 { SolverStatus::Solved } else { SolverStatus::Infeasible } {
        return ctx.fail("status", format!("return code {} ends as {}", code, st));
    }
    let neg: Vec<f64> = s.mult_g.iter().map(|v| -v).collect();
    if sol.x != s.x || sol.pi != s.zl || sol.mu != s.zu || sol.lam != &neg[..na] || sol.nu != &neg[na..] {
        return ctx.fail("solution", "the reported solution is not the one of the library".to_string());
    }
    ctx.count("large_cases");
}

pub fn c24(ctx: &mut Ctx) {
    if !cfg!(miri) && numopt_mon::p_big::large(ctx, 0) {
        return large(ctx, 0);
    }
    let k = ctx.rng.us(1, if cfg!(miri) { 10 } else { 40 });
    let rounds = ctx.rng.us(1, 2);
    let scale = *ctx.rng.pick(&[1., 1., 1., 1., 1e160]);
    if !cfg!(miri) && ctx.rng.chance(0.3) {
        // a problem that comes from a model
        let cfg = ModelCfg {
            max_vars: 4,
            max_cons: 5,
            max_ops: 12,
            p_int: 0.,
            linear: ctx.rng.chance(0.3),
            bounds: 0.3,
            p_dup: 0.1,
            names: NameStyle::Plain,
        };
        let g = gen_model(&mut ctx.rng, &cfg);
        ctx.desc = format!("from a model: {}", g.spec.show());
        let built = match guarded(|| g.spec.build()) {
            Ok(b) => b,
            Err(_) => return,
        };
        let mut b = built;
        let rng = RefCell::new(ctx.rng.clone());
        let out: RefCell<Vec<(Lib, Script, Vec<Ref>, usize, usize, usize)>> = RefCell::new(vec![]);
        let stub = Stub::new(Box::new(|p: &mut Problem| {
            let (n, m) = match dims(p) {
                Some(d) if d.0 > 0 => d,
                _ => return Err(simple_error::SimpleError::new("nothing to solve")),
            };
            let d = std_data(p);
            let na = d.b.len();
            let mut sol = ProblemSol::new(n, na, m - na);
            for _ in 0..rounds {
                let s = gen_script(&mut rng.borrow_mut(), n, m, k);
                let refs: Vec<Ref> = s.points.iter().map(|x| reference_of(p, &d, x)).collect();
                load(s.clone());
                let r = SolverIpopt::new().solve(p);
                let lib = take_lib();
                out.borrow_mut().push((lib, s, refs, n, m, na));
                if let Ok((_, z)) = r {
                    sol = z;
                }
            }
            Ok((SolverStatus::Unknown, sol))
        }));
        let r = guarded(|| b.model.solve(&stub).is_ok());
        drop(stub);
        if let Err(e) = r {
            ctx.fail("panic", e);
            return;
        }
        for (lib, s, refs, n, m, na) in out.into_inner() {
            ctx.count("solves_of_models");
            observe(ctx, &lib);
            if lib.recs.is_empty() {
                ctx.count("not_created");
            }
            if let Some(b) = lib.breaches.first() {
                ctx.fail("breach", b.clone());
            }
            if let Some((sig, msg)) = check_replies(&lib, &s, &refs, n, m, na) {
                ctx.fail(sig, msg);
            }
        }
        return;
    }
    let mut c = gen_case(&mut ctx.rng);
    if scale > 1. {
        for t in c.phi.iter_mut().chain(c.f.iter_mut().flatten()) {
            if t.kind >= 2 && ctx.rng.chance(0.3) {
                t.c *= scale;
            }
        }
    }
    let (n, na) = (c.n, c.b.len());
    let m = na + c.f.len();
    ctx.desc = if cfg!(miri) { format!("n {} na {}", n, na) } else { format!("n {} na {} nf {} phi {:?} f {:?} a {:?} jp {:?} hp {:?} hk {:?}", n, na, c.f.len(), c.phi, c.f, c.a, c.jp, c.hp, c.hk) };
    let mut p = match guarded(|| build_problem(&c)) {
        Ok(p) => p,
        Err(e) => {
            ctx.fail("panic", e);
            return;
        }
    };
    let solver = SolverIpopt::new();
    for round in 0..rounds {
        if ctx.rng.chance(0.3) {
            // evaluations between solves
            let x: Vec<f64> = (0..n).map(|_| ctx.rng.uniform(-2., 2.)).collect();
            let nu: Vec<f64> = (0..c.f.len()).map(|_| ctx.rng.constant()).collect();
            let q = match &mut p {
                Problem::Lp(q) => q.as_mut_nlp(),
                Problem::Nlp(q) => q,
                _ => unreachable!(),
            };
            q.evaluate(&x);
            q.combine_h(&nu);
        }
        let s = gen_script(&mut ctx.rng, n, m, k);
        let refs: Vec<Ref> = s.points.iter().map(|x| reference(&c, x)).collect();
        load(s.clone());
        let r = guarded(|| solver.solve(&mut p).is_ok());
        let lib = take_lib();
        if let Err(e) = r {
            ctx.fail("panic", e);
            return;
        }
        if lib.recs.is_empty() {
            ctx.count("not_created");
            continue;
        }
        ctx.count(if c.lp { "solves_lp" } else { "solves_nlp" });
        observe(ctx, &lib);
        if let Some(b) = lib.breaches.first() {
            ctx.fail("breach", b.clone());
            return;
        }
        if lib.replies.len() != s.steps.len() {
            ctx.fail("not-solved", format!("round {}: {} of {} requests", round, lib.replies.len(), s.steps.len()));
            return;
        }
        if let Some((sig, msg)) = check_replies(&lib, &s, &refs, n, m, na) {
            ctx.fail(sig, format!("round {}: {}", round, msg));
            return;
        }
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

// ------------------------------------------------------------------ C25

pub fn c25(ctx: &mut Ctx) {
    let mut c = gen_case(&mut ctx.rng);
    let rng = &mut ctx.rng;
    let d = *rng.pick(&[-3, -1, 1, 2, 40]);
    let k = *rng.pick(&[0usize, 1, 2, 3, 7, 60]);
    let wild = rng.chance(0.5);
    c.hostile = if c.lp {
        Hostile::No
    } else {
        match rng.below(9) {
            0 => Hostile::Gphi(d),
            1 => Hostile::F(d),
            2 => Hostile::H(d),
            3 => Hostile::J(k, wild),
            4 => Hostile::Hphi(k, wild),
            5 => Hostile::Hk(k, wild),
            6 => Hostile::Shift,
            7 => Hostile::J(c.jp.len(), wild),
            _ => Hostile::No,
        }
    };
    c.when = rng.range(1, 8);
    // entries outside of the matrices
    let mut outside = false;
    let far = *rng.pick(&[0usize, 1, 5, 1 << 20]);
    let (n, na, nf) = (c.n, c.b.len(), c.f.len());
    if rng.chance(0.25) && c.hostile == Hostile::No {
        let row = rng.chance(0.5);
        let (p, rows) = match rng.below(4) {
            0 => (Some(&mut c.a), na),
            1 => (Some(&mut c.jp), nf),
            2 => (Some(&mut c.hp), n),
            _ => (c.hk.first_mut(), n),
        };
        if let Some(p) = p {
            if !p.is_empty() {
                let q = rng.below(p.len());
                if row {
                    p[q].0 = rows + far;
                } else {
                    p[q].1 = n + far;
                }
                outside = !c.lp || !c.a.is_empty();
            }
        }
    }
    ctx.desc = if cfg!(miri) { format!("n {} na {} nf {} lp {} hostile {:?} at evaluation {}", n, na, nf, c.lp, c.hostile, c.when) } else { format!(
        "n {} na {} nf {} lp {} hostile {:?} at evaluation {} a {:?} jp {:?} hp {:?} hk {:?}",
        n, na, nf, c.lp, c.hostile, c.when, c.a, c.jp, c.hp, c.hk
    ) };
    let m = na + nf;
    let mut p = match guarded(|| build_problem(&c)) {
        Ok(p) => p,
        Err(_) if outside => {
            ctx.count("problem_refused");
            return;
        }
        Err(e) => {
            ctx.fail("panic", e);
            return;
        }
    };
    let rounds = ctx.rng.us(1, 3);
    for _ in 0..rounds {
        let steps = ctx.rng.us(0, if cfg!(miri) { 12 } else { 30 });
        if ctx.rng.chance(0.15) {
            let x: Vec<f64> = vec![0.5; n];
            let q = match &mut p {
                Problem::Lp(q) => q.as_mut_nlp(),
                Problem::Nlp(q) => q,
                _ => unreachable!(),
            };
            if guarded(|| q.evaluate(&x)).is_err() {
                ctx.count("evaluation_refused");
            }
        }
        // the problem may have another size by now
        let (n, m) = dims(&p).unwrap_or((n, m));
        let mut s = gen_script(&mut ctx.rng, n.max(1), m, steps);
        s.refuse_create = ctx.rng.chance(0.08);
        if ctx.rng.chance(0.15) {
            s.refuse_option = Some(ctx.rng.pick(&["print_level", "sb"]).to_string());
        }
        let mut solver = SolverIpopt::new();
        let mut bad_str = false;
        if ctx.rng.chance(0.3) {
            let v = ctx.rng.pick(&["yes", "no", "", "\0", "y\0es", "n\u{e9}", "a longer value than usual, with spaces"]).to_string();
            bad_str = v.contains('\0');
            let _ = solver.set_param("sb", SolverParam::StrParam(v));
        }
        if ctx.rng.chance(0.2) {
            let v = *ctx.rng.pick(&[0, 12, -1, i32::MIN, i32::MAX]);
            let _ = solver.set_param("print_level", SolverParam::IntParam(v));
        }
        load(s.clone());
        let r = guarded(|| solver.solve(&mut p).map(|(st, z)| (format!("{}", st), z)).map_err(|e| format!("{}", e)));
        let lib = take_lib();
        observe(ctx, &lib);
        ctx.add("created", lib.recs.len() as u64);
        ctx.add("released", lib.recs.iter().map(|r| r.freed as u64).sum());
        if let Some(e) = released(&lib) {
            ctx.fail("not-released-once", e);
            return;
        }
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("panic", e);
                return;
            }
        };
        let solves: usize = lib.recs.iter().map(|r| r.solves).sum();
        match &r {
            Ok((_, z)) => {
                ctx.count("ended_with_status");
                if s.silent {
                    ctx.count("unwritten");
                }
                // reads every reported value
                let read = [&z.x, &z.lam, &z.nu, &z.mu, &z.pi].iter().map(|v| v.iter().filter(|a| **a != 0.).count()).sum::<usize>();
                ctx.add("values_read", read as u64);
                if solves != 1 {
                    ctx.fail("status-without-solve", format!("{} solves", solves));
                }
                if bad_str || s.refuse_option.is_some() || s.refuse_create {
                    ctx.fail("no-error", format!("{:?} {:?} {:?} ended with a status", bad_str, s.refuse_option, s.refuse_create));
                }
                if outside {
                    ctx.fail("no-error", "a problem with entries outside of its matrices was solved".to_string());
                }
            }
            Err(_) => {
                ctx.count("ended_with_error");
                if s.refuse_create {
                    ctx.count("create_refused");
                }
                if s.refuse_option.is_some() || bad_str {
                    ctx.count("option_refused");
                }
            }
        }
        if outside {
            ctx.count("outside");
        }
    }
    ctx.count(&format!("hostile_{}", format!("{:?}", c.hostile).split('(').next().unwrap_or("")));
    let d = ctx.desc.clone();
    ctx.sample(d);
}

// ------------------------------------------------------------------ C26 (values that arrive)

pub fn c26(ctx: &mut Ctx) {
    let mut c = gen_case(&mut ctx.rng);
    if c.a.is_empty() && c.jp.is_empty() {
        // the library takes no rows without entries
        c.b.clear();
        c.f.clear();
        c.hk.clear();
    }
    let mut solvers: Vec<(SolverIpopt, i32, String)> = (0..ctx.rng.us(1, 3)).map(|_| (SolverIpopt::new(), 5, "no".to_string())).collect();
    let k = ctx.rng.us(1, 12);
    let mut p = build_problem(&c);
    let (n, m) = dims(&p).unwrap();
    let mut hist = String::new();
    for _ in 0..k {
        let w = ctx.rng.below(solvers.len());
        match ctx.rng.below(5) {
            0 => {
                let v = *ctx.rng.pick(&[0, 1, 5, 12, -7, i32::MIN, i32::MAX]);
                let s = &mut solvers[w];
                hist.push_str(&format!("{}.print_level={} ", w, v));
                if s.0.set_param("print_level", SolverParam::IntParam(v)).is_ok() {
                    s.1 = v;
                } else {
                    ctx.fail("refused", format!("print_level {}: {}", v, hist));
                }
            }
            1 => {
                let v = ctx.rng.pick(&["yes", "no", "", "x y", "n\u{e9}", "YES"]).to_string();
                let s = &mut solvers[w];
                hist.push_str(&format!("{}.sb={:?} ", w, v));
                if s.0.set_param("sb", SolverParam::StrParam(v.clone())).is_ok() {
                    s.2 = v;
                } else {
                    ctx.fail("refused", format!("sb {:?}: {}", v, hist));
                }
            }
            2 => {
                let name = *ctx.rng.pick(&["print_level", "sb", "tol", "logLevel", "Print_level", "sb ", ""]);
                let v = match ctx.rng.below(3) {
                    0 if name != "print_level" => SolverParam::IntParam(3),
                    1 if name != "sb" => SolverParam::StrParam("yes".to_string()),
                    _ => SolverParam::FloatParam(1.5),
                };
                hist.push_str(&format!("{}.{}=wrong ", w, name));
                if solvers[w].0.set_param(name, v).is_ok() {
                    ctx.fail("accepted", hist.clone());
                }
            }
            _ => {
                let s = gen_script(&mut ctx.rng, n, m, 0);
                load(s);
                let r = guarded(|| solvers[w].0.solve(&mut p).is_ok());
                let lib = take_lib();
                if r.is_err() {
                    ctx.fail("panic", r.unwrap_err());
                    return;
                }
                hist.push_str(&format!("{}.solve ", w));
                if lib.recs.is_empty() {
                    ctx.count("not_created");
                    continue;
                }
                ctx.count("options_seen_by_ipopt");
                let rec = &lib.recs[0];
                let want_i = vec![("print_level".to_string(), solvers[w].1)];
                let want_s = vec![("sb".to_string(), solvers[w].2.clone())];
                if rec.ints != want_i || rec.strs != want_s {
                    ctx.fail("other-value", format!("{}: Ipopt got {:?} {:?}", hist, rec.ints, rec.strs));
                }
            }
        }
    }
    ctx.seen(hash_str(&hist));
    ctx.sample(hist);
}

// ------------------------------------------------------------------ C27

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}

pub fn c27(ctx: &mut Ctx) {
    if !cfg!(miri) && numopt_mon::p_big::large(ctx, 0) {
        return large(ctx, 2);
    }
    let c = gen_case(&mut ctx.rng);
    let (n, na, nf) = (c.n, c.b.len(), c.f.len());
    let m = na + nf;
    ctx.desc = format!("n {} na {} nf {} lp {} l {:?} u {:?} x0 {:?}", n, na, nf, c.lp, c.l, c.u, c.x0);
    let mut p = match guarded(|| build_problem(&c)) {
        Ok(p) => p,
        Err(e) => {
            ctx.fail("panic", e);
            return;
        }
    };
    let solver = SolverIpopt::new();
    for _ in 0..ctx.rng.us(1, 3) {
        let k = ctx.rng.us(0, 6);
        let mut s = gen_script(&mut ctx.rng, n, m, k);
        let rng = &mut ctx.rng;
        // values near limits or of other sizes, as iterative solvers leave them
        if rng.chance(0.5) {
            for i in 0..n {
                if rng.chance(0.6) {
                    let b = if rng.chance(0.5) { c.l[i] } else { c.u[i] };
                    let e = *rng.pick(&[0., 1e-15, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]);
                    s.x[i] = if rng.chance(0.5) { b + e * b.abs().max(1.) } else { b - e * b.abs().max(1.) };
                }
            }
            for v in s.mult_g.iter_mut().chain(s.zl.iter_mut()).chain(s.zu.iter_mut()) {
                *v *= *rng.pick(&[1., 1e-3, 1e-5, 1e-7, 1e-9, 1e-12, 1e-16, 1e6, 1e12]);
            }
        }
        load(s.clone());
        soil(&[n, m]);
        let r = guarded(|| solver.solve(&mut p).map_err(|e| format!("{}", e)));
        let lib = take_lib();
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                ctx.fail("panic", e);
                return;
            }
        };
        if let Some(b) = lib.breaches.first() {
            ctx.fail("breach", b.clone());
            return;
        }
        if m > 0 && c.a.len() + c.jp.len() == 0 {
            // the library does not take rows without entries
            ctx.count("not_created");
            if r.is_ok() {
                ctx.fail("no-error", "no problem was created".to_string());
            }
            continue;
        }
        let (status, sol) = match r {
            Ok(x) => x,
            Err(e) => {
                ctx.fail("error", e);
                return;
            }
        };
        if lib.recs.len() != 1 || lib.recs[0].solves != 1 {
            ctx.fail("calls", format!("{} problems", lib.recs.len()));
            return;
        }
        let rec = &lib.recs[0];
        let zeros = vec![0.; m];
        let start = c.x0.clone().unwrap_or(vec![0.; n]);
        let (ej, eh) = ((c.a.len() + c.jp.len()) as i64, (c.hp.len() + c.hk.iter().map(|h| h.len()).sum::<usize>()) as i64);
        let zero = |v: &[f64]| v.len() == m && v.iter().zip(&zeros).all(|(a, b)| a == b);
        let checks = [
            ("dimensions", rec.n == n && rec.m == m),
            ("variable-limits", same(&rec.l, &c.l) && same(&rec.u, &c.u)),
            ("constraint-limits", zero(&rec.gl) && zero(&rec.gu)),
            ("entry-counts", rec.nnzj == ej && rec.nnzh == eh),
            ("index-style", rec.style == 0),
            ("initial-point", rec.start.as_ref().map_or(false, |v| same(v, &start))),
            ("final-point", s.silent || same(&sol.x, &s.x)),
            ("limit-multipliers", s.silent || same(&sol.pi, &s.zl) && same(&sol.mu, &s.zu)),
            (
                "unwritten",
                !s.silent
                    || sol.x.len() == n
                        && sol.x.iter().zip(start.iter()).all(|(a, b)| a == b || *a == 0. || a.is_nan() && a.to_bits() != CANARY)
                        && [&sol.lam, &sol.nu, &sol.pi, &sol.mu].iter().all(|v| v.iter().all(|a| *a == 0. || a.is_nan() && a.to_bits() != CANARY)),
            ),
            (
                "multipliers",
                s.silent
                    || sol.lam.len() == na
                    && sol.nu.len() == nf
                    && sol.lam.iter().chain(sol.nu.iter()).zip(&s.mult_g).all(|(a, b)| *a == -*b || (a.is_nan() && b.is_nan())),
            ),
            (
                "status",
                match s.code {
                    0 | 1 => status == SolverStatus::Solved,
                    2 => status == SolverStatus::Infeasible,
                    _ => status != SolverStatus::Solved && status != SolverStatus::Infeasible,
                },
            ),
        ];
        for (name, ok) in checks.iter() {
            if !ok {
                ctx.fail(
                    name,
                    format!(
                        "{}: given n {} m {} l {:?} u {:?} g {:?} {:?} nnz {} {} style {} start {:?}; Ipopt ended with {} x {:?} mult {:?} {:?} {:?}; reported {:?} x {:?} lam {:?} nu {:?} pi {:?} mu {:?}",
                        name, rec.n, rec.m, rec.l, rec.u, rec.gl, rec.gu, rec.nnzj, rec.nnzh, rec.style, rec.start, s.code, s.x, s.mult_g, s.zl, s.zu, status, sol.x, sol.lam, sol.nu, sol.pi, sol.mu
                    ),
                );
                return;
            }
        }
        ctx.count("solves");
        if s.silent {
            ctx.count("unwritten");
        }
        ctx.count(match s.code {
            0 | 1 => "code_success",
            2 => "code_infeasible",
            _ => "code_other",
        });
        ctx.seen(hash_str(&format!("{} {} {} {} {}", n, na, nf, s.code, c.x0.is_some())));
        observe_codes(ctx, s.code);
    }
    let d = ctx.desc.clone();
    ctx.sample(d);
}

fn observe_codes(ctx: &mut Ctx, code: i32) {
    thread_local! {
        static CODES: RefCell<HashMap<i32, ()>> = RefCell::new(HashMap::new());
    }
    let n = CODES.with(|c| {
        let mut c = c.borrow_mut();
        c.insert(code, ());
        c.len()
    });
    ctx.max("distinct_return_codes", n as u64);
}

const PROPS: &[Prop] = &[
    Prop { id: "C24", quick: 200000, thorough: 2000000, f: c24 },
    Prop { id: "C25", quick: 60000, thorough: 3000000, f: c25 },
    Prop { id: "C26", quick: 20000, thorough: 1000000, f: c26 },
    Prop { id: "C27", quick: 300000, thorough: 3000000, f: c27 },
];

fn main() {
    let _ = ProblemMilp::new;
    let args = parse_args();
    if cfg!(miri) {
        std::process::exit(run(PROPS, &args));
    }
    std::process::exit(big_stack(move || run(PROPS, &args)));
}
