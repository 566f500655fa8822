//! A solver written by the harness: sees the problem it is given and answers as told.

use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use std::cell::RefCell;
use std::collections::HashMap;

use crate::core::guarded;
use crate::spec::{Built, StdData};

pub type Answer<'a> = Box<dyn FnMut(&mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> + 'a>;

pub struct Stub<'a> {
    pub params: HashMap<String, SolverParam>,
    pub f: RefCell<Answer<'a>>,
}

impl<'a> Stub<'a> {
    pub fn new(f: Answer<'a>) -> Stub<'a> {
        Stub { params: HashMap::new(), f: RefCell::new(f) }
    }
}

impl<'a> Solver for Stub<'a> {
    fn get_params(&self) -> &HashMap<String, SolverParam> {
        &self.params
    }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> {
        &mut self.params
    }
    fn solve(&self, problem: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        (self.f.borrow_mut())(problem)
    }
}

pub fn dims(p: &Problem) -> (usize, usize, usize) {
    match p {
        Problem::Lp(q) => (q.nx(), q.na(), 0),
        Problem::Milp(q) => (q.nx(), q.na(), 0),
        Problem::Nlp(q) => (q.nx(), q.na(), q.nf()),
        Problem::Minlp(q) => (q.nx(), q.na(), q.nf()),
    }
}

/// Solves with a solver that gives every limit of column i the duals 1000 + i and 2000 + i.
pub fn solve_with_unique_duals(b: Built, d: &StdData) -> Result<(Built, Vec<f64>, Vec<f64>), String> {
    let mut b = b;
    let mu: Vec<f64> = (0..d.nx).map(|i| 1000. + i as f64).collect();
    let pi: Vec<f64> = (0..d.nx).map(|i| 2000. + i as f64).collect();
    let (m, p) = (mu.clone(), pi.clone());
    let nx = d.nx;
    let stub = Stub::new(Box::new(move |prob| {
        let (n, na, nf) = dims(prob);
        if n != nx {
            return Err(SimpleError::new("columns differ between two conversions of the same model"));
        }
        let mut s = ProblemSol::new(n, na, nf);
        s.mu = m.clone();
        s.pi = p.clone();
        Ok((SolverStatus::Solved, s))
    }));
    match guarded(|| b.model.solve(&stub)) {
        Ok(Ok(())) => {
            drop(stub);
            Ok((b, mu, pi))
        }
        Ok(Err(e)) => Err(format!("solve failed: {}", e)),
        Err(e) => Err(e),
    }
}
