From 3c2413b56c50216af0acecd8560d45e410cfe28e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 01/19] fix: collapse a sum that is left with a single term

Adding a constant that cancels the constant of a sum of one other term
(e.g. x + 1 - 1) called FunctionAdd::new with one argument, which panics.
---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..f3507b9 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From 373eded912339b42f10c103e02a2b310fbcf285e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 02/19] fix: derivative of a quotient of identical nodes

The chain rule visits both arguments of u/u. The partial with respect to u
returned 1/u for each, which gave 2/u instead of zero.
---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..f6b9ab0 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.); // arg/arg
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From 8b7298c356ca818375e475bba51427751e84068b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 03/19] fix: products and quotients with a non-affine constant
 factor are not affine

A factor without variables that is not affine itself, such as the cosine of
a constant, was taken to have the value of its (meaningless) offset.
---
 src/model/function/div.rs | 2 +-
 src/model/function/mul.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index f6b9ab0..c49e55c 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -58,7 +58,7 @@ impl NodeStd for FunctionDiv {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = p0.affine && p1.a.is_empty();
+        let affine = p0.affine && p1.affine && p1.a.is_empty();
         let b = p0.b/p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
diff --git a/src/model/function/mul.rs b/src/model/function/mul.rs
index 29d4c37..3199ca3 100644
--- a/src/model/function/mul.rs
+++ b/src/model/function/mul.rs
@@ -55,8 +55,8 @@ impl NodeStd for FunctionMul {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = (p0.affine && p1.a.is_empty()) || 
-                     (p1.affine && p0.a.is_empty());
+        let affine = p0.affine && p1.affine && 
+                     (p0.a.is_empty() || p1.a.is_empty());
         let b = p0.b*p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
-- 
2.43.0


From 82aef370c740dfc59d5acb6f0109a47fa49dcaf9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 04/19] fix: violation of an inequality with an undefined side

f64::max ignores NaN, so an inequality whose sides cannot be evaluated was
reported as satisfied. Equalities already gave NaN.
---
 src/model/constraint.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/model/constraint.rs b/src/model/constraint.rs
index 10ee986..8c9d9db 100644
--- a/src/model/constraint.rs
+++ b/src/model/constraint.rs
@@ -59,17 +59,13 @@ impl Constraint {
 
     /// Computes constraint violation given variable values.
     pub fn violation(&self, var_values: &HashMap<&Node, f64>) -> f64 {
-        match self.0.kind {
-            ConstraintKind::Equal => { 
-                (self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values)).abs()
-            },
-            ConstraintKind::LessEqual => { 
-                0_f64.max(self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values))
-            },
-            ConstraintKind::GreaterEqual => {
-                0_f64.max(self.0.rhs.evaluate(var_values)-self.0.lhs.evaluate(var_values))
-            },
-        }
+        let diff = self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values);
+        let viol = match self.0.kind {
+            ConstraintKind::Equal => diff.abs(),
+            ConstraintKind::LessEqual => diff,
+            ConstraintKind::GreaterEqual => -diff,
+        };
+        if viol <= 0. { 0. } else { viol } // NaN if undefined
     }
 }
 
-- 
2.43.0


From e607810eb6796596376bb6529b104c772e8014c4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 05/19] fix: check the lengths of the cost vector and the
 initial point

Problems with a cost vector or an initial point of the wrong length were
accepted, and failed or lost terms later on.
---
 src/problem/milp.rs  | 1 +
 src/problem/minlp.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/problem/milp.rs b/src/problem/milp.rs
index 0bf57e8..76fbdb8 100644
--- a/src/problem/milp.rs
+++ b/src/problem/milp.rs
@@ -54,6 +54,7 @@ impl ProblemMilp {
             gphi.copy_from_slice(&c);
         });
         let nx = a.cols();
+        assert_eq!(cc.len(), nx);
         let base = ProblemMinlp::new(CooMat::from_nnz((nx, nx), 0), // Hphi
                                      a, 
                                      b,
diff --git a/src/problem/minlp.rs b/src/problem/minlp.rs
index bbd6c3e..9b1d03e 100644
--- a/src/problem/minlp.rs
+++ b/src/problem/minlp.rs
@@ -75,6 +75,10 @@ impl ProblemMinlp {
 
         assert_eq!(p.len(), nx);
 
+        if let Some(x) = &x0 {
+            assert_eq!(x.len(), nx);
+        }
+
         let mut k: usize = 0;
         let hcomb_nnz = h.iter().map(|h| h.nnz()).sum();
         let mut hcomb = CooMat::from_nnz((nx, nx), hcomb_nnz);
-- 
2.43.0


From 043d20cf13bf84ecd9c36a042ef63a78ea7db66d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 06/19] fix: rows of the nonlinear Jacobian in the Ipopt
 interface

Constraint values are linear rows followed by nonlinear ones, but the
nonlinear entries of the Jacobian were announced in the rows of the linear
ones, so problems with both got a wrong Jacobian.
---
 src/solver/ipopt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..0ba63c8 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -266,7 +266,7 @@ extern fn eval_jac_g_cb(n: c_int,
                 k += 1;
             }
             for (row, col, _val) in p.j().iter() {
-                *irow.add(k) = row.to_i32().unwrap();
+                *irow.add(k) = (p.na()+*row).to_i32().unwrap();
                 *jcol.add(k) = col.to_i32().unwrap();
                 k += 1;
             }
-- 
2.43.0


From 9e2c1c281973005c1683164576388180b5a854d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 07/19] fix: Hessian of the Lagrangian in the Ipopt interface

The combined constraint Hessian was only recomputed when the multipliers were
flagged as new, so it was stale after a change of the point alone, and values
were not written at all when neither the point nor the multipliers were new.
---
 src/solver/ipopt.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 0ba63c8..d748c2a 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -298,7 +298,7 @@ extern fn eval_h_cb(n: c_int,
                     obj_factor: c_double, 
                     m: c_int,
                     lambda: *const c_double,
-                    new_lambda: c_int,
+                    _new_lambda: c_int,
                     nele_hess: c_int,
                     irow: *mut c_int,
                     jcol: *mut c_int,
@@ -344,23 +344,23 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
+            // Combine always since x may have changed (even in an earlier callback)
+            // without a change in lambda
+            if p.nf() > 0 {
                 if lambda.is_null() {
                     return cipopt::FALSE;
                 }
                 p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
+            }
         }
     };
     cipopt::TRUE
-- 
2.43.0


From c2129835b10cee1998e1591da0e37e4c77e9e9c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 08/19] fix: release the Ipopt problem when an option is
 refused

The early returns for bad options left the created problem allocated, and an
option string with an embedded NUL caused a panic instead of an error.
---
 src/solver/ipopt.rs | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index d748c2a..8468ff9 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -60,6 +60,18 @@ impl Solver for SolverIpopt {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameter print_level
+        let print_level: &i32 = match self.get_param("print_level") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        };
+
+        // Parameter sb
+        let sb: &str = match self.get_param("sb") {
+            Some(SolverParam::StrParam(s)) => s.as_ref(),
+            _ => return Err(SimpleError::new("unable to get parameter sb"))
+        };
+
         // Init
         let n: c_int = p.nx().to_i32().unwrap();
         let m: c_int = (p.na() + p.nf()).to_i32().unwrap();
@@ -88,19 +100,17 @@ impl Solver for SolverIpopt {
             return Err(SimpleError::new("failed to create ipopt problem"))
         }
 
-        // Parameter print_level
-        let print_level: &i32 = match self.get_param("print_level") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
-        };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
-
-        // Parameter sb
-        let sb: &str = match self.get_param("sb") {
-            Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
+        // Options
+        let options = unsafe {
+            add_int_option(cprob, "print_level", *print_level)
+                .and_then(|_| add_str_option(cprob, "sb", sb))
         };
-        unsafe { add_str_option(cprob, "sb", sb)? };
+        if options.is_err() {
+            unsafe {
+                cipopt::FreeIpoptProblem(cprob);
+            };
+            return Err(options.unwrap_err());
+        }
         
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
@@ -384,7 +394,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(s) => s,
+        Err(_e) => return Err(SimpleError::new(format!("invalid value of parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0


From b99c8dfe16dc86be6253f28f65be83790ea543ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 09/19] fix: refuse matrix entries outside of their matrix in
 the Ipopt interface

Entry positions are not checked by CooMat, and were passed on to Ipopt, which
uses them to index its buffers.
---
 src/solver/ipopt.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 8468ff9..5d643c2 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -16,6 +16,7 @@ mod cipopt;
 use crate::solver::base::{Solver, 
                           SolverParam,
                           SolverStatus};
+use crate::matrix::coo::CooMat;
 use crate::problem::base::{Problem, ProblemSol};
 use crate::problem::nlp::ProblemNlp;
 
@@ -72,6 +73,14 @@ impl Solver for SolverIpopt {
             _ => return Err(SimpleError::new("unable to get parameter sb"))
         };
 
+        // Check positions of matrix entries
+        if !(valid_inds(p.a(), p.na(), p.nx()) &&
+             valid_inds(p.j(), p.nf(), p.nx()) &&
+             valid_inds(p.hphi(), p.nx(), p.nx()) &&
+             valid_inds(p.hcomb(), p.nx(), p.nx())) {
+            return Err(SimpleError::new("matrix entry outside of matrix"))
+        }
+
         // Init
         let n: c_int = p.nx().to_i32().unwrap();
         let m: c_int = (p.na() + p.nf()).to_i32().unwrap();
@@ -164,6 +173,10 @@ impl Solver for SolverIpopt {
     }
 }
 
+fn valid_inds(mat: &CooMat<f64>, rows: usize, cols: usize) -> bool {
+    mat.iter().all(|(row, col, _val)| *row < rows && *col < cols)
+}
+
 extern fn eval_f_cb(n: c_int, 
                     x: *const c_double, 
                     new_x: c_int, 
-- 
2.43.0


From e91467132632f2329118541997f6f0a9608da4fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 10/19] fix: check sizes after user evaluations in the Ipopt
 interface

The evaluation function gets mutable vectors and matrices and may resize them.
Sizes were checked before the evaluation only, so values were copied from or
to memory outside of the buffers.
---
 src/solver/ipopt.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 5d643c2..77b1adb 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -83,7 +83,8 @@ impl Solver for SolverIpopt {
 
         // Init
         let n: c_int = p.nx().to_i32().unwrap();
-        let m: c_int = (p.na() + p.nf()).to_i32().unwrap();
+        let nf = p.nf();
+        let m: c_int = (p.na() + nf).to_i32().unwrap();
         let glu: Vec<f64> = vec![0.; p.na()+p.nf()];
         let nnzj: c_int = (p.a().nnz() + p.j().nnz()).to_i32().unwrap();
         let nnzh: c_int = (p.hphi().nnz() + p.hcomb().nnz()).to_i32().unwrap();
@@ -153,12 +154,12 @@ impl Solver for SolverIpopt {
         else if cstatus == 2 {
             status = SolverStatus::Infeasible;
         }  
-        let mut solution = ProblemSol::new(p.nx(), p.na(), p.nf()); 
+        let mut solution = ProblemSol::new(p.nx(), p.na(), nf); 
         solution.x.copy_from_slice(&x);
         for k in 0..p.na() {
             solution.lam[k] = -lamnu[k];
         }
-        for k in p.na()..(p.na()+p.nf()) {
+        for k in p.na()..(p.na()+nf) {
             solution.nu[k-p.na()] = -lamnu[k];
         }
         solution.pi.copy_from_slice(&pi);
@@ -216,6 +217,9 @@ extern fn eval_grad_f_cb(n: c_int,
         if new_x == cipopt::TRUE {
             p.evaluate(slice::from_raw_parts(x, p.nx()));
         }
+        if p.gphi().len() != p.nx() {
+            return cipopt::FALSE;
+        }
         ptr::copy(p.gphi().as_ptr(), grad_f, p.nx());
     };
     cipopt::TRUE
@@ -244,6 +248,9 @@ extern fn eval_g_cb(n: c_int,
         if new_x == cipopt::TRUE {
             p.evaluate(&xx);
         }
+        if m.to_usize() != Some(p.na()+p.nf()) {
+            return cipopt::FALSE;
+        }
         let ax = p.a()*xx.to_vec();
         let axmb = &ArrayView1::from(&ax)-&ArrayView1::from(p.b());
         ptr::copy(axmb.as_slice().unwrap().as_ptr(), g, p.na());
@@ -301,6 +308,9 @@ extern fn eval_jac_g_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
+            if nele_jac.to_usize() != Some(p.a().nnz()+p.j().nnz()) {
+                return cipopt::FALSE;
+            }
             let mut k: usize = 0;
             for (_row, _col, val) in p.a().iter() {
                 *values.add(k) = *val; 
@@ -367,6 +377,11 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
+            if m.to_usize() != Some(p.na()+p.nf()) || 
+               nele_hess.to_usize() != Some(p.hphi().nnz()+p.hcomb().nnz()) ||
+               p.hcomb().nnz() != p.h().iter().map(|h| h.nnz()).sum() {
+                return cipopt::FALSE;
+            }
             // Combine always since x may have changed (even in an earlier callback)
             // without a change in lambda
             if p.nf() > 0 {
-- 
2.43.0


From fda731e1feda3192fc05c6c42b7c887568656706 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 11/19] fix: read solution files of current versions of clp

Since 1.17, clp writes the status and the objective value on one line like
cbc. Such files gave an error status, or lost their first result.
---
 src/solver/cbc_cmd.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..b011098 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -66,16 +66,10 @@ impl SolverCbcCmd {
         r.read_line(&mut line)?;
         match line.split_ascii_whitespace().next() {
             Some(s) => {
-                if !cbc && s == "optimal" {
+                if s == "Optimal" || (!cbc && s == "optimal") {
                     status = SolverStatus::Solved;
                 }
-                else if !cbc && s == "infeasible" {
-                    status = SolverStatus::Infeasible;
-                }
-                else if cbc && s == "Optimal" {
-                    status = SolverStatus::Solved;
-                }
-                else if cbc && s == "Infeasible" {
+                else if s == "Infeasible" || (!cbc && s == "infeasible") {
                     status = SolverStatus::Infeasible;
                 }
             },
@@ -89,8 +83,8 @@ impl SolverCbcCmd {
             return Ok((status, solution))
         }
 
-        // Objective value
-        if !cbc {
+        // Objective value (separate line in old versions of clp)
+        if !cbc && !line.contains("objective value") {
             r.read_line(&mut line)?;
         }
 
-- 
2.43.0


From 009f333f1e9e8afe54d1ac5906b0b253237d45b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 12/19] fix: report problems without integer-feasible points as
 infeasible

Cbc says "Integer infeasible" for these, which was reported as an error.
---
 src/solver/cbc_cmd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index b011098..ca801f0 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -72,6 +72,9 @@ impl SolverCbcCmd {
                 else if s == "Infeasible" || (!cbc && s == "infeasible") {
                     status = SolverStatus::Infeasible;
                 }
+                else if cbc && line.starts_with("Integer infeasible") {
+                    status = SolverStatus::Infeasible;
+                }
             },
             None => {
                 status = SolverStatus::Error;
-- 
2.43.0


From 3022acbea98066652c3996e30df6e7a073354729 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 13/19] fix: skip the marker of slightly infeasible entries in
 solution files

A line that starts with ** has all of its columns shifted by one.
---
 src/solver/cbc_cmd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index ca801f0..ae3d9c0 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -95,7 +95,9 @@ impl SolverCbcCmd {
         for l in r.lines() {
             line = l?;
             let mut iter = line.split_ascii_whitespace();
-            iter.next();
+            if iter.next() == Some("**") { // infeasible within tolerance
+                iter.next();
+            }
             name = match iter.next() {
                 Some(s) => s.to_string(),
                 None => return Err(e)
-- 
2.43.0


From 00432ab30b50637673e8182eb6e9368b41526a82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 14/19] fix: reject solution files with out-of-range indices

They caused a panic instead of the error returned for other bad files.
---
 src/solver/cbc_cmd.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index ae3d9c0..599cd75 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -121,7 +121,10 @@ impl SolverCbcCmd {
             };
 
             // Variable
-             if dtype == "x" {
+            if dtype == "x" {
+                if index >= p.nx() {
+                    return Err(e);
+                }
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -133,6 +136,9 @@ impl SolverCbcCmd {
 
             // Constraint
             else if dtype == "c" {
+                if index >= p.na() {
+                    return Err(e);
+                }
                 solution.lam[index] = mul;
             }
             else {
-- 
2.43.0


From 5e56dacde66d0cd9e123f2adacf61c64d195be83 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 15/19] fix: reject incomplete solution files

A solution file cut short, for instance by a full disk or a killed solver,
was read as solved with zeros, or with a part of the digits, for the values
that were missing.
---
 src/solver/cbc_cmd.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 599cd75..c6dd6fc 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -91,9 +91,18 @@ impl SolverCbcCmd {
             r.read_line(&mut line)?;
         }
 
+        // Rest (each line is complete only with its end)
+        let mut text = String::new();
+        let status_end = line.ends_with('\n');
+        r.read_to_string(&mut text)?;
+        if !status_end || !(text.is_empty() || text.ends_with('\n')) {
+            return Err(e);
+        }
+
         // Results
-        for l in r.lines() {
-            line = l?;
+        let mut x_given = vec![false; p.nx()];
+        let mut lam_given = vec![false; p.na()];
+        for line in text.lines() {
             let mut iter = line.split_ascii_whitespace();
             if iter.next() == Some("**") { // infeasible within tolerance
                 iter.next();
@@ -110,7 +119,7 @@ impl SolverCbcCmd {
                 Some(s) => match s.parse() { Ok(f) => f, Err(_e) => return Err(e) },
                 None => return Err(e)
             };
-            let mut name_iter = name.split('_');
+            let mut name_iter = name.splitn(2, '_');
             dtype = match name_iter.next() {
                 Some(s) => s.to_string(),
                 None => return Err(e)
@@ -125,6 +134,7 @@ impl SolverCbcCmd {
                 if index >= p.nx() {
                     return Err(e);
                 }
+                x_given[index] = true;
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -139,6 +149,7 @@ impl SolverCbcCmd {
                 if index >= p.na() {
                     return Err(e);
                 }
+                lam_given[index] = true;
                 solution.lam[index] = mul;
             }
             else {
@@ -146,6 +157,11 @@ impl SolverCbcCmd {
             }
         }
 
+        // Incomplete
+        if x_given.contains(&false) || lam_given.contains(&false) {
+            return Err(e);
+        }
+
         Ok((status, solution))
     }
 }
-- 
2.43.0


From 223b32ee13faf4f4f08cb4508ed85fccdcbb07b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 16/19] fix: do not ignore failures of the solver commands

A solver that exits with an error code or is killed by a signal did not
complete, whatever it may have left in the solution file.
---
 src/solver/cbc_cmd.rs | 7 ++++++-
 src/solver/clp_cmd.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index c6dd6fc..86e6537 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -228,7 +228,12 @@ impl Solver for SolverCbcCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..68415b8 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -101,7 +101,12 @@ impl Solver for SolverClpCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
-- 
2.43.0


From 5ee1467ce3c630a554ca12052fe79d3aab9f36fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 17/19] fix: do not leave an lp file behind when logLevel is
 unusable

The parameter was looked up after the file was written, and its error return
did not remove the file.
---
 src/solver/cbc_cmd.rs | 12 ++++++------
 src/solver/clp_cmd.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 86e6537..abcdeaa 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -180,6 +180,12 @@ impl Solver for SolverCbcCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("cbc")
@@ -210,12 +216,6 @@ impl Solver for SolverCbcCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Cbc command
         match Command::new("cbc")
                       .args(&[&input_filename,
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 68415b8..203b945 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -52,6 +52,12 @@ impl Solver for SolverClpCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("clp")
@@ -82,12 +88,6 @@ impl Solver for SolverClpCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Clp command
         match Command::new("clp")
                       .stdout(if *log_level == 0 { Stdio::null() } else { Stdio::inherit() })
-- 
2.43.0


From 9789687097f70720eebd3d6783d6c4a02352ea7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 18/19] fix: dual of a constraint that was added to a model
 twice

Each copy has its own row, and the dual of one of them, which one depending on
the order of a hash map, overwrote the other. Their sum is what certifies
optimality.
---
 src/model/model.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/model/model.rs b/src/model/model.rs
index 7332057..77853ff 100644
--- a/src/model/model.rs
+++ b/src/model/model.rs
@@ -7,7 +7,7 @@ use simple_error::SimpleError;
 use crate::solver::base::{Solver, SolverStatus};
 
 use crate::model::node::Node;
-use crate::model::constraint::Constraint;
+use crate::model::constraint::{Constraint, ConstraintKind};
 use crate::model::model_std::ModelStd;
 
 /// Optimization objective.
@@ -139,18 +139,22 @@ impl Model {
             self.final_primals.insert(var.clone(), solution.x[*index]);
         }
 
-        // Final constr duals
+        // Final constr duals (total if a constraint was added more than once)
         for (index, constr) in std_prob.aindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.lam[*index]);
+            if *constr.kind() == ConstraintKind::Equal { // otherwise slack limit
+                *self.final_duals.entry(constr.clone()).or_insert(0.) += solution.lam[*index];
+            }
         }
         for (index, constr) in std_prob.jindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.nu[*index]);
+            if *constr.kind() == ConstraintKind::Equal { // otherwise slack limit
+                *self.final_duals.entry(constr.clone()).or_insert(0.) += solution.nu[*index];
+            }
         }
         for (index, constr) in std_prob.uindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.mu[*index]);
+            *self.final_duals.entry(constr.clone()).or_insert(0.) += solution.mu[*index];
         }
         for (index, constr) in std_prob.lindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.pi[*index]);
+            *self.final_duals.entry(constr.clone()).or_insert(0.) += solution.pi[*index];
         }
 
         // Done
-- 
2.43.0


From fbcefaf88c4788247e0bd775d54f278c35486b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 19/19] fix: report derivatives that are not finite to ipopt as
 failed evaluations

---
 src/solver/ipopt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 77b1adb..c8e5210 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -178,6 +178,12 @@ fn valid_inds(mat: &CooMat<f64>, rows: usize, cols: usize) -> bool {
     mat.iter().all(|(row, col, _val)| *row < rows && *col < cols)
 }
 
+// Derivatives are not checked by Ipopt, and its linear solvers may
+// crash if they are not finite
+fn valid_vals(values: &[f64]) -> bool {
+    values.iter().all(|val| val.is_finite())
+}
+
 extern fn eval_f_cb(n: c_int, 
                     x: *const c_double, 
                     new_x: c_int, 
@@ -320,6 +326,9 @@ extern fn eval_jac_g_cb(n: c_int,
                 *values.add(k) = *val; 
                 k += 1;
             }   
+            if !valid_vals(slice::from_raw_parts(values, k)) {
+                return cipopt::FALSE;
+            }
         }
     };
     cipopt::TRUE
@@ -399,6 +408,9 @@ extern fn eval_h_cb(n: c_int,
                 *values.add(k) = *val; 
                 k += 1;
             }
+            if !valid_vals(slice::from_raw_parts(values, k)) {
+                return cipopt::FALSE;
+            }
         }
     };
     cipopt::TRUE
-- 
2.43.0

