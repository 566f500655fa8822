pub mod alloc;
pub mod core;
pub mod expr;
pub mod json;
pub mod lp;
pub mod p_big;
pub mod p_expr;
pub mod p_hist;
pub mod p_ident;
pub mod p_lp;
pub mod p_proc;
pub mod p_res;
pub mod p_sol;
pub mod p_std;
pub mod p_cmd;
pub mod p_real;
pub mod p_map;
pub mod p_model;
pub mod p_prob;
pub mod p_text;
pub mod rng;
pub mod spec;
pub mod stub;
pub mod sys;
