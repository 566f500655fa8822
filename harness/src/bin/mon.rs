use numopt_mon::core::*;
use numopt_mon::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 160000, thorough: 1500000, f: p_expr::c01 },
    Prop { id: "C02", quick: 120000, thorough: 1500000, f: p_expr::c02 },
    Prop { id: "C03", quick: 240000, thorough: 4000000, f: p_expr::c03 },
    Prop { id: "C04", quick: 240000, thorough: 4000000, f: p_expr::c04 },
    Prop { id: "C05", quick: 160000, thorough: 1500000, f: p_expr::c05 },
    Prop { id: "C06", quick: 160000, thorough: 1500000, f: p_text::c06 },
    Prop { id: "C07", quick: 120000, thorough: 1500000, f: p_ident::c07 },
    Prop { id: "C08", quick: 80000, thorough: 1500000, f: p_model::c08 },
    Prop { id: "C09", quick: 120000, thorough: 1500000, f: p_model::c09 },
    Prop { id: "C10", quick: 200000, thorough: 1500000, f: p_model::c10 },
    Prop { id: "C11", quick: 60000, thorough: 1500000, f: p_model::c11 },
    Prop { id: "C12", quick: 600000, thorough: 6000000, f: p_prob::c12 },
    Prop { id: "C13", quick: 1000000, thorough: 20000000, f: p_prob::c13 },
    Prop { id: "C14", quick: 20000, thorough: 800000, f: p_lp::c14 },
    Prop { id: "C15", quick: 36000, thorough: 500000, f: p_sol::c15 },
    Prop { id: "C16", quick: 9000, thorough: 150000, f: p_real::c16 },
    Prop { id: "C17", quick: 4000, thorough: 100000, f: p_real::c17 },
    Prop { id: "C18", quick: 4000, thorough: 400000, f: p_real::c18 },
    Prop { id: "C19", quick: 160000, thorough: 1500000, f: p_map::c19 },
    Prop { id: "C20", quick: 20000, thorough: 800000, f: p_cmd::c20 },
    Prop { id: "C21", quick: 8192, thorough: 400000, f: p_cmd::c21 },
    Prop { id: "C22", quick: 3000, thorough: 60000, f: p_cmd::c22 },
    Prop { id: "C23", quick: 600, thorough: 10000, f: p_cmd::c23 },
    Prop { id: "C26", quick: 20000, thorough: 800000, f: p_hist::c26 },
    Prop { id: "C28", quick: 12000, thorough: 500000, f: p_hist::c28 },
    Prop { id: "C29", quick: 1200, thorough: 30000, f: p_real::c29 },
    Prop { id: "C30", quick: 120000, thorough: 2000000, f: p_res::c30 },
    Prop { id: "C31", quick: 12000, thorough: 400000, f: p_res::c31 },
    Prop { id: "C32", quick: 60000, thorough: 1500000, f: p_std::c32 },
    Prop { id: "C33", quick: 60000, thorough: 1500000, f: p_std::c33 },
    Prop { id: "C34", quick: 16000, thorough: 500000, f: p_proc::c34 },
];

fn main() {
    if let Some(code) = sys::fake_main() {
        std::process::exit(code);
    }
    if let Some(code) = p_cmd::worker_main() {
        std::process::exit(code);
    }
    let args = parse_args();
    std::process::exit(big_stack(move || run(PROPS, &args)));
}
