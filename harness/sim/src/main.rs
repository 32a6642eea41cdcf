mod dex;
mod gen;
mod gen_fault;
mod gen_list;
mod ops;
mod rec;
mod rt;
mod state;
mod subst;
mod unit;
#[cfg(feature = "u_client")]
mod unit_client;
#[cfg(feature = "u_lists")]
mod unit_lists;
#[cfg(feature = "u_perp")]
mod unit_perp;
#[cfg(feature = "u_stable")]
mod unit_stable;
#[cfg(feature = "u_tcs")]
mod unit_tcs;
#[cfg(feature = "u_oracle")]
mod unit_oracle;
#[cfg(feature = "u_acct")]
mod unit_acct;
#[cfg(feature = "u_bank")]
mod unit_bank;
#[cfg(feature = "u_margin")]
mod unit_margin;
#[cfg(feature = "u_queue")]
mod unit_queue;
#[cfg(feature = "u_tree")]
mod unit_tree;
mod world;

fn main() {
    if std::env::var("SIM_VERBOSE").is_ok() {
        rt::VERBOSE.with(|v| v.set(true));
    }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        // sim gen <profile> <seed> <worlds> <steps> <out prefix>
        Some("gen") => rec::generate(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), &args[6]),
        // sim script <file> <out prefix>: lines are operations; {"world":...} starts a new one
        Some("script") => rec::script(&args[2], &args[3]),
        // sim unit <kind> <input file or seed> <n> <out file>
        Some("unit") => unit::run(&args[2], &args[3], args[4].parse().unwrap(), &args[5]),
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}
