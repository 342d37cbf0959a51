//! Runtime monitors for ferrous-chloride. See /verif/DESIGN.md
mod alloc;
mod anyv;
mod frame;
mod gen;
mod model;
mod props;
mod refparse;
mod rng;

use frame::Env;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str, default: &str| -> String {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
            .unwrap_or_else(|| default.to_string())
    };
    if args.get(1).map(String::as_str) == Some("child") {
        std::process::exit(props::child(&args[2..]));
    }
    frame::install_panic_hook();
    let id = get("--prop", "");
    let env = Env {
        seed: get("--seed", "1").parse().expect("seed"),
        thorough: get("--tier", "quick") == "thorough",
        work: get("--work", "/nonexistent"),
        cli: get("--cli", ""),
        threads: get("--threads", "8").parse().expect("threads"),
        cases: get("--cases", "").parse().ok(),
        me: args[0].clone(),
    };
    let env: &'static Env = Box::leak(Box::new(env));
    let only = get("--case", "");
    let only = if only.is_empty() {
        None
    } else {
        Some(only.parse().expect("case"))
    };
    let p = props::ALL.iter().find(|p| p.id == id);
    let p = match p {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2);
        }
    };
    std::process::exit(frame::run(p, env, only, &get("--journal", ""), &get("--out", "")));
}
