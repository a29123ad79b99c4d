mod arch;
mod atomic;
mod cli;
mod codec;
mod crypt;
mod integ;
mod layout;
mod mpq;
mod robust;
mod scale;
mod special;
mod util;
use util::*;

/// "n:seed" stands for n scenarios that consist of a seed.
fn seeds(spec: &str) -> Vec<serde_json::Value> {
    let (n, s) = spec.split_once(':').expect("n:seed");
    let (n, s): (u64, u64) = (n.parse().unwrap(), s.parse().unwrap());
    (0..n).map(|k| serde_json::json!({"seed": s * 1_000_003 + k})).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let o = Opts::from_args();
    let exe = a.iter().position(|x| x == "--exe").and_then(|p| a.get(p + 1)).map(std::path::PathBuf::from);
    match mode {
        "codec" => run_all(&o, seeds(&o.scen), codec::run),
        "special" => run_all(&o, seeds(&o.scen), special::run),
        "robust" => run_all(&o, read_scenarios(&o.scen), |k, sc, dir, tr| robust::run(k, sc, dir, exe.as_deref(), tr)),
        "integ" => run_all(&o, read_scenarios(&o.scen), integ::run),
        "atomic-child" => atomic::child(),
        "atomic" => {
            let lim = a.iter().position(|x| x == "--faults").and_then(|p| a.get(p + 1)).and_then(|x| x.parse().ok()).unwrap_or(40);
            run_all(&o, read_scenarios(&o.scen), |k, sc, dir, tr| atomic::run(k, sc, dir, tr, lim))
        }
        "cli" => {
            let arg = |k: &str| std::path::PathBuf::from(a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).expect(k));
            let (exe, scratch) = (arg("--exe"), arg("--scratch"));
            run_all(&o, read_scenarios(&o.scen), |k, sc, _dir, tr| cli::run(k, sc, &exe, &scratch, tr))
        }
        "layout" => run_all(&o, read_scenarios(&o.scen), layout::run),
        "scale" => run_all(&o, read_scenarios(&o.scen), scale::run),
        "crypt" => run_all(&o, seeds(&o.scen), |k, sc, dir, tr| crypt::run(k, sc, dir, exe.as_deref(), tr)),
        "arch" => run_all(&o, read_scenarios(&o.scen), arch::run),
        _ => {
            eprintln!("unknown mode {mode}");
            std::process::exit(2);
        }
    }
}
