mod boost;
mod fit;
mod gen;
mod life;
mod mono;
mod rate;
mod usage;
mod util;

use std::collections::HashMap;

fn main() {
    util::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches('-').to_string(), args[i + 1].clone());
        i += 2;
    }
    let seed: u64 = o.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = o.get("n").and_then(|s| s.parse().ok()).unwrap_or(50);
    let out = o.get("out").cloned().unwrap_or_else(|| "/dev/stdout".into());
    let profile = o.get("profile").cloned().unwrap_or_else(|| "general".into());
    let big = o.get("big").map(|s| s == "1").unwrap_or(false);
    match cmd.as_str() {
        "fit" => fit::run(&profile, seed, n, big, &out),
        "mono" => mono::run(seed, n, o.get("cells").and_then(|s| s.parse().ok()).unwrap_or(2000), &out),
        "boost" => boost::run(seed, n, &out),
        "obj" => boost::run_obj(seed, n, &out),
        "life" => life::run(seed, o.get("ops").unwrap(), &out),
        "par" => life::run_par(seed, n, &out),
        "save" => life::run_save(seed, n, &out),
        "guard" => life::run_guard(seed, n, &out),
        "rate" => rate::run(seed, n, o.get("trees").and_then(|s| s.parse().ok()).unwrap_or(300), &out),
        "use" => usage::run(seed, n, &out),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2);
        }
    }
    // abandoned worker threads must not keep the process alive
    std::process::exit(0);
}
