//! Runtime monitors for mvdparser. See /verif/DESIGN.md.

mod alloc;
mod api;
mod checks;
mod cov;
mod demo;
mod dict;
mod files;
mod gen;
mod hostile;
mod ktx;
mod rng;
mod search;
mod sup;
mod tables;
mod text;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = "usage: mvdverif check ID SEED quick|thorough SCRATCH REPO EVIDENCE REPLAYS\n       mvdverif replay ID SEED quick|thorough CASE SCRATCH REPO\n       mvdverif list";
    match args.first().map(|s| s.as_str()) {
        Some("worker") => sup::worker(&args[1..]),
        Some("list") => {
            for c in checks::all() {
                println!("{} quick {} thorough {}", c.id, c.quick, c.thorough);
            }
        }
        // small inputs into files, for the interpreter
        Some("emit") if args.len() == 5 => {
            let seed: u64 = args[1].parse().expect("seed");
            let n: u64 = args[2].parse().expect("count");
            sup::emit(seed, n, &args[3], &args[4]);
        }
        // `interpret DIR START STEP DEADLINE OUT`
        Some("interpret") if args.len() == 6 => sup::interpret(&args[1..]),
        Some("dump") if args.len() == 2 => {
            let d = std::fs::read(&args[1]).expect("file");
            api::install_panic_hook();
            for a in api::table() {
                println!("{}: {}", a.name, a.run(&d));
            }
        }
        Some("check") if args.len() == 8 => {
            let o = sup::Opts {
                id: args[1].clone(),
                seed: args[2].parse().expect("seed"),
                thorough: args[3] == "thorough",
                out: args[4].clone(),
                repo: args[5].clone(),
                evidence: args[6].clone(),
                replays: args[7].clone(),
            };
            std::process::exit(sup::supervise(&o));
        }
        Some("replay") if args.len() == 7 => {
            let (id, seed, tier, case, out, repo) = (&args[1], &args[2], &args[3], &args[4], &args[5], &args[6]);
            let idx: u64 = case.parse().unwrap_or_else(|_| {
                std::env::set_var("MVD_GENOME", case); // the file of a case found by search
                0
            });
            let case = &idx.to_string();
            let out = format!("{out}/replay");
            let w: Vec<String> = [id, seed, tier, case, "1", &(idx + 1).to_string(), "100000", &out, repo]
                .iter()
                .map(|s| s.to_string())
                .collect();
            std::process::exit(sup::replay(id, repo, &out, &w));
        }
        _ => {
            eprintln!("{usage}");
            std::process::exit(2);
        }
    }
}
