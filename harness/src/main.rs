mod engine;
mod fl;
mod gen;
mod heap;
mod oracle;
mod props;
mod remote;
mod rng;

#[global_allocator]
static HEAP: heap::Heap = heap::Heap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    engine::install_crash_handlers();
    let root = std::env::var("AFCHECK_ROOT").unwrap_or_else(|_| "/verif".into());
    let props = props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = &args[2];
            let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let scale: f64 = std::env::var("AFCHECK_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
            let only = std::env::var("AFCHECK_STREAM").ok();
            let keep = std::env::var_os("AFCHECK_KEEP").is_some();
            // a run that does not end is an error of the check (exit 2), never a violation
            let limit: u64 = std::env::var("AFCHECK_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 780 });
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(limit));
                eprintln!("afcheck: time limit of {} s reached, inconclusive", limit);
                std::process::exit(2);
            });
            let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            std::process::exit(engine::run_prop(p, &root, seed, thorough, scale, only.as_deref(), keep));
        }
        Some("replay") => std::process::exit(engine::run_replay(&props, &args[2])),
        Some("list") => {
            for p in &props {
                println!("{} {:?}", p.id, p.streams.iter().map(|s| s.name).collect::<Vec<_>>());
            }
        }
        _ => {
            eprintln!("usage: afcheck run <property> [quick|thorough] | replay <file> | list");
            std::process::exit(2);
        }
    }
}
