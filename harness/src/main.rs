use vh::fw::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    #[cfg(feature = "c42")]
    if args.first().map_or(false, |a| a == "--window-worker") {
        vh::c42::worker();
        return;
    }
    #[cfg(feature = "c47")]
    if args.first().map_or(false, |a| a == "--history-worker") {
        vh::c47::worker(&args[1]);
        return;
    }
    let id = args.first().expect("usage: vh ID [--replay FILE]").clone();
    let prop = vh::find(&id).unwrap_or_else(|| {
        eprintln!("unknown property {id} (not compiled in?)");
        std::process::exit(2)
    });
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    if let Some(f) = get("--replay") {
        std::process::exit(replay(&prop, &f));
    }
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mult = std::env::var("VH_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 25.0 } else { 1.0 });
    let threads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let root = std::env::var("VH_ROOT").map(Into::into).unwrap_or_else(|_| std::path::PathBuf::from("/verif"));
    let _ = std::fs::create_dir_all(root.join("target"));
    let o = Opts { root, seed, tier, mult, threads, only: get("--only") };
    if args.iter().any(|a| a == "--worker") || o.only.is_some() {
        std::process::exit(run(&prop, &o));
    }
    std::process::exit(supervise(&prop, &o, &args));
}
