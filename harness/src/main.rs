mod alloc;
mod faults;
mod gen;
mod pbfw;
mod rd;
mod xmlw;
mod model;
mod props;
mod rng;
mod runner;
mod time;
mod xmlp;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Watch = alloc::Watch;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let id = args.get(1).cloned().unwrap_or_default();
    if args.get(2).is_some_and(|a| a == "--digest") {
        props::p36::digest(&args[3..]);
        return;
    }
    if !cfg!(miri) {
        // Everything is judged where the time zone isn't UTC, before there are any threads
        std::env::set_var("TZ", "America/St_Johns");
    }
    let prop = match props::find(&id) {
        Some(p) => p,
        None => {
            println!("no property {:?}", id);
            std::process::exit(2);
        }
    };
    if !cfg!(miri) {
        time::self_test();
        xmlp::self_test();
    }
    let verif = std::env::var("VERIF_DIR").map_or(PathBuf::from("/verif"), PathBuf::from);
    let is_child = args.iter().any(|a| a == "--child");
    let mut seed = get("--seed")
        .or(std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut thorough = get("--tier")
        .or(std::env::var("VERIF_TIER").ok())
        .is_some_and(|t| t == "thorough");
    let mut only = get("--case").and_then(|s| {
        let (l, i) = s.rsplit_once(':')?;
        Some((l.to_string(), i.parse().ok()?))
    });
    if let Some(f) = get("--replay") {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file"))
                .expect("replay file");
        seed = v["seed"].as_u64().unwrap_or(1);
        thorough = v["tier"] == "thorough";
        only = Some((
            v["leg"].as_str().unwrap_or("").to_string(),
            v["case"].as_u64().unwrap_or(0),
        ));
    }
    let mut made = None;
    let work = match get("--work") {
        Some(w) => PathBuf::from(w),
        None => {
            let d = std::env::temp_dir().join(format!("osmio-verif-{}-{}", id, std::process::id()));
            std::fs::create_dir_all(&d).unwrap();
            made = Some(d.clone());
            d
        }
    };
    let opts = runner::Opts {
        seed,
        thorough,
        only,
        verif,
        work,
    };
    let code = if let Some(n) = get("--inline").and_then(|s| s.parse().ok()) {
        let soft = std::env::var("VERIF_SOFT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
        runner::inline(&prop, &opts, n, std::time::Duration::from_secs(soft))
    } else if is_child {
        runner::child(&prop, &opts)
    } else {
        runner::parent(&prop, &opts)
    };
    if let Some(d) = made {
        let _ = std::fs::remove_dir_all(d);
    }
    std::process::exit(code);
}
