//! Binds the monitoring core to the real slashing program.
mod target;
use {
    slashcore::{
        alloc::MonAlloc,
        replay,
        worker::{run_check, worker, write_replay, Cfg, Check},
    },
    std::path::PathBuf,
    target::target,
};

#[global_allocator]
static ALLOC: MonAlloc = MonAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let flag = |n: &str| a.iter().any(|x| x == n);
    let opt = |n: &str| a.iter().find_map(|x| x.strip_prefix(n).map(|s| s.to_string()));
    match a.get(1).map(|s| s.as_str()) {
        // worker PROP IDX SEED SCALE OUT SECONDS [--digests] [--dump=N] [--record]
        Some("worker") => worker(
            &target(),
            &Cfg {
                prop: a[2].clone(),
                idx: a[3].parse().unwrap(),
                seed: a[4].parse().unwrap(),
                scale: a[5].parse().unwrap(),
                out: PathBuf::from(&a[6]),
                seconds: a[7].parse().unwrap(),
                digests: flag("--digests"),
                dump_at: opt("--dump=").map(|s| s.parse().unwrap()),
                record: flag("--record"),
            },
        ),
        // check PROP TIER SEED SCALE SECONDS WORKDIR REPLAYDIR OUT BIN=LABEL...
        Some("check") => {
            let c = Check {
                prop: a[2].clone(),
                tier: a[3].clone(),
                seed: a[4].parse().unwrap(),
                scale: a[5].parse().unwrap(),
                seconds: a[6].parse().unwrap(),
                work: PathBuf::from(&a[7]),
                bins: a[10..]
                    .iter()
                    .map(|s| {
                        let (p, l) = s.split_once('=').unwrap();
                        (PathBuf::from(p), l.to_string())
                    })
                    .collect(),
            };
            let o = run_check(&c);
            for (k, (what, v)) in o.violations.iter().enumerate().take(8) {
                let p = write_replay(&PathBuf::from(&a[8]), &c.prop, k, what, v);
                println!("# {what}");
                println!("VIOLATION property={} replay={}", c.prop, p.display());
            }
            let mut j = o.json;
            j["violations"] = o.violations.len().into();
            std::fs::write(&a[9], serde_json::to_vec_pretty(&j).unwrap()).unwrap();
            if !o.violations.is_empty() {
                std::process::exit(1);
            }
            if let Some(p) = o.problem {
                eprintln!("check could not complete: {p}");
                std::process::exit(3);
            }
        }
        // interpret DIR SECONDS FILE...
        Some("interpret") => {
            slashcore::rt::install();
            if !replay::interpret(&target(), &a[2], &a[4..], a[3].parse().unwrap()) {
                std::process::exit(1);
            }
        }
        Some("replay") => {
            slashcore::rt::install();
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let prop = v["property"].as_str().unwrap_or("").to_string();
            if v["kind"].as_str() != Some("tx") {
                println!("{}", serde_json::to_string_pretty(&v).unwrap());
                std::process::exit(2);
            }
            let found = replay::rerun(&target(), &v);
            for (p, w) in &found {
                println!("{p}: {w}");
            }
            if found.iter().any(|(p, _)| *p == prop) {
                println!("VIOLATION property={prop} replay={}", a[2]);
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: slashmon worker|check|replay ...");
            std::process::exit(2);
        }
    }
}
