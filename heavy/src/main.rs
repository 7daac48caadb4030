//! The slashing program and its CLI on the real Solana runtime.
#[path = "../../fast/src/target.rs"]
mod target;
mod bank;
mod chain;
mod cli;
mod parity;

/// Let system calls reach the runtime, as solana-program-test does.
pub fn real_syscalls() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        // starting one puts its system calls in place
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        rt.block_on(async {
            let t = solana_program_test::ProgramTest::default();
            let _ = t.start().await;
        });
        rt.shutdown_background();
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // bank PROP IDX SEED SCALE SECONDS OUT
        Some("bank") => {
            let n = |k: usize| a[k].parse::<u64>().unwrap();
            let v = bank::worker(&a[2], n(3), n(4), a[5].parse().unwrap(), a[6].parse().unwrap());
            std::fs::write(&a[7], serde_json::to_vec(&v).unwrap()).unwrap();
        }
        // cli PROP SEED SCENARIOS SECONDS THREADS EXE DIR OUT [ONLY]
        Some("cli") => {
            let n = |k: usize| a[k].parse::<u64>().unwrap();
            let only = a.get(10).map(|x| x.parse().unwrap());
            let v = cli::check(&a[2], n(3), n(4), a[5].parse().unwrap(), n(6), &a[7], &a[8], only);
            std::fs::write(&a[9], serde_json::to_vec(&v).unwrap()).unwrap();
        }
        _ => {
            eprintln!("usage: slashheavy bank|cli ...");
            std::process::exit(2);
        }
    }
}
