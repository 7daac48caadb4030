//! Work distribution: a check is a parent that runs worker processes (the
//! code under test prints, and may abort) and merges what they observed.
use {
    crate::{
        alloc::Mode,
        gen::Env,
        monitor::Cover,
        wl_evidence, wl_life, wl_misc, wl_sig, Target,
    },
    serde_json::{json, Value},
    std::{
        collections::{BTreeMap, HashSet},
        io::Write,
        path::{Path, PathBuf},
        process::{Command, Stdio},
        time::{Duration, Instant},
    },
};

pub const PROPS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C25",
];

pub const WORKERS: u64 = 8;

pub struct Wl {
    pub name: &'static str,
    pub run: fn(&mut Env, u64),
    /// cases of one unit (about a second of one worker)
    pub unit: u64,
}

fn grid(env: &mut Env, n: u64) {
    // n = part + 1000 * parts
    wl_evidence::grid(env, n % 1000, n / 1000)
}

pub const WLS: &[Wl] = &[
    Wl { name: "honest", run: wl_evidence::honest, unit: 2200 },
    Wl { name: "genuine", run: wl_evidence::genuine, unit: 1200 },
    Wl { name: "pairs", run: wl_evidence::pairs, unit: 1300 },
    Wl { name: "variants", run: wl_evidence::variants, unit: 1300 },
    Wl { name: "grid", run: grid, unit: 0 },
    Wl { name: "layouts", run: wl_sig::layouts, unit: 1500 },
    Wl { name: "two_views", run: wl_sig::two_views, unit: 1500 },
    Wl { name: "crossed", run: wl_sig::crossed, unit: 800 },
    Wl { name: "near", run: wl_sig::near, unit: 800 },
    Wl { name: "history", run: wl_life::history, unit: 80 },
    Wl { name: "window", run: wl_life::window, unit: 2200 },
    Wl { name: "close_window", run: wl_life::close_window, unit: 1500 },
    Wl { name: "substitution", run: wl_life::substitution, unit: 1800 },
    Wl { name: "funding", run: wl_life::funding, unit: 2000 },
    Wl { name: "malformed", run: wl_misc::fuzz, unit: 2000 },
    Wl { name: "client", run: wl_misc::client, unit: 1200 },
    Wl { name: "buffers", run: wl_misc::buffers, unit: 20000 },
    Wl { name: "heap", run: wl_misc::heap, unit: 800 },
    Wl { name: "faults", run: wl_misc::faults, unit: 1700 },
];

/// workload -> units of work per worker
pub fn plan(prop: &str) -> BTreeMap<&'static str, f64> {
    let mut p: BTreeMap<&'static str, f64> = WLS.iter().map(|w| (w.name, 0.25)).collect();
    p.insert("grid", 0.0);
    let focus: &[(&'static str, f64)] = match prop {
        "C01" => &[("honest", 7.0), ("layouts", 1.5), ("pairs", 1.0)],
        "C02" => &[("layouts", 5.0), ("two_views", 2.0), ("crossed", 2.0), ("near", 3.0), ("history", 0.5)],
        "C03" => &[("genuine", 6.0), ("pairs", 1.5), ("client", 1.0), ("grid", 1.0)],
        "C04" => &[("pairs", 5.0), ("grid", 1.0), ("genuine", 1.5), ("faults", 1.0)],
        "C05" => &[("variants", 5.0), ("pairs", 2.0), ("honest", 1.0)],
        "C06" => &[("genuine", 3.0), ("history", 2.0), ("client", 1.0), ("funding", 1.0), ("buffers", 0.5)],
        "C07" => &[("history", 7.0), ("genuine", 1.0)],
        "C08" => &[("history", 7.0), ("malformed", 1.0), ("close_window", 1.0)],
        "C09" => &[("window", 7.0), ("faults", 0.5)],
        "C10" => &[("close_window", 6.0), ("history", 2.0)],
        "C11" => &[("close_window", 5.0), ("history", 2.0), ("substitution", 1.0)],
        "C12" => &[("substitution", 6.0), ("history", 1.0), ("malformed", 1.0)],
        "C13" => &[("funding", 6.0), ("history", 1.0), ("client", 1.0)],
        "C14" => &[("malformed", 6.0), ("variants", 1.0), ("window", 0.7), ("close_window", 0.5), ("buffers", 0.5)],
        "C15" => &[("malformed", 1.0), ("genuine", 1.0), ("variants", 1.0), ("layouts", 1.0), ("pairs", 1.0), ("close_window", 0.5)],
        "C16" => &[("client", 6.0), ("buffers", 0.5), ("genuine", 1.0)],
        "C17" => &[("buffers", 5.0), ("genuine", 1.0), ("malformed", 1.0)],
        "C18" => &[("heap", 6.0), ("genuine", 1.0), ("faults", 1.0), ("close_window", 0.5)],
        "C19" => &[("faults", 7.0), ("malformed", 0.5)],
        "C25" => &[("heap", 5.0), ("genuine", 1.0), ("malformed", 1.0), ("close_window", 0.5), ("layouts", 0.5)],
        _ => &[],
    };
    for (k, v) in focus {
        p.insert(k, *v);
    }
    p
}

fn modes(prop: &str) -> Vec<Mode> {
    match prop {
        "C15" => vec![Mode::PLAIN, Mode::HOSTILE, Mode::FLIP],
        // elsewhere one mode, but never the friendliest one
        _ => vec![Mode::HOSTILE],
    }
}

pub struct Cfg {
    pub prop: String,
    pub idx: u64,
    pub seed: u64,
    pub scale: f64,
    pub out: PathBuf,
    pub seconds: f64,
    pub digests: bool,
    pub dump_at: Option<u64>,
    pub record: bool,
}

/// One worker: the workloads of a property on one share of the streams.
pub fn worker(target: &Target, cfg: &Cfg) {
    crate::rt::install();
    crate::san::on_death(cfg.out.with_extension("last"));
    let deadline = Instant::now() + Duration::from_secs_f64(cfg.seconds);
    let prop: &'static str = PROPS.iter().copied().find(|p| *p == cfg.prop).unwrap_or("C01");
    let mut total = Cover::default();
    let mut viols: Vec<(&'static str, String, Value)> = vec![];
    let mut stopped = false;
    let mut digests: Vec<u64> = vec![];
    let mut recorded: Vec<Value> = vec![];
    let mut txs = 0u64;
    let mut per_wl: BTreeMap<String, Value> = BTreeMap::new();
    for (k, wl) in WLS.iter().enumerate() {
        let units = plan(prop)[wl.name];
        let n = if wl.name == "grid" {
            if units == 0.0 {
                continue;
            }
            cfg.idx + 1000 * WORKERS
        } else if cfg.record {
            // a little of everything
            30
        } else {
            ((wl.unit as f64) * units * cfg.scale).ceil() as u64
        };
        let mut env = Env::new(target, cfg.seed, cfg.idx * 1000 + k as u64, deadline);
        env.modes = modes(prop);
        env.stop_on = Some(prop);
        env.digests = cfg.digests.then(Vec::new);
        env.record = cfg.record.then(Vec::new);
        env.dump_at = cfg.dump_at.and_then(|d| d.checked_sub(txs));
        let t0 = Instant::now();
        (wl.run)(&mut env, n);
        stopped |= env.stopped_early;
        txs += env.txs;
        digests.extend(env.digests.take().unwrap_or_default());
        recorded.extend(env.record.take().unwrap_or_default());
        let m = env.mon;
        per_wl.insert(
            wl.name.into(),
            json!({"evaluations": m.cover.evaluations, "seconds": t0.elapsed().as_secs_f64()}),
        );
        total.evaluations += m.cover.evaluations;
        total.distinct.extend(m.cover.distinct);
        for (k, v) in m.cover.counts {
            *total.counts.entry(k).or_default() += v;
        }
        total.max_heap = total.max_heap.max(m.cover.max_heap);
        total.max_work = total.max_work.max(m.cover.max_work);
        if total.samples.len() < 4 && units > 0.4 {
            total.samples.extend(m.cover.samples);
        }
        for v in m.viols {
            viols.push((v.prop, v.what, v.replay));
        }
    }
    let mut f = std::fs::File::create(cfg.out.with_extension("bin")).unwrap();
    let mut b = Vec::with_capacity(total.distinct.len() * 8);
    for d in &total.distinct {
        b.extend_from_slice(&d.to_le_bytes());
    }
    f.write_all(&b).unwrap();
    if cfg.digests {
        let mut b = Vec::with_capacity(digests.len() * 8);
        for d in &digests {
            b.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(cfg.out.with_extension("dig"), b).unwrap();
    }
    let v = json!({
        "evaluations": total.evaluations,
        "counts": total.counts,
        "max_heap": total.max_heap,
        "max_work": total.max_work,
        "samples": total.samples,
        "stopped": stopped,
        "transactions": txs,
        "workloads": per_wl,
        "recorded": recorded,
        "violations": viols.iter().map(|(p, w, r)| json!({"property": p, "what": w, "replay": r})).collect::<Vec<_>>(),
    });
    std::fs::write(&cfg.out, serde_json::to_vec(&v).unwrap()).unwrap();
}

pub struct Check {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub scale: f64,
    pub seconds: f64,
    /// binaries to run: (path, label); workers alternate between them
    pub bins: Vec<(PathBuf, String)>,
    pub work: PathBuf,
}

/// What a check saw, for the driver to turn into evidence.
pub struct Outcome {
    pub json: Value,
    pub violations: Vec<(String, Value)>,
    pub problem: Option<String>,
}

fn wait_until(k: &mut std::process::Child, t: Instant) -> Option<std::process::ExitStatus> {
    loop {
        match k.try_wait() {
            Ok(Some(st)) => return Some(st),
            _ if Instant::now() > t => {
                let _ = k.kill();
                let _ = k.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

pub fn run_check(c: &Check) -> Outcome {
    std::fs::create_dir_all(&c.work).unwrap();
    let compare = c.prop == "C15" && c.bins.len() > 1;
    // (binary index, stream index)
    let jobs: Vec<(usize, u64)> = if compare {
        // the two builds to compare, and any others on streams of their own
        let pairs = (0..WORKERS / 2).flat_map(|i| [(0, i), (1, i)]);
        let more = (2..c.bins.len()).flat_map(|b| (0..WORKERS / 2).map(move |i| (b, WORKERS * b as u64 + i)));
        pairs.chain(more).collect()
    } else {
        (0..WORKERS).map(|i| (i as usize % c.bins.len(), i)).collect()
    };
    let spawn = |j: usize, (b, i): (usize, u64), extra: &[String]| {
        let out = c.work.join(format!("w{j}.json"));
        let err = std::fs::File::create(c.work.join(format!("w{j}.err"))).unwrap();
        let mut cmd = Command::new(&c.bins[b].0);
        cmd.args([
            "worker",
            &c.prop,
            &i.to_string(),
            &c.seed.to_string(),
            &c.scale.to_string(),
            out.to_str().unwrap(),
            &c.seconds.to_string(),
        ]);
        if compare && b < 2 {
            cmd.arg("--digests");
        }
        cmd.env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:symbolize=0");
        cmd.args(extra);
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
        (cmd.spawn().expect("spawn worker"), out)
    };
    let hard = Instant::now() + Duration::from_secs_f64(c.seconds * 1.5 + 30.0);
    let kids: Vec<_> = jobs.iter().enumerate().map(|(j, job)| spawn(j, *job, &[])).collect();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut evaluations = 0u64;
    let mut max_heap = 0u64;
    let mut max_work = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut violations: Vec<(String, Value)> = vec![];
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut wls: BTreeMap<String, (u64, f64)> = BTreeMap::new();
    let mut problem = None;
    let mut stopped = 0;
    for (j, (mut k, out)) in kids.into_iter().enumerate() {
        let Some(st) = wait_until(&mut k, hard) else {
            let what = format!("worker {j} ({}) did not finish: an instruction does not terminate", c.bins[jobs[j].0].1);
            if c.prop == "C14" || c.prop == "C15" {
                violations.push((
                    what,
                    json!({"kind":"hang","worker":jobs[j].1,"seed":c.seed,"scale":c.scale,"binary":c.bins[jobs[j].0].1}),
                ));
            } else {
                problem = Some(what);
            }
            continue;
        };
        let v: Option<Value> = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let (Some(v), true) = (v, st.success()) else {
            let err = std::fs::read_to_string(c.work.join(format!("w{j}.err"))).unwrap_or_default();
            let tail: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
            let what = format!("worker {j} ({}) ended with {st}: {tail}", c.bins[jobs[j].0].1);
            use std::os::unix::process::ExitStatusExt;
            // a program that brings its host down crashes or has undefined behaviour
            if (c.prop == "C14" || c.prop == "C15") && matches!(st.signal(), Some(4 | 5 | 6 | 7 | 8 | 11)) {
                let last = std::fs::read(out.with_extension("last")).ok();
                let last: Option<Value> = last.and_then(|b| serde_json::from_slice(&b).ok());
                violations.push((
                    what,
                    json!({"last_transaction":last,"kind":"crash","worker":jobs[j].1,"seed":c.seed,"scale":c.scale,"binary":c.bins[jobs[j].0].1}),
                ));
            } else {
                problem = Some(what);
            }
            continue;
        };
        evaluations += v["evaluations"].as_u64().unwrap();
        for (k, n) in v["counts"].as_object().unwrap() {
            *counts.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        for (k, n) in v["workloads"].as_object().unwrap() {
            let e = wls.entry(k.clone()).or_default();
            e.0 += n["evaluations"].as_u64().unwrap();
            e.1 += n["seconds"].as_f64().unwrap();
        }
        max_heap = max_heap.max(v["max_heap"].as_u64().unwrap());
        max_work = max_work.max(v["max_work"].as_u64().unwrap());
        if samples.len() < 6 {
            samples.extend(v["samples"].as_array().unwrap().iter().take(2).cloned());
        }
        stopped += v["stopped"].as_bool().unwrap() as u64;
        for x in v["violations"].as_array().unwrap() {
            let p = x["property"].as_str().unwrap();
            if p == c.prop {
                let mut r = x["replay"].clone();
                r["binary"] = json!(c.bins[jobs[j].0].1);
                violations.push((x["what"].as_str().unwrap().to_string(), r));
            } else {
                *others.entry(p.to_string()).or_default() += 1;
            }
        }
        if let Ok(b) = std::fs::read(out.with_extension("bin")) {
            distinct.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    let mut compared = 0u64;
    if compare && problem.is_none() && violations.is_empty() {
        for i in 0..(WORKERS / 2) as usize {
            let rd = |j: usize| std::fs::read(c.work.join(format!("w{j}.dig"))).unwrap_or_default();
            let (a, b) = (rd(2 * i), rd(2 * i + 1));
            let n = a.len().min(b.len()) / 8;
            compared += n as u64;
            let at = (0..n).find(|k| a[8 * k..8 * k + 8] != b[8 * k..8 * k + 8]);
            if let Some(k) = at {
                let (mut kid, out) = spawn(2 * i, (0, i as u64), &[format!("--dump={k}")]);
                kid.wait().unwrap();
                let r: Value = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
                let mut r = r["recorded"][0].clone();
                if r.is_null() {
                    r = json!({"kind":"build-mode","worker":i,"transaction":k,"seed":c.seed});
                }
                r["property"] = json!("C15");
                violations.push((format!("transaction {k} of worker {i} ends differently with and without arithmetic checks"), r));
            }
        }
    }
    // most frequent first is not needed; keep it readable
    let json = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct.len(),
        "observed": counts,
        "workloads": wls.iter().map(|(k, (n, s))| json!({"name": k, "evaluations": n, "cpu_s": (s * 10.0).round() / 10.0})).collect::<Vec<_>>(),
        "max_heap_bytes": max_heap,
        "max_basic_blocks": max_work,
        "compared_between_builds": compared,
        "workers_stopped_by_time": stopped,
        "violations_of_other_properties": others,
        "binaries": c.bins.iter().map(|b| b.1.clone()).collect::<Vec<_>>(),
        "samples": samples,
    });
    Outcome { json, violations, problem }
}

pub fn write_replay(dir: &Path, prop: &str, k: usize, what: &str, v: &Value) -> PathBuf {
    std::fs::create_dir_all(dir).unwrap();
    let p = dir.join(format!("{prop}-{k}.json"));
    let mut v = v.clone();
    v["property"] = json!(prop);
    v["violation"] = json!(what);
    std::fs::write(&p, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    p
}
