//! Violations are written with everything needed to run them again.
use {
    crate::{
        monitor::{hex, Live, Monitor},
        rt::{run_tx, Acct, Ix, Meta, SigCache, Tx, World},
        Target,
    },
    serde_json::{json, Value},
    solana_program::{epoch_schedule::EpochSchedule, program_error::ProgramError, pubkey::Pubkey},
    std::str::FromStr,
};

pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    s.as_bytes().chunks_exact(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}

fn ix_json(i: &Ix) -> Value {
    json!({
        "program": i.program.to_string(),
        "accounts": i.metas.iter().map(|m| json!([m.key.to_string(), m.signer, m.writable])).collect::<Vec<_>>(),
        "data": hex(&i.data),
        "inner": i.inner.iter().map(ix_json).collect::<Vec<_>>(),
    })
}
fn key(v: &Value) -> Pubkey {
    Pubkey::from_str(v.as_str().unwrap()).unwrap()
}
fn ix_from(v: &Value) -> Ix {
    Ix {
        program: key(&v["program"]),
        metas: v["accounts"]
            .as_array()
            .unwrap()
            .iter()
            .map(|m| Meta { key: key(&m[0]), signer: m[1].as_bool().unwrap(), writable: m[2].as_bool().unwrap() })
            .collect(),
        data: unhex(v["data"].as_str().unwrap()),
        inner: v["inner"].as_array().unwrap().iter().map(ix_from).collect(),
    }
}

pub fn world_json(w: &World) -> Value {
    json!({
        "slot": w.slot, "epoch": w.epoch,
        "slots_per_epoch": w.sched.slots_per_epoch,
        "warmup": w.sched.warmup,
        "rent": [w.rent.lamports_per_byte_year, w.rent.exemption_threshold],
        "accounts": w.accts.iter().map(|(k, a)| json!({
            "key": k.to_string(), "lamports": a.lamports, "owner": a.owner.to_string(),
            "executable": a.executable, "data": hex(&a.data)})).collect::<Vec<_>>(),
    })
}
pub fn world_from(v: &Value) -> World {
    let mut w = World::new();
    w.slot = v["slot"].as_u64().unwrap();
    w.epoch = v["epoch"].as_u64().unwrap();
    w.sched = EpochSchedule::custom(32.max(v["slots_per_epoch"].as_u64().unwrap()), 32, v["warmup"].as_bool().unwrap());
    w.sched.slots_per_epoch = v["slots_per_epoch"].as_u64().unwrap();
    w.rent.lamports_per_byte_year = v["rent"][0].as_u64().unwrap();
    w.rent.exemption_threshold = v["rent"][1].as_f64().unwrap();
    for a in v["accounts"].as_array().unwrap() {
        w.put(
            key(&a["key"]),
            Acct {
                lamports: a["lamports"].as_u64().unwrap(),
                data: unhex(a["data"].as_str().unwrap()),
                owner: key(&a["owner"]),
                executable: a["executable"].as_bool().unwrap(),
            },
        );
    }
    w
}

pub fn tx_json(tx: &Tx) -> Value {
    json!({
        "signers": tx.signers.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "instructions": tx.ixs.iter().map(ix_json).collect::<Vec<_>>(),
    })
}
pub fn tx_from(v: &Value) -> Tx {
    Tx {
        signers: v["signers"].as_array().unwrap().iter().map(key).collect(),
        ixs: v["instructions"].as_array().unwrap().iter().map(ix_from).collect(),
    }
}

pub fn encode(workload: &str, w: &World, tx: &Tx) -> Value {
    // only the accounts the transaction names
    let mut small = w.clone();
    let mut named: std::collections::BTreeSet<Pubkey> = Default::default();
    for i in &tx.ixs {
        for m in &i.metas {
            named.insert(m.key);
        }
    }
    small.accts.retain(|k, _| named.contains(k));
    json!({"kind": "tx", "workload": workload, "world": world_json(&small), "tx": tx_json(tx)})
}
pub fn encode_expect(workload: &str, w: &World, tx: &Tx, fault: &str, want: &[ProgramError]) -> Value {
    let mut v = encode(workload, w, tx);
    v["fault"] = json!(fault);
    v["expected_codes"] = json!(want.iter().map(|e| u64::from(e.clone())).collect::<Vec<_>>());
    v
}

/// Run a recorded transaction again under the monitors; the violations found.
pub fn rerun(target: &Target, v: &Value) -> Vec<(String, String)> {
    let w0 = world_from(&v["world"]);
    let tx = tx_from(&v["tx"]);
    let mut mon = Monitor::new(target);
    mon.hints.name = "replay";
    let pairs = |n: &str| v[n].as_array().cloned().unwrap_or_default();
    for e in pairs("honest") {
        mon.hints.honest.insert((key(&e[0]), e[1].as_u64().unwrap()));
    }
    for e in pairs("ever") {
        mon.ever.insert((key(&e[0]), e[1].as_u64().unwrap()), e[2].as_u64().unwrap());
    }
    for e in pairs("claims") {
        for p in crate::worker::PROPS {
            if e.as_str() == Some(p) {
                mon.hints.claims.push(p);
            }
        }
    }
    mon.hints.client_built = v["client_built"].as_bool().unwrap_or(false);
    for l in pairs("live") {
        mon.live.insert(
            key(&l["at"]),
            Live {
                acct: Acct {
                    lamports: l["lamports"].as_u64().unwrap(),
                    data: unhex(l["data"].as_str().unwrap()),
                    owner: target.id,
                    executable: false,
                },
                epoch: l["epoch"].as_u64().unwrap(),
                node: key(&l["node"]),
                slot: l["slot"].as_u64().unwrap(),
                destination: key(&l["destination"]),
            },
        );
    }
    let mut w = w0.clone();
    for l in mon.live.iter() {
        w.accts.entry(*l.0).or_insert_with(|| l.1.acct.clone());
    }
    let w0 = w.clone();
    let mut sigs = SigCache::new();
    let modes = [crate::alloc::Mode::PLAIN, crate::alloc::Mode::HOSTILE, crate::alloc::Mode::FLIP];
    let out = run_tx(&mut w, &tx, target, &mut sigs, &modes);
    println!("result: {:?}", out.res);
    mon.observe(&w0, &tx, &out, &w);
    if let Some(f) = v["fault"].as_str() {
        let want: Vec<ProgramError> =
            pairs("expected_codes").iter().map(|c| ProgramError::from(c.as_u64().unwrap())).collect();
        mon.expect_error(&w0, &tx, &out, f, &want);
    }
    mon.viols.into_iter().map(|v| (v.prop.to_string(), v.what)).collect()
}

/// Run recorded transactions without monitors (under an interpreter, which is
/// the monitor) and compare the results with the recorded ones. One file per
/// transaction, DIR/K.json. Prints one line per transaction.
pub fn interpret(target: &Target, dir: &str, files: &[String], seconds: u64) -> bool {
    let t0 = std::time::Instant::now();
    let mut same = true;
    let mut ran = 0;
    for f in files {
        if ran > 0 && t0.elapsed().as_secs() >= seconds {
            break;
        }
        println!("run {f}");
        let v: Value = serde_json::from_slice(&std::fs::read(format!("{dir}/{f}.json")).unwrap()).unwrap();
        let mut w = world_from(&v["world"]);
        let tx = tx_from(&v["tx"]);
        let mut sigs = SigCache::new();
        for s in v["sigs"].as_array().unwrap() {
            let b = |k: usize| unhex(s[k].as_str().unwrap());
            sigs.preset(&b(0), &b(1), &b(2), s[3].as_bool().unwrap());
        }
        let out = run_tx(&mut w, &tx, target, &mut sigs, &[crate::alloc::Mode::PLAIN]);
        let codes = crate::gen::codes(&out);
        let want: Vec<u64> = v["codes"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect();
        if codes != want {
            println!("differs {f} {codes:?} {want:?}");
            same = false;
        }
        ran += 1;
    }
    println!("ran {ran}");
    same
}
