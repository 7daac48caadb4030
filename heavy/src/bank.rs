//! Transactions of the monitored workloads on the real Solana runtime.
use {
    crate::target::target,
    serde_json::{json, Value},
    slashcore::{
        gen::Env,
        monitor::{Hints, Live, Monitor},
        rt::{ed25519_id, is_reserved, Acct, Ix, IxErr, Meta, SlashCall, Tx, TxOut, World, NOOP, SYSTEM, WRAPPER},
        worker::{plan, PROPS, WLS},
        Target,
    },
    solana_program::{
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::ProgramResult,
        instruction::{AccountMeta, Instruction, InstructionError},
        program_error::ProgramError,
        pubkey::Pubkey,
        rent::Rent,
    },
    solana_program_runtime::{invoke_context::BuiltinFunctionWithContext, loaded_programs::ProgramCacheEntry},
    solana_runtime::{bank::Bank, bank_forks::BankForks},
    solana_sdk::{
        account::{AccountSharedData, ReadableAccount},
        hash::Hash,
        message::Message,
        signature::Signature,
        transaction::{Transaction, TransactionError},
    },
    std::{
        cell::RefCell,
        collections::{BTreeMap, BTreeSet, HashSet},
        rc::Rc,
        sync::{Arc, RwLock},
        time::{Duration, Instant},
    },
};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CALLS: RefCell<Vec<SlashCall>> = const { RefCell::new(vec![]) };
    static SCRIPT: RefCell<Vec<Ix>> = const { RefCell::new(vec![]) };
    static TOP: RefCell<usize> = const { RefCell::new(0) };
}

fn panic_message() -> String {
    PANIC.with(|p| p.borrow().clone())
}
fn watch_panics() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
}
fn height() -> usize {
    solana_program::instruction::get_stack_height()
}
/// index of the running top-level instruction; call at entry
fn top() -> usize {
    TOP.with(|t| {
        let mut t = t.borrow_mut();
        if height() == 1 {
            *t += 1;
        }
        SCRIPT.with(|s| {
            let slash = slash_id();
            s.borrow()
                .iter()
                .enumerate()
                .filter(|(_, i)| [WRAPPER, NOOP, slash].contains(&i.program))
                .nth(t.saturating_sub(1))
                .map_or(usize::MAX, |(k, _)| k)
        })
    })
}
fn slash_id() -> Pubkey {
    solana_slashing_program::id()
}
fn seen(infos: &[AccountInfo]) -> BTreeMap<Pubkey, Acct> {
    infos
        .iter()
        .map(|i| {
            (
                *i.key,
                Acct {
                    lamports: i.lamports(),
                    data: i.data.borrow().to_vec(),
                    owner: *i.owner,
                    executable: i.executable,
                },
            )
        })
        .collect()
}

pub fn slash_entry(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let top = top();
    let pre = seen(infos);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        solana_slashing_program::processor::process_instruction(id, infos, data)
    }));
    let result = match &r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(IxErr::Prog(e.clone())),
        // the test runtime panics where the real one refuses an invocation
        Err(_) if panic_message().contains("solana-program-test") => Err(IxErr::Rt("refused invocation")),
        Err(_) => Err(IxErr::Panic(panic_message())),
    };
    let post = if result.is_ok() { seen(infos) } else { pre.clone() };
    CALLS.with(|c| {
        c.borrow_mut().push(SlashCall {
            top,
            depth: height() as u8,
            metas: infos
                .iter()
                .map(|i| Meta { key: *i.key, signer: i.is_signer, writable: i.is_writable })
                .collect(),
            data: data.to_vec(),
            pre,
            post,
            result,
            heap: 0,
            work: 0,
            heap_exhausted: false,
            diverged: None,
        })
    });
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn wrapper_entry(_: &Pubkey, infos: &[AccountInfo], _: &[u8]) -> ProgramResult {
    let me = top();
    let inner = SCRIPT.with(|s| s.borrow()[me].inner.clone());
    for i in inner {
        solana_program::program::invoke_unchecked(&instruction(&i), infos)?;
    }
    Ok(())
}
fn noop_entry(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult {
    top();
    Ok(())
}

fn instruction(i: &Ix) -> Instruction {
    let mut accounts: Vec<AccountMeta> = i
        .metas
        .iter()
        .map(|m| AccountMeta { pubkey: m.key, is_signer: m.signer, is_writable: m.writable })
        .collect();
    // what is invoked has to be there
    for n in &i.inner {
        if !accounts.iter().any(|a| a.pubkey == n.program) {
            accounts.push(AccountMeta::new_readonly(n.program, false));
        }
    }
    Instruction { program_id: i.program, accounts, data: i.data.clone() }
}

/// A bank with the given programs.
pub fn bank_with(programs: &[(Pubkey, &str, Option<BuiltinFunctionWithContext>)]) -> (Arc<RwLock<BankForks>>, Arc<Bank>) {
    let mint = Pubkey::new_unique();
    let genesis = solana_runtime::genesis_utils::create_genesis_config_with_leader_ex(
        1_000_000_000_000_000,
        &mint,
        &Pubkey::new_unique(),
        &Pubkey::new_unique(),
        &Pubkey::new_unique(),
        1_000_000_000_000,
        42,
        solana_sdk::fee_calculator::FeeRateGovernor::new(5000, 0),
        Rent::default(),
        solana_sdk::genesis_config::ClusterType::Development,
        vec![],
    );
    let bank = Bank::new_with_paths(
        &genesis,
        Default::default(),
        vec![],
        None,
        None,
        false,
        None,
        None,
        None,
        Default::default(),
        None,
        None,
    );
    for (id, name, f) in programs {
        bank.add_builtin(*id, name, ProgramCacheEntry::new_builtin(0, name.len(), f.unwrap()));
    }
    let forks = BankForks::new_rw_arc(bank);
    let bank = forks.read().unwrap().working_bank();
    (forks, bank)
}

/// A bank with the programs the workloads use.
fn new_bank() -> (Arc<RwLock<BankForks>>, Arc<Bank>) {
    use solana_program_test::processor;
    bank_with(&[
        (slash_id(), "slashing", processor!(slash_entry)),
        (WRAPPER, "wrapper", processor!(wrapper_entry)),
        (NOOP, "noop", processor!(noop_entry)),
    ])
}

struct Sample {
    workload: &'static str,
    pre: World,
    tx: Tx,
    out: TxOut,
    post: World,
    honest: HashSet<(Pubkey, u64)>,
    claims: Vec<&'static str>,
    client_built: bool,
    live: BTreeMap<Pubkey, Live>,
    ever: std::collections::HashMap<(Pubkey, u64), u64>,
}

fn le64(b: &[u8]) -> u64 {
    u64::from_le_bytes(b.try_into().unwrap())
}

fn named(tx: &Tx) -> BTreeSet<Pubkey> {
    let mut n: BTreeSet<Pubkey> = BTreeSet::new();
    for i in &tx.ixs {
        n.extend(i.metas.iter().map(|m| m.key));
    }
    n
}

/// why a sample cannot run on the bank as it is
fn unsuitable(s: &Sample, t: &Target) -> Option<&'static str> {
    let programs = [t.id, WRAPPER, NOOP, SYSTEM, ed25519_id()];
    if s.tx.ixs.iter().any(|i| !programs.contains(&i.program) || i.inner.iter().any(|j| !programs.contains(&j.program))) {
        return Some("other programs");
    }
    if s.pre.rent != Rent::default() {
        return Some("other rent");
    }
    if matches!(s.out.res, Err((_, IxErr::Rt("missing signature" | "precompile by cpi")))) {
        return Some("missing signature");
    }
    // the bank of a test demotes no reserved address
    let odd = |i: &Ix| i.metas.iter().any(|m| m.writable && is_reserved(&m.key));
    if s.tx.ixs.iter().any(|i| odd(i) || i.inner.iter().any(odd)) {
        return Some("writable reserved address");
    }
    for k in named(&s.tx) {
        let a = s.pre.get(&k);
        if a.lamports == 0 && a != Acct::default() {
            return Some("unfunded account with contents");
        }
        if a.executable && !programs.contains(&k) {
            return Some("executable account");
        }
        if a.data.len() > 100_000 {
            return Some("large account");
        }
    }
    None
}

struct Runner {
    bank: Arc<Bank>,
    hash: Hash,
    slot: Option<(u64, u64)>,
    sched: Option<solana_program::epoch_schedule::EpochSchedule>,
}

impl Runner {
    /// Run a transaction on the bank, from the given world.
    fn run(&mut self, t: &Target, pre: &World, tx: &Tx) -> Result<(TxOut, World, Result<(), TransactionError>), TransactionError> {
        if self.slot != Some((pre.slot, pre.epoch)) {
            self.bank.set_sysvar_for_tests(&Clock { slot: pre.slot, epoch: pre.epoch, ..Clock::default() });
            self.slot = Some((pre.slot, pre.epoch));
        }
        if self.sched.as_ref() != Some(&pre.sched) {
            self.bank.set_sysvar_for_tests(&pre.sched);
            self.sched = Some(pre.sched.clone());
        }
        let keys: Vec<Pubkey> = named(tx)
            .into_iter()
            .filter(|k| !is_reserved(k) && ![t.id, WRAPPER, NOOP].contains(k))
            .collect();
        for k in &keys {
            let a = pre.get(k);
            let mut d = AccountSharedData::new(a.lamports, 0, &a.owner);
            d.set_data_from_slice(&a.data);
            use solana_sdk::account::WritableAccount;
            d.set_rent_epoch(u64::MAX);
            d.set_executable(a.executable);
            self.bank.store_account(k, &d);
        }
        let payer = Pubkey::new_unique();
        self.bank.store_account(&payer, &AccountSharedData::new(1_000_000_000_000, 0, &SYSTEM));
        let ixs: Vec<Instruction> = tx.ixs.iter().map(instruction).collect();
        let msg = Message::new_with_blockhash(&ixs, Some(&payer), &self.hash);
        let mut btx = Transaction::new_unsigned(msg);
        for s in btx.signatures.iter_mut() {
            *s = Signature::new_unique();
        }
        CALLS.with(|c| c.borrow_mut().clear());
        TOP.with(|c| *c.borrow_mut() = 0);
        SCRIPT.with(|c| *c.borrow_mut() = tx.ixs.clone());
        let r = self.bank.process_transaction_with_metadata(btx)?;
        let status = r.status.clone();
        let mut calls = CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let res = match &status {
            Ok(()) => Ok(()),
            Err(TransactionError::InstructionError(i, e)) => {
                let i = *i as usize;
                let last = calls.last_mut().filter(|c| c.top == i);
                let err = match last {
                    Some(c) => {
                        if c.result.is_ok() {
                            c.result = Err(IxErr::Rt("refused by the runtime"));
                            c.post = c.pre.clone();
                        }
                        c.result.clone().unwrap_err()
                    }
                    None => match ProgramError::try_from(e.clone()) {
                        Ok(_) | Err(_) => IxErr::Rt("failed"),
                    },
                };
                Err((i, err))
            }
            Err(_) => Err((usize::MAX, IxErr::Rt("transaction refused"))),
        };
        let mut post = pre.clone();
        for k in keys {
            match self.bank.get_account(&k) {
                Some(a) if a.lamports() > 0 => {
                    post.accts.insert(
                        k,
                        Acct {
                            lamports: a.lamports(),
                            data: a.data().to_vec(),
                            owner: *a.owner(),
                            executable: a.executable(),
                        },
                    );
                }
                _ => {
                    if pre.get(&k).lamports != 0 || !pre.accts.contains_key(&k) {
                        post.accts.remove(&k);
                    }
                }
            }
        }
        Ok((TxOut { res, calls }, post, status))
    }
}

/// the model and the real runtime must tell the same story
fn difference(s: &Sample, out: &TxOut, status: &Result<(), TransactionError>, post: &World) -> Option<String> {
    match (&s.out.res, status) {
        (Ok(()), Ok(())) => {
            let keys: BTreeSet<&Pubkey> = s.post.accts.keys().chain(post.accts.keys()).collect();
            for k in keys {
                let (a, b) = (s.post.get(k), post.get(k));
                if a.lamports != b.lamports || a.data != b.data || a.owner != b.owner {
                    return Some(format!(
                        "account {k}: model {} lamports {} bytes owner {}, runtime {} lamports {} bytes owner {}",
                        a.lamports, a.data.len(), a.owner, b.lamports, b.data.len(), b.owner
                    ));
                }
            }
        }
        (Err((i, e)), Err(TransactionError::InstructionError(j, f))) => {
            if *i != *j as usize {
                return Some(format!("model fails at instruction {i} ({e:?}), runtime at {j} ({f:?})"));
            }
            if let IxErr::Prog(p) = e {
                if InstructionError::from(u64::from(p.clone())) != *f {
                    return Some(format!("model fails with {p:?}, runtime with {f:?}"));
                }
            }
        }
        (Err((usize::MAX, _)), Err(_)) => (),
        (a, b) => return Some(format!("model ends with {a:?}, runtime with {b:?}")),
    }
    if s.out.calls.len() != out.calls.len() {
        return Some(format!("model saw {} calls, runtime {}", s.out.calls.len(), out.calls.len()));
    }
    for (a, b) in s.out.calls.iter().zip(&out.calls) {
        let same = match (&a.result, &b.result) {
            (Ok(()), Ok(())) => true,
            (Err(IxErr::Prog(x)), Err(IxErr::Prog(y))) => x == y,
            (Err(IxErr::Prog(_)), _) | (_, Err(IxErr::Prog(_))) => false,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same || a.top != b.top || a.metas != b.metas {
            return Some(format!(
                "call: model {:?} at {} with {:?}, runtime {:?} at {} with {:?}",
                a.result, a.top, a.metas, b.result, b.top, b.metas
            ));
        }
    }
    None
}

/// bank PROP IDX SEED SCALE SECONDS
pub fn worker(prop: &str, idx: u64, seed: u64, scale: f64, seconds: f64) -> Value {
    let prop: &'static str = PROPS.iter().copied().find(|p| *p == prop).unwrap_or("C06");
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(seconds);
    // generate
    slashcore::rt::install();
    let t = target();
    let samples: Rc<RefCell<Vec<Sample>>> = Default::default();
    for (k, wl) in WLS.iter().enumerate() {
        let units = plan(prop)[wl.name];
        if wl.name == "grid" || wl.name == "buffers" || wl.name == "heap" {
            continue;
        }
        let n = ((wl.unit as f64) * units * scale).ceil() as u64;
        let mut env = Env::new(&t, seed, 500_000 + idx * 1000 + k as u64, deadline);
        let to = samples.clone();
        let name = wl.name;
        env.sink = Some(Box::new(move |m: &Monitor, pre: &World, tx: &Tx, out: &TxOut, post: &World| {
            let mut honest = HashSet::new();
            for c in &out.calls {
                if c.data.len() >= 49 {
                    let k = (
                        Pubkey::new_from_array(c.data[17..49].try_into().unwrap()),
                        u64::from_le_bytes(c.data[9..17].try_into().unwrap()),
                    );
                    if m.hints.honest.contains(&k) {
                        honest.insert(k);
                    }
                }
            }
            to.borrow_mut().push(Sample {
                workload: name,
                pre: pre.clone(),
                tx: tx.clone(),
                out: TxOut { res: out.res.clone(), calls: out.calls.clone() },
                post: post.clone(),
                honest,
                claims: m.hints.claims.clone(),
                client_built: m.hints.client_built,
                live: m.live.clone(),
                ever: m.ever.clone(),
            });
        }));
        (wl.run)(&mut env, n);
    }
    let mut samples = std::mem::take(&mut *samples.borrow_mut());
    let generated = samples.len();
    // a random order, so that time limits cut evenly
    let mut rng = slashcore::rng::Rng::new(seed, 0xb4a2 + idx);
    for i in (1..samples.len()).rev() {
        samples.swap(i, rng.below(i as u64 + 1) as usize);
    }
    // run
    crate::real_syscalls();
    watch_panics();
    let (_forks, bank) = new_bank();
    let hash = bank.last_blockhash();
    let mut r = Runner { bank, hash, slot: None, sched: None };
    let mut mon = Monitor::new(&t);
    let mut skipped: BTreeMap<String, u64> = BTreeMap::new();
    let mut ran: BTreeMap<&str, u64> = BTreeMap::new();
    let mut results: BTreeMap<String, u64> = BTreeMap::new();
    let mut different: Vec<Value> = vec![];
    let mut differences = 0u64;
    let t1 = Instant::now();
    let mut done = 0u64;
    let mut parity = crate::parity::Parity::default();
    for s in &samples {
        if Instant::now() >= deadline {
            break;
        }
        if let Some(w) = unsuitable(s, &t) {
            *skipped.entry(w.into()).or_default() += 1;
            continue;
        }
        let (out, post, status) = match r.run(&t, &s.pre, &s.tx) {
            Ok(x) => x,
            Err(e) => {
                *skipped.entry(format!("{e:?}")).or_default() += 1;
                continue;
            }
        };
        done += 1;
        *ran.entry(s.workload).or_default() += 1;
        for c in &out.calls {
            *results.entry(format!("{:?}", c.result)).or_default() += 1;
        }
        if let Some(d) = difference(s, &out, &status, &post) {
            differences += 1;
            if different.len() < 5 {
                let mut v = slashcore::replay::encode(s.workload, &s.pre, &s.tx);
                v["difference"] = json!(d);
                different.push(v);
            }
        }
        for c in &out.calls {
            let Some(proof) = c.metas.first().and_then(|m| c.pre.get(&m.key)) else { continue };
            if c.data.first() != Some(&1) || c.data.len() < 49 {
                continue;
            }
            let (off, slot) = (le64(&c.data[1..9]), le64(&c.data[9..17]));
            let node = Pubkey::new_from_array(c.data[17..49].try_into().unwrap());
            if let Some((a, b)) = proof.data.get(off as usize..).and_then(slashcore::model::unpack) {
                parity.pair(slot, &node, a, b);
            }
        }
        mon.hints = Hints {
            honest: s.honest.clone(),
            claims: s.claims.clone(),
            name: s.workload,
            client_built: s.client_built,
        };
        mon.live = s.live.clone();
        mon.ever = s.ever.clone();
        mon.observe(&s.pre, &s.tx, &out, &post);
    }
    json!({
        "generated": generated,
        "transactions": done,
        "distinct_shapes": mon.cover.distinct.len(),
        "skipped": skipped,
        "workloads": ran,
        "results": results,
        "observed": mon.cover.counts,
        "differences": differences,
        "different": different,
        "parity": parity.counts,
        "parity_mismatches": parity.mismatches,
        "generate_s": (t1 - t0).as_secs_f64(),
        "run_s": t1.elapsed().as_secs_f64(),
        "violations": mon.viols.iter().map(|v| json!({"property": v.prop, "what": v.what, "replay": v.replay})).collect::<Vec<_>>(),
    })
}
