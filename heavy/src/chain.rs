//! A validator's JSON-RPC endpoint on a real bank, recording what is asked of it.
use {
    base64::{prelude::BASE64_STANDARD, Engine},
    serde_json::{json, Value},
    solana_program::{
        account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, epoch_schedule::EpochSchedule,
        program_error::ProgramError, pubkey::Pubkey,
    },
    solana_runtime::{bank::Bank, bank_forks::BankForks},
    solana_sdk::{
        account::{AccountSharedData, ReadableAccount, WritableAccount},
        hash::Hash,
        transaction::{TransactionError, VersionedTransaction},
    },
    std::{
        collections::{BTreeMap, HashMap},
        io::{BufRead, BufReader, Read, Write},
        net::{TcpListener, TcpStream},
        sync::{
            atomic::{AtomicBool, AtomicU64, Ordering},
            Arc, Mutex, RwLock,
        },
    },
};

pub fn slash_id() -> Pubkey {
    solana_slashing_program::id()
}
pub fn record_id() -> Pubkey {
    spl_record::id()
}

/// What an instruction of a transaction is for.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Create { account: Pubkey, owner: Pubkey },
    Transfer { to: Pubkey, lamports: u64 },
    Init { proof: Pubkey },
    Write { proof: Pubkey, offset: u64, data: Vec<u8> },
    CloseProof { proof: Pubkey },
    Report { proof: Pubkey, pda: Pubkey, slot: u64, node: Pubkey },
    CloseReport { report: Pubkey, destination: Pubkey },
    Other(Pubkey),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Landed,
    /// landed, without effect but its fee
    Failed(String),
    Refused(String),
    Fault,
    Simulated(bool),
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub acts: Vec<Act>,
    pub payer: Pubkey,
    pub outcome: Outcome,
    pub simulated: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// the node refuses it after simulating it
    Preflight,
    /// the node has a problem
    Internal,
    /// it is included in a block, but fails
    OnChain,
}

/// One failing submission.
#[derive(Clone, Debug)]
pub struct Fault {
    pub what: What,
    pub mode: Mode,
    pub hit: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    NthInit(usize),
    NthWrite(usize),
    Report(u64),
    NthCloseProof(usize),
    CloseReport(Pubkey),
    /// reads
    Leader(u64),
    NthRead(Pubkey, usize),
    NthBlockhash(usize),
}

/// Accepted by the node, not in a block yet.
struct Waiting {
    sig: String,
    tx: VersionedTransaction,
    polls: usize,
}

#[derive(Default)]
pub struct Inner {
    pub calls: BTreeMap<String, u64>,
    /// a method that fails, always
    pub refuses: Option<String>,
    pub sent: Vec<Sent>,
    pub faults: Vec<Fault>,
    pub leaders: HashMap<u64, Pubkey>,
    pub statuses: HashMap<String, Value>,
    pub fees: BTreeMap<Pubkey, u64>,
    pub unsupported: Vec<String>,
    pub seen: [usize; 3],
    pub slot: u64,
    pub epoch: u64,
    pub hash: Hash,
    /// order of listings
    pub shuffle: u64,
    pub sends: usize,
    /// the submission at which the caller is cut off, and whether it arrives
    pub cut: Option<(usize, bool)>,
    pub cut_off: bool,
    /// how often a caller has to ask before what it submitted is in a block;
    /// with 0 that happens on submission
    pub polls: usize,
    waiting: Vec<Waiting>,
    reads: HashMap<Pubkey, usize>,
    hashes: usize,
    dropped: bool,
}

pub struct Chain {
    pub bank: Arc<Bank>,
    _forks: Arc<RwLock<BankForks>>,
    pub inner: Mutex<Inner>,
}

fn quiet(r: std::thread::Result<ProgramResult>) -> ProgramResult {
    r.unwrap_or(Err(ProgramError::Custom(0xdead)))
}
fn slash_entry(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    quiet(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        solana_slashing_program::processor::process_instruction(id, infos, data)
    })))
}
fn record_entry(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    quiet(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        spl_record::processor::process_instruction(id, infos, data)
    })))
}

pub const EPOCH: u64 = 432_000;

fn le64(b: &[u8]) -> u64 {
    u64::from_le_bytes(b.try_into().unwrap())
}

fn acts(tx: &VersionedTransaction) -> Vec<Act> {
    let keys = tx.message.static_account_keys();
    tx.message
        .instructions()
        .iter()
        .map(|i| {
            let p = keys[i.program_id_index as usize];
            let k = |n: usize| i.accounts.get(n).and_then(|x| keys.get(*x as usize)).copied().unwrap_or_default();
            let d = &i.data[..];
            if p == slash_id() {
                match d.first() {
                    Some(0) => Act::CloseReport { report: k(0), destination: k(1) },
                    Some(1) if d.len() >= 49 => Act::Report {
                        proof: k(0),
                        pda: k(1),
                        slot: le64(&d[9..17]),
                        node: Pubkey::new_from_array(d[17..49].try_into().unwrap()),
                    },
                    _ => Act::Other(p),
                }
            } else if p == record_id() {
                match d.first() {
                    Some(0) => Act::Init { proof: k(0) },
                    Some(1) if d.len() >= 13 => {
                        Act::Write { proof: k(0), offset: le64(&d[1..9]), data: d[13..].to_vec() }
                    }
                    Some(3) => Act::CloseProof { proof: k(0) },
                    _ => Act::Other(p),
                }
            } else if p == Pubkey::default() {
                match d.first() {
                    Some(0) if d.len() >= 52 => {
                        Act::Create { account: k(1), owner: Pubkey::new_from_array(d[20..52].try_into().unwrap()) }
                    }
                    Some(2) if d.len() >= 12 => Act::Transfer { to: k(1), lamports: le64(&d[4..12]) },
                    _ => Act::Other(p),
                }
            } else {
                Act::Other(p)
            }
        })
        .collect()
}

type Reply = Result<Value, (i64, String, Value)>;

fn data_json(a: &AccountSharedData, cfg: &Value) -> Value {
    let mut d = a.data().to_vec();
    if let (Some(o), Some(l)) = (cfg["dataSlice"]["offset"].as_u64(), cfg["dataSlice"]["length"].as_u64()) {
        let o = (o as usize).min(d.len());
        let e = o.saturating_add(l as usize).min(d.len());
        d = d[o..e].to_vec();
    }
    let data = match cfg["encoding"].as_str() {
        Some("base58") => json!([bs58::encode(&d).into_string(), "base58"]),
        _ => json!([BASE64_STANDARD.encode(&d), "base64"]),
    };
    json!({
        "data": data,
        "executable": a.executable(),
        "lamports": a.lamports(),
        "owner": a.owner().to_string(),
        "rentEpoch": u64::MAX,
        "space": a.data().len(),
    })
}

impl Chain {
    pub fn new() -> Chain {
        use solana_program_test::processor;
        let (forks, bank) = crate::bank::bank_with(&[
            (slash_id(), "slashing", processor!(slash_entry)),
            (record_id(), "record", processor!(record_entry)),
        ]);
        bank.set_sysvar_for_tests(&EpochSchedule::custom(EPOCH, EPOCH, false));
        let hash = bank.last_blockhash();
        Chain { bank, _forks: forks, inner: Mutex::new(Inner { hash, ..Default::default() }) }
    }
    /// Forget the past.
    pub fn reset(&self, slot: u64, epoch: u64) {
        for id in [slash_id(), record_id()] {
            for (k, _) in self.owned(&id) {
                self.bank.store_account(&k, &AccountSharedData::default());
            }
        }
        let mut i = self.inner.lock().unwrap();
        let hash = i.hash;
        *i = Inner { hash, ..Default::default() };
        drop(i);
        self.clock(slot, epoch);
    }
    pub fn clock(&self, slot: u64, epoch: u64) {
        self.bank.set_sysvar_for_tests(&Clock { slot, epoch, ..Clock::default() });
        let mut i = self.inner.lock().unwrap();
        i.slot = slot;
        i.epoch = epoch;
    }
    pub fn owned(&self, id: &Pubkey) -> BTreeMap<Pubkey, AccountSharedData> {
        self.bank
            .get_program_accounts(id, &Default::default())
            .unwrap()
            .into_iter()
            .filter(|(_, a)| a.lamports() > 0)
            .collect()
    }
    pub fn balance(&self, k: &Pubkey) -> u64 {
        self.bank.get_balance(k)
    }
    pub fn put(&self, k: &Pubkey, lamports: u64, data: &[u8], owner: &Pubkey) {
        let mut a = AccountSharedData::new(lamports, 0, owner);
        a.set_data_from_slice(data);
        a.set_rent_epoch(u64::MAX);
        self.bank.store_account(k, &a);
    }
    pub fn rent(&self, len: usize) -> u64 {
        solana_program::rent::Rent::default().minimum_balance(len)
    }

    fn context(&self, i: &Inner, v: Value) -> Value {
        json!({"context": {"slot": i.slot, "apiVersion": "2.3.4"}, "value": v})
    }

    fn decode(&self, p: &Value) -> Result<VersionedTransaction, (i64, String, Value)> {
        let bad = |s: &str| (-32602, s.to_string(), Value::Null);
        let s = p[0].as_str().ok_or(bad("no transaction"))?;
        let b = match p[1]["encoding"].as_str() {
            Some("base64") => BASE64_STANDARD.decode(s).map_err(|_| bad("invalid base64"))?,
            _ => bs58::decode(s).into_vec().map_err(|_| bad("invalid base58"))?,
        };
        if b.len() > 1232 {
            return Err(bad("decoded transaction too large: max: encoded/raw 1644/1232"));
        }
        bincode::deserialize(&b).map_err(|_| bad("failed to deserialize transaction"))
    }

    fn simulate(&self, tx: &VersionedTransaction) -> (Option<Value>, Vec<String>, u64) {
        let r = self.bank.verify_transaction(
            tx.clone(),
            solana_sdk::transaction::TransactionVerificationMode::HashOnly,
        );
        match r {
            Err(e) => (Some(serde_json::to_value(&e).unwrap()), vec![], 0),
            Ok(t) => {
                let r = self.bank.simulate_transaction_unchecked(&t, false);
                (r.result.err().map(|e| serde_json::to_value(&e).unwrap()), r.logs, r.units_consumed)
            }
        }
    }

    fn fault(i: &mut Inner, acts: &[Act]) -> Option<Mode> {
        let mut is = vec![];
        for a in acts {
            match a {
                Act::Init { .. } => {
                    is.push(What::NthInit(i.seen[0]));
                    i.seen[0] += 1;
                }
                Act::Write { .. } => {
                    is.push(What::NthWrite(i.seen[1]));
                    i.seen[1] += 1;
                }
                Act::CloseProof { .. } => {
                    is.push(What::NthCloseProof(i.seen[2]));
                    i.seen[2] += 1;
                }
                Act::Report { slot, .. } => is.push(What::Report(*slot)),
                Act::CloseReport { report, .. } => is.push(What::CloseReport(*report)),
                _ => (),
            }
        }
        let f = i.faults.iter_mut().find(|f| is.contains(&f.what))?;
        f.hit = true;
        Some(f.mode)
    }

    fn execute(&self, i: &mut Inner, tx: VersionedTransaction) -> Result<(), TransactionError> {
        let acts = acts(&tx);
        let payer = tx.message.static_account_keys()[0];
        let sig = tx.signatures[0].to_string();
        let (outcome, res) = match self.bank.process_transaction_with_metadata(tx) {
            Ok(c) => {
                *i.fees.entry(payer).or_default() += c.fee_details.total_fee();
                let (st, o) = match &c.status {
                    Ok(()) => (Value::Null, Outcome::Landed),
                    Err(e) => (serde_json::to_value(e).unwrap(), Outcome::Failed(format!("{e:?}"))),
                };
                i.statuses.insert(sig, st);
                (o, Ok(()))
            }
            Err(e) => (Outcome::Refused(format!("{e:?}")), Err(e)),
        };
        i.sent.push(Sent { acts, payer, outcome, simulated: false });
        res
    }

    /// Everything submitted gets into a block sooner or later.
    pub fn settle(&self) {
        let mut i = self.inner.lock().unwrap();
        for w in std::mem::take(&mut i.waiting) {
            let _ = self.execute(&mut i, w.tx);
        }
    }

    fn asked(&self, i: &mut Inner, sig: &str) {
        let Some(k) = i.waiting.iter().position(|w| w.sig == sig) else { return };
        i.waiting[k].polls -= 1;
        if i.waiting[k].polls == 0 {
            let w = i.waiting.remove(k);
            if self.execute(i, w.tx).is_err() {
                // never gets into a block
                i.dropped = true;
            }
        }
    }

    /// Does this read fail?
    fn unreadable(i: &mut Inner, what: What) -> Result<(), (i64, String, Value)> {
        match i.faults.iter_mut().find(|f| f.what == what) {
            None => Ok(()),
            Some(f) => {
                f.hit = true;
                Err((-32603, "Internal error".into(), Value::Null))
            }
        }
    }

    fn call(&self, method: &str, p: &Value) -> Reply {
        let mut i = self.inner.lock().unwrap();
        if i.cut_off {
            return Ok(Value::Null);
        }
        *i.calls.entry(method.to_string()).or_default() += 1;
        if i.refuses == Some(method.to_string()) {
            return Err((-32603, "Internal error".into(), Value::Null));
        }
        let invalid = |s: &str| (-32602, s.to_string(), Value::Null);
        let key = |v: &Value| -> Result<Pubkey, (i64, String, Value)> {
            v.as_str().and_then(|s| s.parse().ok()).ok_or(invalid("Invalid param: WrongSize"))
        };
        match method {
            "getHealth" => Ok(json!("ok")),
            "getVersion" => Ok(json!({"solana-core": "2.3.4", "feature-set": 1})),
            "getSlot" | "getBlockHeight" => Ok(json!(i.slot)),
            "getEpochInfo" => Ok(json!({
                "absoluteSlot": i.slot, "blockHeight": i.slot, "epoch": i.epoch, "slotIndex": i.slot % EPOCH,
                "slotsInEpoch": EPOCH, "transactionCount": 1000,
            })),
            "getEpochSchedule" => Ok(json!({
                "slotsPerEpoch": EPOCH, "leaderScheduleSlotOffset": EPOCH, "warmup": false,
                "firstNormalEpoch": 0, "firstNormalSlot": 0,
            })),
            "getLatestBlockhash" => {
                let n = i.hashes;
                i.hashes += 1;
                Self::unreadable(&mut i, What::NthBlockhash(n))?;
                let v = json!({"blockhash": i.hash.to_string(), "lastValidBlockHeight": i.slot.saturating_add(150)});
                Ok(self.context(&i, v))
            }
            "isBlockhashValid" => Ok(self.context(&i, json!(!i.dropped))),
            "getMinimumBalanceForRentExemption" => {
                Ok(json!(self.rent(p[0].as_u64().ok_or(invalid("length"))? as usize)))
            }
            "getFeeForMessage" => Ok(self.context(&i, json!(5000))),
            "getBalance" => {
                let b = self.balance(&key(&p[0])?);
                Ok(self.context(&i, json!(b)))
            }
            "getAccountInfo" => {
                let at = key(&p[0])?;
                let n = i.reads.entry(at).or_default();
                *n += 1;
                let n = *n - 1;
                Self::unreadable(&mut i, What::NthRead(at, n))?;
                let a = self.bank.get_account(&key(&p[0])?).filter(|a| a.lamports() > 0);
                let v = a.map_or(Value::Null, |a| data_json(&a, &p[1]));
                Ok(self.context(&i, v))
            }
            "getMultipleAccounts" => {
                let mut v = vec![];
                for k in p[0].as_array().ok_or(invalid("accounts"))? {
                    let a = self.bank.get_account(&key(k)?).filter(|a| a.lamports() > 0);
                    v.push(a.map_or(Value::Null, |a| data_json(&a, &p[1])));
                }
                Ok(self.context(&i, json!(v)))
            }
            "getProgramAccounts" => {
                let id = key(&p[0])?;
                let mut out = vec![];
                'next: for (k, a) in self.owned(&id) {
                    for f in p[1]["filters"].as_array().cloned().unwrap_or_default() {
                        if let Some(n) = f["dataSize"].as_u64() {
                            if a.data().len() as u64 != n {
                                continue 'next;
                            }
                        }
                        if f["memcmp"].is_object() {
                            let m = &f["memcmp"];
                            let want = match (m["bytes"].as_str(), m["encoding"].as_str()) {
                                (Some(s), Some("base64")) => BASE64_STANDARD.decode(s).unwrap_or_default(),
                                (Some(s), _) => bs58::decode(s).into_vec().unwrap_or_default(),
                                _ => serde_json::from_value(m["bytes"].clone()).unwrap_or_default(),
                            };
                            let o = m["offset"].as_u64().unwrap_or(0) as usize;
                            if a.data().get(o..o + want.len()) != Some(&want[..]) {
                                continue 'next;
                            }
                        }
                    }
                    out.push(json!({"pubkey": k.to_string(), "account": data_json(&a, &p[1])}));
                }
                let mut r = slashcore::rng::Rng::new(i.shuffle, 77);
                for n in (1..out.len()).rev() {
                    out.swap(n, r.us(n + 1));
                }
                if p[1]["withContext"] == json!(true) {
                    return Ok(self.context(&i, json!(out)));
                }
                Ok(json!(out))
            }
            "getSlotLeaders" => {
                let s = p[0].as_u64().ok_or(invalid("slot"))?;
                let n = p[1].as_u64().unwrap_or(1);
                if n == 1 {
                    Self::unreadable(&mut i, What::Leader(s))?;
                }
                let mut out = vec![];
                for k in 0..n {
                    match i.leaders.get(&s.wrapping_add(k)) {
                        Some(l) => out.push(l.to_string()),
                        None => break,
                    }
                }
                if out.is_empty() {
                    return Err(invalid("Invalid slot range: leader schedule for epoch is unavailable"));
                }
                Ok(json!(out))
            }
            "getSignatureStatuses" => {
                let mut v = vec![];
                for s in p[0].as_array().ok_or(invalid("signatures"))? {
                    if let Some(s) = s.as_str() {
                        self.asked(&mut i, s);
                    }
                    v.push(match s.as_str().and_then(|s| i.statuses.get(s)) {
                        None => Value::Null,
                        Some(e) => json!({
                            "slot": i.slot,
                            "confirmations": 1,
                            "err": e,
                            "status": if e.is_null() { json!({"Ok": null}) } else { json!({"Err": e}) },
                            "confirmationStatus": "confirmed",
                        }),
                    });
                }
                Ok(self.context(&i, json!(v)))
            }
            "simulateTransaction" => {
                let tx = self.decode(p)?;
                let (err, logs, units) = self.simulate(&tx);
                let payer = tx.message.static_account_keys()[0];
                i.sent.push(Sent {
                    acts: acts(&tx),
                    payer,
                    outcome: Outcome::Simulated(err.is_none()),
                    simulated: true,
                });
                let v = json!({
                    "err": err, "logs": logs, "accounts": null, "unitsConsumed": units, "returnData": null,
                    "innerInstructions": null, "replacementBlockhash": null, "loadedAccountsDataSize": 0,
                });
                Ok(self.context(&i, v))
            }
            "sendTransaction" => {
                let n = i.sends;
                i.sends += 1;
                match i.cut {
                    Some((k, arrives)) if k == n => {
                        i.cut_off = true;
                        if !arrives {
                            return Ok(Value::Null);
                        }
                    }
                    _ => (),
                }
                let tx = self.decode(p)?;
                let acts = acts(&tx);
                let payer = tx.message.static_account_keys()[0];
                let sig = tx.signatures[0].to_string();
                let push = |i: &mut Inner, o: Outcome| {
                    i.sent.push(Sent { acts: acts.clone(), payer, outcome: o, simulated: false });
                };
                let refused = |err: Value, logs: Vec<String>, units: u64| {
                    (
                        -32002,
                        format!("Transaction simulation failed: {err}"),
                        json!({"accounts": null, "err": err, "innerInstructions": null, "logs": logs,
                               "returnData": null, "unitsConsumed": units, "replacementBlockhash": null}),
                    )
                };
                if tx.verify_with_results().iter().any(|x| !x) {
                    push(&mut i, Outcome::Refused("signature".into()));
                    return Err((-32003, "Transaction signature verification failure".into(), Value::Null));
                }
                let fault = Self::fault(&mut i, &acts);
                match fault {
                    Some(Mode::Preflight) => {
                        push(&mut i, Outcome::Fault);
                        return Err(refused(json!({"InstructionError": [0, "InvalidArgument"]}), vec![], 150));
                    }
                    Some(Mode::Internal) => {
                        push(&mut i, Outcome::Fault);
                        return Err((-32603, "Internal error".into(), Value::Null));
                    }
                    Some(Mode::OnChain) => {
                        push(&mut i, Outcome::Fault);
                        i.statuses.insert(sig.clone(), json!({"InstructionError": [0, "InvalidArgument"]}));
                        return Ok(json!(sig));
                    }
                    None => (),
                }
                if p[1]["skipPreflight"] != json!(true) {
                    let (err, logs, units) = self.simulate(&tx);
                    if let Some(e) = err {
                        push(&mut i, Outcome::Refused(e.to_string()));
                        return Err(refused(e, logs, units));
                    }
                }
                if i.polls > 0 {
                    if i.waiting.iter().all(|w| w.sig != sig) {
                        let polls = i.polls;
                        i.waiting.push(Waiting { sig: sig.clone(), tx, polls });
                    }
                    return Ok(json!(sig));
                }
                self.execute(&mut i, tx).map_err(|e| refused(serde_json::to_value(&e).unwrap(), vec![], 0))?;
                Ok(json!(sig))
            }
            _ => {
                i.unsupported.push(method.to_string());
                Err((-32601, "Method not found".into(), Value::Null))
            }
        }
    }

    fn body(&self, b: &[u8]) -> Vec<u8> {
        let v: Value = serde_json::from_slice(b).unwrap_or(Value::Null);
        let one = |v: &Value| {
            let r = self.call(v["method"].as_str().unwrap_or(""), &v["params"]);
            match r {
                Ok(r) => json!({"jsonrpc": "2.0", "result": r, "id": v["id"]}),
                Err((code, msg, data)) => {
                    let mut e = json!({"code": code, "message": msg});
                    if !data.is_null() {
                        e["data"] = data;
                    }
                    json!({"jsonrpc": "2.0", "error": e, "id": v["id"]})
                }
            }
        };
        let r = match &v {
            Value::Array(a) => Value::Array(a.iter().map(one).collect()),
            v => one(v),
        };
        serde_json::to_vec(&r).unwrap()
    }

    fn connection(&self, s: TcpStream) -> std::io::Result<()> {
        s.set_nodelay(true)?;
        let mut r = BufReader::new(s.try_clone()?);
        let mut w = s;
        loop {
            let mut len = 0usize;
            let mut lines = 0;
            loop {
                let mut l = String::new();
                if r.read_line(&mut l)? == 0 {
                    return Ok(());
                }
                let t = l.trim();
                if t.is_empty() {
                    break;
                }
                lines += 1;
                if let Some((k, v)) = t.split_once(':') {
                    if k.eq_ignore_ascii_case("content-length") {
                        len = v.trim().parse().unwrap_or(0);
                    }
                }
            }
            if lines == 0 {
                return Ok(());
            }
            let mut b = vec![0; len.min(1 << 20)];
            r.read_exact(&mut b)?;
            let out = self.body(&b);
            if self.inner.lock().unwrap().cut_off {
                // no answer any more
                while self.inner.lock().unwrap().cut_off {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
                return Ok(());
            }
            let head = format!(
                "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n",
                out.len()
            );
            w.write_all(head.as_bytes())?;
            w.write_all(&out)?;
            w.flush()?;
        }
    }
}

/// The endpoint; serves while it exists.
pub struct Server {
    pub url: String,
    stop: Arc<AtomicBool>,
    addr: std::net::SocketAddr,
    pub requests: Arc<AtomicU64>,
}

impl Server {
    pub fn start(chain: Arc<Chain>) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let addr = l.local_addr().unwrap();
        let stop = Arc::new(AtomicBool::new(false));
        let requests = Arc::new(AtomicU64::new(0));
        let (s, n) = (stop.clone(), requests.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                if s.load(Ordering::SeqCst) {
                    return;
                }
                n.fetch_add(1, Ordering::Relaxed);
                if let Ok(c) = c {
                    let chain = chain.clone();
                    std::thread::spawn(move || {
                        let _ = chain.connection(c);
                    });
                }
            }
        });
        Server { url: format!("http://{addr}"), stop, addr, requests }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
    }
}

