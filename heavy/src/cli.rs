//! The real CLI binary against a recording node and real ledgers.
use {
    crate::chain::{record_id, slash_id, Act, Chain, Fault, Mode, Outcome, Sent, Server, What, EPOCH},
    crate::target::target,
    serde_json::{json, Value},
    slashcore::{
        gen::Env,
        model,
        monitor::hex,
        pda,
        rng::Rng,
        shred::parse,
        Header, REPORT_HEADER,
    },
    solana_ledger::{
        blockstore::Blockstore,
        blockstore_options::BlockstoreOptions,
        shred::{layout, Shred, ShredType},
    },
    solana_program::pubkey::Pubkey,
    solana_sdk::{
        account::{AccountSharedData, ReadableAccount},
        signature::{Keypair, Signer},
    },
    std::{
        collections::{BTreeMap, BTreeSet, HashMap},
        net::{TcpListener, TcpStream},
        path::{Path, PathBuf},
        process::{Command, Stdio},
        sync::{
            atomic::{AtomicBool, AtomicU64, Ordering},
            Arc, Mutex,
        },
        time::{Duration, Instant},
    },
};

const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);
const FUNDS: u64 = 500_000_000_000;

type Accounts = BTreeMap<Pubkey, AccountSharedData>;

/// Where the CLI runs.
struct Place {
    dir: PathBuf,
    exe: PathBuf,
    shim: PathBuf,
}

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
    timed_out: bool,
    args: Vec<String>,
}

impl Ran {
    fn panicked(&self) -> Option<String> {
        self.err.lines().find(|l| l.contains("panicked at")).map(|l| {
            let next = self.err.lines().skip_while(|x| x != &l).nth(1).unwrap_or("");
            format!("{l} {next}")
        })
    }
    fn tail(&self) -> String {
        let t = |s: &str| {
            let v: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
            let n = v.len().saturating_sub(4);
            v[n..].join(" | ").chars().take(500).collect::<String>()
        };
        format!("exit {:?}, stdout: {}, stderr: {}", self.code, t(&self.out), t(&self.err))
    }
}

struct Wallet {
    signer: Keypair,
    payer: Option<Keypair>,
}
impl Wallet {
    fn payer(&self) -> Pubkey {
        self.payer.as_ref().unwrap_or(&self.signer).pubkey()
    }
}

/// One scenario's surroundings.
struct Scene<'a> {
    rng: Rng,
    env: Env<'a>,
    chain: Arc<Chain>,
    server: Server,
    place: &'a Place,
    wallet: Wallet,
    cover: BTreeMap<String, u64>,
    bad: Vec<(&'static str, String)>,
    story: Vec<Value>,
    /// nothing can be concluded
    moot: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Format {
    Text,
    Verbose,
    Json,
    Compact,
}

fn limit() -> Duration {
    Duration::from_secs(120)
}

impl<'a> Scene<'a> {
    fn hit(&mut self, k: impl Into<String>) {
        *self.cover.entry(k.into()).or_default() += 1;
    }
    fn bad(&mut self, p: &'static str, what: String) {
        if self.bad.len() < 20 {
            self.bad.push((p, what));
        }
    }
    fn new_chain(&mut self, slot: u64, epoch: u64) {
        self.chain.reset(slot, epoch);
        let polls = self.rng.copy(&[0, 1, 1, 1, 1, 1, 1, 1, 1, 2]);
        {
            let mut i = self.chain.inner.lock().unwrap();
            i.shuffle = self.rng.next();
            i.polls = polls;
        }
        self.hit(format!("confirmation: after {polls} polls"));
        let dir = &self.place.dir;
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        let k = |r: &mut Rng| solana_sdk::signature::keypair_from_seed(&r.arr::<32>()).unwrap();
        let signer = k(&mut self.rng);
        let payer = self.rng.chance(1, 3).then(|| k(&mut self.rng));
        let write = |n: &str, k: &Keypair| {
            std::fs::write(dir.join(n), serde_json::to_string(&k.to_bytes().to_vec()).unwrap()).unwrap()
        };
        write("id.json", &signer);
        self.chain.put(&signer.pubkey(), FUNDS, &[], &SYSTEM);
        if let Some(p) = &payer {
            write("payer.json", p);
            self.chain.put(&p.pubkey(), FUNDS, &[], &SYSTEM);
        }
        std::fs::write(
            dir.join("config.yml"),
            format!(
                "---\njson_rpc_url: \"{}\"\nwebsocket_url: \"\"\nkeypair_path: \"{}\"\naddress_labels: {{}}\ncommitment: confirmed\n",
                self.server.url,
                dir.join("id.json").display()
            ),
        )
        .unwrap();
        self.wallet = Wallet { signer, payer };
    }

    fn spawn(&mut self, args: &[String]) -> std::process::Child {
        self.spawn_as("", args)
    }
    fn spawn_as(&mut self, tag: &str, args: &[String]) -> std::process::Child {
        let d = &self.place.dir;
        let f = |n: &str| std::fs::File::create(d.join(format!("{n}{tag}"))).unwrap();
        let mut c = Command::new(&self.place.exe);
        c.args(args)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", d)
            .env("LD_PRELOAD", &self.place.shim)
            .env("RUST_LOG", "off")
            .env("RUST_BACKTRACE", "0")
            .env("TOKIO_WORKER_THREADS", "2")
            .current_dir(d)
            .stdin(Stdio::null())
            .stdout(f("stdout"))
            .stderr(f("stderr"));
        c.spawn().unwrap()
    }
    fn gather(&mut self, args: &[String], code: Option<i32>, timed_out: bool) -> Ran {
        self.gather_as("", args, code, timed_out)
    }
    fn gather_as(&mut self, tag: &str, args: &[String], code: Option<i32>, timed_out: bool) -> Ran {
        self.chain.settle();
        let d = &self.place.dir;
        let s = |n: &str| String::from_utf8_lossy(&std::fs::read(d.join(format!("{n}{tag}"))).unwrap_or_default()).into_owned();
        let r = Ran { code, out: s("stdout"), err: s("stderr"), timed_out, args: args.to_vec() };
        self.story.push(json!({"run": args, "result": r.tail()}));
        if timed_out {
            self.moot = Some("timed out".into());
        }
        let u = std::mem::take(&mut self.chain.inner.lock().unwrap().unsupported);
        if !u.is_empty() {
            self.moot = Some(format!("RPC methods the node stand-in lacks: {u:?}"));
        }
        r
    }
    fn run(&mut self, args: &[String]) -> Ran {
        let mut c = self.spawn(args);
        let t = Instant::now();
        let mut wait = 2;
        loop {
            if let Some(s) = c.try_wait().unwrap() {
                return self.gather(args, s.code(), false);
            }
            if t.elapsed() > limit() {
                let _ = c.kill();
                let _ = c.wait();
                return self.gather(args, None, true);
            }
            std::thread::sleep(Duration::from_millis(wait));
            wait = (wait + 2).min(20);
        }
    }

    /// options that come with any command, before or after it
    fn command(&mut self, name: &str, mut own: Vec<String>, fmt: Format, dry: bool) -> Vec<String> {
        let mut global: Vec<Vec<String>> = vec![];
        let d = self.place.dir.clone();
        global.push(vec!["-C".into(), d.join("config.yml").display().to_string()]);
        if self.rng.chance(1, 3) {
            global.push(vec!["-u".into(), self.server.url.clone()]);
        }
        if self.wallet.payer.is_some() {
            global.push(vec!["--fee-payer".into(), d.join("payer.json").display().to_string()]);
        }
        match fmt {
            Format::Text => (),
            Format::Verbose => global.push(vec![self.rng.copy(&["-v", "--verbose"]).into()]),
            Format::Json => global.push(vec!["--output".into(), "json".into()]),
            Format::Compact => global.push(vec!["--output".into(), "json-compact".into()]),
        }
        if dry {
            global.push(vec![self.rng.copy(&["--dry-run", "--dryrun"]).into()]);
        }
        let (mut before, mut after) = (vec![], vec![]);
        for g in global {
            if self.rng.chance(1, 2) {
                before.extend(g);
            } else {
                after.extend(g);
            }
        }
        before.push(name.into());
        if self.rng.chance(1, 2) {
            before.append(&mut own);
            before.extend(after);
        } else {
            before.extend(after);
            before.append(&mut own);
        }
        before
    }
    fn format(&mut self) -> Format {
        self.rng.copy(&[Format::Text, Format::Text, Format::Verbose, Format::Json, Format::Compact])
    }

    fn key(&mut self) -> Pubkey {
        Pubkey::new_from_array(self.rng.arr())
    }
    fn sent(&self) -> Vec<Sent> {
        self.chain.inner.lock().unwrap().sent.clone()
    }

    /// Evidence as it can be in a ledger: the ledger's own parser reads it.
    fn evidence(&mut self, slot: u64) -> (Pubkey, Vec<u8>, Vec<u8>) {
        loop {
            let p = self.env.any_conflict(slot);
            let ok = |s: &[u8]| {
                Shred::new_from_serialized_shred(s.to_vec()).is_ok()
                    && layout::get_merkle_root(s).map(|r| r.to_bytes()) == parse(s).ok().map(|p| p.root)
            };
            if ok(&p.s1) && ok(&p.s2) {
                return (self.env.leaders[p.leader].pk, p.s1, p.s2);
            }
        }
    }
}

fn report_bytes(h: &Header, proof: &[u8]) -> Vec<u8> {
    let mut d = vec![h.version];
    d.extend_from_slice(h.reporter.as_ref());
    d.extend_from_slice(h.destination.as_ref());
    d.extend_from_slice(&h.epoch.to_le_bytes());
    d.extend_from_slice(h.pubkey.as_ref());
    d.extend_from_slice(&h.slot.to_le_bytes());
    d.push(h.kind);
    assert_eq!(d.len(), REPORT_HEADER);
    d.extend_from_slice(proof);
    d
}

// ---- attach ------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Genuine,
    Prefunded,
    Already,
    TooOld,
    Future,
    WrongLeader,
    NoLeader,
    NoConflict,
    Legacy,
}

struct Dup {
    slot: u64,
    kind: Kind,
    leader: Pubkey,
    s1: Vec<u8>,
    s2: Vec<u8>,
    pda: Pubkey,
}

impl Dup {
    fn reportable(&self) -> bool {
        matches!(self.kind, Kind::Genuine | Kind::Prefunded)
    }
}

impl Scene<'_> {
    fn dup(&mut self, slot: u64, kind: Kind) -> Dup {
        let (mut leader, mut s1, mut s2) = self.evidence(slot);
        match kind {
            Kind::WrongLeader => leader = self.key(),
            Kind::NoConflict => s2 = s1.clone(),
            Kind::Legacy => {
                // shreds from before Merkle roots
                s1[64] = 0xa5;
                s2[64] = 0xa5;
            }
            _ => (),
        }
        let at = pda(&slash_id(), &leader, slot);
        if kind != Kind::NoLeader {
            self.chain.inner.lock().unwrap().leaders.insert(slot, leader);
        }
        let proof = model::pack(&s1, &s2);
        match kind {
            Kind::Already => {
                let h = Header {
                    version: 1,
                    reporter: self.key(),
                    destination: self.key(),
                    epoch: self.rng.below(1000),
                    pubkey: leader,
                    slot,
                    kind: 1,
                };
                let d = report_bytes(&h, &proof);
                let l = self.chain.rent(d.len());
                self.chain.put(&at, l, &d, &slash_id());
            }
            Kind::Prefunded => {
                let l = self.rng.copy(&[self.chain.rent(0), 1, self.chain.rent(3000) + 5]);
                self.chain.put(&at, l, &[], &SYSTEM);
            }
            _ => (),
        }
        Dup { slot, kind, leader, s1, s2, pda: at }
    }

    fn kind(&mut self) -> Kind {
        use Kind::*;
        if self.rng.chance(3, 5) {
            return if self.rng.chance(1, 8) { Prefunded } else { Genuine };
        }
        self.rng.copy(&[Already, Already, TooOld, Future, WrongLeader, NoLeader, NoConflict, Legacy])
    }

    /// distinct slots with the kinds the clock makes them
    fn dups(&mut self, n: usize, now: u64) -> Vec<Dup> {
        let mut used = BTreeSet::new();
        let mut v = vec![];
        let lo = now - EPOCH;
        while v.len() < n {
            let kind = self.kind();
            let slot = match kind {
                Kind::TooOld => lo - 1 - self.rng.below(50),
                Kind::Future => now + 1 + self.rng.below(50),
                _ => match self.rng.below(6) {
                    0 => lo,
                    1 => now,
                    2 => lo + self.rng.below(EPOCH),
                    _ => now - 60 + self.rng.below(60),
                },
            };
            if !used.insert(slot) {
                continue;
            }
            let d = self.dup(slot, kind);
            v.push(d);
        }
        v.sort_by_key(|d| d.slot);
        v
    }

    fn store(&self, dups: &[&Dup]) {
        self.store_in("ledger", dups)
    }
    fn store_in(&self, name: &str, dups: &[&Dup]) {
        let b = Blockstore::open_with_options(
            &self.place.dir.join(name),
            BlockstoreOptions {
                enforce_ulimit_nofile: false,
                num_rocksdb_compaction_threads: std::num::NonZeroUsize::MIN,
                num_rocksdb_flush_threads: std::num::NonZeroUsize::MIN,
                ..BlockstoreOptions::default()
            },
        )
        .unwrap();
        for d in dups {
            b.store_duplicate_slot(d.slot, d.s1.clone(), d.s2.clone()).unwrap();
        }
    }
}

struct Attach {
    reporter: Pubkey,
    destination: Pubkey,
    start: Option<u64>,
    end: Option<u64>,
    before: Accounts,
    funds: BTreeMap<Pubkey, u64>,
    epoch: u64,
    dry: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Done,
    /// ended from outside, between two scans
    Scanning,
    /// cut off anywhere
    Cut,
}

impl Attach {
    fn within(&self, slot: u64) -> bool {
        slot >= self.start.unwrap_or(0) && slot <= self.end.unwrap_or(u64::MAX)
    }
}

impl Scene<'_> {
    fn attach_args(&mut self, dups: &[Dup], epoch: u64, dry: bool, ranged: bool) -> (Attach, Vec<String>) {
        let mut own: Vec<String> = vec![
            self.rng.copy(&["-l", "--ledger"]).into(),
            self.place.dir.join("ledger").display().to_string(),
        ];
        let me = self.wallet.signer.pubkey();
        let mut reporter = me;
        let mut destination = me;
        if self.rng.chance(1, 2) {
            reporter = self.key();
            own.extend(["--reporter".into(), reporter.to_string()]);
        }
        if self.rng.chance(1, 2) {
            destination = self.key();
            own.extend(["--destination".into(), destination.to_string()]);
        }
        let (mut start, mut end) = (None, None);
        if ranged && !dups.is_empty() {
            let edge = |r: &mut Rng| {
                let s = dups[r.us(dups.len())].slot;
                (s + r.below(3)).saturating_sub(1)
            };
            if self.rng.chance(1, 2) {
                start = Some(edge(&mut self.rng));
            }
            if self.rng.chance(1, 2) {
                end = Some(edge(&mut self.rng));
            }
            if let Some(s) = start {
                own.extend(["--start-slot".into(), s.to_string()]);
            }
            if let Some(e) = end {
                own.extend(["--end-slot".into(), e.to_string()]);
            }
        }
        let mut funds = BTreeMap::new();
        for k in [me, self.wallet.payer()].into_iter().chain(dups.iter().map(|d| d.pda)) {
            funds.insert(k, self.chain.balance(&k));
        }
        let a = Attach {
            reporter,
            destination,
            start,
            end,
            before: self.chain.owned(&slash_id()),
            funds,
            epoch,
            dry,
        };
        (a, own)
    }

    /// What attaching must have done.
    fn judge_attach(&mut self, a: &Attach, dups: &[Dup], r: &Ran, end: End) {
        const P: &str = "C20";
        if self.moot.is_some() {
            return;
        }
        if let Some(p) = r.panicked() {
            self.bad(P, format!("attach ends with a panic: {p}"));
        }
        let sent = self.sent();
        let faults = self.chain.inner.lock().unwrap().faults.clone();
        let hit = |f: &dyn Fn(&What) -> bool| faults.iter().filter(|x| x.hit && f(&x.what)).count();
        let lost_proofs = hit(&|w| matches!(w, What::NthInit(_) | What::NthWrite(_) | What::NthBlockhash(_)));
        let lost_closes = hit(&|w| matches!(w, What::NthCloseProof(_) | What::NthBlockhash(_)));
        let after = self.chain.owned(&slash_id());
        // reports made
        let mut new = 0u64;
        let mut new_lamports = 0u64;
        let mut missing = vec![];
        for d in dups {
            if d.kind == Kind::Already {
                continue;
            }
            let rep = after.get(&d.pda);
            let due = d.reportable() && a.within(d.slot);
            let stopping = [What::Report(d.slot), What::Leader(d.slot), What::NthRead(d.pda, 0)];
            let faulted = faults.iter().any(|f| f.hit && stopping.contains(&f.what));
            match rep {
                Some(rep) => {
                    new += 1;
                    new_lamports += rep.lamports().saturating_sub(a.funds.get(&d.pda).copied().unwrap_or(0));
                    if !due {
                        self.bad(P, format!("slot {} ({:?}) is reported", d.slot, d.kind));
                    }
                    let want = Header {
                        version: 1,
                        reporter: a.reporter,
                        destination: a.destination,
                        epoch: a.epoch,
                        pubkey: d.leader,
                        slot: d.slot,
                        kind: 1,
                    };
                    let proof = model::pack(&d.s1, &d.s2);
                    let full = report_bytes(&want, &proof);
                    let is = rep.data();
                    if is.get(..REPORT_HEADER) != Some(&full[..REPORT_HEADER]) {
                        self.bad(P, format!("the report of slot {} has header {}, not {}", d.slot, hex(&is[..REPORT_HEADER.min(is.len())]), hex(&full[..REPORT_HEADER])));
                    } else if is.get(..full.len()) != Some(&full[..]) || is[full.len()..].iter().any(|b| *b != 0) {
                        self.bad(P, format!("the report of slot {} does not hold the ledger's two shreds", d.slot));
                    }
                }
                None if due && faulted => self.hit("attach: submission refused"),
                None if due => missing.push(d.slot),
                None => self.hit(format!("attach: {:?} not reported", if a.within(d.slot) { Some(d.kind) } else { None })),
            }
        }
        if end != End::Cut && missing.len() > lost_proofs {
            self.bad(P, format!("slots {missing:?} are reportable but not reported ({lost_proofs} proof submissions failed)"));
        }
        *self.cover.entry("attach: reported".into()).or_default() += new;
        // nothing else
        for (k, x) in &after {
            match a.before.get(k) {
                Some(b) if b.data() != x.data() || b.lamports() != x.lamports() => {
                    self.bad(P, format!("the earlier report {k} changed"))
                }
                Some(_) => (),
                None if dups.iter().any(|d| d.pda == *k) => (),
                None => self.bad(P, format!("an unexpected report {k}")),
            }
        }
        for k in a.before.keys() {
            if !after.contains_key(k) {
                self.bad(P, format!("the earlier report {k} is gone"));
            }
        }
        for s in &sent {
            for x in &s.acts {
                if let Act::Report { slot, pda, .. } = x {
                    match dups.iter().find(|d| d.slot == *slot) {
                        None => self.bad(P, format!("a report of slot {slot}, which is no duplicate slot")),
                        Some(d) if !a.within(*slot) => {
                            self.bad(P, format!("a report of slot {slot} ({:?}), outside the range {:?}..{:?}", d.kind, a.start, a.end))
                        }
                        Some(d) if d.kind == Kind::Already => {
                            self.bad(P, format!("slot {slot}, already reported, is reported again"))
                        }
                        Some(d) if d.pda != *pda && d.kind != Kind::NoLeader => {
                            self.bad(P, format!("the report of slot {slot} is at {pda}, not {}", d.pda))
                        }
                        _ => (),
                    }
                }
            }
        }
        if end != End::Done {
            return;
        }
        // proof accounts are returned
        let left = self.chain.owned(&record_id());
        if left.len() > lost_closes {
            self.bad(P, format!("{} proof accounts are left open ({lost_closes} closes failed): {}", left.len(), r.tail()));
        }
        let fees = self.chain.inner.lock().unwrap().fees.clone();
        let payer = self.wallet.payer();
        let paid = a.funds[&payer].saturating_sub(self.chain.balance(&payer));
        let due = fees.get(&payer).copied().unwrap_or(0)
            + new_lamports
            + left.values().map(|x| x.lamports()).sum::<u64>();
        if paid != due {
            self.bad(P, format!("the payer paid {paid} lamports, for fees, reports and open accounts worth {due}"));
        }
        let me = self.wallet.signer.pubkey();
        if me != payer && self.chain.balance(&me) != a.funds[&me] {
            self.bad(P, "an account other than the fee payer paid".into());
        }
        let want = format!("Reported {new} violations");
        if r.panicked().is_none() && r.out.lines().next_back().map(str::trim) != Some(&want) {
            self.bad(P, format!("{new} slots were reported: {}", r.tail()));
        }
        if faults.is_empty() && r.code != Some(0) && r.panicked().is_none() {
            self.bad(P, format!("attach fails: {}", r.tail()));
        }
    }

    fn clock(&mut self) -> (u64, u64) {
        let now = match self.rng.below(3) {
            0 => EPOCH * 2 + self.rng.below(10 * EPOCH),
            _ => 300_000_000 + self.rng.below(1 << 30),
        };
        (now, now / EPOCH)
    }

    fn faults(&mut self, dups: &[Dup]) {
        if !self.rng.chance(2, 5) {
            return;
        }
        let n = dups.len().max(1);
        for _ in 0..1 + self.rng.us(2) {
            let d = self.rng.us(n);
            let what = match self.rng.below(7) {
                // once everything is created, written, submitted and closed
                3 => What::NthBlockhash(1 + self.rng.us(7 * n)),
                4 => What::Leader(dups[d].slot),
                5 => What::NthRead(dups[d].pda, self.rng.us(2)),
                0 => What::NthInit(self.rng.us(n)),
                1 => What::NthWrite(self.rng.us(4 * n)),
                2 => What::NthCloseProof(self.rng.us(n)),
                _ => What::Report(dups[self.rng.us(n)].slot),
            };
            let mode = match what {
                What::NthBlockhash(_) | What::Leader(_) | What::NthRead(..) => Mode::Internal,
                _ => self.rng.copy(&[Mode::Preflight, Mode::Internal, Mode::OnChain]),
            };
            self.hit(format!("fault: {} {mode:?}", format!("{what:?}").split('(').next().unwrap()));
            self.chain.inner.lock().unwrap().faults.push(Fault { what, mode, hit: false });
        }
    }

    fn attach(&mut self) {
        let (now, epoch) = self.clock();
        self.new_chain(now, epoch);
        let n = match self.rng.below(40) {
            0 => 0,
            1 => 12 + self.rng.us(20),
            _ => 1 + self.rng.us(6),
        };
        let dups = self.dups(n, now);
        self.story.push(json!({"now": now, "slots": dups.iter().map(|d| format!("{} {:?} {}", d.slot, d.kind, d.leader)).collect::<Vec<_>>()}));
        self.store(&dups.iter().collect::<Vec<_>>());
        if n > 0 {
            self.faults(&dups);
        }
        let (a, own) = self.attach_args(&dups, epoch, false, true);
        let fmt = self.format();
        let args = self.command("attach", own, fmt, false);
        let r = self.run(&args);
        self.judge_attach(&a, &dups, &r, End::Done);
        self.hit("runs: attach");
        // a second time: what failed is tried again, what was reported is not
        if self.moot.is_none() && self.bad.is_empty() && self.rng.chance(1, 4) {
            self.attach_again(dups, epoch, fmt);
            self.hit("runs: attach again");
        }
    }

    fn attach_again(&mut self, mut dups: Vec<Dup>, epoch: u64, fmt: Format) {
        let left: Vec<_> = self.chain.owned(&record_id()).into_keys().collect();
        for k in left {
            self.chain.put(&k, 0, &[], &SYSTEM);
        }
        let done = self.chain.owned(&slash_id());
        for d in dups.iter_mut() {
            if done.contains_key(&d.pda) {
                d.kind = Kind::Already;
            }
        }
        {
            let mut i = self.chain.inner.lock().unwrap();
            i.sent.clear();
            i.faults.clear();
            i.fees.clear();
        }
        let (a, own) = self.attach_args(&dups, epoch, false, true);
        let args = self.command("attach", own, fmt, false);
        let r = self.run(&args);
        self.judge_attach(&a, &dups, &r, End::Done);
    }

    /// Attaching is cut off at some submission; then attaching again.
    fn attach_cut(&mut self) {
        let (now, epoch) = self.clock();
        self.new_chain(now, epoch);
        let n = 1 + self.rng.us(4);
        let dups = self.dups(n, now);
        let (a, own) = self.attach_args(&dups, epoch, false, true);
        let due = dups.iter().filter(|d| a.within(d.slot) && d.kind != Kind::Already).count();
        // creating, four writes, reporting, closing
        let cut = (self.rng.us(7 * due + 1), self.rng.chance(1, 2));
        self.story.push(json!({"now": now, "cut": format!("{cut:?}"), "slots": dups.iter().map(|d| format!("{} {:?}", d.slot, d.kind)).collect::<Vec<_>>()}));
        self.store(&dups.iter().collect::<Vec<_>>());
        self.chain.inner.lock().unwrap().cut = Some(cut);
        let fmt = self.format();
        let args = self.command("attach", own, fmt, false);
        let mut c = self.spawn(&args);
        let t = Instant::now();
        let (mut code, mut late) = (None, false);
        loop {
            if let Some(x) = c.try_wait().unwrap() {
                code = x.code();
                break;
            }
            if self.chain.inner.lock().unwrap().cut_off {
                break;
            }
            if t.elapsed() > limit() {
                late = true;
                break;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        let _ = c.kill();
        let _ = c.wait();
        let off = {
            let mut i = self.chain.inner.lock().unwrap();
            i.cut = None;
            std::mem::take(&mut i.cut_off)
        };
        let r = self.gather(&args, code, late);
        self.judge_attach(&a, &dups, &r, if off { End::Cut } else { End::Done });
        self.hit(if off { "runs: attach cut off" } else { "runs: attach ends before the cut" });
        if self.moot.is_none() && self.bad.is_empty() {
            self.attach_again(dups, epoch, fmt);
            self.hit("runs: attach again after a cut");
        }
    }

    /// Several watchers see the same violations at the same time.
    fn attach_race(&mut self) {
        const P: &str = "C20";
        let (now, epoch) = self.clock();
        self.new_chain(now, epoch);
        let n = 1 + self.rng.us(4);
        let dups = self.dups(n, now);
        self.story.push(json!({"now": now, "race": true, "slots": dups.iter().map(|d| format!("{} {:?}", d.slot, d.kind)).collect::<Vec<_>>()}));
        let before = self.chain.owned(&slash_id());
        let many = 2 + self.rng.us(2);
        let mut who = vec![];
        for w in 0..many {
            let k = solana_sdk::signature::keypair_from_seed(&self.rng.arr::<32>()).unwrap();
            self.chain.put(&k.pubkey(), FUNDS, &[], &SYSTEM);
            let key = self.place.dir.join(format!("w{w}.json"));
            std::fs::write(&key, serde_json::to_string(&k.to_bytes().to_vec()).unwrap()).unwrap();
            let config = self.place.dir.join(format!("w{w}.yml"));
            std::fs::write(&config, format!(
                "---\njson_rpc_url: \"{}\"\nwebsocket_url: \"\"\nkeypair_path: \"{}\"\naddress_labels: {{}}\ncommitment: confirmed\n",
                self.server.url, key.display())).unwrap();
            self.store_in(&format!("ledger{w}"), &dups.iter().collect::<Vec<_>>());
            who.push((k.pubkey(), vec![
                "-C".to_string(), config.display().to_string(), "attach".into(),
                "--ledger".into(), self.place.dir.join(format!("ledger{w}")).display().to_string(),
            ]));
        }
        let mut running = vec![];
        for (w, (_, args)) in who.iter().enumerate() {
            running.push(self.spawn_as(&w.to_string(), args));
            if self.rng.chance(1, 2) {
                std::thread::sleep(Duration::from_millis(self.rng.below(120)));
            }
        }
        let t = Instant::now();
        let mut codes = vec![None; many];
        let mut late = false;
        for (w, c) in running.iter_mut().enumerate() {
            codes[w] = loop {
                if let Some(s) = c.try_wait().unwrap() {
                    break s.code();
                }
                if t.elapsed() > limit() {
                    late = true;
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(5));
            };
        }
        let ran: Vec<Ran> = (0..many).map(|w| self.gather_as(&w.to_string(), &who[w].1, codes[w], late)).collect();
        self.hit("runs: several attached at once");
        if self.moot.is_some() {
            return;
        }
        let after = self.chain.owned(&slash_id());
        let mut made = vec![0u64; many];
        for d in &dups {
            if d.kind == Kind::Already {
                if after.get(&d.pda).map(|x| x.data()) != before.get(&d.pda).map(|x| x.data()) {
                    self.bad(P, format!("the earlier report of slot {} changed", d.slot));
                }
                continue;
            }
            match after.get(&d.pda) {
                None if d.reportable() => self.bad(P, format!("{many} attached at once, slot {} is not reported: {}", d.slot, ran[0].tail())),
                Some(_) if !d.reportable() => self.bad(P, format!("slot {} ({:?}) is reported", d.slot, d.kind)),
                Some(x) => {
                    let by = who.iter().position(|w| x.data().get(1..33) == Some(w.0.as_ref()) && x.data().get(33..65) == Some(w.0.as_ref()));
                    match by {
                        Some(w) => made[w] += 1,
                        None => self.bad(P, format!("the report of slot {} names neither of the reporters", d.slot)),
                    }
                    let full = model::pack(&d.s1, &d.s2);
                    if x.data().get(REPORT_HEADER..REPORT_HEADER + full.len()) != Some(&full[..]) {
                        self.bad(P, format!("the report of slot {} does not hold the ledger's two shreds", d.slot));
                    }
                }
                None => (),
            }
        }
        if !self.chain.owned(&record_id()).is_empty() {
            self.bad(P, format!("{} proof accounts are left open", self.chain.owned(&record_id()).len()));
        }
        for (w, r) in ran.iter().enumerate() {
            if let Some(x) = r.panicked() {
                self.bad(P, format!("attach ends with a panic: {x}"));
            } else if r.code != Some(0) {
                self.bad(P, format!("attach fails: {}", r.tail()));
            } else if r.out.lines().next_back().map(str::trim) != Some(&format!("Reported {} violations", made[w])) {
                self.bad(P, format!("one of {many} reported {}: {}", made[w], r.tail()));
            }
        }
        let refused = self.sent().iter().filter(|s| !matches!(s.outcome, Outcome::Landed)).count();
        if refused > 0 {
            self.hit("attach: lost a race");
        }
    }

    /// Violations keep being found while attached.
    fn attach_continuously(&mut self) {
        let (now, epoch) = self.clock();
        self.new_chain(now, epoch);
        let n = 2 + self.rng.us(4);
        let dups = self.dups(n, now);
        let mut order: Vec<usize> = (0..n).collect();
        if self.rng.chance(1, 2) {
            for i in (1..n).rev() {
                order.swap(i, self.rng.us(i + 1));
            }
        }
        let first = self.rng.us(n);
        self.story.push(json!({"now": now, "continuous": true, "first": first, "order": order,
            "slots": dups.iter().map(|d| format!("{} {:?}", d.slot, d.kind)).collect::<Vec<_>>()}));
        self.store(&order[..first].iter().map(|i| &dups[*i]).collect::<Vec<_>>());
        self.faults(&dups);
        let (mut a, own) = self.attach_args(&dups, epoch, false, false);
        let mut own = own;
        if self.rng.chance(1, 2) {
            let s = dups[self.rng.us(n)].slot;
            a.start = Some(s);
            own.extend(["--start-slot".into(), s.to_string()]);
        }
        own.extend(["--continuous".into(), "--scan-interval".into(), "1".into()]);
        let fmt = self.rng.copy(&[Format::Text, Format::Verbose]);
        let args = self.command("attach", own, fmt, false);
        let mut c = self.spawn(&args);
        let scans = |s: &Self| {
            std::fs::read_to_string(s.place.dir.join("stdout")).unwrap_or_default().matches("Scanning again").count()
        };
        let t = Instant::now();
        let mut ended = None;
        let mut wait_for = |s: &Self, c: &mut std::process::Child, n: usize| loop {
            if scans(s) >= n {
                return true;
            }
            if let Some(x) = c.try_wait().unwrap() {
                ended = Some(x.code());
                return false;
            }
            if t.elapsed() > limit() {
                return false;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let mut alive = wait_for(self, &mut c, 1);
        for k in first..n {
            if !alive {
                break;
            }
            // in the meantime
            self.store(&[&dups[order[k]]]);
            if self.rng.chance(1, 2) || k + 1 == n {
                let s = scans(self);
                alive = wait_for(self, &mut c, s + 2);
            }
        }
        let _ = c.kill();
        let _ = c.wait();
        let timed_out = !alive && ended.is_none();
        let r = self.gather(&args, ended.flatten(), timed_out);
        if ended.is_some() && self.moot.is_none() && r.panicked().is_none() {
            self.bad("C20", format!("continuous attaching ends: {}", r.tail()));
        }
        self.judge_attach(&a, &dups, &r, End::Scanning);
        let lost = self.chain.inner.lock().unwrap().faults.iter().filter(|f| f.hit && matches!(f.what, What::NthCloseProof(_) | What::NthBlockhash(_))).count();
        let left = self.chain.owned(&record_id()).len();
        if alive && left > lost {
            self.bad("C20", format!("{left} proof accounts are left open between scans"));
        }
        self.hit("runs: attach continuously");
    }

    // ---- reports on chain ---------------------------------------------

    /// A chain full of reports; and program-owned accounts that are none.
    fn reports(&mut self, epoch: u64, hostile: bool) -> Vec<(Pubkey, Header, Vec<u8>, u64)> {
        let n = self.rng.us(9);
        let (nodes, reps, dests): (Vec<_>, Vec<_>, Vec<_>) = (
            (0..3).map(|_| self.key()).collect(),
            (0..3).map(|_| self.key()).collect(),
            (0..3).map(|_| self.key()).collect(),
        );
        let mut v = vec![];
        let mut used = BTreeSet::new();
        let base = self.rng.below(1 << 33);
        for _ in 0..n {
            let slot = match self.rng.below(6) {
                0 => self.rng.below(3),
                1 => base ^ (1 << 32),
                2 => u64::MAX - self.rng.below(3),
                _ => base + self.rng.below(6),
            };
            let (s1, s2) = if self.rng.chance(1, 3) {
                // whatever the program accepts
                let p = self.env.any_conflict(slot);
                (p.s1, p.s2)
            } else {
                let (_, a, b) = self.evidence(slot);
                (a, b)
            };
            let node = self.rng.copy(&nodes);
            if !used.insert((node, slot)) {
                continue;
            }
            let age = self.rng.copy(&[0, 1, 2, 2, 3, 3, 4, 5, 100]);
            let destination = if hostile && self.rng.chance(1, 8) {
                // cannot be credited
                self.rng.copy(&[SYSTEM, solana_program::sysvar::clock::ID, slash_id()])
            } else {
                self.rng.copy(&dests)
            };
            let h = Header {
                version: 1,
                reporter: self.rng.copy(&reps),
                destination,
                epoch: epoch.saturating_sub(age),
                pubkey: node,
                slot,
                kind: 1,
            };
            let proof = model::pack(&s1, &s2);
            let d = report_bytes(&h, &proof);
            let extra = self.rng.copy(&[0, 0, 1, 77_777_777]);
            let l = self.chain.rent(d.len()) + extra;
            let at = pda(&slash_id(), &node, slot);
            self.chain.put(&at, l, &d, &slash_id());
            v.push((at, h, proof, l));
        }
        if hostile {
            // anyone can make program-owned accounts of zeroes
            for _ in 0..self.rng.us(3) {
                let len = self.rng.copy(&[0usize, 1, 50, 113, 114, 115, 200, 3000]);
                let k = self.key();
                let l = self.chain.rent(len);
                self.chain.put(&k, l, &vec![0; len], &slash_id());
                self.hit(format!("zeroed account of {}", if len < 114 { "less than a report" } else { "a report's size" }));
            }
        }
        v
    }

    fn filters(&mut self, v: &[(Pubkey, Header, Vec<u8>, u64)], close: bool) -> (Vec<String>, Filter) {
        let mut f = Filter::default();
        let mut own = vec![];
        let any = |s: &mut Self| -> (Pubkey, Header) {
            if v.is_empty() || s.rng.chance(1, 8) {
                let k = s.key();
                (k, Header { version: 1, reporter: k, destination: k, epoch: 77, pubkey: k, slot: 0, kind: 1 })
            } else {
                let x = &v[s.rng.us(v.len())];
                (x.0, x.1.clone())
            }
        };
        // filters that fit together, or not
        let one = any(self);
        let from = |s: &mut Self| if s.rng.chance(2, 3) { one.clone() } else { any(s) };
        if self.rng.chance(1, 3) {
            let k = from(self).1.pubkey;
            f.node = Some(k);
            if close {
                own.push(vec!["--node-pubkey".to_string(), k.to_string()]);
            } else {
                own.push(vec![k.to_string()]);
            }
        }
        if self.rng.chance(1, 3) {
            let k = from(self).1.reporter;
            f.reporter = Some(k);
            own.push(vec!["--reporter".into(), k.to_string()]);
        }
        if close {
            if self.rng.chance(1, 5) {
                let k = from(self).0;
                f.report = Some(k);
                own.push(vec![k.to_string()]);
            }
            if self.rng.chance(1, 3) {
                let k = from(self).1.destination;
                f.destination = Some(k);
                own.push(vec!["--destination".into(), k.to_string()]);
            }
        } else if self.rng.chance(1, 3) {
            let e = from(self).1.epoch;
            f.epoch = Some(e);
            own.push(vec!["--epoch".into(), e.to_string()]);
        }
        let mut o = vec![];
        while !own.is_empty() {
            o.extend(own.remove(self.rng.us(own.len())));
        }
        (o, f)
    }

    fn close(&mut self, dry: bool) {
        let p: &'static str = if dry { "C23" } else { "C21" };
        let epoch: u64 = self.rng.copy(&[0, 2, 3, 4, 5, 700, 1000, 1 << 40]);
        let now = epoch.saturating_mul(EPOCH) + self.rng.below(EPOCH);
        self.new_chain(now, epoch);
        let hostile = self.rng.chance(1, 2);
        let v = self.reports(epoch, hostile);
        let (own, f) = self.filters(&v, true);
        let eligible: Vec<_> = v.iter().filter(|x| x.1.epoch + 3 <= epoch && f.fits(&x.0, &x.1)).collect();
        let creditable = |k: &Pubkey| ![SYSTEM, solana_program::sysvar::clock::ID, slash_id()].contains(k);
        if !dry && self.rng.chance(1, 4) {
            for _ in 0..1 + self.rng.us(2) {
                if let Some(x) = (!eligible.is_empty()).then(|| eligible[self.rng.us(eligible.len())]) {
                    let mut mode = self.rng.copy(&[Mode::Preflight, Mode::Internal, Mode::OnChain]);
                    let mut what = What::CloseReport(x.0);
                    if self.rng.chance(1, 4) {
                        what = What::NthBlockhash(1 + self.rng.us(eligible.len()));
                        mode = Mode::Internal;
                    }
                    self.hit(format!("fault: {} {mode:?}", format!("{what:?}").split('(').next().unwrap()));
                    self.chain.inner.lock().unwrap().faults.push(Fault { what, mode, hit: false });
                }
            }
        }
        self.story.push(json!({"epoch": epoch, "filter": format!("{f:?}"),
            "reports": v.iter().map(|x| format!("{} epoch {} node {} reporter {} destination {}", x.0, x.1.epoch, x.1.pubkey, x.1.reporter, x.1.destination)).collect::<Vec<_>>(),
            "others": self.chain.owned(&slash_id()).iter().filter(|(k, _)| v.iter().all(|x| x.0 != **k)).map(|(_, a)| a.data().len()).collect::<Vec<_>>()}));
        let before = self.chain.owned(&slash_id());
        let dests: BTreeMap<Pubkey, u64> =
            v.iter().map(|x| (x.1.destination, self.chain.balance(&x.1.destination))).collect();
        let payer = self.wallet.payer();
        let had = self.chain.balance(&payer);
        let fmt = self.format();
        let args = self.command("close", own, fmt, dry);
        let r = self.run(&args);
        self.hit(format!("runs: close{}", if dry { " dry" } else { "" }));
        if self.moot.is_some() {
            return;
        }
        if let Some(x) = r.panicked() {
            self.bad(p, format!("close ends with a panic: {x}"));
            return;
        }
        let faults = self.chain.inner.lock().unwrap().faults.clone();
        let faulted = |k: &Pubkey| faults.iter().any(|f| f.what == What::CloseReport(*k));
        if dry {
            self.judge_dry(&r, &before, had, matches!(fmt, Format::Text | Format::Verbose));
            if matches!(fmt, Format::Json | Format::Compact) {
                if let Err(e) = serde_json::from_str::<Value>(&r.out) {
                    self.bad(p, format!("the JSON output of a dry run does not parse ({e}): {}", r.tail()));
                }
            }
            let tried: BTreeSet<(Pubkey, Pubkey)> = self
                .sent()
                .iter()
                .flat_map(|s| s.acts.clone())
                .filter_map(|a| match a {
                    Act::CloseReport { report, destination } => Some((report, destination)),
                    _ => None,
                })
                .collect();
            let want: BTreeSet<_> = eligible.iter().map(|x| (x.0, x.1.destination)).collect();
            if tried != want {
                self.bad(p, format!("a dry run simulates closing {tried:?}, a real one would close {want:?}: {}", r.tail()));
            }
            return;
        }
        // the chain
        let after = self.chain.owned(&slash_id());
        let mut gain: BTreeMap<Pubkey, u64> = BTreeMap::new();
        let mut closed = BTreeMap::new();
        // a failing read concerns one of them
        let mut unread = faults.iter().filter(|f| f.hit && matches!(f.what, What::NthBlockhash(_))).count();
        for (at, h, _, l) in &v {
            let due = eligible.iter().any(|x| x.0 == *at);
            let can = creditable(&h.destination) && !faulted(at);
            match after.get(at) {
                None => {
                    *gain.entry(h.destination).or_default() += l;
                    closed.insert(*at, (h.clone(), *l));
                    if !due {
                        self.bad(p, format!("report {at} (epoch {}, now {epoch}) is closed, filter {f:?}", h.epoch));
                    }
                }
                Some(x) => {
                    if due && can && unread > 0 {
                        unread -= 1;
                    } else if due && can {
                        self.bad(p, format!("report {at} is not closed: {}", r.tail()));
                    }
                    if before.get(at).map(|b| (b.data(), b.lamports())) != Some((x.data(), x.lamports())) {
                        self.bad(p, format!("report {at} changed"));
                    }
                }
            }
        }
        for (k, b) in &before {
            if !v.iter().any(|x| x.0 == *k) && after.get(k).map(|x| x.lamports()) != Some(b.lamports()) {
                self.bad(p, format!("account {k}, not a report, changed"));
            }
        }
        *self.cover.entry("close: closed".into()).or_default() += closed.len() as u64;
        *self.cover.entry("close: kept".into()).or_default() += (v.len() - closed.len()) as u64;
        for (k, l) in &dests {
            let is = self.chain.balance(k);
            let want = l + gain.get(k).copied().unwrap_or(0);
            if is != want {
                self.bad(p, format!("destination {k} has {is} lamports, not {want}"));
            }
        }
        let fees = self.chain.inner.lock().unwrap().fees.get(&payer).copied().unwrap_or(0);
        if self.chain.balance(&payer) + fees != had && !dests.contains_key(&payer) {
            self.bad(p, "the payer paid more than fees".into());
        }
        // what it says
        let listed = match fmt {
            Format::Json | Format::Compact => {
                let v: Value = match serde_json::from_str(&r.out) {
                    Ok(v) => v,
                    Err(e) => {
                        self.bad(p, format!("the JSON output does not parse ({e}): {}", r.tail()));
                        return;
                    }
                };
                let l = v["commandOutput"][1].as_array().cloned().unwrap_or_default();
                l.iter()
                    .map(|x| {
                        let s = |k: &str| x[k].as_str().unwrap_or("").to_string();
                        (s("reportAccount"), s("pubkey"), s("reporter"), s("destination"), x["lamports"].as_u64().unwrap_or(0))
                    })
                    .collect::<Vec<_>>()
            }
            _ => {
                let mut l = vec![];
                let mut cur: Option<(String, String, String, String, u64)> = None;
                for line in r.out.lines() {
                    let w = |p: &str| line.trim().strip_prefix(p).map(|s| s.trim().to_string());
                    if let Some(x) = w("Closed report account") {
                        l.extend(cur.take());
                        cur = Some((x, String::new(), String::new(), String::new(), 0));
                    } else if let Some(c) = cur.as_mut() {
                        if let Some(x) = w("Violator:") {
                            c.1 = x;
                        } else if let Some(x) = w("Reporter:") {
                            c.2 = x;
                        } else if let Some(x) = w("Reclaimed") {
                            let t: Vec<&str> = x.split_whitespace().collect();
                            if t.len() == 4 {
                                c.4 = t[0].parse().unwrap_or(0);
                                c.3 = t[3].into();
                            }
                        }
                    }
                }
                l.extend(cur);
                l
            }
        };
        let mut listed = listed;
        listed.sort();
        let mut want: Vec<_> = closed
            .iter()
            .map(|(k, (h, l))| (k.to_string(), h.pubkey.to_string(), h.reporter.to_string(), h.destination.to_string(), *l))
            .collect();
        want.sort();
        if listed != want {
            self.bad(p, format!("closed {want:?}, listed {listed:?}"));
        }
        if matches!(fmt, Format::Text | Format::Verbose) {
            let field = |n: &str| {
                r.out.lines().find_map(|l| l.trim().strip_prefix(n)).and_then(|s| s.trim().parse::<u64>().ok())
            };
            let sum: u64 = closed.values().map(|x| x.1).sum();
            let early = v.iter().filter(|x| x.1.epoch + 3 > epoch).count() as u64;
            if field("Closed reports:") != Some(closed.len() as u64) {
                self.bad(p, format!("{} reports closed: {}", closed.len(), r.tail()));
            }
            if field("Total lamports recovered:") != Some(sum) {
                self.bad(p, format!("{sum} lamports recovered: {}", r.tail()));
            }
            if f == Filter::default() && field("Reports too soon to close:") != Some(early) {
                self.bad(p, format!("{early} reports are too young: {}", r.tail()));
            }
        }
        if faults.is_empty() && eligible.iter().all(|x| creditable(&x.1.destination)) && r.code != Some(0) {
            self.bad(p, format!("close fails: {}", r.tail()));
        }
    }

    /// `told`: whether the output covers every simulation (text, and the
    /// command ended by itself)
    fn judge_dry(&mut self, r: &Ran, before: &Accounts, had: u64, told: bool) {
        const P: &str = "C23";
        if self.moot.is_some() {
            return;
        }
        let n = self.chain.inner.lock().unwrap().calls.get("sendTransaction").copied().unwrap_or(0);
        if n > 0 {
            self.bad(P, format!("a dry run submits {n} transactions: {:?}", r.args));
        }
        for m in ["requestAirdrop"] {
            if self.chain.inner.lock().unwrap().calls.contains_key(m) {
                self.bad(P, format!("a dry run calls {m}"));
            }
        }
        let after = self.chain.owned(&slash_id());
        let same = after.len() == before.len()
            && after.iter().all(|(k, x)| before.get(k).is_some_and(|b| b.data() == x.data() && b.lamports() == x.lamports()));
        if !same || !self.chain.owned(&record_id()).is_empty() || self.chain.balance(&self.wallet.payer()) != had {
            self.bad(P, format!("a dry run changes the chain: {:?}", r.args));
        }
        // what it says of the simulations
        let count = |ok: bool| self.sent().iter().filter(|s| s.outcome == Outcome::Simulated(ok)).count();
        let (good, failed) = (count(true), count(false));
        let said = r.out.matches("Simulation succeeded").count();
        if said > good || told && r.code == Some(0) && said != good {
            self.bad(P, format!("{said} simulations reported as succeeded, {good} did and {failed} did not: {}", r.tail()));
        }
        *self.cover.entry("dry: simulations succeeded".into()).or_default() += good as u64;
        *self.cover.entry("dry: simulations failed".into()).or_default() += failed as u64;
    }

    fn attach_dry(&mut self) {
        const P: &str = "C23";
        let (now, epoch) = self.clock();
        self.new_chain(now, epoch);
        let n = 1 + self.rng.us(4);
        let dups = self.dups(n, now);
        self.story.push(json!({"now": now, "dry": true, "slots": dups.iter().map(|d| format!("{} {:?}", d.slot, d.kind)).collect::<Vec<_>>()}));
        self.store(&dups.iter().collect::<Vec<_>>());
        let continuous = self.rng.chance(1, 6);
        let (a, mut own) = self.attach_args(&dups, epoch, true, !continuous);
        let had = self.chain.balance(&self.wallet.payer());
        let fmt = if continuous { Format::Text } else { self.format() };
        let r = if continuous {
            own.extend(["--continuous".into(), "--scan-interval".into(), "1".into()]);
            let args = self.command("attach", own, fmt, true);
            let mut c = self.spawn(&args);
            let t = Instant::now();
            let mut ended = None;
            let scans = 1 + self.rng.us(2);
            while t.elapsed() < limit() {
                ended = c.try_wait().unwrap();
                let out = std::fs::read_to_string(self.place.dir.join("stdout")).unwrap_or_default();
                if ended.is_some() || out.matches("Scanning again").count() >= scans {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            let late = t.elapsed() >= limit();
            let _ = c.kill();
            let _ = c.wait();
            self.hit("runs: attach dry continuously");
            // being ended here is no failure
            let code = ended.map_or(Some(0), |x| x.code());
            self.gather(&args, code, late)
        } else {
            let args = self.command("attach", own, fmt, true);
            self.hit("runs: attach dry");
            self.run(&args)
        };
        if self.moot.is_some() {
            return;
        }
        if let Some(x) = r.panicked() {
            self.bad(P, format!("a dry run panics: {x}"));
            return;
        }
        self.judge_dry(&r, &a.before, had, !continuous && matches!(fmt, Format::Text | Format::Verbose));
        // the same work
        let acts: Vec<Act> = self.sent().into_iter().flat_map(|s| s.acts).collect();
        for d in &dups {
            let reported = acts.iter().find_map(|x| match x {
                Act::Report { slot, proof, node, .. } if *slot == d.slot => Some((*proof, *node)),
                _ => None,
            });
            let due = d.reportable() && a.within(d.slot);
            match reported {
                None if due => self.bad(P, format!("a dry run does not simulate the report of slot {}: {}", d.slot, r.tail())),
                Some(_) if !a.within(d.slot) || d.kind == Kind::Already => {
                    self.bad(P, format!("a dry run simulates a report of slot {} ({:?})", d.slot, d.kind))
                }
                Some((proof, node)) if due => {
                    if node != d.leader {
                        self.bad(P, format!("a dry run simulates a report of {node}, not {}", d.leader));
                    }
                    let want = model::pack(&d.s1, &d.s2);
                    let mut is = vec![0u8; want.len()];
                    let mut init = false;
                    let mut close = false;
                    for x in &acts {
                        match x {
                            Act::Init { proof: q } if *q == proof => init = true,
                            Act::CloseProof { proof: q } if *q == proof => close = true,
                            Act::Write { proof: q, offset, data } if *q == proof => {
                                let o = *offset as usize;
                                if o + data.len() <= is.len() {
                                    is[o..o + data.len()].copy_from_slice(data);
                                }
                            }
                            _ => (),
                        }
                    }
                    if is != want || !init || !close {
                        self.bad(P, format!("a dry run simulates only part of the work for slot {}: created {init}, closed {close}, proof complete {}", d.slot, is == want));
                    }
                    self.hit("dry: report simulated");
                }
                _ => (),
            }
        }
        if a.dry && r.code != Some(0) {
            self.bad(P, format!("a dry run fails: {}", r.tail()));
        }
    }

    // ---- display -------------------------------------------------------

    fn display(&mut self, dry: bool) {
        let p: &'static str = if dry { "C23" } else { "C22" };
        let epoch: u64 = self.rng.copy(&[0, 2, 5, 700, 1 << 40]);
        self.new_chain(epoch.saturating_mul(EPOCH), epoch);
        let hostile = self.rng.chance(1, 2);
        let v = self.reports(epoch, hostile);
        let (own, f) = self.filters(&v, false);
        let before = self.chain.owned(&slash_id());
        self.story.push(json!({"epoch": epoch, "filter": format!("{f:?}"),
            "reports": v.iter().map(|x| format!("{} slot {} epoch {} node {} reporter {}", x.0, x.1.slot, x.1.epoch, x.1.pubkey, x.1.reporter)).collect::<Vec<_>>(),
            "others": before.iter().filter(|(k, _)| v.iter().all(|x| x.0 != **k)).map(|(_, a)| a.data().len()).collect::<Vec<_>>()}));
        let had = self.chain.balance(&self.wallet.payer());
        let fmt = self.format();
        let args = self.command("display", own, fmt, dry);
        let r = self.run(&args);
        self.hit(format!("runs: display {fmt:?}{}", if dry { " dry" } else { "" }));
        if self.moot.is_some() {
            return;
        }
        if let Some(x) = r.panicked() {
            self.bad(p, format!("display ends with a panic: {x}"));
            return;
        }
        if r.code != Some(0) {
            self.bad(p, format!("display fails: {}", r.tail()));
            return;
        }
        if dry {
            self.judge_dry(&r, &before, had, true);
        }
        let want: Vec<_> = v.iter().filter(|x| f.fits(&x.0, &x.1)).collect();
        *self.cover.entry("display: shown".into()).or_default() += want.len() as u64;
        let sent = self.sent();
        if !sent.is_empty() || self.chain.owned(&slash_id()).len() != before.len() {
            self.bad(p, "display sends transactions".into());
        }
        let fields = |at: &Pubkey, h: &Header| {
            vec![
                at.to_string(),
                h.pubkey.to_string(),
                "duplicate block".into(),
                h.slot.to_string(),
                h.reporter.to_string(),
                h.epoch.to_string(),
                h.destination.to_string(),
            ]
        };
        let mut shown: Vec<Vec<String>> = vec![];
        let mut total = None;
        match fmt {
            Format::Json | Format::Compact => {
                let j: Value = match serde_json::from_str(&r.out) {
                    Ok(v) => v,
                    Err(e) => {
                        self.bad(p, format!("the JSON output does not parse ({e}): {}", r.tail()));
                        return;
                    }
                };
                if fmt == Format::Compact && r.out.trim().lines().count() != 1 {
                    self.bad(p, "compact JSON is not on one line".into());
                }
                for x in j["commandOutput"].as_array().cloned().unwrap_or_default() {
                    let s = |k: &str| x[k].as_str().map(str::to_string).unwrap_or_else(|| x[k].to_string());
                    shown.push(
                        ["reportAddress", "pubkey", "violationType", "slot", "reporter", "epoch", "destination"]
                            .iter()
                            .map(|k| s(k))
                            .collect(),
                    );
                    let proof: Vec<u8> = serde_json::from_value(x["proof"].clone()).unwrap_or_default();
                    if let Some(w) = want.iter().find(|w| w.0.to_string() == s("reportAddress")) {
                        if proof != w.2 {
                            self.bad(p, format!("report {} is shown with another proof", w.0));
                        }
                    }
                }
            }
            _ => {
                let labels = [
                    "Report account address:",
                    "Violator:",
                    "Violation Type:",
                    "Violation Slot:",
                    "Reporter:",
                    "Reported Epoch:",
                    "Destination:",
                ];
                let mut parts: Vec<&str> = r.out.split("Slashing violation report").collect();
                parts.remove(0);
                for part in parts {
                    let get = |n: &str| {
                        part.lines().find_map(|l| l.trim().strip_prefix(n)).map(|s| s.trim().to_string()).unwrap_or_default()
                    };
                    let s: Vec<String> = labels.iter().map(|l| get(l)).collect();
                    if fmt == Format::Verbose {
                        if let Some(w) = want.iter().find(|w| w.0.to_string() == s[0]) {
                            if let Some(x) = verbose(part, &w.2) {
                                self.bad(p, format!("report {}: {x}", w.0));
                            } else {
                                self.hit("display: proof details checked");
                            }
                        }
                    }
                    shown.push(s);
                }
                total = Some(
                    r.out
                        .lines()
                        .find_map(|l| l.trim().strip_prefix("Open reports:"))
                        .and_then(|s| s.trim().parse::<usize>().ok()),
                );
            }
        }
        let slots: Vec<u64> = shown.iter().map(|x| x[3].parse().unwrap_or(0)).collect();
        if slots.windows(2).any(|w| w[0] > w[1]) {
            self.bad(p, format!("not in slot order: {slots:?}"));
        }
        let mut a = shown.clone();
        a.sort();
        let mut b: Vec<_> = want.iter().map(|x| fields(&x.0, &x.1)).collect();
        b.sort();
        if a != b {
            self.bad(p, format!("filter {f:?}: shown {a:?}, on chain {b:?}"));
        }
        if let Some(t) = total {
            if t != Some(want.len()) {
                self.bad(p, format!("{} reports match: {}", want.len(), r.tail()));
            }
        }
    }

    /// From a violation to its closing.
    fn life(&mut self) {
        let (now, epoch) = self.clock();
        self.new_chain(now, epoch);
        let n = 1 + self.rng.us(3);
        let dups = self.dups(n, now);
        self.story.push(json!({"now": now, "life": true, "slots": dups.iter().map(|d| format!("{} {:?}", d.slot, d.kind)).collect::<Vec<_>>()}));
        self.store(&dups.iter().collect::<Vec<_>>());
        let (a, own) = self.attach_args(&dups, epoch, false, false);
        let args = self.command("attach", own, Format::Json, false);
        let r = self.run(&args);
        self.judge_attach(&a, &dups, &r, End::Done);
        let args = self.command("display", vec![], Format::Json, false);
        let r = self.run(&args);
        if self.moot.is_some() {
            return;
        }
        let count = |r: &Ran| {
            serde_json::from_str::<Value>(&r.out).ok().and_then(|v| v["commandOutput"].as_array().map(|a| a.len()))
        };
        let on = self.chain.owned(&slash_id());
        if count(&r) != Some(on.len()) {
            self.bad("C22", format!("{} reports on chain: {}", on.len(), r.tail()));
        }
        // age
        let later = self.rng.below(5);
        self.chain.clock(now + later * EPOCH, epoch + later);
        let own = vec!["--destination".to_string(), a.destination.to_string()];
        let args = self.command("close", own, Format::Compact, false);
        let had = self.chain.balance(&a.destination);
        let r = self.run(&args);
        if self.moot.is_some() {
            return;
        }
        let mine: u64 = dups
            .iter()
            .filter(|d| d.kind != Kind::Already)
            .filter_map(|d| on.get(&d.pda))
            .map(|x| x.lamports())
            .sum();
        let gone = dups.iter().filter(|d| d.kind != Kind::Already && on.contains_key(&d.pda)).all(|d| !self.chain.owned(&slash_id()).contains_key(&d.pda));
        let some = mine > 0;
        if some && gone != (later >= 3) {
            self.bad("C21", format!("{later} epochs after being made, closed: {gone}: {}", r.tail()));
        }
        if a.destination != self.wallet.payer() {
            let want = had + if later >= 3 { mine } else { 0 };
            let is = self.chain.balance(&a.destination);
            if is != want {
                self.bad("C21", format!("the destination has {is}, not {want}"));
            }
        }
        self.hit("runs: life");
    }

    // ---- options -------------------------------------------------------

    /// The identity, endpoint and options given are the ones that count.
    fn options(&mut self) {
        const P: &str = "C24";
        let (now, epoch) = self.clock();
        self.new_chain(now, epoch);
        let dir = self.place.dir.clone();
        let path = |n: &str| dir.join(n).display().to_string();
        let home = dir.join(".config/solana");
        std::fs::create_dir_all(home.join("cli")).unwrap();
        // nobody may be asked here
        let other = Decoy::start();
        let fresh = |s: &mut Self| solana_sdk::signature::keypair_from_seed(&s.rng.arr::<32>()).unwrap();
        let save = |at: &Path, k: &Keypair| {
            std::fs::write(at, serde_json::to_string(&k.to_bytes().to_vec()).unwrap()).unwrap()
        };
        let config = |url: &str, key: &str| {
            format!("---\njson_rpc_url: \"{url}\"\nwebsocket_url: \"\"\nkeypair_path: \"{key}\"\naddress_labels: {{}}\ncommitment: confirmed\n")
        };
        // somebody else, with funds
        let stranger = fresh(self);
        save(&dir.join("stranger.json"), &stranger);
        self.chain.put(&stranger.pubkey(), FUNDS, &[], &SYSTEM);

        // what there is to do
        let name: &str = self.rng.copy(&["attach", "attach", "close", "close", "display"]);
        let mut dups = vec![];
        let mut reports = vec![];
        match name {
            "attach" => {
                let slot = now - self.rng.below(60);
                dups.push(self.dup(slot, Kind::Genuine));
                self.store(&dups.iter().collect::<Vec<_>>());
            }
            _ => {
                let (node, d) = (self.key(), self.key());
                let (_, a, b) = self.evidence(now);
                let proof = model::pack(&a, &b);
                let h = Header { version: 1, reporter: self.key(), destination: d, epoch: epoch.saturating_sub(3), pubkey: node, slot: now, kind: 1 };
                let data = report_bytes(&h, &proof);
                let at = pda(&slash_id(), &node, now);
                let l = self.chain.rent(data.len());
                self.chain.put(&at, l, &data, &slash_id());
                reports.push((at, d, l));
            }
        }
        if name != "display" && epoch < 3 {
            return;
        }

        // why it must fail, if it must
        let mut why: Option<&str> = None;
        // not even a request
        let mut silent = false;
        // nothing is done, and nothing more is required
        let mut lax = false;
        let mut global: Vec<Vec<String>> = vec![];
        let mut own: Vec<Vec<String>> = vec![];

        // the default identity
        let unsigned = self.rng.chance(1, 4);
        let mut key = path("id.json");
        if unsigned {
            key = path("nobody.json");
            match self.rng.below(4) {
                0 => (),
                1 => std::fs::write(&key, "").unwrap(),
                2 => std::fs::write(&key, "[1,2,3]").unwrap(),
                _ => {
                    // two halves that do not belong together
                    let mut b = self.wallet.signer.to_bytes().to_vec();
                    b[32..].copy_from_slice(stranger.pubkey().as_ref());
                    std::fs::write(&key, serde_json::to_string(&b).unwrap()).unwrap();
                }
            }
        }

        // the endpoint and the configuration
        let on_line = self.rng.chance(1, 2);
        let mut here = self.server.url.clone();
        let dead = Decoy::start();
        if self.rng.chance(1, 12) {
            here = dead.url.clone();
            why = Some("the endpoint does not answer");
        }
        // the node has a problem: then nothing may be claimed to be done
        let mut refused = None;
        if self.rng.chance(1, 8) {
            let m = match name {
                "attach" => "getAccountInfo",
                "close" => self.rng.copy(&["getEpochInfo", "getProgramAccounts"]),
                _ => "getProgramAccounts",
            };
            refused = Some(m);
            self.chain.inner.lock().unwrap().refuses = Some(m.into());
        }
        let in_config = if on_line { other.url.clone() } else { here.clone() };
        let at_home = home.join("cli/config.yml");
        let which = self.rng.below(8);
        match which {
            0..=3 => {
                std::fs::write(dir.join("config.yml"), config(&in_config, &key)).unwrap();
                global.push(vec![self.rng.copy(&["-C", "--config"]).into(), path("config.yml")]);
                // the one at home does not matter
                match self.rng.below(4) {
                    0 => std::fs::write(&at_home, "no: [").unwrap(),
                    1 => (),
                    _ => std::fs::write(&at_home, config(&other.url, &path("stranger.json"))).unwrap(),
                }
                save(&home.join("id.json"), &stranger);
                self.hit("options: configuration file given");
            }
            4..=5 => {
                std::fs::write(&at_home, config(&in_config, &key)).unwrap();
                save(&home.join("id.json"), &stranger);
                self.hit("options: configuration file at home");
            }
            6 => {
                // none: the default identity is at home
                if !unsigned {
                    save(&home.join("id.json"), &self.wallet.signer);
                }
                if self.rng.chance(1, 3) {
                    std::fs::write(&at_home, "no: [").unwrap();
                }
                self.hit("options: no configuration file");
            }
            _ => {
                let c = path("other.yml");
                match self.rng.below(4) {
                    0 => (),
                    1 => std::fs::write(&c, "no: [").unwrap(),
                    2 => std::fs::write(&c, "json_rpc_url: 3\n").unwrap(),
                    _ => std::fs::create_dir(&c).unwrap(),
                }
                // a good one at home is not to be taken instead
                std::fs::write(&at_home, config(&here, &path("id.json"))).unwrap();
                global.push(vec!["-C".into(), c]);
                why = why.or(Some("the configuration file given cannot be loaded"));
                silent = true;
            }
        }
        if on_line || which == 6 {
            global.push(vec![self.rng.copy(&["-u", "--url"]).into(), here.clone()]);
            self.hit("options: URL given");
        }

        // who pays
        let mut payer = (!unsigned).then(|| self.wallet.signer.pubkey());
        match self.rng.below(5) {
            0 | 1 => {
                let p = fresh(self);
                save(&dir.join("payer.json"), &p);
                self.chain.put(&p.pubkey(), FUNDS, &[], &SYSTEM);
                payer = Some(p.pubkey());
                let at = path("payer.json");
                let at = if self.rng.chance(1, 4) { format!("file:{at}") } else { at };
                global.push(vec!["--fee-payer".into(), at]);
                self.hit("options: fee payer given");
            }
            2 => {
                let at = path("poor.json");
                let s = match self.rng.below(5) {
                    0 => at,
                    1 => {
                        std::fs::write(&at, "").unwrap();
                        at
                    }
                    2 => {
                        std::fs::write(&at, "[1,2,3]").unwrap();
                        at
                    }
                    3 => {
                        let mut b = stranger.to_bytes().to_vec();
                        b[32..].copy_from_slice(self.wallet.signer.pubkey().as_ref());
                        std::fs::write(&at, serde_json::to_string(&b).unwrap()).unwrap();
                        at
                    }
                    // only a signature of theirs would do
                    _ => stranger.pubkey().to_string(),
                };
                global.push(vec!["--fee-payer".into(), s]);
                payer = None;
                self.hit("options: unusable fee payer given");
                if name == "display" {
                    lax = true;
                } else {
                    why = why.or(Some("the fee payer given cannot sign"));
                }
            }
            _ => (),
        }
        if payer.is_none() && name != "display" {
            why = why.or(Some("nobody can pay"));
        }

        // the command's own
        let (mut reporter, mut destination) = (self.wallet.signer.pubkey(), self.wallet.signer.pubkey());
        if name == "attach" {
            let ledger = if self.rng.chance(1, 12) {
                why = why.or(Some("there is no such ledger"));
                path("no/ledger")
            } else {
                path("ledger")
            };
            own.push(vec!["--ledger".into(), ledger]);
            let mut named = 0;
            if self.rng.chance(2, 3) {
                reporter = self.key();
                own.push(vec!["--reporter".into(), reporter.to_string()]);
                named += 1;
            }
            if self.rng.chance(2, 3) {
                destination = self.key();
                own.push(vec!["--destination".into(), destination.to_string()]);
                named += 1;
            }
            if unsigned && named < 2 {
                why = why.or(Some("reporter or destination is unknown"));
            }
        }

        // nonsense
        if self.rng.chance(1, 4) {
            let key = self.key().to_string();
            let bad: Vec<&str> = match (name, self.rng.below(11)) {
                (_, 0) => vec!["--output", "yaml"],
                (_, 1) => vec!["--output", "json", "-v"],
                (_, 2) => vec!["--no-such-option"],
                (_, 3) => vec!["--reporter", "nobody"],
                (_, 4) => vec!["--fee-payer"],
                ("attach", 5) => vec!["--continuous", "--end-slot", "18446744073709551615"],
                ("attach", 6) => vec!["--scan-interval", "1"],
                ("attach", 7) => vec!["--start-slot", "-1"],
                ("attach", 8) => vec!["--end-slot", "18446744073709551616"],
                ("attach", 9) => {
                    own.retain(|x| x[0] != "--ledger");
                    vec![]
                }
                ("attach", _) => vec!["--destination", &key[1..20]],
                ("close", 5) => vec!["--node-pubkey", "nobody"],
                ("close", 6) => vec!["--destination", "nobody"],
                ("close", 7) => vec!["not-an-account"],
                ("close", 8) => vec!["--epoch", "3"],
                ("close", 9) => vec![&key, &key],
                ("display", 5) => vec!["nobody"],
                ("display", 6) => vec!["--epoch", "x"],
                ("display", 7) => vec!["--epoch", "-1"],
                ("display", 8) => vec!["--destination", &key],
                ("display", 9) => vec![&key, &key],
                _ => vec!["--url", "no url"],
            };
            why = Some("the command line makes no sense");
            silent = true;
            self.hit("options: nonsense");
            // the last words, so that they are complete as they stand
            own.push(bad.iter().map(|s| s.to_string()).collect());
        }

        // out of order
        let mut args: Vec<String> = vec![];
        let mut after = vec![];
        while !global.is_empty() {
            let g = global.remove(self.rng.us(global.len()));
            if self.rng.chance(1, 2) {
                args.extend(g);
            } else {
                after.push(g);
            }
        }
        args.push(name.into());
        args.extend(after.into_iter().flatten());
        args.extend(own.into_iter().flatten());

        let everyone = [self.wallet.signer.pubkey(), stranger.pubkey()];
        let funds: Vec<u64> = everyone.iter().map(|k| self.chain.balance(k)).collect();
        let asked = self.server.requests.load(Ordering::SeqCst);
        self.story.push(json!({"command": name, "must fail": why, "payer": payer.map(|p| p.to_string())}));
        let r = self.run(&args);
        self.hit(format!("runs: {name}: {}", why.unwrap_or(if lax || refused.is_some() { "may fail" } else { "as given" })));
        let asked = self.server.requests.load(Ordering::SeqCst) - asked;
        if self.moot.is_some() {
            return;
        }
        if let Some(x) = r.panicked() {
            self.bad(P, format!("{name} ends with a panic: {x}"));
            return;
        }
        if other.calls() > 0 {
            self.bad(P, format!("{name} asks an endpoint that it was not told to: {:?}", r.args));
        }
        let sent = self.sent();
        if let Some(w) = why {
            if r.code == Some(0) {
                self.bad(P, format!("{name} succeeds, although {w}: {:?}", r.args));
            }
            if !sent.is_empty() {
                self.bad(P, format!("{name} submits {} transactions, paid by {}, although {w}: {:?}", sent.len(), sent[0].payer, r.args));
            }
            if silent && asked > 0 {
                self.bad(P, format!("{name} makes requests, although {w}: {:?}", r.args));
            }
        }
        for s in &sent {
            if Some(s.payer) != payer {
                self.bad(P, format!("{} pays, not {payer:?}: {:?}", s.payer, r.args));
            }
        }
        for (k, f) in everyone.iter().zip(&funds) {
            if Some(*k) != payer && self.chain.balance(k) < *f {
                self.bad(P, format!("{k} lost lamports, which is not the fee payer: {:?}", r.args));
            }
        }
        if why.is_some() || lax {
            return;
        }
        if refused.is_some() && r.code != Some(0) {
            self.hit(format!("{name}: {} fails", refused.unwrap()));
            return;
        }
        if r.code != Some(0) {
            self.bad(P, format!("{name} fails: {:?} {}", r.args, r.tail()));
            return;
        }
        let now_there = self.chain.owned(&slash_id());
        match name {
            "attach" => match now_there.get(&dups[0].pda) {
                None => self.bad(P, format!("nothing is reported: {:?} {}", r.args, r.tail())),
                Some(x) => {
                    let d = x.data();
                    if d.get(1..33) != Some(reporter.as_ref()) || d.get(33..65) != Some(destination.as_ref()) {
                        self.bad(P, format!("reporter or destination are not {reporter} and {destination}: {:?}", r.args));
                    }
                }
            },
            "close" => {
                let (at, d, l) = reports[0];
                if now_there.contains_key(&at) || self.chain.balance(&d) != l {
                    self.bad(P, format!("the report is not closed: {:?} {}", r.args, r.tail()));
                }
            }
            _ => {
                if !sent.is_empty() {
                    self.bad(P, "display sends transactions".into());
                }
                if !r.out.contains(&reports[0].0.to_string()) {
                    self.bad(P, format!("the report is not shown: {:?} {}", r.args, r.tail()));
                }
            }
        }
    }
}

/// An endpoint nobody was told to use.
struct Decoy {
    url: String,
    addr: std::net::SocketAddr,
    stop: Arc<AtomicBool>,
    calls: Arc<AtomicU64>,
}
impl Decoy {
    fn start() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let addr = l.local_addr().unwrap();
        let (stop, calls) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicU64::new(0)));
        let (s, c) = (stop.clone(), calls.clone());
        std::thread::spawn(move || {
            for x in l.incoming() {
                if s.load(Ordering::SeqCst) {
                    return;
                }
                c.fetch_add(1, Ordering::SeqCst);
                drop(x);
            }
        });
        Decoy { url: format!("http://{addr}"), addr, stop, calls }
    }
    fn calls(&self) -> u64 {
        self.calls.load(Ordering::SeqCst)
    }
}
impl Drop for Decoy {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
    }
}

/// What verbose output must say of a proof.
fn verbose(part: &str, proof: &[u8]) -> Option<String> {
    let (a, b) = model::unpack(proof)?;
    let mut both = vec![];
    for s in [a, b] {
        both.push(Shred::new_from_serialized_shred(s.to_vec()).ok()?);
    }
    for (n, s) in both.iter().enumerate() {
        let at = part.find(&format!("Shred{}:", n + 1))?;
        let end = part[at..].find(&format!("Shred{}:", n + 2)).map_or(part.len(), |e| at + e);
        let text: String = part[at..end].split_whitespace().collect::<Vec<_>>().join(" ");
        for want in [
            format!("fec_set_index {},", s.fec_set_index()),
            format!(" index {},", s.index()),
            format!("shred_type {:?}", s.shred_type()),
            format!("version {},", s.version()),
            format!("merkle_root {:?}", s.merkle_root().ok()),
            format!("last_in_slot {}", s.last_in_slot()),
        ] {
            if !text.contains(&want) {
                return Some(format!("shred {} is {want:?}, shown: {}", n + 1, text.chars().take(300).collect::<String>()));
            }
        }
        let p: Vec<u8> = s.payload().to_vec();
        if !text.contains(&format!("{p:?}")) {
            return Some(format!("the payload of shred {} is not shown", n + 1));
        }
    }
    if both.iter().all(|s| s.shred_type() == ShredType::Code) && !part.contains("Erasure consistency") {
        return Some("no word on erasure consistency".into());
    }
    None
}

#[derive(Default, Debug, Clone, PartialEq)]
struct Filter {
    report: Option<Pubkey>,
    node: Option<Pubkey>,
    reporter: Option<Pubkey>,
    destination: Option<Pubkey>,
    epoch: Option<u64>,
}
impl Filter {
    fn fits(&self, at: &Pubkey, h: &Header) -> bool {
        self.report.is_none_or(|k| k == *at)
            && self.node.is_none_or(|k| k == h.pubkey)
            && self.reporter.is_none_or(|k| k == h.reporter)
            && self.destination.is_none_or(|k| k == h.destination)
            && self.epoch.is_none_or(|e| e == h.epoch)
    }
}

fn scenario(s: &mut Scene, prop: &str) {
    let k = s.rng.below(20);
    match prop {
        "C20" => match k {
            0..=11 => s.attach(),
            12..=14 => s.attach_cut(),
            15..=16 => s.attach_continuously(),
            17 => s.attach_race(),
            _ => s.life(),
        },
        "C21" => match k {
            0..=17 => s.close(false),
            _ => s.life(),
        },
        "C22" => match k {
            0..=18 => s.display(false),
            _ => s.life(),
        },
        "C24" => s.options(),
        _ => match k {
            0..=9 => s.attach_dry(),
            10..=17 => s.close(true),
            _ => s.display(true),
        },
    }
}

const SHIM: &str = r#"
#define _GNU_SOURCE
#include <dlfcn.h>
/* the ledger library insists on a million open files */
struct lim { unsigned long cur, max; };
static int ask(const char *name, int r, struct lim *l) {
    if (r == 7) { l->cur = l->max = 1000000; return 0; }
    int (*f)(int, struct lim *) = (int (*)(int, struct lim *))dlsym(RTLD_NEXT, name);
    return f(r, l);
}
int getrlimit64(int r, struct lim *l) { return ask("getrlimit64", r, l); }
int getrlimit(int r, struct lim *l) { return ask("getrlimit", r, l); }
"#;

fn shim(dir: &Path) -> PathBuf {
    let (c, so) = (dir.join("shim.c"), dir.join("shim.so"));
    std::fs::write(&c, SHIM).unwrap();
    let ok = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(&c).arg("-ldl").status();
    assert!(ok.is_ok_and(|s| s.success()), "building the resource limit stand-in");
    so
}

/// cli PROP SEED SCENARIOS SECONDS THREADS EXE DIR OUT [ONLY]
#[allow(clippy::too_many_arguments)]
pub fn check(prop: &str, seed: u64, count: u64, seconds: f64, threads: u64, exe: &str, dir: &str, only: Option<u64>) -> Value {
    slashcore::rt::install();
    crate::real_syscalls();
    // panics of the programs are results like any other
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("scenario") {
            eprintln!("{i}");
        }
    }));
    let prop: String = prop.into();
    let dir = PathBuf::from(dir);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let so = shim(&dir);
    let deadline = Instant::now() + Duration::from_secs_f64(seconds);
    let next = Arc::new(AtomicU64::new(only.unwrap_or(0)));
    let last = only.map_or(count, |o| o + 1);
    let total: Arc<Mutex<(BTreeMap<String, u64>, Vec<Value>, BTreeMap<String, u64>, u64, BTreeMap<String, u64>)>> = Default::default();
    let shapes: Arc<Mutex<HashMap<u64, u64>>> = Default::default();
    let handles: Vec<_> = (0..threads)
        .map(|th| {
            let (next, total, prop, so, shapes) = (next.clone(), total.clone(), prop.clone(), so.clone(), shapes.clone());
            let place = Place { dir: dir.join(th.to_string()), exe: exe.into(), shim: so };
            std::thread::Builder::new()
                .name("scenario".into())
                .spawn(move || {
                    let t = target();
                    let chain = Arc::new(Chain::new());
                    loop {
                        let n = next.fetch_add(1, Ordering::SeqCst);
                        if n >= last || Instant::now() > deadline {
                            break;
                        }
                        let far = Instant::now() + Duration::from_secs(3600);
                        let mut s = Scene {
                            rng: Rng::new(seed, 0xc11 + n),
                            env: Env::new(&t, seed, 900_000 + n, far),
                            chain: chain.clone(),
                            server: Server::start(chain.clone()),
                            place: &place,
                            wallet: Wallet { signer: Keypair::new(), payer: None },
                            cover: Default::default(),
                            bad: vec![],
                            story: vec![],
                            moot: None,
                        };
                        scenario(&mut s, &prop);
                        let mut g = total.lock().unwrap();
                        for (k, v) in &s.cover {
                            *g.0.entry(k.clone()).or_default() += v;
                        }
                        let mut h = 0xcbf29ce484222325u64;
                        let inner = s.chain.inner.lock().unwrap();
                        for x in &inner.sent {
                            let o = match &x.outcome {
                                Outcome::Landed => "landed".to_string(),
                                Outcome::Fault => "failing submission".into(),
                                Outcome::Simulated(x) => format!("simulated {x}"),
                                Outcome::Failed(e) => format!("failed {e}"),
                                Outcome::Refused(e) => format!("refused {e}"),
                            };
                            let a = x.acts.last().map(|a| format!("{a:?}").split([' ', '(']).next().unwrap_or("").to_string()).unwrap_or_default();
                            let k = format!("{a}: {o}");
                            for b in k.bytes() {
                                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                            }
                            *g.2.entry(k).or_default() += 1;
                        }
                        for (k, v) in &inner.calls {
                            *g.4.entry(k.clone()).or_default() += v;
                        }
                        drop(inner);
                        for (k, v) in &s.cover {
                            for b in k.bytes().chain(v.to_le_bytes()) {
                                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                            }
                        }
                        *shapes.lock().unwrap().entry(h).or_default() += 1;
                        g.3 += 1;
                        if let Some(m) = &s.moot {
                            *g.0.entry(format!("inconclusive: {m}")).or_default() += 1;
                        }
                        for (p, what) in &s.bad {
                            if g.1.len() < 200 {
                                g.1.push(json!({"property": p, "what": what, "scenario": n, "seed": seed, "of": prop, "story": s.story}));
                            }
                        }
                        drop(g);
                        let _ = std::fs::remove_dir_all(&place.dir);
                    }
                })
                .unwrap()
        })
        .collect();
    let mut broken = 0;
    for h in handles {
        if h.join().is_err() {
            broken += 1;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let g = total.lock().unwrap();
    let distinct = shapes.lock().unwrap().len();
    json!({
        "scenarios": g.3,
        "distinct": distinct,
        "observed": g.0,
        "transactions": g.2,
        "calls": g.4,
        "violations": g.1,
        "broken_workers": broken,
    })
}
