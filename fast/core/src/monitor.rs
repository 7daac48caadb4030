//! Online monitors. Every transaction any workload runs passes through
//! [`Monitor::observe`]; each property has its own oracle over what was seen.
use {
    crate::{
        alloc::HEAP_LEN, code, model::{self, Verdict, Why}, pda, replay,
        rt::{ed25519_entry, ed25519_id, Acct, IxErr, SigCache, SlashCall, Tx, TxOut, World, SYSTEM},
        shred::parse, Args, Header, Target, REPORT_HEADER, REPORT_IX_LEN,
    },
    serde_json::{json, Value},
    solana_program::{program_error::ProgramError, pubkey::Pubkey},
    std::{
        collections::{BTreeMap, BTreeSet, HashMap, HashSet},
        hash::{Hash, Hasher},
    },
};

pub struct Viol {
    pub prop: &'static str,
    pub what: String,
    pub replay: Value,
}

#[derive(Clone)]
pub struct Live {
    pub acct: Acct,
    pub epoch: u64,
    pub node: Pubkey,
    pub slot: u64,
    pub destination: Pubkey,
}

/// Facts a workload knows and the oracles need.
#[derive(Default)]
pub struct Hints {
    /// (validator, slot) that signed one consistent block only
    pub honest: HashSet<(Pubkey, u64)>,
    /// properties for which a wrongly refused report of this workload counts
    pub claims: Vec<&'static str>,
    /// workload name
    pub name: &'static str,
    /// the transaction was built by the client library, unmodified
    pub client_built: bool,
}

/// A report or a close has 200,000 compute units by default; a basic block is at
/// least three instructions on average.
pub const WORK_LIMIT: u64 = 66_000;

#[derive(Default)]
pub struct Cover {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub max_heap: u64,
    pub max_work: u64,
}

impl Cover {
    pub fn hit(&mut self, k: &str) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += 1;
        } else {
            self.counts.insert(k.to_string(), 1);
        }
    }
    /// count a non-trivial case by its abstract shape
    pub fn shape<T: Hash>(&mut self, t: T) {
        if self.distinct.len() < 400_000 {
            let mut h = Fnv(0xcbf29ce484222325);
            t.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            let v = v();
            self.samples.push(v);
        }
    }
}

pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub struct Monitor<'t> {
    pub target: &'t Target,
    pub hints: Hints,
    pub viols: Vec<Viol>,
    pub cover: Cover,
    /// live reports of the current history
    pub live: BTreeMap<Pubkey, Live>,
    /// everything ever reported in the current history
    pub ever: HashMap<(Pubkey, u64), u64>,
    /// everything ever signed is checked against real signature verification
    pub truth: SigCache,
    per_prop: HashMap<&'static str, u32>,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// the property that owns a refusal of a report that should be accepted
pub fn owner_of_refusal(e: &IxErr) -> &'static [&'static str] {
    match e {
        IxErr::Panic(_) => &["C14"],
        IxErr::Rt(_) => &["C06"],
        IxErr::Prog(ProgramError::Custom(c)) => match *c {
            code::DEST_IS_REPORT | code::NOT_PREFUNDED => &["C13"],
            code::DUPLICATE_REPORT => &["C07"],
            code::STATUTE => &["C09"],
            code::SHRED_VARIANT | code::MERKLE_SHRED | code::LEGACY | code::SHRED_DESER => &["C05", "C04"],
            code::PAYLOAD_PROOF | code::ERASURE_META | code::LAST_INDEX | code::SHRED_VERSION
            | code::TYPE_MISMATCH | code::SLOT_MISMATCH => &["C04", "C05"],
            code::REPORT_ACCOUNT | code::NO_INSTRUCTIONS_SYSVAR | code::NO_SYSTEM_PROGRAM => &["C12"],
            code::SIGVERIFY_INVALID | code::NO_SIGVERIFY | code::SIGVERIFY_MISMATCH => &["C16", "C05"],
            code::PROOF_DESER | code::PROOF_TOO_SMALL => &["C17"],
            _ => &[],
        },
        IxErr::Prog(ProgramError::ArithmeticOverflow) => &["C09"],
        IxErr::Prog(_) => &["C14"],
    }
}

/// the properties violated when a report that must be refused goes through
fn owners_of_acceptance(w: Why) -> &'static [&'static str] {
    match w {
        Why::Data => &["C14"],
        Why::MissingAccounts | Why::FakeSysvar | Why::FakeSystem | Why::Pda | Why::NotWritable | Why::Aliased => &["C12"],
        Why::Offset | Why::Proof => &["C17", "C14"],
        Why::Future | Why::TooOld => &["C09"],
        Why::NoSigverify | Why::Unverified => &["C02"],
        Why::ShredShort | Why::ShredVariant | Why::ShredLegacy | Why::ShredField | Why::ShredProof => &["C05", "C04"],
        Why::Slot | Why::Version | Why::Type | Why::SamePayload | Why::NoLast | Why::SameErasure => &["C04", "C05"],
        Why::Reported => &["C07", "C08"],
        Why::DestIsPda | Why::Unfunded => &["C13"],
        Why::CloseAccount => &["C12"],
        Why::TooSoon => &["C10"],
        Why::WrongDestination => &["C11"],
    }
}

impl<'t> Monitor<'t> {
    pub fn new(target: &'t Target) -> Self {
        Monitor {
            target,
            hints: Hints::default(),
            viols: vec![],
            cover: Cover::default(),
            live: BTreeMap::new(),
            ever: HashMap::new(),
            truth: SigCache::new(),
            per_prop: HashMap::new(),
        }
    }

    pub fn reset_history(&mut self) {
        self.live.clear();
        self.ever.clear();
    }

    pub fn violate(&mut self, prop: &'static str, what: String, replay: impl FnOnce() -> Value) {
        let n = self.per_prop.entry(prop).or_default();
        *n += 1;
        if *n <= 3 {
            let mut r = replay();
            if r.get("kind").and_then(|k| k.as_str()) == Some("tx") {
                r["live"] = self
                    .live
                    .iter()
                    .map(|(k, l)| json!({"at": k.to_string(), "lamports": l.acct.lamports, "data": hex(&l.acct.data), "epoch": l.epoch,
                        "node": l.node.to_string(), "slot": l.slot, "destination": l.destination.to_string()}))
                    .collect();
                r["ever"] = self.ever.iter().map(|((n, s), e)| json!([n.to_string(), s, e])).collect();
                r["honest"] = self.hints.honest.iter().map(|(n, s)| json!([n.to_string(), s])).collect();
                r["claims"] = json!(self.hints.claims);
                r["client_built"] = json!(self.hints.client_built);
            }
            r["property"] = json!(prop);
            r["violation"] = json!(what);
            self.viols.push(Viol { prop, what, replay: r });
        }
    }
    pub fn violations_of(&self, prop: &str) -> u32 {
        self.per_prop.get(prop).copied().unwrap_or(0)
    }

    /// `pre` is the world before the transaction, `post` after it.
    pub fn observe(&mut self, pre: &World, tx: &Tx, out: &TxOut, post: &World) {
        self.cover.evaluations += 1;
        let target = self.target;
        let name = self.hints.name;
        let rp = || replay::encode(name, pre, tx);
        // world as seen by each call: only clock, rent and schedule matter
        let mut closed: BTreeSet<Pubkey> = BTreeSet::new();
        let mut created: Vec<(Pubkey, Live)> = vec![];
        for call in &out.calls {
            self.cover.max_heap = self.cover.max_heap.max(call.heap);
            self.cover.max_work = self.cover.max_work.max(call.work);
            if call.work > 0 {
                let verdict = if call.result.is_ok() { "done" } else { "refused" };
                self.cover.hit(&format!("blocks under {}, {verdict}", call.work.next_power_of_two()));
            }
            if call.work > WORK_LIMIT {
                let w = call.work;
                self.violate("C25", format!("handling the instruction took {w} basic blocks, more than the default compute budget pays for"), rp);
            }
            if call.heap_exhausted || call.heap > HEAP_LEN as u64 {
                let h = call.heap;
                self.violate("C18", format!("handling the instruction took {h} bytes of the 32 KiB heap"), rp);
            }
            if let Some(dv) = &call.diverged {
                self.violate("C15", format!("outcome depends on memory placement: {dv}"), rp);
            }
            if let Err(IxErr::Panic(p)) = &call.result {
                self.cover.hit("panic");
                self.violate("C14", format!("program panicked: {p}"), rp);
            }
            if let Err(IxErr::Rt(r)) = &call.result {
                self.cover.hit("runtime-refusal");
                // the runtime refused what the program did: the program must
                // have refused it first, or done it right
                let _ = r;
            }
            match call.data.first() {
                Some(1) => self.on_report(pre, tx, call, rp, &mut created),
                Some(0) => self.on_close(pre, call, rp, &mut closed, &created),
                _ => {
                    self.cover.hit("undefined-instruction");
                    if call.result.is_ok() {
                        self.violate("C14", "undefined instruction type accepted".into(), rp);
                    }
                }
            }
        }
        // C08: live reports not closed by this transaction are untouched
        let mut gone = vec![];
        for (k, l) in &self.live {
            if closed.contains(k) && out.res.is_ok() {
                continue;
            }
            let now = post.get(k);
            if now.data != l.acct.data || now.owner != l.acct.owner || now.lamports < l.acct.lamports {
                gone.push((*k, l.clone(), now));
            }
        }
        for (k, l, now) in gone {
            let what = format!(
                "live report {k} changed: data {} -> {} bytes (same: {}), owner {} -> {}, lamports {} -> {}",
                l.acct.data.len(), now.data.len(), l.acct.data == now.data, l.acct.owner, now.owner, l.acct.lamports, now.lamports
            );
            self.violate("C08", what.clone(), rp);
            if l.acct.data != now.data && now.owner == target.id {
                self.violate("C07", what, rp);
            }
            self.live.remove(&k);
        }
        if out.res.is_ok() {
            for k in &closed {
                self.live.remove(k);
            }
            for (k, l) in created {
                self.ever.insert((l.node, l.slot), post.epoch);
                let mut l = l;
                l.acct.lamports = post.lamports(&k);
                self.live.insert(k, l);
            }
            // balances of live reports may only grow
            for (k, l) in self.live.iter_mut() {
                l.acct.lamports = post.lamports(k).max(l.acct.lamports);
            }
            // conservation over the whole transaction
            let sum = |w: &World| w.accts.values().map(|a| a.lamports as u128).sum::<u128>();
            if sum(pre) != sum(post) {
                self.violate("C11", "lamports created or lost by a transaction".into(), rp);
            }
            // C07: structural: no two program-owned accounts for one violation
            // C12: every non-empty program-owned account created by a report is canonical
        } else {
            if pre.accts != post.accts {
                self.violate("C12", "a failed transaction changed accounts".into(), rp);
            }
        }
    }

    fn on_report(
        &mut self,
        pre: &World,
        tx: &Tx,
        call: &SlashCall,
        rp: impl Fn() -> Value + Copy,
        created: &mut Vec<(Pubkey, Live)>,
    ) {
        let target = self.target;
        let d = model::report(pre, &target.id, tx, call);
        let v = d.verdict();
        self.cover.hit(match (&call.result, v) {
            (Ok(_), Verdict::Accept) => "report: accepted as expected",
            (Ok(_), Verdict::Reject) => "report: WRONGLY ACCEPTED",
            (Ok(_), Verdict::Unsure) => "report: accepted, rules silent",
            (Err(_), Verdict::Accept) => "report: WRONGLY REFUSED",
            (Err(_), Verdict::Reject) => "report: refused as expected",
            (Err(_), Verdict::Unsure) => "report: refused, rules silent",
        });
        let shape = (
            self.hints.name,
            &d.no,
            d.conflict,
            call.result.as_ref().err().map(|e| format!("{e:?}")),
            d.parsed.as_ref().map(|(a, b)| {
                (
                    a.v, b.v, a.fec.cmp(&b.fec), a.index.cmp(&b.index), a.last(), b.last(), a.root == b.root,
                    d.shreds.as_ref().map(|(x, y)| (x.len() == a.v.payload(), y.len() == b.v.payload())),
                )
            }),
            call.depth,
        );
        self.cover.shape(&shape);
        if let Some(c) = d.conflict {
            if call.result.is_ok() {
                self.cover.hit(match c {
                    model::Conflict::Root => "verdict: merkle root conflict",
                    model::Conflict::Overlap => "verdict: overlapping sets",
                    model::Conflict::Payload => "verdict: payload mismatch",
                    model::Conflict::Last => "verdict: data past the last shred",
                    model::Conflict::Erasure => "verdict: erasure configuration",
                });
            }
        }
        match &call.result {
            Ok(()) => {
                for w in &d.no {
                    for p in owners_of_acceptance(*w) {
                        self.violate(p, format!("report accepted although: {w:?}"), rp);
                    }
                    // whatever the reason, a report without a conflict frames
                    if *w == Why::SamePayload || *w == Why::Unverified || *w == Why::NoSigverify {
                        if *w != Why::SamePayload {
                            self.violate("C01", format!("report accepted although: {w:?}"), rp);
                        }
                    }
                }
                let Some(args) = Args::decode(&call.data) else { return };
                self.after_report(pre, tx, call, &d, &args, rp, created);
            }
            Err(e) => {
                if v == Verdict::Accept {
                    let mut props: BTreeSet<&'static str> = owner_of_refusal(e).iter().copied().collect();
                    props.insert("C03");
                    props.extend(self.hints.claims.iter().copied());
                    if self.hints.client_built {
                        props.insert("C16");
                    }
                    for p in props {
                        self.violate(p, format!("genuine report ({:?}) refused: {e:?}", d.conflict), rp);
                    }
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn after_report(
        &mut self,
        pre: &World,
        tx: &Tx,
        call: &SlashCall,
        d: &model::Decision,
        args: &Args,
        rp: impl Fn() -> Value + Copy,
        created: &mut Vec<(Pubkey, Live)>,
    ) {
        let target = self.target;
        let want = pda(&target.id, &args.node, args.slot);
        // C12 canonical address, and the published lookup agrees
        let looked_up = (target.report_address)(&args.node, args.slot).0;
        if looked_up != want {
            self.violate("C12", format!("lookup gives {looked_up}, derivation gives {want}"), rp);
        }
        let mut holders = vec![];
        for (k, a) in &call.post {
            if *a != call.pre[k] {
                holders.push(*k);
            }
        }
        if holders != vec![want] {
            let at = holders.iter().map(|k| k.to_string()).collect::<Vec<_>>();
            self.violate("C12", format!("report touched {at:?} instead of {want}"), rp);
            self.violate("C06", format!("report touched {at:?} instead of {want}"), rp);
        }
        let Some(post) = call.post.get(&want) else { return };
        let before = &call.pre[&want];
        // C13 no balance changes, rent exempt at actual size
        for (k, a) in &call.post {
            if a.lamports != call.pre[k].lamports {
                self.violate("C13", format!("creating the report changed the balance of {k}"), rp);
            }
        }
        if post.lamports < pre.rent.minimum_balance(post.data.len()) {
            self.violate("C13", format!("report of {} bytes holds {} lamports, not rent exempt", post.data.len(), post.lamports), rp);
        }
        if args.destination == want {
            self.violate("C13", "report names itself as destination".into(), rp);
        }
        // C09
        if pre.slot < args.slot || pre.slot - args.slot > pre.sched.slots_per_epoch {
            self.violate("C09", format!("violation of slot {} reported at slot {}", args.slot, pre.slot), rp);
        }
        // C06 faithful
        let proof = &call.pre[&call.metas[0].key].data;
        let src = proof.get(args.offset.min(usize::MAX as u64) as usize..).and_then(model::unpack);
        match (&d.expect, src) {
            (Some(e), Some((s1, s2))) => {
                if post.data != e.data || post.owner != e.owner {
                    let h = Header::decode(&post.data);
                    self.violate("C06", format!(
                        "stored report differs from what was submitted: owner {} len {} (expected {}), header {:?}",
                        post.owner, post.data.len(), e.data.len(), h), rp);
                } else {
                    // reading the stored proof back
                    let tail = &post.data[REPORT_HEADER..];
                    let rb = (target.unpack)(tail);
                    let ok = match rb {
                        Ok([(o1, n1), (o2, n2)]) => tail.get(o1..o1 + n1) == Some(s1) && tail.get(o2..o2 + n2) == Some(s2),
                        Err(_) => false,
                    };
                    if !ok {
                        self.violate("C06", "stored proof does not read back as the submitted shreds".into(), rp);
                    }
                    let h = (target.read_header)(&post.data);
                    if Some(&h) != Header::decode(&post.data).as_ref() {
                        self.violate("C06", format!("stored header reads back as {h:?}"), rp);
                    }
                }
            }
            _ => self.violate("C06", "a report was created from an unreadable proof".into(), rp),
        }
        // C02 / C01 the recorded shreds were really signed and really verified
        let stored = Header::decode(&post.data);
        if let (Some(h), Some((s1, s2))) = (&stored, post.data.get(REPORT_HEADER..).and_then(model::unpack)) {
            let all: Vec<&[u8]> = tx.ixs.iter().map(|i| i.data.as_slice()).collect();
            let prev = call.top.checked_sub(1).map(|i| &tx.ixs[i]).filter(|p| p.program == ed25519_id());
            for (i, s) in [s1, s2].iter().enumerate() {
                let p = parse(s);
                let Ok(p) = p else {
                    self.violate("C05", format!("recorded shred {} is not a shred: {:?}", i + 1, p.err()), rp);
                    self.violate("C02", format!("recorded shred {} has no Merkle root to sign", i + 1), rp);
                    continue;
                };
                if !self.truth.verify(h.pubkey.as_ref(), &p.root, &p.sig) {
                    self.violate("C02", format!("recorded shred {} was never signed by {}", i + 1, h.pubkey), rp);
                    self.violate("C01", format!("forged shred {} accepted against {}", i + 1, h.pubkey), rp);
                }
                let entry = prev
                    .filter(|p| i < p.data.first().copied().unwrap_or(0) as usize)
                    .and_then(|p| ed25519_entry(&p.data, &all, i));
                let exact = matches!(entry, Some((pk, m, s)) if pk == h.pubkey.as_ref() && m == &p.root[..] && s == &p.sig[..]);
                if !exact {
                    self.violate("C02", format!("verification {} before the report does not cover the recorded shred", i + 1), rp);
                }
            }
            if self.hints.honest.contains(&(h.pubkey, h.slot)) {
                self.violate("C01", format!("honest validator {} reported for slot {}", h.pubkey, h.slot), rp);
            }
        }
        // C07
        if before.owner == target.id && before.data.first().copied().unwrap_or(0) > 0 {
            self.violate("C07", "an existing report was overwritten".into(), rp);
        }
        if let Some(at) = self.ever.get(&(args.node, args.slot)) {
            let at = *at;
            self.violate("C07", format!("slot {} of {} reported again (first in epoch {at})", args.slot, args.node), rp);
        }
        if post.data.len() == (REPORT_HEADER + 8 + d.shreds.as_ref().map_or(0, |(a, b)| a.len() + b.len())) {
            created.push((want, Live {
                acct: post.clone(),
                epoch: pre.epoch,
                node: args.node,
                slot: args.slot,
                destination: args.destination,
            }));
        }
        if call.data.len() != REPORT_IX_LEN {
            self.violate("C14", "report data of the wrong length accepted".into(), rp);
        }
        let len = d.shreds.as_ref().map(|(a, b)| (a.len(), b.len()));
        let (conf, slot, off, depth) = (d.conflict, args.slot, args.offset, call.depth);
        let hd = hex(&post.data[..REPORT_HEADER.min(post.data.len())]);
        self.cover.sample(|| json!({"event":"report accepted","conflict":format!("{conf:?}"),"slot":slot,"offset":off,"shred_lengths":format!("{len:?}"),"depth":depth,"header":hd}));
    }

    fn on_close(
        &mut self,
        pre: &World,
        call: &SlashCall,
        rp: impl Fn() -> Value + Copy,
        closed: &mut BTreeSet<Pubkey>,
        created: &[(Pubkey, Live)],
    ) {
        let target = self.target;
        let key0 = call.metas.first().map(|m| m.key);
        let genuine = key0.is_some_and(|k| self.live.contains_key(&k) || created.iter().any(|c| c.0 == k));
        let d = model::close(pre, &target.id, call, genuine);
        let v = d.verdict();
        self.cover.hit(match (&call.result, v) {
            (Ok(_), Verdict::Accept) => "close: accepted as expected",
            (Ok(_), Verdict::Reject) => "close: WRONGLY ACCEPTED",
            (Ok(_), Verdict::Unsure) => "close: accepted, rules silent",
            (Err(_), Verdict::Accept) => "close: WRONGLY REFUSED",
            (Err(_), Verdict::Reject) => "close: refused as expected",
            (Err(_), Verdict::Unsure) => "close: refused, rules silent",
        });
        let age = d.header.as_ref().map(|h| pre.epoch.saturating_sub(h.epoch).min(5));
        self.cover.shape((self.hints.name, "close", &d.no, age, call.result.as_ref().err().map(|e| format!("{e:?}")), genuine, call.depth));
        match &call.result {
            Ok(()) => {
                for w in &d.no {
                    for p in owners_of_acceptance(*w) {
                        self.violate(p, format!("close accepted although: {w:?}"), rp);
                    }
                    if matches!(w, Why::TooSoon | Why::WrongDestination) {
                        self.violate("C08", format!("report removed although: {w:?}"), rp);
                    }
                }
                let (Some(rk), Some(dk)) = (key0, call.metas.get(1).map(|m| m.key)) else {
                    self.violate("C12", "close without accounts accepted".into(), rp);
                    return;
                };
                closed.insert(rk);
                let (b, a) = (&call.pre[&rk], &call.post[&rk]);
                if rk != dk {
                    if a.lamports != 0 || !a.data.is_empty() || a.owner != SYSTEM {
                        self.violate("C11", format!("closed report left behind: {} lamports, {} bytes, owner {}", a.lamports, a.data.len(), a.owner), rp);
                    }
                    let (db, da) = (&call.pre[&dk], &call.post[&dk]);
                    if da.lamports as u128 != db.lamports as u128 + b.lamports as u128 {
                        self.violate("C11", format!("destination got {} of {}", da.lamports as i128 - db.lamports as i128, b.lamports), rp);
                    }
                    if da.data != db.data || da.owner != db.owner {
                        self.violate("C11", "destination account altered by close".into(), rp);
                    }
                }
                for (k, x) in &call.post {
                    if *k != rk && *k != dk && *x != call.pre[k] {
                        self.violate("C11", format!("close changed bystander {k}"), rp);
                        self.violate("C08", format!("close changed bystander {k}"), rp);
                    }
                }
                if let Some(l) = self.live.get(&rk).cloned().or_else(|| created.iter().find(|c| c.0 == rk).map(|c| c.1.clone())) {
                    if l.destination != dk {
                        self.violate("C11", format!("funds of {rk} sent to {dk}, recorded destination {}", l.destination), rp);
                    }
                    if (pre.epoch as u128) < l.epoch as u128 + 3 && !(l.epoch > u64::MAX - 3 && pre.epoch == u64::MAX) {
                        self.violate("C10", format!("created in epoch {}, closed in {}", l.epoch, pre.epoch), rp);
                    }
                }
                let (e, n, l) = (d.header.as_ref().map(|h| h.epoch), pre.epoch, b.lamports);
                self.cover.sample(|| json!({"event":"report closed","created_epoch":e,"epoch":n,"lamports":l}));
            }
            Err(e) => {
                if v == Verdict::Accept {
                    let what = format!("eligible report (created {:?}, now {}) could not be closed: {e:?}", d.header.as_ref().map(|h| h.epoch), pre.epoch);
                    self.violate("C10", what.clone(), rp);
                    match e {
                        IxErr::Rt(_) => self.violate("C11", what, rp),
                        IxErr::Prog(p) if *p == ProgramError::Custom(code::INVALID_DESTINATION) => self.violate("C11", what, rp),
                        IxErr::Prog(p) if *p == ProgramError::Custom(code::REPORT_ACCOUNT) => self.violate("C12", what, rp),
                        _ => (),
                    }
                }
            }
        }
    }

    /// C19: one fault, one documented answer.
    pub fn expect_error(&mut self, pre: &World, tx: &Tx, out: &TxOut, fault: &str, want: &[ProgramError]) {
        self.cover.hit(&format!("fault: {fault}"));
        let name = self.hints.name;
        let rp = || replay::encode_expect(name, pre, tx, fault, want);
        match &out.res {
            Ok(()) => self.violate("C19", format!("{fault}: accepted, expected {want:?}"), rp),
            Err((_, IxErr::Prog(e))) if want.contains(e) => (),
            Err((i, e)) => self.violate("C19", format!("{fault}: failed with {e:?} at instruction {i}, expected {want:?}"), rp),
        }
    }
}
