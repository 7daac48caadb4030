//! Building blocks of workloads: leaders, signed shreds, blocks, transactions.
use {
    crate::{
        monitor::hex,
        alloc::Mode,
        keys::Key,
        model,
        monitor::Monitor,
        pda,
        rng::Rng,
        rt::{ed25519_id, instructions_id, run_tx, Acct, Ix, Meta, SigCache, Tx, TxOut, World, SYSTEM},
        shred::{self, depth, fold, leaf_hash, parse, seal, seal_alone, tree, Hdr, Ty, Variant},
        Args, Target,
    },
    solana_program::pubkey::Pubkey,
    std::{collections::HashMap, time::Instant},
};

pub struct Env<'t> {
    pub rng: Rng,
    pub target: &'t Target,
    pub mon: Monitor<'t>,
    pub sigs: SigCache,
    pub leaders: Vec<Key>,
    pub modes: Vec<Mode>,
    pub deadline: Instant,
    pub stopped_early: bool,
    pub stop_on: Option<&'static str>,
    /// corpus recording (for the interpreter and sanitizer runs)
    pub record: Option<Vec<serde_json::Value>>,
    /// what to claim for shreds that have no Merkle root
    pub claims: HashMap<Vec<u8>, ([u8; 32], [u8; 64])>,
    /// one digest per transaction (comparison of build modes)
    pub digests: Option<Vec<u64>>,
    /// record only this transaction
    pub dump_at: Option<u64>,
    pub txs: u64,
    /// how the shreds made next resemble each other: the bodies (0 all zero,
    /// 1 up to the last byte, 2 up to one byte, 3 all ones), the proofs
    pub alike: Option<(u8, bool)>,
    /// sees every transaction, before the monitors do
    pub sink: Option<Box<dyn FnMut(&Monitor, &World, &Tx, &TxOut, &World)>>,
}

#[derive(Clone)]
pub struct Pair {
    pub leader: usize,
    pub slot: u64,
    pub s1: Vec<u8>,
    pub s2: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Funding {
    /// transfer instruction first, as the client library does
    Client,
    /// the address already holds exactly this much
    Exact(i64),
    /// holds plenty
    Plenty,
}

#[derive(Clone)]
pub struct Case {
    pub pair: Pair,
    pub args: Args,
    pub proof_key: Pubkey,
    pub proof_data: Vec<u8>,
    pub proof_owner: Pubkey,
    pub payer: Pubkey,
    pub funding: Funding,
    pub now: u64,
    pub epoch: u64,
    pub slots_per_epoch: u64,
}

pub const PAYER: Pubkey = Pubkey::new_from_array([0xaa; 32]);

impl<'t> Env<'t> {
    pub fn new(target: &'t Target, seed: u64, stream: u64, deadline: Instant) -> Self {
        let mut rng = Rng::new(seed, stream);
        let leaders = (0..12).map(|_| Key::new(rng.arr())).collect();
        Env {
            rng,
            target,
            mon: Monitor::new(target),
            sigs: SigCache::new(),
            leaders,
            modes: vec![Mode::PLAIN],
            deadline,
            stopped_early: false,
            stop_on: None,
            record: None,
            claims: HashMap::new(),
            digests: None,
            dump_at: None,
            txs: 0,
            alike: None,
            sink: None,
        }
    }
    /// false when the run should wind down
    pub fn go(&mut self) -> bool {
        if let Some(p) = self.stop_on {
            if self.mon.violations_of(p) >= 3 {
                return false;
            }
        }
        if Instant::now() >= self.deadline {
            self.stopped_early = true;
            return false;
        }
        true
    }
    pub fn key(&mut self) -> Pubkey {
        Pubkey::new_from_array(self.rng.arr())
    }
    pub fn run(&mut self, w: &mut World, tx: &Tx) -> TxOut {
        let pre = w.clone();
        crate::san::running(w, tx);
        let out = run_tx(w, tx, self.target, &mut self.sigs, &self.modes);
        if let Some(r) = self.record.as_mut() {
            if self.dump_at.is_none() && r.len() < 400 {
                let mut v = crate::replay::encode(self.mon.hints.name, &pre, tx);
                v["codes"] = codes(&out).into();
                v["sigs"] = verified(tx, &mut self.sigs);
                r.push(v);
            }
        }
        if let Some(d) = self.digests.as_mut() {
            d.push(digest(&out, w));
        }
        if self.dump_at == Some(self.txs) {
            self.record = Some(vec![crate::replay::encode(self.mon.hints.name, &pre, tx)]);
        }
        self.txs += 1;
        if let Some(f) = self.sink.as_mut() {
            f(&self.mon, &pre, tx, &out, w);
        }
        self.mon.observe(&pre, tx, &out, w);
        out
    }

    // ---- shreds -------------------------------------------------------

    pub fn variant(&mut self, ty: Ty, proof: u8) -> Variant {
        let (chained, resigned) = self.rng.copy(&[(false, false), (true, false), (true, true)]);
        Variant { ty, proof, chained, resigned }
    }

    /// A shred with the given header, signed by leader, in a tree of its own.
    pub fn alone(&mut self, leader: usize, h: &Hdr) -> Option<Vec<u8>> {
        let mut p = self.body(h);
        let proof = match self.alike {
            Some((_, true)) => vec![0x5a; 20 * h.v.proof as usize],
            _ => self.rng.bytes(20 * h.v.proof as usize),
        };
        seal_alone(&mut p, h, &self.leaders[leader], proof, &mut self.sigs)?;
        self.retransmit(&mut p, h.v);
        Some(p)
    }
    fn retransmit(&mut self, p: &mut [u8], v: Variant) {
        if v.resigned {
            let e = v.proof_end().unwrap();
            let n = e + 64;
            self.rng.fill(&mut p[e..n]);
        }
    }
    fn body(&mut self, h: &Hdr) -> Vec<u8> {
        let mut p = h.payload(&mut self.rng);
        if let (Some((how, _)), Some(end)) = (self.alike, h.v.proof_offset()) {
            let start = if h.v.ty == Ty::Data { 88 } else { 89 };
            p[start..end].fill(if how == 3 { 0xff } else { 0 });
            match how {
                1 => p[end - 1] = self.rng.next() as u8,
                2 => p[start + self.rng.us(end - start)] = self.rng.next() as u8,
                _ => (),
            }
        }
        p
    }
    /// Two shreds committed to by one Merkle root (both headers must have the
    /// same proof size and distinct leaf positions).
    pub fn together(&mut self, leader: usize, a: &Hdr, b: &Hdr) -> Option<(Vec<u8>, Vec<u8>)> {
        let d = a.v.proof;
        if b.v.proof != d || d > 8 {
            return None;
        }
        let (i, j) = (a.leaf_index()?, b.leaf_index()?);
        if i >> d != 0 || j >> d != 0 || i == j {
            return None;
        }
        let mut pa = self.body(a);
        let mut pb = self.body(b);
        let mut leaves: Vec<[u8; 32]> = (0..1usize << d).map(|_| self.rng.arr()).collect();
        leaves[i as usize] = leaf_hash(&pa[64..a.v.proof_offset()?]);
        leaves[j as usize] = leaf_hash(&pb[64..b.v.proof_offset()?]);
        let (root, proofs) = tree(&leaves);
        seal(&mut pa, a.v, &proofs[i as usize], &root, &self.leaders[leader], &mut self.sigs);
        seal(&mut pb, b.v, &proofs[j as usize], &root, &self.leaders[leader], &mut self.sigs);
        self.retransmit(&mut pa, a.v);
        self.retransmit(&mut pb, b.v);
        Some((pa, pb))
    }

    /// A whole consistent block: the shreds an honest leader signs for a slot.
    pub fn honest_block(&mut self, leader: usize, slot: u64) -> Vec<Vec<u8>> {
        let nsets = 1 + self.rng.us(3);
        let version = self.rng.next() as u16;
        let parent = 1 + self.rng.below(3) as u16;
        let uniform = self.rng.chance(1, 2);
        let chained = self.rng.chance(2, 3);
        let mut out = vec![];
        let mut first = if self.rng.chance(1, 4) { self.rng.below(2000) as u32 } else { 0 };
        let mut code_base = first;
        for s in 0..nsets {
            let (nd, nc) = if uniform {
                (32usize, 32usize)
            } else {
                (1 + self.rng.us(20), 1 + self.rng.us(24))
            };
            let d = depth(nd + nc);
            let last_set = s + 1 == nsets;
            let resigned = chained && last_set && self.rng.chance(1, 2);
            let mut pls = vec![];
            let mut vs = vec![];
            for i in 0..nd {
                let v = Variant { ty: Ty::Data, proof: d, chained, resigned };
                let last = last_set && i + 1 == nd;
                let flags = self.rng.below(64) as u8
                    | if last { 0xc0 } else if i + 1 == nd { 0x40 } else { 0 };
                let h = Hdr::data(v, slot, first + i as u32, version, first, parent, flags, 88 + self.rng.below(900) as u16);
                pls.push(h.payload(&mut self.rng));
                vs.push(v);
            }
            for i in 0..nc {
                let v = Variant { ty: Ty::Code, proof: d, chained, resigned };
                let h = Hdr::code(v, slot, code_base + i as u32, version, first, nd as u16, nc as u16, i as u16);
                pls.push(h.payload(&mut self.rng));
                vs.push(v);
            }
            let leaves: Vec<[u8; 32]> =
                pls.iter().zip(&vs).map(|(p, v)| leaf_hash(&p[64..v.proof_offset().unwrap()])).collect();
            let (root, proofs) = tree(&leaves);
            let sig = self.leaders[leader].sign(&root);
            self.sigs.learn(self.leaders[leader].pk.to_bytes(), sig, &root);
            for ((p, v), pr) in pls.iter_mut().zip(&vs).zip(&proofs) {
                let (a, b) = (v.proof_offset().unwrap(), v.proof_end().unwrap());
                p[a..b].copy_from_slice(pr);
                p[..64].copy_from_slice(&sig);
                self.retransmit(p, *v);
            }
            out.extend(pls);
            first += nd as u32;
            code_base += if self.rng.chance(1, 2) { nc.max(nd) } else { nc } as u32;
        }
        out
    }

    /// A pair with exactly the asked-for kind of conflict.
    pub fn conflicting(&mut self, kind: model::Conflict, slot: u64) -> Pair {
        let leader = self.rng.us(self.leaders.len());
        let ver = self.rng.next() as u16;
        loop {
            let fec = self.rng.copy(&[0u32, 1, 32, 64, 1000, 32000]);
            let d = 5 + self.rng.below(3) as u8;
            self.alike = self.rng.chance(1, 4).then(|| (self.rng.below(4) as u8, self.rng.chance(1, 2)));
            let (s1, s2) = match kind {
                // one header twice
                model::Conflict::Root if self.rng.chance(1, 6) => {
                    let ty = self.rng.copy(&[Ty::Data, Ty::Code]);
                    let pd = 5 + self.rng.below(11) as u8;
                    let v = self.variant(ty, pd);
                    let h = if ty == Ty::Data {
                        let fl = self.rng.next() as u8;
                        Hdr::data(v, slot, fec + self.rng.below(32) as u32, ver, fec, 1, fl, 100)
                    } else {
                        let pos = self.rng.below(16) as u32;
                        Hdr::code(v, slot, fec + pos, ver, fec, 16, 16, pos as u16)
                    };
                    let (Some(a), Some(b)) = (self.alone(leader, &h), self.alone(leader, &h)) else { continue };
                    (a, b)
                }
                model::Conflict::Root => {
                    let mk = |e: &mut Self| {
                        let ty = e.rng.copy(&[Ty::Data, Ty::Code]);
                        let pd = if e.rng.chance(1, 4) { 7 + e.rng.below(9) as u8 } else { 7 };
                        let v = e.variant(ty, pd.min(15));
                        let h = if ty == Ty::Data {
                            Hdr::data(v, slot, fec + e.rng.below(32) as u32, ver, fec, 1, e.rng.next() as u8, 100)
                        } else {
                            let pos = e.rng.below(32) as u32;
                            Hdr::code(v, slot, fec + pos, ver, fec, 32, 32, pos as u16)
                        };
                        e.alone(leader, &h)
                    };
                    let (Some(a), Some(b)) = (mk(self), mk(self)) else { continue };
                    (a, b)
                }
                model::Conflict::Overlap => {
                    let wide = self.rng.chance(1, 3);
                    let nd = if wide { 2 + self.rng.below(32_000) as u16 } else { 2 + self.rng.below(60) as u16 };
                    let inside = 1 + self.rng.below(nd as u64 - 1) as u32;
                    let v1 = self.variant(Ty::Code, if wide { 15 } else { 7 });
                    let c = Hdr::code(v1, slot, fec + 3, ver, fec, nd, 32, 3);
                    let ty = self.rng.copy(&[Ty::Data, Ty::Code]);
                    let v2 = self.variant(ty, 7);
                    let o = if ty == Ty::Data {
                        Hdr::data(v2, slot, fec + inside + self.rng.below(5) as u32, ver, fec + inside, 1, 0, 99)
                    } else {
                        Hdr::code(v2, slot, fec + inside + 2, ver, fec + inside, 32, 32, 2)
                    };
                    let (Some(a), Some(b)) = (self.alone(leader, &c), self.alone(leader, &o)) else { continue };
                    (a, b)
                }
                // one shred, signed twice
                model::Conflict::Payload if self.rng.chance(1, 5) => {
                    let ty = self.rng.copy(&[Ty::Data, Ty::Code]);
                    let v = self.variant(ty, d);
                    let i = self.rng.below(16) as u32;
                    let h = if ty == Ty::Data {
                        Hdr::data(v, slot, fec + i, ver, fec, 1, 0, 99)
                    } else {
                        Hdr::code(v, slot, fec + i, ver, fec, 16, 16, i as u16)
                    };
                    let Some(a) = self.alone(leader, &h) else { continue };
                    let mut b = a.clone();
                    let root = parse(&a).unwrap().root;
                    let sig = self.leaders[leader].sign_again(&root, self.rng.arr());
                    b[..64].copy_from_slice(&sig);
                    if self.rng.chance(1, 2) {
                        self.retransmit(&mut b, v);
                    }
                    (a, b)
                }
                model::Conflict::Payload => {
                    // same index and type, different sets (so that only the
                    // payload comparison can tell)
                    let ty = self.rng.copy(&[Ty::Data, Ty::Code]);
                    let idx = fec + 20;
                    let v1 = self.variant(ty, d);
                    let v2 = self.variant(ty, d);
                    let (a, b) = if ty == Ty::Data {
                        (
                            Hdr::data(v1, slot, idx, ver, fec + 4, 1, 0, 99),
                            Hdr::data(v2, slot, idx, ver, fec + 8 + self.rng.below(8) as u32, 1, 0, 99),
                        )
                    } else {
                        // sets far enough apart not to overlap
                        (
                            Hdr::code(v1, slot, idx, ver, fec, 4, 8, self.rng.below(8) as u16),
                            Hdr::code(v2, slot, idx, ver, fec + 4 + self.rng.below(8) as u32, 4, 8, self.rng.below(8) as u16),
                        )
                    };
                    let (Some(a), Some(b)) = (self.alone(leader, &a), self.alone(leader, &b)) else { continue };
                    (a, b)
                }
                model::Conflict::Last => {
                    let v1 = self.variant(Ty::Data, d);
                    let i1 = self.rng.below(20) as u32;
                    let gap = if self.rng.chance(1, 3) { self.rng.bit(30) as u32 } else { 1 + self.rng.below(8) as u32 };
                    let (near, far) = if gap > 31 { (1 + i1 % 4, gap) } else { (gap, gap) };
                    let tick = self.rng.below(64) as u8;
                    let flags2 = self.rng.copy(&[0u8, 0x40, 0xc0, 0x3f]);
                    if self.rng.chance(1, 2) {
                        let a = Hdr::data(v1, slot, fec + i1, ver, fec, 1, 0xc0 | tick, 99);
                        let v2 = Variant { proof: d, ..self.variant(Ty::Data, d) };
                        let b = Hdr::data(v2, slot, fec + i1 + near, ver, fec, 1, flags2, 99);
                        let Some(p) = self.together(leader, &a, &b) else { continue };
                        p
                    } else {
                        let v2 = self.variant(Ty::Data, d);
                        let f2 = fec + 32 + if far > 31 { far } else { 0 };
                        let gap = if far > 31 { 0 } else { far };
                        let a = Hdr::data(v1, slot, fec + i1, ver, fec, 1, 0xc0 | tick, 99);
                        let b = Hdr::data(v2, slot, f2 + gap, ver, f2, 1, flags2, 99);
                        let (Some(a), Some(b)) = (self.alone(leader, &a), self.alone(leader, &b)) else { continue };
                        (a, b)
                    }
                }
                model::Conflict::Erasure => {
                    // one root, one set, differing configuration
                    let v1 = self.variant(Ty::Code, d);
                    let v2 = self.variant(Ty::Code, d);
                    let (p1, p2) = (self.rng.below(8) as u16, self.rng.below(8) as u16);
                    let how = self.rng.below(6);
                    let a = Hdr::code(v1, slot, fec + 10 + p1 as u32, ver, fec, 16, 8, p1);
                    let b = match how {
                        // differing in one bit, wherever it is
                        3 => Hdr::code(v2, slot, fec + 10 + p2 as u32, ver, fec, 16, 8 ^ self.rng.bit(16) as u16, p2),
                        4 => Hdr::code(v2, slot, (fec + 10 ^ self.rng.bit(31) as u32) + p2 as u32, ver, fec, 16, 8, p2),
                        5 => Hdr::code(v2, slot, fec + 10 + p2 as u32, ver, fec, 16 ^ self.rng.bit(d.min(7) as u64) as u16, 8, p2),
                        0 => Hdr::code(v2, slot, fec + 10 + p2 as u32, ver, fec, 17, 8, p2),
                        1 => Hdr::code(v2, slot, fec + 10 + p2 as u32, ver, fec, 16, 9, p2),
                        _ => Hdr::code(v2, slot, fec + 11 + p2 as u32 + self.rng.below(4) as u32, ver, fec, 16, 8, p2),
                    };
                    if a.index == b.index {
                        continue;
                    }
                    let Some(p) = self.together(leader, &a, &b) else { continue };
                    p
                }
            };
            self.alike = None;
            let (s1, s2) = if self.rng.chance(1, 2) { (s1, s2) } else { (s2, s1) };
            let (Ok(a), Ok(b)) = (parse(&s1), parse(&s2)) else { continue };
            if model::conflict(slot, &a, &b, &mut vec![]) != Ok(kind) {
                continue;
            }
            return Pair { leader, slot, s1, s2 };
        }
    }

    pub fn any_conflict(&mut self, slot: u64) -> Pair {
        use model::Conflict::*;
        let k = self.rng.copy(&[Root, Root, Overlap, Payload, Last, Erasure]);
        self.conflicting(k, slot)
    }

    pub fn slot(&mut self) -> u64 {
        match self.rng.below(8) {
            0 => self.rng.below(4),
            1 => 432_000 - 1 + self.rng.below(3),
            2 => u64::MAX - 432_000 - self.rng.below(3),
            3 => u64::MAX - self.rng.below(1000),
            4 => (1u64 << 32) - 1 + self.rng.below(3),
            _ => 1_000_000 + self.rng.below(1 << 40),
        }
    }

    // ---- transactions -------------------------------------------------

    /// A report of `pair` that is valid in every other respect.
    pub fn case(&mut self, pair: Pair) -> Case {
        let claims = std::mem::take(&mut self.claims);
        let r = |s: &[u8]| -> ([u8; 32], [u8; 64]) {
            if let Some(c) = claims.get(s) {
                return *c;
            }
            let root = parse(s).map(|p| p.root).unwrap_or([7; 32]);
            let mut sig = [0u8; 64];
            let n = s.len().min(64);
            sig[..n].copy_from_slice(&s[..n]);
            (root, sig)
        };
        let (root1, sig1) = r(&pair.s1);
        let (root2, sig2) = r(&pair.s2);
        self.claims = claims;
        let offset = match self.rng.below(16) {
            0..4 => 0,
            4..8 => 33, // a record account's header
            8 => self.rng.below(3000),
            9 if self.rng.chance(1, 4) => (1 << 16) - 2 + self.rng.below(5),
            10 if self.rng.chance(1, 4) => self.rng.below(100_000),
            _ => self.rng.below(70),
        };
        let mut proof_data = self.rng.bytes(offset as usize);
        proof_data.extend(model::pack(&pair.s1, &pair.s2));
        let tail = match self.rng.below(4) {
            0 => 0,
            1 => self.rng.us(50),
            2 => 1,
            _ => 58,
        };
        proof_data.extend(self.rng.bytes(tail));
        let slots_per_epoch = self.rng.copy(&[432_000, 432_000, 432_000, 32, 64, 8192]);
        let age = match self.rng.below(4) {
            0 => 0,
            1 => slots_per_epoch,
            _ => self.rng.below(slots_per_epoch + 1),
        };
        let args = Args {
            offset,
            slot: pair.slot,
            node: self.leaders[pair.leader].pk,
            reporter: if self.rng.chance(1, 2) { PAYER } else { self.key() },
            destination: match self.rng.below(24) {
                0..8 => PAYER,
                8 => Pubkey::default(),
                9 => self.leaders[pair.leader].pk,
                // resembles the address of the report
                11 => {
                    let r = pda(&self.target.id, &self.leaders[pair.leader].pk, pair.slot);
                    self.rng.near(r.to_bytes()).into()
                }
                _ => self.key(),
            },
            root1,
            sig1,
            root2,
            sig2,
        };
        Case {
            now: pair.slot.saturating_add(age),
            epoch: self.rng.below(2000),
            slots_per_epoch,
            proof_key: self.key(),
            proof_data,
            // the record program's, or anybody's
            proof_owner: match self.rng.below(12) {
                0 => SYSTEM,
                1 => self.target.id,
                2 => crate::rt::NOOP,
                _ => Pubkey::new_from_array([0x5c; 32]),
            },
            payer: PAYER,
            funding: if self.rng.chance(1, 2) { Funding::Client } else { Funding::Plenty },
            args,
            pair,
        }
    }

    pub fn world(&mut self, c: &Case) -> World {
        // a new world is a new chain
        self.mon.reset_history();
        let mut w = World::new();
        w.slot = c.now;
        w.epoch = c.epoch;
        w.sched.slots_per_epoch = c.slots_per_epoch;
        w.sched.warmup = false;
        w.fund(PAYER, 1 << 50);
        w.put(
            c.proof_key,
            Acct {
                lamports: w.rent.minimum_balance(c.proof_data.len()),
                data: c.proof_data.clone(),
                owner: c.proof_owner,
                executable: false,
            },
        );
        let rep = pda(&self.target.id, &c.args.node, c.args.slot);
        let need = w.rent.minimum_balance(crate::REPORT_HEADER + 8 + c.pair.s1.len() + c.pair.s2.len());
        match c.funding {
            Funding::Client => (),
            Funding::Exact(d) => {
                let l = (need as i64 + d).max(0) as u64;
                if l > 0 {
                    w.fund(rep, l)
                }
            }
            Funding::Plenty => w.fund(rep, need + self.rng.copy(&[0, 1, 5000, 1 << 40])),
        }
        w
    }

    pub fn tx(&mut self, c: &Case) -> Tx {
        let ixs: Vec<Ix> = if c.funding == Funding::Client {
            let rent = solana_program::rent::Rent::default();
            (self.target.build_three)(&c.proof_key, &c.args, Some(&c.payer), &rent).into_iter().map(Ix::from).collect()
        } else {
            vec![sig_ix(1, c.args.root1.len() as u16), report_ix(self.target, c)]
        };
        Tx { ixs, signers: [c.payer].into_iter().collect() }
    }
}

/// The canonical verification instruction for a report at index `at`.
pub fn sig_ix(at: u16, msg_len: u16) -> Ix {
    let mut d = vec![2u8, 0];
    for (s, m) in [(crate::O_SIG1, crate::O_ROOT1), (crate::O_SIG2, crate::O_ROOT2)] {
        for x in [s as u16, at, crate::O_NODE as u16, at, m as u16, msg_len, at] {
            d.extend_from_slice(&x.to_le_bytes());
        }
    }
    Ix { program: ed25519_id(), metas: vec![], data: d, inner: vec![] }
}

pub fn report_metas(id: &Pubkey, proof: Pubkey, node: &Pubkey, slot: u64) -> Vec<Meta> {
    vec![Meta::r(proof), Meta::w(pda(id, node, slot)), Meta::r(instructions_id()), Meta::r(SYSTEM)]
}

pub fn report_ix(t: &Target, c: &Case) -> Ix {
    Ix {
        program: t.id,
        metas: report_metas(&t.id, c.proof_key, &c.args.node, c.args.slot),
        data: c.args.encode(),
        inner: vec![],
    }
}

pub fn close_ix(t: &Target, report: Pubkey, dest: Pubkey) -> Ix {
    Ix { program: t.id, metas: vec![Meta::w(report), Meta::w(dest)], data: vec![0], inner: vec![] }
}

pub fn transfer_ix(from: Pubkey, to: Pubkey, lamports: u64) -> Ix {
    let mut data = 2u32.to_le_bytes().to_vec();
    data.extend_from_slice(&lamports.to_le_bytes());
    Ix { program: SYSTEM, metas: vec![Meta::sw(from), Meta::w(to)], data, inner: vec![] }
}

pub fn create_ix(from: Pubkey, to: Pubkey, lamports: u64, space: u64, owner: Pubkey) -> Ix {
    let mut data = 0u32.to_le_bytes().to_vec();
    data.extend_from_slice(&lamports.to_le_bytes());
    data.extend_from_slice(&space.to_le_bytes());
    data.extend_from_slice(owner.as_ref());
    Ix { program: SYSTEM, metas: vec![Meta::sw(from), Meta::sw(to)], data, inner: vec![] }
}

/// Recompute what a full proof would give, for callers that edit payloads.
pub fn reroot(p: &[u8]) -> Option<[u8; 32]> {
    let v = Variant::of(*p.get(64)?).ok()?;
    let (po, pe) = (v.proof_offset()?, v.proof_end()?);
    if p.len() < pe {
        return None;
    }
    let idx = match v.ty {
        Ty::Data => {
            let i = u32::from_le_bytes(p[73..77].try_into().unwrap());
            let f = u32::from_le_bytes(p[79..83].try_into().unwrap());
            i.checked_sub(f)? as u64
        }
        Ty::Code => {
            u16::from_le_bytes(p[83..85].try_into().unwrap()) as u64 + u16::from_le_bytes(p[87..89].try_into().unwrap()) as u64
        }
    };
    fold(idx, shred::leaf_hash(&p[64..po]), &p[po..pe])
}

/// Everything a client can see of a transaction, as one number.
pub fn digest(out: &TxOut, w: &World) -> u64 {
    let mut h = crate::monitor::Fnv::default();
    use std::hash::Hasher;
    for c in &out.calls {
        match &c.result {
            Ok(()) => h.write(b"ok"),
            Err(crate::rt::IxErr::Prog(p)) => h.write(&u64::from(p.clone()).to_le_bytes()),
            Err(crate::rt::IxErr::Panic(_)) => h.write(b"panic"),
            Err(crate::rt::IxErr::Rt(r)) => h.write(r.as_bytes()),
        }
        for (k, a) in &c.post {
            if *k != instructions_id() {
                h.write(k.as_ref());
                h.write(&a.lamports.to_le_bytes());
                h.write(&a.data);
                h.write(a.owner.as_ref());
            }
        }
    }
    h.write(&w.slot.to_le_bytes());
    h.finish()
}

/// The signature verifications a transaction asks for, with their results.
fn verified(tx: &Tx, sigs: &mut SigCache) -> serde_json::Value {
    let all: Vec<&[u8]> = tx.ixs.iter().map(|i| &i.data[..]).collect();
    let mut out = vec![];
    for i in &tx.ixs {
        if i.program == crate::rt::ed25519_id() {
            for k in 0..i.data.first().copied().unwrap_or(0) as usize {
                if let Some((pk, msg, sig)) = crate::rt::ed25519_entry(&i.data, &all, k) {
                    let ok = sigs.verify(pk, msg, sig);
                    out.push(serde_json::json!([hex(pk), hex(sig), hex(msg), ok]));
                }
            }
        }
    }
    out.into()
}

/// What each call of the program returned, as a number.
pub fn codes(out: &TxOut) -> Vec<u64> {
    let code = |c: &crate::rt::SlashCall| match &c.result {
        Ok(()) => 0u64,
        Err(crate::rt::IxErr::Prog(p)) => u64::from(p.clone()),
        Err(_) => u64::MAX,
    };
    out.calls.iter().map(code).collect()
}
