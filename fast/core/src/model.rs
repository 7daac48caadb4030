//! Reference decision for report and close instructions, written from the
//! documented rules. Three-valued: cases on which the documentation says
//! nothing are `Unsure` and never produce a verdict.
use {
    crate::{
        pda, rt::{ed25519_entry, ed25519_id, instructions_id, Acct, SlashCall, Tx, World, SYSTEM},
        shred::{parse, Bad, Parsed, Ty},
        Args, Header, REPORT_HEADER,
    },
    solana_program::pubkey::Pubkey,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Why {
    Data,
    MissingAccounts,
    FakeSysvar,
    FakeSystem,
    Offset,
    Future,
    TooOld,
    /// no ed25519 instruction directly before, or fewer than two entries
    NoSigverify,
    /// the entries verified something else than the report relies on
    Unverified,
    Proof,
    ShredShort,
    ShredVariant,
    ShredLegacy,
    ShredField,
    ShredProof,
    Slot,
    Version,
    Type,
    SamePayload,
    NoLast,
    SameErasure,
    Pda,
    Reported,
    DestIsPda,
    Unfunded,
    NotWritable,
    Aliased,
    // close
    CloseAccount,
    TooSoon,
    WrongDestination,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Conflict {
    Root,
    Overlap,
    Payload,
    Last,
    Erasure,
}

pub struct Decision {
    pub args: Option<Args>,
    pub no: Vec<Why>,
    pub unsure: Vec<&'static str>,
    pub shreds: Option<(Vec<u8>, Vec<u8>)>,
    pub parsed: Option<(Parsed, Parsed)>,
    pub conflict: Option<Conflict>,
    /// lamports needed at the report address
    pub need: u64,
    /// the complete expected report account
    pub expect: Option<Acct>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Accept,
    Reject,
    Unsure,
}

impl Decision {
    pub fn verdict(&self) -> Verdict {
        if !self.no.is_empty() {
            Verdict::Reject
        } else if !self.unsure.is_empty() {
            Verdict::Unsure
        } else {
            Verdict::Accept
        }
    }
}

/// The conflict rules over two parsed shreds; Err(why) when there is none.
pub fn conflict(slot: u64, a: &Parsed, b: &Parsed, unsure: &mut Vec<&'static str>) -> Result<Conflict, Why> {
    if a.slot != slot || b.slot != slot {
        return Err(Why::Slot);
    }
    if a.version != b.version {
        return Err(Why::Version);
    }
    if a.fec == b.fec && a.root != b.root {
        return Ok(Conflict::Root);
    }
    for (lo, hi) in [(a, b), (b, a)] {
        if lo.v.ty == Ty::Code && lo.fec < hi.fec {
            if lo.next_fec() > u32::MAX as u64 {
                // the set would not fit the index space: not a well-formed shred
                unsure.push("erasure set past the index space");
                return Ok(Conflict::Overlap);
            }
            if lo.next_fec() > hi.fec as u64 {
                return Ok(Conflict::Overlap);
            }
        }
    }
    if a.v.ty != b.v.ty {
        return Err(Why::Type);
    }
    if a.index == b.index {
        if a.body == b.body {
            return Err(Why::SamePayload);
        }
        if a.body[64..] == b.body[64..] {
            // two signatures over the same content: only a leader that does
            // not sign deterministically can produce them
            unsure.push("same content, two signatures");
        }
        return Ok(Conflict::Payload);
    }
    if a.v.ty == Ty::Data {
        let (lo, hi) = if a.index < b.index { (a, b) } else { (b, a) };
        return if lo.last() && hi.index > lo.index { Ok(Conflict::Last) } else { Err(Why::NoLast) };
    }
    if a.fec == b.fec {
        match (a.first_code(), b.first_code()) {
            (Some(x), Some(y)) => {
                if (a.num_data, a.num_code, x) != (b.num_data, b.num_code, y) {
                    return Ok(Conflict::Erasure);
                }
            }
            _ => {
                unsure.push("coding position past its index");
                return Ok(Conflict::Erasure);
            }
        }
    }
    Err(Why::SameErasure)
}

pub fn unpack(d: &[u8]) -> Option<(&[u8], &[u8])> {
    let n1 = u32::from_le_bytes(d.get(0..4)?.try_into().unwrap()) as usize;
    let s1 = d.get(4..4usize.checked_add(n1)?)?;
    let r = &d[4 + n1..];
    let n2 = u32::from_le_bytes(r.get(0..4)?.try_into().unwrap()) as usize;
    let s2 = r.get(4..4usize.checked_add(n2)?)?;
    Some((s1, s2))
}
pub fn pack(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = (a.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(a);
    v.extend_from_slice(&(b.len() as u32).to_le_bytes());
    v.extend_from_slice(b);
    v
}

pub fn bad_why(b: Bad) -> Why {
    match b {
        Bad::Short => Why::ShredShort,
        Bad::Legacy => Why::ShredLegacy,
        Bad::Variant => Why::ShredVariant,
        Bad::Field => Why::ShredField,
        Bad::Proof => Why::ShredProof,
    }
}

pub fn report(w: &World, program: &Pubkey, tx: &Tx, call: &SlashCall) -> Decision {
    let mut d = Decision {
        args: None,
        no: vec![],
        unsure: vec![],
        shreds: None,
        parsed: None,
        conflict: None,
        need: 0,
        expect: None,
    };
    let Some(args) = Args::decode(&call.data) else {
        d.no.push(Why::Data);
        return d;
    };
    d.args = Some(args.clone());
    let acct = |i: usize| -> Acct { call.metas.get(i).map(|m| call.pre[&m.key].clone()).unwrap_or_default() };
    if call.metas.len() < 4 {
        d.no.push(Why::MissingAccounts);
        return d;
    }
    if call.metas[2].key != instructions_id() {
        d.no.push(Why::FakeSysvar);
    }
    if call.metas[3].key != SYSTEM {
        d.no.push(Why::FakeSystem);
    }
    // window
    if w.slot < args.slot {
        d.no.push(Why::Future);
    } else if w.slot - args.slot > w.sched.slots_per_epoch {
        d.no.push(Why::TooOld);
    }
    // evidence
    let proof = acct(0).data;
    let mut roots = None;
    if args.offset > proof.len() as u64 {
        d.no.push(Why::Offset);
    } else {
        match unpack(&proof[args.offset as usize..]) {
            None => d.no.push(Why::Proof),
            Some((s1, s2)) => {
                d.shreds = Some((s1.to_vec(), s2.to_vec()));
                match (parse(s1), parse(s2)) {
                    (Ok(a), Ok(b)) => {
                        for (p, s) in [(&a, s1), (&b, s2)] {
                            if s.len() < p.v.payload() {
                                d.unsure.push("shred without its retransmitter signature");
                            }
                        }
                        roots = Some([(a.root, a.sig), (b.root, b.sig)]);
                        d.parsed = Some((a, b));
                    }
                    (a, b) => {
                        for r in [a, b] {
                            if let Err(e) = r {
                                d.no.push(bad_why(e));
                            }
                        }
                    }
                }
            }
        }
    }
    // signatures
    let all: Vec<&[u8]> = tx.ixs.iter().map(|i| i.data.as_slice()).collect();
    let prev = call.top.checked_sub(1).map(|i| &tx.ixs[i]);
    match prev {
        Some(p) if p.program == ed25519_id() && p.data.len() >= 2 + 28 && p.data[0] >= 2 => {
            let mut canonical = call.depth == 1 && tx.ixs[call.top].program == *program;
            for i in 0..2 {
                let e = ed25519_entry(&p.data, &all, i);
                match (e, &roots) {
                    (Some((pk, msg, sig)), Some(r)) => {
                        if pk != args.node.as_ref() || msg != &r[i].0[..] || sig != &r[i].1[..] {
                            d.no.push(Why::Unverified);
                        }
                    }
                    (None, _) => d.no.push(Why::Unverified),
                    (Some((pk, _, _)), None) => {
                        if pk != args.node.as_ref() {
                            d.no.push(Why::Unverified);
                        }
                    }
                }
                for j in [1usize, 3, 6] {
                    let o = 2 + 14 * i + 2 * j;
                    if u16::from_le_bytes([p.data[o], p.data[o + 1]]) as usize != call.top {
                        canonical = false;
                    }
                }
            }
            if !canonical {
                d.unsure.push("verified bytes lie outside the report instruction");
            }
        }
        _ => d.no.push(Why::NoSigverify),
    }
    // verdict on the pair
    if let Some((a, b)) = &d.parsed {
        match conflict(args.slot, a, b, &mut d.unsure) {
            Ok(c) => d.conflict = Some(c),
            Err(w) => d.no.push(w),
        }
    }
    // report account
    let want = pda(program, &args.node, args.slot);
    let m1 = &call.metas[1];
    let rep = acct(1);
    if m1.key != want {
        d.no.push(Why::Pda);
    } else {
        if rep.owner == *program && !rep.data.is_empty() {
            if rep.data[0] > 0 {
                d.no.push(Why::Reported);
            } else {
                d.unsure.push("program-owned account of version 0 at the report address");
            }
        } else if !rep.data.is_empty() || rep.owner != SYSTEM {
            d.unsure.push("report address in an unreachable state");
        }
        if !m1.writable {
            d.no.push(Why::NotWritable);
        }
    }
    if args.destination == want {
        d.no.push(Why::DestIsPda);
    }
    if call.metas[0].key == m1.key {
        d.no.push(Why::Aliased);
    }
    if let Some((s1, s2)) = &d.shreds {
        let size = REPORT_HEADER + 8 + s1.len() + s2.len();
        d.need = w.rent.minimum_balance(size);
        if rep.lamports < d.need {
            d.no.push(Why::Unfunded);
        }
        if size > 10240 {
            d.unsure.push("larger than one reallocation");
        }
        let mut data = Header {
            version: 1,
            reporter: args.reporter,
            destination: args.destination,
            epoch: w.epoch,
            pubkey: args.node,
            slot: args.slot,
            kind: 1,
        }
        .encode();
        data.extend(pack(s1, s2));
        d.expect = Some(Acct { lamports: rep.lamports, data, owner: *program, executable: rep.executable });
    }
    d
}

pub struct CloseDecision {
    pub no: Vec<Why>,
    pub unsure: Vec<&'static str>,
    pub header: Option<Header>,
}
impl CloseDecision {
    pub fn verdict(&self) -> Verdict {
        if !self.no.is_empty() {
            Verdict::Reject
        } else if !self.unsure.is_empty() {
            Verdict::Unsure
        } else {
            Verdict::Accept
        }
    }
}

pub fn close(w: &World, program: &Pubkey, call: &SlashCall, genuine: bool) -> CloseDecision {
    let mut d = CloseDecision { no: vec![], unsure: vec![], header: None };
    if call.metas.len() < 2 {
        d.no.push(Why::MissingAccounts);
        return d;
    }
    if call.data.len() != 1 {
        d.unsure.push("trailing bytes after the discriminant");
    }
    let rep = &call.pre[&call.metas[0].key];
    let dst = &call.pre[&call.metas[1].key];
    if rep.owner != *program || rep.data.is_empty() {
        d.no.push(Why::CloseAccount);
        return d;
    }
    let Some(h) = Header::decode(&rep.data) else {
        d.no.push(Why::CloseAccount);
        return d;
    };
    if (w.epoch as u128) < h.epoch as u128 + 3 {
        // an epoch within three of the integer limit can never be followed by
        // three more; only the last representable epoch is left
        if h.epoch > u64::MAX - 3 && w.epoch == u64::MAX {
            d.unsure.push("end of time");
        } else {
            d.no.push(Why::TooSoon);
        }
    }
    if h.destination != call.metas[1].key {
        d.no.push(Why::WrongDestination);
    }
    if !call.metas[0].writable || !call.metas[1].writable {
        d.no.push(Why::NotWritable);
    }
    if call.metas[0].key == call.metas[1].key {
        d.unsure.push("report and destination are the same account");
    }
    if dst.lamports.checked_add(rep.lamports).is_none() {
        d.unsure.push("more lamports than exist");
    }
    if !genuine {
        d.unsure.push("not a report created by the program");
    }
    d.header = Some(h);
    d
}
