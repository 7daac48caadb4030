//! The reference parser and conflict rules against the validators' own.
use {
    slashcore::{
        model,
        monitor::hex,
        shred::{parse, Bad, Parsed, Ty},
    },
    solana_ledger::{
        blockstore_meta::ErasureMeta,
        shred::{layout, Shred, ShredType},
    },
    solana_program::pubkey::Pubkey,
    std::collections::BTreeMap,
};

#[derive(Default)]
pub struct Parity {
    pub counts: BTreeMap<String, u64>,
    pub mismatches: Vec<String>,
}

impl Parity {
    fn hit(&mut self, k: impl Into<String>) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
    fn bad(&mut self, what: String) {
        self.hit("MISMATCH");
        if self.mismatches.len() < 5 {
            self.mismatches.push(what);
        }
    }

    fn one(&mut self, b: &[u8], node: &Pubkey) -> Option<(Shred, Parsed)> {
        let theirs = std::panic::catch_unwind(|| Shred::new_from_serialized_shred(b.to_vec()));
        let Ok(theirs) = theirs else {
            self.hit("ledger panics");
            return None;
        };
        let ours = parse(b);
        match (theirs, ours) {
            (Ok(s), Ok(p)) => {
                let want = (p.slot, p.index, p.version, p.fec, p.v.ty == Ty::Data, p.last(), p.root);
                let Ok(root) = s.merkle_root() else {
                    // readable header, unusable Merkle proof
                    self.bad(format!("reference accepts, ledger finds no root: {}", hex(b)));
                    return None;
                };
                let is = (
                    s.slot(),
                    s.index(),
                    s.version(),
                    s.fec_set_index(),
                    s.shred_type() == ShredType::Data,
                    s.last_in_slot(),
                    root.to_bytes(),
                );
                self.hit(format!("same shred: {:?} chained {} resigned {}", p.v.ty, p.v.chained, p.v.resigned));
                if is != want {
                    self.bad(format!("ledger {is:?}, reference {want:?}: {}", hex(b)));
                }
                let mut sigs = slashcore::rt::SigCache::new();
                if s.verify(node) != sigs.verify(node.as_ref(), &p.root, &p.sig) {
                    self.bad(format!("signature: ledger {}: {}", s.verify(node), hex(b)));
                }
                // what the CLI names in a report
                if layout::get_merkle_root(b).map(|h| h.to_bytes()) != Some(p.root) {
                    self.bad(format!("layout root differs: {}", hex(b)));
                }
                Some((s, p))
            }
            (Ok(s), Err(e)) => {
                // legacy shreds and shreds without a root are no evidence
                let legacy = matches!(e, Bad::Legacy) && s.merkle_root().is_err();
                if legacy {
                    self.hit("legacy shred");
                } else if s.merkle_root().is_err() {
                    self.hit("no root in either");
                } else {
                    self.bad(format!("ledger accepts, reference says {e:?}: {}", hex(b)));
                }
                None
            }
            (Err(e), Ok(_)) => {
                let e: String = e.to_string().chars().take_while(|c| !c.is_ascii_digit() && *c != '{').collect();
                self.hit(format!("stricter ledger: {}", e.trim()));
                None
            }
            (Err(_), Err(_)) => {
                self.hit("refused by both");
                None
            }
        }
    }

    /// The rules validators apply to duplicate proofs in gossip, plus
    /// overlapping erasure sets as the blockstore detects them.
    pub fn pair(&mut self, slot: u64, node: &Pubkey, a: &[u8], b: &[u8]) {
        let (Some((s, p)), Some((t, q))) = (self.one(a, node), self.one(b, node)) else { return };
        let overlap = |lo: &Shred, hi: &Shred, p: &Parsed| {
            lo.shred_type() == ShredType::Code
                && lo.fec_set_index() < hi.fec_set_index()
                && lo.fec_set_index() as u64 + p.num_data as u64 > hi.fec_set_index() as u64
        };
        let theirs = s.slot() == slot
            && t.slot() == slot
            && s.version() == t.version()
            && (s.fec_set_index() == t.fec_set_index() && s.merkle_root().ok() != t.merkle_root().ok()
                || overlap(&s, &t, &p)
                || overlap(&t, &s, &q)
                || s.shred_type() == t.shred_type()
                    && if s.index() == t.index() {
                        s.is_shred_duplicate(&t)
                    } else if s.shred_type() == ShredType::Data {
                        s.last_in_slot() && t.index() > s.index() || t.last_in_slot() && s.index() > t.index()
                    } else {
                        s.fec_set_index() == t.fec_set_index() && !ErasureMeta::check_erasure_consistency(&s, &t)
                    });
        let mut unsure = vec![];
        let ours = model::conflict(slot, &p, &q, &mut unsure);
        if !unsure.is_empty() {
            self.hit("pair: rules silent");
        } else if ours.is_ok() != theirs {
            self.bad(format!("verdict: validators {theirs}, reference {ours:?}: {} {}", hex(a), hex(b)));
        } else {
            self.hit(format!("same verdict: {ours:?}"));
        }
    }
}
