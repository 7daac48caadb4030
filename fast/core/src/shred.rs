//! Independent reading and writing of Merkle shreds, following the validator
//! wire format. Nothing here uses the code under test.
use {
    crate::{keys::Key, rng::Rng},
    solana_program::hash::hashv,
};

pub const LEAF: &[u8] = b"\x00SOLANA_MERKLE_SHREDS_LEAF";
pub const NODE: &[u8] = b"\x01SOLANA_MERKLE_SHREDS_NODE";
pub const DATA_PAYLOAD: usize = 1203;
pub const CODE_PAYLOAD: usize = 1228;
pub const DATA_HEADERS: usize = 88;
pub const CODE_HEADERS: usize = 89;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    Data,
    Code,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Variant {
    pub ty: Ty,
    pub proof: u8,
    pub chained: bool,
    pub resigned: bool,
}

impl Variant {
    pub fn byte(&self) -> u8 {
        self.proof
            | match (self.ty, self.chained, self.resigned) {
                (Ty::Code, false, _) => 0x40,
                (Ty::Code, true, false) => 0x60,
                (Ty::Code, true, true) => 0x70,
                (Ty::Data, false, _) => 0x80,
                (Ty::Data, true, false) => 0x90,
                (Ty::Data, true, true) => 0xb0,
            }
    }
    pub fn of(b: u8) -> Result<Variant, Bad> {
        if b == 0x5a || b == 0xa5 {
            return Err(Bad::Legacy);
        }
        let (ty, chained, resigned) = match b >> 4 {
            4 => (Ty::Code, false, false),
            6 => (Ty::Code, true, false),
            7 => (Ty::Code, true, true),
            8 => (Ty::Data, false, false),
            9 => (Ty::Data, true, false),
            0xb => (Ty::Data, true, true),
            _ => return Err(Bad::Variant),
        };
        Ok(Variant { ty, proof: b & 15, chained, resigned })
    }
    pub fn payload(&self) -> usize {
        match self.ty {
            Ty::Data => DATA_PAYLOAD,
            Ty::Code => CODE_PAYLOAD,
        }
    }
    /// first byte of the Merkle proof; None when the shred has no room for it
    pub fn proof_offset(&self) -> Option<usize> {
        let hdr = match self.ty {
            Ty::Data => DATA_HEADERS,
            Ty::Code => CODE_HEADERS,
        };
        let tail = 20 * self.proof as usize + if self.resigned { 64 } else { 0 };
        let need = hdr + if self.chained { 32 } else { 0 } + tail;
        (need <= self.payload()).then(|| self.payload() - tail)
    }
    pub fn proof_end(&self) -> Option<usize> {
        self.proof_offset().map(|o| o + 20 * self.proof as usize)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bad {
    Short,
    Legacy,
    Variant,
    /// a header field combination that has no meaning (index before its set...)
    Field,
    /// the Merkle proof does not belong to a leaf at that position
    Proof,
}

/// Header fields as validators read them.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Parsed {
    pub v: Variant,
    pub sig: [u8; 64],
    pub slot: u64,
    pub index: u32,
    pub version: u16,
    pub fec: u32,
    pub flags: u8,
    pub num_data: u16,
    pub num_code: u16,
    pub position: u16,
    pub root: [u8; 32],
    /// everything covered by the comparison of two shreds (without the
    /// retransmitter's signature and anything after the shred)
    pub body: Vec<u8>,
}

impl Parsed {
    pub fn last(&self) -> bool {
        self.v.ty == Ty::Data && self.flags & 0xc0 == 0xc0
    }
    /// first index of the next erasure set, for coding shreds
    pub fn next_fec(&self) -> u64 {
        self.fec as u64 + self.num_data as u64
    }
    pub fn first_code(&self) -> Option<u32> {
        self.index.checked_sub(self.position as u32)
    }
}

fn le16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn le32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}

pub fn leaf_hash(leaf: &[u8]) -> [u8; 32] {
    hashv(&[LEAF, leaf]).to_bytes()
}
pub fn join(a: &[u8], b: &[u8]) -> [u8; 32] {
    hashv(&[NODE, &a[..20], &b[..20]]).to_bytes()
}

pub fn fold(mut index: u64, mut node: [u8; 32], proof: &[u8]) -> Option<[u8; 32]> {
    for e in proof.chunks(20) {
        node = if index & 1 == 0 { join(&node, e) } else { join(e, &node) };
        index >>= 1;
    }
    (index == 0).then_some(node)
}

pub fn parse(b: &[u8]) -> Result<Parsed, Bad> {
    let vb = *b.get(64).ok_or(Bad::Short)?;
    let v = Variant::of(vb)?;
    let po = v.proof_offset().ok_or(Bad::Short)?;
    let pe = v.proof_end().unwrap();
    if b.len() < pe {
        return Err(Bad::Short);
    }
    let (fec, index) = (le32(b, 79), le32(b, 73));
    let (mut flags, mut num_data, mut num_code, mut position) = (0, 0, 0, 0);
    let leaf_index = match v.ty {
        Ty::Data => {
            flags = b[85];
            index.checked_sub(fec).ok_or(Bad::Field)? as u64
        }
        Ty::Code => {
            num_data = le16(b, 83);
            num_code = le16(b, 85);
            position = le16(b, 87);
            num_data as u64 + position as u64
        }
    };
    let root = fold(leaf_index, leaf_hash(&b[64..po]), &b[po..pe]).ok_or(Bad::Proof)?;
    Ok(Parsed {
        v,
        sig: b[..64].try_into().unwrap(),
        slot: u64::from_le_bytes(b[65..73].try_into().unwrap()),
        index,
        version: le16(b, 77),
        fec,
        flags,
        num_data,
        num_code,
        position,
        root,
        body: b[..pe].to_vec(),
    })
}

#[derive(Clone, Debug)]
pub struct Hdr {
    pub v: Variant,
    pub slot: u64,
    pub index: u32,
    pub version: u16,
    pub fec: u32,
    /// data: (parent offset, flags, size); code: (num_data, num_code, position)
    pub a: u16,
    pub b: u16,
    pub c: u16,
}

impl Hdr {
    pub fn data(v: Variant, slot: u64, index: u32, version: u16, fec: u32, parent: u16, flags: u8, size: u16) -> Hdr {
        Hdr { v, slot, index, version, fec, a: parent, b: flags as u16, c: size }
    }
    pub fn code(v: Variant, slot: u64, index: u32, version: u16, fec: u32, nd: u16, nc: u16, pos: u16) -> Hdr {
        Hdr { v, slot, index, version, fec, a: nd, b: nc, c: pos }
    }
    /// A full-size payload with the header fields in place, body filled by rng.
    pub fn payload(&self, rng: &mut Rng) -> Vec<u8> {
        let mut p = vec![0u8; self.v.payload()];
        let hdr = if self.v.ty == Ty::Data { DATA_HEADERS } else { CODE_HEADERS };
        // short random body, the rest stays zero (fast) or is filled
        if rng.chance(1, 4) {
            rng.fill(&mut p[hdr..]);
        } else {
            rng.fill(&mut p[hdr..hdr + 24]);
        }
        self.write(&mut p);
        p
    }
    pub fn write(&self, p: &mut [u8]) {
        p[64] = self.v.byte();
        p[65..73].copy_from_slice(&self.slot.to_le_bytes());
        p[73..77].copy_from_slice(&self.index.to_le_bytes());
        p[77..79].copy_from_slice(&self.version.to_le_bytes());
        p[79..83].copy_from_slice(&self.fec.to_le_bytes());
        p[83..85].copy_from_slice(&self.a.to_le_bytes());
        match self.v.ty {
            Ty::Data => {
                p[85] = self.b as u8;
                p[86..88].copy_from_slice(&self.c.to_le_bytes());
            }
            Ty::Code => {
                p[85..87].copy_from_slice(&self.b.to_le_bytes());
                p[87..89].copy_from_slice(&self.c.to_le_bytes());
            }
        }
    }
    pub fn leaf_index(&self) -> Option<u64> {
        match self.v.ty {
            Ty::Data => self.index.checked_sub(self.fec).map(|x| x as u64),
            Ty::Code => Some(self.a as u64 + self.c as u64),
        }
    }
}

/// Depth of the validators' Merkle tree over n leaves.
pub fn depth(n: usize) -> u8 {
    if n <= 1 {
        0
    } else {
        (usize::BITS - (n - 1).leading_zeros()) as u8
    }
}

/// Merkle root and one proof per leaf, the way leaders build them (an odd
/// node at the end of a level is joined with itself).
pub fn tree(leaves: &[[u8; 32]]) -> ([u8; 32], Vec<Vec<u8>>) {
    let mut proofs = vec![vec![]; leaves.len()];
    let mut level: Vec<[u8; 32]> = leaves.to_vec();
    let mut d = 0;
    while level.len() > 1 {
        for (i, p) in proofs.iter_mut().enumerate() {
            let j = (i >> d) ^ 1;
            let s = level[j.min(level.len() - 1)];
            p.extend_from_slice(&s[..20]);
        }
        level = level.chunks(2).map(|c| join(&c[0], c.last().unwrap())).collect();
        d += 1;
    }
    (level[0], proofs)
}

/// Finish a payload whose header and body are in place: write the proof, sign.
pub fn seal(p: &mut [u8], v: Variant, proof: &[u8], root: &[u8; 32], key: &Key, sigs: &mut crate::rt::SigCache) {
    let (po, pe) = (v.proof_offset().unwrap(), v.proof_end().unwrap());
    p[po..pe].copy_from_slice(proof);
    let sig = key.sign(root);
    sigs.learn(key.pk.to_bytes(), sig, root);
    p[..64].copy_from_slice(&sig);
}

/// Sign a single shred under a made-up tree: any proof entries make a valid
/// path as long as the depth covers the leaf index.
pub fn seal_alone(p: &mut [u8], h: &Hdr, key: &Key, proof: Vec<u8>, sigs: &mut crate::rt::SigCache) -> Option<[u8; 32]> {
    let po = h.v.proof_offset()?;
    let idx = h.leaf_index()?;
    if h.v.proof < 64 && (idx >> h.v.proof) != 0 {
        return None;
    }
    let root = fold(idx, leaf_hash(&p[64..po]), &proof)?;
    seal(p, h.v, &proof, &root, key, sigs);
    Some(root)
}
