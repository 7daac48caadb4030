//! Monitoring core: everything except the code under test, which enters
//! through [`Target`].
pub mod alloc;
pub mod gen;
pub mod keys;
pub mod model;
pub mod monitor;
pub mod replay;
pub mod rng;
pub mod rt;
pub mod san;
pub mod shred;
pub mod wl_evidence;
pub mod wl_life;
pub mod wl_misc;
pub mod wl_sig;
pub mod worker;

use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction,
    pubkey::Pubkey, rent::Rent,
};

/// The arguments of a report, independent of the crate's own types.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Args {
    pub offset: u64,
    pub slot: u64,
    pub node: Pubkey,
    pub reporter: Pubkey,
    pub destination: Pubkey,
    pub root1: [u8; 32],
    pub sig1: [u8; 64],
    pub root2: [u8; 32],
    pub sig2: [u8; 64],
}

pub const REPORT_IX_LEN: usize = 1 + 16 + 96 + 32 + 64 + 32 + 64;
pub const O_NODE: usize = 17;
pub const O_REPORTER: usize = 49;
pub const O_DEST: usize = 81;
pub const O_ROOT1: usize = 113;
pub const O_SIG1: usize = 145;
pub const O_ROOT2: usize = 209;
pub const O_SIG2: usize = 241;
pub const REPORT_HEADER: usize = 114;

impl Args {
    /// The documented wire format.
    pub fn encode(&self) -> Vec<u8> {
        let mut d = vec![1u8];
        d.extend_from_slice(&self.offset.to_le_bytes());
        d.extend_from_slice(&self.slot.to_le_bytes());
        for k in [&self.node, &self.reporter, &self.destination] {
            d.extend_from_slice(k.as_ref());
        }
        d.extend_from_slice(&self.root1);
        d.extend_from_slice(&self.sig1);
        d.extend_from_slice(&self.root2);
        d.extend_from_slice(&self.sig2);
        d
    }
    pub fn decode(d: &[u8]) -> Option<Args> {
        if d.len() != REPORT_IX_LEN || d[0] != 1 {
            return None;
        }
        let k = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
        Some(Args {
            offset: u64::from_le_bytes(d[1..9].try_into().unwrap()),
            slot: u64::from_le_bytes(d[9..17].try_into().unwrap()),
            node: k(O_NODE),
            reporter: k(O_REPORTER),
            destination: k(O_DEST),
            root1: d[O_ROOT1..O_SIG1].try_into().unwrap(),
            sig1: d[O_SIG1..O_ROOT2].try_into().unwrap(),
            root2: d[O_ROOT2..O_SIG2].try_into().unwrap(),
            sig2: d[O_SIG2..].try_into().unwrap(),
        })
    }
}

/// The code under test.
pub struct Target {
    pub id: Pubkey,
    pub process: fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult,
    pub report_address: fn(&Pubkey, u64) -> (Pubkey, u8),
    pub build_three: fn(&Pubkey, &Args, Option<&Pubkey>, &Rent) -> [Instruction; 3],
    pub build_report: fn(&Pubkey, &Args) -> Instruction,
    pub build_close: fn(&Pubkey, &Pubkey) -> Instruction,
    /// packed bytes and declared packed length
    pub pack: fn(&[u8], &[u8]) -> (Vec<u8>, usize),
    /// (offset, length) of both slices inside the buffer, or an error code
    pub unpack: fn(&[u8]) -> Result<[(usize, usize); 2], u32>,
    pub proof_account_length: fn() -> usize,
    pub report_packed_len: fn(&[u8], &[u8]) -> usize,
    pub report_max_size: fn() -> usize,
    /// fields of a stored report header as the crate reads them
    pub read_header: fn(&[u8]) -> Header,
    pub sigverify_data_offset: fn() -> usize,
    pub error_codes: fn() -> Vec<(&'static str, u32)>,
    pub misc: fn() -> Vec<(&'static str, bool)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Header {
    pub version: u8,
    pub reporter: Pubkey,
    pub destination: Pubkey,
    pub epoch: u64,
    pub pubkey: Pubkey,
    pub slot: u64,
    pub kind: u8,
}

impl Header {
    pub fn encode(&self) -> Vec<u8> {
        let mut d = vec![self.version];
        d.extend_from_slice(self.reporter.as_ref());
        d.extend_from_slice(self.destination.as_ref());
        d.extend_from_slice(&self.epoch.to_le_bytes());
        d.extend_from_slice(self.pubkey.as_ref());
        d.extend_from_slice(&self.slot.to_le_bytes());
        d.push(self.kind);
        d
    }
    pub fn decode(d: &[u8]) -> Option<Header> {
        if d.len() < REPORT_HEADER {
            return None;
        }
        let k = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
        let u = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
        Some(Header {
            version: d[0],
            reporter: k(1),
            destination: k(33),
            epoch: u(65),
            pubkey: k(73),
            slot: u(105),
            kind: d[113],
        })
    }
}

/// Published error numbers (errors.rs of the first release).
pub mod code {
    pub const CLOSE_TOO_SOON: u32 = 0;
    pub const DEST_IS_REPORT: u32 = 1;
    pub const DUPLICATE_REPORT: u32 = 2;
    pub const STATUTE: u32 = 3;
    pub const INVALID_DESTINATION: u32 = 4;
    pub const SHRED_VARIANT: u32 = 5;
    pub const MERKLE_SHRED: u32 = 6;
    pub const PAYLOAD_PROOF: u32 = 7;
    pub const ERASURE_META: u32 = 8;
    pub const INSTRUCTION: u32 = 9;
    pub const LAST_INDEX: u32 = 10;
    pub const REPORT_ACCOUNT: u32 = 11;
    pub const SHRED_VERSION: u32 = 12;
    pub const SIGVERIFY_INVALID: u32 = 13;
    pub const LEGACY: u32 = 14;
    pub const NO_INSTRUCTIONS_SYSVAR: u32 = 15;
    pub const NO_SIGVERIFY: u32 = 16;
    pub const NO_SYSTEM_PROGRAM: u32 = 17;
    pub const PROOF_DESER: u32 = 18;
    pub const PROOF_TOO_SMALL: u32 = 19;
    pub const NOT_PREFUNDED: u32 = 20;
    pub const SHRED_DESER: u32 = 21;
    pub const TYPE_MISMATCH: u32 = 22;
    pub const SIGVERIFY_MISMATCH: u32 = 23;
    pub const SLOT_MISMATCH: u32 = 24;
}

pub fn pda(program: &Pubkey, node: &Pubkey, slot: u64) -> Pubkey {
    Pubkey::find_program_address(&[node.as_ref(), &slot.to_le_bytes(), &[1]], program).0
}
