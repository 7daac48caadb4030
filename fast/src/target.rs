//! What the monitoring core needs of the real slashing program and its client
//! library.
use {
    slash::{
        duplicate_block_proof::DuplicateBlockProofData,
        error::SlashingError,
        instruction::{self as ix, DuplicateBlockProofInstructionData},
        state::{ProofType, SlashingProofData, ViolationReport},
    },
    slashcore::{Args, Header, Target},
    solana_program::{instruction::Instruction, pubkey::Pubkey, rent::Rent},
    solana_slashing_program as slash,
};

fn data(a: &Args) -> DuplicateBlockProofInstructionData {
    DuplicateBlockProofInstructionData {
        offset: a.offset.into(),
        slot: a.slot.into(),
        node_pubkey: a.node,
        reporter: a.reporter,
        destination: a.destination,
        shred_1_merkle_root: a.root1.into(),
        shred_1_signature: a.sig1,
        shred_2_merkle_root: a.root2.into(),
        shred_2_signature: a.sig2,
    }
}
fn build_three(proof: &Pubkey, a: &Args, funder: Option<&Pubkey>, rent: &Rent) -> [Instruction; 3] {
    ix::duplicate_block_proof_with_sigverify_and_prefund(proof, &data(a), funder, rent)
}
fn build_report(proof: &Pubkey, a: &Args) -> Instruction {
    ix::duplicate_block_proof(proof, &data(a))
}
fn unpack(b: &[u8]) -> Result<[(usize, usize); 2], u32> {
    match DuplicateBlockProofData::unpack_proof(b) {
        Ok(p) => {
            let at = |s: &[u8]| (s.as_ptr() as usize).wrapping_sub(b.as_ptr() as usize);
            // empty slices carry no position
            let o1 = if p.shred1.is_empty() { 4 } else { at(p.shred1) };
            let o2 = if p.shred2.is_empty() { 8 + p.shred1.len() } else { at(p.shred2) };
            Ok([(o1, p.shred1.len()), (o2, p.shred2.len())])
        }
        Err(e) => Err(e as u32),
    }
}
fn pack(a: &[u8], b: &[u8]) -> (Vec<u8>, usize) {
    let p = DuplicateBlockProofData { shred1: a, shred2: b };
    let l = p.packed_len();
    (p.pack_proof(), l)
}
fn read_header(d: &[u8]) -> Header {
    // the crate's own view of the stored bytes, through its public type
    let n = std::mem::size_of::<ViolationReport>().min(d.len());
    let mut r: ViolationReport = bytemuck::Zeroable::zeroed();
    bytemuck::bytes_of_mut(&mut r)[..n].copy_from_slice(&d[..n]);
    Header {
        version: ViolationReport::version(d),
        reporter: r.reporter,
        destination: r.destination,
        epoch: r.epoch(),
        pubkey: r.pubkey,
        slot: r.slot(),
        kind: u8::from(r.violation_type()),
    }
}
macro_rules! codes {
    ($($n:ident),* $(,)?) => { vec![$((stringify!($n), match solana_program::program_error::ProgramError::from(SlashingError::$n) {
        solana_program::program_error::ProgramError::Custom(c) => c,
        _ => u32::MAX,
    })),*] };
}
fn error_codes() -> Vec<(&'static str, u32)> {
    codes!(
        CloseViolationReportTooSoon, DestinationAddressIsReportAccount, DuplicateReport,
        ExceedsStatuteOfLimitations, InvalidDestinationAccount, InvalidShredVariant, InvalidMerkleShred,
        InvalidPayloadProof, InvalidErasureMetaConflict, InvalidInstruction, InvalidLastIndexConflict,
        InvalidViolationReportAcccount, InvalidShredVersion, InvalidSignatureVerification, LegacyShreds,
        MissingInstructionsSysvar, MissingSignatureVerification, MissingSystemProgramAccount,
        ProofBufferDeserializationError, ProofBufferTooSmall, ReportAccountNotPrefunded,
        ShredDeserializationError, ShredTypeMismatch, SignatureVerificationMismatch, SlotMismatch,
    )
}
fn misc() -> Vec<(&'static str, bool)> {
    vec![
        ("program id", slash::id().to_string() == "S1ashing11111111111111111111111111111111111" && slash::check_id(&slash::id())),
        ("report format version", ViolationReport::VERSION == 1),
        ("violation type number", u8::from(ProofType::DuplicateBlockProof) == 1 && u8::from(ProofType::InvalidType) == 0),
        ("violation type from number", (0..=255u8).all(|b| (ProofType::from(b) == ProofType::DuplicateBlockProof) == (b == 1))),
        ("instruction discriminants", u8::from(ix::SlashingInstruction::CloseViolationReport) == 0 && u8::from(ix::SlashingInstruction::DuplicateBlockProof) == 1),
        ("report header size", std::mem::size_of::<ViolationReport>() == slashcore::REPORT_HEADER),
        ("violation name", ProofType::DuplicateBlockProof.to_string() == "duplicate block" && "duplicate block".parse() == Ok(ProofType::DuplicateBlockProof)),
        ("other violation names", "invalid".parse() == Ok(ProofType::InvalidType) && ["", "duplicate", "Duplicate block", "duplicate blocks"].iter().all(|s| s.parse::<ProofType>().is_err())),
    ]
}

pub fn target() -> Target {
    Target {
        id: slash::id(),
        process: slash::processor::process_instruction,
        report_address: |n, s| slash::get_violation_report_address(n, s, ProofType::DuplicateBlockProof),
        build_three,
        build_report,
        build_close: ix::close_violation_report,
        pack,
        unpack,
        proof_account_length: || ProofType::DuplicateBlockProof.proof_account_length(),
        report_packed_len: |a, b| ViolationReport::packed_len(&DuplicateBlockProofData { shred1: a, shred2: b }),
        report_max_size: || ViolationReport::size::<DuplicateBlockProofData>(),
        read_header,
        sigverify_data_offset: DuplicateBlockProofInstructionData::sigverify_data_offset,
        error_codes,
        misc,
    }
}
