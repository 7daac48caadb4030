//! Miniature Solana runtime: enough of the transaction machinery (privileges,
//! atomicity, ed25519 precompile, system program, CPI, account rules, rent
//! state) to run the real slashing processor on hostile transactions and to
//! observe every call of it.
use {
    crate::{alloc, Target},
    solana_instruction::{BorrowedAccountMeta, BorrowedInstruction},
    solana_program::{
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE},
        epoch_schedule::EpochSchedule,
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        pubkey::Pubkey,
        rent::Rent,
    },
    std::{
        cell::{Cell, RefCell},
        collections::{BTreeMap, BTreeSet, HashMap},
        panic::{catch_unwind, AssertUnwindSafe},
    },
};

pub const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);
pub fn ed25519_id() -> Pubkey {
    solana_program::ed25519_program::id()
}
pub fn instructions_id() -> Pubkey {
    solana_program::sysvar::instructions::id()
}
/// A program that forwards the instructions listed in `Ix::inner` by CPI.
pub const WRAPPER: Pubkey = Pubkey::new_from_array([0x57; 32]);
/// A program that does nothing.
pub const NOOP: Pubkey = Pubkey::new_from_array([0x4e; 32]);

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

#[derive(Clone)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub slot: u64,
    pub epoch: u64,
    pub sched: EpochSchedule,
    pub rent: Rent,
}

impl World {
    pub fn new() -> Self {
        World {
            accts: BTreeMap::new(),
            slot: 0,
            epoch: 0,
            sched: EpochSchedule::default(),
            rent: Rent::default(),
        }
    }
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map_or(0, |a| a.lamports)
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.accts.insert(k, a);
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        self.accts.entry(k).or_default().lamports = lamports;
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}
impl Meta {
    pub fn w(key: Pubkey) -> Self {
        Meta { key, signer: false, writable: true }
    }
    pub fn r(key: Pubkey) -> Self {
        Meta { key, signer: false, writable: false }
    }
    pub fn sw(key: Pubkey) -> Self {
        Meta { key, signer: true, writable: true }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    /// only meaningful for WRAPPER: what it invokes
    pub inner: Vec<Ix>,
}

impl From<Instruction> for Ix {
    fn from(i: Instruction) -> Ix {
        Ix {
            program: i.program_id,
            metas: i
                .accounts
                .into_iter()
                .map(|m: AccountMeta| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable })
                .collect(),
            data: i.data,
            inner: vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Tx {
    pub ixs: Vec<Ix>,
    /// the keys whose owners signed the transaction
    pub signers: BTreeSet<Pubkey>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IxErr {
    Prog(ProgramError),
    Panic(String),
    Rt(&'static str),
}
impl IxErr {
    pub fn custom(&self) -> Option<u32> {
        match self {
            IxErr::Prog(ProgramError::Custom(c)) => Some(*c),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct SlashCall {
    pub top: usize,
    pub depth: u8,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    pub pre: BTreeMap<Pubkey, Acct>,
    pub post: BTreeMap<Pubkey, Acct>,
    pub result: Result<(), IxErr>,
    pub heap: u64,
    pub work: u64,
    pub heap_exhausted: bool,
    /// divergence between executions of the same call in different memory modes
    pub diverged: Option<String>,
}

#[derive(Debug)]
pub struct TxOut {
    pub res: Result<(), (usize, IxErr)>,
    pub calls: Vec<SlashCall>,
}

struct TxCtx<'t> {
    accts: BTreeMap<Pubkey, Acct>,
    world: &'t World,
    target: &'t Target,
    tx: &'t Tx,
    top: usize,
    sigs: &'t mut SigCache,
    calls: Vec<SlashCall>,
    abort: Option<IxErr>,
    /// current frame (innermost)
    frames: Vec<Frame>,
    modes: &'t [alloc::Mode],
    syscalls: u64,
}

struct Frame {
    program: Pubkey,
    metas: Vec<Meta>,
    /// raw buffer and per unique account: key, key/lamports/owner/len/data offsets
    buf: *mut u8,
    layout: Vec<(Pubkey, usize)>,
}

pub struct SigCache(HashMap<([u8; 32], [u8; 64], Vec<u8>), bool>);
impl SigCache {
    pub fn new() -> Self {
        SigCache(HashMap::new())
    }
    pub fn learn(&mut self, pk: [u8; 32], sig: [u8; 64], msg: &[u8]) {
        if self.0.len() > 200_000 {
            self.0.clear();
        }
        self.0.insert((pk, sig, msg.to_vec()), true);
    }
    /// A result found elsewhere.
    pub fn preset(&mut self, pk: &[u8], sig: &[u8], msg: &[u8], ok: bool) {
        self.0.insert((pk.try_into().unwrap(), sig.try_into().unwrap(), msg.to_vec()), ok);
    }
    pub fn verify(&mut self, pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
        let k: ([u8; 32], [u8; 64], Vec<u8>) =
            (pk.try_into().unwrap(), sig.try_into().unwrap(), msg.to_vec());
        if let Some(&r) = self.0.get(&k) {
            return r;
        }
        let ok = (|| {
            let s = ed25519_dalek::Signature::from_bytes(sig).ok()?;
            let p = ed25519_dalek::PublicKey::from_bytes(pk).ok()?;
            p.verify_strict(msg, &s).ok()
        })()
        .is_some();
        if self.0.len() > 200_000 {
            self.0.clear();
        }
        self.0.insert(k, ok);
        ok
    }
}

thread_local! {
    static CTX: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// What one verification entry of an ed25519 instruction designates.
pub fn ed25519_entry<'a>(
    data: &'a [u8],
    all: &[&'a [u8]],
    i: usize,
) -> Option<(&'a [u8], &'a [u8], &'a [u8])> {
    let s = 2 + 14 * i;
    let o = data.get(s..s + 14)?;
    let h = |j: usize| u16::from_le_bytes([o[2 * j], o[2 * j + 1]]);
    let get = |idx: u16, off: u16, len: usize| -> Option<&'a [u8]> {
        let d: &'a [u8] = if idx == u16::MAX { data } else { *all.get(idx as usize)? };
        d.get(off as usize..off as usize + len)
    };
    let sig = get(h(1), h(0), 64)?;
    let pk = get(h(3), h(2), 32)?;
    let msg = get(h(6), h(4), h(5) as usize)?;
    Some((pk, msg, sig))
}

fn precompile(sigs: &mut SigCache, data: &[u8], all: &[&[u8]]) -> Result<(), IxErr> {
    const E: IxErr = IxErr::Rt("precompile");
    if data.len() < 2 {
        return Err(E);
    }
    let n = data[0] as usize;
    if (n == 0 && data.len() > 2) || data.len() < 2 + 14 * n {
        return Err(E);
    }
    for i in 0..n {
        let (pk, msg, sig) = ed25519_entry(data, all, i).ok_or(E)?;
        if !sigs.verify(pk, msg, sig) {
            return Err(E);
        }
    }
    Ok(())
}

pub fn is_reserved(k: &Pubkey) -> bool {
    use solana_program::sysvar;
    *k == SYSTEM
        || *k == ed25519_id()
        || *k == instructions_id()
        || sysvar::clock::check_id(k)
        || sysvar::rent::check_id(k)
        || sysvar::epoch_schedule::check_id(k)
        || solana_program::secp256k1_program::check_id(k)
}

pub fn sysvar_data(tx: &Tx, top: usize) -> Vec<u8> {
    let ixs: Vec<BorrowedInstruction> = tx
        .ixs
        .iter()
        .map(|i| BorrowedInstruction {
            program_id: &i.program,
            accounts: i
                .metas
                .iter()
                .map(|m| BorrowedAccountMeta {
                    pubkey: &m.key,
                    is_signer: m.signer,
                    is_writable: m.writable,
                })
                .collect(),
            data: &i.data,
        })
        .collect();
    let mut d = solana_instructions_sysvar::construct_instructions_data(&ixs);
    solana_instructions_sysvar::store_current_index_checked(&mut d, top as u16).unwrap();
    d
}

/// Run a transaction; the world changes only if it succeeds.
pub fn run_tx(
    world: &mut World,
    tx: &Tx,
    target: &Target,
    sigs: &mut SigCache,
    modes: &[alloc::Mode],
) -> TxOut {
    // message-level privileges
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for ix in &tx.ixs {
        for m in &ix.metas {
            let e = privs.entry(m.key).or_default();
            e.0 |= m.signer;
            e.1 |= m.writable;
        }
    }
    for ix in &tx.ixs {
        privs.entry(ix.program).or_default().1 = false;
    }
    for (k, p) in privs.iter_mut() {
        if is_reserved(k) || *k == target.id {
            p.1 = false;
        }
        if p.0 && !tx.signers.contains(k) {
            return TxOut { res: Err((0, IxErr::Rt("missing signature"))), calls: vec![] };
        }
    }
    let mut eff = tx.clone();
    for ix in eff.ixs.iter_mut() {
        for m in ix.metas.iter_mut() {
            let p = privs[&m.key];
            m.signer = p.0;
            m.writable = p.1;
        }
    }
    let mut accts = BTreeMap::new();
    for k in privs.keys() {
        accts.insert(*k, world.get(k));
    }
    // what a runtime shows for the native accounts every transaction can name
    {
        let sys = solana_program::sysvar::id();
        if let Some(a) = accts.get_mut(&instructions_id()) {
            a.owner = sys;
        }
        for p in [SYSTEM, ed25519_id(), target.id] {
            if let Some(a) = accts.get_mut(&p) {
                a.executable = true;
                if a.lamports == 0 {
                    a.lamports = 1;
                }
                if p == SYSTEM {
                    a.data = b"system_program".to_vec();
                }
                if p != target.id {
                    a.owner = Pubkey::new_from_array([0x22; 32]); // native loader stand-in
                } else {
                    a.owner = Pubkey::new_from_array([0x23; 32]);
                }
            }
        }
    }
    let shadow = accts.clone();
    let mut ctx = TxCtx {
        accts,
        world,
        target,
        tx: &eff,
        top: 0,
        sigs,
        calls: vec![],
        abort: None,
        frames: vec![],
        modes,
        syscalls: 0,
    };
    let all: Vec<&[u8]> = eff.ixs.iter().map(|i| i.data.as_slice()).collect();
    let mut res = Ok(());
    for (i, ix) in eff.ixs.iter().enumerate() {
        ctx.top = i;
        if ctx.accts.contains_key(&instructions_id()) {
            let d = sysvar_data(&eff, i);
            ctx.accts.get_mut(&instructions_id()).unwrap().data = d;
        }
        let r = if ix.program == ed25519_id() {
            precompile(ctx.sigs, &ix.data, &all)
        } else {
            exec(&mut ctx, ix, 1, &[])
        };
        if let Err(e) = r {
            res = Err((i, e));
            break;
        }
    }
    let TxCtx { accts, calls, .. } = ctx;
    if res.is_ok() {
        // rent state of every writable account
        for (k, p) in &privs {
            if p.1 {
                let (a, b) = (&shadow[k], &accts[k]);
                let exempt = |x: &Acct| world.rent.is_exempt(x.lamports, x.data.len());
                if b.lamports != 0 && !exempt(b) {
                    let was_paying = a.lamports != 0 && !exempt(a);
                    if !(was_paying && a.data.len() == b.data.len() && b.lamports <= a.lamports) {
                        res = Err((usize::MAX, IxErr::Rt("rent")));
                        break;
                    }
                }
            }
        }
    }
    if res.is_ok() {
        for (k, a) in accts {
            if is_reserved(&k) || k == target.id {
                continue;
            }
            if shadow[&k] != a {
                if a.lamports == 0 {
                    world.accts.remove(&k);
                } else {
                    world.accts.insert(k, a);
                }
            }
        }
    }
    TxOut { res, calls }
}

fn exec(ctx: &mut TxCtx, ix: &Ix, depth: u8, extra_signers: &[Pubkey]) -> Result<(), IxErr> {
    let mut metas = ix.metas.clone();
    for m in metas.iter_mut() {
        if extra_signers.contains(&m.key) {
            m.signer = true;
        }
    }
    // an account named twice has the same privileges everywhere
    for i in 0..metas.len() {
        let (k, s, w) = (metas[i].key, metas[i].signer, metas[i].writable);
        for m in metas.iter_mut().filter(|m| m.key == k) {
            m.signer |= s;
            m.writable |= w;
        }
    }
    if ix.program == SYSTEM {
        exec_system(ctx, &metas, &ix.data)
    } else if ix.program == ctx.target.id {
        exec_slash(ctx, metas, &ix.data, depth)
    } else if ix.program == WRAPPER {
        if depth > 4 {
            return Err(IxErr::Rt("call depth"));
        }
        let outer: BTreeMap<Pubkey, (bool, bool)> =
            metas.iter().map(|m| (m.key, (m.signer, m.writable))).collect();
        for inner in &ix.inner {
            if inner.program == ed25519_id() {
                return Err(IxErr::Rt("precompile by cpi"));
            }
            for m in &inner.metas {
                match outer.get(&m.key) {
                    Some(&(s, w)) if (!m.signer || s) && (!m.writable || w) => (),
                    _ => return Err(IxErr::Rt("privilege escalation")),
                }
            }
            exec(ctx, inner, depth + 1, &[])?;
        }
        Ok(())
    } else if ix.program == NOOP {
        Ok(())
    } else {
        // any other address: treat as a program that does nothing
        Ok(())
    }
}

fn exec_system(ctx: &mut TxCtx, metas: &[Meta], data: &[u8]) -> Result<(), IxErr> {
    const BAD: IxErr = IxErr::Rt("system: invalid");
    let tag = u32::from_le_bytes(data.get(0..4).ok_or(BAD)?.try_into().unwrap());
    let u64at = |o: usize| -> Result<u64, IxErr> {
        Ok(u64::from_le_bytes(data.get(o..o + 8).ok_or(BAD)?.try_into().unwrap()))
    };
    let keyat = |o: usize| -> Result<Pubkey, IxErr> {
        Ok(Pubkey::new_from_array(data.get(o..o + 32).ok_or(BAD)?.try_into().unwrap()))
    };
    let m = |i: usize| metas.get(i).ok_or(IxErr::Rt("system: not enough accounts"));
    match tag {
        0 => {
            let (lamports, space, owner) = (u64at(4)?, u64at(12)?, keyat(20)?);
            let to = m(1)?.clone();
            if ctx.accts[&to.key].lamports > 0 {
                return Err(IxErr::Rt("system: account in use"));
            }
            sys_allocate(ctx, &to, space)?;
            sys_assign(ctx, &to, owner)?;
            sys_transfer(ctx, m(0)?, &to, lamports)
        }
        1 => sys_assign(ctx, m(0)?, keyat(4)?),
        2 => sys_transfer(ctx, m(0)?, m(1)?, u64at(4)?),
        8 => sys_allocate(ctx, m(0)?, u64at(4)?),
        _ => Err(BAD),
    }
}
fn sys_allocate(ctx: &mut TxCtx, m: &Meta, space: u64) -> Result<(), IxErr> {
    if !m.signer {
        return Err(IxErr::Rt("system: missing signature"));
    }
    let a = ctx.accts.get_mut(&m.key).unwrap();
    if !a.data.is_empty() || a.owner != SYSTEM {
        return Err(IxErr::Rt("system: account in use"));
    }
    if space > 10 * 1024 * 1024 || !m.writable {
        return Err(IxErr::Rt("system: bad allocate"));
    }
    a.data = vec![0; space as usize];
    Ok(())
}
fn sys_assign(ctx: &mut TxCtx, m: &Meta, owner: Pubkey) -> Result<(), IxErr> {
    let a = ctx.accts.get_mut(&m.key).unwrap();
    if a.owner == owner {
        return Ok(());
    }
    if !m.signer {
        return Err(IxErr::Rt("system: missing signature"));
    }
    if a.owner != SYSTEM || !m.writable || a.data.iter().any(|b| *b != 0) {
        return Err(IxErr::Rt("ModifiedProgramId"));
    }
    a.owner = owner;
    Ok(())
}
fn sys_transfer(ctx: &mut TxCtx, f: &Meta, t: &Meta, lamports: u64) -> Result<(), IxErr> {
    if !f.signer {
        return Err(IxErr::Rt("system: missing signature"));
    }
    let from = ctx.accts.get_mut(&f.key).unwrap();
    if !from.data.is_empty() || from.lamports < lamports {
        return Err(IxErr::Rt("system: transfer"));
    }
    if lamports != 0 && (from.owner != SYSTEM || !f.writable) {
        return Err(IxErr::Rt("ExternalAccountLamportSpend"));
    }
    from.lamports -= lamports;
    let to = ctx.accts.get_mut(&t.key).unwrap();
    if lamports != 0 && !t.writable {
        return Err(IxErr::Rt("ReadonlyLamportChange"));
    }
    to.lamports = to.lamports.checked_add(lamports).ok_or(IxErr::Rt("overflow"))?;
    Ok(())
}

/// Account rules applied when a program hands accounts back.
fn accept_change(program: &Pubkey, m: &Meta, a: &mut Acct, n: Acct) -> Result<(), IxErr> {
    if a.lamports != n.lamports {
        if a.owner != *program && n.lamports < a.lamports {
            return Err(IxErr::Rt("ExternalAccountLamportSpend"));
        }
        if !m.writable {
            return Err(IxErr::Rt("ReadonlyLamportChange"));
        }
    }
    if a.data != n.data {
        if n.data.len() != a.data.len() && a.owner != *program {
            return Err(IxErr::Rt("AccountDataSizeChanged"));
        }
        if !m.writable {
            return Err(IxErr::Rt("ReadonlyDataModified"));
        }
        if a.owner != *program {
            return Err(IxErr::Rt("ExternalAccountDataModified"));
        }
    }
    if a.owner != n.owner && (a.owner != *program || !m.writable || n.data.iter().any(|b| *b != 0)) {
        return Err(IxErr::Rt("ModifiedProgramId"));
    }
    a.lamports = n.lamports;
    a.data = n.data;
    a.owner = n.owner;
    Ok(())
}

fn sync_out(ctx: &mut TxCtx) -> Result<(), IxErr> {
    let f = ctx.frames.last().unwrap();
    let mut total_pre: u128 = 0;
    let mut total_post: u128 = 0;
    for (key, off) in &f.layout {
        let n = unsafe { read_acct(f.buf, *off) };
        let m = f.metas.iter().find(|m| m.key == *key).unwrap();
        let a = ctx.accts.get_mut(key).unwrap();
        total_pre += a.lamports as u128;
        total_post += n.lamports as u128;
        accept_change(&f.program, m, a, n)?;
    }
    if total_pre != total_post {
        return Err(IxErr::Rt("UnbalancedInstruction"));
    }
    Ok(())
}

/// account record at `off` (offset of the dup marker): +1 signer +2 writable
/// +3 exec +4 orig len(u32) +8 key +40 owner +72 lamports +80 len +88 data
unsafe fn read_acct(buf: *mut u8, off: usize) -> Acct {
    let p = buf.add(off);
    let mut owner = [0u8; 32];
    std::ptr::copy_nonoverlapping(p.add(40), owner.as_mut_ptr(), 32);
    let lamports = (p.add(72) as *const u64).read_unaligned();
    let len = (p.add(80) as *const u64).read_unaligned() as usize;
    let mut data = vec![0u8; len];
    std::ptr::copy_nonoverlapping(p.add(88), data.as_mut_ptr(), len);
    Acct { lamports, data, owner: Pubkey::new_from_array(owner), executable: *p.add(3) != 0 }
}

fn serialize(ctx: &TxCtx, program: &Pubkey, metas: &[Meta], ixdata: &[u8]) -> (Vec<u64>, Vec<(Pubkey, usize)>) {
    let mut size = 8;
    for (i, m) in metas.iter().enumerate() {
        if metas[..i].iter().any(|x| x.key == m.key) {
            size += 8;
        } else {
            size += 88 + ctx.accts[&m.key].data.len() + MAX_PERMITTED_DATA_INCREASE;
            size = (size + 7) / 8 * 8 + 8;
        }
    }
    size += 8 + ixdata.len() + 32;
    let mut store = vec![0u64; size.div_ceil(8) + 1];
    let b = unsafe { std::slice::from_raw_parts_mut(store.as_mut_ptr() as *mut u8, store.len() * 8) };
    b[0..8].copy_from_slice(&(metas.len() as u64).to_le_bytes());
    let mut o = 8;
    let mut layout: Vec<(Pubkey, usize)> = vec![];
    for (i, m) in metas.iter().enumerate() {
        if let Some(j) = metas[..i].iter().position(|x| x.key == m.key) {
            b[o] = j as u8;
            o += 8;
            continue;
        }
        let a = &ctx.accts[&m.key];
        layout.push((m.key, o));
        b[o] = 0xff;
        b[o + 1] = m.signer as u8;
        b[o + 2] = m.writable as u8;
        b[o + 3] = a.executable as u8;
        b[o + 8..o + 40].copy_from_slice(m.key.as_ref());
        b[o + 40..o + 72].copy_from_slice(a.owner.as_ref());
        b[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
        b[o + 80..o + 88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        b[o + 88..o + 88 + a.data.len()].copy_from_slice(&a.data);
        o += 88 + a.data.len() + MAX_PERMITTED_DATA_INCREASE;
        o = (o + 7) / 8 * 8;
        b[o..o + 8].copy_from_slice(&u64::MAX.to_le_bytes());
        o += 8;
    }
    b[o..o + 8].copy_from_slice(&(ixdata.len() as u64).to_le_bytes());
    o += 8;
    b[o..o + ixdata.len()].copy_from_slice(ixdata);
    o += ixdata.len();
    b[o..o + 32].copy_from_slice(program.as_ref());
    (store, layout)
}

fn snapshot(ctx: &TxCtx, metas: &[Meta]) -> BTreeMap<Pubkey, Acct> {
    metas.iter().map(|m| (m.key, ctx.accts[&m.key].clone())).collect()
}

fn exec_slash(ctx: &mut TxCtx, metas: Vec<Meta>, data: &[u8], depth: u8) -> Result<(), IxErr> {
    let pre = snapshot(ctx, &metas);
    let modes: Vec<alloc::Mode> = ctx.modes.to_vec();
    let (first, rest) = modes.split_first().map(|(f, r)| (*f, r.to_vec())).unwrap_or((alloc::Mode::PLAIN, vec![]));
    // extra executions on copies of the same state
    let mut others = vec![];
    for m in rest {
        let saved = ctx.accts.clone();
        let (r, _) = run_slash_once(ctx, &metas, data, depth, m);
        let post = snapshot(ctx, &metas);
        ctx.accts = saved;
        ctx.abort = None;
        others.push((m, r, post));
    }
    let saved = ctx.accts.clone();
    let (result, heap) = run_slash_once(ctx, &metas, data, depth, first);
    if result.is_err() {
        ctx.accts = saved;
    }
    let post = snapshot(ctx, &metas);
    let mut diverged = None;
    for (m, r, p) in others {
        let same_result = match (&r, &result) {
            (Err(IxErr::Panic(_)), Err(IxErr::Panic(_))) => true,
            (a, b) => a == b,
        };
        if !same_result {
            diverged = Some(format!("result {:?} with {:?} but {:?} with {:?}", result, first, r, m));
        } else if result.is_ok() && p != post {
            diverged = Some(format!("different account contents with {:?} and {:?}", first, m));
        }
    }
    ctx.calls.push(SlashCall {
        top: ctx.top,
        depth,
        metas,
        data: data.to_vec(),
        pre,
        post,
        result: result.clone(),
        heap: heap.bytes,
        work: heap.work,
        heap_exhausted: heap.exhausted,
        diverged,
    });
    result
}

fn run_slash_once(
    ctx: &mut TxCtx,
    metas: &[Meta],
    data: &[u8],
    depth: u8,
    mode: alloc::Mode,
) -> (Result<(), IxErr>, alloc::HeapUse) {
    let program = ctx.target.id;
    let (mut store, layout) = serialize(ctx, &program, metas, data);
    let buf = store.as_mut_ptr() as *mut u8;
    // what lies behind accounts the program may only read is none of its business
    let dead: Vec<(usize, usize)> = layout
        .iter()
        .filter(|(k, _)| {
            let a = &ctx.accts[k];
            let writable = metas.iter().any(|m| m.key == *k && m.writable);
            !writable && !a.data.is_empty() && a.owner != program && a.owner != SYSTEM
        })
        .map(|(k, o)| (o + 88 + ctx.accts[k].data.len(), MAX_PERMITTED_DATA_INCREASE))
        .collect();
    for (o, n) in &dead {
        unsafe { std::ptr::write_bytes(buf.add(*o), mode.fill, *n) };
        crate::san::poison(buf, *o, *n);
    }
    ctx.frames.push(Frame { program, metas: metas.to_vec(), buf, layout });
    let process = ctx.target.process;
    let prev = CTX.with(|c| c.replace(ctx as *mut TxCtx as *mut ()));
    let _ = depth;
    alloc::begin(mode);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (id, infos, input) = unsafe { solana_program::entrypoint::deserialize(buf) };
        process(id, &infos, input)
    }));
    let heap = alloc::end();
    CTX.with(|c| c.set(prev));
    let abort = ctx.abort.take();
    let res = match r {
        Err(_) => Err(IxErr::Panic(PANIC_MSG.with(|m| m.borrow().clone()))),
        Ok(_) if abort.is_some() => Err(abort.unwrap()),
        Ok(Err(e)) => Err(IxErr::Prog(e)),
        Ok(Ok(())) => sync_out(ctx),
    };
    ctx.frames.pop();
    for (o, n) in &dead {
        crate::san::unpoison(buf, *o, *n);
    }
    drop(store);
    (res, heap)
}

pub struct Stubs;

fn with_ctx<R>(f: impl FnOnce(&mut TxCtx) -> R) -> Option<R> {
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        return None;
    }
    let was = alloc::pause();
    let r = f(unsafe { &mut *(p as *mut TxCtx) });
    alloc::resume(was);
    Some(r)
}

impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, v: *mut u8) -> u64 {
        with_ctx(|c| {
            c.syscalls += 1;
            let k = Clock { slot: c.world.slot, epoch: c.world.epoch, ..Clock::default() };
            unsafe { *(v as *mut Clock) = k };
        });
        0
    }
    fn sol_get_epoch_schedule_sysvar(&self, v: *mut u8) -> u64 {
        with_ctx(|c| unsafe { *(v as *mut EpochSchedule) = c.world.sched.clone() });
        0
    }
    fn sol_get_rent_sysvar(&self, v: *mut u8) -> u64 {
        with_ctx(|c| unsafe { *(v as *mut Rent) = c.world.rent.clone() });
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        with_ctx(|c| {
            // depth of the current frame: wrappers push none, so take it from
            // the transaction shape
            let top_is_slash = c.tx.ixs[c.top].program == c.target.id;
            if top_is_slash {
                1
            } else {
                2
            }
        })
        .unwrap_or(0)
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let r = with_ctx(|c| -> Result<(), IxErr> {
            let program = c.frames.last().unwrap().program;
            let mut pdas = vec![];
            for s in seeds {
                match Pubkey::create_program_address(s, &program) {
                    Ok(p) => pdas.push(p),
                    Err(_) => return Err(IxErr::Rt("InvalidSeeds")),
                }
            }
            sync_out(c)?;
            let inner: Ix = ix.clone().into();
            {
                let f = c.frames.last().unwrap();
                if !f.metas.iter().any(|m| m.key == inner.program) {
                    return Err(IxErr::Rt("MissingAccount"));
                }
                for m in &inner.metas {
                    let Some(o) = f.metas.iter().find(|x| x.key == m.key) else {
                        return Err(IxErr::Rt("MissingAccount"));
                    };
                    if !infos.iter().any(|i| *i.key == m.key) {
                        return Err(IxErr::Rt("MissingAccount"));
                    }
                    if (m.writable && !o.writable) || (m.signer && !o.signer && !pdas.contains(&m.key)) {
                        return Err(IxErr::Rt("PrivilegeEscalation"));
                    }
                }
            }
            exec(c, &inner, 5, &pdas)?;
            // hand the callee's changes back to the caller
            let f = c.frames.last().unwrap();
            for (key, off) in &f.layout {
                let a = &c.accts[key];
                unsafe {
                    let p = f.buf.add(*off);
                    std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
                    (p.add(72) as *mut u64).write_unaligned(a.lamports);
                    let old = (p.add(80) as *const u64).read_unaligned() as usize;
                    if old != a.data.len() {
                        let orig = (p.add(4) as *const u32).read_unaligned() as usize;
                        if a.data.len() > orig + MAX_PERMITTED_DATA_INCREASE {
                            return Err(IxErr::Rt("InvalidRealloc"));
                        }
                        (p.add(80) as *mut u64).write_unaligned(a.data.len() as u64);
                        if let Some(i) = infos.iter().find(|i| i.key == key) {
                            let ptr = p.add(88);
                            std::ptr::copy_nonoverlapping(a.data.as_ptr(), ptr, a.data.len());
                            *i.data.borrow_mut() = std::slice::from_raw_parts_mut(ptr, a.data.len());
                        }
                    } else if std::slice::from_raw_parts(p.add(88), old) != a.data.as_slice() {
                        std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), old);
                    }
                }
            }
            Ok(())
        });
        match r {
            Some(Ok(())) => Ok(()),
            Some(Err(e)) => {
                let p = match &e {
                    IxErr::Prog(p) => p.clone(),
                    _ => ProgramError::InvalidArgument,
                };
                // a failing CPI aborts the whole transaction
                with_ctx(|c| c.abort = Some(e));
                Err(p)
            }
            None => Ok(()),
        }
    }
}

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|info| {
        let was = alloc::pause();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let in_call = !CTX.with(|c| c.get()).is_null();
        if !in_call {
            eprintln!("harness panic: {msg} at {loc}");
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
        alloc::resume(was);
    }));
}
