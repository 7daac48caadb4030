//! Malformed input, client library, proof buffers, memory budget, error codes.
use {
    crate::{
        code,
        gen::{close_ix, report_ix, sig_ix, Env, Funding, Pair, PAYER},
        model::{self, Conflict},
        pda,
        rt::{ed25519_id, instructions_id, Acct, Ix, Meta, Tx, World, NOOP, SYSTEM, WRAPPER},
        shred::{parse, Hdr, Ty},
        wl_life::reported,
        wl_sig::{ed_ix, entry},
        Args, O_DEST, O_NODE, O_ROOT1, O_ROOT2, O_SIG1, O_SIG2, REPORT_HEADER, REPORT_IX_LEN,
    },
    serde_json::json,
    solana_program::{program_error::ProgramError, pubkey::Pubkey, rent::Rent},
};

fn tx1(ixs: Vec<Ix>) -> Tx {
    Tx { ixs, signers: [PAYER].into_iter().collect() }
}

fn extreme(env: &mut Env) -> u64 {
    let b = env.rng.below(65);
    let x = if b == 64 { u64::MAX } else { 1u64 << b };
    match env.rng.below(5) {
        0 => x,
        1 => x.wrapping_sub(1),
        2 => x.wrapping_add(1),
        3 => u64::MAX - env.rng.below(400),
        _ => env.rng.below(3000),
    }
}

/// C14: mutated transactions of every kind.
pub fn fuzz(env: &mut Env, n: u64) {
    env.mon.hints.name = "malformed";
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        if i % 4 == 3 {
            fuzz_close(env);
        } else {
            fuzz_report(env);
        }
    }
    env.mon.reset_history();
}

fn fuzz_report(env: &mut Env) {
    let slot = env.slot();
    let mut pair = env.any_conflict(slot);
    let leader = pair.leader;
    // header bytes at their extremes, signed again so that they are looked at
    if env.rng.chance(1, 2) {
        for s in [&mut pair.s1, &mut pair.s2] {
            if env.rng.chance(1, 3) {
                continue;
            }
            let k = 1 + env.rng.us(3);
            for _ in 0..k {
                let o = 64 + env.rng.us(25);
                s[o] = env.rng.copy(&[0, 1, 0x7f, 0x80, 0xff, 0x5a, 0xa5, 0x40, 0x4f, 0x6f, 0x7f, 0x8f, 0x9f, 0xbf, 0xb0]);
            }
            if env.rng.chance(1, 4) {
                let k = env.rng.us(s.len() + 40);
                s.resize(k, 0x3c);
            }
            resign(env, leader, s);
        }
    }
    let mut c = env.case(pair);
    env.claims.clear();
    c.funding = Funding::Plenty;
    // proof buffer
    match env.rng.below(10) {
        0 => {
            let k = env.rng.us(c.proof_data.len() + 1);
            c.proof_data.truncate(k);
        }
        1 => {
            let o = c.args.offset as usize;
            let x = (extreme(env) as u32).to_le_bytes();
            c.proof_data[o..o + 4].copy_from_slice(&x);
        }
        2 => {
            let o = c.args.offset as usize + 4 + c.pair.s1.len();
            let x = (extreme(env) as u32).to_le_bytes();
            c.proof_data[o..o + 4].copy_from_slice(&x);
        }
        3 => c.proof_data.clear(),
        _ => (),
    }
    match env.rng.below(8) {
        0 => {
            let l = c.proof_data.len() as u64;
            c.args.offset = match env.rng.below(8) {
                0 => l,
                1 => l + 1,
                2 => l.saturating_sub(1 + env.rng.below(8)),
                3 => u64::MAX,
                4 => u64::MAX - l,
                5 => 1 << 32,
                _ => extreme(env),
            };
        }
        1 => c.args.slot = extreme(env),
        _ => (),
    }
    if env.rng.chance(1, 10) {
        c.now = extreme(env);
    }
    if env.rng.chance(1, 10) {
        c.slots_per_epoch = extreme(env);
    }
    if env.rng.chance(1, 10) {
        c.epoch = extreme(env);
    }
    let mut w = env.world(&c);
    let mut ix = report_ix(env.target, &c);
    match env.rng.below(10) {
        0 => {
            let k = env.rng.us(ix.data.len() + 1);
            ix.data.truncate(k);
        }
        1 => {
            let k = 1 + env.rng.us(40);
            let x = env.rng.bytes(k);
            ix.data.extend(x);
        }
        2 => {
            let k = env.rng.us(ix.data.len());
            ix.data[k] ^= 1 << env.rng.us(8);
        }
        3 => ix.data[0] = env.rng.next() as u8,
        4 => {
            let k = env.rng.us(320);
            ix.data = env.rng.bytes(k);
        }
        _ => (),
    }
    match env.rng.below(8) {
        0 => {
            let k = env.rng.us(ix.metas.len() + 1);
            ix.metas.truncate(k);
        }
        1 => {
            let (a, b) = (env.rng.us(4), env.rng.us(4));
            ix.metas[a].key = ix.metas[b].key;
        }
        2 => {
            let (a, b) = (env.rng.us(4), env.rng.us(4));
            ix.metas.swap(a, b);
        }
        3 => {
            let k = env.key();
            let a = env.rng.us(4);
            ix.metas[a].key = k;
        }
        _ => (),
    }
    let sig = match env.rng.below(10) {
        0 => ed_ix([0, 0], &[], &[]),
        1 => ed_ix([0, env.rng.next() as u8], &[], &[]),
        2 => ed_ix([1, 0], &[entry(0, 1)], &[]),
        3 => ed_ix([1, env.rng.next() as u8], &[entry(0, 1)], &[1, 2, 3]),
        4 => {
            let k = env.rng.us(40);
            Ix { program: NOOP, metas: vec![], data: vec![2; k], inner: vec![] }
        }
        _ => sig_ix(1, 32),
    };
    // an existing account at the report address
    if env.rng.chance(1, 10) {
        let rep = pda(&env.target.id, &c.args.node, c.args.slot);
        let k = env.rng.us(200);
        let data = env.rng.bytes(k);
        w.put(rep, Acct { lamports: 1 << 40, data, owner: env.target.id, executable: false });
    }
    let ixs = match env.rng.below(12) {
        0 => vec![ix],
        1 => {
            let mut metas = ix.metas.clone();
            metas.push(Meta::r(env.target.id));
            let d = ix.data.clone();
            vec![sig, Ix { program: WRAPPER, metas, data: d, inner: vec![ix] }]
        }
        _ => vec![sig, ix],
    };
    let tx = tx1(ixs);
    env.run(&mut w, &tx);
}

/// Sign an edited shred again, if it still is one, and give the claims of the
/// others a valid signature too.
fn resign(env: &mut Env, leader: usize, s: &mut Vec<u8>) {
    if let Ok(p) = parse(s) {
        let sig = env.leaders[leader].sign(&p.root);
        env.sigs.learn(env.leaders[leader].pk.to_bytes(), sig, &p.root);
        s[..64].copy_from_slice(&sig);
    } else {
        env.sign_claims(leader, s);
    }
}

fn fuzz_close(env: &mut Env) {
    let id = env.target.id;
    let mut w = World::new();
    w.epoch = extreme(env);
    w.slot = extreme(env);
    w.fund(PAYER, 1 << 50);
    let rep = env.key();
    let dst = env.key();
    // anybody can create program-owned accounts of any size with zero content;
    // arbitrary content is an over-approximation
    let k = match env.rng.below(4) {
        0 => env.rng.us(REPORT_HEADER + 2),
        1 => REPORT_HEADER,
        2 => REPORT_HEADER - 1,
        _ => env.rng.us(3000),
    };
    let mut data = if env.rng.chance(1, 2) { vec![0; k] } else { env.rng.bytes(k) };
    if k >= 65 && env.rng.chance(1, 2) {
        data[33..65].copy_from_slice(dst.as_ref());
    }
    if k >= 73 && env.rng.chance(1, 2) {
        let e = extreme(env);
        data[65..73].copy_from_slice(&e.to_le_bytes());
    }
    let owner = if env.rng.chance(1, 6) { SYSTEM } else { id };
    w.put(rep, Acct { lamports: 1 << 40, data, owner, executable: false });
    if env.rng.chance(1, 3) {
        w.fund(dst, env.rng.copy(&[1 << 40, u64::MAX, u64::MAX - (1 << 40)]));
    }
    let mut ix = close_ix(env.target, rep, dst);
    match env.rng.below(8) {
        0 => ix.data = vec![],
        1 => {
            let k = env.rng.us(400);
            let x = env.rng.bytes(k);
            ix.data.extend(x);
        }
        2 => ix.data = vec![env.rng.next() as u8],
        3 => {
            let k = env.rng.us(3);
            ix.metas.truncate(k);
        }
        4 => ix.metas[1].key = rep,
        5 => {
            let a = env.rng.us(2);
            ix.metas[a].writable = false;
        }
        _ => (),
    }
    env.run(&mut w, &tx1(vec![ix]));
}

/// C16: the client library's instructions, byte by byte and in action.
pub fn client(env: &mut Env, n: u64) {
    env.mon.hints.name = "client";
    let t = env.target;
    let ok = (t.sigverify_data_offset)() == O_ROOT1;
    if !ok {
        env.mon.violate("C16", format!("sigverify data offset is {}", (t.sigverify_data_offset)()), || json!({"kind":"constant"}));
    }
    for (name, good) in (t.misc)() {
        env.mon.cover.evaluations += 1;
        if !good {
            env.mon.violate("C16", format!("constant changed: {name}"), || json!({"kind":"constant","name":name}));
        }
    }
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        // arbitrary arguments
        let a = Args {
            offset: extreme(env),
            slot: extreme(env),
            node: env.key(),
            reporter: env.key(),
            destination: env.key(),
            root1: env.rng.arr(),
            sig1: env.rng.arr(),
            root2: env.rng.arr(),
            sig2: env.rng.arr(),
        };
        let proof = env.key();
        let funder = env.key();
        let with = env.rng.chance(1, 2);
        let mut rent = Rent::default();
        if env.rng.chance(1, 2) {
            rent.lamports_per_byte_year = env.rng.copy(&[1, 1000, 3480, 10_000]);
        }
        if env.rng.chance(1, 2) {
            rent.exemption_threshold = env.rng.copy(&[0.5, 1.0, 3.0, 4.5]);
        }
        rent.burn_percent = env.rng.below(101) as u8;
        let ixs = (t.build_three)(&proof, &a, with.then_some(&funder), &rent);
        check_client(env, &a, &proof, with.then_some(&funder), &rent, ixs.to_vec());
        let one: Ix = (t.build_report)(&proof, &a).into();
        expect_ix(env, "report", &a, &one, &want_report(env, &a, &proof));
        let (r, d) = (env.key(), env.key());
        let close: Ix = (t.build_close)(&r, &d).into();
        expect_ix(env, "close", &a, &close, &close_ix(t, r, d));
        // and in action
        if i % 2 == 0 {
            let slot = env.slot();
            let pair = env.any_conflict(slot);
            let mut c = env.case(pair);
            c.now = c.now.max(slot);
            c.funding = Funding::Client;
            // up to the largest shreds that fit a packet
            if env.rng.chance(1, 4) {
                c.pair.s1.resize(1232, 0);
                c.pair.s2.resize(1232, 0);
                let off = c.args.offset as usize;
                c.proof_data.truncate(off);
                c.proof_data.extend(model::pack(&c.pair.s1, &c.pair.s2));
            }
            let mut w = env.world(&c);
            if env.rng.chance(1, 2) {
                w.rent.lamports_per_byte_year = rent.lamports_per_byte_year;
                w.rent.exemption_threshold = rent.exemption_threshold;
                let l = w.rent.minimum_balance(c.proof_data.len());
                w.fund(c.proof_key, l);
            }
            let reporter_pays = env.rng.chance(1, 2);
            let (funder, signer) = if reporter_pays {
                w.fund(c.args.reporter, 1 << 40);
                (None, c.args.reporter)
            } else {
                (Some(&c.payer), c.payer)
            };
            let ixs = (t.build_three)(&c.proof_key, &c.args, funder, &w.rent);
            let mut ixs: Vec<Ix> = ixs.into_iter().map(Ix::from).collect();
            // more instructions may follow
            if env.rng.chance(1, 3) {
                ixs.push(Ix { program: NOOP, metas: vec![], data: vec![1, 2, 3], inner: vec![] });
            }
            let tx = Tx { ixs, signers: [signer, PAYER].into_iter().collect() };
            env.mon.hints.client_built = true;
            let pre = w.clone();
            let out = env.run(&mut w, &tx);
            if out.calls.is_empty() {
                // the transaction died before it reached the program
                let what = format!("client-built transaction fails: {:?}", out.res);
                env.mon.violate("C16", what, || crate::replay::encode("client", &pre, &tx));
            } else if out.res.is_ok() && !crate::rt::is_reserved(&c.args.destination) && c.args.destination != t.id {
                // the client's close works as well
                let rep = pda(&t.id, &c.args.node, slot);
                w.epoch = w.epoch.saturating_add(3);
                let close: Ix = (t.build_close)(&rep, &c.args.destination).into();
                let before = w.lamports(&rep);
                let pre = w.clone();
                let tx = tx1(vec![close]);
                let out = env.run(&mut w, &tx);
                if out.res.is_err() && before > 0 {
                    let what = format!("client-built close fails: {:?}", out.res);
                    env.mon.violate("C16", what, || crate::replay::encode("client", &pre, &tx));
                }
            }
            env.mon.hints.client_built = false;
        }
    }
    env.mon.reset_history();
}

fn want_report(env: &Env, a: &Args, proof: &Pubkey) -> Ix {
    Ix {
        program: env.target.id,
        metas: crate::gen::report_metas(&env.target.id, *proof, &a.node, a.slot),
        data: a.encode(),
        inner: vec![],
    }
}

fn expect_ix(env: &mut Env, what: &str, a: &Args, got: &Ix, want: &Ix) {
    env.mon.cover.evaluations += 1;
    env.mon.cover.shape((what, a.offset.leading_zeros(), a.slot.leading_zeros()));
    if got != want {
        let msg = format!("client-built {what} instruction differs from the documented format");
        env.mon.violate("C16", msg, || {
            json!({"kind":"client","what":what,"got":format!("{got:?}"),"want":format!("{want:?}")})
        });
    }
}

fn check_client(env: &mut Env, a: &Args, proof: &Pubkey, funder: Option<&Pubkey>, rent: &Rent, ixs: Vec<solana_program::instruction::Instruction>) {
    let t = env.target;
    let rep = pda(&t.id, &a.node, a.slot);
    let from = *funder.unwrap_or(&a.reporter);
    let got: Vec<Ix> = ixs.into_iter().map(Ix::from).collect();
    let bad = |env: &mut Env, what: String| {
        let dbg = format!("{got:?}");
        env.mon.violate("C16", what, || json!({"kind":"client","args":format!("{a:?}"),"got":dbg}));
    };
    // transfer: from the funder, to the report address, enough for the largest proof
    let tr = &got[0];
    let amount = tr.data.get(4..12).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
    let largest = REPORT_HEADER + 8 + 2 * 1232;
    if tr.program != SYSTEM
        || tr.data.len() != 12
        || tr.data[0..4] != 2u32.to_le_bytes()
        || tr.metas != vec![Meta::sw(from), Meta::w(rep)]
    {
        bad(env, "first instruction is not a transfer from the funder to the report address".into());
    } else if amount < rent.minimum_balance(largest) {
        bad(env, format!("prefunds {amount}, the largest report needs {}", rent.minimum_balance(largest)));
    } else if amount > rent.minimum_balance(largest) * 2 + 1 {
        bad(env, format!("prefunds {amount}, far more than {}", rent.minimum_balance(largest)));
    }
    // verification: whatever the layout, it must designate the report's fields
    let ed = &got[1];
    let sl = want_report(env, a, proof);
    let all: Vec<&[u8]> = vec![&got[0].data, &got[1].data, &sl.data];
    if ed.program != ed25519_id() || !ed.metas.is_empty() || ed.data.len() < 30 || ed.data[0] != 2 || ed.data[1] != 0 {
        bad(env, "second instruction is not a verification of two signatures".into());
    } else {
        for (k, (o_sig, o_msg)) in [(O_SIG1, O_ROOT1), (O_SIG2, O_ROOT2)].into_iter().enumerate() {
            let f: Vec<u16> = (0..7).map(|j| u16::from_le_bytes([ed.data[2 + 14 * k + 2 * j], ed.data[3 + 14 * k + 2 * j]])).collect();
            if f != [o_sig as u16, 2, O_NODE as u16, 2, o_msg as u16, 32, 2] {
                bad(env, format!("verification {k} designates {f:?}"));
            }
            let e = crate::rt::ed25519_entry(&ed.data, &all, k);
            let (m, s) = if k == 0 { (&a.root1, &a.sig1) } else { (&a.root2, &a.sig2) };
            if e != Some((a.node.as_ref(), &m[..], &s[..])) {
                bad(env, format!("verification {k} covers other bytes"));
            }
        }
    }
    if got[2] != sl {
        bad(env, "third instruction is not the documented report".into());
    }
    // packet limit, fee payer not otherwise involved
    let mut keys: std::collections::BTreeSet<Pubkey> = [Pubkey::new_from_array([0xfe; 32])].into_iter().collect();
    let mut signers = keys.clone();
    let mut size = 3 + 1 + 32 + 1;
    for i in &got {
        keys.insert(i.program);
        for m in &i.metas {
            keys.insert(m.key);
            if m.signer {
                signers.insert(m.key);
            }
        }
        let sv = |n: usize| if n < 128 { 1 } else { 2 };
        size += 1 + sv(i.metas.len()) + i.metas.len() + sv(i.data.len()) + i.data.len();
    }
    size += 1 + 64 * signers.len() + 32 * keys.len();
    if size > 1232 {
        bad(env, format!("transaction takes {size} bytes, packets hold 1232"));
    }
    let _ = O_DEST;
    env.mon.cover.evaluations += 1;
}

/// C17: packing and unpacking, directly.
pub fn buffers(env: &mut Env, n: u64) {
    env.mon.hints.name = "buffers";
    let t = env.target;
    if (t.proof_account_length)() < 8 + 2 * 1232 {
        env.mon.violate("C17", format!("proof account size {}", (t.proof_account_length)()), || json!({"kind":"constant"}));
    }
    if (t.report_max_size)() < REPORT_HEADER + 8 + 2 * 1232 {
        env.mon.violate("C16", format!("maximum report size {}", (t.report_max_size)()), || json!({"kind":"constant"}));
    }
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.cover.evaluations += 1;
        if i % 2 == 0 {
            let sz = |e: &mut Env| match e.rng.below(6) {
                0 => 0,
                1 => e.rng.us(4),
                2 => 1228,
                3 => 1232,
                4 => e.rng.copy(&[255usize, 256, 257, 65535, 65536, 65537]),
                _ => e.rng.us(3000),
            };
            let (n1, n2) = (sz(env), sz(env));
            let a = env.rng.bytes(n1);
            let b = env.rng.bytes(n2);
            let (p, l) = (t.pack)(&a, &b);
            let rl = (t.report_packed_len)(&a, &b);
            env.mon.cover.shape(("roundtrip", n1, n2));
            let rep = || json!({"kind":"pack","a":crate::monitor::hex(&a),"b":crate::monitor::hex(&b)});
            if p != model::pack(&a, &b) || l != p.len() {
                env.mon.violate("C17", format!("packing {n1}+{n2} bytes gives {} bytes, declared {l}", p.len()), rep);
            }
            if rl != REPORT_HEADER + 8 + n1 + n2 {
                env.mon.violate("C06", format!("report length {rl} declared for shreds of {n1} and {n2} bytes"), rep);
                env.mon.violate("C17", format!("report length {rl} declared for shreds of {n1} and {n2} bytes"), rep);
            }
            for tail in [0usize, 1, 4, 100] {
                let mut q = p.clone();
                let x = env.rng.bytes(tail);
                q.extend(x);
                match (t.unpack)(&q) {
                    Ok([(o1, l1), (o2, l2)]) if q.get(o1..o1 + l1) == Some(&a[..]) && q.get(o2..o2 + l2) == Some(&b[..]) => (),
                    o => env.mon.violate("C17", format!("packed shreds of {n1} and {n2} bytes unpack as {o:?}"), rep),
                }
            }
            env.mon.cover.hit("round trips");
        } else {
            let k = match env.rng.below(4) {
                0 => env.rng.us(13),
                1 => env.rng.us(40),
                _ => env.rng.us(600),
            };
            let mut q = env.rng.bytes(k);
            let first = match env.rng.below(8) {
                0 => extreme(env) as u32,
                1 => k as u32,
                2 => (k as u32).wrapping_sub(4),
                3 => (k as u32).wrapping_sub(8),
                4 => (k as u32).wrapping_sub(7),
                5 => u32::MAX - env.rng.below(8) as u32,
                _ => env.rng.below(k as u64 + 2) as u32,
            };
            if k >= 4 {
                q[..4].copy_from_slice(&first.to_le_bytes());
                let o = 4usize.saturating_add(first as usize);
                if o.checked_add(4).is_some_and(|e| e <= k) {
                    let left = (k - o - 4) as u32;
                    let second = match env.rng.below(6) {
                        0 => left,
                        1 => left + 1,
                        2 => left.saturating_sub(1),
                        3 => u32::MAX - env.rng.below(5) as u32,
                        4 => 1 << 31,
                        _ => env.rng.below(left as u64 + 1) as u32,
                    };
                    q[o..o + 4].copy_from_slice(&second.to_le_bytes());
                }
            }
            let want = model::unpack(&q).map(|(a, b)| [(4, a.len()), (8 + a.len(), b.len())]);
            let got = std::panic::catch_unwind(|| (t.unpack)(&q));
            env.mon.cover.shape(("unpack", k, first, want.is_some()));
            env.mon.cover.hit(if want.is_some() { "buffers that hold two slices" } else { "buffers too short" });
            let rep = || json!({"kind":"unpack","bytes":crate::monitor::hex(&q)});
            match got {
                Err(_) => {
                    env.mon.violate("C14", "unpacking panicked".into(), rep);
                    env.mon.violate("C17", "unpacking panicked".into(), rep);
                }
                Ok(g) => {
                    if g.as_ref().ok() != want.as_ref() {
                        env.mon.violate("C17", format!("buffer of {k} bytes unpacks as {g:?}, expected {want:?}"), rep);
                    } else if let Err(c) = g {
                        if c != code::PROOF_TOO_SMALL {
                            env.mon.violate("C17", format!("short buffer refused with code {c}"), rep);
                        }
                    }
                }
            }
        }
    }
}

/// C18: heap use of the largest cases, on every verdict and message.
pub fn heap(env: &mut Env, n: u64) {
    use Conflict::*;
    env.mon.hints.name = "heap";
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        let slot = if env.rng.chance(1, 2) { u64::MAX - 500_000 - env.rng.below(100_000) } else { env.slot() };
        let kind = [Root, Overlap, Payload, Last, Erasure][i as usize % 5];
        let mut pair = env.conflicting(kind, slot);
        if i % 3 == 0 {
            // refusals too
            pair.s2 = pair.s1.clone();
        }
        if env.rng.chance(1, 2) {
            pair.s1.resize(1232, 0xee);
            pair.s2.resize(1232, 0xee);
        }
        let mut c = env.case(pair);
        c.now = c.now.max(slot);
        c.funding = env.rng.copy(&[Funding::Plenty, Funding::Client]);
        let (mut uses, mut works) = (vec![], vec![]);
        let slack = env.rng.copy(&[1usize, 4096, 100_000, 2_000_000]);
        let fill = env.rng.copy(&[0x11u8, 0, 0, 0xff]);
        let base = c.proof_data.clone();
        // the longest instruction list a packet can carry
        let extra = env.rng.us(400);
        let pad: Vec<u8> = env.rng.bytes(extra);
        let nacc = env.rng.us(20);
        for k in 0..2 {
            if k == 1 && i % 4 != 0 {
                break;
            }
            c.proof_data = base.clone();
            if k == 1 {
                c.proof_data.extend(std::iter::repeat_n(fill, slack));
            }
            let mut w = env.world(&c);
            let mut tx = env.tx(&c);
            let l = tx.ixs.len();
            tx.ixs[l - 2].data.extend_from_slice(&pad);
            for j in 0..nacc {
                tx.ixs[l - 1].metas.push(Meta::r(Pubkey::new_from_array([j as u8 + 1; 32])));
            }
            let out = env.run(&mut w, &tx);
            if let Some(call) = out.calls.last() {
                uses.push(call.heap);
                works.push(call.work);
                if out.res.is_ok() {
                    let rep = pda(&env.target.id, &c.args.node, slot);
                    w.epoch = w.epoch.saturating_add(3);
                    env.run(&mut w, &tx1(vec![close_ix(env.target, rep, c.args.destination)]));
                    env.mon.reset_history();
                }
            }
        }
        if let [a, b] = works[..] {
            if a.abs_diff(b) > 2000 {
                c.proof_data.truncate(base.len());
                c.proof_data.extend(std::iter::repeat_n(fill, slack));
                let w = env.world(&c);
                let tx = env.tx(&c);
                env.mon.violate("C25", format!("{slack} bytes of slack in the proof account change the basic blocks from {a} to {b}"), || {
                    crate::replay::encode("heap", &w, &tx)
                });
            }
        }
        if let [a, b] = uses[..] {
            env.mon.cover.hit("slack comparisons");
            if a != b {
                c.proof_data = base;
                let w = env.world(&c);
                let tx = env.tx(&c);
                env.mon.violate("C18", format!("{slack} bytes of slack in the proof account change heap use from {a} to {b}"), || {
                    crate::replay::encode("heap", &w, &tx)
                });
            }
        }
    }
    env.mon.reset_history();
}

/// C19: one thing wrong at a time.
pub fn faults(env: &mut Env, n: u64) {
    env.mon.hints.name = "single-fault";
    let published: [(&str, u32); 25] = [
        ("CloseViolationReportTooSoon", 0),
        ("DestinationAddressIsReportAccount", 1),
        ("DuplicateReport", 2),
        ("ExceedsStatuteOfLimitations", 3),
        ("InvalidDestinationAccount", 4),
        ("InvalidShredVariant", 5),
        ("InvalidMerkleShred", 6),
        ("InvalidPayloadProof", 7),
        ("InvalidErasureMetaConflict", 8),
        ("InvalidInstruction", 9),
        ("InvalidLastIndexConflict", 10),
        ("InvalidViolationReportAcccount", 11),
        ("InvalidShredVersion", 12),
        ("InvalidSignatureVerification", 13),
        ("LegacyShreds", 14),
        ("MissingInstructionsSysvar", 15),
        ("MissingSignatureVerification", 16),
        ("MissingSystemProgramAccount", 17),
        ("ProofBufferDeserializationError", 18),
        ("ProofBufferTooSmall", 19),
        ("ReportAccountNotPrefunded", 20),
        ("ShredDeserializationError", 21),
        ("ShredTypeMismatch", 22),
        ("SignatureVerificationMismatch", 23),
        ("SlotMismatch", 24),
    ];
    for (n, c) in (env.target.error_codes)() {
        env.mon.cover.evaluations += 1;
        if !published.contains(&(n, c)) {
            env.mon.violate("C19", format!("{n} has number {c}"), || json!({"kind":"constant","error":n,"number":c}));
        }
    }
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        one_fault(env, i % FAULTS);
    }
    env.mon.reset_history();
}

const FAULTS: u64 = 48;

fn one_fault(env: &mut Env, f: u64) {
    use ProgramError::Custom;
    let t = env.target;
    let slot = 1_000_000 + env.rng.below(1 << 40);
    let leader = env.rng.us(env.leaders.len());
    let ver = env.rng.next() as u16;
    let mk_case = |env: &mut Env, pair: Pair| {
        let mut c = env.case(pair);
        c.slots_per_epoch = 432_000;
        c.now = slot + env.rng.below(432_001);
        c.funding = Funding::Plenty;
        c
    };
    let go = |env: &mut Env, w: World, tx: Tx, name: &str, want: &[ProgramError]| {
        let pre = w.clone();
        let mut w = w;
        let out = env.run(&mut w, &tx);
        env.mon.cover.shape((name.to_string(), slot % 64));
        env.mon.expect_error(&pre, &tx, &out, name, want);
    };
    // ---- faults of a close
    if f < 8 {
        let Some((mut w, c, rep)) = reported(env) else { return };
        if c.epoch > u64::MAX - 10 {
            return;
        }
        w.epoch = c.epoch + 3 + env.rng.below(2);
        let mut ix = close_ix(t, rep, c.args.destination);
        let fake = env.key();
        let (name, want) = match f {
            0 => {
                w.epoch = c.epoch + env.rng.below(3);
                ("close too soon", vec![Custom(code::CLOSE_TOO_SOON)])
            }
            1 => {
                ix.metas[1].key = fake;
                ("close to another destination", vec![Custom(code::INVALID_DESTINATION)])
            }
            2 => {
                let g = w.get(&rep);
                w.put(fake, Acct { owner: NOOP, ..g });
                ix.metas[0].key = fake;
                ("close of a foreign account", vec![Custom(code::REPORT_ACCOUNT)])
            }
            3 => {
                w.fund(fake, 1 << 30);
                ix.metas[0].key = fake;
                ("close of an empty system account", vec![Custom(code::REPORT_ACCOUNT)])
            }
            4 => {
                ix.metas.truncate(1);
                ("close without destination", vec![ProgramError::NotEnoughAccountKeys])
            }
            5 => {
                ix.data = vec![];
                ("empty instruction", vec![ProgramError::InvalidInstructionData])
            }
            6 => {
                ix.data[0] = 2 + env.rng.below(254) as u8;
                ("undefined instruction", vec![Custom(code::INSTRUCTION)])
            }
            _ => {
                w.put(fake, Acct { lamports: 1 << 30, data: vec![], owner: t.id, executable: false });
                ix.metas[0].key = fake;
                ("close of an empty program account", vec![Custom(code::REPORT_ACCOUNT)])
            }
        };
        go(env, w, tx1(vec![ix]), name, &want);
        return;
    }
    // ---- faults of the evidence
    if f < 26 {
        let mut ok = vec![];
        let (ty1, ty2) = (env.rng.copy(&[Ty::Data, Ty::Code]), env.rng.copy(&[Ty::Data, Ty::Code]));
        let v1 = env.variant(ty1, 7);
        let v2 = env.variant(ty2, 7);
        let fec = env.rng.copy(&[0u32, 32, 320]);
        let hdr = |v: crate::shred::Variant, i: u32, slot: u64, ver: u16| {
            if v.ty == Ty::Data {
                Hdr::data(v, slot, fec + i, ver, fec, 1, 0, 99)
            } else {
                Hdr::code(v, slot, fec + i, ver, fec, 32, 32, i as u16)
            }
        };
        // default: a root conflict
        let (i1, i2) = (env.rng.below(32) as u32, env.rng.below(32) as u32);
        let h1 = hdr(v1, i1, slot, ver);
        let h2 = hdr(v2, i2, slot, ver);
        let Some(a) = env.alone(leader, &h1) else { return };
        let Some(b) = env.alone(leader, &h2) else { return };
        let (mut s1, mut s2) = (a, b);
        let mut which = env.rng.chance(1, 2);
        let name = match f {
            8 => {
                s2[64] = env.rng.copy(&[0u8, 0x10, 0x26, 0x36, 0x56, 0xa6, 0xc6, 0xd6, 0xe6, 0xff]);
                ok.push(Custom(code::SHRED_VARIANT));
                "unknown variant"
            }
            9 => {
                s2[64] = env.rng.copy(&[0x5a, 0xa5]);
                ok.push(Custom(code::LEGACY));
                "legacy shred"
            }
            10 => {
                s2.truncate(env.rng.us(65));
                ok.push(Custom(code::SHRED_DESER));
                "shred without a variant"
            }
            11 => {
                // proof cut off
                let e = v2.proof_end().unwrap();
                s2.truncate(e - 1 - env.rng.us(20));
                ok.push(Custom(code::MERKLE_SHRED));
                "truncated Merkle proof"
            }
            12 => {
                // leaf position the proof cannot reach
                let v = crate::shred::Variant { proof: 3, ..v2 };
                let h = if v.ty == Ty::Data { Hdr::data(v, slot, fec + 8, ver, fec, 1, 0, 9) } else { Hdr::code(v, slot, fec, ver, fec, 4, 4, 4) };
                s2 = env.alone_or_broken(leader, &h);
                ok.push(Custom(code::MERKLE_SHRED));
                "leaf outside its tree"
            }
            13 => {
                s2 = s1.clone();
                ok.push(Custom(code::PAYLOAD_PROOF));
                "the same shred twice"
            }
            14 => {
                let v = env.variant(Ty::Code, 6);
                let u = env.variant(Ty::Code, 6);
                let (p, q) = (env.rng.below(10) as u32, 11 + env.rng.below(10) as u32);
                let (x, y) = (Hdr::code(v, slot, fec + p, ver, fec, 32, 32, p as u16), Hdr::code(u, slot, fec + q, ver, fec, 32, 32, q as u16));
                let Some((x, y)) = env.together(leader, &x, &y) else { return };
                s1 = x;
                s2 = y;
                ok.push(Custom(code::ERASURE_META));
                "coding shreds of one consistent set"
            }
            15 => {
                let v = env.variant(Ty::Data, 6);
                let u = env.variant(Ty::Data, 6);
                // the higher one may be the last
                let fl = env.rng.copy(&[0u8, 0xc0]);
                let (x, y) = (Hdr::data(v, slot, fec + 2, ver, fec, 1, 0x40, 99), Hdr::data(u, slot, fec + 9, ver, fec, 1, fl, 99));
                let Some((x, y)) = env.together(leader, &x, &y) else { return };
                s1 = x;
                s2 = y;
                ok.push(Custom(code::LAST_INDEX));
                "data shreds of one consistent set"
            }
            16 => {
                // different sets, no overlap, no last flag
                let v = env.variant(Ty::Data, 7);
                let h = Hdr::data(v, slot, fec + 32 + 5, ver, fec + 32, 1, 0, 99);
                let v0 = env.variant(Ty::Data, 7);
                let g = Hdr::data(v0, slot, fec + 5, ver, fec, 1, 0, 99);
                s1 = env.alone(leader, &g).unwrap();
                s2 = env.alone(leader, &h).unwrap();
                ok.push(Custom(code::LAST_INDEX));
                "data shreds of adjacent sets"
            }
            17 => {
                let h = hdr(v2, i2, slot, ver.wrapping_add(1 + env.rng.below(65535) as u16));
                s2 = env.alone(leader, &h).unwrap();
                ok.push(Custom(code::SHRED_VERSION));
                "another shred version"
            }
            18 => {
                let h = hdr(v2, i2, slot + 1 + env.rng.below(5), ver);
                s2 = env.alone(leader, &h).unwrap();
                ok.push(Custom(code::SLOT_MISMATCH));
                "shreds of different slots"
            }
            19 => {
                let s = slot - 1 - env.rng.below(5);
                let (g, h) = (hdr(v1, i1, s, ver), hdr(v2, i2, s, ver));
                s1 = env.alone(leader, &g).unwrap();
                s2 = env.alone(leader, &h).unwrap();
                ok.push(Custom(code::SLOT_MISMATCH));
                "shreds of another slot than reported"
            }
            20 => {
                // data and coding shred of one consistent set
                let (v, u) = (env.variant(Ty::Data, 6), env.variant(Ty::Code, 6));
                let (x, y) = (Hdr::data(v, slot, fec + 3, ver, fec, 1, 0xc0, 99), Hdr::code(u, slot, fec + 3, ver, fec, 32, 32, 3));
                let Some((x, y)) = env.together(leader, &x, &y) else { return };
                s1 = x;
                s2 = y;
                ok.push(Custom(code::TYPE_MISMATCH));
                "data and coding shred of one consistent set"
            }
            21 => {
                // coding set ending exactly where the data set starts
                let (v, u) = (env.variant(Ty::Code, 7), env.variant(Ty::Data, 7));
                let (x, y) = (Hdr::code(v, slot, fec + 3, ver, fec, 32, 32, 3), Hdr::data(u, slot, fec + 40, ver, fec + 32, 1, 0, 99));
                s1 = env.alone(leader, &x).unwrap();
                s2 = env.alone(leader, &y).unwrap();
                ok.push(Custom(code::TYPE_MISMATCH));
                "adjacent sets, different types"
            }
            22 => {
                // data shred in front of its own set
                let v = env.variant(Ty::Data, 7);
                let h = Hdr::data(v, slot, 31, ver, 32, 1, 0, 9);
                s2 = env.alone_or_broken(leader, &h);
                ok.push(Custom(code::SHRED_DESER));
                "index before its erasure set"
            }
            23 => {
                // adjacent coding sets, neither overlapping nor equal index
                let (v, u) = (env.variant(Ty::Code, 7), env.variant(Ty::Code, 7));
                let (x, y) = (Hdr::code(v, slot, fec + 3, ver, fec, 32, 32, 3), Hdr::code(u, slot, fec + 36, ver, fec + 32, 32, 32, 4));
                s1 = env.alone(leader, &x).unwrap();
                s2 = env.alone(leader, &y).unwrap();
                ok.push(Custom(code::ERASURE_META));
                "coding shreds of adjacent sets"
            }
            24 => {
                // retransmitter signatures differ
                let v = crate::shred::Variant { chained: true, resigned: true, ..v1 };
                let h = hdr(v, i1, slot, ver);
                s1 = env.alone(leader, &h).unwrap();
                s2 = s1.clone();
                let e = v.proof_end().unwrap();
                env.rng.fill(&mut s2[e..]);
                ok.push(Custom(code::PAYLOAD_PROOF));
                "one shred, two retransmitters"
            }
            _ => {
                // bytes after the shred
                s2 = s1.clone();
                let k = 1 + env.rng.us(90);
                let x = env.rng.bytes(k);
                s2.extend(x);
                ok.push(Custom(code::PAYLOAD_PROOF));
                "one shred, padded"
            }
        };
        if (17..=18).contains(&f) || f == 10 || f == 8 {
            // fine in either position
        } else if f == 19 {
            which = false;
        }
        if which {
            std::mem::swap(&mut s1, &mut s2);
        }
        env.sign_claims(leader, &mut s1);
        env.sign_claims(leader, &mut s2);
        let mut c = mk_case(env, Pair { leader, slot, s1, s2 });
        c.args.slot = slot;
        env.claims.clear();
        let (w, tx) = (env.world(&c), env.tx(&c));
        go(env, w, tx, name, &ok);
        return;
    }
    // ---- faults of the transaction around sound evidence
    let pair = {
        let mut p = env.any_conflict(slot);
        while p.leader != leader && env.rng.chance(7, 8) {
            p = env.any_conflict(slot);
        }
        p
    };
    let mut c = mk_case(env, pair);
    let mut w = env.world(&c);
    let rep = pda(&t.id, &c.args.node, slot);
    let mut sig = sig_ix(1, 32);
    let mut ix = report_ix(t, &c);
    let fake = env.key();
    let (name, want): (&str, Vec<ProgramError>) = match f {
        26 => {
            c.args.destination = rep;
            ix = report_ix(t, &c);
            ("the report as destination", vec![Custom(code::DEST_IS_REPORT)])
        }
        27 => {
            let tx = tx1(vec![sig.clone(), ix.clone()]);
            if env.run(&mut w, &tx).res.is_err() {
                return;
            }
            ("already reported", vec![Custom(code::DUPLICATE_REPORT)])
        }
        28 => {
            w.slot = slot + 432_001 + env.rng.below(1000);
            ("too old", vec![Custom(code::STATUTE)])
        }
        29 => {
            w.slot = slot - 1 - env.rng.below(1000);
            ("in the future", vec![ProgramError::ArithmeticOverflow])
        }
        30 => {
            let r = pda(&t.id, &c.args.node, slot + 1);
            w.fund(r, 1 << 40);
            ix.metas[1].key = r;
            ("report address of another slot", vec![Custom(code::REPORT_ACCOUNT)])
        }
        31 => {
            ix.metas[2].key = fake;
            ("not the instructions sysvar", vec![Custom(code::NO_INSTRUCTIONS_SYSVAR)])
        }
        32 => {
            ix.metas[3].key = fake;
            ("not the system program", vec![Custom(code::NO_SYSTEM_PROGRAM)])
        }
        33 => {
            sig = Ix { program: NOOP, metas: vec![], data: sig.data, inner: vec![] };
            ("no signature verification", vec![Custom(code::NO_SIGVERIFY)])
        }
        34 => {
            sig = ed_ix([1, 0], &[entry(0, 1)], &[]);
            ("a single signature verification", vec![Custom(code::NO_SIGVERIFY)])
        }
        35 => {
            // right bytes, but kept in another instruction
            let d = ix.data.clone();
            sig = ed_ix([2, 0], &[entry(0, 2), entry(1, 2)], &[]);
            let tx = tx1(vec![sig, ix, Ix { program: NOOP, metas: vec![], data: d, inner: vec![] }]);
            go(env, w, tx, "verified bytes outside the report", &[Custom(code::SIGVERIFY_INVALID)]);
            return;
        }
        36 => {
            // the other leader verifies the second message
            let o = (c.pair.leader + 1) % env.leaders.len();
            c.args.reporter = env.leaders[o].pk;
            let s = env.leaders[o].sign(&c.args.root2);
            c.args.sig2 = s;
            ix = report_ix(t, &c);
            let mut e = entry(1, 1);
            e[2] = crate::O_REPORTER as u16;
            sig = ed_ix([2, 0], &[entry(0, 1), e], &[]);
            ("two keys verified", vec![Custom(code::SIGVERIFY_INVALID)])
        }
        37 => {
            let root = env.rng.arr();
            c.args.root1 = root;
            c.args.sig1 = env.leaders[c.pair.leader].sign(&root);
            ix = report_ix(t, &c);
            ("another first message verified", vec![Custom(code::SIGVERIFY_MISMATCH)])
        }
        38 => {
            let root = env.rng.arr();
            c.args.root2 = root;
            c.args.sig2 = env.leaders[c.pair.leader].sign(&root);
            ix = report_ix(t, &c);
            ("another second message verified", vec![Custom(code::SIGVERIFY_MISMATCH)])
        }
        39 => {
            // the shred carries another signature than the verified one
            let k = env.rng.us(64);
            let off = c.args.offset as usize + 4;
            let mut a = w.get(&c.proof_key);
            a.data[off + k] ^= 1;
            w.put(c.proof_key, a);
            ("first shred carries another signature", vec![Custom(code::SIGVERIFY_MISMATCH)])
        }
        40 => {
            let k = env.rng.us(64);
            let off = c.args.offset as usize + 8 + c.pair.s1.len();
            let mut a = w.get(&c.proof_key);
            a.data[off + k] ^= 1;
            w.put(c.proof_key, a);
            ("second shred carries another signature", vec![Custom(code::SIGVERIFY_MISMATCH)])
        }
        41 => {
            // somebody else accused: everything else consistent for them
            let o = (c.pair.leader + 1) % env.leaders.len();
            c.args.reporter = c.args.node;
            c.args.node = env.leaders[o].pk;
            ix = report_ix(t, &c);
            w.fund(pda(&t.id, &c.args.node, slot), 1 << 40);
            let e = |k| {
                let mut e = entry(k, 1);
                e[2] = crate::O_REPORTER as u16;
                e
            };
            sig = ed_ix([2, 0], &[e(0), e(1)], &[]);
            ("another validator accused", vec![Custom(code::SIGVERIFY_MISMATCH)])
        }
        42 => {
            let need = w.rent.minimum_balance(REPORT_HEADER + 8 + c.pair.s1.len() + c.pair.s2.len());
            w.fund(rep, need - 1 - env.rng.below(need - 1));
            ("not prefunded", vec![Custom(code::NOT_PREFUNDED)])
        }
        43 => {
            let k = c.args.offset as usize + env.rng.us(8 + c.pair.s1.len() + c.pair.s2.len());
            let mut a = w.get(&c.proof_key);
            a.data.truncate(k);
            w.put(c.proof_key, a);
            ("truncated proof", vec![Custom(code::PROOF_TOO_SMALL)])
        }
        44 => {
            ix.metas.truncate(env.rng.us(4));
            ("missing accounts", vec![ProgramError::NotEnoughAccountKeys])
        }
        45 => {
            // longer or shorter than a report
            if env.rng.chance(1, 2) {
                let k = 1 + env.rng.us(40);
                let x = env.rng.bytes(k);
                ix.data.extend(x);
            } else {
                // keep what the verification refers to
                ix.data.truncate(REPORT_IX_LEN - 1);
                sig = ed_ix([1, 0], &[entry(0, 1)], &[]);
            }
            ("report data of the wrong length", vec![ProgramError::InvalidInstructionData])
        }
        46 => {
            let mut e = entry(1, 1);
            e[5] = 31;
            // 31 bytes of message, really signed
            let m = c.args.root2[..31].to_vec();
            c.args.sig2 = env.leaders[c.pair.leader].sign(&m);
            ix = report_ix(t, &c);
            sig = ed_ix([2, 0], &[entry(0, 1), e], &[]);
            ("a message that is no Merkle root", vec![Custom(code::SIGVERIFY_INVALID)])
        }
        _ => {
            // verification first, then something else
            let tx = tx1(vec![sig_ix(2, 32), Ix { program: NOOP, metas: vec![], data: vec![], inner: vec![] }, ix]);
            go(env, w, tx, "verification not directly before", &[Custom(code::NO_SIGVERIFY)]);
            return;
        }
    };
    let _ = instructions_id();
    go(env, w, tx1(vec![sig, ix]), name, &want);
}

