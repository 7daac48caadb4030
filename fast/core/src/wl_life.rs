//! Report lifecycles: long histories over simulated time, the two time
//! windows, account substitution and funding.
use {
    crate::{
        gen::{close_ix, report_ix, sig_ix, transfer_ix, Case, Env, Funding, PAYER},
        pda,
        rt::{instructions_id, Acct, Ix, Meta, Tx, World, SYSTEM, WRAPPER},
        REPORT_HEADER,
    },
    solana_program::pubkey::Pubkey,
};

fn tx1(ixs: Vec<Ix>) -> Tx {
    Tx { ixs, signers: [PAYER].into_iter().collect() }
}

struct Known {
    at: Pubkey,
    dest: Pubkey,
}

/// Random histories of reports, closes, donations, attacks and time.
pub fn history(env: &mut Env, n: u64) {
    for _ in 0..n {
        if !env.go() {
            break;
        }
        one_history(env);
    }
    env.mon.reset_history();
}

fn one_history(env: &mut Env) {
    env.mon.hints.name = "history";
    env.mon.reset_history();
    let spe = env.rng.copy(&[32u64, 64, 432_000]);
    let mut w = World::new();
    w.sched.slots_per_epoch = spe;
    w.sched.warmup = false;
    w.fund(PAYER, 1 << 60);
    let e0 = env.rng.copy(&[0u64, 1, 5, 700, 1 << 30]);
    // epochs are shorter than their nominal length while a cluster warms up
    let el = if env.rng.chance(1, 3) { spe / 8 } else { spe };
    w.epoch = e0;
    w.slot = e0 * el + env.rng.below(el);
    let nleaders = 1 + env.rng.us(3);
    let mut slots: Vec<u64> = vec![w.slot];
    let mut known: Vec<Known> = vec![];
    let mut past: Vec<Case> = vec![];
    let steps = 12 + env.rng.us(30);
    for _ in 0..steps {
        match env.rng.below(20) {
            // a report, fresh slot or one seen before
            0..=5 => {
                let slot = if env.rng.chance(1, 2) {
                    *env.rng.pick(&slots)
                } else {
                    let s = w.slot - env.rng.below(spe.min(w.slot) + 1);
                    slots.push(s);
                    s
                };
                let mut pair = env.any_conflict(slot);
                // re-sign under one of the few leaders of this history
                if pair.leader >= nleaders {
                    let l = env.rng.us(nleaders);
                    for s in [&mut pair.s1, &mut pair.s2] {
                        let p = crate::shred::parse(s).unwrap();
                        let sig = env.leaders[l].sign(&p.root);
                        env.sigs.learn(env.leaders[l].pk.to_bytes(), sig, &p.root);
                        s[..64].copy_from_slice(&sig);
                    }
                    pair.leader = l;
                }
                let c = env.case(pair);
                put_proof(&mut w, &c);
                let rep = pda(&env.target.id, &c.args.node, slot);
                let mut ixs = vec![];
                let live = w.get(&rep).data.len() > 0;
                let need = w.rent.minimum_balance(REPORT_HEADER + 8 + c.pair.s1.len() + c.pair.s2.len());
                if !live && env.rng.chance(7, 8) {
                    ixs.push(transfer_ix(PAYER, rep, need));
                }
                let at = ixs.len() as u16 + 1;
                ixs.push(sig_ix(at, 32));
                ixs.push(report_ix(env.target, &c));
                let out = env.run(&mut w, &tx1(ixs));
                if out.res.is_ok() {
                    known.push(Known { at: rep, dest: c.args.destination });
                }
                past.push(c);
            }
            // the same report again, verbatim or with other beneficiaries
            6 | 7 if !past.is_empty() => {
                let mut c = env.rng.pick(&past).clone();
                if env.rng.chance(1, 2) {
                    c.args.destination = env.key();
                }
                put_proof(&mut w, &c);
                let rep = pda(&env.target.id, &c.args.node, c.args.slot);
                let ixs = vec![
                    transfer_ix(PAYER, rep, w.rent.minimum_balance(4000)),
                    sig_ix(2, 32),
                    report_ix(env.target, &c),
                ];
                let out = env.run(&mut w, &tx1(ixs));
                if out.res.is_ok() {
                    known.push(Known { at: rep, dest: c.args.destination });
                }
            }
            // close by anyone, right or wrong destination
            8..=11 if !known.is_empty() => {
                let k = env.rng.us(known.len());
                let (at, dest) = (known[k].at, known[k].dest);
                let dest = match env.rng.below(5) {
                    0 => PAYER,
                    1 => at,
                    2 => known[env.rng.us(known.len())].dest,
                    _ => dest,
                };
                let mut ixs = vec![close_ix(env.target, at, dest)];
                if env.rng.chance(1, 6) {
                    // twice, or together with another one
                    let o = env.rng.us(known.len());
                    ixs.push(close_ix(env.target, known[o].at, known[o].dest));
                }
                if env.rng.chance(1, 8) && !past.is_empty() {
                    // close, then report again in the same transaction
                    let c = env.rng.pick(&past).clone();
                    put_proof(&mut w, &c);
                    let rep = pda(&env.target.id, &c.args.node, c.args.slot);
                    ixs.push(transfer_ix(PAYER, rep, w.rent.minimum_balance(4000)));
                    ixs.push(sig_ix(ixs.len() as u16 + 1, 32));
                    ixs.push(report_ix(env.target, &c));
                }
                env.run(&mut w, &tx1(ixs));
            }
            // donations
            12 if !known.is_empty() => {
                let k = env.rng.us(known.len());
                let at = known[k].at;
                let amount = env.rng.copy(&[1u64, 1_000_000, 1 << 40]);
                let amount = if w.lamports(&at) == 0 { amount.max(w.rent.minimum_balance(0)) } else { amount };
                env.run(&mut w, &tx1(vec![transfer_ix(PAYER, at, amount)]));
            }
            // attacks on live reports
            13 | 14 if !known.is_empty() => attack(env, &mut w, &known, &past),
            // time
            _ => {
                let d = match env.rng.below(5) {
                    0 => 1,
                    1 => el,
                    2 => 3 * el,
                    3 => env.rng.below(el),
                    _ => el - 1 - w.slot % el, // last slot of the epoch
                };
                w.slot += d;
                w.epoch = w.slot / el;
                if el < spe {
                    // such a violation stays reportable after its report is gone
                    let now = w.epoch;
                    env.mon.ever.retain(|_, at| *at + 3 > now);
                }
            }
        }
    }
    // in the end everything can be recovered
    w.slot += 3 * el;
    w.epoch = w.slot / el;
    for k in &known {
        if w.get(&k.at).owner == env.target.id {
            let tx = tx1(vec![close_ix(env.target, k.at, k.dest)]);
            env.run(&mut w, &tx);
        }
    }
    env.mon.cover.hit("histories completed");
}

fn put_proof(w: &mut World, c: &Case) {
    let l = w.rent.minimum_balance(c.proof_data.len());
    w.put(c.proof_key, Acct { lamports: l, data: c.proof_data.clone(), owner: c.proof_owner, executable: false });
}

fn attack(env: &mut Env, w: &mut World, known: &[Known], past: &[Case]) {
    let k = env.rng.us(known.len());
    let at = known[k].at;
    let id = env.target.id;
    let any = |e: &mut Env| -> Pubkey {
        match e.rng.below(6) {
            0 => at,
            1 => known[e.rng.us(known.len())].at,
            2 => known[k].dest,
            3 => PAYER,
            4 => instructions_id(),
            _ => SYSTEM,
        }
    };
    let ix = match env.rng.below(6) {
        // the system program's own operations on the report
        0 => {
            let mut d = 1u32.to_le_bytes().to_vec();
            d.extend_from_slice(&[9; 32]);
            Ix { program: SYSTEM, metas: vec![Meta::w(at)], data: d, inner: vec![] }
        }
        // noise addressed to the program
        1 | 2 => {
            let nm = env.rng.us(6);
            let metas = (0..nm).map(|_| Meta::w(any(env))).collect();
            let data = match env.rng.below(4) {
                0 => vec![0],
                1 => {
                    let n = env.rng.us(20);
                    let mut d = env.rng.bytes(n);
                    if !d.is_empty() {
                        d[0] = env.rng.below(4) as u8;
                    }
                    d
                }
                2 if !past.is_empty() => env.rng.pick(past).args.encode(),
                _ => {
                    let mut d = env.rng.bytes(305);
                    d[0] = 1;
                    d
                }
            };
            Ix { program: id, metas, data, inner: vec![] }
        }
        // close through another program, with the destination played by another report
        3 => {
            let o = known[env.rng.us(known.len())].at;
            let c = close_ix(env.target, at, o);
            Ix { program: WRAPPER, metas: vec![Meta::w(at), Meta::w(o), Meta::r(id)], data: vec![], inner: vec![c] }
        }
        4 => {
            // the report as its own proof, with a slot/validator that fits
            let Some(c) = past.last() else { return };
            let mut c = c.clone();
            c.proof_key = at;
            c.args.offset = REPORT_HEADER as u64;
            let ixs = vec![sig_ix(1, 32), report_ix(env.target, &c)];
            env.run(w, &tx1(ixs));
            return;
        }
        _ => close_ix(env.target, at, at),
    };
    let mut ixs = vec![ix];
    if env.rng.chance(1, 3) {
        ixs.insert(0, sig_ix(1, 32));
        if let Some(c) = past.last() {
            // give the verification something valid to look at
            let m = report_ix(env.target, c);
            ixs = vec![sig_ix(1, 32), m];
            ixs[1].metas[1] = Meta::w(at);
        }
    }
    env.run(w, &tx1(ixs));
}

/// C09: the reporting window, at its edges and near the integer limits.
pub fn window(env: &mut Env, n: u64) {
    env.mon.hints.name = "window";
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        let spe = env.rng.copy(&[432_000u64, 432_000, 32, 33, 8192, 1 << 32, u64::MAX]);
        let slot = match env.rng.below(8) {
            0 => env.rng.below(3),
            1 => u64::MAX - env.rng.below(3),
            2 => u64::MAX - spe.saturating_add(env.rng.below(3)).min(u64::MAX - 1),
            3 => (1u64 << env.rng.below(64)).wrapping_sub(env.rng.below(2)),
            4 => spe.wrapping_mul(env.rng.below(1000)).wrapping_sub(env.rng.below(2)),
            _ => env.rng.next() >> env.rng.below(40),
        };
        let now: u128 = match i % 12 {
            0 => slot as u128,
            1 => slot as u128 + 1,
            2 => (slot as u128).saturating_sub(1),
            3 => slot as u128 + spe as u128,
            4 => slot as u128 + spe as u128 + 1,
            5 => slot as u128 + spe as u128 - 1,
            6 => slot as u128 + 2 * spe as u128,
            7 => 0,
            8 => u64::MAX as u128,
            9 => (slot as u128).saturating_sub(spe as u128),
            10 => slot as u128 + env.rng.below(spe) as u128,
            _ => (slot as u128).saturating_sub(env.rng.below(1000) as u128),
        };
        if now > u64::MAX as u128 {
            continue;
        }
        let pair = env.any_conflict(slot);
        let mut c = env.case(pair);
        c.now = now as u64;
        c.slots_per_epoch = spe;
        // the epoch number is not what the window is measured in
        c.epoch = match env.rng.below(4) {
            0 => c.now / spe,
            1 => 0,
            2 => u64::MAX - env.rng.below(4),
            _ => env.rng.next(),
        };
        let mut w = env.world(&c);
        w.sched.warmup = env.rng.chance(1, 2);
        w.sched.leader_schedule_slot_offset = env.rng.copy(&[spe, 0, 1, u64::MAX]);
        w.sched.first_normal_epoch = env.rng.copy(&[0, 14, 1000]);
        w.sched.first_normal_slot = env.rng.copy(&[0, 524_256, u64::MAX]);
        let tx = env.tx(&c);
        env.run(&mut w, &tx);
        env.mon.cover.hit(match i % 12 {
            0 => "window: same slot",
            2 | 9 | 11 => "window: before the slot",
            3 => "window: last slot inside",
            4 => "window: first slot outside",
            _ => "window: elsewhere",
        });
    }
}

/// C10/C11: genuine reports closed at every distance from their creation.
pub fn close_window(env: &mut Env, n: u64) {
    env.mon.hints.name = "close-window";
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        let slot = env.slot();
        let pair = env.any_conflict(slot);
        let mut c = env.case(pair);
        c.now = c.now.max(slot);
        c.epoch = match env.rng.below(6) {
            0 => env.rng.below(4),
            1 => u64::MAX - env.rng.below(6),
            2 => (1u64 << env.rng.range(2, 63)) - 2 + env.rng.below(4),
            _ => env.rng.next() >> env.rng.below(60),
        };
        c.funding = env.rng.copy(&[Funding::Client, Funding::Exact(0), Funding::Plenty]);
        let mut w = env.world(&c);
        let tx = env.tx(&c);
        let out = env.run(&mut w, &tx);
        if out.res.is_err() {
            continue;
        }
        let rep = pda(&env.target.id, &c.args.node, slot);
        let d: i128 = match i % 10 {
            0 => 0,
            1 => 1,
            2 => 2,
            3 | 4 => 3,
            5 => 4,
            6 => -1,
            7 => -(env.rng.below(1000) as i128),
            8 => env.rng.below(1 << 40) as i128,
            _ => i128::from(u64::MAX) - c.epoch as i128,
        };
        let e = (c.epoch as i128 + d).clamp(0, u64::MAX as i128) as u64;
        w.epoch = e;
        // the slot number is irrelevant to closing
        w.slot = env.rng.copy(&[0, c.now, u64::MAX]);
        // lamports may have been added, destination may exist or not
        if env.rng.chance(1, 2) {
            let x = env.rng.copy(&[0u64, 1, 890_880, 1 << 62]);
            if x > 0 {
                let rentmin = w.rent.minimum_balance(0);
                w.fund(c.args.destination, x.max(rentmin));
            }
        }
        if env.rng.chance(1, 2) {
            let l = w.lamports(&rep);
            let add = env.rng.copy(&[1u64, 77, 1 << 40, 1 << 62]);
            w.fund(rep, l + add);
            if let Some(x) = env.mon.live.get_mut(&rep) {
                x.acct.lamports = l + add;
            }
        }
        // the destination may be anything
        if env.rng.chance(1, 4) && !crate::rt::is_reserved(&c.args.destination) && c.args.destination != PAYER {
            let id = env.target.id;
            let owner = env.rng.copy(&[id, SYSTEM, crate::rt::NOOP, WRAPPER]);
            let data = match env.rng.below(4) {
                0 => vec![],
                1 => w.get(&rep).data,
                2 => {
                    let n = 1 + env.rng.us(300);
                    env.rng.bytes(n)
                }
                _ => vec![0; 200],
            };
            let lamports = w.rent.minimum_balance(data.len()) + env.rng.below(3);
            w.put(c.args.destination, Acct { lamports, data, owner, executable: false });
        }
        let dest = match env.rng.below(9) {
            8 => env.rng.near(c.args.destination.to_bytes()).into(),
            0 => PAYER,
            1 => rep,
            2 => c.args.reporter,
            3 => c.args.node,
            _ => c.args.destination,
        };
        let mut ix = close_ix(env.target, rep, dest);
        // extra accounts and signatures do not matter
        if env.rng.chance(1, 4) {
            ix.metas.push(Meta::w(PAYER));
        }
        let ix = if env.rng.chance(1, 5) {
            let id = env.target.id;
            let mut metas = ix.metas.clone();
            metas.push(Meta::r(id));
            Ix { program: WRAPPER, metas, data: vec![], inner: vec![ix] }
        } else {
            ix
        };
        let mut ixs = vec![ix];
        if env.rng.chance(1, 6) {
            ixs.push(close_ix(env.target, rep, c.args.destination));
        }
        env.run(&mut w, &tx1(ixs));
    }
    env.mon.reset_history();
}

/// C12: one substituted account at a time (and a few combinations).
pub fn substitution(env: &mut Env, n: u64) {
    env.mon.hints.name = "substitution";
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        let slot = env.slot();
        let pair = env.any_conflict(slot);
        let mut c = env.case(pair);
        c.now = c.now.max(slot);
        c.funding = Funding::Plenty;
        let mut w = env.world(&c);
        let id = env.target.id;
        let rep = pda(&id, &c.args.node, slot);
        if i % 2 == 0 {
            // ---- report
            let mut ix = report_ix(env.target, &c);
            let fake = env.key();
            match env.rng.below(22) {
                16 => {
                    // an address that only resembles the canonical one
                    let r = Pubkey::from(env.rng.near(rep.to_bytes()));
                    w.fund(r, 1 << 40);
                    ix.metas[1].key = r;
                }
                17 => {
                    let mut probe = tx1(vec![sig_ix(1, 32), ix.clone()]);
                    let like = Pubkey::from(env.rng.near(solana_program::sysvar::instructions::id().to_bytes()));
                    probe.ixs[1].metas[2].key = like;
                    let data = crate::rt::sysvar_data(&probe, 1);
                    w.put(like, Acct { lamports: 1 << 40, data, owner: solana_program::sysvar::id(), executable: false });
                    ix.metas[2].key = like;
                }
                18 => ix.metas[3].key = env.rng.near(SYSTEM.to_bytes()).into(),
                // another program in its place, the genuine one elsewhere
                19 | 20 => {
                    let like = match env.rng.below(3) {
                        0 => crate::rt::NOOP,
                        1 => env.rng.near(SYSTEM.to_bytes()).into(),
                        _ => fake,
                    };
                    w.put(like, Acct { lamports: 1, data: vec![], owner: Pubkey::new_from_array([0x22; 32]), executable: env.rng.chance(3, 4) });
                    ix.metas[3].key = like;
                    ix.metas.push(Meta::r(SYSTEM));
                }
                // likewise for the sysvar
                21 => {
                    ix.metas[2].key = fake;
                    ix.metas.push(Meta::r(instructions_id()));
                    let probe = tx1(vec![sig_ix(1, 32), ix.clone()]);
                    let data = crate::rt::sysvar_data(&probe, 1);
                    w.put(fake, Acct { lamports: 1 << 40, data, owner: solana_program::sysvar::id(), executable: false });
                }
                0 => {
                    // look-alike instructions sysvar with valid content
                    let mut probe = tx1(vec![sig_ix(1, 32), ix.clone()]);
                    probe.ixs[1].metas[2].key = fake;
                    let data = crate::rt::sysvar_data(&probe, 1);
                    w.put(fake, Acct { lamports: 1 << 40, data, owner: solana_program::sysvar::id(), executable: false });
                    ix.metas[2].key = fake;
                }
                1 => ix.metas[3].key = fake,
                2 => ix.metas[3].key = crate::rt::NOOP,
                3 => {
                    // the report of another slot
                    let r = pda(&id, &c.args.node, slot.wrapping_add(1));
                    w.fund(r, 1 << 40);
                    ix.metas[1].key = r;
                }
                4 => {
                    let r = pda(&id, &c.args.reporter, slot);
                    w.fund(r, 1 << 40);
                    ix.metas[1].key = r;
                }
                5 => {
                    // derived under another program
                    let r = pda(&crate::rt::NOOP, &c.args.node, slot);
                    w.fund(r, 1 << 40);
                    ix.metas[1].key = r;
                }
                6 => {
                    // other bumps of the same seeds
                    let mut cands = vec![];
                    for b in (0..=255u8).rev() {
                        if let Ok(p) = Pubkey::create_program_address(
                            &[c.args.node.as_ref(), &slot.to_le_bytes(), &[1], &[b]],
                            &id,
                        ) {
                            cands.push(p);
                            if cands.len() == 4 {
                                break;
                            }
                        }
                    }
                    let r = cands[1 + env.rng.us(cands.len() - 1)];
                    w.fund(r, 1 << 40);
                    ix.metas[1].key = r;
                }
                7 => {
                    // other violation types
                    let ty = env.rng.copy(&[0u8, 2, 255]);
                    let r = Pubkey::find_program_address(&[c.args.node.as_ref(), &slot.to_le_bytes(), &[ty]], &id).0;
                    w.fund(r, 1 << 40);
                    ix.metas[1].key = r;
                }
                8 => {
                    // an account the program owns already
                    w.put(fake, Acct { lamports: 1 << 40, data: vec![0; 3000], owner: id, executable: false });
                    ix.metas[1].key = fake;
                }
                9 => {
                    let j = env.rng.us(4);
                    ix.metas.truncate(j);
                }
                10 => {
                    let (a, b) = (env.rng.us(4), env.rng.us(4));
                    ix.metas.swap(a, b);
                }
                11 => {
                    let j = env.rng.us(4);
                    ix.metas.remove(j);
                }
                12 => {
                    let j = env.rng.us(5);
                    ix.metas.insert(j, Meta::r(fake));
                }
                13 => ix.metas[1].writable = false,
                14 => {
                    let j = env.rng.us(4);
                    let k = env.rng.us(4);
                    ix.metas[j].key = ix.metas[k].key;
                }
                _ => {
                    // extra accounts at the end are harmless
                    ix.metas.push(Meta::w(PAYER));
                }
            }
            let tx = if ix.metas.iter().any(|m| m.signer) { continue } else { tx1(vec![sig_ix(1, 32), ix]) };
            env.run(&mut w, &tx);
        } else {
            // ---- close
            let tx = env.tx(&c);
            if env.run(&mut w, &tx).res.is_err() {
                continue;
            }
            w.epoch = c.epoch.saturating_add(3 + env.rng.below(3));
            let genuine = w.get(&rep);
            let fake = env.key();
            let mut ix = close_ix(env.target, rep, c.args.destination);
            match env.rng.below(11) {
                10 => {
                    let d = c.args.destination.to_bytes();
                    ix.metas[1].key = env.rng.near(d).into();
                }
                0 => {
                    // same bytes, other owner
                    let like = env.rng.near(id.to_bytes()).into();
                    let owner = env.rng.copy(&[SYSTEM, crate::rt::NOOP, WRAPPER, like]);
                    w.put(fake, Acct { owner, ..genuine.clone() });
                    ix.metas[0].key = fake;
                }
                1 => {
                    // program-owned but empty
                    w.put(fake, Acct { lamports: 1 << 40, data: vec![], owner: id, executable: false });
                    ix.metas[0].key = fake;
                }
                2 => {
                    // program-owned, too short to be a report
                    let k = env.rng.us(REPORT_HEADER);
                    let mut d = genuine.data[..k].to_vec();
                    if d.is_empty() {
                        d.push(0);
                    }
                    w.put(fake, Acct { lamports: 1 << 40, data: d, owner: id, executable: false });
                    ix.metas[0].key = fake;
                }
                3 => {
                    w.fund(fake, 1 << 40);
                    ix.metas[0].key = fake;
                }
                4 => ix.metas[0].key = c.proof_key,
                5 => ix.metas.truncate(1),
                6 => ix.metas.clear(),
                7 => ix.metas.swap(0, 1),
                8 => ix.metas[0].writable = false,
                _ => ix.metas[1].writable = false,
            }
            env.run(&mut w, &tx1(vec![ix]));
        }
    }
    env.mon.reset_history();
    env.mon.hints.name = "addresses";
    // distinct violations, distinct addresses
    let mut seen: std::collections::HashMap<Pubkey, (Pubkey, u64)> = Default::default();
    for _ in 0..(n / 8).min(3000) {
        let k = env.leaders[env.rng.us(env.leaders.len())].pk;
        let s = env.slot();
        let s = if env.rng.chance(1, 2) { s.swap_bytes() } else { s };
        let a = (env.target.report_address)(&k, s).0;
        env.mon.cover.evaluations += 1;
        let want = pda(&env.target.id, &k, s);
        if a != want {
            env.mon.violate("C12", format!("address of ({k}, {s}) is {a}, expected {want}"), || {
                serde_json::json!({"kind":"address","node":k.to_string(),"slot":s})
            });
        }
        if let Some(o) = seen.insert(a, (k, s)) {
            if o != (k, s) {
                env.mon.violate("C12", format!("({k},{s}) and {o:?} share an address"), || {
                    serde_json::json!({"kind":"address","node":k.to_string(),"slot":s})
                });
            }
        }
    }
}

/// C13: funding exactly at, around and far from the minimum.
pub fn funding(env: &mut Env, n: u64) {
    env.mon.hints.name = "funding";
    for i in 0..n {
        if !env.go() {
            break;
        }
        env.mon.reset_history();
        let slot = env.slot();
        let mut pair = env.any_conflict(slot);
        // proof sizes above the usual ones (bytes after the shred)
        if env.rng.chance(1, 3) {
            let k = env.rng.copy(&[1usize, 4, 25, 29, 100]);
            let x = env.rng.bytes(k);
            pair.s1.extend(x);
        }
        let mut c = env.case(pair);
        c.now = c.now.max(slot);
        c.funding = match i % 10 {
            0 => Funding::Exact(-1),
            1 | 2 => Funding::Exact(0),
            3 => Funding::Exact(1),
            4 => Funding::Exact(i64::MIN / 2),
            5 => Funding::Exact(-(1 + env.rng.below(10_000_000) as i64)),
            6 => Funding::Exact(env.rng.below(1 << 50) as i64),
            7 => Funding::Plenty,
            // enough for one byte less / the payload without the header
            8 => Funding::Exact(-6960),
            _ => Funding::Client,
        };
        let rep = pda(&env.target.id, &c.args.node, slot);
        if env.rng.chance(1, 8) {
            c.args.destination = rep;
        }
        if env.rng.chance(1, 12) {
            c.args.reporter = rep;
        }
        let mut w = env.world(&c);
        // other rent parameters
        if c.funding != Funding::Client && env.rng.chance(1, 3) {
            w.rent.lamports_per_byte_year = env.rng.copy(&[1, 100, 3480, 6960, 100_000]);
            w.rent.exemption_threshold = env.rng.copy(&[1.0, 2.0, 4.5]);
            let need = w.rent.minimum_balance(REPORT_HEADER + 8 + c.pair.s1.len() + c.pair.s2.len());
            let d = env.rng.copy(&[-1i64, 0, 1, -1000, 1000]);
            w.fund(rep, (need as i64 + d).max(0) as u64);
            let l = w.rent.minimum_balance(c.proof_data.len());
            w.fund(c.proof_key, l);
        }
        let tx = env.tx(&c);
        env.run(&mut w, &tx);
        env.mon.cover.hit(match i % 10 {
            0 => "funding: one lamport short",
            1 | 2 => "funding: exact",
            3 => "funding: one lamport over",
            4 => "funding: none",
            9 => "funding: by the client transaction",
            _ => "funding: other",
        });
    }
    env.mon.reset_history();
}

/// A world holding one genuine report, for workloads that need a target.
pub fn reported(env: &mut Env) -> Option<(World, Case, Pubkey)> {
    let slot = env.slot();
    let pair = env.any_conflict(slot);
    let mut c = env.case(pair);
    c.now = c.now.max(slot);
    c.funding = Funding::Plenty;
    let mut w = env.world(&c);
    let tx = env.tx(&c);
    let out = env.run(&mut w, &tx);
    if out.res.is_err() {
        return None;
    }
    let rep = pda(&env.target.id, &c.args.node, slot);
    Some((w, c, rep))
}

