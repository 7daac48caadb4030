//! C02: every way of arranging signature verifications around a report.
use {
    crate::{
        gen::{report_ix, sig_ix, Case, Env, Funding, Pair},
        rt::{ed25519_id, Ix, Meta, Tx, NOOP, WRAPPER},
        shred::{parse, seal},
        O_DEST, O_NODE, O_REPORTER, O_ROOT1, O_ROOT2, O_SIG1, O_SIG2,
    },
};

/// [sig off, sig ix, pk off, pk ix, msg off, msg len, msg ix]
pub type Entry = [u16; 7];

pub fn ed_ix(count: [u8; 2], entries: &[Entry], tail: &[u8]) -> Ix {
    let mut d = count.to_vec();
    for e in entries {
        for x in e {
            d.extend_from_slice(&x.to_le_bytes());
        }
    }
    d.extend_from_slice(tail);
    Ix { program: ed25519_id(), metas: vec![], data: d, inner: vec![] }
}

pub fn entry(k: usize, at: u16) -> Entry {
    let (s, m) = if k == 0 { (O_SIG1, O_ROOT1) } else { (O_SIG2, O_ROOT2) };
    [s as u16, at, O_NODE as u16, at, m as u16, 32, at]
}

pub fn noop(data: Vec<u8>) -> Ix {
    Ix { program: NOOP, metas: vec![], data, inner: vec![] }
}

/// Replace the signature of a shred by one the leader never made: random
/// bytes, another key's, or the leader's over something else.
fn forge(env: &mut Env, c: &mut Case, which: usize, attacker: usize) {
    let s = if which == 0 { &mut c.pair.s1 } else { &mut c.pair.s2 };
    let v = parse(s).unwrap().v;
    match env.rng.below(4) {
        0 => {
            // a shred the leader never produced, signed by the attacker
            let k = 100 + env.rng.us(100);
            s[k] ^= 0x55;
            let root = crate::gen::reroot(s).unwrap();
            let p = s[v.proof_offset().unwrap()..v.proof_end().unwrap()].to_vec();
            seal(s, v, &p, &root, &env.leaders[attacker], &mut env.sigs);
        }
        1 => {
            let x: [u8; 64] = env.rng.arr();
            s[..64].copy_from_slice(&x);
        }
        2 => {
            // content changed, signature kept
            let k = 100 + env.rng.us(100);
            s[k] ^= 0x55;
        }
        _ => {
            let root = crate::gen::reroot(s).unwrap();
            let p = s[v.proof_offset().unwrap()..v.proof_end().unwrap()].to_vec();
            seal(s, v, &p, &root, &env.leaders[attacker], &mut env.sigs);
        }
    }
    let p = parse(s).unwrap();
    if which == 0 {
        c.args.root1 = p.root;
        c.args.sig1 = p.sig;
    } else {
        c.args.root2 = p.root;
        c.args.sig2 = p.sig;
    }
    refresh(c);
}

fn refresh(c: &mut Case) {
    let off = c.args.offset as usize;
    let mut d = c.proof_data[..off].to_vec();
    d.extend(crate::model::pack(&c.pair.s1, &c.pair.s2));
    c.proof_data = d;
}

pub const LAYOUTS: u64 = 34;

/// Build the instruction list for one layout; `None` when it does not apply.
fn layout(env: &mut Env, c: &Case, l: u64, attacker: usize) -> Vec<Ix> {
    let t = env.target;
    let rep = report_ix(t, c);
    let a = &env.leaders[attacker];
    let (apk, vpk) = (a.pk, c.args.node);
    // a self-contained blob: pk, msg, sig by the attacker over each root
    let blob = |e: &Env, root: &[u8; 32]| -> Vec<u8> {
        let mut b = e.leaders[attacker].pk.to_bytes().to_vec();
        b.extend_from_slice(root);
        b.extend_from_slice(&e.leaders[attacker].sign(root));
        b
    };
    // a blob with what the victim really signed (first shred, usually genuine)
    let vblob = {
        let mut b = vpk.to_bytes().to_vec();
        b.extend_from_slice(&c.args.root1);
        b.extend_from_slice(&c.args.sig1);
        b
    };
    let in_blob = |o: u16, ix: u16| -> Entry { [o + 64, ix, o, ix, o + 32, 32, ix] };
    let first_only = ed_ix([1, 1], &[entry(0, 1), entry(1, 1)], &[]);
    match l {
        // number of verifications
        0 => vec![first_only, rep],
        1 => vec![ed_ix([1, 0], &[entry(0, 1), entry(1, 1)], &[]), rep],
        2 => vec![ed_ix([1, 2], &[entry(0, 1), entry(1, 1)], &[]), rep],
        3 => vec![ed_ix([1, 255], &[entry(0, 1)], &[]), rep],
        4 => vec![ed_ix([0, 0], &[], &[]), rep],
        5 => vec![ed_ix([1, 1], &[entry(0, 1)], &[0; 14]), rep],
        6 => vec![ed_ix([2, env.rng.next() as u8], &[entry(0, 1), entry(1, 1)], &[]), rep],
        // more verifications than needed
        7 => vec![ed_ix([3, 0], &[entry(0, 1), entry(1, 1), entry(0, 1)], &[]), rep],
        8 => vec![ed_ix([3, 0], &[entry(0, 1), entry(0, 1), entry(1, 1)], &[]), rep],
        // order and repetition
        9 => vec![ed_ix([2, 0], &[entry(1, 1), entry(0, 1)], &[]), rep],
        10 => vec![ed_ix([2, 0], &[entry(0, 1), entry(0, 1)], &[]), rep],
        11 => vec![ed_ix([2, 0], &[entry(1, 1), entry(1, 1)], &[]), rep],
        // data in another instruction
        12 => {
            let d = blob(env, &c.args.root2);
            vec![noop(d), ed_ix([2, 0], &[entry(0, 2), in_blob(0, 0)], &[]), rep]
        }
        13 => {
            // a look-alike of the report's data placed elsewhere
            let mut fake = c.clone();
            fake.args.root2 = fake.args.root1;
            fake.args.sig2 = fake.args.sig1;
            vec![noop(fake.args.encode()), ed_ix([2, 0], &[entry(0, 0), entry(1, 0)], &[]), rep]
        }
        14 => {
            let mut d = c.args.encode();
            d.truncate(O_REPORTER);
            let mut e = entry(1, 2);
            // only the key comes from elsewhere
            e[2] = 0;
            e[3] = 0;
            vec![noop(apk.to_bytes().to_vec()), ed_ix([2, 0], &[entry(0, 2), e], &[]), rep]
        }
        15 => {
            // only the signature comes from elsewhere
            let s = env.leaders[attacker].sign(&c.args.root2);
            let mut e = entry(1, 2);
            e[0] = 0;
            e[1] = 0;
            vec![noop(s.to_vec()), ed_ix([2, 0], &[entry(0, 2), e], &[]), rep]
        }
        16 => {
            // only the message comes from elsewhere
            let mut e = entry(1, 2);
            e[4] = 0;
            e[6] = 0;
            let m = c.args.root1.to_vec();
            let mut e0 = entry(0, 2);
            e0[4] = 0;
            e0[6] = 0;
            vec![noop(m), ed_ix([2, 0], &[e0, e], &[]), rep]
        }
        // data inside the verification instruction itself
        17 => {
            let o = 2 + 28;
            let b = blob(env, &c.args.root2);
            vec![ed_ix([2, 0], &[entry(0, 1), in_blob(o, u16::MAX)], &b), rep]
        }
        18 => {
            let o = 2 + 28;
            vec![ed_ix([2, 0], &[in_blob(o, u16::MAX), in_blob(o, u16::MAX)], &vblob), rep]
        }
        19 => {
            let o = 2 + 28;
            vec![ed_ix([2, 0], &[in_blob(o, 0), in_blob(o, 0)], &vblob), rep]
        }
        // position
        20 => vec![sig_ix(2, 32), noop(vec![]), rep],
        21 => vec![rep, sig_ix(0, 32)],
        22 => vec![rep],
        23 => vec![noop(sig_ix(1, 32).data), rep],
        24 => vec![sig_ix(1, 32), rep.clone(), rep],
        // the attacker's own key, in other regions of the report
        25 => {
            let e = |k| {
                let mut e = entry(k, 1);
                e[2] = O_REPORTER as u16;
                e
            };
            vec![ed_ix([2, 0], &[e(0), e(1)], &[]), rep]
        }
        26 => {
            let mut e = entry(1, 1);
            e[2] = O_DEST as u16;
            vec![ed_ix([2, 0], &[entry(0, 1), e], &[]), rep]
        }
        // message sizes
        27 => {
            let mut e = entry(1, 1);
            e[5] = env.rng.copy(&[0u16, 1, 31, 33, 64, 96]);
            vec![ed_ix([2, 0], &[entry(0, 1), e], &[]), rep]
        }
        // through another program: the top-level data is the attacker's choice
        28 => {
            let mut honest = c.args.clone();
            honest.root2 = honest.root1;
            honest.sig2 = honest.sig1;
            vec![sig_ix(1, 32), wrap(honest.encode(), vec![rep])]
        }
        29 => {
            let mut own = c.args.clone();
            own.node = apk;
            own.sig1 = env.leaders[attacker].sign(&own.root1);
            own.sig2 = env.leaders[attacker].sign(&own.root2);
            vec![sig_ix(1, 32), wrap(own.encode(), vec![rep])]
        }
        30 => vec![sig_ix(1, 32), wrap(rep.data.clone(), vec![rep])],
        31 => vec![noop(vec![]), wrap(rep.data.clone(), vec![sig_ix(1, 32), rep])],
        // odd placement of the verification data
        32 => {
            let t = env.rng.us(9);
            let x = env.rng.bytes(t);
            vec![ed_ix([2, 0], &[entry(0, 1), entry(1, 1)], &x), rep]
        }
        // random offsets
        _ => {
            let mut es = [entry(0, 1), entry(1, 1)];
            let n = 1 + env.rng.us(3);
            for _ in 0..n {
                let (i, j) = (env.rng.us(2), env.rng.us(7));
                es[i][j] = match env.rng.below(4) {
                    0 => env.rng.next() as u16,
                    1 => env.rng.copy(&[0u16, 1, 2, u16::MAX]),
                    2 => es[i][j].wrapping_add(1),
                    _ => env.rng.copy(&[O_NODE, O_REPORTER, O_DEST, O_ROOT1, O_SIG1, O_ROOT2, O_SIG2]) as u16,
                };
            }
            vec![ed_ix([2, 0], &es, &[]), rep]
        }
    }
}

fn wrap(data: Vec<u8>, inner: Vec<Ix>) -> Ix {
    let mut metas: Vec<Meta> = vec![];
    for i in &inner {
        for m in &i.metas {
            if !metas.iter().any(|x| x.key == m.key) {
                metas.push(m.clone());
            }
        }
        metas.push(Meta::r(i.program));
    }
    metas.dedup_by(|a, b| a.key == b.key);
    Ix { program: WRAPPER, metas, data, inner }
}

pub fn layouts(env: &mut Env, n: u64) {
    env.mon.hints.name = "sigverify-layouts";
    for i in 0..n {
        if !env.go() {
            break;
        }
        let slot = env.slot();
        let pair = env.any_conflict(slot);
        let leader = pair.leader;
        let attacker = (leader + 1 + env.rng.us(env.leaders.len() - 1)) % env.leaders.len();
        let mut c = env.case(pair);
        c.now = c.now.max(slot);
        c.funding = Funding::Plenty;
        // the attacker's key where layouts 25 and 26 look for it
        let apk = env.leaders[attacker].pk;
        c.args.reporter = apk;
        c.args.destination = apk;
        let l = i % LAYOUTS;
        match env.rng.below(6) {
            0 => (),
            1 => forge(env, &mut c, 0, attacker),
            2 => {
                forge(env, &mut c, 0, attacker);
                forge(env, &mut c, 1, attacker);
            }
            3 => {
                // same shred on both sides of the forged one
                c.pair.s2 = c.pair.s1.clone();
                c.args.root2 = c.args.root1;
                c.args.sig2 = c.args.sig1;
                forge(env, &mut c, 1, attacker);
            }
            _ => forge(env, &mut c, 1, attacker),
        }
        // accuse somebody else
        if env.rng.chance(1, 16) {
            c.args.node = apk;
        }
        let ixs = layout(env, &c, l, attacker);
        let mut w = env.world(&c);
        // verified claims may also differ from the proof's content
        let tx = Tx { ixs, signers: [c.payer].into_iter().collect() };
        env.run(&mut w, &tx);
        // canonical layout around altered report data: the verified bytes are
        // genuine but the proof account holds something else
        if env.rng.chance(1, 3) {
            let mut d = c.clone();
            let k = env.rng.below(5);
            let p2 = env.any_conflict(slot);
            match k {
                0 => d.pair.s2 = p2.s2,
                1 => d.pair.s1 = p2.s1,
                2 => std::mem::swap(&mut d.pair.s1, &mut d.pair.s2),
                3 => {
                    d.pair.s1 = p2.s1;
                    d.pair.s2 = p2.s2;
                }
                _ => d.args.node = env.leaders[attacker].pk,
            }
            refresh(&mut d);
            let mut w = env.world(&d);
            let tx = Tx { ixs: vec![sig_ix(1, 32), report_ix(env.target, &d)], signers: [d.payer].into_iter().collect() };
            env.run(&mut w, &tx);
        }
    }
}

/// Two victims, two reports, verifications shared or crossed between them.
pub fn crossed(env: &mut Env, n: u64) {
    env.mon.hints.name = "sigverify-crossed";
    for _ in 0..n {
        if !env.go() {
            break;
        }
        let slot = env.slot();
        let (p1, p2) = (env.any_conflict(slot), env.any_conflict(slot));
        let mk = |e: &mut Env, p: Pair| {
            let mut c = e.case(p);
            c.now = c.now.max(slot);
            c.funding = Funding::Plenty;
            c
        };
        let (mut c1, c2) = (mk(env, p1), mk(env, p2));
        c1.now = c2.now;
        c1.slots_per_epoch = c2.slots_per_epoch;
        if env.rng.chance(1, 2) {
            let a = (c1.pair.leader + 1) % env.leaders.len();
            forge(env, &mut c1, 1, a);
        }
        let (r1, r2) = (report_ix(env.target, &c1), report_ix(env.target, &c2));
        let ixs = match env.rng.below(7) {
            0 => vec![sig_ix(1, 32), r2, r1],
            1 => vec![sig_ix(1, 32), r2, sig_ix(1, 32), r1],
            2 => vec![sig_ix(3, 32), r1, sig_ix(1, 32), r2],
            3 => vec![sig_ix(1, 32), r2, ed_ix([2, 0], &[entry(0, 1), entry(1, 1)], &[]), r1],
            4 => vec![sig_ix(1, 32), r2, ed_ix([2, 0], &[entry(0, 3), entry(1, 1)], &[]), r1],
            5 => vec![sig_ix(1, 32), r2, ed_ix([2, 0], &[entry(0, 3), entry(1, 3)], &[]), r1],
            _ => vec![ed_ix([4, 0], &[entry(0, 1), entry(1, 1), entry(0, 2), entry(1, 2)], &[]), r2, r1],
        };
        let mut w = env.world(&c2);
        let w1 = env.world(&c1);
        for (k, a) in w1.accts {
            w.accts.entry(k).or_insert(a);
        }
        let tx = Tx { ixs, signers: [c1.payer].into_iter().collect() };
        env.run(&mut w, &tx);
    }
}


/// The precompile and the program look at different bytes: what the program
/// may take for the data of its own instruction lies, at the same offsets,
/// in another place the attacker controls.
pub fn two_views(env: &mut Env, n: u64) {
    env.mon.hints.name = "sigverify-two-views";
    for i in 0..n {
        if !env.go() {
            break;
        }
        let slot = env.slot();
        let pair = env.any_conflict(slot);
        let leader = pair.leader;
        let attacker = (leader + 1 + env.rng.us(env.leaders.len() - 1)) % env.leaders.len();
        let mut c = env.case(pair);
        c.now = c.now.max(slot);
        c.funding = Funding::Plenty;
        let (apk, vpk) = (env.leaders[attacker].pk, c.args.node);
        let place = i % 4;
        // where the verification looks for the key
        let key_at = if place >= 2 {
            env.rng.copy(&[O_REPORTER, O_DEST])
        } else {
            env.rng.copy(&[O_NODE, O_NODE, O_REPORTER, O_DEST])
        };
        c.args.reporter = vpk;
        c.args.destination = vpk;
        let (ed_at, rep_at) = if place == 0 { (1u16, 2u16) } else { (0, 1) };
        let elsewhere = match place {
            0 => 0,
            1 => 2,
            2 => u16::MAX,
            _ => ed_at,
        };
        // bit 0: key, bit 1: message, bit 2: signature come from elsewhere
        let fields = 1 + env.rng.below(7);
        let targets = env.rng.copy(&[1u64, 2, 2, 3]);
        let mut es = [entry(0, rep_at), entry(1, rep_at)];
        let mut fakes = vec![];
        for (k, e) in es.iter_mut().enumerate() {
            e[2] = key_at as u16;
            if targets >> k & 1 == 0 {
                // both views agree
                continue;
            }
            let s = if k == 0 { &mut c.pair.s1 } else { &mut c.pair.s2 };
            let old = parse(s).unwrap();
            let v = old.v;
            let triple = if fields & 1 != 0 {
                let at = 100 + env.rng.us(100);
                s[at] ^= 0x55;
                let root = crate::gen::reroot(s).unwrap();
                let p = s[v.proof_offset().unwrap()..v.proof_end().unwrap()].to_vec();
                seal(s, v, &p, &root, &env.leaders[attacker], &mut env.sigs);
                (apk, root, parse(s).unwrap().sig)
            } else {
                if fields & 2 != 0 {
                    let at = 100 + env.rng.us(100);
                    s[at] ^= 0x55;
                } else {
                    let x: [u8; 64] = env.rng.arr();
                    s[..64].copy_from_slice(&x);
                }
                (vpk, old.root, old.sig)
            };
            let new = parse(s).unwrap();
            if k == 0 {
                c.args.root1 = new.root;
                c.args.sig1 = new.sig;
            } else {
                c.args.root2 = new.root;
                c.args.sig2 = new.sig;
            }
            for (bit, at) in [(0, 3), (1, 6), (2, 1)] {
                if fields >> bit & 1 != 0 {
                    e[at] = elsewhere;
                }
            }
            fakes.push((k, triple));
        }
        refresh(&mut c);
        let mut view = c.args.encode();
        for (k, (pk, root, sig)) in fakes {
            let (s, m) = if k == 0 { (O_SIG1, O_ROOT1) } else { (O_SIG2, O_ROOT2) };
            view[key_at..key_at + 32].copy_from_slice(&pk.to_bytes());
            view[m..m + 32].copy_from_slice(&root);
            view[s..s + 64].copy_from_slice(&sig);
        }
        let rep = report_ix(env.target, &c);
        let ixs = match place {
            0 => vec![noop(view), ed_ix([2, 0], &es, &[]), rep],
            1 => vec![ed_ix([2, 0], &es, &[]), rep, noop(view)],
            _ => vec![ed_ix([2, 0], &es, &view[30..]), rep],
        };
        let mut w = env.world(&c);
        let tx = Tx { ixs, signers: [c.payer].into_iter().collect() };
        env.run(&mut w, &tx);
    }
}

/// What was verified resembles what is claimed: keys, messages and signatures
/// that agree in part, messages that go on or end early.
pub fn near(env: &mut Env, n: u64) {
    env.mon.hints.name = "sigverify-near";
    for i in 0..n {
        if !env.go() {
            break;
        }
        let slot = env.slot();
        let pair = env.any_conflict(slot);
        let signer = pair.leader;
        let mut c = env.case(pair);
        c.now = c.now.max(slot);
        c.funding = Funding::Plenty;
        let mut es = [entry(0, 1), entry(1, 1)];
        let both = env.rng.copy(&[1u64, 2, 3]);
        let kind = i % 4;
        if kind == 0 {
            // really signed, but by a key that only resembles the accused
            let k = env.leaders[signer].pk;
            c.args.node = env.rng.near(k.to_bytes()).into();
            let at = env.rng.copy(&[O_REPORTER, O_DEST]);
            if at == O_REPORTER {
                c.args.reporter = k;
            } else {
                c.args.destination = k;
            }
            for (j, e) in es.iter_mut().enumerate() {
                if both >> j & 1 != 0 || env.rng.chance(3, 4) {
                    e[2] = at as u16;
                }
            }
        } else {
            // the signatures are genuine, of something that resembles the root
            for (j, e) in es.iter_mut().enumerate() {
                if both >> j & 1 == 0 {
                    continue;
                }
                let s = if j == 0 { &mut c.pair.s1 } else { &mut c.pair.s2 };
                let root = parse(s).unwrap().root;
                let (m, len): ([u8; 32], u16) = match kind {
                    1 => (env.rng.near(root), 32),
                    2 => (root, 32),
                    _ => {
                        // only one at a time has room
                        let x: [u8; 32] = env.rng.arr();
                        match env.rng.below(3) {
                            0 => {
                                let len = env.rng.range(33, 64) as u16;
                                (c.args.reporter, c.args.destination) = (root.into(), x.into());
                                (e[4], e[5]) = (O_REPORTER as u16, len);
                            }
                            1 => {
                                let more = env.rng.range(1, 32) as u16;
                                (c.args.reporter, c.args.destination) = (x.into(), root.into());
                                (e[4], e[5]) = (O_DEST as u16 - more, 32 + more);
                            }
                            _ => e[5] = env.rng.below(32) as u16,
                        }
                        (root, 0)
                    }
                };
                let root_at = if j == 0 { &mut c.args.root1 } else { &mut c.args.root2 };
                *root_at = m;
                let data = c.args.encode();
                let at = usize::from(e[4]);
                let msg = if len == 32 { m.to_vec() } else { data[at..at + usize::from(e[5])].to_vec() };
                let sig = env.leaders[signer].sign(&msg);
                let s = if j == 0 { &mut c.pair.s1 } else { &mut c.pair.s2 };
                s[..64].copy_from_slice(&sig);
                if kind == 2 {
                    let bad: [u8; 64] = env.rng.near(sig);
                    s[..64].copy_from_slice(&bad);
                }
                if j == 0 {
                    c.args.sig1 = sig;
                } else {
                    c.args.sig2 = sig;
                }
                if kind == 3 {
                    break;
                }
            }
        }
        refresh(&mut c);
        let mut w = env.world(&c);
        let tx = Tx { ixs: vec![ed_ix([2, 0], &es, &[]), report_ix(env.target, &c)], signers: [c.payer].into_iter().collect() };
        env.run(&mut w, &tx);
    }
}
