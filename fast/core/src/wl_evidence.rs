//! Evidence workloads: honest blocks under attack, genuine conflicts, pairs of
//! arbitrary signed shreds, and shred byte strings of every variant and length.
use {
    crate::{
        gen::{Case, Env, Funding, Pair},
        model::{self, Conflict},
        replay,
        rt::TxOut,
        shred::{fold, leaf_hash, parse, Hdr, Ty, Variant},
    },
};

impl Env<'_> {
    pub fn submit(&mut self, c: &Case) -> TxOut {
        let mut w = self.world(c);
        let tx = self.tx(c);
        self.run(&mut w, &tx)
    }

    /// Run a pair in both orders; the verdict must be the same.
    pub fn both_orders(&mut self, c: &Case) {
        let swapped = {
            let mut s = c.clone();
            std::mem::swap(&mut s.pair.s1, &mut s.pair.s2);
            std::mem::swap(&mut s.args.root1, &mut s.args.root2);
            std::mem::swap(&mut s.args.sig1, &mut s.args.sig2);
            let off = c.args.offset as usize;
            let n = 8 + c.pair.s1.len() + c.pair.s2.len();
            if c.proof_data.len() >= off + n {
                s.proof_data[off..off + n].copy_from_slice(&model::pack(&s.pair.s1, &s.pair.s2));
            }
            s
        };
        let a = self.submit(c);
        let mut w = self.world(&swapped);
        let pre = w.clone();
        let tx = self.tx(&swapped);
        let b = self.run(&mut w, &tx);
        let ok = |o: &TxOut| o.calls.last().map(|c| c.result.is_ok());
        if ok(&a) != ok(&b) {
            let name = self.mon.hints.name;
            self.mon.violate(
                "C04",
                format!("swapping the two shreds changes the verdict: {:?} then {:?}", a.res, b.res),
                || replay::encode(name, &pre, &tx),
            );
        }
    }

    /// What an implementation that reads these bytes too generously might
    /// take for their Merkle root.
    pub fn plausible_root(&mut self, s: &[u8]) -> [u8; 32] {
        if s.len() < 90 {
            return [7; 32];
        }
        let nib = self.rng.copy(&[4u8, 6, 7, 8, 9, 0xb]);
        let own = s[64] >> 4;
        let nib = if Variant::of(s[64]).is_ok() || (self.rng.chance(1, 3) && Variant::of(own << 4).is_ok()) { own } else { nib };
        let Ok(v) = Variant::of(nib << 4 | (s[64] & 15)) else { return [7; 32] };
        let Some(po) = v.proof_offset() else { return [7; 32] };
        let po = if po > s.len() { s.len() } else { po };
        let pe = (po + 20 * v.proof as usize).min(s.len());
        let pe = po + (pe - po) / 20 * 20;
        let u = |o: usize| u16::from_le_bytes([s[o], s[o + 1]]) as u64;
        let idx = match v.ty {
            Ty::Data => {
                let i = u32::from_le_bytes(s[73..77].try_into().unwrap());
                let f = u32::from_le_bytes(s[79..83].try_into().unwrap());
                if self.rng.chance(1, 2) {
                    i.wrapping_sub(f) as u64
                } else {
                    i.saturating_sub(f) as u64
                }
            }
            Ty::Code => {
                if s.len() < 89 {
                    return [7; 32];
                }
                u(83) + u(87)
            }
        };
        let leaf = leaf_hash(&s[64..po]);
        // ignore whatever is left of the leaf index
        let bits = (pe - po) / 20;
        let idx = if bits >= 64 { idx } else { idx & ((1u64 << bits) - 1) };
        fold(idx, leaf, &s[po..pe]).unwrap_or([7; 32])
    }

    /// Make the claimed root/signature of unreadable shreds really verify, so
    /// that the program gets to look at them.
    pub fn sign_claims(&mut self, leader: usize, s: &mut [u8]) {
        if parse(s).is_ok() {
            return;
        }
        let root = self.plausible_root(s);
        let sig = self.leaders[leader].sign(&root);
        self.sigs.learn(self.leaders[leader].pk.to_bytes(), sig, &root);
        let n = s.len().min(64);
        s[..n].copy_from_slice(&sig[..n]);
        self.claims.insert(s.to_vec(), (root, sig));
    }
}

/// C01: everything an outsider can make from the shreds of honest blocks.
pub fn honest(env: &mut Env, n: u64) {
    env.mon.hints.name = "honest";
    let mut done = 0;
    while done < n && env.go() {
        let leader = env.rng.us(env.leaders.len());
        let slot = env.slot().min(u64::MAX - 10);
        let block = env.honest_block(leader, slot);
        let other_slot = slot + 1;
        let other = if env.rng.chance(1, 4) { env.honest_block(leader, other_slot) } else { vec![] };
        let rival = (leader + 1) % env.leaders.len();
        let rival_block = if env.rng.chance(1, 4) { env.honest_block(rival, slot) } else { vec![] };
        let pk = env.leaders[leader].pk;
        env.mon.hints.honest.clear();
        env.mon.hints.honest.insert((pk, slot));
        env.mon.hints.honest.insert((pk, other_slot));
        env.mon.hints.honest.insert((env.leaders[rival].pk, slot));
        for _ in 0..400 {
            if done >= n || !env.go() {
                break;
            }
            done += 1;
            let i = env.rng.us(block.len());
            // neighbours, same shred, or anything
            let j = match env.rng.below(4) {
                0 => i,
                1 => (i + 1).min(block.len() - 1),
                2 => (i + 32 + env.rng.us(3)).min(block.len() - 1),
                _ => env.rng.us(block.len()),
            };
            let orig1 = block[i].clone();
            let orig2 = if !other.is_empty() && env.rng.chance(1, 8) {
                env.rng.pick(&other).clone()
            } else if !rival_block.is_empty() && env.rng.chance(1, 8) {
                env.rng.pick(&rival_block).clone()
            } else {
                block[j].clone()
            };
            let mut s = [orig1.clone(), orig2.clone()];
            let edits = env.rng.below(4);
            for _ in 0..edits {
                let k = env.rng.us(2);
                mutate_unsigned(env, &mut s[k]);
            }
            let [s1, s2] = s;
            let slot_claim = if env.rng.chance(1, 12) { other_slot } else { slot };
            let mut c = env.case(Pair { leader, slot: slot_claim, s1, s2 });
            // the only signatures an outsider has
            let (p1, p2) = (parse(&orig1).unwrap(), parse(&orig2).unwrap());
            c.args.root1 = p1.root;
            c.args.sig1 = p1.sig;
            c.args.root2 = p2.root;
            c.args.sig2 = p2.sig;
            if env.rng.chance(1, 2) {
                env.both_orders(&c);
            } else {
                env.submit(&c);
            }
        }
    }
    env.mon.hints.honest.clear();
}

/// Edit bytes the way somebody without the leader's key can.
fn mutate_unsigned(env: &mut Env, s: &mut Vec<u8>) {
    let pe = parse(s).ok().and_then(|p| p.v.proof_end()).unwrap_or(s.len());
    match env.rng.below(7) {
        0 => {
            let n = env.rng.copy(&[1usize, 1, 2, 25, 64, 65, 100, 700]);
            let x = env.rng.bytes(n);
            s.extend(x);
        }
        1 => {
            let n = env.rng.copy(&[1usize, 25, 64]);
            s.extend(std::iter::repeat_n(0u8, n));
        }
        2 => {
            // retransmitter signature, or whatever follows the proof
            if s.len() > pe {
                let (a, b) = (pe, s.len());
                env.rng.fill(&mut s[a..b]);
            }
        }
        3 => {
            // drop what follows the proof, wholly or in part
            let keep = pe + env.rng.us(s.len().saturating_sub(pe) + 1);
            s.truncate(keep.min(s.len()));
        }
        4 => s.truncate(pe.min(s.len())),
        5 => {
            let n = 1 + env.rng.us(2);
            for _ in 0..n {
                let k = env.rng.us(s.len());
                s[k] ^= 1 << env.rng.us(8);
            }
        }
        _ => {
            // header bytes
            let k = 64 + env.rng.us(25);
            if k < s.len() {
                s[k] = env.rng.copy(&[0, 1, 0xff, 0x40, 0x60, 0x70, 0x80, 0x90, 0xb0]);
            }
        }
    }
}

/// C03: genuine conflicts of every kind, reported in every legitimate way.
pub fn genuine(env: &mut Env, n: u64) {
    use Conflict::*;
    env.mon.hints.name = "genuine";
    let kinds = [Root, Overlap, Payload, Last, Erasure];
    for i in 0..n {
        if !env.go() {
            break;
        }
        let slot = env.slot();
        let pair = env.conflicting(kinds[i as usize % 5], slot);
        let mut c = env.case(pair);
        if c.now < c.pair.slot {
            c.now = c.pair.slot;
        }
        env.mon.hints.client_built = c.funding == Funding::Client;
        env.both_orders(&c);
    }
    env.mon.hints.client_built = false;
}

/// C04: pairs of signed shreds from a domain centred on the rule boundaries.
pub fn pairs(env: &mut Env, n: u64) {
    env.mon.hints.name = "pairs";
    for _ in 0..n {
        if !env.go() {
            break;
        }
        let slot = env.slot();
        let Some((leader, s1, s2)) = boundary_pair(env, slot) else { continue };
        let mut s = [s1, s2];
        // re-encodings
        if env.rng.chance(1, 10) {
            let k = env.rng.us(2);
            mutate_unsigned(env, &mut s[k]);
        }
        for x in s.iter_mut() {
            env.sign_claims(leader, x);
        }
        let [s1, s2] = s;
        let c = env.case(Pair { leader, slot, s1, s2 });
        env.both_orders(&c);
        env.claims.clear();
    }
}

fn near(env: &mut Env, x: u32) -> u32 {
    if env.rng.chance(1, 3) {
        return x ^ env.rng.bit(32) as u32;
    }
    let d = env.rng.copy(&[0i64, 0, 0, 1, -1, 2, 31, 32, 33, -32]);
    (x as i64 + d).clamp(0, u32::MAX as i64) as u32
}

fn boundary_pair(env: &mut Env, slot: u64) -> Option<(usize, Vec<u8>, Vec<u8>)> {
    let leader = env.rng.us(env.leaders.len());
    let ver = env.rng.next() as u16;
    let fec = env.rng.copy(&[0u32, 0, 1, 32, 64, 0x7fff, 0x8000, 0xffff, 0x10000, u32::MAX - 64, u32::MAX - 33, u32::MAX - 1]);
    let nd = env.rng.copy(&[0u16, 1, 2, 31, 32, 33, 64, 255, 256, 0x7fff, u16::MAX]);
    let d = env.rng.copy(&[0u8, 1, 2, 5, 6, 6, 6, 7, 7, 8, 10, 15]);
    // second set relative to the first
    let fec2 = match env.rng.below(10) {
        0..=3 => fec,
        4 => fec.saturating_add(nd as u32),
        5 => fec.saturating_add(nd as u32).saturating_sub(1),
        6 => fec.saturating_add(nd as u32).saturating_add(1),
        7 => fec.saturating_add(1),
        8 => fec.saturating_sub(1),
        _ => near(env, fec),
    };
    let (ty1, ty2) = env.rng.copy(&[
        (Ty::Data, Ty::Data),
        (Ty::Data, Ty::Data),
        (Ty::Code, Ty::Code),
        (Ty::Code, Ty::Code),
        (Ty::Data, Ty::Code),
        (Ty::Code, Ty::Data),
    ]);
    let v1 = env.variant(ty1, d);
    let d2 = if env.rng.chance(3, 4) { d } else { env.rng.below(16) as u8 };
    let mut v2 = env.variant(ty2, d2);
    if env.rng.chance(1, 2) {
        v2.chained = v1.chained;
        v2.resigned = v1.resigned;
    }
    let flags = |e: &mut Env| -> u8 {
        let t = e.rng.below(64) as u8;
        t | e.rng.copy(&[0u8, 0x40, 0x80, 0xc0, 0xc0])
    };
    let span = 1u64 << d.min(10);
    let mk = |e: &mut Env, ty: Ty, v: Variant, f: u32, slot: u64, ver: u16, like: Option<&Hdr>| -> Hdr {
        match ty {
            Ty::Data => {
                let mut idx = f.saturating_add(e.rng.below(span) as u32);
                if let Some(l) = like {
                    match e.rng.below(5) {
                        0 => idx = l.index,
                        3 => idx = l.index ^ e.rng.bit(32) as u32,
                        1 => idx = l.index.saturating_add(1),
                        2 => idx = l.index.saturating_sub(1),
                        _ => (),
                    }
                }
                let fl = flags(e);
                Hdr::data(v, slot, idx, ver, f, e.rng.copy(&[0, 1, 2, u16::MAX]), fl, e.rng.next() as u16)
            }
            Ty::Code => {
                let pos = e.rng.below(span.min(40)) as u16;
                let idx = match e.rng.below(6) {
                    0 => pos as u32,
                    1 => pos.saturating_sub(1) as u32,
                    2 => u32::MAX - e.rng.below(3) as u32,
                    _ => f.saturating_add(pos as u32).saturating_add(e.rng.below(3) as u32),
                };
                let mut h = Hdr::code(v, slot, idx, ver, f, nd, e.rng.copy(&[0u16, 1, 32, 33, 256, u16::MAX]), pos);
                if e.rng.chance(1, 8) {
                    h.a = e.rng.copy(&[0, 1, 32, nd.wrapping_add(1), nd.wrapping_sub(1)]);
                }
                if let Some(l) = like {
                    if l.v.ty == Ty::Code {
                        match e.rng.below(9) {
                            0 => h.index = l.index,
                            // one respect off in one bit
                            k @ 6..=8 => {
                                h.a = l.a;
                                h.b = l.b;
                                let first = l.index.wrapping_sub(l.c as u32) ^ if k == 6 { e.rng.bit(32) as u32 } else { 0 };
                                h.index = first.wrapping_add(h.c as u32);
                                if k == 7 {
                                    h.a ^= e.rng.bit(16) as u16;
                                }
                                if k == 8 {
                                    h.b ^= e.rng.bit(16) as u16;
                                }
                            }
                            // same configuration
                            1 | 2 => {
                                h.a = l.a;
                                h.b = l.b;
                                h.index = (l.index as i64 - l.c as i64 + h.c as i64).clamp(0, u32::MAX as i64) as u32;
                            }
                            // one respect off by one
                            3 => {
                                h.a = l.a;
                                h.b = l.b;
                                h.index = (l.index as i64 - l.c as i64 + h.c as i64 + 1).clamp(0, u32::MAX as i64) as u32;
                            }
                            4 => {
                                h.a = l.a;
                                h.b = l.b.wrapping_add(1);
                                h.index = (l.index as i64 - l.c as i64 + h.c as i64).clamp(0, u32::MAX as i64) as u32;
                            }
                            _ => (),
                        }
                    } else {
                        match e.rng.below(6) {
                            0 | 1 => h.index = l.index,
                            2 => h.index = l.index ^ e.rng.bit(32) as u32,
                            _ => (),
                        }
                    }
                }
                h
            }
        }
    };
    let h1 = mk(env, ty1, v1, fec, slot, ver, None);
    let (slot2, ver2) = match env.rng.below(18) {
        16 => (slot ^ env.rng.bit(64), ver),
        17 => (slot, ver ^ env.rng.bit(16) as u16),
        0 => (slot.wrapping_add(1), ver),
        1 => (slot, ver.wrapping_add(1)),
        2 => (slot, ver ^ 0x100),
        3 => (slot ^ (1 << 40), ver),
        _ => (slot, ver),
    };
    let mut h2 = mk(env, ty2, v2, fec2, slot2, ver2, Some(&h1));
    let mut h1 = h1;
    if env.rng.chance(1, 24) {
        h1.slot ^= 1;
        h2.slot = h1.slot;
    }
    // the same shred twice, or one tree, or two
    match env.rng.below(8) {
        0 => {
            let s = env.alone(leader, &h1)?;
            let mut t = s.clone();
            if env.rng.chance(1, 2) && h1.v.resigned {
                let e = h1.v.proof_end()?;
                env.rng.fill(&mut t[e..]);
            }
            Some((leader, s, t))
        }
        1..=4 => {
            h2.v.proof = h1.v.proof;
            match env.together(leader, &h1, &h2) {
                Some((a, b)) => Some((leader, a, b)),
                None => Some((leader, env.alone_or_broken(leader, &h1), env.alone_or_broken(leader, &h2))),
            }
        }
        _ => Some((leader, env.alone_or_broken(leader, &h1), env.alone_or_broken(leader, &h2))),
    }
}

impl Env<'_> {
    /// A signed shred, or (when the header cannot be part of a tree) a payload
    /// whose proof is arbitrary.
    pub fn alone_or_broken(&mut self, leader: usize, h: &Hdr) -> Vec<u8> {
        match self.alone(leader, h) {
            Some(s) => s,
            None => {
                let mut p = h.payload(&mut self.rng);
                if let (Some(a), Some(b)) = (h.v.proof_offset(), h.v.proof_end()) {
                    self.rng.fill(&mut p[a..b]);
                }
                p
            }
        }
    }
}

/// C05: every variant byte, lengths around every layout boundary, and random
/// byte strings, next to a shred they would conflict with if read wrongly.
pub fn variants(env: &mut Env, n: u64) {
    env.mon.hints.name = "variants";
    for i in 0..n {
        if !env.go() {
            break;
        }
        let slot = env.slot();
        let leader = env.rng.us(env.leaders.len());
        let ver = env.rng.next() as u16;
        let fec = env.rng.copy(&[0u32, 32, 1000]);
        let byte = if env.rng.chance(2, 3) { (i % 256) as u8 } else { env.rng.copy(&[0x40, 0x66, 0x76, 0x86, 0x96, 0xb6, 0x5a, 0xa5, 0x46, 0x6f, 0x7f, 0x8f, 0x9f, 0xbf]) };
        let nib = byte >> 4;
        let looks_code = matches!(nib, 4..=7);
        let v = Variant::of(byte).unwrap_or(Variant {
            ty: if looks_code { Ty::Code } else { Ty::Data },
            proof: byte & 15,
            chained: false,
            resigned: false,
        });
        let span = 1u64 << v.proof;
        let h = if v.ty == Ty::Data {
            let k = match env.rng.below(8) {
                0 => span,
                1 => span.saturating_sub(1),
                2 => u32::MAX as u64 - fec as u64,
                _ => env.rng.below(span),
            };
            let idx = if env.rng.chance(1, 16) { fec.wrapping_sub(1) } else { fec.saturating_add(k.min(u32::MAX as u64) as u32) };
            Hdr::data(v, slot, idx, ver, fec, 1, env.rng.next() as u8, 100)
        } else {
            let nd = env.rng.below(span.min(u16::MAX as u64)) as u16;
            let pos = match env.rng.below(8) {
                0 => (span - nd as u64).min(u16::MAX as u64) as u16,
                1 => u16::MAX,
                _ => env.rng.below((span - nd as u64).max(1)) as u16,
            };
            Hdr::code(v, slot, fec + pos as u32, ver, fec, nd, 32, pos)
        };
        let mut s = env.alone_or_broken(leader, &h);
        s[64] = byte;
        let ends = [v.proof_offset().unwrap_or(100), v.proof_end().unwrap_or(200)];
        match env.rng.below(10) {
            0 => {
                let k = env.rng.copy(&ends) as i64 + env.rng.copy(&[-21i64, -20, -19, -1, 0, 1]);
                s.truncate(k.clamp(0, s.len() as i64) as usize);
            }
            1 => {
                let k = env.rng.copy(&[0usize, 1, 63, 64, 65, 66, 72, 73, 76, 77, 78, 79, 82, 83, 84, 85, 86, 87, 88, 89, 90]);
                s.truncate(k);
            }
            2 => {
                let k = env.rng.us(s.len() + 1);
                s.truncate(k);
            }
            3 => {
                let k = env.rng.us(80);
                let x = env.rng.bytes(k);
                s.extend(x);
            }
            4 => {
                // signed bytes edited after signing
                let k = 64 + env.rng.us(s.len() - 64);
                s[k] ^= 1 << env.rng.us(8);
            }
            5 => {
                let k = env.rng.us(1300);
                s = env.rng.bytes(k);
                if k > 64 {
                    s[64] = byte;
                }
                if k > 82 {
                    s[65..73].copy_from_slice(&slot.to_le_bytes());
                    s[77..79].copy_from_slice(&ver.to_le_bytes());
                    s[79..83].copy_from_slice(&fec.to_le_bytes());
                }
            }
            _ => (),
        }
        // a sound shred of the same set with another root
        let to = if env.rng.chance(1, 2) { Ty::Data } else { Ty::Code };
        let vo = env.variant(to, 6);
        let ho = if vo.ty == Ty::Data {
            Hdr::data(vo, slot, fec + 5, ver, fec, 1, 0, 100)
        } else {
            Hdr::code(vo, slot, fec + 5, ver, fec, 32, 32, 5)
        };
        let other = env.alone(leader, &ho).unwrap();
        env.sign_claims(leader, &mut s);
        let c = env.case(Pair { leader, slot, s1: s, s2: other });
        env.both_orders(&c);
        env.claims.clear();
    }
}

/// Exhaustive grid over the relations the rules distinguish (type pair, set
/// relation, index relation, same root, last flags, configuration).
pub fn grid(env: &mut Env, part: u64, parts: u64) {
    env.mon.hints.name = "grid";
    let mut k = 0u64;
    for (t1, t2) in [(Ty::Data, Ty::Data), (Ty::Code, Ty::Code), (Ty::Data, Ty::Code), (Ty::Code, Ty::Data)] {
        for df in [-33i64, -32, -31, -1, 0, 1, 31, 32, 33] {
            for di in [-40i64, -1, 0, 1, 40] {
                for same_root in [false, true] {
                    for (f1, f2) in [(0u8, 0u8), (0xc0, 0), (0, 0xc0), (0xc0, 0xc0), (0x80, 0x40), (0xff, 0x3f), (0x40, 0xc1)] {
                        for cfg in 0..4 {
                            k += 1;
                            if k % parts != part || !env.go() {
                                continue;
                            }
                            if t1 == Ty::Code && t2 == Ty::Code && (f1, f2) != (0, 0) {
                                continue;
                            }
                            if t1 == Ty::Data && t2 == Ty::Data && cfg != 0 {
                                continue;
                            }
                            grid_point(env, t1, t2, df, di, same_root, f1, f2, cfg);
                        }
                    }
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn grid_point(env: &mut Env, t1: Ty, t2: Ty, df: i64, di: i64, same_root: bool, f1: u8, f2: u8, cfg: u32) {
    let slot = env.slot();
    let leader = env.rng.us(env.leaders.len());
    let ver = env.rng.next() as u16;
    let fec1 = 1000u32;
    let fec2 = (fec1 as i64 + df) as u32;
    let v1 = env.variant(t1, 8);
    let v2 = env.variant(t2, 8);
    let i1 = fec1.max(fec2) + 50;
    let i2 = (i1 as i64 + di) as u32;
    let mk = |t: Ty, v: Variant, fec: u32, idx: u32, fl: u8, nd: u16, nc: u16, pos: u16| match t {
        Ty::Data => Hdr::data(v, slot, idx, ver, fec, 1, fl, 99),
        Ty::Code => Hdr::code(v, slot, idx, ver, fec, nd, nc, pos),
    };
    let h1 = mk(t1, v1, fec1, i1, f1, 32, 32, 40);
    let (nd, nc, pos) = match cfg {
        0 => (32, 32, (40 + di) as u16),
        1 => (32, 33, (40 + di) as u16),
        2 => (33, 32, (40 + di) as u16),
        _ => (32, 32, (41 + di) as u16),
    };
    let h2 = mk(t2, v2, fec2, i2, f2, nd, nc, pos);
    let pair = if same_root {
        env.together(leader, &h1, &h2)
    } else {
        match (env.alone(leader, &h1), env.alone(leader, &h2)) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        }
    };
    let Some((s1, s2)) = pair else { return };
    let c = env.case(Pair { leader, slot, s1, s2 });
    env.both_orders(&c);
}

