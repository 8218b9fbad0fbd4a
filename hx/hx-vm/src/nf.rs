//! N09: messages lost, repeated, exchanged, forged or cut short.
use crate::{e2e::*, nc::*, nd::*, ne::*, np::is_priv, sched::End};
use hx_lib::*;
use mpz::ideal_vm::{reset_instr, INSTR};

/// What is done at one message of a party.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    Drop,
    Twice,
    /// The next message of the same stream goes first.
    Swap,
    /// Only so much of it is kept.
    Cut(usize),
    /// A message of the recorded session goes first, or in its place.
    Insert(usize),
    Replace(usize),
    /// A message made up goes first, or in its place.
    Forge(usize),
    ForgeFor(usize),
}
#[derive(Default)]
struct Rec {
    forged: Vec<(String, Vec<u8>)>,
    /// (stream, message) of the party in the recorded session.
    sent: Vec<(u64, Vec<u8>)>,
}
fn record(b: &Base, party: u64) -> Result<Rec, String> {
    reset_instr();
    INSTR.with(|i| i.borrow_mut().record = true);
    let (o, end, _) = crate::e2e::run(&scn_of(b), &[], 400_000)?;
    ck_eq!(end, End::Done, "baseline");
    check(&o, &b.sh, &b.reqs)?;
    Ok(Rec { forged: vec![], sent: INSTR.with(|i| i.borrow().sent.iter().filter(|s| s.0 == party).map(|s| (s.1, s.2.clone())).collect()) })
}
fn install(party: u64, acts: &[(usize, Act)], rec: std::sync::Arc<Rec>) {
    let acts = acts.to_vec();
    let mut held: Option<(u64, Vec<u8>)> = None;
    let mut mine: Vec<Vec<u8>> = vec![];
    INSTR.with(|i| {
        i.borrow_mut().on_send = Some(Box::new(move |p, sid, n, f| {
            if p != party {
                return vec![f];
            }
            mine.push(f.clone());
            // A message of this session if it has been sent already, else the recorded one.
            let pick = |j: usize| mine.get(j).filter(|_| j < n).unwrap_or(&rec.sent[j].1).clone();
            if let Some((_, act)) = acts.iter().find(|a| a.0 == n) {
                return match *act {
                    Act::Drop => vec![],
                    Act::Twice => vec![f.clone(), f],
                    Act::Cut(k) => vec![f[..k.min(f.len())].to_vec()],
                    Act::Insert(j) => vec![pick(j), f],
                    Act::Replace(j) => vec![pick(j)],
                    Act::Forge(j) => vec![rec.forged[j].1.clone(), f],
                    Act::ForgeFor(j) => vec![rec.forged[j].1.clone()],
                    Act::Swap => {
                        held = Some((sid, f));
                        vec![]
                    }
                };
            }
            if held.as_ref().is_some_and(|h| h.0 == sid) {
                return vec![f, held.take().unwrap().1];
            }
            vec![f]
        }))
    })
}
fn bases_of(hx: &Hx) -> Vec<Base> {
    bases(hx.thorough()).into_iter().filter(|b| hx.thorough() || b.name.ends_with("partial")).collect()
}
pub fn n09(hx: &Hx) {
    hx.assume("the ZK and MPC virtual machine is ideal: its own messages are delivered unaltered");
    let bs = bases_of(hx);
    let mut items = vec![];
    let mut recs = vec![];
    for (bi, b) in bs.iter().enumerate() {
        for party in [1u64, 2] {
            let r = match catch(|| record(b, party)) {
                Ok(r) => std::sync::Arc::new(r),
                Err(e) => {
                    hx.case(|| format!("{} baseline", b.name), || Err(e));
                    return;
                }
            };
            // Messages of the protocol itself, one of each distinct shape when only sampling shapes.
            let own: Vec<usize> = (0..r.sent.len()).filter(|&i| !is_priv(&r.sent[i].1)).collect();
            let mut shapes = std::collections::HashSet::new();
            let forge: Vec<usize> = own
                .iter()
                .copied()
                .filter(|&i| {
                    let f = &r.sent[i].1;
                    let big = f.len() > 4096;
                    (hx.thorough() && !big) || shapes.insert((f.len(), f[..f.len().min(4)].to_vec(), big))
                })
                .collect();
            hx.count(&format!("{} messages of {}", b.name, ["prover", "verifier"][party as usize - 1]), own.len() as u64);
            for &k in &own {
                let len = r.sent[k].1.len();
                let mut acts = vec![Act::Drop, Act::Twice, Act::Swap, Act::Cut(0), Act::Cut(len - 1), Act::Cut(len / 2)];
                for &j in &forge {
                    acts.push(Act::Insert(j));
                    if j != k {
                        acts.push(Act::Replace(j));
                    }
                }
                items.extend(acts.into_iter().map(|a| (bi, party, recs.len(), vec![(k, a)])));
            }
            if b.reqs[0].reveal.as_ref().is_some_and(|r| r.0.len() == 2) {
                // Two disturbances.
                let mut shapes = std::collections::HashSet::new();
                let few: Vec<usize> = forge.iter().copied().filter(|&i| r.sent[i].1.len() <= 512 && shapes.insert((r.sent[i].1.len(), r.sent[i].1[..r.sent[i].1.len().min(4)].to_vec()))).collect();
                for (x, &k) in own.iter().enumerate() {
                    for (y, &l) in own.iter().enumerate().skip(x + 1) {
                        // Quick: losses and repetitions anywhere, insertions only at neighbours.
                        let near = (hx.thorough() && b.name.starts_with("mpc-online")) || y == x + 1;
                        let acts = || [Act::Drop, Act::Twice].into_iter().chain(few.iter().filter(|_| near).map(|j| Act::Insert(*j)));
                        for a in acts() {
                            for c in acts() {
                                items.push((bi, party, recs.len(), vec![(k, a), (l, c)]));
                            }
                        }
                    }
                }
            }
            recs.push(r);
        }
    }
    hx.count("disturbed sessions", items.len() as u64);
    hx.par(&items, |(bi, party, ri, acts)| {
        let b = &bs[*bi];
        hx.case(
            || format!("{} {} message {acts:?}", b.name, ["prover", "verifier"][*party as usize - 1]),
            || {
                reset_instr();
                install(*party, acts, recs[*ri].clone());
                let (o, end, steps) = crate::e2e::run(&scn_of(b), &[], 20_000)?;
                if *party == 1 {
                    for (who, what) in &o.panics {
                        ck!(*who != "verifier" && *who != "driver_v", "{who} panics: {what}");
                    }
                    if let End::Livelock(l) = &end {
                        ck!(!l.contains(&"verifier"), "the verifier spins");
                    }
                    verifier_truth(&o, &b.sh, &b.reqs)?;
                } else {
                    prover_truth(&o, &end, b)?;
                }
                hx.count(if ok(&o.prover) && ok(&o.verifier) { "sessions that ended well" } else { "sessions refused or stalled" }, 1);
                hx.trans(steps as u64);
                hx.state(&(bi, party, acts));
                Ok(())
            },
        );
    });
}

use serde::Serialize;
use tls_core::msgs::enums::{ContentType as CT, NamedGroup, ProtocolVersion as PV};
/// The protocol messages of the MPC-TLS leader, as they are on the wire.
#[derive(Serialize, Clone, Debug)]
#[allow(dead_code)]
enum Msg {
    ClientRandom([u8; 32]),
    ServerHello { time: u64, random: [u8; 32], key: tls_core::key::PublicKey },
    ClientFinished([u8; 32]),
    ServerFinished([u8; 32]),
    Encrypt { typ: CT, version: PV, len: usize, plaintext: Option<Vec<u8>> },
    Decrypt { typ: CT, version: PV, explicit_nonce: Vec<u8>, ciphertext: Vec<u8>, tag: Vec<u8> },
    StartTraffic,
    Flush(bool),
    Close,
}
/// Every message of a small vocabulary.
fn vocabulary(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let mut add = |m: Msg| v.push((format!("{m:?}").chars().take(160).collect(), bincode::serialize(&m).unwrap()));
    add(Msg::ClientRandom([1; 32]));
    add(Msg::ClientFinished([2; 32]));
    add(Msg::ServerFinished([3; 32]));
    add(Msg::StartTraffic);
    add(Msg::Flush(true));
    add(Msg::Flush(false));
    add(Msg::Close);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let g = hex::decode("046b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5").unwrap();
    let mut off = g.clone();
    off[64] ^= 1;
    for (time, group, key) in [
        (now, NamedGroup::secp256r1, g.clone()),
        (u64::MAX, NamedGroup::secp256r1, g.clone()),
        (0, NamedGroup::secp256r1, g.clone()),
        (now, NamedGroup::X25519, vec![9; 32]),
        (now, NamedGroup::Unknown(0), g.clone()),
        (now, NamedGroup::secp256r1, off),
        (now, NamedGroup::secp256r1, vec![]),
        (now, NamedGroup::secp256r1, vec![0]),
        (now, NamedGroup::secp256r1, g[..64].to_vec()),
        (now, NamedGroup::secp256r1, [&[2], &g[1..33]].concat()),
    ] {
        add(Msg::ServerHello { time, random: [4; 32], key: tls_core::key::PublicKey::new(group, &key) });
    }
    let types = [CT::Handshake, CT::ApplicationData, CT::Alert, CT::ChangeCipherSpec, CT::Heartbeat, CT::Unknown(99), CT::Unknown(22)];
    let types = &types[..if thorough { 7 } else { 3 }];
    for typ in types {
        let n = |k: usize| Some(vec![7u8; k]);
        for (len, plaintext) in [
            (0, None), (0, n(0)), (2, n(2)), (16, n(16)), (16, None), (2, n(1)), (1, n(2)), (0, n(2)), (5, None), (17, n(17)),
            (16384, None), (65536, None), (usize::MAX, None), (usize::MAX - 3, None), (usize::MAX - 20, None), (usize::MAX / 2 + 1, n(1)), (1 << 32, None), (1 << 20, n(4)),
        ] {
            add(Msg::Encrypt { typ: *typ, version: PV::TLSv1_2, len, plaintext });
        }
        add(Msg::Encrypt { typ: *typ, version: PV::Unknown(0), len: 1, plaintext: n(1) });
        for (nn, c, t) in [(8, 0, 16), (8, 1, 16), (8, 16, 16), (8, 17, 16), (0, 2, 16), (7, 2, 16), (9, 2, 16), (12, 2, 16), (8, 2, 0), (8, 2, 15), (8, 2, 17), (8, 2, 32), (0, 0, 0), (8, 4096, 16), (8, 70000, 16)] {
            add(Msg::Decrypt { typ: *typ, version: PV::TLSv1_2, explicit_nonce: vec![1; nn], ciphertext: vec![2; c], tag: vec![3; t] });
        }
        add(Msg::Decrypt { typ: *typ, version: PV::Unknown(0xffff), explicit_nonce: vec![1; 8], ciphertext: vec![2; 2], tag: vec![3; 16] });
    }
    v.push(("empty".into(), vec![]));
    v.push(("unknown kind".into(), vec![9, 0, 0, 0]));
    v.push(("endless vector".into(), vec![5, 0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 127]));
    v
}
pub fn n10(hx: &Hx) {
    hx.assume("the ZK and MPC virtual machine is ideal: its own messages are delivered unaltered");
    let bs: Vec<Base> = bases(hx.thorough()).into_iter().filter(|b| b.name.ends_with("partial") && b.name.starts_with("mpc")).collect();
    let forged = vocabulary(hx.thorough());
    hx.count("vocabulary", forged.len() as u64);
    let mut items = vec![];
    let mut recs = vec![];
    for (bi, b) in bs.iter().enumerate() {
        let mut r = match catch(|| record(b, 1)) {
            Ok(r) => r,
            Err(e) => {
                hx.case(|| format!("{} baseline", b.name), || Err(e));
                return;
            }
        };
        r.forged = forged.clone();
        let own: Vec<usize> = (0..r.sent.len()).filter(|&i| !is_priv(&r.sent[i].1)).collect();
        for &k in &own {
            for j in 0..forged.len() {
                items.push((bi, vec![(k, Act::Forge(j))]));
                items.push((bi, vec![(k, Act::ForgeFor(j))]));
            }
        }
        recs.push(std::sync::Arc::new(r));
    }
    hx.count("forged sessions", items.len() as u64);
    hx.par(&items, |(bi, acts)| {
        let b = &bs[*bi];
        let what = |a: Act| match a {
            Act::Forge(j) => format!("before it {}", forged[j].0),
            Act::ForgeFor(j) => format!("instead {}", forged[j].0),
            a => format!("{a:?}"),
        };
        hx.case(
            || format!("{} message {}: {}", b.name, acts[0].0, what(acts[0].1)),
            || {
                reset_instr();
                install(1, acts, recs[*bi].clone());
                let (o, end, steps) = crate::e2e::run(&scn_of(b), &[], 20_000)?;
                for (who, what) in &o.panics {
                    ck!(*who != "verifier" && *who != "driver_v", "{who} panics: {what}");
                }
                if let End::Livelock(l) = &end {
                    ck!(!l.contains(&"verifier"), "the verifier spins");
                }
                verifier_truth(&o, &b.sh, &b.reqs)?;
                hx.count(if ok(&o.prover) && ok(&o.verifier) { "sessions that ended well" } else { "sessions refused or stalled" }, 1);
                hx.trans(steps as u64);
                hx.state(&(bi, acts));
                Ok(())
            },
        );
    });
}
