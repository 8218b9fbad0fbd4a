//! C03: transcript proofs are sound; C04: the proof builder is complete and discloses only the query.
use crate::{partial::Wire, util::*};
use hx_lib::*;
use serde::{Deserialize, Serialize};
use tlsn_core::{
    hash::{Blinder, HashAlgId, HashProvider},
    transcript::{
        hash::{hash_plaintext, PlaintextHash, PlaintextHashSecret},
        Direction, Transcript, TranscriptCommitment, TranscriptCommitmentKind, TranscriptProof, TranscriptProofBuilder,
        TranscriptSecret,
    },
};

#[derive(Serialize, Deserialize, Clone)]
pub struct ProofWire {
    pub transcript: Wire,
    pub hash_secrets: Vec<PlaintextHashSecret>,
}

pub fn blinder(n: u8) -> Blinder {
    bincode::deserialize(&[n; 16]).unwrap()
}
pub fn alg(n: u8) -> HashAlgId {
    bincode::deserialize(&[n]).unwrap()
}
pub const D: [Direction; 2] = [Direction::Sent, Direction::Received];

/// A commitment or an opening, symbolically.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Sym {
    pub d: usize,
    pub m: u32,
    pub a: u8,
    pub b: u8,
}
impl Sym {
    pub fn secret(&self) -> PlaintextHashSecret {
        PlaintextHashSecret { direction: D[self.d], idx: set(self.m), alg: alg(self.a), blinder: blinder(self.b) }
    }
    pub fn commit(&self, p: &HashProvider, t: &Transcript) -> TranscriptCommitment {
        let src = if self.d == 0 { t.sent() } else { t.received() };
        let pt: Vec<u8> = (0..src.len()).filter(|i| self.m >> i & 1 == 1).map(|i| src[i]).collect();
        TranscriptCommitment::Hash(PlaintextHash {
            direction: D[self.d],
            idx: set(self.m),
            hash: hash_plaintext(p.get(&alg(self.a)).unwrap(), &pt, &blinder(self.b)),
        })
    }
}
fn bytes_at(t: &[u8], m: u32) -> Vec<u8> {
    (0..t.len()).filter(|i| m >> i & 1 == 1).map(|i| t[i]).collect()
}

pub fn c03(h: &Hx) {
    let p = HashProvider::default();
    let t = Transcript::new(vec![0x71, 0x72, 0x73], vec![0x51]);
    // what the verifier holds commitments to
    let com = [
        Sym { d: 0, m: 0b011, a: 1, b: 1 },
        Sym { d: 0, m: 0b110, a: 2, b: 1 },
        Sym { d: 0, m: 0b101, a: 3, b: 2 },
        Sym { d: 0, m: 0b111, a: 1, b: 2 },
        Sym { d: 1, m: 0b1, a: 2, b: 1 },
        Sym { d: 0, m: 0, a: 1, b: 1 },
        Sym { d: 1, m: 0b1, a: 1, b: 2 },
    ];
    let cs: Vec<TranscriptCommitment> = com.iter().map(|c| c.commit(&p, &t)).collect();
    // everything a prover may claim to open
    let mut pool = vec![];
    for d in 0..2 {
        for m in 0..if d == 0 { 16u32 } else { 4 } {
            for a in [0u8, 1, 2, 3, 4, 200] {
                for b in 1..=2 {
                    pool.push(Sym { d, m, a, b });
                }
            }
        }
    }
    // openings that can be right are combined in longer lists
    let good: Vec<Sym> = com.to_vec();
    let mut lists: Vec<Vec<Sym>> = vec![vec![]];
    lists.extend(pool.iter().map(|s| vec![*s]));
    let second: Vec<Sym> = pool.clone();
    for x in &pool {
        for y in &second {
            lists.push(vec![*x, *y]);
        }
    }
    for s in all_seqs(good.len(), 0, h.tier(4, 5)) {
        if s.len() >= 3 {
            lists.push(s.iter().map(|i| good[*i]).collect());
        }
    }
    h.count("opening_lists", lists.len() as u64);
    let lens = [(3u32, 1u32), (2, 1), (4, 1), (3, 0), (3, 2), (0, 0)];
    h.par(&lists, |l| {
        for am in 0..8u32 {
            for rm in 0..2u32 {
                // the prover reveals the genuine bytes, or lies in one of them
                for lie in 0..=4u32 {
                    if lie > 0 && lie < 4 && am >> (lie - 1) & 1 == 0 || lie == 4 && rm == 0 {
                        continue;
                    }
                    let mut s = t.sent().to_vec();
                    let mut r = t.received().to_vec();
                    match lie {
                        0 => {}
                        4 => r[0] ^= 0x10,
                        i => s[i as usize - 1] ^= 0x10,
                    }
                    let w = ProofWire {
                        transcript: Wire {
                            sent_authed: bytes_at(&s, am),
                            received_authed: bytes_at(&r, rm),
                            sent_idx: set(am),
                            recv_idx: set(rm),
                            sent_total: 3,
                            recv_total: 1,
                        },
                        hash_secrets: l.iter().map(|x| x.secret()).collect(),
                    };
                    // positions which are not authenticated decode as zero
                    let clear = |v: &[u8], m: u32| -> Vec<u8> { (0..v.len()).map(|i| if m >> i & 1 == 1 { v[i] } else { 0 }).collect() };
                    let (cs_, cr_) = (clear(&s, am), clear(&r, rm));
                    for (k, len) in lens.iter().enumerate() {
                        if k > 0 && (lie > 0 || l.len() > 1) {
                            continue;
                        }
                        h.case(|| format!("open/{l:?}/{am:b}/{rm}/{lie}/{k}"), || {
                            let pr: TranscriptProof = bincode::deserialize(&bincode::serialize(&w).unwrap()).map_err(|e| e.to_string())?;
                            let tl = bincode::deserialize(&bincode::serialize(&(len.0, len.1)).unwrap()).unwrap();
                            let got = pr.verify_with_provider(&p, &tl, &cs);
                            let opens = l.iter().all(|o| {
                                com.contains(o)
                                    && if o.d == 0 { bytes_at(&cs_, o.m) == bytes_at(t.sent(), o.m) } else { bytes_at(&cr_, o.m) == bytes_at(t.received(), o.m) }
                            });
                            let un = |d: usize| l.iter().filter(|o| o.d == d).fold(0, |a, o| a | o.m);
                            let ok = *len == (3, 1) && opens && un(0) == am && un(1) == rm;
                            ck_eq!(got.is_ok(), ok, "accepted");
                            if let Ok(g) = got {
                                h.state(&(am, rm, l));
                                ck_eq!(bits_of(g.sent_authed()), am, "sent index");
                                ck_eq!(bits_of(g.received_authed()), rm, "received index");
                                for i in 0..3 {
                                    ck!(am >> i & 1 == 0 || g.sent_unsafe()[i] == t.sent()[i], "sent byte {i} is not the committed one");
                                }
                                ck!(rm == 0 || g.received_unsafe()[0] == t.received()[0], "received byte");
                            }
                            Ok(())
                        });
                        h.trans(1);
                    }
                }
            }
        }
    });
    // commitments to other plaintext, direction, index or under another algorithm never match
    let o = Sym { d: 0, m: 0b011, a: 1, b: 1 };
    for subset in 0..1u32 << cs.len() {
        let sel: Vec<&TranscriptCommitment> = (0..cs.len()).filter(|i| subset >> i & 1 == 1).map(|i| &cs[i]).collect();
        h.case(|| format!("held/{subset:b}"), || {
            let w = ProofWire {
                transcript: Wire { sent_authed: bytes_at(t.sent(), 3), received_authed: vec![], sent_idx: set(3), recv_idx: set(0), sent_total: 3, recv_total: 1 },
                hash_secrets: vec![o.secret()],
            };
            let pr: TranscriptProof = bincode::deserialize(&bincode::serialize(&w).unwrap()).map_err(|e| e.to_string())?;
            ck_eq!(pr.verify_with_provider(&p, &t.length(), sel).is_ok(), subset & 1 == 1, "accepted with held commitments");
            Ok(())
        });
    }
    for d2 in 0..2usize {
        for m2 in 0..16u32 {
            for a2 in 1..=3u8 {
                for b2 in 1..=2u8 {
                    for v in 0..2 {
                        h.case(|| format!("other/{d2}/{m2:b}/{a2}/{b2}/{v}"), || {
                            // a commitment with those labels over the bytes the opening covers
                            let mut pt = bytes_at(t.sent(), 3);
                            if v == 1 {
                                pt[0] ^= 1;
                            }
                            let c = TranscriptCommitment::Hash(PlaintextHash {
                                direction: D[d2],
                                idx: set(m2),
                                hash: hash_plaintext(p.get(&alg(a2)).unwrap(), &pt, &blinder(b2)),
                            });
                            let w = ProofWire {
                                transcript: Wire { sent_authed: bytes_at(t.sent(), 3), received_authed: vec![], sent_idx: set(3), recv_idx: set(0), sent_total: 3, recv_total: 1 },
                                hash_secrets: vec![o.secret()],
                            };
                            let pr: TranscriptProof = bincode::deserialize(&bincode::serialize(&w).unwrap()).map_err(|e| e.to_string())?;
                            ck_eq!(pr.verify_with_provider(&p, &t.length(), [&c]).is_ok(), (d2, m2, a2, b2, v) == (0, 3, 1, 1, 0), "accepted");
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // boundary between data and blinder does not move: H(m | b) with a byte shifted is another commitment
    h.assume("collision resistance of the three hash algorithms");
}

fn kinds(ks: &[u8]) -> Vec<TranscriptCommitmentKind> {
    ks.iter().map(|k| TranscriptCommitmentKind::Hash { alg: alg(*k) }).collect()
}

/// Builds a proof and compares it with the reference.
fn build(h: &Hx, p: &HashProvider, t: &Transcript, t2: &Transcript, syms: &[Sym], q: [u32; 2], pref: Option<&[u8]>) -> R {
    let secrets: Vec<TranscriptSecret> = syms.iter().map(|s| TranscriptSecret::Hash(s.secret())).collect();
    let committed = |d: usize| syms.iter().filter(|s| s.d == d).fold(0, |a, s| a | s.m);
    let order: Vec<u8> = match pref {
        None | Some([]) => vec![1, 2, 3],
        Some(k) => {
            let mut o = vec![];
            for x in k {
                if !o.contains(x) {
                    o.push(*x);
                }
            }
            o
        }
    };
    let run = |t: &Transcript| -> Result<Option<TranscriptProof>, String> {
        let mut b = TranscriptProofBuilder::new(t, &secrets);
        if let Some(k) = pref {
            b.commitment_kinds(&kinds(k));
        }
        for d in 0..2 {
            let r = b.reveal(&set(q[d]), D[d]).is_ok();
            ck_eq!(r, q[d] & !committed(d) == 0, "reveal of committed ranges in direction {d}");
            if !r {
                return Ok(None);
            }
        }
        Ok(b.build().ok())
    };
    // reference: what the allowed kinds can open without disclosing more than asked
    let cover = |d: usize, ks: &[u8]| syms.iter().filter(|s| s.d == d && ks.contains(&s.a) && s.m & !q[d] == 0).fold(0, |a, s| a | s.m);
    let revealable = (0..2).all(|d| q[d] & !committed(d) == 0);
    let ok = revealable && (0..2).all(|d| cover(d, &order) == q[d]);
    let got = run(t)?;
    ck_eq!(got.is_some(), ok, "proof built");
    let Some(pr) = got else { return Ok(()) };
    let enc = bincode::serialize(&pr).map_err(|e| e.to_string())?;
    let w: ProofWire = bincode::deserialize(&enc).map_err(|e| e.to_string())?;
    ck_eq!(bits_of(&w.transcript.sent_idx), q[0], "sent disclosure");
    ck_eq!(bits_of(&w.transcript.recv_idx), q[1], "received disclosure");
    for s in &w.hash_secrets {
        let d = if s.direction == Direction::Sent { 0 } else { 1 };
        let a = s.alg.as_u8();
        let pos = order.iter().position(|x| *x == a);
        ck!(pos.is_some(), "opened a commitment of kind {a}, which is not allowed");
        ck!(bits_of(&s.idx) & !q[d] == 0, "opened a commitment reaching outside the query");
        ck!(cover(d, &order[..pos.unwrap()]) != q[d], "opened kind {a} although preferred kinds suffice");
        ck!(
            syms.iter().any(|x| x.d == d && x.a == a && x.m == bits_of(&s.idx) && [x.b; 16] == *s.blinder.as_bytes()),
            "opened something that was not committed"
        );
    }
    // disclosing the same bytes of a different transcript gives the same proof
    let enc2 = bincode::serialize(&run(t2)?.ok_or("same query refused on another transcript")?).unwrap();
    ck!(enc == enc2, "the proof depends on bytes that are not disclosed");
    // and the verifier ends up with exactly the query
    let cs: Vec<TranscriptCommitment> = syms.iter().map(|s| s.commit(p, t)).collect();
    let v = pr.verify_with_provider(p, &t.length(), &cs).map_err(|e| format!("built proof does not verify: {e}"))?;
    ck_eq!((bits_of(v.sent_authed()), bits_of(v.received_authed())), (q[0], q[1]), "verified index");
    for i in 0..t.sent().len() {
        ck_eq!(v.sent_unsafe()[i], if q[0] >> i & 1 == 1 { t.sent()[i] } else { 0 }, "sent byte {i}");
    }
    for i in 0..t.received().len() {
        ck_eq!(v.received_unsafe()[i], if q[1] >> i & 1 == 1 { t.received()[i] } else { 0 }, "received byte {i}");
    }
    h.state(&(syms, q, pref));
    Ok(())
}

/// `t` with every byte outside `q` replaced.
fn other(t: &Transcript, q: [u32; 2]) -> Transcript {
    let f = |v: &[u8], m: u32| (0..v.len()).map(|i| if m >> i & 1 == 1 { v[i] } else { v[i] ^ 0x80 }).collect::<Vec<_>>();
    Transcript::new(f(t.sent(), q[0]), f(t.received(), q[1]))
}

pub fn c04(h: &Hx) {
    let p = HashProvider::default();
    let n = h.tier(4usize, 5);
    let t = Transcript::new((0..n as u8).map(|i| 0x11 + i).collect::<Vec<_>>(), vec![0x51, 0x52]);
    let prefs: Vec<Option<Vec<u8>>> =
        [None, Some(vec![]), Some(vec![1]), Some(vec![3]), Some(vec![2, 1]), Some(vec![3, 3, 1, 2]), Some(vec![1, 2, 3]), Some(vec![3, 2, 1])].to_vec();
    // families of commitments in one direction
    let mut atoms = vec![];
    for m in 1..=full(n) {
        for a in 1..=3 {
            atoms.push((m, a));
        }
    }
    let mut fams: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..atoms.len() {
        fams.push(vec![i]);
        for j in i..atoms.len() {
            fams.push(vec![i, j]);
            for k in j + 1..atoms.len() {
                fams.push(vec![j, i, k]);
            }
        }
    }
    h.count("commitment_families", fams.len() as u64);
    h.par(&fams, |f| {
        for d in 0..2usize {
            if d == 1 && (f.len() > 2 || f.iter().any(|i| atoms[*i].0 > 3)) {
                continue;
            }
            let syms: Vec<Sym> = f.iter().enumerate().map(|(x, i)| Sym { d, m: atoms[*i].0, a: atoms[*i].1, b: x as u8 + 1 }).collect();
            for m in 0..=full(if d == 0 { n } else { 2 }) {
                let mut q = [0, 0];
                q[d] = m;
                let t2 = other(&t, q);
                for (pi, pf) in prefs.iter().enumerate() {
                    h.case(|| format!("fam/{d}/{f:?}/{m:b}/{pi}"), || build(h, &p, &t, &t2, &syms, q, pf.as_deref()));
                    h.trans(1);
                }
            }
        }
    });
    // both directions at once: what is committed in one says nothing about the other
    let mut two: Vec<Vec<Sym>> = vec![];
    let pool: Vec<Sym> = (0..2).flat_map(|d| (1..4u32).flat_map(move |m| (1..=2u8).map(move |a| Sym { d, m, a, b: 7 }))).collect();
    for s in all_seqs(pool.len(), 0, h.tier(3, 4)) { two.push(s.iter().map(|i| pool[*i]).collect()) }
    let t = Transcript::new(vec![0x11, 0x12], vec![0x51, 0x52]);
    h.par(&two, |syms| {
        for qs in 0..4 {
            for qr in 0..4 {
                let q = [qs, qr];
                let t2 = other(&t, q);
                for (pi, pf) in prefs.iter().enumerate() {
                    h.case(|| format!("both/{syms:?}/{qs:b}/{qr:b}/{pi}"), || build(h, &p, &t, &t2, syms, q, pf.as_deref()));
                    h.trans(1);
                }
            }
        }
    });
    // ranges beyond the transcript are refused whatever is committed; queries accumulate over calls
    let t = Transcript::new(vec![0x11, 0x12, 0x13], vec![0x51, 0x52]);
    for d in 0..2usize {
        let len = 3 - d;
        let all = [Sym { d, m: full(5), a: 2, b: 1 }, Sym { d, m: full(len), a: 2, b: 1 }];
        for m in 0..32u32 {
            for s in &all {
                h.case(|| format!("oob/{d}/{m:b}/{:b}", s.m), || {
                    let sec = [TranscriptSecret::Hash(s.secret())];
                    let mut b = TranscriptProofBuilder::new(&t, &sec);
                    let r = if d == 0 { b.reveal_sent(&set(m)).is_ok() } else { b.reveal_recv(&set(m)).is_ok() };
                    ck_eq!(r, m & !full(len) == 0, "reveal within bounds");
                    Ok(())
                });
            }
        }
        let atoms: Vec<Sym> = (0..len as u32).map(|i| Sym { d, m: 1 << i, a: 2, b: 1 + i as u8 }).collect();
        let secs: Vec<TranscriptSecret> = atoms.iter().map(|s| TranscriptSecret::Hash(s.secret())).collect();
        for qs in &all_seqs(8, 0, 3) {
            h.case(|| format!("acc/{d}/{qs:?}"), || {
                let mut b = TranscriptProofBuilder::new(&t, &secs);
                let mut want = 0;
                for q in qs {
                    let ok = *q as u32 & !full(len) == 0;
                    ck_eq!(b.reveal(&set(*q as u32), D[d]).is_ok(), ok, "reveal {q:b}");
                    if ok {
                        want |= *q as u32;
                    }
                }
                let pr = b.build().map_err(|e| e.to_string())?;
                let w: ProofWire = bincode::deserialize(&bincode::serialize(&pr).unwrap()).unwrap();
                let got = [bits_of(&w.transcript.sent_idx), bits_of(&w.transcript.recv_idx)];
                ck_eq!(got[d], want, "accumulated query");
                ck_eq!(got[1 - d], 0, "other direction");
                Ok(())
            });
            h.trans(1);
        }
    }
}
