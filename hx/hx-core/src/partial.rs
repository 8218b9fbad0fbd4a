//! C01: partial transcripts; C02: validated decoding.
use crate::util::*;
use hx_lib::*;
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use tlsn_core::transcript::{Direction, PartialTranscript, Subsequence, Transcript};

const D: [Direction; 2] = [Direction::Sent, Direction::Received];

/// What the wire carries: exactly the revealed bytes, their index and the lengths.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Wire {
    pub sent_authed: Vec<u8>,
    pub received_authed: Vec<u8>,
    pub sent_idx: RangeSet<usize>,
    pub recv_idx: RangeSet<usize>,
    pub sent_total: usize,
    pub recv_total: usize,
}

/// One byte position: value and whether it is authenticated.
type M = [Vec<(u8, bool)>; 2];

fn mask(m: &M, d: usize) -> u32 {
    m[d].iter().enumerate().filter(|(_, c)| c.1).fold(0, |a, (i, _)| a | 1 << i)
}
fn revealed(m: &M, d: usize) -> Vec<u8> {
    m[d].iter().filter(|c| c.1).map(|c| c.0).collect()
}

fn observe(p: &PartialTranscript, m: &M) -> R {
    ck_eq!(p.len_sent(), m[0].len(), "len_sent");
    ck_eq!(p.len_received(), m[1].len(), "len_received");
    ck_eq!(p.is_complete(), m.iter().flatten().all(|c| c.1), "is_complete");
    for (d, dir) in D.into_iter().enumerate() {
        let (data, auth, un) = match d {
            0 => (p.sent_unsafe(), p.sent_authed(), p.sent_unauthed()),
            _ => (p.received_unsafe(), p.received_authed(), p.received_unauthed()),
        };
        ck_eq!(data, m[d].iter().map(|c| c.0).collect::<Vec<_>>(), "{dir} data");
        ck_eq!(bits_of(auth), mask(m, d), "{dir} authed");
        ck_eq!(bits_of(&un), full(m[d].len()) & !mask(m, d), "{dir} unauthed");
        ck_eq!(p.iter(dir).collect::<Vec<_>>(), revealed(m, d), "{dir} iter");
        for q in 0..1u32 << (m[d].len() + 2) {
            ck_eq!(p.contains(dir, &set(q)), q & !full(m[d].len()) == 0, "{dir} contains {q:b}");
        }
    }
    let b = bincode::serialize(p).map_err(|e| e.to_string())?;
    let w: Wire = bincode::deserialize(&b).map_err(|e| format!("wire form: {e}"))?;
    let want = Wire {
        sent_authed: revealed(m, 0),
        received_authed: revealed(m, 1),
        sent_idx: set(mask(m, 0)),
        recv_idx: set(mask(m, 1)),
        sent_total: m[0].len(),
        recv_total: m[1].len(),
    };
    ck_eq!(w, want, "encoded form");
    ck_eq!(b, bincode::serialize(&want).unwrap(), "encoded bytes");
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Union(usize, u32, u32),
    Seq(usize, usize, u32),
    Fill(u8),
    FillRange(u8, usize, usize, usize),
    Serde,
}

fn step(p: &mut PartialTranscript, m: &mut M, op: &Op, ts: &[Transcript; 2]) -> R {
    match *op {
        Op::Union(t, a, b) => {
            let o = ts[t].to_partial(set(a), set(b));
            p.union_transcript(&o);
            for (d, msk) in [(0, a), (1, b)] {
                let src = if d == 0 { ts[t].sent() } else { ts[t].received() };
                for i in 0..m[d].len() {
                    if msk >> i & 1 == 1 && !m[d][i].1 {
                        m[d][i] = (src[i], true);
                    }
                }
            }
        }
        Op::Seq(t, d, a) => {
            let s = ts[t].get(D[d], &set(a)).ok_or("get refused a contained index")?;
            let src = if d == 0 { ts[t].sent() } else { ts[t].received() };
            let want: Vec<u8> = (0..src.len()).filter(|i| a >> i & 1 == 1).map(|i| src[i]).collect();
            ck_eq!(s.data(), &want[..], "subsequence data");
            ck_eq!(bits_of(s.index()), a, "subsequence index");
            ck_eq!(s.len(), want.len(), "subsequence length");
            p.union_subsequence(D[d], &s);
            for i in 0..m[d].len() {
                if a >> i & 1 == 1 {
                    m[d][i] = (src[i], true);
                }
            }
        }
        Op::Fill(v) => {
            p.set_unauthed(v);
            m.iter_mut().flatten().filter(|c| !c.1).for_each(|c| c.0 = v);
        }
        Op::FillRange(v, d, s, e) => {
            p.set_unauthed_range(v, D[d], s..e);
            m[d][s..e].iter_mut().filter(|c| !c.1).for_each(|c| c.0 = v);
        }
        Op::Serde => {
            let b = bincode::serialize(p).map_err(|e| e.to_string())?;
            *p = bincode::deserialize(&b).map_err(|e| format!("round trip: {e}"))?;
            m.iter_mut().flatten().filter(|c| !c.1).for_each(|c| c.0 = 0);
        }
    }
    Ok(())
}

/// Breadth-first search over every reachable partial transcript of the given lengths.
fn closure(h: &Hx, ls: usize, lr: usize) {
    let ts = [
        Transcript::new((0..ls).map(|i| 0x11 + i as u8).collect::<Vec<_>>(), (0..lr).map(|i| 0x51 + i as u8).collect::<Vec<_>>()),
        Transcript::new((0..ls).map(|i| 0x91 + i as u8).collect::<Vec<_>>(), (0..lr).map(|i| 0xd1 + i as u8).collect::<Vec<_>>()),
    ];
    let mut ops = vec![Op::Serde, Op::Fill(0), Op::Fill(0x58)];
    for t in 0..2 {
        for a in 0..=full(ls) {
            ops.push(Op::Seq(t, 0, a));
            for b in 0..=full(lr) {
                ops.push(Op::Union(t, a, b));
            }
        }
        for b in 0..=full(lr) {
            ops.push(Op::Seq(t, 1, b));
        }
    }
    for (d, n) in [(0, ls), (1, lr)] {
        for s in 0..=n {
            for e in s..=n {
                ops.push(Op::FillRange(0x59, d, s, e));
            }
        }
    }
    let init: M = [vec![(0, false); ls], vec![(0, false); lr]];
    let mut seen: HashMap<M, (PartialTranscript, String)> = HashMap::new();
    let mut level: VecDeque<(M, PartialTranscript, String)> = VecDeque::new();
    let p0 = PartialTranscript::new(ls, lr);
    h.case(|| format!("{ls},{lr}/new"), || observe(&p0, &init));
    seen.insert(init.clone(), (p0.clone(), "new".into()));
    level.push_back((init, p0, String::new()));
    while !level.is_empty() && !h.violated() {
        let cur: Vec<_> = level.drain(..).collect();
        let out = std::sync::Mutex::new(vec![]);
        h.par(&cur, |(m, p, path)| {
            h.state(&(ls, lr, m));
            let mut loc = vec![];
            for (k, op) in ops.iter().enumerate() {
                let (mut m2, mut p2) = (m.clone(), p.clone());
                let key = format!("{path}.{k}");
                if h.case(|| format!("{ls},{lr}/{key}"), || {
                    step(&mut p2, &mut m2, op, &ts).map_err(|e| format!("{op:?}: {e}"))?;
                    observe(&p2, &m2).map_err(|e| format!("{op:?}: {e}"))
                }) {
                    loc.push((m2, p2, key));
                }
            }
            h.trans(ops.len() as u64);
            out.lock().unwrap().extend(loc);
        });
        let mut o = out.into_inner().unwrap();
        o.sort_by(|a, b| a.2.cmp(&b.2));
        for (m, p, path) in o {
            if !seen.contains_key(&m) {
                seen.insert(m.clone(), (p.clone(), path.clone()));
                level.push_back((m, p, path));
            }
        }
    }
    h.count("operations", ops.len() as u64);
}

pub fn c01(h: &Hx) {
    for (ls, lr) in h.tier(vec![(0, 0), (1, 1), (4, 0), (0, 4), (2, 2), (3, 1)], vec![(0, 0), (1, 1), (5, 0), (0, 5), (3, 2), (2, 3), (4, 1), (1, 4)]) {
        closure(h, ls, lr);
    }
    // every transcript and disclosure of it hides the rest, whatever it is
    let n = h.tier(7usize, 8);
    let jobs: Vec<(usize, usize)> = (0..=n).flat_map(|a| (0..=n.min(4)).map(move |b| (a, b))).collect();
    h.par(&jobs, |&(ls, lr)| {
        let t = Transcript::new((0..ls).map(|i| 0x80 | i as u8).collect::<Vec<_>>(), (0..lr).map(|i| 0xc0 | i as u8).collect::<Vec<_>>());
        h.case(|| format!("len/{ls},{lr}"), || {
            ck_eq!(t.len(), (ls, lr), "len");
            ck_eq!((t.length().sent as usize, t.length().received as usize), (ls, lr), "length");
            for (d, n) in [(Direction::Sent, ls), (Direction::Received, lr)] {
                for q in 0..1u32 << (n + 2) {
                    ck_eq!(t.get(d, &set(q)).is_some(), q & !full(n) == 0, "get {d} {q:b}");
                }
            }
            Ok(())
        });
        for a in 0..=full(ls) {
            for b in 0..=full(lr) {
                h.case(|| format!("hide/{ls},{lr}/{a:b},{b:b}"), || {
                    let p = t.to_partial(set(a), set(b));
                    let m: M = [
                        (0..ls).map(|i| if a >> i & 1 == 1 { (0x80 | i as u8, true) } else { (0, false) }).collect(),
                        (0..lr).map(|i| if b >> i & 1 == 1 { (0xc0 | i as u8, true) } else { (0, false) }).collect(),
                    ];
                    h.state(&("p", ls, lr, a, b));
                    observe(&p, &m)
                });
                h.trans(1);
            }
        }
    });
}

#[derive(Serialize)]
struct SubWire {
    idx: RangeSet<usize>,
    data: Vec<u8>,
}

pub fn c02(h: &Hx) {
    // every combination of index, data length and total
    let nb = h.tier(6usize, 8);
    let idx: Vec<u32> = (0..=full(nb)).collect();
    h.par(&idx, |&a| {
        for b in [0u32, 1, 2, 5, full(nb)] {
            for (la, lb) in product2(nb + 2, nb + 2) {
                for ta in 0..=nb + 1 {
                    for tb in [0usize, 1, 3, nb] {
                        let w = Wire {
                            sent_authed: (0..la).map(|i| i as u8 + 1).collect(),
                            received_authed: (0..lb).map(|i| i as u8 + 0x41).collect(),
                            sent_idx: set(a),
                            recv_idx: set(b),
                            sent_total: ta,
                            recv_total: tb,
                        };
                        h.case(|| format!("wire/{a:b}/{b:b}/{la},{lb},{ta},{tb}"), || {
                            let top = |m: u32| 32 - m.leading_zeros() as usize;
                            let ok = la == a.count_ones() as usize && lb == b.count_ones() as usize && ta >= top(a) && tb >= top(b);
                            let r: Result<PartialTranscript, _> = bincode::deserialize(&bincode::serialize(&w).unwrap());
                            ck_eq!(r.is_ok(), ok, "accepted");
                            if let Ok(p) = r {
                                h.state(&(a, b, ta, tb));
                                let mut m: M = [vec![(0, false); ta], vec![(0, false); tb]];
                                let mut k = 0;
                                for i in 0..ta {
                                    if a >> i & 1 == 1 {
                                        k += 1;
                                        m[0][i] = (k, true);
                                    }
                                }
                                let mut k = 0x40;
                                for i in 0..tb {
                                    if b >> i & 1 == 1 {
                                        k += 1;
                                        m[1][i] = (k, true);
                                    }
                                }
                                observe(&p, &m)?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
        h.trans(1);
        for la in 0..nb + 3 {
            h.case(|| format!("sub/{a:b}/{la}"), || {
                let data: Vec<u8> = (0..la).map(|i| i as u8 + 1).collect();
                let ok = la == a.count_ones() as usize;
                ck_eq!(Subsequence::new(set(a), data.clone()).is_ok(), ok, "Subsequence::new");
                let b = bincode::serialize(&SubWire { idx: set(a), data: data.clone() }).unwrap();
                let r: Result<Subsequence, _> = bincode::deserialize(&b);
                ck_eq!(r.is_ok(), ok, "decoded");
                if let Ok(s) = r {
                    ck_eq!(bincode::serialize(&s).unwrap(), b, "re-encoding");
                    ck_eq!(s.clone().into_parts(), (set(a), data), "parts");
                }
                Ok(())
            });
        }
    });
    // every single-byte change of an encoded partial transcript: rejected, or well formed
    let t = Transcript::new(b"GET /x HTTP/1.1".to_vec(), b"200 ok".to_vec());
    let base = bincode::serialize(&t.to_partial(set(0b0110_0111), set(0b1011))).unwrap();
    let pos: Vec<usize> = (0..base.len()).collect();
    h.par(&pos, |&i| {
        for x in 1..=255u8 {
            let mut b = base.clone();
            b[i] ^= x;
            // a total of 2^24 and more is a resource question, see the huge-length cases
            if let Ok(w) = bincode::deserialize::<Wire>(&b) {
                if w.sent_total > 1 << 24 || w.recv_total > 1 << 24 {
                    continue;
                }
            }
            h.case(|| format!("mut/{i}/{x:02x}"), || {
                let r: Result<PartialTranscript, _> = bincode::deserialize(&b);
                if let Ok(p) = r {
                    let e = bincode::serialize(&p).map_err(|e| e.to_string())?;
                    let w: Wire = bincode::deserialize(&e).map_err(|e| e.to_string())?;
                    ck_eq!(w.sent_authed.len(), w.sent_idx.iter().map(|r| r.len()).sum::<usize>(), "sent length");
                    ck_eq!(w.received_authed.len(), w.recv_idx.iter().map(|r| r.len()).sum::<usize>(), "received length");
                    ck!(w.sent_idx.end().unwrap_or(0) <= w.sent_total && w.recv_idx.end().unwrap_or(0) <= w.recv_total, "bounds");
                    ck_eq!(p.iter(Direction::Sent).collect::<Vec<_>>(), w.sent_authed, "sent data");
                    ck_eq!(p.iter(Direction::Received).collect::<Vec<_>>(), w.received_authed, "received data");
                }
                Ok(())
            });
        }
        h.trans(255);
    });
    // every truncation is refused
    for n in 0..base.len() {
        h.case(|| format!("trunc/{n}"), || {
            ck!(bincode::deserialize::<PartialTranscript>(&base[..n]).is_err(), "truncated encoding accepted");
            Ok(())
        });
    }
    // declared lengths beyond what a transcript can have
    // (the largest first: if those are not refused, smaller ones would exhaust memory)
    for n in [usize::MAX, 1 << 63, 1 << 62, 1 << 48, 1 << 40, (1 << 32) + 1, 1 << 32] {
        for d in 0..2 {
            let w = Wire {
                sent_authed: vec![],
                received_authed: vec![],
                sent_idx: set(0),
                recv_idx: set(0),
                sent_total: if d == 0 { n } else { 0 },
                recv_total: if d == 1 { n } else { 0 },
            };
            if !h.case(|| format!("huge/{d}/{n:x}"), || {
                ck!(bincode::deserialize::<PartialTranscript>(&bincode::serialize(&w).unwrap()).is_err(), "accepted");
                Ok(())
            }) {
                return;
            }
        }
    }
    h.assume("declared totals between 2^24 and 2^32 bytes are not decoded (memory)");
}
fn product2(a: usize, b: usize) -> Vec<(usize, usize)> {
    (0..a).flat_map(|x| (0..b).map(move |y| (x, y))).collect()
}
