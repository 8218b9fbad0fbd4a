//! N03: a prover that deviates from the protocol.
use crate::{e2e::*, nd::*, np::is_priv, sched::End};
use hx_lib::*;
use mpz::ideal_vm::{reset_instr, Ev, INSTR};
use std::rc::Rc;
use tlsn::transcript::{ContentType, Direction, TranscriptCommitment, TranscriptSecret};

/// (type, body) of the records in a byte stream.
pub fn wire_records(b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    let mut at = 0;
    while at + 5 <= b.len() {
        let n = u16::from_be_bytes([b[at + 3], b[at + 4]]) as usize;
        if at + 5 + n > b.len() {
            break;
        }
        v.push((b[at], b[at + 5..at + 5 + n].to_vec()));
        at += 5 + n;
    }
    v
}
/// Encrypted records: after the change cipher spec.
pub fn protected(b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let r = wire_records(b);
    match r.iter().position(|x| x.0 == 20) {
        Some(i) => r[i + 1..].to_vec(),
        None => vec![],
    }
}
/// Whatever the verifier accepted is true of the connection the server took part in.
pub fn verifier_truth(o: &Out, sh: &Shape, reqs: &[Req]) -> Result<usize, String> {
    truth(o, sh, reqs, o.srv_read.len())
}
/// `seen`: how much of what the prover's application wrote counts as sent.
pub fn truth(o: &Out, sh: &Shape, reqs: &[Req], seen: usize) -> Result<usize, String> {
    let (ts, tr) = (sh.sent_all(), sh.recv_all());
    let mut accepted = 0;
    if let Some(Ok(v)) = &o.verifier {
        accepted += 1;
        let cr = &o.keylog.first().ok_or("the verifier accepts a connection the server never completed")?.1;
        let tlsn::connection::CertBinding::V1_2(b) = v.certificate_binding() else { return Err("binding version".into()) };
        ck_eq!(&b.client_random[..], &cr[..], "client random");
        for (recs, raw, what) in [(v.recv(), protected(&o.srv_raw.0), "received"), (v.sent(), protected(&o.srv_raw.1), "sent")] {
            let n = if what == "received" { recs.len() } else { recs.len().min(raw.len()) };
            ck!(n <= raw.len(), "the verifier holds {n} records {what}, the server saw {}", raw.len());
            for i in 0..n {
                let typ = match recs[i].typ {
                    ContentType::ChangeCipherSpec => 20,
                    ContentType::Alert => 21,
                    ContentType::Handshake => 22,
                    ContentType::ApplicationData => 23,
                    _ => 0,
                };
                // What the prover sends may still be withheld or spoilt on its way; only what the
                // server accepted counts.
                if what == "sent" && (typ != 23 || o.srv_read.len() < ts.len()) {
                    continue;
                }
                let body = &raw[i].1;
                let mine = [&recs[i].explicit_nonce[..], &recs[i].ciphertext, recs[i].tag.as_deref().unwrap_or(&body[body.len() - 16..])].concat();
                ck_eq!((typ, &mine), (raw[i].0, body), "record {i} {what}");
                ck_eq!(recs[i].seq, i as u64, "sequence number");
            }
        }
    }
    for v in o.outputs.iter().flatten() {
        accepted += 1;
        if let Some(n) = &v.server_name {
            ck!(n.to_string().eq_ignore_ascii_case("test-server.io"), "the verifier accepts the name {n}");
        }
        if let Some(t) = &v.transcript {
            for (set, data, truth, what) in [(t.sent_authed(), t.sent_unsafe(), &ts[..seen.min(ts.len())], "sent"), (t.received_authed(), t.received_unsafe(), &tr[..], "received")] {
                for p in positions(set) {
                    ck!(p < truth.len(), "the verifier accepts {what} byte {p}, which does not exist");
                    ck_eq!(data[p], truth[p], "the verifier accepts {what} byte {p}");
                }
            }
        }
        for c in &v.transcript_commitments {
            let TranscriptCommitment::Hash(h) = c else { continue };
            let src = if h.direction == Direction::Sent { &ts } else { &tr };
            let mut m = vec![];
            for p in positions(&h.idx) {
                m.push(*src.get(p).ok_or_else(|| format!("the verifier accepts a commitment to byte {p}"))?);
            }
            // It must be the hash of those bytes under some blinder of the prover's, of which
            // single bits may have been altered on the way.
            let mut ok = false;
            for s in o.proofs.iter().flatten().flat_map(|p| &p.transcript_secrets) {
                let TranscriptSecret::Hash(s) = s else { continue };
                let b = s.blinder.as_bytes();
                for k in 0..=128 {
                    let mut b = b.to_vec();
                    if k < 128 {
                        b[k / 8] ^= 1 << (k % 8);
                    }
                    ok |= digest(h.hash.alg.as_u8(), &[&m[..], &b].concat()) == h.hash.value.as_bytes();
                }
            }
            // The prover's own secrets are lost when it stops early.
            ck!(ok || o.proofs.iter().flatten().count() == 0, "commitment to {:?} {:?} is to other data", h.direction, positions(&h.idx));
        }
    }
    let _ = reqs;
    Ok(accepted)
}
/// A tampering: (frame of the prover, byte, mask).
pub type Tamper = (usize, usize, u8);
pub fn with_tamper(party: u64, t: Tamper) {
    INSTR.with(|i| {
        i.borrow_mut().on_frame = Some(Box::new(move |p, n, f| {
            if p == party && n == t.0 && t.1 < f.len() {
                f[t.1] ^= t.2;
            }
        }))
    })
}
pub struct Base {
    pub name: String,
    pub mi: usize,
    pub sh: Shape,
    pub reqs: Vec<Req>,
}
pub fn bases(all: bool) -> Vec<Base> {
    let mut v = vec![];
    for mi in if all { vec![0, 1, 2, 3] } else { vec![0, 3] } {
        let m = modes()[mi].0;
        let sh = Shape::of(&[5], &[4, 3]);
        v.push(Base {
            name: format!("{m} partial"),
            mi,
            sh: sh.clone(),
            reqs: vec![Req { ident: true, reveal: Some((vec![0, 1], vec![2, 3, 6])), commit: vec![(true, vec![1, 2, 3], 1), (false, vec![0, 1, 2], 2)] }],
        });
        v.push(Base {
            name: format!("{m} full"),
            mi,
            sh,
            reqs: vec![Req { ident: true, reveal: Some(((0..5).collect(), (0..7).collect())), commit: vec![(false, vec![1, 2, 3], 1)] }],
        });
    }
    v
}
pub fn scn_of(b: &Base) -> Scn {
    let (_, mode, online) = modes().swap_remove(b.mi);
    let mut scn = b.sh.scn(mode, online);
    let rq = b.reqs.clone();
    scn.accept_prove = vec![true; rq.len()];
    scn.prove = Rc::new(move |p| rq.iter().map(|r| config(p.transcript(), r)).collect());
    scn
}
/// Lengths of the frames a party sends in the untampered run: (ideal functionality's?, length).
pub fn frames(b: &Base, party: u64) -> Result<Vec<(bool, usize)>, String> {
    reset_instr();
    INSTR.with(|i| i.borrow_mut().record = true);
    let (o, end, _) = crate::e2e::run(&scn_of(b), &[], 400_000)?;
    ck_eq!(end, End::Done, "baseline");
    check(&o, &b.sh, &b.reqs)?;
    let ev = INSTR.with(|i| std::mem::take(&mut i.borrow_mut().events));
    Ok(ev.iter().filter_map(|e| if let Ev::Frame(p, f) = e { (*p == party).then(|| (is_priv(f), f.len())) } else { None }).collect())
}
/// Positions to alter: all of every message; of the two long runs of field elements of the
/// tag protocol, a byte of each element.
pub fn positions_of(fr: &[(bool, usize)], thorough: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, (_, len)) in fr.iter().enumerate() {
        if *len > 8192 {
            let n = if thorough { len / 16 } else { 40 };
            v.extend((0..16.min(*len)).map(|b| (i, b)));
            v.extend((1..n).map(|k| (i, (17 + k * 16 + k % 16).min(len - 1))));
            continue;
        }
        v.extend((0..*len).map(|b| (i, b)));
    }
    v
}
/// Alterations of one byte.
pub fn masks((ideal, len): (bool, usize), pos: usize, thorough: bool) -> &'static [u8] {
    match (ideal, thorough) {
        (true, _) => &[1],
        (_, true) => &[1, 2, 4, 8, 16, 32, 64, 128, 255],
        // Lengths, tags and short fields sit in front.
        _ if pos < 64 || len <= 128 => &[1, 128],
        _ if pos % 2 == 0 => &[1],
        _ => &[128],
    }
}
pub fn n03(hx: &Hx) {
    hx.assume("the ZK and MPC virtual machine is ideal: a deviating prover chooses its inputs and its messages, not the outcome of an evaluation");
    let mut items = vec![];
    for (bi, b) in bases(hx.thorough()).iter().enumerate() {
        let fr = match catch(|| frames(b, 1)) {
            Ok(f) => f,
            Err(e) => {
                hx.case(|| format!("{} baseline", b.name), || Err(e));
                return;
            }
        };
        for (f, pos) in positions_of(&fr, hx.thorough()) {
            for m in masks(fr[f], pos, hx.thorough()) {
                items.push((bi, (f, pos, *m)));
            }
        }
    }
    hx.count("tampered sessions", items.len() as u64);
    hx.par(&items, |(bi, t)| {
        let b = &bases(hx.thorough())[*bi];
        hx.case(
            || format!("{} frame {} byte {} mask {}", b.name, t.0, t.1, t.2),
            || {
                reset_instr();
                with_tamper(1, *t);
                let (o, end, steps) = crate::e2e::run(&scn_of(b), &[], 20_000)?;
                for (who, what) in &o.panics {
                    ck!(*who != "verifier" && *who != "driver_v", "{who} panics: {what}");
                }
                if let End::Livelock(l) = &end {
                    ck!(!l.contains(&"verifier"), "the verifier spins");
                }
                let n = verifier_truth(&o, &b.sh, &b.reqs)?;
                hx.count(["rejected before the end", "rejected at proving", "no effect on the claims"][n.min(2)], 1);
                hx.trans(steps as u64);
                hx.state(&(bi, t));
                Ok(())
            },
        );
    });
}
