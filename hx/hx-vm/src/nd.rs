//! N01/N02: what a session lets the verifier learn.
use crate::e2e::*;
use hx_lib::*;
use rangeset::set::RangeSet;
use sha2::Digest;
use std::rc::Rc;
use tiny_keccak::Hasher as _;
use tlsn::{
    config::prove::ProveConfig,
    config::tls_commit::mpc::{MpcTlsConfig, NetworkSetting},
    hash::HashAlgId,
    prover::ProverOutput,
    transcript::{ContentType, Direction, TlsTranscript, Transcript, TranscriptCommitConfig, TranscriptCommitment, TranscriptCommitmentKind, TranscriptSecret},
    verifier::VerifierOutput,
};

/// A prove request in plain data.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Req {
    pub ident: bool,
    /// Revealed positions per direction; `None`: nothing requested at all.
    pub reveal: Option<(Vec<usize>, Vec<usize>)>,
    /// (sent?, positions, algorithm 1..=3)
    pub commit: Vec<(bool, Vec<usize>, u8)>,
}
pub fn set(v: &[usize]) -> RangeSet<usize> {
    RangeSet::from(v.iter().map(|i| *i..*i + 1).collect::<Vec<_>>())
}
pub fn positions(s: &RangeSet<usize>) -> Vec<usize> {
    s.iter().flatten().collect()
}
pub fn config(t: &Transcript, r: &Req) -> ProveConfig {
    let mut b = ProveConfig::builder(t);
    if r.ident {
        b.server_identity();
    }
    if let Some((s, v)) = &r.reveal {
        b.reveal_sent(set(s)).unwrap();
        b.reveal_recv(set(v)).unwrap();
    }
    if !r.commit.is_empty() {
        let mut c = TranscriptCommitConfig::builder(t);
        for (sent, p, alg) in &r.commit {
            let d = if *sent { Direction::Sent } else { Direction::Received };
            c.commit_with_kind(set(p), d, TranscriptCommitmentKind::Hash { alg: [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256][*alg as usize - 1] }).unwrap();
        }
        b.transcript_commit(c.build().unwrap());
    }
    b.build().unwrap()
}
pub fn digest(alg: u8, data: &[u8]) -> Vec<u8> {
    match alg {
        1 => sha2::Sha256::digest(data).to_vec(),
        2 => blake3::hash(data).as_bytes().to_vec(),
        _ => {
            let mut k = tiny_keccak::Keccak::v256();
            k.update(data);
            let mut o = [0; 32];
            k.finalize(&mut o);
            o.to_vec()
        }
    }
}
/// Parts of a session: payload of every client and server record.
#[derive(Clone, Debug)]
pub struct Shape {
    pub sent: Vec<Vec<u8>>,
    pub recv: Vec<Vec<u8>>,
}
fn pat(n: usize, from: usize, base: u8) -> Vec<u8> {
    (0..n).map(|i| base.wrapping_add(((from + i) * 37 % 191) as u8) | 1).collect()
}
impl Shape {
    pub fn of(sent: &[usize], recv: &[usize]) -> Self {
        let go = |l: &[usize], b: u8| {
            let mut at = 0;
            l.iter().map(|n| { at += n; pat(*n, at - n, b) }).collect::<Vec<_>>()
        };
        Shape { sent: go(sent, 40), recv: go(recv, 80) }
    }
    pub fn sent_all(&self) -> Vec<u8> {
        self.sent.concat()
    }
    pub fn recv_all(&self) -> Vec<u8> {
        self.recv.concat()
    }
    /// Online: the client reads while the session runs; otherwise only after the close.
    pub fn scn(&self, mode: Mode, online: bool) -> Scn {
        let mut n = 0;
        let mut cli = vec![];
        for b in &self.sent {
            n += b.len();
            // Wait, so that the next write gets a record of its own.
            cli.extend([Cli::Write(b.clone()), Cli::Sync(n)]);
        }
        if online {
            cli.push(Cli::Read(self.recv_all().len()));
        }
        cli.extend([Cli::Close, Cli::ReadEof]);
        let mut srv = vec![Srv::Recv(self.sent_all().len())];
        srv.extend(self.recv.iter().map(|b| Srv::Send(b.clone())));
        srv.extend([Srv::WaitClose, Srv::CloseNotify, Srv::Shut]);
        Scn::new(mode, cli, srv)
    }
}
/// Sessions the check runs over.
pub fn modes() -> Vec<(&'static str, Mode, bool)> {
    let b = || MpcTlsConfig::builder().max_sent_data(256).max_sent_records(6).max_recv_data(256).max_recv_data_online(256).max_recv_records_online(6);
    vec![
        ("mpc-online", Mode::Mpc(mpc_cfg()), true),
        ("mpc-bandwidth", Mode::Mpc(b().defer_decryption_from_start(false).network(NetworkSetting::Bandwidth).build().unwrap()), true),
        ("mpc-deferred", Mode::Mpc(MpcTlsConfig::builder().max_sent_data(256).max_sent_records(6).max_recv_data(256).build().unwrap()), false),
        ("proxy", Mode::Proxy("test-server.io".into()), true),
    ]
}
pub fn session(scn: &Scn, reqs: &[Req]) -> Result<Out, String> {
    session_with(scn, reqs, &[])
}
pub fn session_with(scn: &Scn, reqs: &[Req], delays: &[usize]) -> Result<Out, String> {
    let mut scn = scn.clone();
    let rq = reqs.to_vec();
    scn.accept_prove = vec![true; rq.len()];
    scn.prove = Rc::new(move |p| rq.iter().map(|r| config(p.transcript(), r)).collect());
    let (o, end, _) = crate::e2e::run(&scn, delays, 400_000)?;
    ck!(o.panics.is_empty(), "{:?}", o.panics);
    ck_eq!(end, crate::sched::End::Done, "session");
    Ok(o)
}
/// Both parties hold the same account of the same connection, and it is what the server saw.
pub fn check_transcripts(o: &Out, sh: &Shape) -> Result<(), String> {
    let p = o.prover.as_ref().unwrap().as_ref().map_err(|e| format!("prover: {e}"))?;
    let v = o.verifier.as_ref().unwrap().as_ref().map_err(|e| format!("verifier: {e}"))?;
    ck_eq!(o.srv_read, sh.sent_all(), "what the server read");
    ck_eq!(o.cli_read, sh.recv_all(), "what the application read");
    let t = o.transcript.as_ref().unwrap();
    ck_eq!(t.sent(), &sh.sent_all()[..], "transcript sent");
    ck_eq!(t.received(), &sh.recv_all()[..], "transcript received");
    ck!(p.time().abs_diff(v.time()) <= 5, "time");
    ck_eq!(p.version(), v.version(), "version");
    ck_eq!(format!("{:?}", p.certificate_binding()), format!("{:?}", v.certificate_binding()), "binding");
    let cr = &o.keylog.first().ok_or("no key log")?.1;
    let tlsn::connection::CertBinding::V1_2(b) = v.certificate_binding() else { return Err("binding version".into()) };
    ck_eq!(&b.client_random[..], &cr[..], "client random");
    for (pr, vr, what, parts) in [(p.sent(), v.sent(), "sent", &sh.sent), (p.recv(), v.recv(), "received", &sh.recv)] {
        ck_eq!(pr.len(), vr.len(), "{what} records");
        for (i, (a, b)) in pr.iter().zip(vr).enumerate() {
            ck_eq!((a.seq, a.typ, &a.explicit_nonce, &a.ciphertext), (b.seq, b.typ, &b.explicit_nonce, &b.ciphertext), "{what} record {i}");
            // The verifier does not hold the tags of what the prover sent.
            ck!(b.tag.is_none() || a.tag == b.tag, "{what} record {i}: tags differ");
            ck_eq!(a.seq, i as u64, "{what} sequence number");
            ck!(b.typ != ContentType::ApplicationData || b.plaintext.is_none(), "the verifier holds the plaintext of {what} record {i}");
        }
        let app: Vec<_> = pr.iter().filter(|r| r.typ == ContentType::ApplicationData).collect();
        ck_eq!(app.iter().map(|r| r.plaintext.clone().unwrap_or_default()).collect::<Vec<_>>(), parts.iter().flat_map(|p| p.chunks(16384)).map(|c| c.to_vec()).collect::<Vec<_>>(), "{what} records");
    }
    Ok(())
}
pub fn check_output(sh: &Shape, r: &Req, p: &ProverOutput, v: &VerifierOutput) -> Result<(), String> {
    ck_eq!(v.server_name.as_ref().map(|n| n.to_string()), r.ident.then(|| "test-server.io".to_string()), "server name");
    check_disclosure(sh, r, p, v)
}
pub fn check_disclosure(sh: &Shape, r: &Req, p: &ProverOutput, v: &VerifierOutput) -> Result<(), String> {
    let (ts, tr) = (sh.sent_all(), sh.recv_all());
    match (&r.reveal, &v.transcript) {
        (None, None) => {}
        (Some((s, x)), Some(t)) => {
            for (want, got, data, truth, what) in [(s, t.sent_authed(), t.sent_unsafe(), &ts, "sent"), (x, t.received_authed(), t.received_unsafe(), &tr, "received")] {
                ck_eq!(positions(got), *want, "authenticated {what} positions");
                let exp: Vec<u8> = truth.iter().enumerate().map(|(i, b)| if want.contains(&i) { *b } else { 0 }).collect();
                ck_eq!(data, &exp[..], "{what} data");
            }
        }
        (a, b) => return Err(format!("reveal request {a:?} gives transcript {:?}", b.is_some())),
    }
    // Commitments: one per distinct request, the same at both ends, opened by the secrets.
    let mut want: Vec<(bool, Vec<usize>, u8)> = r.commit.clone();
    want.sort();
    want.dedup();
    ck_eq!(p.transcript_commitments.len(), want.len(), "prover commitments");
    ck_eq!(v.transcript_commitments.len(), want.len(), "verifier commitments");
    ck_eq!(p.transcript_secrets.len(), want.len(), "secrets");
    let mut have = vec![];
    for i in 0..want.len() {
        let TranscriptCommitment::Hash(a) = &p.transcript_commitments[i] else { return Err("kind".into()) };
        let TranscriptCommitment::Hash(b) = &v.transcript_commitments[i] else { return Err("kind".into()) };
        ck_eq!((a.direction, &a.idx, a.hash.alg, a.hash.value.as_bytes()), (b.direction, &b.idx, b.hash.alg, b.hash.value.as_bytes()), "commitment {i}");
        let TranscriptSecret::Hash(s) = &p.transcript_secrets[i] else { return Err("kind".into()) };
        ck_eq!((a.direction, &a.idx, a.hash.alg), (s.direction, &s.idx, s.alg), "secret {i}");
        let src = if a.direction == Direction::Sent { &ts } else { &tr };
        let mut m: Vec<u8> = positions(&a.idx).iter().map(|i| src[*i]).collect();
        m.extend(s.blinder.as_bytes());
        ck_eq!(a.hash.value.as_bytes(), &digest(a.hash.alg.as_u8(), &m)[..], "commitment {i} does not open to the transcript");
        have.push((a.direction == Direction::Sent, positions(&a.idx), a.hash.alg.as_u8()));
    }
    have.sort();
    ck_eq!(have, want, "committed ranges");
    Ok(())
}
pub fn check(o: &Out, sh: &Shape, reqs: &[Req]) -> Result<(), String> {
    check_transcripts(o, sh)?;
    ck_eq!((o.proofs.len(), o.outputs.len()), (reqs.len(), reqs.len()), "proofs {:?} {:?}", o.proofs.iter().filter_map(|r| r.as_ref().err()).next(), o.outputs.iter().filter_map(|r| r.as_ref().err()).next());
    for (i, r) in reqs.iter().enumerate() {
        let p = o.proofs[i].as_ref().map_err(|e| format!("proof {i} {r:?}: {e}"))?;
        let v = o.outputs[i].as_ref().map_err(|e| format!("output {i} {r:?}: {e}"))?;
        check_output(sh, r, p, v).map_err(|e| format!("request {i} {r:?}: {e}"))?;
    }
    Ok(())
}
fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1u64 << n).map(|m| bits(m, n)).collect()
}
fn span(a: usize, b: usize) -> Vec<usize> {
    (a..b).collect()
}
pub fn n01(hx: &Hx) {
    hx.assume("the garbled-circuit/ZK VM, OT and share conversion of mpz are replaced by ideal functionalities; circuits are evaluated in the clear");
    let mut groups: Vec<(String, Shape, Vec<Req>)> = vec![];
    // All subsets revealed in both directions, over two records each.
    for (a, b) in if hx.thorough() { vec![([2, 2], [1, 3]), ([1, 3], [3, 1]), ([3, 2], [2, 3])] } else { vec![([2, 2], [1, 3])] } {
        let (n, m) = (a.iter().sum(), b.iter().sum());
        let mut l = vec![];
        for s in subsets(n) {
            for r in subsets(m) {
                l.push(Req { ident: (s.len() + r.len()) % 2 == 0, reveal: Some((s.clone(), r.clone())), commit: vec![] });
            }
        }
        groups.push((format!("reveal{a:?}{b:?}"), Shape::of(&a, &b), l));
    }
    // Every reveal subset with every committed subset, per algorithm and direction.
    let n = hx.tier(3, 4);
    for sent in [true, false] {
        for alg in 1..=3 {
            let mut l = vec![];
            for r in subsets(n) {
                for c in subsets(n) {
                    let rv = if sent { (r.clone(), vec![0]) } else { (vec![0], r.clone()) };
                    l.push(Req { ident: false, reveal: (!r.is_empty()).then_some(rv), commit: vec![(sent, c, alg)] });
                }
            }
            groups.push((format!("commit-{sent}-{alg}"), Shape::of(&[1, n - 1], &[n - 1, 1]), l));
        }
    }
    // Two commitments in one request: overlapping, nested, equal ranges; mixed algorithms.
    {
        let mut l = vec![];
        for a in subsets(3) {
            for b in subsets(3) {
                for (x, y) in [(1, 1), (1, 2), (2, 3), (3, 3)] {
                    for (dx, dy) in [(true, true), (true, false), (false, false)] {
                        if hx.thorough() || (a.len() + 2 * b.len() + x as usize + dx as usize) % 4 == 0 {
                            l.push(Req { ident: true, reveal: None, commit: vec![(dx, a.clone(), x), (dy, b.clone(), y)] });
                        }
                    }
                }
            }
        }
        groups.push(("pairs".into(), Shape::of(&[3], &[3]), l));
    }
    // Ranges whose ends fall on, before and after cipher block and record boundaries.
    let shapes: Vec<(Vec<usize>, Vec<usize>)> = if hx.thorough() {
        vec![(vec![48], vec![17, 16, 15]), (vec![16, 16], vec![33]), (vec![15, 2, 31], vec![64]), (vec![1, 1, 1, 1], vec![32, 1])]
    } else {
        vec![(vec![40], vec![17, 16, 7]), (vec![16, 17], vec![33])]
    };
    for (a, b) in shapes {
        for sent in [true, false] {
            let parts = if sent { &a } else { &b };
            let len: usize = parts.iter().sum();
            let mut at: Vec<usize> = vec![];
            let mut base = 0;
            for p in parts {
                for k in (0..=*p).step_by(16).chain([*p]) {
                    at.extend([(base + k).saturating_sub(1), base + k, base + k + 1]);
                }
                base += p;
            }
            at.retain(|x| *x <= len);
            at.sort();
            at.dedup();
            let mut l = vec![];
            for (i, x) in at.iter().enumerate() {
                for (j, y) in at.iter().enumerate().skip(i + 1) {
                    let one = span(*x, *y);
                    let rv = |v: Vec<usize>| Some(if sent { (v, vec![]) } else { (vec![], v) });
                    l.push(Req { ident: false, reveal: rv(one.clone()), commit: vec![] });
                    l.push(Req { ident: false, reveal: None, commit: vec![(sent, one.clone(), 1 + ((i + j) % 3) as u8)] });
                    // A second range after it, some of it only committed.
                    for z in at.iter().skip(j + 1).step_by(hx.tier(3, 1)) {
                        let mut two = one.clone();
                        two.extend(span(*z, len));
                        l.push(Req { ident: false, reveal: rv(two), commit: vec![(sent, span(*y, *z), 1)] });
                    }
                }
            }
            groups.push((format!("blocks{a:?}{b:?}{sent}"), Shape::of(&a, &b), l));
        }
    }
    // No data in one or both directions.
    for (a, b) in [(vec![], vec![3]), (vec![3], vec![]), (vec![], vec![])] {
        let sh = Shape::of(&a, &b);
        let (n, m) = (sh.sent_all().len(), sh.recv_all().len());
        let mut l = vec![Req::default()];
        for s in subsets(n) {
            for r in subsets(m) {
                l.push(Req { ident: true, reveal: Some((s.clone(), r.clone())), commit: vec![(n > 0, if n > 0 { s.clone() } else { r.clone() }, 1)] });
            }
        }
        groups.push((format!("empty{a:?}{b:?}"), sh, l));
    }
    let mut items = vec![];
    for (name, sh, l) in &groups {
        for (mi, _) in modes().iter().enumerate() {
            // Many requests against one session; the order within a session is part of the history.
            for (k, part) in l.chunks(48).enumerate() {
                items.push((format!("{name}#{k}"), mi, sh.clone(), part.to_vec()));
            }
        }
    }
    hx.count("sessions", items.len() as u64);
    hx.par(&items, |(name, mi, sh, reqs)| {
        let (mn, mode, online) = modes().swap_remove(*mi);
        hx.case(
            || format!("{mn} {name}"),
            || {
                mpz::ideal_vm::reset_instr();
                let scn = sh.scn(mode, online && !(sh.sent.is_empty() && sh.recv.is_empty()));
                let o = session(&scn, reqs)?;
                check(&o, sh, reqs)?;
                hx.trans(reqs.len() as u64);
                for r in reqs {
                    hx.state(&format!("{mn}{name}{r:?}"));
                }
                Ok(())
            },
        );
    });
}
pub fn tls(o: &Out) -> (&TlsTranscript, &TlsTranscript) {
    (o.prover.as_ref().unwrap().as_ref().unwrap(), o.verifier.as_ref().unwrap().as_ref().unwrap())
}
