//! N11, N12: consent, trust settings and limits.
use crate::{e2e::*, nc::*, nd::*, ne::*, sched::End};
use hx_lib::*;
use tlsn::config::tls_commit::mpc::MpcTlsConfig;
use tlsn_server_fixture_certs::CA_CERT_DER;

fn settled(o: &Out, end: &End) -> R {
    ck!(o.panics.is_empty(), "{:?}", o.panics);
    ck_eq!(end, &End::Done, "session (prover {:?}, verifier {:?})", o.prover.as_ref().map(|r| r.as_ref().map(|_| ())), o.verifier.as_ref().map(|r| r.as_ref().map(|_| ())));
    Ok(())
}
fn requests() -> Vec<Req> {
    vec![
        Req { ident: true, reveal: Some((vec![0, 1], vec![1])), commit: vec![] },
        Req { ident: false, reveal: None, commit: vec![(true, vec![1], 1), (false, vec![0, 2], 2)] },
        Req { ident: false, reveal: Some((vec![], vec![0, 2])), commit: vec![(false, vec![1], 3)] },
    ]
}
pub fn n11(hx: &Hx) {
    let sh = Shape::of(&[2], &[3]);
    // What the verifier declines does not happen, and leaves the rest untouched.
    let mut items = vec![];
    for (mi, (mn, ..)) in modes().iter().enumerate() {
        items.push((mi, *mn, false, vec![], vec![]));
        let rq = requests();
        for n in 1..=hx.tier(2usize, 3) {
            for answers in all_seqs(2, n, n) {
                for which in all_seqs(3, n, n) {
                    let reqs: Vec<Req> = which.iter().map(|i| rq[*i].clone()).collect();
                    items.push((mi, *mn, true, answers.iter().map(|a| *a == 1).collect(), reqs));
                }
            }
        }
    }
    hx.par(&items, |(mi, mn, commit, answers, reqs)| {
        hx.case(
            || format!("{mn} consent {commit} {answers:?} {reqs:?}"),
            || {
                let (_, mode, online) = modes().swap_remove(*mi);
                let mut scn = with_reqs(sh.scn(mode, online), reqs);
                scn.accept_commit = *commit;
                scn.accept_prove = answers.clone();
                let (o, end, steps) = go(&scn, &[], 200_000)?;
                hx.trans(steps as u64);
                hx.state(&(mi, commit, answers, format!("{reqs:?}")));
                if !*commit {
                    ck!(o.panics.is_empty(), "{:?}", o.panics);
                    let e = o.commit_p.as_ref().and_then(|r| r.as_ref().err()).ok_or("the prover goes on although the verifier declined")?;
                    ck!(o.commit_v == Some(Ok(())), "declining fails: {:?}", o.commit_v);
                    ck!(e.contains("reject"), "the prover reports {e}");
                    ck!(o.verifier.is_none() && o.prover.is_none() && o.srv_raw.1.is_empty() && o.srv_read.is_empty(), "a connection is made although the verifier declined");
                    return Ok(());
                }
                settled(&o, &end)?;
                check_transcripts(&o, &sh)?;
                ck_eq!((o.proofs.len(), o.outputs.len()), (reqs.len(), reqs.len()), "proofs {:?}", o.proofs.iter().filter_map(|r| r.as_ref().err()).next());
                for i in 0..reqs.len() {
                    match (answers[i], &o.proofs[i], &o.outputs[i]) {
                        (true, Ok(p), Ok(v)) => check_output(&sh, &reqs[i], p, v).map_err(|e| format!("request {i} {:?}: {e}", reqs[i]))?,
                        (false, Err(e), Err(d)) => {
                            ck_eq!(d, "declined", "request {i}");
                            ck!(e.contains("reject"), "request {i}: the prover reports {e}");
                        }
                        (a, p, v) => return Err(format!("request {i} accepted {a}: prover {:?}, verifier {:?}", p.as_ref().err(), v.as_ref().err())),
                    }
                }
                Ok(())
            },
        );
    });
    // Roots each party trusts, and names.
    let other = std::fs::read(hx.dir().join("fixtures/x509/root.der")).expect("fixture");
    let ca = CA_CERT_DER.to_vec();
    let stores = [vec![ca.clone()], vec![other.clone(), ca.clone()], vec![other.clone()], vec![]];
    let names = ["test-server.io", "TEST-server.IO", "other.io", "sub.test-server.io", "test-server.io.evil.com", "est-server.io"];
    let mut items = vec![];
    for (mi, (mn, ..)) in modes().iter().enumerate() {
        for p in 0..4usize {
            for v in 0..4usize {
                for (ni, n) in names.iter().enumerate() {
                    if ni > 0 && v > 0 && !hx.thorough() {
                        continue;
                    }
                    for ident in [false, true] {
                        items.push((mi, *mn, p, v, *n, ident, names[0]));
                    }
                    if *mn == "proxy" && p < 2 {
                        items.push((mi, *mn, p, v, *n, true, "other.io"));
                        items.push((mi, *mn, p, v, *n, true, "TEST-server.IO"));
                    }
                }
            }
        }
    }
    hx.par(&items, |(mi, mn, p, v, name, ident, announced)| {
        hx.case(
            || format!("{mn} prover roots {p}, verifier roots {v}, name {name}, announced {announced}, identity {ident}"),
            || {
                let (_, mode, online) = modes().swap_remove(*mi);
                let mode = if let Mode::Proxy(_) = mode { Mode::Proxy(announced.to_string()) } else { mode };
                let req = Req { ident: *ident, reveal: Some((vec![0], vec![0, 2])), commit: vec![(true, vec![1], 1)] };
                let mut scn = with_reqs(sh.scn(mode, online), std::slice::from_ref(&req));
                scn.name = name.to_string();
                scn.roots_p = stores[*p].clone();
                scn.roots_v = stores[*v].clone();
                let (o, end, steps) = go(&scn, &[], 200_000)?;
                hx.trans(steps as u64);
                hx.state(&(mi, p, v, name, ident, announced));
                settled(&o, &end)?;
                let good = name.eq_ignore_ascii_case("test-server.io");
                if *p >= 2 || !good {
                    ck!(o.prover.is_none() || o.prover.as_ref().unwrap().is_err(), "the prover accepts a server it has no reason to trust");
                    ck!(o.srv_read.is_empty() && o.cli_read.is_empty(), "data flows to or from a server the prover has no reason to trust");
                    ck!(!matches!(o.verifier, Some(Ok(_))), "the verifier holds a connection the prover refused");
                    return Ok(());
                }
                // In proxy mode the name the prover announces need not be the one it connects to:
                // what is proven is the certificate.
                check_transcripts(&o, &sh)?;
                verifier_truth(&o, &sh, std::slice::from_ref(&req))?;
                if *ident && *v >= 2 {
                    ck!(o.outputs.iter().all(|x| x.is_err()) && o.outputs.len() == 1, "the verifier accepts a server it has no reason to trust");
                } else {
                    let (Some(Ok(pr)), Some(Ok(ve))) = (o.proofs.first(), o.outputs.first()) else {
                        return Err(format!("refused: prover {:?}, verifier {:?}", o.proofs.first().map(|r| r.as_ref().err()), o.outputs.first().map(|r| r.as_ref().err())));
                    };
                    ck!(ve.server_name.is_some() == *ident, "name {:?}", ve.server_name);
                    if let Some(n) = &ve.server_name {
                        ck!(n.to_string().eq_ignore_ascii_case(name), "name {n}");
                    }
                    check_disclosure(&sh, &req, pr, ve)?;
                }
                Ok(())
            },
        );
    });
}
#[derive(Clone, Debug)]
struct Lim {
    sent: usize,
    recv: usize,
    online: usize,
    rs: Option<usize>,
    rr: Option<usize>,
    defer: bool,
    /// Lengths of the records written by each side.
    w: Vec<usize>,
    r: Vec<usize>,
    /// Does the application read before it closes?
    read: bool,
}
/// Bytes and records the protocol itself may use beyond the configured data.
const SLACK: usize = 32;
fn within(l: &Lim) -> Option<bool> {
    let (w, r): (usize, usize) = (l.w.iter().sum(), l.r.iter().sum());
    // Only what is decrypted while the connection is open counts against the online limits.
    let (online, recv_n) = if l.defer { (0, 0) } else { (r, l.r.len()) };
    let (rs, rr) = (l.rs.unwrap_or(8), l.rr.unwrap_or(8));
    if w <= l.sent && r <= l.recv && online <= l.online && l.w.len() <= rs && recv_n <= rr {
        return Some(true);
    }
    // A little more may fit, if the protocol does not use all of its own allowance.
    if w > l.sent + SLACK || r > l.recv + SLACK || l.rs.is_some_and(|k| l.w.len() > k + 2) || l.read && (r > l.online + SLACK || l.rr.is_some_and(|k| l.r.len() > k + 2)) {
        return Some(false);
    }
    None
}
pub fn n12(hx: &Hx) {
    let mut items: Vec<Lim> = vec![];
    let base = Lim { sent: 64, recv: 64, online: 64, rs: None, rr: None, defer: false, w: vec![2], r: vec![3], read: true };
    let around = |n: usize| -> Vec<usize> { let mut v: Vec<usize> = [0, 1, n.saturating_sub(1), n, n + 1, n + 13, n + 14, n + 15, n + 16, n + 31, n + 32, n + 33, n + 64, n + 300].into_iter().filter(|x| *x > 0).collect(); v.sort(); v.dedup(); v };
    let sizes: &[usize] = if hx.thorough() { &[1, 15, 16, 17, 31, 33, 64, 256, 4097] } else { &[1, 16, 33, 256] };
    for defer in [false, true] {
        for &s in sizes {
            for t in around(s) {
                for cut in [0, 1, t / 2] {
                    let w: Vec<usize> = if cut == 0 || cut >= t { vec![t] } else { vec![cut, t - cut] };
                    items.push(Lim { sent: s, defer, read: !defer, w: w.clone(), ..base.clone() });
                    for online in if defer { vec![0, s.min(16)] } else { vec![s] } {
                        items.push(Lim { recv: s, online, defer, read: !defer, r: w.clone(), ..base.clone() });
                    }
                    // Online limit below the total.
                    if !defer && s <= 256 {
                        items.push(Lim { recv: 4096, online: s, read: true, r: w.clone(), ..base.clone() });
                        items.push(Lim { recv: 4096, online: s, read: false, r: w, ..base.clone() });
                    }
                }
            }
        }
        for k in 0..=hx.tier(4usize, 8) {
            for n in 0..=k + 4 {
                items.push(Lim { rs: Some(k), defer, read: !defer, w: vec![2; n], ..base.clone() });
                items.push(Lim { rr: Some(k), defer, read: !defer, r: vec![2; n], ..base.clone() });
                items.push(Lim { rr: Some(k), defer, read: false, r: vec![2; n], ..base.clone() });
            }
        }
        // Without a configured number of records: eight fit, for the first four kilobytes.
        for n in [0usize, 1, 7, 8, 9, 10, 11, 16] {
            items.push(Lim { defer, read: !defer, w: vec![1; n], ..base.clone() });
            items.push(Lim { defer, read: !defer, r: vec![1; n], ..base.clone() });
        }
    }
    // Long writes, cut into records by the protocol.
    for n in [16383usize, 16384, 16385, 20000] {
        for defer in [false, true] {
            items.push(Lim { sent: 20000, defer, read: !defer, w: vec![n], ..base.clone() });
            items.push(Lim { recv: 20000, online: if defer { 0 } else { 20000 }, defer, read: !defer, r: vec![n], ..base.clone() });
        }
    }
    hx.par(&items, |l| {
        hx.case(
            || format!("{l:?}"),
            || {
                let mut b = MpcTlsConfig::builder().max_sent_data(l.sent).max_recv_data(l.recv).max_recv_data_online(l.online).defer_decryption_from_start(l.defer);
                if let Some(k) = l.rs {
                    b = b.max_sent_records(k);
                }
                if let Some(k) = l.rr {
                    b = b.max_recv_records_online(k);
                }
                let sh = Shape::of(&l.w, &l.r);
                let scn = sh.scn(Mode::Mpc(b.build().map_err(|e| e.to_string())?), l.read);
                let scn = with_reqs(scn, &[Req { ident: true, reveal: Some(((0..sh.sent_all().len()).collect(), (0..sh.recv_all().len()).collect())), commit: vec![] }]);
                let (o, end, steps) = go(&scn, &[], 400_000)?;
                hx.trans(steps as u64);
                hx.state(&format!("{l:?}"));
                let well = honest(&scn, &o, &end)?;
                let want = within(l);
                ck!(want.is_none_or(|w| w == well), "within limits {want:?}, ends well {well}: prover {:?}, verifier {:?}", o.prover.as_ref().map(|r| r.as_ref().err()), o.verifier.as_ref().map(|r| r.as_ref().err()));
                if want == Some(true) {
                    check_transcripts(&o, &sh)?;
                }
                ck!(o.srv_read.len() <= l.sent + SLACK, "the server read {} bytes", o.srv_read.len());
                ck!(o.cli_read.len() <= l.recv + SLACK, "the application read {} bytes", o.cli_read.len());
                hx.count(if well { "sessions that ended well" } else { "sessions refused" }, 1);
                Ok(())
            },
        );
    });
}
