//! C05: proving and commitment configuration say exactly what was asked for.
use crate::{proof::*, util::*};
use hx_lib::*;
use std::collections::HashSet;
use tlsn_core::{
    config::prove::ProveConfig,
    transcript::{Transcript, TranscriptCommitConfig, TranscriptCommitmentKind},
};

#[derive(Clone, Copy, Debug)]
enum Rv {
    Rev(usize, u32),
    All(usize),
    Id,
    Commit,
}

pub fn c05(h: &Hx) {
    let (ls, lr) = (3usize, 2usize);
    let t = Transcript::new(vec![1, 2, 3], vec![4, 5]);
    let mut ops = vec![Rv::All(0), Rv::All(1), Rv::Id, Rv::Commit];
    for m in 0..1u32 << (ls + 1) {
        ops.push(Rv::Rev(0, m));
    }
    for m in 0..1u32 << (lr + 1) {
        ops.push(Rv::Rev(1, m));
    }
    let seqs = all_seqs(ops.len(), 0, h.tier(4, 5));
    h.count("reveal_sequences", seqs.len() as u64);
    h.par(&seqs, |s| {
        h.case(|| format!("prove/{s:?}"), || {
            let mut b = ProveConfig::builder(&t);
            let (mut rev, mut id, mut com): (Option<[u32; 2]>, bool, bool) = (None, false, false);
            for (n, k) in s.iter().enumerate() {
                match ops[*k] {
                    Rv::All(d) => {
                        let r = if d == 0 { b.reveal_sent_all().is_ok() } else { b.reveal_recv_all().is_ok() };
                        ck!(r, "reveal all refused");
                        rev.get_or_insert([0, 0])[d] |= full([ls, lr][d]);
                    }
                    Rv::Id => {
                        b.server_identity();
                        id = true;
                    }
                    Rv::Commit => {
                        let c = TranscriptCommitConfig::builder(&t).build().map_err(|e| e.to_string())?;
                        b.transcript_commit(c);
                        com = true;
                    }
                    Rv::Rev(d, m) => {
                        let r = match (n % 2, d) {
                            (0, _) => b.reveal(D[d], &set(m)).is_ok(),
                            (_, 0) => b.reveal_sent(&set(m)).is_ok(),
                            _ => b.reveal_recv(&set(m)).is_ok(),
                        };
                        let ok = m & !full([ls, lr][d]) == 0;
                        ck_eq!(r, ok, "reveal {d} {m:b}");
                        if ok {
                            rev.get_or_insert([0, 0])[d] |= m;
                        }
                    }
                }
            }
            let c = b.build().map_err(|e| e.to_string())?;
            let r = c.to_request();
            let w = bincode::serialize(&r).map_err(|e| e.to_string())?;
            let r2: tlsn_core::config::prove::ProveRequest = bincode::deserialize(&w).map_err(|e| e.to_string())?;
            for (who, sid, rv, tc) in [
                ("config", c.server_identity(), c.reveal(), c.transcript_commit().is_some()),
                ("request", r.server_identity(), r.reveal(), r.transcript_commit().is_some()),
                ("decoded request", r2.server_identity(), r2.reveal(), r2.transcript_commit().is_some()),
            ] {
                ck_eq!(sid, id, "{who}: server identity");
                ck_eq!(tc, com, "{who}: commitment");
                ck_eq!(rv.map(|(a, b)| [bits_of(a), bits_of(b)]).unwrap_or_default(), rev.unwrap_or_default(), "{who}: revealed ranges");
            }
            h.state(&(rev, id, com));
            Ok(())
        });
        h.trans(s.len() as u64);
    });
    // commitments: the set of (direction, index, algorithm) that was asked for, each within bounds
    let mut cops: Vec<(u8, usize, u32)> = vec![];
    for d in 0..2 {
        for m in [0u32, 1, 2, 3, 4, 5, 7, 8, 9] {
            for a in 0..=3u8 {
                cops.push((a, d, m)); // 0: the default kind
            }
        }
    }
    let nd = cops.len();
    for a in 1..=3 {
        cops.push((a | 0x80, 0, 0)); // change the default
    }
    let seqs = all_seqs(cops.len(), 0, h.tier(3, 4));
    h.count("commit_sequences", seqs.len() as u64);
    h.par(&seqs, |s| {
        h.case(|| format!("commit/{s:?}"), || {
            let mut b = TranscriptCommitConfig::builder(&t);
            let mut def = 2u8;
            let mut want: HashSet<(usize, u32, u8)> = HashSet::new();
            for (n, k) in s.iter().enumerate() {
                let (a, d, m) = cops[*k];
                if *k >= nd {
                    def = a & 3;
                    b.default_kind(TranscriptCommitmentKind::Hash { alg: alg(def) });
                    continue;
                }
                let r = match (a, n % 2, d) {
                    (0, 0, _) => b.commit(&set(m), D[d]).is_ok(),
                    (0, _, 0) => b.commit_sent(&set(m)).is_ok(),
                    (0, _, _) => b.commit_recv(&set(m)).is_ok(),
                    _ => b.commit_with_kind(&set(m), D[d], TranscriptCommitmentKind::Hash { alg: alg(a) }).is_ok(),
                };
                let ok = m & !full([ls, lr][d]) == 0;
                ck_eq!(r, ok, "commit {d} {m:b}");
                if ok {
                    want.insert((d, m, if a == 0 { def } else { a }));
                }
            }
            let c = b.build().map_err(|e| e.to_string())?;
            let di = |d: tlsn_core::transcript::Direction| if d == D[0] { 0 } else { 1 };
            let a: Vec<_> = c.iter_hash().map(|((d, i), a)| (di(*d), bits_of(i), a.as_u8())).collect();
            let r = c.to_request();
            let q: Vec<_> = r.iter_hash().map(|(d, i, a)| (di(*d), bits_of(i), a.as_u8())).collect();
            ck_eq!(a.len(), want.len(), "number of commitments");
            ck_eq!(a.iter().cloned().collect::<HashSet<_>>(), want, "commitments");
            ck_eq!(q, a, "requested commitments");
            ck_eq!(c.has_hash(), !want.is_empty(), "has_hash");
            ck_eq!(r.has_hash(), !want.is_empty(), "request has_hash");
            let mut v: Vec<_> = want.into_iter().collect();
            v.sort();
            h.state(&v);
            Ok(())
        });
        h.trans(s.len() as u64);
    });
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
struct MpcWire {
    sent: usize,
    sent_records: Option<usize>,
    online: usize,
    recv: usize,
    records_online: Option<usize>,
    defer: bool,
    net: u32,
}

/// C09: session limits are the configured ones and never contradict each other.
pub fn c09(h: &Hx) {
    use tlsn_core::{
        config::{
            tls::TlsClientConfig,
            tls_commit::{mpc::{MpcTlsConfig, NetworkSetting}, proxy::ProxyTlsConfig, TlsCommitConfig},
            verifier::VerifierConfig,
        },
        connection::{DnsName, ServerName},
        webpki::{CertificateDer, PrivateKeyDer, RootCertStore},
    };
    let see = |c: &MpcTlsConfig| MpcWire {
        sent: c.max_sent_data(),
        sent_records: c.max_sent_records(),
        online: c.max_recv_data_online(),
        recv: c.max_recv_data(),
        records_online: c.max_recv_records_online(),
        defer: c.defer_decryption_from_start(),
        net: matches!(c.network(), NetworkSetting::Latency) as u32,
    };
    let agree = |c: &MpcTlsConfig, want: &MpcWire| -> R {
        ck_eq!(see(c), *want, "limits");
        let w = bincode::serialize(c).map_err(|e| e.to_string())?;
        ck_eq!(w, bincode::serialize(want).unwrap(), "stored form");
        let d: MpcTlsConfig = bincode::deserialize(&w).map_err(|e| format!("own encoding refused: {e}"))?;
        ck_eq!(see(&d), *want, "limits after decoding");
        match TlsCommitConfig::from(c.clone()) {
            TlsCommitConfig::Mpc(c) => ck_eq!(see(&c), *want, "limits in the commitment config"),
            _ => return Err("an MPC config became another mode".into()),
        }
        Ok(())
    };
    // every sequence of builder calls
    let v = [0usize, 1, 31, 32, 33, 64, usize::MAX];
    let mut ops = vec![];
    for i in [0, 2, 3] {
        for x in v {
            ops.push((i, x));
        }
    }
    for i in [1, 4, 5, 6] {
        for x in 0..2 {
            ops.push((i, x));
        }
    }
    let seqs = all_seqs(ops.len(), 0, 5);
    h.count("builder_sequences", seqs.len() as u64);
    h.par(&seqs, |s| {
        h.case(|| format!("mpc/{s:?}"), || {
            h.state(s);
            h.trans(s.len() as u64 + 1);
            let mut b = MpcTlsConfig::builder();
            let mut m: [Option<usize>; 7] = [None; 7];
            for k in s {
                let (f, x) = ops[*k];
                m[f] = Some(x);
                b = match f {
                    0 => b.max_sent_data(x),
                    1 => b.max_sent_records(x),
                    2 => b.max_recv_data_online(x),
                    3 => b.max_recv_data(x),
                    4 => b.max_recv_records_online(x),
                    5 => b.defer_decryption_from_start(x == 1),
                    _ => b.network(if x == 1 { NetworkSetting::Latency } else { NetworkSetting::Bandwidth }),
                };
            }
            let got = b.build();
            let online = m[2].unwrap_or(32);
            let want = m[0].is_some() && m[3].is_some_and(|r| online <= r);
            ck_eq!(got.is_ok(), want, "verdict ({:?})", got.as_ref().err());
            if let Ok(c) = got {
                agree(&c, &MpcWire { sent: m[0].unwrap(), sent_records: m[1], online, recv: m[3].unwrap(), records_online: m[4], defer: m[5] != Some(0), net: m[6].unwrap_or(1) as u32 })?;
            }
            Ok(())
        });
    });
    // limits sent by the other party
    let dims = product(&[v.len(), v.len(), v.len(), 3, 3, 2, 2]);
    h.par(&dims, |d| {
        h.case(|| format!("decode/{d:?}"), || {
            h.state(&("d", d));
            h.trans(1);
            let o = |i: usize| [None, Some(0), Some(5)][i];
            let w = MpcWire { sent: v[d[0]], online: v[d[1]], recv: v[d[2]], sent_records: o(d[3]), records_online: o(d[4]), defer: d[5] == 1, net: d[6] as u32 };
            let got: Result<MpcTlsConfig, _> = bincode::deserialize(&bincode::serialize(&w).unwrap());
            ck_eq!(got.is_ok(), w.online <= w.recv, "decoded");
            if let Ok(c) = got {
                agree(&c, &w)?;
            }
            Ok(())
        });
    });
    // the other configurations: required parts are required, the last value set counts
    let name = |i: usize| DnsName::try_from(["a.example", "b.example"][i]).unwrap();
    let store = |i: usize| RootCertStore { roots: (0..i).map(|x| CertificateDer(vec![x as u8])).collect() };
    for s in all_seqs(6, 0, 6) {
        h.case(|| format!("client/{s:?}"), || {
            h.state(&("c", &s));
            h.trans(3);
            let (mut c, mut p, mut v) = (TlsClientConfig::builder(), ProxyTlsConfig::builder(), VerifierConfig::builder());
            let mut m: [Option<usize>; 3] = [None; 3];
            for k in &s {
                let (f, i) = (k / 2, k % 2);
                m[f] = Some(i);
                match f {
                    0 => {
                        c = c.server_name(ServerName::Dns(name(i)));
                        p = p.server_name(name(i));
                    }
                    1 => {
                        c = c.root_store(store(i));
                        v = v.root_store(store(i));
                    }
                    _ => c = c.client_auth((store(i).roots, PrivateKeyDer(vec![i as u8]))),
                }
            }
            let (c, p, v) = (c.build(), p.build(), v.build());
            ck_eq!((c.is_ok(), p.is_ok(), v.is_ok()), (m[0].is_some() && m[1].is_some(), m[0].is_some(), m[1].is_some()), "verdicts");
            if let Ok(c) = c {
                ck_eq!(c.server_name(), &ServerName::Dns(name(m[0].unwrap())), "name");
                ck_eq!(c.root_store().roots.len(), m[1].unwrap(), "roots");
                ck_eq!(c.client_auth().map(|x| (x.0.len(), x.1 .0.clone())), m[2].map(|i| (i, vec![i as u8])), "client certificate");
            }
            if let Ok(p) = p {
                ck_eq!(p.server_name(), &name(m[0].unwrap()), "proxy name");
            }
            if let Ok(v) = v {
                ck_eq!(v.root_store().roots.len(), m[1].unwrap(), "verifier roots");
            }
            Ok(())
        });
    }
}
