//! C07: the server identity kept in a proof.
use crate::model::*;
use hx_lib::*;
use std::collections::BTreeMap;
use tlsn_core::{
    connection::{
        CertBinding, CertBindingV1_2, DnsName, HandshakeData, KeyType, ServerEphemKey, ServerName, ServerSignature,
        SignatureAlgorithm as A,
    },
    webpki::{CertificateDer, RootCertStore, ServerCertVerifier},
};

pub struct Fx(pub BTreeMap<String, Vec<u8>>);
impl Fx {
    pub fn load(h: &Hx) -> Self {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(h.dir().join("fixtures/x509")).expect("fixtures").flatten() {
            m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap());
        }
        Fx(m)
    }
    pub fn cert(&self, n: &str) -> CertificateDer {
        CertificateDer(self.0[&format!("{n}.der")].clone())
    }
    fn verifier(&self, n: &[&str]) -> ServerCertVerifier {
        ServerCertVerifier::new(&RootCertStore { roots: n.iter().map(|r| self.cert(r)).collect() }).unwrap()
    }
}
const ALGS: [A; 11] = [
    A::ECDSA_NISTP256_SHA256, A::ECDSA_NISTP256_SHA384, A::ECDSA_NISTP384_SHA256, A::ECDSA_NISTP384_SHA384, A::ED25519,
    A::RSA_PKCS1_2048_8192_SHA256, A::RSA_PKCS1_2048_8192_SHA384, A::RSA_PKCS1_2048_8192_SHA512,
    A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY, A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY, A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
];
/// The algorithm a genuine signature was made with; `None` if it must never verify.
fn alg_of(key: &str, made: &str) -> Option<A> {
    let p384 = key == "leaf_p384";
    Some(match made {
        "ecdsa_sha256" if p384 => A::ECDSA_NISTP384_SHA256,
        "ecdsa_sha384" if p384 => A::ECDSA_NISTP384_SHA384,
        "ecdsa_sha256" => A::ECDSA_NISTP256_SHA256,
        "ecdsa_sha384" => A::ECDSA_NISTP256_SHA384,
        "ed25519" => A::ED25519,
        _ if key == "leaf_rsa1024" => return None,
        "pkcs1_sha256" => A::RSA_PKCS1_2048_8192_SHA256,
        "pkcs1_sha384" => A::RSA_PKCS1_2048_8192_SHA384,
        "pkcs1_sha512" => A::RSA_PKCS1_2048_8192_SHA512,
        "pss_sha256" => A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        "pss_sha384" => A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        "pss_sha512" => A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
        _ => return None,
    })
}
fn name(n: &str) -> Option<ServerName> {
    DnsName::try_from(n).ok().map(ServerName::Dns)
}
fn data(certs: Vec<CertificateDer>, alg: A, sig: &[u8], cr: &[u8], sr: &[u8], key: &[u8]) -> HandshakeData {
    HandshakeData {
        certs,
        sig: ServerSignature { alg, sig: sig.to_vec() },
        binding: CertBinding::V1_2(CertBindingV1_2 {
            client_random: cr.try_into().unwrap(),
            server_random: sr.try_into().unwrap(),
            server_ephemeral_key: ekey(key),
        }),
    }
}
fn ekey(key: &[u8]) -> ServerEphemKey {
    ServerEphemKey { typ: KeyType::SECP256R1, key: key.to_vec() }
}

pub fn c07(h: &Hx) {
    let fx = Fx::load(h);
    let f = facts();
    let msg = fx.0["kx_message.bin"].clone();
    let (cr, sr, key) = (&msg[..32], &msg[32..64], &msg[68..]);
    let good = ("leaf_p256", "ecdsa_sha256", A::ECDSA_NISTP256_SHA256);
    let sig = fx.0["sig_leaf_p256.ecdsa_sha256.bin"].clone();
    let leaves: Vec<&str> = f.keys().copied().filter(|k| k.starts_with("leaf")).collect();
    let inters: Vec<&str> = f.keys().copied().filter(|k| k.starts_with("inter")).collect();
    // chains, roots, times
    let roots: &[&[&str]] = &[&[], &["root"], &["root2"], &["root", "root2"]];
    let stores: Vec<ServerCertVerifier> = roots.iter().map(|r| fx.verifier(r)).collect();
    let lists = all_seqs(inters.len(), 0, h.tier(3, 4));
    let mut times: Vec<u64> = [2020, 2021, 2022, 2023, 2024, 2026, 2030, 2034, 2035].iter().flat_map(|y| [year(*y) - 1, year(*y), year(*y) + 1]).collect();
    times.push(0);
    times.push(year(2025));
    let items: Vec<(&str, Vec<&str>)> = leaves.iter().flat_map(|l| lists.iter().map(|s| (*l, s.iter().map(|i| inters[*i]).collect()))).collect();
    h.par(&items, |(l, il)| {
        let inter: Vec<_> = il.iter().map(|i| fx.cert(i)).collect();
        for (ri, r) in roots.iter().enumerate() {
            let ts: &[u64] = if chain_ok(&f, l, il, r, year(2025)) && il.len() <= 2 { &times } else { &times[times.len() - 1..] };
            for &t in ts {
                h.case(|| format!("chain/{l}/{}/{ri}/{t}", il.join("+")), || {
                    h.state(&(l, il, ri, t));
                    h.trans(1);
                    let want = chain_ok(&f, l, il, r, t) && name_ok(f[l].sans, "example.com");
                    let got = stores[ri].verify_server_cert(&fx.cert(l), &inter, &name("example.com").unwrap(), t);
                    ck_eq!(got.is_ok(), want, "verdict ({got:?})");
                    Ok(())
                });
            }
        }
    });
    for l in &leaves {
        let inter: Vec<_> = ["inter", "inter2", "inter_nc"].iter().map(|i| fx.cert(i)).collect();
        for n in NAMES {
            h.case(|| format!("name/{l}/{n}"), || {
                h.trans(1);
                let Some(sn) = name(n) else { return Ok(()) };
                let want = chain_ok(&f, l, &["inter", "inter2", "inter_nc"], &["root"], year(2025)) && name_ok(f[l].sans, n);
                ck_eq!(stores[1].verify_server_cert(&fx.cert(l), &inter, &sn, year(2025)).is_ok(), want, "verdict for {n}");
                Ok(())
            });
        }
    }
    // roots that are not certificates are refused
    for (n, d) in &fx.0 {
        if n.ends_with(".der") && (n.starts_with("root") || n.starts_with("inter")) {
            for cut in [0, 1, 4, d.len() / 2, d.len() - 1] {
                h.case(|| format!("root/{n}/{cut}"), || {
                    let ok = fx.cert("root");
                    let st = RootCertStore { roots: vec![ok, CertificateDer(d[..cut].to_vec())] };
                    ck!(ServerCertVerifier::new(&st).is_err(), "truncated root accepted");
                    Ok(())
                });
            }
        }
    }
    // every signature x claimed algorithm x presented leaf
    let keys = ["leaf_p256", "leaf_root_p256", "leaf_deep", "leaf_p384", "leaf_rsa", "leaf_rsa1024", "leaf_ed"];
    let mut items = vec![];
    for (k, v) in &fx.0 {
        if let Some(r) = k.strip_prefix("sig_").and_then(|r| r.strip_suffix(".bin")) {
            let (a, b) = r.split_once('.').unwrap();
            for leaf in keys {
                items.push((leaf, a.to_string(), b.to_string(), v.clone()));
            }
        }
    }
    h.par(&items, |(leaf, signer, made, sig)| {
        for alg in ALGS {
            h.case(|| format!("sig/{leaf}/{signer}.{made}/{alg}"), || {
                h.state(&(leaf, signer, made, alg));
                h.trans(1);
                let d = data(vec![fx.cert(leaf), fx.cert("inter"), fx.cert("inter2")], alg, sig, cr, sr, key);
                let want = leaf == signer && alg_of(signer, made) == Some(alg);
                let got = d.verify(&stores[1], year(2025), &ekey(key), &name("example.com").unwrap());
                ck_eq!(got.is_ok(), want, "verdict ({got:?})");
                // what is stored is what is verified after a round trip
                let d2: HandshakeData = bincode::deserialize(&bincode::serialize(&d).unwrap()).map_err(|e| e.to_string())?;
                ck_eq!(d2.verify(&stores[1], year(2025), &ekey(key), &name("example.com").unwrap()).is_ok(), want, "verdict after a round trip");
                Ok(())
            });
        }
    });
    // everything else about the handshake is bound
    let chain = || vec![fx.cert(good.0), fx.cert("inter")];
    let run = |d: HandshakeData, t: u64, k: &[u8], n: &str| d.verify(&stores[1], t, &ekey(k), &name(n).unwrap()).is_ok();
    h.case(|| "base".into(), || {
        let g = |c, s: &[u8]| data(c, good.2, s, cr, sr, key);
        ck!(run(g(chain(), &sig), year(2025), key, "example.com"), "genuine data refused");
        ck!(!run(g(vec![], &sig), year(2025), key, "example.com"), "no certificates");
        ck!(!run(g(vec![fx.cert("inter"), fx.cert(good.0)], &sig), year(2025), key, "example.com"), "reversed chain");
        ck!(!run(g(vec![fx.cert(good.0)], &sig), year(2025), key, "example.com"), "missing intermediate");
        ck!(!run(g(chain(), &sig), year(2026) + 1, key, "example.com"), "expired");
        ck!(!run(g(chain(), &sig), year(2024) - 1, key, "example.com"), "not yet valid");
        ck!(!run(g(chain(), &sig), year(2025), key, "evil.org"), "other name");
        ck!(!run(g(chain(), &[]), year(2025), key, "example.com"), "no signature");
        ck!(!run(data(chain(), good.2, &sig, sr, cr, key), year(2025), key, "example.com"), "swapped randoms");
        Ok(())
    });
    let n = 32 + 32 + key.len() + sig.len();
    let pos: Vec<usize> = (0..n).collect();
    h.par(&pos, |&i| {
        for b in 0..8u8 {
            h.case(|| format!("bit/{i}/{b}"), || {
                h.state(&("bit", i, b));
                h.trans(2);
                let mut all = [cr, sr, key, &sig[..]].concat();
                all[i] ^= 1 << b;
                let k = &all[64..64 + key.len()];
                let d = data(chain(), good.2, &all[64 + key.len()..], &all[..32], &all[32..64], k);
                ck!(!run(d.clone(), year(2025), k, "example.com"), "changed data accepted");
                // the ephemeral key of the session differs from the one in the data, either way round
                if i >= 64 && i < 64 + key.len() {
                    ck!(!run(d, year(2025), key, "example.com"), "other ephemeral key in the data accepted");
                    let d = data(chain(), good.2, &sig, cr, sr, key);
                    ck!(!run(d, year(2025), k, "example.com"), "other ephemeral key of the session accepted");
                }
                Ok(())
            });
        }
    });
    for cut in 0..key.len() {
        h.case(|| format!("keylen/{cut}"), || {
            let d = data(chain(), good.2, &sig, cr, sr, &key[..cut]);
            ck!(!run(d, year(2025), &key[..cut], "example.com"), "shortened key");
            let d = data(chain(), good.2, &sig, cr, sr, key);
            ck!(!run(d, year(2025), &key[..cut], "example.com"), "prefix of the key accepted for the session");
            Ok(())
        });
    }
    // names as they come out of a decoded identity
    let al = ['a', '9', '-', '.', '_', ' ', '*'];
    let seqs = all_seqs(al.len(), 0, h.tier(6, 7));
    h.par(&seqs, |s| {
        let n: String = s.iter().map(|i| al[*i]).collect();
        h.case(|| format!("dns/{n}"), || {
            let a = DnsName::try_from(n.as_str());
            let b: Result<DnsName, _> = bincode::deserialize(&bincode::serialize(&n).unwrap());
            let labels: Vec<&str> = n.strip_suffix('.').unwrap_or(&n).split('.').collect();
            let want = labels.iter().all(|l| !l.is_empty() && l.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') && !l.starts_with('-') && !l.ends_with('-'))
                && !labels.last().unwrap().chars().all(|c| c.is_ascii_digit());
            ck_eq!(a.is_ok(), want, "accepted");
            ck_eq!(b.is_ok(), want, "decoded");
            if let Ok(d) = a {
                h.state(n.as_str());
                ck_eq!(d.as_str(), n.as_str(), "kept");
                ck_eq!(bincode::serialize(&d).unwrap(), bincode::serialize(&n).unwrap(), "encoding");
            }
            Ok(())
        });
        h.trans(1);
    });
}
