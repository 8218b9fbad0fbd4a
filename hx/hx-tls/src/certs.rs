//! T08 (server identity), T09 (handshake signatures), T11 (certificate transparency).
use crate::model::*;
use hx_lib::*;
use ring::{rand::SystemRandom, signature as rs, signature::KeyPair};
use rustls_pki_types as pki;
use std::{collections::BTreeMap, time::Duration};
use tls_core::{
    anchors::RootCertStore,
    cert::ServerCertDetails,
    dns::ServerName,
    handshake::HandshakeData,
    ke::ServerKxDetails,
    key::Certificate,
    msgs::{
        codec::Codec,
        base::PayloadU16,
        enums::SignatureScheme as S,
        handshake::{DigitallySignedStruct, DistinguishedNames, Random},
    },
    verify::*,
    Error,
};
use web_time::{SystemTime, UNIX_EPOCH};

/// A verifier of clients as bare as can be.
struct Clients(Option<bool>);
impl ClientCertVerifier for Clients {
    fn client_auth_root_subjects(&self) -> Option<DistinguishedNames> {
        Some(vec![])
    }
    fn offer_client_auth(&self) -> bool {
        match self.0 {
            Some(b) => b,
            None => Bare.offer_client_auth(),
        }
    }
}
struct Bare;
impl ClientCertVerifier for Bare {
    fn client_auth_root_subjects(&self) -> Option<DistinguishedNames> {
        None
    }
}
/// A verifier which notes what it is asked and answers as told.
#[derive(Default)]
struct Asked {
    cert: bool,
    sig: bool,
    seen: std::sync::Mutex<Vec<String>>,
}
impl ServerCertVerifier for Asked {
    fn verify_server_cert(&self, e: &Certificate, i: &[Certificate], n: &ServerName, s: &mut (dyn Iterator<Item = &[u8]> + Send), o: &[u8], t: SystemTime) -> Result<ServerCertVerified, Error> {
        let scts: Vec<String> = s.map(hex).collect();
        let i: Vec<String> = i.iter().map(|c| hex(&c.0)).collect();
        self.seen.lock().unwrap().push(format!("cert {} {i:?} {n:?} {scts:?} {} {:?}", hex(&e.0), hex(o), t.duration_since(UNIX_EPOCH).unwrap()));
        if self.cert { Ok(ServerCertVerified::assertion()) } else { Err(Error::General("cert".into())) }
    }
    fn verify_tls12_signature(&self, m: &[u8], c: &Certificate, d: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> {
        self.seen.lock().unwrap().push(format!("sig {} {} {}", hex(m), hex(&c.0), hex(&d.get_encoding())));
        if self.sig { Ok(HandshakeSignatureValid::assertion()) } else { Err(Error::General("sig".into())) }
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &Certificate, _: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> {
        Ok(HandshakeSignatureValid::assertion())
    }
}
/// A stored handshake puts exactly what it holds to the verifier, whose word decides.
fn delegated(h: &Hx) {

    let blobs: [&[u8]; 4] = [b"one", b"", b"three", b"4"];
    for certs in 0..=4usize {
        for scts in 0..=4usize {
            for (ocsp, kx, verdict) in product(&[3, 4, 4]).iter().map(|p| (p[0], p[1], p[2])) {
                h.case(|| format!("delegated/{certs}/{scts}/{ocsp}/{kx}/{verdict}"), || {
                    h.trans(1);
                    h.state(&("delegated", certs, scts, ocsp, kx, verdict));
                    let chain: Vec<Certificate> = blobs[..certs].iter().map(|b| Certificate(b.to_vec())).collect();
                    let list = (scts > 0).then(|| blobs[..scts - 1].iter().map(|b| PayloadU16(b.to_vec())).collect::<Vec<_>>());
                    let d = DigitallySignedStruct::new([S::ED25519, S::RSA_PKCS1_SHA256, S::Unknown(0x9999), S::ECDSA_NISTP384_SHA384][kx], vec![kx as u8; kx]);
                    let (kxp, oc) = (blobs[kx].to_vec(), blobs[ocsp].to_vec());
                    let (cr, sr) = ([0xc1; 32], [0x5e; 32]);
                    let hd = HandshakeData::new(ServerCertDetails::new(chain.clone(), oc.clone(), list.clone()), ServerKxDetails::new(kxp.clone(), d.clone()), Random(cr), Random(sr));
                    let v = Asked { cert: verdict & 1 == 0, sig: verdict & 2 == 0, ..Default::default() };
                    let name = ServerName::try_from("a.example").unwrap();
                    let r = hd.verify(&v, UNIX_EPOCH + Duration::from_secs(77), &name);
                    let seen = v.seen.lock().unwrap().clone();
                    if certs == 0 {
                        ck!(matches!(r, Err(Error::NoCertificatesPresented)), "{r:?}");
                        return Ok(());
                    }
                    let s: Vec<String> = list.unwrap_or_default().iter().map(|s| hex(&s.0)).collect();
                    let i: Vec<String> = chain[1..].iter().map(|c| hex(&c.0)).collect();
                    let wc = format!("cert {} {i:?} {name:?} {s:?} {} {:?}", hex(&chain[0].0), hex(&oc), Duration::from_secs(77));
                    let m = [&cr[..], &sr[..], &kxp[..]].concat();
                    let ws = format!("sig {} {} {}", hex(&m), hex(&chain[0].0), hex(&d.get_encoding()));
                    ck_eq!(r.is_ok(), verdict == 0, "outcome {r:?}");
                    // Either question may come first, and after a refusal the other need not be asked.
                    for q in &seen {
                        ck!(*q == wc || *q == ws, "asked {q}, expected {wc} or {ws}");
                    }
                    if verdict == 0 {
                        ck!(seen.contains(&wc) && seen.contains(&ws), "not asked: {seen:?}");
                    }
                    Ok(())
                });
            }
        }
    }
}

pub struct Fx(pub BTreeMap<String, Vec<u8>>);
impl Fx {
    pub fn load(h: &Hx) -> Self {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(h.dir().join("fixtures/x509")).expect("fixtures").flatten() {
            m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap());
        }
        Fx(m)
    }
    pub fn der(&self, n: &str) -> Vec<u8> {
        self.0[&format!("{n}.der")].clone()
    }
    pub fn cert(&self, n: &str) -> Certificate {
        Certificate(self.der(n))
    }
    pub fn roots(&self, n: &[&str]) -> RootCertStore {
        let roots = n
            .iter()
            .map(|n| {
                let d = pki::CertificateDer::from(self.der(n));
                webpki::anchor_from_trusted_cert(&d).unwrap().to_owned()
            })
            .collect();
        RootCertStore { roots }
    }
}

pub fn at(s: u64) -> SystemTime {
    UNIX_EPOCH + Duration::from_secs(s)
}

pub fn t08(h: &Hx) {
    let fx = Fx::load(h);
    let f = facts();
    let leaves: Vec<&str> = f.keys().copied().filter(|k| k.starts_with("leaf")).collect();
    let inters: Vec<&str> = f.keys().copied().filter(|k| k.starts_with("inter")).collect();
    // lists of supplied intermediates: all ordered lists up to length n
    let n = h.tier(3, 4);
    let lists: Vec<Vec<&str>> = all_seqs(inters.len(), 0, n).into_iter().map(|s| s.iter().map(|i| inters[*i]).collect()).collect();
    let roots: &[&[&str]] = &[&[], &["root"], &["root2"], &["root", "root2"], &["root2", "root"]];
    let mut times = vec![];
    for y in [2020, 2021, 2022, 2023, 2024, 2026, 2030, 2034, 2035, 2040] {
        times.extend([year(y) - 1, year(y), year(y) + 1]);
    }
    times.extend([0, year(2025)]);
    h.note("bounds", format!("{} leaves x {} ordered intermediate lists (length <= {n}) x {} root sets x {} times; {} names; every single-bit change of leaf and intermediate", leaves.len(), lists.len(), roots.len(), times.len(), NAMES.len()));
    let mut items = vec![];
    for l in &leaves {
        for i in &lists {
            items.push((*l, i.clone()));
        }
    }
    let stores: Vec<WebPkiVerifier> = roots.iter().map(|r| WebPkiVerifier::new(fx.roots(r), None)).collect();
    let verify = |v: &WebPkiVerifier, leaf: &Certificate, inter: &[Certificate], name: &str, t: SystemTime| {
        let n = ServerName::try_from(name).map_err(|_| Error::General(String::new()))?;
        v.verify_server_cert(leaf, inter, &n, &mut std::iter::empty(), &[], t).map(|_| ())
    };
    // the time dimension is only explored where the chain is complete; elsewhere two times suffice
    h.par(&items, |(l, il)| {
        let leaf = fx.cert(l);
        let inter: Vec<_> = il.iter().map(|i| fx.cert(i)).collect();
        for (ri, r) in roots.iter().enumerate() {
            let mid = chain_ok(&f, l, il, r, year(2025));
            let ts: &[u64] = if mid && il.len() <= 2 { &times } else { &times[times.len() - 1..] };
            for &t in ts {
                h.case(|| format!("chain/{l}/{}/{}/{t}", il.join("+"), r.join("+")), || {
                    h.state(&(l, il, ri, t));
                    h.trans(1);
                    let want = chain_ok(&f, l, il, r, t) && name_ok(f[l].sans, "example.com");
                    let got = verify(&stores[ri], &leaf, &inter, "example.com", at(t));
                    ck_eq!(got.is_ok(), want, "verdict for a certificate presented for example.com ({got:?})");
                    Ok(())
                });
            }
        }
    });
    // names
    for l in &leaves {
        let inter: Vec<_> = ["inter", "inter2", "inter_nc"].iter().map(|i| fx.cert(i)).collect();
        for n in NAMES {
            h.case(|| format!("name/{l}/{n}"), || {
                h.state(&("name", l, n));
                h.trans(1);
                let want = chain_ok(&f, l, &["inter", "inter2", "inter_nc"], &["root"], year(2025)) && name_ok(f[l].sans, n);
                let got = verify(&stores[1], &fx.cert(l), &inter, n, at(year(2025)));
                ck_eq!(got.is_ok(), want, "verdict for {n} ({got:?})");
                Ok(())
            });
        }
    }
    // surplus certificates of any number around the needed ones, in any position
    let extra = ["leaf_ed", "leaf_rsa", "root2", "leaf_nosan", "inter_nonca", "leaf_client"];
    let ks: Vec<usize> = (0..=h.tier(60, 300)).collect();
    h.par(&ks, |&k| {
        for (l, need) in [("leaf_p256", vec!["inter"]), ("leaf_deep", vec!["inter2", "inter"]), ("leaf_deep", vec!["inter", "inter2"]), ("leaf_root_p256", vec![]), ("leaf_deep", vec!["inter2"]), ("leaf_root2", vec!["inter"])] {
            h.case(|| format!("surplus/{l}/{}/{k}", need.join("+")), || {
                for at0 in 0..=k.min(6) {
                    // `at0` surplus certificates first, the rest between and after
                    let mut il: Vec<&str> = (0..at0).map(|i| extra[i % extra.len()]).collect();
                    for (j, x) in need.iter().enumerate() {
                        il.push(x);
                        if j == 0 {
                            il.extend((at0..k).map(|i| extra[(i * 5 + 1) % extra.len()]));
                        }
                    }
                    let inter: Vec<_> = il.iter().map(|i| fx.cert(i)).collect();
                    let want = chain_ok(&f, l, &need, &["root"], year(2025)) && name_ok(f[l].sans, "example.com");
                    let got = verify(&stores[1], &fx.cert(l), &inter, "example.com", at(year(2025)));
                    ck_eq!(got.is_ok(), want, "verdict with {k} surplus certificates, {at0} of them first ({got:?})");
                    h.trans(1);
                }
                h.state(&("surplus", l, &need, k));
                Ok(())
            });
        }
    });
    // many roots: the right one is found wherever it stands
    for k in [1usize, 2, 10, 60] {
        h.case(|| format!("roots/{k}"), || {
            for at0 in [0, k / 2, k] {
                let mut r = vec!["root2"; k];
                r.insert(at0, "root");
                let v = WebPkiVerifier::new(fx.roots(&r), None);
                ck!(verify(&v, &fx.cert("leaf_p256"), &[fx.cert("inter")], "example.com", at(year(2025))).is_ok(), "root {at0} of {} not found", k + 1);
                h.trans(1);
            }
            let v = WebPkiVerifier::new(fx.roots(&vec!["root2"; k]), None);
            ck!(verify(&v, &fx.cert("leaf_p256"), &[fx.cert("inter")], "example.com", at(year(2025))).is_err(), "no right root among {k}");
            Ok(())
        });
    }
    // before the epoch
    h.case(|| "before-epoch".into(), || {
        let r = verify(&stores[1], &fx.cert("leaf_root_p256"), &[], "example.com", UNIX_EPOCH - Duration::from_secs(1));
        ck!(r.is_err(), "accepted a time before the epoch");
        Ok(())
    });
    // every change of one bit / every truncation of a presented certificate
    let tam: Vec<(&str, usize, usize)> = [("leaf_p256", 0usize), ("leaf_ed", 0), ("inter", 1), ("inter2", 1)]
        .iter()
        .flat_map(|(n, w)| (0..fx.der(n).len()).map(move |i| (*n, *w, i)))
        .collect();
    h.par(&tam, |&(n, which, i)| {
        let bits: Vec<u8> = if h.thorough() { (1..=255).collect() } else { (0..8).map(|b| 1u8 << b).chain([0xff]).collect() };
        let (ln, il): (&str, Vec<&str>) = if which == 0 { (n, vec!["inter"]) } else { ("leaf_deep", vec!["inter2", "inter"]) };
        for m in bits.iter().copied().map(Some).chain([None]) {
            h.case(|| format!("tamper/{n}/{i}/{m:?}"), || {
                h.state(&("t", n, i, m));
                h.trans(1);
                let bad = |x: &str| {
                    let mut d = fx.der(x);
                    if x == n {
                        match m {
                            Some(m) => d[i] ^= m,
                            None => d.truncate(i),
                        }
                    }
                    Certificate(d)
                };
                let inter: Vec<_> = il.iter().map(|x| bad(x)).collect();
                let r = verify(&stores[1], &bad(ln), &inter, "example.com", at(year(2025)));
                ck!(r.is_err(), "accepted a changed certificate");
                Ok(())
            });
        }
    });
    h.case(|| "tamper/base".into(), || {
        for (l, i) in [("leaf_p256", vec!["inter"]), ("leaf_ed", vec!["inter"]), ("leaf_deep", vec!["inter2", "inter"])] {
            let inter: Vec<_> = i.iter().map(|x| fx.cert(x)).collect();
            ck!(verify(&stores[1], &fx.cert(l), &inter, "example.com", at(year(2025))).is_ok(), "unchanged {l} rejected");
        }
        Ok(())
    });
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    P256,
    P384,
    Rsa,
    Rsa1024,
    Ed,
}
const KEYS: &[(&str, K)] = &[("leaf_p256", K::P256), ("leaf_root_p256", K::P256), ("leaf_deep", K::P256), ("leaf_p384", K::P384), ("leaf_rsa", K::Rsa), ("leaf_rsa1024", K::Rsa1024), ("leaf_ed", K::Ed)];

/// (claimed scheme, made with) -> accepted under TLS 1.2, TLS 1.3, and the name of the algorithm.
fn accepts(k: K, made: &str, claimed: S) -> (bool, bool, Option<SignatureAlgorithm>) {
    use SignatureAlgorithm::*;
    let t = |a, t13| (true, t13, Some(a));
    match (k, made, claimed) {
        (K::P256, "ecdsa_sha256", S::ECDSA_NISTP256_SHA256) => t(ECDSA_NISTP256_SHA256, true),
        (K::P256, "ecdsa_sha384", S::ECDSA_NISTP384_SHA384) => t(ECDSA_NISTP256_SHA384, false),
        (K::P384, "ecdsa_sha256", S::ECDSA_NISTP256_SHA256) => t(ECDSA_NISTP384_SHA256, false),
        (K::P384, "ecdsa_sha384", S::ECDSA_NISTP384_SHA384) => t(ECDSA_NISTP384_SHA384, true),
        (K::Ed, "ed25519", S::ED25519) => t(ED25519, true),
        (K::Rsa, "pkcs1_sha256", S::RSA_PKCS1_SHA256) => t(RSA_PKCS1_2048_8192_SHA256, false),
        (K::Rsa, "pkcs1_sha384", S::RSA_PKCS1_SHA384) => t(RSA_PKCS1_2048_8192_SHA384, false),
        (K::Rsa, "pkcs1_sha512", S::RSA_PKCS1_SHA512) => t(RSA_PKCS1_2048_8192_SHA512, false),
        (K::Rsa, "pss_sha256", S::RSA_PSS_SHA256) => t(RSA_PSS_2048_8192_SHA256_LEGACY_KEY, true),
        (K::Rsa, "pss_sha384", S::RSA_PSS_SHA384) => t(RSA_PSS_2048_8192_SHA384_LEGACY_KEY, true),
        (K::Rsa, "pss_sha512", S::RSA_PSS_SHA512) => t(RSA_PSS_2048_8192_SHA512_LEGACY_KEY, true),
        _ => (false, false, None),
    }
}
fn schemes() -> Vec<S> {
    let mut v = vec![];
    for x in (0u16..=0x0fff).chain([0xffff, 0x5a5a]) {
        let s = S::from(x);
        if !matches!(s, S::Unknown(_)) || [0, 0x0403 ^ 0x1000, 0x0402, 0x0807 ^ 1, 0xffff, 0x5a5a].contains(&x) {
            v.push(s);
        }
    }
    v
}
fn dss(s: S, sig: &[u8]) -> DigitallySignedStruct {
    DigitallySignedStruct::new(s, sig.to_vec())
}

pub fn t09(h: &Hx) {
    let fx = Fx::load(h);
    let ver = WebPkiVerifier::new(fx.roots(&["root"]), None);
    let msg = fx.0["kx_message.bin"].clone();
    let sc = schemes();
    let mut sigs: Vec<(String, String, Vec<u8>)> = vec![]; // signer, algorithm, bytes
    for (k, v) in &fx.0 {
        if let Some(r) = k.strip_prefix("sig_").and_then(|r| r.strip_suffix(".bin")) {
            let (a, b) = r.split_once('.').unwrap();
            sigs.push((a.into(), b.into(), v.clone()));
        }
    }
    h.note("bounds", format!("{} keys x {} signatures x {} scheme codes; every bit of message and signature for one signature per key type; all field mutations of the signed handshake", KEYS.len(), sigs.len(), sc.len()));
    let mut items = vec![];
    for (c, k) in KEYS {
        for s in &sigs {
            items.push((*c, *k, s.clone()));
        }
    }
    // The verifier of servers, and the one of clients, whose verdict is the same.
    let both = |a: bool, b: bool| -> Result<bool, String> {
        ck_eq!(b, a, "verdict on a client's signature");
        Ok(a)
    };
    let t12 = |m: &[u8], c: &str, d: &DigitallySignedStruct| both(ver.verify_tls12_signature(m, &fx.cert(c), d).is_ok(), Clients(None).verify_tls12_signature(m, &fx.cert(c), d).is_ok());
    let t13 = |m: &[u8], c: &str, d: &DigitallySignedStruct| both(ver.verify_tls13_signature(m, &fx.cert(c), d).is_ok(), Clients(None).verify_tls13_signature(m, &fx.cert(c), d).is_ok());
    h.par(&items, |(c, k, (signer, made, sig))| {
        for s in &sc {
            h.case(|| format!("scheme/{c}/{signer}.{made}/{:04x}", s.get_u16()), || {
                h.state(&(c, signer, made, s.get_u16()));
                h.trans(3);
                let (w12, w13, alg) = if signer == c { accepts(*k, made, *s) } else { (false, false, None) };
                let d = dss(*s, sig);
                ck_eq!(t12(&msg, c, &d)?, w12, "TLS 1.2 verdict");
                ck_eq!(t13(&msg, c, &d)?, w13, "TLS 1.3 verdict");
                let got = verify_sig_determine_alg(&fx.cert(c), &msg, &d);
                ck_eq!(got.as_ref().ok().copied(), alg, "algorithm that verified ({:?})", got.err());
                Ok(())
            });
        }
    });
    h.case(|| "advertised".into(), || {
        // everything advertised must be verifiable, in some key type, and nothing else
        let adv = WebPkiVerifier::verification_schemes();
        for s in &sc {
            let usable = sigs.iter().any(|(c, a, sig)| {
                let _ = sig;
                KEYS.iter().any(|(n, k)| n == c && accepts(*k, a, *s).0)
            });
            ck_eq!(adv.contains(s), usable, "advertised {s:?}");
        }
        ck_eq!(ver.supported_verify_schemes(), adv, "supported schemes");
        ck_eq!(Clients(None).supported_verify_schemes(), adv, "schemes supported for clients");
        // What a verifier does unless told otherwise.
        ck!(ver.request_scts(), "timestamps are asked for");
        ck!(Clients(None).offer_client_auth(), "client certificates are asked for");
        ck_eq!(Clients(None).client_auth_mandatory(), Some(true), "client certificates are mandatory when asked for");
        for b in [false, true] {
            ck_eq!((Clients(Some(b)).offer_client_auth(), Clients(Some(b)).client_auth_mandatory()), (b, Some(b)), "client certificates");
        }
        Ok(())
    });
    delegated(h);
    // bit changes
    let mut muts = vec![];
    for (c, a, s) in [
        ("leaf_p256", "ecdsa_sha256", S::ECDSA_NISTP256_SHA256),
        ("leaf_p384", "ecdsa_sha384", S::ECDSA_NISTP384_SHA384),
        ("leaf_rsa", "pss_sha256", S::RSA_PSS_SHA256),
        ("leaf_rsa", "pkcs1_sha256", S::RSA_PKCS1_SHA256),
        ("leaf_ed", "ed25519", S::ED25519),
    ] {
        let sig = fx.0[&format!("sig_{c}.{a}.bin")].clone();
        for i in 0..msg.len() + 1 {
            muts.push((c, s, sig.clone(), true, i));
        }
        for i in 0..sig.len() + 1 {
            muts.push((c, s, sig.clone(), false, i));
        }
    }
    h.par(&muts, |(c, s, sig, in_msg, i)| {
        let bits: Vec<u8> = if h.thorough() { (1..=255).collect() } else { (0..8).map(|b| 1u8 << b).collect() };
        for (j, b) in bits.iter().enumerate() {
            h.case(|| format!("bits/{c}/{s:?}/{in_msg}/{i}/{b}"), || {
                h.state(&(c, s.get_u16(), in_msg, i, b));
                h.trans(2);
                let (mut m, mut g) = (msg.clone(), sig.clone());
                let t = if *in_msg { &mut m } else { &mut g };
                if *i < t.len() { t[*i] ^= b } else { t.push(0) }
                let d = dss(*s, &g);
                ck!(!t12(&m, c, &d)?, "TLS 1.2 accepted a changed signature or message");
                ck!(!t13(&m, c, &d)?, "TLS 1.3 accepted a changed signature or message");
                ck!(verify_sig_determine_alg(&fx.cert(c), &m, &d).is_err(), "accepted a changed signature or message");
                if j == 0 {
                    let mut t = if *in_msg { msg.clone() } else { sig.clone() };
                    if *i < t.len() {
                        t.truncate(*i);
                        let (m, g) = if *in_msg { (t, sig.clone()) } else { (msg.clone(), t) };
                        ck!(!t12(&m, c, &dss(*s, &g))?, "accepted a truncation");
                    }
                }
                Ok(())
            });
        }
    });
    // the signed handshake as a whole
    let now = at(year(2025));
    let part = |a: usize, b: usize| msg[a..b].to_vec();
    for (c, a, s) in [
        ("leaf_p256", "ecdsa_sha256", S::ECDSA_NISTP256_SHA256),
        ("leaf_p256", "ecdsa_sha384", S::ECDSA_NISTP384_SHA384),
        ("leaf_p384", "ecdsa_sha384", S::ECDSA_NISTP384_SHA384),
        ("leaf_rsa", "pss_sha256", S::RSA_PSS_SHA256),
        ("leaf_rsa", "pkcs1_sha512", S::RSA_PKCS1_SHA512),
        ("leaf_ed", "ed25519", S::ED25519),
    ] {
        let sig = fx.0[&format!("sig_{c}.{a}.bin")].clone();
        let arr = |v: &[u8]| -> [u8; 32] { v.try_into().unwrap() };
        let run = |chain: Vec<Certificate>, cr: &[u8], sr: &[u8], kx: &[u8], d: DigitallySignedStruct, name: &str, now: SystemTime| {
            HandshakeData::new(
                ServerCertDetails::new(chain, vec![], None),
                ServerKxDetails::new(kx.to_vec(), d),
                Random(arr(cr)),
                Random(arr(sr)),
            )
            .verify(&ver, now, &ServerName::try_from(name).unwrap())
        };
        let chain = vec![fx.cert(c), fx.cert("inter")];
        h.case(|| format!("hs/{c}/{a}/base"), || {
            ck!(run(chain.clone(), &part(0, 32), &part(32, 64), &msg[64..], dss(s, &sig), "example.com", now).is_ok(), "rejected a genuine handshake");
            let r = run(vec![], &part(0, 32), &part(32, 64), &msg[64..], dss(s, &sig), "example.com", now);
            ck!(matches!(r, Err(Error::NoCertificatesPresented)), "empty chain: {r:?}");
            // swapped randoms, moved boundaries
            ck!(run(chain.clone(), &part(32, 64), &part(0, 32), &msg[64..], dss(s, &sig), "example.com", now).is_err(), "swapped randoms");
            ck!(run(chain.clone(), &part(0, 32), &part(32, 64), &msg[65..], dss(s, &sig), "example.com", now).is_err(), "shortened kx");
            ck!(run(chain.clone(), &part(0, 32), &part(32, 64), &msg[..64], dss(s, &sig), "example.com", now).is_err(), "other kx");
            ck!(run(chain.clone(), &part(0, 32), &part(32, 64), &[], dss(s, &sig), "example.com", now).is_err(), "empty kx");
            ck!(run(chain.clone(), &part(0, 32), &part(32, 64), &msg[64..], dss(s, &sig), "evil.org", now).is_err(), "other name");
            ck!(run(chain.clone(), &part(0, 32), &part(32, 64), &msg[64..], dss(s, &sig), "example.com", at(year(2026) + 1)).is_err(), "expired");
            ck!(run(vec![fx.cert(c)], &part(0, 32), &part(32, 64), &msg[64..], dss(s, &sig), "example.com", now).is_err(), "missing intermediate");
            ck!(run(vec![fx.cert("inter"), fx.cert(c)], &part(0, 32), &part(32, 64), &msg[64..], dss(s, &sig), "example.com", now).is_err(), "reversed chain");
            // a valid chain for another key
            for (o, _) in KEYS.iter().filter(|(o, _)| *o != c) {
                let ch = vec![fx.cert(o), fx.cert("inter"), fx.cert("inter2"), fx.cert(c)];
                ck!(run(ch, &part(0, 32), &part(32, 64), &msg[64..], dss(s, &sig), "example.com", now).is_err(), "signature by a key that is not the leaf's ({o})");
            }
            h.trans(20);
            Ok(())
        });
        // every deletion, insertion and swap inside the parameters; every run moved over the boundaries
        for i in 64..=msg.len() {
            h.case(|| format!("hs/{c}/{a}/edit/{i}"), || {
                h.state(&("hse", c, a, i));
                let mut eds: Vec<Vec<u8>> = vec![];
                for k in 1..=(msg.len() - i).min(4) {
                    let mut m = msg[64..].to_vec();
                    m.drain(i - 64..i - 64 + k);
                    eds.push(m);
                }
                for k in [1usize, 2, 3, 4, 8, 32, 64, 4096] {
                    let mut m = msg[64..].to_vec();
                    m.splice(i - 64..i - 64, std::iter::repeat(if k % 2 == 0 { 0 } else { 0xa5 }).take(k));
                    eds.push(m);
                }
                if i + 1 < msg.len() && msg[i] != msg[i + 1] {
                    let mut m = msg[64..].to_vec();
                    m.swap(i - 64, i + 1 - 64);
                    eds.push(m);
                }
                for kx in eds {
                    h.trans(1);
                    ck!(run(chain.clone(), &part(0, 32), &part(32, 64), &kx, dss(s, &sig), "example.com", now).is_err(), "accepted parameters of {} bytes that were not signed", kx.len());
                }
                Ok(())
            });
        }
        for i in 0..msg.len() {
            h.case(|| format!("hs/{c}/{a}/bit/{i}"), || {
                h.state(&("hs", c, a, i));
                h.trans(1);
                let mut m = msg.clone();
                m[i] ^= 1 << (i % 8);
                ck!(run(chain.clone(), &m[..32], &m[32..64], &m[64..], dss(s, &sig), "example.com", now).is_err(), "accepted with byte {i} changed");
                Ok(())
            });
        }
    }
    // TLS 1.3 CertificateVerify content
    h.case(|| "tls13-context".into(), || {
        for n in [0usize, 1, 5] {
            for alg in [&ring::digest::SHA256, &ring::digest::SHA384] {
                let d = ring::digest::digest(alg, &vec![7; n]);
                for (got, who) in [(construct_tls13_server_verify_message(&d), "server"), (construct_tls13_client_verify_message(&d), "client")] {
                    let want = [&[0x20u8; 64][..], format!("TLS 1.3, {who} CertificateVerify").as_bytes(), &[0], d.as_ref()].concat();
                    ck_eq!(got, want, "{who} verify message");
                }
            }
        }
        Ok(())
    });
    let _ = PayloadU16(vec![]);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sct {
    Good,
    GoodLog2,
    Unknown,
    Version,
    BadSig,
    Future,
    Malformed,
    OtherCert,
    AtNow,
    SwapLog,
}
const SCTS: &[Sct] = &[Sct::Good, Sct::GoodLog2, Sct::Unknown, Sct::Version, Sct::BadSig, Sct::Future, Sct::Malformed, Sct::OtherCert, Sct::AtNow, Sct::SwapLog];

pub fn t11(h: &Hx) {
    let fx = Fx::load(h);
    let rng = SystemRandom::new();
    let mk = |n: &str| rs::EcdsaKeyPair::from_pkcs8(&rs::ECDSA_P256_SHA256_ASN1_SIGNING, &fx.0[&format!("{n}.p8")], &rng).unwrap();
    let (k1, k2) = (mk("leaf_deep"), mk("leaf_root_p256"));
    let log = |k: &rs::EcdsaKeyPair, id: u8| -> &'static sct::Log<'static> {
        Box::leak(Box::new(sct::Log {
            description: "l", url: "u", operated_by: "o",
            key: Box::leak(k.public_key().as_ref().to_vec().into_boxed_slice()),
            id: [id; 32], max_merge_delay: 86400,
        }))
    };
    let logs: &'static [&'static sct::Log<'static>] = Box::leak(Box::new([log(&k1, 1), log(&k2, 2)]));
    let now_s = year(2025);
    let leaf = fx.cert("leaf_p256");
    let other = fx.cert("leaf_p384");
    let make = |k: &rs::EcdsaKeyPair, id: u8, cert: &[u8], ts: u64| -> Vec<u8> {
        let mut d = vec![0, 0];
        d.extend(ts.to_be_bytes());
        d.extend([0, 0]);
        d.extend(&(cert.len() as u32).to_be_bytes()[1..]);
        d.extend(cert);
        d.extend([0, 0]);
        let sig = k.sign(&rng, &d).unwrap();
        let mut o = vec![0];
        o.extend([id; 32]);
        o.extend(ts.to_be_bytes());
        o.extend([0, 0, 4, 3]);
        o.extend((sig.as_ref().len() as u16).to_be_bytes());
        o.extend(sig.as_ref());
        o
    };
    let ms = now_s * 1000;
    let enc: Vec<Vec<u8>> = SCTS
        .iter()
        .map(|s| match s {
            Sct::Good => make(&k1, 1, &leaf.0, ms - 1),
            Sct::GoodLog2 => make(&k2, 2, &leaf.0, ms - 5000),
            Sct::Unknown => make(&k1, 9, &leaf.0, ms - 1),
            Sct::Version => {
                let mut v = make(&k1, 1, &leaf.0, ms - 1);
                v[0] = 1;
                v
            }
            Sct::BadSig => {
                let mut v = make(&k1, 1, &leaf.0, ms - 1);
                let n = v.len() - 1;
                v[n] ^= 1;
                v
            }
            Sct::Future => make(&k1, 1, &leaf.0, ms + 1),
            Sct::Malformed => vec![0; 20],
            Sct::OtherCert => make(&k1, 1, &other.0, ms - 1),
            Sct::AtNow => make(&k1, 1, &leaf.0, ms),
            Sct::SwapLog => make(&k1, 2, &leaf.0, ms - 1),
        })
        .collect();
    let n = h.tier(4, 5);
    // (logs configured, deadline relative to now in s) -> enforced
    let pol: &[(bool, i64)] = &[(true, 1), (true, 0), (true, -1), (false, 1), (true, 86400)];
    h.note("bounds", format!("every list of <= {n} timestamps over {} kinds x {} policies", SCTS.len(), pol.len()));
    let seqs = all_seqs(SCTS.len(), 0, n);
    let vers: Vec<WebPkiVerifier> = pol
        .iter()
        .map(|(l, d)| {
            let dl = if *d >= 0 { at(now_s + *d as u64) } else { at(now_s - (-*d) as u64) };
            WebPkiVerifier::new(fx.roots(&["root"]), Some(CertificateTransparencyPolicy::new(if *l { logs } else { &[] }, dl)))
        })
        .collect();
    let inter = [fx.cert("inter")];
    let name = ServerName::try_from("example.com").unwrap();
    let host = name.clone();
    let (kxm, kxs) = (fx.0["kx_message.bin"].clone(), fx.0["sig_leaf_p256.ecdsa_sha256.bin"].clone());
    h.par(&seqs, |s| {
        for (pi, (l, d)) in pol.iter().enumerate() {
            h.case(|| format!("sct/{pi}/{:?}", s.iter().map(|i| SCTS[*i]).collect::<Vec<_>>()), || {
                h.state(&(pi, s));
                h.trans(s.len() as u64 + 1);
                let mut it = s.iter().map(|i| enc[*i].as_slice());
                let got = vers[pi].verify_server_cert(&leaf, &inter, &name, &mut it, &[], at(now_s)).map(|_| ());
                let want: Result<(), sct::Error> = if !*l || *d < 0 {
                    Ok(())
                } else {
                    let mut w = Ok(());
                    for i in s {
                        match SCTS[*i] {
                            Sct::Good | Sct::GoodLog2 | Sct::AtNow => {
                                w = Ok(());
                                break;
                            }
                            Sct::Unknown => w = Err(sct::Error::UnknownLog),
                            Sct::Version => w = Err(sct::Error::UnsupportedSctVersion),
                            Sct::BadSig | Sct::OtherCert | Sct::SwapLog => {
                                w = Err(sct::Error::InvalidSignature);
                                break;
                            }
                            Sct::Future => {
                                w = Err(sct::Error::TimestampInFuture);
                                break;
                            }
                            Sct::Malformed => {
                                w = Err(sct::Error::MalformedSct);
                                break;
                            }
                        }
                    }
                    w
                };
                // the same timestamps inside a stored handshake, which is otherwise genuine
                let hd = |scts: Option<Vec<PayloadU16>>, ocsp: Vec<u8>| {
                    HandshakeData::new(
                        ServerCertDetails::new(vec![leaf.clone(), inter[0].clone()], ocsp, scts),
                        ServerKxDetails::new(kxm[64..].to_vec(), dss(S::ECDSA_NISTP256_SHA256, &kxs)),
                        Random(kxm[..32].try_into().unwrap()),
                        Random(kxm[32..64].try_into().unwrap()),
                    )
                    .verify(&vers[pi], at(now_s), &name)
                };
                let list: Vec<PayloadU16> = s.iter().map(|i| PayloadU16(enc[*i].clone())).collect();
                let ocsp = vec![s.len() as u8; s.len()];
                let mut all = vec![("certificate", got), ("handshake", hd(Some(list), ocsp))];
                if s.is_empty() {
                    all.push(("handshake without a list", hd(None, vec![])));
                }
                for (what, got) in all {
                    match (&got, &want) {
                        (Ok(()), Ok(())) => {}
                        (Err(Error::InvalidSct(a)), Err(b)) if a == b => {}
                        _ => return Err(format!("{what}: got {got:?}, expected {want:?}")),
                    }
                }
                Ok(())
            });
        }
    });
    // long lists: harmless timestamps in any number before a deciding one
    let ks: Vec<usize> = h.tier((0..=300).chain([1000]).collect(), (0..=1500).chain([5000]).collect());
    h.par(&ks, |&k| {
        for (name, fill) in [("unknown", vec![2usize]), ("version", vec![3]), ("mixed", vec![2, 3, 2])] {
            for last in 0..SCTS.len() {
                h.case(|| format!("long/{name}/{k}/{last}"), || {
                    let mut l: Vec<&[u8]> = (0..k).map(|i| enc[fill[i % fill.len()]].as_slice()).collect();
                    l.push(&enc[last]);
                    let got = vers[0].verify_server_cert(&leaf, &inter, &host, &mut l.iter().copied(), &[], at(now_s)).is_ok();
                    ck_eq!(got, matches!(SCTS[last], Sct::Good | Sct::GoodLog2 | Sct::AtNow), "verdict with {k} undecided timestamps before {:?}", SCTS[last]);
                    // and a decided one is not undone by what follows
                    let mut l: Vec<&[u8]> = vec![&enc[last]];
                    l.extend((0..k).map(|i| enc[fill[i % fill.len()]].as_slice()));
                    let got = vers[0].verify_server_cert(&leaf, &inter, &host, &mut l.iter().copied(), &[], at(now_s)).is_ok();
                    ck_eq!(got, matches!(SCTS[last], Sct::Good | Sct::GoodLog2 | Sct::AtNow), "verdict with {k} undecided timestamps after {:?}", SCTS[last]);
                    h.trans(2);
                    h.state(&("long", name, k, last));
                    Ok(())
                });
            }
        }
    });
    // every moment around the deadline, every moment around the timestamp
    for dl in [-86400i64 * 3650, -86400, -2, -1, 0, 1, 2, 86400, 86400 * 3650] {
        for kind in 0..SCTS.len() {
            h.case(|| format!("deadline/{dl}/{kind}"), || {
                let d = at((now_s as i64 + dl) as u64);
                for ns in [0u64, 1, 999_999_999] {
                    let v = WebPkiVerifier::new(fx.roots(&["root"]), Some(CertificateTransparencyPolicy::new(logs, d)));
                    let t = at(now_s) + Duration::from_nanos(ns);
                    let mut it = [enc[kind].as_slice()].into_iter();
                    let got = v.verify_server_cert(&leaf, &inter, &host, &mut it, &[], t).is_ok();
                    let enforced = d >= t;
                    if SCTS[kind] == Sct::Future && ns > 0 && enforced {
                        continue; // verifiers may count time in whole seconds
                    }
                    let good = matches!(SCTS[kind], Sct::Good | Sct::GoodLog2 | Sct::AtNow);
                    ck_eq!(got, !enforced || good, "deadline {dl} s from now, {:?}, {ns} ns into the second", SCTS[kind]);
                    h.trans(1);
                }
                h.state(&("dl", dl, kind));
                Ok(())
            });
        }
    }
    // the policy never makes an untrusted or misnamed certificate acceptable
    h.case(|| "policy-is-extra".into(), || {
        for v in &vers {
            for (l, i, n) in [("leaf_root2", "inter", "example.com"), ("leaf_p256", "inter", "evil.org"), ("leaf_p256", "inter2", "example.com"), ("leaf_client", "inter", "example.com")] {
                let mut it = [make(&k1, 1, &fx.der(l), ms - 1)].into_iter().collect::<Vec<_>>();
                let s = it.pop().unwrap();
                let mut it = [s.as_slice()].into_iter();
                let r = v.verify_server_cert(&fx.cert(l), &[fx.cert(i)], &ServerName::try_from(n).unwrap(), &mut it, &[], at(now_s));
                ck!(r.is_err(), "{l} {i} {n} accepted");
            }
        }
        Ok(())
    });
}
