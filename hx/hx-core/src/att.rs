//! A01-A07: requests, attestations and presentations.
use crate::{conn::Fx, model::year, partial::Wire, proof::*, util::*};
use hx_lib::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use tlsn_attestation::{
    connection::{ServerCertCommitment, ServerIdentityProof},
    presentation::{Presentation, PresentationOutput},
    request::{Request, RequestConfig},
    signing::*,
    Attestation, AttestationConfig, CryptoProvider, Extension, Header, InvalidExtension, Secrets,
};
use tlsn_core::{
    connection::{
        CertBinding, CertBindingV1_2, ConnectionInfo, DnsName, HandshakeData, KeyType, ServerEphemKey, ServerName, ServerSignature,
        SignatureAlgorithm, TlsVersion, TranscriptLength,
    },
    hash::{Blake3, Blinder, Hash, HashAlgId, HashAlgorithm, HashProvider, Keccak256, Sha256, TypedHash},
    merkle::{MerkleProof, MerkleTree},
    transcript::{Transcript, TranscriptCommitment, TranscriptProof},
    webpki::{RootCertStore, ServerCertVerifier},
};

// ---- wire forms -------------------------------------------------------------------------------
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct MF<T> {
    id: u32,
    data: T,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct MBody {
    vk: MF<VerifyingKey>,
    ci: MF<ConnectionInfo>,
    key: MF<ServerEphemKey>,
    cc: MF<TypedHash>,
    ext: Vec<MF<Extension>>,
    tc: Vec<MF<TranscriptCommitment>>,
}
#[derive(Serialize, Deserialize, Clone)]
struct MAtt {
    sig: Signature,
    header: Header,
    body: MBody,
}
#[derive(Serialize, Deserialize, Clone)]
struct MProof {
    sig: Signature,
    header: Header,
    body: MBody,
    proof: MerkleProof,
}
#[derive(Serialize, Deserialize, Clone)]
struct MId {
    name: ServerName,
    data: HandshakeData,
    blinder: Blinder,
}
#[derive(Serialize, Deserialize, Clone)]
struct MPres {
    att: MProof,
    id: Option<MId>,
    tr: Option<TranscriptProof>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct MReq {
    sa: SignatureAlgId,
    ha: HashAlgId,
    cc: TypedHash,
    ext: Vec<Extension>,
}
fn conv<A: Serialize, B: DeserializeOwned>(a: &A) -> Result<B, String> {
    bincode::deserialize(&bincode::serialize(a).map_err(|e| e.to_string())?).map_err(|e| format!("wire form: {e}"))
}
fn bytes<T: Serialize>(t: &T) -> Vec<u8> {
    bincode::serialize(t).unwrap()
}

// ---- reference --------------------------------------------------------------------------------
fn hasher(id: HashAlgId) -> Box<dyn HashAlgorithm + Send + Sync> {
    match id.as_u8() {
        1 => Box::new(Sha256::default()),
        2 => Box::new(Blake3::default()),
        3 => Box::new(Keccak256::default()),
        _ => panic!("no such hash"),
    }
}
/// The hash of a field: a 16 byte domain derived from its type, then its canonical encoding.
fn leaf<T: Serialize>(a: HashAlgId, ty: &str, t: &T) -> Hash {
    let d = blake3::hash(ty.as_bytes());
    hasher(a).hash(&[&d.as_bytes()[..16], &bcs::to_bytes(t).unwrap()].concat())
}
const TY: [&str; 6] = [
    "VerifyingKey",
    "tlsn_core::connection::ConnectionInfo",
    "tlsn_core::connection::ServerEphemKey",
    "ServerCertCommitment",
    "Extension",
    "tlsn_core::transcript::TranscriptCommitment",
];
fn leaves(a: HashAlgId, b: &MBody) -> Vec<(u32, Hash)> {
    let mut v = vec![
        (b.vk.id, leaf(a, TY[0], &b.vk.data)),
        (b.ci.id, leaf(a, TY[1], &b.ci.data)),
        (b.key.id, leaf(a, TY[2], &b.key.data)),
        (b.cc.id, leaf(a, TY[3], &b.cc.data)),
    ];
    v.extend(b.ext.iter().map(|e| (e.id, leaf(a, TY[4], &e.data))));
    v.extend(b.tc.iter().map(|e| (e.id, leaf(a, TY[5], &e.data))));
    v.sort_by_key(|x| x.0);
    v
}
fn root(a: HashAlgId, l: &[Hash]) -> Hash {
    let mut l = l.to_vec();
    let h = hasher(a);
    while l.len() > 1 {
        l = l.chunks(2).map(|c| if c.len() == 2 { h.hash(&[c[0].as_bytes(), c[1].as_bytes()].concat()) } else { c[0] }).collect();
    }
    l[0]
}

// ---- sessions ---------------------------------------------------------------------------------
const SA: [SignatureAlgId; 3] = [SignatureAlgId::SECP256K1, SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1ETH];
const HA: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];

fn provider(fx: &Fx) -> CryptoProvider {
    let mut p = CryptoProvider {
        hash: HashProvider::default(),
        cert: ServerCertVerifier::new(&RootCertStore { roots: vec![fx.cert("root")] }).unwrap(),
        signer: SignerProvider::default(),
        signature: SignatureVerifierProvider::default(),
    };
    p.signer.set_secp256k1(&[42; 32]).unwrap();
    p.signer.set_secp256r1(&[44; 32]).unwrap();
    p.signer.set_secp256k1eth(&[43; 32]).unwrap();
    p
}
fn ext(i: usize) -> Extension {
    let v: [(&[u8], &[u8]); 4] = [(b"a", b"1"), (b"b", b"2"), (b"", b""), (b"a", b"")];
    Extension { id: v[i].0.to_vec(), value: v[i].1.to_vec() }
}
fn dns(n: &str) -> ServerName {
    ServerName::Dns(DnsName::try_from(n).unwrap())
}

#[derive(Clone, Debug)]
struct Spec {
    n: usize,
    sa: SignatureAlgId,
    ha: HashAlgId,
    ext: Vec<usize>,
    syms: Vec<Sym>,
}
struct Sess {
    t: Transcript,
    info: ConnectionInfo,
    key: ServerEphemKey,
    tcs: Vec<TranscriptCommitment>,
    req: Request,
    sec: Secrets,
}
/// A genuine session number `n`: its own transcript, server and ephemeral key.
fn hs(fx: &Fx, n: usize) -> (HandshakeData, ServerEphemKey) {
    let leafs = ["leaf_p256", "leaf_deep", "leaf_root_p256", "leaf_p256"];
    let m = &fx.0["kx_message.bin"];
    let (mut cr, sr, mut key): ([u8; 32], [u8; 32], Vec<u8>) = (m[..32].try_into().unwrap(), m[32..64].try_into().unwrap(), m[68..].to_vec());
    cr[0] ^= n as u8;
    key[9] ^= n as u8;
    let msg = [&cr[..], &sr, &[3, 0, 23, key.len() as u8], &key].concat();
    let rng = ring::rand::SystemRandom::new();
    let k = ring::signature::EcdsaKeyPair::from_pkcs8(&ring::signature::ECDSA_P256_SHA256_ASN1_SIGNING, &fx.0[&format!("{}.p8", leafs[n])], &rng).expect("fixture key");
    let ek = ServerEphemKey { typ: KeyType::SECP256R1, key };
    let d = HandshakeData {
        certs: vec![fx.cert(leafs[n]), fx.cert("inter"), fx.cert("inter2")],
        sig: ServerSignature { alg: SignatureAlgorithm::ECDSA_NISTP256_SHA256, sig: k.sign(&rng, &msg).unwrap().as_ref().to_vec() },
        binding: CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ek.clone() }),
    };
    (d, ek)
}
fn session(fx: &Fx, p: &CryptoProvider, s: &Spec) -> Result<Sess, String> {
    let t = Transcript::new((0..5u8).map(|i| i * 7 + s.n as u8).collect::<Vec<_>>(), (0..4u8).map(|i| 100 + i * 5 + s.n as u8).collect::<Vec<_>>());
    let (d, key) = hs(fx, s.n);
    let tcs: Vec<_> = s.syms.iter().map(|x| x.commit(&p.hash, &t)).collect();
    let secrets = s.syms.iter().map(|x| tlsn_core::transcript::TranscriptSecret::Hash(x.secret())).collect();
    let mut c = RequestConfig::builder();
    c.signature_alg(s.sa).hash_alg(s.ha);
    for e in &s.ext {
        c.extension(ext(*e));
    }
    let c = c.build().map_err(|e| e.to_string())?;
    let mut b = Request::builder(&c);
    b.server_name(dns("example.com")).handshake_data(d).transcript(t.clone()).transcript_commitments(secrets, tcs.clone());
    let (req, sec) = b.build(p).map_err(|e| format!("request: {e}"))?;
    let info = ConnectionInfo { time: year(2025) + s.n as u64, version: TlsVersion::V1_2, transcript_length: TranscriptLength { sent: 5, received: 4 } };
    Ok(Sess { t, info, key, tcs, req, sec })
}
fn attest(p: &CryptoProvider, s: &Sess, sa: SignatureAlgId) -> Result<Attestation, String> {
    let mut b = AttestationConfig::builder();
    b.supported_signature_algs([sa]).extension_validator(|_| Ok(()));
    let c = b.build().map_err(|e| e.to_string())?;
    let mut b = Attestation::builder(&c).accept_request(s.req.clone()).map_err(|e| format!("accept: {e}"))?;
    b.connection_info(s.info.clone()).server_ephemeral_key(s.key.clone()).transcript_commitments(s.tcs.clone());
    b.build(p).map_err(|e| format!("attest: {e}"))
}
/// Presents everything the opened commitments `m` (sent, received) cover.
fn present(p: &CryptoProvider, s: &Sess, a: &Attestation, m: Option<[u32; 2]>, id: bool) -> Result<Presentation, String> {
    let mut b = a.presentation_builder(p);
    if id {
        b.identity_proof(s.sec.identity_proof());
    }
    if let Some(m) = m {
        let mut t = s.sec.transcript_proof_builder();
        t.reveal_sent(&set(m[0])).map_err(|e| e.to_string())?;
        t.reveal_recv(&set(m[1])).map_err(|e| e.to_string())?;
        b.transcript_proof(t.build().map_err(|e| format!("proof: {e}"))?);
    }
    b.build().map_err(|e| e.to_string())
}
/// Everything a user of a verified presentation sees.
fn seen(o: &PresentationOutput) -> [Vec<u8>; 3] {
    let t: Option<Wire> = o.transcript.clone().map(|t| Wire {
        sent_authed: t.sent_authed().iter().flat_map(|r| r.flat_map(|i| t.sent_unsafe()[i..i + 1].to_vec()).collect::<Vec<_>>()).collect(),
        received_authed: t.received_authed().iter().flat_map(|r| r.flat_map(|i| t.received_unsafe()[i..i + 1].to_vec()).collect::<Vec<_>>()).collect(),
        sent_idx: t.sent_authed().clone(),
        recv_idx: t.received_authed().clone(),
        sent_total: t.len_sent(),
        recv_total: t.len_received(),
    });
    // a name is the same name in any letter case
    let name = o.server_name.as_ref().map(|n| {
        let ServerName::Dns(d) = n;
        d.as_str().to_ascii_lowercase()
    });
    [bytes(&(&o.connection_info, &o.extensions, &o.attestation.header, &o.attestation.body)), name.map(|n| bytes(&n)).unwrap_or_default(), t.map(|t| bytes(&t)).unwrap_or_default()]
}
fn specs(h: &Hx) -> Vec<Spec> {
    let c0 = Sym { d: 0, m: 0b00111, a: 1, b: 1 };
    let c1 = Sym { d: 1, m: 0b1111, a: 2, b: 2 };
    let c2 = Sym { d: 0, m: 0b11000, a: 3, b: 3 };
    let mut v = vec![];
    for sa in SA {
        for ha in HA {
            for e in all_seqs(4, 0, h.tier(3, 4)) {
                for n in 0..=3 {
                    v.push(Spec { n: (n + e.len()) % 3, sa, ha, ext: e.clone(), syms: [c0, c1, c2][..n].to_vec() });
                }
            }
        }
    }
    v
}

/// A01: what is attested is exactly what was put in, and an altered attestation body never verifies.
pub fn a01(h: &Hx) {
    let fx = Fx::load(h);
    let sp = specs(h);
    h.par(&sp, |s| {
        let p = provider(&fx);
        h.case(|| format!("content/{s:?}"), || {
            h.state(&format!("{s:?}"));
            h.trans(4);
            let x = session(&fx, &p, s)?;
            let a = attest(&p, &x, s.sa)?;
            x.req.validate(&a, &p).map_err(|e| format!("own attestation refused: {e}"))?;
            let m: MAtt = conv(&a)?;
            let q: MReq = conv(&x.req)?;
            ck_eq!(m.body.ci.data, x.info, "connection info");
            ck_eq!(m.body.key.data, x.key, "ephemeral key");
            ck_eq!(m.body.cc.data, q.cc, "certificate commitment");
            ck_eq!(m.body.ext.iter().map(|f| f.data.clone()).collect::<Vec<_>>(), s.ext.iter().map(|e| ext(*e)).collect::<Vec<_>>(), "extensions");
            ck_eq!(bytes(&m.body.tc.iter().map(|f| &f.data).collect::<Vec<_>>()), bytes(&x.tcs), "transcript commitments");
            ck_eq!(bytes(&m.body.vk.data), bytes(a.body.verifying_key()), "verifying key");
            ck_eq!(m.sig.alg, s.sa, "signature algorithm");
            let l = leaves(s.ha, &m.body);
            ck_eq!(l.iter().map(|x| x.0).collect::<Vec<_>>(), (0..l.len() as u32).collect::<Vec<_>>(), "field ids");
            let r = root(s.ha, &l.iter().map(|x| x.1).collect::<Vec<_>>());
            ck_eq!(m.header.root, TypedHash { alg: s.ha, value: r }, "root");
            // the same content attested again is a different attestation with the same root
            let b = attest(&p, &x, s.sa)?;
            ck!(a.header.id != b.header.id, "attestation ids repeat");
            ck!(a.header.root == b.header.root && a.header.version == b.header.version, "root depends on the run");
            // decoded again, it is the same attestation
            let d: Attestation = conv(&a)?;
            x.req.validate(&d, &p).map_err(|e| format!("decoded attestation refused: {e}"))?;
            ck_eq!(bytes(&d), bytes(&a), "encoding");
            Ok(())
        });
    });
    // a body that differs from the signed one
    let c = [Sym { d: 0, m: 0b00111, a: 1, b: 1 }, Sym { d: 1, m: 0b1111, a: 2, b: 2 }];
    let p = provider(&fx);
    let mk = |n: usize, e: &[usize]| {
        let s = Spec { n, sa: SA[0], ha: HA[1], ext: e.to_vec(), syms: c.to_vec() };
        let x = session(&fx, &p, &s)?;
        let a = attest(&p, &x, s.sa)?;
        Ok::<_, String>((x, a))
    };
    let Ok((x, a)) = catch(|| mk(0, &[0, 1])) else { return h.report("setup", "a genuine session was refused") };
    let Ok((_, a2)) = catch(|| mk(1, &[1, 3])) else { return h.report("setup", "a genuine session was refused") };
    let (m, m2): (MAtt, MAtt) = (conv(&a).unwrap(), conv(&a2).unwrap());
    let hs: Vec<Hash> = leaves(HA[1], &m.body).into_iter().map(|x| x.1).collect();
    let pr: MPres = conv(&present(&p, &x, &a, None, false).unwrap()).unwrap();
    let verify = |b: &MBody, proof: MerkleProof| -> Result<PresentationOutput, String> {
        let q = MPres { att: MProof { body: b.clone(), proof, ..pr.att.clone() }, id: None, tr: None };
        let q: Presentation = conv(&q)?;
        q.verify(&p).map_err(|e| e.to_string())
    };
    let tree = || {
        let mut t = MerkleTree::new(HA[1]);
        t.insert(&Blake3::default(), hs.clone());
        t
    };
    h.case(|| "all".into(), || {
        let o = verify(&m.body, pr.att.proof.clone())?;
        ck!(o.server_name.is_none() && o.transcript.is_none(), "output without proofs");
        Ok(())
    });
    // optional fields: any list of known or foreign fields under any ids
    let opts = |k: usize| all_seqs(k * 6, 0, 2);
    let el = opts(3);
    let tl = if h.thorough() { opts(3) } else { all_seqs(18, 0, 1) };
    let ids = [4u32, 5, 6, 7, 8, 0];
    let pick = |i: usize| (i / 6, ids[i % 6]);
    h.count("optional_field_lists", (el.len() * tl.len()) as u64);
    h.par(&el, |e| {
        for t in &tl {
            h.case(|| format!("fields/{e:?}/{t:?}"), || {
                h.state(&(e, t));
                h.trans(1);
                let mut b = m.body.clone();
                let se = [&m.body.ext[0].data, &m.body.ext[1].data, &m2.body.ext[1].data];
                let st = [&m.body.tc[0].data, &m.body.tc[1].data, &m2.body.tc[0].data];
                b.ext = e.iter().map(|i| MF { id: pick(*i).1, data: se[pick(*i).0].clone() }).collect();
                b.tc = t.iter().map(|i| MF { id: pick(*i).1, data: st[pick(*i).0].clone() }).collect();
                let ok = |l: &[usize], at: [u32; 2]| l.iter().all(|i| pick(*i).0 < 2 && pick(*i).1 == at[pick(*i).0]) && (l.len() < 2 || pick(l[0]).1 != pick(l[1]).1);
                let want = ok(e, [4, 5]) && ok(t, [6, 7]);
                // the best proof the presenter can make for these positions
                let mut ix: Vec<usize> = leaves(HA[1], &b).iter().map(|x| x.0 as usize).filter(|i| *i < hs.len()).collect();
                ix.dedup();
                let got = verify(&b, tree().proof(&ix));
                ck_eq!(got.is_ok(), want, "verdict ({:?})", got.as_ref().err());
                let whole = verify(&b, pr.att.proof.clone());
                ck!(whole.is_err() || want && e.len() + t.len() == 4, "the full proof verifies a partial body");
                if let Ok(o) = got {
                    ck_eq!(o.extensions, e.iter().map(|i| se[pick(*i).0].clone()).collect::<Vec<_>>(), "extensions shown");
                    ck_eq!(o.connection_info, m.body.ci.data, "connection info shown");
                }
                Ok(())
            });
        }
    });
    // mandatory fields: every assignment of ids and every choice of source
    let idl: Vec<Vec<u32>> = product(&[8; 4]).into_iter().map(|v| v.into_iter().map(|x| x as u32).collect()).collect();
    h.par(&idl, |v| {
        for src in 0..16u32 {
            if src != 0 && *v != [0, 1, 2, 3] {
                continue;
            }
            h.case(|| format!("mandatory/{v:?}/{src:04b}"), || {
                h.state(&(v, src));
                h.trans(1);
                let f = |i: u32| if src >> i & 1 == 1 { &m2.body } else { &m.body };
                let b = MBody {
                    vk: MF { id: v[0], data: f(0).vk.data.clone() },
                    ci: MF { id: v[1], data: f(1).ci.data.clone() },
                    key: MF { id: v[2], data: f(2).key.data.clone() },
                    cc: MF { id: v[3], data: f(3).cc.data.clone() },
                    ..m.body.clone()
                };
                // the verifying key is the same in both sessions
                let want = *v == [0, 1, 2, 3] && src & !1 == 0;
                ck_eq!(verify(&b, pr.att.proof.clone()).is_ok(), want, "verdict");
                Ok(())
            });
        }
    });
    // type confusion: a field of one kind shown as another with the same encoding
    h.case(|| "confusion".into(), || {
        let mut seen = std::collections::HashSet::new();
        for t in TY {
            ck!(seen.insert(leaf(HA[1], t, &0u8)), "two kinds of field share a domain");
        }
        Ok(())
    });
}

/// A02: a presentation changed in any way is refused or shows the same thing.
pub fn a02(h: &Hx) {
    let fx = Fx::load(h);
    // the presentation stored in the repository still verifies
    h.case(|| "stored".into(), || {
        let b = std::fs::read(h.dir().join("build/ws/crates/attestation/tests/fixtures/presentation.bin")).map_err(|e| e.to_string())?;
        let pr: Presentation = bincode::deserialize(&b).map_err(|e| format!("stored presentation: {e}"))?;
        ck_eq!(bytes(&pr), b, "stored presentation changes when written again");
        let o = pr.verify(&CryptoProvider::default()).map_err(|e| format!("stored presentation refused: {e}"))?;
        ck!(o.server_name.is_some() && o.transcript.is_some(), "stored presentation shows no name or transcript");
        Ok(())
    });
    let p0 = provider(&fx);
    let c = [Sym { d: 0, m: 0b00111, a: 1, b: 1 }, Sym { d: 1, m: 0b1111, a: 2, b: 2 }];
    let combos: Vec<(usize, usize)> = if h.thorough() { (0..3).flat_map(|i| (0..3).map(move |j| (i, j))).collect() } else { vec![(0, 1), (1, 0), (2, 2)] };
    for (si, hi) in combos {
        let s = Spec { n: si % 3, sa: SA[si], ha: HA[hi], ext: vec![0], syms: c.to_vec() };
        let made = catch(|| {
            let x = session(&fx, &p0, &s)?;
            let a = attest(&p0, &x, s.sa)?;
            let pr = present(&p0, &x, &a, Some([0b111, 0b1111]), true)?;
            let o = pr.clone().verify(&p0).map_err(|e| format!("genuine presentation refused: {e}"))?;
            Ok((bytes(&pr), seen(&o)))
        });
        let (b, want) = match made {
            Ok(v) => v,
            Err(e) => {
                h.report(&format!("genuine/{si}/{hi}"), &e);
                continue;
            }
        };
        h.count("presentation_bytes", b.len() as u64);
        let pos: Vec<usize> = (0..b.len()).collect();
        let check = |m: &[u8]| -> R {
            h.trans(1);
            let Ok(pr) = bincode::deserialize::<Presentation>(m) else { return Ok(()) };
            let vk = bytes(pr.verifying_key());
            if let Ok(o) = pr.verify(&p0) {
                // the identity or the transcript may be left out, nothing may be altered
                for (i, (g, w)) in seen(&o).iter().zip(&want).enumerate() {
                    ck!(g == w || i > 0 && g.is_empty(), "a changed presentation verifies and shows something else ({})", ["attestation", "server name", "transcript"][i]);
                }
                ck_eq!(vk, bytes(o.attestation.body.verifying_key()), "verifying key");
            }
            Ok(())
        };
        h.par(&pos, |&i| {
            for bit in 0..8u8 {
                h.case(|| format!("bit/{si}/{hi}/{i}/{bit}"), || {
                    h.state(&(si, hi, i, bit));
                    let mut m = b.clone();
                    m[i] ^= 1 << bit;
                    check(&m)
                });
            }
            for v in [0u8, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1)] {
                h.case(|| format!("set/{si}/{hi}/{i}/{v}"), || {
                    let mut m = b.clone();
                    m[i] = v;
                    check(&m)
                });
            }
            h.case(|| format!("cut/{si}/{hi}/{i}"), || {
                h.trans(1);
                ck!(bincode::deserialize::<Presentation>(&b[..i]).is_err(), "a cut presentation decodes");
                let mut m = b.clone();
                m.remove(i);
                check(&m)?;
                m = b.clone();
                m.insert(i, 0);
                check(&m)
            });
        });
    }
    // parts of genuine presentations put together
    let made = catch(|| {
        let mut v = vec![];
        for n in 0..3 {
            let s = Spec { n, sa: SA[n % 2], ha: HA[1], ext: vec![n], syms: c.to_vec() };
            let x = session(&fx, &p0, &s)?;
            let a = attest(&p0, &x, s.sa)?;
            v.push(conv::<_, MPres>(&present(&p0, &x, &a, Some([0b111, 0b1111]), true)?)?);
        }
        Ok(v)
    });
    let v = match made {
        Ok(v) => v,
        Err(e) => return h.report("genuine/splice", &e),
    };
    let jobs = product(&[3, 3, 3, 3, 4, 4]);
    h.par(&jobs, |j| {
        h.case(|| format!("splice/{j:?}"), || {
            h.state(j);
            h.trans(1);
            let q = MPres {
                att: MProof { sig: v[j[0]].att.sig.clone(), header: v[j[1]].att.header.clone(), body: v[j[2]].att.body.clone(), proof: v[j[3]].att.proof.clone() },
                id: v.get(j[4]).and_then(|x| x.id.clone()),
                tr: v.get(j[5]).and_then(|x| x.tr.clone()),
            };
            let q: Presentation = conv(&q)?;
            let want = j[0] == j[1] && j[1] == j[2] && (j[4] == 3 || j[4] == j[2]) && (j[5] == 3 || j[5] == j[2]);
            let got = q.verify(&p0);
            ck_eq!(got.is_ok(), want, "verdict ({:?})", got.as_ref().err());
            if let Ok(o) = got {
                ck_eq!(o.server_name.is_some(), j[4] != 3, "server name shown");
                ck_eq!(o.transcript.is_some(), j[5] != 3, "transcript shown");
            }
            Ok(())
        });
    });
    // what is revealed is what was asked for
    let all: Vec<(u32, u32)> = (0..32).flat_map(|a| [0u32, 0b1111, 0b0001].map(|b| (a, b))).collect();
    let full_syms = [Sym { d: 0, m: 0b00111, a: 1, b: 1 }, Sym { d: 0, m: 0b11000, a: 3, b: 3 }, Sym { d: 1, m: 0b1111, a: 2, b: 2 }];
    h.par(&all, |&(a, b)| {
        h.case(|| format!("reveal/{a:05b}/{b:04b}"), || {
            h.state(&("reveal", a, b));
            h.trans(1);
            let p = provider(&fx);
            let s = Spec { n: 1, sa: SA[1], ha: HA[0], ext: vec![], syms: full_syms.to_vec() };
            let x = session(&fx, &p, &s)?;
            let at = attest(&p, &x, s.sa)?;
            let coverable = [0, 0b00111, 0b11000, 0b11111].contains(&a) && [0, 0b1111].contains(&b);
            let pr = present(&p, &x, &at, Some([a, b]), true);
            ck_eq!(pr.is_ok(), coverable, "coverable by the commitments ({:?})", pr.as_ref().err());
            if let Ok(pr) = pr {
                let o = pr.verify(&p).map_err(|e| e.to_string())?;
                let t = o.transcript.ok_or("no transcript")?;
                ck_eq!((bits_of(t.sent_authed()), bits_of(t.received_authed())), (a, b), "revealed ranges");
                for i in 0..5 {
                    ck_eq!(t.sent_unsafe()[i], if a >> i & 1 == 1 { x.t.sent()[i] } else { 0 }, "sent byte {i}");
                }
                for i in 0..4 {
                    ck_eq!(t.received_unsafe()[i], if b >> i & 1 == 1 { x.t.received()[i] } else { 0 }, "received byte {i}");
                }
                ck_eq!(o.server_name, Some(dns("example.com")), "server name");
                ck_eq!(o.connection_info, x.info, "connection info");
            }
            Ok(())
        });
    });
}

/// A03: the requester's validation.
pub fn a03(h: &Hx) {
    let fx = Fx::load(h);
    let p = provider(&fx);
    let c = [Sym { d: 0, m: 0b00111, a: 1, b: 1 }];
    let build = |n: usize, si: usize, hi: usize, e: &[usize]| {
        let s = Spec { n, sa: SA[si], ha: HA[hi], ext: e.to_vec(), syms: c.to_vec() };
        let x = session(&fx, &p, &s)?;
        let a = attest(&p, &x, s.sa)?;
        Ok::<_, String>((conv::<_, MReq>(&x.req)?, conv::<_, MAtt>(&a)?))
    };
    let mut base = vec![];
    for (n, si, hi, e) in [(0, 0, 1, &[0usize, 1][..]), (1, 1, 0, &[1]), (2, 2, 2, &[]), (0, 1, 1, &[0, 0]), (0, 0, 1, &[1, 0])] {
        match catch(|| build(n, si, hi, e)) {
            Ok(v) => base.push(v),
            Err(e) => return h.report("setup", &e),
        }
    }
    // requests: every combination of algorithm, commitment and extensions
    let el = all_seqs(4, 0, 2);
    let mut reqs = vec![];
    for sa in SA {
        for ha in HA {
            for (n, b) in base.iter().enumerate() {
                for m in 0..3u8 {
                    let mut cc = b.0.cc.clone();
                    match m {
                        1 => cc.alg = HA[cc.alg.as_u8() as usize % 3],
                        2 => cc.value = base[(n + 1) % base.len()].0.cc.value,
                        _ => {}
                    }
                    for e in &el {
                        reqs.push(MReq { sa, ha, cc: cc.clone(), ext: e.iter().map(|i| ext(*i)).collect() });
                    }
                }
            }
        }
    }
    h.count("requests", reqs.len() as u64);
    h.par(&reqs, |r| {
        for (n, (_, a)) in base.iter().enumerate() {
            h.case(|| format!("req/{n}/{}/{}/{:?}/{:?}", r.sa, r.ha, r.cc, r.ext), || {
                h.state(&(n, bytes(r)));
                h.trans(1);
                let want = r.sa == a.sig.alg && r.ha == a.header.root.alg && r.cc == a.body.cc.data && r.ext.iter().all(|e| a.body.ext.iter().any(|f| f.data == *e));
                let got = conv::<_, Request>(r)?.validate(&conv(a)?, &p);
                ck_eq!(got.is_ok(), want, "verdict ({:?})", got.err());
                Ok(())
            });
        }
    });
    // attestations: parts exchanged between genuine ones, judged by the matching request
    let jobs = product(&[base.len(), base.len(), base.len(), base.len()]);
    h.par(&jobs, |j| {
        h.case(|| format!("mix/{j:?}"), || {
            h.state(j);
            h.trans(1);
            let a = MAtt { sig: base[j[1]].1.sig.clone(), header: base[j[2]].1.header.clone(), body: base[j[3]].1.body.clone() };
            let r = &base[j[0]].0;
            let want = j[1] == j[2] && j[2] == j[3] && r.sa == a.sig.alg && r.ha == a.header.root.alg && r.cc == a.body.cc.data && r.ext.iter().all(|e| a.body.ext.iter().any(|f| f.data == *e));
            ck_eq!(conv::<_, Request>(r)?.validate(&conv(&a)?, &p).is_ok(), want, "verdict");
            Ok(())
        });
    });
    // every changed bit
    for (n, (r, a)) in base.iter().enumerate().take(h.tier(3, 5)) {
        let b = bytes(a);
        let req: Request = conv(r).unwrap();
        let pos: Vec<usize> = (0..b.len()).collect();
        h.par(&pos, |&i| {
            for bit in 0..8u8 {
                h.case(|| format!("bit/{n}/{i}/{bit}"), || {
                    h.state(&(n, i, bit));
                    h.trans(1);
                    let mut m = b.clone();
                    m[i] ^= 1 << bit;
                    let Ok(x) = bincode::deserialize::<Attestation>(&m) else { return Ok(()) };
                    if req.validate(&x, &p).is_ok() {
                        let y: MAtt = conv(&x)?;
                        ck!(y.header == a.header && bytes(&y.body) == bytes(&a.body), "an attestation that was not signed like this is accepted");
                        // an accepted attestation can be presented
                        let q = x.presentation_builder(&p).build().map_err(|e| e.to_string())?;
                        q.verify(&p).map_err(|e| format!("accepted but its presentation is refused: {e}"))?;
                    }
                    Ok(())
                });
            }
        });
    }
    // missing algorithms in the requester's own provider
    h.case(|| "provider".into(), || {
        for (si, (r, a)) in base.iter().enumerate() {
            let mut q = provider(&fx);
            q.signature = SignatureVerifierProvider::empty();
            ck!(conv::<_, Request>(r)?.validate(&conv(a)?, &q).is_err(), "{si}: accepted without a verifier");
        }
        Ok(())
    });
    // the request builder: any order of any setters
    let names = ["example.com", "example.org"];
    for s in all_seqs(6, 0, h.tier(4, 6)) {
        h.case(|| format!("build/{s:?}"), || {
            h.state(&("build", &s));
            h.trans(1);
            let mut c = RequestConfig::builder();
            c.hash_alg(HA[s.len() % 3]).signature_alg(SA[s.len() % 3]).extension(ext(0)).extension(ext(1));
            let c = c.build().map_err(|e| e.to_string())?;
            let mut b = Request::builder(&c);
            let (mut nm, mut hd, mut tr) = (None, None, None);
            for k in &s {
                match k {
                    0 | 1 => {
                        b.server_name(dns(names[*k]));
                        nm = Some(names[*k]);
                    }
                    2 | 3 => {
                        b.handshake_data(crate::att::hs(&fx, k - 2).0);
                        hd = Some(k - 2);
                    }
                    _ => {
                        let t = Transcript::new(vec![*k as u8; *k], vec![]);
                        b.transcript(t.clone());
                        tr = Some(*k);
                    }
                }
            }
            let got = b.build(&p);
            ck_eq!(got.is_ok(), nm.is_some() && hd.is_some() && tr.is_some(), "verdict");
            if let Ok((r, sec)) = got {
                let m: MReq = conv(&r)?;
                ck_eq!((m.sa, m.ha, m.cc.alg), (SA[s.len() % 3], HA[s.len() % 3], HA[s.len() % 3]), "algorithms");
                ck_eq!(m.ext, vec![ext(0), ext(1)], "extensions");
                ck_eq!(sec.server_name(), &dns(nm.unwrap()), "name kept");
                ck_eq!(sec.transcript().sent(), vec![tr.unwrap() as u8; tr.unwrap()], "transcript kept");
                let id: MId = conv(&sec.identity_proof())?;
                ck_eq!(id.name, dns(nm.unwrap()), "name proven");
                let CertBinding::V1_2(b) = &id.data.binding else { return Err("binding".to_string()) };
                ck_eq!(b.server_ephemeral_key, hs(&fx, hd.unwrap()).1, "handshake kept");
                // the commitment opens to the secrets
                ck_eq!(m.cc.value, leaf(m.cc.alg, "ServerCertOpening", &(&id.data, &id.blinder)), "certificate commitment");
            }
            Ok(())
        });
    }
}

/// A04: the notary's side: what is accepted and what is attested.
pub fn a04(h: &Hx) {
    let fx = Fx::load(h);
    let p = provider(&fx);
    let s = Spec { n: 0, sa: SA[0], ha: HA[1], ext: vec![], syms: vec![Sym { d: 0, m: 0b111, a: 1, b: 1 }] };
    let Ok(x) = catch(|| session(&fx, &p, &s)) else { return h.report("setup", "a genuine session was refused") };
    let q0: MReq = conv(&x.req).unwrap();
    let sa: Vec<SignatureAlgId> = SA.iter().copied().chain([SignatureAlgId::new(128)]).collect();
    let ha: Vec<HashAlgId> = HA.iter().copied().chain([HashAlgId::new(200)]).collect();
    let el = all_seqs(3, 0, 2);
    // accepting: supported algorithms, validator, request
    let jobs = product(&[17, 17, 5]);
    h.par(&jobs, |j| {
        for (si, sg) in sa.iter().enumerate() {
            for (hi, hg) in ha.iter().enumerate() {
                for e in &el {
                    h.case(|| format!("accept/{j:?}/{si}/{hi}/{e:?}"), || {
                        h.state(&(j, si, hi, e));
                        h.trans(2);
                        let mut b = AttestationConfig::builder();
                        // 16: not configured
                        if j[0] < 16 {
                            b.supported_signature_algs((0..4).filter(|i| j[0] >> i & 1 == 1).map(|i| sa[i]).collect::<Vec<_>>());
                        }
                        if j[1] < 16 {
                            b.supported_hash_algs((0..4).filter(|i| j[1] >> i & 1 == 1).map(|i| ha[i]).collect::<Vec<_>>());
                        }
                        match j[2] {
                            1 => {
                                b.extension_validator(|_| Ok(()));
                            }
                            2 => {
                                b.extension_validator(|_| Err(InvalidExtension::new("no")));
                            }
                            3 => {
                                b.extension_validator(|l| if l.iter().all(|e| e.id == b"a") { Ok(()) } else { Err(InvalidExtension::new("id")) });
                            }
                            4 => {
                                b.extension_validator(|l| if l.len() == 1 { Ok(()) } else { Err(InvalidExtension::new("count")) });
                            }
                            _ => {}
                        }
                        let c = b.build().map_err(|e| e.to_string())?;
                        let r = MReq { sa: *sg, ha: *hg, ext: e.iter().map(|i| ext(*i)).collect(), ..q0.clone() };
                        let got = Attestation::builder(&c).accept_request(conv(&r)?);
                        let sok = j[0] < 16 && j[0] >> si & 1 == 1;
                        let hok = if j[1] < 16 { j[1] >> hi & 1 == 1 } else { hi < 3 };
                        let eok = match j[2] {
                            0 => e.is_empty(),
                            1 => true,
                            2 => false,
                            3 => e.iter().all(|i| *i == 0),
                            _ => e.len() == 1,
                        };
                        ck_eq!(got.is_ok(), sok && hok && eok, "verdict");
                        match got {
                            Err(er) => ck_eq!(er.is_request(), !(sok && hok), "reported as a problem of the request"),
                            Ok(mut a) => {
                                a.connection_info(x.info.clone()).server_ephemeral_key(x.key.clone());
                                let r = a.build(&p);
                                // the signer and hash must be there as well
                                ck_eq!(r.is_ok(), si < 3 && hi < 3, "attestation issued ({:?})", r.as_ref().err());
                                if let Ok(r) = r {
                                    ck_eq!((r.signature.alg, r.header.root.alg), (*sg, *hg), "algorithms used");
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    // filling in: every sequence of setters
    let infos: Vec<ConnectionInfo> = (0..2).map(|i| ConnectionInfo { time: x.info.time + i, ..x.info.clone() }).collect();
    let keys = [hs(&fx, 0).1, hs(&fx, 1).1];
    let tcs: Vec<Vec<TranscriptCommitment>> = vec![x.tcs.clone(), vec![], [x.tcs.clone(), x.tcs.clone()].concat()];
    let seqs = all_seqs(9, 0, h.tier(4, 5));
    h.count("builder_sequences", seqs.len() as u64);
    h.par(&seqs, |q| {
        h.case(|| format!("fill/{q:?}"), || {
            h.state(&("fill", q));
            h.trans(q.len() as u64 + 1);
            let mut b = AttestationConfig::builder();
            b.supported_signature_algs([SA[0]]).extension_validator(|_| Ok(()));
            let c = b.build().map_err(|e| e.to_string())?;
            let r = MReq { ext: vec![ext(2)], ..q0.clone() };
            let mut a = Attestation::builder(&c).accept_request(conv(&r)?).map_err(|e| e.to_string())?;
            let (mut ci, mut ky, mut tc, mut ex) = (None, None, 1, vec![ext(2)]);
            for k in q {
                match k {
                    0 | 1 => {
                        a.connection_info(infos[*k].clone());
                        ci = Some(*k);
                    }
                    2 | 3 => {
                        a.server_ephemeral_key(keys[k - 2].clone());
                        ky = Some(k - 2);
                    }
                    4..=6 => {
                        a.transcript_commitments(tcs[k - 4].clone());
                        tc = k - 4;
                    }
                    _ => {
                        a.extension(ext(k - 7));
                        ex.push(ext(k - 7));
                    }
                }
            }
            let got = a.build(&p);
            ck_eq!(got.is_ok(), ci.is_some() && ky.is_some(), "issued");
            if let Ok(g) = got {
                let m: MAtt = conv(&g)?;
                ck_eq!(m.body.ci.data, infos[ci.unwrap()], "connection info");
                ck_eq!(m.body.key.data, keys[ky.unwrap()], "ephemeral key");
                ck_eq!(m.body.ext.iter().map(|e| e.data.clone()).collect::<Vec<_>>(), ex, "extensions");
                ck_eq!(bytes(&m.body.tc.iter().map(|e| &e.data).collect::<Vec<_>>()), bytes(&tcs[tc]), "commitments");
                let l = leaves(HA[1], &m.body);
                ck_eq!(l.iter().map(|x| x.0).collect::<Vec<_>>(), (0..l.len() as u32).collect::<Vec<_>>(), "ids");
                ck_eq!(m.header.root.value, root(HA[1], &l.iter().map(|x| x.1).collect::<Vec<_>>()), "root");
                conv::<_, Request>(&r)?.validate(&g, &p).map_err(|e| format!("requester refuses it: {e}"))?;
            }
            Ok(())
        });
    });
}

/// A05: the identity of the server shown in a presentation.
pub fn a05(h: &Hx) {
    let fx = Fx::load(h);
    let p = provider(&fx);
    let mut secs: Vec<(MId, Vec<(HashAlgId, TypedHash)>, ServerEphemKey)> = vec![];
    for n in 0..3 {
        let r = catch(|| {
            let mut id: Option<MId> = None;
            let mut cs = vec![];
            for ha in HA {
                let s = Spec { n, sa: SA[0], ha, ext: vec![], syms: vec![] };
                let x = session(&fx, &p, &s)?;
                let i: MId = conv(&x.sec.identity_proof())?;
                let q: MReq = conv(&x.req)?;
                // the commitment to one opening under each hash
                let first = id.get_or_insert(i.clone());
                ck_eq!(q.cc.value, leaf(ha, "ServerCertOpening", &(&i.data, &i.blinder)), "commitment");
                if ha != HA[0] {
                    ck!(first.blinder.as_bytes() != i.blinder.as_bytes(), "blinders repeat");
                }
                cs.push((ha, TypedHash { alg: ha, value: leaf(ha, "ServerCertOpening", &(&first.data, &first.blinder)) }));
            }
            Ok((id.unwrap(), cs, hs(&fx, n).1))
        });
        match r {
            Ok(v) => secs.push(v),
            Err(e) => return h.report("setup", &e),
        }
    }
    let verify = |i: &MId, t: u64, k: &ServerEphemKey, c: &TypedHash| -> Result<bool, String> {
        let pr: ServerIdentityProof = conv(i)?;
        let c: ServerCertCommitment = conv(c)?;
        let r = pr.verify_with_provider(&p, t, k, &c);
        if let Ok(n) = &r {
            ck_eq!(n, &i.name, "name reported");
        }
        Ok(r.is_ok())
    };
    let times = [year(2025), year(2024) - 1, year(2024), year(2026), year(2026) + 1, year(2023), year(2030), year(2030) + 1, 0];
    let names = ["example.com", "a.wild.example.org", "wild.example.org", "evil.org", "upper.example.net", "EXAMPLE.com", "a.b.wild.example.org"];
    let jobs = product(&[3, 3, 3, 3, 3, names.len(), times.len()]);
    h.par(&jobs, |j| {
        // session of the proof, of the key, of the commitment, algorithm of the value and as labelled
        h.case(|| format!("id/{j:?}"), || {
            h.state(j);
            h.trans(1);
            let mut i = secs[j[0]].0.clone();
            i.name = dns(names[j[5]]);
            let c = TypedHash { alg: HA[j[4]], value: secs[j[2]].1[j[3]].1.value };
            let t = times[j[6]];
            let valid = if j[0] == 2 { year(2023) <= t && t <= year(2030) } else { year(2024) <= t && t <= year(2026) };
            let want = j[0] == j[1] && j[0] == j[2] && j[3] == j[4] && valid && crate::model::name_ok(crate::model::STD, names[j[5]]);
            ck_eq!(verify(&i, t, &secs[j[1]].2, &c)?, want, "verdict");
            Ok(())
        });
    });
    // an unknown hash algorithm never passes
    h.case(|| "alg".into(), || {
        for a in 0..=255u8 {
            if !(1..=3).contains(&a) {
                for v in 0..3 {
                    let c = TypedHash { alg: alg(a), value: secs[0].1[v].1.value };
                    ck!(!verify(&secs[0].0, year(2025), &secs[0].2, &c)?, "commitment with algorithm {a}");
                }
            }
        }
        Ok(())
    });
    // every changed bit of the proof is refused, except in the name, which is checked against the certificate
    for n in 0..3 {
        let b = bytes(&secs[n].0);
        let pos: Vec<usize> = (0..b.len()).collect();
        h.par(&pos, |&i| {
            for bit in 0..8u8 {
                h.case(|| format!("bit/{n}/{i}/{bit}"), || {
                    h.state(&("bit", n, i, bit));
                    h.trans(1);
                    let mut m = b.clone();
                    m[i] ^= 1 << bit;
                    let Ok(x) = bincode::deserialize::<MId>(&m) else {
                        ck!(bincode::deserialize::<ServerIdentityProof>(&m).is_err(), "decodes although its parts do not");
                        return Ok(());
                    };
                    let ServerName::Dns(d) = &x.name;
                    let same = bytes(&(&x.data, &x.blinder)) == bytes(&(&secs[n].0.data, &secs[n].0.blinder));
                    let want = same && crate::model::name_ok(crate::model::STD, d.as_str());
                    ck_eq!(verify(&x, year(2025), &secs[n].2, &secs[n].1[1].1)?, want, "verdict");
                    Ok(())
                });
            }
        });
    }
}

/// A06: attestation signatures.
pub fn a06(h: &Hx) {
    let mk = |i: usize, k: u8| -> Box<dyn Signer + Send + Sync> {
        match i {
            0 => Box::new(Secp256k1Signer::new(&[k; 32]).unwrap()),
            1 => Box::new(Secp256r1Signer::new(&[k; 32]).unwrap()),
            _ => Box::new(Secp256k1EthSigner::new(&[k; 32]).unwrap()),
        }
    };
    let ver: [Box<dyn SignatureVerifier + Send + Sync>; 3] = [Box::new(Secp256k1Verifier), Box::new(Secp256r1Verifier), Box::new(Secp256k1EthVerifier)];
    // reference verification of the 64 byte signature over the right digest
    let genuine = |i: usize, vk: &[u8], m: &[u8], s: &[u8]| -> bool {
        use openssl::{bn::*, ec::*, ecdsa::EcdsaSig, nid::Nid};
        let g = EcGroup::from_curve_name(if i == 1 { Nid::X9_62_PRIME256V1 } else { Nid::SECP256K1 }).unwrap();
        let mut c = BigNumContext::new().unwrap();
        let k = EcKey::from_public_key(&g, &EcPoint::from_bytes(&g, vk, &mut c).unwrap()).unwrap();
        let d = if i == 2 { Keccak256::default().hash(m) } else { Sha256::default().hash(m) };
        let s = EcdsaSig::from_private_components(BigNum::from_slice(&s[..32]).unwrap(), BigNum::from_slice(&s[32..64]).unwrap()).unwrap();
        s.verify(d.as_bytes(), &k).unwrap()
    };
    let lens: Vec<usize> = (0..h.tier(200usize, 300)).collect();
    h.par(&lens, |&n| {
        for i in 0..3 {
            h.case(|| format!("sign/{i}/{n}"), || {
                h.state(&(i, n));
                let m: Vec<u8> = (0..n).map(|x| x as u8).collect();
                let s = mk(i, 42);
                let (sg, vk) = (s.sign(&m).map_err(|e| e.to_string())?, s.verifying_key());
                ck_eq!((s.alg_id(), sg.alg, ver[i].alg_id()), (SA[i], SA[i], SA[i]), "algorithm id");
                ck_eq!(vk.alg, [KeyAlgId::K256, KeyAlgId::P256, KeyAlgId::K256][i], "key algorithm");
                ck_eq!(sg.data.len(), [64, 64, 65][i], "signature length");
                ck!(genuine(i, &vk.data, &m, &sg.data), "the signature is not over this message");
                if i == 2 {
                    ck!(sg.data[64] == 27 || sg.data[64] == 28, "recovery byte {}", sg.data[64]);
                    ck_eq!(recover(&Keccak256::default().hash(&m), &sg.data, sg.data[64] - 27), vk.data, "recovered key");
                }
                for (j, v) in ver.iter().enumerate() {
                    h.trans(1);
                    ck_eq!(v.verify(&vk, &m, &sg.data).is_ok(), i == j, "verifier {j}");
                }
                ck!(mk(i, 42).verifying_key() == vk && mk(i, 41).verifying_key() != vk, "key depends on the secret");
                for k in [41u8, 43] {
                    ck!(ver[i].verify(&mk(i, k).verifying_key(), &m, &sg.data).is_err(), "other key");
                }
                // one byte more or less of the message
                ck!(ver[i].verify(&vk, &[&m[..], &[0]].concat(), &sg.data).is_err(), "longer message");
                if n > 0 {
                    ck!(ver[i].verify(&vk, &m[..n - 1], &sg.data).is_err(), "shorter message");
                    ck!(ver[i].verify(&vk, &m[1..], &sg.data).is_err(), "message without its start");
                }
                // lengths of the signature
                for l in (0..sg.data.len()).chain([sg.data.len() + 1, 128]) {
                    let mut d = sg.data.clone();
                    d.resize(l, 27);
                    ck!(ver[i].verify(&vk, &m, &d).is_err(), "signature of {l} bytes");
                }
                Ok(())
            });
        }
    });
    let jobs: Vec<(usize, usize, usize)> = (0..3).flat_map(|i| (0..3).flat_map(move |w| (0..70usize * 8).map(move |b| (i, w, b)))).collect();
    let m: Vec<u8> = (0..52u8).collect();
    let sigs: Vec<(Signature, VerifyingKey)> = (0..3).map(|i| (mk(i, 7).sign(&m).unwrap(), mk(i, 7).verifying_key())).collect();
    h.par(&jobs, |&(i, w, b)| {
        let (sg, vk) = &sigs[i];
        let mut parts = [m.clone(), sg.data.clone(), vk.data.clone()];
        if b / 8 >= parts[w].len() {
            return;
        }
        h.case(|| format!("bit/{i}/{w}/{b}"), || {
            h.state(&("bit", i, w, b));
            h.trans(1);
            parts[w][b / 8] ^= 1 << (b % 8);
            let k = VerifyingKey { alg: vk.alg, data: parts[2].clone() };
            // only the recovery byte, which verification does not need, may change
            let want = i == 2 && w == 1 && b / 8 == 64;
            ck_eq!(ver[i].verify(&k, &parts[0], &parts[1]).is_ok(), want, "verdict");
            Ok(())
        });
    });
    h.case(|| "key-alg".into(), || {
        for i in 0..3 {
            for a in 0..=255u8 {
                let k = VerifyingKey { alg: bincode::deserialize(&[a]).unwrap(), data: sigs[i].1.data.clone() };
                ck_eq!(ver[i].verify(&k, &m, &sigs[i].0.data).is_ok(), k.alg == sigs[i].1.alg, "key algorithm {a}");
            }
        }
        // secret keys that are not scalars
        for l in (0..40).filter(|l| *l != 32) {
            let k = vec![1; l];
            ck!(Secp256k1Signer::new(&k).is_err() && Secp256r1Signer::new(&k).is_err() && Secp256k1EthSigner::new(&k).is_err(), "secret of {l} bytes");
        }
        for k in [[0u8; 32], [255; 32]] {
            ck!(Secp256k1Signer::new(&k).is_err() && Secp256r1Signer::new(&k).is_err() && Secp256k1EthSigner::new(&k).is_err(), "secret out of range");
        }
        Ok(())
    });
    // the providers hand out what was put in last
    for s in all_seqs(6, 0, h.tier(4, 5)) {
        h.case(|| format!("provider/{s:?}"), || {
            h.state(&("provider", &s));
            h.trans(s.len() as u64);
            let mut p = SignerProvider::default();
            let mut m: [Option<u8>; 3] = [None; 3];
            for k in &s {
                let (i, key) = (k % 3, if *k < 3 { 11u8 } else { 12 });
                match i {
                    0 => p.set_secp256k1(&[key; 32]).map(|_| ()),
                    1 => p.set_secp256r1(&[key; 32]).map(|_| ()),
                    _ => p.set_secp256k1eth(&[key; 32]).map(|_| ()),
                }
                .map_err(|e| e.to_string())?;
                m[i] = Some(key);
            }
            let mut a: Vec<u8> = p.supported_algs().map(|a| a.as_u8()).collect();
            a.sort();
            ck_eq!(a, (0..3).filter(|i| m[*i].is_some()).map(|i| SA[i].as_u8()).collect::<Vec<_>>(), "supported");
            Ok(())
        });
    }
}
/// Public key recovery as an Ethereum contract does it.
fn recover(d: &Hash, s: &[u8], v: u8) -> Vec<u8> {
    use openssl::{bn::*, ec::*, nid::Nid};
    let g = EcGroup::from_curve_name(Nid::SECP256K1).unwrap();
    let mut c = BigNumContext::new().unwrap();
    let mut n = BigNum::new().unwrap();
    g.order(&mut n, &mut c).unwrap();
    let (r, sv, z) = (BigNum::from_slice(&s[..32]).unwrap(), BigNum::from_slice(&s[32..64]).unwrap(), BigNum::from_slice(d.as_bytes()).unwrap());
    let rp = EcPoint::from_bytes(&g, &[&[2 + v][..], &s[..32]].concat(), &mut c).unwrap();
    let mut ri = BigNum::new().unwrap();
    ri.mod_inverse(&r, &n, &mut c).unwrap();
    let (mut u1, mut u2, mut zn) = (BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap());
    let mut zr = BigNum::new().unwrap();
    zr.nnmod(&z, &n, &mut c).unwrap();
    zn.checked_sub(&n, &zr).unwrap();
    u1.mod_mul(&zn, &ri, &n, &mut c).unwrap();
    u2.mod_mul(&sv, &ri, &n, &mut c).unwrap();
    let mut q = EcPoint::new(&g).unwrap();
    q.mul_full(&g, &u1, &rp, &u2, &mut c).unwrap();
    q.to_bytes(&g, PointConversionForm::COMPRESSED, &mut c).unwrap()
}
