//! C08: TLS transcripts are reconstructed faithfully from the wire.
use crate::conn::Fx;
use hx_lib::*;
use sha2::{Digest, Sha256};
use tlsn_core::{
    connection::{CertBinding, CertBindingV1_2, KeyType, ServerEphemKey, ServerSignature, SignatureAlgorithm as A, TlsVersion},
    transcript::{ContentType, Record, TlsTranscript},
};

fn rec(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![typ, 3, 3];
    v.extend((body.len() as u16).to_be_bytes());
    v.extend(body);
    v
}
fn hs(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![typ];
    v.extend(&(body.len() as u32).to_be_bytes()[1..]);
    v.extend(body);
    v
}
fn v16(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u16).to_be_bytes()[..], b].concat()
}
fn v24(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u32).to_be_bytes()[1..], b].concat()
}
const CR: [u8; 32] = [0xc1; 32];
const SR: [u8; 32] = [0x51; 32];
fn ch() -> Vec<u8> {
    let ext = [vec![0, 23], v16(&[])].concat();
    hs(1, &[&[3, 3][..], &CR, &[0], &v16(&[0xc0, 0x2f]), &[1, 0], &v16(&ext)].concat())
}
fn sh(ver: u16) -> Vec<u8> {
    let ext = [vec![0, 23], v16(&[])].concat();
    hs(2, &[&ver.to_be_bytes()[..], &SR, &[0], &[0xc0, 0x2f], &[0], &v16(&ext)].concat())
}
fn cert(c: &[Vec<u8>]) -> Vec<u8> {
    hs(11, &v24(&c.iter().flat_map(|c| v24(c)).collect::<Vec<_>>()))
}
const KEY: [u8; 65] = {
    let mut k = [7; 65];
    k[0] = 4;
    k
};
fn skx(curve: u8, group: u16, scheme: u16, tail: &[u8]) -> Vec<u8> {
    let g = group.to_be_bytes();
    let s = scheme.to_be_bytes();
    hs(12, &[&[curve, g[0], g[1], 65][..], &KEY, &s, &v16(&[0xaa; 70]), tail].concat())
}
fn shd() -> Vec<u8> {
    hs(14, &[])
}
fn cstatus() -> Vec<u8> {
    hs(22, &[&[1][..], &v24(&[9; 5])].concat())
}
fn creq() -> Vec<u8> {
    hs(13, &[&[1, 64][..], &v16(&[4, 3]), &v16(&[])].concat())
}
fn nst() -> Vec<u8> {
    hs(4, &[&[0, 0, 1, 0][..], &v16(&[0x55; 12])].concat())
}
fn ckx() -> Vec<u8> {
    hs(16, &[&[65][..], &KEY].concat())
}
fn cv() -> Vec<u8> {
    hs(15, &[&[4, 3][..], &v16(&[0xbb; 20])].concat())
}
fn sha(p: &[&[u8]]) -> [u8; 32] {
    let mut d = Sha256::new();
    for x in p {
        d.update(x);
    }
    d.finalize().into()
}
/// An encrypted record: nonce, ciphertext, tag.
fn enc(typ: u8, n: u8, len: usize) -> (u8, Vec<u8>) {
    let mut b = vec![0; 7];
    b.push(n);
    b.extend((0..len).map(|i| n.wrapping_mul(31).wrapping_add(i as u8)));
    b.extend([0xee - n; 16]);
    (typ, b)
}

struct Want {
    sent: Vec<Vec<u8>>, // handshake messages of the client, hello first
    recv: Vec<Vec<u8>>,
}
impl Want {
    fn hashes(&self) -> ([u8; 32], [u8; 32], Box<dyn Fn(&[u8; 12]) -> [u8; 32]>) {
        let cat = |v: &[Vec<u8>]| v.concat();
        let done = self.recv.iter().position(|m| m[0] == 14).unwrap() + 1;
        let kx = self.sent.iter().position(|m| m[0] == 16).unwrap() + 1;
        let (chello, rest) = (self.sent[0].clone(), cat(&self.sent[1..]));
        let (flight, after) = (cat(&self.recv[..done]), cat(&self.recv[done..]));
        let cf = sha(&[&chello, &flight, &rest]);
        let ses = sha(&[&chello, &flight, &cat(&self.sent[1..kx])]);
        let sf = move |vd: &[u8; 12]| sha(&[&chello, &flight, &rest, &[20, 0, 0, 12], vd, &after]);
        (cf, ses, Box::new(sf))
    }
}
fn wrap(hsb: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut o = vec![];
    let mut p = 0;
    for c in cuts.iter().copied().chain([hsb.len()]) {
        if c > p {
            o.extend(rec(22, &hsb[p..c]));
        }
        p = c;
    }
    o
}
fn ct(t: u8) -> ContentType {
    match t {
        20 => ContentType::ChangeCipherSpec,
        21 => ContentType::Alert,
        22 => ContentType::Handshake,
        23 => ContentType::ApplicationData,
        24 => ContentType::Heartbeat,
        x => ContentType::Unknown(x),
    }
}
fn tail(recs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = rec(20, &[1]);
    for (t, b) in recs {
        o.extend(rec(*t, b));
    }
    o
}
fn same(r: &[Record], want: &[(u8, Vec<u8>)], app: Option<&[u8]>) -> R {
    ck_eq!(r.len(), want.len(), "number of records");
    let mut used = 0;
    for (i, (x, (t, b))) in r.iter().zip(want).enumerate() {
        ck_eq!(x.seq, i as u64, "sequence number of record {i}");
        ck_eq!(x.typ, ct(*t), "type of record {i}");
        ck_eq!(x.explicit_nonce, b[..8].to_vec(), "nonce of record {i}");
        ck_eq!(x.ciphertext, b[8..b.len() - 16].to_vec(), "ciphertext of record {i}");
        ck_eq!(x.tag, Some(b[b.len() - 16..].to_vec()), "tag of record {i}");
        let n = b.len() - 24;
        let pt = match app {
            Some(a) if *t == 23 => {
                used += n;
                Some(a[used - n..used].to_vec())
            }
            _ => None,
        };
        ck_eq!(x.plaintext, pt, "plaintext of record {i}");
    }
    Ok(())
}

pub fn c08(h: &Hx) {
    let fx = Fx::load(h);
    let der = |n: &str| fx.0[&format!("{n}.der")].clone();
    let leaf = [der("leaf_p256"), der("inter")];
    let fin = [enc(22, 0, 16)];
    let t_ok = [&fin[..]].concat();
    let recv_base = |k: &[Vec<u8>]| k.concat();
    let build = |s: &[u8], r: &[u8]| TlsTranscript::builder().time(77).tls_sent(s).tls_recv(r).build();
    let check = |t: &TlsTranscript, w: &Want, certs: &[Vec<u8>]| -> R {
        let (cf, ses, sf) = w.hashes();
        ck_eq!(t.time(), 77, "time");
        ck_eq!(t.version(), TlsVersion::V1_2, "version");
        ck_eq!(t.cf_hash().map(|x| hex(&x)), Some(hex(&cf)), "client finished hash");
        ck_eq!(t.session_hash().map(|x| hex(&x)), Some(hex(&ses)), "session hash");
        for vd in [[0u8; 12], [7; 12], [0xff; 12]] {
            ck_eq!(t.sf_hash(&vd).map(|x| hex(&x)), Some(hex(&sf(&vd))), "server finished hash");
        }
        ck_eq!(t.server_cert_chain().map(|c| c.iter().map(|c| hex(&c.0)).collect::<Vec<_>>()), Some(certs.iter().map(|c| hex(c)).collect()), "certificates");
        let CertBinding::V1_2(CertBindingV1_2 { client_random, server_random, server_ephemeral_key }) = t.certificate_binding() else { return Err("binding".into()) };
        ck_eq!((client_random, server_random), (&CR, &SR), "randoms");
        ck_eq!(server_ephemeral_key, &ServerEphemKey { typ: KeyType::SECP256R1, key: KEY.to_vec() }, "ephemeral key");
        ck_eq!(t.server_signature().map(|s| (s.alg, s.sig.clone())), Some((A::ECDSA_NISTP256_SHA256, vec![0xaa; 70])), "signature");
        Ok(())
    };
    // flights: which optional messages appear, and in which records
    let mut flights = vec![];
    for c in 0..4u32 {
        for s in 0..16u32 {
            flights.push((c, s));
        }
    }
    let mk = |c: u32, s: u32| -> Want {
        let mut sent = vec![ch()];
        if c & 1 == 1 {
            sent.push(cert(&[]));
        }
        sent.push(ckx());
        if c & 2 == 2 {
            sent.push(cv());
        }
        let mut recv = vec![sh(0x0303), cert(&leaf)];
        if s & 1 == 1 {
            recv.push(cstatus());
        }
        recv.push(skx(3, 0x17, 0x0403, &[]));
        if s & 2 == 2 {
            recv.push(creq());
        }
        recv.push(shd());
        if s & 4 == 4 {
            recv.push(nst());
        }
        if s & 8 == 8 {
            recv.push(hs(4, &[&[0, 0, 0, 0][..], &v16(&[])].concat()));
        }
        Want { sent, recv }
    };
    h.par(&flights, |&(c, s)| {
        let w = mk(c, s);
        let (sb, rb) = (w.sent.concat(), w.recv.concat());
        let ends = |v: &[Vec<u8>]| {
            let mut p = 0;
            v.iter().map(|m| { p += m.len(); p }).collect::<Vec<usize>>()
        };
        let mut cutsets: Vec<(Vec<usize>, Vec<usize>)> = vec![(vec![], vec![]), (ends(&w.sent), ends(&w.recv))];
        for i in 1..sb.len() {
            cutsets.push((vec![i], vec![]));
        }
        let stride = 1;
        for i in (1..rb.len()).step_by(stride) {
            cutsets.push((vec![], vec![i]));
            if i + 3 < rb.len() {
                cutsets.push((ends(&w.sent), vec![i, i + 3]));
            }
        }
        for (k, (cs, cr)) in cutsets.iter().enumerate() {
            h.case(|| format!("flight/{c}/{s}/{k}"), || {
                let sent = [wrap(&sb, cs), tail(&t_ok)].concat();
                let recv = [wrap(&rb, cr), tail(&t_ok)].concat();
                let t = build(&sent, &recv).map_err(|e| e.to_string())?;
                check(&t, &w, &leaf)?;
                same(t.sent(), &t_ok, None)?;
                same(t.recv(), &t_ok, None)?;
                ck_eq!(t.cf_vd(), None, "finished plaintext invented");
                h.state(&(c, s, cs, cr));
                h.trans(1);
                Ok(())
            });
        }
        // alerts between handshake records are not part of the handshake hash
        h.case(|| format!("alert/{c}/{s}"), || {
            let cut = ends(&w.recv);
            let mut recv = vec![];
            let mut p = 0;
            for e in cut {
                recv.extend(rec(22, &rb[p..e]));
                recv.extend(rec(21, &[1, 90]));
                p = e;
            }
            recv.extend(tail(&t_ok));
            let t = build(&[wrap(&sb, &[]), tail(&t_ok)].concat(), &recv).map_err(|e| e.to_string())?;
            check(&t, &w, &leaf)
        });
    });
    // a required message missing, out of place or malformed: no transcript
    let w = mk(0, 0);
    let good_s = [wrap(&w.sent.concat(), &[]), tail(&t_ok)].concat();
    let good_r = [wrap(&w.recv.concat(), &[]), tail(&t_ok)].concat();
    for i in 0..w.sent.len() {
        h.case(|| format!("missing/sent/{i}"), || {
            let mut m = w.sent.clone();
            m.remove(i);
            ck!(build(&[wrap(&m.concat(), &[]), tail(&t_ok)].concat(), &good_r).is_err(), "accepted");
            let mut m = w.sent.clone();
            m.rotate_left(1);
            ck!(build(&[wrap(&m.concat(), &[]), tail(&t_ok)].concat(), &good_r).is_err(), "hello not first accepted");
            Ok(())
        });
    }
    for i in 0..w.recv.len() {
        h.case(|| format!("missing/recv/{i}"), || {
            let mut m = w.recv.clone();
            m.remove(i);
            ck!(build(&good_s, &[wrap(&m.concat(), &[]), tail(&t_ok)].concat()).is_err(), "accepted");
            Ok(())
        });
    }
    for (dir, g) in [("sent", w.sent.concat()), ("recv", w.recv.concat())] {
        for n in 0..g.len() {
            h.case(|| format!("cut/{dir}/{n}"), || {
                let x = [wrap(&g[..n], &[]), tail(&t_ok)].concat();
                let r = if dir == "sent" { build(&x, &good_r) } else { build(&good_s, &x) };
                ck!(r.is_err(), "truncated handshake accepted");
                Ok(())
            });
        }
    }
    for (dir, g) in [("sent", &good_s), ("recv", &good_r)] {
        for n in 0..g.len() {
            h.case(|| format!("cutwire/{dir}/{n}"), || {
                let r = if dir == "sent" { build(&g[..n], &good_r) } else { build(&good_s, &g[..n]) };
                ck!(r.is_err(), "truncated stream accepted");
                Ok(())
            });
        }
    }
    // versions, groups, curve types, trailing bytes
    for v in 0x0300u16..=0x0305 {
        h.case(|| format!("version/{v:04x}"), || {
            let mut m = w.recv.clone();
            m[0] = sh(v);
            let r = build(&good_s, &[wrap(&m.concat(), &[]), tail(&t_ok)].concat());
            let want = match v {
                0x0303 => Some(TlsVersion::V1_2),
                0x0304 => Some(TlsVersion::V1_3),
                _ => None,
            };
            ck_eq!(r.ok().map(|t| t.version()), want, "version");
            Ok(())
        });
    }
    let groups: Vec<u16> = (0..0x30).chain([0x100, 0x101, 0x1117, 0x1700, 0xff17, 0xffff]).collect();
    for g in groups {
        for c in 0..=4u8 {
            h.case(|| format!("group/{c}/{g:x}"), || {
                let mut m = w.recv.clone();
                m[2] = skx(c, g, 0x0403, &[]);
                let r = build(&good_s, &[wrap(&m.concat(), &[]), tail(&t_ok)].concat());
                ck_eq!(r.is_ok(), c == 3 && g == 0x17, "key exchange accepted");
                Ok(())
            });
        }
    }
    for n in 1..4 {
        h.case(|| format!("skxtail/{n}"), || {
            let mut m = w.recv.clone();
            m[2] = skx(3, 0x17, 0x0403, &vec![0; n]);
            ck!(build(&good_s, &[wrap(&m.concat(), &[]), tail(&t_ok)].concat()).is_err(), "trailing bytes accepted");
            Ok(())
        });
    }
    // signature schemes: the curve comes from the certificate
    for l in ["leaf_p256", "leaf_p384", "leaf_rsa", "leaf_ed"] {
        for sc in (0u16..=0x0900).chain([0xffff]) {
            h.case(|| format!("scheme/{l}/{sc:04x}"), || {
                let mut m = w.recv.clone();
                m[1] = cert(&[der(l)]);
                m[2] = skx(3, 0x17, sc, &[]);
                let r = build(&good_s, &[wrap(&m.concat(), &[]), tail(&t_ok)].concat());
                let want = match (sc, l) {
                    (0x0401, _) => Some(A::RSA_PKCS1_2048_8192_SHA256),
                    (0x0501, _) => Some(A::RSA_PKCS1_2048_8192_SHA384),
                    (0x0601, _) => Some(A::RSA_PKCS1_2048_8192_SHA512),
                    (0x0804, _) => Some(A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY),
                    (0x0805, _) => Some(A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY),
                    (0x0806, _) => Some(A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY),
                    (0x0807, _) => Some(A::ED25519),
                    (0x0403, "leaf_p256") => Some(A::ECDSA_NISTP256_SHA256),
                    (0x0403, "leaf_p384") => Some(A::ECDSA_NISTP384_SHA256),
                    (0x0503, "leaf_p256") => Some(A::ECDSA_NISTP256_SHA384),
                    (0x0503, "leaf_p384") => Some(A::ECDSA_NISTP384_SHA384),
                    _ => None,
                };
                ck_eq!(r.ok().and_then(|t| t.server_signature().map(|s| s.alg)), want, "algorithm");
                h.state(&(l, sc));
                h.trans(1);
                Ok(())
            });
        }
    }
    // what follows the handshake
    let kinds: Vec<(u8, usize)> = vec![(23, 0), (23, 1), (23, 5), (21, 2), (22, 16), (20, 1), (23, 16384)];
    let n = h.tier(4, 5);
    let seqs = all_seqs(kinds.len(), 0, n);
    h.count("record_sequences", seqs.len() as u64);
    h.par(&seqs, |s| {
        let mut want = vec![enc(22, 0, 16)];
        want.extend(s.iter().enumerate().map(|(i, k)| enc(kinds[*k].0, i as u8 + 1, kinds[*k].1)));
        let total: usize = want.iter().filter(|w| w.0 == 23).map(|w| w.1.len() - 24).sum();
        let wire = tail(&want);
        for dir in 0..2 {
            for (ai, app) in [None, Some(total), total.checked_sub(1), Some(0)].into_iter().enumerate() {
                if ai == 2 && total == 0 {
                    continue;
                }
                h.case(|| format!("tail/{dir}/{s:?}/{ai}"), || {
                    let pt: Option<Vec<u8>> = app.map(|n| (0..n).map(|i| (i * 7 % 251) as u8).collect());
                    let base = |x: &Want, d: usize| wrap(&if d == 0 { x.sent.concat() } else { x.recv.concat() }, &[]);
                    let sent = [base(&w, 0), if dir == 0 { wire.clone() } else { tail(&t_ok) }].concat();
                    let recv = [base(&w, 1), if dir == 1 { wire.clone() } else { tail(&t_ok) }].concat();
                    let mut b = TlsTranscript::builder().time(77).tls_sent(&sent).tls_recv(&recv);
                    if let Some(p) = &pt {
                        b = if dir == 0 { b.app_sent(p) } else { b.app_recv(p) };
                    }
                    let r = b.build();
                    ck_eq!(r.is_ok(), app.is_none_or(|a| a >= total), "transcript built");
                    let Ok(t) = r else { return Ok(()) };
                    check(&t, &w, &leaf)?;
                    let (a, b) = if dir == 0 { (t.sent(), t.recv()) } else { (t.recv(), t.sent()) };
                    same(a, &want, pt.as_deref())?;
                    same(b, &t_ok, None)?;
                    let x = t.to_transcript();
                    // complete exactly when the plaintext of every application record is known
                    let complete = pt.is_some() || !want.iter().any(|w| w.0 == 23);
                    ck_eq!(x.is_ok(), complete, "application data complete");
                    if let Ok(x) = x {
                        let (g, o) = if dir == 0 { (x.sent(), x.received()) } else { (x.received(), x.sent()) };
                        ck!(o.is_empty(), "data in the other direction");
                        ck!(g == pt.as_deref().map(|p| &p[..total]).unwrap_or(&[]), "application data");
                    }
                    h.state(&(dir, s, ai));
                    h.trans(s.len() as u64 + 1);
                    Ok(())
                });
            }
        }
    });
    // records shorter than nonce and tag, first record of another type
    for k in 0..40usize {
        for pos in 0..3 {
            for typ in [20u8, 21, 22, 23] {
                h.case(|| format!("short/{k}/{pos}/{typ}"), || {
                    let mut want = vec![enc(22, 0, 16), enc(23, 1, 3), enc(21, 2, 2)];
                    want[pos] = (typ, vec![5; k]);
                    let r = build(&good_s, &[wrap(&recv_base(&w.recv), &[]), tail(&want)].concat());
                    ck_eq!(r.is_ok(), k >= 24 && (pos > 0 || typ == 22), "accepted");
                    Ok(())
                });
            }
        }
    }
    h.case(|| "noccs".into(), || {
        ck!(build(&wrap(&w.sent.concat(), &[]), &good_r).is_err(), "no change cipher spec (sent)");
        ck!(build(&good_s, &wrap(&w.recv.concat(), &[])).is_err(), "no change cipher spec (received)");
        Ok(())
    });
    // records given directly
    let fin_pt = hs(20, &[9; 12]);
    let mkrec = |seq: u64, typ: u8, pt: Option<Vec<u8>>| Record { seq, typ: ct(typ), plaintext: pt, explicit_nonce: vec![0; 8], ciphertext: vec![1; 3], tag: None };
    let firsts: Vec<(u64, u8, Option<Vec<u8>>, bool)> = vec![
        (0, 22, None, true),
        (0, 22, Some(fin_pt.clone()), true),
        (1, 22, Some(fin_pt.clone()), false),
        (0, 23, None, false),
        (0, 21, Some(fin_pt.clone()), false),
        (0, 22, Some(vec![]), false),
        (0, 22, Some(hs(14, &[])), false),
        (0, 22, Some(fin_pt[..3].to_vec()), false),
    ];
    let seqnos = all_seqs(5, 0, 3);
    h.par(&seqnos, |q| {
        for (fi, (fs, ft, fp, fok)) in firsts.iter().enumerate() {
            for dir in 0..2 {
                for given in 0..4 {
                    h.case(|| format!("records/{dir}/{fi}/{q:?}/{given}"), || {
                        let mut rs = vec![mkrec(*fs, *ft, fp.clone())];
                        for (i, s) in q.iter().enumerate() {
                            rs.push(mkrec(*s as u64, if i == 1 { 21 } else { 23 }, Some(vec![i as u8 + 1; 3])));
                        }
                        let mono = rs.windows(2).all(|w| w[0].seq < w[1].seq);
                        let o = vec![mkrec(0, 22, None)];
                        let (s, r) = if dir == 0 { (rs.clone(), o) } else { (o, rs.clone()) };
                        let mut b = TlsTranscript::builder().records_sent(s).records_recv(r);
                        if given & 1 == 0 {
                            b = b.time(5).certificate_binding(CertBinding::V1_2(CertBindingV1_2 { client_random: [1; 32], server_random: [2; 32], server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: vec![3] } }));
                        }
                        if given & 2 == 0 {
                            b = b.version(TlsVersion::V1_2);
                        }
                        let t = b.build();
                        ck_eq!(t.is_ok(), *fok && mono && given == 0, "transcript built");
                        let Ok(t) = t else { return Ok(()) };
                        let vd = if dir == 0 { t.cf_vd() } else { t.sf_vd() };
                        ck_eq!(vd, fp.as_ref().map(|_| &[9u8; 12][..]), "finished verify data");
                        ck!(t.cf_hash().is_none() && t.session_hash().is_none() && t.sf_hash(&[0; 12]).is_none(), "hashes without a handshake");
                        ck!(t.server_signature().is_none() && t.server_cert_chain().is_none(), "handshake fields invented");
                        let x = t.to_transcript().map_err(|e| e.to_string())?;
                        let want: Vec<u8> = (0..q.len()).filter(|i| *i != 1).flat_map(|i| vec![i as u8 + 1; 3]).collect();
                        ck_eq!(if dir == 0 { x.sent() } else { x.received() }, &want[..], "application data");
                        h.state(&(dir, fi, q));
                        h.trans(1);
                        Ok(())
                    });
                }
            }
        }
    });
    // fields given to the builder win over parsed ones
    for m in 0..16u32 {
        h.case(|| format!("given/{m}"), || {
            let mut b = TlsTranscript::builder().time(77).tls_sent(&good_s).tls_recv(&good_r);
            let bind = CertBinding::V1_2(CertBindingV1_2 { client_random: [1; 32], server_random: [2; 32], server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: vec![3] } });
            if m & 1 == 1 {
                b = b.version(TlsVersion::V1_3);
            }
            if m & 2 == 2 {
                b = b.server_signature(ServerSignature { alg: A::ED25519, sig: vec![1] });
            }
            if m & 4 == 4 {
                b = b.server_cert_chain(vec![]);
            }
            if m & 8 == 8 {
                b = b.certificate_binding(bind);
            }
            let t = b.build().map_err(|e| e.to_string())?;
            ck_eq!(t.version() == TlsVersion::V1_3, m & 1 == 1, "version");
            ck_eq!(t.server_signature().unwrap().alg == A::ED25519, m & 2 == 2, "signature");
            ck_eq!(t.server_cert_chain().unwrap().is_empty(), m & 4 == 4, "chain");
            let CertBinding::V1_2(x) = t.certificate_binding() else { return Err("binding".into()) };
            ck_eq!(x.client_random == [1; 32], m & 8 == 8, "binding");
            Ok(())
        });
    }
    h.assume("contents of encrypted records are opaque: nonce 8 bytes, tag 16 bytes (AES-GCM suites)");
}
