//! T06 (suite negotiation), T07 (AAD and key derivation).
use hx_lib::*;
use ring::hmac;
use tls_core::{
    cipher::make_tls12_aad,
    msgs::{
        codec::Codec,
        enums::{CipherSuite, ContentType, NamedGroup, ProtocolVersion, SignatureAlgorithm, SignatureScheme},
        handshake::{ClientECDHParams, DecomposedSignatureScheme, ServerECDHParams},
    },
    prf::prf,
    suites::{tls12::*, tls13::*, *},
    versions::*,
};

struct M {
    s: SupportedCipherSuite,
    code: u16,
    v: u16,
    hash: usize,
    aead: AEADAlgorithm,
    sig: u8, // 0 any, 1 rsa, 3 ecdsa
    iv: usize,
    nonce: usize,
}
fn table() -> Vec<M> {
    use AEADAlgorithm::*;
    let m = |s, code, v, hash, aead, sig, iv, nonce| M { s, code, v, hash, aead, sig, iv, nonce };
    vec![
        m(TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, 0xc02b, 0x303, 32, AES_128_GCM, 3, 4, 8),
        m(TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, 0xc02f, 0x303, 32, AES_128_GCM, 1, 4, 8),
        m(TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, 0xc02c, 0x303, 48, AES_256_GCM, 3, 4, 8),
        m(TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, 0xc030, 0x303, 48, AES_256_GCM, 1, 4, 8),
        m(TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca9, 0x303, 32, CHACHA20_POLY1305, 3, 12, 0),
        m(TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca8, 0x303, 32, CHACHA20_POLY1305, 1, 12, 0),
        m(TLS13_AES_128_GCM_SHA256, 0x1301, 0x304, 32, AES_128_GCM, 0, 0, 0),
        m(TLS13_AES_256_GCM_SHA384, 0x1302, 0x304, 48, AES_256_GCM, 0, 0, 0),
        m(TLS13_CHACHA20_POLY1305_SHA256, 0x1303, 0x304, 32, CHACHA20_POLY1305, 0, 0, 0),
    ]
}

pub fn t06(h: &Hx) {
    let t = table();
    let n = t.len();
    h.note("bounds", format!("every ordered server list of <= 3 of {n} suites x every ordered client list of <= {} codes; all suites x all algorithms; all subsets of offered schemes", h.tier(3, 4)));
    let schemes: Vec<(u16, u8)> = vec![
        // code, signature algorithm of the scheme: 1 rsa, 3 ecdsa
        (0x0201, 1), (0x0203, 3), (0x0401, 1), (0x0403, 3), (0x0501, 1), (0x0503, 3), (0x0601, 1), (0x0603, 3), (0x0804, 1), (0x0805, 1), (0x0806, 1), (0x0807, 3),
    ];
    for (i, m) in t.iter().enumerate() {
        h.case(|| format!("suite/{:04x}", m.code), || {
            h.state(&i);
            ck_eq!(m.s.suite().get_u16(), m.code, "code point");
            ck_eq!(m.s.version().version.get_u16(), m.v, "version");
            ck_eq!(m.s.hash_algorithm().output_len(), m.hash, "hash length");
            ck_eq!(m.s.tls13().is_some(), m.v == 0x304, "tls13");
            match m.s {
                SupportedCipherSuite::Tls12(s) => {
                    ck_eq!(*s.common.aead_algorithm, m.aead, "cipher");
                    ck_eq!((s.fixed_iv_len, s.explicit_nonce_len), (m.iv, m.nonce), "nonce layout");
                }
                SupportedCipherSuite::Tls13(s) => ck_eq!(*s.common.aead_algorithm, m.aead, "cipher"),
            }
            for (j, o) in t.iter().enumerate() {
                ck_eq!(m.s == o.s, i == j, "equality");
                if let (Some(a), Some(b)) = (m.s.tls13(), o.s.tls13()) {
                    ck_eq!(a.can_resume_from(b).map(|s| s.common.suite.get_u16()), (m.hash == o.hash).then_some(o.code), "resumption");
                }
            }
            for a in 0..=255u8 {
                let alg = SignatureAlgorithm::from(a);
                // ed25519 and ed448 belong to neither: schemes map them to their own algorithm
                let want = m.sig == 0 || a == m.sig || (m.sig == 3 && alg == SignatureScheme::ED25519.sign());
                ck_eq!(m.s.usable_for_signature_algorithm(alg), want, "usable for {alg:?}");
                h.trans(1);
            }
            Ok(())
        });
    }
    // groups of suites
    let lists = all_seqs(n, 0, 3);
    let mut codes: Vec<u16> = t.iter().map(|m| m.code).collect();
    codes.extend([0, 0x1234]);
    let cl = all_seqs(codes.len(), 0, h.tier(4, 5));
    let cs: Vec<Vec<CipherSuite>> = cl.iter().map(|c| c.iter().map(|i| CipherSuite::from(codes[*i])).collect()).collect();
    h.par(&lists, |sl| {
        let server: Vec<_> = sl.iter().map(|i| t[*i].s).collect();
        h.case(|| format!("choose/{sl:?}"), || {
            h.state(sl);
            for (c, cv) in cl.iter().zip(&cs) {
                let pc = c.iter().find(|i| sl.contains(i)).map(|i| codes[*i]);
                let ps = sl.iter().find(|i| c.contains(i)).map(|i| codes[*i]);
                ck_eq!(choose_ciphersuite_preferring_client(cv, &server).map(|s| s.suite().get_u16()), pc, "client preference {c:?}");
                ck_eq!(choose_ciphersuite_preferring_server(cv, &server).map(|s| s.suite().get_u16()), ps, "server preference {c:?}");
                h.trans(2);
            }
            for v in [0x300u16, 0x301, 0x302, 0x303, 0x304, 0x7f] {
                let want: Vec<u16> = sl.iter().filter(|i| t[**i].v == v).map(|i| t[*i].code).collect();
                let got: Vec<u16> = reduce_given_version(&server, ProtocolVersion::from(v)).iter().map(|s| s.suite().get_u16()).collect();
                ck_eq!(got, want, "version filter {v:04x}");
            }
            for a in [1u8, 2, 3] {
                let want: Vec<u16> = sl.iter().filter(|i| t[**i].sig == 0 || t[**i].sig == a).map(|i| t[*i].code).collect();
                let got: Vec<u16> = reduce_given_sigalg(&server, SignatureAlgorithm::from(a)).iter().map(|s| s.suite().get_u16()).collect();
                ck_eq!(got, want, "signature filter {a}");
            }
            for (c, a) in &schemes {
                let want = sl.iter().any(|i| t[*i].sig == 0 || t[*i].sig == *a);
                ck_eq!(compatible_sigscheme_for_suites(SignatureScheme::from(*c), &server), want, "scheme {c:04x}");
            }
            Ok(())
        });
    });
    // all suites in many orders against long offers with few known entries
    let ks: Vec<usize> = h.tier((0..=300).chain([1000, 32767]).collect(), (0..=1500).chain([32767]).collect());
    h.par(&ks, |&k| {
        h.case(|| format!("offer/{k}"), || {
            for rot in 0..2 * n {
                let mut ord: Vec<usize> = (0..n).map(|i| (i + rot) % n).collect();
                if rot >= n {
                    ord.reverse();
                }
                let server: Vec<_> = ord.iter().map(|i| t[*i].s).collect();
                for a in 0..n {
                    for b in 0..n {
                        // `a` in the middle and `b` at the end of k unknown codes
                        let mut c: Vec<u16> = (0..k).map(|i| 0x2000 + i as u16).collect();
                        c.insert(k / 2, codes[a]);
                        c.push(codes[b]);
                        let cv: Vec<CipherSuite> = c.iter().map(|x| CipherSuite::from(*x)).collect();
                        let first = ord.iter().find(|i| **i == a || **i == b).map(|i| codes[*i]);
                        ck_eq!(choose_ciphersuite_preferring_client(&cv, &server).map(|s| s.suite().get_u16()), Some(codes[a]), "client preference among {k}");
                        ck_eq!(choose_ciphersuite_preferring_server(&cv, &server).map(|s| s.suite().get_u16()), first, "server preference among {k}");
                        h.trans(2);
                    }
                    if k > 300 && a > 1 && !h.thorough() {
                        break;
                    }
                }
                let none: Vec<CipherSuite> = (0..k).map(|i| CipherSuite::from(0x2000 + i as u16)).collect();
                ck!(choose_ciphersuite_preferring_client(&none, &server).is_none() && choose_ciphersuite_preferring_server(&none, &server).is_none(), "chose a suite nobody offered");
                for v in [0x303u16, 0x304] {
                    let want: Vec<u16> = ord.iter().filter(|i| t[**i].v == v).map(|i| t[*i].code).collect();
                    let got: Vec<u16> = reduce_given_version(&server, ProtocolVersion::from(v)).iter().map(|s| s.suite().get_u16()).collect();
                    ck_eq!(got, want, "version filter {v:04x} of all suites");
                }
                for a in [1u8, 3] {
                    let want: Vec<u16> = ord.iter().filter(|i| t[**i].sig == 0 || t[**i].sig == a).map(|i| t[*i].code).collect();
                    let got: Vec<u16> = reduce_given_sigalg(&server, SignatureAlgorithm::from(a)).iter().map(|s| s.suite().get_u16()).collect();
                    ck_eq!(got, want, "signature filter {a} of all suites");
                }
                // a scheme anywhere in a long list of others is found
                for m in &t {
                    if let SupportedCipherSuite::Tls12(s) = m.s {
                        let mut o: Vec<SignatureScheme> = (0..k).map(|i| SignatureScheme::from(0x2000 + i as u16)).collect();
                        let c = if m.sig == 1 { 0x0401 } else { 0x0403 };
                        o.insert((k * rot / (2 * n)).min(k), SignatureScheme::from(c));
                        ck_eq!(s.resolve_sig_schemes(&o).iter().map(|s| s.get_u16()).collect::<Vec<_>>(), vec![c], "schemes among {k}");
                    }
                }
            }
            h.state(&("offer", k));
            Ok(())
        });
    });
    // offered schemes: intersection, in the suite's order, independent of the offer's order
    let masks: Vec<u32> = (0..1u32 << schemes.len()).collect();
    h.par(&masks, |&mask| {
        h.case(|| format!("schemes/{mask:03x}"), || {
            h.state(&("m", mask));
            let off: Vec<u16> = (0..schemes.len()).filter(|i| mask >> i & 1 == 1).map(|i| schemes[i].0).collect();
            for m in &t {
                if let SupportedCipherSuite::Tls12(s) = m.s {
                    for rev in [false, true] {
                        let mut o: Vec<_> = off.iter().map(|c| SignatureScheme::from(*c)).collect();
                        if rev {
                            o.reverse()
                        }
                        let got: Vec<u16> = s.resolve_sig_schemes(&o).iter().map(|s| s.get_u16()).collect();
                        let order: &[u16] = if m.sig == 1 { &[0x806, 0x805, 0x804, 0x601, 0x501, 0x401] } else { &[0x807, 0x603, 0x503, 0x403] };
                        let want: Vec<u16> = order.iter().copied().filter(|c| off.contains(c)).collect();
                        ck_eq!(got, want, "schemes for {:04x}", m.code);
                        h.trans(1);
                    }
                }
            }
            Ok(())
        });
    });
    h.case(|| "defaults".into(), || {
        let want = [0xc02bu16, 0xc02f];
        ck_eq!(ALL_CIPHER_SUITES.iter().map(|s| s.suite().get_u16()).collect::<Vec<_>>(), want, "supported suites");
        ck_eq!(DEFAULT_CIPHER_SUITES.iter().map(|s| s.suite().get_u16()).collect::<Vec<_>>(), want, "default suites");
        ck_eq!(DEFAULT_VERSIONS.iter().map(|s| s.version.get_u16()).collect::<Vec<_>>(), [0x303], "default versions");
        for mask in 0..4u8 {
            for rep in [false, true] {
                let mut v: Vec<&'static SupportedProtocolVersion> = vec![];
                if mask & 1 != 0 { v.push(&TLS12) }
                if mask & 2 != 0 { v.push(&TLS13) }
                if rep { v.extend(v.clone()) ; v.reverse() }
                let e = EnabledVersions::new(&v);
                for c in (0..=0x400u16).chain([0xfeff, 0xffff]) {
                    ck_eq!(e.contains(ProtocolVersion::from(c)), (c == 0x303 && mask & 1 != 0) || (c == 0x304 && mask & 2 != 0), "version {c:04x} of {mask}");
                }
            }
        }
        Ok(())
    });
    // scheme decomposition
    for c in 0..=0xffffu32 {
        let s = SignatureScheme::from(c as u16);
        let want = schemes.iter().find(|x| x.0 as u32 == c).map(|x| x.1);
        if let Some(w) = want.filter(|_| c != 0x0203 && c != 0x0807) {
            h.case(|| format!("decompose/{c:04x}"), || {
                ck_eq!(s.sign().get_u8(), w, "signature algorithm of {s:?}");
                if (0x0200..0x0700).contains(&c) {
                    ck_eq!(SignatureScheme::make(s.sign(), tls_core::msgs::enums::HashAlgorithm::from((c >> 8) as u8)).get_u16(), c as u16, "recomposition");
                }
                Ok(())
            });
        }
    }
}

fn hm(k: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, k), &parts.concat()).as_ref().to_vec()
}
pub fn ref_prf(n: usize, secret: &[u8], label: &[u8], seed: &[u8]) -> Vec<u8> {
    let ls = [label, seed].concat();
    let mut a = hm(secret, &[&ls]);
    let mut out = vec![];
    while out.len() < n {
        out.extend(hm(secret, &[&a, &ls]));
        a = hm(secret, &[&a]);
    }
    out.truncate(n);
    out
}

pub fn t07(h: &Hx) {
    let outs: Vec<usize> = (0..=h.tier(400, 1500)).collect();
    h.note("bounds", format!("record header authentication: all content types x versions x {} sequence numbers x all 65536 lengths; key derivation: output lengths 0..={}, secret 0..200, seed 0..130", 70, outs.len() - 1));
    // additional data
    let seqs: Vec<u64> = (0..64).map(|b| 1u64 << b).chain([0, 3, 255, 256, u64::MAX, 0x0102030405060708]).collect();
    let lens: Vec<usize> = (0..=0xffff).collect();
    h.par(&seqs, |&s| {
        h.case(|| format!("aad/{s}"), || {
            for t in [20u8, 21, 22, 23, 24, 0, 255] {
                for v in [0x301u16, 0x303, 0x304, 0xfeff] {
                    let ls: &[usize] = if t == 23 && v == 0x303 { &lens } else { &[0, 1, 255, 256, 16384, 18432, 65535] };
                    for &l in ls {
                        let got = make_tls12_aad(s, ContentType::from(t), ProtocolVersion::from(v), l);
                        let mut want = vec![];
                        want.extend(s.to_be_bytes());
                        want.push(t);
                        want.extend(v.to_be_bytes());
                        want.extend((l as u16).to_be_bytes());
                        ck_eq!(got.to_vec(), want, "aad {s} {t} {v:04x} {l}");
                    }
                    h.trans(ls.len() as u64);
                }
            }
            h.state(&s);
            Ok(())
        });
    });
    let bytes = |n: usize, k: usize| -> Vec<u8> { (0..n).map(|i| (i * 7 + k * 13 + 1) as u8).collect() };
    let labels: &[&[u8]] = &[b"", b"a", b"master secret", b"extended master secret", b"key expansion", b"client finished", b"server finished"];
    h.par(&outs, |&n| {
        h.case(|| format!("prf/{n}"), || {
            h.state(&("prf", n));
            let mut combos: Vec<(usize, usize)> = vec![];
            for s in [0usize, 1, 31, 32, 48, 63, 64, 65, 128, 200] {
                for d in [0usize, 1, 31, 32, 33, 63, 64, 65, 130] {
                    combos.push((s, d));
                }
            }
            for (s, d) in combos {
                let (sec, seed) = (bytes(s, 1), bytes(d, 2));
                for l in labels {
                    let mut o = vec![0xAA; n];
                    prf(&mut o, &sec, l, &seed).map_err(|e| e.to_string())?;
                    ck_eq!(o, ref_prf(n, &sec, l, &seed), "prf out {n} secret {s} label {} seed {d}", l.len());
                    h.trans(1);
                }
            }
            Ok(())
        });
    });
    // long outputs, secrets, labels and seeds
    let longs: Vec<usize> = h.tier(vec![255, 256, 257, 512, 1024, 8160, 8161, 8192, 65537], vec![255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 8128, 8159, 8160, 8161, 8192, 8193, 16384, 32767, 65535, 65536, 65537, 300000]);
    h.par(&longs, |&n| {
        for (k, dims) in [[n, 48, 13, 64], [48, n, 13, 64], [48, 48, n, 64], [48, 48, 13, n], [n, n, n, n]].into_iter().enumerate() {
            h.case(|| format!("prflong/{k}/{n}"), || {
                let (sec, lab, seed) = (bytes(dims[1], 1), bytes(dims[2], 5), bytes(dims[3], 2));
                let n = if k == 4 { n.min(1000) } else { dims[0] };
                let mut o = vec![0xAA; n];
                prf(&mut o, &sec, &lab, &seed).map_err(|e| e.to_string())?;
                ck!(o == ref_prf(n, &sec, &lab, &seed), "prf of {dims:?}");
                h.state(&dims);
                h.trans(1);
                Ok(())
            });
        }
    });
    h.case(|| "randoms".into(), || {
        for i in 0..64usize {
            let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
            if i < 32 { a[i] = 1 } else { b[i - 32] = 1 }
            let j = join_randoms(&a, &b);
            for k in 0..64 { ck_eq!(j[k], (k == i) as u8, "joined randoms {i} {k}") }
        }
        Ok(())
    });
    // ECDH parameters are only accepted when nothing follows them
    let ks: Vec<usize> = (0..=255).collect();
    h.par(&ks, |&n| {
        h.case(|| format!("ecdh/{n}"), || {
            let key = bytes(n, 3);
            let mut s = vec![3, 0, 23, n as u8];
            s.extend(&key);
            for extra in 0..3 {
                let r: Option<ServerECDHParams> = decode_ecdh_params(&[&s[..], &vec![0; extra]].concat());
                ck_eq!(r.as_ref().map(|p| (p.curve_params.named_group, p.public.0.clone())), (extra == 0).then(|| (NamedGroup::secp256r1, key.clone())), "server params {n}+{extra}");
                if let Some(p) = r {
                    let mut o = vec![];
                    p.encode(&mut o);
                    ck_eq!(o, s, "server params re-encoded");
                }
                let r: Option<ClientECDHParams> = decode_ecdh_params(&[&s[3..], &vec![0; extra]].concat());
                ck_eq!(r.map(|p| p.public.0), (extra == 0).then(|| key.clone()), "client params {n}+{extra}");
            }
            for cut in 0..s.len() {
                ck!(decode_ecdh_params::<ServerECDHParams>(&s[..cut]).is_none(), "truncated params {cut}");
            }
            for t in 0..=255u8 {
                let mut q = s.clone();
                q[0] = t;
                ck_eq!(decode_ecdh_params::<ServerECDHParams>(&q).is_some(), t == 3, "curve type {t}");
            }
            h.state(&("ecdh", n));
            h.trans(260);
            Ok(())
        });
    });
}
