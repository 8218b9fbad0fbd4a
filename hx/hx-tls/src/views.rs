//! T13: what a decoded message answers equals what was put on the wire, for every extension list.
use crate::wire::*;
use hx_lib::*;
use tls_core::{
    Error,
    msgs::{
        base::*,
        ccs::ChangeCipherSpecPayload,
        codec::{Codec, Reader},
        enums::*,
        handshake::*,
        message::*,
    },
    suites::{tls12::DOWNGRADE_SENTINEL, HashAlgorithm},
};

const HRR: [u8; 32] = [
    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11,
    0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
];
type E = (u16, Vec<u8>);
fn wire(l: &[E]) -> Vec<u8> {
    l16(&l.iter().flat_map(|(t, d)| cat(&[&u16b(*t), &l16(d)])).collect::<Vec<_>>())
}
/// Types used here for extensions nobody knows.
fn unknown(t: u16, u: u16) -> bool {
    t == u || (0x2000..0x3000).contains(&t)
}
/// The body of the first extension of a type.
fn first(l: &[E], t: u16) -> Option<Vec<u8>> {
    l.iter().find(|e| e.0 == t).map(|e| e.1.clone())
}
fn enc<T: Codec>(v: Option<&T>) -> Option<Vec<u8>> {
    v.map(|x| x.get_encoding())
}
fn names(v: &[u8]) -> Vec<Vec<u8>> {
    let mut r = &v[2..];
    let mut o = vec![];
    while !r.is_empty() {
        o.push(r[1..1 + r[0] as usize].to_vec());
        r = &r[1 + r[0] as usize..];
    }
    o
}
fn client() -> Vec<E> {
    vec![
        (0, l16(&cat(&[&[0], &l16(b"a.co")]))),
        (10, l16(&[0, 23, 0, 29])),
        (11, l8(&[0])),
        (13, l16(&[4, 3, 8, 4])),
        (16, l16(&cat(&[&l8(b"h2"), &l8(b"x")]))),
        (16, l16(&l8(b"http/1.1"))),
        (35, vec![]),
        (35, vec![1, 2]),
        (43, l8(&[3, 4, 3, 3])),
        (51, l16(&cat(&[&[0, 29], &l16(&[7, 8]), &[0, 23], &l16(&[9])]))),
        (45, l8(&[1])),
        (45, l8(&[0, 1])),
        (41, cat(&[&l16(&cat(&[&l16(&[1]), &[0, 0, 0, 9]])), &l16(&l8(&[3, 3]))])),
        (44, l16(&[5])),
        (23, vec![]),
        (5, cat(&[&[1], &l16(&l16(&[6])), &l16(&[])])),
        (18, vec![]),
        (57, vec![4]),
        (0xffa5, vec![5]),
        (42, vec![]),
        (0x1234, vec![1, 2, 3]),
    ]
}
fn server() -> Vec<E> {
    vec![
        (11, l8(&[0])),
        (0, vec![]),
        (35, vec![]),
        (5, vec![]),
        (0xff01, l8(&[])),
        (16, l16(&l8(b"h2"))),
        (16, l16(&cat(&[&l8(b"h2"), &l8(b"x")]))),
        (16, l16(&[])),
        (51, cat(&[&[0, 23], &l16(&[4, 5])])),
        (41, vec![1, 2]),
        (23, vec![]),
        (18, l16(&cat(&[&l16(&[9, 9]), &l16(&[7])]))),
        (43, vec![3, 4]),
        (57, vec![1]),
        (0xffa5, vec![5]),
        (42, vec![]),
        (0xabcd, vec![0]),
    ]
}
fn client_kind(e: &ClientExtension) -> u16 {
    use ClientExtension::*;
    match e {
        ECPointFormats(_) => 11,
        NamedGroups(_) => 10,
        SignatureAlgorithms(_) => 13,
        ServerName(_) => 0,
        SessionTicket(_) => 35,
        Protocols(_) => 16,
        SupportedVersions(_) => 43,
        KeyShare(_) => 51,
        PresharedKeyModes(_) => 45,
        PresharedKey(_) => 41,
        Cookie(_) => 44,
        ExtendedMasterSecretRequest => 23,
        CertificateStatusRequest(_) => 5,
        SignedCertificateTimestampRequest => 18,
        TransportParameters(_) => 57,
        TransportParametersDraft(_) => 0xffa5,
        EarlyData => 42,
        Unknown(u) => 0x8000 | u.typ.get_u16(),
    }
}
fn server_kind(e: &ServerExtension) -> u16 {
    use ServerExtension::*;
    match e {
        ECPointFormats(_) => 11,
        ServerNameAck => 0,
        SessionTicketAck => 35,
        RenegotiationInfo(_) => 0xff01,
        Protocols(_) => 16,
        KeyShare(_) => 51,
        PresharedKey(_) => 41,
        ExtendedMasterSecretAck => 23,
        CertificateStatusAck => 5,
        SignedCertificateTimestamp(_) => 18,
        SupportedVersions(_) => 43,
        TransportParameters(_) => 57,
        TransportParametersDraft(_) => 0xffa5,
        EarlyData => 42,
        Unknown(u) => 0x8000 | u.typ.get_u16(),
    }
}
fn ch(l: &[E]) -> Result<ClientHelloPayload, String> {
    let m = hs(1, &cat(&[&[3, 3], &[5; 32], &l8(&[1, 2]), &l16(&[0xc0, 0x2b]), &l8(&[0]), &wire(l)]));
    match HandshakeMessagePayload::read_bytes(&m).ok_or("client hello refused")?.payload {
        HandshakePayload::ClientHello(c) => Ok(c),
        _ => Err("not a client hello".into()),
    }
}
fn check_client(l: &[E]) -> R {
    let c = ch(l)?;
    for (e, w) in c.extensions.iter().zip(l) {
        let k = client_kind(e);
        ck!(k == w.0 || (k == 0x8000 | w.0 && unknown(w.0, 0x1234)), "kind of extension {} is {k}", w.0);
    }
    let f = |t| first(l, t);
    ck_eq!(enc(c.get_sni_extension()), f(0), "server name");
    ck_eq!(enc(c.get_namedgroups_extension()), f(10), "groups");
    ck_eq!(enc(c.get_ecpoints_extension()), f(11), "point formats");
    ck_eq!(enc(c.get_sigalgs_extension()), f(13), "signature algorithms");
    ck_eq!(enc(c.get_alpn_extension()), f(16), "protocols");
    let t = c.get_ticket_extension();
    ck_eq!(t.map(|t| match t {
        ClientExtension::SessionTicket(ClientSessionTicket::Request) => vec![],
        ClientExtension::SessionTicket(ClientSessionTicket::Offer(p)) => cat(&[b"", &p.0]),
        _ => vec![0xff],
    }), f(35), "ticket");
    ck_eq!(enc(c.get_versions_extension()), f(43), "versions");
    ck_eq!(enc(c.get_keyshare_extension()), f(51), "key share");
    ck_eq!(enc(c.get_psk()), f(41), "pre-shared key");
    ck_eq!(c.check_psk_ext_is_last(), l.last().is_some_and(|e| e.0 == 41), "pre-shared key last");
    ck_eq!(enc(c.get_psk_modes()), f(45), "psk modes");
    for m in 0..=255u8 {
        ck_eq!(c.psk_mode_offered(PSKKeyExchangeMode::from(m)), f(45).is_some_and(|b| b[1..].contains(&m)), "psk mode {m}");
    }
    ck_eq!(c.ems_support_offered(), f(23).is_some(), "extended master secret");
    ck_eq!(c.early_data_extension_offered(), f(42).is_some(), "early data");
    ck_eq!(c.session_id.get_encoding(), vec![2, 1, 2]);
    // binders: the bytes to sign are the whole message minus the trailing binder list
    let last_psk = l.last().is_some_and(|e| e.0 == 41);
    let m = HandshakeMessagePayload { typ: HandshakeType::ClientHello, payload: HandshakePayload::ClientHello(ch(l)?) };
    let full = m.get_encoding();
    let want = if last_psk { full.len() - 5 } else { full.len() };
    ck_eq!(m.get_encoding_for_binder_signing(), full[..want].to_vec(), "binder input");
    let mut c = c;
    c.set_psk_binder(vec![8u8, 8, 8]);
    let m2 = HandshakeMessagePayload { typ: HandshakeType::ClientHello, payload: HandshakePayload::ClientHello(c) }.get_encoding();
    if last_psk {
        ck_eq!(m2[m2.len() - 6..].to_vec(), vec![0, 4, 3, 8, 8, 8], "binder set");
    } else {
        ck_eq!(m2, full, "binder only in a last psk extension");
    }
    Ok(())
}
fn check_server(l: &[E]) -> R {
    let m = hs(2, &cat(&[&[3, 3], &[5; 32], &l8(&[1, 2]), &[0xc0, 0x2b, 0], &wire(l)]));
    let HandshakePayload::ServerHello(c) = HandshakeMessagePayload::read_bytes(&m).ok_or("server hello refused")?.payload else { return Err("sh".into()) };
    let f = |t| first(l, t);
    ck_eq!((c.legacy_version, c.random.0, c.compression_method), (ProtocolVersion::TLSv1_2, [5; 32], Compression::Null));
    for (e, w) in c.extensions.iter().zip(l) {
        let k = server_kind(e);
        ck!(k == w.0 || (k == 0x8000 | w.0 && unknown(w.0, 0xabcd)), "kind of extension {} is {k}", w.0);
    }
    ck_eq!(enc(c.get_key_share()), f(51), "key share");
    ck_eq!(c.get_psk_index().map(|v| v.to_be_bytes().to_vec()), f(41), "psk index");
    ck_eq!(enc(c.get_ecpoints_extension()), f(11), "points");
    ck_eq!(c.ems_support_acked(), f(23).is_some(), "ems");
    ck_eq!(enc(c.get_sct_list()), f(18), "scts");
    ck_eq!(enc(c.get_supported_versions().as_ref()), f(43), "versions");
    let alpn = f(16).map(|b| names(&b)).filter(|n| n.len() == 1).map(|n| n[0].clone());
    ck_eq!(c.get_alpn_protocol().map(|p| p.to_vec()), alpn, "protocol");
    ck_eq!(HasServerExtensions::early_data_extension_offered(&c), f(42).is_some(), "early data");
    let HandshakePayload::EncryptedExtensions(c) = HandshakeMessagePayload::read_bytes(&hs(8, &wire(l))).ok_or("ee refused")?.payload else { return Err("ee".into()) };
    ck_eq!(c.get_alpn_protocol().map(|p| p.to_vec()), alpn, "protocol");
    ck_eq!(HasServerExtensions::early_data_extension_offered(&c), f(42).is_some(), "early data");
    for t in [0u16, 5, 11, 16, 35, 51, 0xabcd, 0x9999] {
        ck_eq!(c.find_extension(ExtensionType::from(t)).map(|e| e.get_type().get_u16()), f(t).map(|_| t), "find");
    }
    Ok(())
}
fn check_hrr(l: &[E]) -> R {
    let m = hs(2, &cat(&[&[3, 3], &HRR, &l8(&[1, 2]), &[0x13, 1, 0], &wire(l)]));
    let d = HandshakeMessagePayload::read_bytes(&m).ok_or("hrr refused")?;
    ck_eq!(d.typ, HandshakeType::HelloRetryRequest);
    let HandshakePayload::HelloRetryRequest(c) = d.payload else { return Err("hrr".into()) };
    ck_eq!((c.legacy_version, c.cipher_suite.get_u16()), (ProtocolVersion::TLSv1_2, 0x1301));
    ck_eq!(enc(c.get_requested_key_share_group().as_ref()), first(l, 51), "group");
    ck_eq!(enc(c.get_cookie()), first(l, 44), "cookie");
    ck_eq!(enc(c.get_supported_versions().as_ref()), first(l, 43), "versions");
    Ok(())
}
fn read13(m: &[u8]) -> Result<HandshakePayload, String> {
    Ok(HandshakeMessagePayload::read_version(&mut Reader::init(m), ProtocolVersion::TLSv1_3).ok_or("refused")?.payload)
}
fn check_cert(a: &[E], b: &[E]) -> R {
    let m = hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[1, 2]), &wire(a), &l24(&[3]), &wire(b)]))]));
    let HandshakePayload::CertificateTLS13(c) = read13(&m)? else { return Err("cert".into()) };
    let ocsp = |l: &[E]| first(l, 5).map(|v| v[4..].to_vec());
    for (e, l) in c.entries.iter().zip([a, b]) {
        ck_eq!(e.get_ocsp_response().cloned(), ocsp(l), "ocsp");
        ck_eq!(enc(e.get_scts()), first(l, 18), "scts");
        ck_eq!(e.has_unknown_extension(), l.iter().any(|x| x.0 != 5 && x.0 != 18), "unknown");
        for (x, w) in e.exts.iter().zip(l) {
            ck_eq!(x.get_type().get_u16(), w.0);
            ck_eq!(x.get_cert_status().cloned(), (w.0 == 5).then(|| w.1[4..].to_vec()), "status of {}", w.0);
            ck_eq!(enc(x.get_sct_list()), (w.0 == 18).then(|| w.1.clone()), "scts of {}", w.0);
        }
    }
    ck_eq!(c.get_end_entity_ocsp(), ocsp(a).unwrap_or_default(), "end entity ocsp");
    ck_eq!(enc(c.get_end_entity_scts().as_ref()), first(a, 18), "end entity scts");
    ck_eq!(c.any_entry_has_extension(), !a.is_empty() || !b.is_empty());
    ck_eq!(c.any_entry_has_unknown_extension(), a.iter().chain(b).any(|x| x.0 != 5 && x.0 != 18));
    ck_eq!(c.convert().iter().map(|c| c.0.clone()).collect::<Vec<_>>(), vec![vec![1u8, 2], vec![3]], "certificates in order");
    Ok(())
}
fn check_req(l: &[E]) -> R {
    let m = hs(13, &cat(&[&l8(&[6]), &wire(l)]));
    let HandshakePayload::CertificateRequestTLS13(c) = read13(&m)? else { return Err("req".into()) };
    ck_eq!(enc(c.get_sigalgs_extension()), first(l, 13), "signature algorithms");
    ck_eq!(enc(c.get_authorities_extension()), first(l, 47), "authorities");
    for t in [13, 47, 50, 51u16] {
        ck_eq!(c.find_extension(ExtensionType::from(t)).map(|e| e.get_type().get_u16()), first(l, t).map(|_| t));
    }
    Ok(())
}
fn check_ticket(l: &[E]) -> R {
    let m = hs(4, &cat(&[&[0, 0, 1, 0, 9, 8, 7, 6], &l8(&[4]), &l16(&[1, 5]), &wire(l)]));
    let HandshakePayload::NewSessionTicketTLS13(c) = read13(&m)? else { return Err("nst".into()) };
    ck_eq!((c.lifetime, c.age_add, c.nonce.0.clone(), c.ticket.0.clone()), (256, 0x09080706, vec![4], vec![1, 5]));
    ck_eq!(c.get_max_early_data_size().map(|v| v.to_be_bytes().to_vec()), first(l, 42), "early data size");
    for t in [42, 9, 50u16] {
        ck_eq!(c.find_extension(ExtensionType::from(t)).map(|e| e.get_type().get_u16()), first(l, t).map(|_| t));
    }
    Ok(())
}

pub fn t13(h: &Hx) {
    let n = h.tier(4, 5);
    h.note("bounds", format!("every ordered extension list of length <= {n} over every extension kind, per carrier; every short session id and byte-level field"));
    let pick = |t: &[E], s: &[usize]| -> Vec<E> { s.iter().map(|&i| t[i].clone()).collect() };
    let go = |name: &str, t: Vec<E>, lo: usize, n: usize, f: fn(&[E]) -> R| {
        let seqs = all_seqs(t.len(), lo, n);
        h.par(&seqs, |s| {
            h.case(|| format!("{name}/{s:?}"), || {
                h.state(&(name, s));
                h.trans(1);
                f(&pick(&t, s))
            });
        });
    };
    go("client", client(), 1, n, check_client);
    go("server", server(), 0, n, check_server);
    go("hrr", vec![(51, u16b(23)), (51, u16b(0x1a1a)), (44, l16(&[1])), (44, l16(&[2, 3])), (43, u16b(0x304)), (43, u16b(0x303)), (0x1234, vec![]), (5, vec![1])], 0, n + 1, check_hrr);
    go("request", vec![(13, l16(&[4, 3])), (13, l16(&[8, 4, 4, 1])), (47, l16(&l16(&[2]))), (47, l16(&[0, 0])), (50, vec![0]), (5, vec![])], 0, n + 1, check_req);
    // one known extension anywhere in a crowd of unknown ones, and long lists inside an extension
    let crowd = |name: &str, t: Vec<E>, f: fn(&[E]) -> R| {
        let mut jobs = vec![];
        for i in 0..t.len() {
            for k in h.tier((3..=300).chain([511, 512, 513, 1000, 4000]).collect::<Vec<usize>>(), (3..=1100).chain([4000]).collect()) {
                jobs.push((i, k));
            }
        }
        h.par(&jobs, |&(i, k)| {
            h.case(|| format!("crowd/{name}/{i}/{k}"), || {
                for at in [0, 1, k / 2, k - 1, k] {
                    let mut l: Vec<E> = (0..k).map(|j| (0x2000 + j as u16, vec![j as u8; (k < 200) as usize * (j % 3)])).collect();
                    l.insert(at, t[i].clone());
                    h.trans(1);
                    f(&l)?;
                }
                h.state(&("crowd", name, i, k));
                Ok(())
            });
        });
    };
    crowd("client", client(), check_client);
    crowd("server", server(), check_server);
    crowd("hrr", vec![(51, u16b(23)), (44, l16(&[2, 3])), (43, u16b(0x304))], check_hrr);
    crowd("request", vec![(13, l16(&[4, 3])), (47, l16(&l16(&[2])))], check_req);
    crowd("ticket", vec![(42, vec![0, 0, 1, 2])], check_ticket);
    let ks: Vec<usize> = h.tier((1..=400).collect(), (1..=500).collect());
    h.par(&ks, |&k| {
        h.case(|| format!("inner/{k}"), || {
            let rep = |f: &dyn Fn(usize) -> Vec<u8>| -> Vec<u8> { (0..k).flat_map(|i| f(i)).collect() };
            let mut l: Vec<E> = vec![
                (10, l16(&rep(&|i| u16b((i as u16).wrapping_mul(257))))),
                (13, l16(&rep(&|i| u16b(0x0400 + i as u16)))),
                (16, l16(&rep(&|i| l8(&vec![b'a' + (i % 20) as u8; 1 + i % 9])))),
                (51, l16(&rep(&|i| cat(&[&u16b(i as u16 + 5), &l16(&vec![i as u8; 1 + i % 70])])))),
                (44, l16(&rep(&|i| vec![i as u8]))),
                (35, rep(&|i| vec![i as u8])),
            ];
            if k < 256 {
                l.push((11, l8(&rep(&|i| vec![i as u8]))));
                l.push((45, l8(&rep(&|i| vec![255 - i as u8]))));
            }
            if k < 128 {
                l.push((43, l8(&rep(&|i| u16b(0x0300 + i as u16)))));
            }
            h.state(&("inner", k));
            h.trans(4);
            check_client(&l)?;
            l.reverse();
            check_client(&l)?;
            let sl: Vec<E> = vec![
                (18, l16(&rep(&|i| l16(&vec![i as u8; 1 + i % 130])))),
                (16, l16(&l8(&vec![b'p'; k.min(255)]))),
                (51, cat(&[&[0, 23], &l16(&rep(&|i| vec![i as u8]))])),
            ];
            check_server(&sl)?;
            check_cert(&[(18, l16(&rep(&|i| l16(&vec![i as u8; 1 + i % 130]))))], &[(5, cat(&[&[1], &l24(&rep(&|i| vec![i as u8; 60]))]))])
        });
    });
    let n = n.min(3);
    go("ticket", vec![(42, vec![0, 0, 1, 2]), (42, vec![9, 0, 0, 0]), (9, vec![1]), (0x1234, vec![])], 0, n + 2, check_ticket);
    let ce: Vec<E> = vec![
        (5, cat(&[&[1], &l24(&[8, 8])])),
        (5, cat(&[&[1], &l24(&[])])),
        (18, l16(&l16(&[1]))),
        (18, l16(&cat(&[&l16(&[2]), &l16(&[3, 4])]))),
        (77, vec![2]),
        (10, vec![]),
    ];
    let lists = all_seqs(6, 0, 2);
    h.par(&lists, |a| {
        for b in &lists {
            h.case(|| format!("cert/{a:?}/{b:?}"), || {
                h.state(&("cert", a, b));
                h.trans(1);
                check_cert(&pick(&ce, a), &pick(&ce, b))
            });
        }
    });
    chains(h);
    lonely(h);
    refusals(h);
    sessions(h);
    messages(h);
    constants(h);
}

/// Certificate chains of every mix of entries: each question is about the right entries.
fn chains(h: &Hx) {
    // an entry: nothing, a status, timestamps, an unknown extension, a repeated one, both known
    let kinds: Vec<Vec<E>> = vec![
        vec![],
        vec![(5, cat(&[&[1], &l24(&[8, 8])]))],
        vec![(18, l16(&l16(&[1])))],
        vec![(77, vec![2])],
        vec![(18, l16(&l16(&[2]))), (18, l16(&l16(&[3])))],
        vec![(18, l16(&l16(&[4, 4]))), (5, cat(&[&[1], &l24(&[9])]))],
    ];
    let run = |s: &[usize], bodies: &[Vec<u8>]| -> R {
        let m = hs(11, &cat(&[&l8(&[]), &l24(&s.iter().zip(bodies).flat_map(|(k, b)| cat(&[&l24(b), &wire(&kinds[*k])])).collect::<Vec<_>>())]));
        let HandshakePayload::CertificateTLS13(c) = read13(&m)? else { return Err("cert".into()) };
        let ee = s.first().map(|k| kinds[*k].clone()).unwrap_or_default();
        ck_eq!(c.get_end_entity_ocsp(), first(&ee, 5).map(|v| v[4..].to_vec()).unwrap_or_default(), "end entity status");
        ck_eq!(enc(c.get_end_entity_scts().as_ref()), first(&ee, 18), "end entity timestamps");
        ck_eq!(c.any_entry_has_extension(), s.iter().any(|k| *k != 0), "any extension");
        ck_eq!(c.any_entry_has_unknown_extension(), s.contains(&3), "any unknown extension");
        ck_eq!(c.any_entry_has_duplicate_extension(), s.contains(&4), "any repeated extension");
        ck_eq!(c.convert().iter().map(|c| c.0.clone()).collect::<Vec<_>>(), bodies.to_vec(), "certificates in order");
        let old: Vec<u8> = bodies.iter().flat_map(|b| l24(b)).collect();
        let HandshakePayload::Certificate(c) = HandshakeMessagePayload::read_bytes(&hs(11, &l24(&old))).ok_or("refused")?.payload else { return Err("cert".into()) };
        ck_eq!(c.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), bodies.to_vec(), "certificates in order");
        h.trans(1);
        Ok(())
    };
    let n = h.tier(6, 7);
    let seqs = all_seqs(kinds.len(), 0, n);
    h.par(&seqs, |s| {
        h.case(|| format!("chain/{s:?}"), || {
            h.state(&("chain", s));
            // all different, all equal, some empty
            run(s, &(0..s.len()).map(|i| vec![i as u8; i + 1]).collect::<Vec<_>>())?;
            run(s, &vec![vec![7u8, 7]; s.len()])?;
            run(s, &(0..s.len()).map(|i| vec![3; i % 2]).collect::<Vec<_>>())
        });
    });
    // one odd entry anywhere in a long chain
    let ks: Vec<usize> = h.tier((6..=400).chain([1000, 4000]).collect(), (6..=1100).chain([4000, 5000]).collect());
    h.par(&ks, |&k| {
        h.case(|| format!("longchain/{k}"), || {
            h.state(&("longchain", k));
            let at: Vec<usize> = if k <= 65 { (0..k).collect() } else { vec![0, 1, 2, 3, k / 2, k - 2, k - 1] };
            let bodies: Vec<Vec<u8>> = (0..k).map(|i| vec![(i / 2) as u8; 1 + i % 3]).collect();
            for odd in 1..kinds.len() {
                for i in &at {
                    let mut s = vec![0; k];
                    s[*i] = odd;
                    run(&s, &bodies)?;
                }
            }
            Ok(())
        });
    });
    // the byte limit of a chain
    for (n, ok) in [(0xfff0usize, true), (0xffff, true), (0x10000, true), (0x10001, false), (0x10010, false), (0x20000, false)] {
        for per in [n, 0x8000, 0x1000] {
            h.case(|| format!("chain limit/{n}/{per}"), || {
                h.state(&("limit", n, per));
                for v13 in [false, true] {
                    // certificates of `per` bytes each, the last filling up to exactly n
                    let over = if v13 { 5 } else { 3 };
                    let mut body = vec![];
                    while body.len() < n {
                        let left = n - body.len();
                        let k = if left >= per + over || left < over { per.min(left) } else { left };
                        let k = if left - k < over && left != k { left } else { k };
                        body.extend(l24(&vec![7; k - over]));
                        if v13 { body.extend([0, 0]) }
                    }
                    ck_eq!(body.len(), n);
                    h.trans(1);
                    let r = if v13 { read13(&hs(11, &cat(&[&l8(&[]), &l24(&body)]))).is_ok() } else { HandshakeMessagePayload::read_bytes(&hs(11, &l24(&body))).is_some() };
                    ck_eq!(r, ok, "chain of {n} bytes, 1.3 {v13}");
                }
                Ok(())
            });
        }
    }
    // several offered keys: the binder that is set is the first, the bytes to sign stop before all of them
    for n in 1..=h.tier(80usize, 160) {
        h.case(|| format!("binders/{n}"), || {
            for sz in [1usize, 32, 48, 255] {
                let ids: Vec<u8> = (0..n).flat_map(|i| cat(&[&l16(&vec![i as u8; 1 + i]), &[0, 0, 1, i as u8]])).collect();
                let bs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 + 1; sz]).collect();
                let bw = l16(&bs.iter().flat_map(|b| l8(b)).collect::<Vec<_>>());
                let l: Vec<E> = vec![(10, l16(&[0, 23])), (41, cat(&[&l16(&ids), &bw]))];
                let m = HandshakeMessagePayload { typ: HandshakeType::ClientHello, payload: HandshakePayload::ClientHello(ch(&l)?) };
                let full = m.get_encoding();
                ck_eq!(m.get_encoding_for_binder_signing(), full[..full.len() - bw.len()].to_vec(), "bytes to sign with {n} binders of {sz}");
                let HandshakePayload::ClientHello(mut c) = m.payload else { unreachable!() };
                c.set_psk_binder(vec![0xee; 20]);
                let mut want = bs.clone();
                want[0] = vec![0xee; 20];
                ck_eq!(enc(c.get_psk()), Some(cat(&[&l16(&ids), &l16(&want.iter().flat_map(|b| l8(b)).collect::<Vec<_>>())])), "binder set among {n}");
                h.trans(2);
            }
            h.state(&("binders", n));
            Ok(())
        });
    }
    // the first host name of a list is the one that counts
    h.case(|| "hostnames".into(), || {
        for s in all_seqs(3, 1, 4) {
            let n = |k: usize| match k {
                0 => ServerName { typ: ServerNameType::HostName, payload: ServerNamePayload::new_hostname(rustls_pki_types::DnsName::try_from("first.example").unwrap()) },
                1 => ServerName { typ: ServerNameType::HostName, payload: ServerNamePayload::new_hostname(rustls_pki_types::DnsName::try_from("second.example").unwrap()) },
                _ => ServerName { typ: ServerNameType::from(9), payload: ServerNamePayload::Unknown(Payload(vec![1])) },
            };
            let v: ServerNameRequest = s.iter().map(|k| n(*k)).collect();
            let want = s.iter().find(|k| **k < 2).map(|k| ["first.example", "second.example"][*k].to_string());
            ck_eq!(v.get_single_hostname().map(|d| d.as_ref().to_string()), want, "host name of {s:?}");
            h.trans(1);
        }
        Ok(())
    });
}

/// Certificate messages with no or one entry.
fn lonely(h: &Hx) {
    h.case(|| "cert/none".into(), || {
        let HandshakePayload::CertificateTLS13(c) = read13(&hs(11, &cat(&[&l8(&[]), &l24(&[])])))? else { return Err("cert".into()) };
        ck!(c.get_end_entity_ocsp().is_empty() && c.get_end_entity_scts().is_none() && c.convert().is_empty());
        ck!(!c.any_entry_has_extension() && !c.any_entry_has_duplicate_extension() && !c.any_entry_has_unknown_extension());
        h.state(&"cert/none");
        let e = CertificateEntry::new(tls_core::key::Certificate(vec![7]));
        ck!(e.exts.is_empty() && e.cert.0 == vec![7]);
        let p = CertificatePayloadTLS13::new(vec![e]);
        ck_eq!(p.get_encoding(), cat(&[&l8(&[]), &l24(&cat(&[&l24(&[7]), &l16(&[])]))]));
        Ok(())
    });
}

/// Well-framed messages whose content is meaningless are refused, and only those.
fn refusals(h: &Hx) {
    h.case(|| "refuse/sigschemes".into(), || {
        for n in 0..6usize {
            let s: Vec<u8> = [4u8, 3].iter().cycle().take(2 * n).cloned().collect();
            h.trans(2);
            let m = hs(13, &cat(&[&l8(&[64]), &l16(&s), &l16(&[])]));
            ck_eq!(HandshakeMessagePayload::read_bytes(&m).is_some(), n > 0, "request with {n} schemes");
            ck_eq!(read13(&hs(13, &cat(&[&l8(&[]), &wire(&[(13, l16(&s))])]))).is_ok(), n > 0, "1.3 request with {n} schemes");
        }
        Ok(())
    });
    // trailing bytes: accepted only by messages whose body is free-form
    h.case(|| "refuse/trailing".into(), || {
        for t in 0..=255u8 {
            for extra in 0..4usize {
                h.trans(1);
                h.state(&("trailing", t, extra));
                let got = HandshakeMessagePayload::read_bytes(&hs(t, &vec![0u8; extra]));
                let want = match t {
                    5 | 14 => extra == 0,                                   // end of early data, hello done
                    1 | 2 | 4 | 6 | 13 | 15 | 22 | 254 => false,             // structured: too short; 6 and 254 never on the wire
                    8 => extra == 2,                                        // an empty extension list
                    11 => extra == 3,                                       // an empty chain
                    24 => extra == 1,                                       // key update
                    _ => true,
                };
                ck_eq!(got.is_some(), want, "type {t} with {extra} bytes");
                if let Some(g) = got {
                    ck_eq!(g.typ.get_u8(), t);
                    if t == 0 {
                        ck_eq!(matches!(g.payload, HandshakePayload::HelloRequest), extra == 0);
                    }
                }
            }
        }
        for st in 0..=255u8 {
            let m = hs(22, &cat(&[&[st], &l24(&[1, 2, 3])]));
            ck_eq!(HandshakeMessagePayload::read_bytes(&m).is_some(), st == 1, "certificate status type {st}");
            let long = hs(22, &cat(&[&[st], &l24(&[1, 2, 3]), &[0]]));
            ck!(HandshakeMessagePayload::read_bytes(&long).is_none(), "surplus byte");
        }
        ck_eq!(CertificateStatus::new(vec![4, 5]).into_inner(), vec![4u8, 5]);
        // bytes left after a server hello or retry request
        for hrr in [false, true] {
            for extra in 0..3usize {
                let r = if hrr { HRR } else { [6; 32] };
                let m = hs(2, &cat(&[&[3, 3], &r, &l8(&[]), &[0x13, 1, 0], &l16(&[]), &vec![0; extra]]));
                ck_eq!(HandshakeMessagePayload::read_bytes(&m).is_some(), extra == 0, "{extra} left");
            }
        }
        for c in 0..=255u8 {
            let m = hs(2, &cat(&[&[3, 3], &HRR, &l8(&[]), &[0x13, 1, c], &l16(&[])]));
            ck_eq!(HandshakeMessagePayload::read_bytes(&m).is_some(), c == 0, "retry compression {c}");
        }
        Ok(())
    });
    // every one-bit change of the retry marker makes an ordinary hello
    h.case(|| "hrr/marker".into(), || {
        for bit in 0..256usize {
            let mut r = HRR;
            r[bit / 8] ^= 1 << (bit % 8);
            let m = hs(2, &cat(&[&[3, 3], &r, &l8(&[]), &[0x13, 1, 0], &l16(&[])]));
            let p = HandshakeMessagePayload::read_bytes(&m).ok_or("refused")?;
            h.trans(1);
            ck!(matches!(&p.payload, HandshakePayload::ServerHello(s) if s.random.0 == r), "bit {bit}");
            ck_eq!(p.typ, HandshakeType::ServerHello);
        }
        Ok(())
    });
}

/// Session identifiers and randoms behave as the byte strings they carry.
fn sessions(h: &Hx) {
    let mut all: Vec<Vec<u8>> = vec![];
    for len in 0..=32usize {
        all.push(vec![0; len]);
        for pos in 0..len {
            let mut v = vec![0; len];
            v[pos] = 1;
            all.push(v.clone());
            v[pos] = 0x80;
            all.push(v);
        }
    }
    let parsed: Vec<SessionID> = all.iter().filter_map(|v| SessionID::read_bytes(&l8(v))).collect();
    h.case(|| "sid/read".into(), || {
        ck_eq!(parsed.len(), all.len());
        for (s, v) in parsed.iter().zip(&all) {
            h.state(v);
            ck_eq!((s.len(), s.is_empty()), (v.len(), v.is_empty()));
            ck_eq!(s.get_encoding(), l8(v));
        }
        for len in 33..=255usize {
            ck!(SessionID::read_bytes(&l8(&vec![0; len])).is_none(), "length {len}");
        }
        for n in 0..300usize {
            ck_eq!(tls_core::rand::random_vec(n).map_err(|_| "rng")?.len(), n, "random bytes");
        }
        let mut seen = 0u32;
        for _ in 0..64 {
            seen |= tls_core::rand::random_u32().map_err(|_| "no random number")?;
        }
        ck_eq!(seen, u32::MAX, "bits of random numbers that are ever set");
        ck!(SessionID::empty().is_empty() && SessionID::empty() == parsed[0]);
        let (a, b) = (SessionID::random().map_err(|e| e.to_string())?, SessionID::random().map_err(|e| e.to_string())?);
        ck!(a.len() == 32 && a != b && a == a, "random ids");
        let e = a.get_encoding();
        ck!(e[0] == 32 && e[1..].iter().any(|x| *x != 0) && e != b.get_encoding());
        // 256 random bits: every byte position takes a non-zero value within a few draws
        for what in 0..3 {
            let mut seen = [0u8; 32];
            for _ in 0..16 {
                let d = match what {
                    0 => SessionID::random().map_err(|e| e.to_string())?.get_encoding()[1..].to_vec(),
                    1 => Random::new().map_err(|e| e.to_string())?.get_encoding(),
                    _ => tls_core::rand::random_vec(32).map_err(|_| "rng")?,
                };
                ck_eq!(d.len(), 32);
                seen.iter_mut().zip(d).for_each(|(s, b)| *s |= b);
            }
            ck!(seen.iter().all(|b| *b != 0), "random source {what} leaves bytes unset");
        }
        Ok(())
    });
    let idx: Vec<usize> = (0..all.len()).collect();
    h.par(&idx, |&i| {
        h.case(|| format!("sid/eq/{i}"), || {
            for j in 0..all.len() {
                ck_eq!(parsed[i] == parsed[j], all[i] == all[j], "{} vs {}", hex(&all[i]), hex(&all[j]));
            }
            h.trans(all.len() as u64);
            Ok(())
        });
    });
    h.case(|| "random".into(), || {
        for bit in 0..256usize {
            let mut r = [0u8; 32];
            r[bit / 8] = 1 << (bit % 8);
            let x = Random::from(r);
            let mut out = [9u8; 32];
            x.write_slice(&mut out);
            h.trans(1);
            ck_eq!(out, r);
            ck_eq!(Random::read_bytes(&r).map(|x| x.0), Some(r));
            ck!(x == Random(r) && x != Random([0; 32]));
        }
        for len in 0..32usize {
            ck!(Random::read_bytes(&vec![1; len]).is_none());
        }
        Ok(())
    });
}

fn messages(h: &Hx) {
    // one decodable body per content type and handshake type
    let rnd = [5u8; 32];
    let sh = cat(&[&[3, 3], &rnd, &l8(&[]), &[0xc0, 0x2b, 0], &l16(&[])]);
    let retry = cat(&[&[3, 3], &HRR, &l8(&[]), &[0x13, 1, 0], &l16(&[])]);
    let hello = cat(&[&[3, 3], &rnd, &l8(&[]), &l16(&[0xc0, 0x2b]), &l8(&[0]), &wire(&[(10, l16(&[0, 23]))])]);
    let hss: Vec<(u8, u8, Vec<u8>)> = vec![
        (0, 0, vec![]), (1, 1, hello), (2, 2, sh), (2, 6, retry), (4, 4, cat(&[&[0; 4], &l16(&[1])])), (5, 5, vec![]), (8, 8, l16(&[])),
        (11, 11, l24(&[])), (12, 12, vec![1]), (13, 13, cat(&[&l8(&[64]), &l16(&[4, 3]), &l16(&[])])), (14, 14, vec![]),
        (15, 15, cat(&[&[4, 3], &l16(&[1])])), (16, 16, vec![2]), (20, 20, vec![3]), (22, 22, cat(&[&[1], &l24(&[1])])), (24, 24, vec![0]), (77, 77, vec![1]),
    ];
    h.case(|| "message/types".into(), || {
        for (t, want, b) in &hss {
            let p = PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, payload: Payload(hs(*t, b)) };
            ck_eq!((p.borrow().typ, p.borrow().payload.to_vec()), (ContentType::Handshake, hs(*t, b)));
            let m = Message::try_from(p).map_err(|e| format!("type {t}: {e}"))?;
            ck_eq!(m.payload.content_type(), ContentType::Handshake);
            for x in 0..=255u8 {
                h.trans(1);
                ck_eq!(m.is_handshake_type(HandshakeType::from(x)), x == *want, "type {t} asked for {x}");
            }
            let back = PlainMessage::from(m);
            ck_eq!((back.typ, back.version, back.payload.0), (ContentType::Handshake, ProtocolVersion::TLSv1_2, hs(*t, b)));
        }
        for (ct, b) in [(21u8, vec![1u8, 0]), (20, vec![1]), (23, vec![1, 0, 0, 0])] {
            for ver in [0x0301u16, 0x0303, 0x0304] {
                let m = Message::try_from(PlainMessage { typ: ContentType::from(ct), version: ProtocolVersion::from(ver), payload: Payload(b.clone()) }).map_err(|e| e.to_string())?;
                for x in 0..=255u8 {
                    ck!(!m.is_handshake_type(HandshakeType::from(x)), "content {ct} is no handshake message {x}");
                }
                let back = PlainMessage::from(m);
                ck_eq!((back.typ.get_u8(), back.version.get_u16(), back.payload.0.clone()), (ct, ver, b.clone()));
                let o = back.into_unencrypted_opaque();
                ck_eq!((o.typ.get_u8(), o.version.get_u16(), o.payload.0.clone()), (ct, ver, b.clone()));
                let p = o.clone().into_plain_message();
                ck_eq!((p.typ.get_u8(), p.version.get_u16(), p.payload.0), (ct, ver, b.clone()));
                ck_eq!(o.encode(), rec(ct, ver, &b));
            }
        }
        Ok(())
    });
    // alerts: every level and description; exactly two bytes
    h.case(|| "message/alert".into(), || {
        for l in 0..=255u8 {
            for d in 0..=255u8 {
                let m = Message::build_alert(AlertLevel::from(l), AlertDescription::from(d));
                let p = PlainMessage::from(m);
                h.trans(1);
                ck_eq!((p.typ, p.version, p.payload.0), (ContentType::Alert, ProtocolVersion::TLSv1_2, vec![l, d]));
            }
        }
        h.state(&"alerts");
        for n in [0usize, 1, 3, 4] {
            let r = Message::try_from(PlainMessage { typ: ContentType::Alert, version: ProtocolVersion::TLSv1_2, payload: Payload(vec![1; n]) });
            ck_eq!(r.err(), Some(Error::CorruptMessagePayload(ContentType::Alert)), "alert of {n} bytes");
        }
        for b in 0..=255u8 {
            let r = Message::try_from(PlainMessage { typ: ContentType::ChangeCipherSpec, version: ProtocolVersion::TLSv1_2, payload: Payload(vec![b]) });
            ck_eq!(r.is_ok(), b == 1, "ccs {b}");
            ck_eq!(ChangeCipherSpecPayload::read_bytes(&[b]).is_some(), b == 1);
        }
        for n in [0usize, 2, 3] {
            let r = Message::try_from(PlainMessage { typ: ContentType::ChangeCipherSpec, version: ProtocolVersion::TLSv1_2, payload: Payload(vec![1; n]) });
            ck_eq!(r.err(), Some(Error::CorruptMessagePayload(ContentType::ChangeCipherSpec)), "ccs of {n} bytes");
        }
        for t in 0..=255u8 {
            let r = Message::try_from(PlainMessage { typ: ContentType::from(t), version: ProtocolVersion::TLSv1_2, payload: Payload(vec![]) });
            ck_eq!(r.is_ok(), t == 23, "empty content {t}");
            if let Err(e) = r {
                ck_eq!(e, Error::CorruptMessagePayload(ContentType::from(t)));
            }
        }
        let p = PlainMessage::from(Message::build_key_update_notify());
        ck_eq!((p.typ, p.version, p.payload.0), (ContentType::Handshake, ProtocolVersion::TLSv1_3, vec![24, 0, 0, 1, 0]));
        let hh = HandshakeMessagePayload::build_handshake_hash(&[1, 2, 3]);
        ck_eq!((hh.typ, hh.get_encoding()), (HandshakeType::MessageHash, vec![254, 0, 0, 3, 1, 2, 3]));
        Ok(())
    });
    // signatures, key shares and key exchange parameters re-encode as what they hold
    h.case(|| "encode/fields".into(), || {
        for n in (0..300usize).chain([65535]) {
            let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
            h.trans(4);
            ck_eq!(DigitallySignedStruct::new(SignatureScheme::RSA_PSS_SHA256, v.clone()).get_encoding(), cat(&[&[8, 4], &l16(&v)]));
            ck_eq!(KeyShareEntry::new(NamedGroup::secp256r1, &v).get_encoding(), cat(&[&[0, 23], &l16(&v)]));
            ck_eq!(NewSessionTicketPayload::new(7, v.clone()).get_encoding(), cat(&[&[0, 0, 0, 7], &l16(&v)]));
            if n < 256 {
                ck_eq!(ClientECDHParams { public: PayloadU8::new(v.clone()) }.get_encoding(), l8(&v));
                let p = ServerECDHParams::new(NamedGroup::X25519, &v);
                ck_eq!(p.get_encoding(), cat(&[&[3, 0, 29], &l8(&v)]));
                let x = ECDHEServerKeyExchange { params: p, dss: DigitallySignedStruct::new(SignatureScheme::ED25519, vec![n as u8]) };
                let bytes = cat(&[&[3, 0, 29], &l8(&v), &[8, 7], &l16(&[n as u8])]);
                ck_eq!(x.get_encoding(), bytes);
                ck_eq!(ServerKeyExchangePayload::ECDHE(x).get_encoding(), bytes);
                ck_eq!(NewSessionTicketPayloadTLS13::new(1, 2, v.clone(), vec![3]).get_encoding(), cat(&[&[0, 0, 0, 1, 0, 0, 0, 2], &l8(&v), &l16(&[3]), &l16(&[])]));
            }
            let pk = tls_core::key::PublicKey::new(NamedGroup::secp256r1, &v);
            ck_eq!(KeyShareEntry::from(pk).get_encoding(), cat(&[&[0, 23], &l16(&v)]));
        }
        ck_eq!(ServerExtension::make_alpn(&[b"h2", b""]).get_encoding(), cat(&[&[0, 16], &l16(&l16(&cat(&[&l8(b"h2"), &l8(b"")])))]));
        ck_eq!(ServerExtension::make_empty_renegotiation_info().get_encoding(), vec![0xff, 1, 0, 1, 0]);
        let scts = l16(&cat(&[&l16(&[1]), &l16(&[2, 3])]));
        ck_eq!(ServerExtension::make_sct(scts.clone()).get_encoding(), cat(&[&[0, 18], &l16(&scts)]));
        ck_eq!(CertificateExtension::make_sct(scts.clone()).get_encoding(), cat(&[&[0, 18], &l16(&scts)]));
        ck_eq!(CertificateStatusRequest::build_ocsp().get_encoding(), vec![1, 0, 0, 0, 0]);
        let o = PresharedKeyOffer::new(PresharedKeyIdentity::new(vec![1, 2], 3), vec![9; 4]);
        ck_eq!(o.get_encoding(), cat(&[&l16(&cat(&[&l16(&[1, 2]), &[0, 0, 0, 3]])), &l16(&l8(&[9; 4]))]));
        let l = ProtocolNameList::from_slices(&[b"a", b"", b"ccc"]);
        ck_eq!(l.to_slices(), vec![b"a".as_slice(), b"", b"ccc"]);
        ck!(l.as_single_slice().is_none() && ProtocolNameList::from_slices(&[]).as_single_slice().is_none());
        ck!(ProtocolNameList::from_slices(&[b"zz"]).as_single_slice() == Some(b"zz".as_slice()));
        Ok(())
    });
}

/// Values fixed by the standards.
fn constants(h: &Hx) {
    h.case(|| "constants".into(), || {
        h.state(&"constants");
        h.trans(8);
        ck_eq!(DOWNGRADE_SENTINEL, *b"DOWNGRD\x01");
        ck_eq!(OpaqueMessage::MAX_WIRE_SIZE, (1 << 14) + 2048 + 5);
        for (a, n) in [(HashAlgorithm::SHA1, 20), (HashAlgorithm::SHA256, 32), (HashAlgorithm::SHA384, 48), (HashAlgorithm::SHA512, 64), (HashAlgorithm::SHA512_256, 32)] {
            ck_eq!(a.output_len(), n);
        }
        Ok(())
    });
}
