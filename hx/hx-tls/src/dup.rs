//! T05: duplicate detection, compared with sets, on every short extension list.
use crate::wire::*;
use hx_lib::*;
use std::collections::HashSet;
use tls_core::msgs::{
    codec::Codec,
    codec::Reader,
    enums::*,
    handshake::*,
};

fn ext(t: u16, d: &[u8]) -> Vec<u8> {
    cat(&[&u16b(t), &l16(d)])
}
fn dup(t: &[u16]) -> bool {
    let mut s = HashSet::new();
    t.iter().any(|x| !s.insert(*x))
}

pub fn t05(h: &Hx) {
    let n = h.tier(5, 6);
    h.note("bounds", format!("every extension list of length <= {n} over 6 type codes per carrier"));
    let ce: Vec<(u16, Vec<u8>)> = vec![
        (10, l16(&[0, 23])), (16, l16(&l8(b"h2"))), (23, vec![]), (0x1234, vec![]), (0x1235, vec![1]), (0x5678, vec![2, 2]),
    ];
    let se: Vec<(u16, Vec<u8>)> = vec![
        (16, l16(&l8(b"h2"))), (23, vec![]), (18, l16(&l16(&[1]))), (0x1234, vec![]), (0x1235, vec![1]), (0xff01, l8(&[])),
    ];
    let ke: Vec<(u16, Vec<u8>)> = vec![(51, u16b(23)), (44, l16(&[1])), (43, u16b(0x304)), (0x1234, vec![]), (0x1235, vec![1]), (5, vec![])];
    let xe: Vec<(u16, Vec<u8>)> = vec![(5, cat(&[&[1], &l24(&[1])])), (18, l16(&l16(&[1]))), (0x1234, vec![]), (0x1235, vec![1]), (10, vec![]), (42, vec![])];
    let ne: Vec<(u16, Vec<u8>)> = vec![(42, vec![0, 0, 0, 1]), (0x1234, vec![]), (0x1235, vec![1]), (5, vec![]), (10, vec![]), (18, vec![])];
    let seqs = all_seqs(6, 0, n);
    h.par(&seqs, |s| {
        let build = |a: &[(u16, Vec<u8>)]| -> (Vec<u8>, Vec<u16>) {
            (l16(&s.iter().flat_map(|&i| ext(a[i].0, &a[i].1)).collect::<Vec<_>>()), s.iter().map(|&i| a[i].0).collect())
        };
        h.case(|| format!("list/{s:?}"), || {
            h.state(s);
            h.trans(6);
            let rnd = [5u8; 32];
            let (b, t) = build(&ce);
            if !s.is_empty() {
                let m = hs(1, &cat(&[&[3, 3], &rnd, &l8(&[]), &l16(&[0xc0, 0x2b]), &l8(&[0]), &b]));
                let HandshakePayload::ClientHello(c) = HandshakeMessagePayload::read_bytes(&m).ok_or("ch")?.payload else { return Err("ch".into()) };
                ck_eq!(c.has_duplicate_extension(), dup(&t), "client hello {t:?}");
                for x in [10u16, 16, 23, 0x1234, 0x9999] {
                    ck_eq!(c.find_extension(ExtensionType::from(x)).map(|e| e.get_type().get_u16()), t.contains(&x).then_some(x), "find");
                }
            }
            let (b, t) = build(&se);
            let m = hs(2, &cat(&[&[3, 3], &rnd, &l8(&[]), &[0xc0, 0x2b, 0], &b]));
            let HandshakePayload::ServerHello(c) = HandshakeMessagePayload::read_bytes(&m).ok_or("sh")?.payload else { return Err("sh".into()) };
            ck_eq!(c.has_duplicate_extension(), dup(&t), "server hello {t:?}");
            let m = hs(8, &b);
            let HandshakePayload::EncryptedExtensions(c) = HandshakeMessagePayload::read_bytes(&m).ok_or("ee")?.payload else { return Err("ee".into()) };
            ck_eq!(c.has_duplicate_extension(), dup(&t), "encrypted extensions {t:?}");
            let (b, t) = build(&ke);
            let m = hs(2, &cat(&[&[3, 3], &HRR, &l8(&[]), &[0x13, 1, 0], &b]));
            let HandshakePayload::HelloRetryRequest(c) = HandshakeMessagePayload::read_bytes(&m).ok_or("hrr")?.payload else { return Err("hrr".into()) };
            ck_eq!(c.has_duplicate_extension(), dup(&t), "hrr {t:?}");
            ck_eq!(c.has_unknown_extension(), t.iter().any(|x| ![51, 44, 43].contains(x)), "hrr unknown {t:?}");
            let (b, t) = build(&xe);
            let m = hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[1]), &l16(&[]), &l24(&[2]), &b]))]));
            let HandshakePayload::CertificateTLS13(c) = HandshakeMessagePayload::read_version(&mut Reader::init(&m), ProtocolVersion::TLSv1_3).ok_or("cert13")?.payload else { return Err("cert13".into()) };
            ck_eq!(c.any_entry_has_duplicate_extension(), dup(&t), "cert entry {t:?}");
            ck_eq!(c.entries[1].has_duplicate_extension(), dup(&t), "cert entry {t:?}");
            ck_eq!(c.any_entry_has_unknown_extension(), t.iter().any(|x| *x != 5 && *x != 18), "cert unknown {t:?}");
            ck_eq!(c.any_entry_has_extension(), !t.is_empty(), "cert any ext");
            let (b, t) = build(&ne);
            let m = hs(4, &cat(&[&[0; 8], &l8(&[]), &l16(&[1]), &b]));
            let HandshakePayload::NewSessionTicketTLS13(c) = HandshakeMessagePayload::read_version(&mut Reader::init(&m), ProtocolVersion::TLSv1_3).ok_or("nst")?.payload else { return Err("nst".into()) };
            ck_eq!(c.has_duplicate_extension(), dup(&t), "ticket {t:?}");
            // key shares
            let groups: Vec<u16> = s.iter().map(|&i| [23u16, 24, 29, 0x1234, 0x1235, 0x0017 + 0x100][i]).collect();
            let shares: Vec<u8> = groups.iter().enumerate().flat_map(|(i, g)| cat(&[&u16b(*g), &l16(&[i as u8])])).collect();
            let m = hs(1, &cat(&[&[3, 3], &rnd, &l8(&[]), &l16(&[0xc0, 0x2b]), &l8(&[0]), &l16(&ext(51, &l16(&shares)))]));
            let HandshakePayload::ClientHello(c) = HandshakeMessagePayload::read_bytes(&m).ok_or("ch")?.payload else { return Err("ch".into()) };
            ck_eq!(c.has_keyshare_extension_with_duplicates(), dup(&groups), "key shares {groups:?}");
            // server names: at most one per name type
            let types: Vec<u8> = s.iter().map(|&i| [0u8, 0, 1, 2, 255, 1][i]).collect();
            let names: ServerNameRequest = types
                .iter()
                .map(|t| ServerName {
                    typ: ServerNameType::from(*t),
                    payload: if *t == 0 {
                        ServerNamePayload::new_hostname(rustls_pki_types::DnsName::try_from("a.b").unwrap())
                    } else {
                        ServerNamePayload::Unknown(tls_core::msgs::base::Payload(vec![]))
                    },
                })
                .collect();
            ck_eq!(names.has_duplicate_names_for_type(), dup(&types.iter().map(|t| *t as u16).collect::<Vec<_>>()), "names {types:?}");
            ck_eq!(names.get_single_hostname().is_some(), types.contains(&0), "hostname {types:?}");
            Ok(())
        });
    });
    // two equal codes anywhere in a long list of different ones
    let ks: Vec<usize> = h.tier((2..=320).chain([1000, 1700]).collect(), (2..=1100).chain([1700]).collect());
    h.par(&ks, |&k| {
        h.case(|| format!("crowd/{k}"), || {
            let mut pairs: Vec<(usize, usize)> = vec![];
            if k <= h.tier(48, 80) {
                for i in 0..k {
                    for j in i + 1..k {
                        pairs.push((i, j));
                    }
                }
            } else {
                for (i, j) in [(0, 1), (0, k - 1), (k - 2, k - 1), (k / 2, k - 1), (0, k / 2), (k / 2 - 1, k / 2), (1, k - 2)] {
                    pairs.push((i, j));
                }
            }
            let rnd = [5u8; 32];
            for d in std::iter::once(None).chain(pairs.into_iter().map(Some)) {
                // codes that also collide in their low byte
                let mut t: Vec<u16> = (0..k).map(|i| 0x2000 + (i as u16 % 7) * 0x100 + i as u16 / 7).collect();
                if let Some((i, j)) = d {
                    t[j] = t[i];
                }
                let b = l16(&t.iter().enumerate().flat_map(|(i, x)| ext(*x, &vec![0; i % 2])).collect::<Vec<_>>());
                let want = d.is_some();
                h.trans(7);
                let HandshakePayload::ClientHello(c) = HandshakeMessagePayload::read_bytes(&hs(1, &cat(&[&[3, 3], &rnd, &l8(&[]), &l16(&[0xc0, 0x2b]), &l8(&[0]), &b]))).ok_or("ch")?.payload else { return Err("ch".into()) };
                ck_eq!(c.has_duplicate_extension(), want, "client hello with {k} extensions, {d:?} equal");
                let HandshakePayload::ServerHello(c) = HandshakeMessagePayload::read_bytes(&hs(2, &cat(&[&[3, 3], &rnd, &l8(&[]), &[0xc0, 0x2b, 0], &b]))).ok_or("sh")?.payload else { return Err("sh".into()) };
                ck_eq!(c.has_duplicate_extension(), want, "server hello with {k} extensions, {d:?} equal");
                let HandshakePayload::HelloRetryRequest(c) = HandshakeMessagePayload::read_bytes(&hs(2, &cat(&[&[3, 3], &HRR, &l8(&[]), &[0x13, 1, 0], &b]))).ok_or("hrr")?.payload else { return Err("hrr".into()) };
                ck_eq!(c.has_duplicate_extension(), want, "hrr with {k} extensions, {d:?} equal");
                let HandshakePayload::EncryptedExtensions(c) = HandshakeMessagePayload::read_bytes(&hs(8, &b)).ok_or("ee")?.payload else { return Err("ee".into()) };
                ck_eq!(c.has_duplicate_extension(), want, "encrypted extensions with {k}, {d:?} equal");
                let m = hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[1]), &l16(&[]), &l24(&[2]), &b, &l24(&[3]), &l16(&[])]))]));
                let HandshakePayload::CertificateTLS13(c) = HandshakeMessagePayload::read_version(&mut Reader::init(&m), ProtocolVersion::TLSv1_3).ok_or("cert13")?.payload else { return Err("cert".into()) };
                ck_eq!(c.any_entry_has_duplicate_extension(), want, "certificate entry with {k} extensions, {d:?} equal");
                let m = hs(4, &cat(&[&[0; 8], &l8(&[]), &l16(&[1]), &b]));
                let HandshakePayload::NewSessionTicketTLS13(c) = HandshakeMessagePayload::read_version(&mut Reader::init(&m), ProtocolVersion::TLSv1_3).ok_or("nst")?.payload else { return Err("nst".into()) };
                ck_eq!(c.has_duplicate_extension(), want, "ticket with {k} extensions, {d:?} equal");
                let shares: Vec<u8> = t.iter().enumerate().flat_map(|(i, g)| cat(&[&u16b(*g), &l16(&[i as u8])])).collect();
                let HandshakePayload::ClientHello(c) = HandshakeMessagePayload::read_bytes(&hs(1, &cat(&[&[3, 3], &rnd, &l8(&[]), &l16(&[0xc0, 0x2b]), &l8(&[0]), &l16(&ext(51, &l16(&shares)))]))).ok_or("ch")?.payload else { return Err("ch".into()) };
                ck_eq!(c.has_keyshare_extension_with_duplicates(), want, "{k} key shares, {d:?} equal");
            }
            // many entries, one of which repeats a code
            for bad in [None, Some(0), Some(k / 2), Some(k - 1)] {
                let body: Vec<u8> = (0..k).flat_map(|i| cat(&[&l24(&[1]), &l16(&if bad == Some(i) { [ext(0x2001, &[]), ext(0x2001, &[1])].concat() } else { [ext(0x2001, &[]), ext(0x2101, &[])].concat() })])).collect();
                if body.len() > 0xffff {
                    continue;
                }
                let m = hs(11, &cat(&[&l8(&[]), &l24(&body)]));
                let HandshakePayload::CertificateTLS13(c) = HandshakeMessagePayload::read_version(&mut Reader::init(&m), ProtocolVersion::TLSv1_3).ok_or("cert13")?.payload else { return Err("cert".into()) };
                ck_eq!(c.any_entry_has_duplicate_extension(), bad.is_some(), "{k} certificate entries, {bad:?} repeats a code");
                ck!(c.any_entry_has_unknown_extension() && c.any_entry_has_extension(), "unknown extensions of {k} entries");
            }
            // names of pairwise different types, and one repeated
            if k <= 256 {
                let name = |t: u8| ServerName {
                    typ: ServerNameType::from(t),
                    payload: ServerNamePayload::Unknown(tls_core::msgs::base::Payload(vec![t])),
                };
                for d in [None, Some((0, k - 1)), Some((k / 2, k - 1)), Some((0, 1))] {
                    let mut t: Vec<u8> = (0..k).map(|i| (i as u8).wrapping_mul(37)).collect();
                    if let Some((i, j)) = d {
                        if i == j { continue }
                        t[j] = t[i];
                    }
                    let names: ServerNameRequest = t.iter().map(|t| name(*t)).collect();
                    ck_eq!(names.has_duplicate_names_for_type(), d.is_some(), "{k} names, {d:?} of one type");
                }
            }
            h.state(&("crowd", k));
            Ok(())
        });
    });
    // a fixed code against every other code, in every carrier
    let mut a: Vec<u16> = vec![0, 1, 5, 10, 13, 16, 18, 35, 41, 42, 43, 44, 45, 51, 0x7fff, 0x8000, 0xff01, 0xffff, 0xffa5];
    if h.thorough() {
        a.extend((0..16).map(|i| 1u16 << i));
        a.extend((0..256).map(|i| i * 257));
        a.sort();
        a.dedup();
    }
    let jobs: Vec<(u16, u32)> = a.iter().flat_map(|x| (0..16).map(move |k| (*x, k))).collect();
    h.par(&jobs, |&(x, blk)| {
        h.case(|| format!("pair/{x}/{blk}"), || {
            let unk = |t: u16| UnknownExtension { typ: ExtensionType::from(t), payload: tls_core::msgs::base::Payload(vec![]) };
            let rnd = || Random([5; 32]);
            let sid = SessionID::empty;
            for y in blk * 4096..(blk + 1) * 4096 {
                let y = y as u16;
                let z = 0x7777; // stands between the two
                if y == z || x == z {
                    continue;
                }
                let t = [x, z, y];
                let want = x == y;
                let c = ClientHelloPayload { client_version: ProtocolVersion::TLSv1_2, random: rnd(), session_id: sid(), cipher_suites: vec![], compression_methods: vec![], extensions: t.iter().map(|t| ClientExtension::Unknown(unk(*t))).collect() };
                ck_eq!(c.has_duplicate_extension(), want, "client hello {x},{y}");
                let v: Vec<_> = t.iter().map(|t| ServerExtension::Unknown(unk(*t))).collect();
                ck_eq!(v.has_duplicate_extension(), want, "encrypted extensions {x},{y}");
                let c = ServerHelloPayload { legacy_version: ProtocolVersion::TLSv1_2, random: rnd(), session_id: sid(), cipher_suite: CipherSuite::from(1), compression_method: Compression::Null, extensions: v };
                ck_eq!(c.has_duplicate_extension(), want, "server hello {x},{y}");
                let c = HelloRetryRequest { legacy_version: ProtocolVersion::TLSv1_2, session_id: sid(), cipher_suite: CipherSuite::from(1), extensions: t.iter().map(|t| HelloRetryExtension::Unknown(unk(*t))).collect() };
                ck_eq!(c.has_duplicate_extension(), want, "retry request {x},{y}");
                let mut c = CertificateEntry::new(tls_core::key::Certificate(vec![]));
                c.exts = t.iter().map(|t| CertificateExtension::Unknown(unk(*t))).collect();
                ck_eq!(c.has_duplicate_extension(), want, "certificate entry {x},{y}");
                ck_eq!(CertificatePayloadTLS13::new(vec![c]).any_entry_has_duplicate_extension(), want, "certificate {x},{y}");
                let mut c = NewSessionTicketPayloadTLS13::new(1, 2, vec![], vec![]);
                c.exts = t.iter().map(|t| NewSessionTicketExtension::Unknown(unk(*t))).collect();
                ck_eq!(c.has_duplicate_extension(), want, "ticket {x},{y}");
                let ks = t.iter().map(|t| KeyShareEntry::new(NamedGroup::from(*t), &[1])).collect();
                let c = ClientHelloPayload { client_version: ProtocolVersion::TLSv1_2, random: rnd(), session_id: sid(), cipher_suites: vec![], compression_methods: vec![], extensions: vec![ClientExtension::KeyShare(ks)] };
                ck_eq!(c.has_keyshare_extension_with_duplicates(), want, "key shares {x},{y}");
                h.trans(8);
            }
            h.state(&(x, blk));
            Ok(())
        });
    });
    h.case(|| "names/pairs".into(), || {
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                let n = |t: u8| ServerName { typ: ServerNameType::from(t), payload: ServerNamePayload::Unknown(tls_core::msgs::base::Payload(vec![])) };
                let v: ServerNameRequest = vec![n(x), n(y)];
                ck_eq!(v.has_duplicate_names_for_type(), x == y, "names {x},{y}");
                h.trans(1);
            }
        }
        Ok(())
    });
}
const HRR: [u8; 32] = [
    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11,
    0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
];
