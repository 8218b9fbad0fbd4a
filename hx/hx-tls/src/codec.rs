//! T04: wire codec. Oracle: an independent recogniser of the handshake grammar; every
//! accepted input must also re-encode to itself.
use crate::wire::*;
use hx_lib::*;
use rustls_pki_types::DnsName;
use std::collections::HashSet;
use tls_core::msgs::{
    base::{Payload, PayloadU16, PayloadU24, PayloadU8},
    codec::{Codec, Reader},
    enums::*,
    handshake::*,
    message::{Message, MessagePayload, OpaqueMessage, PlainMessage},
};

// ---- reference recogniser -------------------------------------------------
struct C<'a>(&'a [u8]);
type O<T> = Option<T>;
impl<'a> C<'a> {
    fn n(&mut self, k: usize) -> O<&'a [u8]> {
        if self.0.len() < k {
            return None;
        }
        let (a, b) = self.0.split_at(k);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> O<u8> {
        self.n(1).map(|b| b[0])
    }
    fn u16(&mut self) -> O<u16> {
        self.n(2).map(|b| (b[0] as u16) * 256 + b[1] as u16)
    }
    fn v(&mut self, k: usize) -> O<&'a [u8]> {
        let l = self.n(k)?.iter().fold(0usize, |a, b| a * 256 + *b as usize);
        self.n(l)
    }
    fn end(&self) -> O<()> {
        self.0.is_empty().then_some(())
    }
}
fn list(b: &[u8], mut item: impl FnMut(&mut C) -> O<()>) -> O<usize> {
    let mut c = C(b);
    let mut n = 0;
    while !c.0.is_empty() {
        item(&mut c)?;
        n += 1;
    }
    Some(n)
}
fn whole(b: &[u8], f: impl FnOnce(&mut C) -> O<()>) -> O<()> {
    let mut c = C(b);
    f(&mut c)?;
    c.end()
}
fn exts(c: &mut C, one: fn(u16, &[u8]) -> O<()>) -> O<usize> {
    let b = c.v(2)?;
    list(b, |c| {
        let t = c.u16()?;
        let d = c.v(2)?;
        one(t, d)
    })
}
fn u16s(c: &mut C) -> O<()> {
    list(c.v(2)?, |c| c.u16().map(|_| ())).map(|_| ())
}
fn list16(c: &mut C, k: usize) -> O<()> {
    list(c.v(2)?, |c| c.v(k).map(|_| ())).map(|_| ())
}
fn client_ext(t: u16, d: &[u8]) -> O<()> {
    match t {
        11 => whole(d, |c| c.v(1).map(|_| ())),
        10 | 13 => whole(d, u16s),
        0 => whole(d, |c| {
            list(c.v(2)?, |c| match c.u8()? {
                0 => DnsName::try_from(c.v(2)?).ok().map(|_| ()),
                _ => {
                    c.0 = &[];
                    Some(())
                }
            })
            .map(|_| ())
        }),
        16 => whole(d, |c| list16(c, 1)),
        43 => whole(d, |c| list(c.v(1)?, |c| c.u16().map(|_| ())).map(|_| ())),
        51 => whole(d, |c| list(c.v(2)?, |c| { c.u16()?; c.v(2).map(|_| ()) }).map(|_| ())),
        45 => whole(d, |c| c.v(1).map(|_| ())),
        41 => whole(d, |c| {
            list(c.v(2)?, |c| { c.v(2)?; c.n(4).map(|_| ()) })?;
            list16(c, 1)
        }),
        44 => whole(d, |c| c.v(2).map(|_| ())),
        5 => {
            let mut c = C(d);
            match c.u8()? {
                1 => {
                    list16(&mut c, 2)?;
                    c.v(2)?;
                    c.end()
                }
                _ => Some(()),
            }
        }
        // session ticket, EMS, SCT, early data, transport params, unknown: opaque
        _ => Some(()),
    }
}
fn server_ext(t: u16, d: &[u8]) -> O<()> {
    match t {
        11 => whole(d, |c| c.v(1).map(|_| ())),
        0 | 35 | 5 | 23 | 42 => whole(d, |_| Some(())),
        0xff01 => whole(d, |c| c.v(1).map(|_| ())),
        16 => whole(d, |c| list16(c, 1)),
        51 => whole(d, |c| { c.u16()?; c.v(2).map(|_| ()) }),
        41 | 43 => whole(d, |c| c.u16().map(|_| ())),
        18 => whole(d, |c| list16(c, 2)),
        _ => Some(()),
    }
}
fn hrr_ext(t: u16, d: &[u8]) -> O<()> {
    match t {
        51 | 43 => whole(d, |c| c.u16().map(|_| ())),
        44 => whole(d, |c| c.v(2).map(|_| ())),
        _ => Some(()),
    }
}
fn cert_status(c: &mut C) -> O<()> {
    (c.u8()? == 1).then_some(())?;
    c.v(3).map(|_| ())
}
fn cert_ext(t: u16, d: &[u8]) -> O<()> {
    match t {
        5 => whole(d, cert_status),
        18 => whole(d, |c| list16(c, 2)),
        _ => Some(()),
    }
}
fn certreq_ext(t: u16, d: &[u8]) -> O<()> {
    match t {
        13 => whole(d, |c| {
            let b = c.v(2)?;
            list(b, |c| c.u16().map(|_| ())).filter(|n| *n > 0).map(|_| ())
        }),
        47 => whole(d, |c| list16(c, 2)),
        _ => Some(()),
    }
}
fn nst_ext(t: u16, d: &[u8]) -> O<()> {
    match t {
        42 => whole(d, |c| c.n(4).map(|_| ())),
        _ => Some(()),
    }
}
const HRR: [u8; 32] = [
    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11,
    0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
];
fn sid(c: &mut C) -> O<()> {
    (c.v(1)?.len() <= 32).then_some(())
}
/// Is `b` exactly one well-formed handshake message of protocol version `v13`?
pub fn ref_hs(b: &[u8], v13: bool) -> O<()> {
    let mut c = C(b);
    let t = c.u8()?;
    let d = c.v(3)?;
    c.end()?;
    match t {
        1 => whole(d, |c| {
            c.u16()?;
            c.n(32)?;
            sid(c)?;
            u16s(c)?;
            c.v(1)?;
            (exts(c, client_ext)? > 0).then_some(())
        }),
        2 => whole(d, |c| {
            c.u16()?;
            let r = c.n(32)?;
            sid(c)?;
            c.u16()?;
            let comp = c.u8()?;
            if r == HRR {
                (comp == 0).then_some(())?;
                exts(c, hrr_ext)?;
            } else {
                exts(c, server_ext)?;
            }
            Some(())
        }),
        11 if v13 => whole(d, |c| {
            c.v(1)?;
            let l = c.v(3)?;
            (l.len() <= 0x10000).then_some(())?;
            list(l, |c| { c.v(3)?; exts(c, cert_ext).map(|_| ()) }).map(|_| ())
        }),
        11 => whole(d, |c| {
            let l = c.v(3)?;
            (l.len() <= 0x10000).then_some(())?;
            list(l, |c| c.v(3).map(|_| ())).map(|_| ())
        }),
        14 | 5 => whole(d, |_| Some(())),
        13 if v13 => whole(d, |c| { c.v(1)?; exts(c, certreq_ext).map(|_| ()) }),
        13 => whole(d, |c| {
            c.v(1)?;
            let s = c.v(2)?;
            list(s, |c| c.u16().map(|_| ())).filter(|n| *n > 0)?;
            list16(c, 2)
        }),
        15 => whole(d, |c| { c.u16()?; c.v(2).map(|_| ()) }),
        4 if v13 => whole(d, |c| { c.n(8)?; c.v(1)?; c.v(2)?; exts(c, nst_ext).map(|_| ()) }),
        4 => whole(d, |c| { c.n(4)?; c.v(2).map(|_| ()) }),
        8 => whole(d, |c| exts(c, server_ext).map(|_| ())),
        24 => whole(d, |c| c.u8().map(|_| ())),
        22 => whole(d, cert_status),
        254 | 6 => None,
        _ => Some(()),
    }
}

// ---- seeds ----------------------------------------------------------------
fn ext(t: u16, d: &[u8]) -> Vec<u8> {
    cat(&[&u16b(t), &l16(d)])
}
fn exts_b(e: &[Vec<u8>]) -> Vec<u8> {
    l16(&e.concat())
}
fn client_exts() -> Vec<Vec<u8>> {
    vec![
        ext(11, &l8(&[0])),
        ext(10, &l16(&[0, 23, 0, 29])),
        ext(13, &l16(&[4, 3, 8, 4])),
        ext(0, &l16(&cat(&[&[0], &l16(b"a.co")]))),
        ext(0, &l16(&cat(&[&[1], &[9, 9]]))),
        ext(35, &[]),
        ext(35, &[1, 2]),
        ext(16, &l16(&cat(&[&l8(b"h2"), &l8(b"x")]))),
        ext(43, &l8(&[3, 4, 3, 3])),
        ext(51, &l16(&cat(&[&[0, 29], &l16(&[7, 8])]))),
        ext(45, &l8(&[1, 0])),
        ext(44, &l16(&[5])),
        ext(23, &[]),
        ext(23, &[1]),
        ext(5, &cat(&[&[1], &l16(&l16(&[6])), &l16(&[])])),
        ext(5, &[2, 7]),
        ext(18, &[]),
        ext(18, &[0]),
        ext(57, &[4]),
        ext(0xffa5, &[4]),
        ext(42, &[]),
        ext(0x1234, &[1, 2, 3]),
        ext(41, &cat(&[&l16(&cat(&[&l16(&[1]), &[0, 0, 0, 9]])), &l16(&l8(&[3, 3]))])),
    ]
}
fn server_exts() -> Vec<Vec<u8>> {
    vec![
        ext(11, &l8(&[0])),
        ext(0, &[]),
        ext(35, &[]),
        ext(5, &[]),
        ext(0xff01, &l8(&[])),
        ext(16, &l16(&l8(b"h2"))),
        ext(51, &cat(&[&[0, 23], &l16(&[4])])),
        ext(41, &[0, 1]),
        ext(23, &[]),
        ext(18, &l16(&l16(&[9, 9]))),
        ext(43, &[3, 4]),
        ext(57, &[1]),
        ext(0xffa5, &[1, 2]),
        ext(42, &[]),
        ext(0xabcd, &[0]),
    ]
}
/// (name, v13, bytes): one well-formed message each.
pub fn seeds(h: &Hx) -> Vec<(String, bool, Vec<u8>)> {
    let mut o: Vec<(String, bool, Vec<u8>)> = vec![];
    let mut add = |n: String, v13: bool, t: u8, b: Vec<u8>| o.push((n, v13, hs(t, &b)));
    let rnd: Vec<u8> = (0..32).collect();
    let ce = client_exts();
    let se = server_exts();
    let ch = |sid: usize, suites: &[u8], comp: &[u8], e: &[Vec<u8>]| {
        cat(&[&[3, 3], &rnd, &l8(&vec![7; sid]), &l16(suites), &l8(comp), &exts_b(e)])
    };
    for (i, e) in ce.iter().enumerate() {
        add(format!("ch/{i}"), false, 1, ch(i % 33, &[0xc0, 0x2f], &[0], std::slice::from_ref(e)));
        for (j, f) in ce.iter().enumerate() {
            {
                add(format!("ch/{i}+{j}"), false, 1, ch(0, &[0xc0, 0x2b, 0, 0xff], &[0, 1], &[e.clone(), f.clone()]));
            }
        }
    }
    for s in [0, 1, 31, 32] {
        add(format!("ch/sid{s}"), false, 1, ch(s, &[], &[], &ce[..1]));
    }
    add("ch/all".into(), false, 1, ch(32, &[0xc0, 0x2b], &[0], &ce));
    let sh = |r: &[u8], sid: usize, comp: u8, e: &[Vec<u8>]| cat(&[&[3, 3], r, &l8(&vec![9; sid]), &[0xc0, 0x2f, comp], &exts_b(e)]);
    add("sh/none".into(), false, 2, sh(&rnd, 32, 0, &[]));
    add("sh/comp".into(), false, 2, sh(&rnd, 0, 1, &[]));
    for (i, e) in se.iter().enumerate() {
        add(format!("sh/{i}"), false, 2, sh(&rnd, i % 33, 0, std::slice::from_ref(e)));
        add(format!("ee/{i}"), true, 8, exts_b(std::slice::from_ref(e)));
        for (j, f) in se.iter().enumerate() {
            {
                add(format!("sh/{i}+{j}"), false, 2, sh(&rnd, 0, 0, &[e.clone(), f.clone()]));
            }
        }
    }
    for (i, e) in [ext(51, &[0, 23]), ext(44, &l16(&[1, 2])), ext(43, &[3, 4]), ext(99, &[1])].iter().enumerate() {
        add(format!("hrr/{i}"), false, 2, sh(&HRR, i, 0, &[e.clone(), e.clone()]));
    }
    for n in 0..4usize {
        let certs: Vec<u8> = (0..n).flat_map(|i| l24(&vec![i as u8; i * 3])).collect();
        add(format!("cert/{n}"), false, 11, l24(&certs));
        let c13: Vec<u8> = (0..n)
            .flat_map(|i| cat(&[&l24(&vec![i as u8; i + 1]), &exts_b(&match i { 0 => vec![], 1 => vec![ext(5, &cat(&[&[1], &l24(&[8, 8])]))], _ => vec![ext(18, &l16(&l16(&[1]))), ext(77, &[2])] })]))
            .collect();
        add(format!("cert13/{n}"), true, 11, cat(&[&l8(&vec![3; n]), &l24(&c13)]));
    }
    for d in [0usize, 1, 2, 40] {
        add(format!("opaque-fin/{d}"), false, 20, vec![d as u8; d]);
        add(format!("opaque-cke/{d}"), false, 16, vec![d as u8; d]);
        add(format!("opaque-ske/{d}"), false, 12, vec![d as u8; d]);
        add(format!("opaque-unk/{d}"), false, 77, vec![d as u8; d]);
        add(format!("hr/{d}"), false, 0, vec![0; d]);
        add(format!("status/{d}"), false, 22, cat(&[&[1], &l24(&vec![5; d])]));
        add(format!("cv/{d}"), false, 15, cat(&[&[4, 3], &l16(&vec![5; d])]));
        add(format!("nst/{d}"), false, 4, cat(&[&[0, 0, 1, 2], &l16(&vec![5; d])]));
        add(format!("nst13/{d}"), true, 4, cat(&[&[0, 0, 1, 2, 3, 4, 5, 6], &l8(&vec![1; d]), &l16(&vec![5; d]), &exts_b(&[ext(42, &[0, 0, 1, 0]), ext(9, &vec![1; d])])]));
    }
    add("shd".into(), false, 14, vec![]);
    add("eoed".into(), true, 5, vec![]);
    for k in 0..3u8 {
        add(format!("ku/{k}"), true, 24, vec![k]);
    }
    for n in 1..3usize {
        add(format!("cr/{n}"), false, 13, cat(&[&l8(&vec![64; n - 1]), &l16(&[4, 3, 8, 4][..2 * n]), &l16(&(1..n).flat_map(|i| l16(&vec![1; i])).collect::<Vec<_>>())]));
        add(format!("cr13/{n}"), true, 13, cat(&[&l8(&vec![1; n]), &exts_b(&[ext(13, &l16(&[4, 3, 8, 4][..2 * n])), ext(47, &l16(&l16(&[2]))), ext(50, &[0])])]));
    }
    o
}

fn check_bytes(h: &Hx, b: &[u8], v13: bool) -> R {
    check_version(h, b, if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 })
}
/// Only TLS 1.3 has grammars of its own.
fn check_version(h: &Hx, b: &[u8], ver: ProtocolVersion) -> R {
    let v13 = ver.get_u16() == 0x0304;
    let want = ref_hs(b, v13).is_some();
    let pm = PlainMessage { typ: ContentType::Handshake, version: ver, payload: Payload(b.to_vec()) };
    let got = Message::try_from(pm);
    h.trans(1);
    ck_eq!(got.is_ok(), want, "acceptance of {}", hex(b));
    if let Ok(m) = got {
        ck!(m.version == ver, "version");
        ck!(matches!(m.payload, MessagePayload::Handshake(_)), "not a handshake");
        let back = PlainMessage::from(m);
        ck!(back.typ == ContentType::Handshake, "type");
        ck_eq!(hex(&back.payload.0), hex(b), "re-encoding");
    } else {
        ck!(matches!(got, Err(tls_core::Error::CorruptMessagePayload(ContentType::Handshake))), "error kind {got:?}");
    }
    Ok(())
}
fn relen(b: &mut [u8]) {
    let n = b.len() - 4;
    b[1] = (n >> 16) as u8;
    b[2] = (n >> 8) as u8;
    b[3] = n as u8;
}

pub fn t04(h: &Hx) {
    let s = seeds(h);
    h.note("bounds", format!("{} seed messages; every truncation, insertion point, deletion and single-byte substitution ({} values); pairs of length-byte edits", s.len(), h.tier(12, 255)));
    h.par(&s, |(name, v13, b)| {
        let v13 = *v13;
        h.case(|| format!("seed/{name}"), || {
            ck!(ref_hs(b, v13).is_some(), "harness: seed not well-formed");
            h.state(b);
            check_bytes(h, b, v13)?;
            check_bytes(h, b, !v13)?;
            for v in [0u16, 0x0200, 0x0300, 0x0301, 0x0302, 0x0305, 0x03ff, 0x7f1c, 0xfefd, 0xfeff, 0xffff] {
                check_version(h, b, ProtocolVersion::from(v))?;
            }
            Ok(())
        });
        for n in 0..b.len() {
            h.case(|| format!("trunc/{name}/{n}"), || {
                h.state(&b[..n]);
                check_bytes(h, &b[..n], v13)?;
                if n >= 4 {
                    let mut t = b[..n].to_vec();
                    relen(&mut t);
                    check_bytes(h, &t, v13)?;
                }
                Ok(())
            });
        }
        for n in 4..=b.len() {
            h.case(|| format!("ins/{name}/{n}"), || {
                for x in [0u8, 1, 0xff] {
                    let mut t = b.clone();
                    t.insert(n, x);
                    h.state(&t);
                    check_bytes(h, &t, v13)?; // outer length now too short: trailing byte
                    relen(&mut t);
                    check_bytes(h, &t, v13)?;
                }
                if n < b.len() {
                    let mut t = b.clone();
                    t.remove(n);
                    relen(&mut t);
                    check_bytes(h, &t, v13)?;
                }
                Ok(())
            });
        }
        for i in 0..b.len() {
            h.case(|| format!("sub/{name}/{i}"), || {
                let vals: HashSet<u8> = if h.thorough() {
                    (0..=255).collect()
                } else {
                    [0, 1, 2, 3, 5, 0x7f, 0x80, 0xff, b[i] ^ 1, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80].into()
                };
                for x in vals {
                    let mut t = b.clone();
                    t[i] = x;
                    h.state(&t);
                    check_bytes(h, &t, v13)?;
                }
                Ok(())
            });
            // two length-like bytes at once
            if b.len() <= h.tier(80, 300) {
                h.case(|| format!("sub2/{name}/{i}"), || {
                    for j in i + 1..b.len() {
                        for (x, y) in [(1i16, 1i16), (1, -1), (-1, 1), (-1, -1)] {
                            let mut t = b.clone();
                            t[i] = (t[i] as i16 + x) as u8;
                            t[j] = (t[j] as i16 + y) as u8;
                            check_bytes(h, &t, v13)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    resized_extensions(h);
    long_lists(h);
    small_messages(h);
    fields(h);
    integers(h);
    certs_limit(h);
    key_exchange(h);
    ext_codes(h);
    big_certs(h);
}

/// Every extension code with a few bodies, in every message that carries extensions.
fn ext_codes(h: &Hx) {
    let bodies: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1, 0], vec![0, 0], vec![0, 2, 3, 4], vec![1, 0, 0, 0, 0]];
    h.note("extension codes", format!("all 65536 codes x {} bodies x 8 messages", bodies.len()));
    let hi: Vec<u8> = (0..=255).collect();
    h.par(&hi, |&a| {
        h.case(|| format!("extcode/{a}"), || {
            for lo in 0..=255u8 {
                let t = u16::from_be_bytes([a, lo]);
                for d in &bodies {
                    let e = exts_b(&[ext(t, d)]);
                    let rnd: Vec<u8> = (0..32).collect();
                    let sh = |r: &[u8]| hs(2, &cat(&[&[3, 3], r, &[0], &[0xc0, 0x2f, 0], &e]));
                    check_bytes(h, &hs(1, &cat(&[&[3, 3], &rnd, &[0], &l16(&[0xc0, 0x2f]), &l8(&[0]), &e])), false)?;
                    check_bytes(h, &sh(&rnd), false)?;
                    check_bytes(h, &sh(&HRR), true)?;
                    check_bytes(h, &hs(8, &e), true)?;
                    check_bytes(h, &hs(13, &cat(&[&l8(&[1]), &e])), true)?;
                    check_bytes(h, &hs(4, &cat(&[&[0, 0, 9, 9, 1, 2, 3, 4], &l8(&[1]), &l16(&[2]), &e])), true)?;
                    check_bytes(h, &hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[5]), &e]))])), true)?;
                    check_bytes(h, &hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[5]), &e, &l24(&[6]), &[0, 0]]))])), true)?;
                }
                h.state(&("extcode", t));
            }
            Ok(())
        });
    });
}

/// A certificate alone, of any length its 24-bit prefix can say.
fn big_certs(h: &Hx) {
    use tls_core::key::Certificate;
    for n in (0..=h.tier(300usize, 3000)).chain([0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0x7fffff, 0x800000, 0xfffffe, 0xffffff]) {
        h.case(|| format!("cert/{n}"), || {
            let b: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect();
            let w = cat(&[&l24(&b), &[0x55]]);
            let mut o = vec![];
            Certificate(b.clone()).encode(&mut o);
            ck!(o == w[..w.len() - 1], "certificate of {n} bytes encodes as {} bytes, {:?}...", o.len(), &o[..3.min(o.len())]);
            let mut r = Reader::init(&w);
            ck!(Certificate::read(&mut r).is_some_and(|c| c.0 == b) && r.left() == 1, "certificate of {n} bytes not read back");
            ck!(Certificate::read(&mut Reader::init(&w[..w.len() - 2])).is_none() || n == 0, "cut certificate of {n} bytes read");
            h.state(&("cert", n));
            h.trans(3);
            Ok(())
        });
    }
}

/// Extensions whose bodies are a little longer or shorter than their grammar, with every
/// enclosing length right.
fn resized_extensions(h: &Hx) {
    let rnd: Vec<u8> = (0..32).collect();
    let hello = |r: &[u8], e: &[u8]| hs(2, &cat(&[&[3, 3], r, &[0], &[0xc0, 0x2f, 0], e]));
    type Wrap<'a> = Box<dyn Fn(&[u8]) -> Vec<u8> + Sync + 'a>;
    let carriers: Vec<(&str, bool, Vec<Vec<u8>>, Wrap)> = vec![
        ("client hello", false, client_exts(), Box::new(|e| hs(1, &cat(&[&[3, 3], &rnd, &[0], &l16(&[0xc0, 0x2f]), &l8(&[0]), e])))),
        ("server hello", false, server_exts(), Box::new(|e| hello(&rnd, e))),
        ("encrypted extensions", true, server_exts(), Box::new(|e| hs(8, e))),
        ("retry", false, vec![ext(51, &[0, 23]), ext(44, &l16(&[1, 2])), ext(43, &[3, 4]), ext(99, &[1])], Box::new(|e| hello(&HRR, e))),
        ("certificate", true, vec![ext(5, &cat(&[&[1], &l24(&[8, 8])])), ext(18, &l16(&l16(&[1]))), ext(77, &[2])], Box::new(|e| hs(11, &cat(&[&l8(&[3]), &l24(&cat(&[&l24(&[1, 2]), e]))])))),
        ("certificate request", true, vec![ext(13, &l16(&[4, 3])), ext(47, &l16(&l16(&[2]))), ext(50, &[0])], Box::new(|e| hs(13, &cat(&[&l8(&[1]), e])))),
        ("ticket", true, vec![ext(42, &[0, 0, 1, 0]), ext(9, &[1])], Box::new(|e| hs(4, &cat(&[&[0; 8], &l8(&[1]), &l16(&[2]), e])))),
    ];
    h.par(&carriers, |(name, v13, list, wrap)| {
        for (i, e) in list.iter().enumerate() {
            h.case(|| format!("resize/{name}/{i}"), || {
                let (t, d) = (&e[..2], &e[4..]);
                let mut bodies: Vec<Vec<u8>> = (0..d.len()).map(|n| d[..n].to_vec()).collect();
                for x in [0u8, 1, 2, 3, 0xff] {
                    for n in 1..=4 {
                        bodies.push([d, &vec![x; n]].concat());
                    }
                    for at in 0..d.len() {
                        bodies.push([&d[..at], &[x], &d[at..]].concat());
                    }
                }
                for b in bodies {
                    let m = cat(&[t, &l16(&b)]);
                    for all in [m.clone(), [list[(i + 1) % list.len()].clone(), m.clone()].concat(), [m, list[(i + 1) % list.len()].clone()].concat()] {
                        let w = wrap(&l16(&all));
                        h.state(&w);
                        check_bytes(h, &w, *v13)?;
                    }
                }
                Ok(())
            });
        }
    });
}

/// Every list of the grammar with many entries, and every opaque body with many bytes.
fn long_lists(h: &Hx) {
    let rnd: Vec<u8> = (0..32).collect();
    let n16 = |n: usize| (0..n).flat_map(|i| u16b(0x0100 + i as u16)).collect::<Vec<u8>>();
    let by = |n: usize| (0..n).map(|i| (i % 253) as u8).collect::<Vec<u8>>();
    let some = |n: usize, k: usize| -> Vec<Vec<u8>> { (0..n).map(|i| vec![i as u8; 1 + i % k]).collect() };
    let v16 = |n: usize| some(n, 5).iter().flat_map(|b| l16(b)).collect::<Vec<u8>>();
    let v8 = |n: usize| some(n, 5).iter().flat_map(|b| l8(b)).collect::<Vec<u8>>();
    let v24 = |n: usize| some(n, 9).iter().flat_map(|b| l24(b)).collect::<Vec<u8>>();
    let ch = |suites: &[u8], comp: &[u8], e: &[u8]| hs(1, &cat(&[&[3, 3], &rnd, &l8(&[7; 32]), &l16(suites), &l8(comp), &l16(e)]));
    let che = |e: Vec<u8>| ch(&[0xc0, 0x2f], &[0], &e);
    let sh = |r: &[u8], e: Vec<u8>| hs(2, &cat(&[&[3, 3], r, &[0], &[0xc0, 0x2f, 0], &l16(&e)]));
    type F<'a> = Box<dyn Fn(usize) -> Vec<u8> + Sync + 'a>;
    // (name, 1.3, maximum, message with n entries or n bytes)
    let slots: Vec<(&str, bool, usize, F)> = vec![
        ("ch suites", false, 32767, Box::new(|n| ch(&n16(n), &[0], &ext(23, &[])))),
        ("ch compressions", false, 255, Box::new(|n| ch(&[0xc0, 0x2f], &by(n), &ext(23, &[])))),
        ("ch extensions", false, 10000, Box::new(|n| che((0..n).flat_map(|i| ext(0x4000 + i as u16, &vec![3; i % 3])).collect()))),
        ("ch point formats", false, 255, Box::new(|n| che(ext(11, &l8(&by(n)))))),
        ("ch groups", false, 32764, Box::new(|n| che(ext(10, &l16(&n16(n)))))),
        ("ch schemes", false, 32764, Box::new(|n| che(ext(13, &l16(&n16(n)))))),
        ("ch names", false, 5000, Box::new(|n| che(ext(0, &l16(&(0..n).flat_map(|i| cat(&[&[0], &l16(format!("h{i}.example").as_bytes())])).collect::<Vec<_>>()))))),
        ("ch name length", false, 254, Box::new(|n| che(ext(0, &l16(&cat(&[&[0], &l16(&(0..n).map(|i| if i % 60 == 59 && i + 1 < n { b'.' } else { b'a' }).collect::<Vec<_>>())])))))),
        ("ch ticket", false, 65531, Box::new(|n| che(ext(35, &by(n))))),
        ("ch protocols", false, 10000, Box::new(|n| che(ext(16, &l16(&v8(n)))))),
        ("ch protocol", false, 255, Box::new(|n| che(ext(16, &l16(&l8(&by(n))))))),
        ("ch versions", false, 127, Box::new(|n| che(ext(43, &l8(&n16(n)))))),
        ("ch shares", false, 6000, Box::new(|n| che(ext(51, &l16(&(0..n).flat_map(|i| cat(&[&u16b(i as u16), &l16(&vec![i as u8; i % 7])])).collect::<Vec<_>>()))))),
        ("ch share", false, 65525, Box::new(|n| che(ext(51, &l16(&cat(&[&[0, 29], &l16(&by(n))])))))),
        ("ch psk modes", false, 255, Box::new(|n| che(ext(45, &l8(&by(n)))))),
        ("ch cookie", false, 65529, Box::new(|n| che(ext(44, &l16(&by(n)))))),
        ("ch responders", false, 9000, Box::new(|n| che(ext(5, &cat(&[&[1], &l16(&v16(n)), &l16(&[])]))))),
        ("ch status extensions", false, 65526, Box::new(|n| che(ext(5, &cat(&[&[1], &l16(&[]), &l16(&by(n))]))))),
        ("ch unknown", false, 65531, Box::new(|n| che(ext(0x1234, &by(n))))),
        ("ch identities", false, 4000, Box::new(|n| che(ext(41, &cat(&[&l16(&some(n, 5).iter().flat_map(|b| cat(&[&l16(b), &[0, 0, 1, 2]])).collect::<Vec<_>>()), &l16(&l8(&[3, 3]))]))))),
        ("ch identity", false, 65000, Box::new(|n| che(ext(41, &cat(&[&l16(&cat(&[&l16(&by(n)), &[0, 0, 1, 2]])), &l16(&l8(&[3, 3]))]))))),
        ("ch binders", false, 10000, Box::new(|n| che(ext(41, &cat(&[&l16(&cat(&[&l16(&[1]), &[0, 0, 0, 9]])), &l16(&v8(n))]))))),
        ("sh extensions", false, 10000, Box::new(|n| sh(&rnd, (0..n).flat_map(|i| ext(0x4000 + i as u16, &vec![3; i % 3])).collect()))),
        ("sh protocols", false, 10000, Box::new(|n| sh(&rnd, ext(16, &l16(&v8(n)))))),
        ("sh scts", false, 10000, Box::new(|n| sh(&rnd, ext(18, &l16(&v16(n)))))),
        ("sh sct", false, 65527, Box::new(|n| sh(&rnd, ext(18, &l16(&l16(&by(n))))))),
        ("sh share", false, 65527, Box::new(|n| sh(&rnd, ext(51, &cat(&[&[0, 23], &l16(&by(n))]))))),
        ("sh renegotiation", false, 255, Box::new(|n| sh(&rnd, ext(0xff01, &l8(&by(n)))))),
        ("sh point formats", false, 255, Box::new(|n| sh(&rnd, ext(11, &l8(&by(n)))))),
        ("sh unknown", false, 65531, Box::new(|n| sh(&rnd, ext(0x1234, &by(n))))),
        ("retry cookie", false, 65529, Box::new(|n| sh(&HRR, ext(44, &l16(&by(n)))))),
        ("retry extensions", false, 10000, Box::new(|n| sh(&HRR, (0..n).flat_map(|i| ext(0x4000 + i as u16, &vec![3; i % 3])).collect()))),
        ("ee extensions", true, 10000, Box::new(|n| hs(8, &l16(&(0..n).flat_map(|i| ext(0x4000 + i as u16, &vec![3; i % 3])).collect::<Vec<_>>())))),
        ("certificates", false, 7000, Box::new(|n| hs(11, &l24(&v24(n))))),
        ("certificates13", true, 6000, Box::new(|n| hs(11, &cat(&[&l8(&[]), &l24(&some(n, 5).iter().flat_map(|b| cat(&[&l24(b), &[0, 0]])).collect::<Vec<_>>())])))),
        ("certificate context", true, 255, Box::new(|n| hs(11, &cat(&[&l8(&by(n)), &l24(&cat(&[&l24(&[1]), &[0, 0]]))])))),
        ("certificate extensions", true, 8000, Box::new(|n| hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[1]), &l16(&(0..n).flat_map(|i| ext(0x4000 + i as u16, &vec![3; i % 3])).collect::<Vec<_>>())]))])))),
        ("certificate scts", true, 9000, Box::new(|n| hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[1]), &l16(&ext(18, &l16(&v16(n))))]))])))),
        ("certificate ocsp", true, 65500, Box::new(|n| hs(11, &cat(&[&l8(&[]), &l24(&cat(&[&l24(&[1]), &l16(&ext(5, &cat(&[&[1], &l24(&by(n))])))]))])))),
        ("request types", false, 255, Box::new(|n| hs(13, &cat(&[&l8(&by(n)), &l16(&[4, 3]), &l16(&[])])))),
        ("request schemes", false, 32767, Box::new(|n| hs(13, &cat(&[&l8(&[64]), &l16(&n16(n.max(1))), &l16(&[])])))),
        ("request names", false, 10000, Box::new(|n| hs(13, &cat(&[&l8(&[64]), &l16(&[4, 3]), &l16(&v16(n))])))),
        ("request name", false, 65533, Box::new(|n| hs(13, &cat(&[&l8(&[64]), &l16(&[4, 3]), &l16(&l16(&by(n)))])))),
        ("request13 schemes", true, 32700, Box::new(|n| hs(13, &cat(&[&l8(&[1]), &l16(&ext(13, &l16(&n16(n.max(1)))))])))),
        ("request13 names", true, 9000, Box::new(|n| hs(13, &cat(&[&l8(&[1]), &l16(&ext(47, &l16(&v16(n))))])))),
        ("request13 context", true, 255, Box::new(|n| hs(13, &cat(&[&l8(&by(n)), &l16(&ext(50, &[0]))])))),
        ("request13 extensions", true, 10000, Box::new(|n| hs(13, &cat(&[&l8(&[1]), &l16(&(0..n).flat_map(|i| ext(0x4000 + i as u16, &vec![3; i % 3])).collect::<Vec<_>>())])))),
        ("ticket extensions", true, 10000, Box::new(|n| hs(4, &cat(&[&[0; 8], &l8(&[1]), &l16(&[2]), &l16(&(0..n).flat_map(|i| ext(0x4000 + i as u16, &vec![3; i % 3])).collect::<Vec<_>>())])))),
        ("ticket nonce", true, 255, Box::new(|n| hs(4, &cat(&[&[0; 8], &l8(&by(n)), &l16(&[2]), &l16(&[])])))),
        ("ticket13", true, 65535, Box::new(|n| hs(4, &cat(&[&[0; 8], &l8(&[]), &l16(&by(n)), &l16(&[])])))),
        ("ticket", false, 65535, Box::new(|n| hs(4, &cat(&[&[0; 4], &l16(&by(n))])))),
        ("signature", false, 65535, Box::new(|n| hs(15, &cat(&[&[4, 3], &l16(&by(n))])))),
        ("ocsp", false, 200000, Box::new(|n| hs(22, &cat(&[&[1], &l24(&by(n))])))),
        ("key exchange", false, 200000, Box::new(|n| hs(12, &by(n)))),
        ("client key exchange", false, 200000, Box::new(|n| hs(16, &by(n)))),
        ("finished", false, 200000, Box::new(|n| hs(20, &by(n)))),
        ("unknown", false, 200000, Box::new(|n| hs(77, &by(n)))),
    ];
    h.note("long lists", format!("{} lists and bodies of the grammar, 0 to as many entries as fit", slots.len()));
    h.par(&slots, |(name, v13, max, f)| {
        let mut sizes: Vec<usize> = (0..=h.tier(300, 1200)).collect();
        for p in 5..18 {
            for d in [-2i64, -1, 0, 1, 2] {
                sizes.push(((1i64 << p) + d) as usize);
            }
        }
        sizes.extend([10, 100, 1000, 10000, *max, max - 1, max / 2, max / 3]);
        sizes.retain(|n| n <= max);
        sizes.sort();
        sizes.dedup();
        for n in sizes {
            h.case(|| format!("long/{name}/{n}"), || {
                let b = f(n);
                h.state(&(name, n));
                check_bytes(h, &b, *v13)?;
                if (5..70_000).contains(&b.len()) {
                    let mut t = b.clone();
                    t.pop();
                    relen(&mut t);
                    check_bytes(h, &t, *v13)?;
                    t.extend([0, 0]);
                    relen(&mut t);
                    check_bytes(h, &t, *v13)?;
                }
                Ok(())
            });
        }
    });
}

fn small_messages(h: &Hx) {
    // every payload of length <= 2 for every content type
    let types: Vec<u8> = (0..=255).collect();
    h.par(&types, |&t| {
        for len in 0..=3usize {
            h.case(|| format!("small/{t}/{len}"), || {
                let n = if len == 0 { 1 } else { 65536usize };
                for x in 0..n {
                    if t != 20 && t != 21 && t != 22 && x % 257 != 0 {
                        continue;
                    }
                    let p: Vec<u8> = [(x >> 8) as u8, x as u8, 0][..len].to_vec();
                    let want = match t {
                        20 => p == [1],
                        21 => len == 2,
                        22 => false,
                        23 => true,
                        _ => false,
                    };
                    let ct = ContentType::from(t);
                    let m = Message::try_from(PlainMessage { typ: ct, version: ProtocolVersion::TLSv1_2, payload: Payload(p.clone()) });
                    h.trans(1);
                    ck_eq!(m.is_ok(), want, "type {t} payload {p:?}");
                    match m {
                        Ok(m) => {
                            let b = PlainMessage::from(m);
                            ck!(b.typ == ct && b.payload.0 == p, "round trip of {p:?}");
                            let w = b.into_unencrypted_opaque().encode();
                            ck_eq!(w, rec(t, 0x0303, &p), "record encoding");
                            let o = OpaqueMessage::read(&mut Reader::init(&w)).ok();
                            ck_eq!(o.is_some(), !(p.is_empty() && t != 23), "record decode");
                        }
                        Err(e) => ck!(e == tls_core::Error::CorruptMessagePayload(ct), "error {e:?}"),
                    }
                }
                h.state(&(t, len));
                Ok(())
            });
        }
    });
}

/// Decoded field values, not just acceptance.
fn fields(h: &Hx) {
    fn parse(b: &[u8]) -> Result<HandshakePayload, String> {
        HandshakeMessagePayload::read_bytes(b).map(|m| m.payload).ok_or("refused".into())
    }
    for sidlen in 0..=32usize {
        for nsuites in 0..4usize {
            h.case(|| format!("field/ch/{sidlen}/{nsuites}"), || {
                let rnd: Vec<u8> = (100..132).collect();
                let suites: Vec<u8> = (0..nsuites).flat_map(|i| [0xc0, 0x2b + i as u8]).collect();
                let e = [
                    ext(0, &l16(&cat(&[&[0], &l16(b"host.example")]))),
                    ext(13, &l16(&[4, 3, 5, 3])),
                    ext(10, &l16(&[0, 23])),
                    ext(11, &l8(&[0])),
                    ext(16, &l16(&l8(b"http/1.1"))),
                    ext(43, &l8(&[3, 3])),
                    ext(23, &[]),
                ];
                let b = hs(1, &cat(&[&[3, 1], &rnd, &l8(&vec![0xaa; sidlen]), &l16(&suites), &l8(&[0]), &exts_b(&e)]));
                let HandshakePayload::ClientHello(c) = parse(&b)? else { return Err("not a client hello".into()) };
                h.trans(1);
                h.state(&b);
                ck_eq!(c.client_version.get_u16(), 0x0301, "version");
                ck_eq!(c.random.0.to_vec(), rnd, "random");
                ck_eq!(c.session_id.len(), sidlen, "session id length");
                ck_eq!(c.session_id.get_encoding(), l8(&vec![0xaa; sidlen]), "session id");
                ck_eq!(c.cipher_suites.iter().map(|s| s.get_u16()).collect::<Vec<_>>(), (0..nsuites).map(|i| 0xc02b + i as u16).collect::<Vec<_>>(), "suites");
                ck_eq!(c.compression_methods.len(), 1, "compression");
                let sni = c.get_sni_extension().ok_or("sni")?.get_single_hostname().ok_or("hostname")?;
                ck_eq!(sni.as_ref(), "host.example", "sni");
                ck_eq!(c.get_sigalgs_extension().ok_or("sigalgs")?.iter().map(|s| s.get_u16()).collect::<Vec<_>>(), vec![0x0403, 0x0503], "sigalgs");
                ck_eq!(c.get_namedgroups_extension().ok_or("groups")?.iter().map(|s| s.get_u16()).collect::<Vec<_>>(), vec![23], "groups");
                ck_eq!(c.get_ecpoints_extension().ok_or("points")?.len(), 1, "points");
                ck_eq!(c.get_alpn_extension().ok_or("alpn")?.as_single_slice(), Some(&b"http/1.1"[..]), "alpn");
                ck_eq!(c.get_versions_extension().ok_or("versions")?.iter().map(|s| s.get_u16()).collect::<Vec<_>>(), vec![0x0303], "versions");
                ck!(c.ems_support_offered() && !c.early_data_extension_offered(), "ems/early data");
                ck!(c.get_ticket_extension().is_none() && c.get_keyshare_extension().is_none() && c.get_psk().is_none() && c.get_psk_modes().is_none(), "absent extensions");
                Ok(())
            });
        }
    }
    for mask in 0..64u64 {
        h.case(|| format!("field/sh/{mask}"), || {
            let rnd: Vec<u8> = (7..39).collect();
            let all = [ext(23, &[]), ext(11, &l8(&[0, 1])), ext(18, &l16(&cat(&[&l16(&[1, 2]), &l16(&[3])]))), ext(16, &l16(&l8(b"h2"))), ext(43, &[3, 4]), ext(41, &[0, 5])];
            let e: Vec<Vec<u8>> = bits(mask, 6).into_iter().map(|i| all[i].clone()).collect();
            let b = hs(2, &cat(&[&[3, 3], &rnd, &l8(&[1; 8]), &[0xc0, 0x2f, 0], &exts_b(&e)]));
            let HandshakePayload::ServerHello(s) = parse(&b)? else { return Err("not a server hello".into()) };
            let on = |i: u64| mask >> i & 1 == 1;
            h.trans(1);
            h.state(&b);
            ck_eq!(s.legacy_version.get_u16(), 0x0303, "version");
            ck_eq!(s.random.0.to_vec(), rnd, "random");
            ck_eq!(s.cipher_suite.get_u16(), 0xc02f, "suite");
            ck_eq!(s.session_id.get_encoding(), l8(&[1; 8]), "session id");
            ck_eq!(s.ems_support_acked(), on(0), "ems");
            ck_eq!(s.get_ecpoints_extension().map(|p| p.len()), on(1).then_some(2), "points");
            ck_eq!(s.get_sct_list().map(|l| l.iter().map(|p| p.0.clone()).collect::<Vec<_>>()), on(2).then(|| vec![vec![1u8, 2], vec![3]]), "scts");
            ck_eq!(s.get_alpn_protocol(), on(3).then_some(&b"h2"[..]), "alpn");
            ck_eq!(s.get_supported_versions().map(|v| v.get_u16()), on(4).then_some(0x0304), "versions");
            ck_eq!(s.get_psk_index(), on(5).then_some(5), "psk");
            ck!(s.get_key_share().is_none() && !s.early_data_extension_offered(), "absent");
            Ok(())
        });
    }
    for n in 0..5usize {
        h.case(|| format!("field/cert/{n}"), || {
            let certs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 + 1; 1 + 300 * i]).collect();
            let b = hs(11, &l24(&certs.iter().flat_map(|c| l24(c)).collect::<Vec<_>>()));
            let HandshakePayload::Certificate(c) = parse(&b)? else { return Err("not certificates".into()) };
            h.trans(1);
            h.state(&n);
            ck_eq!(c.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), certs, "certificates and order");
            Ok(())
        });
    }
    for (n, st) in [0usize, 1, 255, 256, 70000].into_iter().enumerate() {
        h.case(|| format!("field/misc/{n}"), || {
            let d: Vec<u8> = (0..st).map(|i| i as u8).collect();
            let HandshakePayload::CertificateStatus(s) = parse(&hs(22, &cat(&[&[1], &l24(&d)])))? else { return Err("status".into()) };
            ck_eq!(s.into_inner(), d, "ocsp response");
            let HandshakePayload::Finished(f) = parse(&hs(20, &d))? else { return Err("finished".into()) };
            ck_eq!(f.0, d, "finished");
            if st < 65536 {
                let HandshakePayload::NewSessionTicket(t) = parse(&hs(4, &cat(&[&[1, 2, 3, 4], &l16(&d)])))? else { return Err("ticket".into()) };
                ck_eq!((t.lifetime_hint, t.ticket.0), (0x01020304, d.clone()), "ticket");
                let HandshakePayload::CertificateVerify(v) = parse(&hs(15, &cat(&[&[8, 4], &l16(&d)])))? else { return Err("cv".into()) };
                ck_eq!((v.scheme.get_u16(), v.sig.0), (0x0804, d.clone()), "certificate verify");
            }
            h.state(&st);
            h.trans(4);
            Ok(())
        });
    }
    // PSK binder truncation: the encoding up to (excluding) the binders list.
    for n in 0..40usize {
        h.case(|| format!("field/binder/{n}"), || {
            let psk = PresharedKeyOffer::new(PresharedKeyIdentity::new(vec![1; n], 7), vec![2; n]);
            let mut ch = ClientHelloPayload {
                client_version: ProtocolVersion::TLSv1_2,
                random: Random([1; 32]),
                session_id: SessionID::empty(),
                cipher_suites: vec![CipherSuite::TLS13_AES_128_GCM_SHA256],
                compression_methods: vec![Compression::Null],
                extensions: vec![ClientExtension::EarlyData, ClientExtension::PresharedKey(psk)],
            };
            ck!(ch.check_psk_ext_is_last(), "psk last");
            ch.set_psk_binder(vec![9; 32]);
            let m = HandshakeMessagePayload { typ: HandshakeType::ClientHello, payload: HandshakePayload::ClientHello(ch) };
            let full = m.get_encoding();
            let part = m.get_encoding_for_binder_signing();
            h.trans(1);
            h.state(&n);
            ck_eq!(part.len() + 2 + 1 + 32, full.len(), "binder cut");
            ck!(full.starts_with(&part), "binder prefix");
            ck!(ref_hs(&full, false).is_some(), "full encoding");
            Ok(())
        });
    }
}

/// Integers, length-prefixed vectors and enum code points: exhaustive.
fn integers(h: &Hx) {
    let hi: Vec<u16> = (0..=255).collect();
    h.par(&hi, |&a| {
        h.case(|| format!("int/{a}"), || {
            for b in 0..=255u16 {
                let v = a << 8 | b;
                ck_eq!(v.get_encoding(), u16b(v), "u16");
                ck_eq!(u16::read_bytes(&u16b(v)), Some(v), "u16 read");
                let w = (v as u32) << 8 | 0x5a;
                let x = tls_core::msgs::codec::u24(w);
                ck_eq!(x.get_encoding(), vec![(w >> 16) as u8, (w >> 8) as u8, w as u8], "u24");
                ck_eq!(tls_core::msgs::codec::u24::read_bytes(&x.get_encoding()).map(|y| y.0), Some(w), "u24 read");
                let y = (v as u32) << 16 | (v as u32 ^ 0xa5a5);
                ck_eq!(u32::read_bytes(&y.get_encoding()), Some(y), "u32");
                ck_eq!(y.get_encoding(), y.to_be_bytes().to_vec(), "u32 enc");
                let z = (y as u64) << 32 | 0x01020304_u64;
                ck_eq!(u64::read_bytes(&z.get_encoding()), Some(z), "u64");
                ck_eq!(z.get_encoding(), z.to_be_bytes().to_vec(), "u64 enc");
                macro_rules! e16 { ($($t:ident),*) => { $( ck_eq!($t::from(v).get_u16(), v, stringify!($t)); ck_eq!($t::from(v).get_encoding(), u16b(v), stringify!($t)); ck_eq!($t::read_bytes(&u16b(v)).map(|e| e.get_u16()), Some(v), stringify!($t)); )* } }
                e16!(NamedCurve, ProtocolVersion, ExtensionType, NamedGroup, CipherSuite, SignatureScheme);
            }
            macro_rules! e8 { ($($t:ident),*) => { $( ck_eq!($t::from(a as u8).get_u8(), a as u8, stringify!($t)); ck_eq!($t::from(a as u8).get_encoding(), vec![a as u8], stringify!($t)); )* } }
            e8!(ContentType, HandshakeType, AlertLevel, AlertDescription, HashAlgorithm, SignatureAlgorithm, ClientCertificateType, Compression, ServerNameType, ECPointFormat, ECCurveType, PSKKeyExchangeMode, KeyUpdateRequest, CertificateStatusType);
            h.trans(256);
            h.state(&a);
            Ok(())
        });
    });
    // IANA code points of everything the protocol logic switches on.
    let table: Vec<(&str, u16, u16)> = vec![
        ("ccs", ContentType::ChangeCipherSpec.get_u8() as u16, 20),
        ("alert", ContentType::Alert.get_u8() as u16, 21),
        ("handshake", ContentType::Handshake.get_u8() as u16, 22),
        ("application_data", ContentType::ApplicationData.get_u8() as u16, 23),
        ("heartbeat", ContentType::Heartbeat.get_u8() as u16, 24),
        ("hello_request", HandshakeType::HelloRequest.get_u8() as u16, 0),
        ("client_hello", HandshakeType::ClientHello.get_u8() as u16, 1),
        ("server_hello", HandshakeType::ServerHello.get_u8() as u16, 2),
        ("new_session_ticket", HandshakeType::NewSessionTicket.get_u8() as u16, 4),
        ("end_of_early_data", HandshakeType::EndOfEarlyData.get_u8() as u16, 5),
        ("encrypted_extensions", HandshakeType::EncryptedExtensions.get_u8() as u16, 8),
        ("certificate", HandshakeType::Certificate.get_u8() as u16, 11),
        ("server_key_exchange", HandshakeType::ServerKeyExchange.get_u8() as u16, 12),
        ("certificate_request", HandshakeType::CertificateRequest.get_u8() as u16, 13),
        ("server_hello_done", HandshakeType::ServerHelloDone.get_u8() as u16, 14),
        ("certificate_verify", HandshakeType::CertificateVerify.get_u8() as u16, 15),
        ("client_key_exchange", HandshakeType::ClientKeyExchange.get_u8() as u16, 16),
        ("finished", HandshakeType::Finished.get_u8() as u16, 20),
        ("certificate_status", HandshakeType::CertificateStatus.get_u8() as u16, 22),
        ("key_update", HandshakeType::KeyUpdate.get_u8() as u16, 24),
        ("message_hash", HandshakeType::MessageHash.get_u8() as u16, 254),
        ("warning", AlertLevel::Warning.get_u8() as u16, 1),
        ("fatal", AlertLevel::Fatal.get_u8() as u16, 2),
        ("close_notify", AlertDescription::CloseNotify.get_u8() as u16, 0),
        ("unexpected_message", AlertDescription::UnexpectedMessage.get_u8() as u16, 10),
        ("bad_record_mac", AlertDescription::BadRecordMac.get_u8() as u16, 20),
        ("record_overflow", AlertDescription::RecordOverflow.get_u8() as u16, 22),
        ("handshake_failure", AlertDescription::HandshakeFailure.get_u8() as u16, 40),
        ("bad_certificate", AlertDescription::BadCertificate.get_u8() as u16, 42),
        ("illegal_parameter", AlertDescription::IllegalParameter.get_u8() as u16, 47),
        ("decode_error", AlertDescription::DecodeError.get_u8() as u16, 50),
        ("decrypt_error", AlertDescription::DecryptError.get_u8() as u16, 51),
        ("protocol_version", AlertDescription::ProtocolVersion.get_u8() as u16, 70),
        ("user_canceled", AlertDescription::UserCanceled.get_u8() as u16, 90),
        ("no_renegotiation", AlertDescription::NoRenegotiation.get_u8() as u16, 100),
        ("tls1.2", ProtocolVersion::TLSv1_2.get_u16(), 0x0303),
        ("tls1.3", ProtocolVersion::TLSv1_3.get_u16(), 0x0304),
        ("tls1.0", ProtocolVersion::TLSv1_0.get_u16(), 0x0301),
        ("tls1.1", ProtocolVersion::TLSv1_1.get_u16(), 0x0302),
        ("secp256r1", NamedGroup::secp256r1.get_u16(), 23),
        ("secp384r1", NamedGroup::secp384r1.get_u16(), 24),
        ("secp521r1", NamedGroup::secp521r1.get_u16(), 25),
        ("x25519", NamedGroup::X25519.get_u16(), 29),
        ("rsa_pkcs1_sha1", SignatureScheme::RSA_PKCS1_SHA1.get_u16(), 0x0201),
        ("rsa_pkcs1_sha256", SignatureScheme::RSA_PKCS1_SHA256.get_u16(), 0x0401),
        ("rsa_pkcs1_sha384", SignatureScheme::RSA_PKCS1_SHA384.get_u16(), 0x0501),
        ("rsa_pkcs1_sha512", SignatureScheme::RSA_PKCS1_SHA512.get_u16(), 0x0601),
        ("ecdsa_p256_sha256", SignatureScheme::ECDSA_NISTP256_SHA256.get_u16(), 0x0403),
        ("ecdsa_p384_sha384", SignatureScheme::ECDSA_NISTP384_SHA384.get_u16(), 0x0503),
        ("ecdsa_p521_sha512", SignatureScheme::ECDSA_NISTP521_SHA512.get_u16(), 0x0603),
        ("rsa_pss_sha256", SignatureScheme::RSA_PSS_SHA256.get_u16(), 0x0804),
        ("rsa_pss_sha384", SignatureScheme::RSA_PSS_SHA384.get_u16(), 0x0805),
        ("rsa_pss_sha512", SignatureScheme::RSA_PSS_SHA512.get_u16(), 0x0806),
        ("ed25519", SignatureScheme::ED25519.get_u16(), 0x0807),
        ("ext sni", ExtensionType::ServerName.get_u16(), 0),
        ("ext status", ExtensionType::StatusRequest.get_u16(), 5),
        ("ext groups", ExtensionType::EllipticCurves.get_u16(), 10),
        ("ext points", ExtensionType::ECPointFormats.get_u16(), 11),
        ("ext sigalgs", ExtensionType::SignatureAlgorithms.get_u16(), 13),
        ("ext alpn", ExtensionType::ALProtocolNegotiation.get_u16(), 16),
        ("ext sct", ExtensionType::SCT.get_u16(), 18),
        ("ext ems", ExtensionType::ExtendedMasterSecret.get_u16(), 23),
        ("ext ticket", ExtensionType::SessionTicket.get_u16(), 35),
        ("ext psk", ExtensionType::PreSharedKey.get_u16(), 41),
        ("ext early", ExtensionType::EarlyData.get_u16(), 42),
        ("ext versions", ExtensionType::SupportedVersions.get_u16(), 43),
        ("ext cookie", ExtensionType::Cookie.get_u16(), 44),
        ("ext pskmodes", ExtensionType::PSKKeyExchangeModes.get_u16(), 45),
        ("ext cas", ExtensionType::CertificateAuthorities.get_u16(), 47),
        ("ext keyshare", ExtensionType::KeyShare.get_u16(), 51),
        ("ext reneg", ExtensionType::RenegotiationInfo.get_u16(), 0xff01),
        ("aes128gcm ecdsa", CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256.get_u16(), 0xc02b),
        ("aes128gcm rsa", CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256.get_u16(), 0xc02f),
        ("aes256gcm ecdsa", CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384.get_u16(), 0xc02c),
        ("aes256gcm rsa", CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384.get_u16(), 0xc030),
        ("chacha ecdsa", CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256.get_u16(), 0xcca9),
        ("chacha rsa", CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256.get_u16(), 0xcca8),
        ("scsv", CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV.get_u16(), 0x00ff),
        ("named_curve", ECCurveType::NamedCurve.get_u8() as u16, 3),
        ("uncompressed", ECPointFormat::Uncompressed.get_u8() as u16, 0),
        ("null compression", Compression::Null.get_u8() as u16, 0),
        ("host_name", ServerNameType::HostName.get_u8() as u16, 0),
        ("ocsp", CertificateStatusType::OCSP.get_u8() as u16, 1),
    ];
    for (n, a, b) in table {
        h.case(|| format!("iana/{n}"), || {
            ck_eq!(a, b, "{n}");
            Ok(())
        });
    }
    // length-prefixed payloads at every boundary
    for n in [0usize, 1, 2, 127, 128, 254, 255, 256, 257, 32767, 65534, 65535, 65536, 70000] {
        h.case(|| format!("vec/{n}"), || {
            let d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            for delta in [-1i64, 0, 1] {
                let m = (n as i64 + delta).max(0) as usize;
                let cut = |mut v: Vec<u8>| {
                    if delta < 0 { v.pop(); } else if delta > 0 { v.push(1); }
                    v
                };
                if delta < 0 && n == 0 { continue; }
                let _ = m;
                let want = delta >= 0;
                if n <= 255 {
                    let w = cut(l8(&d));
                    ck_eq!(PayloadU8::read_bytes(&w).map(|p| p.0), want.then(|| d.clone()), "u8 payload");
                    ck_eq!(PayloadU8::new(d.clone()).get_encoding(), l8(&d), "u8 payload enc");
                }
                if n <= 65535 {
                    let w = cut(l16(&d));
                    ck_eq!(PayloadU16::read_bytes(&w).map(|p| p.0), want.then(|| d.clone()), "u16 payload");
                    ck_eq!(PayloadU16::new(d.clone()).get_encoding(), l16(&d), "u16 payload enc");
                }
                let w = cut(l24(&d));
                ck_eq!(PayloadU24::read_bytes(&w).map(|p| p.0), want.then(|| d.clone()), "u24 payload");
                ck_eq!(PayloadU24::new(d.clone()).get_encoding(), l24(&d), "u24 payload enc");
                let mut r = Reader::init(&w);
                let _ = PayloadU24::read(&mut r);
                if want {
                    ck_eq!((r.used(), r.left(), r.any_left()), (n + 3, delta as usize, delta > 0), "reader position");
                }
            }
            h.state(&n);
            h.trans(9);
            Ok(())
        });
    }
}

fn certs_limit(h: &Hx) {
    for total in [0xfffdusize, 0xfffe, 0xffff, 0x10000, 0x10001, 0x10002, 0x20000] {
        h.case(|| format!("certlimit/{total}"), || {
            let n = total - 3;
            let b = hs(11, &l24(&l24(&vec![7; n])));
            let ok = HandshakeMessagePayload::read_bytes(&b).is_some();
            ck_eq!(ok, total <= 0x10000, "certificate list of {total} bytes");
            let b = hs(11, &cat(&[&[0], &l24(&cat(&[&l24(&vec![7; n - 2]), &[0, 0]]))]));
            let ok = HandshakeMessagePayload::read_version(&mut Reader::init(&b), ProtocolVersion::TLSv1_3).is_some();
            ck_eq!(ok, total <= 0x10000, "1.3 certificate list of {total} bytes");
            h.state(&total);
            h.trans(2);
            Ok(())
        });
    }
}

fn key_exchange(h: &Hx) {
    use tls_core::suites::tls12::decode_ecdh_params;
    let ref_params = |b: &[u8]| -> O<(u16, Vec<u8>)> {
        let mut c = C(b);
        (c.u8()? == 3).then_some(())?;
        let g = c.u16()?;
        let p = c.v(1)?;
        c.end()?;
        Some((g, p.to_vec()))
    };
    let ref_ske = |b: &[u8]| -> O<(u16, Vec<u8>, u16, Vec<u8>)> {
        let mut c = C(b);
        (c.u8()? == 3).then_some(())?;
        let g = c.u16()?;
        let p = c.v(1)?;
        let s = c.u16()?;
        let sg = c.v(2)?;
        c.end()?;
        Some((g, p.to_vec(), s, sg.to_vec()))
    };
    let check = |b: &[u8]| -> R {
        h.trans(1);
        h.state(b);
        let got = decode_ecdh_params::<ServerECDHParams>(b).map(|p| (p.curve_params.named_group.get_u16(), p.public.0));
        ck_eq!(got, ref_params(b), "server ECDH params {}", hex(b));
        let got = decode_ecdh_params::<ClientECDHParams>(b).map(|p| p.public.0);
        ck_eq!(got, { let mut c = C(b); c.v(1).filter(|_| c.end().is_some()).map(|x| x.to_vec()) }, "client ECDH params {}", hex(b));
        let ske = ServerKeyExchangePayload::Unknown(Payload(b.to_vec()));
        let got = ske.unwrap_given_kxa(&KeyExchangeAlgorithm::ECDHE).map(|k| (k.params.curve_params.named_group.get_u16(), k.params.public.0, k.dss.scheme.get_u16(), k.dss.sig.0));
        ck_eq!(got, ref_ske(b), "server key exchange {}", hex(b));
        for k in [KeyExchangeAlgorithm::DHE, KeyExchangeAlgorithm::RSA, KeyExchangeAlgorithm::DH, KeyExchangeAlgorithm::ECDH, KeyExchangeAlgorithm::BulkOnly] {
            ck!(ske.unwrap_given_kxa(&k).is_none(), "key exchange accepted for {k:?}");
        }
        Ok(())
    };
    for (pl, sl) in product(&[5, 5]).into_iter().map(|v| (v[0], v[1])) {
        for grp in [23u16, 24, 29, 0, 0xffff] {
            let ske = cat(&[&[3], &u16b(grp), &l8(&vec![4; pl]), &[4, 3], &l16(&vec![6; sl])]);
            let par = cat(&[&[3], &u16b(grp), &l8(&vec![4; pl])]);
            for base in [ske, par] {
                h.case(|| format!("kx/{pl}/{sl}/{grp}/{}", base.len()), || {
                    check(&base)?;
                    for n in 0..base.len() {
                        check(&base[..n])?;
                        for x in [0u8, 1, 2, 3, 4, 255] {
                            let mut t = base.clone();
                            t[n] = x;
                            check(&t)?;
                            let mut t = base.clone();
                            t.insert(n, x);
                            check(&t)?;
                        }
                    }
                    let mut t = base.clone();
                    t.push(0);
                    check(&t)
                });
            }
        }
    }
    // the parameters signed by the server re-encode to what was received
    for g in 0..=0xffffu32 {
        if g % 17 != 0 && g > 64 { continue; }
        h.case(|| format!("kxenc/{g}"), || {
            let p = ServerECDHParams::new(NamedGroup::from(g as u16), &[4, 5, 6]);
            ck_eq!(p.get_encoding(), cat(&[&[3], &u16b(g as u16), &l8(&[4, 5, 6])]), "params encoding");
            Ok(())
        });
    }
}
