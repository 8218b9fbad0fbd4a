//! T02: handshake message reassembly.
use crate::wire::*;
use hx_lib::*;
use tls_core::msgs::{
    base::Payload,
    enums::{ContentType, ProtocolVersion},
    hsjoiner::HandshakeJoiner,
    message::{MessagePayload, PlainMessage},
};

fn pm(v: u16, b: &[u8]) -> PlainMessage {
    PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::from(v), payload: Payload(b.to_vec()) }
}

/// Outcome per message of the alphabet.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Good,
    /// body cannot be parsed, refused when complete
    Corrupt,
    /// refused as soon as the header is complete
    TooLarge,
}

/// How many complete messages / whether refused, given the delivered prefix.
/// `msgs`: (bytes, kind) in order.
fn model(msgs: &[(&[u8], Kind)], fed: usize) -> (usize, bool) {
    let (mut at, mut n) = (0, 0);
    for (b, k) in msgs {
        match k {
            Kind::Good => {
                if fed >= at + b.len() {
                    n += 1;
                    at += b.len();
                } else {
                    return (n, false);
                }
            }
            Kind::Corrupt => return (n, fed >= at + b.len()),
            Kind::TooLarge => return (n, fed >= at + 4),
        }
    }
    (n, false)
}

fn run(h: &Hx, ver: u16, msgs: &[(&[u8], Kind)], ends: &[usize], drain: bool, empties: bool) -> R {
    let stream: Vec<u8> = msgs.iter().flat_map(|m| m.0.to_vec()).collect();
    let mut j = HandshakeJoiner::new();
    ck!(j.is_empty(), "fresh joiner not empty");
    let mut out: Vec<Vec<u8>> = vec![];
    let mut fed = 0;
    let mut had = 0;
    let check_out = |out: &Vec<Vec<u8>>, n: usize| -> R {
        ck_eq!(out.len(), n, "number of joined messages");
        for (i, o) in out.iter().enumerate() {
            ck_eq!(hex(o), hex(msgs[i].0), "joined message {i}");
        }
        Ok(())
    };
    let take = |j: &mut HandshakeJoiner, out: &mut Vec<Vec<u8>>| -> R {
        while let Some(m) = j.frames.pop_front() {
            ck_eq!(m.version.get_u16(), ver, "joined version");
            let MessagePayload::Handshake(_) = &m.payload else { return Err("joined frame is not a handshake".into()) };
            let p: PlainMessage = m.into();
            ck!(p.typ == ContentType::Handshake, "type");
            out.push(p.payload.0);
        }
        Ok(())
    };
    for &e in ends {
        let (n, bad) = model(msgs, e);
        if empties && e > fed {
            let r = j.take_message(pm(ver, &[]));
            ck_eq!(r, Some(0), "empty fragment");
        }
        let r = j.take_message(pm(ver, &stream[fed..e]));
        fed = e;
        h.trans(1);
        h.state(&(msgs.len(), n, fed, bad, stream.len()));
        if bad {
            ck_eq!(r, None, "refusal after {fed} bytes");
            // unrecoverable
            ck_eq!(j.take_message(pm(ver, &hs(0, &[]))), None, "recovered after refusal");
            take(&mut j, &mut out)?;
            ck!(out.len() <= n, "messages delivered past the refused one");
            for (i, o) in out.iter().enumerate() {
                ck_eq!(hex(o), hex(msgs[i].0), "joined message {i}");
            }
            return Ok(());
        }
        ck_eq!(r, Some(n - had), "count after {fed} bytes");
        had = n;
        let complete: usize = msgs[..n].iter().map(|m| m.0.len()).sum();
        ck_eq!(j.is_empty(), fed == complete, "is_empty after {fed} bytes");
        if drain {
            take(&mut j, &mut out)?;
            check_out(&out, n)?;
        }
    }
    take(&mut j, &mut out)?;
    check_out(&out, model(msgs, fed).0)
}

pub fn t02(h: &Hx) {
    let mut huge = vec![20u8, 0, 0xff, 0xff];
    huge.extend((0..0xffffusize).map(|i| (i * 31 + (i >> 8)) as u8));
    let alpha: Vec<(&str, Vec<u8>, Kind)> = vec![
        ("hr", hs(0, &[]), Kind::Good),
        ("shd", hs(14, &[]), Kind::Good),
        ("fin0", hs(20, &[]), Kind::Good),
        ("fin3", hs(20, &[20, 0, 0]), Kind::Good),
        ("unk", hs(99, &[1, 0]), Kind::Good),
        ("ske", hs(12, &[3, 0, 23, 1, 4]), Kind::Good),
        ("nst", hs(4, &[0, 0, 0, 1, 0, 1, 9]), Kind::Good),
        ("cert", hs(11, &l24(&l24(&[5]))), Kind::Good),
        ("shd-trail", hs(14, &[1]), Kind::Corrupt),
        ("msghash", hs(254, &[1]), Kind::Corrupt),
        ("cert-trunc", hs(11, &[0, 0, 9, 1]), Kind::Corrupt),
        ("hrr", hs(6, &[1]), Kind::Corrupt),
        ("huge+1", vec![20, 1, 0, 0], Kind::TooLarge),
        ("16m", vec![11, 0xff, 0xff, 0xff], Kind::TooLarge),
    ];
    let seqs: Vec<Vec<usize>> = all_seqs(alpha.len(), 1, h.tier(4, 5))
        .into_iter()
        .filter(|s| s[..s.len() - 1].iter().all(|&i| alpha[i].2 == Kind::Good))
        .collect();
    let full = h.tier(13, 15);
    h.note("bounds", format!("{} message sequences; all fragmentations up to {full} bytes, <=2 cuts beyond", seqs.len()));
    h.par(&seqs, |s| {
        let msgs: Vec<(&[u8], Kind)> = s.iter().map(|&i| (&alpha[i].1[..], alpha[i].2)).collect();
        let len: usize = msgs.iter().map(|m| m.0.len()).sum();
        let ends: Vec<Vec<usize>> = if len <= full {
            compositions(len).into_iter().map(|c| c.iter().scan(0, |a, x| { *a += x; Some(*a) }).collect()).collect()
        } else {
            cuts(&(1..len).collect::<Vec<_>>(), if s.len() <= 3 { 2 } else { 1 }).into_iter().map(|mut c| { c.push(len); c }).collect()
        };
        let name = || s.iter().map(|&i| alpha[i].0).collect::<Vec<_>>().join("+");
        for e in &ends {
            h.case(|| format!("seq/{}/{e:?}", name()), || {
                run(h, 0x0303, &msgs, e, e.len() % 2 == 0, e.len() % 3 == 0)
            });
        }
    });
    // The 64 KiB limit itself: 0xffff accepted, whatever the record boundaries.
    let marks = [1, 3, 4, 5, 16384, 16388, 32768, 65534, 65535, 65536, 65538];
    let jobs = cuts(&marks, h.tier(3, 4));
    h.par(&jobs, |c| {
        for tail in [false, true] {
            h.case(|| format!("huge/{c:?}/{tail}"), || {
                let mut m: Vec<(&[u8], Kind)> = vec![(&huge, Kind::Good)];
                let shd = hs(14, &[]);
                if tail {
                    m.push((&shd, Kind::Good));
                }
                let mut e = c.clone();
                e.push(m.iter().map(|x| x.0.len()).sum());
                run(h, 0x0303, &m, &e, true, false)
            });
        }
    });
    // Every declared length: refused from the header exactly when above 0xffff.
    let hi: Vec<u32> = (0..=255).collect();
    h.par(&hi, |&a| {
        for lo in [0u32, 1, 0xff, 0x100, 0xfffe, 0xffff] {
            let len = a << 16 | lo;
            h.case(|| format!("limit/{len}"), || {
                let hd = [20u8, a as u8, (lo >> 8) as u8, lo as u8];
                for split in 0..4 {
                    let mut j = HandshakeJoiner::new();
                    if split > 0 {
                        ck_eq!(j.take_message(pm(0x0303, &hd[..split])), Some(0), "header prefix");
                    }
                    let r = j.take_message(pm(0x0303, &hd[split..]));
                    h.trans(1);
                    let want = if len > 0xffff { None } else if len == 0 { Some(1) } else { Some(0) };
                    ck_eq!(r, want, "declared length {len}");
                }
                h.state(&len);
                Ok(())
            });
        }
    });
    // Bursts: any number of messages in one record, and one message over any number of records.
    let counts: Vec<usize> = (1..=4096).collect();
    h.par(&counts, |&k| {
        h.case(|| format!("burst/{k}"), || {
            let shd = hs(14, &[]);
            let mut j = HandshakeJoiner::new();
            let mut b: Vec<u8> = (0..k).flat_map(|_| shd.clone()).collect();
            b.extend([20, 0]);
            ck_eq!(j.take_message(pm(0x0303, &b)), Some(k), "messages of one record");
            ck_eq!(j.frames.len(), k, "queued messages");
            ck!(!j.is_empty(), "partial message forgotten");
            ck_eq!(j.take_message(pm(0x0303, &[0, 1, 7])), Some(1), "message completed by the next record");
            ck!(j.is_empty(), "nothing is pending");
            ck_eq!(j.frames.len(), k + 1, "queued messages");
            h.trans(2);
            // the same number of records for one message
            let m = hs(20, &(0..k).map(|i| (i * 5 + (i >> 8)) as u8).collect::<Vec<_>>());
            let mut j = HandshakeJoiner::new();
            for (i, x) in m.iter().enumerate() {
                let r = j.take_message(pm(0x0303, &[*x]));
                ck_eq!(r, Some((i + 1 == m.len()) as usize), "byte {i} of {}", m.len());
                h.trans(1);
            }
            let p: PlainMessage = j.frames.pop_front().ok_or("nothing joined")?.into();
            ck!(p.payload.0 == m, "message joined from single bytes");
            h.state(&k);
            Ok(())
        });
    });
    // The grammar used is that of the record's version.
    let c13 = cat(&[&[0], &l24(&cat(&[&l24(&[5, 6]), &l16(&[])]))]);
    let c12 = l24(&l24(&[5, 6]));
    for (name, ver, m, good) in [
        ("cert13", 0x0304u16, hs(11, &c13), true),
        ("cert12", 0x0303, hs(11, &c12), true),
        ("cert12-in-13", 0x0304, hs(11, &c12), false),
        ("cert13-in-12", 0x0303, hs(11, &c13), false),
        ("ku13", 0x0304, hs(24, &[1]), true),
        ("eoed13", 0x0304, hs(5, &[]), true),
        ("fin13", 0x0304, hs(20, &[1, 2, 3]), true),
    ] {
        for c in cuts(&(1..m.len()).collect::<Vec<_>>(), 2) {
            h.case(|| format!("grammar/{name}/{c:?}"), || {
                let mut e = c.clone();
                e.push(m.len());
                run(h, ver, &[(&m, if good { Kind::Good } else { Kind::Corrupt })], &e, true, false)
            });
        }
    }
    // Fragments may carry different record versions: the bytes are joined all the same.
    let vers = [0x0300u16, 0x0301, 0x0302, 0x0303, 0x0304, 0x0200, 0xfeff, 0x7f1c];
    let plain: [(&str, Vec<u8>); 3] = [("fin3", hs(20, &[20, 0, 0])), ("shd", hs(14, &[])), ("unk+fin", cat(&[&hs(99, &[1, 0]), &hs(20, &[7])]))];
    for (name, m) in &plain {
        for c in cuts(&(1..m.len()).collect::<Vec<_>>(), 2) {
            for pick in product(&vec![vers.len(); c.len() + 1]) {
                h.case(|| format!("mixed/{name}/{c:?}/{pick:?}"), || {
                    let mut j = HandshakeJoiner::new();
                    let mut e = c.clone();
                    e.push(m.len());
                    let mut at = 0;
                    let mut got = vec![];
                    for (&end, &v) in e.iter().zip(&pick) {
                        ck!(j.take_message(pm(vers[v], &m[at..end])).is_some(), "fragment refused");
                        at = end;
                    }
                    while let Some(x) = j.frames.pop_front() {
                        let p: PlainMessage = x.into();
                        got.extend(p.payload.0);
                    }
                    ck_eq!(hex(&got), hex(m), "joined bytes");
                    ck!(j.is_empty(), "left over");
                    h.trans(e.len() as u64);
                    Ok(())
                });
            }
        }
    }
    // Only handshake records are wanted.
    for t in 0..=255u8 {
        h.case(|| format!("want/{t}"), || {
            let j = HandshakeJoiner::new();
            let m = PlainMessage { typ: ContentType::from(t), version: ProtocolVersion::TLSv1_2, payload: Payload(vec![]) };
            ck_eq!(j.want_message(&m), t == 22, "want_message({t})");
            Ok(())
        });
    }
}
