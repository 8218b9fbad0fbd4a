//! T03: fragmentation, and its composition with deframing and joining.
use crate::wire::*;
use hx_lib::*;
use std::collections::VecDeque;
use tls_core::msgs::{
    base::Payload,
    deframer::MessageDeframer,
    enums::{ContentType, ProtocolVersion},
    fragmenter::MessageFragmenter,
    hsjoiner::HandshakeJoiner,
    message::PlainMessage,
};

fn limit(sz: Option<usize>) -> Option<usize> {
    match sz {
        None => Some(16384),
        Some(s) if (32..=16389).contains(&s) => Some(s - 5),
        _ => None,
    }
}
fn body(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(2654435761).to_be_bytes()[0]).collect()
}

fn one(h: &Hx, sz: Option<usize>, len: usize, typ: u8, ver: u16) -> R {
    let lim = limit(sz).unwrap();
    let f = MessageFragmenter::new(sz).map_err(|e| format!("{e:?}"))?;
    let b = body(len);
    let (t, v) = (ContentType::from(typ), ProtocolVersion::from(ver));
    let mut out = VecDeque::new();
    // something is already queued: fragments are appended after it
    out.push_back(PlainMessage { typ: ContentType::Alert, version: ProtocolVersion::TLSv1_0, payload: Payload(vec![9]) });
    f.fragment(PlainMessage { typ: t, version: v, payload: Payload(b.clone()) }, &mut out);
    let first = out.pop_front().unwrap();
    ck!(first.typ == ContentType::Alert && first.payload.0 == [9], "queued message disturbed");
    let mut bo = VecDeque::new();
    f.fragment_borrow(t, v, &b, &mut bo);
    let mut all = vec![];
    for m in &out {
        ck!(m.payload.0.len() <= lim, "fragment of {} bytes over the limit {lim}", m.payload.0.len());
        ck!(m.typ == t && m.version == v, "fragment type/version");
        ck!(len == 0 || !m.payload.0.is_empty(), "empty fragment");
        all.extend_from_slice(&m.payload.0);
        let wire = m.clone().into_unencrypted_opaque().encode();
        ck!(wire.len() <= lim + 5, "wire size {}", wire.len());
        ck_eq!(hex(&wire), hex(&rec(typ, ver, &m.payload.0)), "wire encoding");
    }
    ck!(all == b, "fragments do not concatenate to the message");
    let ball: Vec<u8> = bo.iter().flat_map(|m| m.payload.to_vec()).collect();
    ck!(ball == b, "borrowed fragments do not concatenate to the message");
    if len > 0 {
        ck_eq!(out.len(), bo.len(), "owned vs borrowed count");
        ck_eq!(out.len(), len.div_ceil(lim), "number of fragments");
        for (a, c) in out.iter().zip(&bo) {
            ck!(a.payload.0 == c.payload && a.typ == c.typ && a.version == c.version, "owned vs borrowed fragment");
        }
    }
    h.trans(out.len() as u64);
    h.state(&(lim, len, typ));
    // composition: the receiving side recovers it
    if (1..=70000).contains(&len) && typ == 22 {
        let mut wire = vec![];
        for m in out {
            wire.extend(m.into_unencrypted_opaque().encode());
        }
        let mut d = MessageDeframer::new();
        let mut got = vec![];
        let mut rest = &wire[..];
        while !rest.is_empty() {
            let n = d.read(&mut rest).map_err(|e| e.to_string())?;
            ck!(n > 0, "deframer stuck");
            while let Some(m) = d.frames.pop_front() {
                got.extend(m.payload.0);
            }
        }
        ck!(!d.desynced && got == b, "deframed stream differs");
    }
    Ok(())
}

pub fn t03(h: &Hx) {
    // configuration: every size from 0 to beyond the maximum
    let all: Vec<usize> = (0..=16500).chain([65535, 65536, usize::MAX - 1, usize::MAX]).collect();
    h.par(&all, |&s| {
        h.case(|| format!("cfg/{s}"), || {
            ck_eq!(MessageFragmenter::new(Some(s)).is_ok(), limit(Some(s)).is_some(), "size {s} accepted");
            let mut f = MessageFragmenter::new(None).map_err(|e| format!("{e:?}"))?;
            ck_eq!(f.set_max_fragment_size(Some(s)).is_ok(), limit(Some(s)).is_some(), "set size {s}");
            h.state(&s);
            Ok(())
        });
    });
    // every limit 32..=N x every length around multiples of it
    let mut jobs: Vec<(Option<usize>, usize)> = vec![];
    let sizes: Vec<usize> = (32..=h.tier(400, 1500)).chain([1024, 4096, 16383, 16384, 16385, 16388, 16389]).collect();
    for s in sizes {
        let lim = s - 5;
        let mut lens: Vec<usize> = (0..=3).flat_map(|k| [(k * lim).saturating_sub(1), k * lim, k * lim + 1]).collect();
        if lim <= 64 {
            lens.extend(0..=4 * lim);
        }
        lens.sort();
        lens.dedup();
        jobs.extend(lens.into_iter().map(|l| (Some(s), l)));
    }
    for k in 0..=4usize {
        for d in -2i64..=2 {
            let l = k as i64 * 16384 + d;
            if l >= 0 {
                jobs.push((None, l as usize));
            }
        }
    }
    h.par(&jobs, |(s, l)| {
        for (t, v) in [(22u8, 0x0303u16), (23, 0x0304), (21, 0x0301)] {
            h.case(|| format!("frag/{s:?}/{l}/{t}"), || one(h, *s, *l, t, v));
        }
    });
    // the limit in force is the last one accepted, whatever was set or refused before
    let opts = [None, Some(32), Some(37), Some(16389), Some(31), Some(16390), Some(0)];
    for seq in all_seqs(opts.len(), 1, h.tier(4, 5)) {
        h.case(|| format!("set/{seq:?}"), || {
            let mut f = MessageFragmenter::new(Some(64)).map_err(|e| format!("{e:?}"))?;
            let mut lim = 59;
            for &i in &seq {
                let ok = f.set_max_fragment_size(opts[i]).is_ok();
                ck_eq!(ok, limit(opts[i]).is_some(), "set {:?}", opts[i]);
                lim = limit(opts[i]).unwrap_or(lim);
                h.trans(1);
                for len in [lim, lim + 1, 2 * lim + 1] {
                    let b = body(len);
                    let mut q = VecDeque::new();
                    f.fragment(PlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_2, payload: Payload(b.clone()) }, &mut q);
                    ck_eq!(q.len(), len.div_ceil(lim), "records of {len} bytes under limit {lim}");
                    ck!(q.iter().all(|m| m.payload.0.len() <= lim), "record over the limit {lim}");
                    ck!(q.iter().flat_map(|m| m.payload.0.clone()).collect::<Vec<_>>() == b, "content");
                }
            }
            h.state(&(lim, &seq));
            Ok(())
        });
    }
    // a handshake flight survives fragment -> deframe -> join at every limit
    let lims: Vec<usize> = (32..=h.tier(200, 400)).collect();
    h.par(&lims, |&s| {
        for n in 1..=h.tier(4, 5) {
            for sizes in all_seqs(5, n, n) {
                h.case(|| format!("flight/{s}/{sizes:?}"), || {
                    let msgs: Vec<Vec<u8>> = sizes.iter().map(|&k| hs(20, &body([0, 1, 23, 27, 90][k]))).collect();
                    let f = MessageFragmenter::new(Some(s)).map_err(|e| format!("{e:?}"))?;
                    let mut q = VecDeque::new();
                    f.fragment(PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, payload: Payload(msgs.concat()) }, &mut q);
                    let wire: Vec<u8> = q.into_iter().flat_map(|m| m.into_unencrypted_opaque().encode()).collect();
                    let mut d = MessageDeframer::new();
                    let mut rest = &wire[..];
                    let mut j = HandshakeJoiner::new();
                    while !rest.is_empty() {
                        d.read(&mut rest).map_err(|e| e.to_string())?;
                    }
                    while let Some(m) = d.frames.pop_front() {
                        j.take_message(m.into_plain_message()).ok_or("joiner refused")?;
                        h.trans(1);
                    }
                    let got: Vec<Vec<u8>> = j.frames.drain(..).map(|m| PlainMessage::from(m).payload.0).collect();
                    ck_eq!(got, msgs, "flight");
                    ck!(j.is_empty(), "leftover");
                    h.state(&(s, &sizes));
                    Ok(())
                });
            }
        }
    });
}
