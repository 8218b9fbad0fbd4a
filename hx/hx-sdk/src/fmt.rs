//! S07: the default committers commit to every part of every message.
use crate::msg::*;
use hx_lib::*;
use std::collections::BTreeSet;
use tlsn_core::transcript::{Direction, Transcript, TranscriptCommitConfigBuilder, TranscriptCommitmentKind};
use tlsn_formats::{
    http::{DefaultHttpCommitter, HttpCommit, HttpTranscript},
    spansy::http::{parse_request, parse_response},
};

type Set = BTreeSet<(bool, Vec<(usize, usize)>)>;
fn put(o: &mut Set, sent: bool, r: Rs) {
    o.insert((sent, norm(r).iter().map(|r| (r.start, r.end)).collect()));
}
fn json(m: &Msg, v: &Jv, sent: bool, o: &mut Set) {
    match &v.kind {
        Jk::Leaf => {
            if !v.span.is_empty() {
                put(o, sent, m.map(&v.span));
            }
        }
        Jk::Arr { elems, seps } => {
            put(o, sent, m.map(&v.span));
            if !elems.is_empty() {
                let inner = elems.iter().flat_map(|e| m.map(&e.span)).chain(seps.iter().flat_map(|s| m.map(s)));
                put(o, sent, minus(&m.map(&v.span), inner));
            }
        }
        Jk::Obj(es) => {
            put(o, sent, minus(&m.map(&v.span), es.iter().flat_map(|e| m.map(&e.1))));
            for (_, pair, val) in es {
                put(o, sent, minus(&m.map(pair), m.map(&val.span)));
                json(m, val, sent, o);
            }
        }
    }
}
fn want(m: &Msg, sent: bool, o: &mut Set) {
    put(o, sent, vec![m.span.clone()]);
    let mut cut: Rs = m.headers.iter().map(|h| h.span.clone()).chain(m.body.iter().flatten().cloned()).collect();
    let some = !cut.is_empty();
    if sent {
        cut.push(m.b.clone());
        put(o, sent, vec![m.b.clone()]);
    }
    if some {
        put(o, sent, minus(&[m.span.clone()], cut));
    }
    for h in &m.headers {
        put(o, sent, vec![h.span.clone()]);
        if !h.value.is_empty() {
            put(o, sent, minus(&[h.span.clone()], [h.value.clone()]));
        }
    }
    match (&m.json, &m.body) {
        (Some(j), Some(_)) => json(m, j, sent, o),
        (None, Some(b)) => put(o, sent, b.clone()),
        _ => {}
    }
}
fn kind(alg: u8) -> TranscriptCommitmentKind {
    let alg = match alg {
        0 => tlsn_core::hash::HashAlgId::SHA256,
        1 => tlsn_core::hash::HashAlgId::BLAKE3,
        _ => tlsn_core::hash::HashAlgId::KECCAK256,
    };
    TranscriptCommitmentKind::Hash { alg }
}
fn got(b: TranscriptCommitConfigBuilder<'_>, k: TranscriptCommitmentKind) -> Result<Set, String> {
    let c = b.build().map_err(|e| e.to_string())?;
    let mut o = Set::new();
    for ((d, idx), alg) in c.iter_hash() {
        ck_eq!(TranscriptCommitmentKind::Hash { alg: *alg }, k, "kind of commitment");
        ck!(o.insert((*d == Direction::Sent, idx.iter().map(|r| (r.start, r.end)).collect())), "committed twice");
    }
    Ok(o)
}
fn same(got: &Set, want: &Set) -> R {
    if let Some(x) = want.difference(got).next() {
        return Err(format!("no commitment to {x:?}"));
    }
    if let Some(x) = got.difference(want).next() {
        return Err(format!("unexpected commitment to {x:?}"));
    }
    Ok(())
}
pub fn s07(hx: &Hx) {
    let sp = specs(hx.thorough());
    let (rq, rs): (Vec<&Spec>, Vec<&Spec>) = sp.iter().partition(|s| s.req);
    hx.note("messages", format!("{} requests, {} responses", rq.len(), rs.len()));
    // One message at a time.
    hx.par(&sp.iter().enumerate().collect::<Vec<_>>(), |(i, s)| {
        for k in 0..3u8 {
            hx.case(|| format!("one/{i}/{k}/{s:?}"), || {
                let m = build(s, 0);
                let k = kind(k);
                let tr = if s.req { Transcript::new(m.bytes.clone(), vec![]) } else { Transcript::new(vec![], m.bytes.clone()) };
                let mut b = TranscriptCommitConfigBuilder::new(&tr);
                b.default_kind(k);
                let mut c = DefaultHttpCommitter::default();
                let src = bytes::Bytes::from(m.bytes.clone());
                if s.req {
                    c.commit_request(&mut b, Direction::Sent, &parse_request(src).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                } else {
                    c.commit_response(&mut b, Direction::Received, &parse_response(src).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                }
                let mut w = Set::new();
                want(&m, s.req, &mut w);
                hx.trans(w.len() as u64);
                hx.state(&w);
                same(&got(b, k)?, &w)
            });
        }
    });
    // Whole transcripts: several messages in a row, in each direction.
    let step = hx.tier(5, 1);
    let mut items = vec![];
    for i in (0..rq.len()).step_by(step) {
        for nq in 0..=3usize {
            for nr in 0..=3usize {
                items.push((i, nq, nr));
            }
        }
    }
    hx.par(&items, |(i, nq, nr)| {
        hx.case(|| format!("transcript/{i}/{nq}/{nr}"), || {
            let (mut sent, mut recv, mut w) = (vec![], vec![], Set::new());
            for k in 0..*nq {
                let m = build(rq[(i + k * 29) % rq.len()], sent.len());
                want(&m, true, &mut w);
                sent.extend(&m.bytes);
            }
            for k in 0..*nr {
                let m = build(rs[(i * 3 + k * 31) % rs.len()], recv.len());
                want(&m, false, &mut w);
                recv.extend(&m.bytes);
            }
            let tr = Transcript::new(sent, recv);
            let ht = HttpTranscript::parse(&tr).map_err(|e| e.to_string())?;
            ck_eq!((ht.requests.len(), ht.responses.len()), (*nq, *nr), "messages");
            let mut b = TranscriptCommitConfigBuilder::new(&tr);
            b.default_kind(kind(0));
            DefaultHttpCommitter::default().commit_transcript(&mut b, &ht).map_err(|e| e.to_string())?;
            hx.trans(w.len() as u64);
            hx.state(&(i, nq, nr));
            same(&got(b, kind(0))?, &w)
        });
    });
    // The canned messages.
    use tlsn_data_fixtures::http::{request as q, response as p};
    for (n, req, src) in [
        ("GET_EMPTY", true, q::GET_EMPTY),
        ("GET_EMPTY_HEADER", true, q::GET_EMPTY_HEADER),
        ("GET_WITH_HEADER", true, q::GET_WITH_HEADER),
        ("POST_JSON", true, q::POST_JSON),
        ("OK_EMPTY", false, p::OK_EMPTY),
        ("OK_EMPTY_HEADER", false, p::OK_EMPTY_HEADER),
        ("OK_TEXT", false, p::OK_TEXT),
        ("OK_JSON", false, p::OK_JSON),
        ("OK_CHUNKED_TEXT", false, p::OK_CHUNKED_TEXT),
        ("OK_CHUNKED_JSON", false, p::OK_CHUNKED_JSON),
        ("OK_CHUNKED_TEXT_MULTI", false, p::OK_CHUNKED_TEXT_MULTI),
        ("OK_CHUNKED_JSON_MULTI", false, p::OK_CHUNKED_JSON_MULTI),
    ] {
        hx.case(|| format!("fixture/{n}"), || {
            let tr = if req { Transcript::new(src, []) } else { Transcript::new([], src) };
            let mut b = TranscriptCommitConfigBuilder::new(&tr);
            let mut c = DefaultHttpCommitter::default();
            let src = bytes::Bytes::from_static(src);
            if req {
                c.commit_request(&mut b, Direction::Sent, &parse_request(src).map_err(|e| e.to_string())?)
            } else {
                c.commit_response(&mut b, Direction::Received, &parse_response(src).map_err(|e| e.to_string())?)
            }
            .map_err(|e| e.to_string())?;
            b.build().map_err(|e| e.to_string())?;
            hx.trans(1);
            Ok(())
        });
    }
    // A commitment outside the transcript is refused, not cut short.
    for i in (0..sp.len()).step_by(hx.tier(9, 1)) {
        hx.case(|| format!("short/{i}"), || {
            let s = &sp[i];
            let m = build(s, 0);
            let short = m.bytes[..m.bytes.len() - 1].to_vec();
            let tr = if s.req { Transcript::new(short, vec![]) } else { Transcript::new(vec![], short) };
            let mut b = TranscriptCommitConfigBuilder::new(&tr);
            let mut c = DefaultHttpCommitter::default();
            let src = bytes::Bytes::from(m.bytes.clone());
            let r = if s.req {
                c.commit_request(&mut b, Direction::Sent, &parse_request(src).map_err(|e| e.to_string())?)
            } else {
                c.commit_response(&mut b, Direction::Received, &parse_response(src).map_err(|e| e.to_string())?)
            };
            ck!(r.is_err(), "committed past the end of the transcript");
            hx.trans(1);
            Ok(())
        });
    }
}
