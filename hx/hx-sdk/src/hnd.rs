//! S06: what a handler names is what is disclosed.
use crate::msg::*;
use hx_lib::*;
use std::ops::Range;
use tlsn_sdk_core::{compute_reveal, error::ErrorKind, Handler, HandlerAction, HandlerParams, HandlerPart, HandlerType, HashAlgorithm};

const PARTS: [HandlerPart; 8] = [
    HandlerPart::StartLine,
    HandlerPart::Protocol,
    HandlerPart::Method,
    HandlerPart::RequestTarget,
    HandlerPart::StatusCode,
    HandlerPart::Headers,
    HandlerPart::Body,
    HandlerPart::All,
];
const ACTIONS: [HandlerAction; 4] = [
    HandlerAction::Reveal,
    HandlerAction::Hash { algorithm: HashAlgorithm::Blake3 },
    HandlerAction::Hash { algorithm: HashAlgorithm::Sha256 },
    HandlerAction::Hash { algorithm: HashAlgorithm::Keccak256 },
];

/// The value at a path, with the pair holding it when it is a member of an object.
fn find<'a>(v: &'a Jv, path: &str) -> Option<(&'a Jv, Option<Range<usize>>)> {
    let (head, rest) = match path.split_once('.') {
        Some((h, r)) => (h, Some(r)),
        None => (path, None),
    };
    let (x, pair) = match &v.kind {
        Jk::Obj(es) => es.iter().find(|e| e.0 == head).map(|e| (&e.2, Some(e.1.clone())))?,
        Jk::Arr { elems, .. } => (elems.get(head.parse::<usize>().ok()?)?, None),
        Jk::Leaf => return None,
    };
    match rest {
        Some(r) => find(x, r),
        None => Some((x, pair)),
    }
}
/// Every match of a pattern made of plain text, found by looking at every place.
fn literal(raw: &[u8], pat: &str, fold: bool) -> Rs {
    let p = pat.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i + p.len() <= raw.len() {
        let w = &raw[i..i + p.len()];
        if w == p || fold && w.eq_ignore_ascii_case(p) {
            o.push(i..i + p.len());
            i += p.len();
        } else {
            i += 1;
        }
    }
    o
}
/// What the handler names: lists of ranges, or why it cannot be carried out.
fn want(m: &Msg, req: bool, h: &Handler) -> Result<Rs, ()> {
    let p = h.params.clone().unwrap_or_default();
    let (hk, hv) = (p.hide_key == Some(true), p.hide_value == Some(true));
    match h.part {
        HandlerPart::StartLine => Ok(vec![m.line.clone()]),
        HandlerPart::Protocol => Ok(minus(&[m.line.clone()], [m.a.clone(), m.b.clone()])),
        HandlerPart::Method if req => Ok(vec![m.a.clone()]),
        HandlerPart::RequestTarget if req => Ok(vec![m.b.clone()]),
        HandlerPart::StatusCode if !req => Ok(vec![m.a.clone()]),
        HandlerPart::Method | HandlerPart::RequestTarget | HandlerPart::StatusCode => Err(()),
        HandlerPart::Headers => {
            if hk && hv {
                return Err(());
            }
            let mut o = vec![];
            for x in &m.headers {
                if p.key.as_ref().is_some_and(|k| !k.eq_ignore_ascii_case(&x.name)) {
                    continue;
                }
                if hk {
                    o.extend(norm([x.value.clone()]));
                } else if hv {
                    o.extend(minus(&[x.span.clone()], [x.value.clone()]));
                } else {
                    o.push(x.span.clone());
                }
            }
            Ok(o)
        }
        HandlerPart::Body => {
            let Some(body) = &m.body else { return Ok(vec![]) };
            if p.content_type.as_deref() != Some("json") {
                return Ok(body.clone());
            }
            let (Some(j), Some(path)) = (&m.json, &p.path) else { return Err(()) };
            if hk && hv {
                return Err(());
            }
            let (v, pair) = find(j, path).ok_or(())?;
            Ok(match pair {
                Some(pair) if hv => minus(&m.map(&pair), m.map(&v.span)),
                Some(pair) if !hk => m.map(&pair),
                _ => m.map(&v.span),
            })
        }
        HandlerPart::All => {
            if p.content_type.as_deref() == Some("regex") {
                if let Some(re) = &p.regex {
                    if re.contains('(') {
                        return Err(());
                    }
                    return Ok(literal(&m.bytes, re, p.flags.as_deref().is_some_and(|f| f.contains('i'))));
                }
            }
            Ok(vec![m.span.clone()])
        }
    }
}
fn params(thorough: bool) -> Vec<(HandlerPart, Option<HandlerParams>)> {
    let mut o: Vec<(HandlerPart, Option<HandlerParams>)> = PARTS.iter().map(|p| (*p, None)).collect();
    let flags = [(None, None), (Some(true), None), (None, Some(true)), (Some(true), Some(true)), (Some(false), Some(true)), (Some(true), Some(false)), (Some(false), Some(false))];
    for (hide_key, hide_value) in flags {
        for key in [None, Some("Host"), Some("hOST"), Some("Empty"), Some("X-Dup"), Some("Cook"), Some("Cookie"), Some("Absent"), Some("content-type"), Some("")] {
            o.push((HandlerPart::Headers, Some(HandlerParams { key: key.map(Into::into), hide_key, hide_value, ..Default::default() })));
        }
        let paths = [
            "name", "ok", "id", "items", "items.0", "items.1.name", "items.1.n", "items.0.n", "items.2", "user.name", "user.deep.name", "user.deep", "user.deep.e", "0", "1", "1.0", "1.1", "2", "3", "4", "5.0", "esc", "e", "s", "nope", "user.nope", "name.x", "x",
        ];
        for path in paths {
            for t in ["json", "text"] {
                if t == "text" && path != "name" {
                    continue;
                }
                o.push((HandlerPart::Body, Some(HandlerParams { content_type: Some(t.into()), path: Some(path.into()), hide_key, hide_value, ..Default::default() })));
            }
        }
        o.push((HandlerPart::Body, Some(HandlerParams { content_type: Some("json".into()), hide_key, hide_value, ..Default::default() })));
        o.push((HandlerPart::Body, Some(HandlerParams { hide_key, hide_value, path: Some("name".into()), ..Default::default() })));
    }
    for re in ["HTTP/1", "o", "ab", "alice", "name", "NAME", "\r\n", "host", "Cookie", "zzz", "(", "a("] {
        for f in [None, Some(""), Some("g"), Some("i"), Some("gi"), Some("m"), Some("s"), Some("gims")] {
            o.push((HandlerPart::All, Some(HandlerParams { content_type: Some("regex".into()), regex: Some(re.into()), flags: f.map(Into::into), ..Default::default() })));
        }
    }
    o.push((HandlerPart::All, Some(HandlerParams { content_type: Some("regex".into()), ..Default::default() })));
    o.push((HandlerPart::All, Some(HandlerParams { regex: Some("name".into()), ..Default::default() })));
    // Parameters that are another part's business change nothing.
    for p in PARTS {
        if thorough || !matches!(p, HandlerPart::Headers) {
            o.push((p, Some(HandlerParams { key: Some("Host".into()), ..Default::default() })));
        }
    }
    o
}
fn key(h: &Handler) -> String {
    format!("{:?}", h).replace("Some", "").replace("None", "-")
}
fn check(hx: &Hx, rq: &Msg, rs: &Msg, hs: &[Handler]) -> R {
    let got = compute_reveal(&rq.bytes, &rs.bytes, hs);
    hx.trans(hs.len() as u64);
    let mut exp: Vec<Vec<Range<usize>>> = vec![];
    for h in hs {
        let sent = h.handler_type == HandlerType::Sent;
        match want(if sent { rq } else { rs }, sent, h) {
            Ok(r) => exp.push(r),
            Err(()) => {
                let e = got.err().ok_or_else(|| format!("carried out although it cannot be: {}", key(h)))?;
                ck_eq!(e.kind(), ErrorKind::Handler, "{e}");
                return Ok(());
            }
        }
    }
    let got = got.map_err(|e| format!("refused: {e}"))?;
    let pick = |t: HandlerType| hs.iter().zip(&exp).filter(move |x| x.0.handler_type == t);
    for (t, rv, ann, cm) in [
        (HandlerType::Sent, &got.reveal.sent, &got.sent_ranges_with_handlers, got.commit.as_ref().map(|c| &c.sent)),
        (HandlerType::Recv, &got.reveal.recv, &got.recv_ranges_with_handlers, got.commit.as_ref().map(|c| &c.recv)),
    ] {
        let want_rv: Rs = pick(t).filter(|x| x.0.action == HandlerAction::Reveal).flat_map(|x| x.1.clone()).collect();
        ck_eq!(rv, &want_rv, "{t:?}: revealed ranges");
        let want_cm: Vec<(Range<usize>, HashAlgorithm)> = pick(t)
            .filter_map(|x| match x.0.action {
                HandlerAction::Hash { algorithm } => Some(x.1.iter().map(move |r| (r.clone(), algorithm))),
                _ => None,
            })
            .flatten()
            .collect();
        let got_cm: Vec<(Range<usize>, HashAlgorithm)> = cm.into_iter().flatten().map(|c| (c.range(), c.algorithm)).collect();
        ck_eq!(got_cm, want_cm, "{t:?}: committed ranges");
        let want_an: Vec<(Range<usize>, Handler)> = pick(t).flat_map(|x| x.1.iter().map(|r| (r.clone(), x.0.clone()))).collect();
        let got_an: Vec<(Range<usize>, Handler)> = ann.iter().map(|a| (a.start..a.end, a.handler.clone())).collect();
        ck!(got_an == want_an, "{t:?}: annotated ranges {:?}, expected {:?}", got_an.iter().map(|x| &x.0).collect::<Vec<_>>(), want_an.iter().map(|x| &x.0).collect::<Vec<_>>());
    }
    ck!(got.reveal.server_identity, "the server's identity is not revealed");
    let any = hs.iter().zip(&exp).any(|x| x.0.action != HandlerAction::Reveal && !x.1.is_empty());
    ck_eq!(got.commit.is_some(), any, "something to commit");
    Ok(())
}
pub fn s06(hx: &Hx) {
    let sp = specs(hx.thorough());
    let (rqs, rss): (Vec<_>, Vec<_>) = sp.iter().map(|s| build(s, 0)).zip(&sp).partition(|x| x.1.req);
    let ps = params(hx.thorough());
    hx.note("messages", format!("{} requests, {} responses, {} handler shapes", rqs.len(), rss.len(), ps.len()));
    // Every handler alone, on every message.
    let n = rqs.len().max(rss.len());
    hx.par(&(0..n).collect::<Vec<_>>(), |&i| {
        let (rq, rs) = (&rqs[i % rqs.len()].0, &rss[i % rss.len()].0);
        for (k, (part, params)) in ps.iter().enumerate() {
            for t in [HandlerType::Sent, HandlerType::Recv] {
                let action = ACTIONS[(i + k) % 4];
                let h = Handler { handler_type: t, part: *part, action, params: params.clone() };
                hx.case(|| format!("one/{i}/{}", key(&h)), || {
                    hx.state(&(i, k, t == HandlerType::Sent));
                    check(hx, rq, rs, std::slice::from_ref(&h))
                });
            }
        }
    });
    // Handlers together: the outcome is the list of their outcomes, in order.
    let mut few: Vec<Handler> = vec![];
    for (k, (part, params)) in ps.iter().enumerate() {
        for t in [HandlerType::Sent, HandlerType::Recv] {
            let pick = match part {
                HandlerPart::Headers => k % 9 == 0 || params.is_none(),
                HandlerPart::Body => k % 17 == 0 || params.is_none(),
                HandlerPart::All => k % 13 == 0 || params.is_none(),
                _ => true,
            };
            if pick {
                for action in &ACTIONS[..hx.tier(2, 3)] {
                    few.push(Handler { handler_type: t, part: *part, action: *action, params: params.clone() });
                }
            }
        }
    }
    let picks: Vec<usize> = (0..n).step_by(hx.tier(23, 7)).collect();
    hx.par(&picks, |&i| {
        let (rq, rs) = (&rqs[(i * 5) % rqs.len()].0, &rss[i % rss.len()].0);
        // Those that can be carried out on this message, and two that cannot.
        let ok: Vec<&Handler> = few.iter().filter(|h| { let s = h.handler_type == HandlerType::Sent; want(if s { rq } else { rs }, s, h).is_ok() }).collect();
        let bad: Vec<&Handler> = few.iter().filter(|h| { let s = h.handler_type == HandlerType::Sent; want(if s { rq } else { rs }, s, h).is_err() }).take(2).collect();
        let all: Vec<&Handler> = ok.into_iter().chain(bad).collect();
        hx.case(|| format!("none/{i}"), || check(hx, rq, rs, &[]));
        for a in 0..all.len() {
            for b in 0..all.len() {
                hx.case(|| format!("two/{i}/{}/{}", key(all[a]), key(all[b])), || {
                    hx.state(&(i, a, b));
                    check(hx, rq, rs, &[all[a].clone(), all[b].clone()])
                });
                if hx.thorough() && i % 21 == 0 {
                    for c in (0..all.len()).step_by(3) {
                        hx.case(|| format!("three/{i}/{a}/{b}/{c}"), || check(hx, rq, rs, &[all[a].clone(), all[b].clone(), all[c].clone()]));
                    }
                }
            }
        }
    });
    // A message that is not complete is never taken apart.
    let h = |t| Handler { handler_type: t, part: HandlerPart::All, action: HandlerAction::Reveal, params: None };
    let (rq, rs) = (&rqs[0].0, &rss[0].0);
    for i in (0..n).step_by(hx.tier(11, 3)) {
        for (m, sent) in [(&rqs[i % rqs.len()].0, true), (&rss[i % rss.len()].0, false)] {
            for cut in 0..m.bytes.len() {
                hx.case(|| format!("cut/{i}/{sent}/{cut}"), || {
                    let (a, b) = if sent { (&m.bytes[..cut], &rs.bytes[..]) } else { (&rq.bytes[..], &m.bytes[..cut]) };
                    let e = compute_reveal(a, b, &[h(HandlerType::Sent), h(HandlerType::Recv)]).err().ok_or("accepted an incomplete message")?;
                    ck_eq!(e.kind(), ErrorKind::Handler, "{e}");
                    hx.trans(1);
                    Ok(())
                });
            }
        }
    }
    // The wire format of a handler.
    for (part, params) in &ps {
        for t in [HandlerType::Sent, HandlerType::Recv] {
            for action in ACTIONS {
                let h = Handler { handler_type: t, part: *part, action, params: params.clone() };
                hx.case(|| format!("wire/{}", key(&h)), || {
                    let v = serde_json::to_value(&h).map_err(|e| e.to_string())?;
                    ck_eq!(v, wire(&h), "wire format");
                    let back: Handler = serde_json::from_value(v).map_err(|e| e.to_string())?;
                    ck!(back == h, "decoded {back:?}");
                    hx.trans(1);
                    Ok(())
                });
            }
        }
    }
}
/// What plugins write.
fn wire(h: &Handler) -> serde_json::Value {
    use serde_json::{json, Map};
    let part = match h.part {
        HandlerPart::StartLine => "START_LINE",
        HandlerPart::Protocol => "PROTOCOL",
        HandlerPart::Method => "METHOD",
        HandlerPart::RequestTarget => "REQUEST_TARGET",
        HandlerPart::StatusCode => "STATUS_CODE",
        HandlerPart::Headers => "HEADERS",
        HandlerPart::Body => "BODY",
        HandlerPart::All => "ALL",
    };
    let action = match h.action {
        HandlerAction::Reveal => json!({"kind": "REVEAL"}),
        HandlerAction::Hash { algorithm } => json!({"kind": "HASH", "algorithm": match algorithm {
            HashAlgorithm::Blake3 => "BLAKE3",
            HashAlgorithm::Sha256 => "SHA256",
            HashAlgorithm::Keccak256 => "KECCAK256",
        }}),
    };
    let mut o = Map::new();
    o.insert("type".into(), json!(if h.handler_type == HandlerType::Sent { "SENT" } else { "RECV" }));
    o.insert("part".into(), json!(part));
    o.insert("action".into(), action);
    if let Some(p) = &h.params {
        let mut q = Map::new();
        let mut set = |k: &str, v: Option<serde_json::Value>| {
            if let Some(v) = v {
                q.insert(k.into(), v);
            }
        };
        set("key", p.key.as_ref().map(|x| json!(x)));
        set("hideKey", p.hide_key.map(|x| json!(x)));
        set("hideValue", p.hide_value.map(|x| json!(x)));
        set("type", p.content_type.as_ref().map(|x| json!(x)));
        set("path", p.path.as_ref().map(|x| json!(x)));
        set("regex", p.regex.as_ref().map(|x| json!(x)));
        set("flags", p.flags.as_ref().map(|x| json!(x)));
        o.insert("params".into(), q.into());
    }
    o.into()
}
