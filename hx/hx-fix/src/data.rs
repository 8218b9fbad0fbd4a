//! S05: the canned messages, read one byte at a time by an HTTP/1.1 reader.
use hx_lib::*;
use tlsn_data_fixtures::http::{request as rq, response as rs};

#[derive(Clone, Debug, PartialEq)]
enum St {
    Start(Vec<u8>),
    Head(Vec<u8>),
    Fixed(usize),
    Size(Vec<u8>),
    Chunk(usize),
    ChunkEnd(Vec<u8>),
    Trailer(Vec<u8>),
    Done,
}
#[derive(Default, Debug)]
struct Msg {
    start: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    chunks: usize,
}
/// One transition of the reader.
fn step(s: St, b: u8, m: &mut Msg) -> Result<St, String> {
    let line = |mut v: Vec<u8>| -> Result<(Vec<u8>, bool), String> {
        v.push(b);
        if v.ends_with(b"\r\n") {
            v.truncate(v.len() - 2);
            return Ok((v, true));
        }
        if b == b'\n' {
            return Err("bare line feed".into());
        }
        Ok((v, false))
    };
    Ok(match s {
        St::Start(v) => {
            let (v, end) = line(v)?;
            if end {
                m.start = String::from_utf8(v).map_err(|e| e.to_string())?;
                St::Head(vec![])
            } else {
                St::Start(v)
            }
        }
        St::Head(v) => match line(v)? {
            (v, false) => St::Head(v),
            (v, true) if !v.is_empty() => {
                let l = String::from_utf8(v).map_err(|e| e.to_string())?;
                let (k, x) = l.split_once(':').ok_or("header without colon")?;
                if k.is_empty() || k.contains(' ') {
                    return Err("header name".into());
                }
                m.headers.push((k.to_ascii_lowercase(), x.trim().into()));
                St::Head(vec![])
            }
            _ => {
                let get = |k: &str| m.headers.iter().find(|h| h.0 == k).map(|h| h.1.clone());
                match (get("transfer-encoding"), get("content-length")) {
                    (Some(t), None) if t == "chunked" => St::Size(vec![]),
                    (None, Some(n)) => match n.parse().map_err(|_| "length")? {
                        0 => St::Done,
                        n => St::Fixed(n),
                    },
                    (None, None) => St::Done,
                    x => return Err(format!("framing {x:?}")),
                }
            }
        },
        St::Fixed(n) => {
            m.body.push(b);
            if n == 1 { St::Done } else { St::Fixed(n - 1) }
        }
        St::Size(v) => match line(v)? {
            (v, false) => St::Size(v),
            (v, true) => match usize::from_str_radix(std::str::from_utf8(&v).map_err(|_| "size")?, 16).map_err(|_| "size")? {
                0 => St::Trailer(vec![]),
                n => {
                    m.chunks += 1;
                    St::Chunk(n)
                }
            },
        },
        St::Chunk(n) => {
            m.body.push(b);
            if n == 1 { St::ChunkEnd(vec![]) } else { St::Chunk(n - 1) }
        }
        St::ChunkEnd(v) => match line(v)? {
            (v, false) if v == b"\r" => St::ChunkEnd(v),
            (v, true) if v.is_empty() => St::Size(vec![]),
            _ => return Err("chunk end".into()),
        },
        St::Trailer(v) => match line(v)? {
            (v, false) if v == b"\r" => St::Trailer(v),
            (v, true) if v.is_empty() => St::Done,
            _ => return Err("trailer".into()),
        },
        St::Done => return Err("data after the end".into()),
    })
}

pub fn s05(h: &Hx) {
    h.note("bounds", "every published message, after every byte");
    // (name, bytes, start line, header that must be there, body kind, chunk count or 0)
    let all: Vec<(&str, &[u8], &str, Option<(&str, &str)>, &str, std::ops::RangeInclusive<usize>)> = vec![
        ("GET_EMPTY", rq::GET_EMPTY, "GET / HTTP/1.1", None, "none", 0..=0),
        ("GET_EMPTY_HEADER", rq::GET_EMPTY_HEADER, "GET / HTTP/1.1", Some(("", "")), "none", 0..=0),
        ("GET_WITH_HEADER", rq::GET_WITH_HEADER, "GET / HTTP/1.1", Some(("host", "localhost")), "none", 0..=0),
        ("POST_JSON", rq::POST_JSON, "POST", Some(("content-type", "application/json")), "json", 0..=0),
        ("OK_EMPTY", rs::OK_EMPTY, "HTTP/1.1 200 OK", None, "none", 0..=0),
        ("OK_EMPTY_HEADER", rs::OK_EMPTY_HEADER, "HTTP/1.1 200 OK", Some(("", "")), "none", 0..=0),
        ("OK_TEXT", rs::OK_TEXT, "HTTP/1.1 200 OK", Some(("content-type", "text/plain")), "text", 0..=0),
        ("OK_JSON", rs::OK_JSON, "HTTP/1.1 200 OK", Some(("content-type", "application/json")), "json", 0..=0),
        ("OK_CHUNKED_TEXT", rs::OK_CHUNKED_TEXT, "HTTP/1.1 200 OK", Some(("content-type", "text/plain")), "text", 1..=99),
        ("OK_CHUNKED_JSON", rs::OK_CHUNKED_JSON, "HTTP/1.1 200 OK", Some(("content-type", "application/json")), "json", 1..=99),
        ("OK_CHUNKED_TEXT_MULTI", rs::OK_CHUNKED_TEXT_MULTI, "HTTP/1.1 200 OK", Some(("content-type", "text/plain")), "text", 2..=99),
        ("OK_CHUNKED_JSON_MULTI", rs::OK_CHUNKED_JSON_MULTI, "HTTP/1.1 200 OK", Some(("content-type", "application/json")), "json", 2..=99),
    ];
    for (name, bytes, start, header, kind, chunks) in &all {
        h.case(|| name.to_string(), || {
            let mut m = Msg::default();
            let mut s = St::Start(vec![]);
            for (i, b) in bytes.iter().enumerate() {
                if s == St::Done {
                    // a file may end in one line break of its own
                    ck_eq!(&bytes[i..], b"\r\n", "{name}: data after the end");
                    break;
                }
                s = step(s, *b, &mut m).map_err(|e| format!("{name}, byte {i}: {e}"))?;
                h.state(&(name, i, format!("{s:?}")));
                h.trans(1);
            }
            ck_eq!(s, St::Done, "{name} is complete");
            ck!(m.start.starts_with(start), "{name}: start line {}", m.start);
            match header {
                Some(("", "")) => ck!(m.headers.iter().any(|h| h.1.is_empty()), "{name} has an empty header: {:?}", m.headers),
                Some((k, v)) => ck!(m.headers.iter().any(|h| h.0 == *k && h.1 == *v), "{name} has {k}: {v}: {:?}", m.headers),
                None => ck!(m.headers.iter().all(|h| !h.1.is_empty()), "{name} has no empty header"),
            }
            match *kind {
                "none" => ck!(m.body.is_empty(), "{name} has no body"),
                "json" => {
                    let v: serde_json::Value = serde_json::from_slice(&m.body).map_err(|e| format!("{name}: {e}"))?;
                    ck!(v.is_object(), "{name} is an object");
                }
                _ => ck!(!m.body.is_empty() && m.body.is_ascii(), "{name} has text"),
            }
            ck!(chunks.contains(&m.chunks), "{name} has {} chunks", m.chunks);
            Ok(())
        });
    }
}
