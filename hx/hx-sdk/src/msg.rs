//! HTTP messages built from their parts, with the place of every part known.
use std::ops::Range;

pub type Rs = Vec<Range<usize>>;
/// Union, sorted, adjacent ranges merged.
pub fn norm(v: impl IntoIterator<Item = Range<usize>>) -> Rs {
    let mut v: Vec<_> = v.into_iter().filter(|r| !r.is_empty()).collect();
    v.sort_by_key(|r| r.start);
    let mut o: Rs = vec![];
    for r in v {
        match o.last_mut() {
            Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
            _ => o.push(r),
        }
    }
    o
}
pub fn minus(a: &[Range<usize>], b: impl IntoIterator<Item = Range<usize>>) -> Rs {
    let cut: std::collections::BTreeSet<usize> = b.into_iter().flatten().collect();
    norm(a.iter().cloned().flatten().filter(|i| !cut.contains(i)).map(|i| i..i + 1))
}

/// JSON values.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum J {
    /// Anything without structure, as written (strings with their quotes).
    Leaf(&'static str),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
/// A JSON value in its text, offsets into the text.
#[derive(Clone, Debug)]
pub struct Jv {
    pub span: Range<usize>,
    pub kind: Jk,
}
#[derive(Clone, Debug)]
pub enum Jk {
    Leaf,
    Arr { elems: Vec<Jv>, seps: Vec<Range<usize>> },
    /// (key, span of the pair, value)
    Obj(Vec<(&'static str, Range<usize>, Jv)>),
}
/// Writes `j`; `ws` picks the whitespace style.
pub fn write(j: &J, ws: u8, out: &mut Vec<u8>) -> Jv {
    let gap = |out: &mut Vec<u8>| match ws {
        1 => out.push(b' '),
        2 => out.extend(b"\r\n\t"),
        _ => {}
    };
    let s = out.len();
    match j {
        J::Leaf(t) => {
            out.extend(t.as_bytes());
            let q = t.starts_with('"') as usize;
            Jv { span: s + q..out.len() - q, kind: Jk::Leaf }
        }
        J::Arr(v) => {
            out.push(b'[');
            let (mut elems, mut seps) = (vec![], vec![]);
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    seps.push(out.len()..out.len() + 1);
                    out.push(b',');
                }
                gap(out);
                elems.push(write(e, ws, out));
                if ws == 2 {
                    gap(out);
                }
            }
            out.push(b']');
            Jv { span: s..out.len(), kind: Jk::Arr { elems, seps } }
        }
        J::Obj(v) => {
            out.push(b'{');
            let mut elems = vec![];
            for (i, (k, e)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                gap(out);
                let ks = out.len();
                out.push(b'"');
                out.extend(k.as_bytes());
                out.push(b'"');
                if ws == 2 {
                    gap(out);
                }
                out.push(b':');
                gap(out);
                let val = write(e, ws, out);
                let q = matches!(e, J::Leaf(t) if t.starts_with('"')) as usize;
                elems.push((*k, ks..val.span.end + q, val));
                if ws == 2 {
                    gap(out);
                }
            }
            out.push(b'}');
            Jv { span: s..out.len(), kind: Jk::Obj(elems) }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bd {
    None,
    Text(&'static str),
    Json(J, u8),
}
#[derive(Clone, Debug)]
pub struct Spec {
    /// Request line parts (method, target), or status code and reason.
    pub a: &'static str,
    pub b: &'static str,
    pub req: bool,
    pub ver: &'static str,
    /// (name, what stands between the colon and the value, value, what follows it)
    pub headers: Vec<(&'static str, &'static str, &'static str, &'static str)>,
    pub body: Bd,
    /// Chunk sizes; empty for Content-Length.
    pub chunks: Vec<usize>,
    /// Name of the content type header, as written.
    pub ct: &'static str,
}
#[derive(Clone, Debug)]
pub struct Hd {
    pub name: String,
    pub span: Range<usize>,
    pub value: Range<usize>,
}
#[derive(Clone, Debug)]
pub struct Msg {
    pub bytes: Vec<u8>,
    pub span: Range<usize>,
    pub line: Range<usize>,
    pub a: Range<usize>,
    pub b: Range<usize>,
    pub headers: Vec<Hd>,
    pub body: Option<Rs>,
    pub json: Option<Jv>,
    /// Where each byte of the decoded body stands.
    pub at: Vec<usize>,
}
impl Msg {
    /// Where part of the decoded body stands.
    pub fn map(&self, r: &Range<usize>) -> Rs {
        norm(self.at[r.clone()].iter().map(|&i| i..i + 1))
    }
}
pub fn build(s: &Spec, base: usize) -> Msg {
    let mut o = vec![];
    let mut put = |o: &mut Vec<u8>, t: &[u8]| {
        let st = base + o.len();
        o.extend(t);
        st..base + o.len()
    };
    let (a, b);
    if s.req {
        a = put(&mut o, s.a.as_bytes());
        put(&mut o, b" ");
        b = put(&mut o, s.b.as_bytes());
        put(&mut o, format!(" {}\r\n", s.ver).as_bytes());
    } else {
        put(&mut o, format!("{} ", s.ver).as_bytes());
        a = put(&mut o, s.a.as_bytes());
        put(&mut o, b" ");
        b = put(&mut o, s.b.as_bytes());
        put(&mut o, b"\r\n");
    }
    let line = base..base + o.len();
    let mut text = vec![];
    let mut json = None;
    match &s.body {
        Bd::None => {}
        Bd::Text(t) => text.extend(t.as_bytes()),
        Bd::Json(j, ws) => json = Some(write(j, *ws, &mut text)),
    }
    let mut hs: Vec<(String, String, String, String)> = s.headers.iter().map(|h| (h.0.into(), h.1.into(), h.2.into(), h.3.into())).collect();
    if s.body != Bd::None {
        let t = if json.is_some() { "application/json" } else { "text/plain" };
        hs.insert(hs.len() / 2, (s.ct.into(), " ".into(), t.into(), "".into()));
        if !s.chunks.is_empty() {
            hs.push(("Transfer-Encoding".into(), " ".into(), "chunked".into(), "".into()));
        }
    }
    if !s.req || s.body != Bd::None {
        if s.chunks.is_empty() || s.body == Bd::None {
            hs.push(("Content-Length".into(), " ".into(), text.len().to_string(), "".into()));
        }
    }
    let mut headers = vec![];
    for (n, g, v, t) in &hs {
        let st = base + o.len();
        put(&mut o, n.as_bytes());
        put(&mut o, b":");
        put(&mut o, g.as_bytes());
        let value = put(&mut o, v.as_bytes());
        put(&mut o, t.as_bytes());
        put(&mut o, b"\r\n");
        headers.push(Hd { name: n.clone(), span: st..base + o.len(), value });
    }
    put(&mut o, b"\r\n");
    let mut at: Vec<usize> = vec![];
    if !text.is_empty() {
        if s.chunks.is_empty() {
            at.extend(put(&mut o, &text));
        } else {
            let mut p = 0;
            let mut i = 0;
            while p < text.len() {
                let n = s.chunks[i % s.chunks.len()].min(text.len() - p);
                put(&mut o, format!("{n:x}\r\n").as_bytes());
                at.extend(put(&mut o, &text[p..p + n]));
                put(&mut o, b"\r\n");
                p += n;
                i += 1;
            }
            put(&mut o, b"0\r\n\r\n");
        }
    }
    let body = if at.is_empty() { None } else { Some(norm(at.iter().map(|&i| i..i + 1))) };
    Msg { span: base..base + o.len(), bytes: o, line, a, b, headers, body, json, at }
}

pub fn jsons() -> Vec<J> {
    use J::*;
    vec![
        Obj(vec![("name", Leaf("\"alice\"")), ("ok", Leaf("true")), ("id", Leaf("42"))]),
        Obj(vec![
            ("items", Arr(vec![Obj(vec![("name", Leaf("\"one\"")), ("n", Leaf("1"))]), Obj(vec![("name", Leaf("\"two\"")), ("n", Leaf("null"))])])),
            ("name", Leaf("\"items\"")),
            ("user", Obj(vec![("name", Leaf("\"bob\"")), ("deep", Obj(vec![("name", Leaf("-1.5e3")), ("e", Leaf("\"\""))]))])),
        ]),
        Arr(vec![Leaf("1"), Leaf("\"a,b\""), Arr(vec![]), Obj(vec![]), Leaf("false"), Arr(vec![Leaf("\"x\"")])]),
        Obj(vec![("0", Leaf("\"zero\"")), ("1", Arr(vec![Leaf("10"), Leaf("11")])), ("esc", Leaf("\"q\\\"}],\\\\\"")), ("e", Obj(vec![])), ("s", Leaf("\"\""))]),
        Leaf("\"just text\""),
        Leaf("7"),
        Obj(vec![]),
        Arr(vec![]),
        Obj(vec![("name", Leaf("\"first\"")), ("x", Leaf("0")), ("name", Leaf("\"second\""))]),
    ]
}
pub fn specs(thorough: bool) -> Vec<Spec> {
    let hsets: Vec<Vec<(&'static str, &'static str, &'static str, &'static str)>> = vec![
        vec![],
        vec![("Host", " ", "example.com", ""), ("Authorization", " ", "Bearer t-1: x", "")],
        vec![("host", "", "a", ""), ("Empty", " ", "", ""), ("X-Dup", " ", "one", " "), ("Host", "  ", "b:c", "\t"), ("x-dup", " ", "one", "")],
        vec![("Empty", "", "", ""), ("Cookie", " ", "Cookie: Cookie", ""), ("Cook", " ", "ie", "")],
    ];
    let mut bodies = vec![Bd::None, Bd::Text("hello"), Bd::Text("HTTP/1.1 200 OK\r\n\r\n{\"name\": 1}")];
    for (i, j) in jsons().into_iter().enumerate() {
        for ws in 0..3 {
            if thorough || ws == i as u8 % 3 || i < 2 {
                bodies.push(Bd::Json(j.clone(), ws));
            }
        }
    }
    let mut out = vec![];
    for (hi, headers) in hsets.iter().enumerate() {
        for (bi, body) in bodies.iter().enumerate() {
            let chs: Vec<Vec<usize>> = if *body == Bd::None { vec![vec![]] } else { vec![vec![], vec![100_000], vec![1], vec![3, 5], vec![16, 1, 9]] };
            for (ci, chunks) in chs.into_iter().enumerate() {
                if !thorough && ci > 1 && (ci + hi + bi) % 3 != 0 {
                    continue;
                }
                for req in [true, false] {
                    let k = hi + bi + ci;
                    let (a, b) = if req {
                        [("GET", "/"), ("POST", "/api/users?name=alice&b=GET"), ("DELETE", "*"), ("P", "http://h:1/x")][k % 4]
                    } else {
                        [("200", "OK"), ("404", "Not Found"), ("500", "500"), ("201", "HTTP/1.1")][k % 4]
                    };
                    let ct = ["Content-Type", "content-type"][k % 2];
                    out.push(Spec { a, b, req, ver: ["HTTP/1.1", "HTTP/1.0"][(k / 2) % 2], headers: headers.clone(), body: body.clone(), chunks: chunks.clone(), ct });
                }
            }
        }
    }
    out
}
