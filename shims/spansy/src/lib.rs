//! Stand-in for the `spansy` crate (a git dependency that is not in the offline cache):
//! HTTP/1.1 and JSON parsing that keeps the byte ranges of every part.
use bytes::Bytes;
use rangeset::{iter::IntoRangeIterator, set::RangeSet};
use std::{fmt, ops::Range};

/// Backing storage of a parsed document.
pub trait Store: Clone + fmt::Debug {
    fn bytes(&self) -> &[u8];
}
impl Store for Bytes {
    fn bytes(&self) -> &[u8] {
        self
    }
}
impl Store for &[u8] {
    fn bytes(&self) -> &[u8] {
        self
    }
}

#[derive(Debug, Clone)]
pub struct ParseError(pub String);
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "parsing error: {}", self.0)
    }
}
impl std::error::Error for ParseError {}
fn bad<T>(m: impl Into<String>) -> Result<T, ParseError> {
    Err(ParseError(m.into()))
}

/// Part of the source, by byte ranges.
#[derive(Debug, Clone)]
pub struct View<S = Bytes> {
    src: S,
    idx: RangeSet<usize>,
}
impl<S: Store> View<S> {
    fn new(src: &S, r: Vec<Range<usize>>) -> Self {
        View { src: src.clone(), idx: RangeSet::from(r) }
    }
    pub fn view(&self) -> &View<S> {
        self
    }
    pub fn indices(&self) -> &RangeSet<usize> {
        &self.idx
    }
    pub fn is_empty(&self) -> bool {
        self.idx.is_empty()
    }
    pub fn len(&self) -> usize {
        self.idx.len()
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.idx.iter().flat_map(|r| self.src.bytes()[r].to_vec()).collect()
    }
    fn minus(&self, others: impl IntoIterator<Item = RangeSet<usize>>) -> View<S> {
        let mut idx = self.idx.clone();
        for o in others {
            idx.difference_mut(&o);
        }
        View { src: self.src.clone(), idx }
    }
}
impl<S: Store> IntoRangeIterator<usize> for View<S> {
    fn into_ranges(self) -> Vec<Range<usize>> {
        self.idx.into_ranges()
    }
}
impl<S: Store> IntoRangeIterator<usize> for &View<S> {
    fn into_ranges(self) -> Vec<Range<usize>> {
        (&self.idx).into_ranges()
    }
}

macro_rules! spanned {
    ($($t:ident),*) => {$(
        impl<S: Store> $t<S> {
            pub fn view(&self) -> &View<S> {
                &self.view
            }
            pub fn indices(&self) -> &RangeSet<usize> {
                &self.view.idx
            }
        }
        impl<S: Store> IntoRangeIterator<usize> for &$t<S> {
            fn into_ranges(self) -> Vec<Range<usize>> {
                (&self.view.idx).into_ranges()
            }
        }
    )*};
}
macro_rules! text {
    ($($t:ident),*) => {
        $(#[derive(Debug, Clone)]
        pub struct $t<S = Bytes> {
            pub(crate) view: View<S>,
            pub(crate) text: std::string::String,
        }
        impl<S: Store> $t<S> {
            pub fn as_str(&self) -> &str {
                &self.text
            }
        }
        impl<S: Store> PartialEq<str> for $t<S> {
            fn eq(&self, o: &str) -> bool {
                self.text == o
            }
        }
        impl<S: Store> PartialEq<&str> for $t<S> {
            fn eq(&self, o: &&str) -> bool {
                self.text == *o
            }
        })*
        spanned!($($t),*);
    };
}

pub mod json {
    use super::*;
    text!(JsonKey, String, Number, Bool, Null);
    #[derive(Debug, Clone)]
    pub struct KeyValue<S = Bytes> {
        pub(crate) view: View<S>,
        pub key: JsonKey<S>,
        pub value: JsonValue<S>,
    }
    #[derive(Debug, Clone)]
    pub struct Object<S = Bytes> {
        pub(crate) view: View<S>,
        pub elems: Vec<KeyValue<S>>,
    }
    #[derive(Debug, Clone)]
    pub struct Array<S = Bytes> {
        pub(crate) view: View<S>,
        pub elems: Vec<JsonValue<S>>,
        pub(crate) seps: Vec<RangeSet<usize>>,
    }
    spanned!(KeyValue, Object, Array);
    #[derive(Debug, Clone)]
    pub enum JsonValue<S = Bytes> {
        Null(Null<S>),
        Bool(Bool<S>),
        Number(Number<S>),
        String(String<S>),
        Array(Array<S>),
        Object(Object<S>),
    }
    impl<S: Store> KeyValue<S> {
        pub fn without_value(&self) -> View<S> {
            self.view.minus([self.value.indices().clone()])
        }
    }
    impl<S: Store> Object<S> {
        pub fn without_pairs(&self) -> View<S> {
            self.view.minus(self.elems.iter().map(|e| e.view.idx.clone()))
        }
    }
    impl<S: Store> Array<S> {
        pub fn without_values(&self) -> View<S> {
            self.view.minus(self.elems.iter().map(|e| e.indices().clone()).chain(self.seps.clone()))
        }
    }
    impl<S: Store> JsonValue<S> {
        pub fn view(&self) -> &View<S> {
            match self {
                JsonValue::Null(v) => &v.view,
                JsonValue::Bool(v) => &v.view,
                JsonValue::Number(v) => &v.view,
                JsonValue::String(v) => &v.view,
                JsonValue::Array(v) => &v.view,
                JsonValue::Object(v) => &v.view,
            }
        }
        pub fn indices(&self) -> &RangeSet<usize> {
            &self.view().idx
        }
        pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
            let (head, rest) = match path.split_once('.') {
                Some((h, r)) => (h, Some(r)),
                None => (path, None),
            };
            let v = match self {
                JsonValue::Object(o) => &o.elems.iter().find(|e| e.key == head)?.value,
                JsonValue::Array(a) => a.elems.get(head.parse::<usize>().ok()?)?,
                _ => return None,
            };
            match rest {
                Some(r) => v.get(r),
                None => Some(v),
            }
        }
    }
    impl<S: Store> IntoRangeIterator<usize> for &JsonValue<S> {
        fn into_ranges(self) -> Vec<Range<usize>> {
            self.indices().into_ranges()
        }
    }
    #[derive(Debug, Clone)]
    pub struct Document<S = Bytes> {
        pub root: JsonValue<S>,
    }
    impl<S: Store> Document<S> {
        pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
            self.root.get(path)
        }
        pub fn view(&self) -> &View<S> {
            self.root.view()
        }
    }
    /// Visitor over a value.
    pub trait JsonVisit<S: Store> {
        fn visit_value(&mut self, _v: &JsonValue<S>) {}
    }

    /// Text decoded from the source together with where each byte came from.
    pub(crate) struct Src<'a, S> {
        pub src: &'a S,
        pub text: Vec<u8>,
        pub at: Vec<usize>,
    }
    impl<S: Store> Src<'_, S> {
        fn view(&self, r: Range<usize>) -> View<S> {
            View::new(self.src, self.at[r].iter().map(|&i| i..i + 1).collect())
        }
        fn ws(&self, p: &mut usize) {
            while self.text.get(*p).is_some_and(|b| b" \t\r\n".contains(b)) {
                *p += 1;
            }
        }
        fn peek(&self, p: usize) -> u8 {
            self.text.get(p).copied().unwrap_or(0)
        }
        fn expect(&self, p: &mut usize, b: u8) -> Result<(), ParseError> {
            if self.peek(*p) != b {
                return bad(format!("expected {:?} at {p}", b as char));
            }
            *p += 1;
            Ok(())
        }
        /// Contents of a string, quotes excluded.
        fn string(&self, p: &mut usize) -> Result<Range<usize>, ParseError> {
            self.expect(p, b'"')?;
            let s = *p;
            loop {
                match self.text.get(*p) {
                    None => return bad("unterminated string"),
                    Some(b'"') => break,
                    Some(b'\\') => *p += 2,
                    Some(b) if *b < 0x20 => return bad("control character in string"),
                    Some(_) => *p += 1,
                }
            }
            *p += 1;
            Ok(s..*p - 1)
        }
        fn text(&self, r: Range<usize>) -> Result<std::string::String, ParseError> {
            std::string::String::from_utf8(self.text[r].to_vec()).or_else(|_| bad("invalid utf-8"))
        }
        fn value(&self, p: &mut usize) -> Result<JsonValue<S>, ParseError> {
            let s = *p;
            match self.peek(*p) {
                b'"' => {
                    let r = self.string(p)?;
                    Ok(JsonValue::String(String { text: self.text(r.clone())?, view: self.view(r) }))
                }
                b'{' => {
                    *p += 1;
                    let mut elems = vec![];
                    self.ws(p);
                    while self.peek(*p) != b'}' {
                        if !elems.is_empty() {
                            self.expect(p, b',')?;
                            self.ws(p);
                        }
                        let ks = *p;
                        let k = self.string(p)?;
                        self.ws(p);
                        self.expect(p, b':')?;
                        self.ws(p);
                        let value = self.value(p)?;
                        let key = JsonKey { text: self.text(k.clone())?, view: self.view(k) };
                        elems.push(KeyValue { view: self.view(ks..*p), key, value });
                        self.ws(p);
                        if p == &self.text.len() {
                            return bad("unterminated object");
                        }
                    }
                    *p += 1;
                    Ok(JsonValue::Object(Object { view: self.view(s..*p), elems }))
                }
                b'[' => {
                    *p += 1;
                    let (mut elems, mut seps) = (vec![], vec![]);
                    self.ws(p);
                    while self.peek(*p) != b']' {
                        if !elems.is_empty() {
                            self.expect(p, b',')?;
                            seps.push(self.view(*p - 1..*p).idx);
                            self.ws(p);
                        }
                        elems.push(self.value(p)?);
                        self.ws(p);
                        if p == &self.text.len() {
                            return bad("unterminated array");
                        }
                    }
                    *p += 1;
                    Ok(JsonValue::Array(Array { view: self.view(s..*p), elems, seps }))
                }
                _ => {
                    while self.text.get(*p).is_some_and(|b| b.is_ascii_alphanumeric() || b"+-.".contains(b)) {
                        *p += 1;
                    }
                    let t = self.text(s..*p)?;
                    let view = self.view(s..*p);
                    match t.as_str() {
                        "true" | "false" => Ok(JsonValue::Bool(Bool { view, text: t })),
                        "null" => Ok(JsonValue::Null(Null { view, text: t })),
                        _ if t.starts_with(|c: char| c == '-' || c.is_ascii_digit()) && t.parse::<f64>().is_ok() => Ok(JsonValue::Number(Number { view, text: t })),
                        _ => bad(format!("unexpected token at {s}")),
                    }
                }
            }
        }
        pub fn document(&self) -> Result<Document<S>, ParseError> {
            let mut p = 0;
            self.ws(&mut p);
            let root = self.value(&mut p)?;
            self.ws(&mut p);
            if p != self.text.len() {
                return bad("trailing characters");
            }
            Ok(Document { root })
        }
    }
    pub fn parse<S: Store>(src: S) -> Result<Document<S>, ParseError> {
        let text = src.bytes().to_vec();
        Src { src: &src, at: (0..text.len()).collect(), text }.document()
    }
}

pub mod http {
    use super::*;
    use crate::json::{Document, Src};
    text!(HeaderName, Method, Target, Code, Reason);
    #[derive(Debug, Clone)]
    pub struct HeaderValue<S = Bytes> {
        pub(crate) view: View<S>,
    }
    impl<S: Store> HeaderValue<S> {
        pub fn as_bytes(&self) -> Vec<u8> {
            self.view.to_vec()
        }
    }
    #[derive(Debug, Clone)]
    pub struct Header<S = Bytes> {
        pub(crate) view: View<S>,
        pub name: HeaderName<S>,
        pub value: HeaderValue<S>,
    }
    impl<S: Store> Header<S> {
        pub fn without_value(&self) -> View<S> {
            self.view.minus([self.value.view.idx.clone()])
        }
    }
    #[derive(Debug, Clone)]
    #[non_exhaustive]
    pub enum BodyContent<S = Bytes> {
        Json(Document<S>),
        Unknown(View<S>),
    }
    #[derive(Debug, Clone)]
    pub struct Body<S = Bytes> {
        pub(crate) view: View<S>,
        pub content: BodyContent<S>,
    }
    #[derive(Debug, Clone)]
    pub struct RequestLine<S = Bytes> {
        pub(crate) view: View<S>,
        pub method: Method<S>,
        pub target: Target<S>,
    }
    #[derive(Debug, Clone)]
    pub struct Status<S = Bytes> {
        pub(crate) view: View<S>,
        pub code: Code<S>,
        pub reason: Reason<S>,
    }
    #[derive(Debug, Clone)]
    pub struct Request<S = Bytes> {
        pub(crate) view: View<S>,
        pub request: RequestLine<S>,
        pub headers: Vec<Header<S>>,
        pub body: Option<Body<S>>,
    }
    #[derive(Debug, Clone)]
    pub struct Response<S = Bytes> {
        pub(crate) view: View<S>,
        pub status: Status<S>,
        pub headers: Vec<Header<S>>,
        pub body: Option<Body<S>>,
    }
    spanned!(HeaderValue, Header, Body, RequestLine, Status, Request, Response);
    impl<S: Store> Request<S> {
        pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> + 'a {
            self.headers.iter().filter(move |h| h.name.text.eq_ignore_ascii_case(name))
        }
        /// Without the target, the headers and the body.
        pub fn without_data(&self) -> View<S> {
            self.view.minus(
                std::iter::once(self.request.target.view.idx.clone())
                    .chain(self.headers.iter().map(|h| h.view.idx.clone()))
                    .chain(self.body.iter().map(|b| b.view.idx.clone())),
            )
        }
    }
    impl<S: Store> Response<S> {
        pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> + 'a {
            self.headers.iter().filter(move |h| h.name.text.eq_ignore_ascii_case(name))
        }
        /// Without the headers and the body.
        pub fn without_data(&self) -> View<S> {
            self.view.minus(self.headers.iter().map(|h| h.view.idx.clone()).chain(self.body.iter().map(|b| b.view.idx.clone())))
        }
    }

    fn line(b: &[u8], p: usize) -> Result<usize, ParseError> {
        match b[p..].windows(2).position(|w| w == b"\r\n") {
            Some(n) => Ok(p + n),
            None => bad("incomplete message head"),
        }
    }
    fn s(b: &[u8], r: Range<usize>) -> Result<std::string::String, ParseError> {
        std::string::String::from_utf8(b[r].to_vec()).or_else(|_| bad("invalid utf-8"))
    }
    /// (headers, offset just after the empty line)
    fn headers<S: Store>(src: &S, mut p: usize) -> Result<(Vec<Header<S>>, usize), ParseError> {
        let b = src.bytes();
        let mut out = vec![];
        loop {
            let e = line(b, p)?;
            if e == p {
                return Ok((out, p + 2));
            }
            let Some(c) = b[p..e].iter().position(|x| *x == b':') else { return bad("header without a colon") };
            let (mut vs, mut ve) = (p + c + 1, e);
            while vs < ve && b" \t".contains(&b[vs]) {
                vs += 1;
            }
            while ve > vs && b" \t".contains(&b[ve - 1]) {
                ve -= 1;
            }
            if c == 0 || b[p..p + c].iter().any(|x| !x.is_ascii_graphic()) {
                return bad("bad header name");
            }
            out.push(Header {
                view: View::new(src, vec![p..e + 2]),
                name: HeaderName { text: s(b, p..p + c)?, view: View::new(src, vec![p..p + c]) },
                value: HeaderValue { view: View::new(src, vec![vs..ve]) },
            });
            p = e + 2;
        }
    }
    /// (data ranges, end of the message)
    fn body<S: Store>(src: &S, hs: &[Header<S>], p: usize, to_end: bool) -> Result<(Option<Body<S>>, usize), ParseError> {
        let b = src.bytes();
        let get = |n: &str| hs.iter().find(|h| h.name.text.eq_ignore_ascii_case(n)).map(|h| std::string::String::from_utf8_lossy(&h.value.as_bytes()).into_owned());
        let (runs, end) = if let Some(te) = get("transfer-encoding") {
            if !te.eq_ignore_ascii_case("chunked") {
                return bad("unsupported transfer encoding");
            }
            let (mut runs, mut p) = (vec![], p);
            loop {
                let e = line(b, p)?;
                let t = s(b, p..e)?;
                let Ok(n) = usize::from_str_radix(t.split(';').next().unwrap_or("").trim(), 16) else { return bad("bad chunk size") };
                if n == 0 {
                    // trailers
                    let (_, e) = headers(src, e + 2)?;
                    break (runs, e);
                }
                if b.len() < e + 2 + n + 2 || &b[e + 2 + n..e + 4 + n] != b"\r\n" {
                    return bad("incomplete chunk");
                }
                runs.push(e + 2..e + 2 + n);
                p = e + 4 + n;
            }
        } else if let Some(l) = get("content-length") {
            let Ok(n) = l.parse::<usize>() else { return bad("bad content length") };
            if b.len() - p < n {
                return bad("body is shorter than content-length");
            }
            (vec![p..p + n], p + n)
        } else if to_end {
            (vec![p..b.len()], b.len())
        } else {
            (vec![], p)
        };
        let runs: Vec<_> = runs.into_iter().filter(|r: &Range<usize>| !r.is_empty()).collect();
        if runs.is_empty() {
            return Ok((None, end));
        }
        let view = View::new(src, runs.clone());
        let json = get("content-type").is_some_and(|t| t.to_ascii_lowercase().starts_with("application/json"));
        let content = if json {
            let at: Vec<usize> = runs.into_iter().flatten().collect();
            BodyContent::Json(Src { src, text: at.iter().map(|&i| b[i]).collect(), at }.document()?)
        } else {
            BodyContent::Unknown(view.clone())
        };
        Ok((Some(Body { view, content }), end))
    }
    fn request_at<S: Store>(src: &S, p: usize) -> Result<(Request<S>, usize), ParseError> {
        let b = src.bytes();
        let e = line(b, p)?;
        let sp: Vec<usize> = (p..e).filter(|&i| b[i] == b' ').collect();
        let [a, c] = sp[..] else { return bad("bad request line") };
        if a == p || c == a + 1 || !b[c + 1..e].starts_with(b"HTTP/1.") {
            return bad("bad request line");
        }
        let request = RequestLine {
            view: View::new(src, vec![p..e + 2]),
            method: Method { text: s(b, p..a)?, view: View::new(src, vec![p..a]) },
            target: Target { text: s(b, a + 1..c)?, view: View::new(src, vec![a + 1..c]) },
        };
        let (headers, q) = headers(src, e + 2)?;
        let (body, end) = body(src, &headers, q, false)?;
        Ok((Request { view: View::new(src, vec![p..end]), request, headers, body }, end))
    }
    fn response_at<S: Store>(src: &S, p: usize) -> Result<(Response<S>, usize), ParseError> {
        let b = src.bytes();
        let e = line(b, p)?;
        if !b[p..e].starts_with(b"HTTP/1.") || e < p + 12 || b[p + 8] != b' ' || !b[p + 9..p + 12].iter().all(u8::is_ascii_digit) {
            return bad("bad status line");
        }
        let r = (p + 13).min(e);
        let status = Status {
            view: View::new(src, vec![p..e + 2]),
            code: Code { text: s(b, p + 9..p + 12)?, view: View::new(src, vec![p + 9..p + 12]) },
            reason: Reason { text: s(b, r..e)?, view: View::new(src, vec![r..e]) },
        };
        let none = status.code.text.starts_with('1') || status.code == "204" || status.code == "304";
        let (headers, q) = headers(src, e + 2)?;
        let (body, end) = if none { (None, q) } else { body(src, &headers, q, true)? };
        Ok((Response { view: View::new(src, vec![p..end]), status, headers, body }, end))
    }
    pub fn parse_request<S: Store>(src: S) -> Result<Request<S>, ParseError> {
        request_at(&src, 0).map(|r| r.0)
    }
    pub fn parse_response<S: Store>(src: S) -> Result<Response<S>, ParseError> {
        response_at(&src, 0).map(|r| r.0)
    }
    macro_rules! iter {
        ($n:ident, $t:ident, $f:ident) => {
            #[derive(Debug)]
            pub struct $n {
                src: Bytes,
                pos: usize,
            }
            impl $n {
                pub fn new(src: Bytes) -> Self {
                    $n { src, pos: 0 }
                }
                pub fn new_from_slice(src: &[u8]) -> Self {
                    $n { src: Bytes::copy_from_slice(src), pos: 0 }
                }
            }
            impl Iterator for $n {
                type Item = Result<$t, ParseError>;
                fn next(&mut self) -> Option<Self::Item> {
                    if self.pos >= self.src.len() {
                        return None;
                    }
                    match $f(&self.src, self.pos) {
                        Ok((m, e)) => {
                            self.pos = e;
                            Some(Ok(m))
                        }
                        Err(e) => {
                            self.pos = self.src.len();
                            Some(Err(e))
                        }
                    }
                }
            }
        };
    }
    iter!(Requests, Request, request_at);
    iter!(Responses, Response, response_at);
}
