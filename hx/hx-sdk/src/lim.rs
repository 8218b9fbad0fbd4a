//! S10: the verifier's limits; S11: HTTP messages.
use crate::ses::*;
use futures_plex::duplex;
use hx_lib::*;
use std::sync::Mutex;
use tlsn_sdk_core::{error::ErrorKind, Body, HttpRequest, Method, NetworkSetting, ProverConfig, ProverMode, Reveal, SdkError, SdkProver, SdkVerifier, VerifierConfig};
use tlsn_server_fixture_certs::SERVER_DOMAIN;

/// sent, received, sent records, records received online
type Lim = (usize, usize, Option<usize>, Option<usize>);

/// Both ends set up a session; returns what each of them made of it.
fn setup(p: Lim, v: Lim) -> Result<(Result<(), SdkError>, Result<Option<String>, SdkError>), String> {
    let (pio, vio) = duplex(1 << 20);
    let out: Mutex<(Option<Result<(), SdkError>>, Option<Result<Option<String>, SdkError>>)> = Default::default();
    crate::ses::run(async {
        let a = async {
            let mut b = ProverConfig::builder(SERVER_DOMAIN).max_sent_data(p.0).max_recv_data(p.1).network(NetworkSetting::Latency).root_certs(roots());
            if let Some(n) = p.2 {
                b = b.max_sent_records(n);
            }
            if let Some(n) = p.3 {
                b = b.max_recv_records_online(n);
            }
            let mut s = SdkProver::new(b.build().unwrap()).unwrap();
            let r = s.setup(Slow::new(pio, 1 << 20, 0)).await;
            let next = match &r {
                Ok(()) => None,
                Err(_) => Some(s.send_request_mpc(duplex(8).0, HttpRequest::get("/")).await),
            };
            if let Some(Ok(_) | Err(_)) = &next {
                ck!(matches!(&next, Some(Err(e)) if e.kind() == ErrorKind::InvalidState), "request after a refused setup");
            }
            out.lock().unwrap().0 = Some(r);
            Ok::<_, String>(())
        };
        let b = async {
            let mut b = VerifierConfig::builder().max_sent_data(v.0).max_recv_data(v.1).root_certs(roots());
            if let Some(n) = v.2 {
                b = b.max_sent_records(n);
            }
            if let Some(n) = v.3 {
                b = b.max_recv_records_online(n);
            }
            let mut s = SdkVerifier::new(b.build().unwrap());
            s.connect(Slow::new(vio, 1 << 20, 0)).await.map_err(|e| e.to_string())?;
            let r = s.setup().await;
            if r.is_err() {
                let n = s.run().await;
                ck!(matches!(&n, Err(e) if e.kind() == ErrorKind::InvalidState), "run after a refused setup");
            }
            out.lock().unwrap().1 = Some(r);
            Ok::<_, String>(())
        };
        futures::try_join!(a, b).map(|_| ())
    })
    .ok_or("stuck")??;
    let (a, b) = out.into_inner().unwrap();
    Ok((a.ok_or("prover did not end")?, b.ok_or("verifier did not end")?))
}
pub fn s10(hx: &Hx) {
    let opt = |r: std::ops::RangeInclusive<usize>| -> Vec<Option<usize>> { std::iter::once(None).chain(r.map(Some)).collect() };
    // A limit on records that the prover leaves open is filled in by it.
    let (d, rec) = (vec![1000usize, 1001, 1002], opt(6..=hx.tier(8, 9)));
    let mut items: Vec<(Lim, Lim)> = vec![];
    for p in product(&[2, 2, rec.len(), rec.len()]) {
        for v in product(&[hx.tier(2, 3), hx.tier(2, 3), rec.len(), rec.len()]) {
            let (pl, vl) = ((d[p[0] + 1 - (hx.tier(1, 0))], d[p[1] + 1 - hx.tier(1, 0)], rec[p[2]], rec[p[3]]), (d[v[0]], d[v[1]], rec[v[2]], rec[v[3]]));
            items.push((pl, vl));
        }
    }
    hx.note("limits", format!("{} pairs of prover and verifier limits", items.len()));
    hx.par(&items, |(p, v)| {
        // Only a number the prover leaves to its default is beyond the limit.
        let over = |p: Option<usize>, v: Option<usize>| v.is_some_and(|v| p.is_some_and(|p| p > v));
        let open = |p: Option<usize>, v: Option<usize>| p.is_none() && v.is_some_and(|v| DEFAULT_RECORDS > v);
        let key = if p.0 > v.0 || p.1 > v.1 || over(p.2, v.2) || over(p.3, v.3) {
            "limits"
        } else if open(p.2, v.2) || open(p.3, v.3) {
            "limits-open"
        } else {
            "limits"
        };
        hx.case(|| format!("{key}/{p:?}/{v:?}"), || {
            hx.trans(1);
            hx.state(&(p, v));
            // Without a number of its own the prover uses the default for the amount of data.
            let over = |p: Option<usize>, v: Option<usize>, def: usize| v.is_some_and(|v| p.unwrap_or(def) > v);
            let reject = p.0 > v.0 || p.1 > v.1 || over(p.2, v.2, DEFAULT_RECORDS) || over(p.3, v.3, DEFAULT_RECORDS);
            let (a, b) = setup(*p, *v)?;
            if reject {
                let (a, b) = (a.err().ok_or("prover set up beyond the verifier's limits")?, b.err().ok_or("verifier accepted more than its limits")?);
                ck_eq!((a.kind(), b.kind()), (ErrorKind::Protocol, ErrorKind::Protocol), "{a} / {b}");
                ck!(a.to_string().contains("too large"), "the prover is not told why: {a}");
            } else {
                a.map_err(|e| format!("prover refused within the limits: {e}"))?;
                let n = b.map_err(|e| format!("verifier refused what is within its limits: {e}"))?;
                ck_eq!(n, None, "server name");
            }
            Ok(())
        });
    });
    // The amounts configured are the amounts that can be exchanged.
    let mut items = vec![];
    for which in 0..3usize {
        // A few bytes are set aside for the protocol's own messages.
        for extra in [-150i64, -100, -65, -64, 0, 1, 64, 100] {
            items.push((which, extra));
        }
    }
    hx.par(&items, |(which, extra)| {
        hx.case(|| format!("amount/{which}/{extra}"), || {
            hx.trans(1);
            hx.state(&(which, extra));
            let (req, resp) = (HttpRequest::get(format!("/{}", "x".repeat(200))), [b"HTTP/1.1 200 OK\r\ncontent-length: 200\r\n\r\n".to_vec(), vec![b'y'; 200]].concat());
            let (sent, recv) = ((4 + 201 + 13) as i64, resp.len() as i64);
            let n = |i: usize, len: i64| if i == *which { (len + extra) as usize } else { 2048 };
            let mut b = ProverConfig::builder(SERVER_DOMAIN).max_sent_data(n(0, sent)).max_recv_data(n(1, recv)).defer_decryption_from_start(*which != 2).root_certs(roots());
            if *which == 2 {
                b = b.max_recv_data_online(n(2, recv));
            }
            let s = Scn { req, resp: vec![resp], defer: *which != 2, eager: *which != 2, ..base() };
            let r = session_with(&s, b.build().unwrap(), vcfg(), &|_| (Reveal::new(), None));
            if *extra < 0 {
                ck!(r.is_err(), "exchanged more than configured");
            } else {
                let d = r?;
                ck_eq!((d.wire.got.len() as i64, d.wire.sent.len() as i64), (sent, recv), "data exchanged");
            }
            Ok(())
        });
    });
    // What a configuration says is what the builder was told.
    let items: Vec<Vec<usize>> = product(&[2, 2, 2, 2, 2, 2, 3, 2, 2, 2]);
    hx.par(&items, |v| {
        hx.case(|| format!("builder/{v:?}"), || {
            hx.trans(1);
            let mut b = ProverConfig::builder("a.b");
            let (mut sent, mut recv) = (4096, 16384);
            let (mut sr, mut ro, mut rro, mut df, mut net, mut mode) = (None, None, None, None, NetworkSetting::Latency, ProverMode::Mpc);
            if v[0] == 1 {
                sent = 11;
                b = b.max_sent_data(11);
            }
            if v[1] == 1 {
                recv = 12;
                b = b.max_recv_data(12);
            }
            if v[2] == 1 {
                sr = Some(13);
                b = b.max_sent_records(13);
            }
            if v[3] == 1 {
                ro = Some(14);
                b = b.max_recv_data_online(14);
            }
            if v[4] == 1 {
                rro = Some(15);
                b = b.max_recv_records_online(15);
            }
            if v[5] == 1 {
                net = NetworkSetting::Bandwidth;
                b = b.network(net);
            }
            if v[6] > 0 {
                df = Some(v[6] == 1);
                b = b.defer_decryption_from_start(v[6] == 1);
            }
            if v[7] == 1 {
                mode = ProverMode::Proxy;
                b = b.mode(mode);
            }
            if v[8] == 1 {
                b = b.client_auth(vec![vec![1], vec![2]], vec![3]);
            }
            let certs = if v[9] == 1 { [roots(), roots()].concat() } else { roots() };
            let c = b.root_certs(certs.clone()).build().map_err(|e| e.to_string())?;
            ck_eq!((c.max_sent_data, c.max_recv_data), (sent, recv), "data");
            ck_eq!((c.max_sent_records, c.max_recv_data_online, c.max_recv_records_online, c.defer_decryption_from_start), (sr, ro, rro, df), "options");
            ck_eq!((c.network, c.mode, c.server_name.as_str()), (net, mode, "a.b"), "network, mode, name");
            ck_eq!(c.root_store.roots.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), certs, "roots");
            ck_eq!(c.client_auth.map(|c| (c.certs, c.key)), (v[8] == 1).then(|| (vec![vec![1], vec![2]], vec![3])), "client authentication");
            let w = VerifierConfig::builder();
            let (mut vs, mut vr, mut a, mut o) = (4096, 16384, None, None);
            let mut w = w;
            if v[0] == 1 {
                vs = 21;
                w = w.max_sent_data(21);
            }
            if v[1] == 1 {
                vr = 22;
                w = w.max_recv_data(22);
            }
            if v[2] == 1 {
                a = Some(23);
                w = w.max_sent_records(23);
            }
            if v[4] == 1 {
                o = Some(24);
                w = w.max_recv_records_online(24);
            }
            let c = w.root_certs(certs.clone()).build().map_err(|e| e.to_string())?;
            ck_eq!((c.max_sent_data, c.max_recv_data, c.max_sent_records, c.max_recv_records_online), (vs, vr, a, o), "verifier");
            ck_eq!(c.root_store.roots.len(), certs.len(), "verifier roots");
            Ok(())
        });
    });
    // What cannot work is refused.
    for v in product(&[2, 2, 2, 2]) {
        hx.case(|| format!("config/{v:?}"), || {
            hx.trans(1);
            let (name, sent, recv, proxy) = (if v[0] == 1 { "" } else { "a.b" }, [5, 0][v[1]], [5, 0][v[2]], v[3] == 1);
            let c = ProverConfig::builder(name).max_sent_data(sent).max_recv_data(recv).mode(if proxy { ProverMode::Proxy } else { ProverMode::Mpc }).root_certs(roots()).build().unwrap();
            let bad = name.is_empty() || (!proxy && (sent == 0 || recv == 0));
            match SdkProver::new(c) {
                Ok(p) => {
                    ck!(!bad, "accepted");
                    ck!(!p.is_complete(), "complete");
                    ck_eq!(p.mode() == ProverMode::Proxy, proxy, "mode");
                }
                Err(e) => {
                    ck!(bad, "refused: {e}");
                    ck_eq!(e.kind(), ErrorKind::Config, "kind");
                }
            }
            Ok(())
        });
    }
    for k in 0..=2usize {
        for bad in 0..=k {
            hx.case(|| format!("roots/{k}/{bad}"), || {
                hx.trans(1);
                let mut certs = vec![roots().remove(0); k];
                if bad < k {
                    certs[bad].pop();
                }
                let a = ProverConfig::builder("a.b").root_certs(certs.clone()).build().map(|c| c.root_store.roots.len());
                let b = VerifierConfig::builder().root_certs(certs).build().map(|c| c.root_store.roots.len());
                for r in [a, b] {
                    match r {
                        Ok(n) => ck!(bad == k && n == k, "{n} roots of {k}, {bad} broken"),
                        Err(e) => ck!(bad < k && e.kind() == ErrorKind::Config, "{e}"),
                    }
                }
                Ok(())
            });
        }
    }
}
/// The number of records for small amounts of data.
const DEFAULT_RECORDS: usize = 8;

/// A request as it crossed the wire: start line, headers in order, body.
fn parse(b: &[u8]) -> Result<(String, Vec<(String, Vec<u8>)>, Vec<u8>), String> {
    let p = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no end of headers")?;
    let mut lines = b[..p].split(|c| *c == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let start = String::from_utf8(lines.next().unwrap().to_vec()).map_err(|e| e.to_string())?;
    let mut hs = vec![];
    for l in lines {
        let c = l.iter().position(|c| *c == b':').ok_or("no colon")?;
        hs.push((String::from_utf8_lossy(&l[..c]).to_ascii_lowercase(), l[c + 1..].trim_ascii().to_vec()));
    }
    Ok((start, hs, b[p + 4..].to_vec()))
}
/// One exchange compared with what was asked and answered.
fn exchange(s: &Scn, want: (u16, Vec<(&str, &[u8])>, &[u8])) -> R {
    let d = session(s, &|_| (Reveal::new(), None))?;
    ck_eq!(d.wire.err, None, "server");
    let (start, hs, body) = parse(&d.wire.got)?;
    let m = match s.req.method {
        Method::GET => "GET",
        Method::POST => "POST",
        Method::PUT => "PUT",
        Method::DELETE => "DELETE",
    };
    ck_eq!(start, format!("{m} {} HTTP/1.1", s.req.uri), "start line");
    let expect: Vec<u8> = match &s.req.body {
        None => vec![],
        Some(Body::Json(serde_json::Value::String(t))) => t.clone().into_bytes(),
        Some(Body::Json(v)) => serde_json::to_vec(v).unwrap(),
        Some(Body::Raw(b)) => b.clone(),
        Some(_) => unreachable!(),
    };
    ck_eq!(hex(&body), hex(&expect), "body of the request");
    let mut given: Vec<(String, Vec<u8>)> = s.req.headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
    let mut got = hs.clone();
    let framing: Vec<_> = got.extract_if(.., |(k, _)| k == "content-length" && !given.iter().any(|g| g.0 == "content-length")).collect();
    if !expect.is_empty() {
        ck!(framing.len() == 1 || given.iter().any(|g| g.0 == "content-length"), "length of the body");
    }
    for (_, v) in framing {
        ck_eq!(v, expect.len().to_string().into_bytes(), "content-length");
    }
    given.sort();
    got.sort();
    ck_eq!(got, given, "headers of the request");
    // The answer.
    let r = d.resp.ok_or("no response")?;
    ck_eq!(r.status, want.0, "status");
    ck_eq!(hex(&r.body.clone().unwrap_or_default()), hex(want.2), "body of the response");
    ck!(r.body.is_none() == want.2.is_empty(), "body of length 0");
    // Values of one header keep their order; nothing is said about the order of different headers.
    let mut a: Vec<(String, Vec<u8>)> = r.headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
    let mut b: Vec<(String, Vec<u8>)> = want.1.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.to_vec())).collect();
    a.sort_by(|x, y| x.0.cmp(&y.0));
    b.sort_by(|x, y| x.0.cmp(&y.0));
    ck_eq!(a, b, "headers of the response");
    Ok(())
}
fn scn(req: HttpRequest, resp: &[u8], mode: usize) -> Scn {
    // mode: MPC and deferred, MPC and online, proxy
    Scn { proxy: mode == 2, defer: mode == 0, eager: mode == 0, req, resp: vec![resp.to_vec()], ..base() }
}
const OK: &[u8] = b"HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\nok";
fn ok() -> (u16, Vec<(&'static str, &'static [u8])>, &'static [u8]) {
    (200, vec![("content-length", b"2")], b"ok")
}
pub fn s11(hx: &Hx) {
    // Requests.
    let methods = [Method::GET, Method::POST, Method::PUT, Method::DELETE];
    let uris = ["/", "/a/b?c=d&e=%20f", "*", "/x#", "http://test-server.io/q"];
    let hs: [&[(&str, &[u8])]; 6] = [&[], &[("Host", b"test-server.io")], &[("X-A", b"1"), ("x-b", b"")], &[("Accept", b"a, b;q=0.1"), ("Cookie", b"\xe4\x80")], &[("content-length", b"#")], &[("Connection", b"close"), ("Host", b"h"), ("a", b"b c\td")]];
    let json = |s: &str| Body::Json(serde_json::from_str(s).unwrap());
    let bodies = [None, Some(Body::Raw(vec![])), Some(Body::Raw(b"\x00\xff\r\n\r\n".to_vec())), Some(json("\"plain \\u00e9\"")), Some(json("{\"a\":[1,null,2.5],\"b\":{\"c\":\"d\"}}")), Some(json("[]")), Some(json("null")), Some(json("17"))];
    let mut items = vec![];
    for v in product(&[4, uris.len() - 2, hs.len(), bodies.len(), 3]) {
        if hx.thorough() || v[4] == (v[0] + v[1] + v[2] + v[3]) % 3 {
            items.push(v);
        }
    }
    hx.note("requests", format!("{} combinations of method, target, headers and body", items.len()));
    hx.par(&items, |v| {
        hx.case(|| format!("request/{v:?}"), || {
            hx.trans(1);
            hx.state(v);
            let mut r = HttpRequest::new(methods[v[0]], uris[v[1]]);
            let len = match &bodies[v[3]] {
                None => 0,
                Some(Body::Raw(b)) => b.len(),
                Some(Body::Json(serde_json::Value::String(s))) => s.len(),
                Some(Body::Json(x)) => serde_json::to_vec(x).unwrap().len(),
                Some(_) => unreachable!(),
            };
            for (k, val) in hs[v[2]] {
                r = r.header(*k, if *val == b"#" { len.to_string().into_bytes() } else { val.to_vec() });
            }
            if let Some(b) = &bodies[v[3]] {
                r = r.body(b.clone());
            }
            exchange(&scn(r, OK, v[4]), ok())
        });
    });
    // What cannot be a request is refused, and nothing of it is sent.
    let bad = [
        HttpRequest::get(""),
        HttpRequest::get("/ x"),
        HttpRequest::get("/\r\nx: y"),
        HttpRequest::get("/").header("", "v"),
        HttpRequest::get("/").header("a b", "v"),
        HttpRequest::get("/").header("a:", "v"),
        HttpRequest::get("/").header("a\r\n", "v"),
        HttpRequest::get("/").header("a", "v\r\nb: c"),
        HttpRequest::get("/").header("a", "v\n"),
        HttpRequest::get("/").header("a", vec![0]),
        HttpRequest::get("/").header("a", vec![0x7f]),
        HttpRequest::get("/").header("ok", "v").header("a\u{e9}", "v"),
    ];
    for (i, b) in bad.iter().enumerate() {
        for mode in 0..3usize {
            hx.case(|| format!("bad/{i}/{mode}"), || {
                hx.trans(1);
                let s = scn(b.clone(), OK, mode);
                let seen: Mutex<Option<ErrorKind>> = Default::default();
                let w = session_err(&s, &seen)?;
                ck_eq!(*seen.lock().unwrap(), Some(ErrorKind::Http), "kind of error");
                ck!(w.got.is_empty(), "sent {}", hex(&w.got));
                Ok(())
            });
        }
    }
    // Responses: framing, headers, and every way to cut them into records.
    let resp: Vec<(&[u8], (u16, Vec<(&str, &[u8])>, &[u8]))> = vec![
        (OK, ok()),
        (b"HTTP/1.1 404 Not Found\r\nSet-Cookie: a\r\nX: 1\r\nset-cookie: b\r\nContent-Length: 0\r\n\r\n", (404, vec![("set-cookie", b"a"), ("set-cookie", b"b"), ("x", b"1"), ("content-length", b"0")], b"")),
        (b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n2;x=y\r\nde\r\n0\r\n\r\n", (200, vec![("transfer-encoding", b"chunked")], b"abcde")),
        (b"HTTP/1.1 204 No Content\r\nA: b\r\n\r\n", (204, vec![("a", b"b")], b"")),
        (b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 201 Created\r\ncontent-length: 1\r\n\r\nz", (201, vec![("content-length", b"1")], b"z")),
        (b"HTTP/1.1 500 \r\nv: \xe9\r\nv: \r\nv: 3\r\ncontent-length: 3\r\n\r\n\x00\xff\n", (500, vec![("v", b"\xe9"), ("v", b""), ("v", b"3"), ("content-length", b"3")], b"\x00\xff\n")),
    ];
    let mut items = vec![];
    for (i, r) in resp.iter().enumerate() {
        for mode in 0..3usize {
            for a in 0..=r.0.len() {
                let two = if hx.thorough() { a..=r.0.len() } else { a..=a };
                for b in two {
                    items.push((i, mode, a, b));
                }
            }
        }
    }
    hx.note("responses", format!("{} ways to send {} responses in up to {} records", items.len(), resp.len(), hx.tier(2, 3)));
    hx.par(&items, |(i, mode, a, b)| {
        hx.case(|| format!("response/{i}/{mode}/{a}-{b}"), || {
            hx.trans(1);
            hx.state(&(i, mode, a, b));
            let (raw, want) = &resp[*i];
            let parts: Vec<Vec<u8>> = [&raw[..*a], &raw[*a..*b], &raw[*b..]].iter().filter(|p| !p.is_empty()).map(|p| p.to_vec()).collect();
            exchange(&Scn { resp: parts, ..scn(HttpRequest::get("/"), OK, *mode) }, want.clone())
        });
    });
    // A body that ends with the connection.
    let close = b"HTTP/1.1 200 OK\r\nconnection: close\r\n\r\nuntil the end";
    for mode in 0..3usize {
        for a in 0..=close.len() {
            hx.case(|| format!("close/{mode}/{a}"), || {
                hx.trans(1);
                hx.state(&(9, mode, a));
                let parts: Vec<Vec<u8>> = [&close[..a], &close[a..]].iter().filter(|p| !p.is_empty()).map(|p| p.to_vec()).collect();
                let s = Scn { eager: true, resp: parts, ..scn(HttpRequest::get("/"), OK, mode) };
                exchange(&s, (200, vec![("connection", b"close")], b"until the end"))
            });
        }
    }
    // However the connections carry the bytes.
    let (post, chunk) = (HttpRequest::post("/p").header("Host", "h").body(Body::Raw(vec![7; 40])), &resp[2]);
    let mut items = vec![];
    for mode in 0..3usize {
        for lag in 0..hx.tier(3usize, 5) {
            for max in [1usize, 2, 3, 5, 16, 17, 64, 1 << 20] {
                items.push((mode, (1 << 20, 0), (max, lag)));
                items.push((mode, (max, lag), (1 << 20, 0)));
                if hx.thorough() {
                    items.push((mode, (max, lag), (max, lag)));
                }
            }
        }
    }
    hx.note("connections", format!("{} ways the two connections carry bytes", items.len()));
    hx.par(&items, |(mode, link, tcp)| {
        hx.case(|| format!("carry/{mode}/{link:?}/{tcp:?}"), || {
            hx.trans(1);
            hx.state(&(mode, link, tcp));
            exchange(&Scn { link: *link, tcp: *tcp, ..scn(post.clone(), chunk.0, *mode) }, chunk.1.clone())
        });
    });
}
