//! S01: the application server fixture.  S02: the echo server fixture.
use crate::net::*;
use hx_lib::*;
use futures::AsyncWriteExt;
use serde_json::Value;
use tlsn_server_fixture_certs as fx;
use tokio_util::compat::TokioAsyncReadCompatExt;

const DATA: &str = "/repo/crates/server-fixture/server/src/data";
fn data(f: &str) -> Vec<u8> {
    std::fs::read(format!("{DATA}/{f}")).unwrap_or_default()
}
fn jdata(f: &str) -> Value {
    serde_json::from_slice(&data(f)).unwrap_or(Value::Null)
}
fn base() -> ClientCfg {
    ClientCfg { ca: fx::CA_CERT_DER, auth: None, proto: 0 }
}

struct Out {
    got: Vec<u8>,
    end: Result<(), String>,
    server: Result<(), String>,
}

/// One connection: handshake, send `parts`, read to the end.
fn talk(cfg: &ClientCfg, cap: usize, parts: &[&[u8]]) -> Result<Out, String> {
    let c = cfg.build();
    rt(false, async move {
        let (a, b) = pipe(cap);
        let srv = tokio::spawn(tlsn_server_fixture::bind(b.compat()));
        let (got, end) = match connect(c, a, fx::SERVER_DOMAIN).await {
            Err(e) => (vec![], Err(format!("connect: {e}"))),
            Ok(mut t) => match send(&mut t, parts).await {
                Err(e) => (vec![], Err(format!("send: {e}"))),
                Ok(()) => {
                    let (g, e) = drain(&mut t).await;
                    (g, e.map_err(|e| e.to_string()))
                }
            },
        };
        let server = srv.await.map_err(|e| format!("the server task failed: {e}"))?.map_err(|e| e.to_string());
        Ok(Out { got, end, server })
    })
}

#[derive(Clone, Debug)]
enum Body {
    Text(&'static str),
    Fill(usize),
    Json(&'static str),
    Html,
    Any,
}
fn check_body(r: &Resp, b: &Body) -> R {
    match b {
        Body::Text(t) => ck_eq!(String::from_utf8_lossy(&r.body), *t, "body"),
        Body::Fill(n) => ck!(r.body.len() == *n && r.body.iter().all(|x| *x == 0x42), "{} bytes, expected {n} of 0x42", r.body.len()),
        Body::Json(f) => {
            let v: Value = serde_json::from_slice(&r.body).map_err(|e| format!("body is not JSON: {e}"))?;
            ck!(v == jdata(f), "body is not the document {f}");
            ck!(r.header("content-type").is_some_and(|c| c.starts_with("application/json")), "content type {:?}", r.header("content-type"));
        }
        Body::Html => {
            ck!(r.body == data("4kb.html"), "body is not the HTML document");
            ck!(r.header("content-type").is_some_and(|c| c.starts_with("text/html")), "content type {:?}", r.header("content-type"));
        }
        Body::Any => {}
    }
    Ok(())
}

pub fn s01(h: &Hx) {
    h.assume("HTTP parsing and TLS records are hyper's, axum's and rustls's own; the client side is rustls");
    let good = "random_auth_token";
    let caps: &[usize] = h.tier(&[64, 16384], &[1, 2, 7, 64, 1024, 16384]);
    // (request line and headers, expected status, body)
    let mut reqs: Vec<(String, String, u16, Body, bool)> = vec![];
    let mut add = |m: &str, path: &str, hd: &str, st: u16, b: Body, shutdown: bool| {
        reqs.push((format!("{m} {path} [{hd}]"), format!("{m} {path} HTTP/1.1\r\nhost: test-server.io\r\n{hd}\r\n"), st, b, shutdown))
    };
    add("GET", "/", "", 200, Body::Text("Hello, World!"), false);
    let mut sizes: Vec<usize> = (0..=h.tier(300usize, 4200)).chain([4095, 4097, 10000, 16383, 65535, 99999, 100000, 1000000]).collect();
    for k in 5..=h.tier(21, 24) {
        sizes.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    sizes.sort();
    sizes.dedup();
    for n in &sizes {
        add("GET", &format!("/bytes?size={n}"), "", 200, Body::Fill(*n), false);
        add("GET", &format!("/bytes?size={n}&shutdown"), "", 200, Body::Fill(*n), true);
        add("GET", &format!("/bytes?shutdown=true&size={n}"), "", 200, Body::Fill(*n), true);
        add("GET", &format!("/bytes?other=5&size={n}"), "", 200, Body::Fill(*n), false);
    }
    for q in ["", "?size=", "?size=x", "?size=-1", "?size=1x", "?size=1.5", "?siz=7", "?SIZE=7", "?size=99999999999999999999999", "?size=18446744073709551616", "?size=+7", "?size=%207", "?size=7%20", "?size=%097", "?size=7%0a", "?size=7%00", "?size=0x7", "?size=7_0", "?size=7,0", "?size=7k", "?size=7;", "?size=%227%22", "?size=%EF%BC%97", "?size=1e1", "?size=-0", "?size=%2D7", "?size[]=7", "?xsize=7", "?sizes=7", "?x=size=7", "?x&y&z"] {
        add("GET", &format!("/bytes{q}"), "", 200, Body::Fill(1), false);
    }
    // the same number written otherwise
    for (q, n) in [("?size=007", 7), ("?size=%35", 5), ("?%73ize=6", 6), ("?size=0000000000000000000000000012", 12), ("?size=%31%32&x", 12), ("?x=%26size=3&size=4", 4)] {
        add("GET", &format!("/bytes{q}"), "", 200, Body::Fill(n), false);
    }
    let docs = [(1, "1kb.json"), (4, "4kb.json"), (8, "8kb.json")];
    for n in (0..=h.tier(260usize, 4200)).chain([999, 1000, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 65536, usize::MAX]) {
        let d = docs.iter().find(|x| x.0 == n);
        for (s, sh) in [("", false), ("&shutdown", true)] {
            match d {
                Some((_, f)) => add("GET", &format!("/formats/json?size={n}{s}"), "", 200, Body::Json(f), sh),
                None => add("GET", &format!("/formats/json?size={n}{s}"), "", 404, Body::Any, sh),
            }
        }
    }
    for q in ["", "?", "?size=x", "?size=-4", "?siz=4", "?shutdow=1", "?size=4kb", "?size=8.0", "?size=%204", "?size=4%20", "?size=0x8", "?SIZE=8", "?sizes=8", "?x=size=8", "?size=18446744073709551620"] {
        add("GET", &format!("/formats/json{q}"), "", 200, Body::Json("1kb.json"), false);
    }
    for (q, s) in [("", false), ("?size=4", false), ("?shutdown", true), ("?shutdown=0&x=1", true)] {
        add("GET", &format!("/formats/html{q}"), "", 200, Body::Html, s);
    }
    for (p, f) in [("/protected", "protected_data.json"), ("/elster", "elster.json")] {
        add("GET", p, "", 401, Body::Any, false);
        for n in ["authorization", "Authorization", "AUTHORIZATION"] {
            add("GET", p, &format!("{n}: Bearer {good}\r\n"), 200, Body::Json(f), false);
        }
        for n in ["x-authorization", "authorizatio", "cookie", "proxy-authorization"] {
            add("GET", p, &format!("{n}: Bearer {good}\r\n"), 401, Body::Any, false);
        }
        for q in ["?token=random_auth_token", "?authorization=Bearer%20random_auth_token", "?shutdown"] {
            add("GET", &format!("{p}{q}"), "", 401, Body::Any, false);
        }
        // every single-character change of the token
        let mut bad: Vec<String> = vec!["".into(), good[..8].into(), good.to_uppercase(), format!("{good}{good}"), "*".into(), "Basic cmFuZG9t".into()];
        for i in 0..good.len() {
            let mut t = good.to_string();
            t.remove(i);
            bad.push(t);
            for c in if h.thorough() { vec!['x', 'R', '_', '0', '*'] } else { vec!['x', '*'] } {
                let mut t: Vec<char> = good.chars().collect();
                if t[i] != c {
                    t[i] = c;
                    bad.push(t.iter().collect());
                }
                t = good.chars().collect();
                t.insert(i, c);
                bad.push(t.iter().collect());
            }
        }
        bad.push(format!("{good}x"));
        bad.push(format!("{good} x"));
        bad.push(format!("x {good}"));
        for (a, b) in [(good, "x"), ("x", good)] {
            bad.push(format!("{a},{b}"));
            bad.push(format!("{a}, Bearer {b}"));
        }
        // another scheme, and a wrong first header followed by the right one
        for s in ["Basic", "Digest", "Token", "Bear", "Bearer:", "Bearer,", "BearerBearer"] {
            add("GET", p, &format!("authorization: {s} {good}\r\n"), 401, Body::Any, false);
        }
        add("GET", p, &format!("authorization: Bearer x\r\nauthorization: Bearer {good}\r\n"), 401, Body::Any, false);
        add("GET", p, &format!("authorization: \r\nauthorization: Bearer {good}\r\n"), 401, Body::Any, false);
        for t in bad {
            add("GET", p, &format!("authorization: Bearer {t}\r\n"), 401, Body::Any, false);
        }
    }
    for p in ["/nothing", "/byte", "/bytes/", "/bytes/x", "/formats", "/formats/", "/formats/xml", "/Formats/json", "/protected/", "/protected/x", "/..", "//", "/elste"] {
        add("GET", p, &format!("authorization: Bearer {good}\r\n"), 404, Body::Any, false);
    }
    for p in ["/", "/bytes", "/formats/json", "/formats/html", "/protected", "/elster"] {
        for m in ["POST", "PUT", "DELETE", "PATCH"] {
            add(m, p, &format!("authorization: Bearer {good}\r\ncontent-length: 0\r\n"), 405, Body::Any, false);
        }
        add("HEAD", p, &format!("authorization: Bearer {good}\r\n"), 200, Body::Any, false);
    }
    h.count("requests", reqs.len() as u64);
    let mut jobs = vec![];
    for i in 0..reqs.len() {
        for &c in caps {
            if c <= 7 && i % 5 != 0 || c == 64 && i % 4 != 0 && !reqs[i].0.contains("authorization") {
                continue;
            }
            jobs.push((i, c, 0));
        }
        for p in 1..4 {
            if h.thorough() || i % 7 == 0 {
                jobs.push((i, 16384, p));
            }
        }
    }
    h.par(&jobs, |&(i, cap, proto)| {
        let (name, raw, st, body, shut) = &reqs[i];
        h.case(|| format!("req/{i}/{cap}/{proto}"), || {
            let mut cfg = base();
            cfg.proto = proto;
            let o = talk(&cfg, cap, &[raw.as_bytes()])?;
            o.server.map_err(|e| format!("{name}: server: {e}"))?;
            h.state(&(name, st, body.clone().type_id_()));
            h.trans(1);
            let p = parse(&o.got, name.starts_with("HEAD"))?;
            if *shut {
                // the connection goes down; what was delivered is a prefix of the answer
                if let Some((r, n)) = p {
                    ck!(n == o.got.len(), "{name}: {} stray bytes", o.got.len() - n);
                    ck_eq!(r.status, *st, "{name}: status");
                    check_body(&r, body).map_err(|e| format!("{name}: {e}"))?;
                } else {
                    ck!(o.got.len() < 13 || o.got.starts_with(format!("HTTP/1.1 {st} ").as_bytes()), "{name}: {:?}", String::from_utf8_lossy(&o.got[..o.got.len().min(40)]));
                }
                return Ok(());
            }
            let (r, n) = p.ok_or(format!("{name}: incomplete response of {} bytes ({:?})", o.got.len(), o.end))?;
            ck!(n == o.got.len(), "{name}: {} bytes after the response", o.got.len() - n);
            ck_eq!(r.status, *st, "{name}: status");
            if !name.starts_with("HEAD") {
                check_body(&r, body).map_err(|e| format!("{name}: {e}"))?;
            }
            if *st == 401 {
                ck!(!r.body.windows(4).any(|w| w == b"John" || w == b"Doe\""), "{name}: refused but shows data");
            }
            // one exchange per connection, ended in an orderly way
            ck!(o.end.is_ok(), "{name}: connection ended with {:?}", o.end);
            Ok(())
        });
    });
    // two requests sent at once: the second is not served on this connection
    let firsts: Vec<usize> = (0..reqs.len()).filter(|i| !reqs[*i].4 && reqs[*i].1.starts_with("GET")).step_by(h.tier(9, 3)).collect();
    h.par(&firsts, |&i| {
        h.case(|| format!("pipelined/{i}"), || {
            let both = format!("{}{}", reqs[i].1, "GET /bytes?size=3 HTTP/1.1\r\nhost: test-server.io\r\n\r\n");
            let o = talk(&base(), 16384, &[both.as_bytes()])?;
            o.server.map_err(|e| format!("server: {e}"))?;
            let (r, n) = parse(&o.got, false)?.ok_or("no complete response")?;
            ck_eq!(r.status, reqs[i].2, "status");
            check_body(&r, &reqs[i].3)?;
            ck!(n == o.got.len(), "a second response was sent");
            h.state(&("pipelined", i));
            h.trans(2);
            Ok(())
        });
    });
    // the request arrives in two pieces, cut anywhere
    let raw = format!("GET /bytes?size=17 HTTP/1.1\r\nhost: test-server.io\r\nauthorization: Bearer {good}\r\n\r\n");
    let raw2 = raw.replace("/bytes?size=17", "/protected");
    let jobs: Vec<(usize, usize)> = (0..2).flat_map(|w| (1..raw.len().min(raw2.len())).step_by(h.tier(3, 1)).map(move |i| (w, i))).collect();
    h.par(&jobs, |&(w, i)| {
        h.case(|| format!("cut/{w}/{i}"), || {
            let s = if w == 0 { &raw } else { &raw2 }.as_bytes();
            let o = talk(&base(), 16384, &[&s[..i], &s[i..]])?;
            let (r, _) = parse(&o.got, false)?.ok_or("no complete response")?;
            ck_eq!(r.status, 200, "status");
            check_body(&r, &if w == 0 { Body::Fill(17) } else { Body::Json("protected_data.json") })?;
            h.state(&("cut", w, i));
            h.trans(1);
            Ok(())
        });
    });
    // byte by byte, for every kind of request
    let some: Vec<usize> = (0..reqs.len()).filter(|i| !reqs[*i].4 && reqs[*i].1.starts_with("GET")).step_by(h.tier(11, 2)).collect();
    h.par(&some, |&i| {
        h.case(|| format!("bytewise/{i}"), || {
            let parts: Vec<&[u8]> = reqs[i].1.as_bytes().chunks(1).collect();
            let o = talk(&base(), 16384, &parts)?;
            let (r, n) = parse(&o.got, false)?.ok_or("no complete response")?;
            ck_eq!(r.status, reqs[i].2, "status");
            check_body(&r, &reqs[i].3)?;
            ck!(n == o.got.len(), "bytes after the response");
            h.state(&("bytewise", i));
            h.trans(1);
            Ok(())
        });
    });
    // a requested shutdown ends the connection although the client reads nothing; without it the answer waits
    let mut jobs: Vec<(String, bool)> = vec![];
    for path in ["/bytes?size=400000", "/bytes?size=0", "/formats/json?size=8", "/formats/json?size=1", "/formats/json?size=3", "/formats/html?a=b"] {
        for sh in ["shutdown", "shutdown=", "shutdown=true", "shutdown=1", "shutdown=x%20y", "x=1&shutdown", "shutdown&z=2"] {
            jobs.push((format!("{path}&{sh}"), true));
        }
        for no in ["", "&shutdow", "&Shutdown", "&x=shutdown", "&shutdown2=1"] {
            jobs.push((format!("{path}{no}"), false));
        }
    }
    h.par(&jobs, |(path, shut)| {
        h.case(|| format!("unread/{path}"), || {
            let cfg = base().build();
            rt(true, async {
                // the client's end: handshake through a small pipe, then silence
                let (a, b) = tokio::io::duplex(600);
                let mut srv = tokio::spawn(tlsn_server_fixture::bind(b.compat()));
                let mut t = connect(cfg, a, fx::SERVER_DOMAIN).await.map_err(|e| format!("connect: {e}"))?;
                send(&mut t, &[format!("GET {path} HTTP/1.1\r\nhost: test-server.io\r\n\r\n").as_bytes()]).await.map_err(|e| e.to_string())?;
                let r = tokio::time::timeout(std::time::Duration::from_secs(60), &mut srv).await;
                h.state(&("unread", path));
                h.trans(1);
                if *shut {
                    r.map_err(|_| "shutdown was requested but the connection goes on")?.map_err(|e| e.to_string())?.map_err(|e| e.to_string())?;
                } else {
                    // whether still waiting for its reader or done: nothing of the answer is lost
                    let (got, _) = drain(&mut t).await;
                    ck!(parse(&got, false)?.is_some(), "answer cut off at {} bytes", got.len());
                    if r.is_err() {
                        _ = srv.await.map_err(|e| e.to_string())?;
                    }
                }
                Ok(())
            })
        });
    });
    // who may connect
    let fxd = |n: &str| std::fs::read(format!("{}/fixtures/x509/{n}", std::env::var("VERIF_DIR").unwrap_or("/verif".into()))).unwrap();
    let ids: Vec<(&str, Option<(Vec<u8>, Vec<u8>)>, bool)> = vec![
        ("none", None, true),
        ("client", Some((fx::CLIENT_CERT_DER.to_vec(), fx::CLIENT_KEY_DER.to_vec())), true),
        ("foreign p256", Some((fxd("leaf_p256.der"), fxd("leaf_p256.p8"))), false),
        ("foreign rsa", Some((fxd("leaf_rsa.der"), fxd("leaf_rsa.p8"))), false),
        ("foreign p384", Some((fxd("leaf_p384.der"), fxd("leaf_p384.p8"))), false),
    ];
    let jobs: Vec<(usize, usize)> = (0..ids.len()).flat_map(|i| (0..4).map(move |p| (i, p))).collect();
    h.par(&jobs, |&(i, proto)| {
        h.case(|| format!("client/{i}/{proto}"), || {
            let (n, auth, ok) = &ids[i];
            let o = talk(&ClientCfg { ca: fx::CA_CERT_DER, auth: auth.clone(), proto }, 16384, &[b"GET / HTTP/1.1\r\nhost: test-server.io\r\n\r\n"])?;
            h.state(&("client", i, proto));
            h.trans(1);
            if *ok {
                let (r, _) = parse(&o.got, false)?.ok_or(format!("{n}: no response ({:?}, {:?})", o.end, o.server))?;
                ck_eq!(r.status, 200, "{n}: status");
            } else {
                ck!(o.got.is_empty(), "{n}: served {} bytes", o.got.len());
                ck!(o.server.is_err(), "{n}: the server accepted the handshake");
            }
            Ok(())
        });
    });
    // the server proves the advertised name, and no other
    h.case(|| "name".into(), || {
        for (n, ok) in [(fx::SERVER_DOMAIN, true), ("test-server.com", false), ("www.test-server.io", false), ("server.io", false)] {
            let c = base().build();
            let r = rt(false, async move {
                let (a, b) = pipe(16384);
                let srv = tokio::spawn(tlsn_server_fixture::bind(b.compat()));
                let r = connect(c, a, n).await.map(|_| ()).map_err(|e| e.to_string());
                _ = srv.await.map_err(|e| e.to_string())?;
                Ok(r)
            })?;
            ck!(r.is_ok() == ok, "{n}: {r:?}");
            h.trans(1);
        }
        Ok(())
    });
}

trait Ty {
    fn type_id_(&self) -> String;
}
impl Ty for Body {
    fn type_id_(&self) -> String {
        format!("{self:?}")
    }
}

fn echo_model(m: &str, p: &str, b: &[u8]) -> (u16, Option<Vec<u8>>) {
    match (m, p) {
        ("GET", "/") => (200, None),
        ("POST", "/echo") => (200, Some(b.to_vec())),
        ("POST", "/echo/uppercase") => (200, Some(b.iter().map(|c| if (b'a'..=b'z').contains(c) { c - 32 } else { *c }).collect())),
        ("POST", "/echo/reversed") => (200, Some(b.iter().rev().copied().collect())),
        _ => (404, Some(vec![])),
    }
}
fn wire(m: &str, p: &str, b: &[u8], chunks: Option<&[usize]>) -> Vec<u8> {
    let mut o = format!("{m} {p} HTTP/1.1\r\nhost: test-server.io\r\n").into_bytes();
    match chunks {
        None => {
            o.extend(format!("content-length: {}\r\n\r\n", b.len()).bytes());
            o.extend(b);
        }
        Some(cs) => {
            o.extend(b"transfer-encoding: chunked\r\n\r\n");
            let mut i = 0;
            for c in cs {
                o.extend(format!("{c:x}\r\n").bytes());
                o.extend(&b[i..i + c]);
                o.extend(b"\r\n");
                i += c;
            }
            o.extend(b"0\r\n\r\n");
        }
    }
    o
}

/// Sends the requests on one connection (all at once or one by one) and compares the answers.
fn echo_talk(h: &Hx, proto: usize, cap: usize, pipelined: bool, reqs: &[(&str, &str, Vec<u8>, Option<Vec<usize>>)]) -> R {
    let cfg = ClientCfg { ca: tls_server_fixture::CA_CERT_DER, auth: None, proto }.build();
    rt(false, async move {
        let (a, b) = pipe(cap);
        let srv = tokio::spawn(tls_server_fixture::bind_test_server_hyper(b.compat()));
        let t = connect(cfg, a, tls_server_fixture::SERVER_DOMAIN).await.map_err(|e| format!("connect: {e}"))?;
        let (mut rd, mut wr) = futures::AsyncReadExt::split(t);
        let wires: Vec<Vec<u8>> = reqs.iter().map(|(m, p, b, c)| wire(m, p, b, c.as_deref())).collect();
        let mut buf: Vec<u8> = vec![];
        let mut answers = vec![];
        let writer = async {
            if pipelined {
                wr.write_all(&wires.concat()).await.map_err(|e| e.to_string())?;
                wr.flush().await.map_err(|e| e.to_string())?;
            }
            Ok::<_, String>(())
        };
        let reader = async {
            if !pipelined {
                return Ok(());
            }
            while answers.len() < reqs.len() {
                if let Some((r, n)) = parse(&buf, false)? {
                    buf.drain(..n);
                    answers.push(r);
                    continue;
                }
                let mut t = [0u8; 4096];
                let n = futures::AsyncReadExt::read(&mut rd, &mut t).await.map_err(|e| e.to_string())?;
                ck!(n > 0, "connection ended after {} of {} answers", answers.len(), reqs.len());
                buf.extend(&t[..n]);
            }
            Ok::<_, String>(())
        };
        let (w, r) = futures::join!(writer, reader);
        w?;
        r?;
        if !pipelined {
            for w in &wires {
                let send = async {
                    wr.write_all(w).await.map_err(|e| e.to_string())?;
                    wr.flush().await.map_err(|e| e.to_string())
                };
                let recv = async {
                    loop {
                        if let Some((r, n)) = parse(&buf, false)? {
                            buf.drain(..n);
                            return Ok::<_, String>(r);
                        }
                        let mut t = [0u8; 4096];
                        let n = futures::AsyncReadExt::read(&mut rd, &mut t).await.map_err(|e| e.to_string())?;
                        ck!(n > 0, "connection ended");
                        buf.extend(&t[..n]);
                    }
                };
                let (s, r) = futures::join!(send, recv);
                s?;
                answers.push(r?);
            }
        }
        wr.close().await.map_err(|e| e.to_string())?;
        let (rest, _) = drain(&mut rd).await;
        ck!(buf.is_empty() && rest.is_empty(), "{} stray bytes", buf.len() + rest.len());
        drop((rd, wr));
        _ = srv.await.map_err(|e| format!("the server task failed: {e}"))?;
        for (i, ((m, p, b, _), r)) in reqs.iter().zip(&answers).enumerate() {
            let (st, body) = echo_model(m, p, b);
            ck_eq!(r.status, st, "request {i} {m} {p}: status");
            if let Some(x) = body {
                ck!(r.body == x, "request {i} {m} {p}: body {:?}, expected {:?}", hex(&r.body[..r.body.len().min(40)]), hex(&x[..x.len().min(40)]));
            } else {
                ck!(!r.body.is_empty(), "request {i}: no instructions");
            }
        }
        h.trans(reqs.len() as u64);
        Ok(())
    })
}

pub fn s02(h: &Hx) {
    h.assume("HTTP parsing and TLS records are hyper's and rustls's own; the client side is rustls");
    let ops = [("GET", "/"), ("POST", "/echo"), ("POST", "/echo/uppercase"), ("POST", "/echo/reversed"), ("POST", "/"), ("GET", "/echo"), ("GET", "/echo/reversed"), ("POST", "/echo/"), ("PUT", "/echo"), ("POST", "/other")];
    // every sequence of operations on one connection
    let bodies: [&[u8]; 3] = [b"", b"aZ\x00\xff{", b"hello World"];
    let alpha: Vec<(usize, usize)> = (0..ops.len()).flat_map(|o| (0..bodies.len()).map(move |b| (o, b))).filter(|(o, b)| *o < 4 || *b == 0).collect();
    let seqs = all_seqs(alpha.len(), 1, h.tier(3, 4));
    h.par(&seqs, |s| {
        for pl in [false, true] {
            h.case(|| format!("seq/{pl}/{s:?}"), || {
                let v: Vec<_> = s.iter().map(|i| { let (o, b) = alpha[*i]; (ops[o].0, ops[o].1, bodies[b].to_vec(), None) }).collect();
                h.state(s);
                echo_talk(h, s.len() % 4, 16384, pl, &v)
            });
        }
    });
    // every byte value
    let all: Vec<u8> = (0..=255).collect();
    // every way to cut a body into chunks
    let body = b"abCdz{@Z0";
    let n = h.tier(9, 13);
    let body = &body.repeat(2);
    let mut jobs: Vec<(usize, Vec<u8>, Option<Vec<usize>>, usize)> = vec![];
    for op in 1..4 {
        for c in compositions(n) {
            jobs.push((op, body[..n].to_vec(), Some(c), 16384));
        }
        for cap in [1usize, 3, 64, 16384] {
            jobs.push((op, all.clone(), None, cap));
            jobs.push((op, all.clone(), Some(vec![97, 1, 26, 132]), cap));
        }
        for len in [0usize, 1, 16383, 16384, 16385, 65535, 65536, 65537, 300_000, 1 << 20, h.tier((1 << 20) + 1, (1 << 21) + 1)] {
            let b: Vec<u8> = (0..len).map(|i| (i * 7 + i / 256) as u8).collect();
            jobs.push((op, b.clone(), None, 4096));
            jobs.push((op, b, None, 1 << 16));
        }
    }
    // chunks of every size around the buffer sizes, two bodies in a row
    for op in 1..4 {
        for a in [1usize, 4095, 4096, 8191, 8192, 8193, 16384, 40000, 65536, 131072] {
            let b: Vec<u8> = (0..2 * a + 1).map(|i| (i * 11 + i / 256) as u8).collect();
            jobs.push((op, b.clone(), Some(vec![a, 1, a]), 1 << 16));
            jobs.push((op, b, Some(vec![a, a + 1]), 1000));
        }
    }
    // long connections, plain and chunked mixed
    for pl in [false, true] {
        for n in [40usize, h.tier(130, 1100)] {
            h.case(|| format!("long/{pl}/{n}"), || {
                let v: Vec<_> = (0..n)
                    .map(|i| {
                        let (m, p) = ops[i * 7 % ops.len()];
                        let b: Vec<u8> = (0..i % 23).map(|j| (i * 5 + j * 3) as u8).collect();
                        let c = if i % 3 == 1 && !b.is_empty() { Some(vec![b.len()]) } else { None };
                        if m == "POST" || b.is_empty() { (m, p, b, c) } else { (m, p, vec![], None) }
                    })
                    .collect();
                h.state(&("long", pl, n));
                echo_talk(h, 0, 16384, pl, &v)
            });
        }
    }
    // what follows the path does not matter; near misses of the paths do
    for (m, p, to) in [("POST", "/echo?x=1", 1), ("POST", "/echo/uppercase?y", 2), ("POST", "/echo/reversed?a=/echo", 3), ("POST", "/echo/upper", 0), ("POST", "/echo/reverse", 0), ("POST", "/echo/uppercase/", 0), ("POST", "/Echo", 0), ("POST", "/echo/UPPERCASE", 0), ("DELETE", "/echo", 0), ("POST", "/?/echo", 0), ("POST", "//echo", 0)] {
        for b in [&b"aZ\xe9\xff b"[..], b"x"] {
            h.case(|| format!("path/{m} {p}/{}", b.len()), || {
                let cfg = ClientCfg { ca: tls_server_fixture::CA_CERT_DER, auth: None, proto: 0 }.build();
                rt(false, async {
                    let (a, e) = pipe(16384);
                    let srv = tokio::spawn(tls_server_fixture::bind_test_server_hyper(e.compat()));
                    let mut t = connect(cfg, a, tls_server_fixture::SERVER_DOMAIN).await.map_err(|e| format!("connect: {e}"))?;
                    send(&mut t, &[&wire(m, p, b, None)]).await.map_err(|e| e.to_string())?;
                    let mut got = vec![];
                    let r = loop {
                        if let Some((r, _)) = parse(&got, false)? {
                            break r;
                        }
                        let mut b = [0u8; 4096];
                        let n = futures::AsyncReadExt::read(&mut t, &mut b).await.map_err(|e| e.to_string())?;
                        ck!(n > 0, "no answer");
                        got.extend(&b[..n]);
                    };
                    t.close().await.map_err(|e| e.to_string())?;
                    drop(t);
                    _ = srv.await.map_err(|e| e.to_string())?;
                    h.state(&("path", m, p, b));
                    h.trans(1);
                    if to == 0 {
                        ck_eq!(r.status, 404, "status");
                        ck!(r.body.is_empty(), "body of an unknown path");
                    } else {
                        ck_eq!(r.status, 200, "status");
                        ck!(Some(r.body) == echo_model("POST", ops[to].1, b).1, "body");
                    }
                    Ok(())
                })
            });
        }
    }
    h.par(&jobs, |(op, b, c, cap)| {
        h.case(|| format!("body/{op}/{}/{c:?}/{cap}", b.len()), || {
            h.state(&(op, b, c));
            for proto in 0..h.tier(2, 4) {
                echo_talk(h, proto, *cap, false, &[(ops[*op].0, ops[*op].1, b.clone(), c.clone())])?;
            }
            Ok(())
        });
    });
}
