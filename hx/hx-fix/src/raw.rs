//! S03: the raw TLS test server: every history of commands.
use crate::net::*;
use futures::{AsyncReadExt, AsyncWriteExt};
use hx_lib::*;
use tls_server_fixture as fx;
use tokio_util::compat::TokioAsyncReadCompatExt;

const CMDS: [&str; 8] = [
    "hi",
    "must_delay_when_closing",
    "send_close_notify",
    "send_close_notify_and_close_socket",
    "close_socket",
    "send_corrupted_message",
    "send_record_with_bad_mac",
    "send_alert",
];

fn rec(cmd: &str, at: usize) -> Vec<u8> {
    let mut v = vec![0u8; fx::APP_RECORD_LENGTH];
    v[at..at + cmd.len()].copy_from_slice(cmd.as_bytes());
    v
}

/// `seq`: commands; a final command index >= 2 ends the connection, otherwise the client closes.
/// `tail`: bytes of an unfinished record sent before closing.
fn run_one(h: &Hx, seq: &[usize], proto: usize, cap: usize, cut: usize, tail: usize, at: usize, buffered: bool) -> R {
    let cfg = ClientCfg { ca: fx::CA_CERT_DER, auth: None, proto }.build();
    let delay = seq.contains(&1);
    // without a final command nothing runs on other threads: virtual time
    rt(seq.iter().all(|c| *c < 2), async move {
        let (a, mut b) = pipe(cap);
        b.2 = usize::MAX; // the fixture writes a closing record with a single call
        let tap = b.3.clone();
        b.4 = buffered.then(Vec::new);
        let srv = tokio::spawn(async move {
            let t = tokio::time::Instant::now();
            fx::bind_test_server(b.compat()).await;
            t.elapsed()
        });
        let mut t = connect(cfg, a, fx::SERVER_DOMAIN).await.map_err(|e| format!("connect: {e}"))?;
        let mut ended = false;
        for (i, c) in seq.iter().enumerate() {
            let r = rec(CMDS[*c], at);
            if cut > 0 {
                send(&mut t, &[&r[..cut], &r[cut..]]).await.map_err(|e| format!("send {i}: {e}"))?;
            } else {
                send(&mut t, &[&r]).await.map_err(|e| format!("send {i}: {e}"))?;
            }
            h.trans(1);
            match c {
                0 => {
                    let mut b = [0u8; 5];
                    t.read_exact(&mut b).await.map_err(|e| format!("answer {i}: {e}"))?;
                    ck!(&b == b"hello", "answer {i}: {:?}", String::from_utf8_lossy(&b));
                }
                1 => {}
                _ => ended = true,
            }
        }
        let closing = tokio::time::Instant::now();
        if !ended {
            if tail > 0 {
                send(&mut t, &[&rec("hi", 0)[..tail]]).await.map_err(|e| e.to_string())?;
            }
            t.close().await.map_err(|e| format!("close: {e}"))?;
            let (got, _) = drain_tls(&mut t).await;
            ck!(got.is_empty(), "{} bytes after closing", got.len());
            drop(t);
            srv.await.map_err(|e| format!("the server failed: {e}"))?;
            let el = closing.elapsed().as_millis() as u64;
            if delay {
                ck!((fx::CLOSE_DELAY..fx::CLOSE_DELAY + 50).contains(&el), "socket closed after {el} ms although a delay of {} was requested", fx::CLOSE_DELAY);
            } else {
                ck!(el == 0, "socket closed only after {el} ms");
            }
            return Ok(());
        }
        let (got, end) = drain_tls(&mut t).await;
        ck!(got.is_empty(), "{} bytes of data after the last command", got.len());
        let last = *seq.last().unwrap();
        h.state(&(last, ended_as(last, &end)?));
        drop(t);
        srv.await.map_err(|e| format!("the server failed: {e}"))?;
        wire_ends_as(last, &tap)
    })
}

/// What the server left on the wire, and whether it closed its side.
fn wire_ends_as(last: usize, tap: &Tap) -> R {
    let t = tap.lock().unwrap();
    let (w, mut p, mut recs) = (&t.0, 0, vec![]);
    while w.len() - p >= 5 && (20..=23).contains(&w[p]) && w[p + 1] == 3 && w[p + 2] <= 4 {
        let n = u16::from_be_bytes([w[p + 3], w[p + 4]]) as usize;
        ck!(w.len() - p >= 5 + n, "unfinished record after {}", CMDS[last]);
        recs.push((w[p], w[p + 2], n));
        p += 5 + n;
    }
    let rest = w.len() - p;
    if last == 5 {
        ck!(rest > 0, "the corrupted message is a proper record");
    } else {
        ck!(rest == 0, "{rest} stray bytes after {}", CMDS[last]);
    }
    if last == 6 {
        let r = recs.last().unwrap();
        ck!(r.0 == 23 && r.1 == 3 && r.2 >= 24, "the record with a bad MAC is {r:?}");
    }
    match last {
        // closing means closing: after the last byte
        3 | 4 => ck!(t.1 == Some(w.len()), "{}: closed at {:?} of {}", CMDS[last], t.1, w.len()),
        _ => ck!(t.1.is_none(), "{} closes the socket", CMDS[last]),
    }
    Ok(())
}

/// How the client sees the connection end; an error unless it is what the command says.
fn ended_as(last: usize, end: &std::io::Result<()>) -> Result<String, String> {
    let kind = match end {
        Ok(()) => "close_notify".to_string(),
        Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => "eof".into(),
        Err(e) => e.get_ref().map(|x| format!("{x:?}")).unwrap_or(format!("{e:?}")),
    };
    let ok = match last {
        2 | 3 => kind == "close_notify",
        4 => kind == "eof",
        5 => kind.contains("InvalidMessage") || kind.contains("Corrupt"),
        6 => kind.contains("DecryptError"),
        7 => kind.contains("AlertReceived(BadRecordMac)"),
        _ => false,
    };
    ck!(ok, "after {}: connection ended with {kind}", CMDS[last]);
    Ok(kind)
}

pub fn s03(h: &Hx) {
    h.assume("TLS records are rustls's own; the closing delay is measured in virtual time");
    let n = h.tier(3usize, 6);
    let mut jobs = vec![];
    for pre in all_seqs(2, 0, n) {
        for last in 1..CMDS.len() {
            let mut s = pre.clone();
            if last > 1 {
                s.push(last);
            }
            if s.is_empty() {
                continue;
            }
            for proto in 0..4usize {
                for cut in [0usize, 1, 512, 1023] {
                    if !h.thorough() && proto > 0 && cut > 1 {
                        continue;
                    }
                    jobs.push((s.clone(), proto, cut, 0usize, 0usize, 16384usize));
                }
            }
            if last > 1 {
                for cap in [1usize, 64] {
                    jobs.push((s.clone(), 0, 0, 0, 0, cap));
                }
            }
        }
    }
    for tail in [1usize, 2, 1023] {
        for pre in [vec![], vec![0], vec![0, 0], vec![1]] {
            jobs.push((pre, 0, 0, tail, 0, 16384));
        }
    }
    for (c, w) in CMDS.iter().enumerate().skip(2) {
        for at in [1usize, 500, 1024 - w.len()] {
            jobs.push((vec![c], 0, 0, 0, at, 16384));
        }
    }
    h.par(&jobs, |(s, proto, cut, tail, at, cap)| {
        h.case(|| format!("{s:?}/{proto}/{cut}/{tail}/{at}/{cap}"), || run_one(h, s, *proto, *cap, *cut, *tail, *at, false));
        if *cut == 0 && *at == 0 {
            h.case(|| format!("flush/{s:?}/{proto}/{tail}/{cap}"), || run_one(h, s, *proto, *cap, 0, *tail, 0, true));
        }
    });
    // all records in one write: each is still carried out on its own, in order
    let n = h.tier(5usize, 9);
    let mut jobs = vec![];
    for pre in all_seqs(2, 0, n) {
        for last in 2..CMDS.len() {
            let mut s = pre.clone();
            s.push(last);
            jobs.push(s);
        }
    }
    for k in [20usize, 64] {
        for last in 2..CMDS.len() {
            let mut s = vec![0; k];
            s.push(last);
            jobs.push(s);
        }
    }
    h.par(&jobs, |s| {
        h.case(|| format!("batch/{s:?}"), || {
            let cfg = ClientCfg { ca: fx::CA_CERT_DER, auth: None, proto: s.len() % 4 }.build();
            rt(false, async {
                let (a, mut b) = pipe(16384);
                b.2 = usize::MAX;
                let tap = b.3.clone();
                let srv = tokio::spawn(fx::bind_test_server(b.compat()));
                let mut t = connect(cfg, a, fx::SERVER_DOMAIN).await.map_err(|e| format!("connect: {e}"))?;
                let all: Vec<u8> = s.iter().flat_map(|c| rec(CMDS[*c], 0)).collect();
                send(&mut t, &[&all]).await.map_err(|e| e.to_string())?;
                let (got, end) = drain_tls(&mut t).await;
                let want = "hello".repeat(s.iter().filter(|c| **c == 0).count());
                ck_eq!(String::from_utf8_lossy(&got), want, "answers");
                h.trans(s.len() as u64);
                h.state(s);
                ended_as(*s.last().unwrap(), &end)?;
                drop(t);
                srv.await.map_err(|e| format!("the server failed: {e}"))?;
                wire_ends_as(*s.last().unwrap(), &tap)
            })
        });
    });
    // any other text is answered, also one that contains or resembles a command
    let mut words: Vec<String> = vec!["x".into(), "".into(), "é".into(), "a".repeat(1024), "é".repeat(512), " ".repeat(1024), "hello".into(), "close".into(), "send".into()];
    for c in CMDS.iter().skip(1) {
        words.push(format!("{c}x"));
        words.push(format!(" {c}"));
        words.push(c[..c.len() - 1].to_string());
        words.push(c.to_uppercase());
        words.push(format!("{c} "));
        words.push(format!("{c}\n"));
        words.push(format!("{c};{c}"));
        words.push(format!("{c}{c}"));
        words.push(c.replace('_', " "));
        words.push(c.replace('_', "-"));
        words.push(c[1..].to_string());
        words.push(format!("{}{}", c[..1].to_uppercase(), &c[1..]));
    }
    h.par(&words, |w| {
        h.case(|| format!("word/{w:?}"), || {
            if CMDS[1..].contains(&w.as_str()) {
                return Ok(());
            }
            let cfg = ClientCfg { ca: fx::CA_CERT_DER, auth: None, proto: 0 }.build();
            rt(false, async {
                let (a, b) = pipe(16384);
                let srv = tokio::spawn(fx::bind_test_server(b.compat()));
                let mut t = connect(cfg, a, fx::SERVER_DOMAIN).await.map_err(|e| format!("connect: {e}"))?;
                for _ in 0..2 {
                    send(&mut t, &[&rec(w, 0)]).await.map_err(|e| e.to_string())?;
                    let mut b = [0u8; 5];
                    t.read_exact(&mut b).await.map_err(|e| format!("answer: {e}"))?;
                    ck!(&b == b"hello", "answer {:?}", String::from_utf8_lossy(&b));
                }
                t.close().await.map_err(|e| e.to_string())?;
                drop(t);
                srv.await.map_err(|e| e.to_string())?;
                h.trans(2);
                h.state(w);
                Ok(())
            })
        });
    });
}
