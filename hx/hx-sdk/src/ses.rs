//! S08-S10: sessions through the SDK: prover, verifier and server in one process.
use crate::msg::norm;
use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use futures_plex::{duplex, DuplexStream};
use hx_lib::*;
use rustls::pki_types::{CertificateDer as RCert, PrivateKeyDer};
use std::{
    future::Future,
    io::{self, Read, Write},
    ops::Range,
    pin::Pin,
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc, LazyLock, Mutex,
    },
    task::{Context, Poll},
    time::Duration,
};
use tlsn_sdk_core::{
    error::ErrorKind, Body, Commit, CommitRange, HashAlgorithm, HttpRequest, HttpResponse, Method, NetworkSetting, ProverConfig, ProverMode, Reveal, RevealOutput, SdkError, SdkProver, SdkVerifier, TlsVersion, Transcript, VerifierConfig,
    VerifierOutput,
};
use tlsn_server_fixture_certs::{CA_CERT_DER, SERVER_CERT_DER, SERVER_DOMAIN, SERVER_KEY_DER};

/// A stream carrying at most `max` bytes per call, not ready on every `lag`th call.
pub struct Slow<T> {
    pub io: T,
    max: usize,
    lag: usize,
    n: [usize; 2],
    pub calls: Arc<AtomicUsize>,
    /// Fails from this transfer on; the kind of failure.
    pub die: Option<(usize, Fault)>,
    moved: usize,
    /// The largest number of transfers of any such connection of the session.
    pub most: Arc<AtomicUsize>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// Nothing more arrives and nothing can be sent.
    Reset,
    /// The end of the stream; what is sent is lost.
    End,
}
impl<T> Slow<T> {
    pub fn new(io: T, max: usize, lag: usize) -> Self {
        Slow { io, max, lag, n: [0; 2], calls: Default::default(), die: None, moved: 0, most: Default::default() }
    }
    fn late(&mut self, cx: &mut Context<'_>, dir: usize) -> bool {
        self.calls.fetch_add(1, SeqCst);
        self.n[dir] += 1;
        if self.lag > 0 && self.n[dir] % (self.lag + 1) == 0 {
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
}
impl<T> Slow<T> {
    fn dead(&mut self) -> Option<Fault> {
        self.die.filter(|(at, _)| self.moved >= *at).map(|d| d.1)
    }
    fn count(&mut self, ready: bool) {
        self.moved += ready as usize;
        self.most.fetch_max(self.moved, SeqCst);
    }
}
impl<T: AsyncRead + Unpin> AsyncRead for Slow<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.late(cx, 0) {
            return Poll::Pending;
        }
        match self.dead() {
            Some(Fault::Reset) => return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            Some(Fault::End) => return Poll::Ready(Ok(0)),
            None => {}
        }
        let n = b.len().min(self.max);
        let r = Pin::new(&mut self.io).poll_read(cx, &mut b[..n]);
        self.count(r.is_ready());
        r
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for Slow<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.late(cx, 1) {
            return Poll::Pending;
        }
        match self.dead() {
            Some(Fault::Reset) => return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            Some(Fault::End) => return Poll::Ready(Ok(b.len())),
            None => {}
        }
        let n = b.len().min(self.max);
        let r = Pin::new(&mut self.io).poll_write(cx, &b[..n]);
        self.count(r.is_ready());
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.io).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.io).poll_close(cx)
    }
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub proxy: bool,
    pub req: HttpRequest,
    /// Response, one TLS record each.
    pub resp: Vec<Vec<u8>>,
    /// The server closes as soon as it has answered.
    pub eager: bool,
    /// The verifier's side: largest transfer and lag per call.
    pub link: (usize, usize),
    pub tcp: (usize, usize),
    pub defer: bool,
    /// Faults of the prover's and the verifier's end of their connection, and of the connection to the server.
    pub die: [Option<(usize, Fault)>; 3],
}
pub fn base() -> Scn {
    Scn { proxy: false, req: HttpRequest::get("/"), resp: vec![b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello".to_vec()], eager: true, link: (1 << 20, 0), tcp: (1 << 20, 0), defer: true, die: [None; 3] }
}
#[derive(Default, Debug, Clone)]
pub struct Wire {
    pub got: Vec<u8>,
    pub sent: Vec<u8>,
    pub err: Option<String>,
    pub connected: bool,
}
pub type Sh = Arc<Mutex<Wire>>;

static SRV: LazyLock<Arc<rustls::ServerConfig>> = LazyLock::new(|| {
    Arc::new(
        rustls::ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
            .with_protocol_versions(&[&rustls::version::TLS12])
            .unwrap()
            .with_no_client_auth()
            .with_single_cert(vec![RCert::from(SERVER_CERT_DER)], PrivateKeyDer::Pkcs8(SERVER_KEY_DER.into()))
            .unwrap(),
    )
});
fn complete(b: &[u8]) -> bool {
    let Some(p) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return false };
    let head = String::from_utf8_lossy(&b[..p]).to_ascii_lowercase();
    let len = head.lines().find_map(|l| l.strip_prefix("content-length:").and_then(|v| v.trim().parse::<usize>().ok())).unwrap_or(0);
    b.len() >= p + 4 + len
}
pub async fn server(mut io: Slow<DuplexStream>, resp: Vec<Vec<u8>>, eager: bool, out: Sh) {
    let mut c = rustls::ServerConnection::new(SRV.clone()).unwrap();
    async fn flush(c: &mut rustls::ServerConnection, io: &mut Slow<DuplexStream>) -> io::Result<()> {
        let mut b = vec![];
        while c.wants_write() {
            c.write_tls(&mut b)?;
        }
        io.write_all(&b).await
    }
    let r: io::Result<()> = async {
        let mut answered = false;
        let mut closed = false;
        loop {
            let mut b = vec![0u8; 16384];
            let n = io.read(&mut b).await?;
            out.lock().unwrap().connected = true;
            let mut rd = &b[..n];
            while !rd.is_empty() {
                c.read_tls(&mut rd)?;
                match c.process_new_packets() {
                    Ok(st) => {
                        closed |= st.peer_has_closed();
                        let mut p = vec![0; st.plaintext_bytes_to_read()];
                        c.reader().read_exact(&mut p)?;
                        out.lock().unwrap().got.extend(p);
                    }
                    Err(e) => {
                        let _ = flush(&mut c, &mut io).await;
                        return Err(io::Error::other(e));
                    }
                }
            }
            flush(&mut c, &mut io).await?;
            if !answered && complete(&out.lock().unwrap().got) {
                answered = true;
                for r in &resp {
                    c.writer().write_all(r)?;
                    out.lock().unwrap().sent.extend(r);
                    flush(&mut c, &mut io).await?;
                }
                if eager {
                    c.send_close_notify();
                    flush(&mut c, &mut io).await?;
                    io.close().await?;
                }
            }
            if closed {
                if !eager {
                    c.send_close_notify();
                    flush(&mut c, &mut io).await?;
                }
                return io.close().await;
            }
            if n == 0 {
                return Ok(());
            }
        }
    }
    .await;
    out.lock().unwrap().err = r.err().map(|e| e.to_string());
}
pub fn roots() -> Vec<Vec<u8>> {
    vec![CA_CERT_DER.to_vec()]
}
pub fn pcfg(s: &Scn) -> ProverConfig {
    let mut b = ProverConfig::builder(SERVER_DOMAIN)
        .mode(if s.proxy { ProverMode::Proxy } else { ProverMode::Mpc })
        .max_sent_data(2048)
        .max_recv_data(4096)
        .defer_decryption_from_start(s.defer)
        .network(NetworkSetting::Latency)
        .root_certs(roots());
    if !s.defer {
        b = b.max_recv_data_online(1024);
    }
    b.build().unwrap()
}
pub fn vcfg() -> VerifierConfig {
    VerifierConfig::builder().max_sent_data(2048).max_recv_data(4096).root_certs(roots()).build().unwrap()
}
/// Runs to completion; None if nothing can go on any more, or nothing comes of it.
pub fn run<T>(f: impl Future<Output = T>) -> Option<T> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
    let mut polls = 0usize;
    let f = std::future::poll_fn(move |cx| {
        polls += 1;
        if polls > 400_000 {
            return Poll::Ready(None);
        }
        f.as_mut().poll(cx).map(Some)
    });
    // Time only moves when every task is waiting.
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(3600), f).await.ok().flatten() });
    rt.shutdown_background();
    r
}
#[derive(Debug, Default)]
pub struct Done {
    pub wire: Wire,
    pub resp: Option<HttpResponse>,
    pub transcript: Option<Transcript>,
    pub opened: Option<Result<RevealOutput, SdkError>>,
    pub verified: Option<Result<VerifierOutput, SdkError>>,
    pub complete: (bool, bool),
    pub name: Option<String>,
    pub ends: (Option<String>, Option<String>),
    pub moved: [usize; 3],
}
/// A whole session.
pub fn session(s: &Scn, pick: &(dyn Fn(&Transcript) -> (Reveal, Option<Commit>) + Sync)) -> Result<Done, String> {
    session_with(s, pcfg(s), vcfg(), pick)
}
/// A session whose request fails; what the server saw and the kind of error.
pub fn session_err(s: &Scn, kind: &Mutex<Option<ErrorKind>>) -> Result<Wire, String> {
    let seen: Arc<Mutex<Wire>> = Default::default();
    let r = session_in(s, pcfg(s), vcfg(), &|_| (Reveal::new(), None), seen.clone(), kind, None);
    ck!(r.is_err(), "the request succeeded");
    let w = seen.lock().unwrap().clone();
    Ok(w)
}
pub fn session_with(s: &Scn, pc: ProverConfig, vc: VerifierConfig, pick: &(dyn Fn(&Transcript) -> (Reveal, Option<Commit>) + Sync)) -> Result<Done, String> {
    session_in(s, pc, vc, pick, Default::default(), &Mutex::new(None), None)
}
/// A session in which connections may fail.
pub fn session_fault(s: &Scn, pick: &(dyn Fn(&Transcript) -> (Reveal, Option<Commit>) + Sync)) -> Result<Done, String> {
    let d = Mutex::new(None);
    session_in(s, pcfg(s), vcfg(), pick, Default::default(), &Mutex::new(None), Some(&d))?;
    d.into_inner().unwrap().ok_or("no end".to_string())
}
fn session_in(s: &Scn, pconf: ProverConfig, vconf: VerifierConfig, pick: &(dyn Fn(&Transcript) -> (Reveal, Option<Commit>) + Sync), sh: Sh, kind: &Mutex<Option<ErrorKind>>, fault: Option<&Mutex<Option<Done>>>) -> Result<Done, String> {
    let (pio, vio) = duplex(1 << 20);
    let (cio, sio) = duplex(1 << 17);
    let done: Arc<Mutex<Done>> = Default::default();
    let (dp, dv) = (done.clone(), done.clone());
    let most: [Arc<AtomicUsize>; 3] = Default::default();
    let mut cio = Slow::new(cio, s.tcp.0, s.tcp.1);
    let mut pio = Slow::new(pio, s.link.0, s.link.1);
    let mut vio = Slow::new(vio, s.link.0, s.link.1);
    (pio.die, vio.die, cio.die) = (s.die[0], s.die[1], s.die[2]);
    (pio.most, vio.most, cio.most) = (most[0].clone(), most[1].clone(), most[2].clone());
    let (pc, vc) = if s.proxy { (None, Some(cio)) } else { (Some(cio), None) };
    let r = run(async {
        let p = async {
            let mut p = SdkProver::new(pconf).map_err(|e| format!("new: {e}"))?;
            p.setup(pio).await.map_err(|e| format!("prover setup: {e}"))?;
            let r = match pc {
                Some(io) => p.send_request_mpc(io, s.req.clone()).await,
                None => p.send_request_proxy(s.req.clone()).await,
            }
            .map_err(|e| {
                *kind.lock().unwrap() = Some(e.kind());
                format!("request: {e}")
            })?;
            let t = p.transcript().map_err(|e| format!("transcript: {e}"))?;
            let (rv, cm) = pick(&t);
            {
                let mut d = dp.lock().unwrap();
                d.resp = Some(r);
                d.transcript = Some(t);
            }
            ck!(!p.is_complete(), "complete before the proof");
            let o = p.reveal(rv, cm).await;
            let mut d = dp.lock().unwrap();
            d.opened = Some(o);
            d.complete.0 = p.is_complete();
            Ok::<_, String>(())
        };
        let v = async {
            let mut v = SdkVerifier::new(vconf);
            v.connect(vio).await.map_err(|e| format!("connect: {e}"))?;
            let n = v.setup().await.map_err(|e| format!("verifier setup: {e}"))?;
            dv.lock().unwrap().name = n;
            if let Some(io) = vc {
                v.set_server_socket(io).map_err(|e| format!("socket: {e}"))?;
            }
            v.run().await.map_err(|e| format!("run: {e}"))?;
            ck!(!v.is_complete(), "complete before the proof");
            let o = v.verify().await;
            let mut d = dv.lock().unwrap();
            d.verified = Some(o);
            d.complete.1 = v.is_complete();
            Ok::<_, String>(())
        };
        let srv = server(Slow::new(sio, s.tcp.0, s.tcp.1), s.resp.clone(), s.eager, sh.clone());
        let (a, b, ()) = futures::join!(p, v, srv);
        done.lock().unwrap().ends = (a.clone().err(), b.clone().err());
        a.and(b)
    });
    let mut d = std::mem::take(&mut *done.lock().unwrap());
    d.wire = sh.lock().unwrap().clone();
    d.moved = [0, 1, 2].map(|i| most[i].load(SeqCst));
    if let Some(f) = fault {
        *f.lock().unwrap() = Some(d);
        return if r.is_none() { Err("stuck".into()) } else { Ok(Done::default()) };
    }
    match r {
        None => Err(format!("stuck: {d:?}")),
        Some(Err(e)) => Err(format!("{e}; {:?}", d.wire)),
        Some(Ok(())) => Ok(d),
    }
}
fn digest(alg: HashAlgorithm, data: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    use tiny_keccak::Hasher;
    match alg {
        HashAlgorithm::Sha256 => sha2::Sha256::digest(data).to_vec(),
        HashAlgorithm::Blake3 => blake3::hash(data).as_bytes().to_vec(),
        HashAlgorithm::Keccak256 => {
            let mut k = tiny_keccak::Keccak::v256();
            k.update(data);
            let mut o = vec![0; 32];
            k.finalize(&mut o);
            o
        }
    }
}
/// Compares what both sides hold with what crossed the wire.
pub fn check(s: &Scn, d: &Done, rv: &Reveal, cm: &Option<Commit>) -> R {
    let (w, t) = (&d.wire, d.transcript.as_ref().ok_or("no transcript")?);
    ck_eq!(hex(&t.sent), hex(&w.got), "sent data as the prover holds it");
    ck_eq!(hex(&t.recv), hex(&w.sent), "received data as the prover holds it");
    ck_eq!(d.name.as_deref(), s.proxy.then_some(SERVER_DOMAIN), "server to connect to");
    let o = d.opened.as_ref().ok_or("no opening")?.as_ref().map_err(|e| format!("reveal: {e}"))?;
    let v = d.verified.as_ref().ok_or("no output")?.as_ref().map_err(|e| format!("verify: {e}"))?;
    ck_eq!(d.complete, (true, true), "complete");
    // What was revealed, and nothing else.
    ck_eq!(v.server_name.as_deref(), rv.server_identity.then_some(SERVER_DOMAIN), "server name");
    ck_eq!(v.connection_info.version, TlsVersion::V1_2, "version");
    ck_eq!((v.connection_info.transcript_length.sent, v.connection_info.transcript_length.recv), (w.got.len(), w.sent.len()), "transcript lengths");
    let (sa, ra) = (norm(rv.sent.clone()), norm(rv.recv.clone()));
    match &v.transcript {
        None => ck!(sa.is_empty() && ra.is_empty(), "nothing revealed"),
        Some(p) => {
            ck_eq!(&p.sent_authed, &sa, "revealed ranges of sent data");
            ck_eq!(&p.recv_authed, &ra, "revealed ranges of received data");
            for (n, got, all, au) in [("sent", &p.sent, &w.got, &sa), ("received", &p.recv, &w.sent, &ra)] {
                ck_eq!(got.len(), all.len(), "{n} length");
                for i in 0..all.len() {
                    let shown = au.iter().any(|r| r.contains(&i));
                    ck_eq!(got[i], if shown { all[i] } else { 0 }, "{n} byte {i} (revealed {shown})");
                }
            }
        }
    }
    // Each commitment is opened by the opening at its place.
    let none = Commit { sent: vec![], recv: vec![] };
    let c = cm.as_ref().unwrap_or(&none);
    for (n, cs, os, all) in [("sent", &c.sent, &o.sent, &w.got), ("received", &c.recv, &o.recv, &w.sent)] {
        ck_eq!(os.len(), cs.len(), "number of {n} openings");
        for (i, (c, o)) in cs.iter().zip(os).enumerate() {
            let mut m = all[c.range()].to_vec();
            m.extend(&o.blinder);
            ck_eq!(o.blinder.len(), 16, "blinder");
            ck_eq!(hex(&o.hash), hex(&digest(c.algorithm, &m)), "{n} opening {i} does not open commitment {i} ({:?} {:?})", c.range(), c.algorithm);
        }
    }
    Ok(())
}
pub const ALGS: [HashAlgorithm; 3] = [HashAlgorithm::Blake3, HashAlgorithm::Sha256, HashAlgorithm::Keccak256];
fn cr(r: Range<usize>, a: usize) -> CommitRange {
    CommitRange { start: r.start, end: r.end, algorithm: ALGS[a] }
}
pub fn s08(hx: &Hx) {
    // What is revealed and committed.
    let ranges = |len: usize| vec![0..1, 1..4, 3..7, 0..len, len - 1..len];
    let mut items: Vec<(bool, Vec<(bool, usize)>, Vec<(bool, usize, usize)>, bool)> = vec![];
    for proxy in [false, true] {
        for ident in [false, true] {
            // every list of reveals
            let slots: Vec<(bool, usize)> = product(&[2, 5]).iter().map(|p| (p[0] == 1, p[1])).collect();
            for k in 0..=hx.tier(2usize, 3) {
                for pick in product(&vec![slots.len(); k]) {
                    items.push((proxy, pick.iter().map(|i| slots[*i]).collect(), vec![], ident));
                }
            }
            // every list of commitments
            let slots: Vec<(bool, usize, usize)> = product(&[2, 5, 3]).iter().map(|p| (p[0] == 1, p[1], p[2])).collect();
            for k in 1..=2usize {
                for pick in product(&vec![slots.len(); k]) {
                    if hx.thorough() || ident != proxy {
                        items.push((proxy, vec![(ident, 1)], pick.iter().map(|i| slots[*i]).collect(), ident));
                    }
                }
            }
            let few: Vec<(bool, usize, usize)> = slots.iter().step_by(hx.tier(7, 4)).cloned().collect();
            for k in 3..=hx.tier(3usize, 4) {
                for pick in product(&vec![few.len(); k]) {
                    items.push((proxy, vec![], pick.iter().map(|i| few[*i]).collect(), ident));
                }
            }
        }
    }
    hx.note("disclosures", format!("{} sessions over lists of up to {} reveals or {} commitments", items.len(), hx.tier(2, 3), hx.tier(3, 4)));
    hx.par(&items, |(proxy, rs, cs, ident)| {
        hx.case(|| format!("disclose/{proxy}/{rs:?}/{cs:?}/{ident}"), || {
            let s = Scn { proxy: *proxy, ..base() };
            let at = |t: &Transcript, sent: bool, i: usize| ranges(if sent { t.sent.len() } else { t.recv.len() })[i].clone();
            let pick = |t: &Transcript| {
                let mut rv = Reveal::new().server_identity(*ident);
                for (sent, i) in rs {
                    let r = at(t, *sent, *i);
                    rv = if *sent { rv.sent(r) } else { rv.recv(r) };
                }
                let mut c = Commit { sent: vec![], recv: vec![] };
                for (sent, i, a) in cs {
                    let r = cr(at(t, *sent, *i), *a);
                    if *sent { &mut c.sent } else { &mut c.recv }.push(r);
                }
                (rv, (!cs.is_empty()).then_some(c))
            };
            let d = session(&s, &pick)?;
            let t = d.transcript.as_ref().ok_or("no transcript")?;
            let (rv, cm) = pick(t);
            hx.trans(1);
            hx.state(&(proxy, rs, cs, ident));
            check(&s, &d, &rv, &cm)
        });
    });
}
