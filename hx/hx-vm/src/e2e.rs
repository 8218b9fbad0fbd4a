//! Full TLSNotary sessions (prover, verifier, server) inside one controlled scheduler.
use crate::sched::{End, Sched};
use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use futures_plex::{duplex, DuplexStream};
use rustls::pki_types::{CertificateDer as RCert, PrivateKeyDer};
use std::{
    cell::RefCell,
    future::{poll_fn, IntoFuture},
    io::{Read, Write},
    rc::Rc,
    task::Poll,
    sync::{Arc, LazyLock},
};
use tlsn::{
    config::{
        prove::ProveConfig,
        prover::ProverConfig,
        tls::TlsClientConfig,
        tls_commit::{mpc::MpcTlsConfig, proxy::ProxyTlsConfig},
        verifier::VerifierConfig,
    },
    connection::{DnsName, ServerName},
    prover::{state::Committed, Prover, ProverOutput},
    transcript::TlsTranscript,
    verifier::{state as vstate, Verifier, VerifierCommitStart, VerifierOutput},
    webpki::{CertificateDer, RootCertStore},
    Session,
};
use tlsn_server_fixture_certs::{CA_CERT_DER, SERVER_CERT_DER, SERVER_DOMAIN, SERVER_KEY_DER};

#[derive(Clone, Debug, PartialEq)]
pub enum Srv {
    /// Wait for this many plaintext bytes in total.
    Recv(usize),
    Send(Vec<u8>),
    /// Bytes put on the socket as they are.
    Raw(Vec<u8>),
    CloseNotify,
    /// Close the socket's write half.
    Shut,
    /// Wait until nothing else can happen.
    Idle,
    /// Send a fatal alert, as a server does that found a bad record.
    Fatal,
    /// Wait for the peer's close_notify or end of stream.
    WaitClose,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cli {
    Write(Vec<u8>),
    /// Read exactly this many bytes.
    Read(usize),
    ReadEof,
    /// Wait until the server has read this many bytes in total.
    Sync(usize),
    /// Wait until nothing else can happen.
    Idle,
    Close,
    Drop,
    /// Switch decryption during the session.
    Decrypt(bool),
}
#[derive(Clone, Debug)]
pub enum Mode {
    Mpc(MpcTlsConfig),
    Proxy(String),
}
pub type ProveFn = Rc<dyn Fn(&Prover<Committed>) -> Vec<ProveConfig>>;
/// Alters what one party's socket carries: (prover to verifier?, bytes).
#[derive(Clone)]
pub struct Scn {
    pub mode: Mode,
    pub cli: Vec<Cli>,
    pub srv: Vec<Srv>,
    pub prove: ProveFn,
    /// Verifier's answer to the commit request and to each prove request.
    pub accept_commit: bool,
    pub accept_prove: Vec<bool>,
    pub name: String,
    pub roots_p: Vec<Vec<u8>>,
    pub roots_v: Vec<Vec<u8>>,
    pub sess_cap: usize,
    pub tcp_cap: usize,
    /// Crash points: (step, task).
    pub kills: Vec<(usize, &'static str)>,
    /// Flip the lowest bit of this byte of what the server puts on its socket.
    pub srv_flip: Option<usize>,
}
impl Scn {
    pub fn new(mode: Mode, cli: Vec<Cli>, srv: Vec<Srv>) -> Self {
        Scn {
            mode,
            cli,
            srv,
            prove: Rc::new(|_| vec![]),
            accept_commit: true,
            accept_prove: vec![],
            name: SERVER_DOMAIN.into(),
            roots_p: vec![CA_CERT_DER.to_vec()],
            roots_v: vec![CA_CERT_DER.to_vec()],
            sess_cap: 1 << 24,
            tcp_cap: 1 << 17,
            kills: vec![],
            srv_flip: None,
        }
    }
}
#[derive(Default, Debug)]
pub struct Out {
    /// Error of each stage, or none.
    pub commit_p: Option<Result<(), String>>,
    pub connect_p: Option<Result<(), String>>,
    pub prover: Option<Result<TlsTranscript, String>>,
    pub verifier: Option<Result<TlsTranscript, String>>,
    pub proofs: Vec<Result<ProverOutput, String>>,
    pub outputs: Vec<Result<VerifierOutput, String>>,
    pub cli_read: Vec<u8>,
    pub cli: Option<Result<(), String>>,
    pub srv_read: Vec<u8>,
    pub srv: Option<Result<(), String>>,
    pub commit_v: Option<Result<(), String>>,
    pub driver_p: Option<Result<(), String>>,
    pub driver_v: Option<Result<(), String>>,
    pub transcript: Option<tlsn::transcript::Transcript>,
    pub panics: Vec<(&'static str, String)>,
    /// Bytes the server has put on its socket.
    pub srv_wrote: usize,
    /// What it put there and what it found there.
    pub srv_raw: (Vec<u8>, Vec<u8>),
    /// Session secrets logged by the server: (label, client random, secret).
    pub keylog: Vec<(String, Vec<u8>, Vec<u8>)>,
    pub order: Vec<u8>,
    pub wakers: Vec<std::task::Waker>,
}
pub type Sh = Rc<RefCell<Out>>;

static SRV_CFG: LazyLock<Arc<rustls::ServerConfig>> = LazyLock::new(|| {
    let cfg = rustls::ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
        .with_protocol_versions(&[&rustls::version::TLS12])
        .unwrap()
        .with_no_client_auth()
        .with_single_cert(vec![RCert::from(SERVER_CERT_DER)], PrivateKeyDer::Pkcs8(SERVER_KEY_DER.into()))
        .unwrap();
    Arc::new(cfg)
});

#[derive(Debug)]
struct Keys;
thread_local!(static KEYS: RefCell<Vec<(String, Vec<u8>, Vec<u8>)>> = const { RefCell::new(vec![]) });
impl rustls::KeyLog for Keys {
    fn log(&self, label: &str, client_random: &[u8], secret: &[u8]) {
        KEYS.with(|k| k.borrow_mut().push((label.into(), client_random.into(), secret.into())))
    }
}
/// Runs a scripted rustls server over `io`.
pub async fn server(mut io: DuplexStream, script: Vec<Srv>, flip: Option<usize>, out: Sh) -> Result<(), String> {
    let mut cfg = (**SRV_CFG).clone();
    cfg.key_log = Arc::new(Keys);
    KEYS.with(|k| k.borrow_mut().clear());
    let mut c = rustls::ServerConnection::new(Arc::new(cfg)).map_err(|e| e.to_string())?;
    let mut eof = false;
    let mut peer_closed = false;
    async fn put(mut b: Vec<u8>, io: &mut DuplexStream, flip: Option<usize>, out: &Sh) -> Result<(), String> {
        {
            let mut o = out.borrow_mut();
            if let Some(x) = flip.and_then(|f| f.checked_sub(o.srv_wrote)).and_then(|f| b.get_mut(f)) {
                *x ^= 1;
            }
            o.srv_wrote += b.len();
            o.srv_raw.0.extend(&b);
        }
        io.write_all(&b).await.map_err(|e| e.to_string())
    }
    async fn flush(c: &mut rustls::ServerConnection, io: &mut DuplexStream, flip: Option<usize>, out: &Sh) -> Result<(), String> {
        let mut b = vec![];
        while c.wants_write() {
            c.write_tls(&mut b).map_err(|e| e.to_string())?;
        }
        put(b, io, flip, out).await
    }
    for a in script {
        match a {
            Srv::Send(b) => {
                c.writer().write_all(&b).map_err(|e| e.to_string())?;
                flush(&mut c, &mut io, flip, &out).await?;
            }
            Srv::Raw(b) => put(b, &mut io, flip, &out).await?,
            Srv::CloseNotify => {
                c.send_close_notify();
                flush(&mut c, &mut io, flip, &out).await?;
            }
            Srv::Idle => crate::sched::idle().await,
            Srv::Fatal => {
                let mut bad = vec![23u8, 3, 3, 0, 40];
                bad.resize(45, 7);
                c.read_tls(&mut &bad[..]).map_err(|e| e.to_string())?;
                if c.process_new_packets().is_ok() {
                    return Err("server: no alert".into());
                }
                flush(&mut c, &mut io, flip, &out).await?;
            }
            Srv::Shut => io.close().await.map_err(|e| e.to_string())?,
            Srv::Recv(_) | Srv::WaitClose => loop {
                match a {
                    Srv::Recv(n) if out.borrow().srv_read.len() >= n && !c.is_handshaking() => break,
                    Srv::WaitClose if peer_closed || eof => break,
                    _ => {}
                }
                if eof || peer_closed {
                    return Err("server: end of stream".into());
                }
                let mut b = [0u8; 16384];
                let n = io.read(&mut b).await.map_err(|e| e.to_string())?;
                eof = n == 0;
                let mut rd = &b[..n];
                out.borrow_mut().srv_raw.1.extend(rd);
                while !rd.is_empty() {
                    c.read_tls(&mut rd).map_err(|e| e.to_string())?;
                    match c.process_new_packets() {
                        Ok(st) => {
                            peer_closed |= st.peer_has_closed();
                            let mut p = vec![0; st.plaintext_bytes_to_read()];
                            c.reader().read_exact(&mut p).map_err(|e| e.to_string())?;
                            let mut o = out.borrow_mut();
                            o.srv_read.extend(p);
                            o.wakers.drain(..).for_each(|w| w.wake());
                        }
                        Err(e) => {
                            let _ = flush(&mut c, &mut io, flip, &out).await;
                            return Err(e.to_string());
                        }
                    }
                }
                flush(&mut c, &mut io, flip, &out).await?;
            },
        }
    }
    Ok(())
}
fn roots(v: &[Vec<u8>]) -> RootCertStore {
    RootCertStore { roots: v.iter().map(|c| CertificateDer(c.clone())).collect() }
}
async fn client<S: AsyncRead + AsyncWrite + Unpin>(conn: S, script: Vec<Cli>, ctl: tlsn::prover::ProverControl, out: Sh) -> Result<(), String> {
    let mut conn = Some(conn);
    for a in script {
        let Some(c) = conn.as_mut() else { break };
        match a {
            Cli::Write(b) => c.write_all(&b).await.map_err(|e| e.to_string())?,
            Cli::Read(n) => {
                let mut b = vec![0; n];
                let mut got = 0;
                while got < n {
                    let k = c.read(&mut b[got..]).await.map_err(|e| e.to_string())?;
                    if k == 0 {
                        return Err("client: end of stream".into());
                    }
                    out.borrow_mut().cli_read.extend(&b[got..got + k]);
                    got += k;
                }
            }
            Cli::ReadEof => {
                let mut b = vec![0; 4096];
                loop {
                    let k = c.read(&mut b).await.map_err(|e| e.to_string())?;
                    if k == 0 {
                        break;
                    }
                    out.borrow_mut().cli_read.extend(&b[..k]);
                }
            }
            Cli::Sync(n) => {
                poll_fn(|cx| {
                    let mut o = out.borrow_mut();
                    if o.srv_read.len() >= n || matches!(o.prover, Some(Err(_))) {
                        return Poll::Ready(());
                    }
                    o.wakers.push(cx.waker().clone());
                    Poll::Pending
                })
                .await
            }
            Cli::Idle => crate::sched::idle().await,
            Cli::Close => c.close().await.map_err(|e| e.to_string())?,
            Cli::Drop => conn = None,
            Cli::Decrypt(d) => ctl.enable_decryption(d),
        }
    }
    Ok(())
}
type ToClient = futures::channel::oneshot::Sender<(tlsn::prover::TlsConnection, tlsn::prover::ProverControl)>;
pub async fn prover(p: Prover, scn: Scn, io: Option<DuplexStream>, to_client: ToClient, out: Sh) {
    async fn drive<S: AsyncRead + AsyncWrite + Send + Unpin + 'static>(
        conn: tlsn::prover::TlsConnection,
        p: Prover<tlsn::prover::state::Connected<S>>,
        to_client: ToClient,
    ) -> Result<Prover<Committed>, String> {
        let _ = to_client.send((conn, p.control()));
        p.into_future().await.map_err(|e| e.to_string())
    }
    let tls = TlsClientConfig::builder()
        .server_name(ServerName::Dns(DnsName::try_from(scn.name.as_str()).unwrap()))
        .root_store(roots(&scn.roots_p))
        .build()
        .unwrap();
    let r = match &scn.mode {
        Mode::Mpc(c) => match p.commit(c.clone()).await {
            Err(e) => {
                out.borrow_mut().commit_p = Some(Err(e.to_string()));
                return;
            }
            Ok(p) => {
                out.borrow_mut().commit_p = Some(Ok(()));
                match p.connect(tls, io.unwrap()) {
                    Err(e) => {
                        out.borrow_mut().connect_p = Some(Err(e.to_string()));
                        return;
                    }
                    Ok((conn, p)) => drive(conn, p, to_client).await,
                }
            }
        },
        Mode::Proxy(n) => {
            let c = ProxyTlsConfig::builder().server_name(DnsName::try_from(n.as_str()).unwrap()).build().unwrap();
            match p.commit(c).await {
                Err(e) => {
                    out.borrow_mut().commit_p = Some(Err(e.to_string()));
                    return;
                }
                Ok(p) => {
                    out.borrow_mut().commit_p = Some(Ok(()));
                    match p.connect(tls) {
                        Err(e) => {
                            out.borrow_mut().connect_p = Some(Err(e.to_string()));
                            return;
                        }
                        Ok((conn, p)) => drive(conn, p, to_client).await,
                    }
                }
            }
        }
    };
    let mut p = match r {
        Err(e) => {
            let mut o = out.borrow_mut();
            o.prover = Some(Err(e));
            o.wakers.drain(..).for_each(|w| w.wake());
            return;
        }
        Ok(p) => p,
    };
    {
        let mut o = out.borrow_mut();
        o.prover = Some(Ok(p.tls_transcript().clone()));
        o.transcript = Some(p.transcript().clone());
    }
    let cfgs = (scn.prove)(&p);
    for c in cfgs {
        let r = p.prove(&c).await.map_err(|e| e.to_string());
        let stop = r.is_err();
        out.borrow_mut().proofs.push(r);
        if stop && scn.accept_prove.iter().all(|a| *a) {
            break;
        }
    }
    if let Err(e) = p.close().await {
        out.borrow_mut().proofs.push(Err(e.to_string()));
    }
}
pub async fn verifier(v: Verifier, scn: Scn, io: Option<DuplexStream>, out: Sh) {
    let n_prove = scn.accept_prove.len();
    let set = |r: Result<(), String>| out.borrow_mut().commit_v = Some(r);
    let start = match v.commit().await {
        Err(e) => return set(Err(e.to_string())),
        Ok(s) => s,
    };
    let r: Result<Verifier<vstate::Committed>, String> = match start {
        VerifierCommitStart::Mpc(v) => {
            // An application bounds what it agrees to compute.
            let c = v.config();
            let sane = c.max_sent_data().max(c.max_recv_data()).max(c.max_recv_data_online()) <= 1 << 16 && c.max_sent_records().unwrap_or(0).max(c.max_recv_records_online().unwrap_or(0)) <= 64;
            if !scn.accept_commit || !sane {
                return set(v.reject(Some("no")).await.map_err(|e| e.to_string()));
            }
            match v.accept().await {
                Err(e) => return set(Err(e.to_string())),
                Ok(v) => {
                    set(Ok(()));
                    v.run().await.map_err(|e| e.to_string())
                }
            }
        }
        VerifierCommitStart::Proxy(v) => {
            if !scn.accept_commit {
                return set(v.reject(Some("no")).await.map_err(|e| e.to_string()));
            }
            match v.accept().await {
                Err(e) => return set(Err(e.to_string())),
                Ok(v) => {
                    set(Ok(()));
                    v.run(io.unwrap()).await.map_err(|e| e.to_string())
                }
            }
        }
    };
    let mut v = match r {
        Err(e) => {
            out.borrow_mut().verifier = Some(Err(e));
            return;
        }
        Ok(v) => v,
    };
    out.borrow_mut().verifier = Some(Ok(v.tls_transcript().clone()));
    for i in 0..n_prove {
        let r = match v.verify().await {
            Err(e) => {
                out.borrow_mut().outputs.push(Err(e.to_string()));
                return;
            }
            Ok(x) => x,
        };
        if scn.accept_prove[i] {
            match r.accept().await {
                Ok((o, nv)) => {
                    out.borrow_mut().outputs.push(Ok(o));
                    v = nv;
                }
                Err(e) => {
                    out.borrow_mut().outputs.push(Err(e.to_string()));
                    return;
                }
            }
        } else {
            match r.reject(Some("declined")).await {
                Ok(nv) => {
                    out.borrow_mut().outputs.push(Err("declined".into()));
                    v = nv;
                }
                Err(e) => {
                    out.borrow_mut().outputs.push(Err(e.to_string()));
                    return;
                }
            }
        }
    }
    if let Err(e) = v.close().await {
        out.borrow_mut().outputs.push(Err(e.to_string()));
    }
}
/// Runs the whole scenario under the schedule; returns what every party observed.
pub fn run(scn: &Scn, delays: &[usize], max: usize) -> Result<(Out, End, usize), String> {
    let out: Sh = Default::default();
    let mut s = Sched::default();
    let (a, b) = duplex(scn.sess_cap);
    let mut sp = Session::new(a);
    let mut sv = Session::new(b);
    let p = sp.new_prover(ProverConfig::builder().build().unwrap()).map_err(|e| e.to_string())?;
    let v = sv
        .new_verifier(VerifierConfig::builder().root_store(roots(&scn.roots_v)).build().unwrap())
        .map_err(|e| e.to_string())?;
    let (dp, hp) = sp.split();
    let (dv, hv) = sv.split();
    let (c, srv_io) = duplex(scn.tcp_cap);
    let (cp, cv) = match scn.mode {
        Mode::Mpc(_) => (Some(c), None),
        Mode::Proxy(_) => (None, Some(c)),
    };
    let (tx, rx) = futures::channel::oneshot::channel();
    let (o, sc) = (out.clone(), scn.clone());
    s.spawn("prover", 1, true, async move {
        prover(p, sc, cp, tx, o).await;
        hp.close();
    });
    let (o, script) = (out.clone(), scn.cli.clone());
    s.spawn("client", 6, true, async move {
        if let Ok((conn, ctl)) = rx.await {
            let r = client(conn, script, ctl, o.clone()).await;
            o.borrow_mut().cli = Some(r);
        }
    });
    let (o, sc) = (out.clone(), scn.clone());
    s.spawn("verifier", 2, true, async move {
        verifier(v, sc, cv, o).await;
        hv.close();
    });
    let o = out.clone();
    s.spawn("driver_p", 3, true, async move {
        let r = dp.await.map(|_| ()).map_err(|e| e.to_string());
        o.borrow_mut().driver_p = Some(r);
    });
    let o = out.clone();
    s.spawn("driver_v", 4, true, async move {
        let r = dv.await.map(|_| ()).map_err(|e| e.to_string());
        o.borrow_mut().driver_v = Some(r);
    });
    let (o, script, flip) = (out.clone(), scn.srv.clone(), scn.srv_flip);
    s.kills = scn.kills.clone();
    s.spawn("server", 5, false, async move {
        let r = server(srv_io, script, flip, o.clone()).await;
        o.borrow_mut().srv = Some(r);
    });
    let end = s.run(delays, max);
    let steps = s.steps;
    {
        let mut o = out.borrow_mut();
        o.panics = s.panics.clone();
        o.order = s.order.clone();
        o.keylog = KEYS.with(|k| std::mem::take(&mut *k.borrow_mut()));
    }
    // What is left unfinished goes away; panics while doing so are not of interest.
    let _ = hx_lib::catch(move || {
        drop(s);
        Ok(())
    });
    let o = Rc::try_unwrap(out).map_err(|_| "output still shared".to_string())?.into_inner();
    Ok((o, end, steps))
}
pub fn mpc_cfg() -> MpcTlsConfig {
    MpcTlsConfig::builder().max_sent_data(256).max_sent_records(6).max_recv_data(256).max_recv_data_online(256).defer_decryption_from_start(false).max_recv_records_online(6).build().unwrap()
}
