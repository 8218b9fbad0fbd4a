//! A TLS client over an in-memory pipe of a chosen capacity.
use futures::{AsyncReadExt, AsyncWriteExt};
use futures_rustls::{client::TlsStream, TlsConnector};
use futures_rustls::rustls::{
    pki_types::{CertificateDer, PrivateKeyDer, ServerName},
    ClientConfig, RootCertStore,
};
use std::{future::Future, io, sync::Arc};
use tokio::io::DuplexStream;
use tokio_util::compat::{Compat, TokioAsyncReadCompatExt};

pub type Tls = TlsStream<Compat<DuplexStream>>;

#[derive(Clone)]
pub struct ClientCfg {
    pub ca: &'static [u8],
    pub auth: Option<(Vec<u8>, Vec<u8>)>,
    /// 0: defaults, 1: TLS 1.3 only, 2: TLS 1.2 only, 3: what the MPC-TLS client offers
    pub proto: usize,
}

impl ClientCfg {
    pub fn build(&self) -> Arc<ClientConfig> {
        let mut roots = RootCertStore::empty();
        roots.add(CertificateDer::from(self.ca.to_vec())).unwrap();
        let mut p = futures_rustls::rustls::crypto::ring::default_provider();
        if self.proto == 3 {
            p.cipher_suites = vec![
                futures_rustls::rustls::crypto::ring::cipher_suite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
                futures_rustls::rustls::crypto::ring::cipher_suite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
            ];
            p.kx_groups = vec![futures_rustls::rustls::crypto::ring::kx_group::SECP256R1];
        }
        let vs: &[&'static futures_rustls::rustls::SupportedProtocolVersion] = match self.proto {
            0 => &[&futures_rustls::rustls::version::TLS13, &futures_rustls::rustls::version::TLS12],
            1 => &[&futures_rustls::rustls::version::TLS13],
            _ => &[&futures_rustls::rustls::version::TLS12],
        };
        let b = ClientConfig::builder_with_provider(p.into()).with_protocol_versions(vs).unwrap().with_root_certificates(roots);
        let c = match &self.auth {
            None => b.with_no_client_auth(),
            Some((c, k)) => b
                .with_client_auth_cert(vec![CertificateDer::from(c.clone())], PrivateKeyDer::Pkcs8(k.clone().into()))
                .unwrap(),
        };
        Arc::new(c)
    }
}

pub async fn connect(cfg: Arc<ClientConfig>, io: DuplexStream, name: &str) -> io::Result<Tls> {
    TlsConnector::from(cfg).connect(ServerName::try_from(name.to_string()).unwrap(), io.compat()).await
}

/// Everything read until the end of the stream, and how it ended.
pub async fn drain(s: &mut (impl futures::AsyncRead + Unpin)) -> (Vec<u8>, io::Result<()>) {
    let mut out = vec![];
    let mut b = [0u8; 4096];
    loop {
        match s.read(&mut b).await {
            Ok(0) => return (out, Ok(())),
            Ok(n) => out.extend_from_slice(&b[..n]),
            Err(e) => return (out, Err(e)),
        }
    }
}

/// The same for a client session: what it had decrypted before an error counts too.
pub async fn drain_tls(s: &mut Tls) -> (Vec<u8>, io::Result<()>) {
    let (mut out, end) = drain(s).await;
    if end.is_err() {
        // ends with WouldBlock or the end of the stream
        let _ = io::Read::read_to_end(&mut s.get_mut().1.reader(), &mut out);
    }
    (out, end)
}

pub async fn send(s: &mut Tls, parts: &[&[u8]]) -> io::Result<()> {
    for p in parts {
        s.write_all(p).await?;
        s.flush().await?;
    }
    Ok(())
}

/// Runs a future on a single-threaded runtime with a limit of 20 s.
pub fn rt<T>(paused: bool, f: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(paused).build().unwrap();
    let r = rt.block_on(async {
        if paused {
            f.await
        } else {
            tokio::time::timeout(std::time::Duration::from_secs(20), f).await.map_err(|_| "no answer in 20 s".to_string())?
        }
    });
    rt.shutdown_background();
    r
}

/// A parsed HTTP/1 response.
#[derive(Debug, Clone, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k == n).map(|x| x.1.as_str())
    }
}
/// Parses one response from the front of `b`; None if incomplete.
pub fn parse(b: &[u8], head: bool) -> Result<Option<(Resp, usize)>, String> {
    let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return Ok(None) };
    let text = std::str::from_utf8(&b[..h]).map_err(|e| e.to_string())?;
    let mut l = text.split("\r\n");
    let st = l.next().unwrap();
    let status = st.strip_prefix("HTTP/1.1 ").and_then(|s| s.get(..3)).and_then(|s| s.parse().ok()).ok_or(format!("status line {st:?}"))?;
    let headers: Vec<(String, String)> = l
        .map(|x| x.split_once(':').map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).ok_or(format!("header {x:?}")))
        .collect::<Result<_, _>>()?;
    let mut p = h + 4;
    let mut r = Resp { status, headers, body: vec![] };
    if head {
        return Ok(Some((r, p)));
    }
    if r.header("transfer-encoding") == Some("chunked") {
        loop {
            let Some(e) = b[p..].windows(2).position(|w| w == b"\r\n") else { return Ok(None) };
            let n = usize::from_str_radix(std::str::from_utf8(&b[p..p + e]).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())?;
            p += e + 2;
            if b.len() < p + n + 2 {
                return Ok(None);
            }
            r.body.extend_from_slice(&b[p..p + n]);
            if &b[p + n..p + n + 2] != b"\r\n" {
                return Err("chunk end".into());
            }
            p += n + 2;
            if n == 0 {
                return Ok(Some((r, p)));
            }
        }
    }
    let n: usize = r.header("content-length").unwrap_or("0").parse().map_err(|_| "content-length")?;
    if b.len() < p + n {
        return Ok(None);
    }
    r.body = b[p..p + n].to_vec();
    Ok(Some((r, p + n)))
}

/// What the server did at its end: the bytes written, and where it closed its writing side.
pub type Tap = Arc<std::sync::Mutex<(Vec<u8>, Option<usize>)>>;
/// The server's end of the pipe: a read returns at most `.1` bytes, a write takes at most `.2`.
/// With `.4`, what is written goes out only when the socket is flushed or closed.
pub struct Short(pub DuplexStream, pub usize, pub usize, pub Tap, pub Option<Vec<u8>>);
impl Short {
    fn push(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<io::Result<()>> {
        while let Some(b) = self.4.as_mut().filter(|b| !b.is_empty()) {
            let n = std::task::ready!(tokio::io::AsyncWrite::poll_write(std::pin::Pin::new(&mut self.0), cx, b))?;
            self.3.lock().unwrap().0.extend_from_slice(&b[..n]);
            b.drain(..n);
        }
        std::task::Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncRead for Short {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<io::Result<()>> {
        let k = self.1.min(buf.remaining());
        let mut t = vec![0u8; k];
        let mut rb = tokio::io::ReadBuf::new(&mut t);
        std::task::ready!(std::pin::Pin::new(&mut self.0).poll_read(cx, &mut rb))?;
        buf.put_slice(rb.filled());
        std::task::Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncWrite for Short {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, b: &[u8]) -> std::task::Poll<io::Result<usize>> {
        let k = self.2.min(b.len());
        if let Some(v) = &mut self.4 {
            v.extend_from_slice(&b[..k]);
            return std::task::Poll::Ready(Ok(k));
        }
        let r = std::pin::Pin::new(&mut self.0).poll_write(cx, &b[..k]);
        if let std::task::Poll::Ready(Ok(n)) = r {
            self.3.lock().unwrap().0.extend_from_slice(&b[..n]);
        }
        r
    }
    fn poll_flush(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<io::Result<()>> {
        std::task::ready!(self.push(cx))?;
        std::pin::Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<io::Result<()>> {
        std::task::ready!(self.push(cx))?;
        {
            let mut t = self.3.lock().unwrap();
            let n = t.0.len();
            t.1.get_or_insert(n);
        }
        std::pin::Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
/// A pipe with room for everything; the second end reads and writes at most `k` bytes at a time.
pub fn pipe(k: usize) -> (DuplexStream, Short) {
    let (a, b) = tokio::io::duplex(4 << 20);
    (a, Short(b, k, k, Default::default(), None))
}
