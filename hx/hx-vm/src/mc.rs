//! M01-M06: the prover's TLS client against a scripted server that knows the protocol and breaks it.
use crate::kc::{ref_prf, two};
use hx_lib::*;
use mpc_tls::{client::*, Config, MpcTlsFollower, MpcTlsLeader};
use mpz::{common::context::test_st_context, core::Block, ideal_vm::{reset_instr, IdealVm}};
use ring::{aead, agreement as ag, digest, rand::SystemRandom, signature as sig};
use std::{cell::RefCell, rc::Rc, sync::Arc};
use tlsn_deap::{Deap, Role};

pub fn sha(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA256, b).as_ref().to_vec() }
fn u24(n: usize) -> [u8; 3] { let b = (n as u32).to_be_bytes(); [b[1], b[2], b[3]] }
fn v8(b: &[u8]) -> Vec<u8> { [&[b.len() as u8][..], b].concat() }
fn v16(b: &[u8]) -> Vec<u8> { [&(b.len() as u16).to_be_bytes()[..], b].concat() }
fn v24(b: &[u8]) -> Vec<u8> { [&u24(b.len())[..], b].concat() }
pub fn hs(t: u8, b: &[u8]) -> Vec<u8> { [&[t][..], &v24(b)].concat() }
pub fn rec(t: u8, b: &[u8]) -> Vec<u8> { [&[t, 3, 3][..], &v16(b)].concat() }
pub fn ext(t: u16, b: &[u8]) -> Vec<u8> { [&t.to_be_bytes()[..], &v16(b)].concat() }

/// The server's identity: suite, chain, key, scheme of its signature, name and trusted root.
#[derive(Clone)]
pub struct Id { pub suite: u16, pub chain: Vec<Vec<u8>>, pub key: Vec<u8>, pub rsa: bool, pub scheme: u16, pub name: &'static str, pub root: Vec<u8> }
pub const ECDSA: u16 = 0xc02b;
pub const RSA: u16 = 0xc02f;
fn fx(n: &str) -> Vec<u8> { std::fs::read(std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("fixtures/x509").join(n)).unwrap() }
pub fn id(rsa: bool) -> Id {
    use tlsn_server_fixture_certs::*;
    if rsa {
        Id { suite: RSA, chain: vec![SERVER_CERT_DER.to_vec()], key: SERVER_KEY_DER.to_vec(), rsa, scheme: 0x0401, name: SERVER_DOMAIN, root: CA_CERT_DER.to_vec() }
    } else {
        Id { suite: ECDSA, chain: vec![fx("leaf_root_p256.der")], key: fx("leaf_root_p256.p8"), rsa, scheme: 0x0403, name: "example.com", root: fx("root.der") }
    }
}
/// What the server can put on the wire.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum It {
    Sh, Cert, Status, Ske, Creq, Shd, HelloReq, Nst, CertVerify, Fin, FinBad, FinPlain, Ccs, CcsBad, Cke, Ch, Hrr, KeyUpdate, Url, Odd,
    App(usize), Warn, Fatal, Close, Level, Heartbeat, Unknown, EmptyHs, Garbage,
    /// A given handshake message.
    Raw(&'static str, Vec<u8>),
}
use It::*;
/// What the client did.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev { Hello, Cert(Vec<Vec<u8>>), Ckx, CertVerify { scheme: u16, sig: Vec<u8>, over: Vec<u8> }, Ccs, Fin(bool), Alert(u8, u8), App(Vec<u8>), Junk(String) }

pub struct Srv {
    pub id: Id,
    pub cr: [u8; 32],
    pub sr: [u8; 32],
    pub hash: Vec<u8>,
    priv_: Option<ag::EphemeralPrivateKey>,
    pub point: Vec<u8>,
    pub master: Vec<u8>,
    ck: Option<(aead::LessSafeKey, [u8; 4])>,
    sk: Option<(aead::LessSafeKey, [u8; 4])>,
    pub out_enc: bool,
    in_enc: bool,
    oseq: u64,
    iseq: u64,
    inbuf: Vec<u8>,
    hsbuf: Vec<u8>,
    pub ev: Vec<Ev>,
    pub hello: Vec<u8>,
    pub exts: Vec<u8>,
    pub sent_app: Vec<u8>,
    pub creq: Vec<u8>,
    pub ske: Option<Vec<u8>>,
}
impl Srv {
    pub fn new(id: Id) -> Self {
        let rng = SystemRandom::new();
        let k = ag::EphemeralPrivateKey::generate(&ag::ECDH_P256, &rng).unwrap();
        let point = k.compute_public_key().unwrap().as_ref().to_vec();
        Srv { id, cr: [0; 32], sr: std::array::from_fn(|i| 100 + i as u8), hash: vec![], priv_: Some(k), point, master: vec![], ck: None, sk: None, out_enc: false, in_enc: false, oseq: 0, iseq: 0, inbuf: vec![], hsbuf: vec![], ev: vec![], hello: vec![], exts: ext(0xff01, &[0]), sent_app: vec![], creq: creq_body(&[0x0403, 0x0401, 0x0804]), ske: None }
    }
    pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
        let rng = SystemRandom::new();
        if self.id.rsa {
            let k = sig::RsaKeyPair::from_pkcs8(&self.id.key).or_else(|_| sig::RsaKeyPair::from_der(&self.id.key)).unwrap();
            let enc: &dyn sig::RsaEncoding = match self.id.scheme { 0x0501 => &sig::RSA_PKCS1_SHA384, 0x0601 => &sig::RSA_PKCS1_SHA512, 0x0804 => &sig::RSA_PSS_SHA256, 0x0805 => &sig::RSA_PSS_SHA384, 0x0806 => &sig::RSA_PSS_SHA512, _ => &sig::RSA_PKCS1_SHA256 };
            let mut o = vec![0; k.public().modulus_len()];
            k.sign(enc, &rng, msg, &mut o).unwrap();
            o
        } else {
            sig::EcdsaKeyPair::from_pkcs8(&sig::ECDSA_P256_SHA256_ASN1_SIGNING, &self.id.key, &rng).unwrap().sign(&rng, msg).unwrap().as_ref().to_vec()
        }
    }
    pub fn sh(&self, version: u16, suite: u16, comp: u8, exts: &[u8]) -> Vec<u8> {
        hs(2, &[&version.to_be_bytes()[..], &self.sr, &v8(&[9; 32]), &suite.to_be_bytes(), &[comp], &v16(exts)].concat())
    }
    pub fn params(&self) -> Vec<u8> { [&[3, 0, 23][..], &v8(&self.point)].concat() }
    pub fn ske_of(&self, params: &[u8], signed: &[u8], scheme: u16) -> Vec<u8> {
        hs(12, &[params, &scheme.to_be_bytes(), &v16(&self.sign(signed))].concat())
    }
    pub fn over(&self, params: &[u8]) -> Vec<u8> { [&self.cr[..], &self.sr, params].concat() }
    pub fn vd(&self, label: &str) -> Vec<u8> { ref_prf(&self.master, label, &sha(&self.hash), 12) }
    /// The record type and bytes of an item, and whether it counts for the handshake hash.
    pub fn make(&mut self, it: &It) -> (u8, Vec<u8>, bool) {
        let h = |t, b: &[u8]| (22, hs(t, b), true);
        match it {
            Sh => { let e = self.exts.clone(); (22, self.sh(0x0303, self.id.suite, 0, &e), true) }
            Cert => { let c: Vec<u8> = self.id.chain.iter().flat_map(|c| v24(c)).collect(); h(11, &v24(&c)) }
            Status => h(22, &[&[1][..], &v24(b"some ocsp response")].concat()),
            Ske => { let m = self.ske.clone().unwrap_or_else(|| { let p = self.params(); self.ske_of(&p, &self.over(&p), self.id.scheme) }); (22, m, true) }
            Creq => { let b = self.creq.clone(); h(13, &b) }
            Shd => h(14, &[]),
            HelloReq => (22, hs(0, &[]), false),
            Nst => h(4, &[&[0, 0, 1, 0][..], &v16(b"ticket")].concat()),
            CertVerify => { let s = self.sign(&self.hash); h(15, &[&self.id.scheme.to_be_bytes()[..], &v16(&s)].concat()) }
            Fin | FinPlain => { let v = self.vd("server finished"); h(20, &v) }
            FinBad => { let mut v = self.vd("server finished"); v[11] ^= 1; h(20, &v) }
            Ccs => (20, vec![1], false),
            CcsBad => (20, vec![2], false),
            Cke => { let p = v8(&self.point); h(16, &p) }
            Ch => { let b = self.hello.clone(); (22, b, true) }
            Hrr => { let b = self.sh(0x0303, self.id.suite, 0, &[]); let mut b = b; b[6..38].copy_from_slice(&hex::decode("cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c").unwrap()); (22, b, true) }
            KeyUpdate => h(24, &[0]),
            Url => h(21, &[1, 2, 3]),
            Odd => h(99, &[1, 2, 3]),
            App(n) => (23, (0..*n).map(|i| (i as u8).wrapping_mul(31) ^ self.sent_app.len() as u8).collect(), false),
            Warn => (21, vec![1, 90], false),
            Fatal => (21, vec![2, 40], false),
            Close => (21, vec![1, 0], false),
            Level => (21, vec![3, 0], false),
            Heartbeat => (24, vec![1, 0, 1, 7], false),
            Unknown => (99, vec![1, 2], false),
            EmptyHs => (22, vec![], false),
            Garbage => (23, vec![7; 40], false),
            Raw(_, b) => (22, b.clone(), true),
        }
    }
    fn nonce(iv: &[u8; 4], e: &[u8]) -> aead::Nonce { aead::Nonce::try_assume_unique_for_key(&[&iv[..], e].concat()).unwrap() }
    fn aad(seq: u64, t: u8, n: usize) -> aead::Aad<Vec<u8>> { aead::Aad::from([&seq.to_be_bytes()[..], &[t, 3, 3], &(n as u16).to_be_bytes()].concat()) }
    /// One record under the server's current protection.
    pub fn record(&mut self, t: u8, b: &[u8]) -> Vec<u8> {
        match &self.sk {
            Some((k, iv)) if self.out_enc => {
                let e = self.oseq.to_be_bytes();
                let mut c = b.to_vec();
                k.seal_in_place_append_tag(Self::nonce(iv, &e), Self::aad(self.oseq, t, b.len()), &mut c).unwrap();
                self.oseq += 1;
                rec(t, &[&e[..], &c].concat())
            }
            _ => rec(t, b),
        }
    }
    /// Puts items on the wire, all of a type next to each other in one record when `pack`.
    pub fn emit(&mut self, its: &[It], pack: bool) -> Vec<u8> {
        let (mut out, mut held): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
        for it in its {
            if let Garbage = it { out.extend(rec(23, &[7; 40])); continue }
            let (t, b, count) = self.make(it);
            if count { self.hash.extend(&b) }
            if let App(_) = it { if self.out_enc { self.sent_app.extend(&b) } }
            if pack && t == 22 && !self.out_enc && !b.is_empty() { held.extend(&b); continue }
            if !held.is_empty() { out.extend(rec(22, &std::mem::take(&mut held))) }
            let r = if let FinPlain = it { rec(t, &b) } else { self.record(t, &b) };
            out.extend(r);
            if let Ccs = it { if self.sk.is_some() { self.out_enc = true } }
        }
        if !held.is_empty() { out.extend(rec(22, &held)) }
        out
    }
    /// Takes in what the client wrote.
    pub fn feed(&mut self, b: &[u8]) -> R {
        self.inbuf.extend(b);
        while self.inbuf.len() >= 5 {
            let n = u16::from_be_bytes([self.inbuf[3], self.inbuf[4]]) as usize;
            if self.inbuf.len() < 5 + n { break }
            let r: Vec<u8> = self.inbuf.drain(..5 + n).collect();
            let (t, mut p) = (r[0], r[5..].to_vec());
            if self.in_enc {
                let (k, iv) = self.ck.as_ref().unwrap();
                ck!(p.len() >= 24, "a record of {} bytes from the client is too short to be protected", p.len());
                ck_eq!(p[..8].to_vec(), self.iseq.to_be_bytes().to_vec(), "explicit nonce of the client");
                let (e, mut c) = (p[..8].to_vec(), p[8..].to_vec());
                let m = k.open_in_place(Self::nonce(iv, &e), Self::aad(self.iseq, t, c.len() - 16), &mut c).map_err(|_| "the client's record does not open".to_string())?;
                p = m.to_vec();
                self.iseq += 1;
            }
            match t {
                20 => { ck_eq!(p, vec![1], "client CCS"); self.ev.push(Ev::Ccs); self.in_enc = true; ck!(self.ck.is_some(), "CCS before the key exchange") }
                21 => { ck_eq!(p.len(), 2, "alert length"); self.ev.push(Ev::Alert(p[0], p[1])) }
                23 => self.ev.push(Ev::App(p)),
                22 => {
                    self.hsbuf.extend(&p);
                    while self.hsbuf.len() >= 4 {
                        let n = u32::from_be_bytes([0, self.hsbuf[1], self.hsbuf[2], self.hsbuf[3]]) as usize;
                        if self.hsbuf.len() < 4 + n { break }
                        let m: Vec<u8> = self.hsbuf.drain(..4 + n).collect();
                        self.message(m)?;
                    }
                }
                t => self.ev.push(Ev::Junk(format!("record type {t}"))),
            }
        }
        Ok(())
    }
    fn message(&mut self, m: Vec<u8>) -> R {
        let b = &m[4..];
        let e = match m[0] {
            1 => { self.cr = b[2..34].try_into().unwrap(); self.hello = m.clone(); Ev::Hello }
            11 => {
                let (mut c, mut r) = (vec![], &b[3..]);
                while r.len() >= 3 { let n = u32::from_be_bytes([0, r[0], r[1], r[2]]) as usize; c.push(r[3..3 + n].to_vec()); r = &r[3 + n..] }
                Ev::Cert(c)
            }
            16 => {
                ck_eq!(b[0] as usize, b.len() - 1, "client key length");
                let peer = ag::UnparsedPublicKey::new(&ag::ECDH_P256, b[1..].to_vec());
                let k = self.priv_.take().ok_or("second client key exchange")?;
                let pms = ag::agree_ephemeral(k, &peer, |z| z.to_vec()).map_err(|_| "the client's key is not a point")?;
                self.master = ref_prf(&pms, "master secret", &[self.cr, self.sr].concat(), 48);
                let kb = ref_prf(&self.master, "key expansion", &[self.sr, self.cr].concat(), 40);
                let key = |k: &[u8]| aead::LessSafeKey::new(aead::UnboundKey::new(&aead::AES_128_GCM, k).unwrap());
                self.ck = Some((key(&kb[..16]), kb[32..36].try_into().unwrap()));
                self.sk = Some((key(&kb[16..32]), kb[36..].try_into().unwrap()));
                Ev::Ckx
            }
            15 => Ev::CertVerify { scheme: u16::from_be_bytes([b[0], b[1]]), sig: b[4..].to_vec(), over: self.hash.clone() },
            20 => Ev::Fin(self.in_enc && b == self.vd("client finished")),
            t => Ev::Junk(format!("handshake type {t}")),
        };
        self.ev.push(e);
        self.hash.extend(&m);
        Ok(())
    }
}
pub fn creq_body(schemes: &[u16]) -> Vec<u8> {
    let s: Vec<u8> = schemes.iter().flat_map(|s| s.to_be_bytes()).collect();
    [&v8(&[1, 64])[..], &v16(&s), &v16(&[])].concat()
}

/// A client with its leader and follower, and the server it talks to.
pub struct Sess { pub c: ClientConnection, pub srv: Srv, pub got: Vec<u8>, pub chunk: usize, pub sent: Vec<u8> }
pub type Res = Result<(), String>;
impl Sess {
    /// The server's bytes reach the client; what the client answers reaches the server.
    pub async fn push(&mut self, b: &[u8]) -> Result<Res, String> {
        let mut r = Ok(());
        let n = self.chunk.min(b.len().max(1));
        for p in b.chunks(n).chain(b.is_empty().then_some(&[][..])) {
            let mut rd = p;
            while !rd.is_empty() { self.c.read_tls(&mut rd).map_err(|e| format!("read_tls: {e}"))?; }
            r = self.turn().await?;
            if r.is_err() { break }
        }
        Ok(r)
    }
    pub async fn turn(&mut self) -> Result<Res, String> {
        let mut last = None;
        for _ in 0..50 {
            let r = self.c.process_new_packets().await;
            let mut o = vec![];
            while self.c.wants_write() { self.c.write_tls(&mut o).map_err(|e| e.to_string())?; }
            self.sent.extend(&o);
            self.srv.feed(&o)?;
            let mut b = [0; 4096];
            loop { let n = self.c.read_plaintext(&mut b).map_err(|e| e.to_string())?; if n == 0 { break } self.got.extend(&b[..n]) }
            match r {
                Err(e) => return Ok(Err(format!("{e:?}"))),
                Ok(s) => { let s = Some((s, o.len(), self.got.len())); if s == last && o.is_empty() { return Ok(Ok(())) } last = s }
            }
        }
        Err("the client never settles".into())
    }
}
fn roots(i: &Id) -> RootCertStore {
    let c = rustls::pki_types::CertificateDer::from(i.root.clone());
    RootCertStore { roots: vec![webpki::anchor_from_trusted_cert(&c).unwrap().to_owned()] }
}
pub fn config(i: &Id) -> ClientConfig {
    ClientConfig::new(roots(i))
}
pub struct Limits { pub sent: usize, pub recs: usize, pub recv: usize, pub recv_recs: usize, pub defer: bool }
pub const LIM: Limits = Limits { sent: 128, recs: 4, recv: 256, recv_recs: 6, defer: false };
/// Runs `f` with a connected client; both parties in one thread.
pub fn with<F, T>(cfg: ClientConfig, i: &Id, lim: &Limits, f: F) -> Result<T, String>
where F: AsyncFnOnce(&mut Sess) -> Result<T, String> {
    reset_instr();
    let (cl, cf) = test_st_context(8);
    let c = Config::builder().defer_decryption(lim.defer).max_sent(lim.sent).max_sent_records(lim.recs).max_recv(lim.recv).max_recv_online(lim.recv).max_recv_records_online(lim.recv_recs).build().map_err(|e| e.to_string())?;
    let vm = |r| Arc::new(tokio::sync::Mutex::new(Deap::new(r, IdealVm::new(), IdealVm::new())));
    let z = Block::default();
    let cot = || mpz::ot::ideal::rcot::ideal_rcot(z, z);
    let (s, r) = cot();
    let mut l = MpcTlsLeader::new(c.clone(), cl, vm(Role::Leader), (s.clone(), s.clone(), s.clone()), r.clone());
    let mut fo = MpcTlsFollower::new(c, cf, vm(Role::Follower), s, (r.clone(), r.clone(), r));
    l.alloc().map_err(|e| e.to_string())?;
    fo.alloc().map_err(|e| e.to_string())?;
    let a = async {
        l.preprocess().await.map_err(|e| e.to_string())?;
        let name = ServerName::try_from(i.name).map_err(|e| e.to_string())?;
        let mut c = ClientConnection::new(Arc::new(cfg), l, name).map_err(|e| e.to_string())?;
        c.start().await.map_err(|e| e.to_string())?;
        let mut s = Sess { c, srv: Srv::new(i.clone()), got: vec![], chunk: usize::MAX, sent: vec![] };
        s.turn().await??;
        f(&mut s).await
    };
    let b = async {
        fo.preprocess().await.map_err(|e| e.to_string())?;
        fo.run().await.map(|_| ()).map_err(|e| e.to_string())
    };
    let (a, _b) = two(a, b)?;
    a
}

// ---- M01: order ----
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum St { Sh, Cert, StatusOrSke, Ske, CreqOrShd, Shd, Ccs, Fin, Stuck, Traffic, Closed }
enum Next { Go(St), Bad, Either }
// (`Stuck`: data arrived before the server's Finished. The record layer holds it and what follows back:
// neither refused nor delivered, and the handshake never completes.)
/// RFC 5246 §7.3 as a TLS client without resumption sees it.
fn step(s: St, it: &It, status: bool) -> Next {
    use Next::*;
    match (s, it) {
        (_, Warn) => Go(s),
        (s, It::Close) if s != St::Stuck => Go(St::Closed),
        (St::Sh, It::Sh) => Go(St::Cert),
        (St::Cert, It::Cert) => Go(if status { St::StatusOrSke } else { St::Ske }),
        (St::StatusOrSke, Status) => Go(St::Ske),
        (St::StatusOrSke | St::Ske, It::Ske) => Go(St::CreqOrShd),
        (St::CreqOrShd, Creq) => Go(St::Shd),
        (St::CreqOrShd | St::Shd, It::Shd) => Go(St::Ccs),
        (St::Ccs, It::Ccs) => Go(St::Fin),
        (St::Fin, It::Fin) => Go(St::Traffic),
        (St::Fin, App(_)) => Go(St::Stuck),
        (St::Stuck, FinPlain | Garbage | Unknown) => Either,
        (St::Stuck, _) => Go(St::Stuck),
        (St::Traffic, App(_) | HelloReq) => Go(St::Traffic),
        // RFC 5246 has a client ignore it while it negotiates; refusing it is common.
        (_, HelloReq) => Either,
        (_, EmptyHs) => Either,
        _ => Bad,
    }
}
const ALL: &[It] = &[It::Sh, It::Cert, Status, It::Ske, Creq, It::Shd, HelloReq, Nst, CertVerify, It::Fin, FinBad, FinPlain, It::Ccs, CcsBad, Cke, Ch, Hrr, KeyUpdate, Url, Odd, App(5), App(0), Warn, Fatal, It::Close, Level, Heartbeat, Unknown, EmptyHs, Garbage];
fn legal_paths(status: bool, creq: bool) -> Vec<Vec<It>> {
    let mut v = vec![];
    for st in if status { vec![false, true] } else { vec![false] } {
        let mut p = vec![It::Sh, It::Cert];
        if st { p.push(Status) }
        p.push(It::Ske);
        if creq { p.push(Creq) }
        p.extend([It::Shd, It::Ccs, It::Fin, App(5)]);
        v.push(p);
    }
    v
}
#[derive(Clone, Debug)]
struct Case { rsa: bool, status: bool, items: Vec<It>, pack: bool }
fn m01_case(c: &Case) -> Result<&'static str, String> {
    let i = id(c.rsa);
    with(config(&i), &i, &LIM, async |s: &mut Sess| {
        if c.status { s.srv.exts.extend(ext(5, &[])) }
        let (mut st, mut k, mut creq) = (St::Sh, 0, false);
        while k < c.items.len() {
            // What the server can send without hearing from the client in between.
            let mut n = 1;
            if c.pack { while k + n < c.items.len() && c.items[k + n - 1] != It::Shd { n += 1 } }
            let batch = &c.items[k..k + n];
            k += n;
            let (before, out_before, enc) = (st, s.sent.len(), s.srv.out_enc);
            let (mut must, mut may) = (false, false);
            let (mut bad, mut close) = (None, None);
            let mut hello_reqs = 0;

            for (j, it) in batch.iter().enumerate() {
                match step(st, it, c.status) {
                    Next::Go(n) => { creq |= *it == Creq; if st == St::Traffic && *it == HelloReq { hello_reqs += 1 } st = n }
                    Next::Bad => { must = true; bad = Some(it.clone()); break }
                    Next::Either => may = true,
                }
                // What follows a closure alert is ignored, even in the same read.
                if st == St::Closed { close = Some(j); break }
            }
            let enc_after = s.srv.out_enc || batch.contains(&It::Ccs);
            let junk = batch.len() > 1 && batch.iter().any(|i| matches!(i, EmptyHs | Unknown | Garbage | Heartbeat | Odd));
            // The record layer takes it in before the closure is seen, within its own limits.
            may |= close.is_some_and(|j| junk || (enc_after && batch[j + 1..].iter().any(|i| !matches!(i, It::Fin | App(_) | HelloReq))));
            let ev = s.srv.ev.len();
            let want_app = s.srv.sent_app.len() + close.map_or(0, |j| batch[..j].iter().map(|i| if let App(n) = i { *n } else { 0 }).sum());
            let b = s.srv.emit(batch, c.pack);
            let r = s.push(&b).await?;
            match &r {
                Ok(()) => {
                    ck!(!must, "{:?} in state {before:?}: {bad:?} was accepted", batch);
                    ck_eq!(!s.c.is_handshaking(), matches!(st, St::Traffic) || (st == St::Closed && before == St::Traffic) || (st == St::Closed && batch[..close.unwrap_or(0)].contains(&It::Fin)), "completion after {batch:?} from {before:?}");
                }
                Err(e) => {
                    ck!(must || may, "{batch:?} in state {before:?}: refused with {e}");
                    ck!(!s.srv.ev.iter().any(|e| matches!(e, Ev::Fin(false) | Ev::Junk(_))), "client sent {:?}", s.srv.ev);
                    // The reason is told to the server as long as nothing needs protecting.
                    if let (Some(b), false, false) = (&bad, enc, may || junk) {
                        let order = matches!(b, It::Sh | It::Cert | Status | It::Ske | Creq | It::Shd | Nst | CertVerify | It::Ccs | Cke | Ch | Hrr | App(_));
                        if order && !s.srv.ev.contains(&Ev::Ckx) {
                            ck!(s.srv.ev[ev..].contains(&Ev::Alert(2, 10)), "no unexpected_message alert for {b:?} in {before:?}: {:?}", &s.srv.ev[ev..]);
                        }
                    }
                    ck!(matches!(before, St::Traffic) || s.c.is_handshaking() || batch.contains(&It::Fin), "complete in spite of {e}");
                    // Fatal: nothing revives the connection, the reason stays the same.
                    let (got, out) = (s.got.len(), s.sent.len());
                    let done = s.c.is_handshaking();
                    for x in [vec![], vec![It::Sh], vec![It::Cert], vec![It::Ske], vec![It::Shd], vec![It::Ccs], vec![It::Fin], vec![App(3)]] {
                        let b = s.srv.emit(&x, false);
                        let r2 = s.push(&b).await?;
                        ck!(r2.is_err(), "{x:?} after the error {e} was accepted");
                        ck_eq!(r2.unwrap_err(), *e, "the error of a later call");
                        ck_eq!((s.got.len(), s.sent.len(), s.c.is_handshaking()), (got, out, done), "activity after the error {e}");
                    }
                    return Ok("refused");
                }
            }
            let _ = out_before;
            // Nothing secret is agreed on before the server's flight was complete.
            let ckx = s.srv.ev.iter().filter(|e| **e == Ev::Ckx).count();
            ck_eq!(ckx, usize::from(matches!(st, St::Ccs | St::Fin | St::Stuck | St::Traffic) || (st == St::Closed && s.srv.master.len() == 48)), "client key exchanges after {batch:?}");
            if ckx == 1 {
                let w: Vec<&Ev> = s.srv.ev.iter().filter(|e| !matches!(e, Ev::Alert(..))).collect();
                let cert = Ev::Cert(vec![]);
                let want: Vec<&Ev> = if creq { vec![&Ev::Hello, &cert, &Ev::Ckx, &Ev::Ccs, &Ev::Fin(true)] } else { vec![&Ev::Hello, &Ev::Ckx, &Ev::Ccs, &Ev::Fin(true)] };
                ck_eq!(w, want, "the client's flight");
            }
            if hello_reqs > 0 {
                ck_eq!(s.srv.ev[ev..].to_vec(), vec![Ev::Alert(1, 100); hello_reqs], "answer to a renegotiation request");
            }
            if st == St::Closed {
                ck!(s.c.peer_has_closed());
                ck_eq!(s.got, s.srv.sent_app[..want_app], "data delivered before the closure");
                return Ok("closed");
            }
        }
        if st == St::Stuck {
            ck_eq!(s.got, vec![], "data delivered before the handshake was complete");
            return Ok("held");
        }
        ck_eq!(s.got, s.srv.sent_app, "data delivered");
        if st == St::Traffic {
            s.c.write_plaintext(b"ping").map_err(|e| e.to_string())?;
            s.turn().await??;
            ck_eq!(s.srv.ev.last(), Some(&Ev::App(b"ping".to_vec())), "what the client wrote");
        }
        Ok(if st == St::Traffic { "complete" } else { "under way" })
    })
}
pub fn m01(hx: &Hx) {
    hx.assume("the parties' virtual machine is ideal and the follower honest");
    let mut cases = vec![];
    for rsa in [false, true] {
        for status in [false, true] {
            for creq in [false, true] {
                for p in legal_paths(status, creq) {
                    for pack in [false, true] {
                        let mut add = |items: Vec<It>| cases.push(Case { rsa, status, items, pack });
                        add(p.clone());
                        for k in 0..=p.len() {
                            for it in ALL {
                                let (a, b) = p.split_at(k);
                                // One more message, or one in place of another.
                                add([a, &[it.clone()], b].concat());
                                if !b.is_empty() { add([a, &[it.clone()], &b[1..]].concat()) }
                                if hx.thorough() && matches!(it, Warn | HelloReq | EmptyHs | Creq | Status | It::Close) {
                                    for jt in ALL {
                                        add([a, &[it.clone(), jt.clone()], b].concat());
                                        if !b.is_empty() { add([a, &[it.clone()], &b[..1], &[jt.clone()], &b[1..]].concat()) }
                                    }
                                }
                            }
                            // A message missing, two neighbours exchanged.
                            let mut q = p.clone();
                            if k < p.len() { q.remove(k); add(q) }
                            let mut q = p.clone();
                            if k + 1 < p.len() { q.swap(k, k + 1); add(q) }
                        }
                    }
                }
            }
        }
    }
    if hx.thorough() {
        // Every sequence of handshake messages up to length 4 from every point of the plain flight.
        let hsm = [It::Sh, It::Cert, Status, It::Ske, Creq, It::Shd, It::Ccs, It::Fin];
        for l in all_seqs(hsm.len(), 1, 4) {
            cases.push(Case { rsa: false, status: true, items: l.iter().map(|&i| hsm[i].clone()).collect(), pack: false });
            let mut items = vec![It::Sh, It::Cert];
            items.extend(l.iter().map(|&i| hsm[i].clone()));
            cases.push(Case { rsa: false, status: true, items, pack: true });
        }
    } else {
        cases.retain(|c| !c.rsa || (!c.pack && !c.status));
    }
    run_all(hx, &cases);
}
fn run_all(hx: &Hx, cases: &[Case]) {
    let mut seen = std::collections::HashSet::new();
    let cases: Vec<&Case> = cases.iter().filter(|c| seen.insert((c.rsa, c.status, c.items.clone(), c.pack))).collect();
    hx.par(&cases, |c| {
        hx.case(|| format!("{}{}{}{:?}", if c.rsa { "rsa " } else { "ecdsa " }, if c.status { "status " } else { "" }, if c.pack { "packed " } else { "" }, c.items), || {
            let r = m01_case(c)?;
            hx.count(&format!("sessions {r}"), 1);
            hx.state(&(c.rsa, c.status, &c.items, c.pack));
            hx.trans(c.items.len() as u64);
            Ok(())
        });
    });
}

// ---- M02: content ----
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Yes, No, Any }
type Hook = Box<dyn Fn(&mut Srv, &It) -> Option<Vec<It>> + Send + Sync>;
struct V { name: String, rsa: bool, want: Want, offer: Vec<&'static [u8]>, sni: bool, who: Option<Id>, late: bool, f: Hook }
fn v(name: impl Into<String>, want: Want, f: impl Fn(&mut Srv, &It) -> Option<Vec<It>> + Send + Sync + 'static) -> V {
    V { name: name.into(), rsa: false, want, offer: vec![], sni: true, who: None, late: false, f: Box::new(f) }
}
fn raw(b: Vec<u8>) -> Option<Vec<It>> { Some(vec![Raw("", b)]) }
/// Replaces one message of the flight.
fn at(name: impl Into<String>, want: Want, s: It, f: impl Fn(&mut Srv) -> Vec<u8> + Send + Sync + 'static) -> V {
    v(name, want, move |srv, it| if *it == s { raw(f(srv)) } else { None })
}
fn m02_case(c: &V) -> R {
    let i = c.who.clone().unwrap_or_else(|| id(c.rsa));
    let mut cfg = config(&i);
    cfg.alpn_protocols = c.offer.iter().map(|p| p.to_vec()).collect();
    cfg.enable_sni = c.sni;
    with(cfg, &i, &LIM, async |s: &mut Sess| {
        let mut err = None;
        'o: for st in [It::Sh, It::Cert, It::Ske, It::Shd, It::Ccs, It::Fin, App(5)] {
            for it in (c.f)(&mut s.srv, &st).unwrap_or_else(|| vec![st.clone()]) {
                let b = s.srv.emit(&[it], false);
                if let Err(e) = s.push(&b).await? { err = Some((st.clone(), e)); break 'o }
            }
        }
        match (&err, c.want) {
            (None, Want::No) => return Err("accepted".into()),
            (Some((at, e)), Want::Yes) => return Err(format!("refused at {at:?} with {e}")),
            (None, _) => {
                ck!(!s.c.is_handshaking(), "the handshake never completes");
                ck_eq!(s.got, s.srv.sent_app, "data delivered");
            }
            (Some((_, e)), _) => {
                ck_eq!(s.got, vec![], "data delivered by a connection that was refused");
                ck!(s.c.is_handshaking(), "handshake completed in spite of {e}");
                if !c.late {
                    ck!(!s.srv.ev.iter().any(|e| matches!(e, Ev::Ckx | Ev::Cert(_) | Ev::CertVerify { .. })), "the client went on to its own flight: {:?}", s.srv.ev);
                }
            }
        }
        Ok(())
    })
}
fn m02_all(th: bool) -> Vec<V> {
    let mut o = vec![v("plain", Want::Yes, |_, _| None), V { rsa: true, ..v("plain", Want::Yes, |_, _| None) }, V { sni: false, ..v("no server name", Want::Yes, |_, _| None) }];
    // ServerHello: version, suite, compression, session id.
    let vers: Vec<u16> = (0x0300..0x0320).chain([0, 2, 0x0200, 0x0203, 0x0403, 0xfefd, 0xfeff, 0x7f1c, 0xffff]).collect();
    for &a in &vers {
        o.push(at(format!("version {a:#x}"), if a == 0x303 { Want::Yes } else { Want::No }, It::Sh, move |s| { let e = s.exts.clone(); s.sh(a, s.id.suite, 0, &e) }));
        for l in [0x0303u16, 0x0302] {
            o.push(at(format!("version {l:#x} selected {a:#x}"), Want::No, It::Sh, move |s| { let e = [s.exts.clone(), ext(43, &a.to_be_bytes())].concat(); s.sh(l, s.id.suite, 0, &e) }));
        }
    }
    for n in 0..=0xffffu32 {
        let n = n as u16;
        if !th && !matches!(n >> 8, 0 | 0x13 | 0xc0 | 0xcc) { continue }
        for rsa in [false, true] {
            if rsa && !matches!(n, RSA | ECDSA | 0xff) { continue }
            let want = if n == if rsa { RSA } else { ECDSA } { Want::Yes } else { Want::No };
            o.push(V { rsa, ..at(format!("suite {n:#x}"), want, It::Sh, move |s| { let e = s.exts.clone(); s.sh(0x303, n, 0, &e) }) });
        }
    }
    for n in 1..=255 { o.push(at(format!("compression {n}"), Want::No, It::Sh, move |s| { let e = s.exts.clone(); s.sh(0x303, s.id.suite, n, &e) })) }
    for n in 0..=40usize {
        o.push(at(format!("session id of {n}"), if n <= 32 { Want::Yes } else { Want::No }, It::Sh, move |s| hs(2, &[&[3, 3][..], &s.sr, &v8(&vec![5; n]), &s.id.suite.to_be_bytes(), &[0], &v16(&s.exts)].concat())));
    }
    // Extensions: each alone, every ordered pair.
    let al = |p: &[&[u8]]| ext(16, &v16(&p.iter().flat_map(|p| v8(p)).collect::<Vec<u8>>()));
    use Want::*;
    let mut exts: Vec<(&str, Vec<u8>, Want)> = vec![
        ("reneg", ext(0xff01, &[0]), Yes), ("reneg data", ext(0xff01, &[1, 7]), No), ("reneg empty", ext(0xff01, &[]), No), ("reneg tail", ext(0xff01, &[0, 0]), No),
        ("points", ext(11, &[1, 0]), Yes), ("points both", ext(11, &[2, 1, 0]), Yes), ("points other", ext(11, &[1, 1]), No), ("points none", ext(11, &[0]), No), ("points long", ext(11, &[2, 0]), No),
        ("name", ext(0, &[]), Yes), ("status", ext(5, &[]), Yes), ("alpn", al(&[b"h2"]), No), ("ems", ext(23, &[]), No), ("ticket", ext(35, &[]), No),
        ("sct", ext(18, &v16(&v16(b"s"))), Yes), ("sct none", ext(18, &v16(&[])), No), ("sct empty", ext(18, &v16(&v16(b""))), No), ("sct second empty", ext(18, &v16(&[v16(b"s"), v16(b"")].concat())), No), ("fragment", ext(1, &[1]), No), ("heartbeat", ext(15, &[1]), No), ("hmac", ext(4, &[]), No), ("etm", ext(22, &[]), No), ("npn", ext(13172, &[]), No),
        ("share", ext(51, &[0, 23, 0, 0]), No), ("psk", ext(41, &[0, 0]), No), ("cookie", ext(44, &[0, 0]), No), ("unknown", ext(0xabcd, &[1]), No), ("grease", ext(0x0a0a, &[]), No),
        ("groups", ext(10, &[0, 2, 0, 23]), Any), ("schemes", ext(13, &[0, 2, 4, 3]), Any),
    ];
    o.push(v("no extensions", Yes, |s, it| { if *it == It::Sh { s.exts = vec![] } None }));
    // A server that predates extensions is not supported.
    o.push(at("no extension block", Any, It::Sh, |s| hs(2, &[&[3, 3][..], &s.sr, &v8(&[5; 4]), &s.id.suite.to_be_bytes(), &[0]].concat())));
    for (n, a, w) in &exts {
        let (a, w) = (a.clone(), *w);
        o.push(v(format!("extension {n}"), w, move |s, it| { if *it == It::Sh { s.exts = a.clone() } None }));
    }
    exts.retain(|(_, e, _)| th || e.len() < 9);
    for (n, a, w) in &exts {
        for (m, b, x) in &exts {
            let e = [a.clone(), b.clone()].concat();
            let want = if a[..2] == b[..2] || *w == No || *x == No { No } else if *w == Any || *x == Any { Any } else { Yes };
            o.push(v(format!("extensions {n}, {m}"), want, move |s, it| { if *it == It::Sh { s.exts = e.clone() } None }));
        }
    }
    // ALPN.
    let ps: [&'static [u8]; 4] = [b"h2", b"http/1.1", b"h", b"h2c"];
    for k in 0..4usize {
        let offer: Vec<&'static [u8]> = match k { 0 => vec![], 1 => vec![b"h2"], 2 => vec![b"http/1.1"], _ => vec![b"h2", b"http/1.1"] };
        for l in all_seqs(4, 0, 2) {
            let p: Vec<&[u8]> = l.iter().map(|&i| ps[i]).collect();
            let e = al(&p);
            let one = l.len() == 1;
            let good = one && offer.contains(&p[0]);
            o.push(V { offer: offer.clone(), ..v(format!("protocols {:?} of {k}", l), if good { Yes } else if one || offer.is_empty() { No } else { Any }, move |s, it| { if *it == It::Sh { s.exts = e.clone() } None }) });
        }
        o.push(V { offer, ..v(format!("no protocol of {k}"), Yes, |_, _| None) });
    }
    // Certificate.
    let chain = |f: &[&str]| f.iter().map(|n| fx(n)).collect::<Vec<_>>();
    let chains: Vec<(&str, Vec<Vec<u8>>, Want)> = vec![
        ("none", vec![], No), ("leaf", chain(&["leaf_root_p256.der"]), Yes), ("with root", chain(&["leaf_root_p256.der", "root.der"]), Yes), ("root first", chain(&["root.der", "leaf_root_p256.der"]), No),
        ("twice", chain(&["leaf_root_p256.der", "leaf_root_p256.der"]), Yes), ("other root", chain(&["leaf_root2.der"]), No), ("needs intermediate", chain(&["leaf_p256.der"]), No),
        ("of another key", chain(&["leaf_p256.der", "inter.der"]), No), ("RSA key", chain(&["leaf_rsa.der", "inter.der"]), No), ("P-384 key", chain(&["leaf_p384.der", "inter.der"]), No), ("Ed25519 key", chain(&["leaf_ed.der", "inter.der"]), No), ("RSA of its own", chain(&["root.der"]), No),
        ("garbage", vec![vec![1, 2, 3]], No), ("empty certificate", vec![vec![]], No), ("garbage first", vec![vec![0x30, 0], fx("leaf_root_p256.der")], No),
    ];
    for (n, c, w) in chains {
        let b = hs(11, &v24(&c.iter().flat_map(|c| v24(c)).collect::<Vec<u8>>()));
        o.push(at(format!("chain {n}"), w, It::Cert, move |_| b.clone()));
    }
    for (n, want) in [("example.com", Yes), ("EXAMPLE.com", Yes), ("www.example.com", Any), ("example.org", No), ("xample.com", No), ("example.co", No)] {
        o.push(V { who: Some(Id { name: n, ..id(false) }), ..v(format!("name {n}"), want, |_, _| None) });
    }
    o.push(V { who: Some(Id { root: fx("root2.der"), ..id(false) }), ..v("untrusted root", No, |_, _| None) });
    {
        let leaf = fx("leaf_root_p256.der");
        for k in 0..leaf.len() {
            if !th && k % 3 != 0 { continue }
            let mut l = leaf.clone();
            l[k] ^= 1;
            let b = hs(11, &v24(&v24(&l)));
            o.push(at(format!("certificate bit {k}"), No, It::Cert, move |_| b.clone()));
        }
    }
    // Key exchange: curve, point, signature.
    for t in 0..=255u8 {
        if t != 3 { o.push(V { late: true, ..at(format!("curve type {t}"), No, It::Ske, move |s| { let p = [&[t, 0, 23][..], &v8(&s.point)].concat(); s.ske_of(&p, &s.over(&p), 0x403) }) }) }
    }
    for g in (0..0x40u16).chain(0x100..0x108).chain([0x11ec, 0x0a0a, 0x1700, 0x0117, 0xff01, 0xff02, 0xffff]) {
        if g == 23 { continue }
        for n in [65usize, 32, 97, 133] {
            o.push(V { late: true, ..at(format!("curve {g:#x} key of {n}"), No, It::Ske, move |s| { let mut k = s.point.clone(); k.resize(n, 7); let p = [&[3][..], &g.to_be_bytes(), &v8(&k)].concat(); s.ske_of(&p, &s.over(&p), 0x403) }) });
        }
    }
    let pt = |name: String, want, f: Box<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>| V { late: true, ..at(name, want, It::Ske, move |s: &mut Srv| { let p = [&[3, 0, 23][..], &v8(&f(&s.point))].concat(); s.ske_of(&p, &s.over(&p), 0x403) }) };
    for n in (0..=64usize).chain(66..=80) { o.push(pt(format!("point of {n}"), No, Box::new(move |p| { let mut p = p.to_vec(); p.resize(n, 0); p }))) }
    for b in 0..=255u8 { if b != 4 { o.push(pt(format!("point form {b}"), No, Box::new(move |p| { let mut p = p.to_vec(); p[0] = b; p }))) } }
    for k in 8..520usize { if th || k % 5 == 0 { o.push(pt(format!("point bit {k}"), No, Box::new(move |p| { let mut p = p.to_vec(); p[k / 8] ^= 1 << (k % 8); p }))) } }
    // Not offered, but the same point: which the client takes is left open.
    for (n, b) in [("compressed even", 2u8), ("compressed odd", 3)] { o.push(pt(format!("point {n}"), Any, Box::new(move |p| [&[b][..], &p[1..33]].concat()))) }
    o.push(pt("point zero".into(), No, Box::new(|_| [&[4][..], &[0; 64]].concat())));
    o.push(pt("point at infinity".into(), No, Box::new(|_| vec![0])));
    for rsa in [false, true] {
        for sc in [0x0201u16, 0x0203, 0x0401, 0x0403, 0x0501, 0x0503, 0x0601, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0809, 0x080a, 0x080b, 0x0402, 0, 0xffff, 0x0400, 0x0003] {
            let good = if rsa { matches!(sc, 0x401 | 0x501 | 0x601 | 0x804 | 0x805 | 0x806) } else { sc == 0x403 };
            o.push(V { rsa, ..at(format!("signed with {sc:#x}"), if good { Yes } else { No }, It::Ske, move |s| { let p = s.params(); s.id.scheme = if good { sc } else { s.id.scheme }; s.ske_of(&p, &s.over(&p), sc) }) });
            if good && rsa { for lie in [0x401u16, 0x501, 0x601, 0x804, 0x805, 0x806] { if lie != sc { o.push(V { rsa, ..at(format!("signed with {sc:#x} called {lie:#x}"), No, It::Ske, move |s| { let p = s.params(); s.id.scheme = sc; s.ske_of(&p, &s.over(&p), lie) }) }) } } }
        }
        let over: Vec<(&str, fn(&Srv) -> Vec<u8>)> = vec![
            ("nothing", |_| vec![]), ("params alone", |s| s.params()), ("randoms alone", |s| [s.cr, s.sr].concat()), ("randoms exchanged", |s| [&s.sr[..], &s.cr, &s.params()].concat()), ("another client random", |s| [&[1; 32][..], &s.sr, &s.params()].concat()), ("another server random", |s| [&s.cr[..], &[1; 32], &s.params()].concat()),
            ("another key", |s| { let mut p = s.over(&s.params()); p[80] ^= 1; p }), ("key alone", |s| [&s.cr[..], &s.sr, &s.point].concat()), ("curve type", |s| { let mut p = s.over(&s.params()); p[64] ^= 1; p }), ("another curve", |s| { let mut p = s.over(&s.params()); p[66] ^= 1; p }), ("a tail", |s| [s.over(&s.params()), vec![0]].concat()), ("its digest", |s| sha(&s.over(&s.params()))), ("the handshake", |s| s.hash.clone()),
        ];
        for (n, f) in over { o.push(V { rsa, ..at(format!("signature over {n}"), No, It::Ske, move |s| { let p = s.params(); s.ske_of(&p, &f(s), s.id.scheme) }) }) }
        o.push(V { rsa, ..at("signed by another key", No, It::Ske, move |s| { let p = s.params(); let me = std::mem::replace(&mut s.id, id(!rsa)); let m = s.ske_of(&p, &s.over(&p), me.scheme); s.id = me; m }) });
        o.push(V { rsa, ..at("no signature", No, It::Ske, |s| hs(12, &s.params())) });
        o.push(V { rsa, ..at("empty signature", No, It::Ske, |s| hs(12, &[&s.params()[..], &s.id.scheme.to_be_bytes(), &[0, 0]].concat())) });
        // Any byte of the message.
        let n = 4 + 69 + 4 + if rsa { 256 } else { 70 };
        for k in 0..n { if th || k % if rsa { 5 } else { 1 } == 0 || k < 80 { for bit in [1u8, 0x80] {
            if k == 3 || k == 2 || k == 1 || k == 0 { continue }
            o.push(V { rsa, late: true, ..at(format!("key exchange byte {k} {bit:#x}"), No, It::Ske, move |s| { let p = s.params(); let mut m = s.ske_of(&p, &s.over(&p), s.id.scheme); let k = k.min(m.len() - 1); m[k] ^= bit; m }) });
        } } }
    }
    // Finished.
    let fin: Vec<(&str, fn(&mut Srv) -> Vec<u8>)> = vec![
        ("the client's label", |s| s.vd("client finished")), ("no label", |s| s.vd("")), ("the client's own", |s| { let mut h = s.hash.clone(); h.truncate(h.len() - 16); ref_prf(&s.master, "client finished", &sha(&h), 12) }), ("hash without the client's", |s| { let mut h = s.hash.clone(); h.truncate(h.len() - 16); ref_prf(&s.master, "server finished", &sha(&h), 12) }), ("hash of nothing", |s| ref_prf(&s.master, "server finished", &sha(&[]), 12)), ("no secret", |s| ref_prf(&[], "server finished", &sha(&s.hash), 12)), ("zero", |_| vec![0; 12]), ("the hash itself", |s| sha(&s.hash)[..12].to_vec()),
    ];
    for (n, f) in fin { o.push(V { late: true, ..at(format!("finished {n}"), No, It::Fin, move |s| hs(20, &f(s))) }) }
    for n in (0..12usize).chain(13..=40) { o.push(V { late: true, ..at(format!("finished of {n}"), No, It::Fin, move |s| { let x = ref_prf(&s.master, "server finished", &sha(&s.hash), 40); hs(20, &x[..n]) }) }) }
    for k in 0..96usize { o.push(V { late: true, ..at(format!("finished bit {k}"), No, It::Fin, move |s| { let mut x = s.vd("server finished"); x[k / 8] ^= 1 << (k % 8); hs(20, &x) }) }) }
    // A tail on a message, or one byte short.
    for st in [It::Sh, It::Cert, It::Ske, It::Shd, It::Fin] {
        let late = matches!(st, It::Fin | It::Shd);
        let st2 = st.clone();
        o.push(V { late, ..at(format!("{st:?} with a tail"), No, st.clone(), move |s| { let b = s.make(&st2).1; hs(b[0], &[&b[4..], &[0]].concat()) }) });
        if st == It::Shd { continue }
        let st2 = st.clone();
        o.push(V { late, ..at(format!("{st:?} cut short"), No, st.clone(), move |s| { let b = s.make(&st2).1; hs(b[0], &b[4..b.len() - 1]) }) });
    }
    o
}
pub fn m02(hx: &Hx) {
    hx.assume("the parties' virtual machine is ideal and the follower honest");
    let all = m02_all(hx.thorough());
    hx.par(&all, |c| {
        hx.case(|| format!("{}{}", if c.rsa { "rsa " } else { "" }, c.name), || {
            m02_case(c)?;
            hx.count(match c.want { Want::Yes => "flights accepted", Want::No => "flights refused", Want::Any => "flights of free verdict" }, 1);
            hx.state(&(c.rsa, &c.name));
            hx.trans(7);
            Ok(())
        });
    });
}

// ---- M03: records ----
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Cut { At(Vec<usize>), Each(usize) }
fn split<'a>(b: &'a [u8], c: &Cut) -> Vec<&'a [u8]> {
    match c {
        Cut::Each(n) => b.chunks(*n).collect(),
        Cut::At(p) => {
            let mut p: Vec<usize> = p.iter().map(|&k| k.min(b.len())).collect();
            p.push(b.len());
            let mut o = vec![];
            let mut k = 0;
            for e in p { if e > k { o.push(&b[k..e]); k = e } }
            o
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Frag { rsa: bool, status: bool, creq: bool, cut: Cut, chunk: usize, warn: bool, tail: Vec<u8> }
/// The flight in records cut as given, read in pieces of `chunk` bytes.
fn m03_frag(c: &Frag) -> R {
    let i = id(c.rsa);
    with(config(&i), &i, &LIM, async |s: &mut Sess| {
        s.chunk = c.chunk;
        if c.status { s.srv.exts.extend(ext(5, &[])) }
        let mut fl: Vec<u8> = vec![];
        let mut its = vec![It::Sh, It::Cert];
        if c.status { its.push(Status) }
        its.push(It::Ske);
        if c.creq { its.push(Creq) }
        its.push(It::Shd);
        for it in &its { let b = s.srv.make(it).1; s.srv.hash.extend(&b); fl.extend(b) }
        fl.extend(&c.tail);
        let mut w = vec![];
        for p in split(&fl, &c.cut) {
            w.extend(rec(22, p));
            if c.warn { w.extend(rec(21, &[1, 90])) }
        }
        if !c.tail.is_empty() {
            let r = s.push(&w).await?;
            ck!(r.is_err() && !s.srv.ev.contains(&Ev::Ckx), "the flight ends within a message: {r:?} {:?}", s.srv.ev);
            return Ok(());
        }
        s.push(&w).await?.map_err(|e| format!("refused with {e}"))?;
        for its in [&[It::Ccs, It::Fin][..], &[App(5), App(33)], &[App(1)], &[It::Close]] {
            let b = s.srv.emit(its, false);
            s.push(&b).await?.map_err(|e| format!("{its:?}: refused with {e}"))?;
        }
        ck!(!s.c.is_handshaking() && s.c.peer_has_closed());
        ck_eq!(s.got, s.srv.sent_app, "data delivered");
        ck!(s.srv.ev.contains(&Ev::Fin(true)));
        Ok(())
    })
}
/// What an attacker between the server and the client does to record `.0` of Finished, data, data, data, closure.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Tamper { Bit(usize, usize), Drop(usize), Again(usize, usize), Swap(usize, usize), Short(usize, usize), Long(usize, usize), Type(usize, u8), Foreign(usize, u8), Reflect(usize), Merge(usize), Cut(usize, usize), Stop(usize), None }
impl Tamper {
    /// The first record that does not arrive as it was sent.
    fn from(&self) -> usize {
        match *self { Tamper::Bit(i, _) | Tamper::Drop(i) | Tamper::Short(i, _) | Tamper::Long(i, _) | Tamper::Type(i, _) | Tamper::Foreign(i, _) | Tamper::Reflect(i) | Tamper::Merge(i) | Tamper::Cut(i, _) | Tamper::Stop(i) => i, Tamper::Again(_, j) => j, Tamper::Swap(i, _) => i, Tamper::None => 9 }
    }
}
const LENS: [usize; 3] = [5, 20, 33];
/// `mode`: 0 a record at a time, 1 all at once, 2 decryption switched on only at the end, 3 not before the connection is closed.
fn m03_tamper(t: &Tamper, mode: u8) -> R {
    let (once, defer) = (mode > 0, mode > 1);
    let i = id(false);
    with(config(&i), &i, &Limits { defer, ..LIM }, async |s: &mut Sess| {
        for it in [It::Sh, It::Cert, It::Ske, It::Shd, It::Ccs] { let b = s.srv.emit(&[it], false); s.push(&b).await??; }
        let mine: Vec<u8> = s.sent[s.sent.len() - 45..].to_vec();
        let mut recs: Vec<Vec<u8>> = [It::Fin, App(LENS[0]), App(LENS[1]), App(LENS[2]), It::Close].iter().map(|i| s.srv.emit(&[i.clone()], false)).collect();
        let all = s.srv.sent_app.clone();
        match *t {
            Tamper::Bit(i, k) => recs[i][k / 8] ^= 1 << (k % 8),
            Tamper::Drop(i) => { recs.remove(i); }
            Tamper::Again(i, j) => { let r = recs[i].clone(); recs.insert(j, r) }
            Tamper::Swap(i, j) => recs.swap(i, j),
            Tamper::Short(i, n) => { let r = &mut recs[i]; let l = r.len() - n; r.truncate(l); let l = (l - 5) as u16; r[3..5].copy_from_slice(&l.to_be_bytes()) }
            Tamper::Long(i, n) => { let r = &mut recs[i]; r.extend(vec![0; n]); let l = (r.len() - 5) as u16; r[3..5].copy_from_slice(&l.to_be_bytes()) }
            Tamper::Type(i, b) => recs[i][0] = b,
            Tamper::Foreign(i, b) => { let r = rec(b, &[1, 0]); recs.insert(i, r) }
            Tamper::Reflect(i) => recs.insert(i, mine),
            Tamper::Merge(i) => { let b = recs.remove(i + 1); let r = &mut recs[i]; r.extend(&b[5..]); let l = (r.len() - 5) as u16; r[3..5].copy_from_slice(&l.to_be_bytes()) }
            Tamper::Cut(i, k) => { let r = recs[i].clone(); let (a, b) = r[5..].split_at(k); recs[i] = rec(r[0], a); recs.insert(i + 1, rec(r[0], b)) }
            Tamper::Stop(i) => recs.truncate(i),
            Tamper::None => {}
        }
        let k = t.from();
        let want = &all[..LENS[..k.saturating_sub(1).min(3)].iter().sum::<usize>()];
        let mut err = None;
        let wires: Vec<Vec<u8>> = if once { vec![recs.concat()] } else { recs };
        for w in wires { if let Err(e) = s.push(&w).await? { err = Some(e); break } }
        if mode == 2 && err.is_none() { s.c.enable_decryption(true); err = s.turn().await?.err() }
        if mode == 3 && err.is_none() && !s.c.is_handshaking() {
            s.c.write_plaintext(b"x").map_err(|e| e.to_string())?;
            s.turn().await??;
            err = match s.c.server_closed().await { Ok(()) => s.turn().await?.err(), Err(e) => Some(format!("{e:?}")) };
        }
        if once { ck!(want.starts_with(&s.got), "delivered {} bytes of which only {} are genuine", s.got.len(), want.len()) } else { ck_eq!(s.got, want, "data delivered ({err:?})") }
        ck!(k > 0 || s.c.is_handshaking(), "the handshake is complete though Finished is not the server's");
        // (The tag of an alert left to the end is verified with the transcript.)
        if k <= 4 && mode < 3 { ck!(!s.c.peer_has_closed(), "an end of the stream the server has not announced") } else if *t == Tamper::None { ck!(s.c.peer_has_closed() && err.is_none() && s.got == all, "{err:?}") }
        Ok(())
    })
}
pub fn m03(hx: &Hx) {
    hx.assume("the parties' virtual machine is ideal and the follower honest");
    let th = hx.thorough();
    let mut fr = vec![];
    let base = Frag { rsa: false, status: false, creq: false, cut: Cut::At(vec![]), chunk: usize::MAX, warn: false, tail: vec![] };
    let n = 700;
    for status in [false, true] { for creq in [false, true] { for rsa in [false, true] {
        let b = Frag { status, creq, rsa, ..base.clone() };
        let len = if rsa { 1500 } else { n };
        for k in 1..len { if th || (!status && !creq && (!rsa || k % 7 == 0)) || k % 16 == 0 { fr.push(Frag { cut: Cut::At(vec![k]), ..b.clone() }) } }
        for e in (1..=64).chain([100, 128, 200, 255, 256, 257, 400]) { fr.push(Frag { cut: Cut::Each(e), ..b.clone() }) }
        for chunk in (1..=32).chain([64, 100, 128, 255]) { fr.push(Frag { chunk, ..b.clone() }); fr.push(Frag { chunk, cut: Cut::Each(50), ..b.clone() }) }
        for e in [1usize, 2, 3, 5, 10, 100] { fr.push(Frag { cut: Cut::Each(e), warn: true, chunk: 64, ..b.clone() }) }
    } } }
    let step = if th { 6 } else { 40 };
    for a in (1..n).step_by(step) { for b in (a + 1..n).step_by(step) { fr.push(Frag { cut: Cut::At(vec![a, b]), ..base.clone() }) } }
    // The flight must not end within a message.
    for m in [hs(0, &[]), hs(20, &[7; 12]), hs(4, &[0; 10])] { for k in 1..m.len() { for cut in [Cut::At(vec![]), Cut::Each(9), Cut::At(vec![n - 5])] { fr.push(Frag { cut, tail: m[..k].to_vec(), ..base.clone() }) } } }
    fr.retain({ let mut seen = std::collections::HashSet::new(); move |f| seen.insert(f.clone()) });
    hx.par(&fr, |c| {
        hx.case(|| format!("{c:?}"), || { m03_frag(c)?; hx.count("flights cut into records", 1); hx.state(c); hx.trans(4); Ok(()) });
    });
    let sizes = [45usize, 34, 49, 62, 31];
    let mut ts = vec![Tamper::None];
    for i in 0..5 {
        for k in 0..sizes[i] * 8 { ts.push(Tamper::Bit(i, k)) }
        ts.push(Tamper::Drop(i));
        ts.push(Tamper::Stop(i));
        for j in i + 1..6 { ts.push(Tamper::Again(i, j)) }
        for j in i + 1..5 { ts.push(Tamper::Swap(i, j)) }
        for k in 1..=sizes[i] - 5 { ts.push(Tamper::Short(i, k)) }
        for k in 1..=33 { ts.push(Tamper::Long(i, k)) }
        for b in 0..=255 { if th || (19..26).contains(&b) { if b != [22, 23, 23, 23, 21][i] { ts.push(Tamper::Type(i, b)) } } }
        for b in [20, 21, 22, 23, 24] { ts.push(Tamper::Foreign(i, b)) }
        ts.push(Tamper::Reflect(i));
        if i < 4 { ts.push(Tamper::Merge(i)) }
        for k in 1..sizes[i] - 5 { ts.push(Tamper::Cut(i, k)) }
    }
    let ts: Vec<(Tamper, u8)> = ts.into_iter().flat_map(|t| (0..4).map(move |m| (t.clone(), m))).filter(|(t, m)| th || *m == 0 || !matches!(t, Tamper::Bit(_, k) | Tamper::Cut(_, k) | Tamper::Short(_, k) | Tamper::Long(_, k) if k % 7 > 0)).collect();
    hx.par(&ts, |(t, mode)| {
        hx.case(|| format!("{t:?}{}", ["", " at once", " deferred", " until closed"][*mode as usize]), || { m03_tamper(t, *mode)?; hx.count("sessions tampered with", 1); hx.state(&(t, mode)); hx.trans(5); Ok(()) });
    });
}

// ---- M04: after the handshake ----
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Write(usize), Finish, Data(usize), HelloReq, Warn, Close, Fatal, Hs, Garbage, On, Off, Both, Closed }
fn m04_case(ops: &[Op], defer: bool, frag: Option<usize>) -> Result<&'static str, String> {
    let i = id(false);
    let mut cfg = config(&i);
    cfg.max_fragment_size = frag;
    let lim = Limits { sent: 512, recs: 16, recv: 512, recv_recs: 8, defer };
    with(cfg, &i, &lim, async |s: &mut Sess| {
        for its in [&[It::Sh, It::Cert, It::Ske, It::Shd][..], &[It::Ccs, It::Fin]] { let b = s.srv.emit(its, false); s.push(&b).await??; }
        ck!(!s.c.is_handshaking(), "handshake not complete");
        let start = s.srv.ev.len();
        // What the server must see and the client be given; `held` waits for decryption.
        let (mut want, mut give, mut held, mut closed, mut on, mut wrote) = (vec![], vec![], vec![], false, !defer, 0u8);
        let mut done = false;
        for op in ops {
            let mut new: Vec<It> = vec![];
            let mut r = Ok(());
            match *op {
                Op::Write(n) => {
                    let d: Vec<u8> = (0..n).map(|k| wrote.wrapping_add(k as u8)).collect();
                    wrote = wrote.wrapping_add(n as u8);
                    ck_eq!(s.c.write_plaintext(&d).map_err(|e| e.to_string())?, n, "bytes taken");
                    want.push(Ev::App(d));
                    r = s.turn().await?;
                }
                Op::Finish => { s.c.send_close_notify().await.map_err(|e| format!("{e:?}"))?; want.push(Ev::Alert(1, 0)); r = s.turn().await? }
                Op::Data(n) => new.push(App(n)),
                Op::Both => new.extend([App(3), HelloReq, App(4)]),
                Op::HelloReq => new.push(HelloReq),
                Op::Warn => new.push(It::Warn),
                Op::Close => new.push(It::Close),
                Op::Fatal => new.push(It::Fatal),
                Op::Hs => new.push(It::Fin),
                Op::Garbage => new.push(It::Garbage),
                Op::On => { on = true; s.c.enable_decryption(true); r = s.turn().await? }
                Op::Off => { on = false; s.c.enable_decryption(false); r = s.turn().await? }
                Op::Closed => {
                    // The connection is gone: what is left is decrypted, nothing is sent any more.
                    r = s.c.server_closed().await.map_err(|e| format!("{e:?}"));
                    if r.is_ok() { r = s.turn().await? }
                    on = true;
                    done = true;
                }
            }
            if !new.is_empty() {
                let b = s.srv.emit(&new, false);
                r = s.push(&b).await?;
                // Nothing is looked at once the server has closed.
                if !closed { held.extend(new) }
            }
            let (mut must, mut seen) = (false, vec![]);
            while !held.is_empty() && (on || !matches!(held[0], App(_) | It::Garbage)) && !must {
                let it = held.remove(0);
                seen.push(it.clone());
                if it == It::Garbage { must = true; break }
                if closed { continue }
                match it {
                    App(n) => give.push(n),
                    HelloReq if !done => want.push(Ev::Alert(1, 100)),
                    It::Close => closed = true,
                    It::Fatal | It::Fin | HelloReq => must = true,
                    _ => {}
                }
            }
            let n: usize = give.iter().sum();
            if must {
                let Err(e) = r else { return Err(format!("{op:?}: {seen:?} was accepted")) };
                ck!(n == s.got.len() || seen.contains(&It::Garbage) || done, "{} bytes delivered before the error, {n} received", s.got.len());
                ck!(s.srv.sent_app[..n].starts_with(&s.got), "delivered data");
                // The error stays.
                for x in [App(3), It::Close] { let b = s.srv.emit(&[x], false); let r = s.push(&b).await?; ck!(r == Err(e.clone()) || (done && r.is_err()), "a later call gave {r:?} instead of {e}"); }
                return Ok("refused");
            }
            // The transcript the parties end with has to be of a proper stream (checked by N09), so closing may fail.
            if done && r.is_err() { return Ok("not closed"); }
            r.map_err(|e| format!("{op:?}: {e}"))?;
            ck_eq!(s.got, s.srv.sent_app[..n], "data delivered after {op:?}");
            ck_eq!(s.c.peer_has_closed(), closed, "end of stream after {op:?}");
            // Records of one write are one write.
            let mut ev: Vec<Ev> = vec![];
            for e in &s.srv.ev[start..] {
                if let (Ev::App(d), Some(k)) = (e, frag) { ck!(d.len() + 5 <= k, "a record of {} bytes with a limit of {k}", d.len() + 5) }
                match (ev.last_mut(), e) { (Some(Ev::App(a)), Ev::App(d)) => a.extend(d), _ => ev.push(e.clone()) }
            }
            let mut w: Vec<Ev> = vec![];
            for e in &want { match (w.last_mut(), e) { (_, Ev::App(d)) if d.is_empty() => {} (Some(Ev::App(a)), Ev::App(d)) => a.extend(d), _ => w.push(e.clone()) } }
            ck_eq!(ev, w, "what the server received after {op:?}");
            if done { return Ok("closed") }
        }
        Ok("open")
    })
}
pub fn m04(hx: &Hx) {
    hx.assume("the parties' virtual machine is ideal and the follower honest");
    use Op::*;
    let al = [Write(16), Write(0), Write(50), Finish, Data(7), Data(0), Op::HelloReq, Op::Warn, Op::Close, Op::Fatal, Hs, Op::Garbage, On, Off, Both, Closed];
    let mut cs = vec![];
    for l in all_seqs(al.len(), 1, hx.tier(3, 4)) {
        let ops: Vec<Op> = l.iter().map(|&i| al[i]).collect();
        // Nothing is written after the end, nothing at all follows the end of the connection.
        let fin = ops.iter().position(|o| *o == Finish).unwrap_or(99);
        if ops.iter().enumerate().any(|(k, o)| k > fin && matches!(o, Write(_) | Finish)) { continue }
        if ops[..ops.len() - 1].contains(&Closed) { continue }
        for defer in [false, true] {
            // Switching on what is on.
            if ops.len() > 2 && ops[0] == if defer { Off } else { On } { continue }
            cs.push((ops.clone(), defer, None));
            if ops.iter().any(|o| matches!(o, Write(50))) && ops.len() < hx.tier(3, 4) { for f in [32, 33, 40, 54, 55, 56] { cs.push((ops.clone(), defer, Some(f))) } }
        }
    }
    hx.par(&cs, |(ops, defer, frag)| {
        hx.case(|| format!("{}{}{ops:?}", if *defer { "deferred " } else { "" }, frag.map_or(String::new(), |f| format!("fragments of {f} "))), || {
            let r = m04_case(ops, *defer, *frag)?;
            hx.count(&format!("histories {r}"), 1);
            hx.state(&(ops, defer, frag));
            hx.trans(ops.len() as u64);
            Ok(())
        });
    });
}

// ---- M05: client authentication ----
struct NoCert(bool);
impl ResolvesClientCert for NoCert {
    fn resolve(&self, _: &[&[u8]], _: &[tls_core::msgs::enums::SignatureScheme]) -> Option<Arc<sign::CertifiedKey>> { None }
    fn has_certs(&self) -> bool { self.0 }
}
const KEYS: [(&str, &[u16]); 5] = [("leaf_p256", &[0x403]), ("leaf_p384", &[0x503]), ("leaf_ed", &[0x807]), ("leaf_rsa", &[0x401, 0x501, 0x601, 0x804, 0x805, 0x806]), ("leaf_root_p256", &[0x403])];
fn verify(cert: &[u8], scheme: u16, msg: &[u8], s: &[u8]) -> bool {
    use webpki::ring as w;
    let c = rustls::pki_types::CertificateDer::from(cert.to_vec());
    let Ok(ee) = webpki::EndEntityCert::try_from(&c) else { return false };
    let a = match scheme {
        0x403 => w::ECDSA_P256_SHA256, 0x503 => w::ECDSA_P384_SHA384, 0x807 => w::ED25519,
        0x401 => w::RSA_PKCS1_2048_8192_SHA256, 0x501 => w::RSA_PKCS1_2048_8192_SHA384, 0x601 => w::RSA_PKCS1_2048_8192_SHA512,
        0x804 => w::RSA_PSS_2048_8192_SHA256_LEGACY_KEY, 0x805 => w::RSA_PSS_2048_8192_SHA384_LEGACY_KEY, 0x806 => w::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
        _ => return false,
    };
    ee.verify_signature(a, msg, s).is_ok()
}
#[derive(Clone, Debug, Hash)]
struct Auth { key: usize, offer: Vec<u16>, types: Vec<u8>, names: Vec<Vec<u8>>, ask: bool, bad: Option<&'static str>, chain: usize, rsa: bool }
fn m05_case(c: &Auth) -> Result<&'static str, String> {
    let i = id(c.rsa);
    let chain: Vec<Vec<u8>> = if c.key < 5 { [fx(&format!("{}.der", KEYS[c.key].0)), fx("inter.der"), fx("root.der")][..c.chain].to_vec() } else { vec![] };
    let cfg = if c.key < 5 {
        let certs = chain.iter().map(|c| tls_core::key::Certificate(c.clone())).collect();
        ClientConfig::new_with_client_auth(roots(&i), certs, tls_core::key::PrivateKey(fx(&format!("{}.p8", KEYS[c.key].0)))).map_err(|e| format!("{e:?}"))?
    } else if c.key == 5 { config(&i) } else { ClientConfig::new_with_cert_resolver(roots(&i), Arc::new(NoCert(c.key == 6))) };
    let usable: Vec<u16> = if c.key < 5 { KEYS[c.key].1.iter().copied().filter(|s| c.offer.contains(s)).collect() } else { vec![] };
    with(cfg, &i, &LIM, async |s: &mut Sess| {
        let sc: Vec<u8> = c.offer.iter().flat_map(|s| s.to_be_bytes()).collect();
        s.srv.creq = [v8(&c.types), v16(&sc), v16(&c.names.iter().flat_map(|n| v16(n)).collect::<Vec<u8>>())].concat();
        let mut its = vec![It::Sh, It::Cert, It::Ske];
        if c.ask { its.push(Creq) }
        its.push(It::Shd);
        match c.bad {
            Some("certificate") => s.srv.id.chain = vec![fx("leaf_root2.der")],
            Some("signature") => s.srv.ske = Some({ let p = s.srv.params(); s.srv.ske_of(&p, b"something else", s.srv.id.scheme) }),
            _ => {}
        }
        let b = s.srv.emit(&its, false);
        let r = s.push(&b).await?;
        if c.bad.is_some() {
            ck!(r.is_err(), "a server without its {} was accepted", c.bad.unwrap());
            ck!(!s.srv.ev.iter().any(|e| matches!(e, Ev::Cert(_) | Ev::CertVerify { .. } | Ev::Ckx)), "the client identified itself to a server it does not trust");
            return Ok("withheld");
        }
        r.map_err(|e| format!("refused with {e}"))?;
        let ev = s.srv.ev[1..].to_vec();
        let ok = match &ev[..] {
            [Ev::Ckx, Ev::Ccs, Ev::Fin(true)] => !c.ask,
            [Ev::Cert(x), Ev::Ckx, Ev::Ccs, Ev::Fin(true)] => c.ask && x.is_empty() && usable.is_empty(),
            [Ev::Cert(x), Ev::Ckx, Ev::CertVerify { scheme, sig, over }, Ev::Ccs, Ev::Fin(true)] => {
                ck!(c.ask && !usable.is_empty(), "a certificate was sent");
                ck_eq!(*x, chain, "chain");
                ck!(usable.contains(scheme), "signed with {scheme:#x}, which was not offered");
                ck!(verify(&chain[0], *scheme, over, sig), "the signature does not verify with {scheme:#x} over the handshake");
                true
            }
            _ => false,
        };
        ck!(ok, "the client answered {ev:?}");
        for its in [&[It::Ccs, It::Fin][..], &[App(5)]] { let b = s.srv.emit(its, false); s.push(&b).await?.map_err(|e| format!("{its:?}: {e}"))?; }
        ck!(!s.c.is_handshaking());
        ck_eq!(s.got, s.srv.sent_app, "data delivered");
        Ok(if !c.ask { "not asked" } else if usable.is_empty() { "declined" } else { "authenticated" })
    })
}
pub fn m05(hx: &Hx) {
    hx.assume("the parties' virtual machine is ideal and the follower honest");
    let al = [0x0403u16, 0x0401, 0x0804, 0x0503, 0x0601, 0x0807, 0x0201, 0x0806, 0x0501, 0x0805, 0x0603, 0x0203, 0x1234];
    let base = Auth { key: 0, offer: vec![0x403, 0x401, 0x804, 0x503, 0x807], types: vec![1, 64], names: vec![], ask: true, bad: None, chain: 2, rsa: false };
    let mut cs = vec![];
    for key in 0..8 {
        let b = Auth { key, ..base.clone() };
        for rsa in [false, true] { for chain in 1..=3 {
            cs.push(Auth { rsa, chain, ..b.clone() });
            cs.push(Auth { rsa, chain, ask: false, ..b.clone() });
            for bad in ["certificate", "signature"] { for ask in [false, true] { cs.push(Auth { rsa, chain, ask, bad: Some(bad), ..b.clone() }) } }
        } }
        for types in [vec![1], vec![64], vec![64, 1], vec![2], vec![1, 2, 3, 4, 5, 6, 20, 64, 65, 66, 99]] { cs.push(Auth { types, ..b.clone() }) }
        for names in [vec![vec![0x30, 0]], vec![vec![7; 300]], vec![vec![1], vec![2; 200], vec![3; 9]]] { cs.push(Auth { names, ..b.clone() }) }
        // Every offer up to the bound, and in thorough every subset in both orders.
        if hx.thorough() {
            for m in 1..1u32 << al.len() {
                let l: Vec<u16> = (0..al.len()).filter(|k| m >> k & 1 == 1).map(|k| al[k]).collect();
                if l.len() > 5 && m % 5 > 0 { continue }
                cs.push(Auth { offer: l.clone(), ..b.clone() });
                cs.push(Auth { offer: l.into_iter().rev().collect(), ..b.clone() });
            }
        } else { for l in all_seqs(al.len(), 1, 2) { cs.push(Auth { offer: l.iter().map(|&k| al[k]).collect(), ..b.clone() }) } }
    }
    hx.par(&cs, |c| {
        hx.case(|| format!("{c:?}"), || { let r = m05_case(c)?; hx.count(&format!("servers {r}"), 1); hx.state(c); hx.trans(5); Ok(()) });
    });
}
