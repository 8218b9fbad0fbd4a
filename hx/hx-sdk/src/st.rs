//! S09: SDK sessions only go forward.
use crate::ses::*;
use futures::FutureExt;
use futures_plex::duplex;
use hx_lib::*;
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
};
use tlsn_sdk_core::{error::ErrorKind, Reveal, SdkError, SdkProver, SdkVerifier};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum POp {
    Setup,
    Mpc,
    Proxy,
    Transcript,
    Reveal,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum VOp {
    Connect,
    Setup,
    Socket,
    Run,
    Verify,
}
pub const POPS: [POp; 5] = [POp::Setup, POp::Mpc, POp::Proxy, POp::Transcript, POp::Reveal];
pub const VOPS: [VOp; 5] = [VOp::Connect, VOp::Setup, VOp::Socket, VOp::Run, VOp::Verify];

/// Where a session stands: number of steps done; `None` means out of order.
fn pnext(at: usize, proxy: bool, o: POp) -> Option<usize> {
    match (at, o) {
        (0, POp::Setup) => Some(1),
        (1, POp::Mpc) if !proxy => Some(2),
        (1, POp::Proxy) if proxy => Some(2),
        (2, POp::Transcript) => Some(2),
        (2, POp::Reveal) => Some(3),
        _ => None,
    }
}
fn vnext((at, sock): (usize, bool), proxy: bool, o: VOp) -> Option<(usize, bool)> {
    match (at, o) {
        (0, VOp::Connect) => Some((1, false)),
        (1, VOp::Setup) => Some((2, false)),
        (2, VOp::Socket) if proxy => Some((2, true)),
        (2, VOp::Run) if !proxy || sock => Some((3, false)),
        (3, VOp::Verify) => Some((4, false)),
        _ => None,
    }
}
/// Runs a call; the flag tells whether it answered without waiting.
async fn timed<T>(f: impl Future<Output = T>) -> (T, bool) {
    let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
    match f.as_mut().now_or_never() {
        Some(v) => (v, true),
        None => (f.await, false),
    }
}
fn refused(what: &str, r: Result<(), SdkError>, now: bool) -> R {
    match r {
        Ok(()) => Err(format!("{what} out of order succeeded")),
        Err(e) => {
            ck_eq!(e.kind(), ErrorKind::InvalidState, "{what} out of order: {e}");
            ck!(now, "{what} out of order waits");
            Ok(())
        }
    }
}

/// One side follows `ops` (a script that leaves the order of calls), the other behaves.
fn play(proxy: bool, pops: Option<&[POp]>, vops: Option<&[VOp]>) -> R {
    let s = Scn { proxy, ..base() };
    let (pio, vio) = duplex(1 << 20);
    let (cio, sio) = duplex(1 << 17);
    let big = 1 << 20;
    let fin: Arc<AtomicBool> = Default::default();
    let honest = |pops: Option<&[POp]>| -> Vec<POp> {
        match pops {
            Some(p) => p.to_vec(),
            None => vec![POp::Setup, if proxy { POp::Proxy } else { POp::Mpc }, POp::Reveal],
        }
    };
    let pseq = honest(pops);
    let vseq = match vops {
        Some(v) => v.to_vec(),
        None if proxy => vec![VOp::Connect, VOp::Setup, VOp::Socket, VOp::Run, VOp::Verify],
        None => vec![VOp::Connect, VOp::Setup, VOp::Run, VOp::Verify],
    };
    let sh: Sh = Default::default();
    let spare = |c: &Arc<AtomicUsize>| {
        let mut io = Slow::new(duplex(64).0, big, 0);
        io.calls = c.clone();
        io
    };
    let bad: Arc<Mutex<R>> = Arc::new(Mutex::new(Ok(())));
    let (pstrict, vstrict) = (pops.is_some(), vops.is_some());
    let (pcell, vcell) = (Mutex::new(Some(pio)), Mutex::new(Some(vio)));
    // The connection to the server, used by whoever makes it.
    let ccell = Mutex::new(Some(Slow::new(cio, big, 0)));
    let r = crate::ses::run(async {
        let p = async {
            let r: R = async {
                let mut p = SdkProver::new(pcfg(&s)).map_err(|e| e.to_string())?;
                let (mut at, mut left) = (0, false);
                for o in &pseq {
                    let next = if left { None } else { pnext(at, proxy, *o) };
                    let would = pnext(at, proxy, *o);
                    let c: Arc<AtomicUsize> = Default::default();
                    let was = p.is_complete();
                    let (r, now): (Result<(), SdkError>, bool) = match o {
                        POp::Setup => match next {
                            Some(_) => {
                                let io = pcell.lock().unwrap().take().unwrap();
                                timed(p.setup(Slow::new(io, big, 0))).await
                            }
                            None => timed(p.setup(spare(&c))).await,
                        },
                        POp::Mpc => {
                            let io = if next.is_some() { ccell.lock().unwrap().take() } else { None };
                            let (r, n) = timed(p.send_request_mpc(io.unwrap_or_else(|| spare(&c)), s.req.clone())).await;
                            (r.map(|_| ()), n)
                        }
                        POp::Proxy => {
                            let (r, n) = timed(p.send_request_proxy(s.req.clone())).await;
                            (r.map(|_| ()), n)
                        }
                        POp::Transcript => (p.transcript().map(|_| ()), true),
                        POp::Reveal => {
                            let (r, n) = timed(p.reveal(Reveal::new(), None)).await;
                            (r.map(|_| ()), n)
                        }
                    };
                    match next {
                        Some(n) => {
                            if pstrict {
                                r.map_err(|e| format!("{o:?} in order: {e}"))?;
                                ck_eq!(p.is_complete(), n == 3, "complete after {o:?}");
                            } else {
                                // the other side left the order of calls
                                r.map_err(|e| format!("peer: {e}"))?;
                            }
                            at = n;
                        }
                        None => {
                            match would {
                                // Back in order: whether the session can go on is not specified.
                                Some(n) if r.is_ok() => at = n,
                                Some(_) => {}
                                None => {
                                    refused(&format!("{o:?} at step {at}"), r, now)?;
                                    ck_eq!(c.load(SeqCst), 0, "{o:?} at step {at} used the connection it was given");
                                }
                            }
                            ck!(was || !p.is_complete() || at == 3, "complete after a refused {o:?}");
                            left = true;
                        }
                    }
                }
                Ok(())
            }
            .await;
            if let Err(e) = r {
                if pstrict {
                    *bad.lock().unwrap() = Err(e);
                }
            } else if pstrict {
                fin.store(true, SeqCst);
            }
        };
        let v = async {
            let r: R = async {
                let mut v = SdkVerifier::new(vcfg());
                let (mut at, mut left) = ((0, false), false);
                for o in &vseq {
                    let next = if left { None } else { vnext(at, proxy, *o) };
                    let would = vnext(at, proxy, *o);
                    let c: Arc<AtomicUsize> = Default::default();
                    let was = v.is_complete();
                    let (r, now): (Result<(), SdkError>, bool) = match o {
                        VOp::Connect => match next {
                            Some(_) => {
                                let io = vcell.lock().unwrap().take().unwrap();
                                timed(v.connect(Slow::new(io, big, 0))).await
                            }
                            None => timed(v.connect(spare(&c))).await,
                        },
                        VOp::Setup => {
                            let (r, n) = timed(v.setup()).await;
                            (r.map(|_| ()), n)
                        }
                        VOp::Socket => {
                            let io = if next.is_some() { ccell.lock().unwrap().take() } else { None };
                            (v.set_server_socket(io.unwrap_or_else(|| spare(&c))), true)
                        }
                        VOp::Run => timed(v.run()).await,
                        VOp::Verify => {
                            let (r, n) = timed(v.verify()).await;
                            (r.map(|_| ()), n)
                        }
                    };
                    match next {
                        Some(n) => {
                            if vstrict {
                                r.map_err(|e| format!("{o:?} in order: {e}"))?;
                                ck_eq!(v.is_complete(), n.0 == 4, "complete after {o:?}");
                            } else {
                                r.map_err(|e| format!("peer: {e}"))?;
                            }
                            at = n;
                        }
                        None => {
                            match would {
                                // Back in order: whether the session can go on is not specified.
                                Some(n) if r.is_ok() => at = n,
                                Some(_) => {}
                                None => {
                                    refused(&format!("{o:?} at step {at:?}"), r, now)?;
                                    ck_eq!(c.load(SeqCst), 0, "{o:?} at step {at:?} used the connection it was given");
                                }
                            }
                            ck!(was || !v.is_complete() || at == (4, false), "complete after a refused {o:?}");
                            left = true;
                        }
                    }
                }
                Ok(())
            }
            .await;
            if let Err(e) = r {
                if vstrict {
                    *bad.lock().unwrap() = Err(e);
                }
            } else if vstrict {
                fin.store(true, SeqCst);
            }
        };
        let srv = server(Slow::new(sio, big, 0), s.resp.clone(), s.eager, sh.clone());
        futures::join!(p, v, srv);
    });
    std::mem::replace(&mut *bad.lock().unwrap(), Ok(()))?;
    if !fin.load(SeqCst) {
        return Err(format!("stuck ({:?})", r.is_some()));
    }
    Ok(())
}

pub fn s09(hx: &Hx) {
    let depth = hx.tier(2usize, 4);
    let mut pi: Vec<(bool, Vec<POp>)> = vec![];
    let mut vi: Vec<(bool, Vec<VOp>)> = vec![];
    for proxy in [false, true] {
        // Every way to go forward, with calls that do not move, then every way out of order.
        let send = if proxy { POp::Proxy } else { POp::Mpc };
        let full = [POp::Setup, send, POp::Transcript, POp::Reveal];
        for k in 0..=full.len() {
            let pre = full[..k].to_vec();
            let at = pre.iter().try_fold(0, |a, o| pnext(a, proxy, *o)).unwrap();
            pi.push((proxy, pre.clone()));
            for t in all_seqs(POPS.len(), 1, depth) {
                let t: Vec<POp> = t.iter().map(|i| POPS[*i]).collect();
                if pnext(at, proxy, t[0]).is_none() {
                    pi.push((proxy, [pre.clone(), t].concat()));
                }
            }
        }
        let full: &[VOp] = if proxy { &[VOp::Connect, VOp::Setup, VOp::Socket, VOp::Run, VOp::Verify] } else { &[VOp::Connect, VOp::Setup, VOp::Run, VOp::Verify] };
        for k in 0..=full.len() {
            let pre = full[..k].to_vec();
            let at = pre.iter().try_fold((0, false), |a, o| vnext(a, proxy, *o)).unwrap();
            vi.push((proxy, pre.clone()));
            for t in all_seqs(VOPS.len(), 1, depth) {
                let t: Vec<VOp> = t.iter().map(|i| VOPS[*i]).collect();
                if vnext(at, proxy, t[0]).is_none() {
                    vi.push((proxy, [pre.clone(), t].concat()));
                }
            }
        }
    }
    hx.note("scripts", format!("{} of the prover, {} of the verifier: every prefix of a session, then every sequence of up to {depth} calls starting out of order", pi.len(), vi.len()));
    hx.par(&pi, |(proxy, ops)| {
        hx.case(|| format!("prover/{proxy}/{ops:?}"), || {
            hx.trans(ops.len() as u64);
            hx.state(&(0, proxy, ops));
            play(*proxy, Some(ops), None)
        });
    });
    hx.par(&vi, |(proxy, ops)| {
        hx.case(|| format!("verifier/{proxy}/{ops:?}"), || {
            hx.trans(ops.len() as u64);
            hx.state(&(1, proxy, ops));
            play(*proxy, None, Some(ops))
        });
    });
}
