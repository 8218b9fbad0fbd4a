//! S12: sessions that lose a connection.
use crate::{msg::norm, ses::*};
use hx_lib::*;
use tlsn_sdk_core::{Commit, CommitRange, HashAlgorithm, Reveal, Transcript};

fn pick(t: &Transcript) -> (Reveal, Option<Commit>) {
    let c = |r: std::ops::Range<usize>| CommitRange { start: r.start, end: r.end, algorithm: HashAlgorithm::Sha256 };
    let n = t.recv.len();
    let cm = Commit { sent: vec![c(1..3)], recv: if n > 4 { vec![c(2..n)] } else { vec![] } };
    (Reveal::new().server_identity(true).sent(0..4).recv(0..n.min(9)), Some(cm))
}
/// What holds whatever happened to the connections.
fn holds(s: &Scn, d: &Done) -> R {
    if let Some(t) = &d.transcript {
        ck!(t.sent.starts_with(&d.wire.got), "the server got what the prover did not send");
        ck!(d.wire.sent.starts_with(&t.recv), "the prover holds what the server did not send");
    }
    let (po, vo) = (d.opened.as_ref(), d.verified.as_ref());
    ck_eq!(d.complete, (po.is_some_and(|o| o.is_ok()), vo.is_some_and(|o| o.is_ok())), "complete");
    if let Some(Ok(o)) = po {
        let t = d.transcript.as_ref().ok_or("no transcript")?;
        let (_, cm) = pick(t);
        ck_eq!((o.sent.len(), o.recv.len()), (1, cm.unwrap().recv.len()), "openings");
    }
    if let Some(Ok(v)) = vo {
        let t = d.transcript.as_ref().ok_or("verified without a transcript")?;
        let (rv, _) = pick(t);
        let p = v.transcript.as_ref().ok_or("nothing revealed")?;
        ck_eq!(v.server_name.as_deref(), Some(tlsn_server_fixture_certs::SERVER_DOMAIN), "server name");
        ck_eq!((v.connection_info.transcript_length.sent, v.connection_info.transcript_length.recv), (t.sent.len(), t.recv.len()), "lengths");
        for (got, au, all, want) in [(&p.sent, &p.sent_authed, &t.sent, norm(rv.sent.clone())), (&p.recv, &p.recv_authed, &t.recv, norm(rv.recv.clone()))] {
            ck_eq!(au, &want, "revealed");
            for r in au {
                ck_eq!(hex(&got[r.clone()]), hex(&all[r.clone()]), "revealed data");
            }
        }
    }
    let _ = s;
    Ok(())
}
pub fn s12(hx: &Hx) {
    let mut items: Vec<(Scn, usize, usize, Fault)> = vec![];
    for mode in 0..3usize {
        for max in hx.tier(vec![64usize, 1 << 14], vec![1 << 14, 256, 64, 16, 4]) {
            let s = Scn { proxy: mode == 2, defer: mode == 0, eager: mode == 0, link: (if mode == 2 { max } else { max * 8 }, 0), tcp: (max, 0), resp: base().resp.concat().chunks(20).map(|c| c.to_vec()).collect(), ..base() };
            let mut moved = [0; 3];
            hx.case(|| format!("whole/{mode}/{max}"), || {
                let d = session(&s, &pick)?;
                moved = d.moved;
                ck!(moved.iter().all(|m| *m > 0), "nothing moved: {moved:?}");
                Ok(())
            });
            for (i, m) in moved.iter().enumerate() {
                for at in 0..=*m {
                    for f in [Fault::Reset, Fault::End] {
                        items.push((s.clone(), i, at, f));
                    }
                }
            }
        }
    }
    hx.note("faults", format!("{} sessions, each losing one of its connections at one transfer, every transfer covered", items.len()));
    hx.par(&items, |(s, i, at, f)| {
        hx.case(|| format!("fault/{}{}/{}/{i}/{at}/{f:?}", if s.proxy { "proxy" } else { "mpc" }, if s.defer { "-deferred" } else { "" }, s.tcp.0), || {
            let mut s = s.clone();
            s.die[*i] = Some((*at, *f));
            hx.trans(1);
            hx.state(&(s.proxy, s.defer, s.tcp, i, at, f));
            let d = session_fault(&s, &pick).map_err(|e| format!("{e}"))?;
            holds(&s, &d)
        });
    });
}
