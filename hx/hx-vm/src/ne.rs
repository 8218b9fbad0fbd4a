//! N04..N08: schedules, closing, crashes, corruption of the connection, a deviating verifier.
use crate::{e2e::*, nc::*, nd::*, sched::End};
use hx_lib::*;
use mpz::ideal_vm::reset_instr;
use std::rc::Rc;

pub fn go(scn: &Scn, delays: &[usize], max: usize) -> Result<(Out, End, usize), String> {
    reset_instr();
    crate::e2e::run(scn, delays, max)
}
pub fn with_reqs(mut scn: Scn, reqs: &[Req]) -> Scn {
    let rq = reqs.to_vec();
    scn.accept_prove = vec![true; rq.len()];
    scn.prove = Rc::new(move |p| {
        let t = p.transcript();
        rq.iter().map(|r| config(t, &clip(r, t.sent().len(), t.received().len()))).collect()
    });
    scn
}
/// The part of the request that exists.
fn clip(r: &Req, n: usize, m: usize) -> Req {
    let f = |v: &[usize], n: usize| v.iter().copied().filter(|i| *i < n).collect::<Vec<_>>();
    Req {
        ident: r.ident,
        reveal: r.reveal.as_ref().map(|(a, b)| (f(a, n), f(b, m))),
        commit: r.commit.iter().map(|(d, v, a)| (*d, f(v, if *d { n } else { m }), *a)).filter(|c| !c.1.is_empty()).collect(),
    }
}
/// Reveals everything there is.
fn with_all(mut scn: Scn) -> Scn {
    scn.accept_prove = vec![true];
    scn.prove = Rc::new(move |p| {
        let t = p.transcript();
        vec![config(t, &Req { ident: true, reveal: Some(((0..t.sent().len()).collect(), (0..t.received().len()).collect())), commit: vec![] })]
    });
    scn
}
/// Runs the undisturbed session; its result bounds what is enumerated.
fn baseline(hx: &Hx, name: &str, f: impl Fn() -> Result<usize, String>) -> Option<usize> {
    let r = catch(&f);
    hx.case(|| format!("{name} baseline"), || r.clone().map(|_| ()));
    r.ok()
}
pub fn ok<T>(r: &Option<Result<T, String>>) -> bool {
    matches!(r, Some(Ok(_)))
}
fn err<T>(r: &Option<Result<T, String>>) -> String {
    match r {
        Some(Err(e)) => e.clone(),
        Some(Ok(_)) => "ok".into(),
        None => "none".into(),
    }
}
fn srv_data(s: &[Srv]) -> Vec<u8> {
    s.iter().flat_map(|a| if let Srv::Send(b) = a { b.clone() } else { vec![] }).collect()
}
fn cli_data(s: &[Cli]) -> Vec<u8> {
    s.iter().flat_map(|a| if let Cli::Write(b) = a { b.clone() } else { vec![] }).collect()
}
/// What must hold however a session of two honest parties ends.
pub fn honest(scn: &Scn, o: &Out, end: &End) -> Result<bool, String> {
    ck!(o.panics.is_empty(), "{:?}", o.panics);
    ck_eq!(end, &End::Done, "session (prover {}, verifier {})", err(&o.prover), err(&o.verifier));
    let both = (ok(&o.prover), ok(&o.verifier));
    ck!(both.0 == both.1, "prover: {}; verifier: {}", err(&o.prover), err(&o.verifier));
    let (ts, tr) = (cli_data(&scn.cli), srv_data(&scn.srv));
    ck!(tr.starts_with(&o.cli_read), "the application read {} where the server wrote {}", hex(&o.cli_read), hex(&tr));
    ck!(ts.starts_with(&o.srv_read), "the server read {} where the application wrote {}", hex(&o.srv_read), hex(&ts));
    if !both.0 {
        return Ok(false);
    }
    let sh = Shape { sent: vec![ts.clone()], recv: vec![tr.clone()] };
    verifier_truth(o, &sh, &[])?;
    let t = o.transcript.as_ref().unwrap();
    ck!(ts.starts_with(t.sent()), "transcript sent {}", hex(t.sent()));
    ck!(tr.starts_with(t.received()), "transcript received {}", hex(t.received()));
    ck!(t.received().starts_with(&o.cli_read), "the application read more than the transcript holds");
    ck!(t.sent().starts_with(&o.srv_read), "the server read more than the transcript holds");
    let (p, v) = crate::nd::tls(o);
    for (a, b, w) in [(p.sent(), v.sent(), "sent"), (p.recv(), v.recv(), "received")] {
        ck_eq!(a.iter().map(|r| (r.seq, r.typ, &r.ciphertext)).collect::<Vec<_>>(), b.iter().map(|r| (r.seq, r.typ, &r.ciphertext)).collect::<Vec<_>>(), "{w} records");
    }
    if !scn.accept_prove.is_empty() {
        let v = o.outputs.first().ok_or("no output")?.as_ref().map_err(|e| format!("output: {e}"))?;
        let vt = v.transcript.as_ref().ok_or("no transcript")?;
        ck_eq!((vt.sent_unsafe(), vt.received_unsafe()), (t.sent(), t.received()), "disclosed transcript");
    }
    Ok(true)
}
/// A closing scenario.
#[derive(Clone, Debug)]
struct Cls {
    cli: Vec<Cli>,
    srv: Vec<Srv>,
    /// Does the session have to end well? `None`: either way.
    ok: Option<bool>,
    /// Is all the server sent in the transcript if it does?
    all: bool,
}
fn closings(mn: &str) -> Vec<(String, Cls)> {
    let mut v = vec![];
    let mpc = mn != "proxy";
    for (n, m) in [(0usize, 0usize), (2, 0), (0, 3), (2, 3)] {
        let sh = Shape::of(if n > 0 { &[2] } else { &[] }, if m > 0 { &[3] } else { &[] });
        let mut c0 = vec![];
        for b in &sh.sent {
            c0.extend([Cli::Write(b.clone()), Cli::Sync(b.len())]);
        }
        let mut s0 = vec![Srv::Recv(n)];
        s0.extend(sh.recv.iter().map(|b| Srv::Send(b.clone())));
        let rd = |c: &[Cli]| [&c0[..], c].concat();
        let cli: Vec<(&str, Vec<Cli>)> = vec![
            ("close", rd(&[Cli::Close])),
            ("close-read", rd(&[Cli::Close, Cli::ReadEof])),
            ("read-close-read", rd(&[Cli::Read(m), Cli::Close, Cli::ReadEof])),
            ("idle-close-read", rd(&[Cli::Idle, Cli::Close, Cli::ReadEof])),
            ("read-idle-close-read", rd(&[Cli::Read(m), Cli::Idle, Cli::Close, Cli::ReadEof])),
            ("eof", rd(&[Cli::ReadEof])),
            ("eof-close", rd(&[Cli::ReadEof, Cli::Close])),
            ("read-drop", rd(&[Cli::Read(m), Cli::Drop])),
            ("drop", rd(&[Cli::Drop])),
            ("idle-drop", rd(&[Cli::Idle, Cli::Drop])),
        ];
        let sv = |c: &[Srv]| [&s0[..], c].concat();
        // In the MPC modes both directions have to end with data or with a closing alert.
        let data = |b: bool| if mpc && !b { None } else { Some(true) };
        let srv: Vec<(&str, Vec<Srv>, Option<bool>, bool)> = vec![
            ("notify-shut", sv(&[Srv::CloseNotify, Srv::Shut]), data(n > 0), true),
            ("notify", sv(&[Srv::CloseNotify, Srv::WaitClose, Srv::Shut]), Some(true), true),
            ("wait-notify-shut", sv(&[Srv::WaitClose, Srv::CloseNotify, Srv::Shut]), Some(true), true),
            ("wait-data-notify-shut", sv(&[Srv::WaitClose, Srv::Send(vec![9; 4]), Srv::CloseNotify, Srv::Shut]), Some(true), true),
            ("wait-shut", sv(&[Srv::WaitClose, Srv::Shut]), if mpc && m == 0 { Some(false) } else { Some(true) }, true),
            ("shut", sv(&[Srv::Shut]), if mpc && m == 0 { Some(false) } else { data(n > 0) }, true),
            ("fatal", sv(&[Srv::Fatal, Srv::Shut]), Some(false), true),
            ("wait-fatal", sv(&[Srv::WaitClose, Srv::Fatal, Srv::Shut]), None, false),
            ("notify-idle-raw", sv(&[Srv::CloseNotify, Srv::Idle, Srv::Raw(vec![23, 3, 3, 0, 1, 0]), Srv::Idle, Srv::Shut]), if mpc && mn != "mpc-deferred" { data(n > 0) } else { None }, false),
            ("notify-raw", sv(&[Srv::CloseNotify, Srv::Raw(vec![23, 3, 3, 0, 1, 0]), Srv::Shut]), None, false),
        ];
        for (cn, c) in &cli {
            for (sn, s, ok, all) in &srv {
                // Each waits for the other: the application's own fault.
                if (sn.starts_with("wait") || *sn == "notify") && cn.starts_with("eof") {
                    continue;
                }
                // Nothing is decrypted before the close.
                if mn == "mpc-deferred" && m > 0 && cn.starts_with("read") && (sn.starts_with("wait") || *sn == "notify") {
                    continue;
                }
                v.push((format!("{n}/{m} {cn} {sn}"), Cls { cli: c.clone(), srv: s.clone(), ok: *ok, all: *all }));
            }
        }
    }
    v
}
pub fn n05(hx: &Hx) {
    hx.assume("the garbled-circuit/ZK VM, OT and share conversion of mpz are replaced by ideal functionalities");
    let mut items = vec![];
    for (mi, (mn, _, _)) in modes().iter().enumerate() {
        for (n, c) in closings(mn) {
            items.push((mi, n, c));
        }
    }
    hx.count("closing scenarios", items.len() as u64);
    let one = |mi: usize, n: &str, c: &Cls, delays: &[usize]| -> Result<usize, String> {
        let (_, mode, _) = modes().swap_remove(mi);
        let scn = with_all(Scn::new(mode, c.cli.clone(), c.srv.clone()));
        let (o, end, steps) = go(&scn, delays, 20_000)?;
        let good = honest(&scn, &o, &end)?;
        if let Some(want) = c.ok {
            // Under another schedule the close may overtake what it follows by default.
            if delays.is_empty() || want {
                ck!(good == want, "prover: {}; verifier: {}", err(&o.prover), err(&o.verifier));
            }
        }
        if good && c.all {
            ck_eq!(o.transcript.as_ref().unwrap().received(), &srv_data(&c.srv)[..], "transcript received");
            ck_eq!(o.transcript.as_ref().unwrap().sent(), &cli_data(&c.cli)[..], "transcript sent");
            if c.cli.contains(&Cli::ReadEof) {
                ck_eq!(o.cli_read, srv_data(&c.srv), "what the application read");
                ck!(ok(&o.cli), "application: {}", err(&o.cli));
            }
        }
        hx.trans(steps as u64);
        hx.state(&(mi, n, o.order));
        Ok(steps)
    };
    hx.par(&items, |(mi, n, c)| {
        let mn = modes()[*mi].0;
        hx.case(|| format!("{mn} {n}"), || one(*mi, n, c, &[]).map(|_| ()));
        if hx.thorough() {
            for d in (0..catch(|| one(*mi, n, c, &[])).unwrap_or(0)).filter(|d| *mi != 1 || d % 4 == 0) {
                hx.case(|| format!("{mn} {n} delay {d}"), || one(*mi, n, c, &[d]).map(|_| ()));
            }
        }
    });
}
/// Base sessions whose schedules are explored: (name, scenario, shape, requests).
fn sched_bases() -> Vec<(String, Scn, Shape, Vec<Req>)> {
    let mut v = vec![];
    let sh = Shape::of(&[5], &[4, 3]);
    let rq = vec![
        Req { ident: true, reveal: Some((vec![0, 1], vec![2, 3, 6])), commit: vec![(true, vec![1, 2, 3], 1), (false, vec![0, 1, 2], 2)] },
        Req { ident: false, reveal: Some((vec![0, 4], vec![])), commit: vec![] },
    ];
    for (mn, mode, online) in modes() {
        let scn = with_reqs(sh.scn(mode, online), &rq);
        v.push((mn.to_string(), scn, sh.clone(), rq.clone()));
    }
    v
}
pub fn n04(hx: &Hx) {
    hx.assume("the garbled-circuit/ZK VM, OT and share conversion of mpz are replaced by ideal functionalities");
    let one = |scn: &Scn, sh: &Shape, rq: &[Req], delays: &[usize]| -> Result<usize, String> {
        let (o, end, steps) = go(scn, delays, 50_000)?;
        ck!(o.panics.is_empty(), "{:?}", o.panics);
        ck_eq!(end, End::Done, "session (prover {}, verifier {})", err(&o.prover), err(&o.verifier));
        check(&o, sh, rq)?;
        ck!(ok(&o.cli) && ok(&o.driver_p) && ok(&o.driver_v), "application: {}; drivers: {}, {}", err(&o.cli), err(&o.driver_p), err(&o.driver_v));
        hx.trans(steps as u64);
        hx.state(&o.order);
        Ok(steps)
    };
    let bases = sched_bases();
    // All schedules of up to k delays.
    let k = hx.tier(2, 3);
    let mut items = vec![];
    for (bi, (n, scn, sh, rq)) in bases.iter().enumerate() {
        let Some(steps) = baseline(hx, n, || one(scn, sh, rq, &[])) else { continue };
        hx.note(&format!("steps {n}"), steps.to_string());
        for a in 0..steps + 1 {
            items.push((bi, steps, a));
        }
    }
    hx.par(&items, |(bi, steps, a)| {
        let (n, scn, sh, rq) = &sched_bases()[*bi];
        hx.case(|| format!("{n} delay {a}"), || one(scn, sh, rq, &[*a]).map(|_| ()));
        if !hx.thorough() && (*bi == 1 || *bi == 2) {
            return;
        }
        for b in a + 1..steps + 2 {
            hx.case(|| format!("{n} delay {a} {b}"), || one(scn, sh, rq, &[*a, b]).map(|_| ()));
            if k > 2 {
                // Third delay: the stretch right after the second.
                for c in b + 1..(b + 9).min(steps + 3) {
                    hx.case(|| format!("{n} delay {a} {b} {c}"), || one(scn, sh, rq, &[*a, b, c]).map(|_| ()));
                }
            }
        }
    });
    // Narrow connections: every transfer is split at other places.
    let mut items = vec![];
    for bi in 0..bases.len() {
        for cap in (1..=hx.tier(12, 48)).chain([64, 256, 1024, 4096, 16384]) {
            items.push((bi, true, cap));
        }
        for cap in [1, 2, 3, 5, 7, 12, 13, 16, 64, 256, 1024, 4096] {
            items.push((bi, false, cap));
        }
    }
    hx.par(&items, |(bi, tcp, cap)| {
        let (n, scn, sh, rq) = &sched_bases()[*bi];
        hx.case(
            || format!("{n} {} capacity {cap}", if *tcp { "tcp" } else { "session" }),
            || {
                let mut scn = scn.clone();
                if *tcp {
                    scn.tcp_cap = *cap
                } else {
                    scn.sess_cap = *cap
                }
                let (o, end, steps) = go(&scn, &[], 3_000_000)?;
                ck!(o.panics.is_empty(), "{:?}", o.panics);
                ck_eq!(end, End::Done, "session (prover {}, verifier {})", err(&o.prover), err(&o.verifier));
                check(&o, sh, rq)?;
                hx.trans(steps as u64);
                Ok(())
            },
        );
    });
    // Switching decryption on and off at every point of the session.
    let mut items = vec![];
    for mi in 0..3 {
        let mut seqs: Vec<Vec<Cli>> = vec![];
        let sh = Shape::of(&[5], &[4, 3]);
        for toggles in all_seqs(2, 1, hx.tier(2, 3)) {
            // Place the toggles (in order) in the gaps of the script.
            let base = vec![Cli::Write(sh.sent_all()), Cli::Sync(5), Cli::Idle, Cli::Close, Cli::ReadEof];
            let gaps = base.len();
            for places in all_seqs(gaps, toggles.len(), toggles.len()) {
                if places.windows(2).any(|w| w[0] > w[1]) {
                    continue;
                }
                for idle in [false, true] {
                    let mut s = vec![];
                    for (g, b) in base.iter().enumerate() {
                        for (p, t) in places.iter().zip(&toggles) {
                            if *p as usize == g {
                                s.push(Cli::Decrypt(*t == 1));
                                if idle {
                                    s.push(Cli::Idle);
                                }
                            }
                        }
                        s.push(b.clone());
                    }
                    seqs.push(s);
                }
            }
        }
        for s in seqs {
            items.push((mi, s));
        }
    }
    hx.count("decryption switches", items.len() as u64);
    hx.par(&items, |(mi, cli)| {
        let (mn, mode, _) = modes().swap_remove(*mi);
        let sh = Shape::of(&[5], &[4, 3]);
        let rq = &sched_bases()[0].3;
        hx.case(
            || format!("{mn} {cli:?}"),
            || {
                let mut scn = with_reqs(sh.scn(mode, false), rq);
                scn.cli = cli.clone();
                let steps = one(&scn, &sh, rq, &[])?;
                if hx.thorough() {
                    for d in 0..steps {
                        one(&scn, &sh, rq, &[d]).map_err(|e| format!("delay {d}: {e}"))?;
                    }
                }
                Ok(())
            },
        );
    });
}
/// Scenario in which nobody waits for a task by other means than the connection.
fn crash_scn(mi: usize) -> (Scn, Shape, Vec<Req>) {
    let (_, mode, online) = modes().swap_remove(mi);
    let sh = Shape::of(&[5], &[4, 3]);
    let (_, _, _, rq) = sched_bases().swap_remove(mi);
    let mut scn = with_reqs(sh.scn(mode, online), &rq);
    scn.cli.retain(|c| !matches!(c, Cli::Sync(_)));
    (scn, sh, rq)
}
const KILLS: [(&str, &[&str]); 4] = [
    ("prover side", &["prover", "driver_p", "client"]),
    ("verifier side", &["verifier", "driver_v"]),
    ("server", &["server"]),
    ("client", &["client"]),
];
pub fn n06(hx: &Hx) {
    hx.assume("the garbled-circuit/ZK VM, OT and share conversion of mpz are replaced by ideal functionalities");
    let mut items = vec![];
    for mi in 0..4 {
        let (scn, sh, rq) = crash_scn(mi);
        let Some(steps) = baseline(hx, modes()[mi].0, || {
            let (o, end, n) = go(&scn, &[], 20_000)?;
            ck_eq!(end, End::Done, "session");
            check(&o, &sh, &rq)?;
            Ok(n)
        }) else {
            continue;
        };
        for k in 0..KILLS.len() {
            for at in 0..=steps {
                items.push((mi, k, at));
            }
        }
    }
    hx.count("crash points", items.len() as u64);
    let one = |mi: usize, k: usize, at: usize, delays: &[usize]| -> Result<usize, String> {
        let (mut scn, sh, rq) = crash_scn(mi);
        scn.kills = KILLS[k].1.iter().map(|n| (at, *n)).collect();
        let (o, end, steps) = go(&scn, delays, 20_000)?;
        ck!(o.panics.is_empty(), "{:?}", o.panics);
        ck_eq!(end, End::Done, "survivors (prover {}, verifier {})", err(&o.prover), err(&o.verifier));
        // The server may have gone before it read what was sent to it.
        truth(&o, &sh, &rq, usize::MAX)?;
        ck!(sh.recv_all().starts_with(&o.cli_read), "the application read {}", hex(&o.cli_read));
        ck!(sh.sent_all().starts_with(&o.srv_read), "the server read {}", hex(&o.srv_read));
        if let Some(t) = &o.transcript {
            ck!(sh.recv_all().starts_with(t.received()) && sh.sent_all().starts_with(t.sent()), "transcript {} {}", hex(t.sent()), hex(t.received()));
        }
        // Outputs that were given are those of the requests.
        for (r, v) in rq.iter().zip(&o.outputs) {
            if let (Ok(v), Some(t)) = (v, &o.transcript) {
                if let Some(vt) = &v.transcript {
                    ck_eq!((vt.len_sent(), vt.len_received()), (t.sent().len(), t.received().len()), "transcript length");
                }
                ck_eq!(v.server_name.is_some(), r.ident, "server name");
            }
        }
        hx.trans(steps as u64);
        hx.state(&(mi, k, at, o.order.len(), ok(&o.prover), ok(&o.verifier), o.outputs.len()));
        hx.count(if o.outputs.len() == rq.len() && o.outputs.iter().all(|r| r.is_ok()) { "completed" } else { "ended early" }, 1);
        Ok(steps)
    };
    hx.par(&items, |(mi, k, at)| {
        let mn = modes()[*mi].0;
        hx.case(|| format!("{mn} {} ends at step {at}", KILLS[*k].0), || one(*mi, *k, *at, &[]).map(|_| ()));
        if hx.thorough() {
            for d in at.saturating_sub(6)..at + 6 {
                hx.case(|| format!("{mn} {} ends at step {at} delay {d}", KILLS[*k].0), || one(*mi, *k, *at, &[d]).map(|_| ()));
            }
        }
    });
}
pub fn n07(hx: &Hx) {
    hx.assume("the garbled-circuit/ZK VM, OT and share conversion of mpz are replaced by ideal functionalities");
    let mut items = vec![];
    for mi in 0..4 {
        let (scn, sh, rq) = crash_scn(mi);
        let Some(n) = baseline(hx, modes()[mi].0, || {
            let (o, end, _) = go(&scn, &[], 20_000)?;
            ck_eq!(end, End::Done, "session");
            check(&o, &sh, &rq)?;
            Ok(o.srv_wrote)
        }) else {
            continue;
        };
        for at in 0..n {
            items.push((mi, at));
        }
    }
    hx.count("altered bytes", items.len() as u64);
    hx.par(&items, |(mi, at)| {
        let mn = modes()[*mi].0;
        hx.case(
            || format!("{mn} byte {at} from the server altered"),
            || {
                let (mut scn, sh, rq) = crash_scn(*mi);
                scn.srv_flip = Some(*at);
                let (o, end, steps) = go(&scn, &[], 20_000)?;
                // rustls' own debug assertion: a bad record after it has sent its close_notify.
                ck!(o.panics.iter().all(|(_, m)| m.contains("sent_fatal_alert")), "{:?}", o.panics);
                // An altered length may leave everybody waiting for the rest of a record; the
                // session ends with the connection then.
                match &end {
                    End::Done | End::Deadlock(_) => {}
                    e => return Err(format!("{e:?}")),
                }
                if mn != "mpc-deferred" {
                    ck!(sh.recv_all().starts_with(&o.cli_read), "the application read {}", hex(&o.cli_read));
                }
                // Whatever is accepted is what the server meant.
                if let Some(Ok(_)) = &o.prover {
                    let t = o.transcript.as_ref().unwrap();
                    ck!(sh.recv_all().starts_with(t.received()), "the prover accepts {}", hex(t.received()));
                }
                for v in o.outputs.iter().flatten() {
                    if let Some(t) = &v.transcript {
                        for (i, p) in t.received_unsafe().iter().enumerate() {
                            let open = positions(t.received_authed()).contains(&i);
                            ck!(!open || sh.recv_all().get(i) == Some(p), "the verifier accepts byte {i} altered");
                        }
                    }
                }
                hx.count(if ok(&o.verifier) { "sessions that ended well" } else { "sessions refused" }, 1);
                hx.trans(steps as u64);
                hx.state(&(mi, at));
                let _ = &rq;
                Ok(())
            },
        );
    });
}
pub fn n08(hx: &Hx) {
    hx.assume("the ZK and MPC virtual machine is ideal: a deviating verifier chooses its inputs and its messages, not the outcome of an evaluation");
    let mut items = vec![];
    for (bi, b) in bases(hx.thorough()).iter().enumerate() {
        let fr = match catch(|| frames(b, 2)) {
            Ok(f) => f,
            Err(e) => {
                hx.case(|| format!("{} baseline", b.name), || Err(e));
                return;
            }
        };
        for (f, pos) in positions_of(&fr, hx.thorough()) {
            for m in masks(fr[f], pos, hx.thorough()) {
                items.push((bi, (f, pos, *m)));
            }
        }
    }
    hx.count("tampered sessions", items.len() as u64);
    hx.par(&items, |(bi, t)| {
        let b = &bases(hx.thorough())[*bi];
        hx.case(
            || format!("{} frame {} byte {} mask {}", b.name, t.0, t.1, t.2),
            || {
                reset_instr();
                with_tamper(2, *t);
                let (o, end, steps) = crate::e2e::run(&scn_of(b), &[], 20_000)?;
                prover_truth(&o, &end, b)?;
                hx.count(if ok(&o.prover) { "sessions that ended well" } else { "sessions refused" }, 1);
                hx.trans(steps as u64);
                hx.state(&(bi, t));
                Ok(())
            },
        );
    });
}
/// Whatever prover and application accepted is true of the connection.
pub fn prover_truth(o: &Out, end: &End, b: &Base) -> R {
    for (who, what) in &o.panics {
        ck!(!["prover", "driver_p", "client"].contains(who), "{who} panics: {what}");
    }
    if let End::Livelock(l) = end {
        ck!(!l.contains(&"prover"), "the prover spins");
    }
    ck!(b.sh.recv_all().starts_with(&o.cli_read), "the application read {}", hex(&o.cli_read));
    ck!(b.sh.sent_all().starts_with(&o.srv_read), "the server read {}", hex(&o.srv_read));
    if let (Some(Ok(p)), Some(t)) = (&o.prover, &o.transcript) {
        ck!(b.sh.recv_all().starts_with(t.received()), "transcript received {}", hex(t.received()));
        ck!(b.sh.sent_all().starts_with(t.sent()), "transcript sent {}", hex(t.sent()));
        ck!(t.received().starts_with(&o.cli_read), "the application read more than the transcript holds");
        let raw = protected(&o.srv_raw.0);
        for (i, r) in p.recv().iter().enumerate() {
            ck_eq!(Some([&r.explicit_nonce[..], &r.ciphertext, r.tag.as_deref().unwrap_or(&[])].concat()), raw.get(i).map(|x| x.1.clone()), "record {i} received");
        }
    }
    for p in o.proofs.iter().flatten() {
        // The commitments the prover keeps open with the secrets it keeps.
        for (c, s) in p.transcript_commitments.iter().zip(&p.transcript_secrets) {
            let (tlsn::transcript::TranscriptCommitment::Hash(c), tlsn::transcript::TranscriptSecret::Hash(s)) = (c, s) else { continue };
            let src = if c.direction == tlsn::transcript::Direction::Sent { b.sh.sent_all() } else { b.sh.recv_all() };
            let mut m: Vec<u8> = positions(&c.idx).iter().map(|i| src[*i]).collect();
            m.extend(s.blinder.as_bytes());
            ck_eq!(c.hash.value.as_bytes(), &digest(c.hash.alg.as_u8(), &m)[..], "commitment does not open to the transcript");
        }
    }
    Ok(())
}
