//! N02: what neither party may see.
use crate::{e2e::*, nd::*};
use hx_lib::*;
use mpz::ideal_vm::{Ev, INSTR};
use tlsn::transcript::ContentType;

fn prf(secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    fn hmac(k: &[u8], m: &[u8]) -> Vec<u8> {
        let k = ring::hmac::Key::new(ring::hmac::HMAC_SHA256, k);
        ring::hmac::sign(&k, m).as_ref().to_vec()
    }
    let s = [label, seed].concat();
    let mut a = s.clone();
    let mut out = vec![];
    while out.len() < n {
        a = hmac(secret, &a);
        out.extend(hmac(secret, &[a.clone(), s.clone()].concat()));
    }
    out.truncate(n);
    out
}
/// (client key, server key, client iv, server iv) from the server's key log.
pub fn session_keys(o: &Out) -> Result<[Vec<u8>; 4], String> {
    let (_, cr, ms) = o.keylog.first().ok_or("no key log")?;
    let v = tls(o).1;
    let tlsn::connection::CertBinding::V1_2(b) = v.certificate_binding() else { return Err("binding".into()) };
    let kb = prf(ms, b"key expansion", &[&b.server_random[..], cr].concat(), 40);
    Ok([kb[..16].to_vec(), kb[16..32].to_vec(), kb[32..36].to_vec(), kb[36..40].to_vec()])
}
pub fn keystream(key: &[u8], iv: &[u8], nonce: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut c = openssl::symm::Crypter::new(openssl::symm::Cipher::aes_128_ecb(), openssl::symm::Mode::Encrypt, key, None).unwrap();
    c.pad(false);
    for i in 0..n.div_ceil(16) {
        let b = [iv, nonce, &(2 + i as u32).to_be_bytes()].concat();
        let mut o = vec![0; 32];
        let k = c.update(&b, &mut o).unwrap();
        out.extend(&o[..k]);
    }
    out.truncate(n);
    out
}
fn has(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
fn bytes(bits: &[bool]) -> Vec<u8> {
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << i)).collect()
}
/// True for the ideal functionality's own traffic, which stands for the opaque messages of the
/// real protocols.
pub fn is_priv(f: &[u8]) -> bool {
    f.len() > 12 && &f[8..12] == b"priv"
}
const W: usize = 6;
pub fn n02(hx: &Hx) {
    hx.assume("the garbled-circuit/ZK VM, OT and share conversion of mpz are replaced by ideal functionalities: what they exchange internally is taken to be opaque");
    let mut items = vec![];
    let shapes = if hx.thorough() { vec![(vec![24], vec![24]), (vec![12, 20], vec![8, 33]), (vec![40], vec![16, 16, 16]), (vec![17, 17], vec![64])] } else { vec![(vec![24], vec![24]), (vec![12, 20], vec![8, 33])] };
    for (si, (a, b)) in shapes.iter().enumerate() {
        let (n, m): (usize, usize) = (a.iter().sum(), b.iter().sum());
        // Which stretches of eight bytes are shown, and which are committed to.
        let (sn, sm) = (n / 8, m / 8);
        let stretch = |mask: u64, k: usize, len: usize| -> Vec<usize> { (0..len).filter(|p| mask >> (p / 8).min(k - 1) & 1 == 1).collect() };
        for mi in 0..modes().len() {
            for x in 0..1u64 << sn.min(4) {
                for y in 0..1u64 << sm.min(4) {
                    if !hx.thorough() && (x + 3 * y) % 2 == 1 && x != 0 && y != 0 {
                        continue;
                    }
                    for c in 0..3 {
                        let (s, r) = (stretch(x, sn.min(4), n), stretch(y, sm.min(4), m));
                        let commit = match c {
                            0 => vec![],
                            1 => vec![(true, (0..n).collect(), 1u8)],
                            _ => vec![(false, (m / 2..m).collect(), 2), (true, (0..n / 2).collect(), 3)],
                        };
                        let reveal = (x != 0 || y != 0).then(|| (s, r));
                        items.push((si, mi, Req { ident: (x + y) % 2 == 0, reveal, commit }));
                    }
                }
            }
        }
    }
    hx.count("sessions", items.len() as u64);
    hx.par(&items, |(si, mi, req)| {
        let (mn, mode, online) = modes().swap_remove(*mi);
        let (a, b) = &shapes[*si];
        let sh = Shape::of(a, b);
        hx.case(
            || format!("{mn} {a:?}{b:?} {req:?}"),
            || {
                mpz::ideal_vm::reset_instr();
                INSTR.with(|i| i.borrow_mut().record = true);
                let o = session(&sh.scn(mode, online), std::slice::from_ref(req))?;
                check(&o, &sh, std::slice::from_ref(req))?;
                let ev = INSTR.with(|i| std::mem::take(&mut i.borrow_mut().events));
                let [cwk, swk, civ, siv] = session_keys(&o)?;
                let ms = o.keylog[0].2.clone();
                // What the verifier sees: frames from the prover, values decoded to it.
                let mut seen: Vec<Vec<u8>> = vec![];
                for e in &ev {
                    match e {
                        Ev::Frame(1, f) if !is_priv(f) => seen.push(f.clone()),
                        Ev::Decode(vm, b) if vm >> 32 == 2 => seen.push(bytes(b)),
                        _ => {}
                    }
                }
                ck!(!seen.is_empty(), "nothing was observed");
                let shown = |d: usize| req.reveal.as_ref().map(|r| if d == 0 { r.0.clone() } else { r.1.clone() }).unwrap_or_default();
                let (ts, tr) = (sh.sent_all(), sh.recv_all());
                let all = [shown(0).len() == ts.len(), shown(1).len() == tr.len()];
                let mut secrets: Vec<(String, Vec<u8>)> = vec![("the master secret".into(), ms.clone())];
                // A fully revealed direction is opened with its key.
                for (d, k) in [(0, &cwk), (1, &swk)] {
                    if !all[d] {
                        secrets.push((format!("key {d}"), k.clone()));
                    }
                }
                let (p, _) = tls(&o);
                for (d, recs, truth, key, iv) in [(0, p.sent(), &ts, &cwk, &civ), (1, p.recv(), &tr, &swk, &siv)] {
                    let open = shown(d);
                    let mut ks = vec![];
                    for r in recs.iter().filter(|r| r.typ == ContentType::ApplicationData) {
                        let k = keystream(key, iv, &r.explicit_nonce, r.ciphertext.len());
                        ck_eq!(r.ciphertext.iter().zip(&k).map(|(a, b)| a ^ b).collect::<Vec<u8>>(), r.plaintext.clone().unwrap_or_default(), "record is not encrypted with the session key");
                        ks.extend(k);
                    }
                    for at in 0..truth.len().saturating_sub(W - 1) {
                        if (at..at + W).all(|i| !open.contains(&i)) {
                            secrets.push((format!("plaintext {d} at {at}"), truth[at..at + W].to_vec()));
                            secrets.push((format!("keystream {d} at {at}"), ks[at..at + W].to_vec()));
                        }
                    }
                }
                // Finished messages, whose plaintext is only for the two ends of the connection,
                // are known to the MPC verifier by design; keys are not.
                for (what, s) in &secrets {
                    if let Some(f) = seen.iter().find(|f| has(f, s)) {
                        return Err(format!("the verifier saw {what} in {} bytes starting {}", f.len(), hex(&f[..f.len().min(24)])));
                    }
                }
                // What the prover sees in the MPC modes before all records are with the verifier.
                if mn.starts_with("mpc") {
                    let last = p.recv().iter().map(|r| ev.iter().position(|e| matches!(e, Ev::Frame(1, f) if !is_priv(f) && has(f, &r.ciphertext)))).collect::<Option<Vec<_>>>().ok_or("a record was never sent to the verifier")?.into_iter().max().unwrap_or(0);
                    let mut count = 0;
                    for (i, e) in ev.iter().enumerate() {
                        let (b, who) = match e {
                            Ev::Frame(2, f) if !is_priv(f) => (f.clone(), "a frame"),
                            Ev::Decode(vm, b) if vm >> 32 == 1 => (bytes(b), "a decoded value"),
                            _ => continue,
                        };
                        for (n, k) in [("client key", &cwk), ("server key", &swk), ("master secret", &ms)] {
                            ck!(i >= last || !has(&b, k), "the prover saw the {n} in {who} before handing over all records");
                            count += has(&b, k) as usize;
                        }
                    }
                    hx.count("key releases after the end", count as u64);
                }
                hx.trans(ev.len() as u64);
                hx.state(&format!("{mn}{si}{req:?}"));
                Ok(())
            },
        );
    });
}
