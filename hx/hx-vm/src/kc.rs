//! K01-K04: the two-party components on their own, both parties driven in one thread.
use tlsn_deap::{Deap, Role as DeapRole};
use futures::Future;
use hmac_sha256::{MSMode, NetworkMode, Prf, PrfConfig, PrfOutput};
use hx_lib::*;
use key_exchange::{KeyExchange, MpcKeyExchange, Role};
use mpz::{
    circuits::{Circuit, CircuitBuilder},
    common::{context::test_st_context, Context},
    core::bitvec::BitVec,
    ideal_vm::{reset_instr, IdealVm, INSTR},
    fields::p256::P256,
    memory_core::{binary::U8, *},
    share_conversion::ideal::*,
    vm_core::{prelude::*, Call},
};
use std::{pin::pin, sync::Arc, task::{Context as Cx, Poll}};
use cipher::{aes::Aes128, Cipher, Keystream};

/// Drives both parties in turns until both are done; error if they wait for each other.
pub fn two<A: Future, B: Future>(a: A, b: B) -> Result<(A::Output, B::Output), String> {
    let (mut a, mut b) = (pin!(a), pin!(b));
    let (mut ra, mut rb) = (None, None);
    let w = futures::task::noop_waker();
    for _ in 0..20_000 {
        let mut cx = Cx::from_waker(&w);
        if ra.is_none() { if let Poll::Ready(r) = a.as_mut().poll(&mut cx) { ra = Some(r) } }
        if rb.is_none() { if let Poll::Ready(r) = b.as_mut().poll(&mut cx) { rb = Some(r) } }
        if ra.is_some() && rb.is_some() { return Ok((ra.unwrap(), rb.unwrap())) }
    }
    Err(format!("the parties wait for each other (leader done: {}, follower done: {})", ra.is_some(), rb.is_some()))
}
fn e<E: std::fmt::Display>(e: E) -> String { e.to_string() }
/// Input known to the leader (0), the follower (1) or both (2), as `party` declares it.
fn input<const N: usize>(vm: &mut dyn Vm<binary::Binary>, party: usize, owner: usize, v: [u8; N]) -> Result<Array<U8, N>, String> {
    let r: Array<U8, N> = vm.alloc().map_err(e)?;
    if owner == 2 { vm.mark_public(r).map_err(e)? } else if owner == party { vm.mark_private(r).map_err(e)? } else { vm.mark_blind(r).map_err(e)? }
    if owner == 2 || owner == party { vm.assign(r, v).map_err(e)? }
    vm.commit(r).map_err(e)?;
    Ok(r)
}
fn exec(a: &mut IdealVm, b: &mut IdealVm, cx: &mut (Context, Context)) -> R {
    let (x, y) = two(a.execute_all(&mut cx.0), b.execute_all(&mut cx.1))?;
    x.map_err(e)?;
    y.map_err(e)
}

// ---- K01 ----
fn hmac(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let k = ring::hmac::Key::new(ring::hmac::HMAC_SHA256, key);
    ring::hmac::sign(&k, &parts.concat()).as_ref().to_vec()
}
pub fn ref_prf(secret: &[u8], label: &str, seed: &[u8], n: usize) -> Vec<u8> {
    let ls = [label.as_bytes(), seed].concat();
    let (mut a, mut out) = (hmac(secret, &[&ls]), vec![]);
    while out.len() < n { out.extend(hmac(secret, &[&a, &ls])); a = hmac(secret, &[&a]); }
    out.truncate(n);
    out
}
fn nm(i: usize) -> NetworkMode { [NetworkMode::Normal, NetworkMode::Reduced][i] }
fn mm(i: usize) -> MSMode { [MSMode::Standard, MSMode::Extended, MSMode::Direct][i] }
/// Session inputs: pre-master (or master) secret, client random, server random, session hash, Finished hashes.
#[derive(Clone, Debug, Hash)]
struct In { secret: Vec<u8>, cr: [u8; 32], sr: [u8; 32], sh: [u8; 32], cf: [u8; 32], sf: [u8; 32] }
fn pat(i: usize, salt: u8) -> [u8; 32] {
    match i {
        0 => std::array::from_fn(|k| (k as u8).wrapping_mul(7) ^ salt.wrapping_mul(29)),
        1 => [0; 32],
        2 => [255; 32],
        i => { let mut v = [0; 32]; v[(i - 3) / 8 % 32] = 1 << ((i - 3) % 8); v }
    }
}
impl In {
    fn of(p: [usize; 6], direct: bool) -> Self {
        let mut secret = pat(p[0], 1).to_vec();
        if direct { secret.extend(pat(p[0] + usize::from(p[0] > 2) * 3, 77).iter().take(16)) }
        In { secret, cr: pat(p[1], 2), sr: pat(p[2], 3), sh: pat(p[3], 4), cf: pat(p[4], 5), sf: pat(p[5], 6) }
    }
    fn expect(&self, ms: usize) -> [Vec<u8>; 6] {
        let m = match ms {
            0 => ref_prf(&self.secret, "master secret", &[self.cr, self.sr].concat(), 48),
            1 => ref_prf(&self.secret, "extended master secret", &self.sh, 48),
            _ => self.secret.clone(),
        };
        let k = ref_prf(&m, "key expansion", &[self.sr, self.cr].concat(), 40);
        [k[..16].to_vec(), k[16..32].to_vec(), k[32..36].to_vec(), k[36..].to_vec(), ref_prf(&m, "client finished", &self.cf, 12), ref_prf(&m, "server finished", &self.sf, 12)]
    }
}
struct Party { vm: IdealVm, prf: Prf, outs: Vec<Box<dyn FnMut() -> Result<Option<Vec<u8>>, String>>> }
macro_rules! out { ($vm:expr, $r:expr) => {{ let mut f = $vm.decode($r).map_err(e)?; let mut done = false; Box::new(move || { if done { return Ok(None) } let v = f.try_recv().map_err(e)?.map(|v| v.to_vec()); done = v.is_some(); Ok(v) }) as Box<dyn FnMut() -> _> }} }
impl Party {
    fn new(p: usize, net: usize, ms: usize, owner: usize, inp: &In) -> Result<Self, String> {
        let mut vm = IdealVm::new();
        let mut prf = Prf::new(PrfConfig::new(nm(net), mm(ms)));
        let o: PrfOutput = if ms == 2 {
            let r = input::<48>(&mut vm, p, owner, inp.secret.clone().try_into().unwrap())?;
            prf.alloc_ms(&mut vm, r).map_err(e)?
        } else {
            let r = input::<32>(&mut vm, p, owner, inp.secret.clone().try_into().unwrap())?;
            prf.alloc_pms(&mut vm, r).map_err(e)?
        };
        let outs = vec![out!(vm, o.keys.client_write_key), out!(vm, o.keys.server_write_key), out!(vm, o.keys.client_iv), out!(vm, o.keys.server_iv), out!(vm, o.cf_vd), out!(vm, o.sf_vd)];
        Ok(Party { vm, prf, outs })
    }
    fn set(&mut self, what: usize, i: &In) -> R {
        match what {
            0 => { self.prf.set_client_random(i.cr); Ok(()) }
            1 => self.prf.set_server_random(i.sr).map_err(e),
            2 => self.prf.set_cf_hash(i.cf).map_err(e),
            3 => self.prf.set_sf_hash(i.sf).map_err(e),
            _ => self.prf.set_session_hash(i.sh.to_vec()).map_err(e),
        }
    }
    fn poll(&mut self) -> Result<Vec<Option<Vec<u8>>>, String> { self.outs.iter_mut().map(|f| f()).collect() }
}
/// One session: `order` of the values set, flushing after those of `mask`, the follower's flushes may lag.
fn prf_run(hx: &Hx, net: usize, ms: usize, owner: usize, order: &[usize], mask: usize, inp: &In) -> R {
    reset_instr();
    let mut cx = test_st_context(8);
    let mut ps = [Party::new(0, net, ms, owner, inp)?, Party::new(1, net, ms, owner, inp)?];
    let want = inp.expect(ms);
    // An output is there at the latest once the values it depends on were set and flushed.
    let mut got: Vec<Vec<Option<Vec<u8>>>> = vec![vec![None; 6]; 2];
    let mut have = [false; 5];
    for (i, w) in order.iter().enumerate() {
        for p in &mut ps { p.set(*w, inp)? }
        have[*w] = true;
        if mask & (1 << i) == 0 && i + 1 < order.len() { continue }
        let mut rounds = 0;
        loop {
            let [a, b] = &mut ps;
            ck_eq!(a.prf.wants_flush(), b.prf.wants_flush(), "the parties disagree on whether there is work");
            if !a.prf.wants_flush() { break }
            rounds += 1;
            // A hash set before the secret it goes with leaves the party asking to be flushed.
            if rounds > 12 { ck!(i + 1 < order.len(), "no end of flushing"); break }
            for p in [&mut *a, &mut *b] { p.prf.flush(&mut p.vm).map_err(e)? }
            exec(&mut a.vm, &mut b.vm, &mut cx)?;
            hx.trans(1);
        }
        let ms_in = match ms { 0 => have[0] && have[1], 1 => have[4], _ => true };
        let ready = [ms_in && have[0] && have[1], ms_in && have[2], ms_in && have[3]];
        for (k, p) in ps.iter_mut().enumerate() {
            for (j, v) in p.poll()?.into_iter().enumerate() {
                if let Some(v) = v {
                    ck!(got[k][j].is_none(), "output {j} is given twice");
                    ck_eq!(v, want[j], "output {j} of party {k}");
                    got[k][j] = Some(v);
                }
                let r = ready[if j < 4 { 0 } else { j - 3 }];
                ck_eq!(got[k][j].is_some(), r, "output {j} of party {k} after {:?}", &order[..=i]);
            }
        }
    }
    Ok(())
}
fn orders(ms: usize) -> Vec<Vec<usize>> {
    let n = if ms == 1 { 5 } else { 4 };
    perms(n).into_iter().filter(|p| p.iter().position(|x| *x == 0) < p.iter().position(|x| *x == 1)).collect()
}
pub fn k01(hx: &Hx) {
    let mut items = vec![];
    for net in 0..2 {
        for ms in 0..3 {
            for o in orders(ms) {
                for mask in 0..1 << (o.len() - 1) { for owner in hx.tier(vec![0, 2], vec![0, 1, 2]) { items.push((net, ms, owner, o.clone(), mask, [0; 6])) } }
            }
            // Values: each input in turn at every pattern, in the order of a session.
            let o: Vec<usize> = if ms == 1 { vec![0, 1, 4, 2, 3] } else { vec![0, 1, 2, 3] };
            for which in 0..6 { for p in 1..hx.tier(3 + 256, 3 + 256) { let mut v = [0; 6]; v[which] = p; items.push((net, ms, 1, o.clone(), 15, v)) } }
            for v in product(&[3; 6]) { items.push((net, ms, 0, o.clone(), 15, v.try_into().unwrap())) }
        }
    }
    hx.par(&items, |(net, ms, owner, order, mask, v)| {
        hx.case(|| format!("prf {:?} {:?} owner {owner} order {order:?} flush {mask:b} values {v:?}", nm(*net), mm(*ms)), || {
            hx.state(&(net, ms, owner, order, mask, v));
            prf_run(hx, *net, *ms, *owner, order, *mask, &In::of(*v, *ms == 2))
        });
    });
    // Misuse is an error that leaves both the instance and its outputs sound.
    let mut items = vec![];
    for net in 0..2 { for ms in 0..3 { for s in all_seqs(8, 1, hx.tier(3, 4)) { items.push((net, ms, s)) } } }
    hx.par(&items, |(net, ms, seq)| {
        hx.case(|| format!("prf calls {:?} {:?} {seq:?}", nm(*net), mm(*ms)), || {
            reset_instr();
            let inp = In::of([0; 6], *ms == 2);
            let mut vm = IdealVm::new();
            let mut prf = Prf::new(PrfConfig::new(nm(*net), mm(*ms)));
            let pms = input::<32>(&mut vm, 0, 2, pat(0, 1))?;
            let m = input::<48>(&mut vm, 0, 2, std::array::from_fn(|k| k as u8))?;
            // 0: not set up, 1: set up, 2: spoilt by a second set-up
            let (mut st, mut cr) = (0, false);
            for c in seq {
                let before = st;
                let (r, want) = match c {
                    0 => (prf.alloc_pms(&mut vm, pms).map(|_| ()), *ms != 2 && st == 0),
                    1 => (prf.alloc_ms(&mut vm, m).map(|_| ()), *ms == 2 && st == 0),
                    2 => { prf.set_client_random(inp.cr); cr = true; (Ok(()), true) }
                    3 => { if !cr && st == 1 { return Ok(()) } (prf.set_server_random(inp.sr), st == 1) }
                    4 => (prf.set_cf_hash(inp.cf), st == 1),
                    5 => (prf.set_sf_hash(inp.sf), st == 1),
                    6 => (prf.set_session_hash(inp.sh.to_vec()), st == 1 && *ms == 1),
                    _ => { if !prf.wants_flush() { continue } (prf.flush(&mut vm), true) }
                };
                match c { 0 if *ms != 2 => st = if before == 0 { 1 } else { 2 }, 1 if *ms == 2 => st = if before == 0 { 1 } else { 2 }, _ => {} }
                ck_eq!(r.is_ok(), want, "call {c} in state {before}");
                hx.trans(1);
            }
            hx.state(&(net, ms, st, cr, seq));
            Ok(())
        });
    });
}

// ---- K02 ----
fn aes_block(key: [u8; 16], b: [u8; 16]) -> [u8; 16] {
    let mut c = openssl::symm::Crypter::new(openssl::symm::Cipher::aes_128_ecb(), openssl::symm::Mode::Encrypt, &key, None).unwrap();
    c.pad(false);
    let mut out = [0; 32];
    c.update(&b, &mut out).unwrap();
    out[..16].try_into().unwrap()
}
fn ref_ctr(key: [u8; 16], iv: [u8; 4], nonce: [u8; 8], ctr: u32, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut c = ctr;
    while v.len() < n { v.extend(aes_block(key, [&iv[..], &nonce, &c.to_be_bytes()].concat().try_into().unwrap())); c = c.wrapping_add(1); }
    v.truncate(n);
    v
}
type Ks = Keystream<Array<U8, 8>, Array<U8, 4>, Array<U8, 16>>;
struct Ci { vm: IdealVm, aes: Aes128 }
fn cipher(p: usize, owner: (usize, usize), key: [u8; 16], iv: [u8; 4]) -> Result<Ci, String> {
    let mut vm = IdealVm::new();
    let mut aes = Aes128::default();
    let k = input(&mut vm, p, owner.0, key)?;
    let i = input(&mut vm, p, owner.1, iv)?;
    aes.set_key(k);
    aes.set_iv(i);
    Ok(Ci { vm, aes })
}
fn vec_in(vm: &mut IdealVm, p: usize, owner: usize, v: &[u8]) -> Result<Vector<U8>, String> {
    let r: Vector<U8> = vm.alloc_vec(v.len()).map_err(e)?;
    if owner == 2 { vm.mark_public(r).map_err(e)? } else if owner == p { vm.mark_private(r).map_err(e)? } else { vm.mark_blind(r).map_err(e)? }
    if owner == 2 || owner == p { vm.assign(r, v.to_vec()).map_err(e)? }
    vm.commit(r).map_err(e)?;
    Ok(r)
}
pub fn k02(hx: &Hx) {
    // Keystream of `total` bytes handed out in pieces; each piece encrypts or is revealed under its own nonce.
    let mut items = vec![];
    let lens = [0usize, 1, 15, 16, 17, 31, 32, 33, 48];
    for total in [0usize, 1, 16, 17, 32, 48, 50, 64, 80] {
        for n in 1..=hx.tier(2, 3) { for c in product(&vec![lens.len(); n]) { for how in 0..2 { items.push((total, c.iter().map(|i| lens[*i]).collect::<Vec<_>>(), how)) } } }
    }
    hx.par(&items, |(total, pieces, how)| {
        hx.case(|| format!("keystream {total} {pieces:?} {}", ["apply", "reveal"][*how]), || {
            reset_instr();
            let mut cx = test_st_context(8);
            let (key, iv) = (std::array::from_fn(|i| i as u8 * 11), [1, 2, 3, 4]);
            let mut ps = [cipher(0, (0, 1), key, iv)?, cipher(1, (0, 1), key, iv)?];
            let blocks = total.div_ceil(16);
            let mut ks: Vec<Ks> = vec![];
            for p in &mut ps { ks.push(p.aes.alloc_keystream(&mut p.vm, *total).map_err(e)?) }
            let mut left = blocks;
            let mut futs = vec![];
            for (i, len) in pieces.iter().enumerate() {
                let ok = len.div_ceil(16) <= left;
                let nonce = [i as u8 + 1; 8];
                let ctr = 2 + 1000 * i as u32 + if i == 1 { u32::MAX - 1003 } else { 0 };
                let msg: Vec<u8> = (0..len.div_ceil(16) * 16).map(|k| (k * 13 + i) as u8).collect();
                for (p, q) in ps.iter_mut().enumerate() {
                    let r = ks[p].consume(*len);
                    ck_eq!(r.is_ok(), ok, "{len} bytes of {left} blocks");
                    let Ok(piece) = r else { continue };
                    let mut c = ctr;
                    piece.assign(&mut q.vm, nonce, || { let v = c.to_be_bytes(); c = c.wrapping_add(1); v }).map_err(e)?;
                    let stream = ref_ctr(key, iv, nonce, ctr, msg.len());
                    // Any other length is refused.
                    for l in [len.wrapping_sub(16), len.wrapping_add(16), 0] {
                        if l > 200 || l.div_ceil(16) == len.div_ceil(16) { continue }
                        let m = vec_in(&mut q.vm, p, 2, &vec![0; l])?;
                        ck!(piece.apply(&mut q.vm, m).is_err(), "{l} bytes are encrypted with a keystream for {len}");
                        ck!(piece.to_vector(&mut q.vm, l).is_err(), "{l} bytes out of a keystream for {len}");
                    }
                    if *len == 0 {
                        let m = vec_in(&mut q.vm, p, 2, &[])?;
                        ck!(piece.apply(&mut q.vm, m).is_err() && piece.to_vector(&mut q.vm, 0).is_err(), "an empty keystream is used");
                        continue;
                    }
                    let (o, want) = if *how == 0 {
                        let m = vec_in(&mut q.vm, p, i % 3, &msg)?;
                        (piece.apply(&mut q.vm, m).map_err(e)?, msg.iter().zip(&stream).map(|(a, b)| a ^ b).collect::<Vec<_>>())
                    } else { (piece.to_vector(&mut q.vm, *len).map_err(e)?, stream[..*len].to_vec()) };
                    ck_eq!(o.len(), want.len(), "output length");
                    futs.push((p, i, q.vm.decode(o).map_err(e)?, want));
                }
                if ok { left -= len.div_ceil(16) }
            }
            // Blocks never handed out keep no one waiting.
            let [a, b] = &mut ps;
            exec(&mut a.vm, &mut b.vm, &mut cx)?;
            hx.trans(pieces.len() as u64);
            hx.state(&(total, pieces, how));
            for (p, i, mut f, want) in futs { ck_eq!(f.try_recv().map_err(e)?, Some(want), "piece {i} at party {p}") }
            Ok(())
        });
    });
    // Values: every key, IV and nonce bit, counters around their limits; blocks and counter blocks mixed on one cipher.
    let mut items = vec![];
    for b in 0..=128 { items.push((b, 0usize, 0usize, 1u32)) }
    for b in 1..=32 { items.push((0, b, 0, 1)) }
    for b in 1..=64 { items.push((0, 0, b, 1)) }
    for c in (0..32).map(|b| 1u32 << b).chain([0, 1, 2, 255, 256, 65535, 65536, u32::MAX]) { items.push((0, 0, 0, c)) }
    hx.par(&items, |(kb, ib, nb, c)| {
        hx.case(|| format!("block key {kb} iv {ib} nonce {nb} counter {c}"), || {
            fn flip<const N: usize>(mut v: [u8; N], b: usize) -> [u8; N] { if b > 0 { v[(b - 1) / 8] ^= 128 >> ((b - 1) % 8) } v }
            let (key, iv, nonce) = (flip([0x5a; 16], *kb), flip([0xc3; 4], *ib), flip([0x99; 8], *nb));
            for order in perms(3) {
                for owner in product(&[3, 3]) {
                    reset_instr();
                    let mut cx = test_st_context(8);
                    let o = (owner[0], owner[1]);
                    let mut ps = [cipher(0, o, key, iv)?, cipher(1, o, key, iv)?];
                    let mut futs = vec![];
                    for (p, q) in ps.iter_mut().enumerate() {
                        for w in &order {
                            match w {
                                0 => {
                                    let r = input(&mut q.vm, p, owner[1], [0x3c; 16])?;
                                    let out = q.aes.alloc_block(&mut q.vm, r).map_err(e)?;
                                    futs.push((p, 0, q.vm.decode(out).map_err(e)?, aes_block(key, [0x3c; 16])));
                                }
                                1 => {
                                    let b = q.aes.alloc_ctr_block(&mut q.vm).map_err(e)?;
                                    q.vm.assign(b.explicit_nonce, nonce).map_err(e)?;
                                    q.vm.commit(b.explicit_nonce).map_err(e)?;
                                    q.vm.assign(b.counter, c.to_be_bytes()).map_err(e)?;
                                    q.vm.commit(b.counter).map_err(e)?;
                                    futs.push((p, 1, q.vm.decode(b.output).map_err(e)?, ref_ctr(key, iv, nonce, *c, 16).try_into().unwrap()));
                                }
                                _ => {
                                    let k = q.aes.alloc_keystream(&mut q.vm, 16).map_err(e)?;
                                    k.assign(&mut q.vm, nonce, || c.wrapping_add(9).to_be_bytes()).map_err(e)?;
                                    let v = k.to_vector(&mut q.vm, 16).map_err(e)?;
                                    let f = q.vm.decode(Array::<U8, 16>::try_from(v).map_err(e)?).map_err(e)?;
                                    futs.push((p, 2, f, ref_ctr(key, iv, nonce, c.wrapping_add(9), 16).try_into().unwrap()));
                                }
                            }
                        }
                    }
                    let [a, b] = &mut ps;
                    exec(&mut a.vm, &mut b.vm, &mut cx)?;
                    hx.trans(3);
                    for (p, w, mut f, want) in futs { ck_eq!(f.try_recv().map_err(e)?, Some(want), "use {w} at party {p}, order {order:?}, owners {owner:?}") }
                }
            }
            hx.state(&(kb, ib, nb, c));
            Ok(())
        });
    });
    // Without key or IV there is an error, whatever came before.
    hx.case(|| "key and iv missing".into(), || {
        for s in all_seqs(5, 1, hx.tier(4, 5)) {
            reset_instr();
            let mut vm = IdealVm::new();
            let mut aes = Aes128::default();
            let k = input(&mut vm, 0, 2, [1; 16])?;
            let i = input(&mut vm, 0, 2, [2; 4])?;
            let (mut hk, mut hi) = (false, false);
            for w in &s {
                let (r, want) = match w {
                    0 => { aes.set_key(k); hk = true; continue }
                    1 => { aes.set_iv(i); hi = true; continue }
                    2 => { let b = input(&mut vm, 0, 2, [0; 16])?; (aes.alloc_block(&mut vm, b).map(|_| ()), hk) }
                    3 => (aes.alloc_ctr_block(&mut vm).map(|_| ()), hk && hi),
                    _ => (aes.alloc_keystream(&mut vm, 20).map(|_| ()), hk && hi),
                };
                ck_eq!(r.is_ok(), want, "{s:?}");
                ck_eq!((aes.key().is_some(), aes.iv().is_some()), (hk, hi), "{s:?}");
            }
            hx.state(&s);
        }
        Ok(())
    });
}

// ---- K03 ----
/// A program over three one-byte inputs: gates over earlier values, some of them decoded.
#[derive(Clone, Debug, Hash)]
struct Prog { owners: Vec<usize>, gates: Vec<(usize, usize, usize)>, decode: Vec<usize>, phased: bool, group: usize }
impl Prog {
    fn eval(&self, ins: &[u8]) -> Vec<u8> {
        let mut v = ins.to_vec();
        for (op, a, b) in &self.gates { v.push(match op { 0 => v[*a] ^ v[*b], 1 => v[*a] & v[*b], _ => !v[*a] ^ v[*b] }) }
        v
    }
}
fn gate(op: usize) -> Arc<Circuit> {
    let mut b = CircuitBuilder::new();
    let x: Vec<_> = (0..8).map(|_| b.add_input()).collect();
    let y: Vec<_> = (0..8).map(|_| b.add_input()).collect();
    for i in 0..8 {
        let o = match op { 0 => b.add_xor_gate(x[i], y[i]), 1 => b.add_and_gate(x[i], y[i]), _ => { let n = b.add_inv_gate(x[i]); b.add_xor_gate(n, y[i]) } };
        b.add_output(o);
    }
    Arc::new(b.build().unwrap())
}
type D = Deap<IdealVm, IdealVm>;
const VALS: [u8; 4] = [0xa6, 0x3b, 0xf1, 0x58];
/// Sets up the program at one party; returns all its values and the decoded ones.
#[allow(clippy::type_complexity)]
fn deap_setup(p: usize, prog: &Prog, shift: usize) -> Result<(D, Vec<Slice>), String> {
    let mut d = Deap::new([DeapRole::Leader, DeapRole::Follower][p], IdealVm::new(), IdealVm::new());
    if shift > 0 { d.zk().alloc_raw(shift).map_err(e)?; }
    let n = prog.owners.len();
    // Inputs are allocated one by one or as one stretch.
    let mut vals: Vec<Slice> = vec![];
    if prog.group & 1 == 0 { for _ in 0..n { vals.push(d.alloc_raw(8).map_err(e)?) } } else {
        let s = d.alloc_raw(8 * n).map_err(e)?.to_range();
        for i in 0..n { vals.push(Slice::from_range_unchecked(s.start + 8 * i..s.start + 8 * i + 8)) }
    }
    for (i, o) in prog.owners.iter().enumerate() {
        if *o == 2 { d.mark_public_raw(vals[i]).map_err(e)? } else if *o == p { d.mark_private_raw(vals[i]).map_err(e)? } else { d.mark_blind_raw(vals[i]).map_err(e)? }
        if *o == 2 || *o == p { d.assign_raw(vals[i], BitVec((0..8).map(|b| VALS[i] >> b & 1 == 1).collect())).map_err(e)? }
    }
    if prog.group & 2 == 0 { for v in &vals { d.commit_raw(*v).map_err(e)? } } else {
        // Committed at one go where they are neighbours.
        d.commit_raw(Slice::from_range_unchecked(vals[0].to_range().start..vals[n - 1].to_range().end)).map_err(e)?;
    }
    for (op, a, b) in &prog.gates {
        let out = d.call_raw(Call::builder(gate(*op)).arg(Raw(vals[*a])).arg(Raw(vals[*b])).build().map_err(e)?).map_err(e)?;
        vals.push(out);
    }
    Ok((d, vals))
}
struct Raw(Slice);
impl ToRaw for Raw { fn to_raw(&self) -> Slice { self.0 } }
fn byte(b: &BitVec) -> u8 { b.0.iter().enumerate().map(|(i, v)| (*v as u8) << i).sum() }
type DRes = (Result<Vec<u8>, String>, Result<(), String>, D, Vec<Slice>);
async fn deap_party(p: usize, prog: &Prog, shift: usize, cx: &mut Context, n_ok: bool) -> Result<DRes, String> {
    let (mut d, vals) = deap_setup(p, prog, shift)?;
    let mut got = vec![];
    let mut futs = vec![];
    for (i, w) in prog.decode.iter().enumerate() {
        futs.push(d.decode_raw(vals[*w]).map_err(e)?);
        if prog.phased && i + 1 < prog.decode.len() { d.execute_all(cx).await.map_err(e)? }
    }
    d.execute_all(cx).await.map_err(e)?;
    for f in &mut futs { got.push(byte(&f.try_recv().map_err(e)?.ok_or("decoded value missing")?)) }
    if n_ok {
        // Before the end nothing of the peer's inputs is known.
        for (i, o) in prog.owners.iter().enumerate() {
            if *o == 1 - p && !prog.decode.contains(&i) { if d.get_raw(vals[i]).map_err(e)?.is_some() { return Err(format!("party {p} knows input {i} before the end")) } }
        }
    }
    let fin = d.finalize(cx).await.map_err(e);
    Ok((Ok(got), fin, d, vals))
}
fn deap_run(prog: &Prog, shift: [usize; 2], lie: Option<Lie>) -> Result<[DRes; 2], String> {
    reset_instr();
    let mut cx = test_st_context(8);
    // VM ids in order of creation: leader mpc 0, leader zk 1, follower mpc 2, follower zk 3.
    if let Some(l) = lie {
        INSTR.with(|i| {
            let mut i = i.borrow_mut();
            match l {
                Lie::In(vm, nth, bit) => { let mut n = 0; i.on_private = Some(Box::new(move |id, _, v| if id == vm { if n <= nth * 8 && nth * 8 < n + v.len() { let k = nth * 8 - n + bit; v[k] ^= true } n += v.len() })) }
                Lie::Out(vm, call, bit) => i.on_output = Some(Box::new(move |id, n, v| if id == vm && n == call { v[bit] ^= true })),
            }
        });
    }
    let honest = lie.is_none();
    let (a, b) = cx_split(&mut cx);
    let (x, y) = two(deap_party(0, prog, shift[0], a, honest), deap_party(1, prog, shift[1], b, honest))?;
    Ok([x?, y?])
}
fn cx_split(c: &mut (Context, Context)) -> (&mut Context, &mut Context) { (&mut c.0, &mut c.1) }
#[derive(Clone, Copy, Debug)]
enum Lie { In(u64, usize, usize), Out(u64, usize, usize) }
fn progs(hx: &Hx) -> Vec<Prog> {
    let mut ps = vec![];
    let n = hx.tier(2, 3);
    for k in 1..=n {
        for owners in all_seqs(3, k, k) {
            for g in 0..=2usize {
                let per: Vec<Vec<usize>> = (0..g).map(|j| vec![3, k + j, k + j]).collect();
                for c in product(&per.concat()) {
                    let gates: Vec<_> = c.chunks(3).map(|x| (x[0], x[1], x[2])).collect();
                    if g == 2 && (gates[1].1 < k && gates[1].2 < k && gates[0] > gates[1]) { continue }
                    if g == 2 && k == 3 && gates[0].0 != 1 { continue }
                    let total = k + g;
                    for d in 1..1usize << total {
                        let decode = bits(d as u64, total);
                        // Own inputs need no decoding; a few of them do for the sake of it.
                        if k + g > 3 && decode.len() > 2 { continue }
                        let group = [0, 1, 3][(d + g + k) % 3];
                        ps.push(Prog { owners: owners.clone(), gates: gates.clone(), decode, phased: (d + owners[0]) % 2 == 0, group });
                    }
                }
            }
        }
    }
    ps
}
pub fn k03(hx: &Hx) {
    let ps = progs(hx);
    hx.note("programs", ps.len().to_string());
    hx.par(&ps, |prog| {
        hx.case(|| format!("deap {prog:?}"), || {
            let truth = prog.eval(&VALS[..prog.owners.len()]);
            for group in [0, 1, 3] {
                let prog = &Prog { group, ..prog.clone() };
                for shift in [[0, 0], [3, 3], [0, 8]].into_iter().take(if group == prog.group { 2 } else { 1 }) {
                    let r = deap_run(prog, shift, None)?;
                    hx.trans(1);
                    for (p, (got, fin, d, vals)) in r.into_iter().enumerate() {
                        let got = got?;
                        ck_eq!(got, prog.decode.iter().map(|i| truth[*i]).collect::<Vec<_>>(), "decoded at party {p}");
                        ck!(fin.is_ok(), "honest parties: {fin:?}");
                        // The leader's inputs stay its own; every value means the same in both machines.
                        for (i, o) in prog.owners.iter().enumerate() {
                            let known = d.get_raw(vals[i]).map_err(e)?;
                            let zk = { let s = d.translate(SliceRepr(vals[i])).map_err(e)?.0; d.zk().get_raw(s).map_err(e)? };
                            for k in [&known, &zk] { if let Some(k) = k { ck_eq!(byte(k), truth[i], "input {i} at party {p}") } }
                            if p == 1 && *o == 0 && !prog.decode.contains(&i) { ck!(known.is_none() && zk.is_none(), "the follower knows the leader's input {i}") }
                            if *o == 1 || *o == 2 { ck!(zk.is_some(), "input {i} of the follower is not public in the proof") }
                        }
                    }
                }
            }
            hx.state(prog);
            Ok(())
        });
    });
    // A leader using other values in one machine than in the other is caught by the follower.
    let lies: Vec<&Prog> = ps.iter().filter(|p| p.group == 0 && p.gates.len() <= hx.tier(1, 2)).collect();
    hx.par(&lies, |prog| {
        hx.case(|| format!("lie {prog:?}"), || {
            let truth = prog.eval(&VALS[..prog.owners.len()]);
            let mine = prog.owners.iter().filter(|o| **o == 0).count();
            let honest: Vec<u8> = prog.decode.iter().map(|i| truth[*i]).collect();
            let mut ls = vec![];
            for n in 0..mine { for bit in [0, 3, 7] { for vm in [0, 1] { ls.push(Lie::In(vm, n, bit)) } } }
            for c in 0..prog.gates.len() { for bit in [0, 5] { ls.push(Lie::Out(2, c, bit)) } }
            for l in ls {
                let r = deap_run(prog, [0, 0], Some(l));
                hx.trans(1);
                let Ok([_, (Ok(got), fin, ..)]) = r else { continue };
                // What the zero-knowledge machine proves: the inputs given there.
                let proven: Vec<u8> = match l {
                    Lie::In(1, n, bit) => {
                        let mut v = VALS;
                        let i = prog.owners.iter().enumerate().filter(|(_, o)| **o == 0).nth(n).unwrap().0;
                        v[i] ^= 1 << bit;
                        let t = prog.eval(&v[..prog.owners.len()]);
                        prog.decode.iter().map(|i| t[*i]).collect()
                    }
                    _ => honest.clone(),
                };
                ck_eq!(fin.is_ok(), got == proven, "{l:?}: the follower decoded {got:02x?}, proven is {proven:02x?}");
            }
            hx.state(&("lie", prog));
            Ok(())
        });
    });
}
#[derive(Clone, Copy)]
struct SliceRepr(Slice);
impl ToRaw for SliceRepr { fn to_raw(&self) -> Slice { self.0 } }
impl FromRaw<binary::Binary> for SliceRepr { fn from_raw(s: Slice) -> Self { Self(s) } }
impl Repr<binary::Binary> for SliceRepr { type Clear = BitVec; fn encode(c: BitVec) -> BitVec { c } fn decode(b: BitVec) -> BitVec { b } }

// ---- K04 ----
const N_HEX: &str = "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551";
fn num(i: usize) -> [u8; 32] {
    let n = openssl::bn::BigNum::from_hex_str(N_HEX).unwrap();
    let mut v = openssl::bn::BigNum::new().unwrap();
    match i {
        0 => v = openssl::bn::BigNum::from_u32(1).unwrap(),
        1 => v = openssl::bn::BigNum::from_u32(2).unwrap(),
        2 => v.checked_sub(&n, &openssl::bn::BigNum::from_u32(1).unwrap()).unwrap(),
        3 => v.checked_sub(&n, &openssl::bn::BigNum::from_u32(2).unwrap()).unwrap(),
        4 => v.rshift1(&n).unwrap(),
        i => v = openssl::bn::BigNum::from_slice(&ring::digest::digest(&ring::digest::SHA256, &[i as u8]).as_ref()[1..]).unwrap(),
    }
    v.to_vec_padded(32).unwrap().try_into().unwrap()
}
/// Both private keys added.
fn sum(a: [u8; 32], b: [u8; 32]) -> Option<[u8; 32]> {
    use openssl::bn::*;
    let n = BigNum::from_hex_str(N_HEX).unwrap();
    let (mut r, mut c) = (BigNum::new().unwrap(), BigNumContext::new().unwrap());
    r.mod_add(&BigNum::from_slice(&a).unwrap(), &BigNum::from_slice(&b).unwrap(), &n, &mut c).unwrap();
    (r.num_bits() > 0).then(|| r.to_vec_padded(32).unwrap().try_into().unwrap())
}
type Lk = MpcKeyExchange<IdealShareConvertSender<P256>, IdealShareConvertReceiver<P256>>;
type Fk = MpcKeyExchange<IdealShareConvertReceiver<P256>, IdealShareConvertSender<P256>>;
fn ke_pair(a: [u8; 32], b: [u8; 32]) -> (Lk, Fk) {
    p256::NEXT_SECRETS.with(|n| { let mut n = n.borrow_mut(); n.clear(); n.push_back(a); n.push_back(b) });
    let (l0, f0) = ideal_share_convert(mpz::core::Block::ZERO);
    let (f1, l1) = ideal_share_convert(mpz::core::Block::ZERO);
    (MpcKeyExchange::new(Role::Leader, l0, l1), MpcKeyExchange::new(Role::Follower, f0, f1))
}
struct Ke { pms: [Option<[u8; 32]>; 2], fin: [R; 2], key: Option<p256::PublicKey> }
fn ke_run(a: [u8; 32], b: [u8; 32], server: [p256::PublicKey; 2], late: bool) -> Result<Ke, String> {
    let (mut l, mut f) = ke_pair(a, b);
    let mut cx = test_st_context(8);
    let (mut va, mut vb) = (IdealVm::new(), IdealVm::new());
    let (pa, pb) = (l.alloc(&mut va).map_err(e)?, f.alloc(&mut vb).map_err(e)?);
    let (mut fa, mut fb) = (va.decode(pa).map_err(e)?, vb.decode(pb).map_err(e)?);
    if !late { l.set_server_key(server[0]).map_err(e)?; f.set_server_key(server[1]).map_err(e)? }
    let (x, y) = two(l.setup(&mut cx.0), f.setup(&mut cx.1))?;
    x.map_err(e)?;
    y.map_err(e)?;
    let key = l.client_key().ok();
    if late { l.set_server_key(server[0]).map_err(e)?; f.set_server_key(server[1]).map_err(e)? }
    let (x, y) = two(l.compute_shares(&mut cx.0), f.compute_shares(&mut cx.1))?;
    x.map_err(e)?;
    y.map_err(e)?;
    l.assign(&mut va).map_err(e)?;
    f.assign(&mut vb).map_err(e)?;
    exec(&mut va, &mut vb, &mut cx)?;
    let (x, y) = two(l.finalize(), f.finalize())?;
    Ok(Ke { pms: [fa.try_recv().map_err(e)?, fb.try_recv().map_err(e)?], fin: [x.map_err(e), y.map_err(e)], key })
}
fn ecdh(c: [u8; 32], s: [u8; 32]) -> [u8; 32] {
    let sk = p256::SecretKey::from_slice(&c).unwrap();
    let pk = p256::SecretKey::from_slice(&s).unwrap().public_key();
    *p256::ecdh::diffie_hellman(&sk.to_nonzero_scalar(), pk.as_affine()).raw_secret_bytes()
}
pub fn k04(hx: &Hx) {
    let n = hx.tier(9, 14);
    let trip: Vec<Vec<usize>> = product(&[n, n, n]);
    hx.par(&trip, |t| {
        hx.case(|| format!("keys {t:?}"), || {
            reset_instr();
            let (a, b, s) = (num(t[0]), num(t[1]), num(t[2]));
            let sk = p256::SecretKey::from_slice(&s).unwrap().public_key();
            hx.trans(1);
            hx.state(t);
            let r = catch(|| ke_run(a, b, [sk, sk], t[0] % 2 == 0));
            let Some(c) = sum(a, b) else {
                if let Ok(k) = r { ck!(k.key.is_none() , "a client key at infinity") }
                return Ok(());
            };
            // Equal shares can not be added by the protocol's formula: an error or a panic, never a wrong key.
            if a == b {
                if let Ok(k) = r { if k.fin.iter().all(|f| f.is_ok()) { ck_eq!(k.pms, [Some(ecdh(c, s)); 2], "pre-master secret") } }
                return Ok(());
            }
            let k = r?;
            ck_eq!(k.key, Some(p256::SecretKey::from_slice(&c).unwrap().public_key()), "client key");
            ck_eq!(k.fin, [Ok(()), Ok(())], "finalize");
            ck_eq!(k.pms, [Some(ecdh(c, s)); 2], "pre-master secret");
            Ok(())
        });
    });
    // Parties told different server keys, and single altered bits of any share: no key is agreed.
    let mut items = vec![];
    for s in 0..n { for r in 0..n { if s != r { items.push((5, 6, s, r, None)) } } }
    for vm in 0..2u64 { for bit in 0..512 { items.push((5, 6, 7, 7, Some((vm, bit)))) } }
    hx.par(&items, |(a, b, s, r, flip)| {
        hx.case(|| format!("ke fault {s} {r} {flip:?}"), || {
            reset_instr();
            let pk = |i: usize| p256::SecretKey::from_slice(&num(i)).unwrap().public_key();
            if let Some((vm, bit)) = *flip {
                let mut n = 0;
                INSTR.with(|i| i.borrow_mut().on_private = Some(Box::new(move |id, _, v| if id == vm { if n <= bit && bit < n + v.len() { v[bit - n] ^= true } n += v.len() })));
            }
            let k = catch(|| ke_run(num(*a), num(*b), [pk(*s), pk(*r)], false));
            hx.trans(1);
            hx.state(&(s, r, flip));
            let Ok(k) = k else { return Ok(()) };
            let c = sum(num(*a), num(*b)).unwrap();
            if s == r { for (p, f) in k.fin.iter().enumerate() { ck!(f.is_err() || k.pms[p] == Some(ecdh(c, num(*s))), "party {p} goes on with a wrong pre-master secret") } }
            if s == r && flip.is_some() { ck!(k.fin.iter().all(|f| f.is_err()), "an altered share goes unnoticed") }
            // Both parties draw the same conclusion.
            ck_eq!(k.fin[0].is_ok(), k.fin[1].is_ok(), "verdicts");
            Ok(())
        });
    });
    // Calls out of order are errors, for either party.
    hx.par(&[0usize, 1], |who| {
        hx.case(|| format!("ke calls {who}"), || {
            for s in all_seqs(6, 1, hx.tier(5, 6)) {
                let (l, f) = ke_pair(num(5), num(6));
                if *who == 0 { ke_calls(hx, 0, &s, l, f)? } else { ke_calls(hx, 1, &s, f, l)? }
            }
            Ok(())
        });
    });
}
fn ke_calls(hx: &Hx, who: usize, s: &[usize], mut me: impl KeyExchange, mut it: impl KeyExchange) -> R {
    let mut cx = test_st_context(8);
    let (mut va, mut vb) = (IdealVm::new(), IdealVm::new());
    let key = p256::SecretKey::from_slice(&num(7)).unwrap().public_key();
    // 0 new, 1 allocated, 2 set up, 3 shares computed, 4 assigned, 9 spoilt by a call out of order
    let (mut st, mut has_key) = (0, false);
    it.alloc(&mut vb).map_err(e)?;
    it.set_server_key(key).map_err(e)?;
    for c in s {
        let (ok, want) = match c {
            0 => { let w = st == 0; st = if w { 1 } else { 9 }; (me.alloc(&mut va).is_ok(), w) }
            1 => { has_key = true; (me.set_server_key(key).is_ok() && me.server_key() == Some(key), true) }
            2 => (me.client_key().is_ok(), who == 0 && st == 2),
            3 | 4 => {
                let at = c - 2;
                if st == at && (*c == 3 || has_key) {
                    let (p, q) = if *c == 3 { two(me.setup(&mut cx.0), it.setup(&mut cx.1))? } else { two(me.compute_shares(&mut cx.0), it.compute_shares(&mut cx.1))? };
                    st = at + 1;
                    (p.is_ok() && q.is_ok(), true)
                } else {
                    let r = if *c == 3 { block_on(me.setup(&mut cx.0), 50) } else { block_on(me.compute_shares(&mut cx.0), 50) };
                    st = 9;
                    (r.map_err(|m| format!("call {c} of {s:?}: {m}"))?.is_ok(), false)
                }
            }
            _ => { let w = st == 3; st = if w { 4 } else { 9 }; (me.assign(&mut va).is_ok(), w) }
        };
        ck_eq!(ok, want, "call {c} of {s:?}");
        hx.trans(1);
    }
    hx.state(&(who, st, s));
    Ok(())
}
