//! T01: record deframing. Model: a parser over the whole delivered prefix.
use crate::wire::rec;
use futures::io::AsyncRead;
use hx_lib::*;
use std::{
    io,
    pin::Pin,
    task::{Context, Poll},
};
use tls_core::msgs::{deframer::MessageDeframer, message::OpaqueMessage};

const MAX: usize = OpaqueMessage::MAX_WIRE_SIZE;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    frames: Vec<(u8, u16, Vec<u8>)>,
    /// First byte not yet part of a delivered frame.
    at: usize,
    bad: bool,
}
/// What must have come out after exactly `buf` was delivered.
pub fn model(buf: &[u8]) -> Model {
    let mut m = Model::default();
    loop {
        let r = &buf[m.at..];
        if r.len() < 5 {
            return m;
        }
        let (t, v, l) = (r[0], (r[1] as u16) << 8 | r[2] as u16, (r[3] as usize) << 8 | r[4] as usize);
        let known = matches!(t, 20..=24);
        if !known || (l == 0 && t != 23) || l >= 16384 + 2048 || (v >> 8 != 3 && !known_version(v)) {
            m.bad = true;
            return m;
        }
        if r.len() < 5 + l {
            return m;
        }
        m.frames.push((t, v, r[5..5 + l].to_vec()));
        m.at += 5 + l;
    }
}
/// Versions the parser knows by name outside 0x03XX are let through at this layer.
fn known_version(v: u16) -> bool {
    matches!(v, 0x0200 | 0xfeff | 0xfefd)
}

struct Feed<'a> {
    data: &'a [u8],
    err: Option<io::ErrorKind>,
}
impl io::Read for Feed<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some(k) = self.err.take() {
            return Err(k.into());
        }
        let n = b.len().min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
struct AFeed<'a> {
    data: &'a [u8],
    pend: usize,
    err: Option<io::ErrorKind>,
}
impl AsyncRead for AFeed<'_> {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.pend > 0 {
            self.pend -= 1;
            return Poll::Pending;
        }
        if let Some(k) = self.err.take() {
            return Poll::Ready(Err(k.into()));
        }
        let n = b.len().min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Poll::Ready(Ok(n))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Sync,
    /// Every read: io error first, then an empty read, then the data.
    SyncFaulty,
    Async,
    /// Every read: a pending read that is cancelled, then an error, then Pending once, then data.
    AsyncCancel,
}
const MODES: [Mode; 4] = [Mode::Sync, Mode::SyncFaulty, Mode::Async, Mode::AsyncCancel];

fn frames_of(d: &MessageDeframer) -> Vec<(u8, u16, Vec<u8>)> {
    d.frames.iter().map(|m| (m.typ.get_u8(), m.version.get_u16(), m.payload.0.clone())).collect()
}

fn run_chunks(h: &Hx, stream: &[u8], ends: &[usize], mode: Mode, drain: bool) -> R {
    let mut d = MessageDeframer::new();
    ck!(!d.has_pending(), "fresh deframer claims pending data");
    let mut fed = 0;
    let mut drained: Vec<(u8, u16, Vec<u8>)> = vec![];
    for &e in ends {
        let mut chunk = &stream[fed..e];
        while !chunk.is_empty() {
            let m0 = model(&stream[..fed]);
            if m0.bad {
                // The stream cannot be recovered: nothing more may ever come out.
                let before = d.frames.len();
                let _ = d.read(&mut Feed { data: chunk, err: None });
                ck!(d.desynced, "desync forgotten");
                ck_eq!(d.frames.len(), before, "frame delivered after desync");
                return Ok(());
            }
            let room = MAX - (fed - m0.at);
            let n = match mode {
                Mode::Sync => d.read(&mut Feed { data: chunk, err: None }).map_err(|e| e.to_string())?,
                Mode::SyncFaulty => {
                    for k in [io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionReset] {
                        let r = d.read(&mut Feed { data: chunk, err: Some(k) });
                        ck!(r.as_ref().map_err(|e| e.kind()) == Err(k), "error not propagated: {r:?}");
                    }
                    let z = d.read(&mut Feed { data: &[], err: None }).map_err(|e| e.to_string())?;
                    ck_eq!(z, 0, "empty read");
                    d.read(&mut Feed { data: chunk, err: None }).map_err(|e| e.to_string())?
                }
                Mode::Async => {
                    let mut f = AFeed { data: chunk, pend: 0, err: None };
                    block_on(d.read_async(&mut f), 10)?.map_err(|e| e.to_string())?
                }
                Mode::AsyncCancel => {
                    {
                        let mut f = AFeed { data: chunk, pend: 5, err: None };
                        let fut = d.read_async(&mut f);
                        let mut fut = std::pin::pin!(fut);
                        ck!(poll_once(fut.as_mut()).is_pending(), "ready before data");
                    }
                    let mut f = AFeed { data: chunk, pend: 0, err: Some(io::ErrorKind::TimedOut) };
                    let r = block_on(d.read_async(&mut f), 10)?;
                    ck!(r.is_err(), "async error swallowed");
                    let mut f = AFeed { data: chunk, pend: 1, err: None };
                    block_on(d.read_async(&mut f), 10)?.map_err(|e| e.to_string())?
                }
            };
            ck_eq!(n, chunk.len().min(room), "bytes taken");
            chunk = &chunk[n..];
            fed += n;
            let m = model(&stream[..fed]);
            h.trans(1);
            h.state(&(m.frames.len(), &stream[m.at..fed], m.bad));
            let mut got = drained.clone();
            got.extend(frames_of(&d));
            ck_eq!(got, m.frames, "frames after {fed} bytes");
            ck_eq!(d.desynced, m.bad, "desync flag after {fed} bytes");
            if drain {
                while let Some(f) = d.frames.pop_front() {
                    drained.push((f.typ.get_u8(), f.version.get_u16(), f.payload.0));
                }
            }
            ck_eq!(d.has_pending(), !d.frames.is_empty() || m.at < fed, "has_pending after {fed} bytes");
        }
    }
    Ok(())
}

pub fn t01(h: &Hx) {
    // Alphabet of records; header-only errors included.
    let alpha: Vec<(&str, Vec<u8>)> = vec![
        ("hs1", rec(22, 0x0301, &[7])),
        ("hs2", rec(22, 0x0303, &[22, 3])),
        ("app0", rec(23, 0x0303, &[])),
        ("app1", rec(23, 0x0303, &[0x17])),
        ("app3", rec(23, 0x0304, &[0x15, 3, 3])),
        ("ccs", rec(20, 0x0303, &[1])),
        ("alert", rec(21, 0x0300, &[1, 0])),
        ("v03ff", rec(22, 0x03ff, &[9])),
        ("hb", rec(24, 0x0303, &[5])),
        ("sslv2", rec(22, 0x0200, &[9])),
        ("bad-hs0", rec(22, 0x0303, &[])),
        ("bad-al0", rec(21, 0x0303, &[])),
        ("bad-ccs0", rec(20, 0x0303, &[])),
        ("bad-t0", rec(0, 0x0303, &[1])),
        ("bad-t25", rec(25, 0x0303, &[1])),
        ("bad-t19", rec(19, 0x0303, &[1])),
        ("bad-v4", rec(23, 0x0403, &[1])),
        ("bad-v0", rec(23, 0x0003, &[1])),
        ("bad-len", vec![23, 3, 3, 0x48, 0x00, 1]),
        ("bad-lenff", vec![22, 3, 3, 0xff, 0xff, 1]),
    ];
    // 1. every chunking (all 2^(n-1) compositions) of every sequence of up to 2 (3) records.
    let mut streams: Vec<(String, Vec<u8>)> = vec![];
    for s in all_seqs(alpha.len(), 1, h.tier(3, 4)) {
        let bytes: Vec<u8> = s.iter().flat_map(|&i| alpha[i].1.clone()).collect();
        // nothing is generated after a record the model already rejects
        if s.iter().rev().skip(1).any(|&i| alpha[i].0.starts_with("bad")) {
            continue;
        }
        streams.push((s.iter().map(|&i| alpha[i].0).collect::<Vec<_>>().join("+"), bytes));
    }
    h.note("bounds_small", format!("{} record sequences, all chunkings of streams up to {} bytes (longer: <=2 cuts)", streams.len(), h.tier(12, 14)));
    let full = h.tier(12, 14);
    h.par(&streams, |(name, s)| {
        let ends: Vec<Vec<usize>> = if s.len() <= full {
            compositions(s.len()).into_iter().map(|c| c.iter().scan(0, |a, x| { *a += x; Some(*a) }).collect()).collect()
        } else {
            cuts(&(1..s.len()).collect::<Vec<_>>(), 2).into_iter().map(|mut c| { c.push(s.len()); c }).collect()
        };
        for e in &ends {
            for (mi, mode) in MODES.iter().enumerate() {
                if *mode != Mode::Sync && mi != (e.len() % 3) + 1 && !h.thorough() {
                    continue;
                }
                h.case(|| format!("small/{name}/{e:?}/{mode:?}"), || run_chunks(h, s, e, *mode, e.len() % 2 == 0));
            }
        }
    });
    // 2. exhaustive header decision: every type byte, every version hi byte, boundary lengths.
    let types: Vec<u8> = (0..=255).collect();
    h.par(&types, |&t| {
        for vhi in 0..=255u16 {
            for vlo in [0u16, 3, 4, 0xff, 0xfd] {
                for len in [0usize, 1, 2, 16384, 18431, 18432, 18433, 65535] {
                    let v = vhi << 8 | vlo;
                    h.case(|| format!("hdr/{t}/{v:04x}/{len}"), || {
                        let hdr = vec![t, vhi as u8, vlo as u8, (len >> 8) as u8, len as u8];
                        run_chunks(h, &hdr, &[5], Mode::Sync, false)
                    });
                }
            }
        }
    });
    let vers: Vec<u32> = (0..=0xffff).collect();
    h.par(&vers, |&v| {
        for t in [20u8, 21, 22, 23, 24] {
            h.case(|| format!("ver/{t}/{v:04x}"), || {
                let s = vec![t, (v >> 8) as u8, v as u8, 0, 1, 7];
                run_chunks(h, &s, &[5, 6], Mode::Sync, false)
            });
        }
    });
    let lens: Vec<usize> = (0..=0xffff).collect();
    h.par(&lens, |&len| {
        for t in [20u8, 21, 22, 23, 24] {
            h.case(|| format!("len/{t}/{len}"), || {
                let hdr = vec![t, 3, 3, (len >> 8) as u8, len as u8];
                run_chunks(h, &hdr, &[4, 5], Mode::Sync, false)
            });
        }
    });
    // 3. maximum-size records: buffer-full behaviour around every boundary.
    let mut big = vec![];
    for (name, lens) in [
        ("max", vec![18431usize]),
        ("max+1", vec![18431, 1]),
        ("1+max", vec![1, 18431]),
        ("max+max", vec![18431, 18431]),
        ("16k+16k+5", vec![16384, 16384, 5]),
        ("18430+18431+2", vec![18430, 18431, 2]),
        ("max+bad", vec![18431, 18432]),
    ] {
        let mut s = vec![];
        let mut marks = vec![];
        for (i, l) in lens.iter().enumerate() {
            let body: Vec<u8> = (0..*l).map(|j| (j * 7 + i * 13 + (j >> 8)) as u8).collect();
            let st = s.len();
            s.extend(rec(23, 0x0303, &body));
            for k in [st + 1, st + 4, st + 5, st + 6, s.len() - 1, s.len()] {
                marks.push(k);
            }
        }
        marks.retain(|k| *k > 0 && *k < s.len());
        marks.sort();
        marks.dedup();
        big.push((name, s, marks));
    }
    let jobs: Vec<(usize, Vec<usize>)> = big
        .iter()
        .enumerate()
        .flat_map(|(i, b)| cuts(&b.2, h.tier(3, 5)).into_iter().map(move |c| (i, c)))
        .collect();
    h.par(&jobs, |(i, c)| {
        let (name, s, _) = &big[*i];
        let mut e = c.clone();
        e.push(s.len());
        for mode in MODES {
            h.case(|| format!("big/{name}/{c:?}/{mode:?}"), || run_chunks(h, s, &e, mode, false));
        }
    });
    // 4. bursts: any number of records in one read, and long histories on one deframer.
    let counts: Vec<usize> = (1..=3687).collect();
    h.par(&counts, |&k| {
        for len in [0usize, 1, 3, 60] {
            if k * (5 + len) > MAX {
                continue;
            }
            h.case(|| format!("burst/{k}/{len}"), || {
                let want: Vec<Vec<u8>> = (0..k).map(|i| (0..len).map(|j| (i * 31 + j) as u8).collect()).collect();
                let s: Vec<u8> = want.iter().flat_map(|p| rec(23, 0x0303, p)).collect();
                for tail in [0usize, 1, 4] {
                    // `tail` bytes of a further record stay behind and are completed by the next read
                    if s.len() + tail > MAX {
                        continue;
                    }
                    let next = rec(22, 0x0303, &[1, 2]);
                    let mut d = MessageDeframer::new();
                    let one = [&s[..], &next[..tail]].concat();
                    let n = d.read(&mut Feed { data: &one, err: None }).map_err(|e| e.to_string())?;
                    ck_eq!(n, one.len(), "burst not taken");
                    let got: Vec<Vec<u8>> = d.frames.iter().map(|m| m.payload.0.clone()).collect();
                    ck!(got == want, "burst of {k} records delivered {} of them", got.len());
                    d.read(&mut Feed { data: &next[tail..], err: None }).map_err(|e| e.to_string())?;
                    ck_eq!(d.frames.len(), k + 1, "record after the burst");
                    ck_eq!(d.frames[k].payload.0.clone(), vec![1u8, 2], "record after the burst");
                    ck!(!d.desynced, "desync in a clean burst");
                    h.trans(2);
                }
                h.state(&(k, len));
                Ok(())
            });
        }
    });
    let steps: Vec<usize> = vec![1, 2, 5, 7, 100, 4096, 16389, 18436, 1 << 20];
    h.par(&steps, |&st| {
        for period in 1..=h.tier(24usize, 64) {
            h.case(|| format!("long/{st}/{period}"), || {
                // record sizes cycle through `period` values; small reads get a shorter stream
                let total = if st < 8 { 60_000 } else { 400_000 };
                let (mut s, mut want, mut i) = (vec![], vec![], 0usize);
                while s.len() < total {
                    let len = ([1usize, 16384, 2, 300, 18431, 5][i % period % 6] + i % period / 6).min(18431);
                    let p: Vec<u8> = (0..len).map(|j| (j * 3 + i * 7 + (j >> 8)) as u8).collect();
                    s.extend(rec(23, 0x0303, &p));
                    want.push(p);
                    i += 1;
                    if i > 20_000 { break }
                }
                let mut d = MessageDeframer::new();
                let (mut at, mut seen) = (0, 0);
                while at < s.len() {
                    let e = (at + st).min(s.len());
                    let n = d.read(&mut Feed { data: &s[at..e], err: None }).map_err(|e| e.to_string())?;
                    ck!(n > 0, "deframer took nothing at {at}");
                    at += n;
                    h.trans(1);
                    while let Some(f) = d.frames.pop_front() {
                        ck!(seen < want.len() && f.payload.0 == want[seen], "record {seen} of a long stream differs");
                        seen += 1;
                    }
                    ck!(!d.desynced, "desync at {at}");
                }
                ck_eq!(seen, want.len(), "records of a long stream");
                ck!(!d.has_pending(), "pending data after a complete stream");
                h.state(&(st, period));
                Ok(())
            });
        }
    });
    h.assume("OS-level readers deliver bytes unmodified; chunking, errors, EOF and cancellation are enumerated");
}
